"""Exact sets of Unicode scalar values, as sorted tuples of inclusive ranges."""

FULL = ((0, 0xD7FF), (0xE000, 0x10FFFF))
EMPTY = ()


def of(chars):
    return norm([(ord(c), ord(c)) for c in chars])


def rng(lo, hi):
    return norm([(lo, hi)])


def norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a):
    out = []
    prev = 0
    for lo, hi in a:
        if prev <= lo - 1:
            out.append((prev, lo - 1))
        prev = hi + 1
    if prev <= 0x10FFFF:
        out.append((prev, 0x10FFFF))
    return inter(tuple(out), FULL)


def union(a, b):
    return inter(norm(list(a) + list(b)), FULL)


def minus(a, b):
    return inter(a, compl(b))


def has(a, cp):
    return any(lo <= cp <= hi for lo, hi in a)


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def show(a, limit=40):
    if a == FULL:
        return 'ANY'
    c = compl(a)
    if size(c) < size(a) and size(c) <= 60:
        return '^[' + show(c) + ']'
    out = []
    for lo, hi in a:
        if hi - lo < 3:
            out += [esc(x) for x in range(lo, hi + 1)]
        else:
            out.append(esc(lo) + '-' + esc(hi))
        if len(out) > limit:
            out.append('...')
            break
    return ''.join(out)


def esc(cp):
    if 0x20 < cp < 0x7F:
        return chr(cp)
    return '\\u{%x}' % cp


def to_lower_preimage(s):
    """Preimage of s under char::to_ascii_lowercase."""
    up = []
    for lo, hi in inter(s, ((97, 122),)):
        up.append((lo - 32, hi - 32))
    stay = minus(s, ((65, 90),))
    return union(stay, norm(up))


def to_upper_preimage(s):
    lo_ = []
    for lo, hi in inter(s, ((65, 90),)):
        lo_.append((lo + 32, hi + 32))
    stay = minus(s, ((97, 122),))
    return union(stay, norm(lo_))


PRE = {'lower': to_lower_preimage, 'upper': to_upper_preimage}


def apply(maps, cp):
    for m in maps:
        if m == 'lower' and 65 <= cp <= 90:
            cp += 32
        elif m == 'upper' and 97 <= cp <= 122:
            cp -= 32
    return cp
