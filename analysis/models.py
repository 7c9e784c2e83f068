"""Abstract transformers for the standard-library leaves the code under analysis uses."""
import charset as CS
from interp import (Decision, FALSE, Infeasible, TRUE, UNIT, Unsupported, I, ladd, lin, is_sym)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def cursor_of(v):
    """The cursor a linear address value denotes, or None."""
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    return None


def addr(c):
    return lin(0, ((c, 1),))


# ---------------------------------------------------------------------------------------- str
@model('core::str::<impl str>::len', 'core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len')
def str_len(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'arr':
        return ctx.ret(I(len(v[1])))
    return ctx.ret(ctx.it.length(ctx.st, v))


@model('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty')
def str_is_empty(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('str', 'tok'):
        return ctx.ret(ctx.it.lazy(ctx.st, ('eqc',) + tuple(sorted((v[1], v[2])))))
    if v[0] == 'cs':
        return ctx.ret(('b', int(not v[1])))
    if v[0] == 'arr':
        return ctx.ret(('b', int(not v[1])))
    return NotImplemented


@model('core::str::<impl str>::as_ptr', 'core::slice::<impl [T]>::as_ptr')
def str_as_ptr(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('str', 'tok'):
        return ctx.ret(addr(v[1]))
    return NotImplemented


@model('core::str::<impl str>::as_bytes', 'core::str::<impl str>::as_str', 'std::convert::AsRef::as_ref',
       'std::string::String::as_str')
def str_same(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('str', 'cs'):
        return ctx.ret(v)
    return NotImplemented


def index_cursor(ctx, s, off):
    """The cursor at byte offset `off` of the slice s, with a proof obligation."""
    it, st = ctx.it, ctx.st
    key = (ctx.body['path'], ctx.body['file'], 'str index')
    v = ladd(addr(s[1]), off) if off is not None else None
    c = cursor_of(v) if v is not None else None
    if c is not None:
        ok = (c == s[1] or (s[1], c) in st.le) and (c == s[2] or (c, s[2]) in st.le)
        it.oblige(st, key, ok, ctx.line, ('bounds', s, c))
        if not ok:
            st.add_le(s[1], c)
            st.add_le(c, s[2])
        return c
    # offset into the constant-length prefix that has already been read
    if v is not None and v[0] == 'lin' and len(v[2]) == 1 and v[2][0][1] == 1 and v[1] > 0:
        c = v[2][0][0]
        n = v[1]
        ok = True
        while n > 0:
            # ASCII characters read at c advance by one byte
            nxt = [k for k, p in st.pred.items() if p == c]
            if not nxt or not CS.inter(st.chars.get(c, CS.FULL), ((0, 127),)) == st.chars.get(c, CS.FULL):
                ok = False
                break
            c = nxt[0]
            n -= 1
        if ok:
            it.oblige(st, key, True, ctx.line)
            return c
    it.oblige(st, key, False, ctx.line, ('offset', off))
    c = st.sym('c', ('at', s[1], s[2], off))
    st.add_le(s[1], c)
    st.add_le(c, s[2])
    return c


@model('core::str::<impl str>::split_at')
def str_split_at(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        return NotImplemented
    c = index_cursor(ctx, s, ctx.args[1])
    return ctx.ret(('a', ctx.retty(), 0, (('str', s[1], c), ('str', c, s[2]))))


def range_bounds(ctx, s, r):
    """(start offset, end offset) of a range value; None for open ends."""
    it = ctx.it
    if r[0] != 'a':
        raise Unsupported('range value %r' % (r[:1],))
    name = it.T[r[1]]['p'] if r[1] is not None else ''
    if name.endswith('RangeFull'):
        return None, None, False
    if name.endswith('RangeFrom'):
        return r[3][0], None, False
    if name.endswith('RangeTo'):
        return None, r[3][0], False
    if name.endswith('ops::Range') or name.endswith('range::Range'):
        return r[3][0], r[3][1], False
    raise Unsupported('range ' + name)


@model('std::ops::Index::index', 'core::str::traits::<impl std::ops::Index<I> for str>::index',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def str_index(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        if s[0] == 'arr':
            return arr_index(ctx, s)
        return NotImplemented
    lo, hi, _ = range_bounds(ctx, s, ctx.args[1])
    a = s[1] if lo is None else index_cursor(ctx, s, lo)
    b = s[2] if hi is None else index_cursor(ctx, s, hi)
    ok = a == b or (a, b) in ctx.st.le
    ctx.it.oblige(ctx.st, (ctx.body['path'], ctx.body['file'], 'str range order'), ok, ctx.line, (a, b))
    if not ok:
        ctx.st.add_le(a, b)
    return ctx.ret(('str', a, b))


def arr_range(ctx, s, r):
    """Concrete bounds of a range over an array, or None."""
    n = len(s[1])
    if r[0] != 'a' or r[1] is None:
        return None
    name = ctx.it.T[r[1]]['p'].rsplit('::', 1)[-1]
    lo, hi = ('i', 0), ('i', n)
    fs = r[3]
    if name in ('RangeFrom', 'Range', 'RangeInclusive'):
        lo = fs[0]
    if name in ('RangeTo', 'RangeToInclusive'):
        hi = fs[0]
    if name in ('Range', 'RangeInclusive'):
        hi = fs[1]
    if lo[0] != 'i' or hi[0] != 'i':
        return None
    return lo[1], hi[1] + (1 if name.endswith('Inclusive') else 0)


def arr_index(ctx, s):
    b = arr_range(ctx, s, ctx.args[1])
    if b is None:
        return ctx.ret(('cref', ('top',)))
    ok = 0 <= b[0] <= b[1] <= len(s[1])
    ctx.it.oblige(ctx.st, (ctx.body['path'], ctx.body['file'], 'slice index'), ok, ctx.line, b)
    if not ok:
        raise Infeasible()
    return ctx.ret(('cref', ('arr', s[1][b[0]:b[1]])))


@model('core::slice::<impl [T]>::get_mut')
def arr_get_mut(ctx):
    r = ctx.args[0]
    i = ctx.args[1]
    v = ctx.deref(r)
    while r[0] == 'ref' and ctx.it.load(ctx.st, ('cell', r[1], r[2]))[0] == 'ref':
        r = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
    if v[0] != 'arr' or i[0] != 'i' or r[0] != 'ref':
        return NotImplemented
    if i[1] >= len(v[1]):
        return ctx.ret(ctx.option(None))
    return ctx.ret(ctx.option(('ref', r[1], r[2] + (('i', i),))))


@model('std::str::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8')
def from_utf8(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] != 'arr':
        return NotImplemented
    return ctx.ret(('a', ctx.retty(), 0, (('bstr', v[1]),)))


@model('core::str::<impl str>::get')
def str_get(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        return NotImplemented
    st, it = ctx.st, ctx.it
    lo, hi, _ = range_bounds(ctx, s, ctx.args[1])

    def cur(off):
        v = ladd(addr(s[1]), off)
        return cursor_of(v) if v is not None else None
    a = s[1] if lo is None else cur(lo)
    b = s[2] if hi is None else cur(hi)
    if a is not None and b is not None:
        le = lambda x, y: x == y or (x, y) in st.le
        if le(s[1], a) and le(a, b) and le(b, s[2]):
            return ctx.ret(ctx.option(('str', a, b)))

    def some(x):
        c = ctx.again(x)
        p, q = x.sym('c', ('get', 0, s, lo, hi)), x.sym('c', ('get', 1, s, lo, hi))
        x.add_le(s[1], p)
        x.add_le(p, q)
        x.add_le(q, s[2])
        c.ret(c.option(('str', p, q)))
    raise Decision(('get', s, lo, hi), [('some', some), ('none', lambda x: ctx.again(x).ret(ctx.again(x).option(None)))])


# ---------------------------------------------------------------------------- characters of text
def first_char(ctx, st, a, b):
    """The cursor after the character at a (which is known to be before b)."""
    for k, p in st.pred.items():
        if p == a:
            return k
    s = st.sym('c', ('succ', a))
    st.add_le(a, b)
    st.add_le(a, s, True)
    st.add_le(s, b)
    # a is now strictly before everything that a+1 reaches
    for (x, y) in list(st.le):
        if x == a and y != s and (a, y) in st.lt and y != b:
            st.add_le(s, y)
    st.pred[s] = a
    st.chars.setdefault(a, CS.FULL)
    return s


def last_char(ctx, st, a, b):
    p = st.pred.get(b)
    if p is not None:
        return p
    s = st.sym('c', ('pred', b))
    st.add_le(a, s)
    st.add_le(s, b, True)
    for (x, y) in list(st.le):
        if y == b and x != s and (x, b) in st.lt and x != a:
            st.add_le(x, s)
    st.pred[b] = s
    st.chars.setdefault(s, CS.FULL)
    return s


def iter_cell(ctx):
    r = ctx.args[0]
    while True:
        if r[0] != 'ref':
            raise Unsupported('iterator receiver %r' % (r[:1],))
        v = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
        if v[0] == 'ref':
            r = v
            continue
        return ('cell', r[1], r[2]), v


@model('core::str::<impl str>::chars')
def str_chars(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'str':
        return ctx.ret(('it', 'chars', v[1], v[2]))
    if v[0] == 'cs':
        return ctx.ret(('itc', tuple(('ch', ord(c)) for c in v[1])))
    return NotImplemented


@model('core::str::<impl str>::bytes')
def str_bytes(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'str':
        return ctx.ret(('it', 'bytes', v[1], v[2]))
    if v[0] == 'cs':
        return ctx.ret(('itc', tuple(('i', c) for c in v[1].encode())))
    return NotImplemented


@model('core::str::<impl str>::char_indices')
def str_char_indices(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'str':
        return ctx.ret(('it', 'ci', v[1], v[2], v[1]))
    return NotImplemented


CONT = ('ch', -1)


def text_next(ctx, back=False):
    base, v = iter_cell(ctx)
    it, st = ctx.it, ctx.st
    if v[0] == 'itc':
        if not v[1]:
            return ctx.ret(ctx.option(None))
        if back:
            it.store(st, base, ('itc', v[1][:-1]))
            return ctx.ret(ctx.option(v[1][-1]))
        it.store(st, base, ('itc', v[1][1:]))
        return ctx.ret(ctx.option(v[1][0]))
    if v[0] != 'it':
        return NotImplemented
    kind, a, b = v[1], v[2], v[3]
    # equality of the cursors is decided on the text: end of input or not
    empty = it.truth(st, it.lazy(st, ('eqc',) + tuple(sorted((a, b)))))
    if empty:
        return ctx.ret(ctx.option(None))
    if back:
        p = last_char(ctx, st, a, b)
        it.store(st, base, (v[0], kind, a, p) + v[4:])
        c = p
    else:
        n = first_char(ctx, st, a, b)
        it.store(st, base, (v[0], kind, n, b) + v[4:])
        c = a
    if kind == 'chars':
        val = ('chr', c, ())
    elif kind == 'bytes':
        val = ('byt', c, ())
    else:
        val = ('a', None, 0, (lin(0, ((c, 1), (v[4], -1))), ('chr', c, ())))
    return ctx.ret(ctx.option(val))


for n in ("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::Bytes<'_> as std::iter::Iterator>::next",
          "<std::str::CharIndices<'a> as std::iter::Iterator>::next"):
    MODELS[n] = text_next
for n in ("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back",
          "<std::str::Bytes<'_> as std::iter::DoubleEndedIterator>::next_back",
          "<std::str::CharIndices<'a> as std::iter::DoubleEndedIterator>::next_back"):
    MODELS[n] = lambda ctx: text_next(ctx, True)


@model("std::str::Chars::<'a>::as_str", "std::str::CharIndices::<'a>::as_str")
def chars_as_str(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'it':
        return ctx.ret(('str', v[2], v[3]))
    return NotImplemented


@model('core::str::<impl str>::contains')
def str_contains(ctx):
    h = ctx.deref(ctx.args[0])
    p = ctx.args[1]
    if h[0] == 'cs' and p[0] in ('chr', 'ch', 'op'):
        return ctx.ret(ctx.it.in_set(ctx.st, p, CS.of(h[1])))
    if h[0] == 'cs' and p[0] == 'cs':
        return ctx.ret(('b', int(p[1] in h[1])))
    return NotImplemented


@model('core::slice::<impl [T]>::contains', 'core::array::<impl [T; N]>::contains')
def slice_contains(ctx):
    h = ctx.deref(ctx.args[0])
    p = ctx.deref(ctx.args[1])
    if h[0] == 'cb':
        h = ('arr', tuple(('i', x) for x in h[1]))
    if h[0] == 'arr' and p[0] in ('chr', 'byt', 'ch', 'i') and all(x[0] in ('ch', 'i') for x in h[1]):
        s = CS.norm([(x[1], x[1]) for x in h[1]])
        return ctx.ret(ctx.it.in_set(ctx.st, p, s))
    return NotImplemented


def mapped(name):
    def f(ctx):
        c = ctx.deref(ctx.args[0])
        if c[0] in ('chr', 'byt'):
            return ctx.ret((c[0], c[1], c[2] + (name,)))
        if c[0] in ('ch', 'i'):
            return ctx.ret((c[0], CS.apply((name,), c[1])))
        return NotImplemented
    return f


for ty in ('char', 'u8'):
    for pre in ('std::char::methods::<impl char>', 'core::num::<impl u8>', 'core::char::methods::<impl char>'):
        MODELS[pre + '::to_ascii_lowercase'] = mapped('lower')
        MODELS[pre + '::to_ascii_uppercase'] = mapped('upper')

ASCII = {
    'is_ascii': CS.rng(0, 127),
    'is_ascii_digit': CS.rng(48, 57),
    'is_ascii_alphabetic': CS.union(CS.rng(65, 90), CS.rng(97, 122)),
    'is_ascii_alphanumeric': CS.union(CS.union(CS.rng(65, 90), CS.rng(97, 122)), CS.rng(48, 57)),
    'is_ascii_uppercase': CS.rng(65, 90),
    'is_ascii_lowercase': CS.rng(97, 122),
    'is_ascii_whitespace': CS.of(' \t\n\x0c\r'),
    'is_ascii_punctuation': CS.norm([(33, 47), (58, 64), (91, 96), (123, 126)]),
    'is_ascii_control': CS.norm([(0, 31), (127, 127)]),
}
for nm, cs in ASCII.items():
    for pre in ('std::char::methods::<impl char>', 'core::num::<impl u8>', 'core::char::methods::<impl char>'):
        MODELS[pre + '::' + nm] = (lambda cs: lambda ctx: ctx.ret(ctx.it.in_set(ctx.st, ctx.deref(ctx.args[0]), cs)))(cs)
MODELS['std::char::methods::<impl char>::is_whitespace'] = lambda ctx: ctx.ret(ctx.it.in_set(
    ctx.st, ctx.deref(ctx.args[0]), CS.norm([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680),
                                             (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])))


@model('std::char::methods::<impl char>::eq_ignore_ascii_case')
def eq_ic(ctx):
    a, b = ctx.deref(ctx.args[0]), ctx.deref(ctx.args[1])
    if a[0] == 'ch':
        a, b = b, a
    if b[0] == 'ch':
        ch = chr(b[1])
        return ctx.ret(ctx.it.in_set(ctx.st, a, CS.of(ch.lower() + ch.upper())))
    return NotImplemented


# ------------------------------------------------------------------------------ numbers & misc
def int_range(it, t):
    from interp import INT_BITS
    return INT_BITS.get(it.T[t]['s'])


def checked(sign):
    def f(ctx):
        it, st = ctx.it, ctx.st
        a, b = ctx.args
        v = it.arith(st, sign, a, b)
        t = ctx.retty()
        rg = int_range(it, it.T[t]['a'][0])
        if v[0] == 'i':
            return ctx.ret(ctx.option(v if rg[0] <= v[1] <= rg[1] else None))
        if sign == -1 and it.nonneg(st, v):
            return ctx.ret(ctx.option(v))
        desc = ('checked', 'add' if sign == 1 else 'sub', a, b)
        raise Decision(desc, [('some', lambda s: ctx.again(s).ret(ctx.again(s).option(v))),
                              ('none', lambda s: ctx.again(s).ret(ctx.again(s).option(None)))])
    return f


for ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
    MODELS['core::num::<impl %s>::checked_sub' % ty] = checked(-1)
    MODELS['core::num::<impl %s>::checked_add' % ty] = checked(1)


def unchecked_num(sign):
    def f(ctx):
        it, st = ctx.it, ctx.st
        v = it.arith(st, sign, ctx.args[0], ctx.args[1])
        if sign == -1 and not it.nonneg(st, v):
            return ctx.ret(('top',))
        return ctx.ret(v)
    return f


for ty in ('u8', 'u16', 'u32', 'u64', 'usize'):
    MODELS['core::num::<impl %s>::saturating_sub' % ty] = unchecked_num(-1)
    MODELS['core::num::<impl %s>::saturating_add' % ty] = unchecked_num(1)


@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains')
def range_contains(ctx):
    r, x = ctx.deref(ctx.args[0]), ctx.deref(ctx.args[1])
    if r[0] != 'a' or len(r[3]) < 2:
        return NotImplemented
    it, st = ctx.it, ctx.st
    lo, hi = ctx.deref(r[3][0]), ctx.deref(r[3][1])
    incl = it.T[r[1]]['p'].endswith('RangeInclusive') if r[1] is not None else False
    if it.truth(st, it.compare(st, 'Lt', x, lo)):
        return ctx.ret(('b', 0))
    return ctx.ret(it.compare(st, 'Le' if incl else 'Lt', x, hi))


@model('std::ops::RangeInclusive::<Idx>::new')
def range_incl(ctx):
    return ctx.ret(('a', ctx.retty(), 0, (ctx.args[0], ctx.args[1], ('b', 0))))


def minmax(op):
    def f(ctx):
        a, b = ctx.args
        r = ctx.it.cmp_ints(ctx.st, op, a, b)
        if r[0] == 'b':
            return ctx.ret(a if r[1] else b)
        if r[0] == 't':
            return ctx.ret(a if ctx.it.truth(ctx.st, r) else b)
        return NotImplemented
    return f


MODELS['std::intrinsics::integer_min'] = minmax('Le')
MODELS['std::intrinsics::integer_max'] = minmax('Ge')


def narrow(ctx):
    """usize -> u32 conversions: texts below 4 GiB are assumed (documented)."""
    v = ctx.args[0]
    t = ctx.retty()
    it = ctx.it
    it.assumed_u32 = getattr(it, 'assumed_u32', 0) + 1
    return ctx.ret(('a', t, 0, (v,)))


for a in ('usize', 'u64', 'u32', 'u16', 'u8'):
    for n in ('core::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<usize> for %s>::try_from',
              'core::convert::num::<impl std::convert::TryFrom<usize> for %s>::try_from',
              'std::convert::num::<impl std::convert::TryFrom<usize> for %s>::try_from',
              'std::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<usize> for %s>::try_from'):
        MODELS[n % a] = narrow


@model('std::num::NonZero::<T>::new')
def nz_new(ctx):
    v = ctx.args[0]
    it = ctx.it
    if v[0] == 'i':
        return ctx.ret(ctx.option(v if v[1] else None))
    z = it.truth(ctx.st, it.cmp_ints(ctx.st, 'Eq', v, I(0)))
    return ctx.ret(ctx.option(None if z else v))


@model('std::num::NonZero::<T>::get')
def nz_get(ctx):
    return ctx.ret(ctx.deref(ctx.args[0]))


@model('std::clone::Clone::clone')
def clone(ctx):
    v = ctx.deref(ctx.args[0])
    return ctx.ret(v)


@model('std::hint::must_use', 'std::convert::identity', 'std::intrinsics::cold_path', 'std::hint::black_box')
def ident(ctx):
    return ctx.ret(ctx.args[0] if ctx.args else UNIT)


@model('std::thread::LocalKey::<T>::with')
def local_with(ctx):
    # The trace level: closures passed here return () and touch only the log (decided by the purity check).
    t = ctx.retty()
    tt = ctx.it.T[t] if t is not None else None
    if tt and tt['k'] == 'tuple' and not tt['a']:
        return ctx.ret(UNIT)
    return NotImplemented


@model('<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le')
def log_enabled(ctx):
    # logging is switched off: what it would print is not part of the result (the purity check covers it)
    return ctx.ret(FALSE)


@model('log::max_level')
def log_max(ctx):
    t = ctx.retty()
    return ctx.ret(('a', t, 0, ()))


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt',
       'std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def prim_cmp(ctx):
    a, b = ctx.deref(ctx.args[0]), ctx.deref(ctx.args[1])
    prim = ('i', 'lin', 'iv', 'chr', 'ch', 'byt', 'b', 't')
    name = ctx.fty.get('name') or ctx.fty['p'].rsplit('::', 1)[1]
    op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt', 'eq': 'Eq', 'ne': 'Ne'}[name]
    if a[0] in prim and b[0] in prim:
        return ctx.ret(ctx.it.compare(ctx.st, op, a, b))
    if a[0] == 'cs' and b[0] == 'cs' and op in ('Eq', 'Ne'):
        return ctx.ret(('b', int((a[1] == b[1]) == (op == 'Eq'))))
    st, it = ctx.st, ctx.it
    if a[0] == 'cs' and b[0] == 'str':
        a, b = b, a
    if a[0] == 'str' and b[0] == 'cs' and op in ('Eq', 'Ne'):
        if b[1] == '':
            r = it.lazy(st, ('eqc',) + tuple(sorted((a[1], a[2]))))
            return ctx.ret(r if op == 'Eq' else it.bnot(r))
        term = ('streq', a[1], a[2], b[1])
        if st.terms.get(term) is False:
            it.repeated.add(b[1])
        r = it.lazy(st, term)
        return ctx.ret(r if op == 'Eq' else it.bnot(r))
    if a[0] == 'a' and b[0] == 'a' and a[1] is not None and it.T[a[1]].get('enum') and not a[3] and not b[3] and op in ('Eq', 'Ne'):
        return ctx.ret(('b', int((a[2] == b[2]) == (op == 'Eq'))))
    return NotImplemented


def structural(ctx):
    return NotImplemented


@model('<T as std::convert::Into<U>>::into', '<T as std::convert::From<T>>::from', '<I as std::iter::IntoIterator>::into_iter')
def same(ctx):
    return NotImplemented


# ------------------------------------------------------- sequences of known values and folds over leaves
def seq_of(ctx, v):
    v = ctx.deref(v)
    if v[0] == 'arr':
        return v[1]
    if v[0] == 'cb':
        return tuple(('i', x) for x in v[1])
    return None


@model('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def arr_into_iter(ctx):
    xs = seq_of(ctx, ctx.args[0])
    return NotImplemented if xs is None else ctx.ret(('itv', xs))


@model('core::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", 'std::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "std::slice::<impl std::iter::IntoIterator for &'a [T]>::into_iter")
def slice_iter(ctx):
    xs = seq_of(ctx, ctx.args[0])
    return NotImplemented if xs is None else ctx.ret(('itv', tuple(('cref', x) for x in xs)))


def any_next(ctx, back=False):
    base, v = iter_cell(ctx)
    if v[0] == 'itv':
        if not v[1]:
            return ctx.ret(ctx.option(None))
        if back:
            ctx.it.store(ctx.st, base, ('itv', v[1][:-1]))
            return ctx.ret(ctx.option(v[1][-1]))
        ctx.it.store(ctx.st, base, ('itv', v[1][1:]))
        return ctx.ret(ctx.option(v[1][0]))
    if v[0] in ('it', 'itc'):
        return text_next(ctx, back)
    return NotImplemented


LEAF_ITERS = ['std::array::IntoIter<T, N>', "std::slice::Iter<'a, T>", "std::str::Chars<'a>", "std::str::CharIndices<'a>", "std::str::Bytes<'_>"]
MODELS['$next'] = any_next
for li in LEAF_ITERS[:2]:
    MODELS['<%s as std::iter::Iterator>::next' % li] = any_next
    MODELS['<%s as std::iter::DoubleEndedIterator>::next_back' % li] = lambda ctx: any_next(ctx, True)


@model('$branch')
def branch(ctx):
    """Continue(x) / Break(whole) of a Try value."""
    it = ctx.it
    v = ctx.args[0]
    if v[0] == 'ref' or v[0] == 'cref':
        v = ctx.deref(v)
    if v[0] != 'a' or v[1] is None:
        raise Unsupported('try value %r' % (v[:2],))
    p = it.T[v[1]]['p']
    cont = {'std::option::Option': 1, 'std::result::Result': 0, 'std::ops::ControlFlow': 0}.get(p, 0)
    if v[2] == cont:
        return ctx.ret(('a', None, 0, (v[3][0],)))
    return ctx.ret(('a', None, 1, (v,)))


@model('$output')
def from_output(ctx):
    it = ctx.it
    t = ctx.retty()
    p = it.T[t]['p']
    cont = {'std::option::Option': 1, 'std::result::Result': 0, 'std::ops::ControlFlow': 0}.get(p, 0)
    return ctx.ret(('a', t, cont, (ctx.args[0],)))


def synth(it, kind, rty):
    """MIR of an internal-iteration method over a leaf iterator, in terms of `next`."""
    key = (kind, rty)
    cache = it.__dict__.setdefault('synth_cache', {})
    if key in cache:
        return cache[key]
    T = it.T

    def fnty(name):
        for i, t in enumerate(T):
            if t.get('p') == name and t['k'] == 'fndef':
                return i
        T.append({'s': name, 'k': 'fndef', 'p': name, 'kr': '$'})
        return len(T) - 1
    unk = it.F.ty_by_str('()')
    opt = None
    for i, t in enumerate(T):
        if t['s'].startswith('std::option::Option<'):
            opt = i
            break
    bid = it.F.fresh()
    L = lambda n, *p: [n, list(p)]
    c = lambda n, *p: ['c', L(n, *p)]

    def call(name, args, dest, tgt):
        return ['call', ['k', fnty(name), ['fn']], args, L(dest), tgt, fnty(name), 0, None, '']
    apply_ = 'std::ops::FnMut::call_mut'
    # 1 self, 2/3 arguments, 4 option, 5 argument tuple, 6 result
    some = c(4, ['d', 1], ['f', 0, unk])
    head = [[], call('$next', [c(1)], 4, 1), 0]
    pick = lambda done, more: [[['=', L(7), ['disc', L(4)], 0]], ['switch', c(7), [[0, done]], more, unk], 0]
    ret = lambda stmts: [stmts, ['ret'], 0]
    blocks = []
    argc = 3 if kind in ('fold', 'try_fold', 'rfold', 'try_rfold') else 2
    if kind == 'fold':
        blocks = [head, pick(2, 3), ret([['=', L(0), ['use', c(2)], 0]]),
                  [[['=', L(5), ['agg', ['tuple'], [c(2), some]], 0]], call(apply_, [c(3), c(5)], 2, 0), 0]]
    elif kind == 'try_fold':
        blocks = [head, pick(2, 3), [[], call('$output', [c(2)], 0, 4), 0],
                  [[['=', L(5), ['agg', ['tuple'], [c(2), some]], 0]], call(apply_, [c(3), c(5)], 6, 5), 0],
                  ret([]),
                  [[], call('$branch', [c(6)], 8, 6), 0],
                  [[['=', L(7), ['disc', L(8)], 0]], ['switch', c(7), [[0, 7]], 8, unk], 0],
                  [[['=', L(2), ['use', c(8, ['f', 0, unk])], 0]], ['goto', 0], 0],
                  ret([['=', L(0), ['use', c(8, ['f', 0, unk])], 0]])]
    elif kind in ('any', 'all'):
        k = kind == 'any'
        boolty = it.F.ty_by_str('bool')
        kb = lambda x: ['k', boolty, ['i', int(x)]]
        blocks = [head, pick(2, 3), ret([['=', L(0), ['use', kb(not k)], 0]]),
                  [[['=', L(5), ['agg', ['tuple'], [some]], 0]], call(apply_, [c(2), c(5)], 6, 4), 0],
                  [[], ['switch', c(6), [[0, 0 if k else 5]], 5 if k else 0, boolty], 0],
                  ret([['=', L(0), ['use', kb(k)], 0]])]
    elif kind == 'find':
        boolty = it.F.ty_by_str('bool')
        blocks = [head, pick(2, 3), ret([['=', L(0), ['use', c(4)], 0]]),
                  [[['=', L(9), ['use', some], 0], ['=', L(8), ['ref', L(9), False], 0], ['=', L(5), ['agg', ['tuple'], [c(8)]], 0]],
                   call(apply_, [c(2), c(5)], 6, 4), 0],
                  [[], ['switch', c(6), [[0, 0]], 2, boolty], 0]]
    else:
        raise Unsupported('synthetic ' + kind)
    b = {'id': bid, 'path': '$' + kind, 'kr': '$', 'ik': '', 'name': '$' + kind, 'a': [], 'local': False, 'file': '', 'line': 0,
         'argc': argc, 'locals': [rty, unk, unk, unk, opt if kind != 'find' else rty, unk, rty, unk, unk, unk], 'names': [], 'blocks': blocks}
    it.B[bid] = b
    cache[key] = bid
    return bid


def by_synth(kind):
    def f(ctx):
        base, v = iter_cell(ctx) if ctx.args[0][0] == 'ref' else (None, ctx.args[0])
        if v[0] not in ('it', 'itc', 'itv'):
            return NotImplemented
        recv = ctx.args[0] if base is not None else ('ref', ctx.st.cell(v), ())
        return ctx.it.inline(ctx, synth(ctx.it, kind, ctx.retty()), [recv] + list(ctx.args[1:]))
    return f


for li in LEAF_ITERS:
    for kind in ('fold', 'try_fold', 'any', 'all', 'find'):
        MODELS['<%s as std::iter::Iterator>::%s' % (li, kind)] = by_synth(kind)


# ----------------------------------------------------------------------- searching by a pattern
def pattern(ctx, v):
    """A pattern argument as a callable character predicate."""
    w = ctx.deref(v) if v[0] in ('ref', 'cref') else v
    if w[0] == 'ch':
        return ('pat', CS.rng(w[1], w[1]))
    if w[0] == 'arr' and all(x[0] == 'ch' for x in w[1]):
        return ('pat', CS.norm([(x[1], x[1]) for x in w[1]]))
    if w[0] == 'cs' and len(w[1]) == 1:
        return ('pat', CS.of(w[1]))
    if w[0] == 'fn' or w[0] == 'fnp' or (w[0] == 'a' and w[1] is not None and ctx.it.T[w[1]]['k'] == 'closure'):
        if v[0] in ('ref', 'cref') or w[0] != 'a':
            return v
        return ('ref', ctx.st.cell(w), ())
    return None


def via_model(name):
    def f(ctx):
        s = ctx.deref(ctx.args[0])
        if s[0] != 'str':
            return NotImplemented
        p = pattern(ctx, ctx.args[1])
        if p is None:
            return NotImplemented
        return ctx.it.inline(ctx, ctx.it.F.model_bodies[name], [s, p])
    return f


for nm in ('trim_end_matches', 'trim_start_matches', 'trim_matches', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix',
           'find', 'rfind', 'split_once', 'split'):
    MODELS['core::str::<impl str>::' + nm] = via_model(nm)
_contains_const = MODELS['core::str::<impl str>::contains']
_contains_text = via_model('contains')


def str_contains_any(ctx):
    r = _contains_const(ctx)
    return _contains_text(ctx) if r is NotImplemented else r


MODELS['core::str::<impl str>::contains'] = str_contains_any


def split_next(ctx):
    return ctx.it.inline(ctx, ctx.it.F.model_bodies['split_next'], [ctx.args[0]])


MODELS["<std::str::Split<'a, P> as std::iter::Iterator>::next"] = split_next


# ------------------------------------------------------------------------------------ vectors
def vec_ids(v, out):
    if type(v) is tuple:
        if len(v) == 2 and v[0] == 'vec':
            out.add(v[1])
        else:
            for x in v:
                if type(x) is tuple:
                    vec_ids(x, out)


def new_vec(ctx):
    ids = set()
    for v in ctx.st.mem.values():
        vec_ids(v, ids)
    k = 0
    while k in ids:
        k += 1
    return ('vec', k)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(ctx):
    return ctx.ret(new_vec(ctx))


def push(ctx, vec, vals, result):
    vals = tuple(ctx.it.snapshot(ctx.st, v) for v in vals)
    raise Decision(('eff', 'push', vec[1], vals), [('', lambda s: ctx.again(s).ret(result))])


@model('std::vec::Vec::<T, A>::push')
def vec_push(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] != 'vec':
        return NotImplemented
    push(ctx, v, (ctx.args[1],), UNIT)


@model('std::boxed::Box::<T>::new_uninit')
def box_uninit(ctx):
    return ctx.ret(('box', ctx.st.cell()))


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec', 'core::slice::<impl [T]>::into_vec')
def into_vec(ctx):
    b = ctx.args[0]
    if b[0] != 'box':
        return NotImplemented
    v = ctx.it.load(ctx.st, ('cell', b[1], ()))
    while v[0] == 'a':
        v = [x for x in v[3] if x is not None][0]
    if v[0] != 'arr':
        return NotImplemented
    vec = new_vec(ctx)
    if not v[1]:
        return ctx.ret(vec)
    push(ctx, vec, v[1], vec)


# ------------------------------------------------------------------ searching for a constant text
def affix(name, g):
    def f(ctx):
        s, p = ctx.deref(ctx.args[0]), ctx.args[1]
        while p[0] in ('ref', 'cref'):
            p = ctx.deref(p)
        if s[0] != 'str' or p[0] != 'cs' or len(p[1]) == 1:
            return g(ctx)
        return ctx.it.inline(ctx, ctx.it.F.model_bodies[name + '_text'], [s, p])
    return f


for nm in ('starts_with', 'ends_with', 'strip_prefix', 'strip_suffix'):
    n = 'core::str::<impl str>::' + nm
    MODELS[n] = affix(nm, MODELS[n])


@model('std::char::methods::<impl char>::len_utf8', 'core::char::methods::<impl char>::len_utf8')
def char_len(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'ch':
        return ctx.ret(I(len(chr(v[1]).encode('utf-8', 'surrogatepass'))))
    if v[0] != 'chr' or v[2]:
        return NotImplemented
    st, a = ctx.st, v[1]
    nxt = [k for k, p in st.pred.items() if p == a]
    if not nxt:
        ends = sorted(y for (x, y) in st.lt if x == a)
        if not ends:
            return NotImplemented
        nxt = [first_char(ctx, st, a, ends[-1])]
    return ctx.ret(lin(0, ((nxt[0], 1), (a, -1))))


def ord_cmp(ctx):
    a, b = ctx.deref(ctx.args[0]), ctx.deref(ctx.args[1])
    return ctx.ret(ctx.it.three_way(ctx.st, ctx.fr, a, b))


for nm in ('std::ptr::const_ptr', 'core::ptr::const_ptr'):
    MODELS[nm + '::<impl std::cmp::Ord for *const T>::cmp'] = ord_cmp
for nm in ('usize', 'u8', 'u16', 'u32', 'u64', 'isize', 'i32', 'char'):
    for q in ('std', 'core'):
        MODELS[q + '::cmp::impls::<impl std::cmp::Ord for %s>::cmp' % nm] = ord_cmp


@model('core::str::<impl str>::is_char_boundary')
def str_is_char_boundary(ctx):
    """Places that are known are between characters; nothing else is decided."""
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        return NotImplemented
    v = ladd(addr(s[1]), ctx.args[1])
    c = cursor_of(v) if v is not None else None
    if c is None:
        raise Unsupported('character boundary at an unknown place')
    st = ctx.st
    if c in (s[1], s[2]) or (s[1], c) in st.le and (c, s[2]) in st.le:
        return ctx.ret(('b', 1))
    if (s[2], c) in st.lt or (c, s[1]) in st.lt:
        return ctx.ret(('b', 0))
    raise Unsupported('character boundary at a place that may be outside')
