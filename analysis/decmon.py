"""What the word iterator and the segmentation of one chunk must do, as monitors of their behaviour graphs."""
from monitor import Bad, Skip, product, LOST
from interp import lin, is_sym, ladd
import charset as CS

COMMA = ((44, 44),)


def syms_of(params):
    return [p for p in params if is_sym(p) and p[1] == 'c']


def le(it, st, x, y):
    """x <= y proved in st (cursors or linear values)."""
    if LOST in (x, y) or x is None or y is None:
        return False
    d = ladd(y if y[0] in ('lin', 'i') else lin(0, ((y, 1),)), x if x[0] in ('lin', 'i') else lin(0, ((x, 1),)), -1)
    return d is not None and it.nonneg(st, d)


def le_new(it, st, e, x, y):
    """x <= y across edge e: either may be one of the cursors the edge defines."""
    if x == y:
        return True
    if LOST in (x, y):
        return False
    if y in e[3]:
        d = e[3][y]
        low = {'end': d[2:3], 'succ': d[1:2], 'word': d[2:3]}.get(d[0], ())
        if d[0] == 'word' and len(d) == 4 and is_sym(d[1]):
            low = d[1:2]
        return any(is_sym(z) and le_new(it, st, e, x, z) for z in low)
    if x in e[3]:
        d = e[3][x]
        high = {'end': d[3:4], 'pred': d[1:2]}.get(d[0], ())
        if d[0] == 'word' and len(d) == 4 and is_sym(d[1]):
            high = d[2:3]
        return any(is_sym(z) and le_new(it, st, e, z, y) for z in high)
    return le(it, st, x, y)


def cur(c):
    return lin(0, ((c, 1),))


class WordMonitor:
    """State: (input start, input end, lower, upper, over, hint, method).

    lower: cursors not before the end of the last word; upper: cursors not after the end of the input."""

    def __init__(self, it):
        self.it = it
        self.S = Solid(it, ())
        self.segments = set()

    def run(self, g):
        _, i, e = g.args[0]
        return product(g, (i, e, (i,), (e,), False, None, 'next', frozenset()), self.step)

    def span(self, v):
        # fields in the order of their names: end, start
        return v[3][1], v[3][0]

    def step(self, m, node, e):
        i, end, lower, upper, over, hint, meth, P = m
        st, it = node.state, self.it
        if node.kind == 'panic':
            raise Bad('panic', 'the word iterator panics: %r' % (node.desc,))
        if node.kind == 'choose':
            meth = e[0]
            if meth != 'next':
                hint = None
        elif node.kind == 'ask':
            if hint is not None:
                if node.desc[2:] != hint:
                    raise Bad('hint', 'the words counted by size_hint are not the ones handed out next')
                hint = None
        elif node.kind == 'eff' and node.desc[1] == 'segment':
            c = node.desc[2]
            self.segments.add(node.id)
            if not self.S.within(P, st, c[0], c[1]):
                raise Bad('empty', 'a chunk that may be empty or hold nothing but commas is split into words')
        elif node.kind == 'eff' and node.desc[1] == 'emit':
            tag, v = node.desc[2], node.desc[3]
            if tag == 'size_hint':
                lo, up = v[3]
                if up[2] != 0:
                    raise Bad('hint', 'an upper bound is promised: %r' % (up,))
                if lo == ('i', 0):
                    hint = None
                elif lo[0] == 'op' and lo[1][0] == 'len':
                    hint = lo[1][1:3]
                else:
                    raise Bad('hint', 'the lower bound is not a number of words that certainly follow: %r' % (lo,))
            elif v[2] == 0:
                if hint is not None:
                    raise Bad('hint', 'size_hint promises words but none follows')
                over = True
            else:
                if over:
                    raise Bad('fused', '%s yields something after the end' % tag)
                a, b = self.span(v[3][0])
                if i != LOST:
                    a2, b2 = ladd(a, cur(i)), ladd(b, cur(i))
                else:
                    a2 = b2 = None
                if a2 is None or not le(it, st, a, b):
                    raise Bad('bounds', '%s yields a span whose end may precede its start: %r..%r' % (tag, a, b))
                if not it.nonneg(st, a):
                    raise Bad('bounds', '%s yields a span that may start before the input' % tag)
                if not any(le(it, st, b2, u) for u in upper):
                    raise Bad('bounds', '%s yields a span that may end after the input: %r' % (tag, b))
                if not any(le(it, st, l, a2) for l in lower):
                    raise Bad('order', '%s yields a span that may start before the end of the previous one: %r' % (tag, a))
                lower = tuple(c for c in self.live(st, e) if le(it, st, b2, c))
        if e is not None:
            live = self.live(st, e)
            lower = self.keep(it, st, e, lower, live, True)
            upper = self.keep(it, st, e, upper, live, False)
        P = self.S.update(P, node, e)
        if node.kind == 'eff':
            P = frozenset()
        return (i, end, lower, upper, over, hint, meth, P)

    def live(self, st, e):
        return syms_of(e[2])

    def keep(self, it, st, e, bs, live, up):
        """Carry bounds over to what stays alive."""
        out = set()
        for b in bs:
            if b == LOST:
                continue
            for c in live:
                if le_new(it, st, e, b, c) if up else le_new(it, st, e, c, b):
                    out.add(c)
        return tuple(sorted(out))


class Solid:
    """Spots known to hold a character other than a comma: pairs (cursor at it or before, cursor after it or later)."""

    def __init__(self, it, summary):
        self.it, self.summary = it, summary

    def update(self, P, node, e):
        st = node.state
        new = set(P)
        if node.kind == 'test' and node.desc[1][0] == 'chin' and e is not None:
            c, s = node.desc[1][1], node.desc[1][2]
            if (e[0] == 'T' and not CS.inter(s, COMMA)) or (e[0] == 'F' and CS.inter(s, COMMA) == COMMA):
                after = [t for t, p in st.pred.items() if p == c]
                for t in after:
                    new.add((c, t))
                if not after:
                    new.add((c, None))
        if node.kind == 'call' and e is not None and e[0] == 'ok' and node.desc[1] in self.summary:
            start = node.desc[2][0][1]
            for k, v in e[3].items():
                if v[0] == 'end':
                    new.add((start, k))
        if e is None:
            return frozenset(new)
        for k, v in e[3].items():
            if v[0] == 'succ':
                new |= {(c, k) for c, t in new if t is None and c == v[1]}
        live = set(syms_of(e[2]))
        out = set()
        for c, t in new:
            if c == LOST or t == LOST:
                continue
            cs = [c] if c in live else [x for x in live if le_new(self.it, st, e, x, c)]
            ts = [t] if t is None or t in live else [x for x in live if le_new(self.it, st, e, t, x)]
            for x in cs:
                for y in ts:
                    out.add((x, y))
        return frozenset(out)

    def within(self, P, st, a, b):
        return any(t is not None and c != LOST and t != LOST and (c == a or le(self.it, st, a, c)) and (t == b or le(self.it, st, t, b)) for c, t in P)


def solid_rules(it, graphs):
    """Recognisers whose every match contains a character other than a comma (by induction on calls)."""
    names = set(graphs)
    states = 0
    while True:
        S = Solid(it, names)
        drop = set()
        for n in sorted(names):
            g = graphs[n]
            start = g.entry[1]

            def step(m, node, e):
                if node.kind == 'ret':
                    v = node.desc
                    if v[0] == 'a' and v[2] == 1:
                        s = v[3][0][3][0]
                        if not S.within(m, node.state, s[1], s[2]):
                            raise Bad('solid', 'may match nothing but commas')
                    return m
                return S.update(m, node, e)
            k, bad = product(g, frozenset(), step, 20000)
            states += k
            if bad:
                drop.add(n)
        if not drop:
            return names, states
        names -= drop


class SegMonitor:
    """State: (chunk start, chunk end, cursor where the next word must begin, cursors only commas follow, solid spots)."""

    def __init__(self, it, summary):
        self.it = it
        self.S = Solid(it, summary)

    def run(self, g):
        _, i, e = g.args[0]
        return product(g, (i, e, i, (e,), frozenset()), self.step)

    def step(self, m, node, e):
        i, end, at, tail, P = m
        st, it = node.state, self.it
        if node.kind == 'panic':
            raise Bad('panic', 'the segmentation panics: %r' % (node.desc,))
        if node.kind == 'eff' and node.desc[1] == 'push':
            v = node.desc[3]
            v = v[0] if type(v[0]) is tuple else v
            b, a = v[3]         # fields in the order of their names: end, start
            a2, b2 = (ladd(a, cur(i)), ladd(b, cur(i))) if i != LOST else (None, None)
            if a2 is None:
                raise Bad('bounds', 'a word is not relative to the start of its chunk: %r' % (v,))
            if at == ('end',):
                raise Bad('order', 'a word follows the end of the chunk: %r' % (v,))
            if at == LOST or a2 != cur(at):
                if at == LOST or not le(it, st, at, a2):
                    raise Bad('order', 'a word may start before the end of the previous one: %r' % (v,))
                raise Bad('lost', 'text between two words is lost: %r' % (v,))
            if not le(it, st, a, b):
                raise Bad('bounds', 'a word may end before it starts: %r' % (v,))
            if end != LOST and not le(it, st, b2, end):
                raise Bad('bounds', 'a word may end after its chunk: %r' % (v,))
            bs = b2[2][0][0] if b2[0] == 'lin' and b2[1] == 0 and len(b2[2]) == 1 else None
            if bs is None:
                raise Bad('bounds', 'a word does not end at a character: %r' % (v,))
            as_ = a2[2][0][0]
            if not self.S.within(P, st, as_, bs):
                raise Bad('empty', 'a word may hold nothing but commas: %r' % (v,))
            at = bs
        if node.kind == 'ret':
            if at != ('end',) and at not in tail:
                raise Bad('lost', 'text at the end of a chunk is lost')
            return m
        P = self.S.update(P, node, e)
        if node.kind == 'test' and e is not None and node.desc[1][0] == 'eqc' and e[0] == 'T':
            x, y = node.desc[1][1:3]
            if (x == i and y in tail) or (y == i and x in tail):
                raise Skip()            # the chunk would hold nothing but commas
            if (x == at and y in tail) or (y == at and x in tail):
                at = ('end',)
        if node.kind == 'test' and e is not None and node.desc[1][0] == 'chin' and e[0] == 'T' and node.desc[1][2] == COMMA:
            c = node.desc[1][1]
            if any(st.pred.get(t) == c for t in tail if t != LOST):
                tail = tail + (c,)
        if e is not None:
            if at in tail:
                at = ('end',)
            live = set(syms_of(e[2]))
            tail = tuple(sorted(t for t in set(tail) if t in live))
        return (i, end, at, tail, P)


if __name__ == '__main__':
    import time, rulesx, segx, decx, harness
    from interp import Facts
    F = Facts('/verif/build/facts/sneturfahi.json')
    t = time.time()
    it, gs = rulesx.extract(F)
    names, k = solid_rules(it, gs)
    print(len(names), k, sorted(set(gs) - names), time.time() - t)
    it2, b = segx.build(F)
    g = harness.explore(F, it2, b)
    n, bad = SegMonitor(it2, names).run(g)
    print(n)
    for x in bad:
        print(x[0], x[1])
        for p in x[2]:
            print('     ', p[:180])
    for ms in (('next', 'next_no_decomposition', 'size_hint'),):
        it3, b = decx.build(F, ms)
        g = harness.explore(F, it3, b)
        n, bad = WordMonitor(it3).run(g)
        print(n)
        for x in bad[:6]:
            print(x[0], x[1])
            for p in x[2][-9:]:
                print('     ', p[:180])
