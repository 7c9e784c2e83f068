"""Spans: their algebra, slicing, and construction (S)."""
import itertools

import evalg
import harness
from base import *
from interp import Decision, Interp, Unsupported, lin
from models import MODELS, addr, range_bounds

TOP = 4     # values 0..TOP: every order of up to four end points, and every distance between them up to TOP


def methods(S):
    """{name: body} of the methods of the span type."""
    out = {}
    for b in S.F.B.values():
        if b['local'] and not b.get('closure') and b['path'].startswith('span::') and '::<impl ' not in b['path'] and not b['path'].startswith('<'):
            out[b['path'].rsplit('::', 1)[1]] = b
    return out


M = dict(MODELS)


def boundary(ctx):
    """Whether a character begins (or the text ends) at an offset: a property of the text."""
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        return NotImplemented
    t = lambda v: lambda x: ctx.again(x).ret(('b', v))
    raise Decision(('boundary', s, ctx.args[1]), [('T', t(1)), ('F', t(0))])


def index(ctx):
    """A part of a text, or a panic where there is no such part."""
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        return NotImplemented
    lo, hi, _ = range_bounds(ctx, s, ctx.args[1])

    def some(x):
        c = ctx.again(x)
        p, q = x.sym('c', ('get', 0, s, lo, hi)), x.sym('c', ('get', 1, s, lo, hi))
        x.add_le(s[1], p)
        x.add_le(p, q)
        x.add_le(q, s[2])
        c.ret(('str', p, q))
    raise Decision(('get', s, lo, hi, 'index'), [('some', some)])


M['core::str::<impl str>::is_char_boundary'] = boundary
for n in MODELS:
    if n.endswith('Index<I> for str>::index'):
        M[n] = index


class Fn:
    """One method over symbolic arguments."""

    def __init__(self, S, name, shape):
        ms = methods(S)
        if name not in ms:
            raise Unsupported('%s is gone' % name)
        self.body = b = ms[name]
        self.where = '%s:%s' % (b['file'], b['line'])
        F = S.F
        self.it = it = Interp(F, M, {})
        it.partial, it.maxnodes = True, 1500
        self.vars = []
        span = F.ty_by_str('span::Span')
        if b['argc'] != len(shape):
            raise Unsupported('%s takes %d arguments' % (name, b['argc']))

        def make(k):
            def f(it, st):
                if k == 'span':
                    a, e = st.sym('n'), st.sym('n')
                    if self.ordered:
                        st.add_le(a, e)
                    self.vars += [a, e]
                    v = ('a', span, 0, (lin(0, ((a, 1),)), lin(0, ((e, 1),))))
                elif k == 'int':
                    a = st.sym('n')
                    self.vars.append(a)
                    v = lin(0, ((a, 1),))
                elif k == 'text':
                    a, e = st.sym('c'), st.sym('c')
                    st.add_le(a, e)
                    self.vars += [a, e]
                    if getattr(self, 'outer', None):
                        st.add_le(self.outer, a)
                    return ('str', a, e)
                elif k == 'ptr':
                    self.outer = st.sym('c')
                    self.vars.append(self.outer)
                    v = addr(self.outer)
                i = shape_at[0]
                shape_at[0] += 1
                if F.T[b['locals'][i]]['k'] == 'ref':
                    c = st.cell(v)
                    return ('ref', c, ())
                return v
            return f
        self.ordered = name not in ('slice', 'slice_after', 'slice_before')
        shape_at = [1]
        self.shape = shape
        fs = []
        for i, k in enumerate(shape):
            def g(it, st, k=k, i=i):
                shape_at[0] = i + 1
                return make(k)(it, st)
            fs.append(g)
        self.g = harness.explore(F, it, b, fs)
        self.unproved = unproved(it)
        odd = [n for _, n in sorted(it.unmodelled) if 'panick' not in n and '_failed' not in n]
        if odd:
            raise Unsupported('%s: %s' % (name, odd[0]))

    def __call__(self, *vals, bounds=None):
        return evalg.run(self.g, dict(zip(self.vars, vals)), bounds)


def spans():
    return [(a, b) for a in range(TOP + 1) for b in range(a, TOP + 1)]


def span(a, b):
    return ('a', 0, (b, a))     # fields in the order of their names


def some(x):
    return ('a', 1, (x,))


NONE = ('a', 0, ())


def method(S, R, name, shape, cases, spec, text, panics=False):
    """Every case gives what the specification says."""
    try:
        f = S.once('span:' + name, lambda: Fn(S, name, shape))
    except Unsupported as u:
        if 'is gone' in str(u):
            R.fail('gone:' + name, 'the span operation %s is gone' % name)
        else:
            R.undecided(name, str(u))
        return
    if not panics:
        for w, kind, info in f.unproved:
            R.fail('%s:%s' % (name, kind), '%s: %s: %s cannot be shown to stay in range for well-formed spans' % (f.where, name, kind))
    n = 0
    for c in cases:
        vals, kw = (c[:-1], {'bounds': c[-1]}) if c and isinstance(c[-1], frozenset) else (c, {})
        try:
            got = f(*vals, **kw)
        except Unsupported as u:
            R.undecided(name, str(u))
            return
        want = spec(*c)
        if got != want:
            R.fail(name, '%s: %s%s gives %s, but %s' % (f.where, name, vals, show(got), text))
            return
        n += 1
    R.ok('%s: %d orderings' % (name, n), n=n)
    R.stats['cases'] = R.stats.get('cases', 0) + n


def show(r):
    if r[0] == 'panic':
        return 'a panic'
    v = r[1]

    def go(x):
        if type(x) is tuple and x[0] == 'a':
            return 'None' if x == NONE else '(%s)' % ', '.join(map(go, x[2]))
        if type(x) is tuple:
            return '..'.join(map(str, x[1:]))
        return str(x)
    return go(v)


def ret(x):
    return ('ret', x)


def s01(S, R):
    two = [x + y for x in spans() for y in spans()]
    method(S, R, 'len', ['span'], spans(), lambda a, b: ret(b - a), 'the length is the distance of the ends')
    method(S, R, 'is_empty', ['span'], spans(), lambda a, b: ret(int(a == b)), 'a span is empty exactly when its ends are equal')
    method(S, R, 'contains', ['span', 'int'], [x + (l,) for x in spans() for l in range(TOP + 2)], lambda a, b, l: ret(int(a <= l < b)),
           'a span contains the locations from its start up to but not including its end')
    method(S, R, 'overlaps_with', ['span', 'span'], two, lambda a, b, c, d: ret(int(a < d and c < b)),
           'spans overlap exactly when each starts before the other ends')
    method(S, R, 'between', ['span', 'span'], two, lambda a, b, c, d: ret(some(span(b, c)) if b < c else NONE),
           'the gap runs from the end of the first to the start of the second, and exists only if the first ends before the second starts')


def texts():
    for n in range(TOP):
        for inner in itertools.chain.from_iterable(itertools.combinations(range(1, n), r) for r in range(n)):
            yield n, frozenset(inner) | {0, n}


def s02(S, R):
    cs = [(a, b, 0, n, bs) for n, bs in texts() for a in range(n + 2) for b in range(n + 2)]
    shifted = [(a, b, 7, 7 + n, frozenset(x + 7 for x in bs)) for a, b, _, n, bs in cs]

    def spec(lo, hi):
        def f(a, b, s, e, bs):
            x = s + a if lo == 'start' else s + b if lo == 'end' else s
            y = s + a if hi == 'start' else s + b if hi == 'end' else e
            return ret(some(('str', x, y)) if s <= x <= y <= e and x in bs and y in bs else NONE)
        return f
    for name, lo, hi, t in (('slice', 'start', 'end', 'from the start to the end of the span'), ('slice_after', 'end', None, 'after the end of the span'),
                            ('slice_before', None, 'start', 'before the start of the span')):
        method(S, R, name, ['span', 'text'], shifted, spec(lo, hi), 'it should be the text %s, or nothing if there is no such text' % t)


def s03(S, R):
    sp = [(a, b) for a in range(TOP + 1) for b in range(TOP + 1)]
    method(S, R, 'new', ['int', 'int'], sp, lambda a, b: ret(span(a, b)) if a <= b else ('panic',), 'a span keeps its ends and refuses an end before its start', panics=True)
    method(S, R, 'at', ['int', 'int'], sp, lambda a, l: ret(span(a, a + l)), 'a span at a place has that start and that length')
    method(S, R, 'entire_slice', ['text'], [(7, 7 + n) for n in range(TOP)], lambda a, b: ret(span(0, b - a)), 'the span of a whole text is 0 to its length')
    method(S, R, 'from_embedded_slice', ['ptr', 'text'], [(7, 7 + a, 7 + b) for a, b in spans()], lambda o, a, b: ret(span(a - o, b - o)),
           'the span of a part of a text has the offsets of its two ends', panics=True)


RULE = 'every ordering of the end points through the decision graph of each operation, against its definition; every arithmetic step shown in range'
Prop('S01', s01, RULE)
Prop('S02', s02, 'every span against every text of up to %d positions and every placement of character boundaries, through the decision graph of each operation' % (TOP - 1), level='model_checking')
Prop('S03', s03, RULE, assumptions=['texts are shorter than 4 GiB'])
