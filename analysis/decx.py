"""The word iterator as its user sees it, over an arbitrary segmentation of each chunk."""
from clients import *
import models as M

EA, EB = ('@', 'elt', 0), ('@', 'elt', 1)      # the bounds of an arbitrary element


def put(v, a, b):
    def go(x):
        if type(x) is not tuple:
            return x
        if x == EA:
            return a
        if x == EB:
            return b
        return tuple([go(y) if type(y) is tuple else y for y in x])
    return refix(go(v))


def bounds(st, c1, c2):
    """Where any element lies."""
    for r in (st.le, st.lt):
        r.difference_update([p for p in r if EA in p or EB in p])
    st.add_le(c1, EA)
    st.add_le(EA, EB)
    st.add_le(EB, c2)


def words_of(ctx):
    """The words of a chunk: spans within it, in order, relative to its start."""
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        raise Unsupported('words of %r' % (s[:1],))
    span = ctx.it.F.ty_by_str('span::Span')
    off = lambda x: lin(0, ((x, 1), (s[1], -1)))

    def go(st):
        ctx.again(st).ret(('list', s[1], s[2], s[1], ('a', span, 0, (off(EA), off(EB)))))
    raise Decision(('eff', 'segment', (s[1], s[2])), [('', go)])


def element(s, v):
    _, c1, c2, last, tmpl = v
    a, b = s.sym('c', ('word', last, c2, 0)), s.sym('c', ('word', last, c2, 1))
    s.add_le(last, a)
    s.add_le(a, b)
    s.add_le(b, c2)
    return a, b


def list_next(ctx):
    base, v = M.iter_cell(ctx)
    it = ctx.it
    if v[0] in ('itv',):
        return M.any_next(ctx)
    if v[0] == 'mit':
        return mut_next(ctx, base, v)
    if v[0] != 'list':
        return NotImplemented

    def some(s):
        c = ctx.again(s)
        a, b = element(s, v)
        it.store(s, base, v[:3] + (b,) + v[4:])
        c.ret(c.option(put(v[4], a, b)))

    def none(s):
        c = ctx.again(s)
        it.store(s, base, ('itv', ()))
        c.ret(c.option(None))
    raise Decision(('ask', 'word', v[3], v[2]), [('some', some), ('none', none)])


def into_iter(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('list', 'itv'):
        return ctx.ret(v)
    if v[0] == 'vecv':
        return ctx.ret(('itv', v[1]))
    return NotImplemented


# visiting every element through a mutable reference: the visit must do the same to each
def iter_mut(ctx):
    r = ctx.args[0]
    while True:
        v = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
        if v[0] != 'ref':
            break
        r = v
    if v[0] == 'list':
        bounds(ctx.st, v[1], v[2])
        # owner, template cell, outcome of the visits so far
        return ctx.ret(('mit', r, ('ref', ctx.st.cell(v[4]), ()), ('none',), v[4]))
    if v[0] in ('itv', 'vecv') and not v[1]:
        return ctx.ret(('itv', ()))
    return NotImplemented


def mut_next(ctx, base, v):
    it = ctx.it
    _, owner, cell, done, orig = v

    def settle(s):
        """The effect of the visit that just ended."""
        if cell[2] == ('in',):
            now = it.load(s, ('cell', cell[1], ()))
            if done != ('none',) and done != now:
                raise Unsupported('visits differ')
            return now
        return done

    def some(s):
        c = ctx.again(s)
        now = settle(s)
        h = s.cell(orig)
        l = it.load(s, ('cell', owner[1], owner[2]))
        if l[0] == 'list':
            bounds(s, l[1], l[2])
        it.store(s, base, ('mit', owner, ('ref', h, ('in',)), now, orig))
        c.ret(c.option(('ref', h, ())))

    def none(s):
        c = ctx.again(s)
        now = settle(s)
        if now != ('none',):
            l = it.load(s, ('cell', owner[1], owner[2]))
            it.store(s, ('cell', owner[1], owner[2]), l[:4] + (now,))
        it.store(s, base, ('itv', ()))
        c.ret(c.option(None))
    # every visit does the same, and the order of the visits cannot be observed: one stands for all
    if done != ('none',) or cell[2] == ('in',):
        return none(ctx.st)
    return some(ctx.st)


def vec_new(ctx):
    return ctx.ret(('vecv', ()))


def as_slice(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('itv', 'vecv'):
        return ctx.ret(('cref', ('arr', v[1])))
    if v[0] == 'list':
        return ctx.ret(('cref', v))
    return NotImplemented


def length(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] == 'list':
        return ctx.ret(('op', ('len', v[3], v[2]), (), ctx.retty()))
    if v[0] in ('itv', 'vecv'):
        return ctx.ret(I(len(v[1])))
    return M.str_len(ctx)


VI = 'std::vec::IntoIter<T, A>'


def split_hint(ctx):
    return ctx.it.inline(ctx, ctx.it.F.model_bodies['split_size_hint'], [ctx.args[0]])


def map_collect(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] in ('list', 'itv', 'vecv'):
        return into_iter(ctx) if v[0] != 'itv' else ctx.ret(('vecv', v[1]))
    if v[0] != 'a' or v[1] is None or not ctx.it.T[v[1]].get('p', '').endswith('::Map'):
        return NotImplemented
    src = [x for x in v[3] if x is not None and x[0] in ('list', 'itv', 'vecv')]
    fun = [x for x in v[3] if x not in src]
    if len(src) != 1 or len(fun) != 1:
        return NotImplemented
    return ctx.it.inline(ctx, ctx.it.F.model_bodies['map_collect'], [src[0], ('ref', ctx.st.cell(fun[0]), ())])


def list_hint(ctx):
    v = ctx.deref(ctx.args[0])
    n = ('op', ('len', v[3], v[2]), (), None) if v[0] == 'list' else I(len(v[1])) if v[0] in ('itv', 'vecv') else None
    if n is None:
        return NotImplemented
    return ctx.ret(('a', None, 0, (n, ('a', None, 1, (n,)))))


def build(F, methods=('next', 'next_no_decomposition', 'size_hint')):
    m = dict(MODELS)
    m.update({
        '<%s as std::iter::Iterator>::next' % VI: list_next,
        '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter': into_iter,
        "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": iter_mut,
        'core::slice::<impl [T]>::iter_mut': iter_mut,
        "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next": list_next,
        'std::vec::Vec::<T>::new': vec_new,
        'std::vec::IntoIter::<T, A>::as_slice': as_slice,
        'std::vec::Vec::<T, A>::as_slice': as_slice,
        'core::slice::<impl [T]>::len': length,
        'std::vec::Vec::<T, A>::len': length,
        'std::iter::ExactSizeIterator::len': length,
        '<%s as std::iter::ExactSizeIterator>::len' % VI: length,
        '<%s as std::iter::Iterator>::size_hint' % VI: list_hint,
        '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter': map_collect,
        "<std::str::Split<'a, P> as std::iter::Iterator>::size_hint": split_hint,
    })
    it = Interp(F, m, {})
    init = F.fn('decompose::decompose')
    oty = init['locals'][0]
    single = [b for b in F.B.values() if b['local'] and not b.get('closure') and b['argc'] == 1
              and F.T[b['locals'][0]]['s'] == 'std::vec::Vec<span::Span>' and F.T[b['locals'][1]]['s'] == '&str']
    if len(single) != 1:
        raise Unsupported('segmentation of one chunk: %d candidates' % len(single))
    it.atomic[single[0]['path']] = words_of
    ms = []
    for n in methods:
        b = method(F, oty, n)
        if b is not None:
            ms.append((n, b, ()))
    return it, client(it, init, ms)


if __name__ == '__main__':
    import time
    F = Facts('/verif/build/facts/sneturfahi.json')
    t = time.time()
    it, b = build(F, sys.argv[1].split(',') if len(sys.argv) > 1 else ('next',))
    try:
        g = explore(F, it, b)
    except Unsupported as u:
        print('UNSUPPORTED', u, u.where)
        raise SystemExit
    print(len(g.nodes), it.unmodelled, {k: v for k, v in it.obl.items()}, time.time() - t)
    if len(sys.argv) > 2:
        for n in g.nodes.values():
            print('  ', n.id, n.kind, str(n.desc)[:250], [(l, t, m) for l, t, m, d in n.edges])
    import bisim, json
    d = json.loads(json.dumps(bisim.to_graphs({'x': g})))
    S = bisim.Side(d)
    t = time.time()
    e = bisim.Eq(S, S, set())
    print(e.check('x'), time.time() - t, len(json.dumps(d)))
