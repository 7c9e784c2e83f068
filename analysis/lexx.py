"""The lexer as its user sees it, over an arbitrary word iterator and classifier."""
from clients import *


def words_new(ctx):
    s = ctx.deref(ctx.args[0])
    # the object remembers the text and the end of the last word handed out
    return ctx.ret(('obj', 'words', s[1], s[2], s[1], 0))


def words_next(which):
    def f(ctx):
        r = ctx.args[0]
        while True:
            v = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
            if v[0] != 'ref':
                break
            r = v
        if v[0] != 'obj':
            raise Unsupported('word iterator %r' % (v[:1],))
        _, _, i, e, last, ended = v
        if ended:
            # the word iterator is fused (decided on its own)
            return ctx.ret(ctx.option(None))

        def some(s):
            c = ctx.again(s)
            k = ('word', which, last)
            a, b = s.sym('c', k + (0,)), s.sym('c', k + (1,))
            s.add_le(last, a)
            s.add_le(a, b)
            s.add_le(b, e)
            s.add_le(i, a)
            s.add_le(i, b)
            c.it.store(s, ('cell', r[1], r[2]), ('obj', 'words', i, e, b, 0))
            span = c.it.F.ty_by_str('span::Span')
            off = lambda x: lin(0, ((x, 1), (i, -1)))
            c.ret(c.option(('a', span, 0, (off(a), off(b)))))

        def none(s):
            c = ctx.again(s)
            c.it.store(s, ('cell', r[1], r[2]), ('obj', 'words', i, e, last, 1))
            c.ret(c.option(None))
        raise Decision(('ask', 'word', which, last), [('some', some), ('none', none)])
    return f


def classify(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        raise Unsupported('classify of %r' % (s[:1],))
    st = ctx.st
    t = ctx.retty()
    sel, b = ctx.it.T[t]['a']
    v = ('class', s[1], s[2])
    ctx.ret(('a', t, 0, (('op', v, (('f', 0),), sel), ('op', v, (('f', 1),), b))))


def build(F):
    it = Interp(F, dict(MODELS), {})
    init = F.fn('lex::lex')
    oty = init['locals'][0]
    nxt = method(F, oty, 'next')
    it.atomic['decompose::decompose'] = words_new
    dec = F.fn('decompose::decompose')
    dty = dec['locals'][0]
    it.atomic[method(F, dty, 'next')['path']] = words_next('next')
    it.atomic[method(F, dty, 'next_no_decomposition')['path']] = words_next('raw')
    it.atomic['lex::selmaho::classify::<impl lex::selmaho::Selmaho>::classify'] = classify
    b = client(it, init, [('next', nxt, ())])
    return it, b


if __name__ == '__main__':
    import time
    F = Facts('/verif/build/facts/sneturfahi.json')
    t = time.time()
    it, b = build(F)
    try:
        g = explore(F, it, b)
    except Unsupported as u:
        print('UNSUPPORTED', u, u.where)
        raise SystemExit
    print(len(g.nodes), it.unmodelled, {k: v for k, v in it.obl.items()}, time.time() - t)
    if len(sys.argv) > 1:
        for n in g.nodes.values():
            print('  ', n.id, n.kind, str(n.desc)[:250], [(l, t) for l, t, m, d in n.edges])
    import bisim, json
    d = json.loads(json.dumps(bisim.to_graphs({'lexer': g})))
    S = bisim.Side(d)
    t = time.time()
    e = bisim.Eq(S, S, set())
    print(e.check('lexer'), time.time() - t, len(json.dumps(d)))
