"""Evaluation of a behaviour graph over integers: its tests, decided for given values of its symbols."""
from interp import Unsupported, is_sym


class Undefined(Exception):
    pass


def value(v, env):
    if is_sym(v):
        if v not in env:
            raise Unsupported('unknown quantity')
        return env[v]
    k = v[0]
    if k == 'lin':
        return v[1] + sum(c * value(s, env) for s, c in v[2])
    if k in ('i', 'b'):
        return int(v[1])
    if k == 'a':
        return ('a', v[2], tuple(value(x, env) for x in v[3]))
    if k == 'str':
        return ('str', value(v[1], env), value(v[2], env))
    if k in ('&', 'cref'):
        return value(v[1], env)
    if k == 't':
        return int(holds(v[1], env) == bool(v[2]))
    raise Unsupported('value %r' % (v[:1],))


def holds(t, env):
    k = t[0]
    if k in ('ltc', 'eqc'):
        a, b = value(t[1], env), value(t[2], env)
        return a < b if k == 'ltc' else a == b
    if k in ('lin0', 'linneg'):
        x = t[1] + sum(c * value(s, env) for s, c in t[2])
        return x == 0 if k == 'lin0' else x < 0
    if k == 'cmp':
        a, b = value(t[2], env), value(t[3], env)
        return {'Eq': a == b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Ne': a != b}[t[1]]
    raise Unsupported('test %r' % (k,))


def run(g, env, bounds=None, limit=1000):
    """Follow the graph.  bounds: the positions of the text at which characters begin or it ends."""
    nid = g.entry[0]
    env = {('$', p[1], i): env[p] for i, p in enumerate(g.entry[1])}
    for _ in range(limit):
        n = g.nodes[nid]
        if n.kind == 'ret':
            return ('ret', value(n.desc, env))
        if n.kind == 'panic':
            return ('panic',)
        if n.kind == 'test':
            lab = 'T' if holds(n.desc[1], env) else 'F'
            got = None
        elif n.kind == 'loop':
            lab, got = '', None
        elif n.kind == 'get':
            s, lo, hi = n.desc[1:4]
            a, b = value(s[1], env), value(s[2], env)
            x = a if lo is None else a + value(lo, env)
            y = b if hi is None else a + value(hi, env)
            ok = a <= x <= y <= b and (bounds is None or x in bounds and y in bounds)
            lab, got = ('some' if ok else 'none'), (x, y)
            if not ok and n.desc[4:] == ('index',):
                return ('panic',)
        elif n.kind == 'boundary':
            a, b = value(n.desc[1][1], env), value(n.desc[1][2], env)
            x = a + value(n.desc[2], env)
            lab, got = ('T' if a <= x <= b and (bounds is None or x in bounds) else 'F'), None
        elif n.kind == 'cut':
            raise Unsupported('too many steps')
        elif n.kind == 'checked':
            a, b = value(n.desc[2], env), value(n.desc[3], env)
            lab, got = ('some' if n.desc[1] == 'add' or a >= b else 'none'), None
        else:
            raise Unsupported('step %r' % (n.desc[:2],))
        es = [e for e in n.edges if e[0] == lab]
        if len(es) != 1:
            raise Unsupported('no way on at %r' % (n.desc,))
        _, t, m, defs = es[0]
        new = {}
        for i, x in enumerate(m):
            if x in env:
                new[('$', x[1], i)] = env[x]
            elif x in defs and defs[x][0] == 'get' and got:
                new[('$', x[1], i)] = got[defs[x][1]]
        nid, env = t, new
    raise Unsupported('no end')
