"""Extraction of the morphology grammar: one behaviour graph per recogniser fn(&str) -> Option<(&str, &str)>."""
from interp import *
from models import MODELS, addr
import charset as CS

SIG = 'std::option::Option<(&str, &str)>'


def is_rule(F, b):
    if not b['local'] or b.get('closure') or b['argc'] != 1:
        return False
    T = F.T
    return T[b['locals'][0]]['s'] == SIG and T[b['locals'][1]]['s'] == '&str'


def rule_call(name):
    def f(ctx):
        s = ctx.deref(ctx.args[0])
        if s[0] != 'str':
            raise Unsupported('recogniser %s on %r' % (name, s[:1]))

        def ok(x):
            c = ctx.again(x)
            d = x.sym('c', ('end', name, s[1], s[2]))
            x.add_le(s[1], s[2])
            x.add_le(s[1], d)
            x.add_le(d, s[2])
            t = c.retty()
            tup = c.it.T[t]['a'][0] if t is not None else None
            c.ret(('a', t, 1, (('a', tup, 0, (('str', s[1], d), ('str', d, s[2]))),)))

        def no(x):
            c = ctx.again(x)
            c.ret(('a', c.retty(), 0, ()))
        raise Decision(('call', name, (s,)), [('ok', ok), ('fail', no)])
    return f


def extract(F, only=None):
    rules = [b for b in F.B.values() if is_rule(F, b)]
    names = {}
    for b in rules:
        names.setdefault(b["path"], b)
    atomic = {p: rule_call(p) for p in names}
    graphs = {}
    it = Interp(F, MODELS, atomic)
    it.unsupported = {}
    for p, b in sorted(names.items()):
        if only and p not in only:
            continue
        st = St()
        i, e = st.sym('c'), st.sym('c')
        st.add_le(i, e)
        st.frames.append(Frame(0, b['id'], 0, 0, None, None))
        st.ncell = 1
        st.mem[('L', 0, 1)] = ('str', i, e)
        # keep the input bounds alive and first in canonical order
        st.mem[('K', 'input')] = ('str', i, e)
        try:
            graphs[p] = it.explore(p, st)
        except Unsupported as u:
            it.unsupported[p] = '%s %s' % (u, getattr(u, 'where', ''))
    return it, graphs


if __name__ == '__main__':
    import sys, time
    F = Facts('/verif/build/facts/sneturfahi.json')
    t = time.time()
    it, gs = extract(F, sys.argv[1:] or None)
    for p, g in gs.items():
        print(p, len(g.nodes), g.entry)
        if len(sys.argv) > 1:
            for n in g.nodes.values():
                print('  ', n.id, n.kind, n.desc, [(l, t, m, d) for l, t, m, d in n.edges])
    print(it.unmodelled)
    print([ (k,v) for k,v in it.obl.items() if not v[0]])
    print(time.time() - t, it.steps)
