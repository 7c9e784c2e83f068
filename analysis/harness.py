"""Exploring one function with symbolic arguments built from its parameter types."""
from interp import *
from models import MODELS, addr


def arg(it, st, ty, depth=0, name='x'):
    """A symbolic value of type `ty` (references are to fresh cells)."""
    T = it.T
    t = T[ty]
    k = t['k']
    if k == 'ref':
        inner = T[t['t']]
        if inner['s'] == 'str':
            a, b = st.sym('c'), st.sym('c')
            st.add_le(a, b)
            return ('str', a, b)
        if inner['k'] == 'slice':
            a, b = st.sym('c'), st.sym('c')
            st.add_le(a, b)
            return ('tok', a, b)
        c = st.cell()
        st.mem[c] = arg(it, st, t['t'], depth + 1, name + '*')
        return ('ref', c, ())
    if k in ('int', 'uint') and t['s'] in ('u32', 'usize', 'u64', 'u8', 'u16'):
        return lin(0, ((st.sym('n'), 1),))
    if k == 'char':
        c = st.sym('c')
        return ('chr', c, ())
    if k == 'adt' and not t['enum'] and t['v'] and depth < 4 and t.get('kr') == 'sneturfahi':
        return ('a', ty, 0, tuple(arg(it, st, ft, depth + 1, name + '.' + str(i)) for i, (n, ft) in enumerate(t['v'][0]['f'])))
    if k == 'tuple':
        return ('a', ty, 0, tuple(arg(it, st, ft, depth + 1, name + '.' + str(i)) for i, ft in enumerate(t['a'])))
    return ('op', st.sym('v'), (), ty)


def explore(F, it, body, args=None, setup=None):
    st = St()
    st.frames.append(Frame(0, body['id'], 0, 0, None, None))
    st.ncell = 1
    vals = []
    for i in range(body['argc']):
        v = arg(it, st, body['locals'][i + 1], 0, 'a%d' % i) if args is None or args[i] is None else args[i](it, st)
        st.mem[('L', 0, i + 1)] = v
        vals.append(v)
    if setup:
        setup(st, vals)
    st.mem[('K', 'args')] = ('a', None, 0, tuple(vals))
    g = it.explore(body['path'], st)
    g.args = vals
    return g


def show(g):
    print(g.name, len(g.nodes), g.entry, g.entry_defs)
    for n in g.nodes.values():
        print('  ', n.id, n.kind, n.desc, [(l, t, m, d) for l, t, m, d in n.edges])
