"""Exploration of single functions (debugging aid): ex.py PATH"""
import sys
from rulesx import *

def strfn(F, it, path):
    b = F.fn(path)
    st = St()
    i, e = st.sym('c'), st.sym('c')
    st.add_le(i, e)
    st.frames.append(Frame(0, b['id'], 0, 0, None, None))
    st.ncell = 1
    st.mem[('L', 0, 1)] = ('str', i, e)
    return it.explore(path, st)

if __name__ == '__main__':
    F = Facts('/verif/build/facts/sneturfahi.json')
    it, gs = extract(F, ['x'])
    for p in sys.argv[1:]:
        try:
            g = strfn(F, it, p)
        except Unsupported as u:
            print(u, u.where); continue
        print(p, len(g.nodes), g.entry)
        for n in g.nodes.values():
            print('  ', n.id, n.kind, n.desc, n.edges)
    print(it.unmodelled, [ (k,v) for k,v in it.obl.items() if not v[0]])
