"""Product of a behaviour graph with a monitor: every path of the graph, as the monitor sees it."""
from interp import is_sym, lin

LOST = ('lost',)


def translate(v, params, same=None):
    """A value over the source's symbols, in the target's.  same: two symbols just found equal."""
    idx = {p: i for i, p in enumerate(params)}
    if same:
        a, b = same
        if a in idx and b not in idx:
            idx[b] = idx[a]
        elif b in idx and a not in idx:
            idx[a] = idx[b]

    def go(x):
        if type(x) is frozenset:
            return frozenset([go(y) for y in x])
        if type(x) is not tuple:
            return x
        if is_sym(x):
            i = idx.get(x)
            return LOST if i is None else ('$', x[1], i)
        if len(x) == 3 and x[0] == 'lin':
            ts = []
            for s, c in x[2]:
                t = go(s)
                if t == LOST:
                    return LOST
                ts.append((t, c))
            return lin(x[1], tuple(ts))
        return tuple([go(y) if type(y) in (tuple, frozenset) else y for y in x])
    return go(v)


class Skip(Exception):
    """The path cannot happen."""


class Bad(Exception):
    def __init__(self, cat, msg):
        super().__init__(msg)
        self.cat = cat


def product(g, init, step, limit=400000):
    """Explore (node, monitor state) pairs.

    step(mon, node, edge) -> next monitor state, in the symbols of `node` and those edge[3] defines; raises Bad.
    `edge` is None at a node without successors.
    Returns (states, list of (category, message, path))."""
    start = (g.entry[0], translate(init, g.entry[1]))
    parent = {start: None}
    work = [start]
    bad = []
    seen = set()
    while work:
        cur = work.pop()
        nid, mon = cur
        node = g.nodes[nid]
        for e in node.edges or [None]:
            try:
                m2 = step(mon, node, e)
            except Skip:
                continue
            except Bad as b:
                if (b.cat, str(b)) in seen:
                    continue
                seen.add((b.cat, str(b)))
                path = []
                x = cur
                while x is not None:
                    n = g.nodes[x[0]]
                    if n.kind not in ('loop',):
                        path.append('%s %s' % (n.kind, brief(n.desc)))
                    x = parent[x]
                bad.append((b.cat, str(b), list(reversed(path))[-14:]))
                continue
            if e is None:
                continue
            same = None
            if node.kind == 'test' and node.desc[1][0] == 'eqc' and e[0] == 'T':
                same = node.desc[1][1:3]
            nxt = (e[1], translate(m2, e[2], same))
            if nxt not in parent:
                parent[nxt] = cur
                work.append(nxt)
            if len(parent) > limit:
                raise RuntimeError('monitor product too large')
    return len(parent), bad


def brief(d):
    s = repr(d)
    return s if len(s) < 220 else s[:217] + '...'
