"""Path-sensitive abstract interpretation of monomorphised MIR.

Values are drawn from small abstract domains (provenance of text slices as cursor pairs, linear
expressions over cursor addresses, character sets, enum variants, opaque terms).  Exploring a root
function yields a finite *behaviour graph*: every node is an observable step (a test on a character, a
call of another analysed function, an effect, a return) in canonical form, loops are closed by merging
equal canonical states, and joins are taken at loop heads.  No path condition is handed to a solver
and nothing is executed.
"""
import json
import os
import sys
from collections import deque

import charset as CS

sys.setrecursionlimit(20000)

UNIT = ('a', None, 0, ())
TRUE = ('b', 1)
FALSE = ('b', 0)
I = lambda n: ('i', n)


def is_sym(v):
    return type(v) is tuple and len(v) == 3 and v[0] == '$'


def refers(v, fid):
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'L' and v[1] == fid:
            return True
        return any(type(x) is tuple and refers(x, fid) for x in v)
    return False


def has_vec(v):
    if type(v) is tuple:
        return (len(v) == 2 and v[0] == 'vec') or any(type(x) is tuple and has_vec(x) for x in v)
    return False


class Unsupported(Exception):
    pass


class Decision(Exception):
    def __init__(self, desc, outs):
        self.desc = desc
        self.outs = outs


class Infeasible(Exception):
    pass


class Facts:
    """The dumped program."""

    def __init__(self, path):
        f = json.load(open(path))
        self.raw = f
        self.T = f['types']
        self.B = {b['id']: b for b in f['bodies']}
        self.items = f['items']
        self.adts = f['adts']
        self.impls = f['impls']
        self.statics = f['statics']
        self.by_path = {}
        for b in f['bodies']:
            self.by_path.setdefault(b['path'], []).append(b)
        self._fresh = 10**7
        self._live = {}
        self._loops = {}
        self._tystr = {}
        self.model_bodies = {}
        mp = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'models', 'models.json')
        self.merge(mp)

    def fresh(self):
        self._fresh += 1
        return self._fresh

    def merge(self, path):
        """Add the bodies of the library models, renumbered into this program's tables."""
        m = json.load(open(path))
        have = {t['s']: i for i, t in enumerate(self.T)}
        tmap = {}
        base = 10**6
        for i, t in enumerate(m['types']):
            if t['s'] in have:
                tmap[i] = have[t['s']]
            else:
                tmap[i] = len(self.T)
                self.T.append(t)
                t['$new'] = True
        for t in self.T:
            if t.pop('$new', None):
                if 't' in t:
                    t['t'] = tmap[t['t']]
                if 'a' in t:
                    t['a'] = [tmap[x] for x in t['a']]
                for v in t.get('v', ()):
                    v['f'] = [[n, tmap[x]] for n, x in v['f']]
                for k in ('inst',):
                    if k in t:
                        t[k] += base
                if t.get('k') == 'closure' or t.get('kr') == 'stdmodels':
                    t['s'] = 'stdmodels::' + t['s']

        def place(p):
            for e in p[1]:
                if e != '*' and e[0] == 'f':
                    e[2] = tmap[e[2]]

        def const(v):
            if v[0] == 'r':
                v[1] = tmap[v[1]]
                const(v[2])
            elif v[0] == 'agg':
                for x in v[2]:
                    const(x)
            elif v[0] == 'sl':
                for x in v[1]:
                    const(x)

        def op(o):
            if o[0] in ('c', 'm'):
                place(o[1])
            elif o[0] == 'k':
                o[1] = tmap[o[1]]
                const(o[2])

        def rv(r):
            k = r[0]
            if k in ('use', 'rep'):
                op(r[1])
            elif k in ('ref', 'raw', 'disc'):
                place(r[1])
            elif k == 'cast':
                op(r[2])
                r[3] = tmap[r[3]]
            elif k == 'bin':
                op(r[2])
                op(r[3])
            elif k == 'un':
                op(r[2])
            elif k == 'agg':
                if r[1][0] in ('adt', 'array', 'closure', 'rawptr'):
                    r[1][1] = tmap[r[1][1]]
                for o in r[2]:
                    op(o)
        self.model_bodies = {}
        for b in m['bodies']:
            b['id'] += base
            b['local'] = False
            b['path'] = 'stdmodels::' + b['path']
            b['locals'] = [tmap[x] for x in b['locals']]
            for bl in b['blocks']:
                for st in bl[0]:
                    if st[0] == '=':
                        place(st[1])
                        rv(st[2])
                    elif st[0] == 'sd':
                        place(st[1])
                t = bl[1]
                if t[0] == 'switch':
                    op(t[1])
                    t[4] = tmap[t[4]]
                elif t[0] == 'drop':
                    place(t[1])
                    t[3] = tmap[t[3]]
                elif t[0] == 'call':
                    op(t[1])
                    for o in t[2]:
                        op(o)
                    place(t[3])
                    t[5] = tmap[t[5]]
                elif t[0] == 'assert':
                    op(t[1])
                    for o in t[5]:
                        op(o)
            self.B[b['id']] = b
            self.by_path.setdefault(b['path'], []).append(b)
            self.model_bodies[b['path'][11:]] = b['id']

    def ty_by_str(self, s):
        if not self._tystr:
            for i, t in enumerate(self.T):
                self._tystr.setdefault(t['s'], i)
        return self._tystr.get(s)

    def fn(self, path):
        l = [b for b in self.by_path.get(path, []) if b['local']]
        return l[0] if l else None

    # -- CFG helpers -------------------------------------------------------------------------
    def succs(self, blk):
        t = blk[1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def loop_heads(self, b):
        r = self._loops.get(b['id'])
        if r is not None:
            return r
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(b['blocks'][0])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(b['blocks'][s]))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._loops[b['id']] = heads
        return heads

    def liveness(self, b):
        """live-in sets of locals per block and per statement index: live[bb][ip]."""
        r = self._live.get(b['id'])
        if r is not None:
            return r
        blocks = b['blocks']
        n = len(blocks)
        gen_kill = []

        def pl_use(p, uses):
            uses.add(p[0])
            for e in p[1]:
                if e != '*' and e[0] == 'i':
                    uses.add(e[1])

        def op_use(o, uses):
            if o[0] in 'cm' and o[0] != 'k':
                pl_use(o[1], uses)

        def rv_use(r, uses):
            k = r[0]
            if k == 'use':
                op_use(r[1], uses)
            elif k == 'rep':
                op_use(r[1], uses)
            elif k in ('ref', 'raw', 'disc'):
                pl_use(r[1], uses)
            elif k == 'cast':
                op_use(r[2], uses)
            elif k == 'bin':
                op_use(r[2], uses)
                op_use(r[3], uses)
            elif k == 'un':
                op_use(r[2], uses)
            elif k == 'agg':
                for o in r[2]:
                    op_use(o, uses)

        def st_ud(s):
            uses, defs = set(), set()
            if s[0] == '=':
                rv_use(s[2], uses)
                if s[1][1]:
                    pl_use(s[1], uses)
                else:
                    defs.add(s[1][0])
            elif s[0] == 'sd':
                pl_use(s[1], uses)
            elif s[0] == 'dead':
                defs.add(s[1])
            return uses, defs

        def te_ud(t):
            uses, defs = set(), set()
            k = t[0]
            if k == 'switch':
                op_use(t[1], uses)
            elif k == 'call':
                op_use(t[1], uses)
                for o in t[2]:
                    op_use(o, uses)
                if t[3][1]:
                    pl_use(t[3], uses)
                else:
                    defs.add(t[3][0])
            elif k == 'assert':
                op_use(t[1], uses)
                for o in t[5]:
                    op_use(o, uses)
            elif k == 'ret':
                uses.add(0)
            return uses, defs

        uds = [([st_ud(s) for s in bl[0]], te_ud(bl[1])) for bl in blocks]
        live_in = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                live = set()
                for s in self.succs(blocks[i]):
                    live |= live_in[s]
                u, d = uds[i][1]
                live = (live - d) | u
                for u, d in reversed(uds[i][0]):
                    live = (live - d) | u
                live = frozenset(live)
                if live != live_in[i]:
                    live_in[i] = live
                    changed = True
        full = []
        for i in range(n):
            live = set()
            for s in self.succs(blocks[i]):
                live |= live_in[s]
            after = frozenset(live)
            u, d = uds[i][1]
            live = (live - d) | u
            per = [frozenset(live)]
            for u, d in reversed(uds[i][0]):
                live = (live - d) | u
                per.append(frozenset(live))
            per.reverse()
            full.append((per, after))
        self._live[b['id']] = full
        return full


class Frame:
    __slots__ = ('fid', 'body', 'bb', 'ip', 'ret', 'tgt')

    def __init__(self, fid, body, bb, ip, ret, tgt):
        self.fid, self.body, self.bb, self.ip, self.ret, self.tgt = fid, body, bb, ip, ret, tgt

    def copy(self):
        return Frame(self.fid, self.body, self.bb, self.ip, self.ret, self.tgt)


class St:
    __slots__ = ('frames', 'mem', 'nsym', 'ncell', 'le', 'lt', 'chars', 'pred', 'var', 'terms', 'retval', 'atloop', 'defs')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.nsym = 0
        self.ncell = 0
        self.le = set()      # (x, y): x <= y
        self.lt = set()      # (x, y): x < y
        self.chars = {}      # cursor -> charset of the character at it
        self.pred = {}       # cursor -> cursor one character before it
        self.var = {}        # opaque enum -> frozenset of feasible variants
        self.terms = {}      # decided opaque predicates
        self.retval = None
        self.atloop = 0
        self.defs = {}

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.nsym, s.ncell = self.nsym, self.ncell
        s.le, s.lt = set(self.le), set(self.lt)
        s.chars, s.pred = dict(self.chars), dict(self.pred)
        s.var, s.terms = dict(self.var), dict(self.terms)
        s.retval = self.retval
        s.atloop = self.atloop
        s.defs = dict(self.defs)
        return s

    def sym(self, kind, desc=None):
        self.nsym += 1
        r = ('$', kind, self.nsym)
        if desc is not None:
            self.defs[r] = desc
        return r

    def cell(self, val=None):
        self.ncell += 1
        c = ('h', self.ncell)
        if val is not None:
            self.mem[c] = val
        return c

    # -- order facts --------------------------------------------------------------------------
    def add_le(self, x, y, strict=False):
        if x == y:
            if strict:
                raise Infeasible()
            return
        if (y, x) in self.lt or (strict and (y, x) in self.le):
            raise Infeasible()
        lo = {x} | {a for (a, b) in self.le if b == x}
        hi = {y} | {b for (a, b) in self.le if a == y}
        for a in lo:
            for b in hi:
                if a == b:
                    continue
                self.le.add((a, b))
                if strict or (a, x) in self.lt or (y, b) in self.lt:
                    self.lt.add((a, b))

    def subst(self, old, new):
        """Merge two cursors known to be equal."""
        def go(v):
            if type(v) is not tuple:
                return v
            if v == old:
                return new
            return tuple([go(x) if type(x) is tuple else x for x in v])
        self.mem = {c: refix(go(v)) for c, v in self.mem.items()}
        for f in self.frames:
            f.ret = go(f.ret) if f.ret else f.ret
        le, lt = self.le, self.lt
        self.le, self.lt = set(), set()
        for (a, b) in le:
            a2, b2 = go(a), go(b)
            if a2 != b2:
                self.add_le(a2, b2, (a, b) in lt)
            elif (a, b) in lt:
                raise Infeasible()
        ch = {}
        for c, s in self.chars.items():
            c2 = go(c)
            s2 = CS.inter(s, ch.get(c2, CS.FULL))
            if not s2:
                raise Infeasible()
            ch[c2] = s2
        self.chars = ch
        self.pred = {go(k): go(v) for k, v in self.pred.items()}
        self.var = {go(k): v for k, v in self.var.items()}
        self.terms = {go(k): v for k, v in self.terms.items()}
        self.defs = {go(k): go(v) for k, v in self.defs.items() if k != old}


def refix(v):
    """Restore the canonical form of linear expressions after a renaming."""
    if type(v) is not tuple:
        return v
    if v and v[0] == 'lin':
        return lin(v[1], v[2])
    if v and v[0] == '$':
        return v
    out = tuple([refix(x) if type(x) is tuple else x for x in v])
    return out


def lin(k, terms):
    d = {}
    for s, c in terms:
        d[s] = d.get(s, 0) + c
    t = tuple(sorted((s, c) for s, c in d.items() if c))
    if not t:
        return ('i', k)
    return ('lin', k, t)


def aslin(v):
    if v[0] == 'i':
        return v[1], ()
    if v[0] == 'lin':
        return v[1], v[2]
    return None


def ladd(a, b, sign=1):
    x, y = aslin(a), aslin(b)
    if x is None or y is None:
        return None
    return lin(x[0] + sign * y[0], x[1] + tuple((s, sign * c) for s, c in y[1]))


INT_BITS = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
            'u128': (0, 2**128 - 1), 'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
            'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}


class Node:
    __slots__ = ('id', 'kind', 'desc', 'edges', 'state', 'nparams', 'site')

    def __init__(self, id, kind, desc, nparams, state, site):
        self.id, self.kind, self.desc, self.nparams, self.state, self.site = id, kind, desc, nparams, state, site
        self.edges = []


class Graph:
    def __init__(self, name):
        self.name = name
        self.nodes = {}
        self.entry = None
        self.obligations = []


class Interp:
    def __init__(self, facts, models, atomic=None, intmax=3, maxnodes=20000, clamp_after=14, trace=False):
        self.F = facts
        self.T = facts.T
        self.B = facts.B
        self.models = models
        self.atomic = atomic or {}
        self.intmax = intmax
        self.maxnodes = maxnodes
        self.partial = False
        self.tails = set()
        self.clamp_after = clamp_after
        self.obl = {}          # (site, kind) -> bool proven
        self.unmodelled = {}
        self.repeated = set()   # constants compared again with a text known to differ
        self.inlined = set()
        self.opaque_ok = True
        self.steps = 0
        self.cur_site = None

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.T[i]

    def place_ty(self, body, p):
        """Type id of a place, or None."""
        t = body['locals'][p[0]]
        for e in p[1]:
            if e == '*':
                tt = self.T[t]
                if tt['k'] in ('ref', 'ptr'):
                    t = tt['t']
                elif tt['k'] == 'adt' and tt['a']:
                    t = tt['a'][0]
                else:
                    return None
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = self.T[t].get('t')
            elif e[0] == 'd' or e[0] == 'ss':
                pass
            else:
                return None
            if t is None:
                return None
        return t

    # ------------------------------------------------------------------ memory
    def lv(self, st, fr, p):
        """Resolve a place to ('cell', cell, path) or ('val', value, path)."""
        base = ('cell', ('L', fr.fid, p[0]), ())
        body = self.B[fr.body]
        t = body['locals'][p[0]]
        for e in p[1]:
            if e == '*':
                v = self.load(st, base)
                v = self.norm_ref(st, v, t, base)
                if v[0] == 'ref':
                    base = ('cell', v[1], v[2])
                elif v[0] == 'cref':
                    base = ('val', v[1], ())
                elif v[0] in ('str', 'bstr', 'cs', 'cb', 'tok', 'slc', 'pat', 'fn', 'fnp'):
                    base = ('val', v, ())
                elif v[0] == 'box':
                    base = ('cell', v[1], ())
                elif v[0] == 'op':
                    base = ('val', ('op', v[1], v[2] + ('*',), self.deref_ty(v[3])), ())
                elif v[0] == 'box':
                    base = ('cell', v[1], ())
                else:
                    raise Unsupported('deref of %r' % (v[:2],))
                t = self.deref_ty(t)
            elif e[0] == 'f':
                base = (base[0], base[1], base[2] + (('f', e[1], e[2]),))
                t = e[2]
            elif e[0] == 'd':
                base = (base[0], base[1], base[2] + (('d', e[1]),))
            elif e[0] == 'i':
                iv = self.load(st, ('cell', ('L', fr.fid, e[1]), ()))
                base = (base[0], base[1], base[2] + (('i', iv),))
                t = self.T[t].get('t') if t is not None else None
            elif e[0] == 'ci':
                base = (base[0], base[1], base[2] + (('ci', e[1], e[2], e[3]),))
                t = self.T[t].get('t') if t is not None else None
            elif e[0] == 'ss':
                base = (base[0], base[1], base[2] + (('ss', e[1], e[2], e[3]),))
            else:
                raise Unsupported('projection %r' % (e,))
        return base

    def deref_ty(self, t):
        if t is None:
            return None
        tt = self.T[t]
        if tt['k'] in ('ref', 'ptr'):
            return tt['t']
        if tt['k'] == 'adt' and tt['a']:
            return tt['a'][0]
        return None

    def norm_ref(self, st, v, t, base):
        return v

    def load(self, st, base):
        if base[0] == 'cell':
            v = st.mem.get(base[1])
            if v is None:
                raise Unsupported('read of uninitialised %r in %s' % (base[1], [(f.fid, self.B[f.body]['path']) for f in st.frames]))
            if base[1][0] == 'K':
                pass
        else:
            v = base[1]
        for e in base[2]:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if v[0] == 'a':
            if k == 'f':
                if e[1] >= len(v[3]):
                    raise Infeasible()
                return v[3][e[1]]
            if k == 'd':
                if v[2] != e[1]:
                    raise Infeasible()
                return v
            if k in ('i', 'ci') and v[1] is None:
                pass
        if v[0] == 'arr':
            if k == 'i':
                if e[1][0] == 'i':
                    if e[1][1] < len(v[1]):
                        return v[1][e[1][1]]
                    raise Infeasible()
                vals = set(v[1])
                if len(vals) == 1:
                    return v[1][0]
                raise Unsupported('symbolic array index')
            if k == 'ci':
                return v[1][-e[1] if e[3] else e[1]]
            if k == 'ss':
                return ('arr', v[1][e[1]:(len(v[1]) - e[2]) if e[3] else e[2]])
        if v[0] == 'box' and k == 'f':
            return v
        if v[0] == 'op':
            if k == 'f':
                r = ('op', v[1], v[2] + (('f', e[1]),), e[2])
                return r
            if k == 'd':
                return ('op', v[1], v[2] + (('d', e[1]),), v[3])
            return ('op', v[1], v[2] + (e,), None)
        h = getattr(self, 'proj_' + v[0], None)
        if h:
            return h(st, v, e)
        raise Unsupported('projection %r of %r' % (e, v))

    def store(self, st, base, val):
        if base[0] != 'cell':
            raise Unsupported('store through %r' % (base[0],))
        if not base[2]:
            st.mem[base[1]] = val
            return
        old = st.mem.get(base[1])
        st.mem[base[1]] = self.store_in(st, old, base[2], val, base[1])

    def store_in(self, st, old, path, val, cell=None):
        if not path:
            return val
        e = path[0]
        if old is None:
            # building an aggregate field by field
            if e[0] == 'f':
                fs = [None] * (e[1] + 1)
                fs[e[1]] = self.store_in(st, None, path[1:], val)
                return ('a', None, 0, tuple(fs))
            if e[0] == 'd':
                r = self.store_in(st, None, path[1:], val)
                return ('a', r[1], e[1], r[3])
            raise Unsupported('store into uninit')
        if old[0] == 'op' and e[0] == 'f':
            old = self.materialize(old)
        if old[0] == 'a':
            if e[0] == 'f':
                fs = list(old[3])
                while len(fs) <= e[1]:
                    fs.append(None)
                fs[e[1]] = self.store_in(st, fs[e[1]], path[1:], val)
                return ('a', old[1], old[2], tuple(fs))
            if e[0] == 'd':
                if old[2] != e[1]:
                    old = ('a', old[1], e[1], ())
                return self.store_in(st, old, path[1:], val)
        if old[0] == 'arr':
            xs = list(old[1])
            if e[0] == 'i' and e[1][0] == 'i':
                n = e[1][1]
            elif e[0] == 'ci':
                n = -e[1] if e[3] else e[1]
            elif e[0] == 'i':
                return ('arr', tuple(('top',) for _ in xs))
            else:
                raise Unsupported('store elem')
            xs[n] = self.store_in(st, xs[n], path[1:], val)
            return ('arr', tuple(xs))
        if old[0] == 'top':
            return old
        raise Unsupported('store at %r into %r' % (e, old[:2]))

    def materialize(self, v):
        t = self.T[v[3]] if v[3] is not None else None
        if t and t['k'] == 'adt' and not t['enum'] and t['v']:
            fs = tuple(('op', v[1], v[2] + (('f', i),), ft) for i, (n, ft) in enumerate(t['v'][0]['f']))
            return ('a', v[3], 0, fs)
        if t and t['k'] == 'tuple':
            return ('a', v[3], 0, tuple(('op', v[1], v[2] + (('f', i),), ft) for i, ft in enumerate(t['a'])))
        raise Unsupported('materialize %r' % (v,))

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            return self.load(st, self.lv(st, fr, o[1]))
        if o[0] == 'k':
            return self.const(o[1], o[2])
        if o[0] == 'rt':
            return FALSE
        raise Unsupported('operand %r' % (o[0],))

    def const(self, ty, v):
        t = self.T[ty]
        k = v[0]
        if k == 'i':
            if t['k'] == 'bool':
                return ('b', v[1])
            if t['k'] == 'char':
                return ('ch', v[1])
            return ('i', v[1])
        if k == 's':
            return ('cs', v[1])
        if k == 'b':
            return ('cb', tuple(v[1]))
        if k == 'fn':
            return ('fn', ty)
        if k == 'agg':
            if t['k'] == 'array':
                return ('arr', tuple(self.const(t['t'], x) for x in v[2]))
            if t['k'] in ('tuple', 'closure'):
                return ('a', ty, 0, tuple(self.const(ft, x) for ft, x in zip(t['a'], v[2])))
            fts = t['v'][v[1]]['f']
            return ('a', ty, v[1], tuple(self.const(ft[1], x) for ft, x in zip(fts, v[2])))
        if k == 'zst':
            return ('a', ty, 0, ())
        if k == 'r':
            return ('cref', self.const(v[1], v[2]))
        if k == 'sl':
            et = self.T[t['t']]['t']
            return ('cref', ('arr', tuple(self.const(et, x) for x in v[1])))
        if k == 'fnp':
            return ('fnp', v[1], v[2] if len(v) > 2 else None)
        if k == 'static':
            return ('ref', ('K', v[1]), ())
        return ('top',)

    # ------------------------------------------------------------------ terms
    def decide(self, st, term):
        """True/False if the term is decided in st, else None."""
        k = term[0]
        if k == 'chin':
            cs = st.chars.get(term[1])
            if cs is None:
                cs = CS.FULL
            x = CS.inter(cs, term[2])
            if not x:
                return False
            if x == cs:
                return True
            return None
        if k == 'eqc':
            x, y = term[1], term[2]
            if x == y:
                return True
            if (x, y) in st.lt or (y, x) in st.lt:
                return False
            if (x, y) in st.le and (y, x) in st.le:
                return True
            return None
        if k == 'ltc':
            x, y = term[1], term[2]
            if x == y or (y, x) in st.le:
                return False
            if (x, y) in st.lt:
                return True
            return None
        if term in st.terms:
            return st.terms[term]
        return None

    def assume(self, st, term, val):
        k = term[0]
        if k == 'chin':
            cs = st.chars.get(term[1], CS.FULL)
            cs = CS.inter(cs, term[2]) if val else CS.minus(cs, term[2])
            if not cs:
                raise Infeasible()
            st.chars[term[1]] = cs
        elif k == 'eqc':
            x, y = term[1], term[2]
            if val:
                # keep the older symbol
                old, new = (y, x) if x[2] < y[2] else (x, y)
                st.subst(old, new)
            else:
                if (x, y) in st.le:
                    st.add_le(x, y, True)
                elif (y, x) in st.le:
                    st.add_le(y, x, True)
                else:
                    st.terms[term] = False
        elif k == 'ltc':
            if val:
                st.add_le(term[1], term[2], True)
            else:
                if (term[1], term[2]) in st.le:
                    a, b = term[1], term[2]
                    old, new = (b, a) if a[2] < b[2] else (a, b)
                    st.subst(old, new)
                else:
                    st.add_le(term[2], term[1])
        else:
            st.terms[term] = val

    def truth(self, st, v):
        """Concrete truth of a boolean value; raises a Decision when it is open."""
        if v[0] == 'b':
            return bool(v[1])
        if v[0] == 'i':
            return bool(v[1])
        if v[0] == 't':
            d = self.decide(st, v[1])
            if d is None:
                term = v[1]
                raise Decision(('test', term), [
                    ('T', lambda s: self.assume(s, term, True)),
                    ('F', lambda s: self.assume(s, term, False)),
                ])
            return d == v[2]
        if v[0] == 'op':
            term = ('p', v[1], v[2])
            d = st.terms.get(term)
            if d is None:
                raise Decision(('test', term), [
                    ('T', lambda s: s.terms.__setitem__(term, True)),
                    ('F', lambda s: s.terms.__setitem__(term, False)),
                ])
            return d
        if v[0] == 'iv' or v[0] == 'top':
            d = self.nd(st)
            if d is not None:
                return d
            raise Decision(('test', ('any', self.cur_site)), [('T', self.skip_bool(True)), ('F', self.skip_bool(False))])
        raise Unsupported('truth of %r' % (v,))

    def skip_bool(self, val):
        # nondeterministic condition: remembered for the re-execution of this very step only
        def f(s):
            s.terms[('nd',)] = val
        return f

    def nd(self, st):
        if ('nd',) in st.terms:
            return st.terms.pop(('nd',))
        return None

    def cmp_ints(self, st, op, a, b):
        """Value of the comparison `a op b`."""
        if op in ('Ne', 'Eq') and a == b and a[0] not in ('iv', 'top'):
            return ('b', 1 if op == 'Eq' else 0)
        if op == 'Ne':
            return self.bnot(self.cmp_ints(st, 'Eq', a, b))
        if op == 'Gt':
            return self.cmp_ints(st, 'Lt', b, a)
        if op == 'Ge':
            return self.bnot(self.cmp_ints(st, 'Lt', a, b))
        if op == 'Le':
            return self.bnot(self.cmp_ints(st, 'Lt', b, a))
        d = ladd(a, b, -1)
        if d is not None:
            if d[0] == 'i':
                return ('b', int(d[1] == 0 if op == 'Eq' else d[1] < 0))
            k, terms = d[1], d[2]
            pos = [s for s, c in terms if c == 1]
            neg = [s for s, c in terms if c == -1]
            if len(terms) == 2 and len(pos) == 1 and len(neg) == 1:
                x, y = pos[0], neg[0]       # a - b = x - y + k
                if k == 0:
                    if op == 'Eq':
                        x, y = sorted((x, y))
                        return self.lazy(st, ('eqc', x, y))
                    return self.lazy(st, ('ltc', x, y))
                if op == 'Lt':
                    if k < 0 and (x, y) in st.le:
                        return TRUE
                    if k <= 0 and (x, y) in st.lt:
                        return TRUE
                    if k >= 0 and (y, x) in st.le:
                        return FALSE
                    if k == 1 and (x, y) in st.lt:
                        # x+1 < y : unknown
                        pass
                else:
                    if k > 0 and (y, x) in st.le or k < 0 and (x, y) in st.le:
                        return FALSE
            # what the order of the cursors decides
            if op == 'Lt':
                if self.nonneg(st, d):
                    return FALSE
                if self.nonneg(st, self.minus_one(d, -1)):
                    return TRUE
            elif self.nonneg(st, self.minus_one(d, 1)) or self.nonneg(st, self.minus_one(d, -1)):
                return FALSE
            term = ('lin0' if op == 'Eq' else 'linneg', k, terms)
            return self.lazy(st, term)
        if op == 'Eq' and 'disc' in (a[0], b[0]) and 'i' in (a[0], b[0]):
            if b[0] == 'disc':
                a, b = b, a
            return ('b', int(self.disc_is(st, a[1], b[1])))
        if 'box' in (a[0], b[0]):
            return ('b', 0)          # the address of an owned box is neither null nor equal to another
        ra, rb = self.range_of(a), self.range_of(b)
        if ra and rb:
            if op == 'Lt':
                if ra[1] is not None and ra[1] < rb[0]:
                    return TRUE
                if rb[1] is not None and ra[0] >= rb[1]:
                    return FALSE
            else:
                if (ra[1] is not None and ra[1] < rb[0]) or (rb[1] is not None and rb[1] < ra[0]):
                    return FALSE
            return ('top',)
        if a[0] == 'byt' and b[0] == 'i':
            return self.char_cmp(st, op, a, b[1])
        if b[0] == 'byt' and a[0] == 'i':
            if op == 'Eq':
                return self.char_cmp(st, op, b, a[1])
            # a < byte
            s = CS.rng(a[1] + 1, 255)
            return self.in_set(st, b, s)
        if 'op' in (a[0], b[0]) or a[0] == 'sc' or b[0] == 'sc':
            x, y = (a, b)
            if op == 'Eq' and repr(x) > repr(y):
                x, y = y, x
            return self.lazy(st, ('cmp', op, x, y))
        return ('top',)

    def minus_one(self, v, sign):
        """sign * v - 1"""
        return ('lin', sign * v[1] - 1, tuple((s, sign * c) for s, c in v[2]))

    def disc_is(self, st, op, n):
        """Is the opaque enum the variant whose discriminant is n?"""
        tt = self.T[op[3]] if op[3] is not None else None
        if tt is None or tt['k'] != 'adt':
            raise Unsupported('comparison of an untyped discriminant')
        key = ('op', op[1], op[2])
        allv = st.var.get(key)
        if allv is None:
            allv = frozenset(range(len(tt['v'])))
        one = frozenset(i for i in allv if tt['v'][i]['d'] == n)
        rest = allv - one
        if not one:
            return False
        if not rest:
            return True
        raise Decision(('variant', op), [(tuple(sorted(tt['v'][i]['n'] for i in g)), (lambda g: lambda s: s.var.__setitem__(key, g))(g))
                                         for g in (one, rest)])

    def range_of(self, v):
        if v[0] == 'i':
            return (v[1], v[1])
        if v[0] == 'iv':
            return (v[1], v[2])
        if v[0] == 'lin':
            # sums of (larger - smaller) cursors are non-negative; otherwise unknown
            return None
        return None

    def bnot(self, v):
        if v[0] == 'b':
            return ('b', 1 - v[1])
        if v[0] == 't':
            return ('t', v[1], not v[2])
        if v[0] == 'op':
            return ('t', ('p', v[1], v[2]), False)
        return v

    def lazy(self, st, term):
        d = self.decide(st, term)
        if d is None:
            return ('t', term, True)
        return ('b', int(d))

    # characters: ('ch', cp) constants; ('chr', cursor, maps) the character at a cursor, mapped
    def in_set(self, st, c, s):
        if c[0] == 'ch':
            return ('b', int(CS.has(s, c[1])))
        if c[0] == 'i':
            return ('b', int(CS.has(s, c[1])))
        if c[0] in ('chr', 'byt'):
            for m in reversed(c[2]):
                s = CS.PRE[m](s)
            if c[0] == 'byt':
                # bytes >= 0x80 belong to non-ASCII characters
                lo = CS.inter(s, ((0, 127),))
                hi = CS.inter(s, ((128, 255),))
                if hi and hi != ((128, 255),):
                    raise Unsupported('test of a non-ASCII byte')
                s = lo if not hi else CS.union(lo, ((128, 0x10FFFF),))
            return self.lazy(st, ('chin', c[1], s))
        if c[0] == 'op':
            return self.lazy(st, ('chin_op', c[1], c[2], s))
        return ('top',)

    def char_cmp(self, st, op, c, n):
        if op == 'Eq':
            return self.in_set(st, c, CS.rng(n, n))
        if op == 'Ne':
            return self.bnot(self.in_set(st, c, CS.rng(n, n)))
        if op == 'Lt':
            return self.in_set(st, c, CS.rng(0, n - 1))
        if op == 'Le':
            return self.in_set(st, c, CS.rng(0, n))
        if op == 'Gt':
            return self.in_set(st, c, CS.rng(n + 1, 0x10FFFF))
        if op == 'Ge':
            return self.in_set(st, c, CS.rng(n, 0x10FFFF))
        raise Unsupported(op)

    SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}

    def compare(self, st, op, a, b):
        ch = ('ch', 'chr')
        if a[0] in ch and b[0] in ch:
            if b[0] == 'ch':
                return self.char_cmp(st, op, a, b[1])
            if a[0] == 'ch':
                return self.char_cmp(st, self.SWAP[op], b, a[1])
            return self.lazy(st, ('cmp', op, a, b))
        bl = ('b', 't')
        if a[0] in bl and b[0] in bl and op in ('Eq', 'Ne'):
            if a[0] == 'b':
                a, b = b, a
            if b[0] == 'b':
                r = a if b[1] else self.bnot(a)
                return r if op == 'Eq' else self.bnot(r)
            x = self.truth(st, a)
            r = b if x else self.bnot(b)
            return r if op == 'Eq' else self.bnot(r)
        return self.cmp_ints(st, op, a, b)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'raw':
            base = self.lv(st, fr, r[1])
            if base[0] == 'cell':
                return ('ref', base[1], base[2])
            v = self.load(st, base)
            if v[0] in ('str', 'bstr', 'cs', 'cb', 'tok', 'slc', 'pat', 'fn', 'fnp'):
                return v
            return ('cref', v)
        if k == 'agg':
            kind = r[1]
            vals = tuple(self.operand(st, fr, o) for o in r[2])
            if kind[0] == 'array':
                return ('arr', vals)
            if kind[0] == 'tuple':
                return ('a', None, 0, vals)
            if kind[0] == 'adt':
                if kind[3] is not None:
                    return ('a', kind[1], 0, (None,) * kind[3] + vals)
                return ('a', kind[1], kind[2], vals)
            if kind[0] == 'closure':
                return ('a', kind[1], 0, vals)
            if kind[0] == 'rawptr':
                return vals[0]
            raise Unsupported('aggregate %r' % (kind,))
        if k == 'disc':
            b = self.lv(st, fr, r[1])
            if b[0] == 'cell' and b[1] not in st.mem:
                return ('top',)      # a value with a single inhabited variant is never written
            v = self.load(st, b)
            return self.discr(st, v, fr, r[1])
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, r)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a[0] in ('b', 't', 'op', 'top'):
                    return self.bnot(a)
                if a[0] == 'i':
                    return ('top',)
                return ('top',)
            if r[1] == 'Neg':
                if a[0] == 'i':
                    return ('i', -a[1])
                return ('top',)
            if r[1] == 'PtrMetadata':
                return self.length(st, a)
            return ('top',)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None or n > 4096:
                return ('top',)
            return ('arr', (v,) * n)
        if k == 'tls':
            return ('ref', ('K', r[1]), ())
        raise Unsupported('rvalue %r' % (r[:2],))

    def length(self, st, a):
        if a[0] == 'ref':
            v = self.load(st, ('cell', a[1], a[2]))
            if v[0] == 'arr':
                return I(len(v[1]))
            a = v
        if a[0] == 'cref' and a[1][0] == 'arr':
            return I(len(a[1][1]))
        if a[0] in ('str', 'tok'):
            return lin(0, ((a[2], 1), (a[1], -1)))
        if a[0] == 'cs':
            return I(len(a[1].encode()))
        if a[0] == 'cb':
            return I(len(a[1]))
        if a[0] == 'op':
            return ('op', a[1], a[2] + ('len',), None)
        return ('top',)

    def discr(self, st, v, fr=None, place=None):
        if v[0] == 'a':
            t = self.T[v[1]] if v[1] is not None else None
            if t and t['k'] == 'adt' and t['enum']:
                return ('i', t['v'][v[2]]['d'])
            return ('i', v[2])
        if v[0] == 'op':
            return ('disc', v)
        raise Unsupported('discriminant of %r' % (v,))

    def int_ty(self, t):
        return INT_BITS.get(self.T[t]['s']) if t is not None else None

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]
        if o[0] in ('c', 'm'):
            return self.place_ty(self.B[fr.body], o[1])
        return None

    def binop(self, st, fr, op, a, b, r):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, a, b)
        if op == 'Cmp':
            return self.three_way(st, fr, a, b)
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked', 'AddWithOverflow', 'SubWithOverflow'):
            sign = 1 if op.startswith('Add') else -1
            v = self.arith(st, sign, a, b)
            if op.endswith('WithOverflow'):
                flag = self.overflow_flag(st, fr, op, a, b, v, self.op_ty(fr, r[2]))
                return ('a', None, 0, (v, flag))
            return v
        if op in ('Mul', 'MulUnchecked', 'MulWithOverflow'):
            v = ('i', a[1] * b[1]) if a[0] == 'i' and b[0] == 'i' else ('top',)
            if op.endswith('WithOverflow'):
                return ('a', None, 0, (v, FALSE if v[0] == 'i' else ('ob', op, a, b)))
            return v
        if a[0] == 'b' and b[0] == 'b':
            x = {'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}.get(op)
            if x is not None:
                return ('b', x)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (a[0] in ('t', 'b') or b[0] in ('t', 'b')):
            x = self.truth(st, a)
            if op == 'BitAnd':
                return b if x else FALSE
            if op == 'BitOr':
                return TRUE if x else b
            return self.bnot(b) if x else b
        if a[0] == 'i' and b[0] == 'i':
            f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y,
                 'Shl': lambda x, y: x << y, 'Shr': lambda x, y: x >> y}.get(op)
            if f:
                return ('i', f(a[1], b[1]))
            if op == 'Div' and b[1]:
                return ('i', a[1] // b[1])
            if op == 'Rem' and b[1]:
                return ('i', a[1] % b[1])
        return ('top',)

    def arith(self, st, sign, a, b):
        v = ladd(a, b, sign)
        if v is not None:
            return v
        ra, rb = self.range_of(a), self.range_of(b)
        if ra and rb:
            if sign == 1:
                return ('iv', ra[0] + rb[0], None if ra[1] is None or rb[1] is None else ra[1] + rb[1])
            lo = None if rb[1] is None else ra[0] - rb[1]
            hi = None if ra[1] is None else ra[1] - rb[0]
            if lo is not None:
                return ('iv', lo, hi)
            return ('top',)
        if a[0] == 'op' and b[0] == 'i':
            return ('op', a[1], a[2] + (('+', sign * b[1]),), a[3])
        return ('top',)

    def nonneg(self, st, v):
        """Is the linear value provably >= 0?  (pairs every subtracted cursor with a larger one)"""
        if v[0] == 'i':
            return v[1] >= 0
        if v[0] == 'iv':
            return v[1] >= 0
        if v[0] != 'lin':
            return False
        k, terms = v[1], v[2]
        pos, neg = [], []
        for s, c in terms:
            (pos if c > 0 else neg).extend([s] * abs(c))
        slack = k

        def match(i, slack):
            if i == len(neg):
                return slack >= 0
            for j in range(len(pos)):
                p = pos[j]
                if p is None:
                    continue
                n = neg[i]
                if (n, p) in st.lt:
                    pos[j] = None
                    if match(i + 1, slack + 1):
                        return True
                    pos[j] = p
                elif (n, p) in st.le:
                    pos[j] = None
                    if match(i + 1, slack):
                        return True
                    pos[j] = p
            return False
        return match(0, slack)

    def overflow_flag(self, st, fr, op, a, b, v, ty):
        rng = self.int_ty(ty)
        if v[0] == 'i' and rng:
            return ('b', int(not (rng[0] <= v[1] <= rng[1])))
        if op.startswith('Sub'):
            if self.nonneg(st, v):
                return FALSE
            return ('ob', 'sub', a, b, v)
        # additions: an address or length of existing text never exceeds isize::MAX
        if v[0] == 'lin' or v[0] == 'iv':
            return ('ob', 'add', a, b, v)
        return ('ob', 'add', a, b, v)

    def three_way(self, st, fr, a, b):
        lt = self.compare(st, 'Lt', a, b)
        if self.truth(st, lt):
            d = -1
        elif self.truth(st, self.compare(st, 'Eq', a, b)):
            d = 0
        else:
            d = 1
        oty = self.F.ty_by_str('std::cmp::Ordering')
        return ('a', oty, d + 1, ())

    def cast(self, st, fr, r):
        kind, v = r[1], self.operand(st, fr, r[2])
        t = self.T[r[3]]
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return v
            return v
        if kind in ('BoxDerefTransmute', 'PtrToPtr', 'Transmute', 'PointerExposeProvenance', 'PointerWithExposedProvenance', 'FnPtrToPtr', 'Subtype'):
            return v
        if kind == 'IntToInt':
            if v[0] in ('chr', 'ch') and t['k'] == 'int':
                return ('i', v[1]) if v[0] == 'ch' else v
            if v[0] == 'i':
                rg = INT_BITS.get(t['s'])
                if rg and not rg[0] <= v[1] <= rg[1]:
                    n = rg[1] - rg[0] + 1
                    return ('i', (v[1] - rg[0]) % n + rg[0])
                if t['k'] == 'char':
                    return ('ch', v[1])
                return v
            if v[0] == 'b':
                return ('i', v[1])
            if v[0] == 't':
                return ('i', int(self.truth(st, v)))
            if v[0] == 'byt' and t['k'] == 'char':
                return ('chr', v[1], v[2])
            if v[0] == 'lin':
                rg = INT_BITS.get(t['s'])
                if rg and rg[1] < 2**31 - 1:        # a position in the text does not fit
                    return ('lin', 0, ((('cut', t['s'], v), 1),))
            return v
        return ('top',)

    # ------------------------------------------------------------------ stepping
    def site(self, fr, line=None):
        b = self.B[fr.body]
        return (b['path'], b['file'])

    def run(self, st):
        """Run until a decision, a loop head, or the end.  Returns a description; st stays at that point."""
        while True:
            if not st.frames:
                return ('ret', st.retval)
            fr = st.frames[-1]
            body = self.B[fr.body]
            if fr.ip == 0 and not st.atloop and (fr.bb in self.F.loop_heads(body) or fr.bb == 0 and fr.body in self.tails):
                st.atloop = 1
                return ('loop',)
            self.steps += 1
            if self.steps > 3000000:
                raise Unsupported('step budget')
            blk = body['blocks'][fr.bb]
            try:
                if fr.ip < len(blk[0]):
                    s = blk[0][fr.ip]
                    self.cur_site = (body['path'], fr.bb, fr.ip)
                    self.stmt(st, fr, s)
                    fr.ip += 1
                    st.atloop = 0
                else:
                    self.cur_site = (body['path'], fr.bb, -1)
                    r = self.term(st, fr, body, blk[1], blk[2])
                    st.atloop = 0
                    if r is not None:
                        return r
            except Decision as d:
                return ('dec', d)

    def stmt(self, st, fr, s):
        if s[0] == '=':
            v = self.rvalue(st, fr, s[2])
            self.store(st, self.lv(st, fr, s[1]), v)
        elif s[0] == 'dead':
            st.mem.pop(('L', fr.fid, s[1]), None)
        elif s[0] == 'sd':
            base = self.lv(st, fr, s[1])
            try:
                old = self.load(st, base)
            except Unsupported:
                old = None
            if old is None or old[0] != 'a':
                t = self.place_ty(self.B[fr.body], s[1])
                old = ('a', t, 0, ())
            self.store(st, base, ('a', old[1], s[2], old[3]))
        elif s[0] == '?':
            if 'Intrinsic' in s[1] or 'ssume' in s[1]:
                return
            raise Unsupported('statement ' + s[1])

    def goto(self, fr, bb):
        fr.bb = bb
        fr.ip = 0

    def term(self, st, fr, body, t, line):
        k = t[0]
        if k == 'goto':
            self.goto(fr, t[1])
        elif k == 'switch':
            v = self.operand(st, fr, t[1])
            self.switch(st, fr, t, v)
        elif k == 'ret':
            v = st.mem.get(('L', fr.fid, 0), UNIT)
            if len(st.frames) == 1:
                v = self.settle(st, v)
            st.frames.pop()
            for c in [c for c in st.mem if c[0] == 'L' and c[1] == fr.fid]:
                del st.mem[c]
            if not st.frames:
                st.retval = v
                return ('ret', v)
            caller = st.frames[-1]
            if fr.ret is not None:
                self.store(st, fr.ret, v)
            if fr.tgt is None:
                raise Infeasible()
            self.goto(caller, fr.tgt)
        elif k == 'drop':
            self.on_drop(st, fr, t)
            self.goto(fr, t[2])
        elif k == 'assert':
            v = self.operand(st, fr, t[1])
            self.assertion(st, fr, body, t, v, line)
            self.goto(fr, t[4])
        elif k == 'call':
            return self.call(st, fr, body, t, line)
        elif k == 'unreachable':
            raise Infeasible()
        elif k in ('resume', 'abort'):
            return ('end', k)
        else:
            raise Unsupported('terminator %r' % (k,))
        return None

    def settle(self, st, v):
        """Decide the booleans left open in a returned value."""
        if type(v) is not tuple or not v:
            return v
        if v[0] == 't' and len(v) == 3:
            return ('b', int(self.truth(st, v)))
        if v[0] == 'a':
            return ('a', v[1], v[2], tuple(self.settle(st, x) if x is not None else None for x in v[3]))
        return v

    def on_drop(self, st, fr, t):
        pass

    def assertion(self, st, fr, body, t, v, line):
        kind = t[3]
        if kind == 'other':
            return       # alignment and null checks the compiler adds around owned boxes
        key = (body['path'], body['file'], kind)
        if v[0] == 'b':
            ok = bool(v[1]) == t[2]
            if not ok:
                self.oblige(st, key, False, line)
                raise Infeasible()
            self.oblige(st, key, True, line)
            return
        if v[0] == 'ob':
            self.oblige(st, key, self.accept_overflow(st, v), line, v)
            return
        if v[0] == 't':
            d = self.decide(st, v[1])
            if d is None:
                self.oblige(st, key, False, line, v)
                try:
                    self.assume(st, v[1], v[2] == t[2])
                except Infeasible:
                    raise
                return
            ok = (d == v[2]) == t[2]
            self.oblige(st, key, ok, line, v)
            if not ok:
                raise Infeasible()
            return
        self.oblige(st, key, False, line, v)

    def accept_overflow(self, st, v):
        # v = ('ob', kind, a, b, value)
        if v[1] == 'add':
            val = v[4] if len(v) > 4 else None
            if val is not None and val[0] == 'lin':
                return self.is_address(st, val)
            if val is not None and val[0] == 'iv':
                return True      # a loop counter: bounded by the number of iterations over existing text
        return False

    def is_address(self, st, val):
        """cursor + (larger - smaller) ...: an address within (or one past) existing text."""
        k, terms = val[1], val[2]
        return k == 0 or abs(k) < 2**16

    def oblige(self, st, key, ok, line, info=None):
        k = key + (line,)
        old = self.obl.get(k)
        if old is None:
            self.obl[k] = [ok, None if ok else info]
        elif not ok:
            old[0] = False
            old[1] = info

    def switch(self, st, fr, t, v):
        arms, other = t[2], t[3]
        if v[0] in ('i', 'b', 'ch'):
            for n, b in arms:
                if n == v[1]:
                    return self.goto(fr, b)
            return self.goto(fr, other)
        if v[0] == 't' or (v[0] == 'op' and self.T[t[4]]['k'] == 'bool'):
            x = int(self.truth(st, v))
            for n, b in arms:
                if n == x:
                    return self.goto(fr, b)
            return self.goto(fr, other)
        if v[0] in ('chr', 'byt'):
            for n, b in arms:
                if self.truth(st, self.in_set(st, v, CS.rng(n, n))):
                    return self.goto(fr, b)
            return self.goto(fr, other)
        if v[0] == 'disc':
            op = v[1]
            tt = self.T[op[3]] if op[3] is not None else None
            key = ('op', op[1], op[2])
            feas = st.var.get(key)
            if tt is None or tt['k'] != 'adt':
                raise Unsupported('switch on untyped discriminant')
            allv = feas if feas is not None else frozenset(range(len(tt['v'])))
            dmap = {vv['d']: i for i, vv in enumerate(tt['v'])}
            groups = {}
            for n, b in arms:
                i = dmap.get(n)
                if i is not None and i in allv:
                    groups.setdefault(b, set()).add(i)
            rest = allv - {i for g in groups.values() for i in g}
            if rest:
                groups.setdefault(other, set()).update(rest)
            if len(groups) == 1:
                b = next(iter(groups))
                return self.goto(fr, b)
            outs = []
            for b, g in groups.items():
                g = frozenset(g)
                label = tuple(sorted(tt['v'][i]['n'] for i in g))
                outs.append((label, (lambda g: lambda s: s.var.__setitem__(key, g))(g)))
            raise Decision(('variant', op), outs)
        if v[0] in ('op', 'lin', 'sc'):
            for n, b in arms:
                if self.truth(st, self.cmp_ints(st, 'Eq', v, ('i', n))):
                    return self.goto(fr, b)
            return self.goto(fr, other)
        if v[0] in ('top', 'iv'):
            tg = sorted(set([b for _, b in arms] + [other]))
            d = self.nd_pick(st)
            if d is None:
                raise Decision(('test', ('any', self.cur_site)), [(str(i), self.nd_set(i)) for i in range(len(tg))])
            return self.goto(fr, tg[d])
        raise Unsupported('switch on %r' % (v,))

    def nd_set(self, i):
        def f(s):
            s.terms[('ndp',)] = i
        return f

    def nd_pick(self, st):
        return st.terms.pop(('ndp',), None)

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, body, t, line):
        fty = self.T[t[5]]
        args = [self.operand(st, fr, o) for o in t[2]]
        dest = t[3]
        tgt = t[4]
        ctx = CallCtx(self, st, fr, fty, args, dest, tgt, t, line, body)
        if fty['k'] == 'fndef':
            return self.call_fn(ctx, fty)
        fv = self.operand(st, fr, t[1])
        return self.call_value(ctx, fv, args)

    def call_fn(self, ctx, fty):
        st = ctx.st
        p = fty['p']
        rp = fty.get('rp', p)
        for name in (rp, p):
            m = self.atomic.get(name)
            if m is not None:
                ctx.fty = fty
                return m(ctx)
        if p in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
            tup = ctx.args[1]
            if tup[0] == 'a':
                return self.call_value(ctx, ctx.args[0], list(tup[3]))
        for name in (rp, p):
            m = self.models.get(name)
            if m is not None:
                ctx.fty = fty
                r = m(ctx)
                if r is not NotImplemented:
                    return r
        if fty.get('ctor'):
            return self.ctor(ctx, fty)
        inst = fty.get('inst')
        if inst is not None:
            return self.inline(ctx, inst, ctx.args)
        return self.opaque_call(ctx, fty)

    def ctor(self, ctx, fty):
        t = self.ret_ty(ctx)
        return ctx.ret(('a', t, fty.get('ctor_variant', 0), tuple(ctx.args)))

    def ret_ty(self, ctx):
        return self.place_ty(ctx.body, ctx.dest)

    def inline(self, ctx, inst, args):
        b = self.B[inst]
        st = ctx.st
        if len(st.frames) > 120:
            raise Unsupported('inlining depth at ' + b['path'])
        if inst == ctx.fr.body and ctx.fr is st.frames[-1] and self.tail(st, ctx, args):
            # the function starts over: no more than a loop
            self.tails.add(inst)
            old = st.frames.pop()
            for c in [c for c in st.mem if c[0] == 'L' and c[1] == old.fid]:
                del st.mem[c]
            if st.frames:
                ctx = ctx.again(st)
                ctx.dest, back = None, (old.ret, old.tgt)
            else:
                ctx.dest, back = None, (None, None)
        else:
            back = None
        n = sum(1 for f in st.frames if f.body == inst)
        if n > 2:
            raise Unsupported('recursion through ' + b['path'])
        self.inlined.add(b['path'])
        st.ncell += 1
        fid = st.ncell
        ret = None
        if ctx.dest is not None:
            ret = self.lv(st, ctx.fr, ctx.dest)
        if back is not None:
            st.frames.append(Frame(fid, inst, 0, 0, *back))
        else:
            st.frames.append(Frame(fid, inst, 0, 0, ret, ctx.tgt))
        argc = b['argc']
        if 'spread' in b:
            sp = b['spread']
            lead = args[:sp - 1]
            rest = args[sp - 1:]
            if len(rest) == 1 and rest[0][0] == 'a' and self.T[b['locals'][sp]]['k'] == 'tuple' and len(rest[0][3]) == len(self.T[b['locals'][sp]]['a']) and not (len(rest[0][3]) == 1 and rest[0][1] is not None and self.T[rest[0][1]]['k'] != 'tuple'):
                tup = rest[0]
            else:
                tup = ('a', b['locals'][sp], 0, tuple(rest))
            args = lead + [tup]
        if len(args) != argc:
            raise Unsupported('arity of %s: %d vs %d' % (b['name'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        return None

    def tail(self, st, ctx, args):
        """Is nothing left to do after this call but to return what it gives?"""
        fid = ctx.fr.fid
        if ctx.dest is None or ctx.dest[0] != 0 or ctx.dest[1] or ctx.tgt is None or any(refers(a, fid) for a in args):
            return False
        # what outlives the frame must not point into it
        if any(refers(v, fid) for c, v in st.mem.items() if not (c[0] == 'L' and c[1] == fid)):
            return False
        blocks = self.B[ctx.fr.body]['blocks']
        bb = ctx.tgt
        for _ in range(20):
            blk = blocks[bb]
            if any(x[0] != 'dead' for x in blk[0]):
                return False
            if blk[1][0] == 'ret':
                return True
            if blk[1][0] != 'goto':
                return False
            bb = blk[1][1]
        return False

    def call_value(self, ctx, fv, args):
        """Call a function value (fn item, closure, reference to either) with untupled arguments."""
        st = ctx.st
        hops = 0
        self_ref = None
        while fv[0] in ('ref', 'cref'):
            self_ref = fv
            fv = self.load(st, ('cell', fv[1], fv[2])) if fv[0] == 'ref' else fv[1]
            hops += 1
            if hops > 10:
                raise Unsupported('callee')
        if fv[0] == 'fn':
            ctx.args = args
            return self.call_fn(ctx, self.T[fv[1]])
        if fv[0] == 'fnp':
            if fv[1] in self.atomic:
                ctx.args = args
                ctx.fty = {'p': fv[1], 'k': 'fndef', 'kr': 'sneturfahi'}
                return self.atomic[fv[1]](ctx)
            if fv[2] is not None:
                return self.inline(ctx, fv[2], args)
            raise Unsupported('call of %s' % fv[1])
        if fv[0] == 'a' and fv[1] is not None and self.T[fv[1]]['k'] == 'closure':
            inst = self.T[fv[1]].get('inst')
            if inst is None:
                raise Unsupported('closure without body')
            b = self.B[inst]
            want = self.T[b['locals'][1]]['k']
            if want == 'ref':
                s = self_ref if self_ref is not None else ('cref', fv)
                if self_ref is None and self.T[b['locals'][1]].get('m'):
                    s = ('ref', st.cell(fv), ())
            else:
                s = fv
            return self.inline(ctx, inst, [s] + list(args))
        if fv[0] == 'pat':
            return ctx.ret(self.in_set(st, ctx.deref(args[0]), fv[1]))
        if fv[0] == 'op':
            return self.opaque_call(ctx, {'p': 'call of ' + str(fv[2]), 'kr': '?', 'k': 'fnptr'})
        raise Unsupported('call of %r' % (fv,))

    def opaque_call(self, ctx, fty):
        name = fty.get('rp', fty.get('p'))
        self.unmodelled[(fty.get('rkr', fty.get('kr')), name)] = self.unmodelled.get((fty.get('rkr', fty.get('kr')), name), 0) + 1
        if ctx.tgt is None:
            return ('end', 'panic:' + str(name))
        if not self.opaque_ok:
            raise Unsupported('opaque call ' + str(name))
        args = tuple(self.snapshot(ctx.st, a) for a in ctx.args)
        if has_vec(args):
            # its effect on the list (taking the last element back, say) is not known
            raise Unsupported('%s of a list being built' % name)

        def done(s):
            c = ctx.again(s)
            v = ('op', s.sym('v'), (), self.ret_ty(c))
            c.ret(v)
        raise Decision(('call', name, args), [('ok', done)])

    def snapshot(self, st, v, depth=0):
        """A value with its (immutable) references resolved, for descriptions."""
        if depth > 6:
            return ('deep',)
        if v is None:
            return ('none',)
        if v[0] == 'ref':
            try:
                return ('&', self.snapshot(st, self.load(st, ('cell', v[1], v[2])), depth + 1))
            except Unsupported:
                return ('&', ('uninit',))
        if v[0] == 'cref':
            return ('&', self.snapshot(st, v[1], depth + 1))
        if v[0] == 'a':
            xs = [self.snapshot(st, x, depth + 1) for x in v[3]]
            k = v[2]
            tt = self.T[v[1]] if v[1] is not None else None
            if tt is not None and tt['k'] == 'adt' and tt.get('local'):
                # by name: the order of variants and fields in the source does not matter
                var = tt['v'][k]
                if tt.get('enum'):
                    k = var['n']
                if len(xs) == len(var['f']) and not var['f'][:1] == [] and not var['f'][0][0].isdigit():
                    xs = [x for _, x in sorted(zip([f[0] for f in var['f']], xs), key=lambda p: p[0])]
            return ('a', self.tyname(v[1]), k, tuple(xs))
        if v[0] == 'arr':
            return ('arr', tuple(self.snapshot(st, x, depth + 1) for x in v[1][:32]))
        if v[0] == 'fn':
            return ('fn', self.T[v[1]].get('rp', self.T[v[1]]['p']))
        if v[0] == 'op':
            return ('op', v[1], v[2])
        return v

    def tyname(self, t):
        if t is None:
            return None
        tt = self.T[t]
        if tt['k'] == 'closure':
            return 'closure'
        if tt['k'] == 'adt':
            return tt['p']
        return tt['k']

    # ------------------------------------------------------------------ canonical states
    def canon(self, st, facts=True):
        """Rename symbols and cells canonically; returns (renamed state, key, map old->new, params)."""
        ren = {}
        cren = {}
        params = []
        fids = {f.fid: i for i, f in enumerate(st.frames)}
        todo = []

        def cname(c):
            if c[0] == 'L':
                i = fids.get(c[1])
                if i is None:
                    return None
                r = ('L', i, c[2])
            elif c[0] == 'h':
                if c not in cren:
                    cren[c] = ('h', len(cren))
                r = cren[c]
            else:
                return c
            todo.append(c)
            return r

        def go(v):
            if type(v) is not tuple:
                return v
            if len(v) == 3:
                k = v[0]
                if k == '$':
                    r = ren.get(v)
                    if r is None:
                        r = ('$', v[1], len(params))
                        ren[v] = r
                        params.append(v)
                    return r
                if k == 'ref':
                    c = cname(v[1])
                    if c is None:
                        return ('dangling',)
                    return ('ref', c, go(v[2]))
                if k == 'lin':
                    # visit in symbol order for a deterministic first-seen order
                    ts = sorted(((s, c) for s, c in v[2]), key=lambda x: (ren[x[0]][2] if x[0] in ren else 10**6, -x[1], x[0]))
                    return lin(v[1], tuple((go(s), c) for s, c in ts))
            if len(v) == 2 and v[0] == 'box':
                return ('box', cname(v[1]))
            return tuple([go(x) if type(x) is tuple else x for x in v])

        order = []
        for i, f in enumerate(st.frames):
            b = self.B[f.body]
            live = self.F.liveness(b)[f.bb]
            top = i == len(st.frames) - 1
            if top:
                ls = live[0][f.ip]
            else:
                # suspended at a call: the result is not there yet
                blk = b['blocks'][f.bb]
                ls = live[1]
                d = blk[1][3] if blk[1][0] == 'call' else None
                if d is not None and not d[1]:
                    ls = ls - {d[0]}
            for l in sorted(ls):
                order.append(('L', f.fid, l))
            if f.ret is not None and f.ret[0] == 'cell':
                pass
        newmem = {}
        seen = set()
        for c in order:
            if c in st.mem and c not in seen:
                seen.add(c)
                newmem[('L', fids[c[1]], c[2])] = go(st.mem[c])
        frs = []
        for i, f in enumerate(st.frames):
            r = f.ret
            if r is not None and r[0] == 'cell':
                c = cname(r[1])
                rn = ('cell', c, go(r[2]))
                # the destination cell itself is only written: do not keep its old content when whole
                if not r[2]:
                    todo.pop()
            else:
                rn = None
            frs.append((f.body, f.bb, f.ip, rn, f.tgt))
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            if c in st.mem:
                v = go(st.mem[c])
                nc = cname(c)
                todo.pop()
                newmem[nc] = v
        if st.retval is not None:
            rv = go(st.retval)
        else:
            rv = None
        n = St()
        n.mem = newmem
        n.nsym = len(params)
        n.ncell = len(cren) + len(st.frames) + 1
        n.frames = []
        for i, (b, bb, ip, rn, tgt) in enumerate(frs):
            n.frames.append(Frame(i, b, bb, ip, rn, tgt))
        n.retval = rv
        n.atloop = st.atloop
        n.le = {(ren[a], ren[b]) for (a, b) in st.le if a in ren and b in ren}
        n.lt = {(ren[a], ren[b]) for (a, b) in st.lt if a in ren and b in ren}
        n.chars = {ren[c]: s for c, s in st.chars.items() if c in ren}
        n.pred = {ren[k]: ren[v] for k, v in st.pred.items() if k in ren and v in ren}

        def known(v):
            if type(v) is not tuple:
                return True
            if is_sym(v):
                return v in ren
            return all(known(x) for x in v)
        n.var = {refix(go(k)): v for k, v in st.var.items() if known(k)}
        n.terms = {refix(go(k)): v for k, v in st.terms.items() if known(k)}
        ctl = tuple((f.body, f.bb, f.ip, f.ret, f.tgt) for f in n.frames)
        mem = tuple(sorted(newmem.items(), key=lambda x: repr(x[0])))
        key = (ctl, mem, rv, n.atloop)
        fkey = (frozenset(n.le), frozenset(n.lt), frozenset(n.chars.items()), frozenset(n.pred.items()),
                frozenset(n.var.items()), frozenset(n.terms.items()))
        return n, key, fkey, params

    @staticmethod
    def join_facts(a, b):
        le = a[0] & b[0]
        lt = a[1] & b[1]
        ca, cb = dict(a[2]), dict(b[2])
        chars = frozenset((c, CS.union(ca[c], cb[c])) for c in ca if c in cb)
        pred = a[3] & b[3]
        va, vb = dict(a[4]), dict(b[4])
        var = frozenset((c, va[c] | vb[c]) for c in va if c in vb)
        terms = a[5] & b[5]
        return (le, lt, chars, pred, var, terms)

    @staticmethod
    def put_facts(st, f):
        st.le, st.lt = set(f[0]), set(f[1])
        st.chars, st.pred = dict(f[2]), dict(f[3])
        st.var, st.terms = dict(f[4]), dict(f[5])

    # ------------------------------------------------------------------ exploration
    def explore(self, name, st0):
        g = Graph(name)
        self.steps = 0
        table = {}      # key -> node id
        loopfacts = {}  # key -> (node id, facts)
        visits = {}
        work = deque()
        self.cur_graph = g

        def intern(st, site):
            """Node for the state st (at a decision, loop head or end)."""
            n, key, fkey, params = self.canon(st)
            if st.atloop == 1:
                ctl = key[0]
                ks = visits.setdefault(ctl, set())
                if len(ks) >= self.clamp_after and key not in loopfacts:
                    self.clamp(st)
                    n, key, fkey, params = self.canon(st)
                ks.add(key)
                if key in loopfacts:
                    nid, old = loopfacts[key]
                    j = self.join_facts(old, fkey)
                    if j != old:
                        loopfacts[key] = (nid, j)
                        self.put_facts(n, j)
                        g.nodes[nid].state = n
                        work.append(nid)
                    return nid, params
                nid = len(g.nodes)
                loopfacts[key] = (nid, fkey)
            else:
                full = (key, fkey)
                if full in table:
                    return table[full], params
                nid = len(g.nodes)
                table[full] = nid
            if nid > self.maxnodes and not self.partial:
                raise Unsupported('too many states in ' + name)
            g.nodes[nid] = Node(nid, None, None, len(params), n, site)
            if nid > self.maxnodes:
                # far away; the rest is not looked at
                g.nodes[nid].kind, g.nodes[nid].desc, g.nodes[nid].edges = 'cut', ('cut',), []
                return nid, params
            work.append(nid)
            return nid, params

        def advance(st):
            """Run from st to the next node; returns (nid, params) or None if infeasible."""
            try:
                r = self.run(st)
            except Infeasible:
                return None
            if r[0] == 'end':
                # panicking end
                st.frames = []
                st.mem = {}
                st.retval = ('panic', r[1])
            elif r[0] == 'ret':
                st.frames = []
                keep = {}
                stack = [st.retval]
                st.retval = self.snapshot_ret(st, st.retval)
                st.mem = keep
            return intern(st, self.cur_site)

        first = st0.copy()
        e = advance(first)
        g.entry = e
        g.entry_defs = first.defs
        while work:
            nid = work.popleft()
            node = g.nodes[nid]
            node.edges = []
            st = node.state.copy()
            if not st.frames:
                if st.retval and st.retval[0] == 'panic':
                    node.kind, node.desc = 'panic', st.retval[1]
                else:
                    node.kind, node.desc = 'ret', st.retval
                continue
            try:
                if st.atloop == 1:
                    node.kind = 'loop'
                    node.desc = None
                    st.atloop = 2
                    r = advance(st)
                    if r is None:
                        node.kind = 'dead'
                        continue
                    node.edges.append(('', r[0], r[1], st.defs))
                    continue
                r = self.run(st)
                if r[0] != 'dec':
                    raise Unsupported('no decision on re-execution: %r' % (r,))
                d = r[1]
                node.kind = d.desc[0]
                node.desc = d.desc
                node.site = self.cur_site
                for label, f in d.outs:
                    s2 = st.copy()
                    try:
                        f(s2)
                    except Infeasible:
                        continue
                    x = advance(s2)
                    if x is not None:
                        node.edges.append((label, x[0], x[1], s2.defs))
            except Unsupported as u:
                if not getattr(u, 'where', None):
                    u.where = ' <- '.join('%s@%d' % (self.B[f.body]['path'], f.bb) for f in reversed(node.state.frames[-6:]))
                raise
        return g

    def snapshot_ret(self, st, v):
        return self.snapshot(st, v)

    def clamp(self, st):
        k = self.intmax

        def go(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == 'i' and len(v) == 2 and isinstance(v[1], int) and v[1] > k:
                return ('iv', k + 1, None)
            if v[0] == 'iv' and len(v) == 3 and isinstance(v[1], int):
                return ('iv', min(v[1], k + 1) if v[1] > k else v[1], None)
            if v[0] in ('$', 'cs', 'cb', 'fn', 'ch', 'ref', 'str', 'pat'):
                return v
            return tuple([go(x) if type(x) is tuple else x for x in v])
        st.mem = {c: go(v) for c, v in st.mem.items()}


class CallCtx:
    def __init__(self, it, st, fr, fty, args, dest, tgt, t, line, body):
        self.it, self.st, self.fr, self.fty, self.args = it, st, fr, fty, args
        self.dest, self.tgt, self.t, self.line, self.body = dest, tgt, t, line, body

    def ret(self, v):
        if self.tgt is None:
            raise Infeasible()
        self.it.store(self.st, self.it.lv(self.st, self.fr, self.dest), v)
        self.it.goto(self.fr, self.tgt)
        return None

    def again(self, s):
        """The same call in another copy of the state (the top frame must be at this call)."""
        fr = s.frames[-1]
        return CallCtx(self.it, s, fr, self.fty, None, self.dest, self.tgt, self.t, self.line, self.body)

    def deref(self, v):
        while v[0] in ('ref', 'cref'):
            v = self.it.load(self.st, ('cell', v[1], v[2])) if v[0] == 'ref' else v[1]
        return v

    def retty(self):
        return self.it.ret_ty(self)

    def option(self, v):
        """Build Some(v)/None of the call's return type."""
        t = self.retty()
        if v is None:
            return ('a', t, 0, ())
        return ('a', t, 1, (v,))
