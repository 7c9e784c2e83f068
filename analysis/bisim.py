"""Equivalence of behaviour graphs by joint exploration.

Two graphs are run in lock step over a shared valuation: a question one side asks (what character is at a
cursor, does recogniser R accept there, are two cursors equal) is answered once, both ways, and the answer is
remembered for the other side whatever the order in which it asks.  Cursors are identified by what they are
(the one after cursor c, the end of R's match at c, ...).  The graphs are equivalent iff on every branch both
emit the same effects and return the same value.  A recogniser only one side knows is unfolded in place.
"""
import collections
import time

import charset as CS
from interp import lin, is_sym


COMMA = ((44, 44),)


class Budget(Exception):
    pass


class Mismatch(Exception):
    def __init__(self, why, trail, left=None, right=None):
        super().__init__(why)
        # who asked: for each step of the trail, 'a' (current), 'b' (reference) or both
        self.who = tuple(x[2] if len(x) > 2 else '' for x in trail)
        self.why, self.trail, self.left, self.right = why, tuple(x[:2] for x in trail), left, right


def to_graphs(gs):
    """Plain data form of explored graphs (JSON-able)."""
    out = {}
    for name, g in gs.items():
        out[name] = {
            'entry': [g.entry[0], [list(x) for x in g.entry[1]], dump_defs(getattr(g, 'entry_defs', {}))],
            'nodes': {str(n.id): [n.kind, jd(n.desc), [[jd(l), t, jd(m), dump_defs(d)] for l, t, m, d in n.edges], n.nparams]
                      for n in g.nodes.values()},
        }
    return out


def jd(v):
    if isinstance(v, (tuple, list)):
        return [jd(x) for x in v]
    return v


def dump_defs(d):
    return [[jd(k), jd(v)] for k, v in d.items()]


def tup(v):
    if isinstance(v, list):
        return tuple([tup(x) for x in v])
    return v


class Side:
    """One program: named graphs."""

    def __init__(self, graphs):
        self.g = {}
        for name, g in graphs.items():
            nodes = {}
            for k, n in g['nodes'].items():
                kind, desc, edges, npar = n
                nodes[int(k)] = (kind, tup(desc), [(tup(l), t, tup(m), tup(d)) for l, t, m, d in edges], npar)
            e = g['entry']
            self.g[name] = (nodes, e[0], tup(e[1]), tup(e[2]))


def subst(v, env):
    if type(v) is not tuple:
        return v
    if len(v) == 3 and v[0] == '$':
        return env[v]
    if len(v) == 3 and v[0] == 'lin':
        return lin(v[1], tuple((subst(s, env), c) for s, c in v[2]))
    return tuple([subst(x, env) if type(x) is tuple else x for x in v])


class Eq:
    """Joint exploration of side A's graph `a` and side B's graph `b`.

    atomic: names treated as the same uninterpreted recogniser on both sides."""

    def __init__(self, A, B, atomic, budget=60000, unfold_depth=12, seconds=None, nonnull=(), guards=None, known_effects=None, exact=False):
        self.exact = exact                      # forget nothing one side may still ask; breadth first
        self.guards = guards                    # recogniser -> letters its match can begin with, commas aside
        self.known_effects = known_effects      # opaque functions that may be compared by name
        self.nonnull = frozenset(nonnull)       # opaque steps that never match nothing
        self.A, self.B, self.atomic = A, B, atomic
        self.until = time.monotonic() + seconds if seconds else None
        self.budget = budget
        self.unfold_depth = unfold_depth
        self.visited = 0
        self.used = set()

    # A side state: tuple of frames (graphname, node, binding tuple); finished: ('ret', value)
    def start(self, side, name, args):
        nodes, e, params, defs = side.g[name]
        # the explored function's input is ('str', $c1, $c2); other arguments follow
        env = {('$', 'c', 1): args[0], ('$', 'c', 2): args[1]}
        defined = {k for k, _ in defs}
        for p in params:
            if p not in env and p not in defined:
                env[p] = ('in', p[1], p[2])
        env.update(self.mkdefs(defs, env))
        return ((name, e, tuple(subst(p, env) for p in params)),)

    def mkdefs(self, defs, env):
        out = {}
        todo = [d for d in defs if d[0] not in env]
        progress = True
        e2 = dict(env)
        while todo and progress:
            progress = False
            rest = []
            for k, v in todo:
                try:
                    e2[k] = ('cur',) + subst(v, e2)
                    out[k] = e2[k]
                    progress = True
                except KeyError:
                    rest.append((k, v))
            todo = rest
        return out

    def follow(self, side, frames, label):
        """Take the edge `label` of the top node."""
        name, nid, bind = frames[-1]
        kind, desc, edges, npar = side.g[name][0][nid]
        for l, t, m, d in edges:
            if l == label:
                env = {('$', k, i): b for i, b in enumerate(bind) for k in ('c', 'v', 'n', 's')}
                env.update(self.mkdefs(d, env))
                nb = []
                for p in m:
                    if p in env:
                        nb.append(env[p])
                    else:
                        nb.append(('cur', 'opq', name, nid, l, p))
                return frames[:-1] + ((name, t, tuple(nb)),)
        return None       # infeasible

    def advance(self, side, frames, val):
        """Advance one side until it asks something unknown, emits an effect or ends."""
        steps = 0
        while True:
            steps += 1
            if steps > 3000:
                raise Budget('silent loop')
            name, nid, bind = frames[-1]
            kind, desc, edges, npar = side.g[name][0][nid]
            if kind == 'loop':
                frames = self.follow(side, frames, '')
                if frames is None:
                    return ('dead',), frames
                continue
            if kind == 'dead':
                return ('dead',), frames
            env = {('$', k, i): b for i, b in enumerate(bind) for k in ('c', 'v', 'n', 's')}
            if kind == 'ret' or kind == 'panic':
                v = subst(desc, env)
                if len(frames) == 1:
                    return (kind, self.norm(v, val)), frames
                # return into the frame that unfolded this recogniser
                if kind == 'panic':
                    return ('panic', v), frames
                frames = frames[:-1]
                if v[0] == 'a' and v[2] == 1:
                    tupv = v[3][0]
                    end = tupv[3][0][2]
                    frames = self.follow_ok(side, frames, end)
                else:
                    frames = self.follow(side, frames, 'fail')
                if frames is None:
                    return ('dead',), frames
                continue
            if kind == 'test':
                term = subst(desc[1], env)
                d = self.decide(val, term)
                if d is None:
                    return ('ask', term, sorted(str(e[0]) for e in edges)), frames
                frames = self.follow(side, frames, d)
                if frames is None:
                    return ('dead',), frames
                continue
            if kind == 'call':
                callee = desc[1]
                args = subst(desc[2], env)
                if callee in self.atomic or callee not in side.g:
                    labels = [e[0] for e in edges]
                    if labels == ['ok'] or set(labels) - {'ok', 'fail'}:
                        if labels == ['ok']:
                            return ('eff', ('call', callee, args)), frames
                    term = ('call', callee, args)
                    d = self.decide(val, term)
                    if d is None:
                        return ('ask', term, None), frames
                    frames = self.follow(side, frames, d)
                    if frames is None:
                        return ('dead',), frames
                    continue
                if len(frames) > self.unfold_depth:
                    raise Budget('unfolding depth at ' + callee)
                s = args[0]
                frames = frames + self.start(side, callee, (s[1], s[2]))
                continue
            if kind == 'choose':
                return ('choose', tuple(sorted(e[0] for e in edges))), frames
            if kind == 'eff':
                return ('eff', subst(desc, env)), frames
            if kind == 'variant':
                term = ('variant', self.norm(subst(desc[1], env), val)[:3])
                known = val['t'].get(term)
                groups = [e[0] for e in edges]
                fit = [l for l in groups if known is not None and set(known) <= set(l)]
                if not fit:
                    parts = []
                    for l in groups:
                        p = tuple(sorted(set(l) if known is None else set(l) & set(known)))
                        if p:
                            parts.append(p)
                    if not parts:
                        return ('dead',), frames
                    if len(parts) == 1 and known is not None:
                        fit = [l for l in groups if set(l) & set(known)]
                    else:
                        return ('ask', term, parts), frames
                frames = self.follow(side, frames, fit[0])
                if frames is None:
                    return ('dead',), frames
                continue
            # other multi-way questions (lookups...)
            term = subst(desc, env)
            d = self.decide(val, term)
            if d is None:
                return ('ask', term, [e[0] for e in edges]), frames
            frames = self.follow(side, frames, d)
            if frames is None:
                return ('dead',), frames

    def follow_ok(self, side, frames, end):
        """The ok edge of an unfolded call: its match-end cursor is `end`."""
        name, nid, bind = frames[-1]
        kind, desc, edges, npar = side.g[name][0][nid]
        env = {('$', k, i): b for i, b in enumerate(bind) for k in ('c', 'v', 'n', 's')}
        for l, t, m, d in edges:
            if l == 'ok':
                for k, v in d:
                    if v[0] == 'end':
                        env[k] = end
                env.update(self.mkdefs(d, env))
                return frames[:-1] + ((name, t, tuple(env[p] for p in m)),)
        return None

    # ---- valuation: dict
    def find(self, val, c):
        u = val.get('u', {})
        while c in u:
            c = u[c]
        return c

    def norm(self, v, val):
        u = val.get('u')
        if not u:
            return v
        return self._norm(v, u)

    def _norm(self, v, u):
        if type(v) is not tuple:
            return v
        if v in u:
            return self._norm(u[v], u)
        if len(v) == 3 and v[0] == 'lin':
            return lin(v[1], tuple((self._norm(s, u), c) for s, c in v[2]))
        r = tuple([self._norm(x, u) if type(x) is tuple else x for x in v])
        if r in u:
            return self._norm(u[r], u)
        return r

    def topic(self, term):
        return ('ch', term[1]) if term[0] == 'chin' else sides(term)

    def decide(self, val, term):
        term = self.norm(term, val)
        if self.exact:
            self.used.add(self.topic(term))
        k = term[0]
        if k == 'call' and self.guards is not None:
            g = self.guards.get(term[1])
            if g is not None and term[2] and term[2][0][0] == 'str':
                s = self.next_letter(val, term[2][0][1])
                if s is not None and not CS.inter(s, g):
                    return 'fail'
        if k == 'chin':
            s = val['ch'].get(term[1], CS.FULL)
            if self.guards is not None:
                n = self.next_letter(val, term[1])
                if n is not None:
                    s = CS.inter(s, CS.union(n, COMMA))
            x = CS.inter(s, term[2])
            if not x:
                return 'F'
            if x == s:
                return 'T'
            return None
        if k == 'eqc':
            a, b = term[1], term[2]
            if a == b:
                return 'T'
            if self.nonnull and (self.beyond(a, b) or self.beyond(b, a)):
                return 'F'
            t = ('eqc',) + tuple(sorted((a, b), key=repr))
            return val['t'].get(t)
        if k == 'ltc':
            if term[1] == term[2]:
                return 'F'
            r = val['t'].get(term)
            if r is None and val['t'].get(('ltc', term[2], term[1])) == 'T':
                return 'F'
            return r
        return val['t'].get(term)

    def beyond(self, b, a):
        """Does b lie after a, by at least one step that uses something?"""
        strict = False
        while type(b) is tuple and len(b) > 2 and b[0] == 'cur':
            if b[1] == 'succ':
                strict = True
                b = b[2]
            elif b[1] == 'end':
                strict = strict or b[2] in self.nonnull
                b = b[3]
            else:
                return False
            if b == a:
                return strict
        return False

    # ---- the next letter that is not a comma
    def cls(self, val, c):
        k = val.get('k', {})
        return k.get(c, c)

    def next_letter(self, val, c):
        return val.get('nc', {}).get(self.cls(val, c))

    def narrow(self, v, c, s):
        """The next letter at c is one of s."""
        r = self.cls(v, c)
        x = CS.inter(v['nc'].get(r, CS.FULL), s)
        v['nc'][r] = x
        return bool(x)

    def join(self, v, a, b):
        """Between a and b there are only commas."""
        ra, rb = self.cls(v, a), self.cls(v, b)
        if ra == rb:
            return True
        for c in [c for c, r in v['k'].items() if r == rb] + [b]:
            v['k'][c] = ra
        if rb in v['nc']:
            return self.narrow(v, a, v['nc'].pop(rb))
        return True

    def learn(self, v, c, s):
        if self.guards is None:
            return True
        if s == COMMA:
            return self.join(v, c, self.norm(('cur', 'succ', c), v))
        if not CS.inter(s, COMMA):
            return self.narrow(v, c, s)
        n = self.next_letter(v, c)
        if n is not None:
            s = CS.inter(s, CS.union(n, COMMA))
            if not s:
                return False
            if not CS.inter(s, COMMA):
                return self.narrow(v, c, s)
        return True

    def key_term(self, val, term):
        term = self.norm(term, val)
        if term[0] == 'eqc':
            return ('eqc',) + tuple(sorted(term[1:3], key=repr))
        return sides(term)

    def assume(self, val, term, ans):
        term = self.key_term(val, term)
        v = {'ch': dict(val['ch']), 't': dict(val['t']), 'u': dict(val.get('u', {})), 'k': dict(val.get('k', {})), 'nc': dict(val.get('nc', {})), 'p': val.get('p', frozenset())}
        if term[0] == 'call' and ans == 'ok' and self.guards is not None and term[2] and term[2][0][0] == 'str':
            g = self.guards.get(term[1])
            if g is not None and not self.narrow(v, term[2][0][1], g):
                return None
        if term[0] == 'chin':
            s = v['ch'].get(term[1], CS.FULL)
            s = CS.inter(s, term[2]) if ans == 'T' else CS.minus(s, term[2])
            if not s:
                return None
            v['ch'][term[1]] = s
            if not self.learn(v, term[1], s):
                return None
            return v
        if term[0] == 'eqc' and ans == 'T':
            a, b = term[1], term[2]
            # keep the simpler name
            if (len(repr(a)), repr(a)) > (len(repr(b)), repr(b)):
                a, b = b, a
            v['u'][b] = a
            return self.renorm(v)
        if term[0] == 'ltc' and ans == 'F' and False:
            pass
        v['t'][term] = ans
        return v

    def renorm(self, v):
        u = v['u']
        ch, t = {}, {}
        for c, s in v['ch'].items():
            c = self._norm(c, u)
            s2 = CS.inter(ch.get(c, CS.FULL), s)
            if not s2:
                return None
            ch[c] = s2
        for term, a in v['t'].items():
            term = self._norm(term, u)
            if term[0] == 'eqc':
                if term[1] == term[2]:
                    if a == 'F':
                        return None
                    continue
                term = ('eqc',) + tuple(sorted(term[1:3], key=repr))
            if term[0] == 'ltc' and term[1] == term[2]:
                if a == 'T':
                    return None
                continue
            term = sides(term)
            if t.get(term, a) != a:
                return None
            t[term] = a
        v['ch'], v['t'] = ch, t
        if v.get('p'):
            v['p'] = frozenset((x[0], sides(self._norm(x[1], u))) for x in v['p'])
        if v.get('k') or v.get('nc'):
            k0, nc0 = v['k'], v['nc']
            v['k'], v['nc'] = {}, {}
            for c, r in k0.items():
                if not self.join(v, self._norm(r, u), self._norm(c, u)):
                    return None
            for r, s in nc0.items():
                if not self.narrow(v, self._norm(r, u), s):
                    return None
        return v

    # ---- canonical joint states
    def canon(self, fa, fb, val):
        """Keep only what concerns live cursors, and rename cursors."""
        live = []
        seen = {}

        def cursors(v):
            if type(v) is not tuple:
                return
            if v and v[0] in ('cur', 'in'):
                if v not in seen:
                    seen[v] = ('in', len(seen))
                    live.append(v)
                return
            for x in v:
                cursors(x)
        fa = tuple((n, i, tuple(self.norm(b, val) for b in bs)) for n, i, bs in fa)
        fb = tuple((n, i, tuple(self.norm(b, val) for b in bs)) for n, i, bs in fb)
        cursors(fa)
        cursors(fb)

        def alive(v):
            """Mentions only live cursors (definitions of live ones included)."""
            if type(v) is not tuple:
                return True
            if v in seen:
                return True
            if v and v[0] == 'cur':
                return all(alive(x) for x in v[1:])
            if v and v[0] == 'in':
                return False
            return all(alive(x) for x in v)

        # a name for something no longer held, which is known by its place, gives way to that
        while self.exact and val.get('u'):
            for k, w in val['u'].items():
                if w not in seen and k not in seen and k[0] == 'cur' and alive(k[1:]) and not within(w, k) and any(within(w, x) for x in val.get('p', ())):
                    break
            else:
                break
            u = {self.swap(x, w, k): self.swap(y, w, k) for x, y in val['u'].items() if x != k}
            val = {'ch': {self.swap(c, w, k): s for c, s in val['ch'].items()},
                   't': {self.swap(x, w, k): a for x, a in val['t'].items()}, 'u': u,
                   'k': {self.swap(c, w, k): self.swap(r, w, k) for c, r in val.get('k', {}).items()},
                   'nc': {self.swap(c, w, k): s for c, s in val.get('nc', {}).items()},
                   'p': frozenset(self.swap(x, w, k) for x in val.get('p', ()))}

        def ren(v):
            if type(v) is not tuple:
                return v
            if v in seen:
                return seen[v]
            if len(v) == 3 and v[0] == 'lin':
                return lin(v[1], tuple((ren(s), c) for s, c in v[2]))
            return tuple([ren(x) if type(x) is tuple else x for x in v])
        fa2, fb2 = ren(fa), ren(fb)
        ch = {ren(c): s for c, s in val['ch'].items() if alive(c)}
        t = {sides(ren(k)): a for k, a in val['t'].items() if alive(k)}
        # definitions relating live cursors to each other: succ/pred/end of a live cursor
        u = {}
        for c in live:
            if c[0] == 'cur':
                d = c[1:]
                if alive(d):
                    rd = ('cur',) + ren(d)
                    if rd != seen[c]:
                        u[rd] = seen[c]
        for k, w in val.get('u', {}).items():
            if k not in seen and k[0] == 'cur' and alive(k[1:]):
                w = self.norm(w, val)
                if w in seen:
                    u[('cur',) + ren(k[1:])] = seen[w]
        v2 = {'ch': ch, 't': t, 'u': u, 'k': {}, 'nc': {}}
        if self.exact:
            v2['p'] = frozenset((x[0], sides(ren(x[1]))) for x in val.get('p', ()) if alive(x[1]))
        key = (fa2, fb2, tuple(sorted(ch.items())), tuple(sorted(t.items(), key=repr)), tuple(sorted(u.items(), key=repr)), v2.get('p'))
        if self.guards is not None and (val.get('k') or val.get('nc')):
            first = {}
            for c in live:
                r = self.cls(val, c)
                if r in first:
                    v2['k'][seen[c]] = first[r]
                else:
                    first[r] = seen[c]
                    s = val['nc'].get(r)
                    if s is not None:
                        v2['nc'][seen[c]] = s
            key += (tuple(sorted(v2['k'].items())), tuple(sorted(v2['nc'].items())))
        return key, fa2, fb2, v2

    def swap(self, v, old, new):
        if type(v) is not tuple:
            return v
        if v == old:
            return new
        if len(v) == 3 and v[0] == 'lin':
            return lin(v[1], tuple((self.swap(s, old, new), c) for s, c in v[2]))
        return tuple([self.swap(x, old, new) if type(x) is tuple else x for x in v])

    def check(self, a, b=None, collect=None):
        """Number of joint states if equivalent; raises Mismatch otherwise (or hands each one to `collect`)."""
        b = b or a
        i, e = ('in', 0), ('in', 1)
        fa, fb = self.start(self.A, a, (i, e)), self.start(self.B, b, (i, e))
        val = {'ch': {}, 't': {}, 'u': {}}
        stack = collections.deque([(fa, fb, val, ())])
        seen = set()
        while stack:
            fa, fb, val, trail = stack.popleft() if self.exact else stack.pop()
            key, fa, fb, val = self.canon(fa, fb, val)
            if key in seen:
                continue
            seen.add(key)
            self.visited += 1
            if self.visited > self.budget:
                raise Budget('joint states')
            if self.until and time.monotonic() > self.until:
                raise Budget('time')
            self.used = set()
            ra, fa = self.advance(self.A, fa, val)
            ua, self.used = self.used, set()
            rb, fb = self.advance(self.B, fb, val)
            if self.exact and val.get('p'):
                val = dict(val, p=frozenset(x for x in val['p'] if x[1] not in (ua if x[0] == 'a' else self.used)))
            if ra[0] == 'dead' or rb[0] == 'dead':
                continue
            q = ra if ra[0] == 'ask' else rb if rb[0] == 'ask' else None
            if q is not None:
                term = q[1]
                t1 = self.norm(term, val)
                who = ''.join(w for w, r in (('a', ra), ('b', rb)) if r[0] == 'ask' and self.norm(r[1], val) == t1)
                if term[0] == 'call':
                    answers = ['ok', 'fail']
                elif q[2] is not None and [x for x in q[2] if x not in ('T', 'F')]:
                    answers = q[2]
                else:
                    answers = ['T', 'F']
                for ans in answers:
                    v2 = self.assume(val, term, ans)
                    if v2 is not None:
                        if self.exact and len(who) == 1:
                            # the other side may come to ask the same
                            v2['p'] = val.get('p', frozenset()) | {('b' if who == 'a' else 'a', self.topic(t1))}
                        stack.append((fa, fb, v2, trail + ((t1, ans, who),)))
                continue
            if ra[0] == 'choose' and rb[0] == 'choose' and ra == rb:
                for lab in ra[1]:
                    stack.append((self.follow(self.A, fa, lab), self.follow(self.B, fb, lab), val, trail + ((('choose',), lab, 'ab'),)))
                continue
            if ra[0] == 'eff' and rb[0] == 'eff':
                x, y = self.norm(ra[1], val), self.norm(rb[1], val)
                if not alike(x, y):
                    m = Mismatch(self.blind(ra, rb) or 'effects differ', trail, x, y)
                    if collect is None:
                        raise m
                    collect(m)
                    continue
                fa, fb = self.follow(self.A, fa, self.only(self.A, fa)), self.follow(self.B, fb, self.only(self.B, fb))
                # results of opaque calls are the same value on both sides
                stack.append((fa, fb, val, trail + ((x, 'done', 'ab'),)))
                continue
            if not alike(ra, rb):
                m = Mismatch(self.blind(ra, rb) or 'results differ', trail, ra, rb)
                if collect is None:
                    raise m
                collect(m)
        return len(seen)

    def blind(self, ra, rb):
        """A function nothing is known about, which the reference does not call."""
        if self.known_effects is None:
            return None
        for r in (ra, rb):
            if r[0] == 'eff' and r[1][0] == 'call' and r[1][1] not in self.known_effects:
                return 'no proof: %s is not known' % (r[1][1],)
        return None

    def only(self, side, frames):
        name, nid, bind = frames[-1]
        return side.g[name][0][nid][2][0][0]


def within(x, v):
    return v == x or type(v) is tuple and any(within(x, y) for y in v)


def sides(term):
    """Equality does not depend on the order of what is compared."""
    if term[0] == 'eqc' and repr(term[1]) > repr(term[2]):
        return ('eqc', term[2], term[1])
    if term[0] == 'cmp' and term[1] == 'Eq' and len(term) == 4 and repr(term[2]) > repr(term[3]):
        return term[:2] + (term[3], term[2])
    return term


def alike(x, y):
    """Equal up to the names of types that one side does not know."""
    if x == y:
        return True
    if type(x) is not tuple or type(y) is not tuple or len(x) != len(y):
        return False
    if len(x) == 4 and x[0] == y[0] == 'a' and (x[1] is None or y[1] is None):
        return x[2] == y[2] and alike(x[3], y[3])
    return all(alike(a, b) for a, b in zip(x, y))


class Enough(Exception):
    pass


def differ(A, B, atomic, name, limit, seconds, most=400, **more):
    """(joint states, every difference found).  A difference met while forgetting is met again without."""
    found = []
    e = Eq(A, B, atomic, limit, seconds=seconds, **more)
    try:
        e.check(name, collect=found.append)
    except Budget as b:
        found.append(Mismatch('no proof: %s' % b, ()))
    if not found:
        return e.visited, found
    sure = []

    def add(m):
        sure.append(m)
        if len(sure) >= most:
            raise Enough
    e2 = Eq(A, B, atomic, limit, seconds=seconds, exact=True, **more)
    try:
        e2.check(name, collect=add)
    except Budget as b:
        sure.append(Mismatch('no proof: %s' % b, ()))
    except Enough:
        pass
    return e.visited + e2.visited, sure


def undecided(m):
    return str(m.why).startswith('no proof')


def calls_in(trail):
    out = []

    def go(v):
        if type(v) is tuple:
            if len(v) >= 3 and v[0] == 'call' and type(v[1]) is str:
                if v[1] not in out:
                    out.append(v[1])
            if len(v) >= 3 and v[0] == 'end' and type(v[1]) is str and v[1] not in out:
                out.append(v[1])
            for x in v:
                go(x)
    for x in trail:
        go(x[0])
    return out


def guards(side):
    """Recogniser -> set of letters, one of which comes first (commas aside) in whatever it accepts."""
    out = {n: CS.FULL for n in side.g}
    for _ in range(6):
        changed = False
        for n in side.g:
            s = guard(side, n, out)
            if s != out[n]:
                out[n] = s
                changed = True
        if not changed:
            break
    return {n: s for n, s in out.items() if s != CS.FULL}


def guard(side, name, known, limit=4000):
    nodes, e, params, defs = side.g[name]
    got = ()
    first = ('$', 'c', 1)
    if any(k == first for k, _ in defs):
        return CS.FULL
    # per parameter: None, or what is known of the letter there, everything before being commas
    st = (e, tuple(CS.FULL if p == first else None for p in params), CS.FULL)
    seen, todo = {st}, [st]
    while todo:
        nid, info, nc = todo.pop()
        if len(seen) > limit:
            return CS.FULL
        kind, desc, edges, npar = nodes[nid]
        if kind == 'panic' or kind == 'dead':
            continue
        if kind == 'ret':
            if desc[0] != 'a' or desc[2] != 0:
                got = CS.union(got, nc)
            continue
        for l, t, m, d in edges:
            inf, n2 = list(info), nc
            if kind == 'test' and desc[1][0] == 'chin' and desc[1][1][0] == '$' and desc[1][1][1] == 'c' and l in ('T', 'F'):
                i = desc[1][1][2]
                if inf[i] is not None and inf[i][0] != 'after':
                    inf[i] = CS.inter(inf[i], desc[1][2]) if l == 'T' else CS.minus(inf[i], desc[1][2])
                    if not inf[i]:
                        continue
                    if not CS.inter(inf[i], COMMA):
                        n2 = CS.inter(n2, inf[i])
                    if inf[i] == COMMA:
                        inf = [CS.FULL if x == ('after', i) else x for x in inf]
            elif kind == 'call' and l == 'ok' and desc[1] in known and desc[2] and desc[2][0][0] == 'str':
                c = desc[2][0][1]
                if c[0] == '$' and c[1] == 'c' and inf[c[2]] is not None and inf[c[2]][0] != 'after':
                    n2 = CS.inter(n2, known[desc[1]])
            if not n2:
                continue
            new = {('$', 'c', i): x for i, x in enumerate(inf)}
            for k, v in d:
                new[k] = None
                if v[0] == 'succ' and v[1][0] == '$' and v[1][1] == 'c' and v[1][2] < len(inf):
                    x = inf[v[1][2]]
                    if x == COMMA:
                        new[k] = CS.FULL
                    elif x is not None and x[0] != 'after':
                        new[k] = ('after', v[1][2])
            place = {p: j for j, p in enumerate(m)}
            st = []
            for p in m:
                x = new.get(p)
                if x is not None and x[0] == 'after':
                    j = place.get(('$', 'c', x[1]))
                    x = None if j is None else ('after', j)
                st.append(x)
            st = (t, tuple(st), n2)
            if st not in seen:
                seen.add(st)
                todo.append(st)
    return got


def trivial(side, n):
    """Asks nothing at all."""
    return len(side.g[n][0]) <= 2 and all(x[0] in ('ret', 'loop') for x in side.g[n][0].values())


def rename(graphs, m):
    """Graphs with recogniser names replaced."""
    def go(v):
        if isinstance(v, str):
            return m.get(v, v)
        if isinstance(v, (list, tuple)):
            return [go(x) for x in v]
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        return v
    return {m.get(n, n): go(g) for n, g in graphs.items()}


class Compare:
    """Equivalence of two families of graphs, by name, refined where names alone do not decide."""

    def __init__(self, ref, cur, budget=30000, rounds=6, opaque=(), nonnull=(), letters=False):
        self.nonnull = frozenset(nonnull)
        self.opaque = set(opaque)      # recognisers whose behaviour could not be read
        self.ref, self.cur = ref, cur
        self.budget, self.rounds = budget, rounds
        self.states = 0
        self.obligations = 0
        self.discharged = 0
        self.notes = []
        self.alias()
        self.A, self.B = Side(self.cur), Side(self.ref)
        self.guards = None
        if letters:
            a, b = guards(self.A), guards(self.B)
            self.guards = {n: CS.union(a[n], b[n]) for n in a if n in b}
            self.guards = {n: s for n, s in self.guards.items() if s != CS.FULL}
        self.trivial = {n for n in self.A.g if n in self.B.g and trivial(self.A, n) and trivial(self.B, n)}
        self.known_effects = {x[1][1] for g in self.B.g.values() for x in g[0].values() if x[0] in ('eff', 'call') and x[1][0] == 'call'}

    def alias(self):
        ua = sorted(set(self.cur) - set(self.ref))
        ub = sorted(set(self.ref) - set(self.cur))
        if not ua or not ub or len(ua) * len(ub) > 400:
            return
        common = set(self.cur) & set(self.ref)
        m = {}
        progress = True
        while progress:
            progress = False
            for x in ua:
                for y in ub:
                    if x in m or y in m.values():
                        continue
                    trial = dict(m)
                    trial[x] = y
                    A = Side(rename({x: self.cur[x]}, trial))
                    B = Side({y: self.ref[y]})
                    try:
                        Eq(A, B, common | set(trial.values()), 5000).check(y)
                    except (Mismatch, Budget, KeyError):
                        continue
                    m = trial
                    progress = True
        if m:
            self.notes.append('renamed: %s' % m)
            self.cur = rename(self.cur, m)

    def prove(self, name, atomic, rounds=None, budget=None, seconds=60):
        """None when equivalent; otherwise a Mismatch (definite or out of budget)."""
        atomic = set(atomic) - self.trivial
        first = None
        narrow = 2
        for _ in range((rounds or self.rounds) + (narrow if not rounds else 0)):
            e = Eq(self.A, self.B, atomic | self.opaque, budget or self.budget, seconds=seconds, nonnull=self.nonnull & (atomic | self.opaque), guards=self.guards, known_effects=self.known_effects)
            try:
                e.check(name)
                self.states += e.visited
                return None
            except Mismatch as m:
                self.states += e.visited
                if first is None:
                    first = m
                blind = [c for c in calls_in(m.trail) if c in self.opaque]
                if blind:
                    return Mismatch('no proof: %s could not be read' % blind[0], m.trail)
                more = [c for c in calls_in(m.trail) if c in atomic and c in self.A.g and c in self.B.g and c != name]
                if not more:
                    return first
                # what only one side asked about comes first
                alone = {c[1] for c, w in zip((x[0] for x in m.trail), m.who) if c[0] == 'call' and w in ('a', 'b')} & set(more)
                if alone and len(alone) < len(more) and narrow:
                    more, narrow = sorted(alone), narrow - 1
                atomic -= set(more)
            except (Budget, KeyError, RecursionError) as b:
                self.states += e.visited
                return first or Mismatch('no proof: %s' % b, ())
        return first

    def run(self, roots, spread_budget=6000):
        """Which roots differ: {root: Mismatch}; which recognisers differ by themselves: {name: Mismatch}; lost roots."""
        common = set(self.A.g) & set(self.B.g)
        bad = {}
        for n in sorted(common):
            self.obligations += 1
            m = self.prove(n, common)
            if m is None:
                self.discharged += 1
            else:
                bad[n] = m
        cause = dict(bad)
        calls = {n: set(self.callees(n)) for n in common}
        # a difference spreads to a caller unless the caller, with what differs unfolded, behaves the same
        frontier = set(bad)
        until = time.monotonic() + 90
        while frontier:
            callers = {n for n in common - set(bad) if calls[n] & frontier}
            frontier = set()
            for n in sorted(callers):
                if time.monotonic() > until:
                    m = Mismatch('no proof: time', ())
                else:
                    m = self.prove(n, common - (set(cause) & calls[n]) - {x for x in calls[n] if x in bad and undecided(bad[x])}, 1, spread_budget, 8)
                if m is None and calls[n] & (set(bad) - set(cause)):
                    # what differs lies deeper
                    m = self.prove(n, common - set(bad), 1, spread_budget, 8)
                if m is not None:
                    bad[n] = m
                    frontier.add(n)
        hit = {r: bad[r] for r in roots if r in bad}
        lost = [r for r in roots if r not in common]
        return hit, cause, lost

    def callees(self, n):
        out = set()
        for side in (self.A, self.B):
            for kind, desc, edges, npar in side.g[n][0].values():
                if kind == 'call':
                    out.add(desc[1])
        # through recognisers only one side has
        todo = [x for x in out if not (x in self.A.g and x in self.B.g)]
        seen = set(todo)
        while todo:
            x = todo.pop()
            for side in (self.A, self.B):
                if x in side.g:
                    for kind, desc, edges, npar in side.g[x][0].values():
                        if kind == 'call' and desc[1] not in seen:
                            seen.add(desc[1])
                            out.add(desc[1])
                            if not (desc[1] in self.A.g and desc[1] in self.B.g):
                                todo.append(desc[1])
        return out
