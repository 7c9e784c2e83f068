"""Traversal of the syntax tree: what each implementation of the node traits does with the parts of its node.

Every implementation is executed once per variant of its type over opaque parts; asking a part (for its
locations, whether it is experimental, to be visited) is an opaque step.  The walk over the resulting graph
decides whether the answer given is the one the order of the parts implies."""
from parsex import MODELS_P, over
from harness import *

M2 = dict(MODELS_P)
METHODS = {'experimental': 'exp', 'start_location': 'start', 'end_location': 'end', 'invoke_with_self': 'visit', 'for_each_child': 'visit', 'name': 'name'}
TR = ('parse::tree_node::TreeNodeChild>::', 'parse::tree_node::TreeNode>::')


def impls(F):
    """path -> (method, body, self type) for one instance of every implementation of a traversal method."""
    out = {}
    for b in F.B.values():
        p = b['path']
        if not b['local'] or b['argc'] < 1 or '::{' in p:
            continue
        if ' as parse::tree_node::TreeNode' in p or '<impl parse::tree_node::TreeNode' in p:
            m = p.rsplit('::', 1)[1]
            if m not in METHODS or p in out:
                continue
            s = F.T[b['locals'][1]]
            if s['k'] != 'ref':
                continue
            out[p] = (m, b, s['t'])
    return out


def part(key, ty):
    return ('fld', key, ty)


LEAVES = ('lex::token::Token', 'span::Span', 'span::Location')


def field(F, i, ty):
    t = F.T[ty]
    if t.get('p') in LEAVES or t['k'] in ('bool', 'int', 'uint'):
        return ('op', ('leaf', i), (), ty)
    if t['k'] == 'ref':
        return ('cref', field(F, i, t['t']))
    return part(('f', i), ty)


def self_values(F, ty):
    """[(label, value, keys in order)] for every shape of a value of type `ty`.  Keys of leaves are ('leaf', i)."""
    T = F.T
    t = T[ty]

    def keyed(fs):
        out = []
        for i, ft in enumerate(fs):
            x = T[ft]
            while x['k'] == 'ref':
                x = T[x['t']]
            out.append(('leaf', i, x.get('p', x['s'])) if x.get('p') in LEAVES[1:] or x['k'] in ('bool', 'int', 'uint') else ('f', i))
        return out
    if t.get('p') in LEAVES:
        return [('token', ('op', ('leaf', 0), (), ty), [('leaf', 0, 'bool'), ('leaf', 0, 'span::Span')] if t['p'] == LEAVES[0] else [])]
    if t['k'] == 'adt' and t.get('p') == 'std::boxed::Box':
        return [('Box', ('box', ('h', 'boxed')), [('f', 0)])]
    if t['k'] == 'adt':
        out = []
        for k, v in enumerate(t['v']):
            fs = [ft for n, ft in v['f']]
            out.append((v['n'], ('a', ty, k, tuple(field(F, i, ft) for i, ft in enumerate(fs))), keyed(fs)))
        return out
    if t['k'] == 'tuple':
        return [('tuple', ('a', ty, 0, tuple(field(F, i, ft) for i, ft in enumerate(t['a']))), keyed(t['a']))]
    if t['k'] == 'ref':
        return [('ref', field(F, 0, ty), keyed([t['t']]))]
    return [('whole', part(('f', 0), ty), [('f', 0)])]


def strip(it, st, v):
    while v[0] in ('ref', 'cref'):
        v = it.load(st, ('cell', v[1], v[2])) if v[0] == 'ref' else v[1]
    return v


def ask(kind):
    def f(ctx):
        r = strip(ctx.it, ctx.st, ctx.args[0])
        key = r[1] if r[0] == 'fld' else ('f', r[1][1])
        if kind == 'visit':
            raise Decision(('eff', 'visit', key), [('', lambda s: ctx.again(s).ret(UNIT))])
        if kind == 'name':
            raise Decision(('eff', 'name', key), [('', lambda s: ctx.again(s).ret(('nm', key)))])
        if kind == 'exp':
            raise Decision(('ask', 'exp', key), [('T', lambda s: ctx.again(s).ret(('b', 1))), ('F', lambda s: ctx.again(s).ret(('b', 0)))])

        def some(s):
            c = ctx.again(s)
            c.ret(c.option(('loc', kind, key)))

        def none(s):
            c = ctx.again(s)
            c.ret(c.option(None))
        raise Decision(('ask', kind, key), [('some', some), ('none', none)])
    return f


class TreeInterp(Interp):
    """Calls of traversal methods on opaque parts are steps; on anything else they are executed."""

    def call_fn(self, ctx, fty):
        for p in (fty.get('rp', ''), fty['p']):
            m = p.rsplit('::', 1)[-1]
            if m in METHODS and 'tree_node::TreeNode' in p and ctx.args:
                r = strip(self, ctx.st, ctx.args[0])
                if r[0] == 'fld' or r[0] == 'op' and r[1][0] == 'leaf' and not r[2] and self.T[r[3]].get('p') == 'lex::token::Token' and r != strip(self, ctx.st, self.self_value):
                    # the implementation for the node itself, seen from an implementation for a reference to it
                    return ask(METHODS[m])(ctx)
                if fty.get('inst') is None:
                    return self.dyn(ctx, r, m)
                break
        return Interp.call_fn(self, ctx, fty)

    def dyn(self, ctx, r, m):
        raise Unsupported('dynamic call of %s on %r' % (m, r[:2]))

    def call_value(self, ctx, fv, args):
        v = fv
        if v[0] in ('ref', 'cref'):
            v = strip(self, ctx.st, v)
        if v[0] == 'visitor':
            r = strip(self, ctx.st, args[0])
            key = ('self',) if self.whole(ctx, r, args[0]) else r[1] if r[0] == 'fld' else ('f', r[1][1]) if r[0] == 'op' and r[1][0] == 'leaf' and not r[2] else None
            if key is None:
                raise Unsupported('a visit to %r' % (r[:2],))
            raise Decision(('eff', 'visit', key), [('', lambda s: ctx.again(s).ret(UNIT))])
        return Interp.call_value(self, ctx, fv, args)

    def whole(self, ctx, r, arg):
        return r == strip(self, ctx.st, self.self_value) and r[0] != 'fld'


def over2(*names):
    def deco(f):
        for n in names:
            base = M2.get(n)

            def g(ctx, f=f, base=base):
                r = f(ctx)
                if r is NotImplemented and base is not None:
                    return base(ctx)
                return r
            M2[n] = g
        return f
    return deco


@over2('core::slice::<impl [T]>::iter', "<&'a [T] as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter")
def iter_parts(ctx):
    r = strip(ctx.it, ctx.st, ctx.args[0])
    if r[0] == 'fld':
        t = ctx.it.T[r[2]]
        while t['k'] == 'ref' or t.get('p') == 'std::boxed::Box':
            t = ctx.it.T[t['t'] if t['k'] == 'ref' else t['a'][0]]
        if t['k'] != 'slice':
            return NotImplemented
        return ctx.ret(('obj', 'parts', r[1], t['t'], None))
    return NotImplemented


def next_part(direction):
    def f(ctx):
        r = ctx.args[0]
        while True:
            v = ctx.it.load(ctx.st, ('cell', r[1], r[2])) if r[0] == 'ref' else None
            if v is None or v[0] != 'ref':
                break
            r = v
        if v is None or v[0] != 'obj' or v[1] != 'parts':
            return NotImplemented
        if v[4] not in (None, direction):
            raise Unsupported('a list walked from both ends')
        if v[4] == 'ended':
            return ctx.ret(ctx.option(None))
        key, et = v[2], v[3]

        def some(s):
            c = ctx.again(s)
            e = s.sym('c', ('elt', key))
            c.it.store(s, ('cell', r[1], r[2]), ('obj', 'parts', key, et, direction))
            t = c.it.T[et]
            if t['k'] == 'tuple':
                x = ('a', et, 0, tuple(part(('e', e, j), ft) for j, ft in enumerate(t['a'])))
            else:
                x = part(('e', e, None), et)
            c.ret(c.option(('cref', x)))

        def none(s):
            c = ctx.again(s)
            c.it.store(s, ('cell', r[1], r[2]), ('obj', 'parts', key, et, 'ended'))
            c.ret(c.option(None))
        t = ctx.it.T[et]
        raise Decision(('next', key, direction, len(t['a']) if t['k'] == 'tuple' else None), [('some', some), ('none', none)])
    return f


over2("<std::slice::Iter<'a, T> as std::iter::Iterator>::next")(next_part('fwd'))
over2("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back")(next_part('rev'))


# ---------------------------------------------------------------- adapters the standard library specialises
def synth(it, name, argc, blocks, nloc):
    """A small body in the compiler's form."""
    unit = it.F.ty_by_str('()')
    bid = it.F.fresh()
    b = {'id': bid, 'path': '$' + name, 'kr': '$', 'ik': '', 'name': '$' + name, 'a': [], 'local': False, 'file': '', 'line': 0,
         'argc': argc, 'locals': [unit] * nloc, 'names': [], 'blocks': blocks}
    it.B[bid] = b
    return bid


def fn_type(it, path):
    it.T.append({'s': path, 'k': 'fndef', 'p': path, 'kr': '$client'})
    return len(it.T) - 1


def call_block(fty, args, dest, tgt):
    return [[], ['call', ['k', fty, ['fn']], args, [dest, []], tgt, fty, 0, None, ''], 0]


def search(it, kind):
    """any / all / find_map over a list of parts: argument 1 the iterator, 2 the closure."""
    c = lambda n: ['c', [n, []]]
    f = lambda p: fn_type(it, p)
    unit = it.F.ty_by_str('()')
    yes = f('$yes:' + kind)
    blocks = [
        call_block(f('$more'), [c(1)], 3, 1),
        [[], ['switch', c(3), [[0, 4]], 2, unit], 0],
        call_block(f('$apply'), [['c', [6, []]], c(4)], 5, 3),
        [[], ['switch', c(7), [[0, 0]], 5, unit], 0],
        call_block(f('$none:' + kind), [], 0, 6),
        call_block(f('$found:' + kind), [c(5)], 0, 6),
        [[], ['ret'], 0],
        call_block(yes, [c(5)], 7, 3),
    ]
    blocks[2] = call_block(f('$apply'), [['c', [2, []]], c(4)], 5, 7)
    return synth(it, 'search ' + kind, 2, blocks, 8)


def more(ctx):
    r = ctx.args[0]
    fid = ctx.fr.fid
    while True:
        v = ctx.it.load(ctx.st, ('cell', r[1], r[2])) if r[0] == 'ref' else None
        if v is None or v[0] != 'ref':
            break
        r = v
    if v is None or v[0] != 'obj' or v[1] != 'parts':
        raise Unsupported('search in %r' % (v and v[:2],))
    if v[4] not in (None, 'fwd'):
        raise Unsupported('a list walked from both ends')
    key, et = v[2], v[3]

    def some(s):
        c = ctx.again(s)
        e = s.sym('c', ('elt', key))
        c.it.store(s, ('cell', r[1], r[2]), ('obj', 'parts', key, et, 'fwd'))
        s.mem[('L', fid, 4)] = ('cref', element(c.it, e, et))
        c.ret(('i', 1))

    def none(s):
        c = ctx.again(s)
        c.it.store(s, ('cell', r[1], r[2]), ('obj', 'parts', key, et, 'ended'))
        c.ret(('i', 0))
    t = ctx.it.T[et]
    raise Decision(('next', key, 'fwd', len(t['a']) if t['k'] == 'tuple' else None), [('some', some), ('none', none)])


def element(it, e, et):
    t = it.T[et]
    if t['k'] == 'tuple':
        return ('a', et, 0, tuple(part(('e', e, j), ft) for j, ft in enumerate(t['a'])))
    return part(('e', e, None), et)


def apply(ctx):
    f, x = ctx.args
    if f[0] == 'a':
        f = ('ref', ('L', ctx.fr.fid, 2), ())
    return ctx.it.call_value(ctx, f, [x])


def yes(kind):
    def f(ctx):
        v = ctx.args[0]
        if kind == 'find_map':
            if v[0] != 'a':
                raise Unsupported('result of a search')
            return ctx.ret(('i', int(v[2] == 1)))
        if kind == 'for_each':
            return ctx.ret(('i', 0))
        t = ctx.it.truth(ctx.st, v)
        return ctx.ret(('i', int(t == (kind == 'any'))))
    return f


SEARCH = ('any', 'all', 'find_map', 'for_each')


def install(it):
    it.atomic['$more'] = more
    it.atomic['$apply'] = apply
    for kind in SEARCH:
        bid = search(it, kind)
        it.atomic['$yes:' + kind] = yes(kind)
        nothing = {'any': FALSE, 'all': TRUE, 'find_map': None, 'for_each': UNIT}[kind]
        it.atomic['$none:' + kind] = (lambda ctx: ctx.ret(('a', None, 0, ()))) if kind == 'find_map' else (lambda ctx, n=nothing: ctx.ret(n))
        it.atomic['$found:' + kind] = (lambda ctx: ctx.ret(ctx.args[0])) if kind == 'find_map' else (lambda ctx, k=kind: ctx.ret(('b', int(k == 'any'))))

        def m(ctx, bid=bid, kind=kind):
            v = ctx.deref(ctx.args[0])
            if v[0] != 'obj' or v[1] != 'parts':
                return NotImplemented
            args = list(ctx.args)
            if args[0][0] == 'obj':     # taken by value
                c = ctx.st.cell()
                ctx.st.mem[c] = args[0]
                args[0] = ('ref', c, ())
            return ctx.it.inline(ctx, bid, args)
        for p in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::" + kind,):
            over2(p)(m)
            it.models = M2


# ---------------------------------------------------------------- deciding one graph
class Wrong(Exception):
    pass


def want_leaf(method, k, keys):
    return None


def path_names(it, v):
    """The names of the fields an opaque value was reached by."""
    out = []
    T = it.T
    ty = it.leaf_type.get(v[1][1])
    for e in v[2]:
        if e[0] != 'f':
            continue
        t = T[ty] if ty is not None else None
        out.append(t['v'][0]['f'][e[1]][0] if t is not None and t['k'] == 'adt' else '?')
        ty = t['v'][0]['f'][e[1]][1] if t is not None and t['k'] == 'adt' else None
    return out


def decide(it, method, keys, g):
    """Walk every path of the graph; raises Wrong when the answer is not the one the order of the parts implies."""
    want = METHODS[method]
    start = (g.entry[0], frozenset(), None, None, frozenset(), ())
    todo, seen = [start], set()
    n = 0
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        n += 1
        if n > 20000:
            raise Unsupported('too many paths')
        nid, asked, cur, best, ended, order = s
        # asked: {(key, outcome)}; cur: (list key, direction, element number, sub-parts asked); best: key of the answer so far
        node = g.nodes[nid]
        k = node.kind
        if k in ('loop', 'dead'):
            for l, t, m, d in node.edges:
                todo.append((t, asked, remap(cur, m, d), remap(best, m, d), ended, remap(order, m, d)))
            continue
        if k == 'panic':
            raise Wrong('panics')
        if k == 'next':
            _, lk, direction, nsub = node.desc
            if cur is not None and cur[0] == lk:
                complete(want, cur, 'the next element is taken')
            if lk in [x for x, o in asked] or lk in ended:
                raise Wrong('a list is gone through twice')
            for l, t, m, d in node.edges:
                if l == 'some':
                    e = [x for x in d if d[x][0] == 'elt'][0]
                    # the new element, as the target node names it
                    c2 = (lk, direction, e, frozenset(), nsub)
                    b2 = best
                    todo.append((t, asked, remap(c2, m, d), remap(b2, m, d), ended, remap(order, m, d)))
                else:
                    todo.append((t, asked, None, remap(best, m, d), ended | {lk}, remap(order, m, d)))
            continue
        if k in ('ask', 'eff'):
            _, kind, key = node.desc
            if kind != want:
                raise Wrong('asks for another thing: %s' % (kind,))
            for l, t, m, d in node.edges:
                a2, c2, b2, o2 = asked, cur, best, order
                if key[0] == 'e':
                    if cur is None or cur[2] != key[1]:
                        raise Wrong('an element is asked out of turn')
                    if any(j == key[2] for j, o in cur[3]):
                        raise Wrong('an element is asked twice') if want == 'visit' else Unsupported('asked twice')
                    if want == 'visit':
                        if cur[1] != 'fwd' or any(j > key[2] for j, o in cur[3] if j is not None):
                            raise Wrong('parts of a list are visited in the wrong order')
                        late = [x for x in keys if after(x, cur[0]) and (x in ended or any(x == y for y, o in asked))]
                        if late:
                            raise Wrong('part %s is visited before part %s' % (show(late[0]), show(cur[0])))
                    c2 = cur[:3] + (cur[3] | {(key[2], l)},) + cur[4:]
                    if l == 'some':
                        b2 = better(want, best, key, cur)
                    if l == 'T':
                        a2 = asked | {(('any',), 'T')}
                elif key[0] == 'self':
                    a2 = asked | {(key, l)}
                else:
                    if (key, l) in asked and want == 'visit' or key in ended:
                        raise Wrong('part %s is visited twice' % show(key))
                    if want == 'visit':
                        late = [x for x in keys if after(x, key) and (x in ended or any(x == y for y, o in asked) or cur is not None and cur[0] == x)]
                        if late:
                            raise Wrong('part %s is visited before part %s' % (show(late[0]), show(key)))
                    if any(x == key and o != l for x, o in asked):
                        continue
                    a2 = asked | {(key, l)}
                    if l == 'some':
                        b2 = better(want, best, key, cur)
                todo.append((t, a2, remap(c2, m, d), remap(b2, m, d), ended, remap(o2, m, d)))
            continue
        if k == 'test':
            for l, t, m, d in node.edges:
                todo.append((t, asked | {(node.desc[1], l)}, remap(cur, m, d), remap(best, m, d), ended, order))
            continue
        if k == 'ret':
            it.leaf_type = g.leaf_type
            it.quoted = 'rules::Zoi' in g.name
            final(it, want, keys, node.desc, asked, cur, best, ended)
            continue
        raise Unsupported('step %s' % k)
    return n


def after(x, y):
    return x[1] > y[1]


def show(key):
    return str(key[1] + 1) if key[0] in ('f', 'leaf') else str(key)


def remap(v, m, d):
    """Names of a node's symbols as the target node has them."""
    if type(v) is not tuple:
        if type(v) is frozenset:
            return frozenset(remap(x, m, d) for x in v)
        return v
    if len(v) == 3 and v[0] == '$':
        for j, p in enumerate(m):
            if p == v:
                return ('$', p[1], j)
        return ('gone',)
    return tuple([remap(x, m, d) for x in v])


def complete(want, cur, when):
    """Every part of the current element has been dealt with."""
    lk, direction, e, subs, nsub = cur
    need = [None] if nsub is None else list(range(nsub))
    got = {j for j, o in subs}
    miss = [j for j in need if j not in got]
    if not miss:
        return
    hit = {j for j, o in subs if o in ('some', 'T')}
    if want == 'exp' and hit:
        return
    if want == 'start' and hit and all(any(h < j for h in hit) for j in miss):
        return
    if want == 'end' and hit and all(any(h > j for h in hit) for j in miss):
        return
    raise Wrong('a part of a list element is left out when %s' % when)


def better(want, best, key, cur):
    """The better answer of two: the first (or last) in the order of the parts."""
    if best is None:
        return key if key[0] != 'e' else ('e',) + key[1:] + (cur[0],)
    def rank(k):
        return k[1] if k[0] in ('f', 'leaf') else k[3][1]
    new = key if key[0] != 'e' else ('e',) + key[1:] + (cur[0],)
    a, b = rank(best), rank(new)
    if a != b:
        first = best if a < b else new
    elif best[0] == 'e' and new[0] == 'e':
        if best[1] == new[1]:
            first = best if best[2] < new[2] else new
        else:
            first = best if cur[1] == 'fwd' else new
    else:
        raise Unsupported('parts')
    if want == 'start':
        return first
    return new if first is best else best


def settled(key, asked, ended, outcome):
    return key in ended or any(x == key and o in outcome for x, o in asked)


def is_leaf(it, keys):
    """A node that is one token."""
    return keys == [('f', 0)] and 0 in it.leaf_type and it.T[it.leaf_type[0]].get('p') == LEAVES[0]


def final(it, want, keys, v, asked, cur, best, ended):
    if any(x == ('self',) for x, o in asked):
        if len([x for x, o in asked]) != 1:
            raise Wrong('the node is handed over together with its parts')
        return
    nodes = [k for k in keys if k[0] == 'f']
    leaf = [k for k in keys if k[0] == 'leaf']
    if want == 'visit':
        if cur is not None:
            complete(want, cur, 'the walk ends')
            raise Wrong('the walk ends in the middle of a list')
        if not asked and is_leaf(it, keys):
            return
        for k in nodes:
            if not settled(k, asked, ended, ('',)):
                raise Wrong('part %s is not visited' % show(k))
        return
    if want == 'exp':
        if v == ('b', 1):
            if not any(o == 'T' for x, o in asked):
                raise Wrong('a node without experimental parts counts as experimental')
            return
        if v == ('b', 0):
            if any(o == 'T' for x, o in asked):
                raise Wrong('a node with an experimental part does not count as experimental')
            if is_leaf(it, keys) and not asked and it.quoted:
                return      # quoted text is never experimental
            for k in nodes:
                if not settled(k, asked, ended, ('F',)):
                    raise Wrong('part %s is not asked whether it is experimental' % show(k))
            flags = [k for k in leaf if k[2] == 'bool']
            if flags:
                raise Wrong('the flag of the token is not passed on')
            return
        if v[0] == 'op' and v[1][0] == 'leaf':
            if path_names(it, v)[-1:] not in ([], ['experimental']):
                raise Wrong('the answer is another part of the token')
            return
        raise Unsupported('answer %r' % (v,))
    # start / end
    if v[0] == 'a' and v[2] == 1:
        x = v[3][0]
        if x[0] == 'loc':
            if x[1] != want:
                raise Wrong('the answer is the other end')
            key = x[2]
            if best is None or key[:3] != best[:3]:
                raise Wrong('the answer is that of the wrong part')
            # nothing that was not asked could give a better answer
            for k in nodes:
                rk = best[1] if best[0] == 'f' else best[3][1]
                if (k[1] < rk if want == 'start' else k[1] > rk) and not settled(k, asked, ended, ('none',)):
                    if not any(y == k for y, o in asked):
                        raise Wrong('part %s is not asked' % show(k))
            if best[0] == 'e' and cur is not None:
                complete(want, cur, 'the answer is given')
                if cur[1] != ('fwd' if want == 'start' else 'rev'):
                    raise Wrong('the answer is given before the list has been gone through')
            return
        if x[0] == 'op' and x[1][0] == 'leaf':
            if path_names(it, x)[-1:] != [want]:
                raise Wrong('the answer is not where the token %ss' % want)
            if best is not None and (best[1] if best[0] == 'f' else best[3][1]) != x[1][1]:
                raise Wrong('the answer is that of the wrong part')
            for k in nodes:
                if (k[1] < x[1][1] if want == 'start' else k[1] > x[1][1]) and not settled(k, asked, ended, ('none',)):
                    raise Wrong('part %s is not asked' % show(k))
            return
        raise Unsupported('answer %r' % (x,))
    if v[0] == 'a' and v[2] == 0:
        if best is not None:
            raise Wrong('a part has a place but the node has none')
        if cur is not None:
            complete(want, cur, 'the answer is given')
            raise Wrong('the answer is given in the middle of a list')
        for k in nodes:
            if not settled(k, asked, ended, ('none',)):
                raise Wrong('part %s is not asked' % show(k))
        if leaf:
            raise Wrong('a token has no place')
        return
    raise Unsupported('answer %r' % (v,))


def leaf_types(v):
    out = {}

    def go(x):
        if type(x) is tuple and x:
            if x[0] == 'op' and type(x[1]) is tuple and x[1][0] == 'leaf':
                out[x[1][1]] = x[3]
            for y in x:
                go(y)
    go(v)
    return out


def explore_all(F, only=None):
    """{path: [(shape label, keys, graph)]}, {path: why not}"""
    it = TreeInterp(F, M2, {})
    install(it)
    out, uns = {}, {}
    for p, (m, b, ty) in sorted(impls(F).items()):
        if only and not any(o in p for o in only):
            continue
        res = []
        try:
            for lab, v, keys in self_values(F, ty):
                st = St()
                st.ncell = 1
                st.frames.append(Frame(0, b['id'], 0, 0, None, None))
                it.self_value = v
                if v[0] == 'box':
                    st.mem[v[1]] = part(('f', 0), F.T[ty]['a'][0])
                st.mem[('L', 0, 1)] = ('cref', v)
                if b['argc'] > 1:
                    st.mem[('L', 0, 2)] = ('cref', ('visitor',))
                g = it.explore(p, st)
                g.leaf_type = leaf_types(v)
                res.append((lab, keys, g))
            out[p] = res
        except Unsupported as u:
            uns[p] = '%s %s' % (u, getattr(u, 'where', ''))
    it.unsupported = uns
    return it, out


if __name__ == '__main__':
    import sys, time
    from session import Session
    from collections import Counter
    F = Session().FULL
    t = time.time()
    it, gs = explore_all(F, sys.argv[1:] or None)
    if sys.argv[1:]:
        for p, r in gs.items():
            for lab, keys, g in r:
                print(p, lab, keys)
                for n in g.nodes.values():
                    print('  ', n.id, n.kind, n.desc, [(l, t, m) for l, t, m, d in n.edges])
    print(len(gs), len(it.unsupported), time.time() - t)
    for k, c in Counter(v[:200] for v in it.unsupported.values()).most_common(15):
        print(c, k, [n for n, v in it.unsupported.items() if v[:200] == k][:2])
    print(it.unmodelled)
    c = Counter()
    for p, r in gs.items():
        if p.endswith('::name'): continue
        for lab, keys, g in r:
            try:
                decide(it, p.rsplit('::', 1)[1], keys, g)
                c['ok'] += 1
            except Wrong as w:
                c['W ' + str(w)] += 1
                if c['W ' + str(w)] < 4: print('WRONG', p, lab, w)
            except Unsupported as w:
                c['U ' + str(w)] += 1
                if c['U ' + str(w)] < 4: print('?', p, lab, w)
    print(c, time.time() - t)
