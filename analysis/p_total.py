"""Decomposition, lexing and classification as a whole: no panics, an end to everything, no influence from outside (R)."""
import collections
import re

import p_class
import p_words
from base import *
from decmon import le
from interp import Unsupported, is_sym


# ------------------------------------------------------------------ the graphs
def graphs(S):
    """[(name, interpreter, graph, kind)] of everything between a text and its tokens; and what could not be read."""
    def f():
        out, open_ = [], []

        def add(name, get, kind):
            try:
                it, g = get()[:2]
                out.append((name, it, g, kind))
            except Unsupported as u:
                open_.append((name, '%s %s' % (u, getattr(u, 'where', ''))))
        add('word iterator', lambda: p_words.words(S), 'stream')
        add('segmentation of a chunk', lambda: p_words.seg(S), 'call')
        add('lexer', lambda: p_words.lexer(S), 'stream')
        add('classification', lambda: p_class.graph(S), 'call')
        for n in p_class.SIZES:
            add('normal form, room for %d' % n, lambda: p_class.norm_graph(S, n), 'call')
        it, gs = S.rules()
        for n, g in sorted(gs.items()):
            out.append((n, it, g, 'rule'))
        for n, why in sorted(it.unsupported.items()):
            open_.append((n, why))
        return out, open_
    return S.once('total', f)


ANCHOR = {'word iterator': 'decompose::decompose', 'lexer': 'lex::lex'}


def at(S, name):
    return S.where(ANCHOR.get(name, name))


# ------------------------------------------------------------------ no panics
def r01(S, R):
    gs, open_ = graphs(S)
    for n, why in open_:
        R.undecided(n, why)
    for name, it, g, kind in gs:
        bad = [x.desc for x in g.nodes.values() if x.kind == 'panic']
        R.obligations += len(g.nodes) - 1
        R.discharged += len(g.nodes) - 1
        if bad:
            R.fail('panic:' + name, '%s: may panic: %s' % (at(S, name), bad[0]))
        else:
            R.ok('%s: no path ends in a panic (%d nodes)' % (name, len(g.nodes)))
    seen = set()
    for name, it, g, kind in gs:
        if id(it) in seen:
            continue
        seen.add(id(it))
        R.obligations += len(it.obl)
        R.discharged += len(it.obl)
        for where_, k, info in unproved(it):
            R.discharged -= 1
            R.fail('arith:%s:%s' % (where_, k), '%s: %s not shown to be within bounds: %r' % (where_, k, info))
    levels(S, R)
    R.floor('functions and iterators', len(gs), 120, len(open_))


# ------------------------------------------------------------------ the trace level
def callee(F, t):
    f = t[1]
    ty = F.T[f[1]] if f[0] == 'k' else None
    return ty if ty and ty['k'] == 'fndef' else None


def calls(F, b):
    """[(block, callee type or None, terminator)] of a body."""
    return [(i, callee(F, bl[1]), bl[1]) for i, bl in enumerate(b['blocks']) if bl[1][0] == 'call']


def successors(t):
    k = t[0]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'assert':
        return [t[4]]
    if k == 'goto':
        return [t[1]]
    if k == 'drop':
        return [x for x in t[1:] if type(x) is int][:1]
    return []


def change(F, b):
    """By how much a body changes the cell it is given: an int, or None if that is not plain to see."""
    vals, writes, seen = {}, [], set()

    def op(o):
        if o[0] == 'k':
            return ('n', o[2][1]) if o[2] and o[2][0] == 'i' else None
        l, proj = o[1]
        v = vals.get(l)
        return v if all(p == '*' or p[0] == 'f' for p in proj) else None
    todo = [0]
    while todo:
        i = todo.pop(0)
        if i in seen:
            continue
        seen.add(i)
        stmts, t = b['blocks'][i][:2]
        for s in stmts:
            if s[0] != '=' or s[1][1]:
                continue
            r = s[2]
            v = None
            if r[0] == 'use':
                v = op(r[1])
            elif r[0] == 'bin' and r[1][:3] in ('Add', 'Sub'):
                x, y = op(r[2]), op(r[3])
                if x and y and x[0] == 'L' and y[0] == 'n':
                    v = ('L', x[1] + (y[1] if r[1][:3] == 'Add' else -y[1]))
            vals[s[1][0]] = v
        if t[0] == 'call':
            ty = callee(F, t)
            p = ty['p'] if ty else '?'
            n = p.rsplit('::', 1)[-1]
            args = [op(a) for a in t[2]]
            d = t[3][0]
            vals[d] = None
            if p.startswith('std::cell::Cell') or p.startswith('std::thread::LocalKey'):
                if n in ('get', 'take'):
                    vals[d] = ('L', 0) if n == 'get' else None
                    if n == 'take':
                        writes.append(None)
                elif n in ('set', 'replace'):
                    vals[d] = ('L', 0)
                    writes.append(args[1])
                else:
                    writes.append(None)
            elif n in ('checked_sub', 'checked_add', 'wrapping_add', 'wrapping_sub', 'saturating_sub', 'saturating_add') and len(args) == 2:
                x, y = args
                if x and y and x[0] == 'L' and y[0] == 'n':
                    vals[d] = ('L', x[1] + (y[1] if n.endswith('add') else -y[1]))
            elif n in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default'):
                vals[d] = args[0]
        todo += successors(t)
    if not writes:
        return 0
    if len(writes) == 1 and writes[0] and writes[0][0] == 'L':
        return writes[0][1]
    return None


def is_unit(F, t):
    return F.T[t]['k'] == 'tuple' and not F.T[t]['a']


def level_sites(F):
    """{body: {block: (what the access does to the level, reads it for more than that, callee)}}"""
    out = collections.defaultdict(dict)
    for b in F.B.values():
        if not b['local'] or '__rust_std_internal' in b['path']:
            continue
        for i, ty, t in calls(F, b):
            if ty is None or not ty['p'].startswith('std::thread::LocalKey'):
                continue
            n = ty['p'].rsplit('::', 1)[-1]
            cl = [F.T[a] for a in ty.get('a', ()) if F.T[a]['k'] == 'closure']
            read = not is_unit(F, b['locals'][t[3][0]])
            d = None
            if n == 'with' and len(cl) == 1 and cl[0].get('inst') is not None and str(cl[0]['inst']) in {str(k) for k in F.B}:
                d = change(F, F.B[cl[0]['inst']])
            elif n in ('get', 'with') and cl:
                d = None
            out[b['id']][i] = (d, read, ty['p'])
    return out


def levels(S, R, balance=False):
    """No access takes the level below where it was at the start of the function; `balance`: and it is put back."""
    F = S.F
    sites = level_sites(F)
    R.stats['functions that keep a trace level'] = len(sites)
    for bid, at_ in sorted(sites.items()):
        b = F.B[bid]
        if any(d is None for d, _, _ in at_.values()):
            R.undecided(b['path'], 'what an access does to the trace level is not plain to see')
            continue
        low, uneven, seen, todo = False, False, {}, [(0, 0)]
        while todo:
            i, k = todo.pop()
            if k in seen.setdefault(i, set()):
                continue
            seen[i].add(k)
            if len(seen[i]) > 8:
                uneven = True
                continue
            if i in at_:
                k += at_[i][0]
                low |= k < 0
            t = b['blocks'][i][1]
            if t[0] == 'ret':
                uneven |= k != 0
            todo += [(j, k) for j in successors(t)]
        where_ = '%s:%s (%s)' % (b['file'], b['line'], b['path'])
        if not balance:
            R.need(not low, 'level:' + b['path'], '%s: the trace level may be taken below zero, which panics' % where_)
        else:
            R.need(not uneven, 'level:' + b['path'], '%s: the trace level is not put back on every path' % where_)


# ------------------------------------------------------------------ an end to everything
def rel(it, st, e, y, x, up, strict_calls):
    """How x (a cursor of the edge's target) relates to y (one of its source): '<' if strictly further, '=' if not behind,
    None if unknown.  up: further means later in the text."""
    if y == x:
        return '='
    defs = e[3]
    if x in defs:
        d = defs[x]
        if d[0] in ('succ', 'pred') and len(d) > 1 and is_sym(d[1]):
            r = rel(it, st, e, y, d[1], up, strict_calls)
            if (d[0] == 'succ') == up:
                return '<' if r else None
            return '=' if r == '<' else None
        if d[0] in ('end', 'word'):
            cs = [z for z in d[1:] if is_sym(z)]
            if not cs:
                return None
            r = rel(it, st, e, y, cs[0] if up else cs[-1], up, strict_calls)
            if r and up and d[0] == 'end' and d[1] in strict_calls:
                return '<'
            return r
        return None
    if le(it, st, y, x) if up else le(it, st, x, y):
        one = ('lin', 1, ((y, 1),)) if up else ('lin', 1, ((x, 1),))
        strict = le(it, st, one, x) if up else le(it, st, one, y)
        return '<' if strict else '='
    return None


def arcs(it, g, node, e, params, strict):
    """Size-change graph of an edge: ({(i, j): '<' or '='} for later, the same for earlier)."""
    out = ({}, {})
    for j, x in enumerate(e[2]):
        if not is_sym(x) or x[1] != 'c':
            continue
        for i, y in params.get(node.id, ()):
            for k, up in enumerate((True, False)):
                r = rel(it, node.state, e, y, x, up, strict)
                if r:
                    out[k][(i, j)] = r
    return freeze_arcs(out)


def freeze_arcs(p):
    return tuple(frozenset(d.items()) for d in p)


def compose(p, q):
    out = []
    for a, b in zip(p, q):
        d = {}
        for (i, j), r in a:
            for (k, l), s in b:
                if j == k:
                    v = '<' if '<' in (r, s) else '='
                    if d.get((i, l)) != '<':
                        d[(i, l)] = v
        out.append(d)
    return freeze_arcs(out)


def parameters(g):
    ps = {g.entry[0]: [(i, ('$', p[1], i)) for i, p in enumerate(g.entry[1]) if is_sym(p) and p[1] == 'c']}
    for n in g.nodes.values():
        for e in n.edges:
            ps.setdefault(e[1], [(i, ('$', p[1], i)) for i, p in enumerate(e[2]) if is_sym(p) and p[1] == 'c'])
    return ps


def edge_arcs(it, g, strict, keep):
    params = parameters(g)
    out = collections.defaultdict(list)
    for n in g.nodes.values():
        for e in n.edges:
            if keep(n, e):
                out[n.id].append((e[1], arcs(it, g, n, e, params, strict)))
    return out, params


def endless(succ, nodes, limit=200000):
    """A node on a cycle along which no cursor need ever advance (size-change termination fails), or None."""
    # every cycle passes the target of a back edge of a depth-first search
    color, heads = {}, set()
    for root in nodes:
        if root in color:
            continue
        color[root] = 1
        stack = [(root, iter(succ[root]))]
        while stack:
            n, itr = stack[-1]
            for t, _ in itr:
                if color.get(t) == 1:
                    heads.add(t)
                elif t not in color:
                    color[t] = 1
                    stack.append((t, iter(succ[t])))
                    break
            else:
                color[n] = 2
                stack.pop()
    for h in heads:
        seen, todo = set(), []
        for t, a in succ[h]:
            todo.append((t, a))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > limit:
                raise Unsupported('too many ways round a loop')
            n, a = x
            if n == h:
                if compose(a, a) == a and not any(i == j and r == '<' for p in a for (i, j), r in p):
                    return h
            for t, b in succ[n]:
                todo.append((t, compose(a, b)))
    return None


def told_end(n):
    """The caller is told that there is no more, or asked which way to go: what follows is up to the caller."""
    return n.kind == 'eff' and n.desc[1] == 'emit' and (n.desc[2] == 'size_hint' or n.desc[3][2] == 0)


def nonempty(S):
    """Recognisers that cannot match the empty text."""
    def f():
        return set(p_words.solid(S)[0])
    return S.once('nonempty', f)


def r02(S, R):
    gs, open_ = graphs(S)
    for n, why in open_:
        R.undecided(n, why)
    strict = nonempty(S)
    again = {}
    for name, it, g, kind in gs:
        cut = (lambda n, e: not told_end(n) and not (n.kind == 'ask' and e[0] == 'some')) if kind == 'stream' else (lambda n, e: True)
        succ, params = edge_arcs(it, g, strict, cut)
        R.obligations += len(g.nodes) - 1
        R.discharged += len(g.nodes) - 1
        h = endless(succ, [g.entry[0]] + sorted(g.nodes))
        if h is not None:
            n = g.nodes[h]
            R.fail('loop:' + name, '%s: may go round for ever at %s %r' % (at(S, name), n.kind, n.desc))
        else:
            R.ok('%s: every loop advances' % name)
        if kind == 'rule':
            again[name] = same_place(it, g, strict, params)
    # the words of a chunk: asked for again, they would be handed out again
    cyc = cycle(again)
    if cyc:
        R.fail('recursion:' + cyc[0], '%s: comes back to itself at the same place: %s' % (at(S, cyc[0]), ' -> '.join(cyc)))
    else:
        R.ok('no recogniser comes back to itself at the same place (%d calls at the starting place)' % sum(map(len, again.values())))
    R.floor('functions and iterators', len(gs), 120, len(open_))


def same_place(it, g, strict, params):
    """Recognisers called on a text that need not be shorter than the one given."""
    succ, _ = edge_arcs(it, g, strict, lambda n, e: True)
    start = tuple(i for i, p in enumerate(g.entry[1]))
    ident = freeze_arcs(({(i, i): '=' for i in start}, {(i, i): '=' for i in start}))
    out = set()
    seen, todo = set(), [(g.entry[0], ident)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 100000:
            raise Unsupported('too many ways through ' + g.name if hasattr(g, 'name') else 'a recogniser')
        n, a = x
        node = g.nodes[n]
        if node.kind == 'call':
            s = node.desc[2][0]
            f, b = dict(a[0]), dict(a[1])
            ok = is_sym(s[1]) and f.get((0, s[1][2])) == '<' or is_sym(s[2]) and b.get((1, s[2][2])) == '<'
            if not ok:
                out.add(node.desc[1])
        for t, c in succ[n]:
            todo.append((t, compose(a, c)))
    return out


def cycle(edges):
    color = {}
    for root in sorted(edges):
        if root in color:
            continue
        path, stack = [root], [iter(sorted(edges[root]))]
        color[root] = 1
        while stack:
            for t in stack[-1]:
                if color.get(t) == 1:
                    return path[path.index(t):] + [t]
                if t not in color and t in edges:
                    color[t] = 1
                    path.append(t)
                    stack.append(iter(sorted(edges[t])))
                    break
            else:
                color[path.pop()] = 2
                stack.pop()
    return None


# ------------------------------------------------------------------ nothing from outside
AMBIENT = re.compile(r'^<?(std::(env|fs|net|process|time|thread|io|os|sync|random|collections::hash_map::(RandomState|DefaultHasher)|hash::(RandomState|DefaultHasher)|alloc::System)\b|'
                     r'(std|core)::arch\b|rand|getrandom|libc)')
ALLOWED = re.compile(r'^std::thread::(LocalKey|local_impl)|^std::sync::(Arc|Weak)\b|^<?std::sync::Arc')
FULLNESS = re.compile(r'allocated_bytes|allocation_limit|chunk')
CHANGING = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|Atomic\w+|Once|Lazy|LocalKey|Condvar|Sender|Receiver)\b')


def r03(S, R):
    F = S.FULL
    n = 0
    for b in F.B.values():
        if not b['local']:
            continue
        for i, ty, t in calls(F, b):
            if ty is None:
                continue
            n += 1
            p = ty['p']
            if AMBIENT.match(p) and not ALLOWED.match(p) and '__rust_std_internal' not in b['path']:
                R.fail('ambient:%s:%s' % (b['path'], p), '%s:%s (%s): calls %s, whose result does not depend on the text' % (b['file'], t[6] if len(t) > 6 and type(t[6]) is int else b['line'], b['path'], p))
            elif FULLNESS.search(p) and p.startswith(('bumpalo::', 'parse::arena::')) and not (FULLNESS.search(b['path']) and b['path'].startswith('parse::arena::')):
                R.fail('arena:%s:%s' % (b['path'], p), '%s:%s (%s): looks at how full the arena is (%s)' % (b['file'], b['line'], b['path'], p))
    R.obligations += n
    R.discharged += n
    R.stats['calls looked at'] = n
    own = 0
    for s in F.statics:
        if '::__RUST_STD_INTERNAL' in s['path'] or '__rust_std_internal' in s['path']:
            continue
        own += 1
        mutable = s['kind'].startswith('Static') and 'mutability: Mut' in s['kind']
        if mutable:
            R.fail('static:' + s['path'], '%s: a mutable static' % s['path'])
        elif CHANGING.search(s['ty']):
            R.need(bool(re.fullmatch(r'std::thread::LocalKey<std::cell::Cell<[iu](8|16|32|64|128|size)>>', s['ty'])), 'static:' + s['path'], '%s: state that outlives a call (%s)' % (s['path'], s['ty']))
        else:
            R.ok('static ' + s['path'])
    # what there is of state is only ever used for the log
    sites = level_sites(F)
    for bid, at_ in sorted(sites.items()):
        b = F.B[bid]
        for i, (d, read, p) in sorted(at_.items()):
            R.need(not read, 'read:' + b['path'], '%s:%s (%s): takes a value out of state that outlives the call (%s)' % (b['file'], b['line'], b['path'], p))
    logging(F, R)
    levels(S, R, balance=True)
    R.floor('calls', n, 5000)
    R.floor('statics', own, 1)


def logging(F, R):
    """What runs only when logging is on has no effect on what follows."""
    k = 0
    for b in F.B.values():
        if not b['local']:
            continue
        for i, ty, t in calls(F, b):
            if ty is None or not re.match(r'log::(max_level|__private_api|__log|logger|enabled)', ty['p']) or ty['p'].endswith('__private_api_log'):
                continue
            k += 1
            j, seen = t[4], set()
            while j is not None and j not in seen and b['blocks'][j][1][0] != 'switch':
                seen.add(j)
                s = successors(b['blocks'][j][1])
                j = s[0] if len(s) == 1 else None
            if j is None or b['blocks'][j][1][0] != 'switch':
                R.fail('log:%s' % b['path'], '%s:%s (%s): what the log level is used for is not logging' % (b['file'], b['line'], b['path']))
                continue
            outs = sorted(set(successors(b['blocks'][j][1])))
            reach = [reachable(b, o) for o in outs]
            bad = None
            for x, r in enumerate(reach):
                region = r - set().union(*[q for y, q in enumerate(reach) if y != x])
                bad = bad or leaks(F, b, region)
            R.need(bad is None, 'log:%s' % b['path'], '%s:%s (%s): whether logging is on makes a difference to the result: %s' % (b['file'], b['line'], b['path'], bad))
    R.stats['log statements'] = k


def reachable(b, i):
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += successors(b['blocks'][x][1])
    return seen


def leaks(F, b, region):
    """Something the blocks of a region leave behind."""
    written = set()
    for i in region:
        stmts, t = b['blocks'][i][:2]
        if t[0] == 'ret':
            return 'returns'
        for s in stmts:
            if s[0] == '=':
                written.add(s[1][0])
                if '*' in s[1][1]:
                    return 'writes through a reference'
        if t[0] == 'call':
            written.add(t[3][0])
            ty = callee(F, t)
            if ty is not None and ty['p'].rsplit('::', 1)[-1] in ('set', 'replace', 'push', 'insert', 'next', 'take'):
                return 'calls ' + ty['p']
    written = {l for l in written if not is_unit(F, b['locals'][l])}
    for i, bl in enumerate(b['blocks']):
        if i in region:
            continue
        for s in bl[0]:
            if s[0] == '=' and used(s[2]) & written:
                return 'sets what is used later'
        if used([x for x in bl[1] if type(x) is list]) & written and bl[1][0] in ('call', 'switch', 'assert'):
            return 'sets what is used later'
    return None


def used(x):
    out = set()
    if type(x) is list:
        if len(x) == 2 and x[0] in ('c', 'm') and type(x[1]) is list and x[1] and type(x[1][0]) is int:
            out.add(x[1][0])
        elif len(x) >= 2 and x[0] == 'ref' and type(x[1]) is list and x[1] and type(x[1][0]) is int:
            out.add(x[1][0])
        else:
            for y in x:
                out |= used(y)
    return out


# ------------------------------------------------------------------ no unsafe code
def r04(S, R):
    F = S.FULL
    for i in F.items:
        if 'unsafe' in i:
            R.fail('unsafe:' + i['path'], '%s:%s (%s): unsafe code' % (i['file'], i['unsafe'], i['path']))
        else:
            R.ok(i['path'])
    for i in F.impls:
        if i.get('unsafe') and i['trait'] != 'std::clone::TrivialClone':      # what derive(Clone) adds
            R.fail('unsafe:impl %s for %s' % (i['trait'], i['self']), 'unsafe impl of %s for %s' % (i['trait'], i['self']))
    R.floor('functions', len(F.items), 1000)


Prop('R01', r01, 'every path of every behaviour graph between a text and its tokens (loops and all recognisers included): none ends in a panic, and every arithmetic step, index and slice is proved in range; dataflow over the trace level')
Prop('R02', r02, 'size-change termination of every loop of the behaviour graphs (a cursor advances or retreats each time round); the relation "a recogniser calls another on a text not shorter" has no cycle')
Prop('R03', r03, 'effect analysis over the calls of the whole crate (no ambient input), its statics (no state that is read back), its log statements (nothing leaves them), and the trace level (dataflow)')
Prop('R04', r04, 'query over the typed program: no unsafe block or function')
