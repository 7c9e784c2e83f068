"""Classification of words: dictionary, spelling, order of the word forms, naming of the classes (C)."""
import json
import re

import bisim
import charset as CS
import classx
import harness
import monitor
from base import *
from interp import Decision, Interp, Unsupported, is_sym
from models import MODELS

KEY = re.compile(r"(?:[bcdfgjklmnprstvxz]?[aeiouy]+(?:'[aeiouy]+)*|[0-9])\Z")


# ------------------------------------------------------------------ the dictionary
def graph(S):
    def build(F):
        it, b = classx.build(F)
        return it, b
    return S.client('classify', build)


def key_of(node):
    """Constant a text is compared with, if that is what the node asks."""
    if node.kind == 'test' and node.desc[1][0] == 'streq':
        return node.desc[1][3]
    return None


class Walk:
    """Every key at once through the decision graph: {(key, spelling): leaf}."""

    def __init__(self, g, items, rules):
        self.g, self.rules = g, rules
        self.leaf = {}
        self.open = {}
        self.keys = set()       # constants the whole normal form is compared with
        self.equal = {}         # item -> the constants it was found equal to
        todo = [(g.entry[0], tuple((('$', 'c', i), p) for i, p in zip(range(len(g.entry[1])), (('r', 0), ('r', 'e')))), frozenset(items))]
        # states with the same node and the same (symbolic) positions are merged
        while todo:
            nid, env, xs = todo.pop()
            for nxt in self.step(nid, dict(env), xs):
                todo.append(nxt)

    def pos(self, item, c):
        w, i = c
        s = item[0] if w == 'n' else item[1]
        if i == 'e':
            return w, len(s)
        if i < 0:
            return w, len(s) + i
        return w, i

    def follow(self, e, env, xs):
        label, t, m, defs = e
        vals = []
        for x in m:
            if x in env:
                vals.append(env[x])
                continue
            d = defs.get(x)
            if d is None:
                vals.append(None)
            elif d[0] == 'succ':
                c = env.get(d[1])
                vals.append(None if c is None else (c[0], 'e' if c[1] == -1 else c[1] + 1 if c[1] != 'e' else None))
            elif d[0] == 'pred':
                c = env.get(d[1])
                vals.append(None if c is None else (c[0], -1 if c[1] == 'e' else c[1] - 1 if c[1] else None))
            elif d[0] == 'norm':
                vals.append(('n', 0 if d[3] == 0 else 'e'))
            else:
                vals.append(None)
        return t, tuple((('$', 'c', i), v) for i, v in enumerate(vals)), xs

    def step(self, nid, env, xs):
        n = self.g.nodes[nid]
        if n.kind == 'ret':
            for x in xs:
                self.leaf[x] = n.desc
            return
        if n.kind == 'call' and n.desc[1] in self.rules:
            for x in xs:
                self.leaf[x] = ('general',)
            return
        if n.kind == 'loop':
            yield self.follow(n.edges[0], env, xs)
            return
        if n.kind == 'ask' and n.desc[1] == 'norm':
            for e in n.edges:
                if e[0] == 'some':
                    yield self.follow(e, env, xs)
            return
        if n.kind != 'test':
            self.stop(n, xs)
            return
        t = n.desc[1]
        yes, no = set(), set()
        try:
            for x in xs:
                (yes if self.holds(t, env, x) else no).add(x)
        except Unsupported:
            self.stop(n, xs)
            return
        for e in n.edges:
            part = yes if e[0] == 'T' else no
            if part:
                yield self.follow(e, env, frozenset(part))

    def stop(self, n, xs):
        for x in xs:
            self.open[x] = monitor.brief(n.desc)

    def holds(self, t, env, item):
        def at(c):
            v = env.get(c)
            if v is None or v[1] is None:
                raise Unsupported('position')
            w, i = self.pos(item, v)
            return w, i
        if t[0] == 'streq':
            (w, a), (w2, b) = at(t[1]), at(t[2])
            if w != w2:
                raise Unsupported('text across words')
            if w == 'n' and env[t[1]] == ('n', 0) and env[t[2]] == ('n', 'e'):
                self.keys.add(t[3])
            r = (item[0] if w == 'n' else item[1])[a:b] == t[3]
            if r:
                self.equal.setdefault(item, set()).add(t[3])
            return r
        if t[0] == 'eqc':
            a, b = at(t[1]), at(t[2])
            if a[0] != b[0]:
                raise Unsupported('positions in different words')
            return a[1] == b[1]
        if t[0] == 'chin':
            w, i = at(t[1])
            s = item[0] if w == 'n' else item[1]
            if not 0 <= i < len(s):
                raise Unsupported('position')
            return CS.has(t[2], ord(s[i]))
        raise Unsupported(str(t[0]))


def spellings(k):
    out = {k, k.replace("'", 'h'), k + ','}
    if len(k) > 1:
        out.add(k[0] + ',' + k[1:])
    return out


def reads_raw(g):
    """Is a text compared with a constant before, or without, being normalised?"""
    return any(n.kind == 'test' and n.desc[1][0] == 'streq' and n.desc[1][1][2] < 2 for n in g.nodes.values())


def leaf_class(d):
    """(class, flag) of a returned value, or None."""
    if d and d[0] == 'a' and len(d[3]) == 2:
        c, f = d[3]
        if c[0] == 'a' and isinstance(c[2], str) and f[0] == 'b':
            return c[2], bool(f[1])
    return None


def table(S):
    """({(key, spelling): (class, flag) | 'general'}, undecided, keys of the current source)"""
    def f():
        it, g, _ = graph(S)
        keys = {key_of(n) for n in g.nodes.values()} - {None}
        ref = S.reference('classes')['keys'] if S.has_reference('classes') else {}
        allk = keys | set(ref) | {'y', 'yy', 'yyyyy'}
        items = set()
        for k in allk:
            for r in spellings(k) if reads_raw(g) else (k,):
                items.add((k, r))
        w = Walk(g, items, set(it.atomic))
        out = {}
        for x, d in w.leaf.items():
            out[x] = 'general' if d == ('general',) else leaf_class(d) or 'unknown'
        return out, w.open, {k for k in w.keys if any(x[0] == k for x in items)}, w.equal
    return S.once('class_table', f)


def c01(S, R):
    t, opened, keys, equal = table(S)
    ref = S.reference('classes')['keys']
    R.floor('cmavo with a class', len({k for k, _ in t if k in ref}), len(ref))
    for (k, r), got in sorted(t.items(), key=str):
        if k not in ref:
            continue
        want = ref[k][0]
        if got == 'unknown' or isinstance(got, tuple) and got[0] == 'unknown':
            R.undecided(k, 'class not constant')
        elif got == 'general':
            R.fail('lost:' + k, '%s: "%s"%s is no longer in the dictionary (class %s)' % (where(S), k, '' if r == k else ' written "%s"' % r, want))
        elif got[0] != want:
            R.fail('class:' + k, '%s: "%s"%s is classified as %s instead of %s' % (where(S), k, '' if r == k else ' written "%s"' % r, got[0], want))
        else:
            R.ok('%s: %s' % (k, want))
    for x, why in opened.items():
        R.undecided(x[0], why)
    for k in ('y', 'yy', 'yyyyy'):
        got = t.get((k, k))
        R.need(got is None or got[0] == 'Y', 'y:' + k, 'the hesitation word "%s" is classified as %s' % (k, got))


def where(S):
    b = classx.find(S.F)
    return '%s:%s' % (b['file'], b['line'])


def c02(S, R):
    it, g, _ = graph(S)
    t, opened, keys, equal = table(S)
    R.floor('dictionary keys', len(keys), 1000)
    lim = limit(S)
    for k in sorted(keys):
        R.need(bool(KEY.match(k)), 'form:' + k, '%s: the key "%s" is not written as a cmavo (lower case, no commas, h or spaces), so no word can match it' % (where(S), k))
        if lim is not None:
            R.need(len(k.encode()) <= lim, 'length:' + k, '%s: the key "%s" is longer (%d) than the spelling buffer (%s)' % (where(S), k, len(k), lim))
    # the entry itself must decide the class of its word
    ref = S.reference('classes')['keys']
    again = it.repeated
    for (k, r), got in sorted(t.items(), key=str):
        if k not in keys and k not in again and (k not in ref or got == 'general' or set(k) == {'y'}):
            continue
        hidden = k not in equal.get((k, r), ()) or (k in again and k in ref and got[0] != ref[k][0])
        R.need(not hidden, 'hidden:' + k, '%s: the entry "%s" is hidden: an earlier one decides its word (%s)' % (where(S), k, got))


def limit(S):
    """Length of the buffer the spelling is normalised into."""
    it = graph(S)[0]
    ls = getattr(it, 'norm_room', set())
    return min(ls) if ls else None


# ------------------------------------------------------------------ spelling
SIZES = (1, 2, 3, 4)
APOS, COMMA, H = 39, CS.of(','), CS.of('h')


def norm_graph(S, size):
    def build():
        ns = classx.normaliser(S.F)
        if len(ns) != 1:
            raise Unsupported('normalisation of a word: %d candidates' % len(ns))
        it = Interp(S.F, MODELS, {}, clamp_after=10**9)

        def buf(it, st):
            c = st.cell(('arr', tuple(('op', ('buf0', k), (), None) for k in range(size))))
            return ('ref', c, ())
        return it, harness.explore(S.F, it, ns[0], [None, buf])
    return S.once('norm:%d' % size, build)


class Spell:
    """What the normal form must be, along a path: the characters read so far that are not commas."""

    def __init__(self, size):
        self.size = size

    def run(self, g):
        return monitor.product(g, (g.entry[1][0], ()), self.step)

    def step(self, mon, node, e):
        at, items = mon
        if e is None:
            self.final(at, items, node)
            return mon
        t = node.desc[1] if node.kind == 'test' else None
        if t and t[0] == 'chin':
            new = []
            for it in items:
                if it != 'more' and it[0] == t[1]:
                    s = CS.inter(it[1], t[2]) if e[0] == 'T' else CS.minus(it[1], t[2])
                    if not s:
                        raise monitor.Skip()
                    if CS.inter(s, COMMA) == s:
                        continue
                    it = (it[0], s)
                new.append(it)
            items = tuple(new)
        for k, d in e[3].items():
            if d[0] == 'succ' and d[1] == at:
                # the character at `at` is now read
                items = items + ((at, CS.FULL),)
                at = k
        if sum(1 for i in items if i != 'more') > self.size + 3:
            if any(CS.inter(i[1], COMMA) for i in items if i != 'more'):
                raise monitor.Bad('spelling', 'a comma is taken for a character of the word')
            items = items[:self.size] + ('more',)
        return at, items

    def final(self, at, items, node):
        if node.kind == 'panic':
            raise monitor.Bad('panic', 'panics')
        if node.kind != 'ret':
            raise monitor.Skip()
        d = node.desc
        some = d[0] == 'a' and d[2] in (1, 'Some')
        decided = [i for i in items if i != 'more']
        unsure = [i for i in decided if CS.inter(i[1], COMMA)]
        n = len(decided)
        if not some:
            if n - len(unsure) <= self.size and 'more' not in items and n:
                raise monitor.Bad('spelling', 'a word of at most %d characters gets no normal form although there is room for %d' % (n, self.size))
            return
        v = d[3][0]
        if v[0] != 'bstr':
            raise Unsupported('normal form %r' % (v[:1],))
        out = v[1]
        if unsure:
            raise monitor.Bad('spelling', 'a comma is taken for a character of the word')
        if n == 0:
            if any(x[0] != 'op' for x in out):
                raise monitor.Bad('spelling', 'a word without characters gets a normal form')
            return
        if 'more' in items or n > self.size or n != len(out):
            raise monitor.Bad('spelling', 'the normal form has %d characters for a word of %s' % (len(out), 'more than %d' % self.size if 'more' in items else n))
        for (c, s), x in zip(decided, out):
            for lo, hi in s:
                for ch in range(lo, min(hi, 0x2FF) + 1):
                    want = APOS if ch == 104 else ch
                    if x[0] in ('i', 'ch'):
                        got = x[1]
                    elif x[0] in ('byt', 'chr') and x[1] == c:
                        got = CS.apply(x[2], ch)
                    else:
                        raise monitor.Bad('spelling', 'the normal form has characters out of order or from elsewhere')
                    if got != want:
                        raise monitor.Bad('spelling', 'the character %r becomes %r instead of %r' % (chr(ch), chr(got), chr(want)))


def c03(S, R):
    for n in SIZES:
        it, g = norm_graph(S, n)
        states, bad = Spell(n).run(g)
        monitored(R, 'normal form, room for %d' % n, states, bad, ('spelling', 'panic'))
        for w, kind, info in unproved(it):
            R.fail('bounds:' + kind, '%s: %s not shown to stay in bounds' % (w, kind))
    it, g, _ = graph(S)
    ref = S.reference('classes')['keys']
    lim = limit(S)
    longest = max(ref, key=len)
    R.need(lim is None or lim >= len(longest), 'room', '%s: the spelling buffer has room for %s characters, the longest cmavo has %d' % (where(S), lim, len(longest)))
    R.need(any(n.kind == 'ask' and n.desc[1] == 'norm' for n in g.nodes.values()), 'used', '%s: words are looked up without normalising their spelling' % where(S))


# ------------------------------------------------------------------ everything not in the dictionary
def residual(data):
    """The decision graph for a word that equals none of the keys."""
    nodes = {}
    for k, (kind, desc, edges, npar) in data['nodes'].items():
        if kind == 'test' and desc[1][0] == 'streq':
            f = [e for e in edges if e[0] == 'F']
            nodes[k] = ['loop', None, [['', f[0][1], f[0][2], f[0][3]]] if f else [], npar]
        else:
            nodes[k] = [kind, desc, edges, npar]
    seen, todo = set(), [str(data['entry'][0])]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += [str(e[1]) for e in nodes[k][2]]
    return {'entry': data['entry'], 'nodes': {k: nodes[k] for k in seen}}


def general(S):
    def f():
        cur, ref = dict(S.rules_data()), dict(S.reference('rules'))
        uns = set(S.rules()[0].unsupported)
        for p in uns:
            cur.pop(p, None)
            ref.pop(p, None)
        cur['$class'] = residual(graph(S)[2]['classify'])
        ref['$class'] = S.reference('classes')['residual']
        c = bisim.Compare(ref, cur, opaque=uns)
        common = (set(c.A.g) & set(c.B.g)) - {'$class'}
        return c, c.prove('$class', common)
    return S.once('class_general', f)


def c04(S, R):
    c, m = general(S)
    R.stats['joint states'] = c.states
    g = residual(graph(S)[2]['classify'])
    calls = [n for n in g['nodes'].values() if n[0] == 'call']
    rets = [n for n in g['nodes'].values() if n[0] == 'ret']
    R.stats['recogniser calls'] = len(calls)
    R.floor('leaves', len(rets), 4)
    if m is None:
        R.ok('classification outside the dictionary', n=max(1, c.states))
    elif undecided(m):
        R.undecided('classification outside the dictionary', m.why)
    else:
        R.fail('general', '%s: %s' % (where(S), show_mismatch(m)))


# ------------------------------------------------------------------ experimental
def selmaho_ty(F):
    for i, t in enumerate(F.T):
        if t['k'] == 'adt' and t['s'] == 'lex::selmaho::Selmaho' and t['enum']:
            return i, [v['n'] for v in t['v']]
    raise Unsupported('the class type')


def by_class(S, path_end, out_ty):
    """Table of a method `fn(self) -> out_ty` of the class type."""
    def f():
        ty, names = selmaho_ty(S.F)
        bs = [b for b in S.F.B.values() if b['local'] and b['path'].endswith('::' + path_end) and b['argc'] == 1
              and S.F.T[b['locals'][1]]['s'] == 'lex::selmaho::Selmaho' and S.F.T[b['locals'][0]]['s'] == out_ty]
        if len(bs) != 1:
            raise Unsupported('%s: %d candidates' % (path_end, len(bs)))
        tab = {}
        for i, n in enumerate(names):
            it = Interp(S.F, MODELS, {})
            v = ('a', ty, i, ())
            g = harness.explore(S.F, it, bs[0], [lambda it, st: v])
            rets = [x.desc for x in g.nodes.values() if x.kind == 'ret']
            tab[n] = rets[0] if len(rets) == 1 and all(x.kind in ('ret', 'loop') for x in g.nodes.values()) else ('?',)
        return tab, '%s:%s' % (bs[0]['file'], bs[0]['line'])
    return S.once('by_class:' + path_end, f)


def c05(S, R):
    t, opened, keys, equal = table(S)
    R.floor('classified keys', len(t), 1000)
    ref = S.reference('classes')
    exp = ref['experimental']
    tab, at = by_class(S, 'is_fundamentally_experimental', 'bool')
    for n, want in sorted(exp.items()):
        got = tab.get(n)
        if got is None:
            R.fail('class:' + n, 'the class %s is gone' % n)
        elif got[0] != 'b':
            R.undecided(n, 'experimental status not constant')
        else:
            R.need(bool(got[1]) == want, 'class:' + n, '%s: the class %s is %sexperimental' % (at, n, '' if got[1] else 'not '))
    for (k, r), got in sorted(t.items(), key=str):
        if k not in ref['keys'] or got in ('general', 'unknown') or got[0] == 'unknown':
            continue
        R.need(got[1] == ref['keys'][k][1], 'word:' + k, '%s: "%s"%s is %sflagged experimental' % (where(S), k, '' if r == k else ' written "%s"' % r, '' if got[1] else 'not '))
    # the classes of words outside the dictionary
    g = graph(S)[1]
    for n in g.nodes.values():
        if n.kind != 'ret':
            continue
        lc = leaf_class(n.desc)
        if lc is None:
            R.undecided('a returned class', 'not constant')
            continue
        c, f = lc
        e = tab.get(c)
        if e and e[0] == 'b' and e[1]:
            R.need(f, 'leaf:' + c, '%s: a word of the experimental class %s is returned without the flag' % (where(S), c))
        elif c in ('Gismu', 'Fuhivla', 'Lujvo', 'Cmevla', 'AnyText'):
            R.need(not f, 'leaf:' + c, '%s: a %s is flagged experimental' % (where(S), c))


# ------------------------------------------------------------------ names
def conventional(n):
    return ''.join(c if c == 'h' else c.upper() for c in n)


def c06(S, R):
    tab, at = by_class(S, 'as_repr', '&str')
    special = S.reference('classes')['names']
    seen = {}
    for n, v in sorted(tab.items()):
        if v[0] != 'cs':
            R.undecided(n, 'name not constant')
            continue
        s = v[1]
        want = special.get(n, conventional(n))
        R.need(s == want, 'name:' + n, '%s: the class %s is shown as "%s" instead of "%s"' % (at, n, s, want))
        R.need(seen.setdefault(s, n) == n, 'same:' + s, '%s: %s and %s are both shown as "%s"' % (at, seen[s], n, s))
    R.floor('classes', len(tab), 200)
    # a class is named after one of its words
    t, opened, keys, equal = table(S)
    except_ = set(S.reference('classes')['unnamed'])
    for n in tab:
        if n in special or n in except_:
            continue
        k = n.lower().replace('h', "'")
        got = t.get((k, k))
        if got == 'unknown':
            continue
        R.need(got is not None and got != 'general' and got[0] == n, 'member:' + n, '%s: "%s", after which the class %s is named, is classified as %s' % (where(S), k, n, got))
    # shown by Display as by as_repr
    disp = [b for b in S.F.B.values() if b['local'] and b['path'].endswith('::fmt') and 'std::fmt::Display for ' in b['path'] and b['argc'] == 2
            and S.F.T[b['locals'][1]]['s'] == '&lex::selmaho::Selmaho']
    R.floor('Display for classes', len(disp), 1)
    if disp:
        c06_display(S, R, disp[0])


def c06_display(S, R, body):
    def f():
        def repr_(ctx):
            v = ctx.deref(ctx.args[0])
            return ctx.ret(('op', ('name', ctx.it.snapshot(ctx.st, v)), (), None))

        def write(ctx):
            v = ctx.args[1]
            w = ctx.it.snapshot(ctx.st, v)
            t = ctx.retty()

            def done(s):
                c = ctx.again(s)
                c.ret(('op', ('written', w), (), t))
            raise Decision(('eff', 'write', w), [('', done)])
        paths = [b['path'] for b in S.F.B.values() if b['local'] and b['path'].endswith('::as_repr')]
        models = dict(MODELS)
        for n in ('std::fmt::Formatter::<\'a>::write_str', "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad"):
            models[n] = write
        it = Interp(S.F, models, {p: repr_ for p in paths})
        return it, harness.explore(S.F, it, body)
    r = S.once('display', f)
    it, g = r
    effs = [n for n in g.nodes.values() if n.kind == 'eff']
    if it.unmodelled or not effs:
        R.undecided('Display', str(it.unmodelled))
        return
    ok = len(effs) == 1
    if ok:
        v = effs[0].desc[2]
        while v[0] == '&':
            v = v[1]
        ok = v[0] == 'op' and v[1][0] == 'name' and not [p for p in v[2] if p != '*']
    R.need(ok, 'display', '%s:%s: a class is not shown by its name' % (body['file'], body['line']))


Prop('C01', c01, 'class of every dictionary key, evaluated over the whole decision graph, equals the frozen list')
Prop('C02', c02, 'form, length and reachability of every key in the decision graph')
Prop('C03', c03, 'product of the normalisation graph (buffers of 1 to 4 bytes) with a monitor that computes the expected normal form', level='model_checking',
     assumptions=['the code treats buffers of every length alike; a multi-byte character counts as one place'])
Prop('C04', c04, 'bisimulation of the decision graph for words outside the dictionary with the frozen one')
Prop('C05', c05, 'flag of every leaf of the decision graph and of every class against the frozen lists')
Prop('C06', c06, 'name of every class, evaluated from the source, against the naming convention')


def freeze(S):
    it, g, data = graph(S)
    S.memo.pop('class_table', None)
    t, opened, keys, equal = table(S)
    assert not opened, opened
    ks = {}
    for (k, r), v in t.items():
        assert v not in ('general', 'unknown'), (k, v)
        ks[k] = list(v)
    exp, _ = by_class(S, 'is_fundamentally_experimental', 'bool')
    names, _ = by_class(S, 'as_repr', '&str')
    special = {n: v[1] for n, v in names.items() if v[1] != conventional(n)}
    un = [n for n in names if n not in special and (t.get((n.lower().replace('h', "'"),) * 2) or ('',))[0] != n]
    S.freeze('classes', {'keys': ks, 'residual': residual(data['classify']), 'experimental': {n: bool(v[1]) for n, v in exp.items()},
                         'names': special, 'unnamed': un})
    return un, special
