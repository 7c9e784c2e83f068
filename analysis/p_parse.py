"""The parser (P): the grammar, the tree, the errors."""
import json
import re

from base import *
import parsex

GROUPS = {
    'P05': r'selmaho::.*',
    'P06': r'(Lohu|Lu|Zo|Zoi)Sumti|Zoi(Delimiter|Text)|Zei(Clause|BuInner|Tail)',
    'P10': r'Text|Paragraph\w*|Sentences\d|SentenceSeparator|ConnectedSentenceSeparator|CloseSentenceSeparator|Fragment',
    'P11': r'Sentence|SentenceTail\w*|GekSentence|Subsentence|TailArgs|Prenex',
    'P12': r'Args|Arg\d?|PeheConnective|Termset',
    'P13': r'Selbri\w*|TanruUnit\d?|BeforeTanruUnit|BoundArguments',
    'P14': r'Tag|TagValue|TagWord|Time\w*|Space\w*|IntervalProperty',
    'P15': r'Sumti\w*|VuhoRelative|\w*RelativeClauses?|ModifiedSumti|Gadri\w*|LaSumti',
    'P16': r'Quantifier|Number\w*|LerfuString|MiscNumbers|LerfuWord|Lerfu|BuInner',
    'P17': r'mekso::.*',
    'P18': r'connectives::.*',
    'P19': r'Frees?|Vocative\w*|SeiTail|Subscript\w*|Indicators?',
}


def group(n):
    for g, pat in GROUPS.items():
        if re.fullmatch(pat, n):
            return g
    return 'P10'


def grammar(S):
    """(interpreter, plain graphs, facts about whole rules)"""
    def f():
        F = S.FULL
        names = set(parsex.rules(F))
        ref = S.reference('grammar') if S.has_reference('grammar') else None
        nonnull = set(ref['nonnull']) & names if ref else set()
        for _ in range(6):
            it, gs = parsex.extract(F, nonnull=nonnull)
            p = json.loads(json.dumps(bisim.to_graphs(gs)))
            a = parsex.attributes(p)
            wrong = nonnull & (a['nullable'] | set(it.unsupported))
            if not wrong:
                break
            nonnull -= wrong
        else:
            raise Unsupported('rules that may match nothing')
        if ref is None and nonnull != set(p) - a['nullable']:
            nonnull = set(p) - a['nullable']
            it, gs = parsex.extract(F, nonnull=nonnull)
            p = json.loads(json.dumps(bisim.to_graphs(gs)))
            a = parsex.attributes(p)
        # a rule that could not be read may do anything
        a['nonnull'] = nonnull
        return it, p, a
    return S.once('grammar', f)


def grammar_cmp(S):
    def f():
        it, p, a = grammar(S)
        ref = S.reference('grammar')
        cur = parsex.recogniser_form(p, a)
        uns = set(it.unsupported)
        c = bisim.Compare({k: v for k, v in ref['graphs'].items() if k not in uns}, cur, opaque=uns, nonnull=set(ref['nonnull']) | set(a['nonnull']))
        return c, c.run([r for r in ('Text',) if r not in uns])
    return S.once('grammar_cmp', f)


def rule_where(S, n):
    return S.where(parsex.rules(S.FULL)[n][1]['path']) if n in parsex.rules(S.FULL) else n


def reaching(c, hit):
    out, todo = set(), list(hit)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        if n in c.A.g and n in c.B.g:
            todo += c.callees(n)
    return out


def check_group(pid):
    def f(S, R):
        c, (hit, cause, lost) = grammar_cmp(S)
        it, p, a = grammar(S)
        R.stats['joint states'] = c.states
        R.stats['rules compared'] = c.obligations
        ref = S.reference('grammar')['graphs']
        mine = [n for n in ref if group(n) == pid]
        R.floor('rules of the group', len([n for n in mine if n in c.cur]), max(1, len(mine) // 2), len([n for n in mine if n in it.unsupported]))
        uns = it.unsupported
        reach = reaching(c, hit)
        for n in sorted(mine):
            m = cause.get(n)
            if n in uns:
                R.undecided(n, uns[n])
            elif m is None:
                R.ok(n)
            elif bisim.undecided(m):
                R.undecided(n, m.why)
            elif n in reach:
                R.fail('rule:' + n, '%s: accepts something else; %s' % (rule_where(S, n), show_mismatch(m)))
            else:
                R.ok(n + ' (changed, without effect on what is parsed)')
        for n in lost:
            if group(n) == pid and n not in uns:
                R.fail('lost:' + n, 'rule %s is gone' % n)
    return f


RULE_G = 'per parsing rule: bisimulation of the behaviour graph extracted from the current source (combinators and generic rules executed, other rules opaque) with the frozen grammar graph'
for g in GROUPS:
    Prop(g, check_group(g), RULE_G)


# ------------------------------------------------------------------------------- whole tokens
def check_whole(S, R):
    """A successful parse has used every token."""
    F = S.FULL
    b = [b for b in F.B.values() if b['local'] and b['path'].endswith('Cst::<\'arena>::parse')]
    R.floor('parse entry points', len(b), 1)
    names = parsex.rules(F)
    for body in b:
        it = parsex.Interp(F, parsex.MODELS_P, parsex.atoms(F, names, True))
        it.values = True
        it.gaps = []
        it.unsupported = {}
        it.atomic['$tiles'] = whole_view
        it.token_field = lambda path: '?'
        try:
            g = parsex.explore_rule(it, 'entry', body, False)
        except Unsupported as u:
            R.undecided(S.where(body['path']), '%s %s' % (u, getattr(u, 'where', '')))
            continue
        R.stats['states'] = len(g.nodes)
        roots = {n.desc[1] for n in g.nodes.values() if n.kind == 'parse'}
        R.need(roots == {'Text'}, 'root', '%s: starts from %s instead of the rule for a text' % (S.where(body['path']), sorted(roots)))
        for n in g.nodes.values():
            if n.kind == 'panic':
                R.fail('panic', '%s: may panic: %s' % (S.where(body['path']), n.desc))
            if n.kind != 'ret':
                continue
            if n.desc[1] == 'ok':
                R.need(n.desc[2] is None, 'whole', '%s: %s' % (S.where(body['path']), n.desc[2]))
            else:
                R.ok('error path')
        R.need(not rejects_whole(g), 'rejects', '%s: fails although the text rule matched up to the last token' % S.where(body['path']))
        steps = [n for n in g.nodes.values() if n.kind == 'parse']
        R.need(len(steps) >= 1 and all(n.desc[2] == ('$', 'c', 0) for n in steps), 'start', '%s: the text rule is tried from somewhere else than the first token' % S.where(body['path']))


def rejects_whole(g):
    """Is there a failing path on which the text rule matched and its end may be the end of the tokens?"""
    # (node, parameter that is where the text ended, parameter that is the end of the tokens)
    # before the rule has been tried nothing is known to be wrong with the text: a failure there is a rejection too
    todo, seen = [(g.entry[0], None, None)], set()
    for x, n in g.nodes.items():
        if n.kind == 'parse':
            for l, t, m, d in n.edges:
                if l == 'ok':
                    ends = [i for i, s in enumerate(m) if s in d and d[s][0] == 'end']
                    lasts = [i for i, s in enumerate(m) if s == n.desc[3]]
                    todo.append((t, ends[0] if ends else None, lasts[0] if lasts else None))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t, e, last = x
        n = g.nodes[t]
        if n.kind == 'ret' and n.desc[1] == 'no':
            return True
        if n.kind == 'parse':
            continue  # its outcomes: failing is for the rule to decide, matching is followed above
        for l, t2, m, d in n.edges:
            if n.kind == 'test' and n.desc[1][0] == 'eqc' and l == 'F' and {n.desc[1][1][2], n.desc[1][2][2]} == {e, last}:
                continue
            todo.append((t2, *[next((i for i, s in enumerate(m) if q is not None and s == ('$', 'c', q)), None) for q in (e, last)]))
    return False


def whole_view(ctx):
    it, st = ctx.it, ctx.st
    v = ctx.deref(ctx.args[0])
    s = ctx.deref(ctx.args[1])

    def find(x, depth=0):
        x = x if x is None or x[0] not in ('ref', 'cref') else parsex_strip(ctx, x)
        if x is None or depth > 6:
            return None
        if x[0] == 'pv':
            return x
        if x[0] == 'a':
            for y in x[3]:
                r = find(y, depth + 1)
                if r is not None:
                    return r
        return None
    pv = find(v)
    if v[2] == 0:
        bad = None
        if pv is None:
            bad = 'succeeds without a parsed text'
        elif pv[2] != s[1]:
            bad = 'the text does not begin with the first token'
        elif pv[3] != s[2]:
            bad = 'succeeds although tokens may be left over'
        return ctx.ret(('tup', 'ok', bad))
    return ctx.ret(('tup', 'no', None))


def parsex_strip(ctx, x):
    while x is not None and x[0] in ('ref', 'cref'):
        x = ctx.it.load(ctx.st, ('cell', x[1], x[2])) if x[0] == 'ref' else x[1]
    return x


Prop('P01', check_whole, 'symbolic execution of the entry point over an opaque text rule: success requires that what was parsed spans the first to the last token')


# ------------------------------------------------------------------------------- losslessness
def values(S):
    def f():
        it0, p, a = grammar(S)
        it, gs = parsex.extract(S.FULL, values=True, nonnull=a['nonnull'])
        return it, gs
    return S.once('grammar_values', f)


def check_tiles(S, R):
    it, gs = values(S)
    names = parsex.rules(S.FULL)
    R.floor('rules', len([n for n in gs if n not in parsex.PLAIN]), 230, len(it.unsupported))
    for n, why in sorted(it.unsupported.items()):
        R.undecided(n, why)
    for n, g in sorted(gs.items()):
        if n == 'span::Span':
            continue        # not a node of the tree
        bad = [x.desc[3] for x in g.nodes.values() if x.kind == 'ret' and x.desc[1] == 'ok' and x.desc[3]]
        oks = [x for x in g.nodes.values() if x.kind == 'ret' and x.desc[1] == 'ok']
        if bad:
            R.fail('tile:' + n, '%s: %s' % (rule_where(S, n), bad[0]))
        else:
            R.ok('%s: %d ways to succeed' % (n, len(oks)))
            R.obligations += max(0, len(oks) - 1)
            R.discharged += max(0, len(oks) - 1)
    for p, line, why in it.gaps:
        R.fail('list:' + p, '%s line %s: %s' % (p, line, why))


Prop('P02', check_tiles, 'symbolic execution of every parsing rule keeping, for each value, the stretch of tokens it was made from: the fields of the returned node, in order, tile the consumed tokens; every list element follows the one before')


# ------------------------------------------------------------------------------- traversal
def tree(S):
    import treex
    return S.once('tree', lambda: treex.explore_all(S.FULL))


def check_tree(methods, floor):
    def f(S, R):
        import treex
        it, gs = tree(S)
        n = 0
        for p, why in sorted(it.unsupported.items()):
            if p.rsplit('::', 1)[1] in methods:
                R.undecided(p, why)
        for p, res in sorted(gs.items()):
            m = p.rsplit('::', 1)[1]
            if m not in methods:
                continue
            n += 1
            for lab, keys, g in res:
                try:
                    k = treex.decide(it, m, keys, g)
                    R.ok('%s %s' % (p, lab))
                except treex.Wrong as w:
                    R.fail('node:%s:%s' % (p, lab), '%s, %s: %s' % (S.where(p), lab, w))
                except Unsupported as u:
                    R.undecided('%s %s' % (p, lab), str(u))
        R.floor('implementations', n, floor, len(it.unsupported))
    return f


Prop('P03', check_tree(('invoke_with_self', 'for_each_child'), 370), 'symbolic execution of every implementation of the visiting methods over opaque parts, per variant: each part is visited exactly once and in order, lists of any length included')
Prop('P04', check_tree(('start_location', 'end_location', 'experimental'), 1120), 'symbolic execution of every implementation of the location and mark methods over opaque parts, per variant: the answer is that of the first (last) part that has one, or the disjunction')


def name_ends(g, cls, classes):
    """What the method may return, and whether it may panic, for a token of class `cls`."""
    seen, todo, rets, panics = set(), [g.entry[0]], [], False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        n = g.nodes[x]
        if n.kind == 'ret':
            rets.append(n.desc[1] if n.desc[0] == 'ret' else n.desc)
        panics |= n.kind == 'panic'
        for e in n.edges:
            ls = set(e[0]) if type(e[0]) is tuple else set()
            if n.kind == 'variant' and ls and ls <= classes and cls not in ls:
                continue
            todo.append(e[1])
    return rets, panics


def one_name(R, S, p, at, what, want, rets, panics):
    bad = sorted({str(x[1]) for x in rets if x[0] == 'cs' and x[1] != want})
    if panics:
        R.fail('name:' + at, '%s, %s: asking for the name may panic' % (S.where(p), what))
    elif bad:
        R.fail('name:' + at, '%s, %s: may be named %s, not %r' % (S.where(p), what, ' or '.join(map(repr, bad)), want))
    elif not rets or any(x[0] != 'cs' for x in rets):
        R.undecided(at, 'a name that is not a constant')
    else:
        R.ok(at)


def check_names(S, R):
    """Each node names itself by its type (and alternative); a word by its class; wrappers by what they hold."""
    import treex
    from p_class import by_class
    F = S.FULL
    it, gs = tree(S)
    try:
        table, _ = by_class(S, 'as_repr', '&str')
    except Unsupported as u:
        R.undecided('names of classes', str(u))
        return
    if any(v[0] != 'cs' for v in table.values()):
        R.undecided('names of classes', 'not constants')
        return
    table = {c: v[1] for c, v in table.items()}
    own = treex.impls(F)
    for p, why in sorted(it.unsupported.items()):
        if p.endswith('::name'):
            R.undecided(p, why)
    n = 0
    for p, res in sorted(gs.items()):
        if not p.endswith('::name'):
            continue
        n += 1
        ty = F.T[own[p][2]]
        for lab, keys, g in res:
            at = '%s %s' % (p, lab)
            if any(x.kind not in ('ret', 'eff', 'variant', 'leaf', 'test', 'loop', 'part') and x.kind != 'panic' and not x.edges for x in g.nodes.values()):
                R.undecided(at, 'an end that is not a name')
                continue
            if ty.get('p') == 'lex::token::Token':
                for c, want in sorted(table.items()):
                    rets, panics = name_ends(g, c, set(table))
                    one_name(R, S, p, '%s %s' % (at, c), 'a token of class %s' % c, want, rets, panics)
                continue
            rets, panics = name_ends(g, None, set(table))
            if ty['k'] == 'ref' or ty.get('p') == 'std::boxed::Box':
                if rets and not panics and all(x == ('nm', ('f', 0)) for x in rets):
                    R.ok(at)
                else:
                    R.fail('name:' + at, '%s: the name is not that of the node within' % S.where(p))
                continue
            ident = ty['p'].rsplit('::', 1)[1].split('<')[0]
            word = ident[:-5] if ident.endswith('Inner') else ident
            leaf = all(k[0] == 'leaf' for k in keys) and not ty.get('enum')
            want = table[word] if leaf and word in table else '%s::%s' % (ident, lab) if ty.get('enum') else ident
            one_name(R, S, p, at, lab, want, rets, panics)
    R.floor('implementations', n, 300, len(it.unsupported))


Prop('P22', check_names, 'symbolic execution of every implementation of the naming method over opaque parts, per variant: the name is that of the type and variant, of the class for a word, of the node within for a wrapper')


# ------------------------------------------------------------------------------- reachability of alternatives
def generic_rules(F):
    """One entry per use of a generic rule with alternatives."""
    out = {}
    for b in F.B.values():
        t = parsex.rule_type(F, b)
        if t is None:
            continue
        T = F.T[t]
        if T['k'] == 'adt' and T.get('local') and T.get('a') and T.get('enum'):
            out[parsex.short(T['s'])] = (T, b)
    return [(n, t, b) for n, (t, b) in sorted(out.items())]


def results(g, p, a, limit=20000):
    """The alternatives a rule may return.  A part tried again at the same place has the same outcome."""
    made, seen = set(), set()
    todo = [(g.entry[0], frozenset())]
    keep = True
    while todo:
        if keep and len(seen) > limit:
            made, seen, todo, keep = set(), set(), [(g.entry[0], frozenset())], False
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        node, mem = g.nodes[x[0]], dict(x[1])
        if node.kind == 'ret' and node.desc[1] == 'ok':
            made.add(node.desc[2])
        at = None
        if node.kind == 'parse':
            at = (node.desc[1], node.desc[2])
        for l, tgt, m, d in node.edges:
            if node.kind == 'parse' and node.desc[1] in p:
                if l == 'fail' and node.desc[1] not in a['fail'] or l == 'ok' and node.desc[1] not in a['ok'] or l == 'cut' and node.desc[1] not in a['cut']:
                    continue
            if at in mem and mem[at] != l:
                continue
            now = []
            if keep:
                facts = dict(mem)
                if at:
                    facts[at] = l
                now = [((name, ('$', 'c', j)), o) for (name, pos), o in facts.items() for j, q in enumerate(m) if tuple(q) == tuple(pos)]
            todo.append((tgt, frozenset(now)))
    return made


def check_variants(S, R):
    it, gs = values(S)
    it0, p, a = grammar(S)
    F = S.FULL
    names = parsex.rules(F)
    live = reachable_rules(p, a)
    total = 0
    todo = [(n, F.T[names[n][0]], g) for n, g in sorted(gs.items()) if F.T[names[n][0]].get('enum')]
    for n, t, b in generic_rules(F):
        try:
            todo.append((n, t, parsex.explore_rule(it, n, b, False)))
        except Unsupported as u:
            R.undecided(n, '%s %s' % (u, getattr(u, 'where', '')))
    for n, t, g in todo:
        made = results(g, p, a)
        if None in made:
            R.undecided(n, 'which alternative is returned')
            continue
        for v in t['v']:
            total += 1
            if v['n'] in made:
                R.ok('%s::%s' % (n, v['n']))
            else:
                R.fail('dead:%s::%s' % (n, v['n']), '%s: the alternative %s can never be the result: an earlier one always succeeds, or it is never tried' % (rule_where(S, n) if n in names else S.where(n.split(' ')[0]) if ' ' not in n else n, v['n']))
    R.floor('alternatives', total, 110, len(it0.unsupported) + len(it.unsupported))
    hidden = sorted(live & set(it0.unsupported))
    for n in sorted(set(p) - live - parsex.PLAIN - {'span::Span'}):
        if hidden:
            R.undecided('unused', 'what %s uses could not be read' % hidden[0])
            break
        if n.startswith('selmaho::') or n in S.reference('grammar')['unused']:
            continue
        R.fail('unused:' + n, '%s: no text uses this rule' % rule_where(S, n))


def reachable_rules(p, a):
    seen, todo = set(), ['Text']
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n not in p:
            continue
        g = p[n]
        ns, t2 = set(), [g['entry'][0]]
        while t2:
            x = t2.pop()
            if x in ns:
                continue
            ns.add(x)
            kind, desc, edges, npar = g['nodes'][str(x)]
            if kind == 'parse':
                todo.append(desc[1])
            for l, t, m, d in edges:
                if kind == 'parse' and desc[1] in p:
                    if l == 'fail' and desc[1] not in a['fail'] or l == 'cut' and desc[1] not in a['cut']:
                        continue
                t2.append(t)
    return seen


Prop('P07', check_variants, 'reachability in the behaviour graphs, with which rules can fail computed as a least fixpoint: every alternative of every choice is the result of some path, and every rule is used by some text')


# ------------------------------------------------------------------------------- committing
def check_cuts(S, R):
    it, p, a = grammar(S)
    ref = S.reference('grammar')
    allowed = {tuple(x) for x in ref['commits']}
    for n, why in sorted(it.unsupported.items()):
        R.undecided(n, why)
    n_fail = n_cut = 0
    for n, g in sorted(p.items()):
        for k, (kind, desc, edges, npar) in g['nodes'].items():
            if kind != 'parse':
                continue
            for l, t, m, d in edges:
                ends = outcomes_direct(g, t)
                if l == 'cut':
                    n_cut += 1
                    if ends != {'Failure'}:
                        R.fail('caught:%s' % n, '%s: a failure for good of %s is turned into %s' % (rule_where(S, n), desc[1], sorted(ends) or 'something else'))
                    else:
                        R.ok()
                if l == 'fail':
                    n_fail += 1
                    if 'Failure' in ends and (n, desc[1]) not in allowed:
                        R.fail('commit:%s:%s' % (n, desc[1]), '%s: when %s does not match, the whole parse fails although other alternatives remain' % (rule_where(S, n), desc[1]))
                    else:
                        R.ok()
    got = {(n, desc[1]) for n, g in p.items() for kind, desc, edges, npar in g['nodes'].values() if kind == 'parse'
           for l, t, m, d in edges if l == 'fail' and 'Failure' in outcomes_direct(g, t)}
    for n, x in sorted(allowed - got):
        if n in p and n not in it.unsupported:
            R.fail('nocommit:%s:%s' % (n, x), '%s: no longer commits before %s' % (rule_where(S, n), x))
    R.floor('failing steps', n_fail, 1500, len(it.unsupported))


def outcomes_direct(g, t):
    """What a node leads to without any further step."""
    seen = set()
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        kind, desc, edges, npar = g['nodes'][str(x)]
        if kind == 'ret':
            out.add(desc[1])
        elif kind == 'parse':
            out.add('goes on')
        elif kind == 'panic':
            out.add('panic')
        else:
            todo += [e[1] for e in edges]
    return out


Prop('P08', check_cuts, 'in every behaviour graph: a failure for good always ends the rule for good, and a plain failure does so only at the committed places')


# ------------------------------------------------------------------------------- termination
def check_termination(S, R):
    it, p, a = grammar(S)
    for n, why in sorted(it.unsupported.items()):
        R.undecided(n, why)
    left = {}
    for n, g in p.items():
        ms = parsex.may_start(g, a['nullable'])
        out = left.setdefault(n, {})
        for k, ps in ms.items():
            kind, desc, edges, npar = g['nodes'][str(k)]
            if kind == 'parse' and desc[2][2] in ps and feasible(g, p, a, k):
                out.setdefault(desc[1], k)
    # a cycle of rules at one and the same position
    state, order = {}, []

    def dfs(n, path):
        state[n] = 1
        for x in sorted(left.get(n, ())):
            if x not in p:
                continue
            if state.get(x) == 1:
                cyc = path[path.index(x):] if x in path else [x]
                R.fail('left:' + '>'.join(sorted(set(cyc))), '%s: %s may come back to itself without using a token: %s' % (rule_where(S, x), x, ' > '.join(cyc + [x])))
            elif state.get(x) is None:
                dfs(x, path + [x])
        state[n] = 2
    import sys
    sys.setrecursionlimit(10000)
    for n in sorted(p):
        if state.get(n) is None:
            dfs(n, [n])
    R.ok('no rule comes back to itself at the same position', n=sum(len(v) for v in left.values()))
    R.stats['left edges'] = sum(len(v) for v in left.values())
    loops = 0
    for n, g in sorted(p.items()):
        for h, why in stuck_loops(g, a):
            R.fail('loop:%s' % n, '%s: %s' % (rule_where(S, n), why))
        loops += len([1 for x in g['nodes'].values() if x[0] == 'loop'])
    R.ok('loops advance', n=loops)
    R.floor('loops', loops, 250, len(it.unsupported))
    R.floor('rules', len(p), 230, len(it.unsupported))


def feasible(g, p, a, k):
    """Is node k reachable given which rules can fail?"""
    seen, todo = set(), [g['entry'][0]]
    while todo:
        x = todo.pop()
        if x == k:
            return True
        if x in seen:
            continue
        seen.add(x)
        kind, desc, edges, npar = g['nodes'][str(x)]
        for l, t, m, d in edges:
            if kind == 'parse' and desc[1] in p:
                if l == 'fail' and desc[1] not in a['fail'] or l == 'cut' and desc[1] not in a['cut'] or l == 'ok' and desc[1] not in a['ok']:
                    continue
            todo.append(t)
    return False


def advances(nodes, h, proven, a):
    """Does every way round from h to h, not through proven heads, move one of its positions forward?"""
    npar = nodes[str(h)][3]
    # relation of each parameter to the value of head parameter j: e equal, s strictly after, w at or after
    for j in range(npar):
        state = {}
        work = [(h, {j: 'e'})]
        back = []
        first = True
        while work:
            x, rel = work.pop()
            if x in proven:
                continue
            if not first and x == h:
                back.append(rel)
                continue
            first = False
            old = state.get(x)
            if old is not None:
                new = {k: join(old.get(k), rel.get(k)) for k in old if k in rel}
                new = {k: v for k, v in new.items() if v}
                if new == old:
                    continue
                rel = new
            state[x] = rel
            kind, desc, edges, np_ = nodes[str(x)]
            for l, t, m, d in edges:
                r2 = dict(rel)
                newsym = {}
                for k, v in d:
                    if v[0] == 'end':
                        base = rel.get(v[2][2]) if v[2][2] < np_ else None
                        if base is not None:
                            newsym[tuple(k)] = 's' if v[1] in a['nonnull'] or base == 's' else 'w'
                    elif v[0] == 'succ':
                        base = rel.get(v[1][2])
                        if base is not None:
                            newsym[tuple(k)] = 's'
                if kind == 'test' and desc[1][0] == 'eqc' and l == 'F':
                    x1, x2 = desc[1][1][2], desc[1][2][2]
                    for p_, q in ((x1, x2), (x2, x1)):
                        if rel.get(p_) == 'e' and rel.get(q) == 'w':
                            r2[q] = 's'
                out = {}
                for i, s in enumerate(m):
                    s = tuple(s)
                    if s in newsym:
                        out[i] = newsym[s]
                    elif s[2] < np_ and s[2] in r2:
                        out[i] = r2[s[2]]
                work.append((t, out))
        if all(r.get(j) == 's' for r in back):
            return True
    return False


def stuck_loops(g, a):
    """Loop heads that may be reached again without having advanced."""
    nodes = g['nodes']
    nxt = {int(k): [(l, t, m, d) for l, t, m, d in v[2]] for k, v in nodes.items()}
    heads = [int(k) for k, v in nodes.items() if v[0] == 'loop']
    bad = []
    proven = set()
    # an endless run passes some head for ever: either one that advances each time, or it ends up avoiding those
    again = True
    while again:
        again = False
        for h in heads:
            if h not in proven and advances(nodes, h, proven, a):
                proven.add(h)
                again = True
    bad = [(h, 'a repetition may go round without using a token') for h in heads if h not in proven]
    # every cycle has to go through a loop head
    seen = {}

    def cyc(x):
        seen[x] = 1
        for l, t, m, d in nxt[x]:
            if t in heads:
                continue
            if seen.get(t) == 1:
                return True
            if seen.get(t) is None and cyc(t):
                return True
        seen[x] = 2
        return False
    for x in nxt:
        if seen.get(x) is None and cyc(x):
            bad.append((x, 'a cycle without a loop'))
            break
    return bad


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    return 'w'


Prop('P20', check_termination, 'over all behaviour graphs: the relation "a rule tries another at its own starting position" (which rules can match nothing computed as a least fixpoint) has no cycle, and every repetition advances')


# ------------------------------------------------------------------------------- no panics
def check_panics(S, R):
    it, p, a = grammar(S)
    itv, gs = values(S)
    for n, why in sorted(it.unsupported.items()):
        R.undecided(n, why)
    for n, g in sorted(p.items()):
        bad = [v[1] for v in g['nodes'].values() if v[0] == 'panic']
        if bad:
            R.fail('panic:' + n, '%s: may panic: %s' % (rule_where(S, n), bad[0]))
        else:
            R.ok(n)
    for where, kind, info in unproved(it):
        R.fail('arith:%s:%s' % (where, kind), '%s: %s may fail' % (where, kind))
    itt, tg = tree(S)
    for p_, why in sorted(itt.unsupported.items()):
        R.undecided(p_, why)
    for p_, res in sorted(tg.items()):
        bad = [x.desc for lab, keys, g in res for x in g.nodes.values() if x.kind == 'panic']
        if bad:
            R.fail('panic:' + p_, '%s: may panic: %s' % (S.where(p_), bad[0]))
        else:
            R.ok(p_)
    R.floor('functions', len(p) + len(tg), 2000, len(it.unsupported) + len(itt.unsupported))


Prop('P21', check_panics, 'no path of any parsing rule or traversal method ends in a panic, and every arithmetic step is proved in range')


def freeze(S):
    import os
    p0 = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'reference', 'grammar.json.gz')
    if os.path.exists(p0):
        os.unlink(p0)
    S.memo.pop('grammar', None)
    it, p, a = grammar(S)
    commits = sorted({(n, desc[1]) for n, g in p.items() for kind, desc, edges, npar in g['nodes'].values() if kind == 'parse'
                      for l, t, m, d in edges if l == 'fail' and 'Failure' in outcomes_direct(g, t)})
    unused = sorted(set(p) - reachable_rules(p, a))
    S.freeze('grammar', {'graphs': parsex.recogniser_form(p, a), 'nonnull': sorted(a['nonnull']), 'commits': commits, 'unused': unused})
    print(commits, unused, sorted(set(p) - a['fail']))
