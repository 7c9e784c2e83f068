"""Errors of the parser: where they are, what they name, and how those of alternatives are merged (P09)."""
from base import *
from harness import *
from interp import Unsupported
from models import addr
import parsex

ERR = 'parse::cst::error::'
MERGE = "<parse::cst::error::WithLocation<'a> as nom::error::ParseError<&'a [lex::token::Token]>>::"


# ------------------------------------------------------------------ merging
M = dict(parsex.MODELS_P)


def over(*names):
    def deco(f):
        for n in names:
            base = M.get(n)

            def g(ctx, f=f, base=base):
                r = f(ctx)
                return base(ctx) if r is NotImplemented and base is not None else r
            M[n] = g
        return f
    return deco


def is_cow(T, v):
    return v[0] == 'a' and len(v[3]) == 1 and T[v[1]].get('p', '').endswith('borrow::Cow')


def ids(ctx, v):
    """The names behind a list of expected classes, or None."""
    while v[0] in ('ref', 'cref', 'cow') or is_cow(ctx.it.T, v):
        v = ctx.it.load(ctx.st, ('cell', v[1], v[2])) if v[0] == 'ref' else v[3][0] if v[0] == 'a' else v[1]
    if v[0] == 'names':
        return v[1]
    return None


def holder(ctx, r):
    """The place a list of names is kept in."""
    while r[0] == 'ref':
        v = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
        if v[0] != 'ref':
            return r if v[0] == 'cow' else None
        r = v
    return None


@over("std::borrow::Cow::<'_, B>::to_mut", "std::borrow::Cow::<'a, B>::to_mut")
def to_mut(ctx):
    h = holder(ctx, ctx.args[0])
    return NotImplemented if h is None else ctx.ret(h)


@over("<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'a, B>::into_owned",
      'core::slice::<impl [T]>::iter', 'std::iter::Iterator::copied', 'std::iter::Iterator::cloned', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
      'std::slice::<impl [T]>::to_vec', "<I as std::iter::IntoIterator>::into_iter", "<std::borrow::Cow<'_, B> as std::clone::Clone>::clone",
      '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::borrow::ToOwned::to_owned', 'std::convert::Into::into',
      "std::vec::cow::<impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<'a, [T]>>::from", 'std::iter::Iterator::collect',
      "<std::slice::Iter<'a, T> as std::iter::Iterator>::copied", '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def same_names(ctx):
    n = ids(ctx, ctx.args[0])
    if n is None:
        return NotImplemented
    v = ('names', n)
    return ctx.ret(('cref', v) if ctx.it.T[ctx.retty()]['k'] == 'ref' else ('cow', v))


@over('std::iter::Iterator::chain')
def chain(ctx):
    a, b = ids(ctx, ctx.args[0]), ids(ctx, ctx.args[1])
    return NotImplemented if a is None or b is None else ctx.ret(('cow', ('names', a + b)))


@over('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend",
      'std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append')
def extend(ctx):
    h = holder(ctx, ctx.args[0])
    n = ids(ctx, ctx.args[1])
    if h is None or n is None:
        return NotImplemented
    ctx.it.store(ctx.st, ('cell', h[1], h[2]), ('cow', ('names', ids(ctx, h) + n)))
    return ctx.ret(('a', ctx.retty(), 0, ()))


@over('std::vec::Vec::<T, A>::clear', 'std::vec::Vec::<T, A>::truncate')
def truncate(ctx):
    h = holder(ctx, ctx.args[0])
    n = ctx.args[1] if len(ctx.args) > 1 else ('i', 0)
    if h is None or n[0] != 'i' or ids(ctx, h) is None:
        return NotImplemented
    ctx.it.store(ctx.st, ('cell', h[1], h[2]), ('cow', ('names', ids(ctx, h)[:n[1]])))
    return ctx.ret(('a', ctx.retty(), 0, ()))


def variants(F, ety):
    """Samples of every kind of error: {name: value}; those that expected a token differ in the token found."""
    T = F.T
    tok = F.ty_by_str('lex::token::Token')
    span = F.ty_by_str('span::Span')
    sel = F.ty_by_str('lex::selmaho::Selmaho')

    def token(k):
        vals = {'experimental': ('b', 0), 'selmaho': ('a', sel, k, ()), 'span': ('a', span, 0, (('i', k), ('i', k + 1)))}
        return ('a', tok, 0, tuple(vals[f[0]] for f in T[tok]['v'][0]['f']))
    out = {}
    for i, v in enumerate(T[ety]['v']):
        if v['n'] == 'ExpectedGot':
            opt = dict(v['f'])['got']
            for name, got in (('the end', ('a', opt, 0, ())), ('one token', ('a', opt, 1, (token(3),))), ('another token', ('a', opt, 1, (token(4),)))):
                out['ExpectedGot (%s)' % name] = (lambda w, i=i, v=v, got=got: ('a', ety, i, tuple(got if n == 'got' else ('cow', ('names', (w,))) for n, _ in v['f'])))
        else:
            out[v['n']] = lambda w, i=i, v=v: ('a', ety, i, tuple(('op', (w, n), (), t) for n, t in v['f']))
    return out


def merge(F, name, body, a, b, order):
    """What merging two errors gives: a list of the ends of all paths."""
    it = parsex.Interp(F, M, {})
    wl = body['locals'][0]
    T = F.T
    ety = dict(T[wl]['v'][0]['f'])['error']
    V = variants(F, ety)
    place = {}

    def val(which, kind):
        def f(it, st):
            if 'z' not in place:
                x, y, z = st.sym('c'), st.sym('c'), st.sym('c')
                if order == '<':
                    st.add_le(x, y, True)
                elif order == '>':
                    st.add_le(y, x, True)
                st.add_le(x, z)
                st.add_le(y, z)
                place.update(x=x, y=x if order == '=' else y, z=z)
            loc = ('tok', place['x' if which == 'A' else 'y'], place['z'])
            return ('a', wl, 0, tuple(loc if n == 'location' else V[kind](which) for n, _ in T[wl]['v'][0]['f']))
        return f
    place.clear()
    g = explore(F, it, body, [val('A', a), val('B', b)])
    if it.unmodelled:
        odd = [n for _, n in sorted(it.unmodelled) if 'panick' not in n]
        if odd:
            raise Unsupported('%s: %s' % (name, odd[0]))
    # what is compared is known, so there is one way through (no more than a few where it is not)
    ends = ends_of(g)
    return g, ends, place


def check_merge(S, R):
    F = S.FULL
    body = [b for b in F.B.values() if b['path'] == MERGE + 'or']
    if not body:
        R.fail('merge', 'errors of alternatives are no longer merged by the error type')
        return
    body = body[0]
    where = S.where(body['path'])
    wl = F.T[body['locals'][0]]
    V = variants(F, dict(wl['v'][0]['f'])['error'])
    fields = [n for n, _ in wl['v'][0]['f']]
    bad = None
    n = 0
    for order in '<=>':
        for a in V:
            for b in V:
                if order != '=' and not (a in list(V)[:2] and b in list(V)[-2:] or a == b):
                    continue
                try:
                    g, ends, place = merge(F, 'or', body, a, b, order)
                except Unsupported as u:
                    R.undecided('merging', '%s %s' % (u, getattr(u, 'where', '')))
                    return
                n += 1
                want = {'<': 'B', '>': 'A', '=': 'B'}[order]
                kind = b if want == 'B' else a
                names = ('A', 'B') if order == '=' and a == b and a.startswith('ExpectedGot') else (want,)
                w = V[kind](want)
                ev = F.T[w[1]]['v'][w[2]]
                exp = (ev['n'], dict(zip([f for f, _ in ev['f']], w[3])))
                for e in ends:
                    try:
                        why = judge(e, fields, exp, want, names, place)
                    except Unsupported as u:
                        R.undecided('merging', str(u))
                        return
                    if why:
                        R.fail('merge', '%s: merging an error %s with a later one %s (the first is %s): %s' % (where, a, b, {'<': 'further back', '=': 'at the same place', '>': 'further on'}[order], why))
                        return
    R.ok('merging of two errors: %d combinations' % n, n=n)
    R.stats['merges'] = n


def check_pass(S, R):
    """Combinators pass the error of what they tried on as it is; their own errors are about the tokens they were given."""
    F = S.FULL
    T = F.T
    for name in ('append', 'from_error_kind'):
        body = [b for b in F.B.values() if b['path'] == MERGE + name]
        if not body:
            R.undecided(name, 'there is no such function')
            continue
        body = body[0]
        where = S.where(body['path'])
        wl = body['locals'][0]
        ety = dict(T[wl]['v'][0]['f'])['error']
        V = variants(F, ety)
        for kind in V:
            for order in '<=>':
                place = {}

                def tok(which):
                    def f(it, st):
                        if 'z' not in place:
                            x, y, z = st.sym('c'), st.sym('c'), st.sym('c')
                            if order == '<':
                                st.add_le(x, y, True)
                            elif order == '>':
                                st.add_le(y, x, True)
                            st.add_le(x, z)
                            st.add_le(y, z)
                            place.update(x=x, y=x if order == '=' else y, z=z)
                        loc = ('tok', place['x' if which == 'A' else 'y'], place['z'])
                        if which == 'A':
                            return loc
                        return ('a', wl, 0, tuple(loc if n == 'location' else V[kind]('B') for n, _ in T[wl]['v'][0]['f']))
                    return f
                code = lambda it, st: ('op', ('K', 'kind'), (), body['locals'][2])
                it = parsex.Interp(F, M, {})
                try:
                    g = explore(F, it, body, [tok('A'), code] + ([tok('B')] if name == 'append' else []))
                    odd = [n for _, n in sorted(it.unmodelled) if 'panick' not in n]
                    if odd:
                        raise Unsupported(odd[0])
                    for e in ends_of(g):
                        if name == 'append':
                            w = V[kind]('B')
                            ev = T[w[1]]['v'][w[2]]
                            why = judge(e, [n for n, _ in T[wl]['v'][0]['f']], (ev['n'], dict(zip([f for f, _ in ev['f']], w[3]))), 'B', ('B',), place)
                        else:
                            v = e[0].desc
                            r = dict(zip(sorted(n for n, _ in T[wl]['v'][0]['f']), v[3])) if e[0].kind == 'ret' and v[0] == 'a' else {}
                            at = r.get('location', ('?',))
                            if at[0] != 'tok':
                                raise Unsupported('place %r' % (at[:1],))
                            why = None
                            if tuple(e[1][c[2]] if c[1] == 'c' and c[2] < len(e[1]) else None for c in at[1:3]) != (place['x'], place['z']):
                                why = 'the error made is not about the tokens given'
                            elif ('op', ('K', 'kind')) not in [x[:2] for x in r['error'][3]]:
                                why = 'the error made does not say of what kind it is'
                        if why:
                            R.fail('pass', '%s (error %s): %s' % (where, kind, why))
                            return
                except Unsupported as u:
                    R.undecided(name, '%s %s' % (u, getattr(u, 'where', '')))
                    return
                if name == 'from_error_kind':
                    break
            if name == 'from_error_kind':
                break
        R.ok(name)


def ends_of(g):
    ends = []
    todo, seen = [(g.entry[0], tuple(g.entry[1]))], set()
    while todo:
        t, syms = todo.pop()
        if (t, syms) in seen:
            continue
        seen.add((t, syms))
        n = g.nodes[t]
        if n.kind in ('test', 'loop', 'variant'):
            for l, t2, m, d in n.edges:
                todo.append((t2, tuple(syms[x[2]] if x[1] == 'c' and x not in d and x[2] < len(syms) else None for x in m)))
        else:
            ends.append((n, syms))
    return ends


def judge(e, fields, exp, want, names, place):
    n, syms = e
    if n.kind != 'ret':
        return 'it ends in %s %s' % (n.kind, n.desc)
    v = n.desc
    if v[0] != 'a' or len(v[3]) != len(fields):
        raise Unsupported('result %r' % (v[:2],))
    r = dict(zip(sorted(fields), v[3]))
    got = r['error']
    if got[2] != exp[0]:
        return 'the result is %s, the error of the wrong one' % got[2]
    for (f, y), x in zip(sorted(exp[1].items()), got[3]):
        while x[0] in ('cow', 'cref', '&') and y[0] == 'cow':
            x = x[1]
        if y[0] == 'cow':
            if x[0] != 'names':
                raise Unsupported('expected classes %r' % (x[:1],))
            if tuple(x[1]) != names:
                return 'the result expects the classes of %s instead of those of %s' % (' and '.join(x[1]) or 'none', ' and '.join(names))
        elif y[0] == 'op':
            if x[0] != 'op' or x[1] != y[1]:
                return 'the result is the error of the wrong one'
        elif x[0] == 'a' and (len(x[3]) == 0) != (len(y[3]) == 0):
            return 'the result reports another token'
        elif x[0] == 'a' and x[3] and y[3] and str(y[3][0][3][0]) and not same(x[3][0], y[3][0]):
            return 'the result reports another token'
    loc = r['location']
    if loc[0] != 'tok':
        raise Unsupported('place %r' % (loc[:1],))
    at = tuple(syms[c[2]] if c[1] == 'c' and c[2] < len(syms) else None for c in loc[1:3])
    if at != (place['x' if want == 'A' else 'y'], place['z']):
        return 'the place of the result is not the one further on'
    return None


def same(x, y):
    """Two tokens written out (types by name or by number, fields in any order): the same class?"""
    ints = lambda v: sorted(z for w in v[3] for z in (ints(w) if w[0] == 'a' else [w[1]])) if v[0] == 'a' else [v[1]]
    return ints(x) == ints(y)


# ------------------------------------------------------------------ what rules and the entry point report
def executing(F, names, view):
    """An interpreter in which errors made on the spot are real ones."""
    A = parsex.atoms(F, names, True)
    for k in (MERGE + 'from_error_kind', MERGE + 'append', ERR + 'Error::with_location'):
        A.pop(k, None)
    it = parsex.Interp(F, parsex.MODELS_P, A)
    it.values = True
    it.gaps = []
    it.unsupported = {}
    it.token_field = lambda path: '?'
    it.atomic['$tiles'] = view
    return it


def view(ctx):
    """How a rule fails: is an error it makes itself about a token of the right class, at the right place?"""
    it, st = ctx.it, ctx.st
    v = ctx.deref(ctx.args[0])
    s = ctx.deref(ctx.args[1])
    if v[2] == 0:
        return ctx.ret(('tup', 'ok'))
    o = v[3][0]
    how = it.T[o[1]]['v'][o[2]]['n']
    e = o[3][0]
    if e[0] != 'a':
        return ctx.ret(('tup', how, 'passed on'))
    T = it.T
    r = dict(zip([n for n, _ in T[e[1]]['v'][0]['f']], e[3]))
    loc, err = r['location'], r['error']
    if loc[0] != 'tok':
        return ctx.ret(('tup', how, '?', 'place'))
    if loc[2] != s[2]:
        return ctx.ret(('tup', how, 'bad', 'the place of the error does not reach to the end of the tokens'))
    if err[0] != 'a':
        return ctx.ret(('tup', how, '?', 'error'))
    ev = T[err[1]]['v'][err[2]]
    if ev['n'] != 'ExpectedGot':
        return ctx.ret(('tup', how, 'other', ev['n']))
    d = dict(zip([n for n, _ in ev['f']], err[3]))
    x = d['expected']
    while x[0] in ('cow', 'cref', 'ref') or is_cow(T, x):
        x = it.load(st, ('cell', x[1], x[2])) if x[0] == 'ref' else x[3][0] if x[0] == 'a' else x[1]
    if x[0] != 'arr' or any(y[0] != 'a' for y in x[1]):
        return ctx.ret(('tup', how, '?', 'expected'))
    exp = tuple(sorted(T[y[1]]['v'][y[2]]['n'] for y in x[1]))
    got = d['got']
    if got[0] != 'a':
        return ctx.ret(('tup', how, '?', 'got'))
    if got[2] == 0:
        if loc[1] != loc[2]:
            return ctx.ret(('tup', how, 'bad', 'the end is reported although there are more tokens', exp))
        return ctx.ret(('tup', how, 'end', exp))
    t = got[3][0]
    while t[0] in ('cref', 'ref'):
        t = it.load(st, ('cell', t[1], t[2])) if t[0] == 'ref' else t[1]
    if t[0] != 'op' or t[1][0] != 'token' or t[2]:
        return ctx.ret(('tup', how, 'bad', 'the token reported is none of those that were read', exp))
    c = t[1][1]
    if st.pred.get(loc[1]) != c:
        return ctx.ret(('tup', how, 'bad', 'the place of the error is not right after the token it reports', exp))
    feas = None
    for k, f in st.var.items():
        if k[0] == 'op' and k[1] == ('token', c):
            feas = f
    sel = [ft for n, ft in T[it.F.ty_by_str('lex::token::Token')]['v'][0]['f'] if n == 'selmaho'][0]
    alln = [w['n'] for w in T[sel]['v']]
    out = tuple(sorted(alln[i] for i in range(len(alln)) if feas is not None and i not in feas))
    if out != exp:
        return ctx.ret(('tup', how, 'bad', 'it names %s as expected, but what was tried is %s' % (' '.join(exp) or 'nothing', ' '.join(out) or 'nothing'), exp))
    return ctx.ret(('tup', how, 'token', exp))


def check_leaves(S, R):
    """Errors made by the word rules, and by the other rules themselves."""
    F = S.FULL
    names = parsex.rules(F)
    it = executing(F, names, view)
    leaves = 0
    for n, (t, b) in sorted(names.items()):
        if n in parsex.PLAIN:
            continue
        try:
            g = parsex.explore_rule(it, n, b, False)
        except Unsupported as u:
            R.undecided(n, '%s %s' % (u, getattr(u, 'where', '')))
            it.unsupported[n] = 1
            continue
        ends = [x.desc for x in g.nodes.values() if x.kind == 'ret' and x.desc[1] != 'ok']
        bad = [d for d in ends if d[2] == 'bad']
        odd = [d for d in ends if d[2] == '?']
        if bad:
            R.fail('leaf:' + n, '%s: %s' % (S.where(b['path']), bad[0][3]))
        elif odd:
            R.undecided(n, 'error with unreadable %s' % odd[0][3])
            it.unsupported[n] = 1
        else:
            kinds = {d[2] for d in ends}
            if {'end', 'token'} <= kinds:
                exp = {d[3] for d in ends if d[2] in ('end', 'token')}
                R.need(len(exp) == 1, 'leaf:' + n, '%s: names different classes at the end and elsewhere' % S.where(b['path']))
                leaves += 1
            else:
                R.ok(n)
    R.floor('word rules', leaves, 115, len(it.unsupported))
    R.stats['rules'] = len(names) - len(it.unsupported)


def check_entry(S, R):
    """The error of a text that is not read to its end is where reading stopped."""
    F = S.FULL
    names = parsex.rules(F)
    body = [b for b in F.B.values() if b['local'] and b['path'].endswith('Cst::<\'arena>::parse')]
    R.floor('parse entry points', len(body), 1)

    def entry_view(ctx):
        v = ctx.deref(ctx.args[0])
        if v[2] == 0:
            return ctx.ret(('tup', 'ok'))
        e = v[3][0]
        if e[0] != 'a':
            return ctx.ret(('tup', 'no', e))
        r = dict(zip([n for n, _ in ctx.it.T[e[1]]['v'][0]['f']], e[3]))
        return ctx.ret(('tup', 'no', r['location']))
    for b in body:
        where = S.where(b['path'])
        it = executing(F, names, entry_view)
        try:
            g = parsex.explore_rule(it, 'entry', b, False)
        except Unsupported as u:
            R.undecided(where, '%s %s' % (u, getattr(u, 'where', '')))
            continue
        todo, seen = [], set()
        for x in g.nodes.values():
            if x.kind != 'parse':
                continue
            for l, t, m, d in x.edges:
                if l == 'ok':
                    end = next((i for i, s in enumerate(m) if s in d and d[s][0] == 'end'), None)
                    last = next((i for i, s in enumerate(m) if s == x.desc[3]), None)
                    todo.append((t, True, end, last))
                else:
                    todo.append((t, False, None, None))
        R.need(bool(todo), 'entry', '%s: tries no rule' % where)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t, ok, end, last = x
            n = g.nodes[t]
            if n.kind == 'ret':
                if n.desc[1] == 'no':
                    got = n.desc[2]
                    if not ok:
                        R.need(got == ('err',), 'passed', '%s: the error of the text rule is not passed on as it is' % where)
                    elif got[0] == 'tok':
                        R.need((got[1], got[2]) == (('$', 'c', end), ('$', 'c', last)), 'stopped', '%s: the place of the error is not where reading stopped' % where)
                    else:
                        R.undecided(where, 'error %r' % (got[:1],))
                continue
            if n.kind == 'parse':
                continue
            for l, t2, m, d in n.edges:
                todo.append((t2, ok, *[next((i for i, s in enumerate(m) if q is not None and s == ('$', 'c', q)), None) for q in (end, last)]))


def check(S, R):
    check_merge(S, R)
    check_pass(S, R)
    check_leaves(S, R)
    check_entry(S, R)


Prop('P09', check, 'evaluation of the merge of two errors for every kind and order; symbolic execution of every rule and of the entry point with errors made on the spot executed: class, token and place of each')
