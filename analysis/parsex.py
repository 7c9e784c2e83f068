"""The grammar: one behaviour graph per parsing rule.

A rule is an implementation of the parser trait for one of the crate's own types.  Every other rule it
uses is an opaque step: at a position it fails (and lets alternatives be tried), fails for good, or succeeds
and moves to a position at or after.  Everything in between (the combinator library, the blanket
implementations for options, tuples, references and pairs, generic rules, helpers) is executed."""
import re

from harness import *
from models import range_bounds

TRAIT = "parse::cst::parse_trait::Parse<'arena>>::parse"
PLAIN = {'lex::token::Token', 'span::Span'}     # one token, whatever it is: executed in place


def rule_type(F, b):
    """The type a parser implementation is for, or None."""
    if not b['local'] or not b['path'].endswith(TRAIT) or b['argc'] != 2:
        return None
    r = F.T[b['locals'][0]]
    if r.get('p') != 'std::result::Result':
        return None
    return F.T[r['a'][0]]['a'][1]


def short(p):
    return p.replace('parse::cst::rules::', '')


def rules(F):
    """name -> (type, body) for every non-generic rule of the crate."""
    out = {}
    for b in F.B.values():
        t = rule_type(F, b)
        if t is None:
            continue
        T = F.T[t]
        if T['k'] != 'adt' or not T.get('local') or T.get('a'):
            continue
        out[short(T['p'])] = (t, b)
    return out


def pos_value(ctx, name, a, d):
    return ('pv', name, a, d)


class Interp(Interp):
    """Slices of tokens: every element is one step."""

    def step(self, st, a, e):
        """The cursor one token after a, None if a is the end e."""
        if a == e:
            return None
        term = ('eqc',) + tuple(sorted((a, e)))
        d = self.decide(st, term)
        if d is None:
            raise Decision(('test', term), [('T', lambda s: self.assume(s, term, True)), ('F', lambda s: (self.assume(s, term, False), s.add_le(a, e, True)))])
        if d:
            return None
        for k, p in st.pred.items():
            if p == a:
                return k
        c = st.sym('c', ('succ', a))
        st.add_le(a, c, True)
        st.add_le(c, e)
        st.pred[c] = a
        return c

    def at(self, st, a, e, n):
        """The cursor n tokens after a, None if there are fewer before e."""
        for _ in range(n):
            a = self.step(st, a, e)
            if a is None:
                return None
        return a

    def before(self, st, a, e):
        """The cursor of the last token before e (there is one)."""
        if e in st.pred:
            return st.pred[e]
        for c, q in st.pred.items():
            if q == a and self.decide(st, ('eqc',) + tuple(sorted((c, e)))):
                return a
        c = st.sym('c', ('last', e))
        st.add_le(a, c)
        st.add_le(c, e, True)
        st.pred[e] = c
        return c

    def token(self, a):
        return ('op', ('token', a), (), self.F.ty_by_str('lex::token::Token'))

    def compare(self, st, op, a, b):
        if a[0] == 'i' and b[0] == 'lin':
            a, b, op = b, a, self.SWAP[op]
        if b[0] == 'i' and a[0] == 'lin' and len(a[2]) == 2 and sorted(c for _, c in a[2]) == [-1, 1]:
            n = b[1] - a[1]
            lo = [s for s, c in a[2] if c < 0][0]
            hi = [s for s, c in a[2] if c > 0][0]
            if (lo, hi) in st.le or (lo, hi) in st.lt:
                least = lambda m: m <= 0 or self.at(st, lo, hi, m) is not None
                if -1 <= n <= 4:
                    r = {'Ge': lambda: least(n), 'Gt': lambda: least(n + 1), 'Lt': lambda: not least(n), 'Le': lambda: not least(n + 1),
                         'Eq': lambda: n >= 0 and least(n) and not least(n + 1), 'Ne': lambda: not (n >= 0 and least(n) and not least(n + 1))}[op]()
                    return ('b', int(r))
        if a[0] == 'i' and b[0] == 'op' and b[1][0] == 'listlen':
            a, b, op = b, a, self.SWAP[op]
        if a[0] == 'op' and a[1][0] == 'listlen':
            # how long a list is is not known; that it may be of any length is
            if b[0] != 'i':
                raise Unsupported('length of a list')
            n, some = b[1], a[1][3]
            if n > 2**31 or n < 0:
                return ('b', int((op in ('Lt', 'Le', 'Ne')) == (n > 0)))
            if some and (n, op) in ((0, 'Gt'), (0, 'Ne'), (1, 'Ge'), (0, 'Ge')):
                return TRUE
            if some and (n, op) in ((0, 'Eq'), (0, 'Le'), (1, 'Lt'), (0, 'Lt')):
                return FALSE
        return super().compare(st, op, a, b)

    def proj_tok(self, st, v, e):
        a, z = v[1], v[2]
        if e[0] == 'i' and e[1][0] == 'i':
            e = ('ci', e[1][1], 0, False)
        if e[0] == 'ci':
            if e[3]:
                if e[1] != 1:
                    raise Unsupported('token %d from the end' % e[1])
                return self.token(self.before(st, a, z))
            c = self.at(st, a, z, e[1])
            if c is None or self.step(st, c, z) is None:
                raise Infeasible()
            return self.token(c)
        if e[0] == 'ss':
            lo = self.at(st, a, z, e[1])
            if lo is None:
                raise Infeasible()
            if not e[3]:
                return ('tok', lo, self.at(st, a, z, e[2]))
            if e[2] > 1:
                raise Unsupported('%d tokens from the end' % e[2])
            return ('tok', lo, self.before(st, lo, z) if e[2] else z)
        raise Unsupported('projection %r of tokens' % (e,))


class Atoms:
    def __init__(self, F, values, nonnull=()):
        self.F = F
        self.values = values        # keep the values parsed (or only what was consumed)
        self.nonnull = set(nonnull)

    def rule(self, name, ty):
        def f(ctx):
            s = ctx.deref(ctx.args[0])
            if s[0] != 'tok':
                raise Unsupported('rule %s on %r' % (name, s[:1]))
            T = ctx.it.T

            def ok(x):
                c = ctx.again(x)
                d = x.sym('c', ('end', name, s[1]))
                x.add_le(s[1], s[2])
                x.add_le(s[1], d, name in self.nonnull)
                x.add_le(d, s[2])
                t = c.retty()
                tup = T[t]['a'][0]
                v = ('pv', name, s[1], d) if self.values else ('pv', name)
                c.ret(('a', t, 0, (('a', tup, 0, (('tok', d, s[2]), v)),)))

            def fail(variant):
                def g(x):
                    c = ctx.again(x)
                    t = c.retty()
                    et = T[t]['a'][1]
                    k = [i for i, v in enumerate(T[et]['v']) if v['n'] == variant][0]
                    c.ret(('a', t, 1, (('a', et, k, (('err',),)),)))
                return g
            raise Decision(('parse', name, s[1], s[2]), [('ok', ok), ('fail', fail('Error')), ('cut', fail('Failure'))])
        return f


def opaque_error(ctx):
    return ctx.ret(('err',))


def tok_iter(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'tok':
        return NotImplemented
    return ctx.ret(('obj', 'toks', s[1], s[2]))


MODELS_P = dict(MODELS)


def over(*names):
    def deco(f):
        for n in names:
            base = MODELS.get(n)

            def g(ctx, f=f, base=base):
                r = f(ctx)
                if r is NotImplemented and base is not None:
                    return base(ctx)
                return r
            MODELS_P[n] = g
        return f
    return deco


over('core::slice::<impl [T]>::iter')(tok_iter)


@over("std::vec::cow::<impl std::convert::From<&'a [T]> for std::borrow::Cow<'a, [T]>>::from", "std::vec::cow::<impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<'a, [T]>>::from")
def cow_from(ctx):
    """The classes an error names."""
    return ctx.ret(('cow', ctx.args[0]))


READ = {'parse', 'test', 'loop', 'ret', 'variant', 'panic'}


def unread(it, gs):
    """Rules that do something this reading has no meaning for are not decided."""
    for n, g in sorted(gs.items()):
        odd = sorted({(x.kind, x.desc[1] if x.desc else '') for x in g.nodes.values() if x.kind not in READ}, key=str)
        if odd:
            it.unsupported[n] = 'step %s' % (odd[0],)
            del gs[n]


def cellof(ctx, r):
    while True:
        if r[0] != 'ref':
            return None, None
        v = ctx.it.load(ctx.st, ('cell', r[1], r[2]))
        if v[0] != 'ref':
            return r, v
        r = v


@over("<std::slice::Iter<'a, T> as std::iter::Iterator>::next")
def tok_next(ctx):
    r, v = cellof(ctx, ctx.args[0])
    if v is None or v[0] != 'obj' or v[1] != 'toks':
        return NotImplemented
    it, st = ctx.it, ctx.st
    a, e = v[2], v[3]
    c = it.step(st, a, e)
    if c is None:
        return ctx.ret(ctx.option(None))
    it.store(st, ('cell', r[1], r[2]), ('obj', 'toks', c, e))
    return ctx.ret(ctx.option(('cref', it.token(a))))


@over('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::first')
def tok_get(ctx):
    s = ctx.deref(ctx.args[0])
    n = ctx.args[1] if len(ctx.args) > 1 else ('i', 0)
    if s[0] != 'tok' or n[0] != 'i':
        return NotImplemented
    it, st = ctx.it, ctx.st
    c = it.at(st, s[1], s[2], n[1])
    if c is None or it.step(st, c, s[2]) is None:
        return ctx.ret(ctx.option(None))
    return ctx.ret(ctx.option(('cref', it.token(c))))


@over('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def tok_ends(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'tok':
        return NotImplemented
    it, st = ctx.it, ctx.st
    name = ctx.fty.get('rp', ctx.fty.get('p')).rsplit('::', 1)[1]
    c = it.step(st, s[1], s[2])
    if c is None:
        return ctx.ret(ctx.option(None))
    if name == 'split_first':
        return ctx.ret(ctx.option(('a', None, 0, (('cref', it.token(s[1])), ('tok', c, s[2])))))
    b = it.before(st, s[1], s[2])
    if name == 'last':
        return ctx.ret(ctx.option(('cref', it.token(b))))
    return ctx.ret(ctx.option(('a', None, 0, (('cref', it.token(b)), ('tok', s[1], b)))))


@over('std::ops::Index::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def tok_index(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'tok':
        return NotImplemented
    it, st = ctx.it, ctx.st
    lo, hi, _ = range_bounds(ctx, s, ctx.args[1])
    a, z = s[1], s[2]
    if lo is not None:
        if lo[0] != 'i':
            return NotImplemented
        a = it.at(st, s[1], s[2], lo[1])
    if hi is not None:
        if hi[0] != 'i':
            return NotImplemented
        z = it.at(st, s[1], s[2], hi[1])
    if a is None or z is None:
        return ('end', 'panic:a slice of tokens beyond their end')
    return ctx.ret(('tok', a, z))


@over("std::slice::Iter::<'a, T>::as_slice")
def iter_as_slice(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] != 'obj' or v[1] != 'toks':
        return NotImplemented
    return ctx.ret(('tok', v[2], v[3]))


# ------------------------------------------------------------------------------ lists and the arena
# A list is ('lst', pieces, nonempty): with values, the stretch of the input its elements tile.
def succ_of(st, p):
    for c, q in st.pred.items():
        if q == p:
            return c
    return None


def flat(it, st, v):
    """The leaves of a value in the order its fields are declared: [(what, from, to)]."""
    if v is None:
        raise Unsupported('unset field')
    k = v[0]
    if k == 'pv':
        return [v[1:]]
    if k == 'lst':
        return [('list', v[1], v[2])] if v[1] is not None else []
    if k == 'a':
        out = []
        parts = {}
        for x in v[3]:
            if x is not None and x[0] == 'op' and x[1] and x[1][0] == 'token' and x[2]:
                # a leaf made of a token's parts
                parts.setdefault(x[1][1], []).append(x[2])
                if len(parts[x[1][1]]) > 1:
                    continue
                n = succ_of(st, x[1][1])
                out.append(('part', x[1][1], n))
                continue
            out += flat(it, st, x)
        for p, fs in parts.items():
            names = {it.token_field(f) for f in fs}
            if not {'experimental', 'span'} <= names:
                raise Gap('a leaf keeps only %s of its token' % ', '.join(sorted(names)))
        return out
    if k == 'cref':
        return flat(it, st, v[1])
    if k == 'ref':
        return flat(it, st, it.load(st, ('cell', v[1], v[2])))
    if k == 'op' and v[1] and v[1][0] == 'token' and not v[2]:
        n = succ_of(st, v[1][1])
        if n is not None:
            return [('token', v[1][1], n)]
    if k == 'arr':
        return [y for x in v[1] for y in flat(it, st, x)]
    if k in ('b', 'i', 't', 'lin') or k == 'op' and v[1] and v[1][0] == 'token':
        raise Gap('a part of the tree does not come from the tokens')
    raise Unsupported('value %r' % (v[:2],))


def span_of(it, st, v):
    """(from, to) of a value whose leaves tile a stretch, None when it has no leaves."""
    fs = flat(it, st, v)
    if not fs:
        return None
    for x, y in zip(fs, fs[1:]):
        if x[2] != y[1]:
            raise Gap('%s and %s are not what was read one after the other' % (x[0], y[0]))
    return fs[0][1], fs[-1][2]


def tiles(ctx):
    """The value a rule returns holds everything between where it started and where it stopped, in order."""
    it, st = ctx.it, ctx.st
    v = ctx.deref(ctx.args[0])
    s = ctx.deref(ctx.args[1])
    if v[2] == 0:
        rest, val = v[3][0][3]
        bad = None
        var = None
        while val[0] in ('cref', 'ref'):
            val = ctx.deref(val)
        if val[0] == 'a' and it.T[val[1]].get('enum'):
            var = it.T[val[1]]['v'][val[2]]['n']
        try:
            sp = span_of(it, st, val)
            if sp is None:
                if rest[1] != s[1]:
                    bad = 'tokens are consumed but nothing is kept'
            elif sp[0] != s[1]:
                bad = 'what comes first in the tree is not what was read first'
            elif sp[1] != rest[1]:
                bad = 'what was read last is not kept last'
        except Gap as g:
            bad = str(g)
        if rest[2] != s[2]:
            bad = 'the rest does not reach to the end of the tokens'
        return ctx.ret(('tup', 'ok', var, bad))
    return ctx.ret(('tup', 'no'))


class Gap(Exception):
    pass


@over('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(ctx):
    return ctx.ret(('lst', None, None, 0))


@over('std::vec::Vec::<T, A>::push')
def vec_push(ctx):
    r, v = cellof(ctx, ctx.args[0])
    if v is None or v[0] != 'lst':
        return NotImplemented
    it, st = ctx.it, ctx.st
    n = lst_add(ctx, v, [ctx.args[1]])
    it.store(st, ('cell', r[1], r[2]), n)
    return ctx.ret(UNIT)


def lst_add(ctx, v, vals):
    """The list v with more elements, or with the elements of further lists, at its end."""
    it, st = ctx.it, ctx.st
    for x in vals:
        try:
            if not it.values:
                sp = None
            elif x[0] == 'lst':
                sp = (x[1], x[2]) if x[1] is not None else None
            else:
                sp = span_of(it, st, x)
            more = x[3] if x[0] == 'lst' else 1
            if sp is None:
                v = ('lst', v[1], v[2], v[3] or more)
            elif v[1] is None:
                v = ('lst', sp[0], sp[1], 1 if v[3] or more else 0)
            elif v[2] == sp[0]:
                v = ('lst', v[1], sp[1], v[3] or more)
            else:
                raise Gap('an element is added to a list it does not follow')
        except Gap as g:
            it.gaps.append((ctx.body['path'], ctx.line, str(g)))
            v = ('lst', v[1], v[2], 1)
    return v


@over('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec', 'core::slice::<impl [T]>::into_vec')
def into_list(ctx):
    b = ctx.args[0]
    if b[0] != 'box':
        return NotImplemented
    v = ctx.it.load(ctx.st, ('cell', b[1], ()))
    while v[0] == 'a':
        v = [x for x in v[3] if x is not None][0]
    if v[0] != 'arr':
        return NotImplemented
    return ctx.ret(lst_add(ctx, ('lst', None, None, 0), v[1]))


@over('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', 'std::vec::Vec::<T, A>::append')
def lst_extend(ctx):
    r, v = cellof(ctx, ctx.args[0])
    if v is None or v[0] != 'lst':
        return NotImplemented
    q, o = (None, ctx.args[1]) if ctx.args[1][0] != 'ref' else cellof(ctx, ctx.args[1])
    if o is None or o[0] != 'lst':
        return NotImplemented
    n = lst_add(ctx, v, [o])
    ctx.it.store(ctx.st, ('cell', r[1], r[2]), n)
    if q is not None:
        ctx.it.store(ctx.st, ('cell', q[1], q[2]), ('lst', None, None, 0))
    return ctx.ret(UNIT)


SHRINK = ['std::vec::Vec::<T, A>::' + x for x in ('retain', 'retain_mut', 'dedup_by_key', 'dedup_by', 'dedup', 'truncate', 'clear', 'drain')] \
    + ['core::slice::<impl [T]>::' + x for x in ('reverse', 'swap', 'rotate_left', 'rotate_right')] \
    + ['std::slice::<impl [T]>::' + x for x in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key')] \
    + ['std::vec::Vec::<T, A>::' + x for x in ('pop', 'remove', 'swap_remove', 'insert', 'split_off')]


@over(*SHRINK)
def lst_shrink(ctx):
    """Elements are taken out of a list, or put elsewhere in it."""
    r, v = cellof(ctx, ctx.args[0])
    if v is None or v[0] != 'lst':
        return NotImplemented
    if v[1] is None and ctx.it.values:
        return NotImplemented
    name = ctx.fty.get('rp', ctx.fty.get('p')).rsplit('::', 1)[1]
    ctx.it.gaps.append((ctx.body['path'], ctx.line, 'elements of a list that was read are dropped or moved (%s)' % name))
    if ctx.it.T[ctx.retty()]['s'] != '()':
        raise Unsupported('list method ' + name)
    return ctx.ret(UNIT)


@over('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def lst_len(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] != 'lst':
        return NotImplemented
    if not v[3]:
        return ctx.ret(('i', 0))
    return ctx.ret(('op', ('listlen', v[1], v[2], v[3]), (), None))


@over('<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice')
def lst_mut(ctx):
    r, v = cellof(ctx, ctx.args[0])
    if v is None or v[0] != 'lst':
        return NotImplemented
    return ctx.ret(r)


@over('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def lst_is_empty(ctx):
    v = ctx.deref(ctx.args[0])
    if v[0] != 'lst':
        return NotImplemented
    return ctx.ret(('b', int(not v[3])))


@over('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::vec::Vec::<T, A>::into_boxed_slice')
def lst_same(ctx):
    v = ctx.deref(ctx.args[-1])
    if v[0] != 'lst':
        return NotImplemented
    return ctx.ret(v)


ADAPTERS = {'Rev': 'put in the reverse order', 'Take': 'dropped (take)', 'Skip': 'dropped (skip)', 'Filter': 'dropped (filter)', 'StepBy': 'dropped (step_by)',
            'TakeWhile': 'dropped (take_while)', 'SkipWhile': 'dropped (skip_while)'}


def through_adapters(ctx, v):
    """The list behind iterator adapters; one that drops or moves elements is a gap."""
    while v[0] == 'a' and v[1] is not None:
        n = ctx.it.T[v[1]].get('p', '').rsplit('::', 1)[-1]
        inner = [x for x in v[3] if x is not None and x[0] in ('a', 'lst')]
        if n not in ADAPTERS and n not in ('Fuse', 'Peekable') or len(inner) < 1:
            return None
        if n in ADAPTERS:
            ctx.it.gaps.append((ctx.body['path'], ctx.line, 'elements of a list that was read are ' + ADAPTERS[n]))
        v = inner[0]
    return v if v[0] == 'lst' else None


@over('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter', 'std::iter::Iterator::collect')
def lst_collect(ctx):
    v = through_adapters(ctx, ctx.deref(ctx.args[-1]))
    if v is None or 'Vec<' not in ctx.it.T[ctx.retty()]['s']:
        return NotImplemented
    return ctx.ret(v)


@over('bumpalo::Bump::alloc_slice_fill_iter', 'std::vec::Vec::<T, A>::as_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
      'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def lst_ref(ctx):
    v = through_adapters(ctx, ctx.deref(ctx.args[-1]))
    if v is None:
        return NotImplemented
    return ctx.ret(('cref', v))


@over('bumpalo::Bump::alloc', 'bumpalo::Bump::alloc_with')
def arena_alloc(ctx):
    # what an immutable reference into the arena shows is the value itself
    return ctx.ret(('cref', ctx.args[1]))


def atoms(F, names, values, nonnull=()):
    A = Atoms(F, values, nonnull)
    out = {}
    for n, (t, b) in names.items():
        if n not in PLAIN:
            out[b['path']] = A.rule(n, t)
    for p in ('<parse::cst::error::WithLocation<\'a> as nom::error::ParseError<&\'a [lex::token::Token]>>::from_error_kind',
              '<parse::cst::error::WithLocation<\'a> as nom::error::ParseError<&\'a [lex::token::Token]>>::append',
              '<parse::cst::error::WithLocation<\'a> as nom::error::ParseError<&\'a [lex::token::Token]>>::or',
              'parse::cst::error::Error::with_location'):
        out[p] = opaque_error
    return out


def project(ctx):
    """What the user of a rule sees of its result: where it stopped, or how it failed."""
    v = ctx.deref(ctx.args[0])
    it = ctx.it
    if v[2] == 0:
        tup = v[3][0]
        return ctx.ret(('tup', 'ok', tup[3][0]))
    e = v[3][0]
    return ctx.ret(('tup', it.T[e[1]]['v'][e[2]]['n']))


def client(it, rule, view='$project'):
    """Body: view(rule(input, arena), input)."""
    unit = it.F.ty_by_str('()')
    L = lambda n, *p: [n, list(p)]
    T = it.T

    def fn_type(path, inst=None):
        t = {'s': path, 'k': 'fndef', 'p': path, 'kr': '$client'}
        if inst is not None:
            t['inst'] = inst
        T.append(t)
        return len(T) - 1

    def call(fty, args, dest, tgt):
        return [[], ['call', ['k', fty, ['fn']], args, L(dest), tgt, fty, 0, None, ''], 0]
    f = fn_type('$rule', rule['id'])
    p = fn_type(view)
    blocks = [call(f, [['c', L(1)], ['c', L(2)]], 3, 1), call(p, [['m', L(3)]] + ([['c', L(1)]] if view == '$tiles' else []), 0, 2), [[], ['ret'], 0]]
    bid = it.F.fresh()
    b = {'id': bid, 'path': '$client:' + rule['path'], 'kr': '$', 'ik': '', 'name': '$client', 'a': [], 'local': False, 'file': '', 'line': 0,
         'argc': 2, 'locals': [unit] + rule['locals'][1:3] + [rule['locals'][0]], 'names': [], 'blocks': blocks}
    it.B[bid] = b
    return b


def explore_rule(it, name, body, proj):
    st = St()
    st.ncell = 1
    b = client(it, body, '$project' if proj else '$tiles')
    st.frames.append(Frame(0, b['id'], 0, 0, None, None))
    i, e = st.sym('c'), st.sym('c')
    st.add_le(i, e)
    st.mem[('L', 0, 1)] = ('tok', i, e)
    st.mem[('L', 0, 2)] = ('cref', ('op', ('arena',), (), it.T[body['locals'][2]]['t']))
    st.mem[('K', 'input')] = ('tok', i, e)
    return it.explore(name, st)


def extract(F, values=False, only=None, names=None, nonnull=()):
    rs = rules(F)
    at = {n: rs[n] for n in rs if names is None or n in names}
    it = Interp(F, MODELS_P, atoms(F, at, values, nonnull))
    it.values = values
    it.gaps = []
    it.unsupported = {}
    it.atomic['$project'] = project
    it.atomic['$tiles'] = tiles
    tok = F.T[F.ty_by_str('lex::token::Token')]
    it.token_field = lambda path: tok['v'][0]['f'][path[0][1]][0] if len(path) == 1 and path[0][0] == 'f' else '?'
    graphs = {}
    for n, (t, b) in sorted(at.items()):
        if only and n not in only:
            continue
        try:
            graphs[n] = explore_rule(it, n, b, not values)
        except Unsupported as u:
            it.unsupported[n] = '%s %s' % (u, getattr(u, 'where', ''))
    unread(it, graphs)
    return it, graphs


# ------------------------------------------------------------------------------ facts about whole rules
def start_nodes(g):
    """node -> parameters that may be the position the rule started at (graphs in plain form)."""
    e = g['entry']
    out = {}

    def put(n, ps):
        old = out.get(n)
        if old is None:
            out[n] = set(ps)
            return True
        if set(ps) <= old:
            return False
        old |= set(ps)
        return True
    todo = [e[0]]
    put(e[0], [i for i, p in enumerate(e[1]) if p == ['$', 'c', 1]])
    return out, todo, put


def may_start(g, nullable):
    """Parameters of each node that may still be the rule's starting position."""
    out, todo, put = start_nodes(g)
    while todo:
        n = todo.pop()
        kind, desc, edges, npar = g['nodes'][str(n)]
        cur = out[n]
        for l, t, m, d in edges:
            new = {}
            for k, v in d:
                if v[0] == 'end' and v[1] in nullable and v[2][2] in cur:
                    new[tuple(k)] = True
            ps = []
            for j, p in enumerate(m):
                p = tuple(p)
                if p in new or p[1] == 'c' and p[2] in cur and p[2] < npar:
                    ps.append(j)
            if put(t, ps):
                todo.append(t)
    return out


def attributes(gs):
    """Least fixpoints over all rules: which may succeed on nothing, may fail, may fail for good."""
    nullable, canfail, cancut, canok = set(), set(), set(), set()

    def walk(g):
        """Reachable nodes given what the other rules can do."""
        seen, todo = set(), [g['entry'][0]]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            kind, desc, edges, npar = g['nodes'][str(n)]
            for l, t, m, d in edges:
                if kind == 'parse' and desc[1] in gs:
                    ok = {'ok': desc[1] in canok, 'fail': desc[1] in canfail, 'cut': desc[1] in cancut}[l]
                    if not ok:
                        continue
                todo.append(t)
        return seen
    changed = True
    while changed:
        changed = False
        for n, g in gs.items():
            seen = walk(g)
            for x in seen:
                kind, desc, edges, npar = g['nodes'][str(x)]
                if kind != 'ret':
                    continue
                s = {'ok': canok, 'Error': canfail, 'Failure': cancut}.get(desc[1])
                if s is not None and n not in s:
                    s.add(n)
                    changed = True
    changed = True
    while changed:
        changed = False
        for n, g in gs.items():
            if n in nullable:
                continue
            seen = walk(g)
            st = may_start(g, nullable)
            for x in seen:
                kind, desc, edges, npar = g['nodes'][str(x)]
                if kind == 'ret' and desc[1] == 'ok' and desc[2][1][2] in st.get(x, ()):
                    nullable.add(n)
                    changed = True
                    break
    return {'nullable': nullable, 'fail': canfail, 'cut': cancut, 'ok': canok}


def recogniser_form(gs, attrs):
    """Graphs as the equivalence engine takes them: a rule succeeds with an end, or fails; failing for good ends everything."""
    out = {}
    for n, g in gs.items():
        nodes = {}
        end = g['nodes']
        dead = str(len(end))
        for k, (kind, desc, edges, npar) in end.items():
            if kind == 'parse':
                e2 = []
                for l, t, m, d in edges:
                    if l == 'cut':
                        continue
                    if l == 'fail' and desc[1] in gs and desc[1] not in attrs['fail'] or l == 'ok' and desc[1] in gs and desc[1] not in attrs['ok']:
                        e2.append([l, int(dead), [], []])
                    else:
                        e2.append([l, t, m, d])
                nodes[k] = ['call', ['call', desc[1], [['str', desc[2], desc[3]]]], e2, npar]
            elif kind == 'ret':
                if desc[1] == 'ok':
                    a, e = desc[2][1], desc[2][2]
                    v = ['a', 'opt', 1, [['a', 'tup', 0, [['str', a, a], ['str', a, e]]]]]
                    nodes[k] = ['ret', v, [], npar]
                elif desc[1] == 'Error':
                    nodes[k] = ['ret', ['a', 'opt', 0, []], [], npar]
                else:
                    nodes[k] = ['panic', 'failure for good', [], npar]
            else:
                nodes[k] = [kind, desc, edges, npar]
        nodes[dead] = ['dead', None, [], 0]
        out[n] = {'entry': g['entry'], 'nodes': nodes}
    return out


if __name__ == '__main__':
    import sys, time, json
    from session import Session
    import bisim
    F = Session().FULL
    t = time.time()
    vals = '-v' in sys.argv
    only = [a for a in sys.argv[1:] if a != '-v']
    it, gs = extract(F, vals, only or None)
    for n, g in gs.items():
        print(n, len(g.nodes), it.steps)
        if only:
            for x in g.nodes.values():
                print('  ', x.id, x.kind, x.desc, [(l, t, m, d) for l, t, m, d in x.edges])
    print(len(gs), len(it.unsupported))
    from collections import Counter
    for k, c in Counter(v[:150] for v in it.unsupported.values()).most_common(12):
        print(c, k, [n for n, v in it.unsupported.items() if v[:150] == k][:3])
    print(it.unmodelled)
    print(it.gaps)
    print([(k, v) for k, v in it.obl.items() if not v[0]])
    print(time.time() - t)
    if vals:
        for n, g in gs.items():
            for x in g.nodes.values():
                if x.kind == 'ret' and x.desc[1] == 'ok' and x.desc[3]:
                    print('TILE', n, x.desc)
                if x.kind == 'panic':
                    print('PANIC', n, x.desc)
    if not vals and not only:
        p = json.loads(json.dumps(bisim.to_graphs(gs)))
        a = attributes(p)
        print('nullable', sorted(a['nullable']))
        print('nofail', sorted(set(p) - a['fail']))
        print('cut', sorted(a['cut']))
        print(time.time() - t)
        t = time.time()
        it, gs = extract(F, nonnull=set(p) - a['nullable'])
        print('strict', time.time() - t, sorted((len(g.nodes), n) for n, g in gs.items())[-8:])
        p = json.loads(json.dumps(bisim.to_graphs(gs)))
        t = time.time()
        b = attributes(p)
        print(a == b, time.time() - t)
        t = time.time()
        r = recogniser_form(p, b)
        c = bisim.Compare(r, r)
        print(c.run(['Text'])[:3], c.states, time.time() - t)
