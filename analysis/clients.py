"""Most general clients: an object is built and then used for ever in every possible order.

The graph of a client is the complete behaviour of the object as its user can observe it: what each call
returns, as a function of the text and of the calls before.  The representation of the object's state does
not appear in it."""
from harness import *


def fn_type(it, path, inst=None):
    """A function type naming `path` (bodies by id, models by name)."""
    T = it.T
    for i, t in enumerate(T):
        if t.get('k') == 'fndef' and t.get('p') == path and t.get('inst') == inst and t.get('kr') == '$client':
            return i
    t = {'s': path, 'k': 'fndef', 'p': path, 'kr': '$client'}
    if inst is not None:
        t['inst'] = inst
    T.append(t)
    return len(T) - 1


def emit(ctx):
    what = ctx.args[0]
    v = ctx.it.snapshot(ctx.st, what)
    tag = ctx.fty['p'][6:]
    raise Decision(('eff', 'emit', tag, v), [('', lambda s: ctx.again(s).ret(UNIT))])


def choose(ctx):
    n = ctx.fty['n']
    d = ctx.st.terms.pop(('ndp',), None)
    if d is not None:
        return ctx.ret(('i', d))
    raise Decision(('choose',), [(lab, ctx.it.nd_set(i)) for i, lab in enumerate(n)])


def client(it, init, methods, argc=1):
    """Body: o = init(args); loop { choose m; r = m(&mut o); emit r }.  methods: [(label, body, extra operand types)]."""
    T = it.T
    unk = it.F.ty_by_str('()')
    oty = init['locals'][0]
    # locals: 0 ret, 1..argc args, then object, ref, choice, results
    obj = argc + 1
    ref, cho, unit = obj + 1, obj + 2, obj + 3
    res0 = obj + 4
    L = lambda n, *p: [n, list(p)]
    c = lambda n: ['c', L(n)]
    blocks = []

    def call(fty, args, dest, tgt, stmts=()):
        return [list(stmts), ['call', ['k', fty, ['fn']], args, L(dest), tgt, fty, 0, None, ''], 0]
    it_u = unk
    blocks.append(call(fn_type(it, init['path'], init['id']), [c(i + 1) for i in range(init['argc'])], obj, 1))
    labs = tuple(m[0] for m in methods)
    ch = fn_type(it, '$choose')
    T[ch] = {'s': '$choose', 'k': 'fndef', 'p': '$choose', 'kr': '$client', 'n': labs}
    locs = [unk] + [init['locals'][i + 1] for i in range(init['argc'])] + [oty, unk, unk, unk]
    if len(methods) > 1:
        blocks.append(call(ch, [], cho, 2))
        blocks.append(None)
    else:
        blocks.append([[], ['goto', 2], 0])
        blocks.append(None)
    starts = []
    for k, (lab, body, extra) in enumerate(methods):
        b0 = len(blocks)
        starts.append(b0)
        r = res0 + k
        locs.append(body['locals'][0])
        mut = T[body['locals'][1]].get('m', True)
        blocks.append(call(fn_type(it, body['path'], body['id']), [c(ref)], r, b0 + 1, [['=', L(ref), ['ref', L(obj), mut], 0]]))
        e = fn_type(it, '$emit:' + lab)
        blocks.append(call(e, [c(r)], unit, 1))
        it.atomic['$emit:' + lab] = emit
    it.atomic['$choose'] = choose
    if len(methods) > 1:
        blocks[2] = [[], ['switch', c(cho), [[i, s] for i, s in enumerate(starts[:-1])], starts[-1], unk], 0]
    else:
        blocks[2] = [[], ['goto', starts[0]], 0]
    bid = it.F.fresh()
    b = {'id': bid, 'path': '$client:' + init['path'], 'kr': '$', 'ik': '', 'name': '$client', 'a': [], 'local': False, 'file': '', 'line': 0,
         'argc': init['argc'], 'locals': locs, 'names': [], 'blocks': blocks}
    it.B[bid] = b
    return b


def method(F, oty, name):
    """The body of method `name` taking (a reference to) the type `oty` first."""
    out = []
    for b in F.B.values():
        if not b['local'] or b.get('closure') or b['argc'] < 1:
            continue
        if not (b['path'].endswith('::' + name)):
            continue
        t = F.T[b['locals'][1]]
        while t['k'] == 'ref':
            t = F.T[t['t']]
        if t.get('p') == F.T[oty].get('p'):
            out.append(b)
    return out[0] if out else None
