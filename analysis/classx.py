"""Classification of a word: the dictionary and the general order, over an arbitrary spelling normalisation."""
from rulesx import *
import harness


def find(F):
    out = [b for b in F.B.values() if b['local'] and not b.get('closure') and b['argc'] == 1
           and F.T[b['locals'][0]]['s'] == '(lex::selmaho::Selmaho, bool)' and F.T[b['locals'][1]]['s'] == '&str']
    if len(out) != 1:
        raise Unsupported('classification of a word: %d candidates' % len(out))
    return out[0]


def normaliser(F):
    return [b for b in F.B.values() if b['local'] and not b.get('closure') and b['argc'] == 2
            and F.T[b['locals'][0]]['s'] == 'std::option::Option<&str>' and F.T[b['locals'][1]]['s'] == '&str'
            and F.T[b['locals'][2]]['s'] == '&mut [u8]']


def normalised(ctx):
    s = ctx.deref(ctx.args[0])
    if s[0] != 'str':
        raise Unsupported('normalisation of %r' % (s[:1],))
    n = ctx.it.length(ctx.st, ctx.args[1])
    if n[0] == 'i':
        ctx.it.norm_room = getattr(ctx.it, 'norm_room', set()) | {n[1]}

    def some(st):
        c = ctx.again(st)
        a, b = st.sym('c', ('norm', s[1], s[2], 0)), st.sym('c', ('norm', s[1], s[2], 1))
        st.add_le(a, b)
        c.ret(c.option(('str', a, b)))

    def none(st):
        c = ctx.again(st)
        c.ret(c.option(None))
    raise Decision(('ask', 'norm', s[1], s[2]), [('some', some), ('none', none)])


def build(F):
    names = {b['path'] for b in F.B.values() if is_rule(F, b)}
    it = Interp(F, MODELS, {p: rule_call(p) for p in names})
    ns = normaliser(F)
    if len(ns) != 1:
        raise Unsupported('normalisation of a word: %d candidates' % len(ns))
    it.atomic[ns[0]['path']] = normalised
    return it, find(F)


if __name__ == '__main__':
    import time
    F = Facts('/verif/build/facts-words/sneturfahi.json')
    t = time.time()
    it, b = build(F)
    g = harness.explore(F, it, b)
    print(len(g.nodes), it.unmodelled, it.obl, time.time() - t)
    for n in list(g.nodes.values())[:8] + list(g.nodes.values())[-12:]:
        print('  ', n.id, n.kind, str(n.desc)[:230], [(l, t, m) for l, t, m, d in n.edges])
