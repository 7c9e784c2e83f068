"""The segmentation of one chunk into words, over the recognisers."""
from rulesx import *
import harness


def find(F):
    single = [b for b in F.B.values() if b['local'] and not b.get('closure') and b['argc'] == 1
              and F.T[b['locals'][0]]['s'] == 'std::vec::Vec<span::Span>' and F.T[b['locals'][1]]['s'] == '&str']
    if len(single) != 1:
        raise Unsupported('segmentation of one chunk: %d candidates' % len(single))
    return single[0]


def build(F):
    names = {b['path'] for b in F.B.values() if is_rule(F, b)}
    it = Interp(F, MODELS, {p: rule_call(p) for p in names})
    return it, find(F)


if __name__ == '__main__':
    F = Facts('/verif/build/facts/sneturfahi.json')
    it, b = build(F)
    g = harness.explore(F, it, b)
    for n in g.nodes.values():
        print('  ', n.id, n.kind, str(n.desc)[:230], [(l, t, m) for l, t, m, d in n.edges])
    print(len(g.nodes), it.unmodelled, {k: v for k, v in it.obl.items()})
    import bisim, json
    d = json.loads(json.dumps(bisim.to_graphs({'x': g})))
    S = bisim.Side(d)
    e = bisim.Eq(S, S, names if False else set())
    print(e.check('x'), len(json.dumps(d)))
