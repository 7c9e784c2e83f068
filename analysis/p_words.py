"""Decomposer (D) and lexer (L) properties."""
import json

import bisim
import decmon
import decx
import harness
import lexmon
import lexx
import segx
from base import *
from interp import Unsupported
import charset as CS

COMMA = ((44, 44),)


# ------------------------------------------------------------------ engines
def words(S):
    return S.client('words', decx.build)


def words_plain(S):
    return S.client('words2', lambda F: decx.build(F, ('next', 'next_no_decomposition')))


def seg(S):
    return S.client('seg', segx.build)


def lexer(S):
    return S.client('lexer', lexx.build)


def solid(S):
    return S.once('solid', lambda: decmon.solid_rules(*S.rules()))


def word_mon(S):
    def f():
        it, g, _ = words(S)
        m = decmon.WordMonitor(it)
        n, bad = m.run(g)
        return n, bad, len(m.segments)
    return S.once('word_mon', f)


def seg_mon(S):
    def f():
        it, g, _ = seg(S)
        return decmon.SegMonitor(it, solid(S)[0]).run(g)
    return S.once('seg_mon', f)


def lex_mon(S):
    def f():
        it, g, _ = lexer(S)
        return lexmon.LexMonitor(S.F).run(g)
    return S.once('lex_mon', f)


def compare(S, name, cur):
    """All differences of one client graph from the frozen one: (states, [Mismatch])."""
    def f():
        A, B = bisim.Side({name: cur[name]}), bisim.Side({name: S.reference(name)})
        return bisim.differ(A, B, set(), name, 200000, 80)
    return S.once('cmp:' + name, f)


def seg_cmp(S):
    def f():
        cur, ref = dict(S.rules_data()), dict(S.reference('rules'))
        for p in S.rules()[0].unsupported:
            cur.pop(p, None)
            ref.pop(p, None)
        cur['$seg'], ref['$seg'] = seg(S)[2]['seg'], S.reference('seg')
        c = bisim.Compare(ref, cur)
        common = (set(c.A.g) & set(c.B.g)) - {'$seg'}
        n, out = bisim.differ(c.A, c.B, common | set(S.rules()[0].unsupported), '$seg', 200000, 80)
        return n, [m for m in out if undecided(m) or not commas_only(m.trail, solid(S)[0])]
    return S.once('seg_cmp', f)


def commas_only(trail, names):
    """The path looked at characters and found only commas: excluded by the precondition of segmentation."""
    tested = False
    for t, a in trail:
        if t[0] == 'chin':
            tested = True
            if (a == 'T' and not CS.inter(t[2], COMMA)) or (a == 'F' and CS.inter(t[2], COMMA) == COMMA):
                return False
        if t[0] == 'call' and a == 'ok' and t[1] in names:
            return False
    return tested


def differences(R, what, cmp, want, where):
    states, ms = cmp
    R.stats[what + ' joint states'] = states
    hit = 0
    for m in ms:
        if undecided(m):
            R.undecided(what, m.why)
            hit += 1
        elif want(m):
            hit += 1
            R.fail('%s:%s' % (what, hit), '%s, %s' % (where, show_mismatch(m)))
            if hit > 8:
                break
    if not hit:
        R.ok('%s agrees with its specification graph on every path (%d joint states)' % (what, states))
        R.obligations += states
        R.discharged += states


def where(S, p):
    return S.where(p)


DEC = 'decompose::decompose'


def chose(trail, which):
    return any(t == ('choose',) and a == which for t, a in trail)


# ------------------------------------------------------------------ D
def d01(S, R):
    n, bad, k = word_mon(S)
    R.floor('sites that split a chunk', k, 1)
    monitored(R, 'word iterator', n, bad, ('bounds', 'order', 'fused'))
    n, bad = seg_mon(S)
    monitored(R, 'segmentation', n, bad, ('bounds', 'order'))


def d02(S, R):
    n, bad = seg_mon(S)
    monitored(R, 'segmentation', n, bad, ('lost',))
    differences(R, 'word iterator', compare(S, 'words2', words_plain(S)[2]), lambda m: not chose(m.trail, 'next_no_decomposition') and lost_text(m.trail), where(S, DEC))


def lost_text(t):
    return any(x[0] == 'eff' and 'segment' in x for x, a in t) or any(x[0] == 'ask' for x, a in t)


def d03(S, R):
    names, k = solid(S)
    R.stats['recognisers whose matches hold a non-comma'] = len(names)
    n, bad, k = word_mon(S)
    monitored(R, 'word iterator', n, bad, ('empty',))
    n, bad = seg_mon(S)
    monitored(R, 'segmentation', n, bad, ('empty',))


def d04(S, R):
    differences(R, 'word iterator', compare(S, 'words2', words_plain(S)[2]), lambda m: not chose(m.trail, 'next_no_decomposition'), where(S, DEC))


def d05(S, R):
    n, bad, k = word_mon(S)
    monitored(R, 'word iterator', n, bad, ('hint',))


def whole(m):
    """One of the two sides takes the chunk as a whole, without looking for words in it."""
    looked = {w for (x, a), ws in zip(m.trail, m.who) for w in ws if x[0] == 'call'}
    return len(looked) < 2


def d06(S, R):
    differences(R, 'segmentation', seg_cmp(S), whole, where(S, segx.find(S.F)['path']))


def d07(S, R):
    differences(R, 'word iterator', compare(S, 'words2', words_plain(S)[2]), lambda m: chose(m.trail, 'next_no_decomposition'), where(S, DEC))


def d08(S, R):
    differences(R, 'segmentation', seg_cmp(S), lambda m: not whole(m), where(S, segx.find(S.F)['path']))


MON = 'product of the behaviour graph (every path, loops included, over a symbolic text) with a safety monitor'
BIS = 'bisimulation of the behaviour graph extracted from the current source with the frozen specification graph'
Prop('D01', d01, MON)
Prop('D02', d02, MON + '; ' + BIS)
Prop('D03', d03, MON + '; induction over the recogniser call graph for non-comma matches')
Prop('D04', d04, BIS)
Prop('D05', d05, MON)
Prop('D06', d06, BIS)
Prop('D07', d07, BIS)
Prop('D08', d08, BIS)


# ------------------------------------------------------------------ L
def lex_prop(pid, cats):
    def check(S, R):
        n, bad = lex_mon(S)
        monitored(R, 'lexer', n, bad, cats)
    Prop(pid, check, MON)


lex_prop('L01', ('fused',))
lex_prop('L02', ('faho', 'early'))
lex_prop('L03', ('quote', 'count'))
lex_prop('L04', ('sequence',))
lex_prop('L06', ('provenance',))
lex_prop('L07', ('error',))
lex_prop('L08', ('verbatim',))


def l05(S, R):
    def want(m):
        asks = [x for x, a in m.trail if x[0] == 'ask']
        return bool(asks) and 'raw' in asks[-1]
    differences(R, 'lexer', compare(S, 'lexer', lexer(S)[2]), want, where(S, 'lex::lex'))


Prop('L05', l05, BIS)


def freeze(S):
    S.freeze('words2', words_plain(S)[2]['words2'])
    S.freeze('seg', seg(S)[2]['seg'])
    S.freeze('lexer', lexer(S)[2]['lexer'])
