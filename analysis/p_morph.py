"""Morphology: the recognisers against their frozen specification (M)."""
import re

from base import *

ROOTS = ['nucleus', 'gismu', 'fuhivla', 'lujvo_minimal', 'cmavo_minimal', 'explicitly_stressed_brivla_minimal', 'cmevla']
ROOT_GROUP = {'nucleus': 'M02', 'gismu': 'M07', 'fuhivla': 'M09', 'lujvo_minimal': 'M08', 'cmavo_minimal': 'M05',
              'explicitly_stressed_brivla_minimal': 'M08', 'cmevla': 'M06'}


def group(n):
    n = n.split('::')[-1]
    if re.fullmatch(r'[bcdfgjklmnprstvxz]|consonant|voiced|unvoiced|sibilant|liquid|syllabic|affricate|other', n):
        return 'M01'
    if re.fullmatch(r'[aeiouyh]|vowel|vowel_y|diphthong|nucleus|glide|digit|comma|commas|space_char', n):
        return 'M02'
    if re.search(r'stress', n) and 'brivla' not in n and 'lujvo' not in n and 'gismu' not in n and 'fuhivla' not in n and 'rafsi' not in n:
        return 'M04'
    if re.search(r'cmavo', n) or n in ('cvcy_lujvo', 'post_word', 'pause'):
        return 'M05'
    if re.search(r'cmevla', n) or n in ('eof',):
        return 'M06'
    if re.search(r'fuhivla|slinkuhi|rafsi_string|brivla_head', n):
        return 'M09'
    if re.search(r'gismu|rafsi|long|hyphen', n):
        return 'M07'
    if re.search(r'lujvo|brivla', n):
        return 'M08'
    return 'M03'


def groups(n):
    """The properties that speak of a recogniser: its own group's, and those that name it as a part."""
    out = {group(n)}
    n = n.split('::')[-1]
    if n in ('sibilant', 'other', 'affricate', 'liquid', 'syllabic'):
        out |= {'M01', 'M03'}
    if 'rafsi' in n:
        out |= {'M07', 'M08'}
    if n == 'rafsi_string':
        out -= {'M08'}
    if n.startswith('explicitly_stressed') and re.search('gismu|fuhivla|brivla', n):
        out |= {'M08'}
    if n.startswith('final_syllable'):
        out |= {'M07', 'M09'}
    if n in ('unstressed_syllable', 'stressed_syllable', 'consonantal_syllable'):
        out |= {'M09'}
    if n in ('unstressed_vowel', 'stressed_vowel', 'unstressed_diphthong', 'stressed_diphthong', 'initial_pair'):
        out |= {'M07'}
    if n == 'cvcy_lujvo':
        out |= {'M05', 'M08'}
    if n == 'cluster':
        out |= {'M03', 'M05'}
    return out


def path(n):
    return 'rules::' + n


def check(pid):
    def f(S, R):
        c, (hit, cause, lost) = S.rules_cmp()
        R.stats['joint states'] = c.states
        R.stats['recognisers compared'] = c.obligations
        mine = [n for n in S.reference('rules') if pid in groups(n)]
        R.floor('recognisers of the group', len([n for n in mine if n in c.cur]) + len([n for n in lost if pid in groups(n)]), max(1, len(mine) // 2), len([n for n in mine if n in S.rules()[0].unsupported]))
        uns = S.rules()[0].unsupported
        for n, why in sorted(uns.items()):
            if pid in groups(n) or ROOT_GROUP.get(n.split('::')[-1]) == pid:
                R.undecided(n, why)
        for n in lost:
            if ROOT_GROUP.get(n.split('::')[-1]) == pid and n not in uns:
                R.fail('lost:' + n, 'recogniser %s is gone' % n)
        reach = reaching(c, hit)
        for n in mine:
            m = cause.get(n)
            if m is None:
                R.ok(n)
            elif undecided(m):
                R.undecided(n, m.why)
            elif n in reach:
                R.fail('rule:' + n, '%s: its language changed; %s' % (S.where(n), show_mismatch(m)))
            else:
                R.ok(n + ' (changed, without effect on what users can call)')
        for n, m in sorted(hit.items()):
            if ROOT_GROUP.get(n.split('::')[-1]) != pid or n in mine and n in cause:
                continue
            if undecided(m):
                R.undecided(n, m.why)
            else:
                R.fail('root:' + n, '%s: accepts other texts, or other parts of them; %s' % (S.where(n), show_mismatch(m)))
    return f


def reaching(c, hit):
    """Recognisers on which a root depends that could not be shown to be unaffected."""
    out, todo = set(), list(hit)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        if n in c.A.g and n in c.B.g:
            todo += c.callees(n)
    return out


RULE = 'per recogniser: bisimulation of the behaviour graph extracted from the current source with the frozen specification graph (callees uninterpreted, unfolded where that does not decide)'
for p in ['M%02d' % i for i in range(1, 10)]:
    Prop(p, check(p), RULE)


def freeze(S):
    S.freeze('rules', S.rules_data())
