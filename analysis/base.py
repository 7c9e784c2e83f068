"""What the property checks share."""
import bisim
import charset as CS
import monitor
from interp import Unsupported

PROPS = {}

TRUSTED = [
    'rustc nightly (type checking, trait resolution and MIR construction) and the facts driver in /verif/driver',
    'the abstract interpreter of MIR in /verif/analysis/interp.py with its models of core/alloc functions (models.py, models/)',
]


class Prop:
    def __init__(self, pid, check, rule, level='proof', trusted=(), assumptions=()):
        self.pid, self.check, self.rule, self.level = pid, check, rule, level
        self.trusted, self.assumptions = list(trusted), list(assumptions)
        PROPS[pid] = self


def show_set(s):
    out = []
    for a, b in s[:12]:
        c = lambda x: chr(x) if 32 < x < 127 else 'U+%04X' % x
        out.append(c(a) if a == b else '%s-%s' % (c(a), c(b)))
    return '{%s%s}' % (' '.join(out), ' ...' if len(s) > 12 else '')


def show_term(t):
    if type(t) is not tuple:
        return str(t)
    if t and t[0] == 'chin':
        return 'char at %s in %s' % (show_cur(t[1]), show_set(t[2]))
    if t and t[0] == 'eqc':
        return '%s = %s' % (show_cur(t[1]), show_cur(t[2]))
    if t and t[0] == 'ltc':
        return '%s < %s' % (show_cur(t[1]), show_cur(t[2]))
    if t and t[0] == 'call':
        return '%s(%s)' % (t[1], ', '.join(show_cur(x) for x in t[2]))
    return show_cur(t)


def show_cur(c):
    if type(c) is not tuple:
        return str(c)
    if len(c) == 2 and c[0] == 'in':
        return {0: 'start', 1: 'end'}.get(c[1], 'p%s' % c[1])
    if c and c[0] == 'cur' and len(c) > 1:
        if c[1] == 'succ':
            return 'after(%s)' % show_cur(c[2])
        if c[1] == 'pred':
            return 'before(%s)' % show_cur(c[2])
        if c[1] == 'end':
            return 'end of %s at %s' % (c[2], show_cur(c[3]))
    if len(c) == 3 and c[0] == 'str':
        return '%s..%s' % (show_cur(c[1]), show_cur(c[2]))
    s = '(%s)' % ' '.join(show_cur(x) for x in c)
    return s if len(s) < 160 else s[:157] + '...'


def show_mismatch(m):
    lines = ['%s when:' % m.why]
    for t, a in m.trail[-10:]:
        lines.append('    %s -> %s' % (show_term(t), a if not isinstance(a, tuple) else ','.join(map(str, a))))
    lines.append('  now:      %s' % show_term(m.left))
    lines.append('  expected: %s' % show_term(m.right))
    return '\n'.join(lines)


def undecided(m):
    return str(m.why).startswith('no proof')


def unproved(it):
    """Arithmetic, slicing and indexing the interpreter met that may panic: [(where, kind, info)]."""
    return [('%s:%s (%s)' % (f, line, p), kind, v[1]) for (p, f, kind, line), v in it.obl.items() if not v[0]]


def monitored(R, what, states, bad, cats, key=''):
    """Report the violations of a monitor that fall under `cats`."""
    mine = [b for b in bad if b[0] in cats]
    R.stats[what + ' states'] = states
    if not mine:
        R.ok('%s: no path reaches %s (%d product states)' % (what, '/'.join(cats), states), n=1)
        R.obligations += states - 1
        R.discharged += states - 1
    for cat, msg, path in mine:
        R.fail('%s%s:%s' % (key, cat, msg), '%s: %s\n%s' % (what, msg, '\n'.join('    ' + p for p in path)))
