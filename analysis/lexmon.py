"""What a lexer must do, as a monitor of its behaviour graph.

Monitor states (input start first; words are pairs of cursors):
  N        between tokens
  W        a word was taken: V = what its class may be, out = it was handed out, d = the delimiter taken after it
  P        inside a pause-delimited quote
  Q        inside a delimited quote: n quotes left (None: not settled), first, I, D, body, r = last raw word, sent
  X        over, for a reason
"""
from monitor import Bad, product, LOST
from interp import lin, is_sym

DELIM1 = frozenset(('Zoi', 'Muhoi'))
DELIM2 = frozenset(('Sohehai',))
PAUSE = frozenset(('Mehoi', 'Zohoi', 'Dohoi'))
STOP = frozenset(('Faho', 'Fahoho'))
SPECIAL = DELIM1 | DELIM2 | PAUSE | STOP


class LexMonitor:
    def __init__(self, F):
        self.F = F
        t = [x for x in F.T if x.get('p') == 'lex::selmaho::Selmaho']
        self.names = [v['n'] for v in t[0]['v']]
        e = [x for x in F.T if x.get('p') == 'lex::Error'][0]
        self.errors = {v['n']: v['n'] for v in e['v']}
        self.err_fields = {v['n']: sorted(f[0] for f in v['f']) for v in e['v']}
        tok = [x for x in F.T if x.get('p') == 'lex::token::Token'][0]
        self.tok = sorted(f[0] for f in tok['v'][0]['f'])
        sp = [x for x in F.T if x.get('p') == 'span::Span'][0]
        self.span_f = sorted(f[0] for f in sp['v'][0]['f'])
        self.all = frozenset(self.names)
        self.emits = {}

    def run(self, g):
        i = g.args[0][1]
        return product(g, ('N', i), self.step)

    # ---- reading values
    def span(self, i, w):
        """Is value v the span of word w?"""
        return lin(0, ((w[0], 1), (i, -1))), lin(0, ((w[1], 1), (i, -1)))

    def read_span(self, v):
        if v[0] != 'a':
            return None
        d = dict(zip(self.span_f, v[3]))
        return d.get('start'), d.get('end')

    def is_span(self, v, i, w):
        return w is not None and LOST not in w and self.read_span(v) == self.span(i, w)

    def token(self, v):
        d = dict(zip(self.tok, v[3]))
        return d['experimental'], d['selmaho'], d['span']

    def const_sel(self, v):
        return v[2] if v[0] == 'a' else None

    # ---- one step
    def step(self, m, node, e):
        k = node.kind
        if k == 'panic':
            raise Bad('panic', 'the lexer panics: %r' % (node.desc,))
        if k == 'ask':
            new = None
            if e[0] == 'some':
                d = {v[3]: s for s, v in e[3].items() if v[0] == 'word'}
                new = (d.get(0, LOST), d.get(1, LOST))
            return self.ask(m, node.desc[2], new)
        if k == 'variant':
            term = node.desc[1]
            if m[0] == 'W' and term[0] == 'op' and term[1][0] == 'class' and m[2] == (term[1][1], term[1][2]):
                V = m[3] & frozenset(e[0])
                return m[:3] + (V,) + m[4:]
            return m
        if k == 'eff' and node.desc[1] == 'emit':
            return self.emit(m, node.desc[3])
        return m

    def ask(self, m, how, new):
        if m[0] == 'X':
            return m            # what is taken after the end cannot be seen unless it is handed out
        m = self.settle(m, how)
        if m[0] == 'X':
            return m
        i = m[1]
        if m[0] == 'N':
            if how != 'next':
                raise Bad('quote', 'outside any quote, text is taken without being split into words')
            if new is None:
                return ('X', i, 'end')
            return ('W', i, new, self.all, False, None)
        if m[0] == 'W':
            # the delimiter of a quote
            if how != 'next':
                raise Bad('quote', 'the word after a quote initiator is not split as a word')
            if m[5] is not None:
                raise Bad('quote', 'more than one word is taken as starting delimiter')
            return m[:5] + (new if new is not None else 'eof',)
        if m[0] == 'P':
            if how != 'raw':
                raise Bad('verbatim', 'the text of a pause-delimited quote is split into words')
            if new is None:
                return ('E', i, 'PauseDelimitedQuoteEof', (('initiator_span', m[2]),))
            return ('T', i, new)
        if m[0] == 'Q':
            _, _, n, first, I, D, body, r, sent = m
            if how != 'raw':
                raise Bad('verbatim', 'text within a delimited quote is split into words')
            if sent:
                raise Bad('sequence', 'more text is taken before the closing delimiter was handed out')
            if r is not None:
                body = (body[0] if body else r[0], r[1])
            if new is None:
                return ('E', i, 'DelimitedQuoteUnclosed', (('initiator_span', I), ('starting_delimiter_span', D)))
            return ('Q', i, n, first, I, D, body, new, 0)
        if m[0] == 'E':
            return m
        if m[0] == 'T':
            raise Bad('sequence', 'more text is taken before the text of a pause-delimited quote was handed out')
        raise Bad('sequence', 'unexpected request in state %s' % (m[0],))

    def settle(self, m, how):
        """A word was handed out; what may follow depends on its class."""
        if m[0] != 'W':
            return m
        _, i, w, V, out, d = m
        if d is not None and d != 'eof' and out:
            if not V <= DELIM1 | DELIM2:
                raise Bad('quote', 'a word that is %s starts a delimited quote' % self.show(V - DELIM1 - DELIM2))
            n = 2 if V <= DELIM2 else 1 if V <= DELIM1 else None
            if n is None:
                raise Bad('count', 'the number of quotes does not depend on the initiator')
            return ('Q', i, n, True, w, d, None, None, 0)
        if d == 'eof':
            if not V <= DELIM1 | DELIM2:
                raise Bad('quote', 'a word that is %s starts a delimited quote' % self.show(V - DELIM1 - DELIM2))
            return ('E', i, 'DelimitedQuoteMissingSeparator', (('initiator_span', w),))
        if not out:
            if V <= DELIM1 | DELIM2:
                return m
            if d is None and how == 'next' and V & (DELIM1 | DELIM2):
                raise Bad('quote', 'a word that is %s starts a delimited quote' % self.show(V - DELIM1 - DELIM2))
            raise Bad('sequence', 'a word that is %s is dropped' % self.show(V - DELIM1 - DELIM2))
        if V <= STOP:
            return ('X', i, 'faho')
        if V & STOP:
            raise Bad('faho', "lexing goes on after a word that may be %s" % self.show(V & STOP))
        if not V & SPECIAL:
            return ('N', i)
        if V <= PAUSE:
            return ('P', i, w)
        if V <= DELIM1 | DELIM2:
            return m
        if how == 'raw':
            raise Bad('quote', 'a word that is %s starts a pause-delimited quote' % self.show(V - PAUSE))
        raise Bad('quote', 'a word that may be %s does not start its quote' % self.show(V & SPECIAL))

    def show(self, V):
        V = sorted(V)
        return ', '.join(V[:6]) + (' ... (%d)' % len(V) if len(V) > 6 else '')

    def emit(self, m, v):
        i = m[1]
        if m[0] == 'W' and m[4]:
            # the word before this one was handed out already
            m2 = self.settle(m, 'emit') if m[3] <= SPECIAL or not m[3] & SPECIAL else m
            if m2 is m:
                if m[3] & STOP:
                    raise Bad('faho', 'lexing goes on after a word that may be %s' % self.show(m[3] & STOP))
                raise Bad('sequence', 'something is handed out right after a word that may be %s' % self.show(m[3] & SPECIAL))
            m = m2
        if v[2] == 0:
            if m[0] == 'X':
                return m
            if m[0] == 'E':
                raise Bad('error', 'the end is reported instead of the error %s' % m[2])
            if m[0] == 'N':
                raise Bad('early', 'the end is reported although more words may follow')
            raise Bad('sequence', 'the end is reported in the middle of a quote or before a word that was taken')
        r = v[3][0]
        if r[2] == 1:
            return self.error(m, r[3][0])
        return self.ok_token(m, r[3][0])

    def error(self, m, err):
        i = m[1]
        name = self.errors[err[2]]
        if m[0] == 'W' and m[5] == 'eof':
            m = self.settle(m, 'emit')
        if m[0] == 'X':
            raise Bad('faho' if m[2] == 'faho' else 'fused', 'an error is reported after the end (%s)' % m[2])
        if m[0] != 'E':
            raise Bad('error', 'the error %s is reported in state %s, where nothing is missing' % (name, m[0]))
        if name != m[2]:
            raise Bad('error', 'the error %s is reported instead of %s' % (name, m[2]))
        fs = dict(zip(self.err_fields[err[2]], err[3]))
        for f, w in m[3]:
            if f not in fs or not self.is_span(fs[f], i, w):
                raise Bad('error', 'field %s of %s is not the span of that word' % (f, name))
        return ('X', i, 'error')

    def ok_token(self, m, t):
        i = m[1]
        exp, sel, span = self.token(t)
        c = self.const_sel(sel)
        if m[0] == 'W':
            _, _, w, V, out, d = m
            if d == 'eof':
                raise Bad('error', 'a token is handed out although the delimiter after a quote initiator is missing')
            ok = sel == ('op', ('class',) + w, (('f', 0),)) + sel[3:] or (c is not None and V == {c})
            if not ok and c in ('ZoiDelimiter', 'AnyText'):
                raise Bad('sequence', 'a quote token is handed out where a word was due')
            if not ok:
                raise Bad('provenance', 'the token of a word has not the selmaho that classification gives')
            if exp[:3] != ('op', ('class',) + w, (('f', 1),)):
                raise Bad('provenance', 'the token of a word has not the experimental flag that classification gives')
            if not self.is_span(span, i, w):
                raise Bad('provenance', 'the token of a word has not the span of that word')
            return self.after_word(m[:4] + (True, d))
        if m[0] == 'T':
            if c != 'AnyText':
                raise Bad('sequence', 'the text of a pause-delimited quote is handed out as %s' % (c or 'a classified word'))
            if exp != ('b', 0):
                raise Bad('verbatim', 'quoted text is marked experimental')
            if not self.is_span(span, i, m[2]):
                raise Bad('verbatim', 'the text of a pause-delimited quote has not the span of the next piece of text')
            return ('N', i)
        if m[0] == 'Q':
            _, _, n, first, I, D, body, r, sent = m
            if r is None:
                raise Bad('sequence', 'a token of a delimited quote is handed out before its end was found')
            due = (['D'] if first else []) + (['B'] if body else []) + ['R']
            want = due[sent]
            kind = 'AnyText' if want == 'B' else 'ZoiDelimiter'
            what = {'D': 'starting delimiter', 'B': 'quoted text', 'R': 'closing delimiter'}[want]
            if c != kind:
                raise Bad('sequence', 'where the %s is due, %s is handed out' % (what, c or 'a classified word'))
            if exp != ('b', 0):
                raise Bad('verbatim', 'a quote token is marked experimental')
            w = {'D': D, 'B': body, 'R': r}[want]
            if not self.is_span(span, i, w):
                raise Bad('verbatim', 'the token of the %s has another span' % what)
            if want == 'R':
                if n > 1:
                    return ('Q', i, n - 1, False, I, r, None, None, 0)
                return ('N', i)
            return ('Q', i, n, first, I, D, body, r, sent + 1)
        if m[0] == 'X':
            raise Bad('faho' if m[2] == 'faho' else 'fused', 'a token is handed out after the end (%s)' % m[2])
        if m[0] == 'E':
            raise Bad('error', 'a token is handed out instead of the error %s' % m[2])
        raise Bad('sequence', 'a token is handed out in state %s without a word being taken' % m[0])

    def after_word(self, m):
        V, d = m[3], m[5]
        if d is not None:
            return self.settle(m, 'emit')
        return m


if __name__ == '__main__':
    import lexx, time
    from harness import *
    F = Facts('/verif/build/facts/sneturfahi.json')
    it, b = lexx.build(F)
    g = explore(F, it, b)
    t = time.time()
    n, bad = LexMonitor(F).run(g)
    print(n, time.time() - t)
    for b in bad:
        print(b[0], b[1])
        for p in b[2]:
            print('    ', p[:200])
