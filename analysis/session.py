"""One run: the facts of /repo's current tree, the reference, and the engines, each computed once."""
import gzip
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import bisim
from interp import Facts, Unsupported

REPO = os.environ.get('REPO', '/repo')


class Broken(Exception):
    """The program under analysis could not be read (it does not build, an anchor is missing)."""


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, pats in ((REPO, None), (os.path.join(ROOT, 'driver'), None), (os.path.join(ROOT, 'models'), None)):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'discussions'))
            files += [os.path.join(d, f) for f in sorted(fs)]
    files.append(os.path.join(HERE, 'extract.sh'))
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


class Session:
    def __init__(self, tier='quick'):
        self.tier = tier
        self.memo = {}

    def get(self, name, make):
        if name not in self.memo:
            self.memo[name] = make()
        r = self.memo[name]
        if isinstance(r, Exception):
            raise r
        return r

    @property
    def F(self):
        """Facts of everything outside the parser."""
        return self.get('facts', lambda: self._facts('words', 'src/parse/'))

    @property
    def FULL(self):
        """Facts of the whole crate."""
        return self.get('full', lambda: self._facts('full', ''))

    def _facts(self, kind, skip):
        out = os.path.join(os.environ.get('BUILD_DIR') or os.path.join(ROOT, 'build'), 'facts-' + kind)
        stamp = os.path.join(out, 'stamp')
        os.makedirs(out, exist_ok=True)
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ''
        path = os.path.join(out, 'sneturfahi.json')
        if have != want or not os.path.exists(path):
            if os.path.exists(stamp):
                os.unlink(stamp)
            env = dict(os.environ, FACTS_SKIP=skip)
            r = subprocess.run(['bash', os.path.join(HERE, 'extract.sh'), out], capture_output=True, text=True, env=env)
            if r.returncode:
                # the parallel front end of rustc is experimental
                env['FACTS_THREADS'] = '1'
                r = subprocess.run(['bash', os.path.join(HERE, 'extract.sh'), out], capture_output=True, text=True, env=env)
            if r.returncode:
                raise Broken('cannot read the program: ' + r.stderr[-1500:])
            with open(stamp, 'w') as fh:
                fh.write(want)
        return Facts(path)

    def reference(self, name):
        return self.get('ref:' + name, lambda: json.load(gzip.open(os.path.join(ROOT, 'reference', name + '.json.gz'), 'rt')))

    def has_reference(self, name):
        return os.path.exists(os.path.join(ROOT, 'reference', name + '.json.gz'))

    def freeze(self, name, data):
        p = os.path.join(ROOT, 'reference', name + '.json.gz')
        with open(p, 'wb') as raw:
            with gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
                fh.write(json.dumps(data, separators=(',', ':'), sort_keys=True).encode())

    # ------------------------------------------------------------------ engines
    def once(self, name, f):
        def make():
            try:
                return f()
            except (Unsupported, Broken) as e:
                return e
        return self.get(name, make)

    def rules(self):
        """(interpreter, behaviour graphs of every recogniser)"""
        import rulesx
        return self.once('rules', lambda: rulesx.extract(self.F))

    def rules_data(self):
        return self.get('rules_data', lambda: json.loads(json.dumps(bisim.to_graphs(self.rules()[1]))))

    def rules_cmp(self):
        def f():
            import p_morph
            uns = self.rules()[0].unsupported
            ref = {k: v for k, v in self.reference('rules').items() if k not in uns}
            c = bisim.Compare(ref, self.rules_data(), opaque=set(uns), letters=True)
            return c, c.run([p_morph.path(r) for r in p_morph.ROOTS if p_morph.path(r) not in uns])
        return self.once('rules_cmp', f)

    def client(self, name, build):
        """(interpreter, graph, plain graph)"""
        def f():
            import harness
            it, b = build(self.F)
            g = harness.explore(self.F, it, b)
            return it, g, json.loads(json.dumps(bisim.to_graphs({name: g})))
        return self.once('client:' + name, f)

    def where(self, path):
        """file:line of a function."""
        for b in self.F.by_path.get(path, ()):
            if b['file']:
                return '%s:%s (%s)' % (b['file'], b['line'], path)
        return path


class Report:
    """What one check established."""

    def __init__(self, prop, known):
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.bad = []           # (key, text)
        self.open = []          # what could not be decided
        self.known = known      # key -> description
        self.seen_known = []
        self.samples = []
        self.stats = {}

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def fail(self, key, text):
        self.obligations += 1
        if key in self.known:
            if key not in self.seen_known:
                self.seen_known.append(key)
            return
        if key not in [k for k, _ in self.bad]:
            self.bad.append((key, text))

    def undecided(self, what, why):
        self.obligations += 1
        self.open.append('%s: %s' % (what, why))

    def need(self, cond, key, text):
        if cond:
            self.ok(key)
        else:
            self.fail(key, text)

    def floor(self, what, got, want, unread=0):
        """Fail closed when less was found than counted by hand (not when it is there but could not be read)."""
        self.stats[what] = got
        if got < want and unread:
            self.undecided(what, 'only %d of them could be read' % got)
            return
        self.need(got >= want, 'floor:' + what, '%s: found %d, expected at least %d' % (what, got, want))
