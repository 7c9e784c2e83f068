#!/usr/bin/env python3
"""Development aid: run checks against mutants listed in tools/mutants/*.txt (scratch copies of /repo).

Entry:  == name | file | expected ids (space separated, '-' for none)
old text
--
new text
(several 'old -- new' pairs separated by a line '++'; a pair may start with '@ file')"""
import os, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load(paths):
    out = []
    for p in paths:
        for part in re.split(r'(?m)^== ', open(p).read())[1:]:
            head, body = part.split('\n', 1)
            name, file, exp = [x.strip() for x in head.split('|')]
            pairs = []
            for pr in re.split(r'(?m)^\+\+\n', body):
                f = file
                if pr.startswith('@ '):
                    h, pr = pr.split('\n', 1)
                    f = h[2:].strip()
                a, b = re.split(r'(?m)^--\n', pr, maxsplit=1)
                pairs.append((f, a.rstrip('\n'), b.rstrip('\n')))
            out.append((name, pairs, exp.split(), os.path.basename(p)))
    return out

def run(job):
    slot, (name, pairs, exp, _), ids = job
    d = '/tmp/mut%d' % slot
    os.makedirs(d + '/build', exist_ok=True)
    subprocess.run('rm -rf %s/repo; mkdir -p %s/repo; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo' % (d, d, d), shell=True, check=True)
    for f, a, b in pairs:
        p = d + '/repo/' + f
        s = open(p).read()
        if s.count(a) < 1:
            return name, exp, None, 'PATTERN NOT FOUND in ' + f + ': ' + a[:80]
        s = s.replace(a, b, 1)
        open(p, 'w').write(s)
    if not os.path.isdir(d + '/build/driver'):
        subprocess.run('cp -a %s/build/driver %s/build/target %s/build/' % (ROOT, ROOT, d), shell=True)
    env = dict(os.environ, REPO=d + '/repo', BUILD_DIR=d + '/build', EVIDENCE_DIR=d + '/evidence', FACTS_THREADS='2')
    r = subprocess.run([sys.executable, ROOT + '/check.py'] + ids, env=env, capture_output=True, text=True)
    fired = re.findall(r'(?m)^VIOLATION property=(\S+)', r.stdout)
    und = sorted(set(re.findall(r'(?m)^UNDECIDED property=(\S+)', r.stdout)))
    return name, exp, fired, (('undecided: ' + ' '.join(und)) if und else '') + (r.stderr[-400:] if r.stderr else ''), r.stdout

def main():
    n = int(os.environ.get('JOBS', '4'))
    base = int(os.environ.get('BASE', '10'))
    args = sys.argv[1:]
    files = [a for a in args if a.endswith('.txt')]
    ids = [a for a in args if re.fullmatch(r'[A-Z]\d+', a)]
    only = [a[1:] for a in args if a.startswith('=')]
    ms = [m for m in load(files) if not only or any(o in m[0] for o in only)]
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(base + i)
    def go(m):
        s = slots.get()
        try:
            return run((s, m, ids))
        finally:
            slots.put(s)
    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(go, ms):
            name, exp, fired = r[:3]
            if fired is None:
                print('??', name, r[3]); bad += 1; continue
            want = set(exp) - {'-'}
            okay = (not fired) if not want else want <= set(fired)
            bad += not okay
            print('%s %-34s want %-12s fired %-40s %s' % ('ok' if okay else '!!', name, ' '.join(exp), ' '.join(fired), r[3][:300]), flush=True)
            if os.environ.get('V') and len(r) > 4:
                print(r[4][:3000])
    print('unexpected:', bad)
if __name__ == "__main__":
    main()
