#!/usr/bin/env python3
"""Development aid: run checks against every planted bug (scratch copies of /repo). Args: seed ids, check ids (default: the bug's own), 'all'."""
import json, os, queue, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if re.fullmatch(r'[A-Z]\d+', a)]
only = [a for a in sys.argv[1:] if not re.fullmatch(r'[A-Z]\d+', a) and a != 'all']
if 'all' in sys.argv:
    ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
    na = {x['property'] if 'property' in x else x.get('id') for x in json.load(open(ROOT + '/MANIFEST.json')).get('not_applicable', [])}
    ids = [i for i in ids if i not in na]
n = int(os.environ.get('JOBS', '4'))
q = queue.Queue()
for i in range(n):
    q.put(60 + i)


def go(name):
    prop = json.load(open('%s/seeded/%s/meta.json' % (ROOT, name)))['property']
    s = q.get()
    try:
        d = '/tmp/mut%d' % s
        os.makedirs(d + '/build', exist_ok=True)
        subprocess.run('rm -rf %s/repo; mkdir -p %s/repo; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo; cd %s/repo && git init -q && git apply %s/seeded/%s/patch.diff' % (d, d, d, d, ROOT, name), shell=True, check=True)
        if not os.path.isdir(d + '/build/driver'):
            subprocess.run('cp -a %s/build/driver %s/build/target %s/build/' % (ROOT, ROOT, d), shell=True)
        env = dict(os.environ, REPO=d + '/repo', BUILD_DIR=d + '/build', EVIDENCE_DIR=d + '/evidence', FACTS_THREADS='2')
        r = subprocess.run([sys.executable, ROOT + '/check.py'] + (ids or [prop]), env=env, capture_output=True, text=True)
        f = sorted(set(re.findall(r'(?m)^VIOLATION property=(\S+)', r.stdout)))
        u = sorted(set(re.findall(r'(?m)^UNDECIDED property=(\S+)', r.stdout)))
        return name, prop, f, u, r
    finally:
        q.put(s)


names = only or sorted(os.listdir(ROOT + '/seeded'))
with ThreadPoolExecutor(n) as ex:
    for name, prop, f, u, r in ex.map(go, names):
        print('%s %-24s %-4s fired %-40s %s %s' % ('ok' if prop in f else '!!', name, prop, ' '.join(f), 'undecided ' + ' '.join(u) if u else '', r.stderr[-300:]), flush=True)
        if os.environ.get('V'):
            print(r.stdout[:2500])
