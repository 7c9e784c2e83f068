#!/usr/bin/env python3
"""Development aid: make /verif/seeded/<id>/ from tools/seeds/*.txt and verify each in a scratch copy.

Entry:  == id | property | file
needs: one line
breaks: one line
(old -- new pairs as in tools/mutants; a pair may start with '@ file')
>>
body of the demonstration's main function (Rust, see prelude.rs)"""
import json, os, queue, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')
DEMO = open(ROOT + '/tools/seeds/demo.sh').read()
PRELUDE = open(ROOT + '/tools/seeds/prelude.rs').read()


def load():
    out = []
    d = ROOT + '/tools/seeds'
    for n in sorted(os.listdir(d)):
        if not n.endswith('.txt'):
            continue
        for p in re.split(r'(?m)^== ', open(d + '/' + n).read())[1:]:
            head, body = p.split('\n', 1)
            id_, prop, file = [x.strip() for x in head.split('|')]
            needs = re.match(r'needs: (.*)\n', body); body = body[needs.end():]
            breaks = re.match(r'breaks: (.*)\n', body); body = body[breaks.end():]
            diff, main = re.split(r'(?m)^>>\n', body)
            pairs = []
            for pr in re.split(r'(?m)^\+\+\n', diff):
                f = file
                if pr.startswith('@ '):
                    h, pr = pr.split('\n', 1)
                    f = h[2:].strip()
                a, b = re.split(r'(?m)^--\n', pr, maxsplit=1)
                pairs.append((f, a.rstrip('\n'), b.rstrip('\n')))
            out.append((id_, prop, pairs, needs.group(1), breaks.group(1), main))
    return out


def fresh(d):
    subprocess.run('rm -rf %s/repo; mkdir -p %s/repo; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s/repo; cd %s/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (d, d, d, d), shell=True, check=True)
    if not os.path.isdir(d + '/target'):
        subprocess.run('cp -a /repo/target %s/target' % d, shell=True)


def one(slot, s):
    id_, prop, pairs, needs, breaks, main = s
    d = '/tmp/seed%d' % slot
    os.makedirs(d, exist_ok=True)
    fresh(d)
    env = dict(ENV, CARGO_TARGET_DIR=d + '/target')
    o = '%s/seeded/%s' % (ROOT, id_)
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + '/main.rs', 'w').write(PRELUDE.replace('//MAIN', main.replace('\n', '\n\t').rstrip()))
    open(o + '/demo.sh', 'w').write(DEMO)
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['bash', o + '/demo.sh'], cwd=d + '/repo', env=dict(ENV, DEMO_TARGET=d + '/demo', RUST_BACKTRACE='0'), capture_output=True, text=True)
    if r.returncode:
        return id_, 'demo fails on the clean tree: ' + (r.stderr + r.stdout)[-600:]
    for f, a, b in pairs:
        p = d + '/repo/' + f
        t = open(p).read()
        if a not in t:
            return id_, 'PATTERN NOT FOUND ' + a[:60]
        open(p, 'w').write(t.replace(a, b, 1))
    diff = subprocess.run('git diff', shell=True, cwd=d + '/repo', capture_output=True, text=True).stdout
    open(o + '/patch.diff', 'w').write(diff)
    r = subprocess.run('timeout 400 cargo test --workspace --no-fail-fast --offline -- --test-threads 4', shell=True, cwd=d + '/repo', env=env, capture_output=True, text=True)
    if r.returncode:
        return id_, 'tests fail: %s %s' % (re.findall(r'(?m)^test (.*) \.\.\. FAILED', r.stdout)[:3], r.stderr[-700:] if 'error' in r.stderr else '')
    r = subprocess.run(['bash', o + '/demo.sh'], cwd=d + '/repo', env=dict(ENV, DEMO_TARGET=d + '/demo', RUST_BACKTRACE='0'), capture_output=True, text=True)
    if not r.returncode:
        return id_, 'demo passes on the changed tree'
    return id_, 'ok   ' + (r.stderr.strip().split('\n') or [''])[-2 if r.stderr.count('\n') > 1 else -1][:150]


def main():
    only = sys.argv[1:]
    ss = [s for s in load() if not only or s[0] in only]
    n = int(os.environ.get('JOBS', '6'))
    q = queue.Queue()
    for i in range(n):
        q.put(i)

    def go(s):
        i = q.get()
        try:
            return one(i, s)
        finally:
            q.put(i)
    with ThreadPoolExecutor(n) as ex:
        for id_, r in ex.map(go, ss):
            if not r.startswith('ok'):
                shutil.rmtree('%s/seeded/%s' % (ROOT, id_), ignore_errors=True)
            print('%-24s %s' % (id_, r), flush=True)
    if 'KEEP' not in os.environ:
        for i in range(n):
            shutil.rmtree('/tmp/seed%d' % i, ignore_errors=True)


if __name__ == "__main__":
    main()
