#!/usr/bin/env python3
"""Makes and confirms planted changes. Not a check.
usage: plant.py new ID PROPERTY SPEC.json   (spec: edits [[file, old, new], ...], needs, breaks, demo (text of demo.py or demo.sh body))
       plant.py confirm ID...               build, stable tests and demo with and without the change, in a scratch copy
       plant.py matrix ID... [-- CHECK...]  runs checks against each change applied to /repo
"""
import json, os, subprocess, sys, shutil, tempfile
V = '/verif'
SC = '/tmp/plant'
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], HOME='/root', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')

def sh(cmd, cwd=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors='replace')
    return p.returncode, p.stdout

def scratch():
    sh(f'mkdir -p {SC} && rsync -a --delete --exclude=/target --exclude=/chop/target --exclude=/util/dcgen/target /repo/ {SC}/ || cp -a /repo/. {SC}/')
    sh('git checkout -q -- . ; git clean -fdq', SC)

def build(cwd):
    return sh('cargo test --no-run --offline && cargo build --locked --offline --manifest-path chop/Cargo.toml && cargo build --locked --offline --manifest-path util/dcgen/Cargo.toml', cwd)

def tests(cwd):
    rc, o = sh('cargo test --no-fail-fast --offline -- --test-threads 8', cwd)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = [n for n in stable if not any(l.startswith('test ') and l.rstrip().endswith('ok') and n.split('::')[-1] in l for l in o.splitlines())]
    return bad, o

def new(i, prop, spec):
    s = json.load(open(spec))
    scratch()
    for f, old, nw in s['edits']:
        p = f'{SC}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, nw))
    rc, d = sh('git diff', SC)
    # lines taken out have to be lines of the original repository
    d0 = f'{V}/seeded/{i}'
    os.makedirs(d0, exist_ok=True)
    open(f'{d0}/patch.diff', 'w').write(d)
    json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d0}/meta.json', 'w'), indent=1)
    for n, t in s['files'].items():
        open(f'{d0}/{n}', 'w').write(t)
        if n.endswith('.sh'):
            os.chmod(f'{d0}/{n}', 0o755)
    sh('git checkout -q -- .', SC)

def demo(i):
    t = tempfile.mkdtemp(prefix='demo')
    sh(f'cp -r {V}/seeded/{i}/. {t}/ && rm -f {t}/*.diff {t}/meta.json')
    rc, o = sh(f'bash {t}/demo.sh', SC, 300)
    shutil.rmtree(t)
    return rc, o

def confirm(ids):
    scratch()
    rc, o = build(SC)
    assert rc == 0, o[-2000:]
    for i in ids:
        rc0, o0 = demo(i)
        rc, o = sh(f'git apply {V}/seeded/{i}/patch.diff', SC)
        assert rc == 0, o
        removed = added = 0
        rc, o = build(SC)
        if rc:
            print(i, 'DOES NOT BUILD', o[-3000:])
        else:
            bad, o = tests(SC)
            rc1, o1 = demo(i)
            print(i, 'demo clean', rc0, 'demo changed', rc1, 'broken tests', bad, '' if rc0 == 0 and rc1 != 0 and not bad else '  <<<<<<<< NOT CONFIRMED\n' + o0[-1500:] + '\n---\n' + o1[-1500:], flush=True)
            if rc0 == 0 and rc1:
                print('    ', o1.strip()[-300:].replace('\n', ' | '))
        sh('git checkout -q -- .', SC)
        build(SC)

def matrix(ids, checks):
    for i in ids:
        own = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        rc, o = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
        assert rc == 0, o
        try:
            for c in (checks or [own]):
                rc, o = sh(f'VERIF_SEED=1 {V}/check.sh {c} quick', t=1000)
                hit = [l for l in o.splitlines() if l.startswith(f'VIOLATION property={c}')]
                if rc == 0 and c != own:
                    continue
                print(i, own, c, 'CAUGHT' if rc == 1 and hit else f'missed rc={rc}', flush=True)
                for l in o.splitlines():
                    if l.startswith('violation of'):
                        print('     ', l[:300])
                        break
        finally:
            sh('git -C /repo checkout -- .')

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        new(*a[1:])
    elif a[0] == 'confirm':
        confirm(a[1:])
    else:
        k = a.index('--') if '--' in a else len(a)
        matrix(a[1:k], a[k + 1:])
