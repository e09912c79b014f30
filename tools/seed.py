#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id> from a definition and tries it.

seed.py FILE [ID...]   FILE defines seeds with seed(id, prop, edits, pkg, demo, needs, breaks)
seed.py --try [ID...]  runs the property's quick check against existing seeds
"""
import json, os, subprocess, sys, glob, re
V = '/verif'
R = '/repo'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')

def sh(cmd, cwd=R, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout + p.stderr

DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour is right.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp) || exit 3
trap 'unlink "$o"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" >"$o"
timeout 250 go test FLAGS-vet=off -count=1 -overlay "$o" -run '^TestDemo$' ./PKG
'''

def clean():
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])

def dirty():
    return sh('git status --short')[1].strip()

def attempt(sid):
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(d+'/meta.json'))
    prop = meta['property']
    rc, out = sh(f'git apply {d}/patch.diff')
    assert rc == 0, out
    try:
        env = dict(ENV, VERIF_SEED='1', VERIF_TIER='quick')
        man = json.load(open(V+'/MANIFEST.json'))
        cmd = [c for c in man['checks'] if prop in (c.get('property'), c.get('id'), c.get('property_id'))][0]
        q = cmd.get('quick') or cmd.get('quick_cmd')
        if isinstance(q, dict): q = q['cmd']
        rc, out = sh(q, cwd=V, env=env)
        caught = rc == 1 and f'VIOLATION property={prop}' in out
        return caught, rc, out
    finally:
        clean()

def make(sid, prop, edits, pkg, demo, needs, breaks, flags=''):
    assert not dirty(), dirty()
    d = f'{V}/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    open(d+'/demo_test.go','w').write(demo)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG', pkg).replace('FLAGS', flags+' ' if flags else ''))
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    base = sh('git rev-list --max-parents=0 HEAD')[1].strip()
    try:
        for f, old, new in edits:
            p = f'{R}/{f}'
            s = open(p).read()
            if s.count(old) != 1: print(sid, 'NOT UNIQUE', f, s.count(old), repr(old[:60])); return
            open(p,'w').write(s.replace(old, new))
        rc, diff = sh('git diff')
        open(d+'/patch.diff','w').write(diff)
        # are the removed lines the original's?
        for f in {e[0] for e in edits}:
            ll = sh(f'git diff -U0 -- {f}')[1]
            n = orig = 0
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', ll, re.M):
                a, c = int(m[1]), int(m[2] if m[2] is not None else 1)
                for i in range(a, a+c):
                    b = sh(f'git blame -l -s -L{i},{i} HEAD -- {f}')[1]
                    n += 1
                    orig += b.lstrip('^').startswith(base[:30])
            if orig < n or n == 0: print(sid, f'  blame: {orig} of {n} removed lines are original in {f}')
        rc, out = sh('gofmt -l . ; go vet -vettool=/bin/true ./... >/dev/null 2>&1; bash /opt/vp/build.sh')
        if rc: print(sid, 'BUILD', out); return
        sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        t = open('/tmp/seed_t.json').read()
        want = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if 0 else None
        tj = json.loads(t)
        passed = tj.get('passed') or [k for k,v in tj.items() if v in ('pass','passed',True)]
        np = len(passed) if isinstance(passed, list) else passed
        if np < 35: print(sid, 'TESTS', np)
        rc1, out1 = sh(d+'/demo.sh')
        if rc1 == 0: print(sid, 'DEMO passes with the patch')
    finally:
        clean()
    rc0, out0 = sh(d+'/demo.sh')
    if rc0: print(sid, 'DEMO fails on the clean tree', out0[-1500:])
    if 'build failed' in out1 or 'setup failed' in out1: print(sid, 'DEMO does not build', out1)
    caught, rc, out = attempt(sid)
    print(sid, 'caught' if caught else f'MISSED rc={rc}', '' if caught else out[-600:])

if __name__ == '__main__':
    if sys.argv[1] == '--try':
        ids = sys.argv[2:] or sorted(os.listdir(V+'/seeded'))
        for s in ids:
            if not os.path.exists(f'{V}/seeded/{s}/meta.json'): continue
            caught, rc, out = attempt(s)
            print(s, json.load(open(f'{V}/seeded/{s}/meta.json'))['property'], 'caught' if caught else f'MISSED rc={rc}', flush=True)
    else:
        only = sys.argv[2:]
        def seed(sid, *a, **k):
            if not only or sid in only: make(sid, *a, **k); sys.stdout.flush()
        exec(open(sys.argv[1]).read())
