#!/usr/bin/env python3
"""mkseed.py: builds, confirms and stores a planted bug (development tool; nothing a check uses).
mkseed.py ID PROPERTY SPEC.py   SPEC defines: edits=[(file, old, new)..], needs, breaks, demo (python source using s3demo)"""
import os, sys, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
sid, pid, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = f'{V}/seeded/{sid}'
os.makedirs(d, exist_ok=True)
wt = '/tmp/mkseed'
if not os.path.exists(wt):
    os.makedirs(wt)
    run('cp -a /repo/. ' + wt)
run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=wt)
for f, a, b in ns['edits']:
    p = f'{wt}/{f}'
    s = open(p).read()
    assert s.count(a) >= 1, ('not found', f, a)
    n = ns.get('which', 0)
    i = -1
    for _ in range(n + 1):
        i = s.index(a, i + 1)
    s = s[:i] + b + s[i + len(a):]
    open(p, 'w').write(s)
open(d + '/patch.diff', 'w').write(run('git diff', cwd=wt)[1])
shutil.copy(V + '/tools/demo/s3demo.py', d)
open(d + '/demo.py', 'w').write(ns['demo'].lstrip())
open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': pid, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
env = dict(os.environ)
build = ('. /opt/vp/env.sh; cd %s; cargo test --workspace --all-features --no-run --offline' % wt)
rc, out = run(['bash', '-c', build])
if rc:
    print('DOES NOT BUILD\n' + out[-2500:]); sys.exit(1)
stable = json.load(open('/opt/vp/BASELINE.json'))
rc, out = run(['bash', '-c', '. /opt/vp/env.sh; cd %s; cargo nextest run --workspace --all-features --offline --no-fail-fast -j 1 --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1' % wt])
bad = [l for l in out.splitlines() if l.strip().startswith(('FAIL', 'TIMEOUT', 'error'))]
print('tests:', 'FAILED ' + str(bad) if bad or rc else 'ok')
rc, out = run(['bash', d + '/demo.sh'], cwd=wt, timeout=300)
print('with the change: exit', rc, out.strip().splitlines()[-1:] )
ok1 = rc != 0
run('git checkout -q -- .', cwd=wt)
rc, out = run(['bash', '-c', build])
rc, out = run(['bash', d + '/demo.sh'], cwd=wt, timeout=300)
print('unchanged: exit', rc, out.strip().splitlines()[-1:])
print('CONFIRMED' if ok1 and rc == 0 and not bad else 'NOT CONFIRMED')
