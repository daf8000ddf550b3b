#!/usr/bin/env python3
"""Development tool: runs checks on changed copies of the tree.
try.py [-c ID,ID..] [-j N] PATCH...    each patch (against /repo's HEAD) is applied to its own copy; prints which checks raise an alarm.
The copies live in /tmp/try-<pid> and are removed."""
import os, sys, subprocess, shutil, argparse, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-c', default='')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('-v', action='store_true')
ap.add_argument('patch', nargs='+')
o = ap.parse_args()
ids = o.c.split(',') if o.c else [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
base = f'/tmp/try-{os.getpid()}'
def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def one(ip):
    i, patch = ip
    d = f'{base}/{i}'
    os.makedirs(d)
    try:
        repo, work = d + '/repo', d + '/work'
        os.makedirs(work)
        rc, out = run(['git', '-C', '/repo', 'worktree', 'list'])
        os.makedirs(repo)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {repo}', shell=True, check=True)
        rc, out = run(['git', 'apply', '--unsafe-paths', '--directory', repo, os.path.abspath(patch)], cwd='/')
        if rc:
            rc, out = run(['patch', '-p1', '-d', repo, '-i', os.path.abspath(patch)])
            if rc:
                return patch, 'DOES NOT APPLY ' + out[-300:]
        if os.path.exists('/repo/Cargo.lock') and not os.path.exists(repo + '/Cargo.lock'):
            shutil.copy('/repo/Cargo.lock', repo)
        subprocess.run(['cp', '-a', V + '/.work/target', work + '/target'])
        env = dict(os.environ, SA_REPO=repo, SA_WORK=work, SA_EVIDENCE=d)
        rc, out = run([sys.executable, V + '/sa/build.py'], env=env)
        if rc:
            return patch, 'DOES NOT BUILD\n' + out[-1500:]
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(lambda c: (c,) + run([sys.executable, V + '/sa/check.py', c], env=env), ids))
        txt = []
        for c, rc, out in rs:
            if rc == 1:
                txt.append(f'  {c}: ' + '\n      '.join(l[:220] for l in out.splitlines() if l and 'VIOLATION' not in l)[:(4000 if o.v else 420)])
            elif rc:
                txt.append(f'  {c}: NO ANSWER {rc}\n' + out[-800:])
        return patch, ('ALARMS\n' + '\n'.join(txt)) if txt else 'quiet'
    finally:
        shutil.rmtree(d, ignore_errors=True)
try:
    with ThreadPoolExecutor(o.j) as ex:
        for p, t in ex.map(one, enumerate(o.patch)):
            print(f'== {p}: {t}', flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
