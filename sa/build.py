"""Builds the fact extractor and the facts of /repo's current working tree (cached by content)."""
import hashlib, os, subprocess, sys, shutil, fcntl, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO') or '/repo'
WORK = os.environ.get('SA_WORK') or os.path.join(VERIF, '.work')   # SA_REPO, SA_WORK: only for tools/try.py

class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def digest():
    h = hashlib.sha256()
    files = []
    for base in ('src',):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock', 'build.rs') if os.path.exists(os.path.join(REPO, f))]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    h.update(open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb').read())
    return h.hexdigest()[:24]

def rustenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTDOCFLAGS'):
            e.pop(k)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    return e

def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(WORK, 'driver-' + tag)
    if not os.path.exists(out):
        for f in glob.glob(os.path.join(WORK, 'driver*')):
            os.remove(f)
        rc, o = sh(['rustc', '-O', '--edition', '2021', src, '-o', out + '.tmp'], env=rustenv(), cwd=WORK)
        if rc:
            raise BuildError('driver does not build:\n' + o[-3000:])
        os.rename(out + '.tmp', out)
    return out

def facts():
    """-> list of fact files for the current tree"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = digest()
        dst = os.path.join(WORK, 'facts', d)
        names = ['s3_server-lib.json', 's3_server-bin.json']
        if all(os.path.exists(os.path.join(dst, n)) for n in names):
            return [os.path.join(dst, n) for n in names]
        drv = driver()
        e = rustenv()
        rc, root = sh(['rustc', '--print', 'sysroot'], env=e)
        tmp = os.path.join(WORK, 'facts', 'tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(WORK, 'target')
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 's3-server-*')):
            shutil.rmtree(f, ignore_errors=True)
        e.update(SA_OUT=tmp, LD_LIBRARY_PATH=os.path.join(root.strip(), 'lib'), RUSTC_WORKSPACE_WRAPPER=drv,
                 CARGO_TARGET_DIR=tgt, RUSTFLAGS='--cap-lints warn', CARGO_INCREMENTAL='0')
        rc, o = sh(['cargo', 'check', '--all-features', '--lib', '--bins', '--offline', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=e)
        if rc and 'lock' in o[-2000:]:
            e2 = dict(e)
            rc, o = sh(['cargo', 'check', '--all-features', '--lib', '--bins', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=e2)
        if rc:
            raise BuildError('the tree does not build:\n' + o[-4000:])
        for n in names:
            if not os.path.exists(os.path.join(tmp, n)):
                raise BuildError('no facts were extracted: ' + n + '\n' + o[-2000:])
        keep = sorted(glob.glob(os.path.join(WORK, 'facts', '*')), key=os.path.getmtime)
        for f in keep[:-6]:
            if f != tmp:
                shutil.rmtree(f, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
        return [os.path.join(dst, n) for n in names]

if __name__ == '__main__':
    t = time.time()
    try:
        print('\n'.join(facts()), '%.1fs' % (time.time() - t))
    except BuildError as x:
        print(x)
        sys.exit(2)
