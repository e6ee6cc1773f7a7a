"""Builds the extractor and dumps the type-checked MIR of /repo and of the reference crate.

Dumps are cached under /verif/.build/dumps by a hash of every file that can influence them."""
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')
DRIVER = os.path.join(B, 'driver/release/mirdump')
CRATES = ('ethabi', 'ethabi_bin', 'ethabi_contract', 'ethabi_derive', 'ethabi_tests')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC'):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', '.build', 'node_modules', '__pycache__', 'evidence', 'seeded'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.abi', '.json')):
                out.append(os.path.join(d, f))
    return out


def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        for f in files(r):
            h.update(os.path.relpath(f, r).encode())
            try:
                h.update(hashlib.sha256(open(f, 'rb').read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:20]


def digest_py(h):
    x = hashlib.sha256(h.encode())
    for d in ('analysis', 'checks'):
        p = os.path.join(VERIF, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.py'):
                x.update(open(os.path.join(p, f), 'rb').read())
    return x.hexdigest()[:20]


def ensure_driver():
    stamp = os.path.join(B, 'driver.stamp')
    d = digest(os.path.join(VERIF, 'driver'))
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == d:
        return
    os.makedirs(B, exist_ok=True)
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline'], {'CARGO_TARGET_DIR': os.path.join(B, 'driver')},
                 os.path.join(VERIF, 'driver'))
    if rc:
        raise BuildError('extractor does not build:\n' + out[-4000:])
    open(stamp, 'w').write(d)


def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    return out.strip()


def purge(target, prefix):
    for sub in ('debug/build', 'debug/.fingerprint', 'debug/incremental', 'debug/deps'):
        p = os.path.join(target, sub)
        if os.path.isdir(p):
            for n in os.listdir(p):
                m = n[3:] if n.startswith('lib') else n
                if m.replace('_', '-').startswith(tuple(prefix)):
                    q = os.path.join(p, n)
                    if os.path.isdir(q):
                        shutil.rmtree(q, ignore_errors=True)
                    else:
                        os.unlink(q)


def dump(what, out):
    env = {'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': DRIVER,
           'CARGO_INCREMENTAL': '0', 'CARGO_TERM_COLOR': 'never'}
    os.makedirs(out, exist_ok=True)
    if what == 'repo':
        t = os.path.join(B, 'target')
        purge(t, ('ethabi',))
        return sh(['cargo', '+nightly', 'check', '--workspace', '--offline', '--manifest-path', REPO + '/Cargo.toml',
                   '--target-dir', t], env, REPO)
    t = os.path.join(B, 'tspec')
    purge(t, (what, 'ethabi'))
    src = os.path.join(VERIF, what)
    if REPO != '/repo':         # developer use: the analysis of a scratch copy
        src = os.path.join(B, what + 'src')
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, what), src)
        c = open(src + '/Cargo.toml').read().replace('"/repo/', '"%s/' % REPO)
        open(src + '/Cargo.toml', 'w').write(c)
    return sh(['cargo', '+nightly', 'check', '--offline', '--target-dir', t], env, src)


def lock():
    import fcntl
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def ensure():
    """-> (directory of the dumps, tree digest, message about the reference crate or None)"""
    l = lock()
    try:
        ensure_driver()
        h = digest(REPO, os.path.join(VERIF, 'driver'), os.path.join(VERIF, 'spec'), os.path.join(VERIF, 'bind'))
        out = os.path.join(B, 'dumps', h)
        if not os.path.exists(os.path.join(out, 'ok')):
            dumps = os.path.join(B, 'dumps')
            if os.path.isdir(dumps):
                old = sorted(os.listdir(dumps), key=lambda n: os.path.getmtime(os.path.join(dumps, n)))
                for n in old[:-6]:
                    shutil.rmtree(os.path.join(dumps, n), ignore_errors=True)
            shutil.rmtree(os.path.join(B, 'results'), ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            lockf = os.path.join(REPO, 'Cargo.lock')
            had = os.path.exists(lockf)
            rc, log = dump('repo', out)
            if not had and os.path.exists(lockf):
                pass
            if rc:
                raise BuildError('/repo does not build:\n' + log[-4000:])
            rc, log = dump('spec', out)
            if rc:
                open(os.path.join(out, 'spec.err'), 'w').write(log)
            open(os.path.join(out, 'ok'), 'w').write('')
        p = os.path.join(out, 'spec.err')
        return out, h, (open(p).read() if os.path.exists(p) else None)
    finally:
        l.close()


def ensure_bind(out):
    """dumps the bindings generated for bind/contract.json next to the other dumps -> None or what rustc reports"""
    l = lock()
    try:
        h = digest(os.path.join(VERIF, 'bind'))
        ok, err = os.path.join(out, 'bind.' + h), os.path.join(out, 'bind.err')
        if not os.path.exists(ok):
            for p in (err, os.path.join(out, 'bind.json')):
                if os.path.exists(p):
                    os.unlink(p)
            rc, log = dump('bind', out)
            if rc:
                open(err, 'w').write(log)
            open(ok, 'w').write('')
        return open(err).read() if os.path.exists(err) else None
    finally:
        l.close()


if __name__ == '__main__':
    d = ensure()
    ensure_bind(d[0])
    print(d[:2])
