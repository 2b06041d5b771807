"""Builds the MIR driver (if needed) and extracts the facts of the current tree
of /repo: one JSON file per crate with the MIR of every function."""
import os, subprocess, sys, tempfile, shutil, json, hashlib, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PFPSA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver(sr):
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'pfpsa-driver-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['rustc', '+nightly', '-O', '--cap-lints', 'allow', '-o', tmp, src, '-C',
                    'link-args=-Wl,-rpath,%s/lib' % sr], check=True, stdout=subprocess.DEVNULL,
                   stderr=subprocess.PIPE)
    os.rename(tmp, out)
    return out


class BuildError(Exception):
    pass


def extract(repo=None):
    """Returns {crate: parsed facts} of the tree."""
    repo = repo or REPO
    sr = sysroot()
    drv = driver(sr)
    work = tempfile.mkdtemp(prefix='pfpsa-')
    try:
        out = os.path.join(work, 'out')
        os.makedirs(out)
        # Dependencies are reused between runs; the workspace's own crates are not.
        target = os.path.join(BUILD, 'target')
        os.makedirs(target, exist_ok=True)
        lock = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(lock, fcntl.LOCK_EX)
        for root, dirs, files in os.walk(target):
            depth = root[len(target):].count(os.sep)
            for d in list(dirs):
                if d.startswith('pfp'):
                    shutil.rmtree(os.path.join(root, d))
                    dirs.remove(d)
            if depth >= 3:
                dirs[:] = []
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR',
                  'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
            env.pop(k, None)
        env.update(PFPSA_RUSTC=sr + '/bin/rustc', PFPSA_OUT=out, PFPSA_CRATES='pfp,pfp_cli',
                   RUSTC=os.path.join(VERIF, 'driver', 'rustc-shim'),
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_INCREMENTAL='0')
        r = subprocess.run(['cargo', '+nightly', 'check', '--manifest-path',
                            os.path.join(repo, 'Cargo.toml'), '--workspace', '--locked',
                            '--offline', '--target-dir', target],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        res = {}
        for c in ('pfp', 'pfp_cli'):
            p = os.path.join(out, c + '.json')
            if not os.path.exists(p):
                raise BuildError('no facts for crate %s\n%s' % (c, r.stdout[-2000:]))
            res[c] = json.load(open(p))
        return res
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        driver(sysroot())
        extract()
        print('driver built')
    else:
        dst = sys.argv[1]
        os.makedirs(dst, exist_ok=True)
        for c, d in extract(sys.argv[2] if len(sys.argv) > 2 else None).items():
            json.dump(d, open(os.path.join(dst, c + '.json'), 'w'))
