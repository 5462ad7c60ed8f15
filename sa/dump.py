"""Runs the rustc driver over /repo's current working tree and returns the path of the THIR dump."""
import os, subprocess, shutil, tempfile, hashlib, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRV = os.path.join(ROOT, 'driver')
EXE = os.path.join(DRV, 'target', 'release', 'thirdump')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    if os.path.exists(EXE) and os.path.getmtime(EXE) >= max(
            os.path.getmtime(os.path.join(DRV, 'src', 'main.rs')), os.path.getmtime(os.path.join(DRV, 'Cargo.toml'))):
        return
    env = dict(os.environ)
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=DRV, env=env)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit(3)


def dump(crate_dir='/repo', crates='la', keep=None):
    """type-check crate_dir with the driver; returns {crate: path of json}"""
    build_driver()
    work = keep or tempfile.mkdtemp(prefix='thirdump')
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, 'out')
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    tgt = os.path.join(work, 'target')
    if os.path.exists(tgt):
        shutil.rmtree(tgt)
    env = dict(os.environ)
    env.update(THIRDUMP_OUT=out, THIRDUMP_CRATES=crates, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=EXE,
               CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false')
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env.pop('RUSTFLAGS', None)
    # Cargo.lock must not be rewritten in the analysed tree
    r = sh(['cargo', '+nightly', 'check', '--offline', '--lib'], cwd=crate_dir, env=env)
    shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit(4)
    return {f[:-5]: os.path.join(out, f) for f in os.listdir(out) if f.endswith('.json')}, work


if __name__ == '__main__':
    p, w = dump(sys.argv[1] if len(sys.argv) > 1 else '/repo', keep=sys.argv[2] if len(sys.argv) > 2 else None, crates=sys.argv[3] if len(sys.argv) > 3 else 'la')
    print(p)
