"""Creates and validates a planted bug.  usage: mkbug.py FILE.py  where FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]
demo: body of main(); must panic (exit nonzero) with the change."""
import os, sys, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the bug is present; everything is built in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh 2>/dev/null
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2015"
[dependencies]
la = { path = "$repo" }
[workspace]
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q >"$d/log" 2>&1 || { tail -5 "$d/log"; rm -rf "$d"; exit 3; }
timeout 60 "$d/target/debug/demo"
rc=$?
rm -rf "$d"
exit $rc
'''
HEAD = '''#[macro_use]
extern crate la;
#[allow(unused_imports)]
use la::*;
#[allow(unused_imports)]
use std::panic::{catch_unwind, AssertUnwindSafe};
#[allow(dead_code)]
fn panics<F: FnOnce() -> R, R>(f: F) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

fn main() {
%s
}
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(scr):
    r = run('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8', scr, shell=True, executable='/bin/bash')
    ok = set()
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.rstrip().endswith('... ok'):
            ok.add(l.split()[1])
    base = {t.split('::', 1)[1] if False else t for t in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    missing = [t for t in base if t.split('rs::', 1)[1] not in ok]
    return missing, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        out = os.path.join(ROOT, 'seeded', b['id'])
        scr = tempfile.mkdtemp(prefix='bugscr')
        try:
            repo = os.path.join(scr, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1 and not b.get('first'):
                    print(b['id'], 'EDIT matches', n, repr(old))
                    break
                if n < 1:
                    print(b['id'], 'EDIT matches none', repr(old))
                    break
                open(p, 'w').write(s.replace(old, new, 1))
            else:
                diff = run(['git', 'diff'], repo).stdout
                miss, log = tests(repo)
                if miss:
                    print(b['id'], 'TESTS FAIL', miss[:5], log[-600:] if len(miss) > 50 else '')
                    continue
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                open(os.path.join(out, 'demo.sh'), 'w').write(SH)
                os.chmod(os.path.join(out, 'demo.sh'), 0o755)
                open(os.path.join(out, 'demo.rs'), 'w').write(HEAD % b['demo'])
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                r0 = run([os.path.join(out, 'demo.sh')], '/repo')
                r1 = run([os.path.join(out, 'demo.sh')], repo)
                good = r0.returncode == 0 and r1.returncode not in (0, 2, 3)
                env = dict(os.environ, VERIF_REPO=repo)
                c = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), b['property']], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(b['id'], b['property'], 'demo', r0.returncode, r1.returncode, 'VALID' if good else 'INVALID ' + r0.stdout[-300:] + r1.stdout[-300:],
                      'CAUGHT' if c.returncode == 1 else 'missed rc=%d' % c.returncode)
                if c.returncode != 1 or '-v' in sys.argv:
                    print(c.stdout[-1500:])
                if not good:
                    shutil.rmtree(out)
        finally:
            shutil.rmtree(scr, ignore_errors=True)


main()
