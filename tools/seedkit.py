"""Plants bugs: python3 tools/seedkit.py FILE.py [ID...]

FILE.py defines SEEDS, a list of dicts: id, property, file, edits [(old,
new)...] (each old occurring exactly once), demo (a Rust program which panics
or exits nonzero when the property is broken), needs, breaks.  Each seed is
confirmed in a scratch copy of /repo (builds, stable tests pass, the demo
passes without and fails with the change) and then written to
/verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO = r'''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" || exit 3
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2015"\n[dependencies]\nfourleaf = { path = "%s" }\n[workspace]\n' "$PWD" > "$work/Cargo.toml"
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet RELEASE 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
timeout -k 5 100 "$work/target/PROFILE/demo"
'''

def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True,
                          capture_output=True, timeout=t, env=env)

def confirm(s):
    out = '/verif/seeded/' + s['id']
    sc = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = sc + '/repo'
        sh(['cp', '-a', '/repo', repo], '/')
        stage = sc + '/stage'; os.mkdir(stage)
        rel = s.get('release')
        demo = DEMO.replace('RELEASE', '--release' if rel else '').replace(
            'PROFILE', 'release' if rel else 'debug')
        open(stage + '/demo.sh', 'w').write(demo)
        os.chmod(stage + '/demo.sh', 0o755)
        open(stage + '/main.rs', 'w').write(s['demo'])
        r = sh(['bash', stage + '/demo.sh'], repo)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        edits = s['edits'] if isinstance(s['edits'][0], (list, tuple)) else [s['edits']]
        for e in edits:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit matches %d times: %r' % (t.count(old), old[:80])
            open(p, 'w').write(t.replace(old, new))
        d = sh('git diff', repo).stdout
        open(stage + '/patch.diff', 'w').write(d)
        env = dict(os.environ, CARGO_TARGET_DIR=repo + '/target',
                   CARGO_NET_OFFLINE='true',
                   RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        r = sh('cargo test --workspace --offline --no-fail-fast 2>&1', repo, env)
        base = json.load(open('/opt/vp/BASELINE.json'))
        bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
        if 'test result' not in r.stdout:
            return 'does not build: ' + r.stdout[-1500:]
        if bad:
            return 'existing tests catch it: ' + ' | '.join(bad)[:400]
        r = sh(['bash', stage + '/demo.sh'], repo)
        if r.returncode in (0, 3):
            return 'demo does not fail with the change (%d) %s' % (r.returncode, (r.stdout+r.stderr)[-800:])
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(stage + '/meta.json', 'w'), indent=1)
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(stage, out)
        return 'planted'
    finally:
        shutil.rmtree(sc)

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in seeds if not want or s['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(todo, ex.map(confirm, todo)):
            print(s['id'], s['property'], r, flush=True)
