#!/usr/bin/env python3
"""plant.py BUGS.py [ids]: builds /verif/seeded/<id>/ from descriptions of planted changes.
Each is confirmed in a scratch copy: it compiles, the stable tests pass, and the demonstration fails with it
and passes without it.  BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/plant'
DEMO_SH = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -e
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null || true
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\npddl = { path = "%s" }\\n' "$R" > "$D/Cargo.toml"
cd "$D"
CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}" cargo build --offline --quiet 2>"$D/log" || { cat "$D/log"; exit 3; }
"${DEMO_TARGET:-$D/target}/debug/demo"
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('stable') or stable.get('passing') or stable.get('tests') or stable
    if isinstance(stable, dict):
        stable = [k for k in stable]
    if not os.path.exists(SCR + '/repo'):
        os.makedirs(SCR, exist_ok=True)
        sh(f'cp -a /repo {SCR}/repo')
    R = SCR + '/repo'
    for b in bugs:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
        out = os.path.join(V, 'seeded', b['id'])
        tmp = os.path.join(SCR, 'new')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/main.rs', 'w').write(b['demo'])
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        env = {'DEMO_TARGET': SCR + '/dtgt'}
        r = sh(f'bash {tmp}/demo.sh', cwd=R, env=env)
        if r.returncode:
            print(b['id'], 'REJECTED: demo fails on the unchanged tree', r.stdout[-800:], r.stderr[-800:])
            continue
        bad = None
        for f, old, new in b['edits']:
            s = open(f'{R}/{f}').read()
            if s.count(old) != 1:
                bad = f'{f}: old text occurs {s.count(old)} times'
                break
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'REJECTED:', bad)
            continue
        sh(f'git diff > {tmp}/patch.diff', cwd=R)
        r = sh(f'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=R, env={'CARGO_TARGET_DIR': SCR + '/ttgt'})
        if 'error: could not compile' in r.stdout or 'error[' in r.stdout:
            print(b['id'], 'REJECTED: does not compile', r.stdout[-1500:])
            continue
        failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED')]
        passed = sum(1 for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok'))
        if failed:
            print(b['id'], 'REJECTED: tests fail', failed[:5])
            continue
        r = sh(f'bash {tmp}/demo.sh', cwd=R, env=env)
        if r.returncode in (0, 3):
            print(b['id'], 'REJECTED: demo result', r.returncode, r.stdout[-800:])
            continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(b['id'], 'ok', passed, 'tests pass')
    sh('git checkout -q -- .', cwd=R)


main()
