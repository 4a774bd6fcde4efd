#!/usr/bin/env python3
"""tryrefactor.py REFACTORS.py [ids]: applies each behaviour-preserving change to a scratch copy (bind-mounted over
/repo in a mount namespace of its own), runs the stable tests, re-proves everything and prints what is not proved.
REFACTORS.py defines R = {id: [(file, old, new)]}."""
import os
import re
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R_ = os.environ.get('RF', '/tmp/rf')                # scratch
SCR, W = R_ + 'scr', R_ + 'work'
ALL = os.path.join(V, 'tools', 'proveeverything.py')


def main():
    R = runpy.run_path(sys.argv[1])['R']
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    if not os.path.exists(W):
        subprocess.run(['cp', '-a', V + '/work', W], check=True)
    for i, edits in R.items():
        if only and i not in only:
            continue
        subprocess.run(['rm', '-rf', SCR], check=True)
        if '-notest' in sys.argv:                  # without the build products
            subprocess.run(f'mkdir {SCR} && cd /repo && tar c --exclude=./target . | tar x -C {SCR}', shell=True, check=True)
        else:
            subprocess.run(['cp', '-a', '/repo', SCR], check=True)
        for f, old, new in edits:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if isinstance(old, re.Pattern):         # the whole item that starts with a line matching the pattern
                m = old.search(s)
                if m and m.group(0).endswith('\n'):
                    s = s.replace(m.group(0), new, 1)
                    open(p, 'w').write(s)
                    continue
                e = re.search(r'^%s\}\n' % re.match(r' *', m.group(0)).group(0), s[m.start():], re.M) if m else None
                old = s[m.start():m.start() + e.end()] if e else '\0'
            if s.count(old) < 1:
                print(i, 'EDIT DOES NOT APPLY', f, old[:60])
                break
            open(p, 'w').write(s.replace(old, new, 1))
        else:
            sh = f'mount --bind {SCR} /repo && '
            if '-notest' not in sys.argv:
                sh += f'(bash /opt/vp/build.sh >/tmp/rfbuild.log 2>&1 || {{ echo BUILD FAILED; grep -A6 "^error" /tmp/rfbuild.log | head -30; exit 1; }}) && bash /opt/vp/test.sh /tmp/rft.json >/dev/null 2>&1; '
            sh += f'{V}/build.sh {W} > /tmp/rfb.log 2>&1 || {{ echo ROOTS BUILD FAILED; tail -5 /tmp/rfb.log; exit 1; }}; python3-vt {ALL} {W}'
            print('=====', i, flush=True)
            r = subprocess.run(['unshare', '-m', 'bash', '-c', sh], text=True, capture_output=True)
            print(r.stdout[-6000:], r.stderr[-1500:], flush=True)
            if '-notest' not in sys.argv and os.path.exists('/tmp/rft.json'):
                import json
                t = json.load(open('/tmp/rft.json'))
                if t['failed']:
                    print('TESTS FAILED', t['failed'][:5])


main()
