#!/usr/bin/env python3-vt
"""proveeverything.py WORK: all contracts at once; prints those not proved (development aid)."""
import os
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/mirv')
import prove, api, grammar as GR                                  # noqa: E401,E402
from prog import Prog                                           # noqa: E402
from multiprocessing import Pool                                # noqa: E402
W = sys.argv[1]
P = Prog(W + '/mir.json')
NTS = prove.make_nts(P)


def f(j):
    k, n = j
    try:
        if k == 'a':
            return k, api.verify(P, NTS, n, seconds=60)
        r = prove.verify(P, NTS, n, seconds=120, words='-words' in sys.argv)
        if r['unsupported'] or any(o[3] != 'proved' for o in r['obls']):
            r2 = prove.verify(P, NTS, n, seconds=120, words=True)
            if not r2['unsupported']:
                r = r2
        return k, r
    except Exception as e:
        return k, dict(name=n, obls=[], unsupported=f'{type(e).__name__}: {e}', time=0)


if __name__ == '__main__':
    t0 = time.time()
    jobs = [('p', n) for n in GR.G] + [('p', n) for n in P.roots if n[:2] in ('s_', 't_')] + [('a', n) for n in sorted({a for a, _ in P.api})]
    if os.environ.get('ONLY'):                                   # only names that start with one of these
        jobs = [j for j in jobs if j[1].startswith(tuple(os.environ['ONLY'].split(',')))]
    F, U, n = {}, {}, 0
    with Pool(8) as p:
        for k, r in p.imap_unordered(f, jobs):
            n += len(r['obls'])
            if r['unsupported']:
                U[r['name']] = r['unsupported']
            else:
                b = [o for o in r['obls'] if o[3] != 'proved']
                if b and r['name'] != 'c02_contains_continuous':
                    F[r['name']] = b
    print(f'{n} obligations, {time.time() - t0:.0f} s; FAILED {len(F)}, BEYOND REACH {len(U)}')
    for x, b in sorted(F.items())[:12]:
        print('  FAILED', x, len(b), b[0][1:3], b[0][4][:250].replace('\n', ' '))
    for x, u in sorted(U.items())[:12]:
        print('  BEYOND', x, u[:250])
