import sys
import traceback
from multiprocessing import Pool
import prove
import grammar as GR
from prog import Prog


def init(p):
    global P
    P = Prog(p)


def job(n):
    try:
        return prove.verify(P, prove.make_nts(P), n)
    except Exception:
        return dict(name=n, obls=[], left=[], queries=0, time=0, unsupported='CRASH ' + traceback.format_exc()[-600:])


if __name__ == '__main__':
    with Pool(8, init, (sys.argv[1],)) as p:
        for r in p.imap_unordered(job, sys.argv[2:] or sorted(GR.G)):
            bad = [o for o in r['obls'] if o[3] != 'proved']
            print(f"{r['name']:24s} {r['time']:6.2f}s q={r['queries']} proved={len(r['obls'])-len(bad)} bad={len(bad)} left={r['left']} {r['unsupported'] or ''}", flush=True)
            for o in bad[:3]:
                print('    ', o[1:4], o[4][:500])
