#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on /repo's current working tree.

Builds the tree, dumps the MIR of every function the public entry points reach, and discharges, function by
function, the obligations of the contracts the property rests on.  Exit 0: held on everything explored.
Exit 1 and a line VIOLATION property=<id> replay=<path> [no-failing-input-found]: broken."""
import json
import os
import subprocess
import sys
import time
from multiprocessing import Pool, cpu_count

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'mirv'))
import props                                                    # noqa: E402
import prove                                                    # noqa: E402
import search                                                   # noqa: E402
import grammar as GR                                            # noqa: E402
import exec as E                                                # noqa: E402
from prog import Prog                                           # noqa: E402

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
WORK = os.environ.get('VERIF_WORK', os.path.join(V, 'work'))
NPROC = max(2, min(8, cpu_count()))
P = NTS = None
PLAIN = '@without-interning'       # names of contracts on the crate built without its feature "interning"
ALT = {}


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


def build(*more):
    r = subprocess.run([os.path.join(V, 'build.sh'), WORK, *more], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-6000:])
        print('ERROR: /repo does not build with the verification roots')
        sys.exit(2)


# ------------------------------------------------------------------------------------------- jobs
def job(a):
    kind, name, opts = a
    opts = dict(opts)
    opts['seconds'] = max(3, min(opts['seconds'], opts.pop('until') - (time.time() - T0)))
    try:
        if kind == 'parser':
            return prove.verify(P, NTS, name, **opts)
        import api
        if name in ALT:
            r = api.verify(*ALT[name], name[:-len(PLAIN)], **opts)
            return dict(r, name=name, obls=[[name, *o[1:]] for o in r['obls']])
        return api.verify(P, NTS, name, **opts)
    except MemoryError:
        raise
    except Exception as e:                                       # engine limit, never a verdict
        return dict(name=name, obls=[], left=[], calls=[], queries=0, unknowns=0, solver=0, time=0, unfold=[], code=[],
                    models=[], unsupported=f'{type(e).__name__}: {e}')


def hunt(a):
    name, seed, seconds, judge, words, nums = a
    base = prove.base_of(name)[1]
    return name, search.campaign(os.path.join(WORK, 'replay'), base, seed, seconds, judge=props.JUDGES[judge],
                                 words=words, nums=nums, root=name)


def api_how(w):
    return f"{WORK}/replay{w.get('suffix', '')} --api {w['name']} {SEED} 30000" if w.get('kind') == 'api' else None


def hunt_api(a):
    import api
    if a[0] in ALT:
        k, w = api.hunt(ALT[a[0]][0], a[0][:-len(PLAIN)], None, os.path.join(WORK, 'replay-plain'), SEED, *a[1:])
        return a[0], (k, w and dict(w, suffix='-plain'))
    return a[0], api.hunt(P, a[0], None, os.path.join(WORK, 'replay'), SEED, *a[1:])


def unfold_for(r, done):
    """definitions to use in place of contracts: parsers called by the code but not by the specification, or
    the other way round (calls written in line, or factored out differently)"""
    canon = lambda n: GR.ALIAS.get(n, n)
    form, base = prove.base_of(r['name'])
    spec = {canon(c) for c in (GR.calls_of(base) if form != 't' else [base])}
    for n in done:
        spec |= {canon(c) for c in GR.calls_of(n)}
    code = {canon(c) for c in r['calls']}
    out = set()
    for n in (spec ^ code) | done:
        if base not in reach(n) and n not in reach(n, proper=True):
            out.add(n)
            out |= {a for a, b in GR.ALIAS.items() if b == n}
    return out


def reach(n, proper=False):
    seen, todo = set(), list(GR.calls_of(n)) if proper else [n]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += GR.calls_of(x)
    return seen


def bad_of(r, kinds):
    return [o for o in r['obls'] if o[3] != 'proved' and (kinds is None or o[1] in kinds)]


def cycles(results):
    """functions on a cycle of calls without consumption"""
    g = {n: set(r['left']) for n, r in results.items()}
    bad = set()
    for n in g:
        seen, todo = set(), list(g[n])
        while todo:
            x = todo.pop()
            if x == n:
                bad.add(n)
                break
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
    return sorted(bad)


def mine(paths):
    """constants of the code under suspicion: words and counts to try"""
    words, nums = set(), set()
    m = E.Machine(P, prove.Theory())

    def const(k):
        try:
            v = m.const(k)
        except Exception:
            return
        v = getattr(v, 'v', v)
        for _ in range(3):
            if hasattr(v, 's') and isinstance(getattr(v, 's'), str):
                v = v.s
            elif hasattr(v, 't') and hasattr(v.t, 's'):
                v = v.t.s
        if isinstance(v, str) and 0 < len(v) < 60:
            words.add(v)
        elif isinstance(v, int) and not isinstance(v, bool):
            if 1 < v < 5000:
                nums.add(v)
            if 32 < v < 0x80 and P.types[k['ty']]['k'] == 'char':
                words.add(chr(v))
            if 0x80 <= v < 0x110000 and not 0xd800 <= v < 0xe000:
                words.add(chr(v))

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
                const(x[1])
            else:
                for y in x:
                    walk(y)
    for f in P.fns:
        if f['path'] in paths and f['body']:
            for b in f['body']['blocks']:
                for s in b['s']:
                    walk(s)
                walk(b['t'])
                if b['t'][0] == 'switch':
                    for c, _ in b['t'][2]:
                        if 32 < int(c) < 0x3000:
                            words.add(chr(int(c)))
    return sorted(words), sorted(nums)


def main():
    global P, NTS
    pid = sys.argv[1]
    prop = props.PROPS[pid]
    thorough = TIER == 'thorough'
    build(*(['plain'] if prop.plain else []))
    log('built')
    P = Prog(os.path.join(WORK, 'mir.json'))
    lost = None
    try:
        NTS = prove.make_nts(P)
    except E.Unsupported as e:
        print('ERROR: lost anchor:', e)
        sys.exit(2)
    parsers = prop.parsers(P)
    eqs = prop.equations(P)
    if prop.plain:
        P2 = Prog(os.path.join(WORK, 'mir-plain.json'))
        alt = (P2, prove.make_nts(P2))
        ALT.update((n + PLAIN, alt) for n in prop.equations(P2))
        eqs = eqs + sorted(ALT)
    kinds = prop.kinds
    jobs = [('parser', n, dict(seconds=200, until=300)) for n in props.by_cost(parsers)] + [('api', n, dict(seconds=200, until=300)) for n in eqs]
    results = {}
    pool = Pool(NPROC)
    for r in pool.imap_unordered(job, jobs):
        results[r['name']] = r
    pool.close()
    log('first round:', sum(len(r['obls']) for r in results.values()), 'obligations')
    # second chance: definitions in place of contracts where the code is cut up differently
    for rnd in range(3):
        again = []
        for n in parsers:
            r = results[n]
            if not (r['unsupported'] or bad_of(r, kinds)):
                continue
            u = unfold_for(r, set(r['unfold']))
            if (u != set(r['unfold']) or not r['unsupported'] and not r.get('words')) and time.time() - T0 < 380:
                again.append(('parser', n, dict(seconds=120, until=430, unfold=tuple(sorted(u)), words=True)))
        if not again:
            break
        log('again with definitions:', [(a[1], a[2]['unfold']) for a in again])
        with Pool(NPROC) as pool:
            for r in pool.imap_unordered(job, again):
                old = results[r['name']]
                if not r['unsupported'] and (old['unsupported'] or all(o[3] != 'unknown' for o in bad_of(r, kinds))):
                    results[r['name']] = r
                else:
                    old['unfold'] = r['unfold']
                    old['words'] = True
    if pid == 'C15':
        for n in cycles({k: r for k, r in results.items() if k in parsers}):
            results[n]['obls'].append([n, 'descent', 'cycle of calls on the same text', 'failed',
                                       f'calls without consumption: {results[n]["left"]}'])
    failed, limits = {}, {}
    off = {}
    if prop.judge == 'layout':
        # C14 is a lemma over the specifications (mirv/layout.py), so it holds of the code where the code meets them;
        # where a parser departs from its specification (which other properties report), layouts are compared directly
        import layout
        results['layout_lemma'] = dict(name='layout_lemma', obls=[[n, 'value', 'lemma: layout carries no meaning', 'proved' if ok else 'failed', why or '']
                                                                  for n, ok, why in layout.lemma()],
                                       left=[], calls=[], queries=0, unknowns=0, solver=0, time=0, unfold=[], code=[], models=[], unsupported=None)
        off = {n: 'the parser departs from its specification; texts that differ in layout only are compared with each other'
               for n in parsers if not results[n]['unsupported'] and bad_of(results[n], kinds)}
    if pid == 'C18':
        # a form for plain text is proved through the specification; where the parser itself departs from it (which
        # other properties report), the two forms are compared with each other instead
        sus = [n for n in parsers if n[:2] == 's_' and (results[n]['unsupported'] or bad_of(results[n], kinds))]
        with Pool(NPROC) as pool:
            for r in pool.imap_unordered(job, [('parser', n[2:], dict(seconds=100, until=520, words=True, unfold=tuple(results[n]['unfold'])))
                                               for n in sus]):
                if r['unsupported'] or bad_of(r, kinds):
                    off['s_' + r['name']] = 'the parser itself departs from its specification; its forms are compared with each other'
    for n, r in results.items():
        b = [o for o in bad_of(r, kinds) if o[3] == 'failed']
        if n in off:
            limits[n] = off[n]
        elif r['unsupported']:
            limits[n] = r['unsupported']
        elif b:
            failed[n] = b
        elif bad_of(r, kinds):
            limits[n] = 'solver gave no answer: ' + str(bad_of(r, kinds)[0][:3])
        elif not [o for o in r['obls'] if kinds is None or o[1] in kinds]:
            limits[n] = 'no obligations generated'
    for n, b in failed.items():
        log('FAILED', n, [o[1:3] for o in b[:4]])
        print('    ', b[0][4][:600])
    for n, w in limits.items():
        log('BEYOND REACH', n, w[:300])
    # ---------------------------------------------------------------- witnesses and bounded stand-ins
    bounded, wit = {}, {}
    todo = [n for n in list(failed) + list(limits) if n in parsers]
    if parsers or thorough:
        budget = 60 if failed else 40
        tasks = []
        extra = {n: mine(set(results[n]['code'])) if n in failed or n in limits else ((), ()) for n in set(todo) | set(parsers)}
        hot = todo or []
        if hot:
            per = max(1, (2 * NPROC) // len(hot)) if len(hot) < 2 * NPROC else 1
            each = max(5, budget * NPROC // (per * len(hot)))
            tasks = [(n, f'{SEED}.{k}', each, prop.judge, *extra[n]) for k in range(per) for n in hot]
        if thorough:
            tasks += [(n, f'{SEED}.t', 30, prop.judge, (), ()) for n in parsers]
        elif not failed:
            # a glance at the real code besides the proofs: it also exercises what the proofs take for granted
            glance = min(8, max(.3, 10 * NPROC / len(parsers)))
            tasks += [(n, f'{SEED}.q', glance, prop.judge, (), ()) for n in parsers if n not in hot]
        log(f'searching: {len(tasks)} campaigns')
        with Pool(NPROC) as pool:
            for n, (k, acc, w) in pool.imap_unordered(hunt, tasks):
                bnd = bounded.setdefault(n, [0, 0])
                bnd[0] += k
                bnd[1] += acc
                if w is not None and (n not in wit or len(w['text']) < len(wit[n]['text'])):
                    wit[n] = w
                if wit and all(x in wit for x in failed) and not thorough:
                    break
        # where the failed function by itself shows nothing (a rejection of another kind, say), ask its callers
        dumb = [n for n in failed if n in parsers and n not in wit]
        if dumb and prop.judge not in ('forms', 'layout'):
            callers = {n: [c for c in parsers if c != n and n in reach(c)][:2 * NPROC] for n in dumb[:4]}
            tasks = [(c, f'{SEED}.c', max(4, 30 * NPROC // max(1, sum(map(len, callers.values())))), prop.judge, *extra[n])
                     for n, cs in callers.items() for c in cs]
            log(f'searching callers: {len(tasks)} campaigns')
            with Pool(NPROC) as pool:
                for c, (k, acc, w) in pool.imap_unordered(hunt, tasks):
                    if w is not None:
                        for n, cs in callers.items():
                            if c in cs:
                                wit.setdefault(n, w)
    api_wit = {}
    hot = [n for n in list(failed) + list(limits) if n in eqs]
    cold = [n for n in eqs if n not in hot] if thorough or not hot and not failed else []
    if hot or cold:
        import api
        secs = max(3, min(30, 60 * NPROC // max(1, len(hot))))
        with Pool(NPROC) as pool:
            for n, (k, w) in pool.imap_unordered(hunt_api, [(n, secs, *mine(set(results[n]['code']))) for n in hot] + [(n, 4 if thorough else .05) for n in cold]):
                bounded[n] = [k, k]
                if w is not None:
                    api_wit[n] = w
    known = props.known_findings()
    code = 0
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    nviol = 0
    kept = set()
    for n in sorted(set(failed) | set(wit) | set(api_wit)):
        w = wit.get(n) or api_wit.get(n)
        kf = props.known(known, pid, n, failed.get(n), w)
        if kf:
            kept.add(n)
            print(f'KNOWN-FINDING: property={pid} {kf}')
            continue
        path = os.path.join(V, 'evidence', f'{pid}.{n}.replay.json')
        json.dump(dict(property=pid, function=n, failed_obligations=[dict(kind=o[1], where=o[2], verifier_output=o[4])
                                                                    for o in failed.get(n, [])[:20]],
                       beyond_reach=limits.get(n), witness=w,
                       how_to_replay=None if w is None else w.get('how') or api_how(w) or f"printf '%s %s\\n' {w['root']} {w['text'].encode().hex()} | {WORK}/replay"),
                  open(path, 'w'), indent=1)
        nviol += 1
        code = 1
        print(f'VIOLATION property={pid} replay={path}' + ('' if w is not None else ' no-failing-input-found'), flush=True)
    for kf in prop.known_always(known, results):
        print(f'KNOWN-FINDING: property={pid} {kf}')
    # ---------------------------------------------------------------- evidence
    sel = [o for r in results.values() if r['name'] not in kept for o in r['obls'] if kinds is None or o[1] in kinds]
    dis = sum(1 for o in sel if o[3] == 'proved')
    proved_fns = sorted(n for n in results if n not in failed and n not in limits)
    known_fns = sorted(kept)
    by_kind = {}
    for o in sel:
        k = by_kind.setdefault(o[1], [0, 0])
        k[0] += 1
        k[1] += o[3] == 'proved'
    code_fns = sorted({c for r in results.values() for c in r['code'] if 'pddl' in c or c.startswith('<pddl') or c.startswith('parsers')})
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level='proof',
        coverage=dict(
            obligations=len(sel), discharged=dis,
            checker_cmd=f'./check.py {pid}   (MIR by rustc_public, verification conditions by /verif/mirv, discharged by z3 {prove.z3.get_version_string()}, cvc5 on unknown)',
            trusted_base=props.trusted(results),
            functions_under_contract=proved_fns, known_findings=known_fns,
            beyond_reach_bounded={n: dict(reason=w, texts_tried=bounded.get(n, [0])[0], texts_accepted=bounded.get(n, [0, 0])[1])
                                  for n, w in limits.items()},
            obligations_by_kind={k: dict(generated=a, discharged=b) for k, (a, b) in sorted(by_kind.items())},
            code_functions_executed=len(code_fns),
            solver_queries=sum(r['queries'] for r in results.values()),
            solver_seconds=round(sum(r['solver'] for r in results.values()), 2),
            solver_unknowns=sum(r['unknowns'] for r in results.values()),
            texts_compared_with_the_real_code={n: b[0] for n, b in sorted(bounded.items())},
            samples=[o[:4] for o in sel[:3]]),
        assumptions=props.ASSUMPTIONS + prop.assumptions,
        wall_s=round(time.time() - T0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
    log(f'{pid}: {dis}/{len(sel)} obligations discharged over {len(results)} functions; violations {nviol}')
    sys.exit(code)


if __name__ == '__main__':
    main()
