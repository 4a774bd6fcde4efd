"""Proof of an equation about the types' own functions (roots/gen_api.py): both sides are executed symbolically on
the same arbitrary arguments and must give the same tree, without panicking.  Arguments are opaque first; where the
code looks into them they are opened one or two levels (every variant, every field opaque)."""
import json
import signal
import subprocess
import time
import z3
import exec as E
import models
import dumpm
import prove
from values import *
from theory import *
import apim
from prove import Obl, Prover


class ApiProver(Prover):
    def __init__(self, P, nts, name, level):
        super().__init__(P, nts, name)
        self.mx.api = True
        self.mx.name = name
        self.level = level
        self.mx.number_keys = set()
        self.namecut = not name.startswith('c04_')
        self.mx.name_open = not self.namecut
        self.mx.clone_open = name.endswith('_clone')
        self.mx.enum_open = name.startswith(('c01_', 'c02_', 'c20_'))

    def arg(self, ty, key, level):
        P, mx = self.P, self.mx
        t = P.types[ty]
        k = t['k']
        args = (START,)
        if k == 'ref':
            v = self.arg(t['to'], key, level)
            return v if isinstance(v, Str) else RefVal(v)
        if k == 'str' or (k == 'adt' and t['path'] == 'std::string::String'):
            s = z3.Const('pos_' + key, S)
            return Str(TSlice(s, None))
        if k == 'float':
            return Flt('z', z3.Const('f_' + key, z3.Float32() if t['bits'] == 32 else z3.Float64()))
        if k in ('int', 'uint'):
            return Int(apim.int_term(mx, Sym(key, args, ty)))
        if k == 'bool':
            return Bool(z3.Bool('b_' + key))
        if k == 'tuple':
            return Agg(None, 0, [self.arg(e, f'{key}.{i}', level) for i, e in enumerate(t['elems'])]) if t['elems'] else UNIT
        if k != 'adt':
            raise E.Unsupported('argument of type ' + k)
        if t.get('box'):
            return Sym(key, args, ty) if level == 0 else Box(self.arg(t['args'][0], key, level))
        opened = t['crate'] == 'pddl' and t['path'] not in ('pddl::Number',) and t['path'] != 'pddl::Name' \
            or t['path'] == 'std::option::Option' or t['path'] == 'pddl::types::name::NameVariant'
        if t['path'] == 'pddl::Name' and not self.namecut:
            txt = Str(TSymT(key + '.text', args))
            nv = t['variants'][0]['fields'][0][1]
            vs = P.types[nv]['variants']
            tag = models.sym_discr(mx, None, Sym(key + '.nv', args, nv)).v
            alts = []
            for n, v in enumerate(vs):
                if len(v['fields']) != 1:
                    raise E.Unsupported('representation of names')
                alts.append((tag == int(v['discr']), Agg(mx.canon(nv), n, [txt])))
            return Agg(mx.canon(ty), 0, [Union(alts) if len(alts) > 1 else alts[0][1]])
        if level == 0 or not opened or apim.fieldless(t):
            return Sym(key, args, ty)
        cty = mx.canon(ty)
        if t['kind'] == 'struct':
            fs = t['variants'][0]['fields']
            nl = level if len(fs) == 1 else level - 1
            return Agg(cty, 0, [self.arg(f[1], key if len(fs) == 1 else f'{key}.{i}', nl) for i, f in enumerate(fs)])
        tag = models.sym_discr(mx, None, Sym(key, args, ty)).v
        alts = []
        for n, v in enumerate(t['variants']):
            alts.append((tag == int(v['discr']), Agg(cty, n, [self.arg(f[1], f'{key}#{n}.{i}', level - 1)
                                                               for i, f in enumerate(v['fields'])])))
        return Union(alts) if len(alts) > 1 else alts[0][1]


    def run(self):
        mx = self.mx
        l, r = self.P.api[(self.name, 'l')], self.P.api[(self.name, 'r')]
        st = E.State({})
        self.th.visit(START)
        tys = self.P.fns[l]['body']['locals']
        n = self.P.fns[l]['body']['args']
        args = [self.arg(tys[i + 1], f'a{i}', self.level) for i in range(n)]
        pend = [(st, args)]
        k = 0
        outs = mx.run(l, args, st)
        for s, v in outs:
            if not mx.feasible(s):
                continue
            a = dumpm.tree_of(mx, s, v)
            for s2, w in mx.run(r, args, s):
                if not mx.feasible(s2):
                    continue
                k += 1
                n = len(self.obls)
                if self.cmp(s2, a, dumpm.tree_of(mx, s2, w), 'value') and len(self.obls) == n:
                    self.add('value', 'same tree', s2, True)
        for o in mx.obls if not self.name.endswith('_panics') else ():
            self.obls.append(Obl(self.name, 'no-panic', f'{o.fn}: {o.what}', o.status, o.detail))
        if k == 0:
            self.obls.append(Obl(self.name, 'reachable', 'no outcome', 'failed'))

    def cmp(self, st, a, b, path):
        if a is not None and b is not None:
            if a[0] == 'bool' and b[0] == 'bool':
                return self.add('value', path, st, Zb(a[1]) == Zb(b[1]))
            if a[0] == 'sym' and b[0] == 'sym':
                x, y = a[1], b[1]
                if x.key == y.key:
                    return self.add('value', path, st, True)
                return self.add('value', path, st, apim.sym_eq(self.mx, st, x, y))
            ta, tb = apim.tree_text(a), apim.tree_text(b)
            if ta is not None and tb is not None and 'ite' not in (a[0], b[0]):
                return self.add('value', path, st, True if tsame(ta, tb) else text_eq(ta, tb))
            if a[0] == 'int' and b[0] == 'int':
                return self.add('value', path, st, a[1] == b[1])
            fa, fb = (apim.tree_flt(self.mx, x) if x[0] in ('flt', 'sym') else None for x in (a, b))
            if fa is not None and fb is not None:
                return self.add('value', path, st, True if fa.eq(fb) else fa == fb)
            if a[0] == 'list' and b[0] == 'list':
                return self.cmp_lists(st, a[1], b[1], path)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'list' and y[0] == 'sym':
                    y2 = ('list', (('opq', y[1].key, y[1].args[0]),))
                    return self.cmp_lists(st, x[1], y2[1], path)
        return super().cmp(st, a, b, path)


def attempt(P, nts, name, level, deadline):
    pr = ApiProver(P, nts, name, level)
    err = None
    E_ = (E.Unsupported, z3.z3types.Z3Exception, E.Split, E.Decide, RecursionError, z3.Z3Exception, KeyError, IndexError, AttributeError,
          TypeError, AssertionError, ValueError)

    def bell(*_):
        raise prove.Timeout('no result in time')
    signal.signal(signal.SIGALRM, bell)
    signal.setitimer(signal.ITIMER_REAL, max(1, deadline - time.time()))
    try:
        pr.run()
    except E_ as e:
        err = f'{type(e).__name__}: {str(e)[:300]} (in {getattr(e, "where", None)})'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return pr, err


def verify(P, nts, name, seconds=120, levels=(0, 1, 2), **_):
    t0 = time.time()
    q = u = tz = 0
    best = None
    for lv in levels:
        pr, err = attempt(P, nts, name, lv, t0 + seconds)
        q, u, tz = q + pr.mx.nq, u + pr.mx.unknowns, tz + pr.mx.tz
        bad = sum(o.status != 'proved' for o in pr.obls)
        key = (err is not None, bad)
        if best is None or key < best[0]:
            best = (key, pr, err, lv)
        if key == (False, 0) or time.time() - t0 > seconds:
            break
    key, pr, err, lv = best
    return dict(name=name, obls=[o.as_list() for o in pr.obls], unsupported=err, left=[], calls=[], queries=q, unknowns=u,
                solver=tz, time=time.time() - t0, unfold=[f'arguments opened {lv} level(s)'] if lv else [],
                code=sorted(pr.mx.executed), models=sorted(pr.mx.modelled))


def hunt(P, name, result, binary, seed, seconds, words=(), nums=()):
    """native runs with random arguments"""
    p = subprocess.run([binary, '--api', name, str(seed), str(int(seconds * 1000)), *[w for w in words if w and '\0' not in w], *[f'#{n}' for n in nums]], capture_output=True, text=True)
    if p.returncode and not p.stdout:
        return 1, dict(kind='api', name=name, args='(process died)', expect=None, got=['crash', p.returncode])
    r = json.loads(p.stdout.strip().split('\n')[-1])
    if r['fail'] is None:
        return r['runs'], None
    return r['runs'], dict(kind='api', name=name, **r['fail'])


if __name__ == '__main__':
    import sys
    from prog import Prog
    P = Prog(sys.argv[1])
    nts = prove.make_nts(P)
    for n in sorted({a for a, _ in P.api}):
        if not any(n.startswith(x) for x in sys.argv[2:]):
            continue
        r = verify(P, nts, n)
        bad = [o for o in r['obls'] if o[3] != 'proved']
        print(f"{n:38s} {r['time']:6.2f}s q={r['queries']} proved={len(r['obls']) - len(bad)} bad={len(bad)} {r['unfold']} {r['unsupported'] or ''}", flush=True)
        for o in bad[:4]:
            print('     ', o[1:4], o[4][:500])
