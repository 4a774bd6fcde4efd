"""Proof of one parser function against its specification.

verify(prog, name) runs the function's MIR symbolically from an arbitrary position s, every callee with
a contract replaced by that contract, and discharges, per outcome, the obligations
  accept    outcome Ok        =>  the specification accepts at s
  reject    outcome Error     =>  the specification rejects at s, softly
  fail      outcome Failure   =>  the specification rejects at s, hard
  rest      outcome Ok        =>  the remainder starts where the specification ends
  value     outcome Ok        =>  the value, read through the public accessors, is the specified tree
  progress  outcome Ok        =>  the remainder is a proper suffix of the input (a suffix for layout)
and for the whole run
  no-panic  no reachable panic, failed assertion or diverging call
  descent   every call to a contracted function is made on a shorter text, or on the same text to a
            function of lower rank (the ranks are checked to be a strict order over all functions)."""
import signal
import time
import z3
import exec as E
import models
import dumpm
import contract
import spec
import grammar as GR
from values import *
from theory import *


class Obl:
    __slots__ = ('fn', 'kind', 'where', 'status', 'detail')

    def __init__(self, fn, kind, where, status, detail=''):
        self.fn, self.kind, self.where, self.status, self.detail = fn, kind, where, status, detail

    def as_list(self):
        return [self.fn, self.kind, self.where, self.status, self.detail]


def make_nts(P):
    nts = {}
    for n in GR.G:
        nt = contract.NT(n)
        nt.inst = P.root_callee('p_' + n) if ('p_' + n) in P.roots else None
        if nt.inst is None:
            raise E.Unsupported('lost anchor: parser ' + n)
        nt.ty = contract.result_value_type(P, nt.inst)
        nt.total = n == 'ignore_eol_comment'
        nt.canfail = n in GR.HARD
        nts[n] = nt
    for n, m in GR.ALIAS.items():
        nts[n].alias = nts[m]
    return nts


def base_facts(th, nts):
    """facts of the contracts used at call sites; each is an obligation (progress) of its function"""
    for nt in nts.values():
        if nt.alias:
            continue

        def rest(t, nt=nt):
            s = t.arg(0)
            if nt.total:
                return [ln(t) <= ln(s), z3.Implies(hd(s) != ord(';'), t == s)]
            return [z3.Implies(nt.ok(s), ln(t) < ln(s))]

        def okf(t, nt=nt):
            s = t.arg(0)
            fs = [z3.Implies(t, hd(s) >= 0)]
            if nt.canfail:
                fs.append(z3.Implies(t, z3.Not(nt.failf(s))))
            return fs
        th.gens[nt.rest.name()] = rest
        th.gens[nt.ok.name()] = okf


def first_words(mx, th, nts, levels=4):
    """consequences of the specification of a called parser that decide by the leading characters: what the text
    must begin with (up to the first repetition, option or choice of different length) if the parser accepts it or
    rejects it hard.  They separate alternatives that begin with different words."""
    def need(e, s, d):
        """(condition implied by acceptance or hard rejection at s, position after e if it is fixed by the text)"""
        if isinstance(e, spec.Lit):
            return (starts_nocase if e.nocase else starts)(s, e.s), adv(s, len(e.s))
        if isinstance(e, spec.Run):
            return (True if e.min == 0 else in_class(hd(s), e.rs)), mk_skip(e.rs, s)
        if isinstance(e, spec.Call):
            nt = nts[e.name].get()
            if nt.total:
                return True, nt.rest(s)
            return (need(GR.G[nt.name], s, d - 1)[0] if d else True), None
        if isinstance(e, spec.Seq):
            c = True
            for x in e.es:
                n, s2 = need(x, s, d)
                c = AND(c, n)
                if s2 is None:
                    return c, None
                s = s2
            return c, s
        if isinstance(e, spec.Alt):
            c, ends = False, []
            for x in e.es:
                n, s2 = need(x, s, d)
                c = OR(c, n)
                ends.append(s2)
            same = all(x is not None and x.eq(ends[0]) for x in ends)
            return c, ends[0] if same else None
        if isinstance(e, spec.Rep):
            return (need(e.e, s, d)[0] if e.min else True), None
        if isinstance(e, spec.When):
            return need(e.e, s, d)[0], None
        if isinstance(e, (spec.Drop, spec.Text, spec.Map)):
            return need(e.e, s, d)
        return True, None

    def mk(nt, old):
        def f(t):
            c = need(GR.G[nt.name], t.arg(0), levels)[0]
            return (list(old(t)) if old else []) + ([] if isinstance(c, bool) and c else
                                                    [z3.Implies(t, c if not isinstance(c, bool) else z3.BoolVal(c))])
        return f
    for nt in nts.values():
        if not nt.alias and not nt.total:
            for d in (nt.ok, nt.failf):
                th.gens[d.name()] = mk(nt, th.gens.get(d.name()))


def base_of(name):
    """form and parser of an entry: s_X takes plain text, t_X_FORM is a method of the trait Parser"""
    if name in GR.G:
        return 'parser', name
    if name[:2] == 's_':
        return 's', name[2:]
    return 't', name[2:].rsplit('_', 1)[0]


class Prover:
    def __init__(self, P, nts, name, unfold=(), words=False):
        self.P, self.nts, self.name = P, nts, name
        self.form, self.base = base_of(name)
        self.left = set()
        self.th = Theory()
        base_facts(self.th, nts)
        self.mx = E.Machine(P, self.th)
        self.mx.reg = models.Registry(self.mx)
        if words:
            first_words(self.mx, self.th, nts)
        for m in nts.values():
            if m.name not in unfold:
                self.mx.contracts[m.inst] = contract.CallContract(m)
                if self.form == 't':
                    self.mx.contracts[P.root_callee('s_' + m.name)] = contract.CallContract(m)
        self.obls = []
        self.unfold = unfold

    def add(self, kind, where, st, goal):
        if goal is True:
            self.obls.append(Obl(self.name, kind, where, 'proved'))
            return True
        r = self.mx.prove(st, goal) if goal is not False else (True if not self.mx.feasible(st) else False)
        self.obls.append(Obl(self.name, kind, where, 'proved' if r is True else (self.mx.refuted(st, goal) if r is False else 'unknown'),
                             '' if r is True else f'goal {str(goal)[:300]} under {[str(c)[:120] for c in st.pc[-8:]]}'))
        return r is True

    def run(self):
        nt = self.nts[self.base]
        mx = self.mx
        st = E.State({})
        self.th.visit(START)
        inst, args, expr = self.task()
        outs = mx.run(inst, args, st)
        cx = spec.SymCx(mx, self.nts)
        cx.open = {n: GR.G[n] for n in self.unfold}
        sp = expr.sym(cx, START)
        for c in (sp.ok, sp.fail):
            if not isinstance(c, bool):
                self.th.visit(c)
        self.th.visit(sp.rest)
        if nt.canfail or sp.fail is not False:
            self.add('exclusive', 'spec', st, NOT(AND(sp.ok, sp.fail)))
        if not nt.canfail and sp.fail is not False:
            self.add('soft', 'spec', st, NOT(sp.fail))
        n_ok = 0
        for k, (s, v) in enumerate(outs):
            v = mx.force(s, v)
            w = f'outcome {k}'
            if v.var == 0:
                n_ok += 1
                t = mx.force(s, v.f[0])
                rest = mx.force(s, t.f[0])
                if not isinstance(rest, Span) or rest.b is not None:
                    raise E.Unsupported('remainder')
                good = self.add('accept', w, s, AND(sp.ok, NOT(sp.fail)))
                self.add('rest', w, s, rest.a == sp.rest)
                self.add('progress', w, s, ln(rest.a) <= ln(START) if nt.total else ln(rest.a) < ln(START))
                if nt.total:
                    self.add('layout', w, s, OR(hd(START) == ord(';'), rest.a == START))
                if nt.valued:
                    s = s.assume(sp.ok) or s
                    for s2, d in self.dump(s, t.f[1]):
                        self.cmp(s2, dumpm.tree_of(mx, s2, d), sp.tree, 'value')
            else:
                e = mx.force(s, v.f[0])
                if e.var == 1:
                    self.add('reject', w, s, AND(NOT(sp.ok), NOT(sp.fail)))
                elif e.var == 2:
                    self.add('fail', w, s, sp.fail)
                else:
                    self.add('incomplete', w, s, False)
        for o in mx.obls:
            self.obls.append(Obl(self.name, 'no-panic', f'{o.fn}: {o.what}', o.status, o.detail))
        if n_ok == 0:
            self.obls.append(Obl(self.name, 'reachable', 'no Ok outcome', 'failed'))
        if self.form == 'parser':
            self.edges()
        return self

    def task(self):
        """what is executed, on what, and what it is to do"""
        P, n = self.P, self.base
        if self.form == 'parser':
            return self.nts[n].inst, [Span(START)], GR.G[n]
        if self.form == 's':            # the instance for plain text
            return P.root_callee(self.name), [Str(TSlice(START, None))], GR.G[n]
        return P.roots[self.name], [Span(START)], spec.Call(n)       # an entry point: does what the parser does

    def dump(self, s, val):
        inst = self.P.roots.get('d_' + self.base)
        s = s.fork()
        return self.mx.run(inst, [RefVal(val)], s)

    # -------------------------------------------------------------- descent
    def edges(self):
        """calls on a text that is not provably shorter"""
        self.left = set()
        mx = self.mx
        for name, s, gs, pc in mx.calls:
            if name in self.left:
                continue
            facts = list(pc)
            for g, start, pc2 in gs:
                facts += [ln(g) <= ln(start)] + list(pc2)
            st = E.State({})
            for f in facts:
                st2 = st.assume(f)
                if st2 is None:
                    break
                st = st2
            else:
                if s.eq(START) or mx.prove(st, ln(s) < ln(START)) is not True:
                    self.left.add(name)
                    if mx.prove(st, ln(s) <= ln(START)) is not True:
                        self.obls.append(Obl(self.name, 'descent', name, 'failed', f'call at {s}'))

    # -------------------------------------------------------------- trees
    def cmp(self, st, a, b, path):
        """code tree a against specified tree b under the path condition of st"""
        mx = self.mx
        if a is b:
            return True
        for x, first in ((a, True), (b, False)):
            if x is not None and x[0] == 'ite':
                ok = True
                done = 0
                for c, t in x[1]:
                    s2 = st.assume(c)
                    if s2 is None or not mx.feasible(s2):
                        continue
                    done += 1
                    if not (self.cmp(s2, t, b, path) if first else self.cmp(s2, a, t, path)):
                        ok = False
                if x[1] and not done and mx.feasible(st):
                    return self.bad(st, path, 'no alternative of the value applies')
                if len(x[1]) > 1:
                    # the alternatives must cover the path
                    if self.mx.prove(st, OR(*[c for c, _ in x[1]])) is not True:
                        return self.bad(st, path, 'alternatives do not cover the path')
                return ok
        if b is None or a is None:
            return self.bad(st, path, f'{a} vs {b}')
        if a[0] == 'n' and b[0] == 'n':
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return self.bad(st, path, f'built {a[1]}/{len(a[2])}, specified {b[1]}/{len(b[2])}', 'form')
            return all([self.cmp(st, x, y, f'{path}.{a[1]}[{i}]') for i, (x, y) in enumerate(zip(a[2], b[2]))])
        if a[0] == 'call' and b[0] == 'call':
            if a[1] != b[1]:
                return self.bad(st, path, f'value of {a[1]} where {b[1]} is specified')
            return self.add('value', path, st, a[2] == b[2] if not a[2].eq(b[2]) else True)
        if a[0] == b[0] and a[0] in ('txt', 'num', 'u64'):
            return self.add('value', path, st, AND(a[1] == b[1], a[2] == b[2]))
        if a[0] == 'lit' and b[0] == 'lit':
            return self.add('value', path, st, a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'lit' and y[0] == 'txt':
                return self.add('value', path, st, text_eq(TSlice(y[1], y[2]), TLit(x[1])))
        if a[0] == 'list' and b[0] == 'list':
            return self.cmp_lists(st, a[1], b[1], path)
        return self.bad(st, path, f'built {show(a)}, specified {show(b)}')

    def bad(self, st, path, why, kind='value'):
        if not self.mx.feasible(st):
            return True
        self.obls.append(Obl(self.name, kind, path, self.mx.refuted(st, why), f'{why} under {[str(c)[:120] for c in st.pc[-8:]]}'))
        return False

    def cmp_lists(self, st, xs, ys, path):
        xs, ys = list(xs), list(ys)
        for zs, first in ((xs, True), (ys, False)):
            for i, z in enumerate(zs):
                if z[0] == 'cases':
                    ok = True
                    for c, segs in z[1]:
                        s2 = st.assume(c)
                        if s2 is None or not self.mx.feasible(s2):
                            continue
                        w = zs[:i] + list(segs) + zs[i + 1:]
                        if not (self.cmp_lists(s2, w, ys, path) if first else self.cmp_lists(s2, xs, w, path)):
                            ok = False
                    return ok
        if len(xs) != len(ys):
            # drop repetitions that are empty on this path
            xs = [x for x in xs if not self.empty(st, x)]
            ys = [y for y in ys if not self.empty(st, y)]
        if len(xs) != len(ys):
            return self.bad(st, path, f'list of {[show(x) for x in xs]}, specified {[show(y) for y in ys]}')
        r = True
        for i, (x, y) in enumerate(zip(xs, ys)):
            p = f'{path}[{i}]'
            if x[0] == 'seg' and y[0] == 'seg':
                if x[1] is not y[1] or x[5] != y[5]:
                    r = self.bad(st, p, 'different repetitions')
                    continue
                r &= self.add('value', p + '.start', st, x[2] == y[2] if not x[2].eq(y[2]) else True)
                g = x[3]
                item = y[4] if y[3].eq(g) else tsubst(y[4], (y[3], g))
                s2 = E.State(dict(st.cells)).assume(x[1].at(x[1].okE, g))
                if s2 is not None:
                    r &= self.cmp(s2, x[4], item, p + '.item')
            elif x[0] in ('seg', 'opq', 'opqmap') or y[0] in ('seg', 'opq', 'opqmap'):
                if x[0] == 'opq' and y[0] == 'opq' and x[1] == y[1]:
                    r &= self.add('value', p, st, x[2] == y[2])
                elif x[0][:3] == y[0][:3] == 'opq' and x[1] == y[1] and len(x) == len(y) and x[4] == y[4] and (
                        x[2].eq(y[2]) if isinstance(x[2], z3.ExprRef) else x[2] == y[2]):
                    # the same sequence, each element read in some way
                    r &= self.cmp(E.State(dict(st.cells)), x[3], y[3], p + '.item')
                else:
                    r = self.bad(st, p, f'built {show(x)}, specified {show(y)}')
            else:
                r &= self.cmp(st, x, y, p)
        return r

    def empty(self, st, x):
        if x[0] == 'opq' or x[0] == 'opqmap' and not x[4]:
            return self.mx.prove(st, z3.Function('empty_' + x[1], S, z3.BoolSort())(x[2])) is True
        if x[0] != 'seg':
            return False
        return self.mx.prove(st, NOT(x[1].at(x[1].okE, x[2]))) is True


def tsubst(t, *pairs):
    if isinstance(t, z3.ExprRef):
        return z3.substitute(t, *pairs)
    if isinstance(t, tuple):
        return tuple(tsubst(x, *pairs) for x in t)
    return t


def show(t, d=2):
    if not isinstance(t, tuple):
        return str(t)[:60]
    if t[0] == 'n':
        return t[1] + ('(' + ', '.join(show(x, d - 1) for x in t[2]) + ')' if d > 0 else '(..)')
    if t[0] == 'call':
        return f'<{t[1]}@{str(t[2])[:40]}>'
    if t[0] == 'list':
        return '[' + ', '.join(show(x, d - 1) for x in t[1]) + ']'
    if t[0] == 'seg':
        return f'{show(t[4], d - 1)}*'
    return str(t)[:80]


class Timeout(E.Unsupported):
    pass


def verify(P, nts, name, unfold=(), words=False, seconds=None):
    t0 = time.time()
    pr = Prover(P, nts, name, unfold, words)
    err = None

    def bell(*_):
        raise Timeout(f'no result within {seconds} s')
    if seconds:
        signal.signal(signal.SIGALRM, bell)
        signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        pr.run()
    except (E.Unsupported, E.Split, E.Decide, RecursionError, z3.Z3Exception, KeyError, IndexError, AttributeError,
            TypeError, AssertionError, ValueError) as e:
        # the engine cannot treat the current form of the function: never a verdict
        err = f'{type(e).__name__}: {str(e)[:300]} (in {getattr(e, "where", None)})'
    finally:
        if seconds:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(name=name, obls=[o.as_list() for o in pr.obls], unsupported=err, left=sorted(pr.left),
                calls=sorted({c[0] for c in pr.mx.calls}), queries=pr.mx.nq, unknowns=pr.mx.unknowns,
                solver=pr.mx.tz, time=time.time() - t0, unfold=sorted(unfold), words=words,
                code=sorted(pr.mx.executed), models=sorted(pr.mx.modelled))


if __name__ == '__main__':
    import sys
    from prog import Prog
    P = Prog(sys.argv[1])
    nts = make_nts(P)
    tot = 0
    for n in sys.argv[2:] or sorted(GR.G):
        r = verify(P, nts, n)
        bad = [o for o in r['obls'] if o[3] != 'proved']
        tot += len(r['obls']) - len(bad)
        print(f"{n:28s} {r['time']:6.2f}s q={r['queries']} proved={len(r['obls']) - len(bad)} bad={len(bad)} left={r['left']} {r['unsupported'] or ''}")
        for o in bad[:8]:
            print('     ', o[1:4], o[4][:900])
    print(tot)
