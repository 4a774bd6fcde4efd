"""Specification language: ordered-choice grammars that build trees.

Every expression has two readings, kept side by side:
  sym(cx, s)      the contract of the expression at a symbolic position s: when it matches, when it
                  fails hard, where the match ends, and the tree it denotes
  run(cx, t, i)   the same meaning, executed on a concrete text (used as an oracle to look for inputs
                  that witness a failed obligation)
and gen(rng, d) produces texts for the witness search.

Trees: ('n', label, children) | ('call', parser, pos) | ('txt', a, b) | ('lit', s) | ('num', a, b)
| ('u64', a, b) | ('list', segs) | ('ite', ((cond, tree), ...)) | ('tup', items) | None (no value).
List segments: a tree, or ('seg', rec, s, g, item, flat)."""
import z3
from theory import *
import models


class Res:
    __slots__ = ('ok', 'fail', 'rest', 'tree')

    def __init__(self, ok, fail, rest, tree):
        self.ok, self.fail, self.rest, self.tree = ok, fail, rest, tree


class SymCx:
    """symbolic evaluation context: shares the repetition classes with the proof of the code"""

    def __init__(self, mx, nts):
        self.mx, self.nts = mx, nts
        self.depth = mx.gdepth
        self.open = {}          # names whose definition is used in place of their contract


class Expr:
    def __rshift__(self, label):
        return Node(label, self)


class Lit(Expr):
    def __init__(self, s, nocase=False):
        self.s, self.nocase = s, nocase

    def sym(self, cx, s):
        r = adv(s, len(self.s))
        return Res((starts_nocase if self.nocase else starts)(s, self.s), False, r, None)

    def run(self, cx, t, i):
        x = t[i:i + len(self.s)]
        if x == self.s or (self.nocase and x.lower() == self.s.lower()):
            return ('ok', i + len(self.s), None)
        return ('err',)

    def gen(self, g, d):
        return self.s if not self.nocase or g.r.random() < .5 else ''.join(
            g.r.choice((c.upper(), c.lower())) for c in self.s)


class Run(Expr):
    """maximal run of a character class"""

    def __init__(self, rs, minimum, sample=' '):
        self.rs, self.min, self.sample = cls_norm(rs), minimum, sample

    def sym(self, cx, s):
        r = mk_skip(self.rs, s)
        return Res(True if self.min == 0 else in_class(hd(s), self.rs), False, r, ('txt', s, r))

    def run(self, cx, t, i):
        j = i
        while j < len(t) and any(a <= ord(t[j]) <= b for a, b in self.rs):
            j += 1
        return ('ok', j, ('txt', t[i:j])) if j - i >= self.min else ('err',)

    def gen(self, g, d):
        n = max(self.min, g.r.choice((1, 1, 2, 3)))
        return ''.join(g.r.choice(self.sample) for _ in range(n))


class Call(Expr):
    def __init__(self, name):
        self.name = name

    def sym(self, cx, s):
        if self.name in cx.open:
            return cx.open[self.name].sym(cx, s)
        nt = cx.nts[self.name].get()
        return Res(nt.okc(s), nt.failc(s), nt.rest(s), ('call', nt.name, s) if nt.valued else None)

    def run(self, cx, t, i):
        return cx.call(self.name, t, i)

    def gen(self, g, d):
        return g.nt(self.name, d)


class Seq(Expr):
    def __init__(self, *es):
        self.es = es

    def sym(self, cx, s):
        ok, fail, trees = True, False, []
        for e in self.es:
            r = e.sym(cx, s)
            fail = OR(fail, AND(ok, r.fail))
            ok = AND(ok, r.ok)
            s = r.rest
            if r.tree is not None:
                trees.append(r.tree)
        return Res(ok, fail, s, tup(trees))

    def run(self, cx, t, i):
        trees = []
        for e in self.es:
            r = e.run(cx, t, i)
            if r[0] != 'ok':
                return r
            i = r[1]
            if r[2] is not None:
                trees.append(r[2])
        return ('ok', i, tup(trees))

    def gen(self, g, d):
        return ''.join(e.gen(g, d) for e in self.es)


def tup(trees):
    if not trees:
        return None
    trees = [y for x in trees for y in (x[1] if x[0] == 'tup' else (x,))]
    return trees[0] if len(trees) == 1 else ('tup', tuple(trees))


class Alt(Expr):
    def __init__(self, *es):
        self.es = es

    def sym(self, cx, s):
        ok, fail, none = False, False, True
        rests, trees = [], []
        for e in self.es:
            r = e.sym(cx, s)
            c = AND(none, r.ok)
            ok = OR(ok, c)
            fail = OR(fail, AND(none, r.fail))
            rests.append((c, r.rest))
            trees.append((c, r.tree))
            none = AND(none, NOT(r.ok), NOT(r.fail))
        rest = rests[-1][1]
        for c, x in reversed(rests[:-1]):
            rest = IF(c, x, rest)
        return Res(ok, fail, rest, ite(trees))

    def run(self, cx, t, i):
        for e in self.es:
            r = e.run(cx, t, i)
            if r[0] != 'err':
                return r
        return ('err',)

    def gen(self, g, d):
        es = self.es
        if d <= 0:
            es = sorted(es, key=lambda e: cost(g, e))[:max(1, len(es) // 3)]
        return g.r.choice(es).gen(g, d)


def ite(trees):
    if all(t is None for _, t in trees):
        return None
    t0 = trees[0][1]
    if all(t is t0 for _, t in trees):
        return t0
    return ('ite', tuple(trees))


class Opt(Expr):
    """optional part: some(tree) or none (or no value at all)"""

    def __init__(self, e, raw=None):
        self.e, self.raw = e, raw

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        tree = None
        if r.tree is not None:
            tree = ('ite', ((r.ok, ('n', 'some', (r.tree,))), (NOT(r.ok), ('n', 'none', ()))))
        return Res(NOT(r.fail), r.fail, IF(r.ok, r.rest, s), tree)

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        if r[0] == 'ok':
            return ('ok', r[1], ('n', 'some', (r[2],)) if r[2] is not None else None)
        if r[0] == 'err':
            return ('ok', i, ('n', 'none', ()) if valued(self.e, cx) else None)
        return r

    def gen(self, g, d):
        return self.e.gen(g, d - 1) if g.r.random() < (.6 if d > 0 else .15) else ''


def valued(e, cx):
    """does the expression denote a value?"""
    if isinstance(e, (Lit, AtMost1)) or getattr(e, 'unvalued', False):
        return False
    if isinstance(e, Run):
        return True
    if isinstance(e, Call):
        return cx.valued(e.name)
    if isinstance(e, Seq):
        return any(valued(x, cx) for x in e.es)
    if isinstance(e, Alt):
        return any(valued(x, cx) for x in e.es)
    if isinstance(e, (Opt, Cut, When)):
        return valued(e.e, cx)
    if isinstance(e, Drop):
        return False
    return True


class Drop(Expr):
    """match without a value"""

    def __init__(self, e):
        self.e = e

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(r.ok, r.fail, r.rest, None)

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return r if r[0] != 'ok' else ('ok', r[1], None)

    def gen(self, g, d):
        return self.e.gen(g, d)


class Text(Expr):
    """the recognised text itself"""

    def __init__(self, e, kind='txt'):
        self.e, self.kind = e, kind

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(r.ok, r.fail, r.rest, (self.kind, s, r.rest))

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return r if r[0] != 'ok' else ('ok', r[1], (self.kind, t[i:r[1]]))

    def gen(self, g, d):
        return self.e.gen(g, d)


class When(Expr):
    """match of e, kept only if a condition on the matched text holds (otherwise a soft failure)"""

    def __init__(self, e, pred, conc, hard=False):
        self.e, self.pred, self.conc, self.hard = e, pred, conc, hard

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        p = self.pred(s, r.rest)
        return Res(AND(r.ok, p), r.fail, r.rest, r.tree)

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        if r[0] == 'ok' and not self.conc(t[i:r[1]], t[r[1]:]):
            return ('err',)
        return r

    def gen(self, g, d):
        return self.e.gen(g, d)


class Cut(Expr):
    """a failure here is final"""

    def __init__(self, e):
        self.e = e

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(r.ok, NOT(r.ok), r.rest, r.tree)

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return ('fail',) if r[0] == 'err' else r

    def gen(self, g, d):
        return self.e.gen(g, d)


class Map(Expr):
    def __init__(self, e, f):
        self.e, self.f = e, f

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(r.ok, r.fail, r.rest, self.f(r.tree))

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return r if r[0] != 'ok' else ('ok', r[1], self.f(r[2]))

    def gen(self, g, d):
        return self.e.gen(g, d)


def children(t):
    if t is None:
        return ()
    if t[0] == 'tup':
        return t[1]
    return (t,)


class Node(Map):
    def __init__(self, label, e):
        super().__init__(e, lambda t: ('n', label, children(t)))
        self.label = label


class Const(Map):
    """a constant value for a match"""

    def __init__(self, e, tree):
        super().__init__(e, lambda t: tree)


class Rep(Expr):
    """repetition; sep=None: e e e ... ; else e sep e sep ... e"""

    def __init__(self, e, sep=None, minimum=0):
        self.e, self.sep, self.min = e, sep, minimum

    def sym(self, cx, s):
        mx = cx.mx
        g = z3.Const(f'g{cx.depth}', S)
        cx.depth += 1
        r = self.e.sym(cx, g)
        p = self.sep.sym(cx, g) if self.sep is not None else None
        cx.depth -= 1
        sub = lambda e: subst(e, (g, models.GEN))
        rec = mx.reg.get(sub(r.ok), sub(r.fail), sub(r.rest), sub(p.ok) if p else None, sub(p.rest) if p else None)
        okE = rec.at(rec.okE, s)
        rest = rec.restf(s) if rec.run is None else mk_skip(rec.run, s)
        fail = rec.failf(s) if rec.canfail else False
        ok = NOT(fail)
        if self.min:
            ok = AND(ok, okE)
        tree = ('list', (('seg', rec, s, g, r.tree, False),)) if r.tree is not None else None
        return Res(ok, fail, rest, tree)

    def run(self, cx, t, i):
        items = []
        r = self.e.run(cx, t, i)
        if r[0] == 'fail':
            return r
        val = valued(self.e, cx)
        while r[0] == 'ok':
            if r[1] == i and self.sep is None:
                break
            items.append(r[2])
            i = r[1]
            j = i
            if self.sep is not None:
                p = self.sep.run(cx, t, i)
                if p[0] != 'ok' or p[1] == i:
                    break
                j = p[1]
            r = self.e.run(cx, t, j)
            if r[0] == 'fail':
                return r
        if len(items) < self.min:
            return ('err',)
        return ('ok', i, ('list', tuple(items)) if val else None)

    def gen(self, g, d):
        n = g.r.choice((0, 1, 2, 2, 3)) if d > 0 else g.r.choice((0, 0, 1))
        n = max(n, self.min)
        out = []
        for k in range(n):
            if k and self.sep is not None:
                out.append(self.sep.gen(g, d))
            out.append(self.e.gen(g, d - 1))
        return ''.join(out)


class AtMost1(Expr):
    """zero or one occurrence, as a list-free optional text"""

    def __init__(self, e):
        self.e = e

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(NOT(r.fail), r.fail, IF(r.ok, r.rest, s), None)

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return ('ok', r[1], None) if r[0] == 'ok' else (('ok', i, None) if r[0] == 'err' else r)

    def gen(self, g, d):
        return self.e.gen(g, d) if g.r.random() < .4 else ''


def list_map(t, f):
    """map over the elements of a list tree (concrete or symbolic)"""
    if t[0] == 'ite':
        return ('ite', tuple((c, list_map(x, f)) for c, x in t[1]))
    assert t[0] == 'list', t[0]
    out = []
    for x in t[1]:
        if x is not None and x[0] == 'seg':
            _, rec, s, g, item, flat = x
            out.append(('seg', rec, s, g, list_map(item, f) if flat else f(item), flat))
        else:
            out.append(f(x))
    return ('list', tuple(out))


def list_flat(t):
    """concatenation of a list of lists"""
    out = []
    for x in t[1]:
        if x is not None and x[0] == 'seg':
            _, rec, s, g, item, flat = x
            assert not flat
            out.append(('seg', rec, s, g, item, True))
        else:
            out.extend(x[1])
    return ('list', tuple(out))


def list_cat(*ts):
    out = []
    for t in ts:
        out.extend(t[1])
    return ('list', tuple(out))


# ---------------------------------------------------------------- execution of the specification
class Oracle:
    def __init__(self, grammar, unvalued=('ignore_eol_comment',)):
        self.g = grammar
        self.memo = {}
        self.unv = set(unvalued)
        self.text = None

    def valued(self, name):
        return name not in self.unv

    def call(self, name, t, i):
        if t is not self.text:
            self.text = t
            self.memo = {}
        k = (name, i)
        if k not in self.memo:
            self.memo[k] = ('err',)
            self.memo[k] = self.g[name].run(self, t, i)
        return self.memo[k]

    def parse(self, name, t):
        self.text, self.memo = t, {}
        return self.call(name, t, 0)


def cost(g, e):
    """rough size of the smallest sentence, to let generation terminate"""
    if isinstance(e, (Lit, Run)):
        return 1
    if isinstance(e, Call):
        return g.cost.get(e.name, 50)
    if isinstance(e, Seq):
        return sum(cost(g, x) for x in e.es)
    if isinstance(e, Alt):
        return min(cost(g, x) for x in e.es)
    if isinstance(e, (Opt, AtMost1)) or getattr(e, 'nullable', False):
        return 0
    if isinstance(e, Rep):
        return cost(g, e.e) if e.min else 0
    return cost(g, e.e)


class Generator:
    def __init__(self, grammar, rng):
        self.g, self.r = grammar, rng
        self.cost = {}
        for _ in range(12):
            for n, e in grammar.items():
                self.cost[n] = min(self.cost.get(n, 50), cost(self, e) + 1)

    def nt(self, name, d):
        if name == 'ignore_eol_comment':
            return self.r.choice(('',) * 12 + (';c\n', '; a (b) "x"\n ', ';\n', ';x\r\n', ';a\n;b\n'))
        if name == 'name':
            r = self.r.random()
            if r < .75:
                return self.r.choice(('a', 'b', 'c', 'x', 'ab', 'x-1', 'at', 'p_q', 'object', 'number', 'N2'))
            if r < .9:
                return self.r.choice(('and', 'or', 'not', 'forall', 'preference', 'either', 'start', 'end', 'all',
                                      'total-time', 'objects', 'minimize', 'increase', 'over', 'when', 'imply', 'exists'))
            return self.r.choice((' a', '\n b', 'Zz9', 'a--', 'x_'))
        return self.g[name].gen(self, d - 1)

    def sentence(self, name, d=None):
        if d is None:
            d = self.r.choice((1, 2, 3, 4, 5))
        return self.g[name].gen(self, d)
