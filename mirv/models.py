"""Trusted contracts on functions outside the repository (nom, nom_locate, std), plus the contract of
Name (verified separately).  Each entry is an assumption listed in DESIGN.md."""
import z3
from values import *
from theory import *
import loops

MODELS = {}
RES = 'std::result::Result'
NERR = 'nom::internal::Err'
OPTION = 'std::option::Option'
used = set()


def ex():
    import exec as _e
    return _e


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


PREFIX = []


def prefix_model(test):
    def d(f):
        PREFIX.append((test, f))
        return f
    return d


_lookup = {}


def lookup(path):
    r = _lookup.get(path, 0)
    if r == 0:
        r = MODELS.get(path)
        if r is None:
            for t, f in PREFIX:
                if t(path):
                    r = f
                    break
        _lookup[path] = r
    if r is not None:
        used.add(path)
    return r


PANICS = ('core::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'std::result::unwrap_failed',
          'std::option::unwrap_failed', 'std::option::expect_failed', 'core::option::unwrap_failed',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'std::process::abort', 'std::process::exit',
          'core::slice::index::slice_', 'core::str::slice_error_fail', 'std::alloc::handle_alloc_error')


def is_panic(path):
    return path.startswith(PANICS)


def one(st, v):
    return [(st, v)]


def ok(span, v):
    return Agg(RES, 0, [Agg(None, 0, [span, v])])


def err(kind=1):
    return Agg(RES, 1, [Agg(NERR, kind, [Opaque('err')])])


def some(v):
    return Agg(OPTION, 1, [v])


NONE = Agg(OPTION, 0, [])


def branch(mx, st, cond, yes, no):
    """outcomes by condition; yes/no: state -> list of outcomes"""
    d = st.lookup(cond)
    out = []
    if d is not False:
        s = st.assume(cond)
        if s is not None and (d is True or mx.feasible(s)):
            out += yes(s)
            if d is True:
                return out
    if d is not True:
        s = st.assume(NOT(cond))
        if s is not None and (d is False or mx.feasible(s)):
            out += no(s)
    return out


def simple_parser(mx, st, sp, cond, rest, val):
    return branch(mx, st, cond, lambda s: one(s, ok(Span(rest, sp.b), val)), lambda s: one(s, err()))


# ------------------------------------------------------------------ nom constructors -> native parsers
def lit_of(mx, st, v):
    x = mx.force(st, v)
    if isinstance(x, Str) and isinstance(x.t, TLit):
        return x.t.s
    raise ex().Unsupported('symbolic literal')


@model('nom::bytes::complete::tag')
def m_tag(mx, st, i, args, rty):
    return one(st, Native('tag', lit_of(mx, st, args[0])))


@model('nom::bytes::complete::tag_no_case')
def m_tagnc(mx, st, i, args, rty):
    return one(st, Native('tagnc', lit_of(mx, st, args[0])))


@model('nom::character::complete::char')
def m_char(mx, st, i, args, rty):
    c = mx.force(st, args[0])
    if not isinstance(c.v, int):
        raise ex().Unsupported('symbolic char')
    return one(st, Native('char', c.v))


@model('nom::bytes::complete::is_not')
def m_isnot(mx, st, i, args, rty):
    return one(st, Native('run', cls_not(lit_of(mx, st, args[0])), 1))


@model('nom::bytes::complete::is_a')
def m_isa(mx, st, i, args, rty):
    return one(st, Native('run', cls_norm([(ord(c), ord(c)) for c in lit_of(mx, st, args[0])]), 1))


@model('nom::character::complete::one_of')
def m_oneof(mx, st, i, args, rty):
    return one(st, Native('one', cls_norm([(ord(c), ord(c)) for c in lit_of(mx, st, args[0])])))


@model('nom::character::complete::none_of')
def m_noneof(mx, st, i, args, rty):
    return one(st, Native('one', cls_not(lit_of(mx, st, args[0]))))


@model('nom::character::complete::satisfy')
def m_satisfy(mx, st, i, args, rty):
    return one(st, Native('one', pred_class(mx, st, args[0])))


@model('nom::bytes::complete::take_while')
def m_tw0(mx, st, i, args, rty):
    return one(st, Native('run', pred_class(mx, st, args[0]), 0))


@model('nom::bytes::complete::take_while1')
def m_tw1(mx, st, i, args, rty):
    return one(st, Native('run', pred_class(mx, st, args[0]), 1))


@model('nom::bytes::complete::take_till')
def m_tt0(mx, st, i, args, rty):
    return one(st, Native('run', compl(pred_class(mx, st, args[0])), 0))


@model('nom::bytes::complete::take_till1')
def m_tt1(mx, st, i, args, rty):
    return one(st, Native('run', compl(pred_class(mx, st, args[0])), 1))


def compl(rs):
    out, lo = [], 0
    for a, b in rs:
        if lo <= a - 1:
            out.append((lo, a - 1))
        lo = b + 1
    if lo <= MAXC:
        out.append((lo, MAXC))
    return tuple(out)


def pred_class(mx, st, f):
    """the set of characters on which a char predicate is true (computed symbolically, then tabulated by the
    formula's own constants)"""
    c = z3.Const('ch', I)
    E = ex()
    s = E.State(dict(st.cells), (c >= 0, c <= MAXC), {})
    outs = mx.call_value(s, f, [Int(c)], None)
    conds = []
    for s2, v in outs:
        v = mx.force(s2, v)
        conds.append(AND(*s2.pc[2:], v.v))
    cond = OR(*conds)
    if isinstance(cond, bool):
        return ((0, MAXC),) if cond else ()
    # breakpoints: integer constants of the formula
    ks = {0}
    todo = [cond]
    seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_int_value(t):
            for d in (0, 1):
                if 0 <= t.as_long() + d <= MAXC:
                    ks.add(t.as_long() + d)
        elif z3.is_app(t) and t.decl().kind() not in (
                z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
                z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR) and not t.eq(c):
            raise E.Unsupported('char predicate')
        todo.extend(t.children())
    ks = sorted(ks)
    out = []
    for a, b in zip(ks, ks[1:] + [MAXC + 1]):
        if z3.is_true(z3.simplify(z3.substitute(cond, (c, z3.IntVal(a))))):
            out.append((a, b - 1))
    return cls_norm(out)


for _n in ('is_ascii_alphabetic', 'is_ascii_digit', 'is_ascii_alphanumeric', 'is_ascii_whitespace'):
    def _mk(nm):
        rs = {'is_ascii_alphabetic': NAMED['alpha'], 'is_ascii_digit': NAMED['digit'],
              'is_ascii_alphanumeric': NAMED['alnum'],
              'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32))}[nm]

        def f(mx, st, i, args, rty):
            c = mx.force(st, args[0]).v
            if isinstance(c, int):
                return one(st, Bool(any(a <= c <= b for a, b in rs)))
            return one(st, Bool(in_class(c, rs)))
        return f
    MODELS['std::char::methods::<impl char>::' + _n] = _mk(_n)
    MODELS['core::char::methods::<impl char>::' + _n] = _mk(_n)


@model('nom::multi::separated_list0')
def m_sl0(mx, st, i, args, rty):
    return one(st, Native('sep', args[0], args[1], 0))


@model('nom::multi::separated_list1')
def m_sl1(mx, st, i, args, rty):
    return one(st, Native('sep', args[0], args[1], 1))


@model('nom::multi::many0')
def m_many0(mx, st, i, args, rty):
    return one(st, Native('many', args[0], 0))


@model('nom::multi::many1')
def m_many1(mx, st, i, args, rty):
    return one(st, Native('many', args[0], 1))


@model('nom::multi::many_m_n')
def m_manymn(mx, st, i, args, rty):
    lo, hi = mx.force(st, args[0]).v, mx.force(st, args[1]).v
    if not isinstance(lo, int) or not isinstance(hi, int) or hi > 4:
        raise ex().Unsupported('many_m_n bounds')
    return one(st, Native('manymn', lo, hi, args[2]))


LEAF = {
    'multispace0': ('run', NAMED['ws'], 0), 'multispace1': ('run', NAMED['ws'], 1),
    'space0': ('run', NAMED['sp'], 0), 'space1': ('run', NAMED['sp'], 1),
    'alpha0': ('run', NAMED['alpha'], 0), 'alpha1': ('run', NAMED['alpha'], 1),
    'digit0': ('run', NAMED['digit'], 0), 'digit1': ('run', NAMED['digit'], 1),
    'alphanumeric0': ('run', NAMED['alnum'], 0), 'alphanumeric1': ('run', NAMED['alnum'], 1),
    'anychar': ('one', ((0, MAXC),)),
}
for _n, _a in LEAF.items():
    def _mkl(a):
        return lambda mx, st, i, args, rty: call_native(mx, st, Native(*a), args, rty)
    MODELS['nom::character::complete::' + _n] = _mkl(_a)


@model('<F as nom::internal::Parser<I, O, E>>::parse')
def m_parse(mx, st, i, args, rty):
    return mx.call_value(st, args[0], [args[1]], rty)


num_ok = z3.Function('u64_ok', S, S, B)


@model('nom::character::complete::u64')
def m_u64(mx, st, i, args, rty):
    sp = mx.force(st, args[0])
    r = mk_skip(NAMED['digit'], sp.a)
    return simple_parser(mx, st, sp, AND(in_class(hd(sp.a), NAMED['digit']), num_ok(sp.a, r)), r, Native('u64', sp.a, r))


@model('nom::number::complete::float')
def m_float(mx, st, i, args, rty):
    sp = mx.force(st, args[0])
    if sp.b is None:
        raise ex().Unsupported('float on open input')
    # contract: on an input that is exactly digit+ ('.' digit+)? the whole input is consumed
    d = NAMED['digit']
    i1 = mk_skip(d, sp.a)
    full = OR(AND(sp.b == i1),
              AND(hd(i1) == 46, in_class(hd(tl(i1)), d), sp.b == mk_skip(d, tl(i1))))
    if mx.prove(st, AND(in_class(hd(sp.a), d), full)) is not True:
        raise ex().Unsupported('float on a text that is not a plain decimal')
    return one(st, ok(Span(sp.b, sp.b), Flt('num', sp.a, sp.b)))


# ------------------------------------------------------------------ applying native parsers
def call_native(mx, st, n, args, rty):
    E = ex()
    k = n.k
    if k in ('tag', 'tagnc', 'char', 'run', 'one', 'sep', 'many', 'manymn', 'manyc', 'manyf'):
        sp = mx.force(st, args[0])
        if not isinstance(sp, Span):
            raise E.Unsupported(f'parser applied to {type(sp).__name__}')
        s = sp.a
        if sp.b is not None:
            raise E.Unsupported('parser on bounded input')
        if k == 'tag':
            r = adv(s, len(n.a[0]))
            return simple_parser(mx, st, sp, starts(s, n.a[0]), r, Span(s, r))
        if k == 'tagnc':
            r = adv(s, len(n.a[0]))
            return simple_parser(mx, st, sp, starts_nocase(s, n.a[0]), r, Span(s, r))
        if k == 'char':
            return simple_parser(mx, st, sp, hd(s) == n.a[0], tl(s), Int(n.a[0]))
        if k == 'one':
            return simple_parser(mx, st, sp, in_class(hd(s), n.a[0]), tl(s), Int(hd(s)))
        if k == 'run':
            r = mk_skip(n.a[0], s)
            if n.a[1] == 0:
                return one(st, ok(Span(r), Span(s, r)))
            return simple_parser(mx, st, sp, in_class(hd(s), n.a[0]), r, Span(s, r))
        if k == 'sep':
            return apply_list(mx, st, sp, n.a[1], n.a[0], n.a[2])
        if k == 'many':
            return apply_list(mx, st, sp, n.a[0], None, n.a[1])
        if k == 'manyc':
            return [(s2, ok(v.f[0].f[0], seq_len(mx, s2, v.f[0].f[1])) if v.var == 0 else v)
                    for s2, v in apply_list(mx, st, sp, n.a[0], None, n.a[1])]
        if k == 'manyf':
            out = []
            for s2, v in apply_list(mx, st, sp, n.a[0], None, n.a[1]):
                if v.var != 0:
                    out.append((s2, v))
                    continue
                for s3, a in mx.call_value(s2, n.a[2], [], None):
                    out += [(s4, ok(v.f[0].f[0], w)) for s4, w in fold_seq(mx, s3, v.f[0].f[1], a, n.a[3], False)]
            return out
        if k == 'manymn':
            return apply_manymn(mx, st, sp, *n.a)
    if k == 'tpred':
        return n.a[0](mx, st, args)
    raise E.Unsupported('call of native ' + k)


def apply_manymn(mx, st, sp, lo, hi, f):
    def go(st, sp, cnt, acc):
        if cnt == hi:
            return one(st, ok(sp, Seq(acc)))
        out = []
        for s2, v in mx.call_value(st, f, [sp], None):
            if v.var == 0:
                t = v.f[0]
                sp2 = t.f[0]
                if mx.prove(s2, ln(sp2.a) < ln(sp.a)) is not True:
                    raise ex().Unsupported('many_m_n without progress')
                out += go(s2, sp2, cnt + 1, acc + [t.f[1]])
            else:
                e = mx.force(s2, v.f[0])
                if e.var == 1:
                    out.append((s2, ok(sp, Seq(acc)) if cnt >= lo else err()))
                else:
                    out.append((s2, v))
        return out
    return go(st, sp, 0, [])


class Rec:
    """recogniser class of a repeated element: when the element (and separator) match, where they end"""
    n = 0

    def __init__(self, reg, okE, failE, restE, okP, restP):
        self.id = len(reg.recs)
        self.okE, self.failE, self.restE, self.okP, self.restP = okE, failE, restE, okP, restP
        self.restf = z3.Function(f'Lrest{self.id}', S, S)
        self.failf = z3.Function(f'Lfail{self.id}', S, B)
        self.canfail = failE is not False
        self.run = None
        reg.recs.append(self)

    def at(self, e, s):
        return subst(e, (GEN, s))


GEN = z3.Const('g', S)


class Registry:
    """classes seen in the proof of one function (shared by code and specification)"""

    def __init__(self, mx):
        self.mx = mx
        self.recs = []
        self.cache = {}
        self.used_eq = 0

    def get(self, okE, failE, restE, okP, restP):
        key = tuple(x if isinstance(x, (bool, type(None))) else x.get_id() for x in (okE, failE, restE, okP, restP))
        if key in self.cache:
            return self.cache[key]
        mx = self.mx
        r = None
        for c in self.recs:
            if (c.okP is None) != (okP is None):
                continue
            goal = AND(Zb(c.okE) == Zb(okE), Zb(c.failE) == Zb(failE), OR(NOT(okE), c.restE == restE))
            if okP is not None:
                goal = AND(goal, Zb(c.okP) == Zb(okP), OR(NOT(okP), c.restP == restP))
            if mx.prove(ex().State({}), goal) is True:
                r = c
                break
        if r is None:
            # progress: element (many) or separator (sep) must consume
            st = ex().State({})
            if okP is None:
                if mx.prove(st, OR(NOT(okE), ln(restE) < ln(GEN))) is not True:
                    raise ex().Unsupported('repetition whose element may consume nothing')
            else:
                if mx.prove(st, OR(NOT(okP), ln(restP) < ln(GEN))) is not True:
                    raise ex().Unsupported('repetition whose separator may consume nothing')
            if mx.prove(st, OR(NOT(okE), ln(restE) <= ln(GEN))) is not True:
                raise ex().Unsupported('element may move backwards')
            r = Rec(self, okE, failE, restE, okP, restP)
            self.setup(r)
        self.cache[key] = r
        self.keep = getattr(self, 'keep', [])
        self.keep.append((okE, failE, restE, okP, restP))
        return r

    def setup(self, r):
        mx = self.mx

        def restfacts(t):
            s = t.arg(0)
            okE, failE, restE = r.at(r.okE, s), r.at(r.failE, s), r.at(r.restE, s)
            fs = [ln(t) <= ln(s), z3.Implies(AND(Zb(NOT(okE)), Zb(NOT(failE))), t == s)
                  if not (okE is True) else True,
                  z3.Implies(Zb(okE), ln(t) <= ln(restE))]
            if r.run is not None:
                fs.append(t == mk_skip(r.run, s))
            return [f for f in fs if not isinstance(f, bool)]

        def failfacts(t):
            s = t.arg(0)
            okE, failE = r.at(r.okE, s), r.at(r.failE, s)
            return [z3.Implies(Zb(failE), t), z3.Implies(AND(Zb(NOT(okE)), Zb(NOT(failE))), z3.Not(t))]
        mx.th.gens[r.restf.name()] = restfacts
        mx.th.gens[r.failf.name()] = failfacts
        # character-run rule: the element matches exactly when the next character is in C, and then
        # consumes only characters of C  =>  the repetition is the maximal run of C
        if r.okP is None and not r.canfail:
            C = run_class(mx, r)
            if C is not None:
                r.run = C


def run_class(mx, r):
    rs = []
    okE = r.okE
    if isinstance(okE, bool):
        return None
    c = z3.Const('ch', I)
    f = subst(okE, (hd(GEN), c))
    # depends only on the first character?
    todo, seen = [f], set()
    ks = {0}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(GEN) or (t.sort() == S):
            return None
        if z3.is_int_value(t):
            for d in (0, 1):
                if 0 <= t.as_long() + d <= MAXC:
                    ks.add(t.as_long() + d)
        todo.extend(t.children())
    ks = sorted(ks)
    for a, b in zip(ks, ks[1:] + [MAXC + 1]):
        if z3.is_true(z3.simplify(z3.substitute(f, (c, z3.IntVal(a))))):
            rs.append((a, b - 1))
    if z3.is_true(z3.simplify(z3.substitute(f, (c, z3.IntVal(-1))))):
        return None
    rs = cls_norm(rs)
    if mx.prove(ex().State({}), OR(NOT(okE), mk_skip(rs, r.restE) == mk_skip(rs, GEN))) is True:
        return rs
    return None


def classify(mx, st, start, elem, sep):
    """-> (Rec, generic position, item value)"""
    E = ex()
    g = z3.Const(f'g{mx.gdepth}', S)
    mx.gdepth += 1
    mx.gstack.append((g, start, st.pc))
    if mx.gdepth > 6:
        raise E.Unsupported('nesting of repetitions')
    try:
        s0 = E.State(dict(st.cells), (), {})
        okE, failE, restE, item = summarise(mx, mx.call_value(s0, elem, [Span(g)], None))
        if sep is not None:
            outs = mx.call_value(E.State(dict(st.cells), (), {}), sep, [Span(g)], None)
            okP, failP, restP, _ = summarise(mx, outs)
            if failP is not False:
                raise E.Unsupported('separator with hard failure')
        else:
            okP = restP = None
    finally:
        mx.gdepth -= 1
        mx.gstack.pop()
    if okE is False:
        raise E.Unsupported('element never matches')
    sub = lambda e: subst(e, (g, GEN))
    rec = mx.reg.get(sub(okE), sub(failE), sub(restE), sub(okP), sub(restP))
    for e in (okE, failE, restE):
        pass
    return rec, g, item


def summarise(mx, outs):
    okc, failc, rests, vals = [], [], [], []
    for s, v in outs:
        v = mx.force(s, v)
        pc = AND(*s.pc)
        if v.var == 0:
            t = mx.force(s, v.f[0])
            sp = t.f[0]
            if not isinstance(sp, Span) or sp.b is not None:
                raise ex().Unsupported('element remainder')
            okc.append(pc)
            rests.append((pc, sp.a))
            vals.append((pc, t.f[1]))
        else:
            e = mx.force(s, v.f[0])
            if e.var == 2:
                failc.append(pc)
            elif e.var == 0:
                raise ex().Unsupported('incomplete')
    if not okc:
        return False, OR(*failc), None, None
    return OR(*okc), OR(*failc), zmerge(rests), merge_vals(vals)


def apply_list(mx, st, sp, elem, sep, minimum):
    s = sp.a
    rec, g, item = classify(mx, st, s, elem, sep)
    okE, failE = rec.at(rec.okE, s), rec.at(rec.failE, s)
    rest = rec.restf(s) if rec.run is None else mk_skip(rec.run, s)
    val = Seq([SymSeg(rec, s, g, item)])
    good = one

    def body(s2):
        if minimum == 0:
            return one(s2, ok(Span(rest), val))
        return branch(mx, s2, okE, lambda s3: one(s3, ok(Span(rest), val)), lambda s3: one(s3, err()))
    if rec.canfail:
        return branch(mx, st, rec.failf(s), lambda s2: one(s2, err(2)), body)
    return body(st)


# ------------------------------------------------------------------ spans and errors
@model('<nom_locate::LocatedSpan<T, X> as std::clone::Clone>::clone', '<T as std::convert::Into<U>>::into_span')
def m_spanclone(mx, st, i, args, rty):
    return one(st, mx.force(st, args[0]))


@model('<nom_locate::LocatedSpan<T, X> as std::convert::From<T>>::from', 'nom_locate::LocatedSpan::<T>::new')
def m_spannew(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Str) and isinstance(v.t, TSlice):
        return one(st, Span(v.t.a, v.t.b))
    raise ex().Unsupported('span of ' + str(v))


@model('nom_locate::LocatedSpan::<T, X>::fragment', '<nom_locate::LocatedSpan<T, X> as std::ops::Deref>::deref')
def m_fragment(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    return one(st, RefVal(Str(TSlice(v.a, v.b))))


@model('nom_locate::LocatedSpan::<T, X>::into_fragment')
def m_fragment2(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    return one(st, Str(TSlice(v.a, v.b)))


@model('<nom_locate::LocatedSpan<T, X> as nom::traits::InputLength>::input_len')
def m_inputlen(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    return one(st, Int(ln(v.a) if v.b is None else ln(v.a) - ln(v.b)))


@model('<nom_locate::LocatedSpan<T, X> as nom::traits::Offset>::offset')
def m_offset(mx, st, i, args, rty):
    a, b = mx.force(st, args[0]), mx.force(st, args[1])
    return one(st, Native('off', a.a, b.a))


@model('<nom_locate::LocatedSpan<T, X> as nom::traits::Slice<R>>::slice')
def m_slice(mx, st, i, args, rty):
    E = ex()
    sp, r = mx.force(st, args[0]), mx.force(st, args[1])
    if isinstance(r, Agg) and r.ty is not None:
        p = mx.prog.types[r.ty]['path'].split('::')[-1] if not isinstance(r.ty, str) else r.ty
        if p in ('RangeTo', 'RangeFrom'):
            n = mx.force(st, r.f[0])
            if isinstance(n, Native) and n.k == 'off' and zsame(n.a[0], sp.a):
                return one(st, Span(sp.a, n.a[1]) if p == 'RangeTo' else Span(n.a[1], sp.b))
            if isinstance(n, Int) and isinstance(n.v, int) and p == 'RangeFrom':
                # byte offsets into ASCII only: every skipped character must be ASCII
                t = sp.a
                for _ in range(n.v):
                    if mx.prove(st, AND(hd(t) >= 0, hd(t) < 128)) is not True:
                        raise E.Unsupported('byte slice')
                    t = tl(t)
                return one(st, Span(t, sp.b))
        if p == 'RangeFull':
            return one(st, sp)
    raise E.Unsupported('slice')


@model('<nom_greedyerror::GreedyError<I, nom::error::ErrorKind> as nom::error::ParseError<I>>::append',
       '<nom_greedyerror::GreedyError<I, nom::error::ErrorKind> as nom::error::ParseError<I>>::from_char',
       '<nom_greedyerror::GreedyError<I, nom::error::ErrorKind> as nom::error::ParseError<I>>::from_error_kind',
       '<nom_greedyerror::GreedyError<I, nom::error::ErrorKind> as nom::error::ParseError<I>>::or',
       'nom::error::ParseError::or', 'nom::error::ParseError::from_char', 'nom::error::make_error')
def m_err(mx, st, i, args, rty):
    return one(st, Opaque('err'))


# ------------------------------------------------------------------ std: values
@prefix_model(lambda p: p.endswith(' as std::clone::Clone>::clone') or p == 'std::clone::Clone::clone')
def m_clone(mx, st, i, args, rty):
    v = args[0]
    if getattr(mx, 'clone_open', False) and mx.prog.fns[i]['path'].startswith('<pddl::') and \
            not any(f['path'].startswith('<pddl::') and f['path'].endswith(' as std::clone::Clone>::clone') for f in mx.cur):
        return NotImplemented           # the cloning under proof is executed, that of its parts is by contract
    # the argument is a reference: remove exactly one level
    if isinstance(v, Ref):
        return one(st, mx.read(st, v.c, v.p))
    if isinstance(v, RefVal):
        return one(st, v.v)
    return one(st, v)


@model('std::boxed::Box::<T>::new', 'std::boxed::Box::<T>::pin')
def m_boxnew(mx, st, i, args, rty):
    return one(st, Box(args[0]))


@model('<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref',
       '<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow')
def m_boxderef(mx, st, i, args, rty):
    loc, v = mx.deref_loc(st, args[0])
    if loc and isinstance(v, Box):
        return one(st, Ref(loc[0], loc[1] + (('b',),)))
    v = mx.force(st, args[0])
    return one(st, RefVal(v.v if isinstance(v, Box) else v))


@model('<&T as std::convert::AsRef<U>>::as_ref')
def m_refasref(mx, st, i, args, rty):
    v = mx.deref(st, args[0])
    if isinstance(v, (Str,)):
        return one(st, v)
    return NotImplemented


@model('<str as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::convert::AsRef<str>>::as_ref',
       '<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str',
       '<std::string::String as std::convert::From<&str>>::from', '<std::string::String as std::convert::From<&mut str>>::from',
       '<str as std::string::ToString>::to_string', '<str as std::borrow::ToOwned>::to_owned',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<std::string::String as std::string::ToString>::to_string',
       '<std::string::String as std::borrow::Borrow<str>>::borrow',
       '<T as std::string::ToString>::to_string')
def m_strid(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Str):
        return one(st, v)
    return NotImplemented


@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq',
       '<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq',
       '<std::string::String as std::cmp::PartialEq<&str>>::eq', '<str as std::cmp::PartialEq<std::string::String>>::eq')
def m_streq(mx, st, i, args, rty):
    a, b = mx.force(st, args[0]), mx.force(st, args[1])
    if isinstance(a, Str) and isinstance(b, Str):
        return one(st, Bool(text_eq(a.t, b.t)))
    return NotImplemented


@model('std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq')
def m_refeq(mx, st, i, args, rty):
    a, b = mx.force(st, args[0]), mx.force(st, args[1])
    if isinstance(a, Str) and isinstance(b, Str):
        return one(st, Bool(text_eq(a.t, b.t)))
    if isinstance(a, Int) and isinstance(b, Int):
        return one(st, mx.binop(st, 'Eq', a, b))
    return NotImplemented


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_strempty(mx, st, i, args, rty):
    a = mx.force(st, args[0])
    return one(st, Bool(text_eq(a.t, TLit('')) if not isinstance(a.t, TSlice) else (
        a.t.a == a.t.b if a.t.b is not None else hd(a.t.a) == -1)))


def txt_fun(name, t, sort, *extra):
    """an uninterpreted function of a text; the '¿' in its name marks what the proof does not know (an obligation that
    depends on it and fails is undecided, not refuted)"""
    x = txt_term(t)
    e = [txt_term(y) for y in extra]
    return z3.Function('¿' + name, *[y.sort() for y in [x] + e], sort)(x, *e)


def txt_new(name, t):
    if isinstance(t, TSlice):
        return TSymT('¿' + name, (t.a, t.b if t.b is not None else EOFPOS))
    if isinstance(t, TSymT):
        return TSymT('¿' + name + '.' + t.key, t.args)
    raise ex().Unsupported(name)


def pat_of(mx, st, v):
    """a pattern: a literal, or a python function (state, code point) -> [(state, bool)]"""
    p = mx.force(st, v)
    if isinstance(p, Str):
        return p.t
    if isinstance(p, Int):
        return TLit(chr(p.v)) if isinstance(p.v, int) else None
    sq = as_seq(mx, st, p) if isinstance(p, (Seq, Iter)) else None
    if sq is not None:
        if not all(isinstance(x, Int) and isinstance(x.v, int) for x in sq.segs):
            return None
        cs = [x.v for x in sq.segs]
        return lambda s, c: one(s, Bool(OR(*[(c == y) for y in cs])))
    return lambda s, c: mx.call_value(s, v, [Int(c)], None)


def first_char(t):
    """(is there one, its code point, the text after it)"""
    if isinstance(t, TLit):
        return (bool(t.s), ord(t.s[0]) if t.s else -1, TLit(t.s[1:]))
    if isinstance(t, TSlice):
        return (NOT(t.a == t.b) if t.b is not None else NOT(hd(t.a) == -1), hd(t.a), TSlice(tl(t.a), t.b))
    return None


def txt_starts(t, lit):
    """(condition, text after the prefix)"""
    n = len(lit)
    if isinstance(t, TLit):
        return t.s.startswith(lit), TLit(t.s[n:])
    if isinstance(t, TSlice):
        r = adv(t.a, n)
        return AND(starts(t.a, lit), ln(r) >= ln(t.b) if t.b is not None else True), TSlice(r, t.b)
    return None


def str_pred(which):
    def f(mx, st, i, args, rty):
        a = mx.force(st, args[0])
        if not isinstance(a, Str):
            return NotImplemented
        t, p = a.t, pat_of(mx, st, args[1])
        if isinstance(p, TLit):
            if isinstance(t, TLit):
                return one(st, Bool({'starts_with': t.s.startswith, 'ends_with': t.s.endswith,
                                     'contains': t.s.__contains__}[which](p.s)))
            if which == 'starts_with' and isinstance(t, TSlice):
                return one(st, Bool(txt_starts(t, p.s)[0]))
        if isinstance(p, Txt) and isinstance(t, TLit) and len(t.s) < 80:
            n = len(t.s)        # the texts it can be, one by one
            cand = {'starts_with': {t.s[:k] for k in range(n + 1)}, 'ends_with': {t.s[k:] for k in range(n + 1)},
                    'contains': {t.s[j:k] for j in range(n + 1) for k in range(j, n + 1)}}[which]
            if len(cand) < 100:
                return one(st, Bool(OR(*[text_eq(p, TLit(w)) for w in sorted(cand)])))
        if isinstance(p, Txt):
            return one(st, Bool(txt_fun(which, t, B, p)))
        if p is None:
            raise ex().Unsupported(which + ' with a pattern')
        if which == 'starts_with' and not isinstance(t, TSymT):
            some, c, _ = first_char(t)
            out = []
            s1, s2 = st.assume(some), st.assume(NOT(some))
            if s1 is not None and mx.feasible(s1):
                out += p(s1, c)
            if s2 is not None and mx.feasible(s2):
                out.append((s2, Bool(False)))
            return out
        if isinstance(t, TLit):
            if not t.s:
                return one(st, Bool(False))
            if which == 'ends_with':
                return p(st, ord(t.s[-1]))
            todo, out = [(st, 0)], []
            while todo:
                s, k = todo.pop()
                if k == len(t.s):
                    out.append((s, Bool(False)))
                    continue
                for s2, v in p(s, ord(t.s[k])):
                    c = mx.force(s2, v).v
                    y, n = s2.assume(c), s2.assume(NOT(c))
                    if y is not None and mx.feasible(y):
                        out.append((y, Bool(True)))
                    if n is not None and mx.feasible(n):
                        todo.append((n, k + 1))
            return out
        raise ex().Unsupported(which + ' with a predicate')
    return f


for _n in ('starts_with', 'ends_with', 'contains'):
    MODELS['core::str::<impl str>::' + _n] = str_pred(_n)


def strip(which, pred):
    def f(mx, st, i, args, rty):
        a = mx.force(st, args[0])
        p = pat_of(mx, st, args[1])
        if not (isinstance(a, Str) and isinstance(p, TLit)):
            raise ex().Unsupported(which)
        t = a.t
        if isinstance(t, TLit):
            c = getattr(t.s, pred.replace('_', ''))(p.s)
            r = TLit((t.s[len(p.s):] if pred == 'starts_with' else t.s[:len(t.s) - len(p.s)]) if c else '')
        elif pred == 'starts_with' and not isinstance(t, TSymT):
            c, r = txt_starts(t, p.s)
        else:
            c, r = txt_fun(pred, t, B, p), txt_new(f'{which}({p.s!r})', t)
        out = []
        for g, v in ((c, some(Str(r))), (NOT(c), NONE)):
            s2 = st.assume(g)
            if s2 is not None and mx.feasible(s2):
                out.append((s2, v))
        return out
    return f


MODELS['core::str::<impl str>::strip_prefix'] = strip('strip_prefix', 'starts_with')
MODELS['core::str::<impl str>::strip_suffix'] = strip('strip_suffix', 'ends_with')


@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqnocase(mx, st, i, args, rty):
    a, b = mx.force(st, args[0]), mx.force(st, args[1])
    if not (isinstance(a, Str) and isinstance(b, Str)):
        return NotImplemented
    a, b = a.t, b.t
    low = str.maketrans({chr(k): chr(k + 32) for k in range(65, 91)})
    if isinstance(a, TLit) and isinstance(b, TLit):
        return one(st, Bool(a.s.translate(low) == b.s.translate(low)))
    if isinstance(a, TLit):
        a, b = b, a
    if isinstance(a, TSlice) and isinstance(b, TLit) and b.s.isascii():
        e = adv(a.a, len(b.s))
        return one(st, Bool(AND(starts_nocase(a.a, b.s) if b.s else True, e == a.b if a.b is not None else hd(e) == -1)))
    return one(st, Bool(txt_fun('eq_nocase', a, B, b)))


def str_map(name, lit):
    def f(mx, st, i, args, rty):
        a = mx.force(st, args[0])
        if not isinstance(a, Str):
            return NotImplemented
        return one(st, Str(TLit(lit(a.t.s)) if isinstance(a.t, TLit) and a.t.s.isascii() else txt_new(name, a.t)))
    return f


for _n, _f in (('to_lowercase', str.lower), ('to_uppercase', str.upper), ('to_ascii_lowercase', str.lower),
               ('to_ascii_uppercase', str.upper), ('trim', str.strip), ('trim_start', str.lstrip), ('trim_end', str.rstrip)):
    for _p in ('core::str::<impl str>::', 'std::str::<impl str>::', 'alloc::str::<impl str>::'):
        MODELS[_p + _n] = str_map(_n, _f)


def trim_matches(name, lit):
    def f(mx, st, i, args, rty):
        a = mx.force(st, args[0])
        p = mx.force(st, args[1])
        c = pat_of(mx, st, args[1]) if isinstance(p, (Int, Str)) else None
        if not (isinstance(a, Str) and isinstance(c, TLit) and c.s):
            return NotImplemented
        c = c.s
        return one(st, Str(TLit(lit(a.t.s, c)) if isinstance(a.t, TLit) else txt_new(f'{name}({c!r})', a.t)))
    return f


def trim_front(t, c):
    while t.startswith(c):
        t = t[len(c):]
    return t


def trim_back(t, c):
    while t.endswith(c):
        t = t[:len(t) - len(c)]
    return t


for _n, _f in (('trim_start_matches', trim_front), ('trim_left_matches', trim_front), ('trim_end_matches', trim_back),
               ('trim_right_matches', trim_back), ('trim_matches', lambda t, c: trim_back(trim_front(t, c), c))):
    MODELS['core::str::<impl str>::' + _n] = trim_matches(_n, _f)


# ---- Name: contract (view = text); its implementation is verified on its own
def is_name_path(p):
    return p.startswith(('pddl::Name::new', '<pddl::Name as std::convert::From<T>>::from', '<pddl::Name as std::convert::AsRef<str>>',
                         '<pddl::Name as std::ops::Deref>', 'pddl::Name::new_static')) and '{closure' not in p




def name_txt(mx, st, v):
    x = mx.force(st, v)
    if isinstance(x, Str):
        return x.t
    if isinstance(x, Native) and x.k == 'name':
        return x.a[0]
    if isinstance(x, Sym):
        return TSymT(x.key + '.text', x.args)
    raise ex().Unsupported('text of ' + type(x).__name__)


@prefix_model(is_name_path)
def m_name(mx, st, i, args, rty):
    if getattr(mx, 'name_open', False):
        return NotImplemented
    p = mx.prog.fns[i]['path'] if i is not None else ''
    if isinstance(mx.force(st, args[0]), Agg):
        return NotImplemented       # a constant name: the real code runs
    t = name_txt(mx, st, args[0])
    if 'AsRef' in p or 'Deref' in p:
        return one(st, Str(t))
    return one(st, Native('name', t))


# ------------------------------------------------------------------ sequences
def is_vec_path(p, *names):
    return any(p.endswith(n) for n in names)


@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def m_boxdrop(mx, st, i, args, rty):
    return one(st, UNIT)


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def m_vecnew(mx, st, i, args, rty):
    return one(st, Seq())


@model('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut')
def m_push(mx, st, i, args, rty):
    loc, v = vec_loc(mx, st, args[0])
    st = st.fork()
    mx.write(st, loc[0], loc[1], Seq(v.segs + (args[1],)))
    return one(st, UNIT)


def vec_loc(mx, st, r):
    loc, v = mx.deref_loc(st, r)
    if isinstance(v, Union):
        if loc is None:
            mx.force(st, r)
        raise ex().Split(loc[0], loc[1], v.alts)
    if loc is None or not isinstance(v, Seq):
        v2 = as_seq(mx, st, v)
        if loc is None or v2 is None:
            raise ex().Unsupported('vector place')
        v = v2
    return loc, v


def as_seq(mx, st, v):
    """any sequence-like value as a Seq"""
    while isinstance(v, Box):
        v = v.v
    if isinstance(v, Seq):
        return v
    if isinstance(v, Iter):
        return v.seq
    if isinstance(v, Sym):
        et = None
        if v.ty is not None:
            t = mx.prog.types[v.ty]
            while t['k'] == 'adt' and t['crate'] == 'pddl' and t['kind'] == 'struct' and len(t['variants'][0]['fields']) == 1:
                t = mx.prog.types[t['variants'][0]['fields'][0][1]]
            if t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
                et = t['args'][0]
            elif t['k'] == 'slice':
                et = t['elem']
        return Seq([OpqSeg(v.key, v.args, element(mx, v, v.key + '[]', et))])
    if isinstance(v, Native) and v.k in ('imap', 'iflat', 'iref'):
        return None
    if isinstance(v, Agg) and v.ty == OPTION:
        return Seq(v.f if v.var == 1 else [])
    return None


def recursive(mx, ty):
    """can a value of this type contain another one of the same type?"""
    memo = mx.prog.__dict__.setdefault('recursive_types', {})
    if ty not in memo:
        seen, todo = set(), [ty]
        memo[ty] = False
        while todo:
            t = mx.prog.types[todo.pop()]
            for v in t.get('variants') or []:
                for fl in v['fields']:
                    if mx.canon(fl[1]) == mx.canon(ty):
                        memo[ty] = True
                    if fl[1] not in seen:
                        seen.add(fl[1])
                        todo.append(fl[1])
            for a in list(t.get('args') or []) + [t[k] for k in ('to', 'elem') if t.get(k) is not None]:
                if isinstance(a, int) and a not in seen:
                    if mx.canon(a) == mx.canon(ty):
                        memo[ty] = True
                    seen.add(a)
                    todo.append(a)
    return memo[ty]


def predicate(mx, st, i, f, args):
    """a yes/no question about a part of an argument, of a recursive type: its answer is whatever it is (the same one
    wherever the same question is asked about the same part)"""
    b = f['body']
    if b is None or not f['path'].startswith(('pddl::', '<pddl::')) or mx.prog.types[b['locals'][0]]['k'] != 'bool':
        return None
    v = mx.deref(st, args[0])
    while isinstance(v, Box):
        v = mx.deref(st, v.v)
    if not isinstance(v, Sym) or v.ty is None or not any(x in v.key for x in '#.['):
        return None
    if not recursive(mx, v.ty):
        return None
    return Bool(z3.Function(f'{f["path"]}:{v.key}', *([S] * len(v.args)), B)(*v.args))


def element(mx, v, key, et):
    t = mx.prog.types[et] if et is not None else None
    while t is not None and t['k'] == 'ref':
        t = mx.prog.types[t['to']]
    if t is not None and (t['k'] == 'str' or t.get('path') == 'std::string::String'):
        return Str(TSymT(key + '.text', v.args))
    return Sym(key, v.args, et)


def whole(sq):
    """all of a sequence is looked at: not possible for what a loop has left"""
    for x in sq.segs:
        if isinstance(x, OpqSeg) and x.key.startswith('#rest') and x.key != '#rest':
            raise loops.NotALoop(x.key)


def next_of(mx, x):
    """the function `next` of an iterator of the crate"""
    if not isinstance(x, Agg) or x.ty is None or isinstance(x.ty, str):
        return None
    t = mx.prog.types[x.ty]
    if t['k'] != 'adt' or t['crate'] != 'pddl':
        return None
    nx = [k for k, f in enumerate(mx.prog.fns) if f['body'] and f['path'].startswith('<' + t['path']) and f['path'].endswith(
        ' as std::iter::Iterator>::next') and mx.canon(mx.prog.types[f['body']['locals'][1]].get('to')) == mx.canon(x.ty)]
    if len(nx) != 1:
        raise ex().Unsupported('iteration over ' + t['path'])
    return nx[0]


def to_seq(mx, st, v):
    """evaluate an iterator value into outcomes [(st, Seq)]"""
    x = mx.force(st, v)
    if isinstance(x, Native) and x.k == 'imap':
        out = []
        for s2, sq in to_seq(mx, st, x.a[0]):
            out += map_seq(mx, s2, sq, x.a[1])
        return out
    if isinstance(x, Native) and x.k == 'ifilter':
        return [(s2, filter_seq(mx, s2, sq, x.a[1], x.a[2])) for s2, sq in to_seq(mx, st, x.a[0])]
    if isinstance(x, Native) and x.k == 'iflat':
        out = []
        for s2, sq in to_seq(mx, st, x.a[0]):
            out.append((s2, flatten_seq(mx, s2, sq)))
        return out
    if isinstance(x, Native) and x.k == 'ichain':
        out = []
        for s2, a in to_seq(mx, st, x.a[0]):
            for s3, b in to_seq(mx, s2, x.a[1]):
                out.append((s3, Seq(a.segs + b.segs)))
        return out
    sq = as_seq(mx, st, x)
    if sq is not None:
        whole(sq)
    if sq is None:
        n = next_of(mx, x)
        if n is not None:
            return loops.drain(mx, st, x, n)
        raise ex().Unsupported('iteration over ' + type(x).__name__)
    return one(st, sq)


def map_seq(mx, st, sq, f):
    """apply a closure to every element"""
    out = [(st, [])]
    for seg in sq.segs:
        nxt = []
        for s, acc in out:
            for s2, sg in map_seg(mx, s, seg, f):
                nxt.append((s2, acc + [sg]))
        out = nxt
    return [(s, Seq(a)) for s, a in out]


def map_seg(mx, st, seg, f):
    E = ex()
    if isinstance(seg, V):
        return mx.call_value(st, f, [seg], None)
    if isinstance(seg, (SymSeg, OpqSeg)):
        if seg.flat:
            sub = map_seq(mx, st, seg.item, f)
            if len(sub) != 1:
                raise E.Unsupported('branching map over flattened repetition')
            it = sub[0][1]
        else:
            s1 = st
            if isinstance(seg, SymSeg):
                c = seg.rec.at(seg.rec.okE, seg.g)
                s1 = E.State(dict(st.cells), st.pc, st.known).assume(c)
                if s1 is None:
                    raise E.Unsupported('repetition element')
            outs = mx.call_value(s1, f, [seg.item], None)
            if len(outs) != 1:
                raise E.Unsupported('branching map over repetition')
            for k, v in outs[0][0].cells.items():
                if k in st.cells and st.cells[k] is not v and not same(st.cells[k], v):
                    raise E.Unsupported('map closure with side effect')
            it = outs[0][1]
        if isinstance(seg, SymSeg):
            return one(st, SymSeg(seg.rec, seg.s, seg.g, it, seg.flat))
        return one(st, OpqSeg(seg.key, seg.args, it, seg.flat))
    if isinstance(seg, IteSeg):
        alts = []
        for g, segs in seg.alts:
            s1 = st.assume(g)
            if s1 is None:
                continue
            r = map_seq(mx, s1, Seq(segs), f)
            if len(r) != 1:
                raise E.Unsupported('branching map over conditional sequence')
            alts.append((g, r[0][1].segs))
        return one(st, IteSeg(alts))
    raise E.Unsupported('map over segment')


def filter_seq(mx, st, sq, f, mapped):
    """the elements that satisfy f; mapped: what f makes of those for which it gives Some"""
    out = []
    for seg in sq.segs:
        s1 = st
        if isinstance(seg, IteSeg):
            alts = []
            for g, segs in seg.alts:
                s2 = st.assume(g)
                if s2 is not None and mx.feasible(s2):
                    alts.append((g, filter_seq(mx, s2, Seq(segs), f, mapped).segs))
            out.append(IteSeg(alts))
            continue
        item = seg if isinstance(seg, V) else seg.item
        if not isinstance(seg, V):
            if isinstance(seg, SymSeg):
                s1 = st.assume(seg.rec.at(seg.rec.okE, seg.g))
                if s1 is None:
                    raise ex().Unsupported('repetition element')
            if seg.flat:
                segs = filter_seq(mx, s1, item, f, mapped).segs
                item = None
        if item is not None:
            n, alts = len(s1.pc), []
            for s2, v in mx.call_value(s1, f, [item if mapped else RefVal(item)], None):
                if any(k in s1.cells and s1.cells[k] is not c and not same(s1.cells[k], c) for k, c in s2.cells.items()):
                    raise ex().Unsupported('filter closure with side effect')
                for g, v in v.alts if isinstance(v, Union) else [(True, v)]:
                    g = AND(g, *s2.pc[n:])
                    if isinstance(v, Bool):
                        alts += [(AND(g, v.v), (item,)), (AND(g, NOT(v.v)), ())]
                    elif mapped and isinstance(v, Agg) and v.ty == OPTION:
                        alts.append((g, (v.f[0],) if v.var else ()))
                    else:
                        raise ex().Unsupported('filter closure')
            alts = [(g, x) for g, x in alts if g is not False]
            if all(x == alts[0][1] if not x else x and alts[0][1] and x[0] is alts[0][1][0] for _, x in alts):
                segs = alts[0][1]
            else:
                segs = (IteSeg(alts),)
        if isinstance(seg, V):
            out += segs
        elif segs:
            out.append(SymSeg(seg.rec, seg.s, seg.g, Seq(segs), True) if isinstance(seg, SymSeg)
                       else OpqSeg(seg.key, seg.args, Seq(segs), True))
    return Seq(out)


def flatten_seq(mx, st, sq):
    out = []
    for seg in sq.segs:
        if isinstance(seg, V):
            x = as_seq(mx, st, mx.force(st, seg))
            if x is None:
                raise ex().Unsupported('flatten element')
            out += x.segs
        elif isinstance(seg, (SymSeg, OpqSeg)) and not seg.flat:
            x = as_seq(mx, st, seg.item)
            if x is None:
                raise ex().Unsupported('flatten item')
            if isinstance(seg, SymSeg):
                out.append(SymSeg(seg.rec, seg.s, seg.g, x, True))
            else:
                out.append(OpqSeg(seg.key, seg.args, x, True))
        elif isinstance(seg, IteSeg):
            out.append(IteSeg([(g, flatten_seq(mx, st, Seq(s)).segs) for g, s in seg.alts]))
        else:
            raise ex().Unsupported('flatten segment')
    return Seq(out)


def ref_seq(sq, loc=None):
    def item(x):
        return RefVal(x)

    def seg(s):
        if isinstance(s, V):
            return RefVal(s)
        if isinstance(s, SymSeg):
            return SymSeg(s.rec, s.s, s.g, ref_seq(s.item) if s.flat else RefVal(s.item), s.flat)
        if isinstance(s, OpqSeg):
            return OpqSeg(s.key, s.args, ref_seq(s.item) if s.flat else RefVal(s.item), s.flat)
        return IteSeg([(g, tuple(seg(y) for y in x)) for g, x in s.alts])
    return Seq([seg(s) for s in sq.segs])


def deref_seq(mx, st, sq):
    def seg(s):
        if isinstance(s, V):
            return mx.deref(st, s)
        if isinstance(s, SymSeg):
            return SymSeg(s.rec, s.s, s.g, deref_seq(mx, st, s.item) if s.flat else mx.deref(st, s.item), s.flat)
        if isinstance(s, OpqSeg):
            return OpqSeg(s.key, s.args, deref_seq(mx, st, s.item) if s.flat else mx.deref(st, s.item), s.flat)
        return IteSeg([(g, tuple(seg(y) for y in x)) for g, x in s.alts])
    return Seq([seg(s) for s in sq.segs])


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter',
       '<std::option::Option<T> as std::iter::IntoIterator>::into_iter')
def m_vecinto(mx, st, i, args, rty):
    x = mx.force(st, args[0])
    sq = as_seq(mx, st, x)
    if sq is None:
        raise ex().Unsupported('into_iter of ' + type(x).__name__)
    return one(st, Iter(sq))


@model('<I as std::iter::IntoIterator>::into_iter')
def m_iterinto(mx, st, i, args, rty):
    return one(st, args[0])


@model('core::slice::<impl [T]>::iter', 'core::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter',
       '<&std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "<&'a [T] as std::iter::IntoIterator>::into_iter", 'std::slice::Iter::<\'a, T>::new')
def m_sliceiter(mx, st, i, args, rty):
    x = mx.force(st, args[0])
    sq = as_seq(mx, st, x)
    if sq is None:
        raise ex().Unsupported('iter of ' + type(x).__name__)
    return one(st, Iter(ref_seq(sq)))


@model('std::iter::Iterator::map')
def m_itermap(mx, st, i, args, rty):
    return one(st, Native('imap', args[0], args[1]))


@model('std::iter::Iterator::flatten')
def m_iterflat(mx, st, i, args, rty):
    return one(st, Native('iflat', args[0]))


def own_methods(mx, st, v):
    """the methods of Iterator other than next that the crate defines for the iterator v (or one it is built from)"""
    x = mx.force(st, v)
    if isinstance(x, Ref):
        x = mx.deref_loc(st, x)[1]
    if isinstance(x, Union):
        return set().union(*[own_methods(mx, st, a) for _, a in x.alts])
    if isinstance(x, Native):
        return set().union(*[own_methods(mx, st, a) for a in x.a if isinstance(a, (Agg, Native, Union, Ref))])
    if not isinstance(x, Agg) or x.ty is None or isinstance(x.ty, str):
        return set()
    t = mx.prog.types[x.ty]
    if t['k'] != 'adt' or t['crate'] != 'pddl':
        return set()
    tail = ' as std::iter::Iterator>::'
    return {f['path'].split(tail)[1] for f in mx.prog.fns if f['body'] and tail in f['path']
            and f['path'].startswith('<' + t['path'])} - {'next'}


def plain_seq(mx, st, v):
    """to_seq, for consumers that may go through an overridden method of the iterator"""
    if 'fold' in own_methods(mx, st, v):
        return None
    try:
        return to_seq(mx, st, v)
    except ex().Unsupported:
        return None


def first_of_seq(mx, st, loc):
    """[(state, Option)] of one `next` on the iterator at loc, looking at its first element only"""
    E = ex()
    loc, v = mx.deref_loc(st, Ref(loc[0], loc[1]))
    if loc is None:
        raise E.Unsupported('iterator place')
    if isinstance(v, Union):
        out = []
        for g, a in v.alts:
            s2 = st.assume(g)
            if s2 is not None and mx.feasible(s2):
                s2 = s2.fork()
                mx.write(s2, loc[0], loc[1], a)
                out += first_of_seq(mx, s2, loc)
        return out
    if isinstance(v, Native):
        out = []
        for s2, q in to_seq(mx, st, v):
            s2 = s2.fork()
            mx.write(s2, loc[0], loc[1], Iter(q))
            out += first_of_seq(mx, s2, loc)
        return out
    p = loops.find_iter(v)
    if p is not None:
        x = loops.at(v, p)
        h, tail = x.seq.segs[0], tuple(x.seq.segs[1:])
        if isinstance(h, IteSeg):
            ws = [(st.assume(g), tuple(xs)) for g, xs in h.alts]
        else:
            ws = loops.unroll(mx, st, h)
        out = []
        for s2, xs in ws:
            if s2 is None or not mx.feasible(s2):
                continue
            s2 = s2.fork()
            mx.write(s2, loc[0], loc[1], loops.put(v, p, Iter(Seq(tuple(xs) + tail))))
            out += first_of_seq(mx, s2, loc)
        return out
    if isinstance(v, Iter):
        s2 = st.fork()
        if not v.seq.segs:
            return [(s2, NONE)]
        mx.write(s2, loc[0], loc[1], Iter(Seq(v.seq.segs[1:])))
        return [(s2, some(v.seq.segs[0]))]
    n = next_of(mx, v)
    if n is None:
        raise E.Unsupported('next on ' + type(v).__name__)
    return mx.call_join(st, Fn(n), [Ref(loc[0], loc[1])], None, False)


@model('std::iter::Iterator::nth')
def m_nth(mx, st, i, args, rty):
    n = mx.force(st, args[1])
    loc, v = mx.deref_loc(st, args[0])
    if loc is None or not isinstance(n, Int):
        return NotImplemented
    k = n.v if isinstance(n.v, int) else z3.simplify(n.v)
    if not isinstance(k, int):
        if not z3.is_int_value(k):
            return NotImplemented
        k = k.as_long()
    if k > 3:
        return NotImplemented
    sts, out = [st], []
    for j in range(k + 1):
        nxt = []
        for s in sts:
            for s2, o in first_of_seq(mx, s, loc):
                for g, a in (o.alts if isinstance(o, Union) else [(True, o)]):
                    s3 = s2.assume(g)
                    if s3 is None or not mx.feasible(s3):
                        continue
                    if not isinstance(a, Agg):
                        raise ex().Unsupported('item of an iterator')
                    if a.var == 0 or j == k:
                        out.append((s3, a))
                    else:
                        nxt.append(s3)
        sts = nxt
    return out


@model('std::iter::Iterator::count', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::count',
       "<std::slice::Iter<'a, T> as std::iter::Iterator>::count", '<std::iter::Map<B, I, F> as std::iter::Iterator>::count')
def m_count(mx, st, i, args, rty):
    r = plain_seq(mx, st, args[0])
    if r is None:
        return NotImplemented
    return [(s, seq_len(mx, s, q)) for s, q in r]


@model('std::iter::Iterator::last', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::last',
       "<std::slice::Iter<'a, T> as std::iter::Iterator>::last")
def m_last(mx, st, i, args, rty):
    r = plain_seq(mx, st, args[0])
    if r is None:
        return NotImplemented
    out = []
    for s, q in r:
        for s2, q2 in nonempty_end(mx, s, q.segs):
            out.append((s2, NONE if q2 is None else some(q2)))
    return out


def nonempty_end(mx, st, segs):
    if not segs:
        return [(st, None)]
    h = segs[-1]
    if isinstance(h, V):
        return [(st, h)]
    out = []
    if isinstance(h, IteSeg):
        for g, xs in h.alts:
            s2 = st.assume(g)
            if s2 is not None and mx.feasible(s2):
                out += nonempty_end(mx, s2, tuple(segs[:-1]) + tuple(xs))
        return out
    if not isinstance(h, OpqSeg) or h.flat:
        raise ex().Unsupported('last element of a repetition')
    e = seg_empty(mx, st, h)
    s2 = st.assume(e)
    if s2 is not None and mx.feasible(s2):
        out += nonempty_end(mx, s2, tuple(segs[:-1]))
    s2 = st.assume(NOT(e))
    if s2 is not None and mx.feasible(s2):
        out.append((s2, loops.subst(h.item, h.key + '[]', h.key + '[¿last]')))
    return out


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint', "<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint",
       '<std::iter::Once<T> as std::iter::Iterator>::size_hint', '<std::iter::Empty<T> as std::iter::Iterator>::size_hint')
def m_sizehint(mx, st, i, args, rty):
    x = mx.deref_loc(st, args[0])[1]
    if not isinstance(x, Iter):
        return NotImplemented
    n = seq_len(mx, st, x.seq)
    return one(st, Agg(None, 0, [n, some(n)]))


@prefix_model(lambda p: p.endswith(('Iterator>::fold', 'std::iter::Iterator::fold', 'Iterator>::for_each', 'std::iter::Iterator::for_each')))
def m_fold(mx, st, i, args, rty):
    path = mx.prog.fns[i]['path']
    unit = path.endswith('for_each')
    if own_methods(mx, st, args[0]) & {'fold', 'for_each'}:
        return NotImplemented       # a fold written in the crate: its body is what runs
    try:
        r = to_seq(mx, st, args[0])
        if isinstance(args[-1], Fn) and mx.fname(args[-1]) == 'std::iter::Iterator::last::some':
            return [(s2, args[1] if q2 is None else some(q2)) for s, q in r for s2, q2 in nonempty_end(mx, s, q.segs)]
    except ex().Unsupported:
        return NotImplemented
    return [x for s, q in r for x in fold_seq(mx, s, q, UNIT if unit else args[1], args[-1], unit)]


def fold_seq(mx, s, q, acc0, f, unit):
    """(state, accumulator) after f has seen every element of q"""
    s = s.fork()
    acc = mx.newcell(s, acc0)
    if mx.deref_loc(s, f)[0] is None:
        f = Ref(mx.newcell(s, f))

    def body(s, x):
        o = []
        for s2, v in mx.call_value(s, f, [x] if unit else [s.cells[acc], x], None):
            s2 = s2.fork()
            s2.cells[acc] = v
            o.append(s2)
        return o
    out = []
    for s2 in loops.each(mx, s, q.segs, body):
        v = s2.cells.pop(acc, None)
        if v is None:
            raise ex().Unsupported('result of a fold')
        out.append((s2, v))
    return out


@model('nom::multi::fold_many0', 'nom::multi::fold_many1')
def m_foldmany(mx, st, i, args, rty):
    return one(st, Native('manyf', args[0], int(mx.prog.fns[i]['path'].endswith('1')), args[1], args[2]))


@model('nom::multi::many0_count')
def m_many0count(mx, st, i, args, rty):
    return one(st, Native('manyc', args[0], 0))


@model('nom::multi::many1_count')
def m_many1count(mx, st, i, args, rty):
    return one(st, Native('manyc', args[0], 1))


@model('std::iter::Iterator::filter')
def m_iterfilter(mx, st, i, args, rty):
    return one(st, Native('ifilter', args[0], args[1], False))


@model('std::iter::Iterator::filter_map')
def m_iterfiltermap(mx, st, i, args, rty):
    return one(st, Native('ifilter', args[0], args[1], True))


@model('std::vec::Vec::<T, A>::retain')
def m_retain(mx, st, i, args, rty):
    loc, v = vec_loc(mx, st, args[0])
    q = filter_seq(mx, st, v, args[1], False)
    st = st.fork()
    mx.write(st, loc[0], loc[1], q)
    return one(st, UNIT)


@model('std::iter::Iterator::flat_map')
def m_iterflatmap(mx, st, i, args, rty):
    return one(st, Native('iflat', Native('imap', args[0], args[1])))


@model('std::iter::Iterator::chain')
def m_iterchain(mx, st, i, args, rty):
    return one(st, Native('ichain', args[0], args[1]))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_itercloned(mx, st, i, args, rty):
    return [(s, Iter(deref_seq(mx, s, q))) for s, q in to_seq(mx, st, args[0])]


@model('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def m_vecfromiter(mx, st, i, args, rty):
    return to_seq(mx, st, args[0])


@model('std::boxed::Box::<T>::new_uninit')
def m_newuninit(mx, st, i, args, rty):
    st = st.fork()
    mx.ncell += 1
    return one(st, Agg(None, 0, [Ref(mx.ncell)]))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Ref):
        v = mx.read(st, v.f[0].c, v.f[0].p)
        while isinstance(v, Agg) and v.f:
            v = v.f[-1]
    if not isinstance(v, Seq):
        raise ex().Unsupported('box into vec')
    return one(st, v)


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from',
       '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', 'std::vec::Vec::<T, A>::into_boxed_slice')
def m_tovec(mx, st, i, args, rty):
    x = mx.force(st, args[0])
    sq = as_seq(mx, st, x)
    if sq is None:
        return NotImplemented
    return one(st, sq)


@model('std::vec::Vec::<T, A>::append')
def m_append(mx, st, i, args, rty):
    l1, v1 = vec_loc(mx, st, args[0])
    l2, v2 = vec_loc(mx, st, args[1])
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq(v1.segs + v2.segs))
    mx.write(st, l2[0], l2[1], Seq())
    return one(st, UNIT)


@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', '<std::vec::Vec<T, A> as std::iter::Extend<&T>>::extend',
       "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def m_extend(mx, st, i, args, rty):
    out = []
    src = args[1]
    x = mx.force(st, src)
    if as_seq(mx, st, x) is None and not (isinstance(x, Native) and x.k in ('imap', 'iflat', 'ichain')):
        raise ex().Unsupported('extend with ' + type(x).__name__)
    for s, q in to_seq(mx, st, src):
        l1, v1 = vec_loc(mx, s, args[0])
        s = s.fork()
        mx.write(s, l1[0], l1[1], Seq(v1.segs + q.segs))
        out.append((s, UNIT))
    return out


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit')
def m_reserve(mx, st, i, args, rty):
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::clear')
def m_clear(mx, st, i, args, rty):
    l1, _ = vec_loc(mx, st, args[0])
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq())
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::drain')
def m_drain(mx, st, i, args, rty):
    l1, v1 = vec_loc(mx, st, args[0])
    r = mx.force(st, args[1])
    ty = mx.prog.types[r.ty] if isinstance(r, (Agg, Sym)) and isinstance(r.ty, int) else {}
    if not (isinstance(r, Agg) and ty.get('path') == 'std::ops::RangeFull'):
        raise ex().Unsupported('drain of a part')
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq())
    return one(st, Iter(v1))


@model('std::vec::Vec::<T, A>::pop')
def m_pop(mx, st, i, args, rty):
    l1, v1 = vec_loc(mx, st, args[0])
    if not v1.segs:
        return one(st, Agg(OPTION, 0, []))
    if not isinstance(v1.segs[-1], V):
        v1 = known_single(mx, st, v1)
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq(v1.segs[:-1]))
    return one(st, Agg(OPTION, 1, [v1.segs[-1]]))


def known_single(mx, st, sq):
    """a sequence of unknown length that is known to have exactly one element here"""
    n = seq_len(mx, st, sq).v
    if len(sq.segs) != 1 or not isinstance(sq.segs[0], OpqSeg) or mx.prove(st, n == 1) is not True:
        raise ex().Unsupported('last of a repetition')
    h = sq.segs[0]
    return Seq([loops.subst(h.item, h.key + '[]', h.key + '[0]')])


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_remove(mx, st, i, args, rty):
    l1, v1 = vec_loc(mx, st, args[0])
    k = mx.force(st, args[1]).v
    if not isinstance(k, int):
        raise ex().Unsupported('remove')
    if not all(isinstance(x, V) for x in v1.segs[:k + 1]) or len(v1.segs) <= k:
        if k:
            raise ex().Unsupported('remove')
        v1 = known_single(mx, st, v1)
    swap = mx.prog.fns[i]['path'].endswith('::swap_remove')
    if swap and len(v1.segs) != k + 1:
        raise ex().Unsupported('swap_remove')
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq(v1.segs[:k] + v1.segs[k + 1:]))
    return one(st, v1.segs[k])


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_extend_slice(mx, st, i, args, rty):
    l1, v1 = vec_loc(mx, st, args[0])
    sq = as_seq(mx, st, mx.force(st, args[1]))
    if sq is None:
        raise ex().Unsupported('extend_from_slice')
    st = st.fork()
    mx.write(st, l1[0], l1[1], Seq(v1.segs + sq.segs))
    return one(st, UNIT)


@model('core::slice::<impl [T]>::first')
def m_first(mx, st, i, args, rty):
    sq = as_seq(mx, st, mx.force(st, args[0]))
    if sq is None:
        raise ex().Unsupported('first')
    if not sq.segs:
        return one(st, Agg(OPTION, 0, []))
    h = sq.segs[0]
    if isinstance(h, V):
        return one(st, Agg(OPTION, 1, [RefVal(h)]))
    if len(sq.segs) > 1:
        raise ex().Unsupported('first of several')
    return [(s, Agg(OPTION, 1, [RefVal(xs[0])]) if xs else Agg(OPTION, 0, [])) for s, xs in loops.unroll(mx, st, h)]


@model('std::iter::once')
def m_once(mx, st, i, args, rty):
    return one(st, Iter(Seq([args[0]])))


@model('std::iter::empty')
def m_iempty(mx, st, i, args, rty):
    return one(st, Iter(Seq()))


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def m_vecderef(mx, st, i, args, rty):
    return one(st, args[0])


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def m_vecindex(mx, st, i, args, rty):
    loc, v = mx.deref_loc(st, args[0])
    ix = mx.force(st, args[1])
    if isinstance(v, Seq) and isinstance(ix, Int) and isinstance(ix.v, int) and all(isinstance(x, V) for x in v.segs):
        if ix.v >= len(v.segs):
            return None
        return one(st, RefVal(v.segs[ix.v]))
    ty = mx.prog.types[ix.ty] if isinstance(ix, (Agg, Sym)) and isinstance(ix.ty, int) else None
    if isinstance(ix, Agg) and (ix.ty is None or ty is not None and ty.get('path') == 'std::ops::RangeFull'):
        return one(st, args[0])
    if isinstance(ix, Int) and ix.v == 0:
        sq = as_seq(mx, st, v)
        if sq is not None and sq.segs:
            h = sq.segs[0]
            if isinstance(h, V):
                return one(st, RefVal(h))
            if isinstance(h, OpqSeg) and not h.flat:
                mx.panic_unless(st, NOT(seg_empty(mx, st, h)), mx.cur[-1], 'index')
                return one(st, RefVal(loops.subst(h.item, h.key + '[]', h.key + '[0]')))
    raise ex().Unsupported('index')


def seq_empty(mx, st, v):
    sq = as_seq(mx, st, v)
    if sq is None:
        raise ex().Unsupported('emptiness of ' + type(v).__name__)
    cs = []
    for s in sq.segs:
        cs.append(seg_empty(mx, st, s))
    return AND(*cs)


def seg_empty(mx, st, s):
    if isinstance(s, V):
        return False
    if isinstance(s, SymSeg):
        if not s.flat:
            return NOT(s.rec.at(s.rec.okE, s.s))
        inner = seq_empty(mx, st, s.item)
        if inner is False or (not isinstance(inner, bool) and mx.prove(
                st.assume(s.rec.at(s.rec.okE, s.g)) or st, NOT(inner)) is True):
            return NOT(s.rec.at(s.rec.okE, s.s))
        raise ex().Unsupported('emptiness of flattened repetition')
    if isinstance(s, OpqSeg):
        if s.flat:
            inner = seq_empty(mx, st, s.item)
            if not (inner is False or not isinstance(inner, bool) and mx.prove(ex().State({}), NOT(inner)) is True):
                raise ex().Unsupported('emptiness of flattened sequence')
        f = z3.Function('empty_' + s.key, *([S] * len(s.args)), B)
        return f(*s.args)
    if isinstance(s, IteSeg):
        return OR(*[AND(g, *[seg_empty(mx, st, y) for y in x]) for g, x in s.alts])


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_isempty(mx, st, i, args, rty):
    return one(st, Bool(seq_empty(mx, st, mx.force(st, args[0]))))


def Iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def seq_len(mx, st, v):
    v = mx.force(st, v)
    if isinstance(v, Str):
        if isinstance(v.t, TLit):
            return Int(len(v.t.s.encode()))
        if isinstance(v.t, TSlice):
            return Int(ln(v.t.a) - (ln(v.t.b) if v.t.b is not None else 0))
        if isinstance(v.t, TSymT):
            x = z3.Function('nbytes_' + v.t.key, *([S] * len(v.t.args)), I)(*v.t.args)
            mx.th.add(x >= 0, x < 2 ** 63, (x == 0) == Zb(text_eq(v.t, TLit(''))))
            return Int(x)
    sq = as_seq(mx, st, v)
    if sq is None:
        raise ex().Unsupported('length of ' + type(v).__name__)
    whole(sq)
    if all(isinstance(x, V) for x in sq.segs):
        return Int(len(sq.segs))
    n = sum(1 for x in sq.segs if isinstance(x, V))
    terms = []
    for s in sq.segs:
        if isinstance(s, V):
            continue
        if isinstance(s, IteSeg):
            terms.append(zmerge([(g, Iz(seq_len(mx, st, Seq(x)).v)) for g, x in s.alts]))
            continue
        e = seg_empty(mx, st, s)
        if isinstance(s, SymSeg) and not s.flat:
            x = z3.Function(f'Llen{s.rec.id}', S, I)(s.s)
        elif isinstance(s, OpqSeg) and not s.flat:
            x = z3.Function('len_' + s.key, *([S] * len(s.args)), I)(*s.args)
        else:
            raise ex().Unsupported('length of segment')
        mx.th.add(x >= 0, x < 2 ** 60, (x == 0) == Zb(e))
        terms.append(x)
    return Int(z3.Sum(terms) + n if n or len(terms) > 1 else terms[0])


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len',
       'std::string::String::len')
def m_len(mx, st, i, args, rty):
    return one(st, seq_len(mx, st, args[0]))


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
       '<std::array::IntoIter<T, N> as std::iter::Iterator>::next',
       '<std::iter::Map<I, F> as std::iter::Iterator>::next', '<std::iter::Map<B, I, F> as std::iter::Iterator>::next',
       '<std::iter::Flatten<I> as std::iter::Iterator>::next', '<std::iter::FlatMap<I, U, F> as std::iter::Iterator>::next',
       '<std::iter::Cloned<I> as std::iter::Iterator>::next', '<std::iter::Copied<I> as std::iter::Iterator>::next',
       '<std::iter::Chain<A, B> as std::iter::Iterator>::next', "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
       '<std::vec::Drain<T, A> as std::iter::Iterator>::next', '<std::iter::Once<T> as std::iter::Iterator>::next',
       '<std::iter::Empty<T> as std::iter::Iterator>::next')
def m_next(mx, st, i, args, rty):
    loc, v = mx.deref_loc(st, args[0])
    if loc is None:
        raise ex().Unsupported('iterator place')
    if isinstance(v, Union):
        raise ex().Split(loc[0], loc[1], v.alts)
    if isinstance(v, Native):
        r = []
        for s, q in to_seq(mx, st, v):
            s = s.fork()
            mx.write(s, loc[0], loc[1], Iter(q))
            r += m_next(mx, s, i, args, rty)
        return r
    if not isinstance(v, Iter):
        raise ex().Unsupported('next on ' + type(v).__name__)
    segs = v.seq.segs
    if not segs:
        return one(st, NONE)
    h = segs[0]
    st = st.fork()
    if isinstance(h, V):
        mx.write(st, loc[0], loc[1], Iter(Seq(segs[1:])))
        return one(st, some(h))
    raise loops.SymLoop(st, loc, v, mx.depth)


# ------------------------------------------------------------------ Option helpers not worth running
@model('std::iter::Iterator::collect')
def m_collect(mx, st, i, args, rty):
    return NotImplemented


# ------------------------------------------------------------------ symbolic data of contracted results
def sym_field(mx, v, i, ty):
    if getattr(mx, 'api', False) and v.ty is not None and mx.prog.types[v.ty].get('path') == 'pddl::Number':
        return Flt('z', flt_term(mx, v))
    if v.ty is not None and i == 0:
        t = mx.prog.types[v.ty]
        if t['k'] == 'adt' and t['kind'] == 'struct' and len(t['variants'][0]['fields']) == 1:
            # a newtype denotes what its only field denotes (the reading of both is the same)
            return Sym(v.key, v.args, ty if ty is not None else t['variants'][0]['fields'][0][1])
    return Sym(f'{v.key}.{i}', v.args, ty)


def sym_discr(mx, st, v):
    E = ex()
    if v.ty is None:
        raise E.Unsupported('discriminant of symbolic value without type')
    t = mx.prog.types[v.ty]
    if t['k'] != 'adt' or t['kind'] != 'enum':
        raise E.Unsupported('discriminant of symbolic ' + t['k'])
    vs = t['variants']
    tag = z3.Function('tag_' + v.key, *([S] * len(v.args)), I)(*v.args)
    mx.th.add(z3.Or([tag == int(x['discr']) for x in vs]))
    return Int(tag)


# ------------------------------------------------------------------ floats
def float_bin(mx, st, op, a, b):
    raise ex().Unsupported('float operation')


def float_neg(mx, v):
    raise ex().Unsupported('float negation')


num_finite = z3.Function('num_finite', S, S, B)


@model('core::f32::<impl f32>::is_finite', 'std::f32::<impl f32>::is_finite')
def m_isfinite(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Flt) and v.k[0] == 'num':
        return one(st, Bool(num_finite(v.k[1], v.k[2])))
    raise ex().Unsupported('is_finite')


@model('core::f32::<impl f32>::is_nan')
def m_isnan(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Flt) and v.k[0] == 'num':
        return one(st, Bool(False))
    raise ex().Unsupported('is_nan')


@model('core::f32::<impl f32>::is_infinite')
def m_isinf(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Flt) and v.k[0] == 'num':
        return one(st, Bool(NOT(num_finite(v.k[1], v.k[2]))))
    raise ex().Unsupported('is_infinite')


import apim  # noqa: E402,F401
