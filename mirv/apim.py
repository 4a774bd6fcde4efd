"""Models used by the proofs of the types' own functions: equality and order of opaque values, formatting, sets,
quantifiers over opaque sequences, interning."""
import z3
from values import *
from theory import *
import models
from models import model, prefix_model, one, branch, some, NONE, RES, OPTION, MODELS
import dumpm

Val = z3.DeclareSort('Val')
F32 = z3.Float32()


def ex():
    return models.ex()


def symfn(prefix, v, sort):
    f = z3.Function(prefix + v.key, *([S] * len(v.args)), sort) if v.args else z3.Const(prefix + v.key, sort)
    return f(*v.args) if v.args else f


def inner(mx, st, v):
    """behind references and boxes"""
    v = mx.force(st, v)
    while isinstance(v, Box):
        v = mx.force(st, v.v)
    return v


def tinfo(mx, v):
    return mx.prog.types[v.ty] if isinstance(v, Sym) and v.ty is not None else None


def under(mx, ty):
    """the type a chain of newtypes stands for"""
    while ty is not None:
        t = mx.prog.types[ty]
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['crate'] == 'pddl' and len(t['variants'][0]['fields']) == 1 \
                and t['path'] not in ('pddl::Name', 'pddl::Number'):
            ty = t['variants'][0]['fields'][0][1]
        elif t['k'] in ('ref',) or (t['k'] == 'adt' and t.get('box')):
            ty = t['to'] if t['k'] == 'ref' else t['args'][0]
        else:
            return t
    return None


def fieldless(t):
    return t is not None and t['k'] == 'adt' and t['kind'] == 'enum' and all(not v['fields'] for v in t['variants'])


def sym_eq(mx, st, a, b):
    """equality of two opaque values (what their own PartialEq is specified to be)"""
    t = under(mx, a.ty)
    if t is not None and fieldless(t):
        return models.sym_discr(mx, st, Sym(a.key, a.args, t['id'])).v == models.sym_discr(mx, st, Sym(b.key, b.args, t['id'])).v
    if t is not None and t.get('path') == 'pddl::Name':
        return text_eq(TSymT(a.key + '.text', a.args), TSymT(b.key + '.text', b.args))
    if t is not None and (t.get('path') == 'pddl::Number' or t['k'] == 'float'):
        return z3.fpEQ(flt_term(mx, Sym(a.key, a.args, t['id'])), flt_term(mx, Sym(b.key, b.args, t['id'])))
    if t is not None and t['k'] in ('int', 'uint'):
        return int_term(mx, a) == int_term(mx, b)
    return symfn('val_', a, Val) == symfn('val_', b, Val)


def int_term(mx, v):
    if isinstance(v, Int):
        return v.v if not isinstance(v.v, int) else z3.IntVal(v.v)
    t = under(mx, v.ty)
    x = symfn('int_', v, I)
    if t is not None and t['k'] in ('int', 'uint'):
        lo, hi = (-(1 << (t['bits'] - 1)), 1 << (t['bits'] - 1)) if t['k'] == 'int' else (0, 1 << t['bits'])
        mx.th.add(x >= lo, x < hi)
    return x


def tree_eq(mx, st, a, b):
    """formula: two trees are equal"""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == 'ite':
            return AND(*[OR(NOT(c), tree_eq(mx, st, t, y)) for c, t in x[1]])
    if a[0] == 'n' and b[0] == 'n':
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return False
        return AND(*[tree_eq(mx, st, x, y) for x, y in zip(a[2], b[2])])
    if a[0] == 'sym' and b[0] == 'sym':
        return sym_eq(mx, st, a[1], b[1])
    if a[0] == 'bool' and b[0] == 'bool':
        return Zb(a[1]) == Zb(b[1])
    if a[0] == 'int' and b[0] == 'int':
        return a[1] == b[1]
    ta, tb = tree_text(a), tree_text(b)
    if ta is not None and tb is not None:
        return text_eq(ta, tb)
    if a[0] in ('lit',) and b[0] == 'n' or b[0] in ('lit',) and a[0] == 'n':
        return False
    fa, fb = tree_flt(mx, a), tree_flt(mx, b)
    if fa is not None and fb is not None:
        return z3.fpEQ(fa, fb)
    if a[0] == 'list' and b[0] == 'list':
        if any(x[0] in ('seg', 'opq', 'opqmap', 'cases') for x in a[1] + b[1]):
            raise ex().Unsupported('equality of lists')
        if len(a[1]) != len(b[1]):
            return False
        return AND(*[tree_eq(mx, st, x, y) for x, y in zip(a[1], b[1])])
    raise ex().Unsupported(f'equality of {a[0]} and {b[0]}')


def tree_text(a):
    if a[0] == 'lit':
        return TLit(a[1])
    if a[0] == 'txt':
        return TSlice(a[1], a[2])
    if a[0] == 'text':
        return a[1]
    if a[0] == 'sym':
        return TSymT(a[1].key + '.text', a[1].args)
    return None


def tree_flt(mx, a):
    if a[0] == 'flt':
        return flt_term(mx, Flt(*a[1:]))
    if a[0] == 'sym':
        return flt_term(mx, a[1])
    return None


# ------------------------------------------------------------------ observation points
D = 'roots::dump::'


@model(D + 'b')
def m_b(mx, st, i, args, rty):
    return one(st, Native('leaf', mx.force(st, args[0])))


@model(D + 'same')
def m_same(mx, st, i, args, rty):
    a = dumpm.tree_of(mx, st, mx.deref(st, args[0]))
    b = dumpm.tree_of(mx, st, mx.deref(st, args[1]))
    return one(st, Bool(tree_eq(mx, st, a, b)))


# ------------------------------------------------------------------ equality
def is_eq(p):
    return p.endswith('>::eq') and 'std::cmp::PartialEq' in p and '{' not in p


def contract_applies(mx, i):
    '''the equality of a field: its contract; the equality under proof itself is executed'''
    if not mx.prog.fns[i]['path'].startswith(('<pddl::', '<&pddl::')):
        return True
    if mx.prog.fns[i]['path'] == '<pddl::Name as std::cmp::PartialEq>::eq' and not getattr(mx, "name_open", False) or mx.name.startswith('c18_'):
        return True
    return any(is_eq(f['path']) and f['path'].startswith(('<pddl::', '<&pddl::')) for f in mx.cur)


@prefix_model(is_eq)
def m_eq(mx, st, i, args, rty):
    a, b = inner(mx, st, args[0]), inner(mx, st, args[1])
    if isinstance(a, Sym) and isinstance(b, Sym) and contract_applies(mx, i):
        ta, tb = under(mx, a.ty), under(mx, b.ty)
        if ta is None or tb is None or ta is tb or ta.get('path') == tb.get('path'):
            return one(st, Bool(sym_eq(mx, st, a, b)))
    if isinstance(a, Str) and isinstance(b, Str):
        return one(st, Bool(text_eq(a.t, b.t)))
    sa, sb = [models.as_seq(mx, st, x) if isinstance(x, (Seq, Sym)) else None for x in (a, b)]
    if sa is not None and sb is not None and (isinstance(a, Seq) or isinstance(b, Seq)):
        if len(sa.segs) == len(sb.segs) == 1 and all(isinstance(x, OpqSeg) and not x.flat and unmapped(mx, st, x)
                                                     for x in (sa.segs[0], sb.segs[0])):
            x, y = sa.segs[0], sb.segs[0]
            return one(st, Bool(symfn('val_', Sym(x.key, x.args, None), Val) == symfn('val_', Sym(y.key, y.args, None), Val)))
    return NotImplemented


def unmapped(mx, st, seg):
    it = mx.deref(st, seg.item)
    return isinstance(it, Sym) and it.key == seg.key + '[]'


@prefix_model(lambda p: p.endswith('>::ne') and 'std::cmp::PartialEq' in p or p == 'std::cmp::PartialEq::ne')
def m_ne(mx, st, i, args, rty):
    return NotImplemented


@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def m_discrval(mx, st, i, args, rty):
    v = inner(mx, st, args[0])
    if isinstance(v, Agg):
        if v.ty is None or isinstance(v.ty, str):
            return one(st, Int(v.var))
        t = mx.prog.types[v.ty]
        return one(st, Int(int(t['variants'][v.var]['discr'])))
    if isinstance(v, Sym):
        return one(st, models.sym_discr(mx, st, v))
    raise ex().Unsupported('discriminant of ' + type(v).__name__)


# ------------------------------------------------------------------ formatting
@model('<T as std::string::ToString>::to_string', '<T as std::string::SpecToString>::spec_to_string')
def m_tostring(mx, st, i, args, rty):
    v = inner(mx, st, args[0])
    if isinstance(v, Str):
        return one(st, v)
    disp = find_call(mx, i, 'std::fmt::Display>::fmt')
    if disp is None:
        raise ex().Unsupported('to_string')
    st = st.fork()
    c = mx.newcell(st, Native('fmtr', ()))
    out = []
    for s, r in mx.run(disp, [args[0], Ref(c)], st):
        f = mx.force(s, s.cells[c]) if not isinstance(s.cells[c], Union) else mx.pick(s, s.cells[c])
        mx.panic_unless(s, mx.force(s, r).var == 0, mx.prog.fns[disp], 'a Display implementation returned an error')
        out.append((s, Str(joined(f.a[0]))))
    return out


def joined(parts):
    if len(parts) == 1:
        return parts[0]
    if all(isinstance(p, TLit) for p in parts):
        return TLit(''.join(p.s for p in parts))
    raise ex().Unsupported('concatenated text')


def find_call(mx, i, suffix, depth=0):
    """an instance called (through library code) by instance i whose path ends in suffix"""
    b = mx.prog.fns[i]['body']
    if b is None or depth > 3:
        return None
    sub = []
    for bl in b['blocks']:
        t = bl['t']
        if t[0] == 'call' and t[1][0] == 'k':
            ty = mx.prog.types[t[1][1]['ty']]
            if ty['k'] == 'fndef' and ty['inst'] is not None:
                if mx.prog.fns[ty['inst']]['path'].endswith(suffix):
                    return ty['inst']
                sub.append(ty['inst'])
    for x in sub:
        r = find_call(mx, x, suffix, depth + 1)
        if r is not None:
            return r
    return None


def emit(mx, st, f, t):
    loc, v = mx.deref_loc(st, f)
    if isinstance(v, Union):
        raise ex().Split(loc[0], loc[1], v.alts)
    if not isinstance(v, Native) or v.k != 'fmtr':
        raise ex().Unsupported('formatter')
    st = st.fork()
    mx.write(st, loc[0], loc[1], Native('fmtr', v.a[0] + (t,)))
    return one(st, Agg(RES, 0, [UNIT]))


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_newdisplay(mx, st, i, args, rty):
    v = inner(mx, st, args[0])
    if isinstance(v, Str):
        return one(st, Native('fmtarg', v.t))
    raise ex().Unsupported('formatting of ' + type(v).__name__)


@model("std::fmt::Arguments::<'a>::new")
def m_fmtargs(mx, st, i, args, rty):
    tp, ar = mx.force(st, args[0]), mx.force(st, args[1])
    bs = [x.v for x in tp.segs]
    out, k, n = [], 0, 0
    while bs[k] != 0:
        if bs[k] < 0x80:
            out.append(TLit(bytes(bs[k + 1:k + 1 + bs[k]]).decode()))
            k += 1 + bs[k]
        elif bs[k] == 0xC0:
            out.append(mx.force(st, ar.segs[n]).a[0])
            n, k = n + 1, k + 1
        else:
            raise ex().Unsupported('format specification')
    return one(st, Native('fmtargs', tuple(out)))


@model("std::fmt::Arguments::<'a>::from_str")
def m_fmtstr(mx, st, i, args, rty):
    return one(st, Native('fmtargs', (mx.force(st, args[0]).t,)))


@model("std::fmt::Formatter::<'a>::write_fmt")
def m_writefmt(mx, st, i, args, rty):
    a = mx.force(st, args[1])
    r = one(st, Agg(RES, 0, [UNIT]))
    for t in a.a[0]:
        r = emit(mx, r[0][0], args[0], t)
    return r


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", '<str as std::fmt::Display>::fmt',
       '<std::string::String as std::fmt::Display>::fmt', "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def m_writestr(mx, st, i, args, rty):
    p = mx.prog.fns[i]['path']
    f, s = (args[1], args[0]) if 'Display' in p else (args[0], args[1])
    return emit(mx, st, f, inner(mx, st, s).t)


@model('std::fmt::format')
def m_format(mx, st, i, args, rty):
    a = mx.force(st, args[0])
    return one(st, Str(joined(a.a[0])))


# ------------------------------------------------------------------ quantifiers and sets
def cond_of(mx, st, outs):
    """the condition under which a computation from st yields true"""
    n = len(st.pc)
    cs = []
    for s, v in outs:
        v = mx.force(s, v)
        cs.append(AND(*s.pc[n:], v.v))
    return OR(*cs)


def exists(mx, st, seq, f):
    """condition: f (a python function state, item -> formula) holds of an element"""
    cs = []
    for seg in seq.segs:
        if isinstance(seg, V):
            cs.append(f(st, seg))
        elif isinstance(seg, IteSeg):
            for g, segs in seg.alts:
                s2 = st.assume(g)
                if s2 is not None and mx.feasible(s2):
                    cs.append(AND(g, exists(mx, s2, Seq(segs), f)))
        elif isinstance(seg, OpqSeg):
            s0 = ex().State(dict(st.cells), (), {})
            phi = exists(mx, s0, seg.item, f) if seg.flat else f(s0, seg.item)
            cs.append(opq_exists(mx, seg, phi))
        else:
            raise ex().Unsupported('quantifier over a repetition')
    return OR(*cs)


def opq_exists(mx, seg, phi):
    if phi is False:
        return False
    empty = z3.Function('empty_' + seg.key, *([S] * len(seg.args)), B)(*seg.args)
    if phi is True:
        return NOT(empty)
    reg = mx.__dict__.setdefault('exists_reg', [])
    for k, a, p, t in reg:
        if k == seg.key and len(a) == len(seg.args) and all(x.eq(y) for x, y in zip(a, seg.args)):
            if mx.prove(ex().State({}), Zb(p) == Zb(phi)) is True:
                return t
    t = z3.Bool(f'some_{seg.key}_{len(reg)}')
    reg.append((seg.key, seg.args, phi, t))
    mx.th.add(z3.Implies(t, NOT(empty)))
    if mx.prove(ex().State({}), phi) is True:
        return NOT(empty)
    return t


def iter_seq(mx, st, v):
    r = models.to_seq(mx, st, v)
    if len(r) != 1:
        raise ex().Unsupported('branching iterator')
    return r[0]


def quant(neg):
    def f(mx, st, i, args, rty):
        st, sq = iter_seq(mx, st, args[0])

        def phi(s, x):
            c = cond_of(mx, s, mx.call_value(s, args[1], [x], None))
            return NOT(c) if neg else c
        c = exists(mx, st, sq, phi)
        return one(st, Bool(NOT(c) if neg else c))
    return f


MODELS['std::iter::Iterator::any'] = quant(False)
MODELS['std::iter::Iterator::all'] = quant(True)
for _p in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::iter::Map<I, F> as std::iter::Iterator>::"):
    MODELS[_p + 'any'] = quant(False)
    MODELS[_p + 'all'] = quant(True)


def elem_eq(mx, i):
    t = mx.prog.types[mx.prog.fns[i]['body']['locals'][1]]
    t = mx.prog.types[mx.prog.types[t['to']]['elem']] if t['k'] == 'ref' else None
    if t is None or t['k'] != 'adt':
        return None
    p = f"<{t['path']} as std::cmp::PartialEq>::eq"
    return next((j for j, f in enumerate(mx.prog.fns) if f['path'] == p and f['body'] and f['body']['args'] == 2
                 and mx.prog.types[f['body']['locals'][1]].get('to') == t['id']), None)


@model('core::slice::<impl [T]>::contains')
def m_slicecontains(mx, st, i, args, rty):
    eq = elem_eq(mx, i)
    sq = models.as_seq(mx, st, mx.force(st, args[0]))
    if eq is None or sq is None:
        raise ex().Unsupported('contains')
    return one(st, Bool(exists(mx, st, sq, lambda s, x: cond_of(mx, s, mx.run(eq, [RefVal(x), args[1]], s)))))


@prefix_model(lambda p: p.startswith('<std::collections::HashSet<') and p.endswith('std::iter::FromIterator<T>>::from_iter'))
def m_setfrom(mx, st, i, args, rty):
    out = []
    for s, q in models.to_seq(mx, st, args[0]):
        out.append((s, Native('set', q)))
    return out


@prefix_model(lambda p: p.startswith('std::collections::HashSet::<') and p.endswith(('::new', '::with_capacity', '::default')))
def m_setnew(mx, st, i, args, rty):
    return one(st, Native('set', Seq()))


def set_loc(mx, st, r):
    loc, v = mx.deref_loc(st, r)
    if isinstance(v, Union):
        if loc is None:
            return None, mx.pick(st, v)
        raise ex().Split(loc[0], loc[1], v.alts)
    if not isinstance(v, Native) or v.k != 'set':
        raise ex().Unsupported('set')
    return loc, v


@prefix_model(lambda p: p.startswith('std::collections::HashSet::<') and p.endswith('::is_empty'))
def m_setempty(mx, st, i, args, rty):
    return one(st, Bool(models.seq_empty(mx, st, set_loc(mx, st, args[0])[1].a[0])))


@prefix_model(lambda p: p.startswith('std::collections::HashSet::<') and p.endswith('::insert'))
def m_setinsert(mx, st, i, args, rty):
    loc, v = set_loc(mx, st, args[0])
    try:
        r = Bool(NOT(member(mx, st, v, args[1])))
    except ex().Unsupported:
        r = Opaque('was it new to the set')      # mostly nobody asks
    st = st.fork()
    mx.write(st, loc[0], loc[1], Native('set', Seq(v.a[0].segs + (args[1],))))
    return one(st, r)


@prefix_model(lambda p: p.startswith('std::collections::HashSet::<') and p.endswith('::contains'))
def m_setcontains(mx, st, i, args, rty):
    loc, v = set_loc(mx, st, args[0])
    return one(st, Bool(member(mx, st, v, mx.deref(st, args[1]))))


@prefix_model(lambda p: p.startswith('<std::collections::HashSet<') and '::iter::Extend<' in p and p.endswith('::extend'))
def m_setextend(mx, st, i, args, rty):
    out = []
    for s, q in models.to_seq(mx, st, args[1]):
        loc, v = set_loc(mx, s, args[0])
        s = s.fork()
        mx.write(s, loc[0], loc[1], Native('set', Seq(v.a[0].segs + models.deref_seq(mx, s, q).segs)))
        out.append((s, UNIT))
    return out


def member(mx, st, v, x):
    def phi(s, y):
        return enum_eq(mx, s, mx.deref(s, y), mx.deref(s, x))
    return exists(mx, st, v.a[0], phi)


def tag_of(mx, st, v):
    v = mx.force(st, v) if not isinstance(v, Union) else v
    if isinstance(v, Union):
        return zmerge([(g, z3.IntVal(tag_of(mx, st, a)) if isinstance(tag_of(mx, st, a), int) else tag_of(mx, st, a)) for g, a in v.alts])
    if isinstance(v, Agg):
        return int(mx.prog.types[v.ty]['variants'][v.var]['discr'])
    if isinstance(v, Sym) and fieldless(tinfo(mx, v)):
        return models.sym_discr(mx, st, v).v
    raise ex().Unsupported('members of a set must be plain enum values')


def enum_eq(mx, st, a, b):
    x, y = tag_of(mx, st, a), tag_of(mx, st, b)
    return x == y


# ------------------------------------------------------------------ floats
fin = z3.Function('fp_of', S, S, F32)


def flt_term(mx, v):
    if isinstance(v, Sym):
        t = symfn('f32_', v, F32)
        u = mx.prog.types[v.ty] if v.ty is not None else None
        mx.th.add(*([z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t))] if u is None or u.get('path') == 'pddl::Number' or getattr(
            mx, 'number_keys', None) is not None and v.key in mx.number_keys else []))
        if not getattr(mx, 'api', False):       # read from text: by the contract of `number`, what digits denote
            mx.th.add(z3.Not(z3.fpIsNegative(t)), z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))
        return t
    k = v.k
    if k[0] == 'lit':
        return z3.FPVal(k[1], F32)
    if k[0] == 'z':
        return k[1]
    if k[0] == 'num':
        return fin(k[1], k[2])
    raise ex().Unsupported('float term')


def float_bin(mx, st, op, a, b):
    if any(isinstance(x, Flt) and x.k[0] in ('num',) for x in (a, b)) and not getattr(mx, 'api', False):
        raise ex().Unsupported('float operation')
    x, y = flt_term(mx, a), flt_term(mx, b)
    f = {'Eq': z3.fpEQ, 'Lt': z3.fpLT, 'Le': z3.fpLEQ, 'Gt': z3.fpGT, 'Ge': z3.fpGEQ}.get(op)
    if f:
        return Bool(f(x, y))
    if op == 'Ne':
        return Bool(NOT(z3.fpEQ(x, y)))
    g = {'Add': z3.fpAdd, 'Sub': z3.fpSub, 'Mul': z3.fpMul, 'Div': z3.fpDiv}.get(op)
    if g:
        return Flt('z', g(z3.RNE(), x, y))
    raise ex().Unsupported('float operation ' + op)


def float_neg(mx, v):
    return Flt('z', z3.fpNeg(flt_term(mx, v)))


models.flt_term = flt_term
models.float_bin = float_bin
models.float_neg = float_neg


def wrap(name, g):
    for p in (f'core::f32::<impl f32>::{name}', f'std::f32::<impl f32>::{name}'):
        old = MODELS.get(p)

        def f(mx, st, i, args, rty, old=old):
            v = mx.force(st, args[0])
            if isinstance(v, Flt) and v.k[0] == 'num' and old is not None:
                return old(mx, st, i, args, rty)
            return one(st, g(flt_term(mx, v)))
        MODELS[p] = f


wrap('is_finite', lambda t: Bool(z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))))
wrap('is_nan', lambda t: Bool(z3.fpIsNaN(t)))
wrap('is_infinite', lambda t: Bool(z3.fpIsInf(t)))
wrap('is_sign_negative', lambda t: Bool(z3.fpIsNegative(t)))
wrap('is_sign_positive', lambda t: Bool(z3.fpIsPositive(t)))
wrap('abs', lambda t: Flt('z', z3.fpAbs(t)))
BITS = z3.Function('bits', F32, I)
wrap('to_bits', lambda t: Int(BITS(t)))


# ------------------------------------------------------------------ numbers
I2F = z3.Function('i2f32', I, F32)


def float_cast(mx, st, k, v, t):
    if isinstance(v, Sym):
        ty = under(mx, v.ty)
        v = Int(int_term(mx, v)) if ty is not None and ty['k'] in ('int', 'uint') else Flt('z', flt_term(mx, v))
    if k == 'IntToFloat' and isinstance(v, Int) and t['bits'] == 32:
        if isinstance(v.v, int):
            return Flt('z', z3.FPVal(v.v, F32))
        x = I2F(v.v)
        mx.th.add(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))
        return Flt('z', x)
    if k == 'FloatToFloat' and isinstance(v, Flt):
        return Flt('z', z3.fpFPToFP(z3.RNE(), flt_term(mx, v), z3.Float32() if t['bits'] == 32 else z3.Float64()))
    raise ex().Unsupported('cast ' + k)


models.float_cast = float_cast
models.int_term = int_term
PARSE = {}


@prefix_model(lambda p: p.endswith('<impl std::str::FromStr for f32>::from_str'))
def m_parsef32(mx, st, i, args, rty):
    t = mx.force(st, args[0]).t
    if not (isinstance(t, TSlice) and t.b is None):
        raise ex().Unsupported('number of a text')
    okc = z3.Function('parses_f32', S, B)(t.a)
    v = z3.Function('parsed_f32', S, F32)(t.a)
    return one(st, Union([(okc, Agg(RES, 0, [Flt('z', v)])), (NOT(okc), Agg(RES, 1, [Opaque('parse error')]))]))


# ------------------------------------------------------------------ hashing
@model('std::hash::impls::<impl std::hash::Hash for str>::hash', 'core::hash::impls::<impl std::hash::Hash for str>::hash')
def m_strhash(mx, st, i, args, rty):
    """what the text feeds to the hasher is determined by the text"""
    t = inner(mx, st, args[0])
    loc, v = mx.deref_loc(st, args[1])
    if not (isinstance(v, Agg) and len(v.f) == 1):
        raise ex().Unsupported('hasher')
    sq = mx.force(st, v.f[0])
    st = st.fork()
    mx.write(st, loc[0], loc[1], Agg(v.ty, v.var, [Seq(sq.segs + (Native('leaf', t),))]))
    return one(st, UNIT)


@model('<pddl::Name as std::hash::Hash>::hash')
def m_namehash(mx, st, i, args, rty):
    """a name hashes as its text (equation c04_hash)"""
    if getattr(mx, "name_open", False):
        return NotImplemented
    v = inner(mx, st, args[0])
    if not isinstance(v, Sym):
        raise ex().Unsupported('hash of ' + type(v).__name__)
    return m_strhash(mx, st, i, [RefVal(Str(TSymT(v.key + '.text', v.args))), args[1]], rty)


# ------------------------------------------------------------------ names: the table of interned texts
def txtfn(name, t, sort):
    if isinstance(t, TSlice) and t.b is None:
        return z3.Function(name, S, sort)(t.a)
    if isinstance(t, TSymT):
        return z3.Function(name + '_' + t.key, *([S] * len(t.args)), sort)(*t.args)
    if isinstance(t, TLit):
        return z3.Const(f'{name}_lit_{t.s}', sort)
    raise ex().Unsupported('function of a text')


@prefix_model(lambda p: 'STRING_INTERNING' in p and p.endswith('std::ops::Deref>::deref'))
def m_lazy(mx, st, i, args, rty):
    st = st.fork()
    c = mx.newcell(st, Native('tab', ()))
    return one(st, Ref(c))


@model('std::sync::Mutex::<T>::lock', 'std::sync::poison::mutex::Mutex::<T>::lock')
def m_lock(mx, st, i, args, rty):
    """the lock is never poisoned: nothing panics while it is held (an obligation of every proof)"""
    return one(st, Agg(RES, 0, [args[0]]))


def tab_of(mx, st, r):
    loc, v = mx.deref_loc(st, r)
    if not isinstance(v, Native) or v.k != 'tab':
        return None, None
    return loc, v


def tab_probe(mx, st, loc, v, f, holds, yes, no, item=RefVal):
    """some element of the table satisfies the closure f, or the search comes to nothing: nothing else is known"""
    n = f'{loc[0]}_{len(v.a[0])}'
    e = Str(TSymT(f'entry{n}', (START,)))
    found, pos = z3.Bool(f'found{n}'), z3.Int(f'pos{n}')
    cs = []
    n0 = len(st.pc)
    for s, o in mx.call_value(st, f, [item(e)], None):
        o = mx.deref(s, o)
        for g, o in o.alts if isinstance(o, Union) else [(True, o)]:
            cs.append(AND(g, holds(o), *s.pc[n0:]))
    eqc = OR(*cs)
    mx.th.add(z3.Implies(found, Zb(eqc)))
    out = []
    s1 = st.assume(AND(found, eqc))
    if s1 is not None and mx.feasible(s1):
        mx.write(s1, loc[0], loc[1], Native('tab', v.a[0] + ((pos, e),), *v.a[1:]))
        out.append((s1, yes(pos, e)))
    s2 = st.assume(NOT(found))
    out.append((s2, no(z3.Int(f'ins{n}'))))
    return out


@model('core::slice::<impl [T]>::binary_search_by')
def m_bsearch(mx, st, i, args, rty):
    """Ok(p): the closure gives Equal for the element at p;  Err(p): p is a place to insert at"""
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        raise ex().Unsupported('binary search')

    def equal(o):
        t = mx.prog.types[o.ty] if isinstance(o, Agg) and o.ty is not None and not isinstance(o.ty, str) else None
        if t is None or t.get('path') != 'std::cmp::Ordering':
            raise ex().Unsupported('comparator')
        return t['variants'][o.var]['name'] == 'Equal'
    return tab_probe(mx, st, loc, v, args[1], equal, lambda p, e: Agg(RES, 0, [Int(p)]), lambda p: Agg(RES, 1, [Int(p)]))


def first_of(mx, st, args, find):
    """find and position among elements that are listed one by one"""
    try:
        loc, _ = mx.deref_loc(st, args[0])
        r = models.to_seq(mx, st, args[0])
    except (ex().Unsupported, AttributeError):
        return NotImplemented
    if loc is None or len(r) != 1 or not all(isinstance(x, V) for x in r[0][1].segs):
        return NotImplemented
    st, sq = r[0]
    out = []
    for k, x in enumerate(sq.segs):
        c = cond_of(mx, st, mx.call_value(st, args[1], [RefVal(x) if find else x], None))
        s2 = st.assume(c)
        if s2 is not None and mx.feasible(s2):
            mx.write(s2, loc[0], loc[1], Iter(Seq(sq.segs[k + 1:])))
            out.append((s2, some(x if find else Int(k))))
        st = st.assume(NOT(c))
        if st is None or not mx.feasible(st):
            return out
    st = st.fork()
    mx.write(st, loc[0], loc[1], Iter(Seq()))
    return out + [(st, NONE)]


@model('std::sync::Arc::<T, A>::ptr_eq', 'std::ptr::eq', 'std::sync::Arc::<T>::ptr_eq')
def m_ptreq(mx, st, i, args, rty):
    """the same place holds the same text; nothing is known of different places"""
    a, b = inner(mx, st, args[0]), inner(mx, st, args[1])
    if not (isinstance(a, Str) and isinstance(b, Str)):
        raise ex().Unsupported('comparison of addresses')
    mx.ncell += 1
    c = z3.Bool(f'same_place{mx.ncell}')
    mx.th.add(z3.Implies(c, Zb(text_eq(a.t, b.t))))
    return one(st, Bool(c))


@prefix_model(lambda p: p.endswith(('Iterator>::position', 'Iterator>::find', 'std::iter::Iterator::position', 'std::iter::Iterator::find')))
def m_tabfind(mx, st, i, args, rty):
    it = mx.deref(st, args[0])
    find = mx.prog.fns[i]['path'].endswith('find')
    if not isinstance(it, Native) or it.k != 'tabiter':
        return first_of(mx, st, args, find)
    loc, v = tab_of(mx, st, it.a[0])
    return tab_probe(mx, st, loc, v, args[1], lambda o: o.v, lambda p, e: some(RefVal(e) if find else Int(p)), lambda p: NONE,
                     (lambda e: RefVal(RefVal(e))) if find else RefVal)


def tab_len(mx, loc, v):
    if len(v.a) > 1:
        return v.a[1]
    n = z3.Int(f'tablen{loc[0]}')
    mx.th.add(n >= 0, n < 2 ** 60)          # no vector of elements of a size is longer
    return n


@model('std::vec::Vec::<T, A>::push')
def m_tabpush(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        return models.m_push(mx, st, i, args, rty)
    n = tab_len(mx, loc, v)
    st = st.fork()
    mx.write(st, loc[0], loc[1], Native('tab', v.a[0] + ((n, args[1]),), n + 1))
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def m_tablen(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        return models.m_len(mx, st, i, args, rty)
    n = tab_len(mx, loc, v)
    return one(st, Int(n))


@model('core::slice::<impl [T]>::iter', '<&std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_tabiter(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        return models.m_sliceiter(mx, st, i, args, rty)
    return one(st, Native('tabiter', Ref(*loc)))


@prefix_model(lambda p: p == '<str as std::cmp::Ord>::cmp' or p.endswith('<impl std::cmp::Ord for str>::cmp'))
def m_strcmp(mx, st, i, args, rty):
    a, b = inner(mx, st, args[0]), inner(mx, st, args[1])
    eqc = text_eq(a.t, b.t)
    less = z3.Bool(f'less {a.t!r} {b.t!r}')
    t = next(t for t in mx.prog.types if t.get('path') == 'std::cmp::Ordering')
    o = {v['name']: k for k, v in enumerate(t['variants'])}
    if isinstance(a.t, TLit) and isinstance(b.t, TLit):
        x, y = a.t.s.encode(), b.t.s.encode()
        return one(st, Agg(t['id'], o['Less' if x < y else 'Greater' if x > y else 'Equal'], []))
    out = []
    for c, n in ((eqc, 'Equal'), (AND(NOT(eqc), less), 'Less'), (AND(NOT(eqc), NOT(less)), 'Greater')):
        s = st.assume(c)
        if s is not None and mx.feasible(s):
            out.append((s, Agg(t['id'], o[n], [])))
    return out


_old_insert = MODELS.get('std::vec::Vec::<T, A>::insert')


@model('std::vec::Vec::<T, A>::insert')
def m_insert(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        if _old_insert:
            return _old_insert(mx, st, i, args, rty)
        raise ex().Unsupported('insert')
    st = st.fork()
    p = mx.force(st, args[1]).v
    mx.write(st, loc[0], loc[1], Native('tab', ((p, args[2]),), tab_len(mx, loc, v) + 1))
    return one(st, UNIT)


def lookup(mx, st, v, p):
    for q, e in reversed(v.a[0]):
        if q is p or not isinstance(q, int) and not isinstance(p, int) and z3.simplify(q).eq(z3.simplify(p)):
            return e
    raise ex().Unsupported('element of the table')


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def m_tabindex(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    if v is None:
        return models.m_vecindex(mx, st, i, args, rty)
    return one(st, RefVal(lookup(mx, st, v, mx.force(st, args[1]).v)))


@prefix_model(lambda p: p.startswith('<std::sync::Arc<') and p.endswith(('std::clone::Clone>::clone', 'std::ops::Deref>::deref',
                                                                        'std::convert::AsRef<T>>::as_ref', 'std::borrow::Borrow<T>>::borrow')))
def m_arc(mx, st, i, args, rty):
    return one(st, args[0] if not mx.prog.fns[i]['path'].endswith('clone') else mx.deref(st, args[0]))


@model('std::sync::Arc::<T>::new')
def m_arcnew(mx, st, i, args, rty):
    return one(st, args[0])


@prefix_model(lambda p: 'MutexGuard<' in p and p.endswith(('std::ops::Deref>::deref', 'std::ops::DerefMut>::deref_mut')))
def m_guard(mx, st, i, args, rty):
    loc, v = mx.deref_loc(st, args[0])
    return one(st, Ref(*loc))


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut')
def m_tabderef(mx, st, i, args, rty):
    loc, v = tab_of(mx, st, args[0])
    return one(st, args[0] if v is None else Ref(*loc))


@model('core::str::<impl str>::chars')
def m_chars(mx, st, i, args, rty):
    v = inner(mx, st, args[0])
    if not isinstance(v, Str):
        return NotImplemented
    if isinstance(v.t, TLit):
        return one(st, Iter(Seq([Int(ord(c)) for c in v.t.s])))
    return one(st, Native('chars', v.t))


@prefix_model(lambda p: p.startswith("<std::str::Chars<") and p.endswith('::next'))
def m_charnext(mx, st, i, args, rty):
    loc, v = mx.deref_loc(st, args[0])
    if isinstance(v, Iter):
        return models.m_next(mx, st, i, args, rty)
    if loc is None or not isinstance(v, Native) or v.k != 'chars' or isinstance(v.a[0], TSymT):
        raise ex().Unsupported('characters of an opaque text')
    has, c, rest = models.first_char(v.a[0])
    out = []
    s2 = st.assume(NOT(has))
    if s2 is not None and mx.feasible(s2):
        out.append((s2, NONE))
    s2 = st.assume(has)
    if s2 is not None and mx.feasible(s2):
        s2 = s2.fork()
        mx.write(s2, loc[0], loc[1], Native('chars', rest))
        out.append((s2, some(Int(c))))
    return out


@prefix_model(lambda p: p.startswith("<std::str::Chars<") and p.endswith('::count'))
def m_charcount(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if isinstance(v, Iter):
        return one(st, models.seq_len(mx, st, v.seq))
    if not isinstance(v, Native) or v.k != 'chars':
        return NotImplemented
    t = v.a[0]
    if isinstance(t, TLit):
        return one(st, Int(len(t.s)))
    n = txtfn('nchars', t, I)
    empty = (hd(t.a) == -1 if t.b is None else t.a == t.b) if isinstance(t, TSlice) else Zb(text_eq(t, TLit('')))
    mx.th.add(n >= 0, n < 2 ** 63, (n == 0) == empty)
    return one(st, Int(n))
