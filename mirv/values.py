"""Symbolic values of the Rust program under verification."""
import z3
from theory import *


# ---------------------------------------------------------------- texts (str contents)
class Txt:
    __slots__ = ()


class TLit(Txt):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class TSlice(Txt):
    """the input text between positions a and b"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return f'text[{self.a}..{self.b}]'


class TSymT(Txt):
    __slots__ = ('key', 'args')

    def __init__(self, key, args=()):
        self.key, self.args = key, tuple(args)

    def __repr__(self):
        return f'{self.key}{self.args}'


TEXTEQ = {}
Tx = z3.DeclareSort('Txt')
_txf = {}


def txt_term(t):
    """an uninterpreted term denoting the text (for equality of opaque texts)"""
    if isinstance(t, TSlice):
        f = _txf.setdefault('slice', z3.Function('slice', S, S, Tx))
        return f(t.a, t.b if t.b is not None else EOFPOS)
    if isinstance(t, TLit):
        return z3.Const('lit:' + t.s, Tx)
    f = _txf.setdefault((t.key, len(t.args)), z3.Function('txt_' + t.key, *([S] * len(t.args)), Tx)
                        if t.args else z3.Const('txt_' + t.key, Tx))
    return f(*t.args) if t.args else f


def text_eq(a, b):
    if isinstance(a, TLit) and isinstance(b, TLit):
        return a.s == b.s
    if isinstance(b, TSlice) and isinstance(a, TLit):
        a, b = b, a
    if isinstance(a, TSlice) and isinstance(b, TLit):
        if a.b is None:
            return AND(starts(a.a, b.s), hd(adv(a.a, len(b.s))) == -1)
        return AND(starts(a.a, b.s) if b.s else True, a.b == adv(a.a, len(b.s)))
    return txt_term(a) == txt_term(b)


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class Int(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Int({self.v})'


class Bool(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Bool({self.v})'


class Flt(V):
    """a float: ('lit', python float) | ('num', s, e) value of numeric text | ('sym', key, args)"""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __repr__(self):
        return f'Flt{self.k}'


class Str(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'Str({self.t})'


class Span(V):
    __slots__ = ('a', 'b')

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __repr__(self):
        return f'Span({self.a},{self.b})'


class Agg(V):
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return f'Agg<{self.ty}>#{self.var}{list(self.f)}'


class Box(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Box({self.v})'


class SymSeg:
    """all results of a repeated parser: rec = recogniser class, s = start, g = the generic
    start of one element, cond = element recognised at g, item = its value, flat = spliced"""
    __slots__ = ('rec', 's', 'g', 'item', 'flat')

    def __init__(self, rec, s, g, item, flat=False):
        self.rec, self.s, self.g, self.item, self.flat = rec, s, g, item, flat

    def __repr__(self):
        return f'Seg(L{self.rec.id}@{self.s}: {self.item}{" flat" if self.flat else ""})'


class OpqSeg:
    """the elements of an opaque sequence (key,args), mapped: item is the value of a generic element"""
    __slots__ = ('key', 'args', 'item', 'flat')

    def __init__(self, key, args, item, flat=False):
        self.key, self.args, self.item, self.flat = key, tuple(args), item, flat

    def __repr__(self):
        return f'OSeg({self.key}{self.args}: {self.item})'


class IteSeg:
    """contents depend on a condition: alts = ((guard, segs), ...)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f'Ite{list(self.alts)}'


class Seq(V):
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return f'Seq{list(self.segs)}'


class Iter(V):
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f'Iter({self.seq})'


class Ref(V):
    __slots__ = ('c', 'p')

    def __init__(self, c, p=()):
        self.c, self.p = c, tuple(p)

    def __repr__(self):
        return f'&{self.c}{self.p}'


class RefVal(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'&({self.v})'


class Fn(V):
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'fn{self.i}'


class Native(V):
    """result of a modelled combinator constructor, or any modelled object"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return f'Native({self.k},{self.a})'


class Sym(V):
    __slots__ = ('key', 'args', 'ty')

    def __init__(self, key, args, ty):
        self.key, self.args, self.ty = key, tuple(args), ty

    def __repr__(self):
        return f'Sym({self.key}{self.args})'


class Union(V):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f'Union{list(self.alts)}'


class Opaque(V):
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'Opaque({self.tag})'


UNIT = Agg(None, 0, ())


def zsame(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    return False


def tsame(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, TLit):
        return a.s == b.s
    if isinstance(a, TSlice):
        return zsame(a.a, b.a) and (a.b is b.b or (a.b is not None and b.b is not None and zsame(a.b, b.b)))
    return a.key == b.key and len(a.args) == len(b.args) and all(zsame(x, y) for x, y in zip(a.args, b.args))


def segsame(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, SymSeg):
        return a.rec is b.rec and zsame(a.s, b.s) and zsame(a.g, b.g) and a.flat == b.flat and same(a.item, b.item)
    if isinstance(a, OpqSeg):
        return a.key == b.key and a.flat == b.flat and len(a.args) == len(b.args) and all(
            zsame(x, y) for x, y in zip(a.args, b.args)) and same(a.item, b.item)
    if isinstance(a, IteSeg):
        return len(a.alts) == len(b.alts) and all(
            zsame(g, h) and len(x) == len(y) and all(segsame(p, q) for p, q in zip(x, y))
            for (g, x), (h, y) in zip(a.alts, b.alts))
    return same(a, b)


def same(a, b):
    """structural identity (used only to avoid building unions)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Int, Bool)):
        return zsame(a.v, b.v)
    if isinstance(a, Flt):
        return len(a.k) == len(b.k) and all(
            x == y if not isinstance(x, z3.ExprRef) else (isinstance(y, z3.ExprRef) and x.eq(y)) for x, y in zip(a.k, b.k))
    if isinstance(a, Str):
        return tsame(a.t, b.t)
    if isinstance(a, Span):
        return zsame(a.a, b.a) and (a.b is b.b or (a.b is not None and b.b is not None and zsame(a.b, b.b)))
    if isinstance(a, Agg):
        return a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Box):
        return same(a.v, b.v)
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(segsame(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Iter):
        return same(a.seq, b.seq)
    if isinstance(a, Ref):
        return a.c == b.c and a.p == b.p
    if isinstance(a, RefVal):
        return same(a.v, b.v)
    if isinstance(a, Fn):
        return a.i == b.i
    if isinstance(a, Native):
        return a.k == b.k and len(a.a) == len(b.a) and all(
            (same(x, y) if isinstance(x, V) and isinstance(y, V) else x == y) for x, y in zip(a.a, b.a))
    if isinstance(a, Sym):
        return a.key == b.key and a.ty == b.ty and len(a.args) == len(b.args) and all(zsame(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Union):
        return len(a.alts) == len(b.alts) and all(zsame(g, h) and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, Opaque):
        return a.tag == b.tag
    return False


def merge_vals(alts):
    """alts: [(guard, value)], guards exclusive and exhaustive (under the path condition)."""
    if len(alts) == 1:
        return alts[0][1]
    v0 = alts[0][1]
    if all(same(v0, v) for _, v in alts[1:]):
        return v0
    t = type(v0)
    if all(type(v) is t for _, v in alts):
        if t is Agg and all(v.ty == v0.ty and v.var == v0.var and len(v.f) == len(v0.f) for _, v in alts):
            return Agg(v0.ty, v0.var, [merge_vals([(g, v.f[i]) for g, v in alts]) for i in range(len(v0.f))])
        if t is Box:
            return Box(merge_vals([(g, v.v) for g, v in alts]))
        if t is RefVal:
            return RefVal(merge_vals([(g, v.v) for g, v in alts]))
        if t is Span:
            ends = [v.b for _, v in alts]
            if all(e is None for e in ends):
                return Span(zmerge([(g, v.a) for g, v in alts]))
            if all(e is not None for e in ends):
                return Span(zmerge([(g, v.a) for g, v in alts]), zmerge([(g, v.b) for g, v in alts]))
        if t is Int and all(not isinstance(v.v, int) for _, v in alts):
            return Int(zmerge([(g, v.v) for g, v in alts]))
        if t is Bool:
            return Bool(zmerge([(g, Zb(v.v)) for g, v in alts]))
        if t is Str and all(isinstance(v.t, TSlice) and v.t.b is not None for _, v in alts):
            return Str(TSlice(zmerge([(g, v.t.a) for g, v in alts]), zmerge([(g, v.t.b) for g, v in alts])))
        if t is Seq:
            return merge_seqs(alts)
        if t is Native and v0.k == 'node' and all(
                v.k == 'node' and v.a[0] == v0.a[0] and isinstance(v.a[1], Seq) and len(v.a[1].segs) == len(v0.a[1].segs) and all(
                    isinstance(x, V) for x in v.a[1].segs) for _, v in alts):
            return Native('node', v0.a[0], Seq([merge_vals([(g, v.a[1].segs[i]) for g, v in alts])
                                                for i in range(len(v0.a[1].segs))]))
        if t is Native and all(v.k == 'leaf' and isinstance(v.a[0], Bool) for _, v in alts):
            return Native('leaf', Bool(zmerge([(g, Zb(v.a[0].v)) for g, v in alts])))
        if t is Iter:
            return Iter(merge_seqs([(g, v.seq) for g, v in alts]))
    # flatten nested unions, merge identical alternatives
    out = []
    for g, v in alts:
        subs = [(AND(g, h), x) for h, x in v.alts] if isinstance(v, Union) else [(g, v)]
        for h, x in subs:
            for i, (h2, x2) in enumerate(out):
                if same(x, x2):
                    out[i] = (OR(h2, h), x2)
                    break
            else:
                out.append((h, x))
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def merge_seqs(alts):
    n = min(len(v.segs) for _, v in alts)
    i = 0
    s0 = alts[0][1].segs
    while i < n and all(segsame(s0[i], v.segs[i]) for _, v in alts):
        i += 1
    if all(len(v.segs) == i for _, v in alts):
        return alts[0][1]
    # same length, same kinds of concrete elements: merge pointwise
    if all(len(v.segs) == len(s0) for _, v in alts) and all(
            isinstance(x, V) for _, v in alts for x in v.segs[i:]):
        return Seq(list(s0[:i]) + [merge_vals([(g, v.segs[j]) for g, v in alts]) for j in range(i, len(s0))])
    return Seq(list(s0[:i]) + [IteSeg([(g, v.segs[i:]) for g, v in alts])])


def zmerge(alts):
    r = alts[-1][1]
    for g, v in reversed(alts[:-1]):
        r = IF(g, v, r)
    return r
