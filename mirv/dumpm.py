"""Symbolic reading of values: roots::dump executed symbolically, its constructors are observation
points; a value that is known only through a contract is a leaf."""
from values import *
from theory import *
import models
from models import model, prefix_model, one

D = 'roots::dump::'


@model(D + 'node')
def m_node(mx, st, i, args, rty):
    return one(st, Native('node', mx.force(st, args[0]).t.s, mx.force(st, args[1])))


@model(D + 'text')
def m_text(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    if not isinstance(v, Str):
        raise models.ex().Unsupported('text of ' + type(v).__name__)
    return one(st, Native('leaf', v))


@model(D + 'num', D + 'int')
def m_num(mx, st, i, args, rty):
    return one(st, Native('leaf', mx.force(st, args[0])))


@prefix_model(lambda p: p.endswith(' as roots::dump::Dump>::d'))
def m_d(mx, st, i, args, rty):
    v = mx.force(st, args[0])
    while isinstance(v, Box):
        v = v.v
        if isinstance(v, (Ref, RefVal)):
            v = mx.force(st, v)
    if isinstance(v, Sym):
        if getattr(mx, 'api', False) and mx.enum_open and v.ty is not None:
            t = mx.prog.types[v.ty]
            if t['k'] == 'adt' and t['kind'] == 'enum' and t['crate'] == 'pddl' and all(not x['fields'] for x in t['variants']):
                return NotImplemented
        return one(st, Native('leaf', v))
    return NotImplemented


def tree_of(mx, st, v):
    """the tree denoted by a value of type roots::dump::T"""
    v = mx.deref(st, v)
    if isinstance(v, Union):
        return ('ite', tuple((g, tree_of(mx, st, a)) for g, a in v.alts))
    if isinstance(v, Native) and v.k == 'node':
        kids = v.a[1]
        if not isinstance(kids, Seq) or not all(isinstance(x, V) for x in kids.segs):
            raise models.ex().Unsupported('children of a node')
        return ('n', v.a[0], tuple(tree_of(mx, st, x) for x in kids.segs))
    if isinstance(v, Native) and v.k == 'leaf':
        return leaf_tree(v.a[0], mx)
    if isinstance(v, Agg):      # T::List
        if len(v.f) == 1 and isinstance(v.f[0], Seq):
            return list_tree(mx, st, v.f[0])
        if len(v.f) == 1 and isinstance(v.f[0], Union):
            return ('ite', tuple((g, list_tree(mx, st, a)) for g, a in v.f[0].alts))
    raise models.ex().Unsupported('tree of ' + repr(v)[:200])


def leaf_tree(x, mx=None):
    if getattr(mx, 'api', False):
        if isinstance(x, Sym):
            return ('sym', x)
        if isinstance(x, Str) and isinstance(x.t, TSymT):
            return ('text', x.t)
    if isinstance(x, Bool):
        return ('bool', x.v)
    if isinstance(x, Sym):
        return ('call', x.key, x.args[0])
    if isinstance(x, Str):
        t = x.t
        if isinstance(t, TLit):
            return ('lit', t.s)
        if isinstance(t, TSlice):
            return ('txt', t.a, t.b)
        if t.key.endswith('.text'):
            return ('call', t.key[:-5], t.args[0])
    if isinstance(x, Flt):
        if x.k[0] == 'num':
            return ('num', x.k[1], x.k[2])
        return ('flt',) + x.k
    if isinstance(x, Native) and x.k == 'u64':
        return ('u64',) + x.a
    if isinstance(x, Native) and x.k == 'u64c':
        return ('u64c',) + x.a
    if isinstance(x, Int):
        return ('int', x.v)
    if isinstance(x, Union):
        return ('ite', tuple((g, leaf_tree(a, mx)) for g, a in x.alts))
    raise models.ex().Unsupported('leaf ' + repr(x)[:200])


def list_tree(mx, st, sq, raw=False):
    out = []
    for s in sq.segs:
        if isinstance(s, V):
            out.append(tree_of(mx, st, s))
        elif isinstance(s, SymSeg):
            if s.flat:
                it = list_tree(mx, st, s.item)
            else:
                it = tree_of(mx, st, s.item)
            out.append(('seg', s.rec, s.s, s.g, it, s.flat))
        elif isinstance(s, OpqSeg):
            it = list_tree(mx, st, s.item) if s.flat else tree_of(mx, st, s.item)
            if not s.flat and (it == ('call', s.key + '[]', s.args[0]) or it[0] == 'sym' and it[1].key == s.key + '[]'):
                out.append(('opq', s.key, s.args[0]))
            elif getattr(mx, 'api', False):
                out.append(('opqmap', s.key, s.args[0], it, s.flat))
            else:
                raise models.ex().Unsupported('rewritten elements of a contracted sequence')
        elif isinstance(s, IteSeg):
            out.append(('cases', tuple((g, list_tree(mx, st, Seq(x), True)[1]) for g, x in s.alts)))
        else:
            raise models.ex().Unsupported('list segment')
    if len(out) == 1 and out[0][0] == 'opq' and not raw:
        if getattr(mx, 'api', False):
            return ('sym', Sym(out[0][1], (out[0][2],), None))
        return ('call', out[0][1], out[0][2])
    return ('list', tuple(out))
