"""Loops over repetitions of unknown length: the body is executed once for a generic element, with everything an earlier
iteration may have changed replaced by something arbitrary; the effect of the whole loop is read off that iteration:
what it appends to a vector is appended for every element, a flag it lowers (raises) is lowered (raised) iff some element
does so, a counter it increments is increased by the number of elements, an early exit that does not depend on which
element caused it is taken iff some element causes it.  Anything else is outside the reach of the prover (never assumed)."""
import z3
from values import *
from theory import *


class SymLoop(Exception):
    """`next` on an iterator whose first segment is a repetition"""

    def __init__(self, st, loc, it, depth):
        self.st, self.loc, self.it, self.depth = st, loc, it, depth


class NotALoop(Exception):
    """`next` of the iterator again, elsewhere, while looking at its generic element"""

    def __init__(self, key):
        self.key = key


def X():
    import exec as e
    return e


def M():
    import models as m
    return m


# ---------------------------------------------------------------- mentions
def znames(e, cache):
    i = e.get_id()
    if i in cache:
        return cache[i]
    todo, out, seen = [e], set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            out.add(x.decl().name())
            todo += x.children()
        elif z3.is_quantifier(x):
            todo.append(x.body())
    cache[i] = out
    return out


def mentions(v, marks, cache):
    """does a value (or formula) mention a name containing one of the marks?"""
    if isinstance(v, z3.ExprRef):
        return any(m in n for n in znames(v, cache) for m in marks)
    if isinstance(v, str):
        return any(m in v for m in marks)
    if isinstance(v, (list, tuple)):
        return any(mentions(x, marks, cache) for x in v)
    if isinstance(v, (int, bool, float, type(None))):
        return False
    return any(mentions(getattr(v, s, None), marks, cache) for c in type(v).__mro__ for s in getattr(c, '__slots__', ())
               if s != 'rec') or getattr(v, 'rec', None) is not None and mentions(v.s, marks, cache)


# ---------------------------------------------------------------- what an iteration changes
def diff(a, b, path=()):
    if a is b or same(a, b):
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
        return [d for i, (x, y) in enumerate(zip(a.f, b.f)) for d in diff(x, y, path + (i,))]
    if isinstance(a, Box) and isinstance(b, Box):
        return diff(a.v, b.v, path + ('b',))
    if isinstance(a, Native) and isinstance(b, Native) and a.k == b.k == 'set':
        return diff(a.a[0], b.a[0], path + ('s',))
    for t, k in ((Seq, 'seq'), (Bool, 'bool'), (Int, 'int')):
        if isinstance(a, t) and isinstance(b, t):
            return [(path, k)]
    return [(path, 'lost')]


def at(v, path):
    for p in path:
        v = v.v if p == 'b' else v.a[0] if p == 's' else v.f[p]
    return v


def put(v, path, x):
    if not path:
        return x
    p = path[0]
    if p == 'b':
        return Box(put(v.v, path[1:], x))
    if p == 's':
        return Native('set', put(v.a[0], path[1:], x))
    f = list(v.f)
    f[p] = put(f[p], path[1:], x)
    return Agg(v.ty, v.var, f)


def setcell(st, c, path, x):
    if x is None and not path:
        st.cells.pop(c, None)       # reading it is outside the reach
    elif c in st.cells:
        st.cells[c] = put(st.cells[c], path, Opaque('lost') if x is None else x)


def subst(v, old, new):
    """the item of a generic element as that of a particular one (only for plain references to it)"""
    if isinstance(v, RefVal):
        return RefVal(subst(v.v, old, new))
    if isinstance(v, Box):
        return Box(subst(v.v, old, new))
    if isinstance(v, Sym) and v.key.startswith(old):
        return Sym(new + v.key[len(old):], v.args, v.ty)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [subst(x, old, new) for x in v.f])
    if isinstance(v, Str) and isinstance(v.t, TSymT) and v.t.key.startswith(old):
        return Str(TSymT(new + v.t.key[len(old):], v.t.args))
    if not mentions(v, [old], {}):
        return v
    raise X().Unsupported('a particular element of a sequence')


def unroll(mx, st, seg):
    """[(state, segs)] for an opaque sequence: empty, or a first element and the others"""
    if not isinstance(seg, OpqSeg) or seg.flat or seg.key.count('[1..]') > 3:
        raise X().Unsupported('first element of a repetition')
    srt = [S] * len(seg.args)
    emp = z3.Function('empty_' + seg.key, *srt, B)(*seg.args)
    first = subst(seg.item, seg.key + '[]', seg.key + '[0]')
    tk = seg.key + '[1..]'
    tail = OpqSeg(tk, seg.args, subst(seg.item, seg.key + '[]', tk + '[]'))
    n, m = (z3.Function('len_' + k, *srt, I)(*seg.args) for k in (seg.key, tk))
    te = z3.Function('empty_' + tk, *srt, B)(*seg.args)
    mx.th.add(z3.Implies(z3.Not(emp), n == m + 1), n >= 0, (n == 0) == emp, m >= 0, (m == 0) == te)
    out = []
    for c, segs in ((emp, ()), (NOT(emp), (first, tail))):
        s2 = st.assume(c)
        if s2 is not None and mx.feasible(s2):
            out.append((s2, segs))
    return out


def advance(mx, f, fr, bi, si, e, outs):
    """states at (bi, si) after dealing with the first segment of the iterator"""
    E = X()
    s, loc, segs = e.st, e.loc, e.it.seq.segs
    h, tail = segs[0], tuple(segs[1:])

    def with_iter(st, xs):
        st = st.fork()
        mx.write(st, loc[0], loc[1], Iter(Seq(xs)))
        return st
    if isinstance(h, IteSeg):
        out = []
        for g, xs in h.alts:
            s2 = s.assume(g)
            if s2 is not None and mx.feasible(s2):
                out.append((with_iter(s2, tuple(xs) + tail), bi, si))
        return out
    if isinstance(h, OpqSeg) and h.key.startswith('#rest'):
        raise NotALoop(h.key)
    mx.ncell += 1
    uid = mx.ncell
    rest = OpqSeg(f'#rest{uid}', (), Opaque('rest'))
    havoc = {}
    nobl = len(mx.obls)
    ranges = {}
    for attempt in range(8):
        del mx.obls[nobl:]
        s1 = s
        if isinstance(h, SymSeg):
            s1 = s.assume(h.rec.at(h.rec.okE, h.g))
            if s1 is None:
                raise E.Unsupported('repetition element')
        s1 = with_iter(s1, (tuple(h.item.segs) if h.flat else (h.item,)) + (rest,))
        n1 = len(s1.pc)
        hv = {}
        for (c, path), kind in sorted(havoc.items(), key=lambda x: len(x[0][1])):
            k = f'#acc{uid}.{len(hv)}'
            if kind == 'seq':
                v = Seq([OpqSeg(k, (), Sym(k + '[]', (), None))])
            elif kind == 'bool':
                v = Bool(z3.Bool(k))
            elif kind == 'int':
                v = Int(z3.Int(k))
            else:
                v = None
            hv[(c, path)] = v
            setcell(s1, c, path, v)
        s1, n1 = bounded(mx, s, s1, hv, ranges, n1)
        backs, exits = [], []
        try:
            mx.explore(f, fr, [(s1.fork(), bi, si)], exits, stop=(bi, rest.key), backs=backs)
        except NotALoop as ex:
            if ex.key != rest.key:
                raise
            backs = []
        if not backs:
            break
        new = {}
        for b in backs:
            for c, v in s1.cells.items():
                if c == loc[0]:
                    a0, b0 = v, b.cells.get(c)
                    w = [d for d in diff(a0, b0) if not within(loc[1], d[0])] if loc[1] else []
                else:
                    w = diff(v, b.cells[c]) if c in b.cells else [((), 'lost')]
                for path, kind in w:
                    if (c, path) in havoc:
                        continue
                    new[(c, path)] = kind if new.get((c, path), kind) == kind else 'lost'
        worse = [k for k, v in hv.items() if v is not None and not usable(mx, k, v, backs)]
        if not new and not worse:
            rs = steps(hv, backs)
            if rs == ranges:
                break
            ranges = {k: d for k, d in rs.items() if ranges.get(k, d) == d} if ranges else rs
            continue
        ranges = {}
        for k in worse:
            havoc[k] = 'lost'
        for (c, path), kind in new.items():
            for k in [k for k in havoc if k[0] == c and k[1][:len(path)] == path]:
                del havoc[k]
            havoc[(c, path)] = kind
    else:
        raise E.Unsupported('effects of the loop')
    if not backs:
        # not a loop: this looks at the first element only
        del mx.obls[nobl:]
        return [(with_iter(s2, xs + tail), bi, si) for s2, xs in unroll(mx, s, h)]
    cache = {}
    marks = [f'#acc{uid}.', f'#rest{uid}']
    for b in backs:
        if mentions(b.pc[n1:], marks, cache):
            raise E.Unsupported('the loop looks at what earlier iterations did')
    guards = [AND(*b.pc[n1:]) for b in backs]
    post = s
    if exits:
        if isinstance(h, SymSeg) or h.flat:
            raise E.Unsupported('early exit of a loop over a repetition')
        marks2 = marks + [h.key + '[]']
        v0 = exits[0][1]
        for b, v in exits:
            if mentions(b.pc[n1:], marks, cache) or mentions(v, marks2, cache) or not same(v, v0):
                raise E.Unsupported('early exit of a loop with a result that depends on the element')
            for c, x in s.cells.items():
                if not (isinstance(c, tuple) and c[0] == fr) and c != loc[0] and not (c in b.cells and same(b.cells[c], x)):
                    raise E.Unsupported('early exit of a loop with an effect')
        import apim
        cond = apim.opq_exists(mx, h, OR(*[AND(*b.pc[n1:]) for b, _ in exits]))
        s2 = s.assume(cond)
        if s2 is not None and mx.feasible(s2):
            outs.append((s2, v0))
        post = s.assume(NOT(cond))
        if post is None or not mx.feasible(post):
            return []
    post = with_iter(post, tail)
    return [(summary(mx, s, post, h, hv, backs, guards), bi, si)]


def each(mx, st, segs, body):
    """states after the effects of body (a python function state, item -> states) for every element in turn"""
    sts = [st]
    for h in segs:
        nxt = []
        for s in sts:
            if isinstance(h, V):
                nxt += body(s, h)
            elif isinstance(h, IteSeg):
                for g, xs in h.alts:
                    s2 = s.assume(g)
                    if s2 is not None and mx.feasible(s2):
                        nxt += each(mx, s2, xs, body)
            else:
                nxt.append(each_generic(mx, s, h, body))
        sts = nxt
        if len(sts) > 64:
            raise X().Unsupported('too many ways through a fold')
    return sts


def each_generic(mx, s, h, body):
    E = X()
    mx.ncell += 1
    uid = mx.ncell
    havoc = {}
    nobl = len(mx.obls)
    ranges = {}
    for attempt in range(8):
        del mx.obls[nobl:]
        s1 = s.assume(h.rec.at(h.rec.okE, h.g)) if isinstance(h, SymSeg) else s.fork()
        if s1 is None:
            raise E.Unsupported('repetition element')
        n1 = len(s1.pc)
        hv = {}
        for (c, path), kind in sorted(havoc.items(), key=lambda x: len(x[0][1])):
            k = f'#acc{uid}.{len(hv)}'
            v = {'seq': lambda: Seq([OpqSeg(k, (), Sym(k + '[]', (), None))]), 'bool': lambda: Bool(z3.Bool(k)),
                 'int': lambda: Int(z3.Int(k))}.get(kind, lambda: None)()
            hv[(c, path)] = v
            setcell(s1, c, path, v)
        s1, n1 = bounded(mx, s, s1, hv, ranges, n1)
        backs = each(mx, s1.fork(), h.item.segs, body) if h.flat else body(s1.fork(), h.item)
        new = {}
        for b in backs:
            for c, v in s1.cells.items():
                for path, kind in diff(v, b.cells[c]) if c in b.cells else [((), 'lost')]:
                    if (c, path) not in havoc:
                        new[(c, path)] = kind if new.get((c, path), kind) == kind else 'lost'
        worse = [k for k, v in hv.items() if v is not None and not usable(mx, k, v, backs)]
        if not new and not worse:
            rs = steps(hv, backs)
            if rs == ranges:
                break
            ranges = {k: d for k, d in rs.items() if ranges.get(k, d) == d} if ranges else rs
            continue
        ranges = {}
        for k in worse:
            havoc[k] = 'lost'
        for (c, path), kind in new.items():
            for k in [k for k in havoc if k[0] == c and k[1][:len(path)] == path]:
                del havoc[k]
            havoc[(c, path)] = kind
    else:
        raise E.Unsupported('effects of a fold')
    cache = {}
    for b in backs:
        if mentions(b.pc[n1:], [f'#acc{uid}.'], cache):
            raise E.Unsupported('the fold looks at what earlier elements did')
    return summary(mx, s, s.fork(), h, hv, backs, [AND(*b.pc[n1:]) for b in backs])


def steps(hv, backs):
    """the counters: what every iteration adds the same constant to"""
    out = {}
    for (c, path), v in hv.items():
        if isinstance(v, Int):
            ds = {str(z3.simplify(M().Iz(at(b.cells[c], path).v) - v.v)) for b in backs}
            d = next(iter(ds))
            if len(ds) == 1 and d.isdigit():
                out[(c, path)] = int(d)
    return out


def bounded(mx, s, s1, hv, ranges, n1):
    """a counter before some iteration: there were fewer than 2^60 iterations before it (the elements are in memory)"""
    for (c, path), d in ranges.items():
        v, old = hv.get((c, path)), at(s.cells[c], path) if c in s.cells else None
        if isinstance(v, Int) and isinstance(old, Int):
            lo = M().Iz(old.v)
            s2 = s1.assume(z3.And(lo <= v.v, v.v <= lo + d * 2 ** 60))
            if s2 is not None:
                s1, n1 = s2, len(s2.pc)
    return s1, n1


def summary(mx, s, post, h, hv, backs, guards):
    """the effect of all iterations, from that of the generic one"""
    for (c, path), v in hv.items():
        old = at(s.cells[c], path) if c in s.cells else None
        x = None
        if isinstance(v, Seq):
            apps = [at(b.cells[c], path).segs[1:] for b in backs]
            sg = appended(h, guards, apps)
            x = Seq(tuple(old.segs) + sg)
        elif isinstance(v, Bool):
            x = flag(mx, h, v, old, [(g, at(b.cells[c], path).v) for g, b in zip(guards, backs)])
        elif isinstance(v, Int):
            x = counter(mx, s, h, v, old, [at(b.cells[c], path).v for b in backs])
        setcell(post, c, path, x)
    return post


def within(locpath, path):
    """is the change at `path` the change of the iterator at locpath (projections ('f', i) / ('b',))?"""
    lp = tuple('b' if p[0] == 'b' else p[1] for p in locpath if p[0] in ('f', 'b'))
    return path[:len(lp)] == lp or lp[:len(path)] == path


def usable(mx, key, hv, backs):
    c, path = key
    for b in backs:
        if c not in b.cells:
            return False
        try:
            v = at(b.cells[c], path)
        except (AttributeError, IndexError):
            return False
        if type(v) is not type(hv):
            return False
        if isinstance(hv, Seq) and (not v.segs or not segsame(v.segs[0], hv.segs[0])
                                    or mentions(v.segs[1:], [hv.segs[0].key], {})):
            return False
    return True


def appended(h, guards, apps):
    def seg(item, flat):
        return SymSeg(h.rec, h.s, h.g, item, flat) if isinstance(h, SymSeg) else OpqSeg(h.key, h.args, item, flat)
    if all(not a for a in apps):
        return ()
    if not h.flat and all(len(a) == 1 and isinstance(a[0], V) for a in apps):
        return (seg(merge_vals([(g, a[0]) for g, a in zip(guards, apps)]), False),)
    if len(apps) == 1 or all(len(a) == len(apps[0]) and all(segsame(x, y) for x, y in zip(a, apps[0])) for a in apps[1:]):
        return (seg(Seq(apps[0]), True),)
    return (seg(Seq([IteSeg([(g, tuple(a)) for g, a in zip(guards, apps)])]), True),)


def flag(mx, h, hv, old, alts):
    import apim
    if not isinstance(h, OpqSeg) or h.flat or not isinstance(old, Bool):
        return None
    f = zmerge([(g, Zb(v)) for g, v in alts])
    f0, f1 = (z3.simplify(z3.substitute(f, (hv.v, z3.BoolVal(x)))) for x in (False, True))
    st = X().State({})
    if mx.prove(st, f0 == False) is True:      # noqa: E712
        return Bool(AND(old.v, NOT(apim.opq_exists(mx, h, NOT(unz(f1))))))
    if mx.prove(st, f1 == True) is True:       # noqa: E712
        return Bool(OR(old.v, apim.opq_exists(mx, h, unz(f0))))
    return None


def unz(x):
    return True if z3.is_true(x) else False if z3.is_false(x) else x


def counter(mx, st, h, hv, old, vals):
    ds = {str(z3.simplify(v - hv.v)) for v in vals}
    if len(ds) != 1 or not isinstance(h, OpqSeg) or h.flat:
        return None
    d = next(iter(ds))
    if not d.lstrip('-').isdigit():
        return None
    return Int(M().Iz(old.v) + int(d) * M().Iz(M().seq_len(mx, st, Seq([h])).v))


# ---------------------------------------------------------------- iterators of the crate
def find_iter(v, path=()):
    """the place of an iterator with unknown contents inside a value"""
    if isinstance(v, Iter) and v.seq.segs and not isinstance(v.seq.segs[0], V):
        return path
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            r = find_iter(x, path + (i,))
            if r is not None:
                return r
    if isinstance(v, Box):
        return find_iter(v.v, path + ('b',))
    return None


def drain(mx, st, it, nexti):
    """the elements an iterator of the crate will produce: its own `next` is executed"""
    E = X()
    c = mx.newcell(st := st.fork(), it)
    out, work = [], [(st, [])]
    for _ in range(60):
        if not work:
            return out
        s, acc = work.pop()
        v = s.cells[c]
        if isinstance(v, Union):
            for g, a in v.alts:
                s2 = s.assume(g)
                if s2 is not None and mx.feasible(s2):
                    s2.cells[c] = a
                    work.append((s2, acc))
            continue
        p = find_iter(v)
        if p is not None:
            x = at(v, p)
            h, tail = x.seq.segs[0], x.seq.segs[1:]
            M().whole(x.seq)
            if isinstance(h, IteSeg):
                for g, xs in h.alts:
                    s2 = s.assume(g)
                    if s2 is not None and mx.feasible(s2):
                        s2.cells[c] = put(v, p, Iter(Seq(tuple(xs) + tuple(tail))))
                        work.append((s2, acc))
                continue
            if h.flat:
                raise E.Unsupported('flattened sequence behind an iterator of the crate')
            rest = OpqSeg('#rest', (), Opaque('rest'))
            s1 = s.fork()
            s1.cells[c] = put(v, p, Iter(Seq([h.item, rest])))
            if isinstance(h, SymSeg):
                s1 = s1.assume(h.rec.at(h.rec.okE, h.g))
            r = mx.call_join(s1, Fn(nexti), [Ref(c)], None, False)
            if len(r) != 1 or not (isinstance(r[0][1], Agg) and r[0][1].var == 1) or not same(
                    r[0][0].cells[c], put(v, p, Iter(Seq([rest])))):
                raise E.Unsupported('iterator of the crate')
            acc2 = acc + list(appended(h, [True], [(r[0][1].f[0],)]))
            s2 = s.fork()
            s2.cells[c] = put(v, p, Iter(Seq(tail)))
            work.append((s2, acc2))
            continue
        for s2, r in mx.call_join(s, Fn(nexti), [Ref(c)], None, False):
            if isinstance(r, Union):
                rs = [(s2.assume(g), a) for g, a in r.alts]
            else:
                rs = [(s2, r)]
            for s3, o in rs:
                if s3 is None or not mx.feasible(s3):
                    continue
                if not isinstance(o, Agg):
                    raise E.Unsupported('item of an iterator of the crate')
                if o.var == 0:
                    out.append((s3, Seq(acc)))
                else:
                    work.append((s3.fork(), acc + [o.f[0]]))
    raise E.Unsupported('endless iterator')
