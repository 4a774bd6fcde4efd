"""Symbolic execution of dumped MIR, one function at a time.

Every path through a function is explored (values are symbolic over all inputs); a call to a
function that has a contract is replaced by that contract; everything else is executed.  Outcomes
of a call that differ only in data are merged with guards, so loops over parser alternatives do
not multiply paths."""
import struct
import subprocess
import sys
import tempfile
import time
import z3
from values import *
from theory import *
import models
import loops

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Split(Exception):
    """the place (cell, path) holds a union that must be resolved: fork and retry"""

    def __init__(self, c, p, alts):
        self.c, self.p, self.alts = c, p, alts


class Decide(Exception):
    """the truth of cond is needed: fork and retry"""

    def __init__(self, cond):
        self.cond = cond


class Obligation:
    def __init__(self, kind, fn, what, ok, detail=''):
        self.kind, self.fn, self.what, self.ok, self.detail = kind, fn, what, ok, detail
        self.status = 'proved' if ok else 'failed'


class State:
    __slots__ = ('cells', 'pc', 'known')

    def __init__(self, cells, pc=(), known=None):
        self.cells, self.pc, self.known = cells, pc, known or {}

    def fork(self):
        return State(dict(self.cells), self.pc, self.known)

    def assume(self, c):
        """returns a new state or None if syntactically contradictory"""
        if c is True:
            return self.fork()
        if c is False:
            return None
        k = dict(self.known)
        pc = list(self.pc)
        todo = [c]
        while todo:
            x = todo.pop(0)
            if x is True or (not isinstance(x, bool) and z3.is_true(x)):
                continue
            if x is False or z3.is_false(x):
                return None
            if z3.is_and(x):
                todo = list(x.children()) + todo
                continue
            neg = z3.is_not(x)
            b = x.arg(0) if neg else x
            i = b.get_id()
            if i in k:
                if k[i] == (not neg):
                    continue
                return None
            k[i] = not neg
            pc.append(x)
        return State(dict(self.cells), tuple(pc), k)

    def lookup(self, c):
        """value of the condition if syntactically known, else None"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        b = c.arg(0) if neg else c
        r = self.known.get(b.get_id())
        if r is not None:
            return r != neg
        if z3.is_and(c):
            vs = [self.lookup(x) for x in c.children()]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        elif z3.is_or(c):
            vs = [self.lookup(x) for x in c.children()]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        elif neg:
            v = self.lookup(b)
            return None if v is None else not v
        return None


def signed(n, bits):
    return n - (1 << bits) if n >= 1 << (bits - 1) else n


class Machine:
    def __init__(self, prog, theory, contracts=None, fuel=400000):
        self.prog = prog
        self.th = theory
        self.contracts = contracts or {}       # inst -> contract object
        self.obls = []
        self.fuel = fuel
        self.ncell = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.sstack = []
        self.sfacts = [0]
        self.qcache = {}
        self.nq = 0
        self.depth = 0
        self.cur = []
        self.gdepth = 0
        self.assumed = set()
        self.calls = []          # contracted functions called (name, pos, enclosing repetitions, path condition)
        self.gstack = []         # start positions of the repetitions being classified
        self.rank_uses = []
        self.consts = {}
        self.unknowns = 0
        self.slow = None
        self.tz = 0.0            # solver time
        self.executed = set()    # functions of the crate executed
        self.modelled = set()    # library functions used by model

    # ------------------------------------------------------------ solver
    def _sync_facts(self):
        n = len(self.th.facts)
        if self.sfacts[-1] < n:
            self.solver.add(*self.th.facts[self.sfacts[-1]:n])
            self.sfacts[-1] = n

    def check(self, pc):
        """z3 status of facts & pc"""
        for c in pc:
            self.th.visit(c)
        key = (tuple(c.get_id() for c in pc), len(self.th.facts))
        if key in self.qcache:
            return self.qcache[key][0]
        i = 0
        while i < len(self.sstack) and i < len(pc) and self.sstack[i].get_id() == pc[i].get_id():
            i += 1
        while len(self.sstack) > i:
            self.solver.pop()
            self.sstack.pop()
            self.sfacts.pop()
        self._sync_facts()
        for c in pc[i:]:
            self.solver.push()
            self.sfacts.append(self.sfacts[-1])
            self.solver.add(c)
            self.sstack.append(c)
        self.nq += 1
        t0 = time.time()
        r = self.solver.check()
        self.tz += time.time() - t0
        if time.time() - t0 > 1 and self.slow is not None:
            self.slow.append((time.time() - t0, str(r), len(pc), str(pc[-1])[:300]))
        if r == z3.unknown:
            self.unknowns += 1
        self.qcache[key] = (r, pc)
        return r

    def again(self, pc):
        """a query the incremental solver left open: fresh solvers, other seeds, then cvc5"""
        t0 = time.time()
        try:
            for seed in (0, 7, 23):
                s = z3.Solver()
                s.set('timeout', 20000)
                s.set('random_seed', seed)
                s.add(*self.th.facts)
                s.add(*pc)
                self.nq += 1
                r = s.check()
                if r != z3.unknown:
                    return r
            with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
                f.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
                f.flush()
                self.nq += 1
                p = subprocess.run(['cvc5', '--tlimit=40000', f.name], capture_output=True, text=True)
            return {'sat': z3.sat, 'unsat': z3.unsat}.get(p.stdout.strip(), z3.unknown)
        finally:
            self.tz += time.time() - t0

    def feasible(self, st):
        return self.check(st.pc) != z3.unsat

    def prove(self, st, goal):
        """pc |= goal ?  True / False / None (unknown)"""
        v = st.lookup(goal)
        if v is not None and v is True:
            return True
        g = NOT(goal)
        if g is False:
            return True
        if g is True:
            r = self.check(st.pc)
        else:
            r = self.check(st.pc + (g,))
        if r == z3.unknown:
            r = self.again(st.pc if g is True else st.pc + (g,))
        return True if r == z3.unsat else (False if r == z3.sat else None)

    # ------------------------------------------------------------ values in places
    def newcell(self, st, v):
        self.ncell += 1
        k = self.ncell
        st.cells[k] = v
        return k

    def step_read(self, v, p, c, done):
        k = p[0]
        if k == 'b':
            if isinstance(v, Box):
                return v.v
            if isinstance(v, Union):
                raise Split(c, done, v.alts)
            return v
        if isinstance(v, Box):
            return v
        if k == 'd':
            if isinstance(v, Union):
                keep = [(g, a) for g, a in v.alts if not isinstance(a, Agg) or a.var == p[1]]
                if len(keep) == 1:
                    return keep[0][1]
                if not keep:
                    raise Unsupported('downcast of union')
                return merge_vals(keep) if all(isinstance(a, Agg) for _, a in keep) else Union(keep)
            if isinstance(v, Sym):
                return Sym(f'{v.key}#{p[1]}', v.args, v.ty)
            return v
        if k == 'f':
            if isinstance(v, Agg):
                if p[1] >= len(v.f):
                    raise Unsupported(f'field {p[1]} of {v}')
                return v.f[p[1]]
            if isinstance(v, Union):
                if all(isinstance(a, Agg) and len(a.f) > p[1] for _, a in v.alts):
                    return merge_vals([(g, a.f[p[1]]) for g, a in v.alts])
                raise Split(c, done, v.alts)
            if isinstance(v, Sym):
                return models.sym_field(self, v, p[1], p[2] if len(p) > 2 else None)
            if isinstance(v, (Seq, Iter, Opaque, Str, Native)):
                return v
            raise Unsupported(f'field of {type(v).__name__}')
        if k == 'ci':
            if isinstance(v, Union):
                raise Split(c, done, v.alts)
            if isinstance(v, Seq) and all(isinstance(x, V) for x in v.segs):
                return v.segs[len(v.segs) - p[1] if p[2] else p[1]]
            sq = models.as_seq(self, None, v)
            if sq is not None and sq.segs and p[1] == 0 and not p[2]:
                h = sq.segs[0]      # the bounds have been checked before
                if isinstance(h, V):
                    return h
                if isinstance(h, OpqSeg) and not h.flat:
                    return loops.subst(h.item, h.key + '[]', h.key + '[0]')
            raise Unsupported('constant index')
        raise Unsupported('projection ' + str(p))

    def read(self, st, c, path):
        if c not in st.cells:
            raise Unsupported(f'read of uninitialised cell {c}')
        v = st.cells[c]
        for i, p in enumerate(path):
            v = self.step_read(v, p, c, path[:i])
        return v

    def write(self, st, c, path, val):
        if not path:
            st.cells[c] = val
            return
        if c not in st.cells:
            st.cells[c] = Agg(None, 0, [])
        st.cells[c] = self._upd(st.cells[c], path, val, c, ())

    def _upd(self, v, path, val, c, done):
        if not path:
            return val
        p = path[0]
        nd = done + (p,)
        if p[0] == 'b' and isinstance(v, Box):
            return Box(self._upd(v.v, path[1:], val, c, nd))
        if isinstance(v, Union) and p[0] != 'd':
            raise Split(c, done, v.alts)
        if p[0] == 'd':
            if isinstance(v, Agg):
                return self._upd(v if v.var == p[1] else Agg(v.ty, p[1], v.f), path[1:], val, c, nd)
            if isinstance(v, Union):
                raise Split(c, done, v.alts)
        if p[0] == 'f':
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(Opaque('uninit'))
                f[p[1]] = self._upd(f[p[1]], path[1:], val, c, nd)
                return Agg(v.ty, v.var, f)
            if isinstance(v, Opaque):
                f = [Opaque('uninit')] * p[1] + [Opaque('uninit')]
                f[p[1]] = self._upd(Opaque('uninit'), path[1:], val, c, nd)
                return Agg(None, 0, f)
        if p[0] == 'ci' and isinstance(v, Seq) and all(isinstance(x, V) for x in v.segs):
            f = list(v.segs)
            f[p[1]] = self._upd(f[p[1]], path[1:], val, c, nd)
            return Seq(f)
        raise Unsupported(f'write through {p} of {type(v).__name__}')

    def resolve(self, st, fr, place):
        """-> ('loc', cell, path) | ('val', value)"""
        c, path = (fr, place[0]), ()
        val = None
        isval = False
        for pr in place[1]:
            if isval:
                if pr == '*':
                    if isinstance(val, Ref):
                        c, path, isval = val.c, val.p, False
                    elif isinstance(val, RefVal):
                        val = val.v
                    elif isinstance(val, Box):
                        val = val.v
                    continue
                pj = self.proj(st, fr, pr)
                if pj is not None:
                    try:
                        val = self.step_read(val, pj, None, ())
                    except Split:
                        val = self.step_read(self.pick(st, val), pj, None, ())
                continue
            if pr == '*':
                v = self.read(st, c, path)
                if isinstance(v, Ref):
                    c, path = v.c, v.p
                elif isinstance(v, RefVal):
                    val, isval = v.v, True
                elif isinstance(v, Box):
                    path = path + (('b',),)
                elif isinstance(v, Union):
                    if all(isinstance(a, RefVal) for _, a in v.alts):
                        val, isval = merge_vals([(g, a.v) for g, a in v.alts]), True
                    elif all(isinstance(a, Box) for _, a in v.alts):
                        val, isval = merge_vals([(g, a.v) for g, a in v.alts]), True
                    else:
                        raise Split(c, path, v.alts)
                continue
            p = self.proj(st, fr, pr)
            if p is None:
                continue
            if p[0] == 'f':
                try:
                    v = self.read(st, c, path)
                except Unsupported:
                    v = None
                if isinstance(v, Box):
                    continue
                if isinstance(v, (Seq, Iter)):
                    continue
            path = path + (p,)
        return ('val', val) if isval else ('loc', c, path)

    def proj(self, st, fr, pr):
        k = pr[0]
        if k == 'f':
            return ('f', pr[1], pr[2])
        if k == 'd':
            return ('d', pr[1])
        if k == 'oc':
            return None
        if k == 'ci':
            return ('ci', pr[1], pr[3])
        if k == 'i':
            v = self.read(st, (fr, pr[1]), ())
            if isinstance(v, Int) and isinstance(v.v, int):
                return ('ci', v.v, False)
            raise Unsupported('symbolic index')
        raise Unsupported('projection ' + str(pr))

    def rd(self, st, fr, place):
        r = self.resolve(st, fr, place)
        return r[1] if r[0] == 'val' else self.read(st, r[1], r[2])

    def deref(self, st, v):
        """value behind references"""
        while True:
            if isinstance(v, Ref):
                v = self.read(st, v.c, v.p)
            elif isinstance(v, RefVal):
                v = v.v
            else:
                return v

    def deref_loc(self, st, v):
        """(cell, path) or None for a reference value, following chains"""
        loc = None
        while True:
            if isinstance(v, Ref):
                loc = (v.c, v.p)
                v = self.read(st, v.c, v.p)
            elif isinstance(v, RefVal):
                loc = None
                v = v.v
            else:
                return loc, v

    def pick(self, st, v):
        """the alternative of a union that holds here (forks if that is open)"""
        while isinstance(v, Union):
            for g, a in v.alts:
                d = st.lookup(g)
                if d is True:
                    v = a
                    break
                if d is None:
                    raise Decide(g)
            else:
                raise Unsupported('union without alternative')
        return v

    def force(self, st, v):
        """dereferenced value that is not a union (forks if necessary)"""
        loc, x = self.deref_loc(st, v)
        if isinstance(x, Union):
            if loc is None:
                return self.force(st, self.pick(st, x))
            raise Split(loc[0], loc[1], x.alts)
        return x

    # ------------------------------------------------------------ constants
    def const(self, k):
        ty, v = k['ty'], k['v']
        if v is None:
            raise Unsupported('constant')
        if v == 'zst':
            return self.zst(ty)
        key = (ty, v['bytes'], str(v['ptrs']))
        if key not in self.consts:
            self.consts[key] = self.decode(ty, v['bytes'], {o: a for o, a in v['ptrs']}, 0)
        return self.consts[key]

    def zst(self, ty):
        t = self.prog.types[ty]
        k = t['k']
        if k == 'fndef':
            return Fn(t['inst'] if t['inst'] is not None else ('path', t['path'], ty))
        if k == 'closure':
            return Agg(ty, 0, ())
        if k == 'tuple':
            return Agg(None, 0, [self.zst(e) for e in t['elems']])
        if k == 'adt':
            if t['kind'] == 'enum':
                return Agg(self.canon(ty), 0, [self.zst(x[1]) for x in t['variants'][0]['fields']])
            if t['path'].endswith('vec::Vec'):
                return Seq()
            return Agg(ty, 0, [self.zst(x[1]) for x in t['variants'][0]['fields']])
        if k == 'array':
            return Seq()
        raise Unsupported('zst ' + k)

    def decode(self, ty, hexs, ptrs, off):
        t = self.prog.types[ty]
        k = t['k']

        def num(o, n):
            s = hexs[2 * o:2 * (o + n)]
            if '_' in s:
                raise Unsupported('uninit const')
            return int.from_bytes(bytes.fromhex(s), 'little')
        if k == 'bool':
            return Bool(num(off, 1) != 0)
        if k == 'char':
            return Int(num(off, 4))
        if k in ('int', 'uint'):
            n = t['bits'] // 8
            x = num(off, n)
            return Int(signed(x, t['bits']) if k == 'int' else x)
        if k == 'float':
            n = t['bits'] // 8
            return Flt('lit', struct.unpack('<f' if n == 4 else '<d', bytes.fromhex(hexs[2 * off:2 * (off + n)]))[0])
        if k in ('ref', 'ptr'):
            to = t['to']
            tt = self.prog.types[to]
            if off not in ptrs:
                raise Unsupported('dangling const pointer')
            al = self.prog.allocs[ptrs[off]]
            if al['k'] == 'fn':
                return Fn(al['fn'])
            if al['k'] == 'static' and k == 'ref' and tt['k'] in ('ref', 'str', 'int', 'uint', 'bool', 'char', 'float', 'array') \
                    and al.get('mem'):
                # a plain immutable static
                return RefVal(self.decode(to, al['mem']['bytes'], {o: a for o, a in al['mem']['ptrs']}, num(off, 8)))
            if al['k'] == 'static':
                return Native('static', al.get('name', ''))
            if al['k'] != 'mem':
                raise Unsupported('const pointer to ' + al['k'])
            ap = {o: a for o, a in al['ptrs']}
            base = num(off, 8)
            if tt['k'] == 'str':
                n = num(off + 8, 8)
                return Str(TLit(bytes.fromhex(al['bytes'][2 * base:2 * (base + n)]).decode()))
            if tt['k'] == 'slice':
                n = num(off + 8, 8)
                es = self.size(tt['elem'])
                return RefVal(Seq([self.decode(tt['elem'], al['bytes'], ap, base + i * es) for i in range(n)]))
            return RefVal(self.decode(to, al['bytes'], ap, base))
        if k == 'tuple' and not t['elems']:
            return UNIT
        if k in ('tuple', 'closure', 'adt', 'array'):
            lay = t.get('layout')
            if k == 'array':
                es = self.size(t['elem'])
                n = t['len']
                return Seq([self.decode(t['elem'], hexs, ptrs, off + i * es) for i in range(n)])
            if lay is None:
                raise Unsupported('const without layout ' + k)
            if k == 'tuple':
                return Agg(None, 0, [self.decode(e, hexs, ptrs, off + o) for e, o in zip(t['elems'], lay['fields'])])
            if k == 'adt' and t['kind'] != 'enum':
                fs = t['variants'][0]['fields']
                return Agg(ty, 0, [self.decode(f[1], hexs, ptrs, off + o) for f, o in zip(fs, lay['fields'])])
            if k == 'adt':
                var, offs = self.enum_variant(t, lay, hexs, ptrs, off, num)
                fs = t['variants'][var]['fields']
                return Agg(self.canon(ty), var, [self.decode(f[1], hexs, ptrs, off + o) for f, o in zip(fs, offs)])
        raise Unsupported('const of ' + k)

    def size(self, ty):
        t = self.prog.types[ty]
        k = t['k']
        if k == 'bool':
            return 1
        if k == 'char':
            return 4
        if k in ('int', 'uint', 'float'):
            return t['bits'] // 8
        if k in ('ref', 'ptr'):
            return 16 if self.prog.types[t['to']]['k'] in ('str', 'slice', 'dyn') else 8
        lay = t.get('layout')
        if lay:
            return lay['size']
        if k == 'tuple' and not t['elems']:
            return 0
        raise Unsupported('size of ' + k)

    def enum_variant(self, t, lay, hexs, ptrs, off, num):
        vs = lay['variants']
        if vs['k'] == 'single':
            return vs['index'], lay['fields']
        to, tn = lay['fields'][vs['field']], vs['tagsz']
        tag = None if off + to in ptrs else num(off + to, tn)
        enc, offs = vs['enc'], vs['variants']
        if enc == 'direct':
            for i, v in enumerate(t['variants']):
                if int(v['discr']) % (1 << (8 * tn)) == tag:
                    return i, offs[i]
            raise Unsupported('enum tag')
        if tag is not None:
            rel = (tag - int(enc['start'])) % (1 << (8 * tn))
            if rel <= enc['hi'] - enc['lo']:
                return enc['lo'] + rel, offs[enc['lo'] + rel]
        return enc['untagged'], offs[enc['untagged']]

    # ------------------------------------------------------------ operands
    def op(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.rd(st, fr, o[1])
        if k == 'k':
            return self.const(o[1])
        raise Unsupported('operand ' + k)

    CANON = ('std::result::Result', 'std::option::Option', 'std::ops::ControlFlow', 'nom::internal::Err')

    def canon(self, ty):
        p = self.prog.types[ty].get('path')
        return p if p in self.CANON else ty

    def discr(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if r[0] == 'val':
            v = r[1]
            v = self.force(st, v)
        else:
            v = self.read(st, r[1], r[2])
            while isinstance(v, (Ref, RefVal)):
                v = self.force(st, v)
            if isinstance(v, Union):
                # group by variant; unions of symbolic values need a further split
                raise Split(r[1], r[2], v.alts)
        if isinstance(v, Agg):
            if v.ty is None or isinstance(v.ty, str):
                return Int(v.var)
            t = self.prog.types[v.ty]
            return Int(int(t['variants'][v.var]['discr'])) if t['kind'] == 'enum' else Int(v.var)
        if isinstance(v, Sym):
            return models.sym_discr(self, st, v)
        raise Unsupported(f'discriminant of {type(v).__name__}')

    def int_of(self, v):
        if isinstance(v, Bool):
            return v.v if isinstance(v.v, bool) else z3.If(v.v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Int):
            return v.v
        raise Unsupported(f'integer of {type(v).__name__}')

    def binop(self, st, op, a, b, checked=False):
        a, b = self.force(st, a), self.force(st, b)
        if isinstance(a, Flt) or isinstance(b, Flt):
            return models.float_bin(self, st, op, a, b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            x, y = a.v, b.v
            if op in ('BitAnd',):
                return Bool(AND(x, y))
            if op in ('BitOr',):
                return Bool(OR(x, y))
            if op in ('BitXor', 'Ne'):
                if isinstance(x, bool) and isinstance(y, bool):
                    return Bool(x != y)
                return Bool(z3.Xor(Zb(x), Zb(y)))
            if op == 'Eq':
                if isinstance(x, bool) and isinstance(y, bool):
                    return Bool(x == y)
                return Bool(Zb(x) == Zb(y))
        x, y = self.int_of(a), self.int_of(b)
        conc = isinstance(x, int) and isinstance(y, int)
        cmpf = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y,
                'Gt': lambda: x > y, 'Ge': lambda: x >= y}
        if op in cmpf:
            return Bool(cmpf[op]())
        ar = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'AddUnchecked': lambda: x + y,
              'SubUnchecked': lambda: x - y, 'MulUnchecked': lambda: x * y}
        if op in ar:
            return Int(ar[op]())
        if conc:
            f = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y,
                 'Shr': lambda: x >> y, 'Div': lambda: x // y, 'Rem': lambda: x % y,
                 'ShlUnchecked': lambda: x << y, 'ShrUnchecked': lambda: x >> y,
                 'Cmp': lambda: (x > y) - (x < y)}.get(op)
            if f:
                return Int(f())
        raise Unsupported('binop ' + op)

    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == 'use':
            return self.op(st, fr, rv[1])
        if k in ('ref', 'reborrow'):
            pl = rv[2] if k == 'ref' else rv[1]
            r = self.resolve(st, fr, pl)
            if r[0] == 'val':
                return r[1] if isinstance(r[1], (Str,)) else RefVal(r[1])
            try:
                v = self.read(st, r[1], r[2])
            except Unsupported:
                v = None
            if isinstance(v, Str) or isinstance(v, Union) and all(isinstance(a, Str) for _, a in v.alts):
                to = self.prog.types[destty].get('to') if destty is not None else None
                if to is None or self.prog.types[to]['k'] in ('str',):
                    return v
            return Ref(r[1], r[2])
        if k == 'agg':
            a = rv[1]
            ops = [self.op(st, fr, o) for o in rv[2]]
            if a['k'] == 'array':
                return Seq(ops)
            if a['k'] == 'tuple':
                return Agg(None, 0, ops) if ops else UNIT
            if a['k'] == 'adt':
                return Agg(self.canon(a['ty']), a['variant'], ops)
            if a['k'] == 'closure':
                return Agg(a['ty'], 0, ops)
            raise Unsupported('aggregate ' + a['k'])
        if k == 'bin':
            r = self.binop(st, rv[1], self.op(st, fr, rv[2]), self.op(st, fr, rv[3]))
            if rv[1] in ('Add', 'Sub', 'Mul', 'Shl', 'BitXor') and isinstance(r, Int):
                t = self.prog.types[destty] if destty is not None else {'k': None}
                if t['k'] in ('int', 'uint'):
                    return self.wrap(st, r, t)
            return r
        if k == 'cbin':
            r = self.binop(st, rv[1], self.op(st, fr, rv[2]), self.op(st, fr, rv[3]))
            bits, sg = 64, False
            t = self.prog.types[destty]
            if t['k'] == 'tuple':
                e = self.prog.types[t['elems'][0]]
                bits, sg = e.get('bits', 64), e['k'] == 'int'
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            x = r.v
            ov = (x < lo or x > hi) if isinstance(x, int) else z3.Or(x < lo, x > hi)
            return Agg(None, 0, [r, Bool(ov)])
        if k == 'un':
            v = self.force(st, self.op(st, fr, rv[2]))
            if rv[1] == 'Not':
                if isinstance(v, Bool):
                    return Bool(NOT(v.v))
            if rv[1] == 'Neg' and isinstance(v, Int):
                return Int(-v.v)
            if rv[1] == 'Neg' and isinstance(v, Flt):
                return models.float_neg(self, v)
            if rv[1] == 'PtrMetadata':
                return models.seq_len(self, st, v)
            raise Unsupported('unop ' + rv[1])
        if k == 'cast':
            v = self.op(st, fr, rv[2])
            if rv[1] in ('IntToInt', 'IntToFloat', 'FloatToFloat', 'FloatToInt'):
                return self.cast(st, rv[1], self.force(st, v), self.prog.types[rv[3]])
            if isinstance(v, Bool):
                return Int(self.int_of(v))
            return v
        if k == 'discr':
            r = self.discr(st, fr, rv[1])
            t = self.prog.types[destty] if destty is not None else {'k': None}
            return self.wrap(st, r, t) if t['k'] == 'int' and isinstance(r.v, int) else r
        if k == 'len':
            return models.seq_len(self, st, self.rd(st, fr, rv[1]))
        if k == 'repeat':
            v = self.op(st, fr, rv[1])
            return Seq([v] * int(rv[2]))
        raise Unsupported('rvalue ' + k)

    def wrap(self, st, v, t):
        """machine arithmetic: v modulo the width of type t"""
        bits, sg = t['bits'], t['k'] == 'int'
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        x = v.v
        if isinstance(x, int):
            return Int((x - lo) % (1 << bits) + lo)
        if self.prove(st, z3.And(x >= lo, x <= hi)) is True:
            return v
        return Int((x - lo) % (1 << bits) + lo)

    def cast(self, st, k, v, t):
        if k == 'IntToInt':
            if isinstance(v, Bool):
                v = Int(self.int_of(v))
            if isinstance(v, Sym) and v.ty is not None and self.prog.types[v.ty]['k'] in ('int', 'uint'):
                s = self.prog.types[v.ty]
                if s['k'] == t['k'] and s['bits'] <= t['bits']:
                    return v
                v = Int(models.int_term(self, v))
            if isinstance(v, Int):
                return self.wrap(st, v, t)
            if isinstance(v, Native) and v.k == 'u64' and not (t['k'] == 'uint' and t['bits'] >= 64):
                return Native('u64c', v.a, t['k'], t['bits'])
            return v
        return models.float_cast(self, st, k, v, t)

    # ------------------------------------------------------------ running
    def fork_split(self, st, e):
        out = []
        for g, a in e.alts:
            s2 = st.assume(g)
            if s2 is None or not self.feasible(s2):
                continue
            self.write(s2, e.c, e.p, a)
            out.append(s2)
        return out

    def fork_decide(self, st, c):
        out = []
        for x in (c, NOT(c)):
            s2 = st.assume(x)
            if s2 is not None and self.feasible(s2):
                out.append(s2)
        return out

    def constructor(self, f, args):
        """the value a variant or tuple struct used as a function builds, or None"""
        sig = f.get('sig')
        t = self.prog.types[sig['out']] if sig else None
        if not t or t['k'] != 'adt' or len(sig['in']) != len(args):
            return None
        last = f['path'].split('::')[-1]
        for i, v in enumerate(t['variants']):
            if len(v['fields']) == len(args) and [x[1] for x in v['fields']] == list(sig['in']) \
                    and (v['name'] == last if t['kind'] == 'enum' else t['path'] == f['path']):
                return Agg(self.canon(sig['out']), i, args)
        return None

    def run(self, inst, args, st):
        """all outcomes [(state, value)] of calling function instance `inst`, merged"""
        f = self.prog.fns[inst]
        b = f['body']
        if b is None:
            v = self.constructor(f, args)
            if v is None:
                raise Unsupported('no body: ' + f['path'])
            self.executed.add(f['path'])
            return [(st, v)]
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('call depth (recursion without contract): ' + f['path'])
        self.cur.append(f)
        self.executed.add(f['path'])
        self.ncell += 1
        fr = self.ncell
        entry = st
        s0 = st.fork()
        n = b['args']
        sp = b['spread']
        if sp is not None and len(args) == n:
            pass
        elif sp is not None:
            args = list(args[:sp - 1]) + [Agg(None, 0, args[sp - 1:])]
        if len(args) != n:
            raise Unsupported(f'argument count of {f["path"]}: {len(args)} != {n}')
        for i, a in enumerate(args):
            s0.cells[(fr, i + 1)] = a
        outs = []
        try:
            self.explore(f, fr, [(s0, 0, 0)], outs)
        except Exception as e:
            if not hasattr(e, 'where'):
                e.where = [g['path'] for g in self.cur[-3:]]
            raise
        finally:
            self.cur.pop()
            self.depth -= 1
        return self.merge(entry, outs, fr)

    def explore(self, f, fr, work, outs, stop=None, backs=None):
        """runs the states in work to the end of the function (or back to the head of a loop)"""
        b = f['body']
        blocks = b['blocks']
        locs = b['locals']
        while work:
            s, bi, si = work.pop()
            while True:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unsupported('too many steps')
                bl = blocks[bi]
                try:
                    if si < len(bl['s']):
                        pl, rv = bl['s'][si]
                        if rv[0] == 'setdiscr':
                            raise Unsupported('set discriminant')
                        if rv[0] == 'unsupported':
                            raise Unsupported('statement')
                        dt = locs[pl[0]] if not pl[1] else None
                        v = self.rvalue(s, fr, rv, dt)
                        r = self.resolve(s, fr, pl)
                        if r[0] == 'val':
                            raise Unsupported('write through constant reference')
                        self.write(s, r[1], r[2], v)
                        si += 1
                        continue
                    t = bl['t']
                    k = t[0]
                    if k == 'goto':
                        bi, si = t[1], 0
                        continue
                    if k == 'return':
                        v = s.cells.get((fr, 0), UNIT)
                        outs.append((s, v))
                        break
                    if k == 'drop':
                        bi, si = t[2], 0
                        continue
                    if k == 'switch':
                        v = self.force(s, self.op(s, fr, t[1]))
                        nxt = self.switch(s, v, t, locs[t[1][1][0]] if t[1][0] in ('c', 'm') and not t[1][1][1] else None)
                        if len(nxt) == 1:
                            s, bi = nxt[0]
                            si = 0
                            continue
                        for s2, b2 in nxt:
                            work.append((s2, b2, 0))
                        break
                    if k == 'assert':
                        v = self.force(s, self.op(s, fr, t[1]))
                        c = v.v if isinstance(v, Bool) else (v.v != 0)
                        good = c if t[2] else NOT(c)
                        self.panic_unless(s, good, f, str(t[3])[:60])
                        s2 = s.assume(good)
                        if s2 is None or not self.feasible(s2):
                            break
                        s, bi, si = s2, t[4], 0
                        continue
                    if k == 'call':
                        fv = self.op(s, fr, t[1])
                        argv = [self.op(s, fr, a) for a in t[2]]
                        dest = t[3]
                        rty = locs[dest[0]] if not dest[1] else None
                        res = self.call_join(s, fv, argv, rty, t[4] is None)
                        if t[4] is None or res is None:
                            if res is None or self.feasible(s):
                                self.panic_unless(s, False, f, 'diverging call ' + self.fname(fv))
                            break
                        nx = []
                        for s2, v in res:
                            s2 = s2.fork()
                            r = self.resolve(s2, fr, dest)
                            if r[0] == 'val':
                                raise Unsupported('call result through constant reference')
                            self.write(s2, r[1], r[2], v)
                            nx.append(s2)
                        if len(nx) == 1:
                            s, bi, si = nx[0], t[4], 0
                            continue
                        for s2 in nx:
                            work.append((s2, t[4], 0))
                        break
                    if k in ('unreachable', 'resume', 'abort'):
                        if k == 'unreachable' and self.feasible(s):
                            # enum exhaustiveness is guaranteed by the compiler
                            pass
                        break
                    raise Unsupported('terminator ' + k)
                except Split as e:
                    for s2 in self.fork_split(s, e):
                        work.append((s2, bi, si))
                    break
                except Decide as e:
                    for s2 in self.fork_decide(s, e.cond):
                        work.append((s2, bi, si))
                    break
                except loops.SymLoop as e:
                    if e.depth != self.depth:
                        raise Unsupported('loop over a repetition')
                    if e.st is None:
                        try:
                            self.write(s.fork(), *e.loc, e.it)
                            e = loops.SymLoop(s, e.loc, self.read(s, *e.loc), e.depth)
                        except Split as e2:
                            work += [(s2, bi, si) for s2 in self.fork_split(s, e2)]
                            break
                        if not isinstance(e.it, Iter) or not e.it.seq.segs:
                            raise Unsupported('loop over an iterator of the crate')
                    h = e.it.seq.segs[0]
                    if f['path'].startswith('<') and f['path'].endswith(' as std::iter::Iterator>::next') and stop is None:
                        # the loop, if any, is in the caller of this `next`
                        raise loops.SymLoop(None, e.loc, e.it, self.depth - 1)
                    if stop is not None and stop[0] == bi and isinstance(h, OpqSeg) and h.key == stop[1]:
                        backs.append(e.st)
                        break
                    work += loops.advance(self, f, fr, bi, si, e, outs)
                    break

    def fname(self, fv):
        if isinstance(fv, Fn):
            if isinstance(fv.i, int):
                return self.prog.fns[fv.i]['path']
            return str(fv.i[1])
        return str(fv)

    def panic_unless(self, st, cond, f, what):
        r = self.prove(st, cond)
        ok = r is True
        self.obls.append(Obligation('no-panic', f['path'], what, ok,
                                    '' if ok else 'path condition: ' + ' & '.join(str(c)[:200] for c in st.pc[-6:])))
        if not ok:
            self.obls[-1].status = self.refuted(st, cond) if r is False else 'unknown'

    def refuted(self, st, *goal):
        """the status of an obligation with a counterexample: undecided when what is known of the state or the goal
        involves a function of which the proof knows nothing (its name contains '¿')"""
        return 'unknown' if loops.mentions(list(st.pc) + list(goal), ['¿'], {}) else 'failed'

    def switch(self, s, v, t, ty=None):
        x = v.v
        ty = self.prog.types[ty] if ty is not None else {'k': None}
        if ty['k'] == 'int' and isinstance(v, Int) and not isinstance(x, int):
            w = ty['bits']
            t = [t[0], t[1], [(str((int(c) % (1 << w) + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))), b) for c, b in t[2]], t[3]]
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            for c, b in t[2]:
                if int(c) == x or (x < 0 and int(c) == x % (1 << 128)) or (x < 0 and any(
                        int(c) == x % (1 << w) for w in (8, 16, 32, 64))):
                    return [(s, b)]
            return [(s, t[3])]
        out = []
        conds = []
        for c, b in t[2]:
            if isinstance(v, Bool):
                cd = x if int(c) == 1 else NOT(x)
            else:
                cd = x == int(c)
            conds.append(cd)
            d = s.lookup(cd)
            if d is False:
                continue
            s2 = s.assume(cd)
            if s2 is not None and (d is True or self.feasible(s2)):
                out.append((s2, b))
                if d is True:
                    return out
        s2 = s.assume(AND(*[NOT(c) for c in conds]))
        if s2 is not None and self.feasible(s2):
            out.append((s2, t[3]))
        return out

    # ------------------------------------------------------------ merging
    def shape(self, v):
        if isinstance(v, Agg) and isinstance(v.ty, str):
            return (v.ty, v.var, tuple(self.shape(x) for x in v.f))
        if isinstance(v, Bool):
            return 'b' + str(v.v) if isinstance(v.v, bool) else 'b?'
        return '*'

    def merge(self, entry, outs, fr):
        n0 = len(entry.pc)
        groups = {}
        for s, v in outs:
            groups.setdefault(self.shape(v), []).append((s, v))
        res = []
        for key, g in groups.items():
            if len(g) == 1:
                s, v = g[0]
                if len(groups) == 1:
                    s2 = State(s.cells, entry.pc, entry.known)
                else:
                    s2 = State(s.cells, s.pc, s.known)
                s2.cells = {c: x for c, x in s.cells.items() if c in entry.cells or (
                    not isinstance(c, tuple) and c >= fr)}
                res.append((s2, v))
                continue
            guards = []
            for s, v in g:
                guards.append(AND(*s.pc[n0:]))
            val = merge_vals([(gd, v) for gd, (s, v) in zip(guards, g)])
            cells = {}
            ids = set(g[0][0].cells)
            for s, _ in g[1:]:
                ids &= set(s.cells)
            for c in ids:
                if c not in entry.cells and isinstance(c, tuple):
                    continue
                vs = [s.cells[c] for s, _ in g]
                if all(x is vs[0] for x in vs[1:]):
                    cells[c] = vs[0]
                else:
                    cells[c] = merge_vals(list(zip(guards, vs)))
            base = State(cells, entry.pc, entry.known)
            if len(groups) > 1:
                s2 = base.assume(OR(*guards))
                if s2 is None:
                    continue
            else:
                s2 = base
            res.append((s2, val))
        return res

    # ------------------------------------------------------------ calls
    def call_join(self, st, fv, args, rty, diverges):
        """a call that needs case distinctions on its arguments: the outcomes are merged again"""
        try:
            return self.call_op(st, fv, args, rty, diverges)
        except Decide as e:
            sts, ex = self.fork_decide(st, e.cond), e
        except Split as e:
            sts, ex = self.fork_split(st, e), e
        if diverges:
            raise ex
        fr = self.ncell + 1
        outs = []
        for s in sts:
            r = self.call_join(s, fv, args, rty, diverges)
            if r is None:
                raise ex
            outs += r
        if not outs:
            raise ex
        return self.merge(st, outs, fr)

    def call_op(self, st, fv, args, rty, diverges):
        if isinstance(fv, Fn):
            i = fv.i
            if not isinstance(i, int):
                path = i[1]
                m = models.lookup(path)
                if m:
                    return m(self, st, None, args, rty)
                raise Unsupported('unresolved call ' + path)
            return self.call_inst(st, i, args, rty)
        return self.call_value(st, fv, args, rty)

    def call_inst(self, st, i, args, rty):
        f = self.prog.fns[i]
        c = self.contracts.get(i)
        if c is not None:
            return c(self, st, args, rty)
        path = f['path']
        m = models.lookup(path)
        if m is not None:
            r = m(self, st, i, args, rty)
            if r is not NotImplemented:
                self.modelled.add(path)
                return r
        if models.is_panic(path):
            return None
        if getattr(self, 'api', False) and len(args) == 1:
            p = models.predicate(self, st, i, f, args)
            if p is not None:
                return [(st, p)]
        if f['kind'] == 'shim' and path in ('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once',
                                            'std::ops::Fn::call'):
            return self.call_value(st, args[0], self.untuple(st, args[1]), rty)
        if '{closure#' in path.split('::')[-1]:
            return self.call_value(st, args[0], self.untuple(st, args[1]), rty)
        return self.run(i, args, st)

    def untuple(self, st, v):
        v = self.force(st, v)
        if isinstance(v, Agg):
            return list(v.f)
        raise Unsupported('argument tuple')

    def call_value(self, st, fv, args, rty):
        """call of a callable value with unpacked arguments"""
        loc, x = self.deref_loc(st, fv)
        if isinstance(x, Box):
            x = x.v
        if isinstance(x, Union):
            self.force(st, fv)
        if isinstance(x, Fn):
            if not isinstance(x.i, int):
                return self.call_op(st, x, args, rty, False)
            return self.call_inst(st, x.i, args, rty)
        if isinstance(x, Native):
            return models.call_native(self, st, x, args, rty)
        if isinstance(x, Agg) and isinstance(x.ty, int):
            t = self.prog.types[x.ty]
            if t['k'] == 'closure':
                inst = t['inst']
                f = self.prog.fns[inst]
                m = models.lookup(f['path'])
                b = f['body']
                if b is None:
                    raise Unsupported('closure without body')
                selfty = self.prog.types[b['locals'][1]]
                st = st.fork()
                if selfty['k'] == 'ref':
                    if loc is None:
                        loc = (self.newcell(st, x), ())
                    a0 = Ref(*loc)
                else:
                    a0 = x
                if b['args'] == 1 + len(args):
                    return self.run(inst, [a0] + list(args), st)
                if b['args'] == 2:
                    return self.run(inst, [a0, Agg(None, 0, args)], st)
                raise Unsupported('closure arity')
            if t['k'] == 'adt':
                raise Unsupported('call of ' + t['path'])
        raise Unsupported(f'call of value {type(x).__name__}')
