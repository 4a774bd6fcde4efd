"""Contracts of the parser functions: at every position a parser either matches (ok), fails softly or
fails hard; a match ends at rest and yields the value val.  The specification (spec.py) says what
these are; at a call site only the contract is used."""
import z3
from values import *
from theory import *
import models
from models import ok, err, one, branch


class NT:
    """contract functions of one parser"""

    def __init__(self, name):
        self.name = name
        self.ok = z3.Function('ok_' + name, S, B)
        self.failf = z3.Function('fail_' + name, S, B)
        self.rest = z3.Function('rest_' + name, S, S)
        self.canfail = False
        self.total = False
        self.ty = None
        self.valued = name not in ('ignore_eol_comment',)
        self.alias = None       # contract of another parser with the same meaning

    def get(self):
        n = self
        while n.alias is not None:
            n = n.alias
        return n

    def okc(self, s):
        return True if self.total else self.ok(s)

    def failc(self, s):
        return self.failf(s) if self.canfail else False


class CallContract:
    def __init__(self, nt):
        self.nt = nt

    def __call__(self, mx, st, args, rty):
        sp = mx.force(st, args[0])
        if isinstance(sp, Str) and isinstance(sp.t, TSlice):
            sp = Span(sp.t.a, sp.t.b)
        if not isinstance(sp, Span) or sp.b is not None:
            raise models.ex().Unsupported('contracted parser on bounded input')
        s = sp.a
        ty = self.nt.ty
        nt = self.nt.get()
        mx.calls.append((self.nt.name, s, tuple(mx.gstack), st.pc))
        mx.th.visit(s)
        val = Sym(nt.name, (s,), ty) if ty is not None else UNIT
        good = lambda s2: one(s2, ok(Span(nt.rest(s)), val))
        if nt.total:
            return good(st)

        def soft(s2):
            return branch(mx, s2, nt.ok(s), good, lambda s3: one(s3, err()))
        if nt.canfail:
            return branch(mx, st, nt.failf(s), lambda s2: one(s2, err(2)), soft)
        return soft(st)


def result_value_type(prog, inst):
    """X in ParseResult<X> of a parser instance"""
    f = prog.fns[inst]
    t = prog.types[f['body']['locals'][0]]
    tup = prog.types[t['variants'][0]['fields'][0][1]]
    x = tup['elems'][1]
    if prog.types[x]['k'] == 'tuple' and not prog.types[x]['elems']:
        return None
    return x
