"""Positions in the input text and the background theory.

Input positions are terms of an uninterpreted sort S.  hd(s) is the code point at s (-1 at the
end of the input), tl(s) the position after it, ln(s) the number of bytes left.  Everything else
(maximal runs, contract functions of parsers, list recognisers) is an uninterpreted function on
positions.  Facts about a term (ground instances of universally valid statements, listed in
DESIGN.md) are added when the term first occurs in a query."""
import z3

S = z3.DeclareSort('S')
I = z3.IntSort()
B = z3.BoolSort()
hd = z3.Function('hd', S, I)
tl = z3.Function('tl', S, S)
ln = z3.Function('ln', S, I)
EOFPOS = z3.Const('eof', S)
START = z3.Const('s', S)

NAMED = {
    'ws': ((9, 10), (13, 13), (32, 32)),
    'alpha': ((65, 90), (97, 122)),
    'digit': ((48, 57),),
    'alnum': ((48, 57), (65, 90), (97, 122)),
    'name': ((45, 45), (48, 57), (65, 90), (95, 95), (97, 122)),
    'sp': ((9, 9), (32, 32)),
}
MAXC = 0x10FFFF


def cls_not(chars):
    out, lo = [], 0
    for c in sorted(set(ord(x) for x in chars)):
        if lo <= c - 1:
            out.append((lo, c - 1))
        lo = c + 1
    out.append((lo, MAXC))
    return tuple(out)


def cls_norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


NOTEOL = cls_not('\r\n')
for _k in list(NAMED):
    NAMED[_k] = cls_norm(NAMED[_k])


def in_class(c, rs):
    if rs == ():
        return z3.BoolVal(False)
    if len(rs) >= 1 and rs[0][0] == 0 and rs[-1][1] == MAXC:
        # complement form
        ex = []
        for (a, b), (c2, d) in zip(rs, rs[1:]):
            ex.append((b + 1, c2 - 1))
        return z3.And(c >= 0, *[z3.Or(c < a, c > b) if a != b else c != a for a, b in ex])
    return z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs]) if len(rs) > 1 else (
        c == rs[0][0] if rs[0][0] == rs[0][1] else z3.And(c >= rs[0][0], c <= rs[0][1]))


def subset(a, b):
    return all(any(c <= x and y <= d for c, d in b) for x, y in a)


_skips = {}
_skipcls = {}


def mk_skip(rs, s):
    rs = cls_norm(rs)
    f = _skips.get(rs)
    if f is None:
        nm = 'skip_' + '_'.join(f'{a:x}.{b:x}' for a, b in rs)
        f = _skips[rs] = z3.Function(nm, S, S)
        _skipcls[nm] = rs
    return f(s)


def mk_tl(s):
    return tl(s)


def adv(s, n):
    for _ in range(n):
        s = tl(s)
    return s


def starts(s, lit):
    cs = []
    for c in lit:
        cs.append(hd(s) == ord(c))
        s = tl(s)
    if not cs:
        return True
    return z3.And(*cs) if len(cs) != 1 else cs[0]


def starts_nocase(s, lit):
    cs = []
    for c in lit:
        lo, up = c.lower(), c.upper()
        cs.append(hd(s) == ord(c) if lo == up else z3.Or(hd(s) == ord(lo), hd(s) == ord(up)))
        s = tl(s)
    return z3.And(*cs) if len(cs) != 1 else cs[0]


def z(t):
    return t.get_id()


class Theory:
    """Ground facts, and named fact generators for contract functions."""

    def __init__(self):
        self.seen = set()
        self.keep = []
        self.facts = []
        self.gens = {}      # decl name -> function(term) -> [facts]
        self.gen_depth = {}
        self.lits = []      # (term, text): different literals are different texts
        self.nbytes = []    # (length, text) of opaque texts
        self.add(hd(EOFPOS) == -1, ln(EOFPOS) == 0)

    def add(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    raise AssertionError('false fact')
                continue
            self.facts.append(f)
            self.visit(f)

    def visit(self, e, depth=0):
        """register facts for all terms in e"""
        todo = [e]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in self.seen:
                continue
            self.seen.add(i)
            self.keep.append(t)
            if not z3.is_app(t):
                continue
            todo.extend(t.children())
            fs = self.facts_for(t)
            for f in fs:
                if isinstance(f, bool):
                    continue
                self.facts.append(f)
                todo.append(f)

    def facts_for(self, t):
        fs = []
        if t.sort() == S:
            fs += [ln(t) >= 0, (hd(t) == -1) == (ln(t) == 0), hd(t) >= -1]
        d = t.decl()
        nm = d.name()
        if nm.startswith('lit:'):
            fs += [t != o for o, _ in self.lits]
            fs += [z3.Implies(x == t, n == len(nm[4:].encode())) for n, x in self.nbytes]
            self.lits.append((t, nm[4:]))
        elif nm.startswith('nbytes_'):
            import values
            x = values.txt_term(values.TSymT(nm[7:], t.children()))
            fs += [z3.Implies(x == o, t == len(w.encode())) for o, w in self.lits]
            self.nbytes.append((t, x))
        if nm == 'tl':
            s = t.arg(0)
            fs += [z3.Implies(hd(s) >= 0, z3.And(ln(t) < ln(s), z3.Implies(hd(s) < 128, ln(t) == ln(s) - 1)))]
        elif nm in _skipcls:
            rs = _skipcls[nm]
            s = t.arg(0)
            c = in_class(hd(s), rs)
            fs += [z3.Implies(z3.Not(c), t == s), z3.Not(in_class(hd(t), rs)), ln(t) <= ln(s),
                   z3.Implies(c, ln(t) < ln(s))]
            sd = s.decl().name()
            if z3.is_app_of(s, z3.Z3_OP_ITE):
                fs.append(t == z3.If(s.arg(0), mk_skip(rs, s.arg(1)), mk_skip(rs, s.arg(2))))
            if sd in _skipcls and subset(_skipcls[sd], rs):
                fs.append(t == mk_skip(rs, s.arg(0)))
            if sd == 'tl':
                # one step: a character of the class is part of the run
                fs.append(z3.Implies(in_class(hd(s.arg(0)), rs), t == mk_skip(rs, s.arg(0))))
        elif nm in self.gens:
            fs += self.gens[nm](t)
        return fs


def NOT(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _flat(xs, absorb):
    out = []
    for x in xs:
        if isinstance(x, bool):
            out.append(x)
        elif absorb(x):
            out.extend(x.children())
        else:
            out.append(x)
    return out


def AND(*xs):
    seen = set()
    r = []
    for x in _flat(xs, z3.is_and):
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if z(x) in seen:
            continue
        seen.add(z(x))
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def OR(*xs):
    seen = {}
    r = []
    for x in _flat(xs, z3.is_or):
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        if z(x) in seen:
            continue
        n = x.arg(0) if z3.is_not(x) else None
        seen[z(x)] = x
        r.append(x)
    for x in r:
        if z3.is_not(x) and z(x.arg(0)) in seen:
            return True
    # absorption: a or (not a and b)  ->  a or b ;  a or (a and b) -> a
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    # common factor: (c and a) or (c and not a) -> c
    fs = [({z(y): y for y in x.children()} if z3.is_and(x) else {z(x): x}) for x in r]
    common = set(fs[0])
    for f in fs[1:]:
        common &= set(f)
    if common:
        keep = [fs[0][i] for i in fs[0] if i in common]
        rests = [AND(*[f[i] for i in f if i not in common]) for f in fs]
        return AND(*keep, OR(*rests))
    return z3.Or(*r)


def IF(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = Zb(a), Zb(b)
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


def Zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def subst(e, *pairs):
    if isinstance(e, bool) or e is None:
        return e
    return z3.substitute(e, *pairs)
