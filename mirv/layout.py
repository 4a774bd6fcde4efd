"""Layout carries no meaning (C14): a lemma over the specifications, and its bounded check on the real code.

Lemma.  Let t and t' be texts that differ only in (a) the characters of runs of white space (each run non-empty in both;
a run that ends a comment starts with a line break in both), (b) the characters of comments between ';' and the line
break, (c) further comments, with the white space that ends them, directly behind a comment.  Then every specification
gives on t and t', at corresponding positions, the same acceptance and the same tree, and ends at corresponding positions.

Proof, by induction on the evaluation.  A position is *inside* a run or comment if it is neither at its start nor behind
it.  What the cases below check makes no recogniser stop inside, and makes all of them blind to (a)-(c):
  literals       contain no white space and, but for the one that opens comments, no ';'
  classes        of runs and look-aheads contain all white space or none of it, and never ';'; a run that contains white
                 space contains nothing else (so it ends behind the run: runs are maximal)
  comments       the class between ';' and line break contains everything but CR and LF, and occurs only in
                 `ignore_eol_comment` = [ ';' [run of that class] white-space* ignore_eol_comment ]: it ends behind the
                 last comment of a row and the white space behind it, wherever that is
  trees          texts in trees come from literals and from runs without white space (layout is dropped)
Everything else (sequence, choice, option, repetition, call, construction) only passes positions and trees on.
Whatever a recogniser fails on, it fails on in both; backtracking goes to positions reached before."""
import random

import grammar as GR
import spec

WS = (9, 10, 13, 32)
MAXCH = 0x10ffff


def has(rs, c):
    return any(a <= c <= b for a, b in rs)


def comment_rule():
    """is the rule of comments of the form the lemma needs?"""
    e = GR.G['ignore_eol_comment']
    if not (type(e) is spec.AtMost1 and type(e.e) is spec.Seq and len(e.e.es) == 4):
        return False
    semi, body, ws, again = e.e.es
    if not (type(semi) is spec.Lit and semi.s == ';'):
        return False
    if not (type(body) is spec.AtMost1 and type(body.e) is spec.Drop and type(body.e.e) is spec.Run):
        return False
    r = body.e.e
    if r.min != 1 or any(has(r.rs, c) == (c in (10, 13)) for c in (0, 9, 10, 13, 32, 59, 0x7f, 0x80, 0x2028, MAXCH)):
        return False
    if sum(b - a + 1 for a, b in r.rs) < MAXCH - 2:
        return False
    if not (type(ws) is spec.Drop and is_ws(ws.e) and ws.e.min == 0):
        return False
    return type(again) is spec.Call and again.name == 'ignore_eol_comment'


def is_ws(r):
    return type(r) is spec.Run and sorted(c for a, b in r.rs for c in range(a, b + 1)) == list(WS) and r.min in (0, 1)


KNOWN = {'Lit', 'Run', 'Call', 'Seq', 'Alt', 'Opt', 'Drop', 'Text', 'When', 'Cut', 'Map', 'Node', 'Const', 'Rep', 'AtMost1',
         'NotAhead', 'OptElse'}


def lemma():
    """-> [(what, holds, why not)], one case per specification"""
    out = [('comments', comment_rule(), 'the rule of comments has another form')]
    for n, e in sorted(GR.G.items()):
        if n == 'ignore_eol_comment':
            continue
        bad = None
        for x in GR.subexprs(e):
            if type(x).__name__ not in KNOWN:
                bad = f'unknown form {type(x).__name__}'
            elif isinstance(x, spec.Lit) and any(ord(c) in WS or c == ';' for c in x.s):
                bad = f'literal {x.s!r}'
            elif isinstance(x, (spec.Run, GR.NotAhead)):
                k = sum(has(x.rs, c) for c in WS)
                if has(x.rs, ord(';')) or k not in (0, 4) or k == 4 and not is_ws(x):
                    bad = f'class {x.rs}'
            elif isinstance(x, spec.Text) and any(is_ws(y) or isinstance(y, spec.Call) and y.name == 'ignore_eol_comment'
                                                  for y in GR.subexprs(x.e)):
                bad = 'text with layout'
        out.append((n, bad is None, bad))
    return out


# ------------------------------------------------------------------------------ on the real code
BITS = ('(', ')', ' ', '\t', ';', 'a', '"', '-', '\u00e9', ' (and', '?x', ')) ', '\x0b', ';;', '1', ':effect', '\u2028', '')


def vary(seed, t, nums=()):
    """the same text with other layout, as in the lemma"""
    r = random.Random(f'{seed}/{t}')
    out, i, n = [], 0, len(t)

    def ws(first=None):
        k = r.choice((1, 1, 1, 2, 3, 8)) if r.random() > .02 else r.choice((50, 300))
        return (first or r.choice(' \t\r\n')) + ''.join(r.choice(' \t\r\n') for _ in range(k - 1))

    def comment():
        return ';' + ''.join(r.choice(BITS) for _ in range(r.choice((0, 0, 1, 3, 12)))) + \
            ('x' * r.choice((100, 5000)) if r.random() < .01 else '')
    while i < n:
        c = t[i]
        if c == ';':
            while i < n and t[i] not in '\r\n':
                i += 1
            j = i
            while i < n and ord(t[i]) in WS:
                i += 1
            rows = r.choice((1, 1, 2, 3)) if r.random() > .1 else 200
            if nums and r.random() < .3:
                rows = min(3000, max(1, r.choice(nums) + r.choice((0, 1, 2))))
            for k in range(rows):
                out.append(comment())
                if k < rows - 1 or i > j:
                    out.append(ws(r.choice('\n\n\r')))
        elif ord(c) in WS:
            while i < n and ord(t[i]) in WS:
                i += 1
            out.append(ws())
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def plain(t):
    """without layout"""
    out, i = [], 0
    while i < len(t):
        if t[i] == ';':
            while i < len(t) and t[i] not in '\r\n':
                i += 1
        elif ord(t[i]) in WS:
            i += 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def differ(t, g, u, h):
    """outcome g on text t, outcome h on the text u that differs from it in layout only"""
    if g[0] != h[0] or g[0] not in ('ok', 'err'):
        return g[0] != h[0]
    if g[0] == 'err':
        return False
    rest = lambda x, o: plain(x.encode()[len(x.encode()) - o[1]:].decode('utf-8', 'replace')) if o[1] else ''
    return g[2] != h[2] or rest(t, g) != rest(u, h)
