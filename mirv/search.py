"""Bounded stand-in and witness search: texts generated from the specification and mutated, run through
the real parser (roots/replay) and through the executable reading of the specification."""
import json
import os
import random
import struct
import subprocess
import sys
import time
from fractions import Fraction
import spec
import grammar as GR
import layout

sys.setrecursionlimit(20000)


class Replay:
    def __init__(self, binary, timeout=20):
        self.binary, self.timeout = binary, timeout
        self.p = None
        self.buf = b''

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=-1)
        self.buf = b''

    def run(self, items):
        """items: [(root, text)] -> outcomes (a crash or hang of the process is an outcome too)"""
        out = self.run_(items)
        for k, o in enumerate(out):
            if o[0] in ('hang', 'crash') and not self.confirming:      # by itself, with more time
                self.close()
                r = Replay(self.binary, 120)
                r.confirming = True
                out[k] = r.run_([items[k]])[0]
                r.close()
        return out

    confirming = False

    def run_(self, items):
        out = []
        i = 0
        while i < len(items):
            if self.p is None or self.p.poll() is not None:
                self.start()
            chunk = items[i:i + 64]
            try:
                data = ''.join(f'{r} {t.encode("utf-8", "surrogatepass").hex()}\n' for r, t in chunk).encode()
                self.p.stdin.write(data)
                self.p.stdin.flush()
                for k in range(len(chunk)):
                    line = self.readline()
                    if line is None:
                        out.append(['hang' if self.p.poll() is None else 'crash'])
                        self.p.kill()
                        self.p.wait()
                        self.p = None
                        i += k + 1
                        break
                    out.append(json.loads(line))
                else:
                    i += len(chunk)
            except BrokenPipeError:
                self.p.kill()
                self.p = None
                out.append(['crash'])
                i += 1
        return out

    def readline(self):
        import select
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], self.timeout)
            if not r:
                return None
            d = os.read(fd, 1 << 16)
            if not d:
                self.p.wait()
                return None
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def round_f32(s):
    """bits of the f32 nearest to a decimal text (exact, ties to even)"""
    q = Fraction(s)
    if q == 0:
        return 0
    e = 0
    while q >= Fraction(2) ** (e + 1):
        e += 1
    while q < Fraction(2) ** e:
        e -= 1
    e = max(e, -126)
    unit = Fraction(2) ** (e - 23)
    n = q / unit
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k % 2):
        k += 1
    v = float(k * unit)
    return struct.unpack('<I', struct.pack('<f', v))[0]


def canon(t):
    """oracle tree -> the JSON shape of replay"""
    k = t[0]
    if k == 'n':
        return ['n', t[1]] + [canon(x) for x in t[2]]
    if k in ('txt', 'lit'):
        return ['txt', t[1]]
    if k == 'num':
        return ['num', round_f32(t[1])]
    if k == 'u64':
        return ['u64', str(int(t[1]))]
    if k == 'list':
        return ['list'] + [canon(x) for x in t[1]]
    raise ValueError(t)


def expected(orc, name, text):
    r = orc.parse(name, text)
    if r[0] == 'ok':
        rest = len(text[r[1]:].encode())
        return ['ok', rest, canon(r[2]) if r[2] is not None else None]
    return ['err', 1 if r[0] == 'err' else 2]


def agree(exp, got):
    if exp[0] == 'ok' and got[0] == 'ok':
        return exp[1] == got[1] and (exp[2] is None or exp[2] == got[2])
    if exp[0] == 'err' and got[0] == 'err':         # a rejection; its kind matters where it changes what a caller accepts
        return got[1] in (1, 2)
    return exp == got


TOKENS = ['(', ')', '-', ' ', '\n', '\t', '\r\n', ';', ';c\n', '?', '?x', 'a', 'b', '1', '0.5', '1.5', '=', '<=', '>=', '<', '>',
          '*', '+', '/', '#t', '?duration', 'at', 'start', 'end', 'over', 'all', 'and', 'or', 'not', 'forall', 'exists', 'when',
          'imply', 'preference', 'either', 'object', 'number', 'undefined', 'assign', 'change', 'increase', ':', '.', '_', '[', ',',
          '\u00e9', '\x0b', '\x0c', '\ufeff', '\u00a0', '\u2028', '99999999999999999999999999999999999999999', '18446744073709551616', '18446744073709551615', 'A', 'Z']


def tokens(t):
    out, i = [], 0
    while i < len(t):
        j = i
        if t[j].isalnum() or t[j] in '-_:?#':
            while j < len(t) and (t[j].isalnum() or t[j] in '-_:?#.'):
                j += 1
        elif t[j] == ';':
            while j < len(t) and t[j] != '\n':
                j += 1
            j = min(j + 1, len(t))
        elif t[j].isspace():
            while j < len(t) and t[j].isspace():
                j += 1
        else:
            j += 1
        out.append(t[i:j])
        i = j
    return out


def group(ts, i):
    """end of the balanced group that starts at token i"""
    d = 0
    for j in range(i, len(ts)):
        d += (ts[j] == '(') - (ts[j] == ')')
        if d <= 0:
            return j + 1
    return len(ts)


def hard_decimal(r):
    """a decimal at, or next to, a place where rounding to f32 (or to f64 first) changes"""
    from decimal import Decimal, localcontext
    with localcontext() as c:
        c.prec = 400
        b = r.randrange(0x7f800000) if r.random() < .5 else r.randrange(0x38000000, 0x50000000)
        lo, hi = (Decimal(struct.unpack('<f', struct.pack('<I', x))[0]) if x < 0x7f800000 else Decimal(2) ** 128 for x in (b, b + 1))
        v = (lo + hi) / 2 if r.random() < .8 else lo
        k = max(30, -v.adjusted() + 12) if r.random() < .7 else r.randrange(1, 60)
        v += r.choice((0, 1, -1, 1, -1)) * Decimal(10) ** -min(k, 300)
        t = format(abs(v), 'f')
        return t if '.' not in t or r.random() < .9 else t[:t.index('.') + r.randrange(2, 40)]


def mutate(r, t, words=(), nums=()):
    if r.random() < (.1 if words else .03):           # something in front or behind, and nothing else
        w = r.choice(words if words else TOKENS)
        return w + t if r.random() < .5 else t + w
    n = r.choice((1, 1, 1, 2, 3))
    ts = tokens(t)
    pool = TOKENS
    for _ in range(n):
        k = r.random()
        if words and r.random() < .3:
            pool = words
        if not ts:
            ts = [r.choice(pool)]
            continue
        i = r.randrange(len(ts))
        if ts[i][:1].isdigit() and r.random() < .5:
            ts[i] = hard_decimal(r)
            continue
        if nums and r.random() < .25:
            # repeat something a number of times that occurs in the code
            m = max(1, r.choice(nums) + r.choice((-1, 0, 0, 1)))
            if m * max(1, len(ts[i])) > 20000:
                continue
            if r.random() < .4 or ts[i] == ')':
                ts[i] = (ts[i] + (r.choice('ab1') if ts[i].isspace() or ts[i] in '()' else ts[i][-1:]) * m)[:max(1, m)] \
                    if r.random() < .6 else r.choice('ab') * m
            else:
                j = group(ts, i)
                g = ts[i:j]
                if m * sum(map(len, g)) < 20000:
                    ts[i:j] = (g + [' ']) * (m - 1) + g
            continue
        if k < .2:
            ts.insert(i, r.choice(pool))
        elif k < .35:
            del ts[i]
        elif k < .5:
            ts[i] = r.choice(pool)
        elif k < .6:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k < .7:
            ts.insert(i, r.choice((' ', '\n', ';c\n', ' ;x\n ', '\r\n', ';\n')))
        elif k < .8:
            w = ts[i]
            if w:
                p = r.randrange(len(w) + 1)
                ts[i] = w[:p] + (r.choice(words) if words and r.random() < .5 else r.choice('a1-_ (.;X:?\u00e9')) + w[p:]
        elif k < .87:
            w = ts[i]
            if len(w) > 1:
                p = r.randrange(len(w))
                ts[i] = w[:p] + w[p + 1:]
        elif k < .92:
            ts[i] = ts[i].swapcase()
        elif k < .96:
            ts.insert(i, ts[i])
        else:
            ts = ts[:i]
    return ''.join(ts)


def relayout(r, t):
    """same tokens, other layout between them (where layout may be)"""
    out = []
    for w in tokens(t):
        if w.isspace():
            out.append(r.choice((' ', '\n', '\t', '  ', '\r\n', ' \n ')))
            if r.random() < .3:
                out.append(r.choice((';c\n', ';\n', '; (a) \n  ')))
        elif w in '()':
            if r.random() < .3:
                out.append(r.choice((' ', '\n', ';c\n', ' ;c\n ', ' ;c\n;d\n')))
            out.append(w)
            if r.random() < .3:
                out.append(r.choice((' ', '\n', ';c\n', ' ;c\n ')))
        else:
            out.append(w)
    return ''.join(out)


def texts(rng, gen, name, words=(), nums=()):
    while True:
        s = gen.sentence(name)
        if len(s) > 3000:
            continue
        k = rng.random()
        if k < .35:
            yield s
        elif k < .5:
            yield relayout(rng, s)
        elif k < .6:
            yield s + rng.choice((' ', ')', 'x', ' a', '(', '1', '-', ';c'))
        else:
            yield mutate(rng, s, words, nums)


def wrong(judge, root, text, e, g):
    if judge == 'forms':
        return differ(root, e, g)
    return not agree(e, g) if judge is None else judge(text, e, g)


def differ(root, e, g):
    """do two entry points (the parser itself and another form of it) give different results?"""
    return e != g


def campaign(binary, name, seed, seconds, limit=10 ** 9, judge=None, words=(), nums=(), root=None):
    """-> (number of texts, accepted texts, first disagreement or None)"""
    rng = random.Random(f'{seed}/{name}')
    gen = spec.Generator(GR.G, rng)
    orc = spec.Oracle(GR.G)
    rp = Replay(binary)
    n = acc = 0
    t0 = time.time()
    it = texts(rng, gen, name, words, nums)
    best = None
    if judge == 'layout':
        return campaign_layout(rp, rng, it, name, seed, seconds, limit, nums)
    if isinstance(words, list):            # code under suspicion
        w = soak(binary, name, root or name, gen, orc, judge)
        if w is not None:
            return n, acc, w
    try:
        while time.time() - t0 < seconds and n < limit:
            batch = []
            while len(batch) < 128:
                t = next(it)
                batch.append((root or name, t))
            got = rp.run(batch)
            ref = rp.run([(name, t) for _, t in batch]) if judge == 'forms' else None
            for k, ((_, t), g) in enumerate(zip(batch, got)):
                n += 1
                e = expected(orc, name, t) if ref is None else ref[k]
                acc += e[0] == 'ok'
                bad = wrong(judge, root or name, t, e, g)
                if bad and (best is None or len(t) < len(best['text'])):
                    best = dict(root=root or name, text=t, expected=e, got=g)
            if best is not None:
                break
    finally:
        rp.close()
    if best is not None:
        best = shrink(binary, orc, best, judge, name)
    return n, acc, best


def campaign_layout(rp, rng, it, name, seed, seconds, limit, nums):
    """does the layout of a text change what is read from it?"""
    n = acc = 0
    t0 = time.time()
    best = None

    def test(t):
        u = layout.vary(seed, t, nums)
        g, h = rp.run([(name, t), (name, u)])
        if layout.differ(t, g, u, h):
            return dict(root=name, text=t, got=g, other_layout=u, expected=h)
    try:
        while time.time() - t0 < seconds and n < limit and best is None:
            ts = []
            while len(ts) < 64:
                t = next(it)
                if rng.random() < .6:
                    t = relayout(rng, t)
                if rng.random() < .3:
                    t = rng.choice((';c\n', ' ;c\n ', ';\n')) + t
                ts.append(t)
            us = [layout.vary(seed, t, nums) for t in ts]
            got = rp.run([(name, x) for t in zip(ts, us) for x in t])
            for k, (t, u) in enumerate(zip(ts, us)):
                n += 1
                g, h = got[2 * k], got[2 * k + 1]
                acc += g[0] == 'ok'
                if layout.differ(t, g, u, h) and (best is None or len(t) < len(best['text'])):
                    best = dict(root=name, text=t, got=g, other_layout=u, expected=h)
        if best is not None:
            t0 = time.time()
            changed = True
            while changed and time.time() - t0 < 10:
                changed = False
                ts = tokens(best['text'])
                for size in (8, 4, 2, 1):
                    i = 0
                    while i < len(ts) and time.time() - t0 < 10:
                        w = test(''.join(ts[:i] + ts[i + size:]))
                        if w:
                            best, ts, changed = w, ts[:i] + ts[i + size:], True
                        else:
                            i += 1
            best['how'] = ' ; '.join(f"printf '%s %s\\n' {name} {x.encode('utf-8', 'surrogatepass').hex()} | {rp.binary}"
                                     for x in (best['text'], best['other_layout']))
    finally:
        rp.close()
    return n, acc, best


def soak(binary, name, root, gen, orc, judge, times=30000, limit=2.5):
    """does a long history of calls, accepted or not, change what the parser does?"""
    good = min((gen.sentence(name) for _ in range(20)), key=len)
    ts = tokens(good)
    probes = [gen.sentence(name) for _ in range(12)]
    probes = [t for t in probes if len(t) < 500]
    enc = lambda r, t: f'{r} {t.encode("utf-8", "surrogatepass").hex()}\n'
    for before in dict.fromkeys(('(', ''.join(ts[:-1]), good)):
        line = enc(root, before)
        n = max(1000, min(times, 4_000_000 // len(line)))
        try:
            r = subprocess.run([binary], input=(line * n + ''.join(enc(root, t) for t in probes)).encode(), capture_output=True, timeout=30)
            got = [json.loads(x) for x in r.stdout.splitlines()[n:]]
        except (subprocess.TimeoutExpired, ValueError):
            continue
        if len(got) != len(probes):
            continue
        rp = Replay(binary)
        try:
            for t, g, alone in zip(probes, got, rp.run([(root, t) for t in probes])):
                e = expected(orc, name, t) if judge != 'forms' else alone
                if wrong(judge, root, t, e, g) and g != alone:
                    return dict(root=root, text=t, expected=e, got=g, alone=alone, before=dict(text=before, times=n),
                                how=f"(yes '{line.strip()}' | head -n {n}; printf '{enc(root, t).strip()}\\n') | {binary} | tail -n 1")
        finally:
            rp.close()
    return None


def shrink(binary, orc, w, judge=None, base=None):
    rp = Replay(binary)
    name = w['root']

    def test(t):
        g = rp.run([(name, t)])[0]
        e = expected(orc, base or name, t) if judge != 'forms' else rp.run([(base, t)])[0]
        if wrong(judge, name, t, e, g):
            return dict(root=name, text=t, expected=e, got=g)
    t0 = time.time()
    try:
        changed = True
        while changed and time.time() - t0 < 15:
            changed = False
            ts = tokens(w['text'])
            for size in (8, 4, 2, 1):
                i = 0
                while i < len(ts) and time.time() - t0 < 15:
                    c = ts[:i] + ts[i + size:]
                    r = test(''.join(c))
                    if r:
                        w, ts, changed = r, c, True
                    else:
                        i += 1
    finally:
        rp.close()
    return w


if __name__ == '__main__':
    from concurrent.futures import ProcessPoolExecutor
    names = sys.argv[3:] or sorted(GR.G)
    with ProcessPoolExecutor(8) as ex:
        for nm, r in zip(names, ex.map(campaign, [sys.argv[1]] * len(names), names, [1] * len(names),
                                       [float(sys.argv[2])] * len(names))):
            print(nm, r[0], r[1], json.dumps(r[2]) if r[2] else '')
