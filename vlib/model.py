"""Independent model of the documented pattern language: an abstract syntax, a
random generator, a renderer, a parser, and what the language means: which
sequences it contains, how probable they are, and what their entropy is."""
import math
from fractions import Fraction

SIZE_MAX = 2 ** 64 - 1


class Group:
    def __init__(self, segments):
        self.segments = segments  # [(multiplier, [Item])]

    @property
    def total(self):
        return sum(m for m, _ in self.segments)

    def __repr__(self):
        return 'G%r' % (self.segments,)

    def key(self):
        return ('G', tuple((m, tuple(i.key() for i in its)) for m, its in self.segments if m))


class Item:
    def __init__(self, kind, val, maybe=False, rep=None):
        self.kind, self.val, self.maybe, self.rep = kind, val, maybe, rep

    def __repr__(self):
        return '%s%r%s%s' % (self.kind, self.val, '?' if self.maybe else '', self.rep or '')

    def key(self):
        v = self.val
        if self.kind == 'group':
            v = v.key()
        elif self.kind == 'set':
            v = tuple(v)
        return (self.kind, v, self.maybe, self.rep or (1, 1))


def void(item):
    """Groups that cannot contain anything do not exist, no choice is made for
    them."""
    return item.kind == 'group' and all(void(i) for m, its in item.val.segments if m for i in its)


def depth(g):
    return 1 + max([depth(i.val) for m, its in g.segments for i in its if i.kind == 'group'] or [0])


# ---------------------------------------------------------------- generation
CP_POOL = ([0x61, 0x62, 0x7a, 0x41, 0x5a, 0x30, 0x39, 0x20, 0x21, 0x22, 0x23, 0x27, 0x2f, 0x3a, 0x40, 0x5e, 0x5f,
            0x60, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe4, 0xff, 0x100, 0x17f, 0x3b1, 0x7fe, 0x7ff, 0x800, 0x801,
            0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600,
            0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x2c, 0x2d, 0x28, 0x29, 0x5b, 0x5d, 0x7b,
            0x7c, 0x7d, 0x3f, 0x5c, 1, 2, 7, 8, 9, 10, 11, 12, 13, 0x1b, 0x1f, 0])
ESC = {7: 'a', 8: 'b', 0x1b: 'e', 0xc: 'f', 0xa: 'n', 0xd: 'r', 9: 't', 0xb: 'v', 0x5c: '\\'}
GROUP_META = set(map(ord, '|()[]{}?'))
SET_META = set(map(ord, '[]-'))
ALL_META = GROUP_META | SET_META | {ord(',')} | set(range(48, 58))


def rand_cp(rng, encodable=True):
    x = rng.random()
    if x < 0.45:
        return rng.randrange(0x61, 0x7b)
    if x < 0.8:
        return rng.choice(CP_POOL)
    if x < 0.9:
        return rng.randrange(0x20, 0x7f)
    while True:
        c = rng.randrange(0, 0x110000)
        if not 0xd800 <= c < 0xe000:
            return c


class Gen:
    """Random patterns, sizes chosen by what should be affordable."""

    def __init__(self, rng, max_depth=4, budget=40, max_rep=12, nul=True, weights=True, small=False,
                 zero=True, big_sets=True):
        self.r = rng
        self.max_depth, self.budget, self.max_rep = max_depth, budget, max_rep
        self.nul, self.weights, self.small, self.zero, self.big_sets = nul, weights, small, zero, big_sets

    def cp(self):
        while True:
            c = rand_cp(self.r)
            if c or self.nul:
                return c

    def rep(self):
        r = self.r
        x = r.random()
        m = self.max_rep
        if x < 0.45:
            return None
        if x < 0.6:
            n = r.choice([0, 1, 2, 3, r.randrange(m + 1)]) if self.zero else r.randrange(1, m + 1)
            return (n, n)
        lo = r.choice([0, 0, 1, 2, r.randrange(m + 1)])
        hi = lo + r.choice([0, 1, 1, 2, 3, 4, 7, 8, r.randrange(m + 1)])
        hi = min(hi, max(lo, m))
        return (lo, hi)

    def set(self):
        r = self.r
        x = r.random()
        if x < 0.04 and self.zero:
            return []
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4, 5, 9, 17] if not self.small else [1, 1, 2, 2, 3])):
            a = self.cp()
            y = r.random()
            if y < 0.45 and not self.small or y < 0.2:
                out.append((a, a))
            else:
                n = r.choice([1, 1, 2, 3, 5, 9, 25] + ([255, 256, 1000, 70000] if self.big_sets else [])) \
                    if not self.small else r.choice([1, 1, 2, 3])
                b = min(a + n, 0x10ffff)
                out.append((a, b))
                if 0xd800 <= b < 0xe000:
                    out[-1] = (a, a)
            if r.random() < 0.1:
                out.append(r.choice(out))
        return out

    def item(self, d):
        r = self.r
        self.budget -= 1
        x = r.random()
        if x < 0.45 or (d >= self.max_depth and x < 0.75):
            it = Item('cp', self.cp())
        elif x < 0.75 or d >= self.max_depth:
            it = Item('set', self.set())
        else:
            it = Item('group', self.group(d + 1))
        if r.random() < 0.5:
            it.rep = self.rep()
        if r.random() < 0.15:
            it.maybe = True
        return it

    def mult(self):
        r = self.r
        x = r.random()
        if not self.weights or x < 0.7:
            return 1
        if x < 0.78 and self.zero:
            return 0
        if x < 0.95 or self.small:
            return r.choice([1, 2, 2, 3, 4, 5, 7, 8, 10])
        return r.choice([16, 255, 256, 1000, 65536, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 53 - 1])

    def group(self, d=1):
        r = self.r
        n = r.choice([1, 1, 1, 1, 2, 2, 3, 4, 6] if not self.small else [1, 1, 2, 2, 3])
        if r.random() < 0.02:
            n = r.choice([9, 17, 33])
        segs = []
        for _ in range(n):
            m = self.mult()
            its = []
            k = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 8] if not self.small else [0, 1, 1, 1, 2, 2])
            if d == 1 and not k and r.random() < .8:
                k = 3
            if r.random() < 0.05 and not self.small:
                k = r.choice([7, 8, 14, 15, 16, 30])
            for _ in range(k):
                if self.budget <= 0:
                    break
                its.append(self.item(d))
            segs.append((m, its))
        return Group(segs)

    def pattern(self):
        while True:
            g = self.group(1)
            if g.total:
                return g


# ----------------------------------------------------------------- rendering
def render_cp(c, rng, in_set):
    meta = SET_META if in_set else GROUP_META
    opts = []
    if c in meta:
        opts = ['\\' + chr(c)]
    else:
        if c in ESC:
            opts.append('\\' + ESC[c])
            if c != 0x5c:
                opts.append(chr(c))
        elif c:
            opts += [chr(c)] * 3
        if c not in ALL_META and c != 0x5c:
            u = '%x' % c
            if rng.random() < 0.5:
                u = u.upper()
            u = u.rjust(rng.randrange(len(u), 7), '0')
            opts.append('\\u{%s}' % u)
    return rng.choice(opts)


def num(n, rng):
    s = str(n)
    if rng.random() < 0.05:
        s = '0' * rng.choice([1, 2, 20]) + s
    if n == 0 and rng.random() < 0.3:
        s = ''
    return s


def render_mods(it, rng):
    mods = []
    rep = it.rep
    if rep is None and rng.random() < 0.04:
        rep = (1, 1)
    if rep is not None:
        lo, hi = rep
        if lo == hi and rng.random() < 0.7:
            t = '{%s}' % num(lo, rng)
        else:
            t = '{%s,%s}' % (num(lo, rng), num(hi, rng))
        if rng.random() < 0.03:
            t = '{%d}' % rng.randrange(5) + t
        mods.append(t)
    if it.maybe:
        mods.append('?')
    rng.shuffle(mods)
    return ''.join(mods)


def render_set(ranges, rng):
    out = []
    for a, b in ranges:
        if a == b and rng.random() < 0.9:
            out.append(render_cp(a, rng, True))
        else:
            out.append(render_cp(a, rng, True) + '-' + render_cp(b, rng, True))
    return '[' + ''.join(out) + ']'


def render_special(it):
    return '\\%s{%s}' % (it.kind, it.val)


def render(g, rng):
    segs = []
    for m, its in g.segments:
        t = ''
        if m != 1 or rng.random() < 0.05:
            t = '{%s}' % num(m, rng)
            if rng.random() < 0.05:
                t = '{%d}' % rng.randrange(4) + t
        for it in its:
            if it.kind == 'cp':
                t += render_cp(it.val, rng, False)
            elif it.kind == 'set':
                t += render_set(it.val, rng)
            elif it.kind == 'group':
                t += '(' + render(it.val, rng) + ')'
            else:
                t += render_special(it)
            t += render_mods(it, rng)
        segs.append(t)
    return '|'.join(segs)


# ------------------------------------------------------------------ semantics
class TooComplex(Exception):
    pass


class Matcher:
    """Positions of a sequence reachable after matching, together with the
    logarithm (base 2) of the reciprocal of the probability of the choices."""

    def __init__(self, seq, words=None, entropy=True, limit=200000):
        self.s = tuple(seq)
        self.words = words or {}
        self.entropy = entropy
        self.left = limit

    def add(self, res, pos, e):
        d = res.setdefault(pos, {})
        d[round(e, 7) if self.entropy else 0] = e
        if len(d) > 400:
            raise TooComplex

    def shift(self, cur, by):
        return {p: {round(e + by, 7): e + by for e in d.values()} for p, d in cur.items()}

    def merge(self, res, cur):
        for p, d in cur.items():
            r = res.setdefault(p, {})
            r.update(d)
            if len(r) > 400:
                raise TooComplex

    def one(self, it, cur):
        res = {}
        self.left -= len(cur)
        if self.left < 0:
            raise TooComplex
        if it.kind == 'cp':
            for p, d in cur.items():
                if p < len(self.s) and self.s[p] == it.val:
                    res[p + 1] = d
            return res
        if it.kind == 'set':
            n = sum(b - a + 1 for a, b in it.val)
            if not n:
                return cur
            l = math.log2(n) if self.entropy else 0
            for p, d in cur.items():
                if p < len(self.s) and any(a <= self.s[p] <= b for a, b in it.val):
                    res[p + 1] = {round(e + l, 7): e + l for e in d.values()} if l else d
            return res
        if it.kind == 'group':
            return self.group(it.val, cur)
        if it.kind == 'w':
            ws = self.words[it.val]
            l = math.log2(len(ws)) if self.entropy else 0
            for p, d in cur.items():
                for w in set(ws):
                    if self.s[p:p + len(w)] == w:
                        self.merge(res, {p + len(w): {round(e + l, 7): e + l for e in d.values()}})
            return res
        raise TooComplex

    def item(self, it, cur):
        if void(it):
            return cur
        res = {}
        if it.maybe:
            self.merge(res, self.shift(cur, 1) if self.entropy else cur)
            cur = self.shift(cur, 1) if self.entropy else cur
        lo, hi = it.rep or (1, 1)
        if hi > lo and self.entropy:
            cur = self.shift(cur, math.log2(hi - lo + 1))
        k = 0
        while True:
            if k >= lo:
                self.merge(res, cur)
            if k == hi or not cur:
                break
            cur = self.one(it, cur)
            k += 1
        return res

    def group(self, g, cur):
        tot = g.total
        res = {}
        if not tot:
            return res
        for m, its in g.segments:
            if not m:
                continue
            c = self.shift(cur, math.log2(Fraction(tot, m))) if self.entropy and m != tot else cur
            for it in its:
                c = self.item(it, c)
                if not c:
                    break
            self.merge(res, c)
        return res


def member(g, seq, words=None):
    try:
        return len(seq) in Matcher(seq, words, entropy=False).group(g, {0: {0: 0.0}})
    except TooComplex:
        return None


def entropies(g, seq, words=None):
    """All values the entropy of this output may have, base two logarithms."""
    try:
        return sorted(Matcher(seq, words).group(g, {0: {0: 0.0}}).get(len(seq), {}).values())
    except TooComplex:
        return None


def distribution(g, limit=300):
    """Probabilities of all outputs as fractions, None if there are too many."""
    def seq(a, b):
        r = {}
        for x, p in a.items():
            for y, q in b.items():
                z = x + y
                r[z] = r.get(z, 0) + p * q
            if len(r) > limit:
                raise TooComplex
        return r

    def one(it):
        if it.kind == 'cp':
            return {(it.val,): Fraction(1)}
        if it.kind == 'set':
            n = sum(b - a + 1 for a, b in it.val)
            if not n:
                return {(): Fraction(1)}
            if n > limit:
                raise TooComplex
            r = {}
            for a, b in it.val:
                for c in range(a, b + 1):
                    r[(c,)] = r.get((c,), 0) + Fraction(1, n)
            return r
        if it.kind == 'group':
            return grp(it.val)
        raise TooComplex

    def item(it):
        if void(it):
            return {(): Fraction(1)}
        lo, hi = it.rep or (1, 1)
        base = one(it) if hi else None
        cur, res = {(): Fraction(1)}, {}
        for k in range(hi + 1):
            if k >= lo:
                for x, p in cur.items():
                    res[x] = res.get(x, 0) + p / (hi - lo + 1)
                if len(res) > limit:
                    raise TooComplex
            if k < hi:
                cur = seq(cur, base)
        if it.maybe:
            res = {x: p / 2 for x, p in res.items()}
            res[()] = res.get((), 0) + Fraction(1, 2)
        return res

    def grp(g):
        tot = g.total
        res = {}
        for m, its in g.segments:
            if not m:
                continue
            cur = {(): Fraction(m, tot)}
            for it in its:
                cur = seq(cur, item(it))
            for x, p in cur.items():
                res[x] = res.get(x, 0) + p
            if len(res) > limit:
                raise TooComplex
        return res
    try:
        return grp(g)
    except TooComplex:
        return None


def min_max_len(g):
    def it_len(it):
        if void(it):
            return 0, 0
        lo, hi = it.rep or (1, 1)
        if it.kind == 'cp':
            a = b = 1
        elif it.kind == 'set':
            a = b = 1 if it.val else 0
        else:
            a, b = min_max_len(it.val)
        return (0 if it.maybe else a * lo), b * hi
    best = None
    for m, its in g.segments:
        if not m:
            continue
        a = b = 0
        for it in its:
            x, y = it_len(it)
            a += x
            b += y
        best = (a, b) if best is None else (min(best[0], a), max(best[1], b))
    return best or (0, 0)


# -------------------------------------------------------------------- tokens
class Tok:
    __slots__ = ('cp', 'esc', 'start', 'lit')

    def __init__(self, cp, esc, start, lit):
        self.cp, self.esc, self.start, self.lit = cp, esc, start, lit


SINGLE = {v: k for k, v in ESC.items()}


def tokenize(cs):
    """Yields tokens; ('err', start) if there is an error, ('trunc',) if the
    input ends within a token."""
    i, n = 0, len(cs)
    while i < n:
        s = i
        if cs[i] != 0x5c:
            yield Tok(cs[i], False, s, False)
            i += 1
            continue
        i += 1
        if i == n:
            yield ('trunc', s)
            return
        e = chr(cs[i])
        i += 1
        if e in SINGLE:
            yield Tok(SINGLE[e], False, s, True)
            continue
        if e != 'u':
            yield Tok(ord(e), True, s, False)
            continue
        if i == n:
            yield ('trunc', s)
            return
        if cs[i] != 0x7b:
            yield ('err', s)
            return
        i += 1
        v = digits = 0
        while True:
            if i == n:
                yield ('trunc', s)
                return
            c = cs[i]
            i += 1
            if c == 0x7d:
                if v > 0x10ffff:
                    yield ('err', s)
                    return
                break
            if chr(c) not in '0123456789abcdefABCDEF':
                yield ('err', s)
                return
            v = v * 16 + int(chr(c), 16)
            digits += 1
            if digits > 6:
                yield ('err', s)
                return
        yield Tok(v, False, s, True)


class Result:
    """ok: True, False or None (documentation leaves it open); ast; err: the
    codepoint offset of the token that cannot be accepted (None: the end)."""

    def __init__(self, ok, ast=None, err=None, why=''):
        self.ok, self.ast, self.err, self.why = ok, ast, err, why


def parse(cs):
    """Model of the parser, over codepoints. The ambiguities are reported, as
    soon as one is found there is no verdict."""
    class Seg:
        def __init__(self):
            self.m, self.items = 1, []
    # stack of [segments, current]
    stack = [[[], Seg()]]
    state, st = 'group', None
    maxdepth = 1
    toks = tokenize(cs)
    amb = None
    for t in toks:
        if isinstance(t, tuple):
            if t[0] == 'err':
                return Result(None if amb else False, err=t[1], why='bad escape')
            return Result(None if amb else False, err=None, why='truncated')

        def bad(why):
            return Result(None if amb else False, err=t.start, why=why)
        ch = None if t.esc else t.cp
        c = chr(t.cp)
        if t.lit and t.cp in ALL_META:
            amb = 'unicode literal of a special character'
        if state == 'group':
            segs, cur = stack[-1]
            if t.esc:
                if c in '|(){}[]?':
                    cur.items.append(Item('cp', t.cp))
                elif c in 'mpw':
                    state, st = 'special', c
                else:
                    return bad('bad escape')
            elif c == '|':
                if sum(x.m for x in segs) + cur.m >= SIZE_MAX:
                    return bad('multiplier overflow')
                segs.append(cur)
                stack[-1][1] = Seg()
            elif c == ')':
                if len(stack) == 1:
                    return bad('unbalanced')
                segs.append(cur)
                stack.pop()
                g = Group([(x.m, x.items) for x in segs])
                stack[-1][1].items.append(Item('group', g))
            elif c == '(':
                stack.append([[], Seg()])
                maxdepth = max(maxdepth, len(stack))
            elif c == '[':
                state, st = 'set', []
            elif c == '{':
                if cur.items:
                    state, st = 'rep', [None, None]
                else:
                    state, st = 'mult', 0
                    cur.m = 0
            elif c == '?':
                if not cur.items:
                    return bad('nothing to modify')
                if cur.items[-1].maybe:
                    amb = 'repeated modifier'
                cur.items[-1].maybe = True
            else:
                if c in ']}':
                    amb = 'stray bracket'
                cur.items.append(Item('cp', t.cp))
        elif state in ('set', 'set-'):
            if t.esc and c not in '-[]':
                return bad('bad escape in set')
            if not t.esc and c == ']':
                if state == 'set-':
                    amb = 'dangling dash'
                    return bad('dangling dash')
                stack[-1][1].items.append(Item('set', [(a, b) for a, b, _ in st]))
                state = 'group'
            elif not t.esc and c == '-' and state == 'set' and st:
                if st[-1][2]:
                    amb = 'range of a range'
                state = 'set-'
            else:
                if not t.esc and c in '[-':
                    amb = 'unescaped special in set'
                if state == 'set-':
                    if t.cp < st[-1][0]:
                        return bad('reversed range')
                    st[-1] = (st[-1][0], t.cp, True)
                    state = 'set'
                else:
                    st.append((t.cp, t.cp, False))
        elif state == 'mult':
            segs, cur = stack[-1]
            if t.esc:
                return bad('escape in number')
            if c == '}':
                if sum(x.m for x in segs) + st > SIZE_MAX:
                    return bad('multiplier overflow')
                cur.m = st
                state = 'group'
            elif c in '0123456789':
                st = st * 10 + int(c)
                if st > SIZE_MAX:
                    return bad('number overflow')
            else:
                return bad('not a digit')
        elif state == 'rep':
            if t.esc:
                return bad('escape in number')
            it = stack[-1][1].items[-1]
            lo, hi = st
            if c == '}':
                if hi is None:
                    it.rep = (lo or 0, lo or 0)
                else:
                    lo = lo or 0
                    if hi < lo:
                        return bad('reversed repeat')
                    if hi - lo == SIZE_MAX:
                        return bad('repeat range overflow')
                    it.rep = (lo, hi)
                state = 'group'
            elif c == ',' and hi is None:
                st = [lo or 0, 0]
            elif c in '0123456789':
                if hi is None:
                    st[0] = (lo or 0) * 10 + int(c)
                    if st[0] > SIZE_MAX:
                        return bad('number overflow')
                else:
                    st[1] = hi * 10 + int(c)
                    if st[1] > SIZE_MAX:
                        return bad('number overflow')
            else:
                return bad('not a digit')
        elif state == 'special':
            if t.esc or c != '{':
                return bad('special without name')
            state, st = 'name', (st, [])
        elif state == 'name':
            if not t.esc and c == '}':
                stack[-1][1].items.append(Item(st[0], ''.join(map(chr, st[1]))))
                state = 'group'
            else:
                if t.esc or t.lit:
                    amb = 'escape in a name'
                if t.cp == 0 or 0xd800 <= t.cp < 0xe000:
                    amb = 'codepoint in a name'
                st[1].append(t.cp)
    if amb:
        return Result(None, why=amb)
    if len(stack) != 1 or state != 'group':
        return Result(False, err=None, why='unfinished')
    segs, cur = stack[0]
    segs.append(cur)
    r = Result(True, Group([(x.m, x.items) for x in segs]))
    r.depth = maxdepth
    return r


def normal(g):
    """Key of the meaning: items that vanish are left out."""
    def grp(g):
        return tuple((m, tuple(item(i) for i in its if not void(i))) for m, its in g.segments if m)

    def item(i):
        if i.kind == 'group':
            v = grp(i.val)
        elif i.kind == 'set':
            v = tuple(i.val)
        else:
            v = i.val
        return (i.kind, v, i.maybe, i.rep or (1, 1))
    return grp(g)
