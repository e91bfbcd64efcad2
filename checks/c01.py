from vlib import core, model as M


def big_pattern(rng):
    """Patterns stressing sizes: long literals, many branches, many ranges,
    large repeats, long multi-byte text across decoding chunks."""
    k = rng.randrange(8)
    cp = lambda: rng.choice([rng.randrange(0x61, 0x7b), M.rand_cp(rng)])
    if k == 0:
        n = rng.choice([6, 7, 8, 13, 14, 15, 21, 22, 255, 256, 257, 511, 512, 513, 1000])
        its = [M.Item('cp', cp()) for _ in range(n)]
        for _ in range(rng.randrange(4)):
            it = rng.choice(its)
            it.rep, it.maybe = rng.choice([(0, 2), (2, 2), (1, 3), None]), rng.random() < .5
        return M.Group([(1, its)])
    if k == 1:
        n = rng.choice([8, 16, 17, 31, 32, 33, 64, 100])
        return M.Group([(rng.choice([1, 1, 2, 0]), [M.Item('cp', 0x4e00 + i), M.Item('cp', cp())]) for i in range(n)] +
                       [(1, [M.Item('cp', 0x5fff)])])
    if k == 2:
        n = rng.choice([8, 16, 17, 32, 33, 64, 65, 200])
        return M.Group([(1, [M.Item('set', [(c, c + rng.randrange(3)) for c in
                                           [M.rand_cp(rng) & 0x7ff0 for _ in range(n)]],
                                    rep=rng.choice([(20, 20), (5, 30)]))])])
    if k == 3:
        n = rng.choice([100, 255, 256, 300, 1000, 4096])
        return M.Group([(1, [M.Item('cp', cp(), rep=(n, n)), M.Item('set', [(0x30, 0x39)], rep=(n - 50, n)),
                             M.Item('cp', cp())])])
    if k == 4:
        d = rng.choice([5, 10, 31, 33])
        g = M.Group([(1, [M.Item('cp', 0x78)])])
        for i in range(d):
            its = [M.Item('cp', cp()) for _ in range(rng.randrange(3))] + [M.Item('group', g)] + \
                  [M.Item('cp', cp()) for _ in range(rng.randrange(3))]
            g = M.Group([(1, its)] + ([(2, [M.Item('cp', cp())])] if rng.random() < .2 else []))
        return g
    if k == 5:
        n = rng.choice([7, 8, 9, 15, 16, 17, 63, 64, 65, 129])
        return M.Group([(1, [M.Item('group', M.Group([(1, [M.Item('cp', cp()), M.Item('cp', cp())])]),
                                    rep=rng.choice([None, (1, 2)])) for i in range(n)])])
    if k == 6:
        n = rng.choice([80, 85, 86, 90, 128, 200, 256, 300])
        a = rng.choice([0x20ac, 0x1f600, 0xe9, 0x61])
        its = [M.Item('cp', a + i) for i in range(n)] + [M.Item('cp', cp(), rep=(0, 1))]
        return M.Group([(1, its)])
    n = rng.choice([2, 3, 5])
    inner = M.Group([(1, [M.Item('set', [(0x61, 0x63)], rep=(1, n))]), (3, [M.Item('cp', 0x2d)])])
    return M.Group([(1, [M.Item('group', inner, rep=(10, 40))])])


def rand_case(rng, variant, n=4, mode='-', depth=2000, **kw):
    text = None
    while text is None or len(text) > 3000 or '\0' in text:
        if rng.random() < 0.2:
            g = big_pattern(rng)
            if not g.total:
                continue
        else:
            g = M.Gen(rng, **kw).pattern()
            if M.min_max_len(g)[1] > 6000:
                continue
        text = M.render(g, rng)
    src = rng.choice(['s:%d' % rng.getrandbits(60)] * 5 + ['x:%d' % rng.randrange(1, 2 ** 60),
                     'k:%s:%s' % (rng.randbytes(32).hex(), rng.randbytes(8).hex()),
                     'h:' + rng.choice([b'\xff', b'\0', b'\x7f', b'\x80', b'\x01\0\0\0\0\0\0\0']).hex() * 64])
    if src.startswith('h:'):
        # constant bytes could be rejected forever: random bytes follow them
        pre = bytes.fromhex(src[2:])[:rng.randrange(1, 64)]
        src = 'h:' + (pre + rng.randbytes(8192)).hex()
        n = 1
    if rng.random() < .08 and 'u' not in mode:
        # incremental parsing of the same pattern
        return dict(g=g, text=text, cmds=['gen %su %d %s %d %s' % (mode, depth, src, n, core.cps(map(ord, text)))])
    return dict(g=g, text=text, cmds=['gen %s %d %s %d %s' % (mode, depth, src, n, core.hexs(text))])


LARGE = [255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 140000]


def huge(rng):
    """Very long patterns and outputs; returns the text and a function that
    tells whether an output is right."""
    k = rng.randrange(7)
    n = rng.choice(LARGE)
    plain = lambda: rng.choice([rng.randrange(0x61, 0x7b), 0xe9, 0x20ac, 0x4e00 + rng.randrange(9), 0x1f600])
    if k == 0:
        s = tuple(plain() for _ in range(n))
        return ''.join(map(chr, s)), lambda o: o == s
    if k == 1:
        c, d = plain(), rng.choice([0, 0, 1, 3, 300])
        e = rng.choice(['%c{%d,%d}', '(%c){%d,%d}', '[%c]{%d,%d}'])
        return 'x' + e % (c, n, n + d) + 'y', \
            lambda o: o[:1] == (0x78,) and o[-1:] == (0x79,) and n <= len(o) - 2 <= n + d and set(o[1:-1]) == {c}
    if k == 2:
        at, rs = 0x100, []
        for _ in range(n // 4):
            at += rng.choice([1, 2, 3])
            b = at + rng.choice([0, 0, 1, 3])
            if at < 0xe000 and b >= 0xd800:
                at = b = 0xe000
            rs.append((at, b))
            at = b + 1
        rng.shuffle(rs)
        ok = {c for a, b in rs for c in range(a, b + 1)}
        m = rng.choice([1, 100, 5000])
        return '[%s]{%d}' % (''.join(chr(a) if a == b else '%c-%c' % (a, b) for a, b in rs), m), \
            lambda o: len(o) == m and ok.issuperset(o)
    if k == 3:
        words = [tuple(plain() for _ in range(rng.choice([0, 1, 2, 6, 7, 8]))) + (0x20000 + j,) for j in range(n)]
        ms = [rng.choice([1, 1, 1, 0, 2]) for _ in words]
        ms[0] = 1
        ok = {w for w, m in zip(words, ms) if m}
        return '|'.join(('' if m == 1 else '{%d}' % m) + ''.join(map(chr, w)) for w, m in zip(words, ms)), lambda o: o in ok
    if k == 4:
        m = n // 2
        e = rng.choice(['(a|b)', '[ab]', '(a|(b))', '([a]|b)'])
        return e * m, lambda o: len(o) == m and set(o) <= {0x61, 0x62}
    if k == 5:
        # runs of known characters
        m = n // 8
        items = []
        for j in range(m):
            lo = rng.choice([0, 0, 1, 2])
            items.append((0x61 + j % 26, lo, lo + rng.choice([0, 1, 2]), rng.random() < .1))

        def right(o):
            at = 0
            for c, lo, hi, maybe in items:
                z = 0
                while at < len(o) and o[at] == c and z < hi:
                    at += 1
                    z += 1
                # (the same character follows again after 25 others at least,
                # which may be missing, but not often enough to matter)
                if z < lo and not (maybe and z == 0):
                    return None
            return at == len(o) or None
        strict = all(lo for c, lo, hi, maybe in items) and not any(i[3] for i in items)
        if not strict:
            items = [(c, max(1, lo), max(1, hi), False) for c, lo, hi, maybe in items]
        return ''.join('%c{%d,%d}' % i[:3] for i in items), lambda o: bool(right(o))
    m = n // 16
    s = tuple(plain() for _ in range(m))
    # every character its own group, some of them nested, and all of that again
    r = rng.choice([1, 2, 9])
    return '(' + ''.join('(%c)' % c if rng.random() < .7 else '((%c))' % c if rng.random() < .5 else '[%c]' % c for c in s) + '){%d}' % r, \
        lambda o: o == s * r


class Check(core.Base):
    pid = 'C01'
    rule = ('random patterns of the documented grammar (grammar based generator with boundary pools of codepoints, '
            'sizes, repeats, multipliers and nestings, random choice among equivalent spellings), each generated '
            'from several times with varied randomness sources; some have up to 140000 elements, branches or repetitions; every output is matched against an independent '
            'matcher of the pattern. Non-trivial: a distinct pattern with an output that is not empty.')
    assumptions = ['the reading of the documented grammar in vlib/model.py']
    quick = {'san': 15000, 'rel': 15000}
    thorough = {'san': 60000, 'sanrel': 40000, 'clangsan': 40000, 'rel': 100000, 'clangrel': 60000}

    def case(self, rng, i, variant):
        if i % 100 == 50:
            text, right = huge(rng)
            if rng.random() < .2:
                p = 'gen u 100 s:%d 2 ' % rng.getrandbits(50) + core.cps(map(ord, text))
            else:
                p = 'gen - 100 s:%d 2 ' % rng.getrandbits(50) + core.hexs(text)
            return dict(g=None, right=right, text=text[:500], cmds=[p])
        return rand_case(rng, variant)

    def judge(self, case, resp, variant):
        p = resp[0][0].split()
        if p[1] != '0' or (len(p) == 3 and p[2] != '0'):
            yield 'rejected', 'valid pattern %r was rejected: %s' % (case['text'], resp[0][0])
            return
        case['outs'] = outs = []
        for l in resp[0][1:]:
            f = l.split()
            if f[0] != 'S':
                yield 'protocol', 'unexpected %r' % l
                return
            if f[1] != '0':
                yield 'failed', 'generating from %r failed: %s' % (case['text'], f[1])
                return
            seq = core.uncps(f[5])
            outs.append(seq)
            if case['g'] is None:
                if not case['right'](seq):
                    yield 'not in language', 'pattern %r... generated %d codepoints: %r...' % (
                        case['text'], len(seq), ''.join(map(chr, seq[:200])))
                continue
            if M.member(case['g'], seq) is False:
                yield 'not in language', 'pattern %r (%r) generated %r' % (
                    case['text'], case['g'], ''.join(map(chr, seq)))

    def nontrivial(self, case, resp):
        if not any(case.get('outs', ())):
            return None
        return case['text']

    def observe(self, case, resp, stats):
        outs = case.get('outs', ())
        stats['outputs'] = stats.get('outputs', 0) + len(outs)
        stats['codepoints'] = stats.get('codepoints', 0) + sum(map(len, outs))
        for o in outs:
            b = 0 if not o else len(o).bit_length()
            d = stats.setdefault('outputs by bits of length', {})
            d[b] = d.get(b, 0) + 1
