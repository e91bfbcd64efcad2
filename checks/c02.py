import bisect
from fractions import Fraction
from vlib import core, model as M


def directed(rng):
    """Single kinds of choices with sizes around powers of two."""
    k = rng.randrange(8)
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257])
    I, G = M.Item, M.Group
    a = rng.choice([0x61, 0x100, 0x7f0, 0xff00, 0x10000])
    if k == 0:
        return G([(1, [I('set', [(a, a + n - 1)])])])
    if k == 1:
        lo = rng.choice([0, 1, 2, 3, 7, 8, 20])
        return G([(1, [I('cp', a, rep=(lo, lo + n - 1))])])
    if k == 2:
        return G([(1, [I('cp', a + i)]) for i in range(n)])
    if k == 3:
        m = rng.choice([2, 3, 4, 5, 8])
        return G([(rng.choice([0, 1, 1, 2, 3, 5, 8, 9, 16]), [I('cp', a + i)]) for i in range(m)] + [(1, [I('cp', a + m)])])
    if k == 4:
        m = rng.randrange(1, 5)
        return G([(1, [I('set', [(a, a)], maybe=True), I('cp', 0x7a, maybe=True),
                       I('group', G([(1, [I('cp', a + 1)]), (1, [])]), maybe=True)][:m])])
    if k == 5:
        rs = [(a, a + 2), (a + 1, a + 5), (a + 1, a + 1), (a + 20, a + 20), (a + 10, a + 12)]
        rng.shuffle(rs)
        return G([(1, [I('set', rs[:rng.randrange(2, 6)])])])
    if k == 6:
        g = G([(rng.choice([1, 2, 3]), [I('set', [(a, a + 1)])]), (1, [I('cp', 0x78)])])
        return G([(1, [I('group', g, rep=rng.choice([(2, 2), (3, 3), (0, 2), (1, 3)]), maybe=rng.random() < .5)])])
    m = rng.choice([2, 3, 4])
    return G([(1, [I('set', [(a, a + m - 1)], rep=rng.choice([(2, 2), (3, 3), (0, 2), (1, 2)]))])])


HUGE = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 3 * 2 ** 32, 2 ** 33, 2 ** 40, 2 ** 48 + 2 ** 32, 2 ** 61,
        2 ** 62, 10 ** 18, 6 * 10 ** 18, 2 ** 63]


def huge(rng):
    """A group with multipliers around the limits of the integer types."""
    m = rng.choice([2, 2, 3, 4, 6])
    while True:
        x = rng.choice(HUGE)
        ws = [rng.choice([x, x, x // 2, x // 3, x + 1, 2 * x, rng.choice(HUGE), 1, 7]) for _ in range(m)]
        if sum(ws) <= M.SIZE_MAX:
            return M.Group([(w, [M.Item('cp', 0x61 + k)]) for k, w in enumerate(ws)])


def buckets(n, k):
    """Splits n equally likely values 0..n-1 into at most k buckets, gives the
    function to find the bucket of one and their probabilities."""
    k = min(n, k)
    exp = {}
    for b in range(k):
        lo, hi = -(-b * n // k), -(-(b + 1) * n // k)
        exp[b] = Fraction(hi - lo, n)
    return (lambda v: v * k // n), exp


class Check(core.Base):
    pid = 'C02'
    rule = ('random and directed patterns whose number of possible outputs is at most 300; the exact distribution of '
            'complete outputs is computed from the syntax tree and compared with the histogram of many generations '
            '(chi square, p < 1e-10 is a violation, an impossible output too); multipliers reach the limits of the integer types. '
            'Sets with up to a million members, thousands of ranges or more than 2^32 (repeated) members, groups of up to 100000 branches and wide repetitions are compared by coarse position, by residue, and jointly '
            'with the next choice. Non-trivial: distinct pattern with at '
            'least two possible outputs.')
    assumptions = ['the sources used (splitmix64, ChaCha20) deliver uniform independent bytes',
                   'deviations smaller than about one part in a thousand of a probability can go unnoticed']
    quick = {'rel': 768}
    thorough = {'rel': 1500, 'clangrel': 500}
    shards = 64
    N = 400000

    def wide(self, rng, variant):
        """Choices among very many possibilities, looked at by coarse and by
        fine position, and jointly with the next one."""
        n = 60000 if self.tier == 'quick' else 200000
        src = 's:%d' % rng.getrandbits(60)
        if rng.random() < .3:
            lo = rng.choice([0, 0, 1, 5, 200])
            d = rng.choice([255, 256, 257, 999, 1000, 1023, 1024, 1500])
            text = 'a{%d,%d}' % (lo, lo + d)
            return dict(wide=[[(lo, lo + d)]], count=True, text=text, cmds=['gen c 100 %s %d %s' % (src, n // 3, core.hexs(text))])
        sets = []
        for _ in range(rng.choice([1, 1, 2])):
            rs, at = [], 0x4000
            many = rng.choice([1, 1, 2, 3, 12, 40, 255, 256, 257, 300, 1000, 5000, 66000])
            for _ in range(many):
                at += rng.choice([1, 2, 100]) if many < 100 else rng.choice([1, 2])
                size = rng.choice([1, 2, 255, 256, 257, 4000, 0x7fff, 0xffff, 0x10000, 0x10001, 0x40000]) if many < 100 else \
                    rng.choice([1, 1, 1, 2, 3]) if rng.random() < .999 else 257
                if at <= 0xdfff and at + size > 0xd800:
                    at = 0xe000
                if at + size > 0x10ffff:
                    break
                rs.append((at, at + size - 1))
                at += size
            rng.shuffle(rs)
            sets.append(rs)
        text = ''.join('[%s]' % ''.join(chr(a) if a == b else '%s-%s' % (chr(a), chr(b)) for a, b in rs) for rs in sets)
        most = max(map(len, sets))
        n //= 1 if most < 2000 else 2 if most < 20000 else 6
        return dict(wide=sets, count=False, text=text[:300], cmds=['gen - 100 %s %d %s' % (src, n, core.hexs(text))])

    def branches(self, rng, variant):
        """A group with very many branches, looked at by coarse and by fine
        position."""
        m = rng.choice([100, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4096, 5000, 20000] +
                       ([65535, 65536, 65537, 100000] if rng.random() < .4 else []))
        form = rng.randrange(4)
        if form == 0:
            ws = [1] * m
        elif form == 1:
            ws = [rng.choice([1, 1, 2, 3, 7]) for _ in range(m)]
        elif form == 2:
            ws = [rng.choice([0, 0, 0, 1, 5]) for _ in range(m)]
        else:
            ws = [rng.choice([1, 10 ** 6, 2 ** 32, 2 ** 40]) for _ in range(m)]
        ws[rng.randrange(m)] += 1
        # codepoints whose place tells the branch
        cp = lambda k: 0x20000 + k
        text = '|'.join(('{%d}' % w if w != 1 else '') + chr(cp(k)) for k, w in enumerate(ws))
        before = 0
        if rng.random() < .5:
            # within a group, beside others
            text = '(%s)' % text
            before = rng.choice([0, 1])
            text = '[ab]' * before + text
        n = (60000 if self.tier == 'quick' else 200000) // (1 if m < 30000 else 3)
        return dict(branches=ws, before=before, text=text[:300], cmds=['gen - 100 s:%d %d %s' % (rng.getrandbits(60), n, core.hexs(text))])

    def colossal(self, rng, variant):
        """Sets that have more than 2^32 members altogether, because they
        list the same characters over and over."""
        a, b = rng.choice([(8192, 4096), (8192, 8192), (9000, 3000), (4096, 4095), (3000, 6000), (16384, 1000)])
        half = lambda k: '%c-%c' % (0x10000 + 0x80000 * k, 0x8ffff + 0x80000 * k)
        text = '[%s]' % (half(0) * a + half(1) * b)
        return dict(colossal=(a, b), text='%d and %d ranges of 2^19 characters' % (a, b),
                    cmds=['gen - 100 s:%d 4000 %s' % (rng.getrandbits(60), core.hexs(text))])

    def judge_colossal(self, case, resp):
        a, b = case['colossal']
        obs = {}
        if resp[0][0] != 'P 0':
            yield 'rejected', 'a set of %s was rejected: %s' % (case['text'], resp[0][0])
            return
        for l in resp[0][1:]:
            f = l.split()
            out = core.uncps(f[5])
            if f[1] != '0' or len(out) != 1 or not 0x10000 <= out[0] <= 0x10ffff:
                yield 'failed', 'set of %s: %s' % (case['text'], l)
                return
            k = (out[0] - 0x10000) >> 17
            obs[k] = obs.get(k, 0) + 1
        p = core.goodness(obs, {k: Fraction(a if k < 4 else b, 4 * (a + b)) for k in range(8)})
        case['n'], case['k'] = sum(obs.values()), (a + b) << 19
        if p < core.P_MIN:
            yield 'distribution', 'set of %s: p = %.3g: %s' % (case['text'], p, sorted(obs.items()))

    def judge_branches(self, case, resp):
        ws, m = case['branches'], len(case['branches'])
        if resp[0][0] != 'P 0':
            yield 'rejected', 'valid pattern with %d branches was rejected: %s' % (m, resp[0][0])
            return
        got = []
        for l in resp[0][1:]:
            f = l.split()
            out = core.uncps(f[5])
            if f[1] != '0' or len(out) != case['before'] + 1:
                yield 'failed', '%d branches: %s' % (m, l)
                return
            k = out[-1] - 0x20000
            if not 0 <= k < m or not ws[k]:
                yield 'impossible', '%d branches: branch %d of multiplier %s' % (m, k, ws[k] if 0 <= k < m else None)
                return
            got.append(k)
        tot = sum(ws)
        fs = [('%d parts' % nb, lambda k, nb=nb: k * nb // m) for nb in (64, 300)] + \
             [('modulo %d' % mod, lambda k, mod=mod: k % mod) for mod in (2, 3, 16, 256)] + \
             [('multiplier', lambda k: ws[k])]
        for what, f in fs:
            obs, exp = {}, {}
            for k in got:
                obs[f(k)] = obs.get(f(k), 0) + 1
            for k, w in enumerate(ws):
                if w:
                    exp[f(k)] = exp.get(f(k), 0) + w
            p = core.goodness(obs, {k: Fraction(w, tot) for k, w in exp.items()})
            if p < core.P_MIN:
                yield 'distribution', '%d branches with multipliers %s, by %s: p = %.3g' % (m, sorted(set(ws)), what, p)
                return
        case['n'], case['k'] = len(got), m

    def judge_wide(self, case, resp):
        if resp[0][0] != 'P 0':
            yield 'rejected', 'valid pattern %r was rejected: %s' % (case['text'], resp[0][0])
            return
        sets = case['wide']
        sizes = [sum(b - a + 1 for a, b in rs) for rs in sets]
        cols = [[] for _ in sets]
        # (the ranges do not overlap)
        order = [sorted(range(len(rs)), key=lambda j: rs[j]) for rs in sets]
        starts = [[rs[j][0] for j in o] for rs, o in zip(sets, order)]
        bases = []
        for rs in sets:
            base = [0]
            for a, b in rs:
                base.append(base[-1] + b - a + 1)
            bases.append(base)
        for l in resp[0][1:]:
            f = l.split()
            out = (int(f[2]),) if case['count'] else core.uncps(f[5])
            if f[1] != '0' or len(out) != len(sets):
                yield 'failed', 'pattern %r: %s' % (case['text'], l)
                return
            for k, v in enumerate(out):
                j = bisect.bisect_right(starts[k], v) - 1
                if j >= 0 and v <= sets[k][order[k][j]][1]:
                    j = order[k][j]
                    cols[k].append(bases[k][j] + v - sets[k][j][0])
                else:
                    yield 'impossible', 'pattern %r generated %x' % (case['text'], v)
                    return
        tests = []
        for k, vals in enumerate(cols):
            for nb in (64, 7):
                tests.append(('position %d in %d parts' % (k, nb), vals, sizes[k]) + buckets(sizes[k], nb))
            for mod in (2, 16, 64, 3):
                n = sizes[k]
                if n > 4 * mod:
                    exp = {r: Fraction((n - r + mod - 1) // mod, n) for r in range(mod)}
                    tests.append(('position %d modulo %d' % (k, mod), vals, n, lambda v, m=mod: v % m, exp))
        for what, vals, n, f, exp in tests:
            obs = {}
            for v in vals:
                obs[f(v)] = obs.get(f(v), 0) + 1
            p = core.goodness(obs, exp)
            if p < core.P_MIN:
                yield 'distribution', 'pattern %r, %s of %d: p = %.3g' % (case['text'], what, n, p)
                return
        # independence of neighbouring choices, within and between outputs
        flat = [(v * 8 // sizes[k]) for row in zip(*cols) for k, v in enumerate(row)]
        if min(sizes) >= 64:
            probs = [buckets(s, 8) for s in sizes]
            for k in range(len(sets)):
                k2 = (k + 1) % len(sets)
                obs, exp = {}, {}
                pairs = flat[k:]
                for a, b in list(zip(pairs, pairs[1:]))[::len(sets) if len(sets) > 1 else 2]:
                    obs[a, b] = obs.get((a, b), 0) + 1
                for a, pa in probs[k][1].items():
                    for b, pb in probs[k2][1].items():
                        exp[a, b] = pa * pb
                p = core.goodness(obs, exp)
                if p < core.P_MIN:
                    yield 'dependence', 'pattern %r, choice %d and the next: p = %.3g' % (case['text'], k, p)
                    return
        case['n'] = len(cols[0])
        case['k'] = min(sizes)

    def case(self, rng, i, variant):
        if i % 96 == 14:
            return self.colossal(rng, variant)
        if i % 8 == 6:
            return self.branches(rng, variant) if i % 16 == 6 else self.wide(rng, variant)
        while True:
            g = huge(rng) if i % 8 == 2 else directed(rng) if i % 2 else M.Gen(rng, max_depth=3, budget=12, max_rep=3, small=True, nul=False).pattern()
            d = M.distribution(g)
            if d is None or (len(d) < 2 and rng.random() < .98):
                continue
            if M.min_max_len(g)[1] > 300:
                continue
            text = M.render(g, rng)
            if '\0' in text:
                continue
            break
        src = 's:%d' % rng.getrandbits(60) if rng.random() < .7 else \
            'k:%s:%s' % (rng.randbytes(32).hex(), rng.randbytes(8).hex())
        n = self.N * (4 if self.tier == 'thorough' else 1)
        return dict(g=g, d=d, text=text, cmds=['hist - 100 %s %d %s' % (src, n, core.hexs(text))])

    def judge(self, case, resp, variant):
        if 'colossal' in case:
            yield from self.judge_colossal(case, resp)
            return
        if 'branches' in case:
            yield from self.judge_branches(case, resp)
            return
        if 'wide' in case:
            yield from self.judge_wide(case, resp)
            return
        if resp[0][0] != 'P 0':
            yield 'rejected', 'valid pattern %r was rejected: %s' % (case['text'], resp[0][0])
            return
        if resp[0][1] != 'HF 0':
            yield 'failed', 'pattern %r failed to generate: %s' % (case['text'], resp[0][1])
            return
        obs = {}
        for l in resp[0][2:]:
            f = l.split()
            obs[core.uncps(f[4])] = int(f[1])
        case['n'] = sum(obs.values())
        case['k'] = len(case['d'])
        p = core.goodness(obs, case['d'])
        if p < core.P_MIN:
            n = case['n']
            worst = sorted(set(obs) | set(case['d']),
                           key=lambda o: -abs(obs.get(o, 0) - float(case['d'].get(o, 0)) * n) /
                           (float(case['d'].get(o, 0)) * n + 1) ** .5)[:4]
            yield 'distribution', 'pattern %r: p = %.3g, e.g. %s' % (case['text'], p, ', '.join(
                '%r observed %d expected %.1f' % (''.join(map(chr, o)), obs.get(o, 0), float(case['d'].get(o, 0)) * n)
                for o in worst))

    def nontrivial(self, case, resp):
        return case['text'] if case.get('k', 0) > 1 else None

    def observe(self, case, resp, stats):
        stats['generations'] = stats.get('generations', 0) + case.get('n', 0)
        stats['outputs distinguished'] = stats.get('outputs distinguished', 0) + case.get('k', 0)
