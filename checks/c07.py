from vlib import core

BOUNDS = {w: sorted({b for k in range(8 * w + 1) for b in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 * 2 ** k // 2, 5 * 2 ** k // 4,
                                                          7 * 2 ** k // 4) if 0 < b < 2 ** (8 * w)} | {10, 26, 36, 52, 62, 94, 100})
          for w in (1, 2, 4, 8)}
for _w in BOUNDS:
    BOUNDS[_w] = [b for b in BOUNDS[_w] if b < 2 ** (8 * _w)]


class Check(core.Base):
    pid = 'C07'
    rule = ('bounds around all powers of two and random ones for all widths; histograms of millions of draws over equal '
            'parts of the range and over residues, compared with the uniform distribution (chi square, p < 1e-10); for 8 and 16 bits '
            'all words are fed, and every value has to result from equally many of them; crafted '
            'streams place the bound itself, its neighbours and all ones where the integer is taken from. Non-trivial: '
            'distinct (width, bound).')
    assumptions = ['the sources used (splitmix64, ChaCha20) deliver uniform independent bytes',
                   'deviations smaller than about one part in a thousand of a probability can go unnoticed']
    quick = {'rel': 480, 'san': 300}
    thorough = {'rel': 1500, 'clangrel': 500, 'san': 400}
    shards = 64

    def case(self, rng, i, variant):
        cmds, meta = [], []
        w = [0, 1, 2, 4, 8][i % 5] if i % 20 < 15 else rng.choice([1, 2, 4, 8])
        if variant == 'san' or i % 10 == 9:
            w = w or 8
            for _ in range(40):
                m = rng.choice(BOUNDS[w]) if rng.random() < .8 else rng.randrange(1, 2 ** (8 * w))
                top = 2 ** (8 * w)
                words = [rng.choice([m, m - 1, m + 1, top - 1, (1 << m.bit_length()) - 1, 0, top - m, m ^ (top - 1)]) % top
                         for _ in range(rng.randrange(1, 6))]
                s = b''.join(x.to_bytes(w, 'little') for x in words) + rng.randbytes(3000)
                cmds.append('rnd h:%s %s' % (s.hex(), ','.join(['m%d:%d' % (w, m)] * 8)))
                meta.append(('edge', w, m))
            return dict(cmds=cmds, meta=meta)
        n = 1000000 * (5 if self.tier == 'thorough' else 1)
        src = 's:%d' % rng.getrandbits(60) if rng.random() < .8 else \
            'k:%s:%s' % (rng.randbytes(32).hex(), rng.randbytes(8).hex())
        if src[0] == 'k':
            n //= 4
        m = 0
        if w and rng.random() < .88:
            m = rng.choice(BOUNDS[w]) if rng.random() < .8 else rng.randrange(1, 2 ** rng.randrange(1, 8 * w + 1))
        rang = m or (2 ** (8 * w) if w else 2)
        b = min(rang, rng.choice([256, 192, 100]))
        if rang <= 300:
            b = rang
        cmds.append('ints %s %d %d %d %d' % (src, w, m, n, b))
        meta.append(('hist', w, m, n, b))
        if w and rang > 2:
            odd = rang
            while odd % 2 == 0:
                odd //= 2
            mods = [x for x in sorted({2, 3, 5, 7, rng.choice([4, 8, 16, 64, 256]), rng.choice([9, 11, 13, 15, 31, 127]),
                                       odd if odd < 512 else 17}) if 1 < x <= rang]
            cmds.append('mods %s %d %d %d %s' % (src[:2] + str(rng.getrandbits(60)) if src[0] == 's' else src, w, m, n,
                                                 ','.join(map(str, mods))))
            meta.append(('mod', w, m, n, mods))
        for w in [0, 1, 1, 1, 1, 1, 1, 2, 2]:
            m = 0
            if w and rng.random() < .9:
                m = rng.choice(BOUNDS[w]) if rng.random() < .4 else rng.randrange(1, 2 ** (8 * w))
            cmds.append('exact %d %d' % (w, m))
            meta.append(('exact', w, m))
        return dict(cmds=cmds, meta=meta)

    def judge(self, case, resp, variant):
        for me, r in zip(case['meta'], resp):
            w, m = me[1], me[2]
            what = '%d bit integer below %d' % (8 * w, m) if m else 'unbounded %d bit integer' % (8 * w) if w else 'boolean'
            if me[0] == 'edge':
                for l in r:
                    if l.startswith('m ') and int(l[2:]) >= m:
                        yield 'bound', '%s: got %s' % (what, l[2:])
                continue
            if me[0] == 'exact':
                f = r[0].split()
                if f[0] == 'X' and f[1] != f[3]:
                    yield 'bias', '%s: of all words, %s give %s and %s give %s' % (what, f[1], f[2], f[3], f[4])
                continue
            n, b = me[3], me[4]
            rang = m or (2 ** (8 * w) if w else 2)
            if me[0] == 'hist':
                o = r[0].split()
                if o[1] != '0':
                    yield 'bound', '%s: %s draws out of range, such as %s' % (what, o[1], o[2])
                    continue
                counts = list(map(int, r[1].split()[1:]))
                # values v with v * b // rang == k: from ceil(k * rang / b)
                edge = [-(-k * rang // b) for k in range(b + 1)]
                p = core.goodness(dict(enumerate(counts)), {k: (edge[k + 1] - edge[k]) / rang for k in range(b)})
                tests = [(b, counts, p)]
            else:
                tests = []
                for mod, l in zip(b, r):
                    counts = list(map(int, l.split()[1:]))
                    tests.append((mod, counts, core.goodness(
                        dict(enumerate(counts)), {k: ((rang - 1 - k) // mod + 1) / rang for k in range(mod)})))
            for b, counts, p in tests:
                if p < core.P_MIN:
                    yield 'bias', '%s: %s histogram with %d parts, p = %.3g: %s...' % (what, me[0], b, p, counts[:12])

    def nontrivial(self, case, resp):
        return [m[1:3] for m in case['meta']]

    def observe(self, case, resp, stats):
        for m, r in zip(case['meta'], resp):
            if m[0] == 'exact':
                k = 'all words tried' if r[0][0] == 'X' else 'not decided by trying all words'
                stats[k] = stats.get(k, 0) + 1
        for m in case['meta']:
            if m[0] == 'exact':
                continue
            k = 'draws' if m[0] != 'edge' else 'crafted draws'
            stats[k] = stats.get(k, 0) + (m[3] if len(m) > 3 else 8)
