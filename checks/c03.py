import math, os
from fractions import Fraction
from vlib import core, model as M
from . import c01, c15


def near(rng, bits):
    """A number next to a power of two, or any, of up to that many bits."""
    b = rng.choice([8, 15, 16, 24, 31, 32, 33, 40, 52, 53, 54, 62, 63, 64, rng.randint(1, bits)])
    return min(max(1, (1 << b) + rng.choice([-2, -1, -1, 0, 1, 2, rng.getrandbits(b // 2)])), (1 << bits) - 3)


class Check(core.Base):
    pid = 'C03'
    rule = ('random patterns; the entropy reported for every output is compared with the set of values that the '
            'choices leading to this output can have, computed by an independent matcher that tracks probabilities; '
            'wordlist and Markov elements are included, their choices recognised by markers; the same stream is generated from without asking for entropy and has to give the same output. '
            'Non-trivial: distinct pattern where at least one reported entropy is above one.')
    assumptions = ['reported values are compared up to rounding (relative difference 1e-7)',
                   'outputs whose derivations are too many to enumerate are only checked for being finite and at least one']
    quick = {'san': 9000, 'rel': 9000}
    thorough = {'san': 30000, 'clangsan': 20000, 'rel': 80000}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c03')
        os.makedirs(self.dir)
        self.sizes = [1, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073]

    def special(self, rng, i, variant):
        """Wordlist and Markov elements among others; each element starts with
        a marker of its own, so that it is known which choices were made."""
        lists, cmds = [], ['envnew']
        for k in range(rng.choice([1, 1, 2])):
            words = [w for w in c15.rand_words(rng) if not any(0xe000 <= c < 0xf900 for c in w)] or [(0x61,)]
            level = rng.choice([1, 1, 2, 2, 3, 4])
            chain = c15.Chain(level)
            for w in words:
                chain.add(w)
            path = os.path.join(self.dir, '%d-%s-%d' % (i, variant, k))
            with open(path, 'wb') as f:
                f.write('\n'.join(''.join(map(chr, w)) for w in words).encode() + b'\n' * rng.randrange(3))
            lists.append((words, chain))
            cmds.append('wl %s %s %d' % (core.hexs('l%d' % k), core.hexs(path), level))
        items, text = [], ''
        for k in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice('wwmms')
            which = rng.randrange(len(lists))
            n = rng.choice([1, 2, 3, 26])
            lo = rng.choice([0, 0, 1, 1, 2])
            hi = lo + rng.choice([0, 0, 1, 2])
            maybe = rng.random() < .3
            el = '[\\u{5000}-\\u{%x}]' % (0x5000 + n - 1) if kind == 's' else '\\%s{l%d}' % (kind, which)
            text += '(%s%s)' % (chr(0xe000 + k), el) + ('{%d,%d}' % (lo, hi) if (lo, hi) != (1, 1) else '') + '?' * maybe
            items.append((kind, which, n, lo, hi, maybe))
        src = 's:%d' % rng.getrandbits(50)
        cmds += ['gen %s 100 %s 12 %s' % (m, src, core.hexs(text)) for m in 'e-'] + ['envnew']
        return dict(cmds=cmds, lists=lists, items=items, text=text, special=True)

    def judge_special(self, case, resp):
        case['e'] = es = []
        a, b = resp[-3], resp[-2]
        if a[0] != 'P 0' or len(a) != len(b):
            yield 'rejected', 'pattern %r: %s' % (case['text'], a[0])
            return
        for l, m in zip(a[1:], b[1:]):
            f, h = l.split(), m.split()
            if f[1] != '0':
                yield 'failed', 'generating from %r failed' % case['text']
                return
            if f[5] != h[5] or f[1] != h[1]:
                yield 'changes output', 'pattern %r: asking for entropy changes the output' % case['text']
                return
            parts = {}
            cur = None
            for c in core.uncps(f[5]):
                if 0xe000 <= c < 0xe000 + len(case['items']):
                    cur = []
                    parts.setdefault(c - 0xe000, []).append(cur)
                elif cur is None:
                    yield 'not in language', 'pattern %r generated %s' % (case['text'], l)
                    return
                else:
                    cur.append(c)
            want = [Fraction(1)]
            for k, (kind, which, n, lo, hi, maybe) in enumerate(case['items']):
                got = parts.get(k, [])
                words, chain = case['lists'][which]
                one = Fraction(1)
                for p in got:
                    x = n if kind == 's' else len(words) if kind == 'w' else chain.walk(tuple(p))
                    if x is None or kind == 'w' and tuple(p) not in words:
                        yield 'not in language', 'pattern %r generated %s' % (case['text'], l)
                        return
                    one *= x
                # nothing there: left out, or repeated zero times
                ways = [(2 if maybe else 1) * (hi - lo + 1) * one] if lo <= len(got) <= hi else []
                if not got and maybe:
                    ways.append(2)
                want = [w * x for w in want for x in set(ways)]
            e = float(f[3])
            if max(want) > 10 ** 300:
                continue
            if not e >= 1 or not any(c15.close(e, w) for w in want) or e == math.inf:
                yield 'entropy', 'pattern %r, output %s: reported %.17g, expected %s' % (
                    case['text'], f[5][:200], e, ' or '.join('%.17g' % float(w) for w in want[:6]))
                return
            es.append(math.log2(e))

    def large(self, rng):
        """Large repetitions, every element has characters of its own."""
        items, text = [], ''
        for k in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 1, 1, 2, 3])
            lo = rng.choice([0, 1, 100, 255, 256, 257, 1000, 4096, 65535, 65536, 70000] if n == 1 else [0, 1, 100, 255, 256, 300])
            hi = lo + rng.choice([0, 1, 2, 99, 255, 256, 1000, 65536] if n == 1 else [0, 1, 2, 99])
            nested = rng.random() < .3
            items.append((n, lo, hi, nested))
            el = '[%c-%c]' % (0x5000 + 16 * k, 0x5000 + 16 * k + n - 1) if n > 1 else chr(0x5000 + 16 * k)
            text += ('(%s|{2}%s)' % (el, el) if nested else el) + '{%d,%d}' % (lo, hi)
        return dict(large=items, text=text, cmds=['gen e 100 s:%d 3 %s' % (rng.getrandbits(50), core.hexs(text))])

    def judge_large(self, case, resp):
        case['e'] = es = []
        if resp[0][0] != 'P 0':
            yield 'rejected', 'pattern %r: %s' % (case['text'], resp[0][0])
            return
        for l in resp[0][1:]:
            f = l.split()
            if f[1] != '0':
                yield 'failed', 'generating from %r failed' % case['text']
                return
            got = {}
            for c in core.uncps(f[5]):
                got[(c - 0x5000) // 16] = got.get((c - 0x5000) // 16, 0) + 1
            bits, least = 0, 0
            for k, (n, lo, hi, nested) in enumerate(case['large']):
                m = got.get(k, 0)
                if not lo <= m <= hi:
                    yield 'not in language', 'pattern %r: %d times' % (case['text'], m)
                    return
                bits += math.log2(hi - lo + 1) + m * math.log2(n)
                # of the branches it took one or the other
                if nested:
                    least += m * math.log2(1.5)
                    bits += m * math.log2(3)
                    least -= m * math.log2(3)
            e = float(f[3])
            if e == math.inf:
                if bits < 1023:
                    yield 'entropy', 'pattern %r: infinite instead of at most %.17g bits' % (case['text'], bits)
                    return
                continue
            if not e >= 1 or math.isnan(e):
                yield 'entropy', 'pattern %r: reported %r' % (case['text'], e)
                return
            b = math.log2(e)
            if bits + least < 1023 and not bits + least - 1e-6 * (1 + bits) <= b <= bits + 1e-6 * (1 + bits):
                yield 'entropy', 'pattern %r: %.17g bits, expected %.17g to %.17g' % (case['text'], b, bits + least, bits)
                return
            # a whole number of them took the other branch
            m = sum(got.get(k, 0) for k, it in enumerate(case['large']) if it[3])
            if not m and abs(b - bits) > 1e-6 * (1 + bits) and bits < 1023:
                yield 'entropy', 'pattern %r: %.17g bits, expected %.17g' % (case['text'], b, bits)
                return
            if m and bits < 1000 and abs(bits - b - round(bits - b)) > 1e-5:
                yield 'entropy', 'pattern %r: %.17g bits, not a whole number below %.17g' % (case['text'], b, bits)
                return
            es.append(b)

    def vast(self, rng):
        """Numbers of choices up to the limits of their types. The source gives
        zeros (after some random bytes), so that the outputs are likely to be
        short; where they are not, generation is stopped and nothing is known."""
        items, text, cmds = [], '', ['envnew']
        for k in range(rng.choice([1, 1, 2, 3])):
            c = 0x5000 + 16 * k
            kind = rng.choice(['rep', 'rep', 'mult', 'mult', 'set', 'list'])
            if kind == 'rep':
                lo = rng.choice([0, 0, 1, 2, 7])
                d = max(2, near(rng, 64)) - 1 - lo
                it, el = (lo, max(d, lo)), '%c{%d,%d}' % (c, lo, max(d, lo))
            elif kind == 'mult':
                ws = [near(rng, 62) for _ in range(rng.choice([2, 2, 3]))]
                if sum(ws) >> 64:
                    ws = [w >> 2 or 1 for w in ws]
                it, el = ws, '(%s)' % '|'.join('{%d}%c' % (w, c + j) for j, w in enumerate(ws))
            elif kind == 'set' and not any(x[0] == 'set' for x in items):
                a, b = rng.choice([(4096, 1), (4095, 0), (4096, 0), (8192, 0), (8192, 5), (9000, 7), (2048, 0), (1, 0), (127, 4095), (16384, 3)])
                it, el = a * 0x80000 + b, '[%s%s]' % ('\U00010000-\U0008ffff' * a, 'a' * b)
            else:
                kind = 'list'
                it = rng.choice(self.sizes)
                cmds.append('wl %s %s 1' % (core.hexs('n%d' % it), core.hexs(self.path(it))))
                el = '\\w{n%d}' % it
            items.append((kind, it))
            text += el
        src = 'h:' + rng.randbytes(rng.choice([0, 0, 0, 1, 1, 2, 8])).hex()
        cmds += ['gen el 100 %s 4 %s' % (src, core.hexs(text)), 'envnew']
        return dict(vast=items, text=text if len(text) < 400 else text[:100] + '...' + text[-100:], cmds=cmds)

    def path(self, n):
        p = os.path.join(self.dir, 'n%d' % n)
        if not os.path.exists(p):
            with open(p + '.%d' % os.getpid(), 'w') as f:
                f.write('x\n' * n)
            os.rename(p + '.%d' % os.getpid(), p)
        return p

    def judge_vast(self, case, resp):
        case['e'], case['unknown'] = [], 0
        if resp[-2][0] != 'P 0':
            yield 'rejected', 'pattern %r: %s' % (case['text'], resp[-2][0])
            return
        for l in resp[-2][1:]:
            f = l.split()
            if f[1] != '0':
                case['unknown'] += 1
                continue
            got = core.uncps(f[5])
            want = Fraction(1)
            for k, (kind, it) in enumerate(case['vast']):
                if kind == 'rep':
                    want *= it[1] - it[0] + 1
                elif kind == 'mult':
                    j = [c - 0x5000 - 16 * k for c in got if 0 <= c - 0x5000 - 16 * k < len(it)]
                    if len(j) != 1:
                        yield 'not in language', 'pattern %r: %s' % (case['text'], got[:50])
                        return
                    want *= Fraction(sum(it), it[j[0]])
                else:
                    want *= it
            e = float(f[3])
            if not abs(e - want) <= 1e-7 * want:
                yield 'entropy', 'pattern %r: reported %.17g for %s, expected %.17g' % (case['text'], e, got[:20], want)
                return
            case['e'].append(math.log2(want))

    def case(self, rng, i, variant):
        if i % 60 == 29:
            return self.large(rng)
        if i % 30 == 14:
            return self.vast(rng)
        if i % 60 == 59:
            # very many branches
            m = rng.choice([256, 257, 1000, 65537])
            ws = [rng.choice([1, 1, 2, 3, 1000]) for _ in range(m)]
            text = '|'.join('{%d}%c' % (w, 0x20000 + k) for k, w in enumerate(ws))
            return dict(branches=ws, text=text[:500], cmds=['gen e 100 s:%d 200 %s' % (rng.getrandbits(50), core.hexs(text))])
        if i % 6 == 5:
            return self.special(rng, i, variant)
        case = c01.rand_case(rng, variant, mode='e')
        f = case['cmds'][0].split(' ')
        case['cmds'].append(' '.join([f[0], f[1].replace('e', '-')] + f[2:]))
        return case

    def judge(self, case, resp, variant):
        if 'branches' in case:
            ws, case['e'] = case['branches'], []
            for l in resp[0][1:]:
                f = l.split()
                k = core.uncps(f[5])[0] - 0x20000 if f[1] == '0' and f[4] != '0' else None
                want = None if k is None else sum(ws) / ws[k]
                if want is None or not abs(float(f[3]) - want) < want * 1e-9:
                    yield 'entropy', '%d branches: %s, expected %s' % (len(ws), l, want)
                    return
                case['e'].append(math.log2(want))
            return
        if 'vast' in case:
            yield from self.judge_vast(case, resp)
            return
        if 'large' in case:
            yield from self.judge_large(case, resp)
            return
        if 'special' in case:
            yield from self.judge_special(case, resp)
            return
        if resp[0][0].split()[1] != '0':
            yield 'rejected', 'valid pattern %r was rejected' % case['text']
            return
        case['e'] = es = []
        case['unknown'] = 0
        for l, m in zip(resp[0][1:], resp[1][1:]):
            f, h = l.split(), m.split()
            if f[1] != '0':
                yield 'failed', 'generating from %r failed' % case['text']
                return
            if f[5] != h[5] or f[1] != h[1]:
                yield 'changes output', 'pattern %r: asking for entropy changes the output' % case['text']
                return
            e = float(f[3])
            seq = core.uncps(f[5])
            want = M.entropies(case['g'], seq)
            if want is None:
                case['unknown'] += 1
                if not e >= 1:
                    yield 'too low', 'pattern %r, output %r: entropy %r' % (case['text'], ''.join(map(chr, seq)), e)
                continue
            if not want:
                yield 'not in language', 'pattern %r generated %r' % (case['text'], seq)
                return
            if max(want) > 1000:
                case['unknown'] += 1
                continue
            if not (e >= 1 and e < math.inf) or min(abs(math.log2(e) - w) for w in want) > 1e-7 * 1.5:
                yield 'entropy', 'pattern %r, output %r: reported 2^%.9f, expected one of %s' % (
                    case['text'], ''.join(map(chr, seq)), math.log2(e) if e > 0 else -1,
                    ', '.join('2^%.9f' % w for w in want[:6]))
                return
            es.append(math.log2(e))

    def nontrivial(self, case, resp):
        return case['text'] if any(e > 0 for e in case.get('e', ())) else None

    def observe(self, case, resp, stats):
        es = case.get('e', ())
        stats['values compared'] = stats.get('values compared', 0) + len(es)
        stats['values not decided'] = stats.get('values not decided', 0) + case.get('unknown', 0)
        for e in es:
            d = stats.setdefault('values by bits of entropy / 16', {})
            d[int(e) // 16] = d.get(int(e) // 16, 0) + 1
