from vlib import core, model as M

SINGLE = {ord(a): b for a, b in zip('abefnrtv\\', (7, 8, 27, 12, 10, 13, 9, 11, 92))}
HEX = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}
BLOCK = 3000


class Tokens:
    """What has to be observed, one codepoint at a time."""

    def __init__(self, const):
        self.ready, self.escaped, self.unicode, self.payload, self.estart, self.epayload, self.elen, self.bit = const
        self.state, self.cp, self.byte = self.ready, 0, 0
        self.tokens = 0

    def step(self, cp, width):
        """Returns the states allowed and the token (codepoint, offset, byte offset) or None."""
        s, token = self.state, None
        if s == self.ready:
            self.start = (self.cp, self.byte)
            if cp == 0x5c:
                s = self.escaped
            else:
                token = cp
        elif s == self.escaped:
            if cp in SINGLE:
                token, s = SINGLE[cp], self.ready
            elif cp == ord('u'):
                s = self.unicode
            else:
                token, s = cp | self.bit, self.ready
        elif s == self.unicode:
            s = self.payload if cp == ord('{') else self.estart
            self.value = self.digits = 0
        elif s == self.payload:
            if cp == ord('}'):
                if self.value > 0x10ffff:
                    s = self.elen
                else:
                    token, s = self.value, self.ready
            elif self.digits == 6:
                s = self.elen
                if cp not in HEX:
                    # both things are wrong with it
                    self.state = (self.elen, self.epayload)
                    return self.state, None
            elif cp in HEX:
                self.value = self.value * 16 + HEX[cp]
                self.digits += 1
            else:
                s = self.epayload
        else:
            # errors persist
            return (s if isinstance(s, tuple) else (s,)), None
        self.state = s
        self.cp += 1
        self.byte += width
        if token is not None:
            self.tokens += 1
            return (s,), (token,) + self.start
        return (s,), None


class Check(core.Base):
    pid = 'C22'
    rule = ('codepoint streams (random, biased to escapes, unicode literals of all lengths and values, malformed ones; every codepoint '
            'plain and escaped in turn) are fed one by one; the state, token and offsets after each are compared with an '
            'independent machine. Non-trivial: distinct streams with an escape.')
    assumptions = ['codepoints up to U+10FFFF', 'with a seventh character that is no digit either error is accepted']
    quick = {'san': 3000, 'rel': 3000}
    thorough = {'san': 20000, 'rel': 40000, 'clangsan': 10000, 'msan': 6000}
    blocks = -(-0x110000 // BLOCK)

    def prepare(self):
        for v in self.exes:
            resp, crash = core.run_driver(self.exes[v]['drv'], ['tokconst'], self.scratch)
            t = resp[0][0].split()
            self.const = tuple(int(x) for x in t[:7]) + (int(t[7], 16),)
        self.bad = []
        ready, esc, uni, pay, e1, e2, e3, bit = self.const
        if ready != 0 or min(esc, uni, pay) <= 0 or max(e1, e2, e3) >= 0 or len({esc, uni, pay}) != 3 or len({e1, e2, e3}) != 3 \
                or bit <= 0x10ffff or bit & 0x1fffff:
            self.bad.append(('constants', 'states %r' % (self.const,)))

    def finish(self, stats):
        return self.bad

    def stream(self, rng):
        out = []
        style = rng.randrange(4)
        for _ in range(rng.choice([1, 2, 5, 20, 60])):
            k = rng.randrange(10)
            if k < 2:
                out.append(M.rand_cp(rng))
            elif k == 2:
                out += [0x5c, rng.choice(list(SINGLE))]
            elif k == 3:
                out += [0x5c, rng.choice([M.rand_cp(rng), rng.randrange(256), rng.choice(list(SINGLE)) + 256 * rng.randint(1, 4000),
                                          ord('u') + 256 * rng.randint(1, 4000)])]
            elif k < 7:
                v = rng.choice([rng.randrange(0x110000), rng.randrange(256), 0x10ffff, 0x110000, 0xffffff, 0, 0x7f, 0x80, 0xd800, 0xffff, 0x10000,
                                rng.randrange(0x110000, 0x1000000)] if style == 3 else [rng.randrange(0x110000), rng.randrange(0x20, 0x7f), 0x10ffff])
                t = rng.choice(['%x', '%X', '%06x', '%04x', '%04X', '%02x']) % v
                out += [ord(c) for c in '\\u{' + t + '}']
            elif k == 7:
                out.append(rng.choice([0x5c, 0x7b, 0x7d, ord('u'), ord('0'), ord('a')]))
            elif k == 8 and style >= 2:
                n = rng.choice([0, 1, 5, 6, 7, 8, 20])
                out += [ord(c) for c in '\\u{' + ''.join(rng.choice(rng.choice(['0123456789abcdefABCDEF', '0', '00000041'])) for _ in range(n)) +
                        rng.choice(['}', '', 'g', 'G', '{', '\\', ' ', '@', '`', '/', ':', 'x', '\u00e9', '\U00010030'])]
            elif k == 9 and style >= 2:
                out += [0x5c, ord('u'), rng.choice([M.rand_cp(rng), 0x7b + 256, 0x7a, 0x7c, 0x7d, ord('0'), 0x5c])]
            else:
                out.append(rng.randrange(0x20, 0x7f))
        return out

    def case(self, rng, i, variant):
        cps = None
        n = self.variants()[variant]
        blocks = self.blocks
        if variant == 'rel' and n - i <= blocks:
            # every codepoint, plain and escaped, ending with the tokenizer ready again
            lo = (n - i - 1) * BLOCK
            cps = []
            for cp in range(lo, min(lo + BLOCK, 0x110000)):
                if cp == 0x5c:
                    cps += [0x5c, cp]
                elif cp == ord('u'):
                    cps += [cp]
                else:
                    cps += [cp, 0x5c, cp]
        if cps is None:
            cps = self.stream(rng)
            if i % 200 == 7:
                # far away from the beginning
                n = rng.choice([255, 256, 32767, 65533, 65534, 65535, 65536, 70000, 140000])
                k = rng.choice([0x61, 0xe9, 0x20ac, 0x1f600])
                cps = [k] * n + [c for c in cps for _ in range(1)] + [k] * 3
        w = [rng.choice([1, 2, 3, 4]) for _ in cps] if rng.random() < .5 else [1 if c < 128 else 2 if c < 0x800 else 3 if c < 0x10000 else 4 for c in cps]
        return dict(cmds=['tok ' + ','.join('%x:%d' % x for x in zip(cps, w))], cps=cps, w=w)

    def judge(self, case, resp, variant):
        m = Tokens(self.const)
        lines = resp[0]
        if len(lines) != len(case['cps']):
            raise core.HarnessError('%d responses for %d codepoints' % (len(lines), len(case['cps'])))
        failed = None
        for k, (cp, w, l) in enumerate(zip(case['cps'], case['w'], lines)):
            t = l.split()
            r, tok, off, byte, msg = int(t[1]), int(t[2], 16), int(t[3]), int(t[4]), int(t[5])
            before = ''.join('%x ' % c for c in case['cps'][max(0, k - 12):k + 1])
            allowed, token = m.step(cp, w)
            if r not in allowed:
                yield 'state', 'after %s (codepoint %d): state %d, expected %r' % (before, k, r, allowed)
                return
            if failed is not None and r != failed:
                yield 'persist', 'after %s: error %d turned into %d' % (before, failed, r)
                return
            if r < 0:
                failed = r
                if not msg:
                    yield 'message', 'no message for error %d' % r
                    return
            if token is not None and (tok, off, byte) != token:
                yield 'token', 'after %s (codepoint %d): token %x at %d (byte %d), expected %x at %d (byte %d)' % (
                    (before, k, tok, off, byte) + token)
                return

    def observe(self, case, resp, stats):
        stats['codepoints'] = stats.get('codepoints', 0) + len(case['cps'])
        d = stats.setdefault('states', {})
        for l in resp[0]:
            s = l.split()[1]
            d[s] = d.get(s, 0) + 1

    def nontrivial(self, case, resp):
        return case['cmds'][0] if 0x5c in case['cps'] else None
