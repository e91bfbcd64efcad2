import hashlib
from vlib import core, crypto, curve as C
from vlib.core import hexs


class Primitives(core.Base):
    """Single calls of primitives with guarded buffers, compared with outputs computed independently."""
    programs = {'drv': (['/verif/drv/mono.c'], [])}
    per_case = 10
    kinds = ()

    def data(self, rng, n):
        k = rng.random()
        if k < .5:
            return rng.randbytes(n)
        if k < .65:
            return bytes([rng.choice([0, 0xff, 0x80, 1, 0x7f])]) * n
        # runs of equal bits make carries ripple
        out = b''
        while len(out) < n:
            out += bytes([rng.choice([0, 0xff, 0, 0xff, 0x7f, 0x80, 1, 0xfe, rng.randrange(256)])]) * rng.choice([1, 2, 3, 4, 8, 15, 16])
        return out[:n]

    def size(self, rng, most):
        k = rng.random()
        if k < .3:
            return rng.randrange(0, 20)
        if k < .75:
            b = rng.choice([16, 32, 64, 128, 256])
            return min(most, max(0, b * rng.randrange(1, 6) + rng.choice([-1, 0, 1, 0, rng.randrange(-16, 16)])))
        return rng.randrange(0, most)

    def case(self, rng, i, variant):
        cmds, want = [], []
        for _ in range(self.per_case):
            k = rng.choice(self.kinds)
            got = getattr(self, 'op_' + k)(rng)
            for c, w in ([got] if isinstance(got, tuple) else got):
                cmds.append(c)
                want.append(w)
        return dict(cmds=cmds, want=want, text=str(cmds)[:1500])

    def judge(self, case, resp, variant):
        for c, w, r in zip(case['cmds'], case['want'], resp):
            broken = [x for x in r if x.startswith('broken')]
            for b in broken:
                yield 'memory ' + c.split()[0], '%s: %s' % (b, c[:300])
            r = [x for x in r if not x.startswith('broken')]
            if len(r) != len(w):
                raise core.HarnessError('%s: %r, %r' % (c, r, w))
            for k, (a, b) in enumerate(zip(r, w)):
                if b is not None and a != b:
                    yield 'value ' + c.split()[0], '%s: output %d is %s, expected %s' % (c[:600], k, a[:200], b[:200])
                    break

    def nontrivial(self, case, resp):
        return case['cmds']

    def observe(self, case, resp, stats):
        d = stats.setdefault('calls', {})
        for c in case['cmds']:
            k = c.split()[0]
            d[k] = d.get(k, 0) + 1
        stats['bytes compared'] = stats.get('bytes compared', 0) + sum(len(x) // 2 for r in resp for x in r)


class Check(Primitives):
    pid = 'C27'
    rule = ('calls of Blake2b (one-shot, keyed and in parts), ChaCha20 (three nonces sizes, HChaCha20, in place, keystream only), '
            'Poly1305 (one-shot and in parts), authenticated encryption (one-shot and streams, with modified messages, keys, nonces and '
            'additional data), Argon2 (all kinds, lanes, keys, additional data, hash sizes), comparison and wiping, with lengths around '
            'all block boundaries, contents that make carries ripple, counters about to overflow and unaligned guarded buffers. '
            'Every output has to equal the one of an independent implementation. Non-trivial: distinct calls.')
    assumptions = ['messages below 200 kB', 'at most 2^32 blocks per nonce with the 96 bit nonce']
    quick = {'san': 800, 'rel': 1400, 'msan': 120}
    thorough = {'san': 4000, 'rel': 8000, 'clangsan': 2000, 'msan': 600, 'lto': 4000, 'clangrel': 4000}
    kinds = ['blake', 'blake', 'blake', 'poly', 'poly', 'poly', 'chacha', 'chacha', 'hchacha', 'lock', 'unlock', 'stream', 'argon', 'verify', 'wipe']

    def parts(self, rng, n):
        k = rng.random()
        if k < .2 or n == 0:
            return '-'
        if k < .4:
            return ','.join(['1'] * n) if n < 700 else ','.join(['0', '1', '2'] * 100)
        out, left = [], n
        while left > 0 and len(out) < 400:
            x = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 120, 127, 128, 129, 256, rng.randrange(300), rng.randrange(300)])
            out.append(x)
            left -= x
        return ','.join(map(str, out))

    def op_blake(self, rng):
        n = self.size(rng, 1200) if rng.random() < .97 else rng.randrange(200000)
        size = rng.choice([64, 32, rng.randrange(1, 65), rng.randrange(1, 65)])
        key = b'' if rng.random() < .5 else self.data(rng, rng.choice([32, 64, rng.randrange(1, 65)]))
        msg = self.data(rng, n)
        if rng.random() < .1:
            # in place
            area = msg + self.data(rng, 64)
            return 'over blake %s 0 %d 0 %d' % (hexs(area), n, size), [(hashlib.blake2b(msg, digest_size=size).digest() + area[size:]).hex()]
        w = hashlib.blake2b(msg, digest_size=size, key=key).hexdigest()
        return 'blake %d %s %s %s' % (size, hexs(key), hexs(msg), self.parts(rng, n)), [w] * (2 if key else 3)

    def op_poly(self, rng):
        k = rng.random()
        if k < .4:
            # sums close to the modulus
            r = rng.choice([0, 1, 2, 4, 5, 0x0ffffffc0ffffffc0ffffffc0fffffff, 1 << 100, (1 << 124) - 1])
            key = C.enc(r, 16) + rng.choice([bytes(16), b'\xff' * 16, rng.randbytes(16)])
            m = b''.join(rng.choice([b'\xff' * 16, b'\xfb' + b'\xff' * 15, b'\xfa' + b'\xff' * 15, bytes(16), b'\1' + bytes(15), b'\xfb' + b'\xfe' * 15,
                                     b'\5' + bytes(15), b'\xf0' + b'\xff' * 15, b'\x11' + bytes(15), b'\1' * 16, rng.randbytes(16)])
                         for _ in range(rng.randrange(8)))
            if rng.random() < .3:
                m += self.data(rng, rng.randrange(16))
        else:
            key = self.data(rng, 32)
            m = self.data(rng, self.size(rng, 800) if rng.random() < .97 else rng.randrange(60000))
        w = C.poly1305(key, m).hex()
        return 'poly %s %s %s' % (hexs(key), hexs(m), self.parts(rng, len(m))), [w, w]

    def op_chacha(self, rng):
        kind = rng.choice(['djb', 'ietf', 'x'])
        key, nonce = self.data(rng, 32), self.data(rng, {'djb': 8, 'ietf': 12, 'x': 24}[kind])
        n = self.size(rng, 700)
        blocks = (n + 63) // 64
        if kind == 'ietf':
            ctr = rng.choice([0, 1, 2**32 - blocks, max(0, 2**32 - blocks - 1), rng.randrange(2**32 - 100)]) % 2**32
        else:
            ctr = rng.choice([0, 1, 2**32 - 1, 2**32 - 2, 2**32, 2**64 - 1, 2**64 - 2, rng.getrandbits(64), rng.getrandbits(32), (rng.getrandbits(32) << 32) - 1]) % 2**64
        form = rng.choice([0, 0, 1, 2])
        msg = self.data(rng, n)
        if kind == 'djb':
            s = C.stream(key, nonce, ctr, n)
        elif kind == 'ietf':
            s = C.stream(key, nonce[4:], ctr + (C.le(nonce[:4]) << 32), n)
        else:
            s = C.stream(C.hchacha(key, nonce[:16]), nonce[16:], ctr, n)
        o = s if form == 2 else C.xor(s, msg)
        nxt = (ctr + blocks) % (2**32 if kind == 'ietf' else 2**64)
        return 'chacha %s %s %s %d %d %s' % (kind, hexs(key), hexs(nonce), ctr, form, hexs(msg)), [hexs(o), str(nxt)]

    def op_hchacha(self, rng):
        key, inp = self.data(rng, 32), self.data(rng, 16)
        return 'hchacha %s %s' % (hexs(key), hexs(inp)), [C.hchacha(key, inp).hex()]

    def op_lock(self, rng):
        key, nonce, ad, text = self.data(rng, 32), self.data(rng, 24), self.data(rng, self.size(rng, 200)), self.data(rng, self.size(rng, 400))
        c, mac = C.Aead('x', key, nonce).write(ad, text)
        return 'lock %s %s %s %s %d' % (hexs(key), hexs(nonce), hexs(ad), hexs(text), rng.randrange(2)), [hexs(c), mac.hex()]

    def flip(self, rng, b):
        if not b:
            return b'\0'
        b = bytearray(b)
        k = rng.random()
        if k < .6:
            b[rng.choice([0, len(b) - 1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
        elif k < .8:
            # differences that cancel out when added
            x, y = rng.randrange(len(b)), rng.randrange(len(b))
            d = rng.randrange(1, 256)
            b[x] ^= d
            b[y] ^= d if x != y else 0
        else:
            b[-1] ^= 0x80
            b[0] ^= 0x80 if len(b) > 1 else 0
        return bytes(b)

    def op_unlock(self, rng):
        key, nonce, ad, text = self.data(rng, 32), self.data(rng, 24), self.data(rng, self.size(rng, 200)), self.data(rng, self.size(rng, 400))
        c, mac = C.Aead('x', key, nonce).write(ad, text)
        k = rng.randrange(10)
        if k == 0:
            key = self.flip(rng, key)
        elif k == 1:
            nonce = self.flip(rng, nonce)
        elif k == 2:
            ad = self.flip(rng, ad)
        elif k == 3:
            mac = self.flip(rng, mac)
        elif k == 4:
            c = self.flip(rng, c)
        elif k == 5:
            # the same bytes, divided in another way
            m = rng.choice([1, 16])
            ad, c = (ad + c)[:len(ad) + m], (ad + c)[len(ad) + m:]
        elif k == 6:
            c = c[:-1] if rng.random() < .5 else c + b'\0'
        elif k == 7:
            ad = ad[:-1] if rng.random() < .5 else ad + b'\0'
        form = rng.randrange(2)
        got = C.Aead('x', key, nonce).read(ad, mac, c)
        # what gets rejected leaves the output alone
        out = got if got is not None else c if form else b'\xa7' * len(c)
        return 'unlock %s %s %s %s %s %d' % (hexs(key), hexs(nonce), hexs(ad), mac.hex(), hexs(c), form), [
            '0' if got is not None else '-1', hexs(out)]

    def op_stream(self, rng):
        kind = rng.choice(['djb', 'ietf', 'x'])
        key, nonce = self.data(rng, 32), self.data(rng, {'djb': 8, 'ietf': 12, 'x': 24}[kind])
        a, cmd, want = C.Aead(kind, key, nonce), [], []
        reading = rng.random() < .5
        other = C.Aead(kind, key, nonce)
        for _ in range(rng.randrange(1, 8)):
            ad, text = self.data(rng, self.size(rng, 60)), self.data(rng, self.size(rng, 150))
            if not reading:
                c, mac = a.write(ad, text)
                cmd.append('W:%s:%s' % (hexs(ad), hexs(text)))
                want += [hexs(c), mac.hex()]
                continue
            c, mac = other.write(ad, text)
            while rng.random() < .4:
                # does not advance
                c2, mac2, ad2 = rng.choice([(self.flip(rng, c), mac, ad), (c, self.flip(rng, mac), ad), (c, mac, self.flip(rng, ad))])
                if (c2, mac2, ad2) != (c, mac, ad):
                    cmd.append('R:%s:%s:%s' % (hexs(ad2), mac2.hex(), hexs(c2)))
                    want += ['-1', hexs(b'\xa7' * len(c2))]
            cmd.append('R:%s:%s:%s' % (hexs(ad), mac.hex(), hexs(c)))
            want += ['0', hexs(text)]
        return 'stream %s %s %s %s' % (kind, hexs(key), hexs(nonce), ' '.join(cmd[:19])), want[:2 * min(19, len(cmd))]

    def op_argon(self, rng):
        if rng.random() < .5:
            return self.op_blake(rng)
        lanes = rng.choice([1, 1, 1, 2, 3, 4])
        blocks = lanes * rng.choice([8, 8, 8, 12, 16, 24]) + rng.choice([0, 0, 1, 3])
        if rng.random() < .04:
            # more than one block of addresses per segment
            lanes, blocks = 1, 4 * rng.choice([128, 129, 130, 256, 257, 258, 300])
        passes = 1 if blocks > 100 else rng.choice([1, 1, 2, 3])
        size = rng.choice([4, 16, 32, 63, 64, 65, 95, 96, 97, 128, 200, rng.randrange(4, 300)])
        kind = rng.choice([1, 1, 2, 0]) if blocks > 100 else rng.randrange(3)
        pw, salt = self.data(rng, rng.choice([0, 1, 8, 100, rng.randrange(200)])), self.data(rng, rng.choice([8, 16, rng.randrange(8, 100)]))
        key, ad = self.data(rng, rng.choice([0, 0, 32, rng.randrange(100)])), self.data(rng, rng.choice([0, 0, 7, rng.randrange(100)]))
        w = crypto.argon2(kind, pw, salt, key, ad, blocks, passes, lanes, size)
        return 'argon %d %d %d %d %d %s %s %s %s' % (kind, blocks, passes, lanes, size, hexs(pw), hexs(salt), hexs(key), hexs(ad)), [w.hex()]

    def op_verify(self, rng):
        out = []
        for _ in range(8):
            n = rng.choice([16, 32, 64])
            a = self.data(rng, n)
            b = a if rng.random() < .3 else self.flip(rng, a) if rng.random() < .8 else self.data(rng, n)
            out.append(('verify %s %s' % (a.hex(), b.hex()), ['0' if a == b else '-1']))
        return out

    def op_wipe(self, rng):
        n = self.size(rng, 300)
        o = rng.randrange(n + 1)
        m = rng.choice([n - o, rng.randrange(n - o + 1)])
        return 'wipe %d %d %d' % (n, o, m), [hexs(b'\xa7' * o + bytes(m) + b'\xa7' * (n - o - m))]
