from vlib import core, curve as C
from vlib.core import hexs
from checks.c27 import Primitives

LOW = C.low_order()
LOW_U = [0, 1, C.P - 1, C.P, C.P + 1, 2**255 - 1, 2**255 - 2] + [C.le(C.to_x25519(b)) for b in LOW]


class Check(Primitives):
    pid = 'C28'
    rule = ('calls of X25519 (also inverse and with uncleared cofactor), EdDSA with Blake2b (keys, signatures, verification of genuine, '
            'modified and specially constructed signatures, building blocks), conversions between the curves and Elligator 2, with random '
            'values, values around 0, the order and the modulus, points of low order, values outside of the canonical range and values '
            'that make carries ripple, in guarded buffers. Every output has to equal the one of an independent implementation in '
            'plain integers, also when a signature or key is written over what it is made from. Non-trivial: distinct calls.')
    assumptions = ['messages below 10 kB']
    quick = {'san': 640, 'rel': 1280, 'msan': 80}
    thorough = {'san': 3000, 'rel': 6000, 'clangsan': 2000, 'msan': 400, 'lto': 4000, 'clangrel': 4000}
    kinds = ['x25519', 'x25519', 'public', 'inverse', 'dirty', 'keypair', 'sign', 'check', 'check', 'equation', 'convert', 'scalar', 'scalar', 'base',
             'map', 'map', 'rev', 'rev', 'hidden', 'over']

    def number(self, rng, bits=256):
        n = bits // 8
        k = rng.random()
        if k < .6:
            return self.data(rng, n)
        c = rng.choice([0, C.L, 2 * C.L, 8 * C.L, C.P, 2 * C.P, 1 << 252, 1 << 255, 1 << 256, 1 << 128, 15 * C.L, C.L << 128, C.L << 256, C.L * C.L, 1 << 512,
                        rng.randrange(16) * C.L, rng.randrange(1 << (bits - 252)) * C.L, 1 << rng.randrange(bits)])
        return C.enc((c + rng.choice([0, 1, -1, 2, -2, 19, -19, rng.randrange(-50, 50)])) % (1 << bits), n)

    def u(self, rng):
        if rng.random() < .2:
            return C.enc((rng.choice(LOW_U) + rng.choice([0, 0, C.P]) | rng.getrandbits(1) << 255) % 2**256)
        return self.number(rng)

    def op_x25519(self, rng):
        k, u = self.number(rng), self.u(rng)
        return 'x25519 %s %s' % (hexs(k), hexs(u)), [C.x25519(k, u).hex()]

    def op_public(self, rng):
        k = self.number(rng)
        return 'public ' + hexs(k), [C.x25519(k, C.NINE).hex()]

    def high_inverse(self, rng):
        """A key whose inverse, made a multiple of eight, is just above or below 2^255."""
        while True:
            e = (1 << 255) + 8 * rng.choice([rng.getrandbits(6), rng.getrandbits(100), -1 - rng.getrandbits(100)])
            k = pow(e, -1, C.L)
            ks = [k + m * C.L for m in range(9) if (k + m * C.L) % 8 == 0 and 1 << 254 <= k + m * C.L < 1 << 255]
            if ks and e < 8 * C.L:
                return C.enc(rng.choice(ks))

    def op_inverse(self, rng):
        k = self.number(rng) if rng.random() < .6 else self.high_inverse(rng)
        u = self.u(rng) if rng.random() < .3 else C.x25519(self.number(rng), C.NINE)
        return 'inverse %s %s' % (hexs(k), hexs(u)), [C.inverse(k, u).hex()]

    def op_dirty(self, rng):
        k, b = self.number(rng), self.number(rng)
        # a component of low order depends on the lowest bits, with any generator
        c = C.mul(C.le(C.trim(k)), C.B)
        low = [bytes.fromhex(C.to_x25519(C.encode(C.add(c, C.mul(C.le(k) % 8, C.decode(LOW[g]))))).hex()) for g in (1, 3, 5, 7)]
        return 'dirty %s %s' % (hexs(k), hexs(b)), [lambda u: u in low, C.x25519(b, C.x25519(k, C.NINE)).hex(), (0, None)]

    def op_keypair(self, rng):
        seed = self.number(rng)
        sk, pk = C.keypair(seed)
        return 'keypair ' + hexs(seed), [sk.hex(), pk.hex(), '00' * 32]

    def message(self, rng):
        return self.data(rng, self.size(rng, 400))

    def op_sign(self, rng):
        sk, _ = C.keypair(self.data(rng, 32))
        if rng.random() < .2:
            sk = sk[:32] + self.data(rng, 32)
        m = self.message(rng)
        return 'sign %s %s' % (hexs(sk), hexs(m)), [C.sign(sk, m).hex()]

    def op_over(self, rng):
        # buffers within the same area
        k = rng.randrange(4)
        n = rng.choice([0, 1, 31, 32, 33, 63, 64, 65, 128, 129, rng.randrange(300)])
        area = bytearray(self.data(rng, rng.choice([96, 128, 256]) + n))
        if k < 2:
            key = rng.choice([0, rng.randrange(len(area) - 63)])
            msg = rng.randrange(len(area) - n + 1)
            sig = rng.choice([min(msg, len(area) - 64), min(key, len(area) - 64), min(msg + n, len(area)) - 64, rng.randrange(len(area) - 63), max(0, min(msg + 32, len(area) - 64))])
            sig = max(0, min(sig, len(area) - 64))
            cmd = 'over sign %s %d %d %d %d' % (hexs(area), sig, key, msg, n)
            area[sig:sig + 64] = C.sign(bytes(area[key:key + 64]), bytes(area[msg:msg + n]))
        elif k == 2:
            seed = rng.randrange(len(area) - 31)
            sk, pk = (max(0, min(len(area) - m, seed + rng.choice([0, 32, -32, rng.randrange(-70, 70), rng.randrange(-200, 200)]))) for m in (64, 32))
            if abs(pk - sk - 32) < 32:
                pk = sk + 32
            cmd = 'over keypair %s %d %d %d 0' % (hexs(area), sk, pk, seed)
            a, b = C.keypair(bytes(area[seed:seed + 32]))
            # in this order
            area[seed:seed + 32] = bytes(32)
            area[sk:sk + 64] = a
            area[pk:pk + 32] = b
        else:
            cmd = 'over trim %s %d 0 0 0' % (hexs(area), n)
            area[n:n + 32] = C.trim(bytes(area[n:n + 32]))
        return cmd, [hexs(area)]

    def flip(self, rng, b):
        b = bytearray(b)
        b[rng.choice([0, len(b) - 1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
        return bytes(b)

    def signature(self, rng):
        """signature, key, message"""
        seed = self.data(rng, 32)
        sk, pk = C.keypair(seed)
        m = self.message(rng)
        s = C.sign(sk, m)
        k = rng.randrange(14)
        if k == 0:
            s = self.flip(rng, s)
        elif k == 1:
            pk = self.flip(rng, pk)
        elif k == 2:
            m = self.flip(rng, m) if m else b'x'
        elif k == 3:
            m = m + b'\0' if rng.random() < .5 else m[:-1]
        elif k == 4:
            # the same signature with a larger second half
            n = C.le(s[32:]) + rng.choice([1, 1, 2, 7, 8, 15]) * C.L
            if n < 2**256:
                s = s[:32] + C.enc(n)
        elif k == 5:
            s = s[:32] + C.enc((C.L - C.le(s[32:])) % C.L)
        elif k == 6:
            s = s[:31] + bytes([s[31] ^ 0x80]) + s[32:]
        elif k == 7:
            s = self.number(rng) + self.number(rng)
        elif k == 8:
            # made up from points of low order
            pk, r = rng.choice(LOW), rng.choice(LOW)
            s = r + C.enc(rng.choice([0, 0, 0, 1, C.L, C.L - 1]))
        elif k == 9:
            # with a component of low order, verification may multiply by the cofactor
            a = C.le(C.trim(C.h64(seed)[:32]))
            t = C.decode(rng.choice(LOW))
            r = rng.randrange(C.L)
            R = C.encode(C.add(C.mul(r, C.B), t))
            pk = C.encode(C.add(C.mul(a, C.B), C.decode(rng.choice(LOW))))
            s = R + C.enc((r + C.le(C.h64(R, pk, m)) % C.L * a) % C.L)
        elif k == 10:
            # encodings out of range
            v = rng.randrange(19)
            pk = C.enc(C.P + v | rng.getrandbits(1) << 255)
        return s, pk, m

    def op_check(self, rng):
        s, pk, m = self.signature(rng)
        return 'check %s %s %s' % (hexs(s), hexs(pk), hexs(m)), ['0' if C.check(s, pk, m) else '-1']

    def op_equation(self, rng):
        a = rng.randrange(C.L)
        r, h = rng.randrange(C.L), C.le(self.number(rng)) % C.L
        pk, R = C.encode(C.mul(a, C.B)), C.encode(C.mul(r, C.B))
        s = (r + h * a + rng.choice([0, 0, 0, 1, -1, 8])) % C.L
        if rng.random() < .2:
            s = C.le(self.number(rng)) % C.L
            # what fits: R = sB - hA
            R = C.encode(C.add(C.mul(s, C.B), C.mul((C.L - h) * a % C.L, C.B)))
        s = C.enc(s)
        return 'equation %s %s %s' % (hexs(R + s), hexs(pk), hexs(C.enc(h))), ['0' if C.equation(R + s, pk, h) else '-1']

    def op_convert(self, rng):
        b = self.u(rng)
        return 'convert ' + hexs(b), [C.to_x25519(b).hex(), C.to_eddsa(b).hex()]

    def op_scalar(self, rng):
        out = []
        for _ in range(6):
            a, b, c, w = self.number(rng), self.number(rng), self.number(rng), self.number(rng, 512)
            out += [('trim ' + hexs(a), [C.trim(a).hex()]), ('reduce ' + hexs(w), [C.enc(C.le(w) % C.L).hex()]),
                    ('muladd %s %s %s' % (hexs(a), hexs(b), hexs(c)), [C.enc((C.le(a) * C.le(b) + C.le(c)) % C.L).hex()])]
        return out

    def op_base(self, rng):
        k = self.number(rng)
        return 'base ' + hexs(k), [C.base(C.le(k)).hex()]

    def op_map(self, rng):
        b = self.number(rng)
        return 'map ' + hexs(b), [C.elligator(b).hex()]

    def op_rev(self, rng):
        u = self.u(rng) if rng.random() < .5 else C.elligator(self.number(rng))
        while not C.on_curve(u):
            u = self.u(rng)
        tweak = rng.randrange(256)
        if not C.representable(u):
            return 'rev %s %d' % (hexs(u), tweak), ['-1', None]
        return 'rev %s %d' % (hexs(u), tweak), ['0', lambda h: C.le(h) >> 254 == tweak >> 6 and C.le(h) % 2**254 <= (C.P - 1) // 2,
                                               C.enc(C.point(u)).hex()]

    def op_hidden(self, rng):
        seed, b = self.data(rng, 32), self.number(rng)
        return 'hidden %s %s' % (hexs(seed), hexs(b)), [None, lambda sk: True, '00' * 32, None, (1, b)]

    def judge(self, case, resp, variant):
        for i, w in enumerate(case['want']):
            r = [x for x in resp[i] if not x.startswith('broken')]
            new = []
            for k, x in enumerate(w):
                if callable(x):
                    try:
                        ok = x(bytes.fromhex(r[k]))
                    except ValueError:
                        ok = False
                    new.append(r[k] if ok else 'something else')
                elif isinstance(x, tuple) and x[1] is None:
                    new.append(r[x[0]])
                elif isinstance(x, tuple):
                    # of a hidden key: the same secret as with the key itself
                    new[3] = C.x25519(x[1], C.x25519(bytes.fromhex(r[x[0]]), C.NINE)).hex()
                else:
                    new.append(x)
            case['want'][i] = new
        yield from super().judge(case, resp, variant)
