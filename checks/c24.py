from vlib import core, crypto as X
from vlib.core import hexs


class Check(core.Base):
    pid = 'C24'
    rule = ('messages of all lengths (every one up to 300 in turn, then up to 70000, some up to a megabyte) and contents at all alignments are hashed with random '
            'and special keys; results are compared with SipHash-2-4 written from its specification; the message, key and output are '
            'exactly sized allocations watched by AddressSanitizer. Non-trivial: distinct keys and messages.')
    quick = {'san': 3600, 'rel': 4500}
    thorough = {'san': 10000, 'rel': 20000, 'clangsan': 6000, 'clangrel': 10000, 'msan': 4000}

    def prepare(self):
        # the published values
        k = bytes(range(16))
        if X.siphash(k, bytes(range(15)), 8).hex() != 'e545be4961ca29a1' or \
                X.siphash(k, b'', 16).hex() != 'a3817f04ba25a8e66df67214c7550293':
            raise core.HarnessError('model of SipHash')

    def data(self, rng, n):
        x = rng.randrange(6)
        if x == 0:
            return bytes([rng.choice([0, 0xff, 0x80, 0x7f, 1])]) * n
        if x == 1:
            return bytes((rng.choice([0, 1]) + i) & 255 for i in range(n))
        if x == 2:
            return bytes(rng.choice([0, 0xff, 0x80]) for _ in range(n))
        return rng.randbytes(n)

    def case(self, rng, i, variant):
        todo = []
        if i % 4 == 0:
            n = (i // 4) % 301
        else:
            n = rng.choice([rng.randrange(16), rng.randrange(130), rng.choice([255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097]),
                            rng.randrange(2000)])
            if rng.random() < .01:
                n = rng.choice([65535, 65536, 70000])
        if i % 600 == 599:
            n = rng.choice([(1 << 19) + rng.randrange(64), (1 << 19) + rng.randrange(1 << 19), (1 << 20) + rng.randrange(64)])
        key = self.data(rng, 16)
        msg = self.data(rng, n)
        for a in (range(8) if n < 100 else [rng.randrange(16)]):
            for size in (8, 16):
                todo.append((a, size, key, msg))
        # a single bit more
        k2, m2 = bytearray(key), bytearray(msg)
        if n and rng.random() < .5:
            m2[rng.randrange(n)] ^= 1 << rng.randrange(8)
        else:
            k2[rng.randrange(16)] ^= 1 << rng.randrange(8)
        todo.append((rng.randrange(8), rng.choice([8, 16]), bytes(k2), bytes(m2)))
        return dict(cmds=['sip %d %d %s %s' % (a, s, hexs(k), hexs(m)) for a, s, k, m in todo], todo=todo)

    def judge(self, case, resp, variant):
        cache = {}
        for (a, size, key, msg), r in zip(case['todo'], resp):
            want = cache.setdefault((size, key, msg), X.siphash(key, msg, size))
            t = r[0].split()
            if t[2] != want.hex() or t[1] != '0':
                yield 'hash', 'key %s, %d bytes %s at alignment %d: %s (status %s), expected %s' % (
                    key.hex(), len(msg), msg[:40].hex(), a, t[2], t[1], want.hex())

    def observe(self, case, resp, stats):
        stats['hashes'] = stats.get('hashes', 0) + len(resp)
        stats.setdefault('lengths', set()).update(len(t[3]) for t in case['todo'])
        stats.setdefault('lengths modulo 8', {})[str(len(case['todo'][0][3]) % 8)] = \
            stats.setdefault('lengths modulo 8', {}).get(str(len(case['todo'][0][3]) % 8), 0) + 1

    def nontrivial(self, case, resp):
        return [(t[1], t[2], t[3]) for t in case['todo']]
