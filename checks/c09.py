import os
from vlib import core, crypto


class Check(core.Base):
    pid = 'C09'
    rule = ('deterministic sources with random and boundary seeds, keys, nonces and file contents, opened directly and from '
            'descriptions, read with random request sequences and seeks, compared byte by byte with independent '
            'implementations; random and boundary descriptions, valid and malformed. Non-trivial: distinct source and '
            'request sequence.')
    assumptions = ['vlib/crypto.py implements xorshift64 and ChaCha20 (checked against published vectors)']
    quick = {'san': 1872, 'rel': 625}
    thorough = {'san': 4000, 'clangsan': 2000, 'rel': 6000, 'msan': 1500}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'rnd')
        os.makedirs(self.dir)

    def ops(self, rng, seek, limit=10 ** 9):
        ops, pos = [], 0
        for _ in range(rng.choice([1, 4, 12, 30])):
            left = 1024 - pos % 1024
            x = rng.random()
            if seek and x < .2:
                ops.append(('k', rng.choice([0, 1, 7, 8, 63, 64, 65, 100, 1023, 1024, 1025, 4095, 2 ** 32 - 1, 2 ** 32,
                                             2 ** 38 - 64, 2 ** 38 - 1, 2 ** 38, 2 ** 40, 2 ** 40 + 63, rng.getrandbits(20),
                                             rng.getrandbits(36), rng.getrandbits(50)])))
                pos = 0
            elif x < .7:
                n = rng.choice([0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 100, 500, 1023, 1024, left, left + 1, max(left - 1, 0)])
                n = min(n, 1024)
                ops.append(('r', n))
                pos += n
            elif x < .78:
                ops.append(('r', rng.choice([1025, 1026, 1030, 1032, 1087, 1088, 1089, 2000, 2048, 4096, 4097])))
            elif x < .9:
                w = rng.choice([1, 2, 4, 8])
                ops.append(('u', w))
                pos += w
            else:
                w = rng.choice([1, 2, 4, 8])
                ops.append(('m', w, rng.choice([1, 2, 3, 10, 26, 100, 255])))
                pos += w
        return ops

    def case(self, rng, i, variant):
        k = rng.randrange(10)
        wrap = rng.choice(['d:', 'D:'])
        text = lambda n: bytes(rng.choice(b'abcXYZ019!/ \xc3\xa9') for _ in range(n)).replace(b':', b';')
        expect = None
        if k < 2:
            seed = rng.choice([1, 2, 1234, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(1, 2 ** 64)])
            src = 'x:%d' % seed if k == 0 else wrap + core.hexs('xorshift:%d' % seed)
            expect = ('x', seed)
        elif k < 4:
            key, iv = rng.randbytes(32), rng.randbytes(8)
            src = 'k:%s:%s' % (key.hex(), iv.hex())
            expect = ('k', key, iv)
        elif k == 4:
            n = rng.choice([1, 2, 16, 31, 32, rng.randrange(1, 33)])
            key = text(n)
            d = b'chacha20:' + key
            iv = b'passgen\0'
            if rng.random() < .6:
                v = text(rng.choice([1, 4, 7, 8]))
                d += b':' + v
                iv = v.ljust(8, b'\0')
            src = wrap + d.hex()
            expect = ('k', key.ljust(32, b'\0'), iv)
        elif k == 5:
            f = [text(rng.choice([1, 3, 20, 126, 127])) for _ in range(rng.randrange(1, 4))]
            if len(f) > 1 and rng.random() < .4:
                # no domain, as without the option, or nothing after the last colon
                f[rng.randrange(1, len(f))] = b''
            src = wrap + (b'chacha20-argon2:' + b':'.join(f)).hex()
            expect = ('a', tuple(f))
        elif k == 6:
            src = wrap + core.hexs('zero')
            expect = ('z',)
        elif k == 7:
            data = rng.randbytes(rng.choice([40000, 65536, 100001]))
            name = os.path.join(self.dir, 'f%d%s' % (i, rng.choice(['', ':x', ' y'])))
            with open(name, 'wb') as f:
                f.write(data)
            src = 'p:' + core.hexs(name) if rng.random() < .5 else wrap + core.hexs('file:' + name)
            expect = ('f', name, data)
        else:
            bad = [b'', b'xorshift', b'xorshift:', b'xorshift:0', b'xorshift:abc', b'xorshift:-1', b'xorshift:12x',
                   b'xorshift: 1', b'xorshift:18446744073709551616', b'xorshift:99999999999999999999999', b'xorshift:+1',
                   b'zeroes', b'zero:', b'Zero', b'ze', b'systems', b'syste', b'file', b'file:', b'file:/nonexistent/x',
                   b'chacha20', b'chacha20:', b'chacha20::', b'chacha20::abc', b'chacha20:' + text(33), b'chacha20:' + text(40),
                   b'chacha20:' + text(33) + b':iv', b'chacha20:' + text(5000), b'chacha20-argon2', b'random', b':', b'x' * 300,
                   b'chacha20-argon2:' + text(128), b'chacha20-argon2:' + text(129) + b':a',
                   b'chacha20-argon2:a:' + text(128), b'chacha20-argon2:a:b:' + text(128), b'chacha20-argon2:a:' + text(3000),
                   b'XORSHIFT:1', b'\xff', b'xorshift:1:2']
            cmds = ['rnd %s%s r8' % (rng.choice(['d:', 'D:']), d.hex() or '-') for d in rng.sample(bad, 8)]
            return dict(cmds=cmds, expect=None, ops=[])
        if k == 7:
            ops = self.ops(rng, False)
        else:
            ops = self.ops(rng, expect[0] in 'ka')
        enc = []
        for o in ops:
            enc.append('%s%d' % (o[0], o[1]) if len(o) == 2 else 'm%d:%d' % o[1:])
        if rng.random() < .1:
            enc.append('z')
        return dict(cmds=['rnd %s %s' % (src, ','.join(enc))] * rng.choice([1, 1, 2]), expect=expect, ops=ops)

    def judge(self, case, resp, variant):
        e = case['expect']
        if e is None:
            for c, r in zip(case['cmds'], resp):
                if r != ['NOSRC']:
                    d = c.split()[1][2:]
                    yield 'accepted', 'description %r was not refused' % core.unhex(d)
            return
        for r in resp:
            if e[0] == 'x':
                s = crypto.Xorshift(e[1])
            elif e[0] == 'k':
                s = crypto.ChaCha(e[1], e[2])
            elif e[0] == 'a':
                f = list(e[1]) + [b'', b'']
                s = crypto.ChaCha(crypto.master_key(f[0], f[1], f[2]), b'passgen\0')
            elif e[0] == 'z':
                s = crypto.Zero()
            else:
                s = crypto.FileBytes(e[2])
            try:
                b = crypto.Buffered(s)
                if r == ['NOSRC']:
                    yield 'refused', 'source %r was refused' % (e[:2],)
                    return
                want = []
                for o in case['ops']:
                    if o[0] == 'r':
                        want.append('r ' + (b.read(o[1]).hex() or '-'))
                    elif o[0] == 'u':
                        want.append('u %d' % b.word(o[1]))
                    elif o[0] == 'm':
                        want.append('m %d' % b.below(o[1], o[2]))
                    else:
                        b.seek(o[1])
                        want.append('k')
            except EOFError:
                raise core.HarnessError('file too short')
            for j, (w, l) in enumerate(zip(want, r)):
                if w != l:
                    yield 'stream', '%r: operation %d of %r gave %s, expected %s' % (
                        e[:2], j, case['ops'][:j + 1], l[:200], w[:200])
                    return
            if len(r) < len(want):
                yield 'stream', 'only %d of %d results' % (len(r), len(want))

    def nontrivial(self, case, resp):
        return case['cmds']

    def observe(self, case, resp, stats):
        k = {'x': 'xorshift', 'k': 'chacha20', 'a': 'argon2', 'z': 'zero', 'f': 'file'}.get(
            case['expect'] and case['expect'][0], 'malformed')
        d = stats.setdefault('sources', {})
        d[k] = d.get(k, 0) + 1
        stats['operations'] = stats.get('operations', 0) + len(case['ops'])
