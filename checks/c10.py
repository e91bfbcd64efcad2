import re
from vlib import core, crypto, cli, model as M
from . import c01

GOLDEN = [
    (('-m', 'mymasterpass', '-d', 'example.com', '-t', 'username', '-p', 'apple2'), b'joCRgX-ISiyaU-dc7VrC\n'),
]
LENGTHS = [0, 1, 2, 7, 8, 11, 15, 16, 31, 32, 63, 64, 65, 100, 111, 112, 119, 120, 127, 128, 129, 130, 191, 192, 200, 255,
           256, 257, 300, 383, 384, 511, 512, 513, 1000]
LONG = [1022, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535,
        65536, 65537, 65600, 70000]


def text(rng, n, allow_colon=True):
    k = rng.random()
    if k < .4:
        return bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_@ ') for _ in range(n))
    if k < .7:
        return bytes(rng.randrange(1, 256) for _ in range(n))
    return bytes([rng.choice(b'a\x01\xff')]) * n


class Check(cli.CliCheck):
    pid = 'C10'
    rule = ('passphrases, domains and tokens of 0 to 1000, some of up to 70000, arbitrary bytes (missing ones included), with the default and other '
            'Argon2 configurations; streams compared with an independent Argon2 and ChaCha20; groups of related inputs (text '
            'moved between the fields, one byte changed or appended, absent instead of empty) judged together; the tool compared '
            'with the library and with a published output. Non-trivial: distinct inputs.')
    assumptions = ['vlib/crypto.py implements Argon2 and ChaCha20 (checked against the vectors of RFC 9106 and others)',
                   'an absent domain or token is the same as an empty one']
    quick = {'san': 1260, 'rel': 420}
    thorough = {'san': 3000, 'rel': 3000, 'clangsan': 1500, 'msan': 1000}

    def spec(self, a, cfg=None):
        return 'a:' + ':'.join('~' if x is None else core.hexs(x) if x else '-' for x in a) + \
            (':%d,%d,%d,%d' % cfg if cfg else '')

    def inputs(self, rng):
        k = rng.random()
        top = 1000 if k < .15 else 300 if k < .5 else 70
        a = [text(rng, rng.choice([n for n in LENGTHS if n <= top] + [rng.randrange(top)])) for _ in range(3)]
        if rng.random() < .12:
            # the end of it counts as well
            j = rng.randrange(3)
            a[j] = text(rng, rng.choice(LONG))
        for j in (1, 2):
            if rng.random() < .2:
                a[j] = None
        return a

    def case(self, rng, i, variant):
        if i == 0:
            return dict(kind='golden', cmds=[], runs=[cli.Run(list(g[0])) for g in GOLDEN])
        k = rng.randrange(10)
        if k < 5:
            a = self.inputs(rng)
            cfg = None
            if rng.random() < .45:
                lanes = rng.choice([1, 1, 1, 2, 3, 4])
                blocks = rng.choice([8 * lanes, 8 * lanes + 1, 8 * lanes + 3, 12 * lanes, 16 * lanes, 16 * lanes + 5, 40 * lanes])
                if rng.random() < .07 and lanes == 1:
                    blocks = rng.choice([512, 516, 520, 600])
                cfg = (rng.choice([2, 2, 1, 0]), blocks, rng.choice([1, 2, 3, 4]) if blocks < 200 else 1, lanes)
            ops = ['r%d' % rng.choice([1, 8, 32, 64, 100, 1024, 1023]) for _ in range(rng.choice([1, 3]))]
            return dict(kind='stream', inp=a, cfg=cfg, ops=ops, runs=[],
                        cmds=['rnd %s %s' % (self.spec(a, cfg), ','.join(ops))] * rng.choice([1, 2]))
        if k < 7:
            # related inputs must give unrelated streams
            a = [x or b'' for x in self.inputs(rng)]
            if not a[0]:
                a[0] = b'x'
            rel = {tuple(a)}
            for _ in range(8):
                b = list(a)
                x, y = rng.sample(range(3), 2)
                if rng.random() < .5 and b[x]:
                    n = rng.choice([1, len(b[x])])
                    moved = b[x][-n:] if x < y else b[x][:n]
                    b[x] = b[x][:-n] if x < y else b[x][n:]
                    b[y] = moved + b[y] if x < y else b[y] + moved
                elif rng.random() < .3:
                    b[x], b[y] = b[y], b[x]
                elif rng.random() < .4 and b[x]:
                    p = rng.choice([0, len(b[x]) - 1, rng.randrange(len(b[x]))])
                    c = b[x][p] ^ 1 << rng.randrange(8)
                    b[x] = b[x][:p] + bytes([c or 3]) + b[x][p + 1:]
                elif rng.random() < .5:
                    b[x] = b[x][:-1]
                else:
                    b[x] += rng.choice([b'a', b' ', b'\x01', a[x][:1] or b'q'])
                rel.add(tuple(b))
            rel = sorted(rel)
            return dict(kind='related', inp=rel, runs=[], cmds=['rnd %s r64' % self.spec(x) for x in rel])
        # the tool
        a = self.inputs(rng)
        # arguments must not be too long altogether, and the passphrase is given
        a = [x if x is None else x[:rng.choice([20, 1000])] for x in a]
        amount = rng.choice([1, 1, 2, 3])
        args = []
        order = [0, 1, 2]
        rng.shuffle(order)
        for j in order:
            if a[j] is None:
                continue
            if rng.random() < .5:
                args += ['-' + 'mdt'[j], a[j]]
            else:
                args += [('--master=', '--domain=', '--token=')[j].encode() + a[j]]
        pat = None
        while pat is None:
            pat = c01.rand_case(rng, '')['text'] if rng.random() < .6 else rng.choice(
                ['[a-z]{30}', '[a-zA-Z0-9]{20}', '([a-z]{3}-){5}[0-9]', '[a-c]{300}'])
            if '\0' in pat or pat.startswith('-') or len(pat) > 3000:
                pat = None
        runs = [cli.Run(args + ['-j', '-a', str(amount), pat]) for _ in range(2)]
        return dict(kind='tool', runs=runs, amount=amount,
                    cmds=['gen e 100 %s %d %s' % (self.spec(a), amount, core.hexs(pat))])

    def judge(self, case, resp, variant):
        k = case['kind']
        if k == 'golden':
            for g, r in zip(GOLDEN, resp):
                if r.rc != 0 or r.out != g[1]:
                    yield 'golden', '%r: %r, expected %r' % (g[0], r, g[1])
        elif k == 'stream':
            a = [x or b'' for x in case['inp']]
            cfg = case['cfg'] or (2, 8, 8, 1)
            s = crypto.Buffered(crypto.ChaCha(crypto.argon2(cfg[0], a[0], b'passgen', a[1], a[2], cfg[1], cfg[2], cfg[3], 32),
                                              b'passgen\0'))
            want = ['r ' + s.read(int(o[1:])).hex() for o in case['ops']]
            for r in resp:
                if r[:len(want)] != want:
                    yield 'stream', 'inputs %r, configuration %r, reads %r: %s, expected %s' % (
                        case['inp'], cfg, case['ops'], str(r)[:300], str(want)[:300])
                    return
        elif k == 'related':
            seen = {}
            for a, r in zip(case['inp'], resp):
                d = core.unhex(r[0].split()[1])
                if len(d) != 64:
                    yield 'stream', '%r: %s' % (a, r)
                for b, e in seen.items():
                    same = sum(x == y for x, y in zip(d, e))
                    if same > 12:  # probability below 1e-17
                        yield 'related', 'inputs %r and %r give streams that agree in %d of 64 bytes' % (a, b, same)
                        return
                seen[a] = d
        else:
            import json
            first, second = resp[-2:]
            lib = resp[0]
            if first.rc != second.rc or first.out != second.out:
                yield 'repeat', '%r differs from run to run: %r and %r' % (case['runs'][0], first, second)
            if lib[0] != 'P 0':
                return
            want = []
            for l in lib[1:]:
                t = l.split()
                if t[0] == 'S' and t[1] == '0':
                    want.append(''.join(map(chr, core.uncps(t[5]))))
            # what has no UTF-8 form cannot be shown
            if len(want) < case['amount'] or any(0xd800 <= ord(c) < 0xe000 for w in want for c in w):
                if first.rc == 0:
                    yield 'tool', '%r: %r, but this cannot be shown' % (case['runs'][0], first)
                return
            try:
                got = [x['output'] for x in json.loads(first.out.decode())] if first.rc == 0 else None
            except ValueError:
                got = None
            if got != want:
                yield 'tool', '%r: %r, expected %r' % (case['runs'][0], first, want)

    def nontrivial(self, case, resp):
        return [str(x) for x in case['cmds'] or case['runs']]

    def observe(self, case, resp, stats):
        d = stats.setdefault('kinds', {})
        d[case['kind']] = d.get(case['kind'], 0) + 1
        if case['kind'] == 'stream':
            d = stats.setdefault('configurations', {})
            d[str(case['cfg'] or 'default')] = d.get(str(case['cfg'] or 'default'), 0) + 1
