import os
from vlib import core, model as M
from . import c01, c04


def work(g):
    """Upper bound of the steps generation takes."""
    best = 0
    for m, its in g.segments:
        w = 1
        for it in its:
            k = work(it.val) if it.kind == 'group' else 1
            w += (k + 1) * (it.rep or (1, 1))[1]
        best = max(best, w)
    return best + len(g.segments)


NAMES = ['w', 'a', 'é', '', 'a|b', 'long' * 20, 'none', 'bad', 'empty']


class Check(core.Base):
    pid = 'C05'
    rule = ('hostile byte strings (as for C04), arrays of arbitrary codepoints, token streams; parsed, generated from with '
            'wordlists and Markov chains loaded, into buffers of all sizes, abandoned at every stage, and released, under '
            'AddressSanitizer with LeakSanitizer, UndefinedBehaviorSanitizer and, in another build, MemorySanitizer. '
            'Non-trivial: distinct input.')
    assumptions = ['patterns whose generation would take more than about a million steps are parsed but not generated from',
                   'red zone based detection: accesses that stay within other live objects go unnoticed',
                   'monocypher runs without UndefinedBehaviorSanitizer in the gcc build']
    quick = {'san': 2800, 'msan': 1400}
    thorough = {'san': 6000, 'sanrel': 3000, 'clangsan': 6000, 'msan': 5000}
    PER = 10

    def prepare(self):
        d = os.path.join(self.scratch, 'wl')
        os.makedirs(d)
        self.files = {}
        for name, data in {
            'plain': b'apple\nbanana\ncherry\n', 'nonl': b'one\ntwo', 'multi': 'grün\nдом\n日本\n😀😀\n'.encode(),
            'long': b'x' * 5000 + b'\n' + ('é' * 300).encode() + b'\n', 'bad': b'\xff\xfe\n\xc3\n', 'empty': b'',
            'blank': b'\n\n\n', 'many': b''.join(b'w%d\n' % i for i in range(3000)), 'crlf': b'a\r\nb\r\n',
            'nul': b'a\0b\nc\n',
        }.items():
            self.files[name] = os.path.join(d, name)
            open(self.files[name], 'wb').write(data)

    def pattern(self, rng):
        b = c04.hostile(rng) if rng.random() < .45 else c01.rand_case(rng, '')['text'].encode()
        for _ in range(rng.choice([0, 0, 1, 2])):
            p = rng.randrange(len(b) + 1)
            name = rng.choice(NAMES)
            if rng.random() < .4:
                # all lengths and widths, the buffer of the name grows
                unit = rng.choice(['a', 'é', '€', '😀', 'aé€😀'])
                n = rng.choice([rng.randrange(40), rng.randrange(40), rng.choice([60, 62, 64, 124, 128, 250, 256, 512]) + rng.randrange(-4, 5)])
                name = 'a' * rng.randrange(5) + ''.join(rng.choice(unit) for _ in range(n // len(rng.choice(unit).encode())))
            b = b[:p] + b'\\' + rng.choice([b'w', b'm', b'p', b'm']) + b'{' + name.encode() + b'}' + \
                rng.choice([b'', b'?', b'{2}', b'{0,3}']) + b[p:]
        return b

    def affordable(self, b):
        try:
            r = M.parse(list(map(ord, b.decode())))
        except UnicodeDecodeError:
            return True
        if r.ok:
            return work(r.ast) < 300000
        if r.ok is False:
            return True
        return b.count(b'{') < 4 and not any(b[i:i + 3].isdigit() for i in range(len(b)))

    def case(self, rng, i, variant):
        cmds = ['envnew']
        used = []
        for n in NAMES[:6]:
            if rng.random() < .7:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    cmds.append('wl %s %s %d' % (core.hexs(n), core.hexs(rng.choice(list(self.files.values()))),
                                                 rng.choice([1, 2, 3, 4, 8])))
        cmds.append('wl %s %s 2' % (core.hexs('bad'), core.hexs(self.files['bad'])))
        cmds.append('wl %s %s 2' % (core.hexs('empty'), core.hexs(self.files['empty'])))
        for _ in range(self.PER):
            k = rng.randrange(10)
            src = 's:%d' % rng.getrandbits(60)
            if k == 0:
                arr = [rng.choice([rng.getrandbits(32), rng.getrandbits(21), ord(rng.choice('|()[]{}?\\-u{}0aw'))])
                       for _ in range(rng.randrange(30))]
                cmds.append('gen u 100 s:1 0 ' + core.cps(arr))
                used.append(tuple(arr))
                continue
            b = self.pattern(rng)
            used.append(b)
            n = 2 if self.affordable(b) else 0
            hx = core.hexs(b)
            depth = rng.choice([0, 1, 2, 5, 1000])
            if k <= 3 or n == 0:
                cmds.append('gen %s %d %s %d %s' % (rng.choice(['-', 'e', 'ec']), depth, src, n, hx))
            elif k == 4:
                try:
                    cmds.append('gen u %d %s 1 %s' % (depth, src, core.cps(map(ord, b.decode()))))
                except UnicodeDecodeError:
                    cmds.append('gen e %d %s 1 %s' % (depth, src, hx))
            elif k <= 7:
                cmds.append('fill %s %d %d %s %d %s' % (rng.choice('u8j'), rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 100, 5000]),
                                                        depth, src, rng.randrange(3), hx))
            else:
                cmds.append('stop %d %d %d %s %s' % (rng.choice([0, 1, 2, 5, 20]), rng.choice([1, -1, 7]), depth, src, hx))
        cmds.append('envnew')
        return dict(cmds=cmds, used=used)

    def judge(self, case, resp, variant):
        for c, r in zip(case['cmds'], resp):
            for l in r:
                if l.startswith('B ') and (' OVER' in l or l.split()[3] != '0'):
                    yield 'overrun', '%s: %s' % (c[:200], l[:200])

    def nontrivial(self, case, resp):
        return [u for u in case['used'] if u]

    def observe(self, case, resp, stats):
        for c, r in zip(case['cmds'], resp):
            d = stats.setdefault('responses', {})
            k = c.split()[0] + ':' + (' '.join(r[-1].split()[:2])[:10] if r and not r[-1].startswith('B') else
                                     'B' if r else '')
            d[k] = d.get(k, 0) + 1
