from vlib import core

OK, SHORT, BAD = 0, 1, -1
BOUND = [0, 1, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7fe, 0xd7ff,
         0xe000, 0xe001, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]
NOT = [0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x110001, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff, 0x80000041]
EDGE = [0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee,
        0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]


def decode(b):
    """Reference: the codepoints of the longest valid beginning, their widths
    and whether that is everything."""
    try:
        s = b.decode('utf-8')
        whole = True
    except UnicodeDecodeError as e:
        s = b[:e.start].decode('utf-8')
        whole = False
    return [ord(c) for c in s], [len(c.encode()) for c in s], whole


def encodable(c):
    return c <= 0x10ffff and not 0xd800 <= c <= 0xdfff


def rand_cp(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(BOUND)
    if k == 1:
        return rng.randrange(128)
    if k == 2:
        return rng.randrange(0x80, 0x800)
    if k == 3:
        return rng.choice([rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000)])
    return rng.randrange(0x10000, 0x110000)


class Check(core.Base):
    pid = 'C11'
    rule = ('well-formed text of all codepoints and text with overlong, surrogate, out of range, stray, missing and truncated '
            'parts at every place, decoded into buffers of all sizes, in one go and resumed; all codepoints encoded one by one; '
            'text encoded into buffers of all sizes; all strings of two bytes and all combinations of critical bytes for three and '
            'four. Compared with Python\'s codec. Non-trivial: distinct input and capacity.')
    quick = {'san': 3750, 'rel': 2250}
    thorough = {'san': 20000, 'rel': 20000, 'msan': 3000, 'clangsan': 3000}
    LEADS = None

    def corrupt(self, rng, b):
        p = rng.randrange(len(b) + 1)
        k = rng.randrange(7)
        if k == 0:
            return b[:p] + bytes([rng.choice(EDGE)]) + b[p:]
        if k == 1:
            return b[:p] + b[p + 1:]
        if k == 2:
            return b[:p]
        if k == 3 and p < len(b):
            return b[:p] + bytes([rng.choice(EDGE)]) + b[p + 1:]
        if k == 4:
            c = rng.randrange(0xd800, 0xe000)
            return b[:p] + bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]) + b[p:]
        if k == 5:  # overlong
            c = rng.choice(BOUND)
            o = []
            if c < 0x80:
                o.append([0xc0 | c >> 6, 0x80 | c & 63])
            if c < 0x800:
                o.append([0xe0, 0x80 | c >> 6, 0x80 | c & 63])
            if c < 0x10000:
                o.append([0xf0, 0x80 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
            o.append([0xf8, 0x80 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
            return b[:p] + bytes(rng.choice(o)) + b[p:]
        c = rng.choice([0x110000, 0x110001, 0x13ffff, 0x140000, 0x1fffff])
        return b[:p] + bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]) + b[p:]

    def case(self, rng, i, variant):
        if i < 64:  # all pairs of bytes
            seqs = [bytes([a, b]) for a in range(4 * i, 4 * i + 4) for b in range(256)]
            if i < 32:
                seqs += [bytes([8 * i + j]) for j in range(8)]
            return dict(kind='decs', seqs=seqs, cmds=['decs ' + ','.join(map(bytes.hex, seqs))])
        i -= 64
        if i < 68:  # all codepoints, in blocks
            lo = i * 0x4000
            return dict(kind='encrange', lo=lo, hi=lo + 0x4000, cmds=['encrange %x %x' % (lo, lo + 0x4000)])
        i -= 68
        leads = [b for b in range(0xc0, 0x100)]
        if i < len(leads):  # critical continuations
            a = leads[i]
            seqs = [bytes([a, b, c]) for b in range(256) for c in EDGE]
            if a >= 0xf0:
                seqs += [bytes([a, b, c, d]) for b in range(256) for c in EDGE for d in (0x41, 0x7f, 0x80, 0xbf, 0xc0)]
            return dict(kind='decs', seqs=seqs, cmds=['decs ' + ','.join(map(bytes.hex, seqs))])
        i -= len(leads)
        if self.tier == 'thorough' and i < 64:  # all strings of three bytes with such a lead
            a = leads[i]
            seqs = [bytes([a, b, c]) for b in range(256) for c in range(256)]
            return dict(kind='decs', seqs=seqs, cmds=['decs ' + ','.join(map(bytes.hex, seqs))])
        cps = [rand_cp(rng) for _ in range(rng.choice([0, 1, 2, 5, 20, 60, 255, 256, 257, 300]))]
        if rng.random() < .5:
            # runs of one kind of character, of all alignments
            cps = []
            for _ in range(rng.choice([1, 2, 3, 5, 9])):
                lo, hi = rng.choice([(0, 0x7f), (0x20, 0x7e), (0x20, 0x7e), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)])
                cps += [rng.randint(lo, hi) for _ in range(rng.choice([0, 1, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 100]))]
        if rng.random() < .6:
            b = ''.join(map(chr, cps)).encode()
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                b = self.corrupt(rng, b)
            cmds, caps = [], []
            n = len(decode(b)[0])
            for cap in {0, 1, 2, n, n + 1, max(0, n - 1), len(b), len(b) + 5, rng.randrange(n + 2)}:
                caps.append((cap, rng.randrange(2), rng.randrange(2)))
                cmds.append('dec %d %d %d %s' % (caps[-1] + (b.hex() or '-',)))
            return dict(kind='dec', data=b, caps=caps, cmds=cmds)
        for _ in range(rng.choice([0, 0, 1, 2])):
            cps.insert(rng.randrange(len(cps) + 1), rng.choice(NOT))
        size = sum(4 if c > 0xffff else 3 if c > 0x7ff else 2 if c > 0x7f else 1 for c in cps)
        cmds, caps = ['enc1 ' + core.cps(cps)] if cps else [], []
        for cap in {0, 1, 2, 3, 4, 5, 6, size, size + 1, size + 3, size + 4, size + 5, max(0, size - 1), rng.randrange(size + 5)}:
            caps.append((cap, rng.randrange(2)))
            cmds.append('enc %d %d %s' % (caps[-1] + (core.cps(cps),)))
        return dict(kind='enc', data=cps, caps=caps, cmds=cmds)

    def judge(self, case, resp, variant):
        k = case['kind']
        if k == 'decs':
            got = resp[0][0].split(' ')
            for b, g in zip(case['seqs'], got):
                cps, widths, whole = decode(b)
                want = '%d:%d:%s' % (OK if whole else BAD, sum(widths), ''.join('%x/%d.' % x for x in zip(cps, widths)))
                if g != want:
                    yield 'decode', '%s decodes as %s, expected %s' % (b.hex(), g, want)
                    return
            if len(got) != len(case['seqs']):
                yield 'protocol', 'missing results'
        elif k == 'encrange':
            got = resp[0][0].split(' ')
            for c, g in zip(range(case['lo'], case['hi']), got):
                want = chr(c).encode().hex() if encodable(c) else '!'
                if g != want:
                    yield 'encode', 'U+%04X is encoded as %s, expected %s' % (c, g, want)
                    return
            if len(got) != case['hi'] - case['lo']:
                yield 'protocol', 'missing results'
        elif k == 'dec':
            b = case['data']
            for (cap, w, res), lines in zip(case['caps'], resp):
                rest = b
                for j, l in enumerate(lines):
                    t = l.split()
                    cps, widths, whole = decode(rest)
                    n = min(cap, len(cps))
                    used = sum(widths[:n])
                    want = ['D', str(OK if used == len(rest) else SHORT if n == cap else BAD), str(used), str(n), core.cps(cps[:n]),
                            bytes(widths[:n]).hex() or '-' if w else '-']
                    if t != want:
                        yield 'decode', '%s with capacity %d, round %d (%d bytes left): %s, expected %s' % (
                            b.hex()[:400], cap, j, len(rest), t, want)
                        return
                    rest = rest[used:]
                if not lines or res and cap and t[1] == str(SHORT):
                    yield 'protocol', str(lines)
        else:
            cps = case['data']
            if cps:
                for c, l in zip(cps, resp[0]):
                    t = l.split()
                    want = chr(c).encode().hex() if encodable(c) else None
                    if want is None:
                        if int(t[1]) > 0:
                            yield 'encode', '%x has no encoding but gave %s' % (c, l)
                            return
                    elif t[1:] != [str(len(want) // 2), '0', want]:
                        yield 'encode', '%x gave %s, expected %s' % (c, l, want)
                        return
            bad = next((j for j, c in enumerate(cps) if not encodable(c)), len(cps))
            for (cap, res), lines in zip(case['caps'], resp[1 if cps else 0:]):
                at = 0
                for j, l in enumerate(lines):
                    what = '%s with capacity %d, round %d: %s' % (core.cps(cps)[:400], cap, j, l[:300])
                    t = l.split()
                    if t[4] == 'OVER' or t[5] != '0':
                        yield 'overrun', what
                        return
                    r, pos, n = map(int, t[1:4])
                    data = core.unhex(t[4])
                    if not at <= pos <= bad:
                        yield 'encode', what
                        return
                    if data != ''.join(map(chr, cps[at:pos])).encode():
                        yield 'encode', what + ', expected the encoding of %d codepoints' % (pos - at)
                        return
                    at = pos
                    if (r == OK) != (pos == len(cps)) and not (r < 0 and pos == bad < len(cps)):
                        yield 'encode result', what
                        return
                    # with space for any codepoint and a terminator it must go on
                    if r == SHORT and cap - n > 4:
                        yield 'encode stops', what
                        return
                    if r < 0 and not pos == bad < len(cps):
                        yield 'encode error', what
                        return
                if res and cap > 4 and r == SHORT:
                    yield 'protocol', str(lines)

    def nontrivial(self, case, resp):
        return case['cmds'] if case['kind'] in ('dec', 'enc') else (
            [s for s in case['seqs']] if case['kind'] == 'decs' else case['cmds'])

    def observe(self, case, resp, stats):
        d = stats.setdefault('kinds', {})
        d[case['kind']] = d.get(case['kind'], 0) + 1
        if case['kind'] == 'encrange':
            stats['codepoints encoded'] = stats.get('codepoints encoded', 0) + case['hi'] - case['lo']
        elif case['kind'] == 'decs':
            stats['byte strings decoded'] = stats.get('byte strings decoded', 0) + len(case['seqs'])
        elif case['kind'] == 'dec':
            d = stats.setdefault('decode results', {})
            for r in resp:
                for l in r:
                    x = l.split()[1]
                    d[x] = d.get(x, 0) + 1
