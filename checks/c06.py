from vlib import core, crypto
from vlib.core import hexs


class Tracker:
    """Attributes what was handed out to positions of the source, given the
    bytes that were produced. Reads take the next bytes in order, those larger
    than the buffer may take theirs from further on."""

    def __init__(self, stream):
        self.s = stream
        self.pos = 0
        self.taken = []  # regions used by large reads

    def skip(self):
        again = True
        while again:
            again = False
            for a, b in self.taken:
                if a <= self.pos < b:
                    self.pos = b
                    again = True

    def peek(self, n):
        save, out = self.pos, bytearray()
        while len(out) < n:
            self.skip()
            stop = min([a for a, b in self.taken if a > self.pos] + [self.pos + n - len(out)])
            if self.pos >= len(self.s):
                break
            out += self.s[self.pos:stop]
            self.pos = stop
        end, self.pos = self.pos, save
        return bytes(out[:n]), end

    def take(self, data):
        want, end = self.peek(len(data))
        if want == data:
            self.pos = end
            return None
        at = self.s.find(data)
        if len(data) > 1024:
            if at < 0:
                return 'large read of %d bytes is not a part of what the source produced' % len(data)
            if at < self.pos or any(a < at + len(data) and at < b for a, b in self.taken):
                return 'large read of %d bytes at %d hands out bytes again' % (len(data), at)
            self.taken.append((at, at + len(data)))
            return None
        if len(data) < 6:
            return 'read of %d bytes: got %s, next bytes of the source are %s (position %d)' % (
                len(data), data.hex(), want.hex(), self.pos)
        return 'read of %d bytes: expected position %d, got %s' % (
            len(data), self.pos, 'bytes from position %d' % at if at >= 0 else
            'bytes that were not produced in this order: %s, expected %s' % (data[:24].hex(), want[:24].hex()))


class Check(core.Base):
    pid = 'C06'
    rule = ('random sequences of raw reads, integers, bounded integers and booleans with sizes concentrated around what is '
            'left in the 1024 byte buffer; the bytes handed out are attributed to positions of a recorded source without '
            'repeated words; what the system source delivers, to one or several consumers, must not repeat itself. Non-trivial: distinct sequence with at least one reload.')
    quick = {'san': 6000, 'rel': 2000}
    thorough = {'san': 12000, 'clangsan': 6000, 'msan': 4000, 'rel': 20000}

    def case(self, rng, i, variant):
        if i % 20 == 7:
            return self.system_case(rng)
        ops, pos = [], 0
        kind = rng.randrange(4)
        for _ in range(rng.choice([3, 10, 40, 120])):
            left = 1024 - pos % 1024
            x = rng.random()
            if x < .3:
                n = rng.choice([left, left - 1, left + 1, left + 2, left - 2, left + 1023, left + 1024, left + 7])
                n = max(0, n)
                if n > 1024 and rng.random() < .5:
                    n = 1024
            elif x < .6:
                n = rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 63, 64, 65, 100, 255, 256, 511, 512, 513,
                                1000, 1022, 1023, 1024])
            elif x < .64 and kind:
                n = rng.choice([1025, 1026, 1500, 2047, 2048, 2049, 4096, 5000])
            elif x < .8:
                w = rng.choice([1, 2, 4, 8])
                ops.append('u%d' % w)
                pos += w
                continue
            elif x < .88:
                ops.append('t')
                pos += 1
                continue
            else:
                w = rng.choice([1, 2, 4, 8])
                m = rng.choice([1, 2, 3, 5, 6, 7, 10, 26, 62, 100, 127, 128, 129, 200, 255] +
                               [1 << rng.randrange(1, 8 * w), (1 << rng.randrange(1, 8 * w)) + 1, (1 << 8 * w) - 1])
                m = min(m, (1 << 8 * w) - 1)
                ops.append('m%d:%d' % (w, m))
                # what follows is read to find out how far this went
                ops.append('r%d' % rng.choice([8, 8, 9, 12, 16]))
                pos += w + 8
                continue
            ops.append('r%d' % n)
            if n <= 1024:
                pos += n
        seed = rng.getrandbits(60)
        case = dict(ops=ops, seed=seed, cmds=['rnd s:%d %s,p' % (seed, ','.join(ops))])
        return case

    def system_case(self, rng):
        # what the system's source returns is not known, but it does not repeat itself
        cmds = []
        for _ in range(rng.choice([1, 2, 3])):
            ops = ['r%d' % rng.choice([1, 2, 7, 8, 16, 64, 100, 1000, 1023, 1024, 1025, 1100, 1500, 2000, 3000, 4095, 4096, 4097, 6000,
                                       rng.randrange(1025, 9000)]) for _ in range(rng.choice([2, 5, 12]))]
            if rng.random() < .3:
                ops = ['r%d' % rng.choice([300, 700, 1020, 1025, 1500])] * rng.choice([10, 30])
            cmds.append('rnd %s %s' % (rng.choice(['d:' + hexs('system'), 'D:' + hexs('system'), 'd:' + hexs('file:/dev/urandom')]), ','.join(ops)))
        return dict(cmds=cmds, system=True)

    def judge_system(self, case, resp):
        seen = {}
        for c, lines in zip(case['cmds'], resp):
            for op, l in zip(c.split()[2].split(','), lines):
                if l[:2] != 'r ':
                    yield 'protocol', 'response %r to %s' % (lines[:3], c)
                    return
                data = core.unhex(l.split()[1])
                if len(data) != int(op[1:]):
                    yield 'length', '%s: %d bytes' % (c, len(data))
                for k in range(len(data) - 7):
                    w = data[k:k + 8]
                    if w in seen:
                        yield 'system', '%s: bytes %s of read %s at %d were handed out before, by %s' % (c, w.hex(), op, k, seen[w])
                        return
                    seen[w] = '%s at %d' % (op, k)

    def judge(self, case, resp, variant):
        if case.get('system'):
            yield from self.judge_system(case, resp)
            return
        lines = resp[0]
        end = [l for l in lines if l.startswith('p ')]
        if not end or lines[-1] != 'c 1':
            yield 'protocol', 'source closed %s' % lines[-1]
            return
        total = int(end[0].split()[1])
        case['total'] = total
        stream = crypto.splitmix_byte_stream(case['seed'], total)
        t = Tracker(stream)
        pending = None
        for op, l in zip(case['ops'], lines):
            v = l.split()
            err = None
            if op[0] == 'r':
                data = core.unhex(v[1])
                if len(data) != int(op[1:]):
                    err = 'length'
                elif pending is not None:
                    # find how many words the bounded integer before took
                    w, m, val = pending
                    pending = None
                    save = t.pos
                    mask = (1 << m.bit_length()) - 1
                    for k in range(1, 400):
                        word, e = t.peek(w)
                        t.pos = e
                        x = int.from_bytes(word, 'little')
                        nxt, e2 = t.peek(len(data))
                        if nxt == data:
                            t.pos = e2
                            break
                        if len(word) < w:
                            k = 400
                            break
                    else:
                        k = 400
                    if k >= 400:
                        t.pos = save
                        err = 'after a bounded integer of %d bytes, the following bytes %s are not found where they ' \
                              'should be' % (w, data.hex())
                    elif x & mask != val:
                        # derived from bytes that were handed out for it
                        err = 'bounded integer %d below %d is not derived from the word %x it consumed' % (val, m, x)
                else:
                    err = t.take(data)
            elif op[0] == 'u':
                err = t.take(int(v[1]).to_bytes(int(op[1]), 'little'))
            elif op == 't':
                b, t.pos = t.peek(1)
            elif op[0] == 'm':
                pending = (int(op[1]), int(op[3:]), int(v[1]))
                if pending[2] >= pending[1]:
                    yield 'bound', '%s gave %d' % (op, pending[2])
            if err:
                yield 'stream', 'operation %s in %s: %s' % (op, ','.join(case['ops'])[:300], err)
                return

    def nontrivial(self, case, resp):
        if case.get('system'):
            return tuple(case['cmds'])
        return tuple(case['ops']) if case.get('total', 0) > 1024 else None

    def observe(self, case, resp, stats):
        if case.get('system'):
            stats['sequences of reads of the system source'] = stats.get('sequences of reads of the system source', 0) + len(case['cmds'])
            return
        stats['bytes produced'] = stats.get('bytes produced', 0) + case.get('total', 0)
        stats['operations'] = stats.get('operations', 0) + len(case['ops'])
