from vlib import core, model as M
from vlib.core import hexs


class Check(core.Base):
    pid = 'C26'
    rule = ('sets of independent operations (parsing, generating, wordlists, Markov chains, sources, key derivation, hashing, codec, '
            'tokenizer, containers, incremental parser) are each executed alone in a fresh process, then all of them in one process: '
            'in two orders with different content of unused memory, twice in a row, in the middle of each other from callbacks, and in '
            '2 to 8 threads with forced switches, sharing patterns and containers that are only read. Everything each operation '
            'returned has to be the same; ThreadSanitizer watches for races. Non-trivial: distinct sets.')
    assumptions = ['objects that get modified are not shared between threads', 'files are distinct as well']
    programs = {'drv': (['/verif/drv/par.c'], ['-lpthread'])}
    quick = {'tsan': 512, 'rel': 2000, 'san': 224, 'msan': 128}
    thorough = {'tsan': 1600, 'rel': 8000, 'san': 1000, 'clangrel': 3000, 'msan': 600, 'lto': 3000}
    # processes are expensive with sanitizers
    modes = {'tsan': 'order0,threads', 'san': 'order0,order1,nested', 'msan': 'order0,order1,nested,threads'}
    every = 'alone,order0,order1,twice,nested,threads'

    def source(self, rng):
        return rng.choice(['xorshift:%d' % rng.randrange(1, 1 << 40), 'custom:%d' % rng.getrandbits(40), 'zero',
                           'chacha20:%s:%s' % (rng.choice(['a', 'key%d' % rng.randrange(99), 'k' * 32]), rng.choice(['iv', '12345678', 'x'])),
                           'custom:%d' % rng.getrandbits(40)])

    def pattern(self, rng):
        k = rng.random()
        if k < .12:
            return bytes(rng.choice(b'ab(){}[]|?1,\\-u') for _ in range(rng.randrange(30)))
        if k < .2:
            return b'x' * rng.choice([250, 256, 300]) + rng.choice([b'(', b'\xff', b'[z-a]', b'', b'\\u{110000}'])
        g = M.Gen(rng, max_depth=rng.choice([2, 4]), budget=rng.choice([10, 30]), max_rep=6, nul=False).pattern()
        return M.render(g, rng).encode('utf-8', 'surrogatepass')

    def words(self, rng):
        n = rng.choice([1, 3, 20, 100])
        out = ''.join(''.join(rng.choice('abcdeäλ') for _ in range(rng.randrange(1, 9))) + '\n' for _ in range(n))
        return out.encode()

    def op(self, rng, shared, slow):
        k = rng.randrange(20)
        if k < 5:
            return 'gen/%s/%s/-/3/%d' % (hexs(self.pattern(rng)), hexs(self.source(rng)), rng.choice([1, 3, 10]))
        if k < 8:
            p = rng.choice(['\\w{w}', '\\m{w}', '(\\w{w}-){2}\\m{w}', '\\m{w}{3}[a-z]', '\\w{w}?\\m{w}|\\w{w}', '\\w{x}'])
            return 'gen/%s/%s/%s/%d/%d' % (hexs(p), hexs(self.source(rng).replace('zero', 'xorshift:5')), hexs(self.words(rng)), rng.choice([1, 2, 3, 5]), rng.choice([1, 4]))
        if k < 11:
            return 'shared/%d/%s/%d' % (rng.randrange(shared), hexs(self.source(rng)), rng.choice([1, 4, 10]))
        if k == 11:
            return 'rnd/%s/%s' % (hexs(self.source(rng)), ','.join(str(rng.choice([0, 1, 8, 100, 1000, 1024, 2000, 5000])) for _ in range(rng.choice([1, 4]))))
        if k == 12:
            lanes = rng.choice([1, 1, 2])
            return 'argon/%s/%s/%s/%d/%d/%d/%d' % (hexs('p%d' % rng.randrange(9) * rng.choice([1, 20])), hexs(rng.choice(['', 'd', 'domain'])),
                                                 hexs(rng.choice(['', 't'])), lanes * rng.choice([8, 8, 16, 19]), rng.choice([1, 2]), lanes, rng.choice([0, 1, 2]))
        if k < 15:
            return 'crypto/%d/%d' % (rng.randrange(1000), rng.choice([0, 1, 16, 63, 64, 65, 128, 200]))
        if k == 15:
            data = b''.join(rng.choice([b'a', 'ß'.encode(), '€'.encode(), '😀'.encode(), b'\\u{41}', b'\\n', b'(']) for _ in range(rng.randrange(150)))
            if rng.random() < .2:
                data += rng.choice([b'\xff', b'\xe2\x82'])
            return 'utf8/%s/%d' % (hexs(data), rng.choice([1, 3, 63, 64]))
        if k == 16:
            return 'hold/%d/%d' % (rng.randrange(10000), rng.choice([1, 10, 100, 400]))
        if k == 17:
            return 'chain/%d/%d/%d' % (rng.randrange(10000), rng.choice([1, 2, 3, 8]), rng.choice([1, 10, 60]))
        return 'feed/%s/%s' % (hexs(bytes(rng.choice(b'ab(|)[xy]c{2}?') for _ in range(rng.randrange(3, 20))) if rng.random() < .3 else
                                    rng.choice([b'(ab|c){2,4}[a-z]{3}', b'[a-z]{8}-x?', b'a|b|(c|d{2})\\u{41}\\n'])), hexs(self.source(rng)))

    def case(self, rng, i, variant):
        shared = []
        while len(shared) < rng.choice([1, 3]):
            p = self.pattern(rng)
            if p:
                shared.append(p)
        n = rng.choice([4, 8, 16, 24])
        # several of the same kind are the most likely to disturb each other
        kinds = [self.op(rng, len(shared), variant) for _ in range(n)]
        if rng.random() < .4:
            first = kinds[0].split('/')[0]
            for j in range(n):
                for _ in range(12):
                    if kinds[j].split('/')[0] == first:
                        break
                    kinds[j] = self.op(rng, len(shared), variant)
        return dict(cmds=['%d %d %s %s %s' % (rng.getrandbits(40), rng.choice([2, 4, 8]), self.modes.get(variant, self.every), ';'.join(hexs(s) for s in shared), ';'.join(kinds))],
                    kinds=kinds, text=';'.join(kinds))

    def crash(self, case, crash):
        if 'ThreadSanitizer' in crash.text or crash.kind == 'exit status 66':
            crash.kind = 'ThreadSanitizer'
        return [('crash ' + crash.kind, crash.summary())]

    def judge(self, case, resp, variant):
        rows = {}
        for l in resp[0]:
            t = l.split()
            rows[t[0]] = t[1:]
        ran = self.modes.get(variant, self.every).split(',')
        if any(m not in rows for m in ran if m != 'nested') or 'nested' in ran and 'inner' not in rows:
            raise core.HarnessError('response %r' % resp)
        what = {'alone': 'alone', 'order0': 'after other operations', 'order1': 'after other operations, in another order', 'twice': 'repeated',
                'outer': 'while others ran in its callbacks', 'inner': 'in a callback of another one', 'threads': 'while other threads ran others'}
        first = ran[0]
        for m in what:
            if m == first or m not in rows:
                continue
            for k, (a, b) in enumerate(zip(rows[first], rows[m])):
                if a != b and not (m == 'inner' and b == '-'):
                    yield m, '%s returns something else %s than %s' % (case['kinds'][k], what[m], what[first])
                    break

    def observe(self, case, resp, stats):
        for l in resp[0]:
            t = l.split()
            if t[0] == 'observed':
                for k, v in zip(('callbacks in threads', 'switches between threads seen', 'operations that overlapped'), t[1:]):
                    stats[k] = stats.get(k, 0) + int(v)
            elif t[0] == 'inner':
                stats['operations within callbacks'] = stats.get('operations within callbacks', 0) + sum(x != '-' for x in t[1:])
            elif t[0] == 'items':
                stats['values compared'] = stats.get('values compared', 0) + 6 * int(t[1])
        for k in case['kinds']:
            d = stats.setdefault('operations', {})
            d[k.split('/')[0]] = d.get(k.split('/')[0], 0) + 1

    def finish(self, stats):
        if not stats.get('switches between threads seen'):
            raise core.HarnessError('threads never ran at the same time')
        return ()
