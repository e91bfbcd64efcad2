from vlib import core


def enc(kind, key):
    if kind == 32:
        return '.'.join('%x' % c for c in key) or '-'
    return key.hex() or '-'


def sig(key):
    """Which of the keys of 32 bit characters are hashed alike (a known finding)."""
    return (len(key), b''.join(c.to_bytes(4, 'little') for c in key)[:len(key)])


def rand_keys(rng, kind, n):
    out, sigs = set(), {}
    style = rng.randrange(4)
    tries = 0
    while len(out) < n and tries < 20 * n:
        tries += 1
        if kind == 32:
            k = tuple(rng.choice([rng.randrange(1, 256), rng.randrange(1, 0x110000), rng.randrange(1, 2 ** 32)])
                      for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 33])))
            s = sig(k)
            if k in out or sigs.get(s, 0) >= 2:
                continue
            sigs[s] = sigs.get(s, 0) + 1
        elif style == 0:
            k = b'key%d' % rng.randrange(4 * n + 4)
        elif style == 1:
            k = bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 40, 255, 256])))
        elif style == 2:
            k = b'a' * rng.randrange(2 * n + 2) if n < 400 else b'%x' % rng.getrandbits(64)
        else:
            k = bytes(rng.choice(b'ab') for _ in range(rng.randrange(0, 24)))
        out.add(k)
    out = sorted(out)
    rng.shuffle(out)
    return out


COLLIDING = [(97, 97), (97, 98), (97, 99)]


class Check(core.Base):
    pid = 'C17'
    rule = ('random histories of insertions, removals, lookups, changes through looked up entries and iterations over random and '
            'similar keys, growing to thousands of entries; all results are compared with a dictionary, keys that the map gives '
            'back are released so that any later use is caught. Non-trivial: distinct histories.')
    assumptions = ['keys stay valid while they are in the map']
    quick = {'san': 1200, 'rel': 200}
    thorough = {'san': 8000, 'msan': 1500, 'clangsan': 1500, 'rel': 2000}

    def case(self, rng, i, variant):
        if i == 0 and variant in ('san', 'rel'):
            ops = ['i%s=%d' % (enc(32, k), j + 1) for j, k in enumerate(COLLIDING)] + ['n']
            cmd = 'hm 32 ' + ','.join(ops)
            if variant == 'rel':
                return dict(kind='colliding', cmds=['fork 60 600 ' + cmd], exp=['i NULL 0'] * 3 + ['3'], n=0, size=3)
            return None
        kind = rng.choice([8, 8, 0, 32])
        big = rng.random()
        size = rng.choice([1, 2, 3, 5, 10]) if big < .4 else rng.choice([40, 100, 300]) if big < .9 else \
            rng.choice([1000, 3000] + ([20000] if self.tier == 'thorough' else []))
        if i % 200 == 150:
            # a map of very many entries, most of them inserted once
            return self.many(rng)
        keys = rand_keys(rng, kind, size)
        model, ops, exp, val = {}, [], [], 0
        phases = rng.choice([1, 2, 4])
        for ph in range(phases):
            pi = rng.choice([.2, .5, .8])
            pd = (1 - pi) * rng.choice([.1, .5, .8])
            for _ in range(rng.choice([3, len(keys), 2 * len(keys), 4 * len(keys)])):
                k = rng.choice(keys)
                e = enc(kind, k)
                x = rng.random()
                old = model.get(k)
                was = '%s %d' % (e, old) if old is not None else 'NULL 0'
                if x < pi:
                    val += 1
                    ops.append('i%s=%d' % (e, val))
                    exp.append('i ' + was)
                    model[k] = val
                elif x < pi + pd:
                    ops.append('d' + e)
                    exp.append('d ' + was)
                    model.pop(k, None)
                elif rng.random() < .9 or len(exp) > 30000:
                    ops.append('l' + e)
                    exp.append('l ' + was)
                elif rng.random() < .5:
                    val += 1
                    ops.append('s%s=%d' % (e, val))
                    if old is not None:
                        model[k] = val
                else:
                    self.look(rng, kind, model, ops, exp)
            self.look(rng, kind, model, ops, exp)
        for k in keys:
            ops.append('l' + enc(kind, k))
            exp.append('l %s %d' % (enc(kind, k), model[k]) if k in model else 'l NULL 0')
        return dict(kind='history', cmds=['hm %d %s' % (kind, ','.join(ops))], exp=exp, n=len(ops), size=len(keys))

    def many(self, rng):
        n = rng.choice([33000, 66000, 100000] + ([300000] if self.tier == 'thorough' else []))
        keys = [b'%x' % (j * 2654435761 % 2 ** 32) for j in range(n)]
        model, ops, exp = {}, [], []
        for j, k in enumerate(keys):
            ops.append('i%s=%d' % (enc(8, k), j + 1))
            exp.append('i NULL 0')
            model[k] = j + 1
            if rng.random() < .3:
                d = keys[rng.randrange(j + 1)]
                e = enc(8, d)
                op = rng.choice('dlll')
                ops.append(op + e)
                exp.append('%s %s' % (op, '%s %d' % (e, model[d]) if d in model else 'NULL 0'))
                if op == 'd':
                    model.pop(d, None)
            if j in (255, 256, 32767, 65535, 65536):
                self.look(rng, 8, model, ops, exp)
        self.look(rng, 8, model, ops, exp)
        rng.shuffle(keys)
        for k in keys:
            op = rng.choice('dl') if rng.random() < .5 else 'l'
            ops.append(op + enc(8, k))
            exp.append('%s %s %d' % (op, enc(8, k), model[k]) if k in model else op + ' NULL 0')
            if op == 'd':
                model.pop(k, None)
        self.look(rng, 8, model, ops, exp)
        return dict(kind='history', cmds=['hm 8 ' + ','.join(ops)], exp=exp, n=len(ops), size=n)

    def look(self, rng, kind, model, ops, exp):
        ops.append('n')
        exp.append(str(len(model)))
        stop = None if rng.random() < .6 else rng.choice([1, 2, len(model), len(model) + 1]) or 1
        ops.append('f' + (str(stop) if stop else ''))
        exp.append((stop, {enc(kind, k): v for k, v in model.items()}))

    def judge(self, case, resp, variant):
        r = [l for l in resp[0] if l and not l.startswith('CHILD exit 0')]
        if case['kind'] == 'colliding':
            if r != case['exp']:
                yield 'colliding: ' + case['cmds'][0], 'inserting %s: %s' % (COLLIDING, r[-3:])
            return
        j = 0
        r = r + ['END']
        for e in case['exp']:
            if isinstance(e, str):
                if r[j] != e:
                    yield 'result', '%s...: result %d is %r instead of %r' % (case['cmds'][0][:300], j, r[j][:200], e[:200])
                    return
                j += 1
                continue
            stop, model = e
            seen = {}
            while r[j].startswith('f '):
                f = r[j].split()
                if f[1] in seen or str(model.get(f[1])) != f[2]:
                    yield 'iteration', '%s...: iteration delivers %r, which is %s' % (
                        case['cmds'][0][:300], r[j][:200], 'repeated' if f[1] in seen else 'not the value %s' % model.get(f[1]))
                    return
                seen[f[1]] = 1
                j += 1
            n = len(model) if not stop or stop > len(model) else stop
            want = 'n %d %d' % (n, 42 if stop and stop <= len(model) else 0)
            if r[j] != want or len(seen) != n:
                yield 'iteration', '%s...: iterating over %d entries: %s, expected %s' % (case['cmds'][0][:300], len(model), r[j], want)
                return
            j += 1
        if r[j] != 'END':
            yield 'result', 'extra result %s' % r[j]

    def observe(self, case, resp, stats):
        stats['operations'] = stats.get('operations', 0) + case['n']
        stats['max_keys'] = max(stats.get('max_keys', 0), case['size'])
