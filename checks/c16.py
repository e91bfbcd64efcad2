from vlib import core

EDGES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 255, 256, 257, 258,
         511, 512, 513, 1023, 1024, 1025, 1026, 1056, 2049]


BIG = [32767, 32768, 32769, 65535, 65536, 65537, 65569, 70000, 131073]


class Check(core.Base):
    pid = 'C16'
    rule = ('random histories of operations, growing and shrinking around the lengths at which containers reallocate, on stacks of '
            'elements of 1 to 4096 bytes and on arrays; every result, the whole content at intervals and the addresses used are '
            'compared with a sequence. Non-trivial: distinct histories.')
    assumptions = ['arrays are only asked for positions that they have']
    quick = {'san': 6400}
    thorough = {'san': 12000, 'msan': 3000, 'clangsan': 3000, 'rel': 3000}

    def case(self, rng, i, variant):
        model, ops, exp = [], [], []
        arr = i % 4 == 3
        size = 8 if arr else rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 40, 64, 100, 255, 256, 1000, 4096])
        mask = (1 << (8 * min(size, 4))) - 1
        nid = [0]
        top = rng.choice([5, 40, 140, 140, 600] + ([2100] if rng.random() < .3 else []))
        many = i % 80 >= 78
        if many:
            top = rng.choice([33000, 66000, 140000])
            if not arr:
                size = rng.choice([1, 3, 4, 8, 16])
                mask = (1 << (8 * min(size, 4))) - 1
        edges = [e for e in EDGES if e <= top] + [e for e in BIG if e <= top] * (9 if many else 0)

        def new():
            nid[0] += 1
            return nid[0]

        def look():
            if arr:
                if model:
                    p = rng.choice([0, len(model) - 1, rng.randrange(len(model))])
                    ops.append('g%d' % p)
                    exp.append(str(model[p]))
                ops.append('l')
                exp.append(str(len(model)))
                return
            k = rng.randrange(6)
            if k == 0:
                ops.append('t')
                exp.append(str(model[-1] & mask) if model else 'NULL')
            elif k == 1:
                ops.append('l')
                exp.append(str(len(model)))
            elif k == 2 and len(exp) < 6000:
                ops.append('i')
                exp.extend('i %d' % (x & mask) for x in model)
                exp.append('n %d' % len(model))
            elif k == 3 and model:
                p, v = rng.randrange(len(model)), new()
                ops.append('w%d' % (p << 32 | v))
                model[p] = v
            else:
                p = rng.choice([0, len(model), len(model) + 1, 2 ** 40, max(0, len(model) - 1), rng.randrange(len(model) + 1), 31, 32, 64])
                ops.append('g%d' % p)
                exp.append(str(model[p] & mask) if p < len(model) else 'NULL')

        for _ in range(rng.choice([1, 3, 10, 25]) if not many else 3):
            target = rng.choice(edges)
            while len(model) != target:
                v = new()
                if len(model) < target:
                    if not arr and rng.random() < .25:
                        ops.append('n%d' % v)
                    else:
                        ops.append('p%d' % v)
                        if not arr:
                            exp.append(str(v & mask))
                    model.append(v)
                elif not arr and rng.random() < .25:
                    ops.append('O')
                    model.pop()
                else:
                    ops.append('o')
                    exp.append(str(model.pop() & (mask if not arr else ~0)))
                if rng.random() < (.1 if not many else .002):
                    look()
            for _ in range(rng.randrange(4)):
                look()
            if not model and rng.random() < .5:
                ops.append('o')
                exp.append('0' if arr else 'NULL')
        if not arr:
            ops.append('i')
            exp.extend('i %d' % (x & mask) for x in model)
            exp.append('n %d' % len(model))
        else:
            for p in range(len(model)):
                ops.append('g%d' % p)
                exp.append(str(model[p]))
        if not ops:
            return None
        cap = rng.choice([0, 0, 1, 2, 3, 4, 5, 100])
        return dict(kind='array' if arr else 'stack', exp=exp, ops=len(ops), top=top,
                    cmds=[('arr %d ' % cap if arr else 'stk %d ' % size) + ','.join(ops)])

    def judge(self, case, resp, variant):
        r = resp[0]
        if r != case['exp']:
            for j, (a, b) in enumerate(zip(r + [None] * len(case['exp']), case['exp'] + [None] * len(r))):
                if a != b:
                    yield case['kind'], '%s: result %d is %r instead of %r' % (case['cmds'][0][:200], j, a, b)
                    return

    def observe(self, case, resp, stats):
        d = stats.setdefault('operations', {})
        d[case['kind']] = d.get(case['kind'], 0) + case['ops']
        stats['results compared'] = stats.get('results compared', 0) + len(case['exp'])
        stats['max_elements'] = max(stats.get('max_elements', 0), case['top'])
