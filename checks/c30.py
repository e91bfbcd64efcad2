from vlib import core


class Check(core.Base):
    pid = 'C30'
    rule = ('memory contexts are taken through random histories (functions set, replaced and unset one by one, states, requests of all kinds, '
            'functions that fail) with recording functions; a model says which function has to receive which request with which state and '
            'arguments, and what the caller gets. Contents of the memory are compared, sanitizers watch the fallbacks. Non-trivial: '
            'distinct histories.')
    assumptions = ['built with PASSGEN_MEMORY', 'a block is given back through the functions that it came from or compatible ones']
    quick = {'san': 2400, 'rel': 5000}
    thorough = {'san': 20000, 'rel': 40000, 'clangsan': 15000, 'msan': 10000}
    programs = {'drv': (['/verif/drv/api.c'], [])}
    PER = 8

    def history(self, rng, variant):
        ops, want = ['n'], ['o n']
        fn = dict(M=False, C=False, R=False, F=False)
        state, fail = -1, False
        live = {}

        def op(s, *lines):
            ops.append(s)
            want.append('o ' + s.split(':')[0])
            want.extend(lines)
        size = lambda: rng.choice([1, 1, 2, 7, 8, 16, 63, 64, 100, 4096, 70000, rng.randrange(1, 3000)])
        for _ in range(rng.randrange(5, 60)):
            k = rng.choice('MCRFMCRFSSxnmmmmmmccccccrrrrrrrfffff')
            if k in 'MCRF':
                on = rng.random() < .7
                fn[k] = on
                op(k if on else k + '0')
            elif k == 'S':
                state = rng.randrange(-1, 8)
                op('S:%d' % state)
            elif k == 'x':
                fail = rng.random() < .4
                op('x:%d' % fail)
            elif k == 'n':
                if rng.random() < .3:
                    fn = dict.fromkeys(fn, False)
                    state = -1
                    op('n')
            elif k in 'mc':
                free = [i for i in range(64) if i not in live]
                i = rng.choice(free)
                if k == 'm':
                    n = size()
                    ok = not (fn['M'] and fail)
                    op('m:%d:%d' % (i, n), *(['c m %d %d' % (state, n)] if fn['M'] else []), 'r %d' % ok)
                else:
                    a, b = rng.choice([(1, size()), (size(), 1), (rng.randrange(1, 100), rng.randrange(1, 100))])
                    ok = not (fn['C'] and fail)
                    if not variant.count('san') and rng.random() < .1:
                        # the product is too large
                        a, b = rng.choice([(2 ** 63, 2), (2 ** 32, 2 ** 32), (2 ** 63 + 1, 2), (2 ** 61 + 1, 8), (2, 2 ** 63 + 8), (2 ** 64 - 1, 2 ** 64 - 1)])
                        ok = False
                    op('c:%d:%d:%d' % (i, a, b), *(['c c %d %d %d' % (state, a, b)] if fn['C'] else []), 'r 1 1' if ok else 'r 0')
                if ok:
                    live[i] = True
            elif k == 'r':
                new = not live or rng.random() < .2
                i = rng.choice([i for i in range(64) if i not in live]) if new else rng.choice(sorted(live))
                n = size()
                ok = not (fn['R'] and fail)
                op('r:%d:%d' % (i, n), *(['c r %d %d %d' % (state, -1 if new else i, n)] if fn['R'] else []), 'r 1 1' if ok else 'r 0')
                if ok:
                    live[i] = True
            elif k == 'f':
                none = not live or rng.random() < .15
                i = rng.choice([i for i in range(64) if i not in live]) if none else rng.choice(sorted(live))
                op('f:%d' % i, *(['c f %d %d' % (state, -1 if none else i)] if fn['F'] else []))
                live.pop(i, None)
        return 'ctx ' + ' '.join(ops), want

    def case(self, rng, i, variant):
        h = [self.history(rng, variant) for _ in range(self.PER)]
        return dict(cmds=[x for x, _ in h], want=[w for _, w in h])

    def judge(self, case, resp, variant):
        for cmd, want, got in zip(case['cmds'], case['want'], resp):
            got = list(got)
            if got != want:
                at = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                yield 'request', '%s: line %d is %r, expected %r (after %r)' % (cmd[:1500], at, got[at:at + 3], want[at:at + 3], want[max(0, at - 3):at])

    def nontrivial(self, case, resp):
        return case['cmds']

    def observe(self, case, resp, stats):
        d = stats.setdefault('requests', {})
        for r in resp:
            for x in r:
                if x[:2] in ('c ', 'r '):
                    k = {'c m': 'own malloc', 'c c': 'own calloc', 'c r': 'own realloc', 'c f': 'own free'}.get(x[:3]) or \
                        ('refused' if x == 'r 0' else 'served')
                    d[k] = d.get(k, 0) + 1
