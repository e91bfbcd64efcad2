import os, re, shutil, subprocess, tempfile
from vlib import build as B, cli, core
from vlib.core import hexs
from . import c01, c16, c17

FAR = 1 << 16         # accesses below that stop the process
NEVER = 10 ** 15
VISIBLE = re.compile(r'NOSRC\b|[PSTW] -?[1-9]')
ENV = dict(core.SAN_ENV)
ENV['ASAN_OPTIONS'] = ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0').replace('handle_abort=1', 'handle_abort=0')
PATTERNS = ['[a-z]{8}', 'abc[d-f]', '(ab|cd|e{1,3}){4}', '\\u{1F600}[x-z]{3}', '([a-z]{3}-?){20}', 'a|b|c|d|[0-9]', '[a-z]{300}', 'x' * 500,
            '((((([0-9]{2})|a){2})|b?){3}){2}', '[a-f]b' * 60, '(a|b)' * 40, '"\\n\\\\[\\u{20}-\\u{7e}]{40}', '', '[' + 'a-bx' * 40 + ']{9}']


class Check(cli.CliCheck):
    pid = 'C33'
    rule = ('sequences of library calls and runs of the tool are carried out once undisturbed and then with requests for memory failing: '
            'any one, some in a row, and all from some point on (including each of the first and last ones); with configuration files, lists and '
            'sources that cannot be opened or break off at some offset; and with setting up the sandbox failing. Results must be those of the '
            'undisturbed execution up to a reported failure or the end of the process, which a monitor tells from stray accesses; containers '
            'keep their contents across insertions that failed. Non-trivial: distinct faults that had an effect.')
    assumptions = ['addresses below 64 KiB are not mapped, so that accessing them ends the process',
                   'stacks are the only containers that report failure, the others stop the process',
                   'a message on standard error counts as a report, even if the tool carries on']
    quick = {'asan': 640, 'rel': 640, 'debug': 1280, 'lto': 640}
    thorough = {'asan': 8000, 'rel': 8000, 'debug': 16000, 'lto': 8000, 'clangrel': 4000}
    shards = 32

    def build(self):
        shim = [B.VERIF + '/drv/shim.c', B.VERIF + '/drv/fault.c']
        drv = ([B.VERIF + '/drv/oom.c'], ['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc'])
        for v in self.variants():
            progs = {}
            if v in ('asan', 'rel', 'clangrel'):
                progs['drv'] = drv
            if v != 'asan':
                progs['tool'] = (shim, cli.WRAP)
            if v in cli.SANDBOXED:
                progs['deny'] = ([B.VERIF + '/drv/deny.c'], [])
            flags = ('-DPASSGEN_SECCOMP', '-lseccomp') if v in cli.SANDBOXED else ()
            self.exes[v] = B.build(self.scratch, v, progs, cli='tool' if v != 'asan' else None, cli_flags=flags)

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c33')
        os.makedirs(self.dir)
        self.lists = []
        for k, n in enumerate((1, 5, 300, 700, 5000, 20000)):
            p = os.path.join(self.dir, 'list%d' % k)
            with open(p, 'w') as f:
                f.write(''.join('%s%d\n' % ('abcdefgh'[j % 8] * (j % 5 + 1), j * 7919 % 1000) for j in range(n)))
            self.lists.append(p)
        self.data = os.path.join(self.dir, 'data')
        with open(self.data, 'wb') as f:
            f.write(self.rng(0, 'data').randbytes(200000))

    # ------------------------------------------------------------- library
    def library(self, rng, i, variant):
        x = rng.random()
        seed = rng.randrange(1 << 30)
        if x < .25:
            text = rng.choice(PATTERNS) if rng.random() < .3 else c01.rand_case(rng, '')['text']
            kind, cmd = 'pattern', 'gen %s 200 s:%d 2 %s' % (rng.choice('e-'), seed, hexs(text))
        elif x < .32:
            n = rng.choice([100, 300, 3000, 20000] + [140000] * (rng.random() < .5))
            text = rng.choice(['\\w{%s}' % ('n' * n), '\\m{%s}' % ('é' * n), '[' + 'ab-d' * min(n, 20000) + ']', '(a|b)' * min(n, 20000), '|'.join(['ab'] * min(n, 20000)), 'a' * n,
                               '(' * min(n, 90) + 'x' + ')' * min(n, 90), '[a-z]' * min(n, 20000)] + ['\\w{%s}' % ('n' * n)] * (n == 140000) * 8)
            kind, cmd = 'large pattern', 'gen - 200 s:%d 1 %s' % (seed, hexs(text))
        elif x < .4:
            d = rng.choice(['xorshift:%d' % (seed + 1), 'zero', 'system', 'chacha20:key%d' % seed, 'chacha20-argon2:p%x:d:t' % seed, 'chacha20-argon2:p',
                            'file:' + self.data])
            ops = 'r10,r2000,u8' if d != 'system' else 'R10,R2000'
            kind, cmd = 'source', 'rnd %s:%s %s' % (rng.choice('dD'), hexs(d), ops)
        elif x < .44:
            blocks = rng.choice([8, 100, 4000])
            kind, cmd = 'derivation', 'rnd a:%x:%s:~:%d,%d,1,1 r40' % (seed + (1 << 31), rng.choice(['~', '6161']), rng.randrange(3), blocks)
        elif x < .62:
            kind = 'stack'
            return dict(kind=kind, cmd=None, size=(s := rng.choice([1, 3, 4, 8, 24, 255, 1000])), ops=(o := self.stack_ops(rng)),
                        base='stk %d %s' % (s, ','.join(o)))
        elif x < .76:
            c = (c16 if rng.random() < .5 else c17).Check('quick', '1')
            for k in range(50):
                j = rng.randrange(1000)
                if isinstance(c, c16.Check):
                    j = j // 4 * 4 + 3
                case = c.case(rng, j, 'san')
                if case and len(case['cmds'][0]) < 60000 and case['cmds'][0].startswith(('arr', 'hm')):
                    break
            else:
                return None
            kind, cmd = 'map or array', ' ;; '.join(case['cmds'][:3])
        elif x < .8:
            n = rng.choice([1000, 3000, 20000])
            kind = 'large container'
            cmd = rng.choice(['arr 0 ' + ','.join('p%d' % j for j in range(1, n)) + ',l,g0,g%d' % (n // 2),
                              'hm 8 ' + ','.join('i%s=%d' % (hexs('k%d' % j), j + 1) for j in range(n // 4))])
        elif x < .93:
            p = rng.choice(self.lists)
            level = rng.choice([1, 2, 3, 5])
            kind = 'wordlist'
            if rng.random() < .5:
                cmd = 'wload %s %d s:%d 20' % (hexs(p), level, seed)
            else:
                cmd = 'wl %s %s %d ;; gen - 200 s:%d 5 %s' % (hexs('w'), hexs(p), level, seed, hexs(rng.choice(['\\w{w}', '\\m{w}', '(\\w{w}|\\m{w}){3}'])))
        else:
            n, level = rng.choice([10, 100, 1500]), rng.randrange(1, 5)
            kind = 'chain'
            cmd = 'mk new %d ;; ' % level + ' ;; '.join(
                'mk add %d %s' % (rng.choice([1, 1, 3]), ','.join('%x' % rng.randrange(1, rng.choice([4, 40, 500])) for _ in range(level + 1)))
                for _ in range(n)) + ' ;; mk walk s:%d 5 10' % seed
        return dict(kind=kind, base=cmd)

    def stack_ops(self, rng):
        ops, n, v, place = [], 0, 0, rng.random() < .5
        for _ in range(rng.choice([1, 2, 4])):
            target = rng.choice([e for e in c16.EDGES if e < 300] + [600, 1100])
            while n != target:
                if n < target:
                    v += 1
                    ops.append(('N%d' if place else 'p%d') % v)
                    n += 1
                else:
                    ops.append('o')
                    n -= 1
                if rng.random() < .05:
                    ops.append(rng.choice(['t', 'l', 'g%d' % rng.randrange(n + 1), 'g0', 'i' if n < 40 else 'l']))
            ops.append(rng.choice('ilt'))
        return ops + ['i']

    def stack_model(self, case, lines):
        """What is printed by the stack, given which insertions fail; yields the
        first difference."""
        mask = (1 << (8 * min(case['size'], 4))) - 1
        model, at = [], 0
        for op in case['ops']:
            if op[0] in 'pN':
                v = int(op[1:])
                got = lines[at] if at < len(lines) else None
                if got == 'NULL':
                    case['rejected'] = case.get('rejected', 0) + 1
                    at += 1
                    continue
                model.append(v)
                exp = [str(v & mask)]
            elif op[0] == 'o':
                exp = [str(model.pop() & mask) if model else 'NULL']
            elif op[0] == 't':
                exp = [str(model[-1] & mask) if model else 'NULL']
            elif op[0] == 'l':
                exp = [str(len(model))]
            elif op[0] == 'g':
                p = int(op[1:])
                exp = [str(model[p] & mask) if p < len(model) else 'NULL']
            else:
                exp = ['i %d' % (x & mask) for x in model] + ['n %d' % len(model)]
            got = lines[at:at + len(exp)]
            if got != exp[:len(got)]:
                k = [a != b for a, b in zip(got, exp)].index(True)
                return at + k, got[k], exp[k]
            at += len(exp)
            if at > len(lines):
                return len(lines), None, exp[0]
        if at != len(lines):
            return at, lines[at], None

    def points(self, rng, n, count):
        """Which requests fail."""
        pts = [(k, l) for k in list(range(min(n, 6))) + list(range(max(6, n - 4), n)) for l in (1, 0)]
        rng.shuffle(pts)
        pts = pts[:count // 2]
        while len(pts) < count and n:
            k = rng.randrange(n) if rng.random() < .7 else min(n - 1, int(2 ** (rng.random() * 12)) - 1)
            pts.append((k, rng.choice([0, 1, 1, 1, 2, 5])))
        return sorted(set(pts))

    # ---------------------------------------------------------------- tool
    def tool(self, rng, i, variant):
        presets = [('n%d' % j, rng.choice(PATTERNS[:6])) for j in range(rng.choice([0, 2, 2, 5, 60]))]
        presets += [(rng.choice(['uuid', 'apple1', 'mine']), rng.choice(['U[a-c]{4}', 'V[0-9]', '(x|y){9}']))]
        words = [('w', rng.choice(self.lists[:4])) for _ in range(rng.choice([0, 1, 1, 2]))]
        lines = ['preset %s %s' % p for p in presets] + ['wordlist %s:%s' % (n, p) for n, p in words]
        random = rng.random() < .5
        if random:
            lines.append('random %s' % rng.choice(['xorshift:%d' % rng.randrange(1, 1 << 40), 'chacha20:abc%d' % i]))
        lines += ['# comment ' + 'c' * rng.choice([1, 20, 1000, 4000])] * rng.choice([0, 1, 10])
        rng.shuffle(lines)
        cut = rng.choice([0, 0, len(lines), rng.randrange(len(lines) + 1)])
        case = dict(etc='\n'.join(lines[:cut]) if cut else None, user='\n'.join(lines[cut:]) if cut < len(lines) else None, lists=[])
        args = []
        x = rng.random()
        if not random or rng.random() < .3:
            args.append(rng.choice([['-r', 'xorshift:%d' % rng.randrange(1, 1 << 40)], ['-r', 'chacha20:k%d' % i], ['-r', 'file:' + self.data],
                                    ['-m', 'pass%d' % i, '-d', 'dom', '-t', 'tok'], ['-m', 'p%d' % i]]))
            if args[-1][0] == '-m' and random:
                args.pop()
        if rng.random() < .5:
            args.append(['-a', str(rng.choice([2, 3, 20]))])
        for o in ('-j', '-e', '-z'):
            if rng.random() < .25:
                args.append([o])
        if x < .15:
            final = ['-l']
        elif x < .5:
            final = ['-p', rng.choice(presets)[0] if rng.random() < .8 else 'apple2']
        elif x < .6:
            args += [['-P', 'uuid:' + rng.choice(PATTERNS)]]
            final = ['-p', 'uuid']
        elif x < .75:
            p = rng.choice(self.lists)
            case['lists'].append(p)
            n = rng.choice('wq')
            args += [['-M', str(rng.choice([1, 2, 4])), '-w', '%s:%s' % (n, p)]]
            final = [rng.choice(['\\w{%s}', '\\m{%s}', 'a(\\m{%s}|\\w{%s}){3}']).replace('%s', n)]
        elif x < .8 and words:
            final = [rng.choice(['\\w{w}', '\\m{w}{3}'])]
        else:
            final = [rng.choice(PATTERNS)] if rng.random() < .5 else [c01.rand_case(rng, '')['text']]
        case['lists'] += [p for _, p in words]
        rng.shuffle(args)
        args = [y for x in args for y in x]
        if '\0' in ''.join(final):
            return None
        if final[0][:1] != '-' or final[0] in ('-p', '-l'):
            args += final
        else:
            args += ['--'] + final
        if '-e' in args and '-j' not in args:
            # (do not confuse them with messages)
            args.remove('-e')
        case.update(kind='tool', args=args, base=repr(args), usesdata='file:' in ' '.join(args))
        return case

    def sandbox(self, rng, i, variant):
        how = rng.choice(['memory'] * 6 + ['deny'])
        point = rng.choice(['early', 'early', 'options', 'options', 'open'])
        call = rng.choice(['41,2,1,0', '39', '41,1,2,0', '102', '57', '56,17,0,0,0,0'][:4])
        if how == 'deny':
            what = rng.choice(['s', 'sp', 'sp', 'spn', 'n', 'p'])
            return dict(kind='sandbox', base=what, how=how, inject='%s:%s' % (point, call), what=what, error=rng.choice([1, 1, 12, 22, 38, 14]))
        return dict(kind='sandbox', base=point, how=how, inject='%s:%s' % (point, call))

    def case(self, rng, i, variant):
        if variant == 'asan':
            case = self.library(rng, i, variant)
        elif variant in cli.SANDBOXED:
            if i == 0:
                case = dict(kind='huge', base='rnd a:61:~:~:2,%d,1,1 r8' % rng.choice([4194304, 4194304 + 8, 2 * 4194304, 4194304 + 64]))
            else:
                case = self.library(rng, i, variant) if i % 2 else self.sandbox(rng, i, variant)
        else:
            case = self.tool(rng, i, variant)
        if case is None:
            return None
        case.update(cmds=[case['base'][:3000]], runs=[], i=i, seed=rng.randrange(1 << 60))
        return case

    # ----------------------------------------------------------- execution
    def execute(self, cases, variant):
        out = []
        for case in cases:
            if core._stop.is_set():
                break
            rng = core.random.Random(case['seed'])
            if case['kind'] == 'tool':
                r = self.run_tool(case, variant, rng)
            elif case['kind'] == 'sandbox':
                r = self.run_sandbox(case, variant, rng)
            else:
                r = self.run_library(case, variant, rng)
            out.append((case, r, None))
        return out

    def drive(self, variant, lines):
        env = core.clean_env(**ENV)
        resp, crash = core.run_driver(self.exes[variant]['drv'], lines, self.scratch, 300, env)
        if crash is not None and crash.kind != 'stopped':
            raise core.HarnessError('driver: %s' % crash.summary())
        return resp

    def run_library(self, case, variant, rng):
        if case['kind'] == 'huge':
            resp = self.drive(variant, ['oom 10 %d 1 %s' % (NEVER, case['base'])])
            return [('huge', (NEVER, 1), resp[0] if resp else [])]
        ref = self.drive(variant, ['oom 60 %d 1 %s' % (NEVER, case['base'])])
        if not ref:
            return []
        used = [l for l in ref[0] if l.startswith('USED')]
        if not used:
            return [('reference', None, ref[0])]
        pts = self.points(rng, int(used[0].split()[1]), 60 if len(case['base']) < 20000 else 16)
        resp = self.drive(variant, ['oom 60 %d %d %s' % (k, l, case['base']) for k, l in pts])
        return [('reference', None, ref[0])] + [('fault', p, r) for p, r in zip(pts, resp)]

    def call(self, variant, args, home, env, timeout=20, before=()):
        e = dict(core.clean_env(HOME=home), **env)
        p = subprocess.Popen(list(before) + [self.exes[variant]['tool']] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, cwd=self.dir, start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            return cli.Result(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            return cli.Result('timeout', out, err)

    def run_tool(self, case, variant, rng):
        home = tempfile.mkdtemp(dir=self.scratch)
        env = {'FAULT_COUNT': '1'}
        files = list(case['lists'])
        if case['usesdata']:
            files.append(self.data)
        if case['etc'] is not None:
            env['PASSGEN_TEST_ETC'] = home + '/etc'
            files += [home + '/etc'] * 3
            with open(home + '/etc', 'w') as f:
                f.write(case['etc'])
        if case['user'] is not None:
            os.mkdir(home + '/.config')
            files += [home + '/.config/passgen.conf'] * 3
            with open(files[-1], 'w') as f:
                f.write(case['user'])
        args = [a.encode('utf-8', 'surrogateescape') for a in case['args']]
        ref = self.call(variant, args, home, dict(env, FAULT_MEM=str(NEVER)), 60)
        m = re.search(rb'\[requests (\w+) ', ref.err)
        res = [('reference', None, ref)]
        if m:
            for k, l in self.points(rng, int(m.group(1), 16), 40):
                spec = '%d%s' % (k, '+' if not l else ',%d' % l)
                res.append(('fault', 'memory ' + spec, self.call(variant, args, home, dict(env, FAULT_MEM=spec))))
            for _ in range(10 if files else 0):
                f = rng.choice(files)
                size = os.path.getsize(f)
                if rng.random() < .35:
                    spec = '%d:-1:%s' % (rng.choice([5, 12, 23, 24]), f)
                else:
                    spec = '%d:%d:%s' % (rng.choice([5, 5, 12]), rng.choice([0, 0, 1, size, max(0, size - 1), rng.randrange(size + 1)]), f)
                res.append(('fault', 'file ' + spec.replace(home, ''), self.call(variant, args, home, dict(env, FAULT_OPEN=spec))))
        shutil.rmtree(home)
        return res

    def run_sandbox(self, case, variant, rng):
        args = ['-r', 'zero', 'abc']
        env = {'PASSGEN_TEST_INJECT': case['inject']}
        ref = self.call(variant, args, self.dir, dict(env, FAULT_COUNT='1', FAULT_MEM=str(NEVER)))
        res = [('reference', None, ref)]
        if case['how'] == 'deny':
            before = [self.exes[variant]['deny'], str(case['error']), case['what']]
            res.append(('fault', 'deny %d %s' % (case['error'], case['what']), self.call(variant, args, self.dir, env, before=before)))
            res.append(('denied', 'deny %d %s' % (case['error'], case['what']), self.call(variant, args, self.dir, {}, before=before)))
            return res
        for k in range(20):
            # there are about 500 requests, which cannot be counted as the
            # process does not get to its end
            at = int(rng.random() ** 2 * 600)
            spec = '%d%s' % (at, rng.choice(['+', ',1', ',1', ',3']))
            # (setting it up may hang, which is not a matter of this project)
            res.append(('fault', 'memory ' + spec, self.call(variant, args, self.dir, dict(env, FAULT_MEM=spec), 4)))
        return res

    # --------------------------------------------------------------- judge
    def judge(self, case, resp, variant):
        case['effects'] = {}
        if not resp:
            return
        judge = {'tool': self.judge_tool, 'sandbox': self.judge_sandbox}.get(case['kind'], self.judge_library)
        ref = resp[0][2]
        for what, point, r in resp:
            if what == 'reference':
                continue
            effect = None
            for v in judge(case, what, point, ref, r):
                if isinstance(v, str):
                    effect = v
                else:
                    yield v
                    effect = 'violation'
                    break
            case['effects'][point] = effect

    def judge_library(self, case, what, point, ref, r):
        about = '%s, requests %s%s failing: ' % (case['base'][:300], point[0], '' if point[1] == 1 else ' and on' if not point[1] else '-%d' % (point[0] + point[1] - 1))
        def clean(lines):
            return [l for l in lines if l and not l.startswith(('CHILD', 'USED', 'STRAY'))]
        lines, base = clean(r), clean(ref)
        if what == 'huge':
            base = ['NOSRC']
        end = r[-1] if r else ''
        stray = [l for l in r if l.startswith('STRAY')]
        if stray and int(stray[0].split()[2], 16) >= FAR:
            yield 'stray access', about + 'accesses address %s' % stray[0].split()[2]
            return
        if end in ('CHILD signal 24', 'CHILD signal 9'):
            if what == 'huge':
                yield 'slow'
                return
            yield 'hang', about + 'does not come to an end'
            return
        stopped = stray or end in ('CHILD signal 6', 'CHILD signal 11', 'CHILD exit 1')
        if not stopped and end != 'CHILD exit 0':
            yield 'crash', about + 'ends with %s' % end
            return
        if what == 'huge':
            if not stopped and lines != base and not (len(lines) == 1 and lines[0].startswith('r ')):
                yield 'huge', about + 'results in %r' % lines[:3]
            yield 'reported'
            return
        if case['kind'] == 'stack':
            d = self.stack_model(case, lines)
            # when stopping, there is an end somewhere
            if d and not (stopped and d[0] >= len(lines) - 1):
                yield 'stack', about + 'result %d is %r instead of %r' % d
                return
            yield 'stopped' if stopped else 'reported' if 'NULL' in lines else 'no effect'
            return
        if stopped:
            k = len(lines)
            if lines != base[:k] and (lines[:-1] != base[:k - 1] or not (base[k - 1] if k <= len(base) else '').startswith(lines[-1])):
                if not any(VISIBLE.match(l) for l in lines):
                    yield 'wrong result', about + 'stops after %r, without: %r' % (lines[-3:], base[max(0, k - 3):k])
                    return
            yield 'stopped'
            return
        if lines == base:
            yield 'no effect'
            return
        for a, b in zip(lines + [None] * len(base), base + [None] * len(lines)):
            if a != b:
                if a is not None and VISIBLE.match(a):
                    yield 'reported'
                else:
                    yield 'wrong result', about + '%r instead of %r' % (str(a)[:200], str(b)[:200])
                return

    def judge_tool(self, case, what, point, ref, r):
        about = 'passgen %s, configuration %r %r, with %s failing: ' % (' '.join(map(repr, case['args']))[:600], (case['etc'] or '')[:200], (case['user'] or '')[:200], point)
        if r.rc == 'timeout':
            yield 'hang', about + 'does not come to an end'
            return
        m = re.search(rb'\[stray (\w+) ', r.err)
        if m and int(m.group(1), 16) >= FAR:
            yield 'stray access', about + 'accesses address %s' % m.group(1).decode()
            return
        def messages(x):
            return [l for l in x.err.split(b'\n') if l.strip() and not l.startswith((b'[requests', b'entropy:'))]
        if r.rc == 0:
            if ref.rc == 0 and r.out == ref.out:
                yield 'no effect'
            elif [l for l in messages(r) if l not in messages(ref)]:
                yield 'message'
            else:
                yield 'wrong output', about + '%r, undisturbed: %r' % (r, ref)
            return
        if not ref.out.startswith(r.out) and not messages(r)[1:]:
            yield 'wrong output', about + '%r, undisturbed: %r' % (r, ref)
            return
        yield 'same failure' if r.rc == ref.rc else 'stopped' if r.rc in (139, -6, -11) else 'status %s' % r.rc

    def judge_sandbox(self, case, what, point, ref, r):
        about = 'setting up the sandbox while %s: ' % point
        if b'survived' in ref.err:
            # not confined at all at this point, which is a matter of C20
            yield 'not confined'
            return
        if b'survived' in r.err:
            yield 'sandbox', about + 'carries on without: %r' % r
        elif what == 'denied' and r.rc != 0 and r.out:
            yield 'sandbox', about + 'generates: %r' % r
        else:
            yield 'confined' if r.rc == -31 else 'hang' if r.rc == 'timeout' else 'stopped'

    def nontrivial(self, case, resp):
        return [(case['kind'], case['base'], p) for p, e in case['effects'].items() if e not in ('no effect', None)]

    def observe(self, case, resp, stats):
        d = stats.setdefault('faults', {})
        for e in case['effects'].values():
            k = '%s: %s' % (case['kind'], e)
            d[k] = d.get(k, 0) + 1
        if case.get('rejected'):
            stats['insertions into stacks that failed'] = stats.get('insertions into stacks that failed', 0) + case['rejected']
