import os, re, tempfile, shutil
from vlib import build as B, cli, core
from vlib.core import hexs

FACTOR = 16
LIN = 40          # for 16 times the input; linear gives 16, n log n less than 26
CONST = 4         # for what should not depend on the size

UNITS = [('ab', ''), ('a?', ''), ('(ab)', ''), ('a{3}', ''), ('[a-z]', ''), ('[abc]{2,3}', ''), ('ab', '|'), ('a{2}', '|'), ('a|b{3}', '|'),
         ('\\u{61}', ''), ('\\|', ''), ('(a|b)?', ''), ('\\w{n#}', ''), ('\\m{x}', ''), ('é', ''), ('((a|[xyz]){2})', '|'), ('', '|'), ('x', '|'),
         ('a\\u{1F600}', ''), ('()', ''), ('[]', ''), ('.#', ''), ('[^a]', ''), ('(', ''), ('x(', '|'), ('a|(b', '')]
SETS = ['ab', 'a-c', '\\u{61}', '\\]', '0-9x', 'é', '#']
# what the parts of a pattern to be generated from look like, and how much memory it takes
PARTS = ['a', 'é', '[a-z]', '[a-z0-9_]', 'x?', '(ab|c)', '(a|b){1,3}', '[ab]{2}', '(x[0-9]|y{2})?', '\\n', '"', '(a|b{2}|c{3})', '\\u{1F600}']


def wraps():
    text = open(os.path.join(B.VERIF, 'drv/cost.c')).read()
    return ['-Wl,--wrap=' + n for n in re.findall(r'^W\([^,]*, (\w+),', text, re.M)]


class Check(cli.CliCheck):
    pid = 'C32'
    rule = ('each operation is carried out for some size and for 16 times that; the edges of the control flow that are taken and the '
            'memory that is moved and held are counted, in the library, in the tool and in what they call. What should be proportional must not '
            'grow by more than %d times, what should not depend on the size by more than %d times. Non-trivial: distinct operations.' % (LIN, CONST))
    assumptions = ['sets with many items, groups with many branches are used once per output, both are searched item by item',
                   'keys are spread by the hash function (which is not the case for UTF-32 keys, see C17), and words use few distinct characters', 'time spent in the system is not considered']
    quick = {'cost': 3600}
    thorough = {'cost': 60000}
    programs = {'drv': (['/verif/drv/cost.c'], []), 'tool': (['/verif/drv/cost_tool.c', '/verif/drv/shim.c'], cli.WRAP)}
    cli = 'tool'

    def build(self):
        w = wraps()
        self.programs = {n: (s, f + w) for n, (s, f) in type(self).programs.items()}
        super().build()

    # family: (command for a size, how effort grows, how memory grows)
    def parse(self, rng):
        unit, sep = rng.choice(UNITS)
        pre, post = rng.choice([('', ''), ('', ''), ('x', 'y'), ('(', ')'), ('(', '){2}')])
        k = rng.random()
        if k < .2:
            unit, sep, pre, post = rng.choice(SETS), '', rng.choice(['[', '[', 'a[', '(a|b)[']), rng.choice([']', ']?', ']{2}'])
        elif k < .35:
            pre, unit, sep, post = rng.choice([('\\w{', 'n', '', '}'), ('\\m{', 'abc', '', '}'), ('a{', '0', '', '1}'), ('\\u{', '0', '', '61}'), ('\\p{', 'é', '', '}')])
            if rng.random() < .4:
                pre = rng.choice(['a', '(x|y)', '[abc]']) + pre
        form = rng.choice('ssswu')
        if rng.random() < .25:
            # something is wrong with it
            form = rng.choice('see')
            pre, post = rng.choice([(pre, post + rng.choice(['{', ')', '[', '(', '\\u{', '\\u{x}', 'a{x}', 'a{3,1}', '\\w'])),
                                    (rng.choice([')', '[z-a]', 'a{x}']) + pre, post)])
        n = rng.randrange(300, 1500)
        return lambda m: 'parse %s %d %s %s %s %s' % (form, m * n, hexs(pre), hexs(unit), hexs(sep), hexs(post)), LIN, LIN, LIN if unit.count('(') > unit.count(')') else CONST

    def gen(self, rng):
        seed = rng.randrange(1 << 20)
        form = rng.choice('ccceu8j')
        k = rng.random()
        if k < .35:
            # a long pattern, the output is long as well
            unit = ''.join(rng.choice(PARTS) for _ in range(rng.randrange(1, 4)))
            n = rng.randrange(300, 1500)
            return lambda m: 'gen %s 1 %d %d %d - %s - -' % (form, seed, m * n, 100 * m * n, hexs(unit)), LIN, CONST
        if k < .7:
            # something repeated often
            unit = rng.choice(PARTS[:-1] + ['[abcdef]', '(a[b-d](e|f){2})', 'z']).replace('?', '')
            if len(unit) > 1 and unit[0] not in '([\\' or rng.random() < .3:
                unit = '(' + unit + ')'
            n = rng.randrange(500, 5000)
            post = rng.choice(['', '', 'x', '[a-z]{3}'])
            return lambda m: 'gen %s 1 %d 0 %d %s - - -' % (form, seed, 30 * m * n, hexs('%s{%d}%s' % (unit, m * n, post))), LIN, CONST
        if k < .8:
            # many outputs
            unit = ''.join(rng.choice(PARTS) for _ in range(rng.randrange(1, 6)))
            n = rng.randrange(200, 1000)
            return lambda m: 'gen %s %d %d 1 2000 - %s - -' % (form, m * n, seed, hexs(unit)), LIN, CONST
        # many items in a set, many branches
        unit, sep, pre, post = rng.choice([('ab', '|', '', ''), ('a', '|', '(', ')'), ('x{2}|y', '|', '', '')] + [('\\u{%x}x' % rng.randrange(0x100, 0x5000), '', '[', ']')])
        n = rng.randrange(300, 1000)
        return lambda m: 'gen %s 40 %d %d 2000 %s %s %s %s' % (form, seed, m * n, hexs(pre), hexs(unit), hexs(sep), hexs(post)), LIN, CONST

    def deep(self, rng):
        # repetitions of repetitions
        seed = rng.randrange(1 << 20)
        form = rng.choice('ccceu8j')
        a, n = rng.randrange(1, 6), rng.randrange(300, 2000)
        inner = rng.choice(['a', '[a-z]', '(b|c)'])
        for _ in range(a):
            inner = '(%s%s)' % (inner, rng.choice(['', 'x', '|y', 'z?']))
        return lambda m: 'gen %s 1 %d 0 %d %s - - -' % (form, seed, 60 * m * n, hexs('%s{%d}' % (inner, m * n))), LIN, CONST

    def wordlist(self, rng):
        seed = rng.randrange(1 << 20)
        unit = rng.choice(['@', '@#', '#', 'wörd#', '@@', '@ @', 'x'])
        n, level = rng.randrange(500, 4000), rng.randrange(1, 6)
        text = '- %s %s %s' % (hexs(unit), hexs(rng.choice(['\n', '\n', '\n', '\r\n', '\n\n'])), hexs(rng.choice(['', '\n', 'end'])))
        form = rng.choice('rrmwwfcc')
        if form == 'r':
            return lambda m: 'list r - 1 %d %d %d %s' % (0, seed, m * n, text), LIN, LIN
        if form == 'm':
            text = '- %s %s -' % (hexs(rng.choice(['@', '@', '@@', '#', '#'])), hexs('\n'))
            return lambda m: 'list m - 1 %d %d %d %s' % (min(level, 4), seed, m * n, text), LIN, LIN
        if form == 'w':
            return lambda m: 'list w - 1000 %d %d %d %s' % (level, seed, m * n, text), CONST, CONST
        if form == 'f':
            # the first word includes reading the list
            return lambda m: 'list f %s 1 %d %d %d %s' % (hexs('\\w{list}'), level, seed, m * n, text), LIN, LIN
        return lambda m: 'list c %s 300 %d %d %d %s' % (hexs('\\w{list}'), level, seed, m * n, text), CONST, CONST

    def words(self, rng):
        # many words from a list
        seed, n, form = rng.randrange(1 << 20), rng.randrange(100, 1000), rng.choice('ce8uj')
        p = rng.choice(['\\w{list}', '(\\w{list}-)', '(\\w{list}|x)', '\\m{list}', '\\m{list}', '(\\m{list}|[ab])'])
        level = rng.randrange(1, 6)
        return lambda m: 'list %s %s 1 %d %d 1500 - 40 0a -' % (form, hexs('%s{%d}' % (p, m * n)), level, seed), LIN, CONST

    def long(self, rng):
        # a single long word
        seed, n, form = rng.randrange(1 << 20), rng.randrange(300, 3000), rng.choice('rcc8f')
        unit = rng.choice(['a', 'é', '\u20ac', 'ab'])
        p = '-' if form == 'r' else hexs('\\w{list}')
        return lambda m: 'list %s %s %d %d %d %d - %s - -' % (form, p, 3, 0 if form == 'r' else 2, seed, m * n, hexs(unit)), LIN, LIN if form in 'rf' else CONST

    def map(self, rng):
        what = rng.choice('iiillaarrocxx')
        n = rng.randrange(200, 3000)
        extra = {'l': 1000, 'a': 1000, 'c': 1000}.get(what, 1)
        kind = CONST if what in 'lac' else LIN
        return lambda m: 'map %s %d %d 0' % (what, n * m, extra), 80 if kind == LIN else 6, {'i': 200, 'o': CONST, 'r': CONST, 'x': 8}.get(what, CONST)

    def stack(self, rng):
        what = rng.choice('ppnegtfaa')
        n, size = rng.randrange(200, 5000), rng.choice([1, 4, 8, 24, 100, 160])
        if what == 'a':
            # right where it grows or shrinks
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 95, 96, 127, 128, 255, 256])
            return lambda m: 'stack a %d %d %d' % (n, 500 * m, size), LIN, CONST
        if what in 'gt':
            return lambda m: 'stack %s %d 1000 %d' % (what, n * m, size), CONST, CONST
        return lambda m: 'stack %s %d 1 %d' % (what, n * m, size), LIN, LIN

    def array(self, rng):
        what = rng.choice('ppegaa')
        n, cap = rng.randrange(200, 5000), rng.choice([0, 0, 1, 2, 3, 100])
        if what == 'a':
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 64, 1024, 4096, 4095])
            return lambda m: 'array a %d %d %d' % (n, 500 * m, cap), LIN, CONST
        if what == 'g':
            return lambda m: 'array g %d 1000 %d' % (n * m, cap), CONST, CONST
        return lambda m: 'array %s %d 1 %d' % (what, n * m, cap), LIN, LIN

    def codec(self, rng):
        what = rng.choice('dde1ts')
        n, space = rng.randrange(500, 5000), rng.choice([0, 0, 1, 7, 128])
        unit = rng.choice(['a', 'é', 'a\u20ac', '\U0001f600', 'aé#', '\\u{e9}x', '\\n'])
        return lambda m: 'codec %s %d %d - %s - -' % (what, n * m, space, hexs(unit)), LIN, CONST

    def rnd(self, rng):
        seed = rng.randrange(1 << 20)
        desc = rng.choice(['xorshift:%d' % (seed + 1), 'zero', 'chacha20:' + '%032x:abc' % rng.getrandbits(128), 'file:/dev/zero', 'system'])
        what = rng.choice('rb8ml?')
        n = rng.randrange(2000, 20000)
        if rng.random() < .15:
            return lambda m: 'rnd %s s %d %d' % (hexs('chacha20:' + '%032x:abc' % 5), n * m, seed), CONST, CONST
        return lambda m: 'rnd %s %s %d %d' % (hexs(desc), what, n * m, seed), LIN, CONST

    def chain(self, rng):
        what = rng.choice('aag')
        n, level, letters, seed = rng.randrange(500, 3000), rng.randrange(1, 6), rng.choice([2, 4, 8, 12]), rng.randrange(1 << 30)
        if what == 'a':
            return lambda m: 'chain a %d %d %d %d' % (n * m, level, letters, seed), LIN, LIN
        return lambda m: 'chain g %d %d %d %d' % (n * m, min(level, 3), min(letters, 4), seed), CONST, CONST

    def tool(self, rng):
        seed = rng.randrange(1 << 20) + 1
        base = ['-r', 'xorshift:%d' % seed]
        k = rng.random()
        n = rng.randrange(300, 2000)
        out = rng.choice([[], [], ['-j'], ['-z'], ['-e'], ['-e', '-j']])
        env = {}
        if k < .5:
            base += rng.choice([['-p', 'apple2'], ['-p', 'uuid'], ['[a-z]{8}'], ['(ab|c){2,5}'], ['x'], ['-w', 'list:@list', '\\w{list}-\\m{list}'],
                                ['-p', 'proquint128'], ['é"\\u{7}']])
            if rng.random() < .2:
                base[1] = 'chacha20:%032x:x' % seed
            return lambda m: (base + out + ['-a', str(n * m)], None), LIN, CONST
        if k < .6:
            unit = rng.choice(['[a-z]', 'a', '(ab|c)', 'é', '"'])
            return lambda m: (base + out + ['%s{%d}' % (unit, n * m)], None), LIN, LIN
        if k < .75:
            # long configuration
            name = rng.choice(['preset n# [a-z]{8}\n', 'preset n#:abc\n', '# comment #\n', '\n', 'unknown #\n', ' \t preset  n#   ab\n', 'random xorshift:7\n', 'preset same a\n', 'wordlist w@ @list\n'])
            if name.startswith(('random', 'wordlist')):
                n = 40
            act = rng.choice([['-l'], ['abc'], ['-p', 'uuid']])
            return lambda m: (base[:0 if 'random' in name else 2] + act, ''.join(name.replace('#', str(i)) for i in range(n * m))), 80, 200
        if k < .85:
            return lambda m: (base + ['-P', 'long:' + 'ab' * (n * m // 4), '-p', 'long'], None), LIN, LIN
        n = rng.randrange(50, 100)
        return lambda m: (base + [x for i in range(n * m) for x in ('-P', 'n%d:[ab]' % i)] + ['-p', 'n7'], None), 80, 200

    FAMILIES = ['parse'] * 5 + ['gen'] * 6 + ['deep', 'wordlist', 'wordlist', 'wordlist', 'words', 'words', 'long', 'map', 'map', 'stack', 'stack',
                'array', 'codec', 'codec', 'rnd', 'chain', 'tool', 'tool', 'tool', 'tool']

    def case(self, rng, i, variant):
        name = rng.choice(self.FAMILIES)
        make, effort, memory, *stack = getattr(self, name)(rng)
        case = dict(cmds=[], runs=[], name=name, effort=effort, memory=memory, stack=stack[0] if stack else CONST)
        if name == 'tool':
            case['make'] = make
            case['runs'] = [cli.Run(make(m)[0], timeout=100) for m in (1, FACTOR)]
            case['configs'] = [make(m)[1] for m in (1, FACTOR)]
        else:
            case['cmds'] = [make(1), make(FACTOR)]
        case['text'] = str(case['cmds'] or case['runs'])[:1500]
        return case

    def execute(self, cases, variant):
        out = super().execute([c for c in cases if c['cmds']], variant)
        for case in cases:
            if case['cmds'] or core._stop.is_set():
                continue
            resp, crash = [], None
            for run, config in zip(case['runs'], case['configs']):
                home = tempfile.mkdtemp(dir=self.scratch)
                os.mkdir(home + '/.config')
                with open(home + '/list', 'w') as f:
                    f.write('correct\nhorse\nbattery\nstaple\n' * 50)
                if config is not None:
                    with open(home + '/.config/passgen.conf', 'w') as f:
                        f.write(config.replace('@list', home + '/list'))
                run.args = [a.replace(b'@list', (home + '/list').encode()) for a in run.args]
                r = cli.call(self.exes[variant]['tool'], run, home)
                shutil.rmtree(home)
                if r.rc == 'timeout':
                    crash = core.Crash('hang', 'no result after %d s' % run.timeout, repr(run)[:300])
                    break
                resp.append(r)
            out.append((case, resp, crash))
        return out

    def measured(self, x):
        """Effort and memory, None if it does not work at all."""
        if isinstance(x, cli.Result):
            m = re.search(rb'\[cost (\d+) (\d+) (\d+)\]', x.err)
            if not m or x.rc != 0:
                return None
            return int(m.group(1)), int(m.group(2)), int(m.group(3))
        t = x[-1].split() if x else ['']
        if t[0] != 'cost':
            return None
        return int(t[1]), int(t[2]), int(t[3])

    def crash(self, case, crash):
        if 'COST: limit exceeded' in crash.text:
            return [('effort ' + case['name'], 'the effort exceeds any reasonable amount: %s' % str(crash.cmd)[:300])]
        if crash.kind == 'hang':
            return [('effort ' + case['name'], '%s: %s' % (crash.text, str(crash.cmd)[:300]))]
        # not a matter of this property
        return []

    def judge(self, case, resp, variant):
        if len(resp) != 2:
            return
        small, large = map(self.measured, resp)
        if not small or not large:
            return
        what = (repr(case['runs'][1]) if case['runs'] else case['cmds'][1])[:300]
        if large[0] > case['effort'] * small[0] + 4000:
            yield ('effort ' + case['name'], 'takes %d steps, but %d steps for 16 times the size: %s' % (small[0], large[0], what))
        if case['memory'] == CONST:
            if large[1] > 1.5 * small[1] + 16384:
                yield ('memory ' + case['name'], 'takes %d bytes, but %d bytes for 16 times the size: %s' % (small[1], large[1], what))
        elif large[1] > case['memory'] * small[1] + 16384:
            yield ('memory ' + case['name'], 'takes %d bytes, but %d bytes for 16 times the size: %s' % (small[1], large[1], what))

        # only depends on how deeply things are nested
        if large[2] > (1.5 if case['stack'] == CONST else LIN) * small[2] + 4096:
            yield ('stack ' + case['name'], 'takes %d bytes of the stack, but %d for 16 times the size: %s' % (small[2], large[2], what))

    def nontrivial(self, case, resp):
        if len(resp) != 2 or not all(map(self.measured, resp)):
            return None
        return tuple(case['cmds']) or repr(case['runs'])

    def observe(self, case, resp, stats):
        m = [self.measured(x) for x in resp]
        f = stats.setdefault('cases', {})
        if len(m) != 2 or not all(m):
            f[case['name'] + ' without result'] = f.get(case['name'] + ' without result', 0) + 1
            return
        f[case['name']] = f.get(case['name'], 0) + 1
        stats['steps counted'] = stats.get('steps counted', 0) + m[0][0] + m[1][0]
        kind = 'constant' if case['effort'] == CONST else 'proportional'
        k = 'max_ratio of steps, %s %s' % (case['name'], kind)
        stats[k] = max(stats.get(k, 0), round(m[1][0] / max(1, m[0][0]), 2))
        k = 'max_bytes held, %s' % case['name']
        stats[k] = max(stats.get(k, 0), m[1][1])
        k = 'max_bytes of the stack, %s' % case['name']
        stats[k] = max(stats.get(k, 0), m[1][2])
