import math, os, re
from vlib import core, cli, build as B

AN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
HEXD = '0123456789abcdef'
CON, VOW = 'bdfghjklmnprstvz', 'aiou'
QUINT = [CON, VOW, CON, VOW, CON]


def shapes():
    out = {
        'apple1': ([AN] * 3 + ['-']) * 3 + [AN] * 3,
        'apple2': ([AN] * 6 + ['-']) * 2 + [AN] * 6,
        'firefox': [AN] * 15,
        'edge': ['ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef0123456789:_-'] * 15,
        'uuid': [HEXD] * 8 + ['-'] + [HEXD] * 4 + ['-'] + ['4'] + [HEXD] * 3 + ['-'] + ['89ab'] + [HEXD] * 3 + ['-'] + [HEXD] * 12,
    }
    for bits in range(16, 129, 16):
        out['proquint%d' % bits] = (QUINT + ['-']) * (bits // 16 - 1) + QUINT
    return out


SHAPES = shapes()
DOCUMENTED = ['firefox', 'edge', 'apple1', 'apple2', 'uuid', 'proquint64']


def bits(shape):
    return sum(math.log2(len(s)) for s in shape)


class Check(cli.CliCheck):
    pid = 'C25'
    rule = ('every built-in preset is used with all kinds of sources, amounts and separators, alone or with presets defined beside it; every '
            'output has to have its documented shape, the entropy shown has to be that of the shape, all positions together have to '
            'be distributed evenly and neighbouring ones independently (chi square over all runs), no output may repeat; the list '
            'has to name them. The presets of the configuration that comes with the project are used, too. Non-trivial: distinct runs.')
    assumptions = ['the example outputs and patterns in docs/usage.md, the README, the help text and the proquint specification '
                   'document the presets', 'significance levels of 1e-10']
    quick = {'san-x': 450, 'rel': 1800}
    thorough = {'san-x': 1000, 'rel': 10000, 'clangsan-x': 500}

    def prepare(self):
        """The configuration that comes with the project, with lists elsewhere."""
        self.home2, self.words, self.presets = os.path.join(self.scratch, 'shipped'), {}, []
        os.makedirs(self.home2)
        try:
            text = open(os.path.join(B.REPO, 'data/passgen.conf')).read()
        except FileNotFoundError:
            return
        lines = []
        for l in text.split('\n'):
            m = re.match(r'(wordlist\s+)([^\s:]+)([\s:]\s*)(/\S+)$', l)
            if m:
                p = os.path.join(self.home2, 'list-' + m.group(2))
                w = self.words[m.group(2)] = [m.group(2).replace('-', '') + ''.join(x) for x in
                                              ('a', 'bc', 'def', 'gh', 'ijk', 'lm', 'nop')]
                open(p, 'w').write('\n'.join(w) + '\n')
                l = m.group(1) + m.group(2) + m.group(3) + p
            m = re.match(r'preset\s+([^\s:]+)[\s:]', l)
            if m:
                self.presets.append(m.group(1))
            lines.append(l)
        open(os.path.join(self.home2, 'passgen.conf'), 'w').write('\n'.join(lines))

    def shipped(self, rng):
        env = {'XDG_CONFIG_PATH': self.home2}
        name = rng.choice(self.presets + ['-l', '\\w{%s}'])
        if name == '-l':
            return dict(cmds=[], runs=[cli.Run(['-l'], env=env)], kind='shipped', name=name)
        if name == '\\w{%s}':
            name = '\\w{%s}' % rng.choice(list(self.words) or ['eff-large'])
            return dict(cmds=[], runs=[cli.Run(['-a', '20', name], env=env)], kind='shipped', name=name)
        return dict(cmds=[], runs=[cli.Run(['-a', '20', '-p', name], env=env)], kind='shipped', name=name)

    def judge_shipped(self, case, r):
        name, run = case['name'], case['runs'][0]
        if r.rc != 0 or r.err:
            yield 'shipped', '%r with data/passgen.conf: %r' % (run, r)
            return
        outs = r.out.decode('utf-8', 'replace').split('\n')[:-1]
        if name == '-l':
            if not set(self.presets) <= set(re.findall(r'^preset (\S+) ', r.out.decode(), re.M)):
                yield 'shipped', '%r with data/passgen.conf does not list all of %r: %r' % (run, self.presets, r)
            return
        word = '(?:%s)' % '|'.join(self.words.get('eff-large', ['-']))
        for o in outs:
            if name in SHAPES:
                good = len(o) == len(SHAPES[name]) and all(c in s for c, s in zip(o, SHAPES[name]))
            elif name.startswith('\\w'):
                good = o in self.words[name[3:-1]]
            elif name == 'eff':
                # six words, as the EFF recommends
                good = re.fullmatch('%s(?:-%s){5}' % (word, word), o)
            elif name == 'proquint':
                good = re.fullmatch('(?:[%s][%s]){2}[%s](?:-(?:[%s][%s]){2}[%s])*' % ((CON, VOW, CON) * 2), o)
            else:
                good = True
            if not good:
                yield 'shipped', '%r with data/passgen.conf: %r does not have the shape of this preset' % (run, o)
                return
        if len(outs) != 20:
            yield 'shipped', '%r with data/passgen.conf: %r' % (run, r)

    def case(self, rng, i, variant):
        names = list(SHAPES)
        if i % 17 == 16 and self.presets:
            return self.shipped(rng)
        name = names[i % len(names)]
        if i % 29 == 28:
            extra = [('-P', 'mine%d:%s' % (k, rng.choice(['a', '[a-z]{3}']))) for k in range(rng.choice([0, 1, 20]))]
            args = [x for e in extra for x in e] + [rng.choice(['-l', '--list'])]
            return dict(cmds=[], runs=[cli.Run(args)], kind='list', extra=[e[1] for e in extra])
        n = rng.choice([1, 10, 300]) if variant != 'rel' else rng.choice([1, 300, 500])
        args = ['-a', str(n)]
        if rng.random() < .5:
            args += [rng.choice(['-p', '--preset']), name]
        else:
            args += ['--preset=' + name]
        src = rng.choice(['system', None, None, 'xorshift', 'chacha', 'master'])
        if src == 'system':
            args += ['-r', 'system']
        elif src == 'xorshift':
            args += ['-r', 'xorshift:%d' % rng.randrange(1, 2 ** 64)]
        elif src == 'chacha':
            args += ['-r', 'chacha20:%s:abcd' % ('%032x' % rng.getrandbits(128))]
        elif src == 'master':
            args += ['-m', 'p%d' % rng.getrandbits(60)]
        sep = '\n'
        if rng.random() < .2:
            args.append('-z')
            sep = '\0'
        ent = rng.random() < .3
        if ent:
            args.append('-e')
        for k in range(rng.choice([0, 0, 0, 1, 3, 12])):
            args += ['-P', '%s:[x]{3}' % rng.choice(['other', 'uuid2', 'apple', 'a%d' % k, 'proquint', 'proquint8'])]
        return dict(cmds=[], runs=[cli.Run(args)], kind='use', name=name, n=n, sep=sep, ent=ent)

    def judge(self, case, resp, variant):
        r = resp[0]
        if case['kind'] == 'shipped':
            yield from self.judge_shipped(case, r)
            return
        if case['kind'] == 'list':
            text = r.out.decode()
            listed = dict(re.findall(r'^preset (\S+) (.*)$', text, re.M))
            for n in DOCUMENTED:
                if n not in listed:
                    yield 'list', '%s is not listed: %r' % (n, r)
                    return
            for e in case['extra']:
                a, b = e.split(':')
                if a not in listed:
                    yield 'list', '%s is not listed: %r' % (a, r)
                    return
            if r.rc != 0:
                yield 'list', repr(r)
            return
        name, shape = case['name'], SHAPES[case['name']]
        if r.rc != 0:
            yield 'status', '%r: %r' % (case['runs'][0], r)
            return
        text = r.out.decode('utf-8', 'replace')
        outs = text[:-1].split(case['sep'])
        if not text.endswith('\n') or len(outs) != case['n']:
            yield 'shape', '%r: %d outputs: %r' % (case['runs'][0], len(outs), r)
            return
        case['outs'] = outs
        for o in outs:
            if len(o) != len(shape) or any(c not in s for c, s in zip(o, shape)):
                yield 'shape', '%s: %r does not have the shape of this preset' % (name, o)
                return
        if case['n'] > 1 and bits(shape) > 60 and len(set(outs)) != len(outs):
            yield 'repeat', '%s: the same output twice in %r' % (name, case['runs'][0])
        if case['ent']:
            shown = re.findall(r'entropy: ([\d.]+) bits', r.err.decode())
            if len(shown) != case['n'] or any(abs(float(s) - bits(shape)) > .0051 for s in shown):
                yield 'entropy', '%s: entropy shown as %s, %.4f expected' % (name, shown[:3], bits(shape))

    def observe(self, case, resp, stats):
        if case['kind'] != 'use':
            stats[case['kind']] = stats.get(case['kind'], 0) + 1
            return
        outs = case.get('outs', [])
        shape = SHAPES[case['name']]
        stats['outputs'] = stats.get('outputs', 0) + len(outs)
        pos = stats.setdefault('_' + case['name'], {})
        pair = stats.setdefault('=' + case['name'], {})
        live = [k for k, s in enumerate(shape) if len(s) > 1]
        for o in outs:
            if len(o) != len(shape):
                continue
            for k in live:
                key = (k, o[k])
                pos[key] = pos.get(key, 0) + 1
            for a, b in zip(live, live[1:]):
                # neighbours, by halves of their alphabets
                key = (a, shape[a].find(o[a]) * 2 >= len(shape[a]), shape[b].find(o[b]) * 2 >= len(shape[b]))
                pair[key] = pair.get(key, 0) + 1

    def finish(self, stats):
        smallest, n = 1.0, 0
        for name, shape in SHAPES.items():
            pos, pair = stats.pop('_' + name, {}), stats.pop('=' + name, {})
            live = [k for k, s in enumerate(shape) if len(s) > 1]
            for k in live:
                s = shape[k]
                obs = {c: v for (kk, c), v in pos.items() if kk == k}
                if sum(obs.values()) < 20 * len(s):
                    continue
                p = core.goodness(obs, {c: 1 / len(s) for c in s})
                smallest, n = min(p, smallest), n + 1
                if p < core.P_MIN:
                    yield 'uniform', '%s: characters at position %d are not evenly distributed (p = %.2g): %s' % (
                        name, k, p, dict(sorted(obs.items())))
            for a, b in zip(live, live[1:]):
                obs = {(x, y): v for (kk, x, y), v in pair.items() if kk == a}
                if sum(obs.values()) < 200:
                    continue
                fa = sum(1 for i in range(len(shape[a])) if i * 2 >= len(shape[a])) / len(shape[a])
                fb = sum(1 for i in range(len(shape[b])) if i * 2 >= len(shape[b])) / len(shape[b])
                p = core.goodness(obs, {(x, y): (fa if x else 1 - fa) * (fb if y else 1 - fb) for x in (False, True) for y in (False, True)})
                smallest, n = min(p, smallest), n + 1
                if p < core.P_MIN:
                    yield 'independent', '%s: positions %d and %d depend on each other (p = %.2g): %s' % (name, a, b, p, obs)
        stats['distribution tests'] = n
        stats['smallest p'] = smallest

    def nontrivial(self, case, resp):
        return [repr(case['runs'][0]), case.get('outs', [''])[0]]
