import os, re
from vlib import core, cli, model as M
from . import c01

BUILTIN = {'apple1', 'apple2', 'uuid', 'edge', 'firefox'} | {'proquint%d' % n for n in (16, 32, 48, 64, 80, 96, 112, 128)}
NAMES = ['a', 'b', 'mine', 'apple1', 'uuid', 'firefox', 'proquint16', 'x-y_z', 'ünï', 'preset', 'wordlist', 'random', '#hash', 'x' * 60,
         'p.q', '1', '"', '[a]', '😀']
VALUES = ['[a-z]{8}', 'abc', '[a-zA-Z0-9]{18}', 'x:y', 'a b c', 'preset c d', '#notacomment', '(a|b){3}-[0-9]{2}', 'é€😀', '::', 'a\tb',
          '[ :]{4}', "'quoted'", '\\u{1f600}{2}', 'a{0}', 'w' * 300, '(x|y:z| )', 'c\rd', '1\x0b2\x0c3', 'q#r']
NOISE = ['', ' ', '\t', '# comment', '#preset a zzz', '  # preset b zzz', 'presets a zzz', 'PRESET a zzz', 'word list a zzz', 'unknown a zzz',
         'presetx:zzz', 'wordlist', 'preset', 'randomness xorshift:9', '; x', '[section]', 'preset=a', 'a = b', '\x01\x02', 'é']


class Check(cli.CliCheck):
    pid = 'C19'
    rule = ('random system and user configuration files with presets, wordlists and sources, comments and unknown lines, padded to '
            'sizes around those at which buffers grow, with and without a final newline, in place of the system one and at '
            'configuration directories and homes of all lengths; the listing and what is generated from each definition are '
            'compared with a model of what was defined last; files of random bytes and mutated lines must not crash it. '
            'Non-trivial: distinct configurations.')
    assumptions = ['the file at /etc/passgen.conf is replaced at the call that opens it', 'values neither begin nor end with blanks']
    quick = {'san': 3300, 'rel': 1200}
    thorough = {'san': 8000, 'rel': 3000, 'clangsan-x': 2000, 'msan-x': 1500}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c19')
        os.makedirs(self.dir)
        self.lists = {}
        for k in range(12):
            p = os.path.join(self.dir, 'list%d' % k + ['', '', '.txt', ':', ':a:b', ' c', 'c:d e', '#', 'ü', '\td', ';', '=x'][k])
            with open(p, 'w') as f:
                f.write('\n'.join('w%d%s' % (k, 'abcdefgh'[j]) for j in range(k % 5 + 1)))
            self.lists[p] = k

    def config(self, rng, presets, words, noise=True):
        """A file defining something, and what was defined, in order."""
        lines, randoms = [], []
        many = rng.choice([0, 1, 1, 2, 5, 20]) if rng.random() > .04 else rng.choice([255, 256, 257, 300, 1000, 3000])
        for j in range(many):
            x = rng.random()
            if x < .6 or many > 200:
                n, v = rng.choice(NAMES), rng.choice(VALUES)
                if many > 200:
                    n, v = 'n%x' % (j if rng.random() < .9 else rng.randrange(many)), 'v%d[ab]' % j
                if v.startswith(':'):
                    sep = ' '
                else:
                    sep = rng.choice([' ', ' ', ':', '\t', '   ', ' \t'])
                lines.append(rng.choice(['', '', ' ', '\t', '   ']) + 'preset' + rng.choice([' ', ' ', '  ', '\t']) + n + sep + v)
                presets[n] = v
            elif x < .9:
                n, p = rng.choice(['l', 'm', 'english', 'wörter', '#']), rng.choice(sorted(self.lists))
                lines.append(rng.choice(['', ' ']) + 'wordlist ' + n + rng.choice([' ', ':', '\t', '    ']) + p)
                words[n] = p
            else:
                s = 'xorshift:%d' % rng.randrange(1, 2 ** 60)
                lines.append('random ' + s)
                randoms.append(s)
            while noise and rng.random() < .4:
                lines.append(rng.choice(NOISE))
        if rng.random() < .15:
            lines.append(rng.choice(['wordlist gone /nonexistent/list', 'wordlist gone:' + self.dir + '/missing']))
        pad = rng.choice([None, None, None] + [10240 * 2 ** e + d for e in range(4) for d in (-2, -1, 0, 1)] + [300000])
        body = '\n'.join(lines).encode()
        if pad and len(body) + 10 < pad:
            fill = pad - len(body) - 1
            if rng.random() < .3:
                block = b'#' + b'c' * (fill - 1)
            elif rng.random() < .5 and fill < 11000:
                # (many lines take long under the sanitizers)
                block = b'\n' * fill
            else:
                line = b'#' + b' comment' * rng.choice([20, 100] if fill > 11000 else [1, 20]) + b'\n'
                block = (line * (fill // len(line) + 1))[:fill - 1] + b'\n'
                block = block.rstrip(b'\n').ljust(fill, b'#')
            k = rng.randrange(len(lines) + 1)
            parts = [l.encode() for l in lines]
            parts.insert(k, block)
            body = b'\n'.join(parts)
        if rng.random() < .7:
            body += b'\n' * rng.choice([1, 1, 3])
        return body, randoms

    def case(self, rng, i, variant):
        base = os.path.join(self.dir, 'c%d-%s' % (i, variant))
        case = dict(files=[], cmds=[], runs=[], base=base, nt=0)
        os.makedirs(base)
        presets, words, env = {}, {}, {}
        kind = rng.choice(['list', 'list', 'use', 'use', 'use', 'words', 'random', 'garbage', 'place'])
        user_first = []
        if kind == 'garbage':
            etc = self.garbage(rng)
            user = self.garbage(rng) if rng.random() < .5 else None
            randoms = None
        else:
            etc, randoms = (None, []) if rng.random() < .4 else self.config(rng, presets, words)
            user, r2 = (None, []) if etc is not None and rng.random() < .4 else self.config(rng, presets, words)
            randoms = randoms + r2
        if etc is not None:
            with open(base + '/etc', 'wb') as f:
                f.write(etc)
            env['PASSGEN_TEST_ETC'] = base + '/etc'
        if kind == 'place':
            # odd locations: nothing but the system's configuration is found
            presets, words = {}, {}
            if etc is not None:
                del env['PASSGEN_TEST_ETC']
            x = rng.randrange(6)
            n = rng.choice([0, 1, 100, 240, 250, 255, 256, 257, 1000, 4080, 4095, 4096, 5000, 100000])
            if x == 0:
                env['HOME'] = '/' + 'h' * n
            elif x == 1:
                env['XDG_CONFIG_PATH'] = '/' + 'x/' * (n // 2)
            elif x == 2:
                env['HOME'] = None
            elif x == 3:
                env['HOME'] = ''
            elif x == 4:
                os.makedirs(base + '/passgen.conf')
                env['XDG_CONFIG_PATH'] = base
            else:
                # long but existing
                d = base
                while len(d) < min(n, 3500):
                    d = os.path.join(d, 'd' * min(200, max(1, min(n, 3500) - len(d))))
                os.makedirs(d + '/.config')
                with open(d + '/.config/passgen.conf', 'w') as f:
                    f.write('preset placed [x]{7}')
                presets['placed'] = '[x]{7}'
                env['HOME'] = d
        elif user is not None:
            if rng.random() < .5:
                os.makedirs(base + '/.config')
                f = open(base + '/.config/passgen.conf', 'wb')
                env['HOME'] = base
            else:
                f = open(base + '/passgen.conf', 'wb')
                env['XDG_CONFIG_PATH'] = base
            f.write(user)
            f.close()
        args = []
        case.update(kind=kind, etc=etc, user=user, presets=presets, text='')
        if kind == 'garbage':
            case['runs'] = [cli.Run(['-a', '2', 'abc[d]'], env=env), cli.Run(['-l'], env=env)]
            return case
        src = 'xorshift:%d' % rng.randrange(1, 2 ** 60)
        n = rng.choice([1, 3])
        if kind == 'random':
            x = rng.random()
            if not randoms and x > .1:
                return self.drop(case)
            if x < .35:
                # the master passphrase has to decide alone
                w = [rng.choice(['', 'secret', 'example.com', 'me', 'a b', 'pässword', 'x' * 120]) for _ in range(3)]
                w[0] = w[0] or 'secret'
                args += ['-m', w[0]]
                for f, v in (('-d', w[1]), ('-t', w[2])):
                    if v or rng.random() < .3:
                        args += [f, v]
                if rng.random() < .2:
                    args += ['-r', src]
                else:
                    src = 'chacha20-argon2:%s:%s:%s' % tuple(w)
            elif x < .6:
                args += ['-r', src]
            else:
                src = randoms[-1]
            use = '[a-z]{20}'
            args += [use]
        else:
            args += ['-r', src]
            if rng.random() < .3:
                # the command line overrides both
                for _ in range(rng.choice([1, 2])):
                    nm, v = rng.choice(NAMES), rng.choice(VALUES)
                    args += ['-P', nm + ':' + v]
                    presets[nm] = v
            if kind in ('list', 'place'):
                case['runs'] = [cli.Run(args + ['-l'], env=env)]
                if 'placed' in presets:
                    case['runs'].append(cli.Run(['-r', src, '-p', 'placed'], env=env))
                elif kind == 'place':
                    case['runs'].append(cli.Run(['x{7}'], env=env))
                return case
            if kind == 'use':
                if not presets:
                    return self.drop(case)
                nm = rng.choice(sorted(presets))
                use = presets[nm]
                args += ['-p', nm]
            else:
                if rng.random() < .3:
                    nm, p = rng.choice(['l', 'english']), rng.choice(sorted(self.lists))
                    args += ['-w', nm + ':' + p]
                    words[nm] = p
                if not words:
                    return self.drop(case)
                us = [rng.choice(sorted(words)) for _ in range(3)]
                use = ' '.join(rng.choice(['\\w{%s}', '\\m{%s}']) % u for u in us)
                args += [use]
                case['cmds'] = ['envnew'] + ['wl %s %s 3' % (core.hexs(a), core.hexs(b)) for a, b in words.items()]
        case['text'] = use
        case['n'] = n
        case['cmds'].append('gen - 1024 d:%s %d %s' % (core.hexs(src), n, core.hexs(use)))
        case['runs'] = [cli.Run(['-a', str(n)] + args, env=env)]
        return case

    def drop(self, case):
        self.cleanup(case)
        return None

    def cleanup(self, case):
        import shutil
        if case['base'].startswith(self.dir + '/c'):
            shutil.rmtree(case['base'], ignore_errors=True)

    def garbage(self, rng):
        x = rng.randrange(4)
        if x == 0:
            return rng.randbytes(rng.choice([0, 1, 100, 5000, 20479, 20480, 100000]))
        body, _ = self.config(rng, {}, {})
        body = bytearray(body or b'preset a b')
        for _ in range(rng.choice([1, 5, 30])):
            k = rng.randrange(len(body))
            y = rng.randrange(4)
            if y == 0:
                body[k] = rng.choice(b'\0\n: \t#\xff')
            elif y == 1:
                body = body[:k + 1]
            elif y == 2:
                body[k:k] = rng.choice([b'preset', b'preset ', b'preset :', b'preset a', b'\npreset', b'\nwordlist ', b'\nwordlist :', b'\nrandom ',
                                        b'\nrandom', b'\nrandom x', b'\nrandom chacha20:' + b'k' * 40, b'\n', b'\0', b':', b'\nwordlist a:' + self.dir.encode(),
                                        b'\npreset ' + b'n' * 70000, b'\npreset x ' + b'v' * 70000, b'preset\t', b'preset\n'])
            else:
                j = rng.randrange(len(body))
                body[min(j, k):max(j, k) + 1] = b''
                if not body:
                    body = bytearray(b'x')
        if rng.random() < .3:
            body += rng.choice([b'preset', b'preset ', b'preset a', b'preset a ', b'preset a:', b'wordlist a', b'random', b'random '])
        return bytes(body)

    def judge(self, case, resp, variant):
        kind = case['kind']
        what = '%r with system configuration %r, user configuration %r' % (
            case['runs'][0], case['etc'] and case['etc'][:1500], case['user'] and case['user'][:1500])
        r = resp[-1] if kind not in ('list', 'place') else resp[0]
        if kind == 'garbage':
            a, b = resp
            if a.rc != 0 or not a.out.endswith(b'abcd\nabcd\n'):
                # a source of randomness may have been configured that fails
                if not (a.rc in (2, -6) or b'\nrandom' in (case['etc'] or b'') + (case['user'] or b'')):
                    yield 'garbage', '%s: %r' % (what, a)
            if b.rc != 0:
                yield 'garbage', '%s: %r' % (what, b)
            case['nt'] = 1
            return
        if kind in ('list', 'place'):
            if r.rc != 0:
                yield 'list', '%s: %r' % (what, r)
                return
            got = {}
            lines = r.out.decode('utf-8', 'replace').split('\n')
            for l in lines:
                m = re.match(r'preset (\S+) (.*)$', l, re.S)
                if not m:
                    # a message about something that is malformed
                    continue
                if m.group(1) in got:
                    yield 'list twice', '%s: %r is listed twice' % (what, m.group(1))
                    return
                got[m.group(1)] = m.group(2)
            want = dict(case['presets'])
            for n in BUILTIN:
                if n not in want:
                    want[n] = got.get(n, None)
            if got != want or None in want.values():
                yield 'list', '%s: lists %r instead of %r' % (
                    what, {a: b for a, b in got.items() if want.get(a) != b}, {a: b for a, b in want.items() if got.get(a) != b})
                return
            case['nt'] = len(got)
            if kind == 'place' and (resp[1].rc != 0 or resp[1].out != b'xxxxxxx\n'):
                yield 'place', '%r: %r' % (case['runs'][1], resp[1])
            return
        g = [l.split() for l in resp[-2]]
        if g[0][1] != '0' or any(x[1] != '0' for x in g[1:]):
            raise core.HarnessError('%s: %s' % (what, resp[-2]))
        want = b'\n'.join(''.join(map(chr, core.uncps(x[5]))).encode() for x in g[1:]) + b'\n'
        if r.rc != 0 or not r.out.endswith(want) or (r.out != want and not b'rror' in r.out[:-len(want)]):
            yield kind, '%s: %r, expected %r' % (what, r, want)
            return
        case['nt'] = 1

    def nontrivial(self, case, resp):
        return (case['kind'], case['etc'], case['user'], repr(case['runs'])) if case['nt'] else None

    def observe(self, case, resp, stats):
        d = stats.setdefault('cases', {})
        d[case['kind']] = d.get(case['kind'], 0) + 1
        stats['max_size'] = max(stats.get('max_size', 0), len(case['etc'] or b''), len(case['user'] or b''))
