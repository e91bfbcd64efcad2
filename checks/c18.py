import math, os, pty, re, select, signal, subprocess
from vlib import core, cli, model as M
from . import c01, c04

PRESETS = {
    'apple1': '([a-zA-Z0-9]{3}-){3}[a-zA-Z0-9]{3}',
    'apple2': '([a-zA-Z0-9]{6}-){2}[a-zA-Z0-9]{6}',
    'firefox': '[a-zA-Z0-9]{15}',
}
BAD_AMOUNT = ['0', '-1', '-5', 'x', '', '1x', '3 4', '0x10', '4294967297', '18446744073709551617', '99999999999999999999999', '1e3', '--']
BAD_LENGTH = ['0', '-1', '256', '257', '511', '512', '1000', '65539', 'x', '', '3x', '4294967299', '99999999999999999999999']
BAD_RANDOM = ['nope', 'xorshift:', 'xorshift:x', 'xorshift:12x', 'file:/nonexistent/file', 'chacha20:', 'system2',
              'xorshift:99999999999999999999999']
BAD_OPTION = [['--nope'], ['-x'], ['-Z'], ['--amounts=3'], ['-q', '3']]


class Check(cli.CliCheck):
    pid = 'C18'
    rule = ('random combinations, orders and spellings of all options with random patterns, presets, wordlists and sources, with at '
            'most one mistake; what the tool prints (to pipes, files and terminals) is compared, byte for byte, with what the '
            'library generates from the same randomness, its status with the documented one, the entropies shown with those '
            'the library reports; with the system source all outputs are matched against the pattern. Non-trivial: distinct runs.')
    assumptions = ['the library itself is judged by the other checks', 'numbers with leading blanks or plus signs are not tried']
    quick = {'san': 3000, 'rel': 2000}
    thorough = {'san': 8000, 'rel': 6000, 'clangsan-x': 2000, 'msan-x': 1000}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c18')
        os.makedirs(self.dir)

    def cleanup(self, case):
        if case.get('out') and os.path.isfile(case['out']):
            case['outdata'] = open(case['out'], 'rb').read()
        for p in case['files']:
            try:
                os.unlink(p)
            except FileNotFoundError:
                pass

    def pattern(self, rng):
        """Returns text and syntax tree (or None)."""
        x = rng.random()
        if x < .25:
            t = rng.choice(['abc', '[a-z]{3,12}', '[a-zA-Z0-9]{20}', '(ab|cd|ef){2}x?', '', 'a|b|', '[äöü]{2,3}', '\\u{1f600}[x-z]', 'a b',
                            '\\n[a-c]\\t', '()', 'x{0}', '-[a-z]', '--', '-a', '#', 'a:b', "'", '"', '%s%n%d'])
        elif x < .32:
            t = rng.choice(['[a-z]{256}', '[a-z]{255}', '[a-z]{250,260}', '[ -~]{1000}', '[\\u{4e00}-\\u{4eff}]{85}', '[\\u{4e00}-\\u{4eff}]{86}',
                            '[a-z]{1000,3000}', '(é|€|😀){200,300}', '[ab]{%d}' % rng.randrange(960, 1030), '[a-z]{210,219}',
                            'a?' * rng.choice([1000, 1022, 1023, 1024]), '(x|y|){600,646}', '[a-b]{20000}', '[a-b]{70000}', '([a-z]{100} ?){50}'])
        else:
            c = c01.rand_case(rng, '')
            return c['text'], c['g']
        r = M.parse([ord(c) for c in t])
        if not r.ok:
            raise core.HarnessError('pattern %r' % t)
        return t, r.ast

    def case(self, rng, i, variant):
        case = dict(files=[], cmds=[], runs=[], kind='run')
        text, g = self.pattern(rng)
        if '\0' in text:
            return None
        opts, mistakes, setup = [], [], []
        n, sep, json, ent = 1, b'\n', False, False

        def arg(short, long, value):
            x = rng.random()
            if x < .4:
                return ['-' + short, value]
            if x < .6 and value:
                return ['-' + short + value]
            if x < .8:
                return ['--' + long, value]
            return ['--' + long + '=' + value]

        # flags
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.choice([1, 1, 2, 3, 5, 17, 100])
                opts.append(arg('a', 'amount', str(n)))
            if len(text) > 200 or re.search(r'\d{4}', text):
                n = min(n, 5)
                opts[-1] = ['-a', str(n)]
            elif rng.random() < .03 and len(text) < 20:
                n = rng.choice([255, 256, 257, 1000, 1023, 1024, 1025, 32768, 65535, 65536, 65537, 70000, 200000])
                opts.append(arg('a', 'amount', str(n)))
            case['n'] = n
        if rng.random() < .3:
            sep = b'\0'
            opts.append([rng.choice(['-z', '--null'])])
        if rng.random() < .4:
            ent = True
            opts.append([rng.choice(['-e', '--entropy'])])
        # randomness
        src, kind = None, rng.randrange(5)
        if kind == 0:
            pass
        elif kind <= 2:
            d = rng.choice(['xorshift:%d' % rng.randrange(1, 2 ** 64), 'zero' if rng.random() < .1 else 'xorshift:1',
                            'chacha20:' + rng.randbytes(32).hex()[:32] + ':' + 'abcdefgh'])
            if rng.random() < .2:
                opts.append(arg('r', 'random', 'xorshift:5'))
            opts.append(arg('r', 'random', d))
            src = 'd:' + core.hexs(d)
            if rng.random() < .1:
                opts.append(arg('m', 'master', 'ignored'))
        elif rng.random() < .12:
            p = [rng.choice(['', 'pass', 'x' * 200, 'pässwort']) for _ in range(3)]
            # of a repeated option, the last counts
            o = [arg('m', 'master', 'earlier')] if rng.random() < .3 else []
            o.append(arg('m', 'master', p[0]))
            a = ['a', core.hexs(p[0])]
            for s, l, v in (('d', 'domain', p[1]), ('t', 'token', p[2])):
                if rng.random() < .7:
                    if rng.random() < .15:
                        o.append(arg(s, l, 'earlier'))
                    o.append(arg(s, l, v))
                    a.append(core.hexs(v))
                else:
                    a.append('~')
            opts += o
            src = ':'.join(a)
        # what to generate
        use = text
        pos = [text]
        x = rng.random()
        if x < .15:
            name = rng.choice(list(PRESETS))
            use, g = PRESETS[name], None
            if rng.random() < .15:
                opts.append(arg('p', 'preset', rng.choice(['uuid', 'apple1', 'nope'])))
            opts.append(arg('p', 'preset', name))
            pos = []
        elif x < .3:
            name = rng.choice(['x', 'my', 'apple1', 'a b', 'ü', '', '-', 'p' * 50])
            if rng.random() < .3:
                opts.append(arg('P', 'define-preset', name + ':wrong'))
            if rng.random() < .3:
                opts.append(arg('P', 'define-preset', 'other:wrong'))
            opts.append(arg('P', 'define-preset', name + ':' + text))
            if rng.random() < .15:
                opts.append(arg('p', 'preset', rng.choice(['uuid', 'apple1', 'nope'])))
            opts.append(arg('p', 'preset', name))
            pos = []
        elif x < .45:
            setup, use, g = self.lists(rng, case, opts, arg, i, variant)
            pos = [use]
        ordered = x >= .3 and x < .45
        # at most one mistake
        status = 0
        if rng.random() < .3:
            m = rng.randrange(11)
            if m == 0:
                status, o = 5, arg('a', 'amount', rng.choice(BAD_AMOUNT))
            elif m == 1:
                status, o = 6, arg('M', 'markov-length', rng.choice(BAD_LENGTH))
            elif m == 2:
                status, o = 2, arg('r', 'random', rng.choice(BAD_RANDOM))
            elif m == 3:
                status, o = 7, rng.choice(BAD_OPTION)
            elif m == 4 and pos:
                status, o = 8, arg('p', 'preset', rng.choice(['nope', '', 'Apple1', 'apple', 'apple11']))
                pos = []
            elif m == 5:
                status, o = 1, []
                if not pos and rng.random() < .7:
                    # a preset and a pattern
                    pos = [rng.choice([text, 'x', ''])]
                else:
                    pos = (pos or [text]) + [text if not pos or rng.random() < .5 else 'x']
            elif m == 6:
                status, o = 10, arg('w', 'wordlist', rng.choice(['x:/nonexistent/list', 'nocolon', '', ':']))
            elif m == 7 and pos:
                bad = [b for b in ('(abc', '[a-', 'a{', 'a{2', 'x{3,2}', '\\', ')', '[z-a]', '\\u{110000}', '{3}', 'é(', 'a{99999999999999999999}')
                       if not M.parse([ord(c) for c in b]).ok]
                status, o, pos = 3, [], [rng.choice(bad)]
            elif m == 8 and pos:
                status, o, pos = 9, [], [rng.choice(['\\w{nope}', '\\m{nope}', 'a\\w{}', '(' * 1100 + 'a' + ')' * 1100, '\\p{nope}',
                                                   '[\\u{d800}-\\u{dbff}]'])]
            elif m == 9:
                status, o = 0, [rng.choice(['-h', '--help', '-v', '--version', '-l', '--list'])]
                case['kind'] = 'list' if 'l' in o[0][:3] else 'help'
            else:
                status, o = 7, None
            if o is None:
                tail = [rng.choice(['-a', '-r', '--amount', '-p'])]
                args = [y for x in opts for y in x] + tail
                case.update(status=7, runs=[cli.Run(args)], text=text)
                return case
            if o:
                opts.insert(rng.randrange(len(opts) + 1), o)
        elif not ordered:
            # keep the order of repeated options
            pass
        if rng.random() < .04 and status == 0 and case['kind'] == 'run' and pos:
            pos, case['kind'] = [], 'help'
            opts = [y for y in opts if not y[0].startswith(('-p', '--preset'))]
        json = rng.random() < .15
        if json:
            opts.insert(rng.randrange(len(opts) + 1), [rng.choice(['-j', '--json'])])
        args = [y for x in opts for y in x]
        dashes = any(p.startswith('-') for p in pos)
        if pos:
            if not dashes and rng.random() < .3 and len(pos) == 1:
                k = rng.choice([0, len(opts)])
                args = [y for x in opts[:k] for y in x] + pos + [y for x in opts[k:] for y in x]
            elif dashes or pos == [''] or rng.random() < .5:
                args += ['--'] + pos
            else:
                args += pos
        out = None
        if rng.random() < (.4 if case['kind'] == 'list' else .1):
            out = os.path.join(self.dir, 'out%d%s' % (i, variant)) if rng.random() < .7 or status else '/dev/full'
            if out != '/dev/full':
                case['files'].append(out)
        stdin = rng.choice([b'', b'', b'garbage\n' * 1000])
        case.update(status=status, text=use, g=g, n=n, sep=sep, ent=ent, json=json, src=src, out=out, setup=len(setup),
                    runs=[cli.Run(args, stdout=out, stdin=stdin)])
        if status == 0 and case['kind'] == 'run' and src:
            case['cmds'] = setup + ['gen e 1024 %s %d %s' % (src, n, core.hexs(use))]
        return case

    def lists(self, rng, case, opts, arg, i, variant):
        """Wordlists, in the order in which chain lengths apply."""
        setup, cur = ['envnew'], 3
        seq = []
        names = []
        for k in range(rng.choice([1, 1, 2, 3])):
            nm = rng.choice(['a', 'b', 'wörter', 'x y'])
            p = os.path.join(self.dir, 'l%d%s%d' % (i, variant, k) + rng.choice(['', '', '.txt', ':x', ' y', ':', 'ü=#']))
            with open(p, 'w') as f:
                f.write('\n'.join(rng.choice(['alpha', 'beta', 'gamma', 'zwölf', 'aab', 'abab', 'b' * 200, 'x']) for _ in range(rng.randrange(1, 30))))
            case['files'].append(p)
            if rng.random() < .5:
                cur = rng.choice([1, 2, 4, 17, 255])
                seq.append(arg('M', 'markov-length', str(cur)))
            seq.append(arg('w', 'wordlist', nm + ':' + p))
            setup.append('wl %s %s %d' % (core.hexs(nm), core.hexs(p), cur))
            names.append(nm)
        # merge with the other options, keeping the order of both
        merged, a, b = [], list(opts), list(seq)
        while a or b:
            merged.append((a if a and (not b or rng.random() < .5) else b).pop(0))
        opts[:] = merged
        text = '-'.join(rng.choice(['\\w{%s}', '\\m{%s}', '(\\w{%s}|\\m{%s})', '\\w{%s}?', '\\m{%s}{2}']).replace('%s', rng.choice(names))
                        for _ in range(rng.choice([1, 2, 3])))
        return setup, text, None

    def judge(self, case, resp, variant):
        run = case['runs'][0]
        r = resp[-1]
        out = r.out
        if case.get('out') and case['out'] != '/dev/full':
            r.out = out = case.get('outdata', b'')
        case['rc'] = r.rc
        if r.rc == 'timeout':
            yield 'hang', repr(run)
            return
        if case['kind'] == 'help':
            if r.rc != 0 or not (out + r.err).strip():
                yield 'help', '%r: %r' % (run, r)
            return
        if case['kind'] == 'list':
            if case.get('out') == '/dev/full':
                if r.rc == 0:
                    yield 'success', '%r > /dev/full: %r' % (run, r)
            elif r.rc != 0 or not {b'preset %s %s' % (k.encode(), v.encode()) for k, v in PRESETS.items() if k != 'apple1'} <= set(out.split(b'\n')):
                yield 'list', '%r: %r' % (run, r)
            return
        if case['status']:
            if r.rc == 0:
                yield 'success', '%r: %r, expected status %d' % (run, r, case['status'])
            elif r.rc != case['status']:
                yield 'status', '%r: %r, expected status %d' % (run, r, case['status'])
            elif case['status'] != 7 and not (out + r.err).strip():
                yield 'silent', '%r: %r' % (run, r)
            return
        outs = None
        if case['cmds']:
            g = [l.split() for l in resp[case['setup']]]
            if g[0][1] != '0':
                yield 'parse', '%r: the library rejects %r' % (run, case['text'])
                return
            outs = [core.uncps(x[5]) for x in g[1:] if x[1] == '0']
            if len(outs) != case['n'] or any(0xd800 <= c < 0xe000 for o in outs for c in o):
                if r.rc == 0:
                    yield 'success', '%r: %r, but the library fails' % (run, r)
                return
        if case.get('out') == '/dev/full':
            if r.rc == 0:
                yield 'success', '%r > /dev/full: %r' % (run, r)
            return
        if r.rc != 0:
            if outs is None and r.rc == 9 and case['g'] is not None:
                return
            yield 'failure', '%r: %r' % (run, r)
            return
        if case['json']:
            import json
            try:
                items = json.loads(out.decode('utf-8'))
                got = [x['output'] for x in items]
            except (ValueError, KeyError, TypeError):
                yield 'json', '%r: %r' % (run, r)
                return
            shown = [x.get('entropy') for x in items] if case['ent'] else []
            if len(got) != case['n']:
                yield 'amount', '%r: %d outputs' % (run, len(got))
                return
        else:
            shown = [None if m == b'inf' else float(m) for m in re.findall(rb'entropy: (inf|[0-9.]+) bits', r.err)]
            if outs is not None:
                want = case['sep'].join(''.join(map(chr, o)).encode() for o in outs) + b'\n'
                if out != want:
                    yield 'output', '%r: printed %r..., expected %r' % (run, out[:600], want[:600])
                    return
                got = None
            else:
                try:
                    body = out[:-1].decode('utf-8') if out.endswith(b'\n') else None
                except UnicodeDecodeError:
                    body = None
                if body is None:
                    yield 'output', '%r: %r' % (run, r)
                    return
                got = body.split(case['sep'].decode())
                if len(got) != case['n']:
                    # separators may be part of outputs
                    if len(got) < case['n'] or not (case['g'] is None or re.search(r'\\|\n|\0|\[', case['text'])):
                        yield 'amount', '%r: %d outputs instead of %d' % (run, len(got), case['n'])
                    return
        if outs is not None:
            if got is not None and got != [''.join(map(chr, o)) for o in outs]:
                yield 'output', '%r: printed %r, expected %r' % (run, str(got)[:600], str(outs)[:600])
                return
        elif case['g'] is not None:
            for o in got[:5]:
                if len(o) <= 400 and not self.member(case['g'], o):
                    yield 'not in language', '%r: printed %r' % (run, o)
                    return
        if case['ent'] and len(shown) != case['n'] or not case['ent'] and shown:
            yield 'entropies', '%r: %d entropies for %d outputs' % (run, len(shown), case['n'])
            return
        if outs is not None and case['ent']:
            for l, s in zip(resp[case['setup']][1:], shown):
                e = float(l.split()[3])
                if math.isinf(e) != (s is None) or s is not None and abs(s - math.log2(e)) > .0051 + 1e-9 * s:
                    yield 'entropy', '%r: shows %r bits, the library reports %r' % (run, s, e)
                    return

    def member(self, g, o):
        return M.member(g, tuple(map(ord, o))) is not False

    def observe(self, case, resp, stats):
        d = stats.setdefault('status', {})
        d[str(case.get('rc'))] = d.get(str(case.get('rc')), 0) + 1
        if case['cmds']:
            stats['compared with the library'] = stats.get('compared with the library', 0) + 1
