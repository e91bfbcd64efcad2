import json, math, os
from vlib import core, cli, model as M
from . import c01, c12

PIECES = ['\\u{0}', '\\u{1}', '\\u{1f}', '"', '\\\\', '/', '\\n', '\\u{d}', '\\u{8}', '\\u{c}', '\\t', '\\u{7f}', '\\u{80}', '\\u{20}',
          '\\u{7ff}', '\\u{800}', '\\u{ffff}', '\\u{10000}', '\\u{10ffff}', 'a', 'u', 'é', '€', '😀', '\\u{d7ff}', '\\u{e000}',
          '\\u{2028}', '\\u{2029}', '\\u{feff}', '<', '&', "'"]


def strict(data):
    def no(x):
        raise ValueError('constant ' + x)
    return json.loads(data.decode('utf-8'), strict=True, parse_constant=no)


class Check(cli.CliCheck):
    pid = 'C13'
    rule = ('all codepoints in blocks of 1024, random text mixing characters that need escaping, random patterns; the JSON form '
            'from the library and the output of the tool in JSON mode with all combinations of flags are parsed strictly, '
            'decoded and compared with the codepoints generated from the same randomness. Non-trivial: distinct text.')
    assumptions = ["Python's json module decodes JSON correctly", 'U+0000 is not passed in arguments, other than escaped']
    quick = {'san': 6000, 'rel': 2000}
    thorough = {'san': 12000, 'rel': 3000}

    def case(self, rng, i, variant):
        if i < 0x110000 // 1024:
            b = i
            seq = [c for c in range(1024 * b, 1024 * b + 1024) if not 0xd800 <= c < 0xe000]
            if not seq:
                return None
            # the escapes \u{28} and so on stand for the plain character
            t = ''.join('\\' + chr(c) if chr(c) in '()[]{}|?\\' else '\\u{%x}' % c if c < 32 or c == 127 else chr(c) for c in seq)
            return dict(kind='block', seq=seq, text=t, runs=[], cmds=['fill j 10000 100 s:1 1 ' + core.hexs(t)])
        if rng.random() < .5:
            t = ''.join(rng.choice(['%s', '%s{1,3}', '%s?', '(%s|x)', '[%s]']) % rng.choice(PIECES) for _ in range(rng.randrange(1, 14)))
        elif rng.random() < .1:
            t = rng.choice(['', '()', 'a{0}', '[a-z]{250}', '[a-z]{218}', '[\\u{20}-\\u{7e}]{2000}', '[a-z]{0,100}', '(a?b?){1000}'])
        else:
            t = c01.rand_case(rng, '')['text']
        src = 'xorshift:%d' % rng.getrandbits(60)
        n = rng.choice([1, 1, 2, 3, 10])
        if rng.random() < .01:
            n = rng.choice([255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000])
            t = rng.choice(['[a-z"]{3}', '(a|"|\\\\)é?', '[\\u{1}-\\u{30}]'])
        opts = ['-e'] if rng.random() < .6 else []
        opts += ['-z'] if rng.random() < .2 else []
        runs = []
        if not t.startswith('-'):
            args = opts + ['-r', src]
            if n != 1 or rng.random() < .5:
                args += ['-a', str(n)]
            args += [rng.choice(['-j', '--json'])]
            if t == '' or rng.random() < .8:
                args += ['--', t]
            else:
                args += ['-P', 'x:' + t, '-p', 'x']
            runs.append(cli.Run(args))
        hx = core.hexs(t)
        return dict(kind='text', text=t, n=n, e='-e' in opts, runs=runs,
                    cmds=['gen e 100 d:%s %d %s' % (core.hexs(src), n, hx), 'fill j 131072 100 d:%s %d %s' % (core.hexs(src), rng.randrange(3), hx)])

    def judge(self, case, resp, variant):
        what = 'pattern %r' % case['text'][:600]
        if case['kind'] == 'block':
            l = resp[0][1].split()
            got = c12.json_string(core.unhex(l[4]))
            if got != case['seq']:
                yield 'library', '%s: JSON form %r, expected U+%04X to U+%04X' % (
                    what, core.unhex(l[4])[:600], case['seq'][0], case['seq'][-1])
            return
        g = [l.split() for l in resp[0]]
        if g[0][1] != '0':
            yield 'parse', '%s: %s' % (what, resp[0][:2])
            return
        outs = [(core.uncps(x[5]), float(x[3])) for x in g[1:] if x[1] == '0']
        ok = len(outs) == case['n'] and all(c12.utf8(s) is not None for s, _ in outs)
        if outs and c12.utf8(outs[0][0]) is not None:
            l = resp[1][1].split()
            if c12.json_string(core.unhex(l[4])) != list(outs[0][0]):
                yield 'library', '%s: JSON form %r, expected %r' % (what, core.unhex(l[4])[:600], outs[0][0])
                return
        for run, r in zip(case['runs'], resp[2:]):
            case['objects'] = 0
            if not ok:
                if r.rc == 0:
                    yield 'tool success', '%r: %r, but it cannot be generated' % (run, r)
                continue
            if r.rc != 0:
                yield 'tool failure', '%r: %r' % (run, r)
                return
            try:
                j = strict(r.out)
                good = isinstance(j, list) and all(isinstance(x, dict) for x in j)
            except ValueError:
                good = False
            if not good:
                yield 'tool json', '%r: not valid JSON: %r' % (run, r)
                return
            if len(j) != case['n'] or [x.get('output') for x in j] != [''.join(map(chr, s)) for s, _ in outs]:
                yield 'tool output', '%r: %r, expected %r' % (run, r, outs)
                return
            case['objects'] += len(j)
            for x, (s, e) in zip(j, outs):
                if not case['e']:
                    if set(x) != {'output'}:
                        yield 'tool keys', '%r: %r' % (run, r)
                        return
                    continue
                v = x.get('entropy', False)
                if set(x) != {'output', 'entropy'} or (v is not None and (isinstance(v, bool) or not isinstance(v, (int, float)))):
                    yield 'tool keys', '%r: %r' % (run, r)
                    return
                if math.isinf(e):
                    if v is not None:
                        yield 'tool entropy', '%r: entropy %r is not representable' % (run, v)
                        return
                elif v is None or abs(v - math.log2(e)) > 1e-5 + 1e-9 * abs(v):
                    yield 'tool entropy', '%r: entropy %r, expected %r' % (run, v, math.log2(e))
                    return

    def nontrivial(self, case, resp):
        return case['text']

    def observe(self, case, resp, stats):
        if case['kind'] == 'block':
            stats['codepoints escaped one by one'] = stats.get('codepoints escaped one by one', 0) + len(case['seq'])
        stats['JSON objects of the tool'] = stats.get('JSON objects of the tool', 0) + case.get('objects', 0)
