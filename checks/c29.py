import os, re
from vlib import core, cli, build as B, model as M
from . import c01, c04

COLOUR = re.compile(rb'\x1b\[[0-9;]*m')
BAD = ['(', 'a(b', '(a|b', ')', 'ab)', '[a', '[', 'é[', '[z-a]', 'x[€-a]y', 'a{', 'a{2', 'a{2,', 'a{3,1}', '{', '{3', '?', 'a|?b', '\\', 'ab\\',
       '\\u', '\\u{', '\\u{41', '\\u{110000}', '\\u{1234567}', '\\u{xyz}', '\\ux', '\\q', 'a\\q', '\\d', '\\w', '\\w{', '\\m{ab', '\\wx', 'a{x}',
       'a{99999999999999999999}', '{99999999999999999999}a', 'ä)', '€€)', '😀)', '(((', 'a{18446744073709551615}b{1,18446744073709551616}',
       '{18446744073709551615}a|b', '()?)', '[\\w]', '[a-\\z]', '[a\\n-\\t]', '((a){2)', '\\u{41})']


def pattern(rng):
    """Mostly invalid patterns, the tool prints them on a single line."""
    x = rng.random()
    if x < .3:
        s = rng.choice(BAD)
    elif x < .5:
        return c04.hostile(rng)
    else:
        s = M.render(M.Gen(rng, budget=rng.choice([3, 10, 25])).pattern(), rng)
        p = rng.randrange(len(s) + 1)
        s = s[:p] + rng.choice(BAD + ['(', ')', '[', '{', '\\', '?', '|', '{2', '-']) + (s[p:] if rng.random() < .6 else '')
    if rng.random() < .5:
        s = rng.choice(['a', 'é', '€', '😀', 'ab', '\\n', '[a-z]', '(b)?', '\\u{41}', 'a|', '(é|😀)']) * rng.choice([1, 2, 7, 8, 9, 60, 127, 128, 255, 256, 257, 600]) + s
    return s.replace('\0', '').encode('utf-8', 'surrogatepass')


class Check(cli.CliCheck):
    pid = 'C29'
    rule = ('the tool is run with invalid patterns of all kinds (truncated, stray and misplaced tokens, wrong escapes and ranges, numbers too '
            'large, invalid UTF-8; behind prefixes of all widths and lengths): it has to end with the status for this, print nothing on '
            'standard output, and on standard error a message, the pattern unchanged and a mark below the place that an independent '
            'parser reports. All other ways of calling it wrongly have to leave standard output empty too and to name what is wrong. '
            'Error objects are taken through random histories and compared with a model. Non-trivial: distinct runs and histories.')
    assumptions = ['columns are counted in codepoints, patterns with line breaks or control characters are exempt from looking at the column',
                   'no verdict on the place where the documentation leaves open what is valid']
    quick = {'san': 1500, 'rel': 2100}
    thorough = {'san': 4000, 'rel': 8000, 'clangsan': 2500, 'msan': 1500}
    programs = {'drv': (['/verif/drv/api.c'], []), 'tool': (['/verif/drv/shim.c'], cli.WRAP)}
    PER = 6

    def prepare(self):
        self.conf = os.path.join(self.scratch, 'c29')
        os.makedirs(self.conf)

    # ------------------------------------------------------------ histories
    def history(self, rng):
        ops, want = [], []
        msg = rng.choice([b'x', b'', b'message %s%n%d', 'länger'.encode(), b'm' * 300])
        state = None

        def fresh(kind):
            return dict(msg=msg, file=None, line=0, cp=0, by=0, causes=[], macro=kind == 'm')
        for _ in range(rng.randrange(3, 25)):
            k = rng.choice('soscccpdd') if state else rng.choice('im')
            if state and rng.random() < .07:
                ops.append('f')
                state = None
                continue
            if k in 'im':
                msg = rng.choice([msg, rng.randbytes(rng.randrange(1, 30)).replace(b'\0', b'a')])
                ops.append('%s:%s' % (k, core.hexs(msg)))
                state = fresh(k)
                if k == 'm':
                    ops.append('d')
                    want.append(('macro', dict(state)))
                    # something known instead
                    k = 's'
            if k == 's':
                f = rng.choice([None, b'file.c', b'/a/long/name of a file.c', b'x'])
                line = rng.choice([0, 1, 17, 2 ** 31, 2 ** 32 + 5, 2 ** 64 - 1])
                ops.append('s:%s:%d' % ('~' if f is None else core.hexs(f), line))
                state.update(file=f, line=line)
            elif k == 'o':
                cp = rng.choice([0, 0, 1, 2, 3, 10, 255, 256, 257, 1000])
                by = cp + rng.randrange(0, 3 * cp + 1)
                ops.append('o:%d:%d' % (cp, by))
                state.update(cp=cp, by=by)
            elif k == 'c':
                for _ in range(rng.choice([1, 1, 3, 5, 20])):
                    c = rng.randrange(300)
                    ops.append('c:%d' % c)
                    state['causes'] = state['causes'] + [c]
            elif k == 'p':
                p = rng.choice([b'', b'abc', 'äöü€😀'.encode(), b'%s%n', b'x' * 500])
                ops.append('p:' + core.hexs(p))
                want.append(('print', dict(state), p))
            elif k == 'd':
                ops.append('d')
                want.append(('dump', dict(state)))
        if state:
            ops.append('f')
        return 'err ' + ' '.join(ops), want

    def compare(self, cmd, want, got):
        got = list(got)
        for w in want:
            s = w[1]
            t = got.pop(0).split(' ') if got else ['nothing']
            if w[0] == 'print':
                text = core.unhex(t[1])
                yield from self.report(text, s['msg'], w[2], {s['cp']}, 'error object %s' % cmd[:500], s['file'], s['line'])
                continue
            if t[0] != 'D' or core.unhex(t[1]) != s['msg']:
                yield 'message', '%s: %r' % (cmd[:500], t)
            if w[0] == 'macro':
                m = got.pop(0)
                if m != 'M 1':
                    yield 'source', '%s: initializing an error does not record where' % cmd[:500]
            elif (None if t[2] == '~' else core.unhex(t[2])) != s['file'] or int(t[3]) != s['line']:
                yield 'source', '%s: %r, expected %r' % (cmd[:500], t, s)
            if [int(t[4]), int(t[5])] != [s['cp'], s['by']]:
                yield 'offset', '%s: %r, expected %r' % (cmd[:500], t, s)
            if [int(t[6]), int(t[7])] != [0, 0]:
                yield 'end', '%s: %r, expected %r' % (cmd[:500], t, s)
            if [int(x) for x in t[9].split(',') if x] != s['causes'] or int(t[8]) != len(s['causes']):
                yield 'causes', '%s: %r, expected %r' % (cmd[:500], t, s)

    # --------------------------------------------------------------- reports
    def report(self, err, msg, pat, offs, what, file=None, line=0):
        """Message, pattern and mark in what was printed."""
        text = COLOUR.sub(b'', err)
        if msg is None:
            m = re.match(rb'[^\n]*pattern: *([^\n]*)\n', text)
            if not m or m.group(1) in (b'', b'(null)') or not re.search(rb'[a-z]', m.group(1)):
                yield 'message', '%s: no message in %r' % (what, err[:400])
        elif msg and msg not in text:
            yield 'message', '%s: %r is not in %r' % (what, msg, err[:400])
        if file is not None and b'%s:%d' % (file, line) not in text:
            yield 'source', '%s: %r:%d is not in %r' % (what, file, line, err[:400])
        if b'\x1b' in pat or b'\x1b' in (msg or b''):
            return
        if pat not in text:
            yield 'pattern', '%s: %r is not in %r' % (what, pat[:400], err[-600:])
            return
        if offs is None or re.search(rb'[\x00-\x1f\x7f]', pat):
            return
        lines = text.split(b'\n')
        for i in range(len(lines) - 1):
            if lines[i].endswith(b': ' + pat) and lines[i + 1].strip() == b'^' and not lines[i].startswith(b'error'):
                start = len(lines[i]) - len(pat)
                at = lines[i + 1].index(b'^') - start
                if at not in offs:
                    yield 'column', '%s: mark below character %d, expected %s: %r' % (what, at, sorted(offs), text[-600:])
                return
        yield 'mark', '%s: there is no mark in %r' % (what, text[-600:])

    def case(self, rng, i, variant):
        case = dict(cmds=[], runs=[], want=[], hist=[])
        for _ in range(self.PER):
            c, w = self.history(rng)
            case['cmds'].append(c)
            case['hist'].append(w)
        for _ in range(self.PER):
            src = ['-r', 'xorshift:%d' % rng.randrange(1, 1000)]
            if rng.random() < .75:
                for _ in range(20):
                    b = pattern(rng)[:30000]
                    if c04.verdict(b)[0] is False:
                        break
                else:
                    b = b'('
                opts = src + rng.choice([[], [], ['-a', '3'], ['-j'], ['-e'], ['-z', '-a', '2']])
                if rng.random() < .1 and b.find(b'\n') < 0:
                    case['runs'].append(cli.Run(opts + [b'-P', b'x:' + b, '-p', 'x']))
                else:
                    case['runs'].append(cli.Run(opts + ['--', b]))
                case['want'].append(('pattern', b))
                continue
            word = ''.join(rng.choice('abcxyzäß€%') for _ in range(rng.randrange(1, 12)))
            k = rng.randrange(9)
            name = None
            home = os.path.join(self.conf, 'h%d%s%d' % (i, variant, len(case['runs'])))
            if k == 0:
                a, rc, name = ['-a', word, 'abc'], 5, word
            elif k == 1:
                a, rc, name = ['-M', word, 'abc'], 6, word
            elif k == 2:
                a, rc, name = ['-r', word, 'abc'], 2, word
            elif k == 3:
                a, rc, name = ['-p', word], 8, word
            elif k == 4:
                a, rc, name = ['-w', word + ':/nonexistent/' + word, 'abc'], 10, word
            elif k == 5:
                a, rc = src + rng.choice([[], ['-a', '3'], ['-e'], ['-z']]) + ['--', rng.choice(['a\\w{%s}', '\\m{%s}', 'b\\p{%s}x', '[a-z]{3000}\\w{%s}']) % word], 9
            elif k == 6:
                a, rc = ['abc', 'def' + word], 1
            elif k == 7:
                a, rc, name = ['-P', word, 'abc'], None, word
            else:
                # not fatal
                os.makedirs(home)
                bad = rng.choice(['nope' + word, 'xorshift:x' + word, 'file:/nonexistent/' + word])
                open(os.path.join(home, 'passgen.conf'), 'w').write('random %s\n' % bad)
                a, rc, name = src + ['[a-c]{5}'], 0, bad
                if rng.random() < .3:
                    a = ['[a-c]{5}']
            case['runs'].append(cli.Run(a, env={'XDG_CONFIG_PATH': home} if k == 8 else {}))
            case['want'].append(('other', rc, name))
        return case

    def judge(self, case, resp, variant):
        n = len(case['cmds'])
        for cmd, w, r in zip(case['cmds'], case['hist'], resp):
            yield from self.compare(cmd, w, r)
        c = case['count'] = {}
        for run, w, r in zip(case['runs'], case['want'], resp[n:]):
            if w[0] == 'pattern':
                b = w[1]
                ok, offs, res = c04.verdict(b)
                if ok is not False or getattr(res, 'depth', 0) > 4000:
                    continue
                c[res.why or 'utf-8'] = c.get(res.why or 'utf-8', 0) + 1
                if r.rc != 3:
                    yield 'status', '%r: %r, expected status 3' % (run, r)
                elif r.out:
                    yield 'output', '%r: %r on standard output' % (run, r.out[:400])
                else:
                    yield from self.report(r.err, None, b, offs, repr(run)[:1000])
                continue
            _, rc, name = w
            c['status %s' % r.rc] = c.get('status %s' % r.rc, 0) + 1
            if rc == 0:
                if r.rc != 0 or not re.fullmatch(rb'[a-c]{5}\n', r.out):
                    yield 'output', '%r: %r' % (run, r)
            elif rc is not None and r.rc != rc or r.rc == 0:
                yield 'status', '%r: %r, expected %s' % (run, r, rc)
            elif r.out:
                yield 'output', '%r: %r on standard output' % (run, r.out[:400])
            if name is not None and name.encode() not in r.err or not r.err.strip():
                yield 'message', '%r: %r does not name %r' % (run, r.err[:400], name)

    def nontrivial(self, case, resp):
        return [repr(r) for r in case['runs']] + case['cmds']

    def observe(self, case, resp, stats):
        d = stats.setdefault('refusals', {})
        for k, v in case['count'].items():
            d[k] = d.get(k, 0) + v
        stats['error histories'] = stats.get('error histories', 0) + len(case['cmds'])
