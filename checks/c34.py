import os, re
from vlib import core, cli, build as B, model as M
from . import c01, c04, c22

REPO = B.REPO
TOOLS = {'tokenize': 'tokenize.c', 'wordlist': 'wordlist.c', 'recode': 'utf8-recode.c'}
TOOLS = {n: s for n, s in TOOLS.items() if os.path.exists(os.path.join(REPO, 'src/tools', s))}


class Check(cli.CliCheck):
    pid = 'C34'
    rule = ('the version is compared with each of the 2^24 there are and looked up where the tool prints it; preset objects with random values '
            '(valid and not) are parsed once, several times or not at all, and generate what their value generates when it is parsed directly; '
            'assertions fail below up to 1000 calls; wordlists are loaded in one go and step by step; the developer tools are run with random arguments and files, what they print is '
            'compared with independent models (tokens, words, codepoints). Sanitizers watch all of it. Non-trivial: distinct commands and runs.')
    assumptions = ['the project version is the one in CMakeLists.txt']
    quick = {'san': 1200, 'rel': 2000}
    thorough = {'san': 8000, 'rel': 12000, 'clangsan': 4000, 'msan': 3000}
    programs = {'drv': (['/verif/drv/misc.c'], []), 'tool': (['/verif/drv/shim.c'], cli.WRAP)}
    programs['deep'] = (['/verif/drv/deep.c'], [])
    programs.update({n: ([os.path.join(REPO, 'src/tools', s)], []) for n, s in TOOLS.items()})

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c34')
        os.makedirs(self.dir)
        cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)\s+DESCRIPTION', cm)
        self.version = tuple(map(int, m.groups())) if m else None

    def file(self, case, name, data):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f:
            f.write(data)
        case['files'].append(p)
        return p

    def text(self, rng):
        """Text around the size of the chunks it is read in."""
        out, n = [], rng.choice([0, 1, 5, 50, 127, 128, 129, 255, 256, 257, 1000, rng.randrange(3000)])
        size = 0
        while size < n:
            c = chr(rng.choice([0x61, 0x0a, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]))
            out.append(c)
            size += len(c.encode())
        return ''.join(out).encode()

    def case(self, rng, i, variant):
        case = dict(cmds=[], runs=[], want=[], files=[])
        k = i % 6 if i else -1
        if k >= 3 and ('tokenize', 'wordlist', 'recode')[k - 3] not in TOOLS:
            return None
        if k == -1:
            case['kind'] = 'version'
            case['cmds'] = ['version', 'names']
            case['runs'] = [cli.Run(['-v']), cli.Run(['--version'])] + [cli.Run([str(n)], program='deep') for n in (0, 1, 30, 100, 120, 126, 127, 128, 129, 150, 1000)]
        elif k in (0, 1):
            case['kind'] = 'preset'
            for _ in range(4):
                if rng.random() < .7:
                    b = c01.rand_case(rng, '')['text'].replace('\0', '').encode('utf-8', 'surrogatepass')
                else:
                    b = c04.hostile(rng)[:3000].replace(b'\0', b'')
                case['cmds'].append('preset %s xorshift:%d %d %d' % (core.hexs(b), rng.randrange(1, 1 << 40), rng.choice([1, 2, 5]), rng.choice([0, 1, 1, 1, 2, 3])))
                case['want'].append(b)
        elif k == 2:
            case['kind'] = 'load'
            p = self.file(case, 'w%d%s' % (i, variant), self.words(rng))
            case['cmds'] = ['load %s %d xorshift:%d %d' % (core.hexs(p), rng.choice([1, 2, 3, 3, 5, 17, 64, 127, 128, 200, 255]), rng.randrange(1, 1 << 40), rng.choice([1, 5, 20]))]
        elif k == 3:
            case['kind'] = 'tokenize'
            for _ in range(4):
                if rng.random() < .2:
                    b = c04.hostile(rng)[:400].replace(b'\0', b'')
                else:
                    b = ''.join(rng.choice(['a', '[', 'é', '€', '😀', '\\n', '\\[', '\\\\', '\\a', '\\u{41}', '\\u{1f600}', '\\u{0}', '\\é', '\\z', '\\{'])
                                for _ in range(rng.randrange(12)))
                    b += rng.choice(['', '', '', '\\', '\\u', '\\u{', '\\u{4', '\\u{110000}', '\\u{zz}', '\\ux', '\\u{1234567}', '\\u{}', '\\u{ffffff}b'])
                    b += rng.choice(['', 'x', '\\u{42}'])
                    b = b.encode()
                case['runs'].append(cli.Run([b], program='tokenize'))
                case['want'].append(b)
        elif k == 4:
            case['kind'] = 'wordlist'
            d = self.words(rng)
            p = self.file(case, 'w%d%s' % (i, variant), d)
            case['runs'] = [cli.Run(a, program='wordlist') for a in (['dump', p], ['random', p], ['random', p], ['nope', p], ['help'], ['dump'], ['random'], ['dump', p + '-'], ['random', p + '-'])]
            case['want'] = d
        else:
            case['kind'] = 'recode'
            for _ in range(3):
                b = self.text(rng)
                if rng.random() < .4:
                    at = rng.choice([0, 1, 126, 127, 128, 129, len(b), rng.randrange(len(b) + 1)])
                    b = b[:at] + rng.choice([b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80']) + b[at:]
                case['runs'].append(cli.Run([], stdin=b, program='recode'))
                case['want'].append(b)
        return case

    def words(self, rng):
        x = rng.random()
        w = [rng.choice(['alpha', 'beta', 'gamma', 'zwölf', 'ab', 'x', '', 'ein Wort', 'b' * rng.randrange(1, 300), '😀'])
             for _ in range(rng.choice([1, 1, 2, 5, 20, 255, 256, 257, 513]))]
        d = rng.choice(['\n', '\n', '\n\n']).join(w) + rng.choice(['', '\n', '\n\n'])
        return d.encode()

    def cleanup(self, case):
        for p in case['files']:
            try:
                os.unlink(p)
            except FileNotFoundError:
                pass

    def judge(self, case, resp, variant):
        c = case['count'] = {}
        n = len(case['cmds'])
        yield from getattr(self, 'judge_' + case['kind'])(case, resp[:n], list(zip(case['runs'], resp[n:])), c)

    def judge_version(self, case, resp, runs, c):
        t = resp[0][0].split()
        if self.version and tuple(map(int, t[1:4])) != self.version:
            yield 'version', 'the library reports %s, it is %r' % (t, self.version)
        a = resp[0][1].split()
        c['versions compared'] = 1 << 24
        if a[2] != '0':
            yield 'compatible', '%s versions are compared wrongly, the first is %s' % (a[2], a[3])
        for l in resp[1]:
            if not l.endswith(' good'):
                yield 'names', 'no name: %r' % l
        v = '.'.join(map(str, self.version or t[1:4])).encode()
        for run, r in runs:
            if run.program == 'deep':
                c['assertions failed'] = c.get('assertions failed', 0) + 1
                if r.rc != 77 and (r.rc != 1 or b'bad == 0' not in r.err or b'down' not in r.err or not r.out.strip()):
                    yield 'assertion', '%r: %r' % (run, r)
            elif r.rc != 0 or not re.search(rb'(?<![0-9.])' + re.escape(v) + rb'(?![0-9])', r.out + r.err):
                yield 'shown', '%r: %r does not show %r' % (run, r, v)

    def judge_preset(self, case, resp, runs, c):
        for cmd, b, r in zip(case['cmds'], case['want'], resp):
            if r[0] != 'I 0 1':
                yield 'preset', '%s: not parsed yet is %r' % (cmd[:600], r[0])
            d = [l for l in r if l.startswith('D')][0]
            good = d == 'D 0'
            c['presets %s' % ('valid' if good else 'invalid')] = c.get('presets %s' % ('valid' if good else 'invalid'), 0) + 1
            # what is invalid stays so
            parsed = [l for l in r if l.startswith('R')]
            for l in parsed:
                if l != ('R 0 1 1' if good else 'R 1 0 1'):
                    yield 'preset', '%s: %r is %s, parsing the preset results in %r' % (cmd[:600], b[:300], 'valid' if good else 'invalid', l)
                    return
            p, q = ([l[2:] for l in r if l.startswith(x)] for x in 'PQ')
            if good and parsed and p != q:
                yield 'preset', '%s: the preset generates %r, its value %r' % (cmd[:600], p[:3], q[:3])
            c['outputs compared'] = c.get('outputs compared', 0) + len(p)

    def judge_load(self, case, resp, runs, c):
        a, b = ([l[1:] for l in resp[0] if l.startswith(x)] for x in 'LM')
        if a != b or not a:
            yield 'load', '%s: loaded in one go %r, step by step %r' % (case['cmds'][0], a[:5], b[:5])
        c['lists loaded'] = 1

    def judge_tokenize(self, case, resp, runs, c):
        for (run, r), b in zip(runs, case['want']):
            c['strings tokenized'] = c.get('strings tokenized', 0) + 1
            try:
                s = b.decode('utf-8')
            except UnicodeDecodeError:
                if r.rc == 0 or b'Error' not in r.out:
                    yield 'tokenize', '%r: %r for invalid UTF-8' % (run, r)
                continue
            m, want = c22.Tokens((0, 1, 2, 3, -1, -2, -3, 1 << 30)), []
            for ch in s:
                _, token = m.step(ord(ch), 1)
                if isinstance(m.state, tuple) or m.state < 0:
                    break
                if token:
                    want.append(b'%x' % token[0])
            lines = r.out.split(b'\n')
            got = [l[14:] for l in lines if l.startswith(b'Parsed token: ')]
            failed = isinstance(m.state, tuple) or m.state != 0
            if got != want:
                yield 'tokenize', '%r: tokens %r, expected %r' % (run, got[:50], want[:50])
            elif failed != any(l.startswith(b'Error') for l in lines) or failed != (r.rc != 0):
                yield 'tokenize', '%r: %r, %s' % (run, r, 'expected an error' if failed else 'expected no error')
            elif b'Read %d codepoints' % len(s) not in lines:
                yield 'tokenize', '%r: %r, %d codepoints were read' % (run, r, len(s))

    def judge_wordlist(self, case, resp, runs, c):
        words = [w for w in case['want'].split(b'\n') if w]
        for run, r in runs:
            c['lists shown'] = c.get('lists shown', 0) + 1
            what = run.args[0]
            if len(run.args) == 1 and what != b'help' or run.args[-1].endswith(b'-'):
                what = b'missing'
            if what == b'help':
                if r.rc != 0:
                    yield 'wordlist', '%r: %r' % (run, r)
            elif what == b'nope':
                if r.rc == 0 or not r.err:
                    yield 'wordlist', '%r: %r' % (run, r)
            elif what == b'dump':
                if r.rc != 0 or r.out != b'size = %d\ncount = %d\n' % (len(case['want']), len(words)) + b''.join(w + b'\n' for w in words):
                    yield 'wordlist', '%r: %r' % (run, r)
            elif what == b'missing' or not words:
                if r.rc == 0 or r.rc == 'timeout' or not r.err or r.out:
                    yield 'wordlist', '%r: %r without a word' % (run, r)
            elif (r.rc != 0 or r.out[-1:] != b'\n' or r.out[:-1] not in words):
                yield 'wordlist', '%r: %r is none of the words' % (run, r)

    def judge_recode(self, case, resp, runs, c):
        for (run, r), b in zip(runs, case['want']):
            c['texts recoded'] = c.get('texts recoded', 0) + 1
            try:
                n = len(b.decode('utf-8'))
            except UnicodeDecodeError:
                if r.rc == 0:
                    yield 'recode', 'invalid text %r: %r' % (b[:400], r)
                continue
            read = re.findall(rb'read ([0-9]+) bytes', r.out)
            cps = re.findall(rb'read ([0-9]+) codepoints', r.out)
            if r.rc != 0 or not cps or int(cps[-1]) != n or sum(map(int, read)) != len(b):
                yield 'recode', 'text of %d bytes and %d codepoints %r: %r' % (len(b), n, b[:400], r)

    def nontrivial(self, case, resp):
        return case['cmds'] + [repr(r) + str(w) for r, w in zip(case['runs'], case['want'])]

    def observe(self, case, resp, stats):
        d = stats.setdefault('observed', {})
        for k, v in case['count'].items():
            d[k] = d.get(k, 0) + v
