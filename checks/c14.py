import os
from fractions import Fraction
from vlib import core, cli, model as M

SEP = 0x1f511


def rand_word(rng, ascii_only=False):
    x = rng.random()
    if x < .5:
        n = rng.randrange(1, 12)
    elif x < .8:
        n = rng.choice([1, 2, 126, 127, 128, 129, 130, 255, 256, 257])
    elif x < .97:
        n = rng.choice([383, 384, 385, 511, 512, 513, 640, 1000, 1024])
    else:
        n = rng.choice([4000, 4095, 4096, 4097, 10000])
    out = []
    mode = rng.randrange(4)
    while len(out) < n:
        c = rng.randrange(0x21, 0x7f) if mode == 0 or ascii_only else \
            rng.choice([0xe9, 0x20ac, 0x1f600, 0x10ffff, 0xffff, 0x800, 0x7ff, 0x80]) if mode == 1 else M.rand_cp(rng)
        if c not in (0, 10, SEP):
            out.append(c)
    return ''.join(map(chr, out)).encode()


def rand_list(rng, count=None, valid=True, short=False):
    """Lines of a list, without empty ones."""
    n = count if count is not None else rng.choice([1, 1, 2, 3, 5, 20, 254, 255, 256, 257, 258, 512, 513, 1025])
    words = []
    for _ in range(n):
        if short or n > 20:
            w = bytes(rng.choice(b'abcdefgh\t \r;:#\\"') for _ in range(rng.randrange(1, 7)))
        else:
            w = rand_word(rng)
        words.append(w)
    if rng.random() < .3 and n > 1:
        words[rng.randrange(n)] = words[0]
    if n and rng.random() < .2:
        words[0] = b'\xef\xbb\xbf' + words[0]
    if n and not valid:
        for _ in range(rng.randrange(1, 3)):
            k = rng.randrange(n)
            bad = rng.choice([b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80'])
            w = words[k]
            p = rng.choice([0, len(w), len(w)])
            words[k] = w[:p] + bad + w[p:]
    return words


def join(rng, words, pad=None):
    """File content; pad: total size to reach, with line breaks or a long word."""
    data = b'\n' * rng.choice([0, 0, 0, 1, 3])
    for k, w in enumerate(words):
        data += w + b'\n' * (rng.choice([1, 1, 1, 1, 2, 5]) if k + 1 < len(words) else rng.choice([0, 1, 1, 2, 3]))
    if pad is not None and len(data) < pad:
        if rng.random() < .5:
            w = b'z' * (pad - len(data))
            if data.endswith(b'\n') or not data:
                data += w
                words.append(w)
            else:
                data = w[:-1] + b'\n' + data if len(w) > 1 else data
                if len(w) > 1:
                    words.insert(0, w[:-1])
        else:
            data += b'\n' * (pad - len(data))
    return data


def valid(w):
    try:
        w.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


class Check(cli.CliCheck):
    pid = 'C14'
    rule = ('random word lists (any number and length of words, around the sizes at which buffers grow, with and without a final '
            'newline, empty lines, repeated words, invalid UTF-8), read from regular files, from streams that deliver small '
            'pieces, cannot be seeked or fail, directories and pipes; listed words and generated words are compared with the '
            'lines, histograms with equal likelihood, entropies with the number of lines; several lists under random names. '
            'Non-trivial: distinct lists that were read.')
    assumptions = ['words contain no NUL', 'deviations of a frequency smaller than about one percent can go unnoticed']
    quick = {'san': 1500, 'rel': 500}
    thorough = {'san': 8000, 'rel': 4000, 'msan': 1000, 'clangsan': 2000}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c14')
        os.makedirs(self.dir)

    def put(self, case, data):
        p = os.path.join(self.dir, 'w%s-%s-%d' % (case['id'], case['variant_'], len(case['files'])))
        with open(p, 'wb') as f:
            f.write(data)
        case['files'].append(p)
        return p

    def cleanup(self, case):
        for p in case['files']:
            try:
                os.unlink(p)
            except FileNotFoundError:
                pass

    def how(self, rng, case, path, data):
        """A way to read the file; returns the path for the driver and whether it fails."""
        x = rng.random()
        if x < .5:
            return path, False
        chunk = rng.choice([1, 2, 7, 100, 4095, 4096, 4097, 100000])
        if len(data) > 20000:
            chunk = max(chunk, 100)
        fail = -1
        if rng.random() < .25:
            fail = rng.choice([0, len(data), len(data) // 2, min(len(data), 4096), min(len(data), 4095)])
        return '~%d~%d~%d~%s' % (chunk, fail, rng.randrange(2), path), fail >= 0

    def case(self, rng, i, variant):
        case = dict(id=i, variant_=variant, files=[], cmds=[], runs=[], nt=0)
        k = i % 10
        if k < 3:
            words = rand_list(rng, valid=rng.random() < .8) if rng.random() < .95 else []
            pad = rng.choice([None, None] + [4096 * 2 ** e + d for e in range(5) for d in (-2, -1, 0, 1)])
            data = join(rng, words, pad)
            if rng.random() < .05:
                words, data = [], rng.choice([b'', b'\n', b'\n\n\n\n'])
            path = self.put(case, data)
            how, fails = self.how(rng, case, path, data)
            case.update(kind='load', words=words, fails=fails, text='%s with %d words, %d bytes' % (how, len(words), len(data)))
            case['cmds'] = ['wload %s %d s:%d %d' % (core.hexs(how), rng.randrange(1, 5), rng.getrandbits(40), 40)]
        elif k < 7:
            # several lists in one environment, used in one pattern
            names = []
            for _ in range(rng.choice([1, 1, 2, 3, 10, 40])):
                x = rng.random()
                nm = '' if x < .05 else rng.choice(['a', 'b', 'words', 'en', 'en2', 'EN']) if x < .4 else \
                    ''.join(chr(rng.choice([rng.randrange(0x61, 0x7b), rng.randrange(0x21, 0x7f), 0xe9, 0x20ac, 0x1f600, 32]))
                            for _ in range(rng.choice([1, 2, 5, 7, 8, 9, 15, 16, 17, 40])))
                if not any(c in nm for c in '\\{}'):
                    names.append(nm)
            defs = {}
            cmds = ['envnew']
            for nm in names + [rng.choice(names)] * (rng.random() < .4) if names else []:
                words = rand_list(rng, count=rng.choice([0, 1, 2, 3, 7, 30]), valid=True)
                bad = rng.random() < .12 and words
                if bad:
                    j = rng.randrange(len(words))
                    words[j] += rng.choice([b'\xff', b'\xc3', b'\xe2\x82'])
                data = join(rng, words)
                path = self.put(case, data)
                how, fails = self.how(rng, case, path, data)
                if rng.random() < .04:
                    how, fails = self.dir, True
                defs[nm] = None if fails else words
                cmds.append('wl %s %s %d' % (core.hexs(nm), core.hexs(how), rng.randrange(1, 6)))
            uses = []
            for _ in range(rng.choice([1, 2, 3])):
                us = [rng.choice(list(defs) or ['nope']) for _ in range(rng.choice([1, 1, 2, 3]))]
                if rng.random() < .1:
                    us[rng.randrange(len(us))] = 'unknown'
                text = chr(SEP).join(rng.choice(['\\w{%s}', '(\\w{%s})', '\\w{%s}{1}']) % u for u in us)
                uses.append(us)
                cmds.append('gen e 100 s:%d %d %s' % (rng.getrandbits(40), rng.choice([3, 20]), core.hexs(text)))
            if not self.usable(defs, uses):
                return None
            case.update(kind='env', defs=defs, uses=uses, cmds=cmds + ['envnew'],
                        text=' '.join('%r: %s' % (a, b if b is None else '%d words' % len(b)) for a, b in defs.items()))
        elif k == 7:
            words = rand_list(rng, count=rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 100, 255, 256, 257, 300]), short=True,
                              valid=rng.random() < .9)
            path = self.put(case, join(rng, words))
            n = 60000 * (4 if self.tier == 'thorough' else 1) // (4 if 'san' in variant else 1)
            case.update(kind='hist', words=words, cmds=['envnew', 'wl %s %s 2' % (core.hexs('l'), core.hexs(path)),
                                                        'hist e 100 s:%d %d %s' % (rng.getrandbits(40), n, core.hexs('\\w{l}')), 'envnew'])
        elif i % 50 == 8:
            n = rng.choice([1000, 4096, 32768, 65535, 65536, 65537, 70000, 200000])
            words = [b'%x' % (j * 7 + 5) for j in range(n)]
            rng.shuffle(words)
            path = self.put(case, join(rng, words))
            m = 30000 * (4 if self.tier == 'thorough' else 1) // (3 if 'san' in variant else 1)
            case.update(kind='many', words=words, text='%d words' % n,
                        cmds=['envnew', 'wl %s %s 2' % (core.hexs('l'), core.hexs(path)),
                              'gen e 100 s:%d %d %s' % (rng.getrandbits(40), m, core.hexs('\\w{l}')), 'envnew'])
        else:
            self.tool(rng, case)
        return case

    def usable(self, defs, uses):
        return True

    def tool(self, rng, case):
        lists, args, feeds = {}, [], []
        for nm in [rng.choice(['a', 'b', 'c', 'list', 'é', 'a b']) for _ in range(rng.choice([1, 1, 2, 3]))]:
            words = rand_list(rng, count=rng.choice([1, 2, 3, 30, 400]), valid=rng.random() < .9)
            pad = rng.choice([None, None, 4095, 4096, 65536, 65537, 200000])
            data = join(rng, words, pad)
            x = rng.random()
            if x < .6:
                path = self.put(case, data)
            elif x < .85:
                path = self.put(case, b'')
                os.unlink(path)
                os.mkfifo(path)
                feeds.append((path, data))
            elif x < .9:
                path, words = self.dir, None
            elif x < .95:
                path, words = self.dir + '/missing', 'missing'
            else:
                path, words = self.put(case, rng.choice([b'', b'\n\n'])), []
            lists[nm] = words if lists.get(nm) != 'missing' else 'missing'
            if words == 'missing' or 'missing' in lists.values():
                lists[nm] = 'missing'
            args += [rng.choice(['-w', '--wordlist']), '%s:%s' % (nm, path)]
        use = [rng.choice(list(lists)) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .06:
            use[0] = 'unknown'
        n = rng.choice([1, 2, 7])
        text = chr(SEP).join('\\w{%s}' % u for u in use)
        opts = rng.choice([[], ['-r', 'xorshift:%d' % rng.getrandbits(40)]])
        case.update(kind='tool', lists=lists, use=use, n=n, text=text,
                    runs=[cli.Run(args + opts + ['-z', '-a', str(n), text], feeds=feeds)])

    def judge(self, case, resp, variant):
        what = case.get('text', '')[:600]
        kind = case['kind']
        if kind == 'load':
            r = resp[0]
            if case['fails']:
                if r[0] == 'W 0':
                    yield 'read error', 'reading %s failed, but it is accepted: %s' % (what, r[:3])
                return
            if r[0] != 'W 0':
                yield 'refused', '%s cannot be loaded: %s' % (what, r[0])
                return
            got = [core.unhex(l[3:]) for l in r[2:] if l.startswith('WW ')]
            if got != case['words'] or r[1] != 'WC %d' % len(case['words']):
                d = [j for j, (a, b) in enumerate(zip(got, case['words'])) if a != b]
                yield 'words', '%s: %s, listing %d; first difference at %s: %r instead of %r' % (
                    what, r[1], len(got), d[:1], [got[j][:80] for j in d[:1]], [case['words'][j][:80] for j in d[:1]])
                return
            for l in r:
                if l.startswith('WR ') and (l == 'WR NULL' or core.unhex(l[3:]) not in case['words']):
                    yield 'random word', '%s: %s' % (what, l[:300])
                    return
            case['nt'] = len(got)
        elif kind == 'env':
            nw = sum(1 for c in case['cmds'] if c.startswith('wl '))
            for j in range(nw):
                if resp[1 + j] != ['W 0']:
                    yield 'add', '%s: adding fails: %s' % (what, resp[1 + j])
                    return
            for us, c, r in zip(case['uses'], case['cmds'][1 + nw:], resp[1 + nw:]):
                if r[0] != 'P 0':
                    yield 'parse', '%s: %s: %s' % (what, us, r[0])
                    return
                defs = [case['defs'].get(u) for u in us]
                for l in r[1:]:
                    f = l.split()
                    if any(not d for d in defs):
                        if f[1] == '0':
                            yield 'unusable', '%s: using %r succeeds: %s' % (what, us, l[:300])
                            return
                        continue
                    if f[1] != '0':
                        if all(valid(w) for d in defs for w in d):
                            yield 'fails', '%s: using %r fails: %s' % (what, us, l[:300])
                            return
                        continue
                    parts = ''.join(map(chr, core.uncps(f[5]))).split(chr(SEP))
                    if len(parts) != len(us) or any(p.encode('utf-8', 'surrogatepass') not in d for p, d in zip(parts, defs)):
                        yield 'not a word', '%s: using %r gives %r' % (what, us, [p[:200] for p in parts])
                        return
                    e = 1
                    for d in defs:
                        e *= len(d)
                    if float(f[3]) != e:
                        yield 'entropy', '%s: using %r: entropy %s, expected %d' % (what, us, f[3], e)
                        return
                    case['nt'] += 1
        elif kind == 'many':
            place = {w: j for j, w in enumerate(case['words'])}
            n, seen = len(place), []
            for l in resp[2][1:]:
                f = l.split()
                j = place.get(''.join(map(chr, core.uncps(f[5]))).encode('utf-8', 'replace'))
                if f[1] != '0' or j is None or float(f[3]) != n:
                    yield 'not a word', '%s: %s' % (what, l)
                    return
                seen.append(j)
            for parts in (2, 50, 256):
                obs = {}
                for j in seen:
                    obs[j * parts // n] = obs.get(j * parts // n, 0) + 1
                exp = {}
                for j in range(n):
                    exp[j * parts // n] = exp.get(j * parts // n, 0) + 1
                exp = {b: Fraction(c, n) for b, c in exp.items()}
                p = core.goodness(obs, exp)
                if p < core.P_MIN:
                    yield 'distribution', '%s, in %d parts: p = %.3g: %s' % (what, parts, p, obs)
                    return
            case['nt'] = len(set(seen))
        elif kind == 'hist':
            words, r = case['words'], resp[2]
            n, good, obs = 0, {}, {}
            for w in words:
                key = w if valid(w) else None
                good[key] = good.get(key, 0) + Fraction(1, len(words))
            obs[None] = int(r[1].split()[1])
            if not obs[None]:
                del obs[None]
            for l in r[2:]:
                f = l.split()
                w = ''.join(map(chr, core.uncps(f[4]))).encode('utf-8', 'surrogatepass')
                obs[w] = int(f[1])
                if float(f[2]) != len(words) or f[3] != '0':
                    yield 'entropy', '%d words, entropy %s (%s)' % (len(words), f[2], l)
                    return
            for w in obs:
                if w not in good:
                    yield 'not a word', '%r is not in the list' % (w,)
                    return
            p = core.goodness(obs, good)
            if p < core.P_MIN:
                yield 'distribution', '%d words: p = %.3g: %s' % (len(words), p, str(sorted(
                    ((obs.get(w, 0), float(x) * sum(obs.values()), w) for w, x in good.items()),
                    key=lambda t: -abs(t[0] - t[1]))[:4]))
            case['nt'] = len(obs)
        else:
            r, run, lists = resp[0], case['runs'][0], case['lists']
            if 'missing' in lists.values():
                if r.rc == 0:
                    yield 'tool missing', '%r: %r although the list does not exist' % (run, r)
                return
            defs = [lists.get(u) for u in case['use']]
            if any(not d for d in defs):
                if r.rc == 0 or r.rc == 'timeout':
                    yield 'tool unusable', '%r: %r although a list is unusable' % (run, r)
                return
            if r.rc != 0:
                if all(valid(w) for d in defs for w in d):
                    yield 'tool fails', '%r: %r' % (run, r)
                return
            outs = r.out[:-1].split(b'\0')
            sep = chr(SEP).encode()
            if len(outs) != case['n'] or not r.out.endswith(b'\n'):
                yield 'tool output', '%r: %r' % (run, r)
                return
            for o in outs:
                parts = o.split(sep)
                if len(parts) != len(defs) or any(p not in d or not valid(p) for p, d in zip(parts, defs)):
                    yield 'tool not a word', '%r: %r' % (run, r)
                    return
            case['nt'] = len(outs)

    def nontrivial(self, case, resp):
        return (case['id'], case['kind'], case['variant_']) if case['nt'] else None

    def observe(self, case, resp, stats):
        d = stats.setdefault('words observed', {})
        d[case['kind']] = d.get(case['kind'], 0) + case['nt']
        d = stats.setdefault('cases', {})
        d[case['kind']] = d.get(case['kind'], 0) + 1
