import os
from fractions import Fraction
from vlib import core, cli, model as M

ALIAS = [3, 21, 357, 13209, 3 * 7 * 17 * 37 * 79]


class Chain:
    """What follows what."""

    def __init__(self, level):
        self.level, self.next = level, {}

    def add(self, word, weight=1):
        seq = (0,) * self.level + tuple(word) + (0,)
        for i in range(len(word) + 1):
            d = self.next.setdefault(seq[i:i + self.level], {})
            d[seq[i + self.level]] = d.get(seq[i + self.level], 0) + weight

    def walk(self, word, end=True):
        """Reciprocal of the probability of a word, None if it is impossible."""
        win, e = (0,) * self.level, Fraction(1)
        for c in tuple(word) + ((0,) if end else ()):
            d = self.next.get(win, {})
            if not d.get(c):
                return None
            e *= Fraction(sum(d.values()), d[c])
            win = (win + (c,))[1:]
        return e

    def distribution(self, limit):
        """The most likely words, those left out are counted as None."""
        done, todo, steps = {}, [(Fraction(1), (), (0,) * self.level)], 0
        while todo and len(done) < limit and steps < 4000:
            steps += 1
            todo.sort(key=lambda t: t[0])
            p, word, win = todo.pop()
            d = self.next[win]
            t = sum(d.values())
            for c, n in d.items():
                if n and c:
                    todo.append((p * n / t, word + (c,), (win + (c,))[1:]))
                elif n:
                    done[word] = p * n / t
        rest = 1 - sum(done.values())
        if rest:
            done[None] = rest
        return done


def close(a, b):
    """Whether a double is what multiplying and dividing step by step gives."""
    return a == float('inf') or abs(Fraction(a) - b) <= b / 10 ** 9


def alphabet(rng):
    k = rng.randrange(6)
    if k == 0:
        return [rng.randrange(0x61, 0x7b) for _ in range(rng.choice([1, 2, 3, 5, 20]))]
    if k == 1:
        b, step = rng.randrange(0x21, 0x400), rng.choice(ALIAS)
        out = [b + j * step for j in range(rng.choice([2, 3, 4, 8, 30]))]
    elif k == 2:
        out = [M.rand_cp(rng) for _ in range(rng.choice([2, 5, 40]))]
    elif k == 3:
        b = rng.choice([0x21, 0x3b1, 0x4e00, 0x10000])
        out = list(range(b, b + rng.choice([2, 3, 4, 7, 8, 17, 18, 40])))
    elif k == 4:
        b = rng.randrange(0x30, 0x3000)
        out = [b + j * s for s in ALIAS for j in range(rng.choice([1, 2, 3]))]
    else:
        out = [1, 0x10ffff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x7f, 0x80]
    return [c for c in out if 0 < c < 0x110000 and not 0xd800 <= c < 0xe000 and c != 10] or [0x61]


def rand_words(rng, n=None, maxlen=None):
    al = alphabet(rng)
    n = n or rng.choice([1, 1, 2, 3, 5, 20, 100])
    out = []
    for _ in range(n):
        x = rng.random()
        ln = rng.randrange(1, 8) if x < .8 else rng.choice([1, 2, 16, 30, 64, 100])
        if maxlen:
            ln = min(ln, maxlen)
        out.append(tuple(rng.choice(al) for _ in range(ln)))
    if rng.random() < .3:
        out += [out[0]] * rng.randrange(1, 4)
    if rng.random() < .2:
        out.append(out[0] + out[-1])
    return out


class Check(cli.CliCheck):
    pid = 'C15'
    rule = ('random words over alphabets of all kinds (including codepoints that collide in the tables used), with weights, of '
            'lengths below and above the chain length, chain lengths 1 to 255. What follows a sequence is compared with the '
            'counts taken from the words (support, frequencies, entropy), as are words generated by following the chain, by '
            'patterns and by the tool, and whole word distributions. Non-trivial: distinct sequence or word observed.')
    assumptions = ['the weights of one successor sum up to less than 2^32',
                   'deviations of a frequency smaller than about one percent can go unnoticed']
    quick = {'san': 1200, 'rel': 600}
    thorough = {'san': 8000, 'rel': 5000, 'msan': 1000, 'clangsan': 1500}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c15')
        os.makedirs(self.dir)

    def cleanup(self, case):
        for p in case.get('files', ()):
            os.unlink(p)

    def put(self, case, i, variant, words, rng):
        p = os.path.join(self.dir, 'm%d-%s-%d' % (i, variant, len(case['files'])))
        with open(p, 'wb') as f:
            f.write('\n'.join(''.join(map(chr, w)) for w in words).encode() + b'\n' * rng.randrange(3))
        case['files'].append(p)
        return p

    def case(self, rng, i, variant):
        if i % 60 == 29:
            return self.many(rng, i, variant)
        if i % 20 == 7:
            return self.unusable(rng, i, variant)
        k = i % 6
        case = dict(files=[], cmds=[], runs=[], obs=[])
        src = lambda: 's:%d' % rng.getrandbits(50)
        if k == 0:
            al, ops, counts, total = alphabet(rng) + [0], [], {}, 0
            for _ in range(rng.choice([1, 5, 40])):
                c = rng.choice(al)
                if rng.random() < .7:
                    w = rng.choice([1, 1, 2, 3, 0, 1000, 2 ** 28])
                    if counts.get(c, 0) + w >= 2 ** 32:
                        w = 0
                    counts[c] = counts.get(c, 0) + w
                    total += w
                    ops.append('%x:%d' % (c, w))
                else:
                    ops.append('%x' % c)
            case.update(kind='leaf', ops=ops, total=total, cmds=['mk leaf ' + ','.join(ops)])
            return case
        level = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16]) if rng.random() < .93 else rng.choice([31, 64, 127, 128, 200, 254, 255])
        chain = Chain(level)
        if k in (1, 2):
            words = rand_words(rng)
            cmds = ['mk new %d' % level]
            for w in words:
                wt = 1 if rng.random() < .5 else rng.choice([0, 2, 3, 10, 1000, 2 ** 20, 2 ** 31, 2 ** 32 - 1])
                if wt >= 2 ** 20:
                    # stay below the documented range of a single count
                    t = Chain(level)
                    t.next = {a: dict(b) for a, b in chain.next.items()}
                    t.add(w, wt)
                    if max(max(d.values()) for d in t.next.values()) >= 2 ** 32:
                        wt = 1
                chain.add(w, wt)
                if max(max(d.values()) for d in chain.next.values()) >= 2 ** 32:
                    return None
                cmds.append('mk add %d %s' % (wt, core.cps(w)))
            if rng.random() < .2:
                chain.add((), 3)
                cmds.append('mk add 3 -')
            wins = sorted(w for w in chain.next if sum(chain.next[w].values()))
            if not wins:
                return None
            rng.shuffle(wins)
            wins = wins[:6]
            case.update(kind='chain', chain=chain, wins=wins, nw=len(cmds))
            n = 20000 * (5 if self.tier == 'thorough' else 1)
            cmds += ['mk next %s %d %s' % (src(), n, core.cps(w)) for w in wins]
            if sum(chain.next.get((0,) * level, {}).values()):
                cmds.append('mk walk %s %d %d' % (src(), 30, rng.choice([10, 300])))
            case['cmds'] = cmds + ['mk free']
        elif k == 3:
            words = rand_words(rng)
            if rng.random() < .15:
                level = chain.level = rng.choice([1, 2])
                words = [(0x61,) * rng.choice([200, 3000, 9000]), (0x62, 0x63)]
            for w in words:
                chain.add(w)
            p = self.put(case, i, variant, words, rng)
            text = rng.choice(['\\m{l}', 'x\\m{l}', '(\\m{l}|\\m{l})', '\\m{l}?\\m{l}?x'][:2])
            case.update(kind='env', chain=chain, text=text,
                        cmds=['envnew', 'wl %s %s %d' % (core.hexs('l'), core.hexs(p), level),
                              'gen e 100 %s 40 %s' % (src(), core.hexs(text)), 'envnew'])
        elif k == 4:
            words = rand_words(rng, n=rng.choice([1, 2, 3, 4]), maxlen=6)
            level = chain.level = min(level, 5)
            for w in words:
                chain.add(w)
            p = self.put(case, i, variant, words, rng)
            q = self.put(case, i, variant, rand_words(rng), rng)
            n = (40000 if self.tier == 'thorough' else 15000) // (3 if 'san' in variant else 1)
            both = rng.random() < .3
            case.update(kind='hist', chain=chain, dist=chain.distribution(120),
                        cmds=['envnew', 'wl %s %s %d' % (core.hexs('l'), core.hexs(p), level),
                              'wl %s %s %d' % (core.hexs('other'), core.hexs(q), 1 + level % 5)] +
                             (['gen e 100 s:1 3 ' + core.hexs('\\m{other}\\w{l}')] if both else []) +
                             ['hist e 100 %s %d %s' % (src(), n, core.hexs('\\m{l}')), 'envnew'])
        else:
            words = rand_words(rng)
            p = self.put(case, i, variant, words, rng)
            level2 = rng.choice([1, 2, 3, 255])
            words2 = rand_words(rng)
            p2 = self.put(case, i, variant, words2, rng)
            chain2 = Chain(level2)
            for w in words2:
                chain2.add(w)
            if rng.random() < .3:
                level = chain.level = 3
                args = []
            else:
                args = [rng.choice(['-M', '--markov-length']), str(level)]
            for w in words:
                chain.add(w)
            args += ['-w', 'l:' + p, '-M', str(level2), '-w', 'k:' + p2]
            which = rng.random() < .5
            case.update(kind='tool', chain=chain2 if which else chain, n=20,
                        runs=[cli.Run(args + ['-a', '20', '-z', '\\m{%s}' % ('k' if which else 'l')])])
        return case

    def many(self, rng, i, variant):
        """Very many successors, and very many nodes."""
        case = dict(files=[], runs=[], obs=[])
        level = rng.choice([1, 1, 2, 3])
        n = rng.choice([255, 256, 257, 1000, 5000, 32769, 65536, 70000])
        base, step = rng.choice([(0x100, 1), (0x10000, 1), (0x4000, 3), (0x30000, 2)])
        cp = lambda j: base + step * j + (0x800 if base + step * j >= 0xd800 else 0)
        words = [(cp(j),) + ((cp((j * 5 + 1) % n), 0x61) if rng.random() < .4 else ()) for j in range(n)]
        rng.shuffle(words)
        chain = Chain(level)
        for w in words:
            chain.add(w)
        p = self.put(case, i, variant, words, rng)
        m = 20000 if n < 2000 else 5000 if n < 30000 else 1500
        case.update(kind='many', chain=chain, place=cp, count=n, text='\\m{l}',
                    cmds=['envnew', 'wl %s %s %d' % (core.hexs('l'), core.hexs(p), level),
                          'gen e 100 s:%d %d %s' % (rng.getrandbits(40), m, core.hexs('\\m{l}')), 'envnew'])
        return case

    def unusable(self, rng, i, variant):
        """Lists that no word can be made from, because there is none, or because
        what is in there is not text."""
        case = dict(files=[], cmds=[], runs=[], obs=[], kind='unusable')
        lines = [''.join(map(chr, w)).encode() for w in rand_words(rng)]
        why = rng.choice(['invalid', 'invalid', 'invalid', 'empty', 'unknown'])
        if why == 'empty':
            lines = [b''] * rng.randrange(3)
        elif why == 'invalid':
            for _ in range(rng.choice([1, 1, 1, 3])):
                bad = rng.choice([b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xf0\x9f\x98'])
                w = rng.choice(lines + [b''])
                k = rng.randrange(len(w) + 1)
                lines.insert(rng.choice([0, len(lines), rng.randrange(len(lines) + 1)]), rng.choice([w + bad, bad + w, w[:k] + bad + w[k:] + b'\xff']))
        p = os.path.join(self.dir, 'm%d-%s-u' % (i, variant))
        with open(p, 'wb') as f:
            f.write(b'\n'.join(lines) + b'\n' * rng.randrange(2))
        case['files'].append(p)
        level, name = rng.choice([1, 2, 3, 8, 255]), 'k' if why == 'unknown' else 'l'
        case['why'] = (why, level, tuple(lines))
        if rng.random() < .7:
            case['cmds'] = ['envnew', 'wl %s %s %d' % (core.hexs('l'), core.hexs(p), level),
                            'gen e 100 s:%d 4 %s' % (rng.getrandbits(40), core.hexs('\\m{%s}' % name)), 'envnew']
        else:
            case['runs'] = [cli.Run(['-M', str(level), '-w', 'l:' + p, '\\m{%s}' % name])]
        return case

    def judge(self, case, resp, variant):
        kind = case['kind']
        if kind == 'unusable':
            if case['runs']:
                r = resp[0]
                if r.rc == 0 or r.out.strip(b'\n'):
                    yield 'unusable', '%r: %r for %s' % (case['runs'][0], r, str(case['why'])[:300])
            else:
                if len(resp[2]) != 5 or resp[2][0] != 'P 0' or any(l.split()[1] == '0' for l in resp[2][1:]):
                    yield 'unusable', '%s for %s' % (resp[2], str(case['why'])[:300])
            case['obs'] = [case['why']]
            return
        if kind == 'leaf':
            counts, exp = {}, []
            for o in case['ops']:
                c, _, w = o.partition(':')
                if w:
                    counts[c] = counts.get(c, 0) + int(w)
                else:
                    exp.append('Q %d' % counts.get(c, 0))
            exp.append('QT %d' % case['total'])
            if resp[0] != exp:
                yield 'leaf', '%s: %s, expected %s' % (case['cmds'], resp[0], exp)
            case['obs'] = [(tuple(case['ops']),)]
            return
        chain = case['chain']
        if kind == 'chain':
            for win, c, r in zip(case['wins'], case['cmds'][case['nw']:], resp[case['nw']:]):
                d = {a: b for a, b in chain.next[win].items() if b}
                t = sum(d.values())
                obs = {}
                for l in r:
                    f = l.split()
                    cp = int(f[4], 16)
                    obs[cp] = int(f[1])
                    if cp not in d:
                        yield 'support', 'level %d, after %s: %x never follows' % (chain.level, win[-6:], cp)
                        return
                    if f[3] != '0' or not close(float(f[2]), Fraction(t, d[cp])):
                        yield 'entropy', 'level %d, after %s: entropy of %x is %s, expected %d/%d' % (
                            chain.level, win[-6:], cp, f[2], t, d[cp])
                        return
                p = core.goodness(obs, {a: Fraction(b, t) for a, b in d.items()})
                if p < core.P_MIN:
                    yield 'distribution', 'level %d, after %s: p = %.3g, observed %s, counts %s (%s)' % (
                        chain.level, win[-6:], p, str(obs)[:400], str(d)[:400], c[:100])
                    return
                case['obs'].append((chain.level, win))
            for l in resp[case['nw'] + len(case['wins'])][:] if len(resp) > case['nw'] + len(case['wins']) + 1 else ():
                f = l.split()
                word = core.uncps(f[3])
                e = chain.walk(word, end=f[2] == '0')
                if e is None:
                    yield 'walk', 'level %d: %s cannot be generated' % (chain.level, word[:100])
                    return
                if not close(float(f[1]), e):
                    yield 'walk entropy', 'level %d: %s: entropy %s, expected %g' % (chain.level, word[:100], f[1], e)
                    return
                case['obs'].append(word)
        elif kind == 'many':
            n, cp = case['count'], case['place']
            place = {cp(j): j for j in range(n)}
            firsts = []
            for l in resp[2][1:]:
                f = l.split()
                word = core.uncps(f[5])
                e = chain.walk(word) if f[1] == '0' else None
                if e is None or not close(float(f[3]), e):
                    yield 'word', '%d successors: %s, entropy expected %s' % (n, l[:300], e and float(e))
                    return
                firsts.append(place[word[0]])
                case['obs'].append(word)
            for parts in (2, 50):
                obs, exp = {}, {}
                for j in firsts:
                    obs[j * parts // n] = obs.get(j * parts // n, 0) + 1
                for j in range(n):
                    exp[j * parts // n] = exp.get(j * parts // n, 0) + Fraction(1, n)
                p = core.goodness(obs, exp)
                if p < core.P_MIN:
                    yield 'distribution', '%d successors, in %d parts: p = %.3g: %s' % (n, parts, p, obs)
                    return
        elif kind == 'env':
            for l in resp[2][1:]:
                f = l.split()
                word = core.uncps(f[5]) if f[1] == '0' else None
                if word is None:
                    yield 'fails', '%s: %s' % (case['text'], l[:300])
                    return
                if case['text'][0] == 'x':
                    if word[:1] != (0x78,):
                        yield 'prefix', '%s gives %s' % (case['text'], word[:100])
                        return
                    word = word[1:]
                e = chain.walk(word)
                if e is None:
                    yield 'word', 'level %d: %s (%d codepoints) cannot be generated' % (chain.level, word[:100], len(word))
                    return
                if not close(float(f[3]), e):
                    yield 'word entropy', 'level %d: %s: entropy %s, expected %g' % (chain.level, word[:100], f[3], e)
                    return
                case['obs'].append(word)
        elif kind == 'hist':
            r = resp[-2]
            if r[:2] != ['P 0', 'HF 0']:
                yield 'fails', '%s: %s' % (case['cmds'], r[:2])
                return
            obs = {}
            for l in r[2:]:
                f = l.split()
                word = core.uncps(f[4])
                e = chain.walk(word)
                if e is None or not close(float(f[2]), e) or f[3] != '0':
                    yield 'word', 'level %d: %s, entropy %s, expected %s' % (chain.level, word[:100], f[2], e and float(e))
                    return
                k = word if word in case['dist'] else None
                obs[k] = obs.get(k, 0) + int(f[1])
                case['obs'].append(word)
            p = core.goodness(obs, case['dist'])
            if p < core.P_MIN:
                n = sum(obs.values())
                yield 'distribution', 'level %d: p = %.3g, %s' % (chain.level, p, sorted(
                    ((obs.get(k, 0), float(v) * n, k) for k, v in case['dist'].items()), key=lambda t: -abs(t[0] - t[1]))[:4])
        else:
            r = resp[0]
            if r.rc != 0 or not r.out.endswith(b'\n'):
                yield 'tool', '%r: %r' % (case['runs'][0], r)
                return
            outs = r.out[:-1].split(b'\0')
            if len(outs) != case['n']:
                yield 'tool', '%r: %d outputs' % (case['runs'][0], len(outs))
                return
            for o in outs:
                word = tuple(map(ord, o.decode()))
                if chain.walk(word) is None:
                    yield 'tool word', '%r: %r cannot be generated with chain length %d' % (case['runs'][0], o[:200], chain.level)
                    return
                case['obs'].append(word)

    def nontrivial(self, case, resp):
        return list(set(case['obs']))

    def observe(self, case, resp, stats):
        d = stats.setdefault('observed', {})
        d[case['kind']] = d.get(case['kind'], 0) + len(case['obs'])
        if 'chain' in case:
            stats.setdefault('chain lengths', set()).add(case['chain'].level)
            stats['max_word'] = max(stats.get('max_word', 0), max([len(w) for w in case['obs'] if isinstance(w, tuple)] or [0]))
