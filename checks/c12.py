import json, os
from vlib import core, model as M
from . import c01


def utf8(seq):
    """The UTF-8 form, None if there is none."""
    try:
        return ''.join(map(chr, seq)).encode('utf-8')
    except UnicodeEncodeError:
        return None


def json_string(data):
    """Strict decoding of what is between the quotes of a JSON string, as a list
    of codepoints, or None."""
    try:
        t = '"' + data.decode('utf-8') + '"'
        s = json.loads(t, strict=True)
    except (UnicodeDecodeError, ValueError):
        return None
    if not isinstance(s, str):
        return None
    # the decoder accepts lone surrogates
    if any(0xd800 <= ord(c) < 0xe000 for c in s):
        return None
    return list(map(ord, s))


class Check(core.Base):
    pid = 'C12'
    rule = ('random patterns with wordlists and Markov chains; each generated with the same randomness through the callback, and '
            'into codepoint, UTF-8 and JSON buffers of sizes from zero to beyond what is needed, exactly allocated or with guard '
            'zones, and with callbacks that refuse at every point; the forms are compared. Non-trivial: distinct pattern and '
            'output that is not empty.')
    assumptions = ['an empty output and a failure are not distinguishable in the buffer forms']
    quick = {'san': 9000, 'rel': 3000}
    thorough = {'san': 10000, 'sanrel': 5000, 'clangsan': 6000, 'msan': 6000}

    def prepare(self):
        self.list = os.path.join(self.scratch, 'list')
        with open(self.list, 'w') as f:
            f.write('apple\nbanana\ngrün\nдом\n日本\n😀😀\n"q\\\\\n')

    def case(self, rng, i, variant):
        t = c01.rand_case(rng, '')['text']
        if rng.random() < .35:
            # characters of all kinds, needing escapes
            pool = ['\\u{0}', '\\u{1}', '\\u{1f}', '"', '\\\\', '/', '\\n', '\\u{d}', '\\u{8}', '\\u{c}', '\\t', '\\u{7f}', '\\u{80}',
                    '\\u{7ff}', '\\u{800}', '\\u{ffff}', '\\u{10000}', '\\u{10ffff}', 'a', 'é', '€', '😀', '\\u{d7ff}', '\\u{e000}']
            if rng.random() < .15:
                pool += ['\\u{d800}', '\\u{dfff}']
            t = ''.join(rng.choice(['%s', '%s{1,3}', '%s?', '(%s|x)', '[%s]']) % rng.choice(pool) for _ in range(rng.randrange(1, 14)))
        if rng.random() < .25:
            t = '(' + t + ')' + rng.choice(['\\w{a}', '\\w{a}{1,3}', '\\m{a}', '-\\m{a}?'])
        if rng.random() < .05:
            t += '\\w{unknown}'
        depth = rng.choice([1, 2, 2000, 2000, 2000])
        src = 's:%d' % rng.getrandbits(60)
        hx = core.hexs(t)
        cmds = ['envnew', 'wl 61 %s 2' % core.hexs(self.list), 'gen e %d %s 1 %s' % (depth, src, hx), 'gen - %d %s 1 %s' % (depth, src, hx)]
        for k in 'u8j':
            cmds.append('fills %s %d %s %d %s' % (k, depth, src, rng.randrange(3), hx))
        ks = [0, 1, rng.randrange(8), rng.randrange(40), rng.randrange(4000)]
        for k in ks:
            cmds.append('stop %d %d %d %s %s' % (k, rng.choice([1, -1, 5, 256]), depth, src, hx))
        cmds.append('envnew')
        return dict(text=t, ks=ks, cmds=cmds)

    def judge(self, case, resp, variant):
        what = 'pattern %r' % case['text'][:600]
        g = resp[2]
        if g[0] != 'P 0' or resp[3][0] != 'P 0':
            yield 'parse', '%s: %s' % (what, g)
            return
        a, b = g[1].split(), resp[3][1].split()
        if (a[1], a[5]) != (b[1], b[5]):
            yield 'entropy matters', '%s: %s with and %s without entropy' % (what, a, b)
            return
        ok, seq, ent = a[1] == '0', core.uncps(a[5]), float(a[3])
        case['seq'] = seq
        enc = utf8(seq)
        for kind, lines in zip('u8j', resp[4:7]):
            size = None
            for l in lines[1:]:
                t = l.split()
                cap, r, e, dirty = int(t[0]), int(t[2]), float(t[3]), t[4]
                case['fills'] = case.get('fills', 0) + 1
                where = '%s, form %s, buffer of %d' % (what, kind, cap)
                if r > cap or dirty != '0':
                    yield 'overrun', '%s: %s' % (where, l[:300])
                    return
                if not ok or kind != 'u' and enc is None:
                    if r:
                        yield 'no failure', '%s: returned %d, but the callback form fails or there is no such form' % (where, r)
                        return
                    continue
                if size is None:
                    size = r
                if cap >= size:
                    if kind == 'u':
                        good = r == len(seq) and core.uncps(t[5]) == seq
                    elif kind == '8':
                        good = core.unhex(t[5]) == enc
                    else:
                        good = json_string(core.unhex(t[5])) == list(seq)
                    if not good:
                        yield 'differs', '%s: returned %d: %s, the callback form gives %r' % (where, r, t[5][:300], seq)
                        return
                elif r:
                    yield 'incomplete', '%s: returned %d although it needs %d' % (where, r, size)
                    return
                if e != -1 and r and abs(e - ent) > 1e-9 * ent:
                    yield 'entropy', '%s: entropy %r instead of %r' % (where, e, ent)
                    return
        for k, lines in zip(case['ks'], resp[7:]):
            t = lines[1].split()
            got = core.uncps(t[3])
            if k < len(seq):
                if t[1] == '0' or int(t[2]) != k + 1 or got != seq[:k]:
                    yield 'refusal', '%s: refusing call %d gave status %s after %s calls, %r' % (what, k, t[1], t[2], got[:50])
                    return
            elif (t[1] == '0') != ok or got != seq:
                yield 'refusal', '%s: without refusal: %s, expected %r' % (what, lines[1][:300], seq)
                return

    def nontrivial(self, case, resp):
        return (case['text'], case['seq']) if case.get('seq') else None

    def observe(self, case, resp, stats):
        stats['buffers filled'] = stats.get('buffers filled', 0) + case.get('fills', 0)
        d = stats.setdefault('outputs', {})
        k = 'failed' if resp[2][-1].split()[1] != '0' else 'generated'
        d[k] = d.get(k, 0) + 1
