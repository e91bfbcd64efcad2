from vlib import core, model as M
from . import c01

TOKENS = ['|', '(', ')', '[', ']', '{', '}', '?', '-', ',', '0', '1', '9', '12', '3', 'a', 'b', 'z', 'é', '€', '😀',
          '\\', '\\\\', '\\n', '\\|', '\\(', '\\)', '\\[', '\\]', '\\{', '\\}', '\\?', '\\-', '\\u', '\\u{', '\\u{41}',
          '\\u{10ffff}', '\\u{0000000}', '\\u{0000041}', '\\u{000041}', '\\u{110000}', '\\u{1f600}', '\\x', '\\w{', '\\w{a}', '\\m{b}', '\\p{', '\\w', '\\a', '\\e',
          '\\d', '\\,', '\\0', '\\é', '{2}', '{2,3}', '{3,2}', '{,}', '{,3}', '{2,}', '{}', '{a}', '{1,2,3}', '{ 1}',
          '[a-z]', '[z-a]', '[]', '[a\\-b]', '[\\w]', '[a-\\z]', '(a|b)', '()', '({0}a)', '{0}', '18446744073709551615',
          '18446744073709551616', '{18446744073709551615}', '{18446744073709551616}', '{0,18446744073709551615}',
          '{1,18446744073709551615}', '{99999999999999999999}', '\n', '\x7f', '\x01']
BAD_BYTES = [b'\xff', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xc0\x80', b'\xe0\x80\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80',
             b'\x80', b'\xbf', b'\xf8\x88\x80\x80\x80', b'\xe2\x28\xa1', b'\xf0\x82\x82\xac', b'\xfe']


def hostile(rng):
    """A byte string, somewhere between valid pattern and noise."""
    k = rng.randrange(12)
    if k < 4:
        s = M.render(M.Gen(rng, budget=rng.choice([5, 15, 40])).pattern(), rng)
    elif k == 4:
        s = c01.rand_case(rng, 'x')['text']
    else:
        s = ''.join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        if not s:
            break
        p = rng.randrange(len(s) + 1)
        x = rng.randrange(4)
        if x == 0:
            s = s[:p] + s[p + 1:]
        elif x == 1:
            s = s[:p] + rng.choice(TOKENS) + s[p:]
        elif x == 2:
            s = s[:p]
        else:
            q = rng.randrange(len(s) + 1)
            s = s[:p] + s[q:q + rng.randrange(8)] + s[p:]
    if rng.random() < .35:
        # push what is interesting around the boundaries of decoding chunks
        n = rng.choice([250, 251, 252, 253, 254, 255, 256, 257, 300, 505, 509, 510, 511, 512, 513, 600, 767, 768, 769])
        unit = rng.choice(['a', 'é', '€', '😀', 'ab', '\\n', '[a-z]', '(b)', 'a{2}', '\\u{41}', 'a|', '\\|', '[\\]]', '(x|y)?'])
        pre = unit * (n // len(unit)) + 'q' * (n % len(unit))
        at = rng.choice([0, 0, 0, len(s) // 2])
        if at:
            s = s[:at] + pre[:rng.choice([100, 255, 300])] + s[at:]
        else:
            s = pre + s
    limit = 6000
    if rng.random() < .002:
        # far away from the beginning
        n = rng.choice([32766, 65533, 65534, 65535, 65536, 65537, 70000])
        unit = rng.choice(['a', 'é', '€', '😀', '\\n', '(b)', 'a|', '[x]', 'a{2}'])
        s = unit * (n // rng.choice([len(unit), len(unit.encode())])) + s
        limit = 600000
    s = s.replace('\0', '')
    b = s.encode('utf-8', 'surrogatepass')
    for _ in range(rng.choice([0] * 8 + [1, 1, 2])):
        p = rng.randrange(len(b) + 1)
        b = b[:p] + rng.choice(BAD_BYTES) + b[p + rng.choice([0, 0, 1, 2]):]
    if rng.random() < .02:
        b = bytes(rng.randrange(1, 256) for _ in range(rng.randrange(40)))
    return b.replace(b'\0', b'')[:limit]


def verdict(b):
    """(ok, offsets that may be reported) for a byte string, ok is None if
    that is left open."""
    at = None
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError as e:
        at = len(b[:e.start].decode('utf-8'))
        s = b[:e.start].decode('utf-8')
    cs = list(map(ord, s))
    r = M.parse(cs)
    if at is not None:
        offs = {at}
        if r.ok is False and r.err is not None:
            offs.add(r.err)
        elif r.ok is None:
            return False, None, r  # an error anyway, wherever it is
        return False, offs, r
    if r.ok is False:
        offs = {r.err}
        if r.err is None:
            offs = {len(cs)}
            if r.why == 'truncated':
                for t in M.tokenize(cs):
                    if isinstance(t, tuple):
                        offs.add(t[1])
        return False, offs, r
    return r.ok, None, r


class Check(core.Base):
    pid = 'C04'
    rule = ('byte strings between valid patterns and noise: rendered patterns, mutated ones, sequences of tokens, invalid '
            'UTF-8, numeric limits, long prefixes moving the interesting part across decoding chunks. Acceptance, message '
            'and error offsets are compared with an independent parser. Non-trivial: distinct string that the model has '
            'a verdict for.')
    assumptions = ['the reading of the documented grammar in vlib/model.py; no verdict where the documentation leaves it '
                   'open (stray closing brackets, ranges of ranges, unescaped specials in sets, escaped names)']
    quick = {'san': 1200}
    thorough = {'san': 12000, 'sanrel': 4000, 'clangsan': 6000}
    PER = 12

    def case(self, rng, i, variant):
        items, cmds = [], []
        for _ in range(self.PER):
            b = hostile(rng)
            items.append(b)
            cmds.append('gen - 100 s:0 0 ' + core.hexs(b))
            try:
                cmds.append('gen u 100 s:0 0 ' + core.cps(map(ord, b.decode('utf-8'))))
                items.append(b)
            except UnicodeDecodeError:
                pass
        return dict(items=items, cmds=cmds)

    def judge(self, case, resp, variant):
        c = case['count'] = {'accepted': 0, 'rejected': 0, 'open': 0}
        cache = {}
        for b, cmd, r in zip(case['items'], case['cmds'], resp):
            if b not in cache:
                cache[b] = verdict(b)
            ok, offs, res = cache[b]
            if getattr(res, 'depth', 0) > 4000:
                continue
            f = r[0].split()
            text = b.decode('utf-8', 'backslashreplace')
            if cmd.startswith('gen u'):
                if ok is not None and ok != (f[1] == '0' and f[2] == '0'):
                    yield 'acceptance', 'codepoints of %r: %s, expected %s (%s)' % (text, r[0], ok, res.why)
                continue
            c['open' if ok is None else 'accepted' if ok else 'rejected'] += 1
            if f[1] == '0':
                if ok is False:
                    yield 'accepted', '%r was accepted: %s' % (text, res.why)
                continue
            if ok is True:
                yield 'rejected', '%r was rejected: %s' % (text, r[0])
                continue
            cp, by, msg = int(f[2]), int(f[3]), f[4]
            if msg in ('NULL', '-'):
                yield 'message', '%r was rejected without message' % text
            try:
                full = b.decode('utf-8')
            except UnicodeDecodeError as e:
                full = b[:e.start].decode('utf-8')
            if cp > len(full) or by != len(full[:cp].encode('utf-8')):
                yield 'offset', '%r: offset %d does not agree with byte offset %d' % (text, cp, by)
            elif offs is not None and cp not in offs:
                yield 'location', '%r: error at %d, expected %s (%s)' % (text, cp, sorted(offs), res.why)

    def nontrivial(self, case, resp):
        return [b for b in case['items'] if b]

    def observe(self, case, resp, stats):
        for k, v in case['count'].items():
            stats[k] = stats.get(k, 0) + v
