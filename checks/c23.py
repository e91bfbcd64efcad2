import os
from vlib import core, cli, model as M
from vlib.core import hexs

BASE = 0x4e00  # markers


class Check(cli.CliCheck):
    pid = 'C23'
    rule = ('nested patterns in which every alternative of every group starts with a marker of its own are generated without a limit '
            'and, from the same randomness, with all limits around the nesting reached: the limited run has to deliver the same up '
            'to the first marker beyond the limit, and fail there, or be the same throughout. Patterns nested up to a million '
            'levels deep are parsed, generated and released. Non-trivial: distinct patterns and limits.')
    assumptions = ['stacks of 8 MB', 'patterns are given to passgen_parse or the tool; users of the incremental parser set its limit themselves',
                   'groups all of whose alternatives have weight zero are not used (they cannot be generated at all)']
    quick = {'san': 1800, 'rel': 3600}
    thorough = {'san': 8000, 'rel': 20000, 'clangsan-x': 4000, 'debug-x': 4000}

    def prepare(self):
        self.list = os.path.join(self.scratch, 'c23list')
        with open(self.list, 'w') as f:
            f.write('ab\nabc\nxa\n')

    # ------------------------------------------------------------ patterns
    def group(self, rng, d, maxd, budget, depths):
        segs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = len(depths)
            depths.append(d)
            items = [M.Item('cp', BASE + n)]
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                if budget[0] <= 0:
                    break
                budget[0] -= 1
                x = rng.random()
                if x < .7 and d < maxd:
                    it = M.Item('group', self.group(rng, d + 1, maxd, budget, depths))
                elif x < .85:
                    it = M.Item('set', [(0x61, 0x64)])
                else:
                    it = M.Item('cp', 0x78)
                y = rng.random()
                if y < .25:
                    lo = rng.choice([0, 0, 1, 2])
                    it.rep = (lo, lo + rng.choice([0, 1, 2]))
                elif y < .4:
                    it.maybe = True
                items.append(it)
            segs.append((rng.choice([1, 1, 1, 2, 3, 0]) if segs else 1, items))
        return M.Group(segs)

    def case(self, rng, i, variant):
        k = i % 10
        if k == 9:
            return self.deep(rng, variant)
        if k == 8:
            return self.tool(rng)
        if k == 7:
            # the same nesting every time, several times in a row
            n = rng.choice([1, 2, 3, 5, 20, 100, 1000])
            left, right = '(' * n, ')' * n
            side = rng.choice(['', '(a)', '(((a)))', '(a|b){3}', 'x'])
            if rng.random() < .6:
                # many groups entered and left before and after, in all ways
                # that a branch can be empty
                side = rng.choice(['(a|)', '(|a)', '(|)', '((b|)|)', '(a{0}|b)', '([]|a?)', '({3}|{2}a)', '((|x)?|(y|))',
                                   '((a|))', '(a?)', '(((|))?)']) + rng.choice(['', '{4}', '{9}', '{60}', '{1100}', '{0,40}', '?'])
            if rng.random() < .4:
                # elements that are not groups, in great number
                side = rng.choice(['\\w{l}', '\\m{l}', '(\\w{l}|\\m{l})', '(\\w{l}?\\m{l}?)', 'a', '[a-c]', 'a?', '[]', '(\\m{l})', '\\w{l}\\m{l}a[bc]']) + \
                    rng.choice(['{4}', '{60}', '{1100}', '{0,40}', '?', '{1500}', '{500,1500}'])
            side = side if n > 3 or '(' not in side else ''
            text = side + left + 'a' + right + side
            limits = [rng.choice([0, 1, n // 2, n - 1, n, n + 1, n + 2, 1 << 20]) for _ in range(6)]
            cmds = ['gen c %d s:%d 5 %s' % (l, rng.getrandbits(40), hexs(text)) for l in limits]
            cmds = ['envnew', 'wl %s %s %d' % (hexs('l'), hexs(self.list), rng.choice([1, 2, 3]))] + cmds + ['envnew']
            return dict(cmds=cmds, runs=[], kind='repeat', n=n, limits=limits, text=text[:200])
        depths = []
        maxd = rng.choice([1, 2, 3, 4, 6, 10, 30])
        g = self.group(rng, 1, maxd, [rng.choice([5, 15, 40, 120])], depths)
        text = M.render(g, rng)
        seed = rng.getrandbits(48)
        deepest = max(depths)
        limits = sorted({0, 1, 2, 3, deepest, deepest + 1, max(0, deepest - 1), rng.randint(0, deepest + 1), 1 << 30})
        spec = rng.choice(['s:%d', 'x:%d']) % (seed or 1)
        cmds = ['gen %s 1000000 %s 1 %s' % (rng.choice('ex'), spec, hexs(text))]
        mode = rng.choice(['e', 'x'])
        cmds += ['gen %s %d %s 1 %s' % (mode, l, spec, hexs(text)) for l in limits]
        fill = rng.choice(limits)
        cmds += ['fill u 60000 %d %s 0 %s' % (fill, spec, hexs(text))]
        return dict(cmds=cmds, runs=[], kind='markers', depths=depths, limits=limits, fill=fill, text=text)

    def deep(self, rng, variant):
        n = rng.choice([1, 100, 1022, 1023, 1024, 1025, 1500, 4000, 4090, 4094, 4095, 4096, 4097, 5000, 10000, 100000] +
                       ([1000000] if variant in ('rel', 'debug-x') else []))
        form = rng.choice(['closed', 'closed', 'open', 'overclosed', 'alternatives', 'text'])
        if form == 'closed':
            text = '(' * n + 'a' + ')' * n
        elif form == 'open':
            text = '(' * n
        elif form == 'overclosed':
            text = '(' * n + ')' * n + ')'
        elif form == 'alternatives':
            text = '(b|' * n + 'a' + ')' * n
        else:
            text = '(a' * n + ')' * (n // 2)
        limit = rng.choice([1024, 1 << 40, n, n + 1, n + 2])
        return dict(cmds=['gen c %d s:%d 2 %s' % (limit, rng.getrandbits(40), hexs(text))], runs=[], kind='deep', n=n, form=form,
                    limit=limit, text='%s, %d levels' % (form, n))

    def tool(self, rng):
        n = rng.choice([0, 1, 5, 500, 1000, 1022, 1023, 1024, 1025, 2000, 5000, 30000])
        text = '(' * n + 'a' + ')' * n
        return dict(cmds=[], runs=[cli.Run([text])], kind='tool', n=n, text='%d levels, by the tool' % n)

    # ------------------------------------------------------------- judging
    def judge(self, case, resp, variant):
        kind, text = case['kind'], case['text']
        if kind == 'tool':
            r, n = resp[0], case['n']
            if n <= 1023:
                if r.rc != 0 or r.out != b'a\n':
                    yield 'tool', '%s: %r' % (text, r)
            elif r.rc not in (3, 9):
                yield 'tool', '%s: %r' % (text, r)
            return
        if kind == 'deep':
            n = case['n']
            lines = [l.split() for l in resp[0] if l[:2] in ('P ', 'S ')]
            parsed = lines[0][1] == '0'
            well = case['form'] in ('closed', 'alternatives')
            if parsed and case['form'] in ('open', 'overclosed', 'text') and n > 1:
                yield 'accepted', '%s: accepted' % text
            if well and not parsed and n <= 1500:
                yield 'refused', '%s: refused' % text
            for l in lines[1:]:
                ok = l[1] == '0'
                if case['form'] == 'closed' and ok != (n + 1 <= case['limit']):
                    yield 'limit', '%s with limit %d: %s' % (text, case['limit'], ' '.join(l))
                if case['form'] == 'alternatives' and not ok and n + 1 <= case['limit']:
                    yield 'limit', '%s with limit %d: %s' % (text, case['limit'], ' '.join(l))
            return
        if kind == 'repeat':
            need = case['n'] + 1
            for limit, r in zip(case['limits'], resp[2:]):
                got = [l.split()[1] for l in r if l.startswith('S ')]
                if len(got) != 5:
                    yield 'refused', '%s: %r' % (text, r)
                elif any((g == '0') != (need <= limit) for g in got):
                    yield 'limit', '%s with limit %d, five times: results %s' % (text, limit, got)
            return
        full = self.parsed(resp[0])
        if full is None or full[0] != 0:
            yield 'unlimited', '%s: fails without a limit: %r' % (text, resp[0][:3])
            return
        out = full[1]
        case['reached'] = 0
        for limit, r in list(zip(case['limits'], resp[1:])):
            at = self.first_beyond(out, limit, case)
            got = self.parsed(r)
            if got is None:
                yield 'refused', '%s: %r' % (text, r)
            elif at is None:
                if got != (0, out):
                    yield 'limit', '%s: limit %d suffices but result %d, %s' % (text, limit, got[0], self.show(got[1]))
            elif got[0] == 0:
                yield 'limit', '%s: nesting beyond the limit of %d not refused: %s' % (text, limit, self.show(got[1]))
            elif got[1] != out[:at]:
                yield 'prefix', '%s with limit %d: %s instead of %s' % (text, limit, self.show(got[1]), self.show(out[:at]))
        b = [l for l in resp[-1] if l.startswith('B ')][0].split()
        at = self.first_beyond(out, case['fill'], case)
        n = int(b[1])
        if len(out) <= 60000 and n != (len(out) if at is None else 0):
            yield 'fill', '%s with limit %d: filling gives %d codepoints, generating %d' % (text, case['fill'], n, len(out))

    def first_beyond(self, out, limit, case):
        if limit == 0:
            return 0
        for k, c in enumerate(out):
            if c >= BASE and case['depths'][c - BASE] > limit:
                return k
        return None

    def parsed(self, r):
        s = [l for l in r if l.startswith('S ')]
        if not s:
            return None
        t = s[0].split()
        return int(t[1]), core.uncps(t[5])

    def show(self, cps):
        return ' '.join('%x' % c for c in cps[:60])

    def nontrivial(self, case, resp):
        return list(case['cmds']) + [repr(r)[:80] + str(case['n']) for r in case['runs']]

    def observe(self, case, resp, stats):
        if case['kind'] == 'markers':
            full = self.parsed(resp[0])
            if full:
                d = max([case['depths'][c - BASE] for c in full[1] if c >= BASE] or [0])
                stats['max_nesting'] = max(stats.get('max_nesting', 0), d)
                s = stats.setdefault('nesting reached', {})
                s['%02d' % d] = s.get('%02d' % d, 0) + 1
                for r in resp[1:-1]:
                    p = self.parsed(r)
                    k = 'limited runs that fail' if p and p[0] else 'limited runs that succeed'
                    stats[k] = stats.get(k, 0) + 1
        elif case['kind'] == 'deep':
            stats['max_levels'] = max(stats.get('max_levels', 0), case['n'])
