import errno, os
from vlib import core, crypto, cli
from . import c01


def ops_of(rng):
    ops = []
    for _ in range(rng.choice([2, 10, 60])):
        x = rng.random()
        if x < .5:
            ops.append('r%d' % rng.choice([1, 8, 16, 63, 100, 255, 256, 500, 511, 512, 513, 1000, 1022, 1023, 1024]))
        elif x < .65:
            ops.append('r%d' % rng.choice([1025, 1026, 1500, 2047, 2048, 2049, 5000]))
        elif x < .75:
            ops.append('t')
        elif x < .87:
            ops.append('u%d' % rng.choice([1, 2, 4, 8]))
        else:
            ops.append('m%d:%d' % (rng.choice([1, 2, 4, 8]), rng.choice([1, 2, 3, 10, 100, 255])))
    return ops


class Check(cli.CliCheck):
    pid = 'C08'
    rule = ('a source that fails at a chosen read, reporting an error (-1), nothing or any number of bytes less than asked for, '
            'under raw reads, integers, all forms of generation; files that end at or around what is needed, files that cannot '
            'be read; the system source failing at a chosen call (interrupted, not ready, broken) underneath the command line tool. Non-trivial: the failure was '
            'injected (distinct place, amount and consumer).')
    assumptions = ['failures of getrandom are injected below the symbol of that name']
    quick = {'debug': 4000, 'rel-x': 6000}
    thorough = {'debug': 4000, 'rel-x': 4000, 'clangrel-x': 2000, 'san': 600}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c08')
        os.makedirs(self.dir)

    def short(self, rng, i, size=None):
        """A file that ends early; returns its name and what it holds."""
        if size is None:
            size = rng.choice([0, 1, 8, 512, 1016, 1022, 1023, 1024, 1025, 1500, 2040, 2047, 2048, 2049, 3000, 4096, 8191, 10000])
        data = rng.randbytes(size)
        name = os.path.join(self.dir, 'f%s' % i)
        with open(name, 'wb') as f:
            f.write(data)
        return name, data

    def case(self, rng, i, variant):
        k = rng.randrange(10)
        if k < 5:
            at = rng.choice([0, 0, 1, 1, 2, 3, 4, 6])
            ret = rng.choice([-1, -1, 0, 1, 2, 7, 8, 256, 511, 512, 1000, 1016, 1022, 1023, rng.randrange(1024)])
            src = 'f:%d:%d:%d' % (at, ret, rng.getrandbits(60))
            cmds = []
            for _ in range(3):
                if k < 2:
                    cmds.append('fork 60 4000 rnd %s %s' % (src, ','.join(ops_of(rng))))
                    continue
                if rng.random() < .5:
                    pat = rng.choice(['[a-z]{200,4000}', 'a?{1000,5000}', '(a|b|c[x-z]{3}){600}', '([a-z]{10}){0,100}',
                                      '(a?b?|c){3000}', '[a-c]'])
                else:
                    pat = c01.rand_case(rng, '')['text']
                hx = core.hexs(pat)
                if k == 2:
                    cmds.append('fork 60 4000 gen %s 100 %s %d %s' % (rng.choice(['-', 'e']), src, rng.choice([1, 3, 50]), hx))
                elif k == 3:
                    cmds.append('fork 60 4000 fill %s %d 100 %s %d %s' % (rng.choice('u8j'), rng.choice([10, 100, 30000]),
                                                                       src, rng.randrange(3), hx))
                else:
                    cmds.append('fork 60 4000 stop %d %d 100 %s %s' % (rng.choice([3, 100, 100000]), rng.choice([1, -1]), src, hx))
            return dict(kind='lib', at=at, ret=ret, cmds=cmds, runs=[])
        if k == 5:
            name, data = self.short(rng, '%d%s' % (i, variant))
            if rng.random() < .1:
                name, data = rng.choice(['/dev/null', self.dir]), b''
            ops = ops_of(rng)
            src = rng.choice(['p:%s' % core.hexs(name), 'd:' + core.hexs('file:' + name), 'D:' + core.hexs('file:' + name)])
            return dict(kind='file', data=data, ops=ops, cmds=['fork 60 4000 rnd %s %s' % (src, ','.join(ops))], runs=[])
        # the tool. Each of the letters takes eight bytes or more.
        form = rng.choice([[], ['-j'], ['-e'], ['-z'], ['-j', '-e']])
        amount, n = rng.choice([1, 1, 2, 5, 40]), rng.choice([1, 3, 50, 126, 127, 128, 129, 200, 255, 256, 300, 1000])
        args = form + ['-a', str(amount), '[a-b]{%d}' % n]
        if k == 6:
            spec = rng.choice(['%d:-1', '%d:0', '%d:1', '%d:1023', '%d:512', '%d:1016']) % rng.choice([0, 0, 1, 1, 2, 3])
            spec += ':%d' % rng.choice([errno.EIO, errno.EINTR, errno.EINTR, errno.EAGAIN, errno.EINVAL, errno.EFAULT])
            log = os.path.join(self.dir, 'log%d%s' % (i, variant))
            return dict(kind='system', log=log, cmds=[], may_die=True, spec=spec,
                        runs=[cli.Run(args, env=dict(PASSGEN_TEST_GETRANDOM=spec, PASSGEN_TEST_LOG=log))])
        need = amount * n * 8
        size = None
        if rng.random() < .5:
            size = max(0, min(need, 20000) + rng.choice([-1, -8, -9, -1024, -1023, -1025, -512]))
        name, data = self.short(rng, '%d%s' % (i, variant), size)
        if rng.random() < .05:
            name, data = rng.choice(['/dev/null', self.dir]), b''
        env = {}
        if k == 9:
            cfg = os.path.join(self.dir, 'cfg%d%s' % (i, variant))
            os.makedirs(cfg)
            with open(os.path.join(cfg, 'passgen.conf'), 'w') as f:
                f.write('random file:%s\n' % name)
            env['XDG_CONFIG_PATH'] = cfg
        else:
            args = ['-r', 'file:' + name] + args
        return dict(kind='tool', data=data, need=need, cmds=[], may_die=True, runs=[cli.Run(args, env=env)])

    def judge(self, case, resp, variant):
        case['fired'] = 0
        if case['kind'] == 'lib':
            for c, lines in zip(case['cmds'], resp):
                f = [j for j, l in enumerate(lines) if l.startswith('F ')]
                if not f:
                    continue
                case['fired'] += 1
                for l in lines[f[0] + 1:]:
                    if not l or l.startswith('CHILD '):
                        continue
                    # generation reported the failure and emitted nothing after it
                    t = l.split()
                    if t[0] == 'S' and t[1] != '0' or t[0] == 'B' and t[1] == '0' or t[0] == 'T' and t[1] != '0' or \
                            t[0] in ('NOSRC', 'c', 'P'):
                        continue
                    yield 'after failure', 'read %d gave %d, afterwards: %s (in %s)' % (
                        case['at'], case['ret'], l[:200], c[:300])
                    return
                if 'CHILD timeout' in lines[-1] or lines[-1] == 'CHILD signal 14':
                    yield 'hang', c[:300]
        elif case['kind'] == 'file':
            lines = [l for l in resp[0] if l and not l.startswith('CHILD')]
            want = []
            try:
                b = crypto.Buffered(crypto.FileBytes(case['data']))
                for o in case['ops']:
                    if o[0] == 'r':
                        want.append('r ' + (b.read(int(o[1:])).hex() or '-'))
                    elif o[0] == 't':
                        want.append('t %d' % (b.word(1) & 128 == 0))
                    elif o[0] == 'u':
                        want.append('u %d' % b.word(int(o[1:])))
                    else:
                        want.append('m %d' % b.below(int(o[1]), int(o[3:])))
            except EOFError:
                case['fired'] = 1
            if lines == ['NOSRC']:
                return
            for j, l in enumerate(lines):
                if l.startswith('c '):
                    break
                if j >= len(want):
                    yield 'beyond the end', 'file of %d bytes, operation %d gave %s' % (len(case['data']), j, l[:200])
                    return
                if l != want[j]:
                    yield 'differs', 'file of %d bytes, operation %d gave %s, expected %s' % (
                        len(case['data']), j, l[:200], want[j][:200])
                    return
        else:
            r = resp[0]
            run = case['runs'][0]
            if case['kind'] == 'system':
                if not os.path.exists(case['log']):
                    return
                os.unlink(case['log'])
                case['fired'] = 1
                if r.rc == 0:
                    yield 'success', '%r: exits with zero although obtaining randomness failed (%s): %r' % (run, case['spec'], r)
            elif len(case['data']) < case['need']:
                case['fired'] = 1
                letters = r.out.replace(b'"output"', b'').replace(b'\x1b', b'')
                body = letters.split(b'error')[0]
                shown = body.count(b'a') + body.count(b'b')
                if b'random' in run.args or run.env.get('XDG_CONFIG_PATH'):
                    # the source may be refused and the system's used instead
                    if r.rc == 0 and len(case['data']) >= 1024:
                        yield 'success', '%r: exits with zero with %d of %d bytes: %r' % (
                            run, len(case['data']), case['need'], r)
                elif r.rc == 0:
                    yield 'success', '%r: exits with zero with %d of %d bytes: %r' % (run, len(case['data']), case['need'], r)
                elif shown * 8 > len(case['data']):
                    yield 'output', '%r: shows %d letters with %d bytes: %r' % (run, shown, len(case['data']), r)

    def nontrivial(self, case, resp):
        if not case.get('fired'):
            return None
        return [str(c) for c in case['cmds'] + case['runs']]

    def observe(self, case, resp, stats):
        d = stats.setdefault('failures injected', {})
        d[case['kind']] = d.get(case['kind'], 0) + case['fired']
        if case['kind'] == 'lib':
            d = stats.setdefault('outcomes', {})
            for r in resp:
                d[r[-1]] = d.get(r[-1], 0) + 1
        elif case['runs']:
            d = stats.setdefault('tool status', {})
            d[str(resp[0].rc)] = d.get(str(resp[0].rc), 0) + 1
