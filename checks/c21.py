import os, re
from vlib import core, cli, build as B, crypto as X
from vlib.core import hexs


class Check(cli.CliCheck):
    pid = 'C21'
    rule = ('every block handed back to the allocator (also by the C library) while a source is opened, used and closed is searched '
            'for all 8 byte windows of its key, seed, state, buffered and delivered bytes, and so is the object after closing it; work '
            'areas of key derivation have to be blank; dead stack is searched for derived keys (in unoptimised builds only, as optimisers spill registers). The tool\'s calls of mlockall, '
            'munlockall, fopen and getrandom are traced. Non-trivial: distinct histories.')
    assumptions = ['a file handed over by the caller is unbuffered', 'registers and swapped pages are out of reach',
                   'a description string passed to the library belongs to the caller']
    programs = {'drv': (['/verif/drv/wipe.c'], ['-fno-builtin']), 'tool': (['/verif/drv/shim.c'], cli.WRAP)}
    quick = {'rel': 1000, 'clangrel-x': 600, 'lto-x': 600, 'debug-x': 200}
    thorough = {'rel': 6000, 'clangrel-x': 4000, 'lto-x': 4000, 'debug-x': 2000}

    def prepare(self):
        self.file = os.path.join(self.scratch, 'bytes')
        with open(self.file, 'wb') as f:
            f.write(self.rng(0, 'file').randbytes(1 << 20))
        self.words = os.path.join(self.scratch, 'words')
        open(self.words, 'w').write('alpha\nbeta\n')

    def case(self, rng, i, variant):
        if i % 8 == 7:
            return self.tool_case(rng)
        kind = rng.choice(['desc', 'xorshift', 'chacha', 'argon', 'path', 'file', 'custom'])
        args, config, secrets, trace = [b'', b'', b''], '-', [], []
        if kind == 'xorshift':
            seed = rng.getrandbits(64) | 1
            args[0] = b'%d' % seed
            secrets = [seed.to_bytes(8, 'little')]
        elif kind == 'chacha':
            args[0], args[1] = rng.randbytes(32), rng.randbytes(8)
            secrets = [args[0]]
        elif kind == 'argon':
            args = [bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 8, 20, 100]))),
                    bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 0, 5]))),
                    bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 0, 5])))]
            conf = None
            if rng.random() < .5:
                lanes = rng.choice([1, 1, 2])
                conf = (rng.randrange(3), rng.choice([8, 16, 20, 33]) * lanes, rng.choice([1, 2]), lanes)
                config = '%d,%d,%d,%d' % conf
            secrets = [self.key(args, conf, trace)]
            trace += secrets + [a for a in args[:1] if len(a) >= 32]
        elif kind in ('path', 'file'):
            args[0] = self.file.encode()
            secrets = [open(self.file, 'rb').read(4096 * 3)]
        elif kind == 'custom':
            args[0] = b'%d' % rng.getrandbits(63)
        else:
            k = rng.randrange(6)
            if k == 0:
                seed = rng.getrandbits(64) | 1
                args[0] = b'xorshift:%d' % seed
                secrets = [seed.to_bytes(8, 'little')]
            elif k == 1:
                key = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(32))
                args[0] = b'chacha20:' + key + b':abcdefgh'
                secrets = [key]
            elif k == 2:
                args[0] = b'chacha20-argon2:pass%d:dom:tok' % rng.getrandbits(40)
                secrets = [self.key(args[0][16:].split(b':'), None)]
            elif k == 3:
                args[0] = b'system'
            elif k == 4:
                args[0] = b'file:' + self.file.encode()
                secrets = [open(self.file, 'rb').read(4096 * 3)]
            else:
                args[0] = b'file:/dev/urandom'
        uses = [rng.choice([1, 7, 8, 64, 100, 1000, 1023, 1024, 1025, 3000, 5000, 70000]) for _ in range(rng.choice([0, 1, 3, 8]))]
        how = rng.choice(['close', 'free', 'env'])
        storage = rng.choice(['heap', 'own'])
        cmd = ' '.join([kind, storage, how] + [hexs(a) for a in args] + [
            config, ','.join(hexs(s) for s in secrets) or '-', ','.join(hexs(s) for s in trace) or '-', ','.join(map(str, uses)) or '0'])
        return dict(cmds=[cmd], runs=[], what='%s %r %s in %s storage, uses %s, then %s' % (kind, args, config, storage, uses, how))

    def key(self, args, conf, trace=None):
        a = [x.encode('latin1') if isinstance(x, str) else x for x in args]
        return X.master_key(a[0], a[1] or None, a[2] or None, *(conf or (2, 8, 8, 1)), trace)

    def tool_case(self, rng):
        args = rng.choice([['[a-z]{20}'], ['-a', '20', '[a-z]{200}'], ['-p', 'uuid'], ['-j', 'abc'], ['-r', 'system', 'x'],
                           ['-m', 'pass', '[a-z]'], ['-r', 'xorshift:5', '[a-z]'], ['-r', 'file:' + self.file, '[a-z]'],
                           ['-w', 'w:' + self.words, '\\w{w}'], ['-e', '-z', '[a-z]'], ['-h'], ['-l'], ['-a', '0', 'x'], ['(']])
        return dict(cmds=[], runs=[cli.Run(args, env={'PASSGEN_TEST_TRACE': '1'})], what='passgen %r' % args)

    def judge(self, case, resp, variant):
        if case['runs']:
            r = resp[0]
            locked = False
            for name, a, b in re.findall(rb'\[(mlockall|munlockall|munlock|getrandom|open) (-?\d+) (-?\d+)\]', r.err):
                if name == b'mlockall':
                    locked = locked or int(a) & 3 == 3
                    if int(a) & 3 != 3:
                        yield 'lock', '%s: does not lock present and future memory' % case['what']
                elif name in (b'munlockall', b'munlock'):
                    yield 'unlock', '%s: memory is unlocked' % case['what']
                elif not locked:
                    yield 'order', '%s: %s before memory was locked' % (case['what'], name.decode())
            return
        text = resp[0]
        if text == ['NOSRC']:
            yield 'open', '%s: refused' % case['what']
            return
        for l in text:
            t = l.split()
            if t[0] == 'FOUND':
                yield 'freed', '%s: block of %s bytes is released with %s windows of secrets in it' % (case['what'], t[2], t[3])
            elif t[0] == 'DIRTY':
                yield 'work area', '%s: block of %s bytes is released with %s words of key derivation in it' % (case['what'], t[1], t[2])
            elif t[0] == 'STACK' and variant.startswith('debug'):
                # (optimisers spill registers)
                yield 'stack', '%s: the derived key, or what it was derived from, is left on the stack (%s places)' % (case['what'], t[1])
            elif t[0] in ('OBJECT', 'LEFT'):
                yield 'object', '%s: %s bytes of the secrets are left in the closed object' % (case['what'], t[1])
            elif t[0] == 'ENV':
                yield 'env', case['what']
        if not text or not text[-1].startswith('OK'):
            raise core.HarnessError('response %r' % text)

    def observe(self, case, resp, stats):
        if case['runs']:
            n = len(re.findall(rb'\[(mlockall|getrandom|open) ', resp[0].err))
            stats['calls traced'] = stats.get('calls traced', 0) + n
            if b'[mlockall' in resp[0].err:
                stats['runs that lock memory'] = stats.get('runs that lock memory', 0) + 1
            return
        t = resp[0][-1].split()
        for k, v in zip(('blocks searched', 'bytes searched', 'secret windows', 'work areas'), t[1:]):
            stats[k] = stats.get(k, 0) + int(v)

    def nontrivial(self, case, resp):
        return case['cmds'] + [repr(r) for r in case['runs']]

    def finish(self, stats):
        if not stats.get('work areas'):
            raise core.HarnessError('no work area was seen')
        return ()
