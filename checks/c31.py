import os, stat
from vlib import core
from checks import c27, c28

# commands and which of their arguments are secret
SECRETS = {
    'verify': (1, 2), 'blake': (2, 3), 'poly': (1, 2), 'chacha': (2, 6), 'hchacha': (1, 2), 'lock': (1, 3, 4), 'stream': (2,),
    'argon': (6, 7, 8, 9), 'x25519': (1, 2), 'public': (1,), 'inverse': (1, 2), 'dirty': (1, 2), 'keypair': (1,), 'sign': (1, 2),
    'convert': (1,), 'trim': (1,), 'reduce': (1,), 'muladd': (1, 2, 3), 'base': (1,), 'map': (1,), 'rev': (3,),
}



class Check(c28.Check):
    pid = 'C31'
    rule = ('calls of the primitives that deal with secrets (keys, scalars, seeds, plaintexts, what gets hashed or compared), in '
            'optimised builds below valgrind and instrumented by MemorySanitizer. Secrets are marked as not '
            'initialised, so that both report every branch and every address that depends on them; marks are propagated through '
            'all computations. Outputs have to be right as well. Non-trivial: distinct calls.')
    assumptions = ['compiled by gcc (clang turns a conditional copy into a branch)', 'instructions whose duration depends on their operands are not considered', 'what is documented as variable time is '
                   'exempt: verification of signatures, the acceptance of messages, retries while looking for hidden keys, Argon2d and '
                   'the second half of Argon2id']
    quick = {'rel': 400, 'lto': 240, 'secret': 480}
    thorough = {'rel': 2000, 'debug': 1000, 'lto': 2000, 'secret': 3200}
    per_case = 8
    kinds = ['verify', 'verify', 'blake', 'poly', 'chacha', 'hchacha', 'lock', 'stream', 'argon', 'x25519', 'public', 'inverse', 'dirty', 'keypair',
             'sign', 'convert', 'scalar', 'base', 'map', 'rev', 'rev']
    timeout = 400

    def __init__(self, *a):
        super().__init__(*a)
        self.sym = c27.Check(*a)

    def build(self):
        super().build()
        for v, e in self.exes.items():
            if v == 'secret':
                continue
            name = e['drv'] + '.sh'
            with open(name, 'w') as f:
                f.write('#!/bin/sh\nexec valgrind -q --tool=memcheck --leak-check=no --undef-value-errors=yes --partial-loads-ok=yes '
                        '--num-callers=20 %s\n' % e['drv'])
            os.chmod(name, 0o755)
            e['drv'] = name

    def case(self, rng, i, variant):
        cmds, want, n = [], [], 0
        while len(cmds) < self.per_case:
            k = rng.choice(self.kinds)
            src = self if hasattr(self, 'op_' + k) else self.sym
            got = getattr(src, 'op_' + k)(rng)
            for c, w in ([got] if isinstance(got, tuple) else got):
                t = c.split()
                if t[0] not in SECRETS or t[0] == 'argon' and t[1] != '1':
                    continue
                if t[0] == 'stream' and any(x[0] == 'R' for x in t[4:]):
                    continue
                if t[0] == 'rev':
                    t.append('%02x' % int(t[2]))
                for k in SECRETS[t[0]]:
                    if t[k] != '-':
                        t[k] = '!' + t[k]
                if t[0] == 'stream':
                    t[4:] = [x.split(':')[0] + ':' + x.split(':')[1] + ':' + ('!' if x.split(':')[2] != '-' else '') + x.split(':')[2] for x in t[4:]]
                cmds.append(' '.join(t))
                want.append(w)
        return dict(cmds=cmds, want=want, text=str(cmds)[:1500])

    def crash(self, case, crash):
        if 'MemorySanitizer' in crash.text or crash.kind == 'exit status 77':
            name = (crash.cmd or '?').split()[0]
            lines = [l for l in crash.text.split('\n') if 'depends on' in l or ' by 0x' in l or ' at 0x' in l or '#' in l]
            return [('secret ' + name, 'a branch or an address depends on secrets: %s: %s' % (crash.cmd[:200], ' / '.join(l.strip() for l in lines[:6])))]
        return super().crash(case, crash)

    def observe(self, case, resp, stats):
        super().observe(case, resp, stats)
        n = sum(len(x) // 2 for c in case['cmds'] for x in c.replace(':', ' ').split() if x[0] == '!')
        stats['secret bytes followed'] = stats.get('secret bytes followed', 0) + n
