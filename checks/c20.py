import os, pty, re, select, signal, socket, subprocess, time
from vlib import core, cli

NOBODY = 65534
# system calls the sandbox needs, or that could be permitted without giving
# anything away: nothing is concluded from their fate
HARMLESS = set('''read readv lseek fstat newfstatat open openat close getrandom exit exit_group brk munmap mremap ioctl write writev mmap
stat lstat statx statfs fstatfs poll select pselect6 ppoll mprotect madvise mincore msync rt_sigprocmask rt_sigaction
rt_sigpending rt_sigreturn sched_yield nanosleep clock_gettime clock_getres clock_nanosleep gettimeofday time getpid getppid
getuid getgid geteuid getegid gettid getpgrp getpgid getsid getresuid getresgid getgroups uname getcwd getrlimit prlimit64
sysinfo times getrusage futex futex_waitv futex_wake futex_wait futex_requeue set_robust_list get_robust_list rseq set_tid_address
arch_prctl access faccessat faccessat2 readlink readlinkat pread64 preadv preadv2 fadvise64 readahead getdents getdents64
restart_syscall mlock mlock2 mlockall munlock munlockall membarrier getcpu sched_getaffinity getpriority capget sigaltstack
sched_getscheduler sched_getparam sched_get_priority_max sched_get_priority_min sched_rr_get_interval sched_getattr
dup fcntl epoll_create epoll_create1 eventfd eventfd2 cachestat mseal lookup_dcookie getitimer alarm pause rt_sigsuspend
get_mempolicy map_shadow_stack vhangup syslog getxattr lgetxattr fgetxattr listxattr llistxattr flistxattr
ustat sysfs oldstat epoll_wait epoll_pwait epoll_pwait2 rt_sigtimedwait flock sync_file_range remap_file_pages
getxattrat listxattrat file_getattr'''.split())


def numbers():
    out = {}
    for p in ('/usr/include/x86_64-linux-gnu/asm/unistd_64.h', '/usr/include/asm/unistd_64.h'):
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'#define __NR_(\w+)\s+(\d+)', l)
                if m:
                    out[m.group(1)] = int(m.group(2))
            return out
    raise core.HarnessError('no list of system calls')


NR = numbers()
AT = '-100'


def S(text):
    return 's' + text.encode().hex()


def probes(d):
    """(name, calls, forbidden): calls separated by semicolons, of which the last one is in question."""
    f, new = S(d + '/victim'), S(d + '/new')
    n = NR

    def call(name, *args):
        return ','.join([str(n[name])] + [str(a) for a in args])
    bad, good = [], []
    # creating, changing files
    for label, fl in [('wronly', 1), ('rdwr', 2), ('wronly|creat', 0o101), ('rdonly|creat', 0o100), ('rdonly|trunc', 0o1000),
                      ('rdwr|creat|excl', 0o302), ('wronly|append', 0o2001), ('rdwr|trunc', 0o1002), ('tmpfile', 0o20200002),
                      ('wronly|largefile', 0o100001), ('accmode 3', 3), ('rdwr|largefile', 0o100002), ('rdwr|cloexec', 0o2000002)]:
        path = new if fl & 0o100 else S(d) if 'tmp' in label else f
        bad.append(('openat ' + label, call('openat', AT, path, fl, 0o600)))
        bad.append(('open ' + label, call('open', path, fl, 0o600)))
    bad.append(('creat', call('creat', new, 0o600)))
    bad.append(('openat2', call('openat2', AT, f, 'b', 24)))
    for name, args in [('truncate', (f, 0)), ('ftruncate', (3, 0)), ('unlink', (f,)), ('unlinkat', (AT, f, 0)), ('rename', (f, new)),
                       ('renameat', (AT, f, AT, new)), ('renameat2', (AT, f, AT, new, 0)), ('link', (f, new)), ('linkat', (AT, f, AT, new, 0)),
                       ('symlink', (f, new)), ('symlinkat', (f, AT, new)), ('mkdir', (new, 0o700)), ('mkdirat', (AT, new, 0o700)),
                       ('rmdir', (new,)), ('chmod', (f, 0o600)), ('fchmodat', (AT, f, 0o600)), ('chown', (f, NOBODY, NOBODY)),
                       ('mknod', (new, 0o10600, 0)), ('mknodat', (AT, new, 0o10600, 0)), ('utimensat', (AT, f, 0, 0)), ('utime', (f, 0)),
                       ('setxattr', (f, S('user.a'), S('x'), 1, 0)), ('chdir', (S(d),)), ('chroot', (S(d),)), ('umask', (0o22,)),
                       # writing elsewhere
                       ('write', (0, S('x'), 1)), ('write', (3, S('x'), 1)), ('write', (4, S('x'), 1)), ('write', (-1, S('x'), 1)),
                       ('write', (1000, S('x'), 1)), ('writev', (0, 'v78', 1)), ('writev', (3, 'v78', 1)), ('writev', (-1, 'v78', 1)),
                       ('pwrite64', (3, S('x'), 1, 0)), ('pwritev', (3, 'v78', 1, 0)), ('pwritev2', (3, 'v78', 1, 0, 0, 0)),
                       ('sendfile', (1, 3, 0, 0)), ('splice', (0, 0, 1, 0, 0, 0)), ('vmsplice', (1, 'v78', 1, 0)), ('tee', (0, 1, 0, 0)),
                       ('copy_file_range', (3, 0, 1, 0, 0, 0)), ('fallocate', (3, 0, 0, 1)),
                       # processes and signals
                       ('fork', ()), ('clone', (17, 0, 0, 0, 0)), ('clone3', ('b', 88)), ('execve', (S('/nonexistent'), 0, 0)),
                       ('execveat', (AT, S('/nonexistent'), 0, 0, 0)), ('kill', ('p', 0)), ('tkill', ('p', 0)), ('tgkill', ('p', 'p', 0)),
                       ('rt_sigqueueinfo', ('p', 0, 'b')), ('pidfd_open', ('p', 0)), ('pidfd_send_signal', (-1, 0, 0, 0)),
                       ('ptrace', (-1, 0, 0, 0)), ('process_vm_readv', ('p', 0, 0, 0, 0, 0)), ('process_vm_writev', ('p', 0, 0, 0, 0, 0)),
                       ('prctl', (39, 0, 0, 0, 0)), ('seccomp', (2, 0, 'b')), ('setuid', (NOBODY,)), ('unshare', (0,)), ('setns', (-1, 0)),
                       # network
                       ('socket', (1, 1, 0)), ('socket', (2, 1, 0)), ('socket', (2, 2, 0)), ('socket', (10, 1, 0)), ('socket', (16, 3, 0)),
                       ('socketpair', (1, 1, 0, 'b')), ('connect', (3, 'b', 16)), ('bind', (3, 'b', 16)), ('listen', (3, 1)),
                       ('accept', (3, 0, 0)), ('sendto', (1, S('x'), 1, 0, 0, 0)), ('sendmsg', (1, 'b', 0)), ('recvfrom', (0, 'b', 1, 64, 0, 0)),
                       ('recvmsg', (0, 'b', 64)), ('shutdown', (1, 3)),
                       ('pipe', ('b',)), ('pipe2', ('b', 0)), ('dup2', (3, 1)), ('memfd_create', (S('x'), 0)),
                       ('io_uring_setup', (1, 'b')), ('io_setup', (1, 'b')), ('bpf', (0, 'b', 8)), ('userfaultfd', (1,)), ('perf_event_open', ('b', 0, -1, -1, 0)),
                       ('shmget', (0, 4096, 0o1600)), ('mq_open', (S('x'), 0, 0, 0)), ('keyctl', (0, 0)), ('inotify_init', ()), ('timer_create', (1, 0, 'b')),
                       # executable or shared memory
                       ('mmap', (0, 4096, 7, 0x22, -1, 0)), ('mmap', (0, 4096, 5, 0x22, -1, 0)), ('mmap', (0, 4096, 4, 0x22, -1, 0)),
                       ('mmap', (0, 4096, 6, 0x22, -1, 0)), ('mmap', (0, 4096, 3, 0x21, -1, 0)), ('mmap', (0, 4096, 7, 0x21, -1, 0)),
                       ('mmap', (0, 4096, 7, 0x02, 3, 0)), ('mmap', (0, 4096, 3, 0x01, 3, 0)), ('mmap', (0x10000000, 4096, 7, 0x32, -1, 0)),
                       ('mmap', (0, 4096, 0x1000007, 0x22, -1, 0)),
                       # terminals and others
                       ('ioctl', (0, 0x5412, S('x'))), ('ioctl', (1, 0x5412, S('x'))), ('ioctl', (2, 0x5412, S('x'))),
                       ('ioctl', (1, 0x5414, 'b')), ('ioctl', (1, 0x5402, 'b')), ('ioctl', (0, 0x5421, 'b')), ('ioctl', (1, 0x540e, 0)),
                       ('ioctl', (3, 0x40049409, 0))]:
        if name in n:
            bad.append(('%s %s' % (name, ','.join(str(a) if not str(a).startswith('s') else '*' for a in args)), call(name, *args)))
    for fd in (0, 1, 2):
        bad.append(('close %d' % fd, call('close', fd)))
    bad.append(('mprotect exec', call('mmap', 0, 4096, 3, 0x22, -1, 0) + ';' + call('mprotect', 'r', 4096, 5)))
    bad.append(('mprotect wx', call('mmap', 0, 4096, 3, 0x22, -1, 0) + ';' + call('mprotect', 'r', 4096, 7)))
    bad.append(('pkey_mprotect', call('mmap', 0, 4096, 3, 0x22, -1, 0) + ';' + call('pkey_mprotect', 'r', 4096, 7, -1)))
    bad.append(('mapping a file executable', call('openat', AT, f, 0) + ';' + call('mmap', 0, 4096, 5, 2, 'r', 0)))
    bad.append(('write to an opened file', call('openat', AT, f, 0) + ';' + call('write', 'r', S('x'), 1)))
    # the other interfaces
    for name in ('open', 'openat', 'socket', 'unlink', 'write', 'execve'):
        bad.append(('x32 ' + name, '%d,%s,%s,%s' % (n[name] | 0x40000000, f, f, 1)))
    for name, k in (('open', 5), ('write', 4), ('fork', 2), ('unlink', 10), ('execve', 11), ('socketcall', 102), ('mprotect', 125)):
        bad.append(('int80 ' + name, 'x%d,0,1,1' % k))
    # what has to work
    good += [('openat', call('openat', AT, f, 0)), ('read', call('openat', AT, f, 0) + ';' + call('read', 'r', 'b', 100)),
             ('close', call('openat', AT, f, 0) + ';' + call('close', 'r')), ('fstat', call('fstat', 1, 'b')),
             ('newfstatat', call('newfstatat', AT, f, 'b', 0)), ('lseek', call('openat', AT, f, 0) + ';' + call('lseek', 'r', 0, 0)),
             ('write 1', call('write', 1, S('x'), 1)), ('write 2', call('write', 2, S('x'), 1)), ('writev 1', call('writev', 1, 'v78', 1)),
             ('getrandom', call('getrandom', 'b', 256, 0)), ('brk', call('brk', 0)),
             ('mmap', call('mmap', 0, 1 << 20, 3, 0x22, -1, 0)), ('mremap', call('mmap', 0, 4096, 3, 0x22, -1, 0) + ';' + call('mremap', 'r', 4096, 1 << 20, 1)),
             ('munmap', call('mmap', 0, 4096, 3, 0x22, -1, 0) + ';' + call('munmap', 'r', 4096))]
    out = [(a, b, True) for a, b in bad] + [(a, b, False) for a, b in good]
    for k in sorted(NR, key=NR.get):
        if k not in HARMLESS and k not in ('exit', 'exit_group'):
            out.append(('number %d (%s)' % (NR[k], k), '%d,-1,-1,-1,-1,-1,-1' % NR[k], True))
    for k in (470, 480, 500, 512, 520, 547, 1000, 65535, 0x40000000, 0x7fffffff):
        if k not in NR.values():
            out.append(('number %d' % k, '%d,-1,-1,-1,-1,-1,-1' % k, True))
    return out


POINTS = ['early', 'options', 'random']
FEATURES = [
    # arguments, status, output expected on standard output
    (['[a-z]{20}'], 0, rb'[a-z]{20}\n'),
    (['-a', '500', '[a-z]{200}'], 0, rb'([a-z]{200}\n){500}'),
    (['-a', '3', '-z', 'abc'], 0, rb'abc\0abc\0abc\n'),
    (['-j', '-a', '3', 'abc'], 0, rb'\[\s*(\{\s*"output":\s*"abc"\s*\},?\s*){3}\]\s*'),
    (['-e', 'abc'], 0, rb'abc\n'),
    (['-h'], 0, None), (['-v'], 0, None), (['-l'], 0, None), ([], None, None),
    (['-p', 'uuid'], 0, rb'[0-9a-f-]{36}\n'), (['-p', 'nope'], 8, None), (['-P', 'x:abc', '-p', 'x'], 0, rb'abc\n'),
    (['(('], 3, None), (['-a', 'x', 'abc'], 5, None), (['--nope'], 7, None), (['-w', 'w:/nonexistent/list', 'abc'], 10, None),
    (['-r', 'xorshift:1', '[a-z]{5}'], 0, rb'[a-z]{5}\n'), (['-r', 'system', '[a-z]{5}'], 0, rb'[a-z]{5}\n'),
    (['-r', 'zero', '[a-z]{5}'], 0, rb'[a-z]{5}\n'), (['-r', 'nope', 'abc'], 2, None),
    (['-r', 'file:/dev/urandom', '[a-z]{5}'], 0, rb'[a-z]{5}\n'), (['-r', 'file:/dev/zero', '[a-z]{5}'], 0, rb'[a-z]{5}\n'),
    (['-r', 'file:/dev/null', '[a-z]{5}'], 'ends', None), (['-r', 'file:@random', '[a-z]{5}'], 0, rb'[a-z]{5}\n'),
    (['-r', 'file:@empty', '[a-z]{5}'], 'ends', None), (['-r', 'file:@dir', '[a-z]{5}'], 'ends', None),
    (['-r', 'file:/nonexistent', 'a'], 2, None), (['-r', 'file:/proc/cpuinfo', '[a-z]{5}'], 0, rb'[a-z]{5}\n'),
    (['-m', 'pass', '-d', 'a.com', '-t', 'x', '[a-z]{5}'], 0, rb'[a-z]{5}\n'), (['-m', '', '[a-z]{5}'], 0, rb'[a-z]{5}\n'),
    (['-r', 'chacha20:' + 'ab' * 32 + ':abcdefgh', '[a-z]{5}'], None, None),
    (['-w', 'w:@words', '\\w{w}'], 0, rb'[a-z]+\n'), (['-a', '50', '-w', 'w:@words', '\\w{w} \\m{w}'], 0, rb'([a-z]+ [a-z]+\n){50}'),
    (['-w', 'w:@empty', '\\w{w}'], None, None), (['-w', 'w:@dir', 'abc'], None, None), (['-w', 'w:/proc/self/status', '\\m{w}'], None, None),
    (['-w', 'w:@many', '\\w{w}\\m{w}'], 0, rb'[a-z]+\n'), (['-M', '2', '-w', 'w:@many', '\\m{w}{20}'], 0, rb'[a-z]+\n'),
    (['-M', '9', '-w', 'w:@many', '\\m{w}'], 0, rb'[a-z]+\n'), (['-M', '0', '-w', 'w:@words', 'a'], 6, None),
    (['\\u{1f600}[ä-ü]{30}'], 0, None), (['-a', '2000', '(ab|cd){100,200}'], 0, rb'((ab|cd)+\n){2000}'),
    (['[a-z]{60000}'], 0, rb'[a-z]{60000}\n'), (['(((((((a)))))))'], 0, rb'a\n'), (['(' * 800 + 'a' + ')' * 800], 0, rb'a\n'),
    (['a', 'b'], 1, None), (['\\p{x}'], 9, None), (['\\w{none}'], None, None), (['-a', '100', '-e', '[a-z]{30}'], 0, rb'([a-z]{30}\n){100}'),
    (['|'.join(['word%d' % k for k in range(3000)])], 0, rb'word\d+\n'),
]
STREAMS = ['pipe', 'file', 'append', 'rw', 'null', 'pty', 'socket', 'full', 'tty-like zero']


class Check(cli.CliCheck):
    pid = 'C20'
    rule = ('system calls injected into the tool when it first opens a file, parses its options and gets randomness, as an '
            'unprivileged user in a scratch directory: each forbidden one has to end the process with SIGSYS before it returns, each '
            'one it needs has to succeed; every feature is used with all kinds of standard streams, configurations and files, and never '
            'ends by a signal. Non-trivial: distinct injections and distinct combinations of feature and streams.')
    assumptions = ['x86-64 Linux', 'the kernel enforces the filter it was given',
                   'the standard streams are open when the tool is started',
                   'system calls that only read harmless information are not judged']
    quick = {'rel': 3000}
    thorough = {'rel': 8000}

    def prepare(self):
        self.dir = os.path.join(self.scratch, 'c20')
        os.makedirs(self.dir)
        self.names = {'@words': b'correct\nhorse\nbattery\nstaple\n', '@empty': b'', '@random': bytes(range(256)) * 300,
                      '@many': b''.join(b'%s\n' % w for w in self.many())}
        for k, v in self.names.items():
            open(os.path.join(self.dir, k[1:]), 'wb').write(v)
        os.makedirs(self.dir + '/dir')
        self.pub = os.path.join(self.scratch, 'pub')
        os.makedirs(self.pub)
        os.chmod(self.pub, 0o777)
        os.chmod(self.dir, 0o755)
        os.chmod(self.scratch, 0o755)
        self.probes = probes('@')

    def many(self):
        rng = self.rng(0, 'many')
        return [''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(2, 12))).encode() for _ in range(4000)]

    def case(self, rng, i, variant):
        case = dict(cmds=[], runs=[])
        if i < len(self.probes):
            name, calls, forbidden = self.probes[i]
            # the specific ones at all points
            points = POINTS if not name.startswith('number') else [POINTS[(i + rng.randrange(3)) % 3]]
            case.update(kind='probe', name=name, calls=calls, forbidden=forbidden, points=points, root=False)
            case['cmds'] = []
            case['runs'] = ['inject %s: %s (%s)' % (p, calls, name) for p in points]
            if name in ('openat wronly|creat', 'socket 2,1,0', 'kill p,0', 'write 3,*,1', 'mprotect exec', 'fork '):
                case['root'] = True
            return case
        k = i - len(self.probes)
        f = FEATURES[k % len(FEATURES)] if k < 2 * len(FEATURES) else rng.choice(FEATURES)
        args, status, output = f
        args = [re.sub('@(random|empty|dir|words|many)', lambda m: self.dir + '/' + m.group(1), a) for a in args]
        config = rng.choice([None, None, '', '# comment\npreset foo [a-z]\n', 'amount 1\nnull no\n', 'wordlist animals %s/words\n' % self.dir,
                             'preset x a\nrandom system\n'])
        out = rng.choice(STREAMS)
        if output and len(output) > 0 and out == 'pty' and re.search(r'\d{4}|500', ' '.join(args)):
            out = 'pipe'
        inp, err = rng.choice(['pipe', 'null', 'file', 'pty', 'socket']), rng.choice(['pipe', 'pipe', 'null', 'pty', 'file'])
        etc = rng.choice([None, None, '', 'preset etc abc\n'])
        case.update(kind='use', args=args, status=status, output=output, out=out, inp=inp, err=err, config=config, etc=etc,
                    fifo=rng.random() < .3 and '@words' in ' '.join(f[0]), limit=rng.choice([None, None, None, 0, 1 << 20]))
        case['runs'] = ['passgen %r <%s >%s 2>%s config %r, %r, locked memory %r' % (args, inp, out, err, config, etc, case['limit'])]
        return case

    # ---------------------------------------------------------- executing
    def execute(self, cases, variant):
        out = []
        for case in cases:
            resp = self.probe(case, variant) if case['kind'] == 'probe' else self.use(case, variant)
            out.append((case, resp, None))
        return out

    def probe(self, case, variant):
        resp = []
        d = os.path.join(self.pub, '%s-%d' % (variant, case['index']))
        os.makedirs(d)
        os.chown(d, NOBODY, NOBODY)
        for point in case['points']:
            for user in ([NOBODY, None] if case['root'] else [NOBODY]):
                with open(d + '/victim', 'w') as f:
                    f.write('content')
                os.chown(d + '/victim', NOBODY, NOBODY)
                calls = case['calls']
                for name in ('', '/victim', '/new'):
                    calls = calls.replace(S('@' + name) + ',', S(d + name) + ',')
                    calls = re.sub(S('@' + name) + '$', S(d + name), calls)
                    calls = calls.replace(S('@' + name) + ';', S(d + name) + ';')
                run = cli.Run(['-a', '2', '[a-z]{10}'], env={'PASSGEN_TEST_INJECT': '%s:%s' % (point, calls)}, user=user)
                r = cli.call(self.exes[variant]['tool'], run, self.pub)
                left = {n: (open(d + '/' + n).read() if os.path.isfile(d + '/' + n) else '') for n in os.listdir(d)}
                r.changed = left != {'victim': 'content'}
                for n in os.listdir(d):
                    p = d + '/' + n
                    os.rmdir(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
                resp.append(r)
        os.rmdir(d)
        return resp

    def stream(self, kind, path, reading):
        """(file descriptor for the tool, where to read what it wrote: descriptor or path, to be closed)"""
        flags = os.O_RDONLY if reading else os.O_WRONLY
        if kind == 'null':
            return os.open('/dev/null', flags), None
        if kind == 'full':
            return os.open('/dev/full', flags), None
        if kind == 'tty-like zero':
            return os.open('/dev/zero', os.O_RDWR), None
        if kind == 'pty':
            m, s = pty.openpty()
            return s, m
        if kind == 'socket':
            a, b = socket.socketpair()
            return a.detach(), b.detach()
        if kind == 'pipe':
            r, w = os.pipe()
            return (r, w) if reading else (w, r)
        open(path, 'ab').close()
        return os.open(path, {'append': os.O_WRONLY | os.O_APPEND, 'rw': os.O_RDWR}.get(kind, flags)), path

    def use(self, case, variant):
        base = os.path.join(self.dir, '%s-%d' % (variant, case['index']))
        home = base + '.home'
        os.makedirs(home + '/.config')
        env = core.clean_env(HOME=home)
        if case['config'] is not None:
            open(home + '/.config/passgen.conf', 'w').write(case['config'])
        if case['etc'] is not None:
            open(home + '/etc', 'w').write(case['etc'])
            env['PASSGEN_TEST_ETC'] = home + '/etc'
        args, feeder = list(case['args']), None
        if case['fifo']:
            os.mkfifo(base + '.fifo')
            args = [a.replace(self.dir + '/words', base + '.fifo') for a in args]
            feeder = os.fork()
            if feeder == 0:
                signal.alarm(30)
                try:
                    with open(base + '.fifo', 'wb') as f:
                        f.write(self.names['@words'])
                except BaseException:
                    pass
                os._exit(0)
        ends, data = {}, {}
        fds = []
        for k, kind in enumerate((case['inp'], case['out'], case['err'])):
            fd, other = self.stream(kind, '%s.%d' % (base, k), k == 0)
            fds.append(fd)
            ends[k] = other
            data[k] = b''

        def limit():
            if case['limit'] is not None:
                import resource
                resource.setrlimit(resource.RLIMIT_MEMLOCK, (case['limit'], case['limit']))
        p = subprocess.Popen([self.exes[variant]['tool']] + args, stdin=fds[0], stdout=fds[1], stderr=fds[2], env=env,
                             cwd=home, start_new_session=True, preexec_fn=limit)
        for fd in fds:
            os.close(fd)
        if isinstance(ends[0], int):
            os.close(ends[0])
        watch = {ends[k]: k for k in (1, 2) if isinstance(ends[k], int)}
        until = time.time() + 60
        while watch:
            r, _, _ = select.select(list(watch), [], [], .2)
            for fd in r:
                try:
                    b = os.read(fd, 65536)
                except OSError:
                    b = b''
                if not b:
                    os.close(fd)
                    del watch[fd]
                else:
                    data[watch[fd]] += b
            if time.time() > until:
                os.killpg(p.pid, signal.SIGKILL)
                break
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
        for fd in watch:
            os.close(fd)
        if feeder:
            try:
                os.kill(feeder, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(feeder, 0)
            os.unlink(base + '.fifo')
        for k in (0, 1, 2):
            if isinstance(ends[k], str):
                data[k] = open(ends[k], 'rb').read()
                os.unlink(ends[k])
        for f in ('/.config/passgen.conf', '/etc'):
            if os.path.exists(home + f):
                os.unlink(home + f)
        os.rmdir(home + '/.config')
        os.rmdir(home)
        return [cli.Result(rc, data[1], data[2])]

    # ------------------------------------------------------------ judging
    def judge(self, case, resp, variant):
        if case['kind'] == 'probe':
            for r, what in zip(resp, [p for p in case['points'] for _ in range(2 if case['root'] else 1)]):
                reached = r.err.count(b'[inject ')
                back = r.err.count(b'[returned ')
                n = case['calls'].count(';') + 1
                label = '%s, when %s' % (case['name'], {'early': 'first opening a file', 'options': 'parsing options',
                                                        'random': 'getting random data'}[what])
                if not reached:
                    if r.rc != 0:
                        yield 'probe', 'ordinary use: %r' % r
                    continue
                if case['forbidden']:
                    if back >= n or r.changed:
                        yield 'allowed', 'forbidden system call went through: %s: %r' % (label, r)
                    elif reached < n:
                        yield 'denied', 'before %s: %r' % (label, r)
                    elif r.rc != -signal.SIGSYS and not (case['name'].startswith('int80') and r.rc == -signal.SIGSEGV):
                        yield 'fate', 'forbidden system call did not end the process by SIGSYS: %s: %r' % (label, r)
                else:
                    results = [int(x) for x in re.findall(rb'\[returned (-?\d+)', r.err)]
                    if r.rc != 0 or len(results) != n or min(results) < 0:
                        yield 'denied', 'system call the tool needs fails: %s: %r' % (label, r)
            return
        r = resp[0]
        what = case['runs'][0]
        if r.rc == 'timeout':
            yield 'hang', '%s does not end' % what
            return
        if case['status'] == 'ends':
            # the source runs out: giving up is all that can be done
            if r.rc == 0 or r.out:
                yield 'status', '%s: %r' % (what, r)
            return
        if r.rc < 0:
            yield 'killed', '%s: killed by signal %d: %r' % (what, -r.rc, r)
            return
        status = case['status']
        limited = case['limit'] is not None
        if case['out'] == 'full' and status == 0:
            status = 11 if case['output'] is not None else r.rc if r.rc == 11 else 0
        if status is not None and r.rc != status and not (limited and r.rc in (4, 10, 3)):
            yield 'status', '%s: status %s instead of %s: %r' % (what, r.rc, status, r)
        elif case['output'] is not None and r.rc == 0 and case['out'] not in ('null', 'full', 'tty-like zero'):
            text = r.out.replace(b'\r\n', b'\n') if case['out'] == 'pty' else r.out
            if not re.fullmatch(case['output'], text):
                yield 'output', '%s: %r' % (what, r)

    def nontrivial(self, case, resp):
        if case['kind'] == 'probe':
            return [w for w, r in zip([x for x in case['runs'] for _ in range(2 if case['root'] else 1)], resp) if b'[inject ' in r.err]
        return case['runs']

    def observe(self, case, resp, stats):
        if case['kind'] == 'probe':
            for r in resp:
                k = 'injections'
                if b'[inject ' not in r.err:
                    k = 'injections not reached'
                elif r.rc == -signal.SIGSYS:
                    k = 'processes ended by the sandbox'
                stats[k] = stats.get(k, 0) + 1
        else:
            stats['ordinary runs'] = stats.get('ordinary runs', 0) + 1
            stats.setdefault('status', {})[str(resp[0].rc)] = stats.setdefault('status', {}).get(str(resp[0].rc), 0) + 1
            stats.setdefault('standard output', {})[case['out']] = stats.setdefault('standard output', {}).get(case['out'], 0) + 1

    def finish(self, stats):
        if not stats.get('processes ended by the sandbox') and not stats.get('injections'):
            raise core.HarnessError('no system call could be injected')
        return ()
