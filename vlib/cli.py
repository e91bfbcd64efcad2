"""Running the command line tool, built from the working tree."""
import os, shutil, signal, subprocess, tempfile
from . import build as B, core

WRAP = ['-Wl,--wrap=fopen', '-Wl,--wrap=fopen64', '-Wl,--wrap=getrandom', '-Wl,--wrap=getopt_long', '-Wl,--wrap=mlockall',
        '-Wl,--wrap=munlockall', '-Wl,--wrap=munlock']
SANDBOXED = ('rel', 'clangrel')
SAN_EXIT = {86: 'AddressSanitizer', 87: 'UndefinedBehaviorSanitizer', 88: 'MemorySanitizer', 89: 'LeakSanitizer'}


class Run:
    """How to call the tool."""

    def __init__(self, args, env=None, stdin=b'', stdout=None, feeds=(), timeout=60, user=None, program='tool'):
        self.args = [a if isinstance(a, bytes) else a.encode('utf-8', 'surrogateescape') for a in args]
        self.env, self.stdin, self.stdout, self.timeout = env or {}, stdin, stdout, timeout
        self.feeds = feeds  # (path of a fifo, content)
        self.user = user
        self.program = program

    def __repr__(self):
        return '%s %s%s' % ('passgen' if self.program == 'tool' else self.program, ' '.join(repr(a)[1:] for a in self.args), ' %r' % self.env if self.env else '')


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return 'status %s, output %r, errors %r' % (self.rc, self.out[:600], self.err[-600:])


def call(exe, run, home):
    env = core.clean_env(HOME=home)
    env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
    for k, v in run.env.items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v
    stdout = subprocess.PIPE if run.stdout is None else open(run.stdout, 'wb')
    feeders = []
    for path, data in run.feeds:
        # without blocking this process if the other end is never opened
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(run.timeout)
                with open(path, 'wb', buffering=0) as f:
                    while data:
                        data = data[f.write(data[:1000]):]
            except BaseException:
                pass
            os._exit(0)
        feeders.append(pid)
    try:
        ids = {} if run.user is None else dict(user=run.user, group=run.user, extra_groups=[])
        p = subprocess.Popen([exe] + run.args, executable=exe, stdin=subprocess.PIPE, stdout=stdout,
                             stderr=subprocess.PIPE, env=env, cwd=home, start_new_session=True, **ids)
        try:
            out, err = p.communicate(run.stdin, run.timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = 'timeout'
    finally:
        if run.stdout is not None:
            stdout.close()
        for pid in feeders:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
    return Result(rc, out or b'', err or b'')


class CliCheck(core.Base):
    """Cases have runs (list of Run) besides cmds for the driver. The responses
    are the driver's responses followed by a Result for each run."""
    programs = {'drv': (['/verif/drv/drv.c'], []), 'tool': (['/verif/drv/shim.c'], WRAP)}
    cli = 'tool'
    timeout = 240

    def build(self):
        for v in self.variants():
            base = v.split('-')[0]
            progs = {n: ([s.replace('/verif', B.VERIF) if s.startswith('/verif/') else s for s in srcs], fl)
                     for n, (srcs, fl) in self.programs.items()}
            flags = ('-DPASSGEN_SECCOMP', '-lseccomp') if v in SANDBOXED else ()
            self.exes[v] = B.build(self.scratch, base, progs, cli='tool', cli_flags=flags)
        self.home = os.path.join(self.scratch, 'home')
        os.makedirs(self.home)

    def execute(self, cases, variant):
        out = []
        withdrv = [c for c in cases if c['cmds']]
        drv = {}
        if withdrv:
            for case, resp, crash in core.Base.execute(self, withdrv, variant):
                drv[id(case)] = (resp, crash)
        for case in cases:
            resp, crash = drv.get(id(case), ([], None))
            if crash is None and resp is not None:
                resp = list(resp)
                for run in case['runs']:
                    r = call(self.exes[variant][run.program], run, case.get('home', self.home))
                    if r.rc == 'timeout':
                        r = call(self.exes[variant][run.program], run, case.get('home', self.home))
                        if r.rc == 'timeout':
                            crash = core.Crash('hang', 'no result after %d s, twice' % run.timeout, repr(run))
                            break
                    if r.rc in SAN_EXIT or b'runtime error:' in r.err or \
                            (isinstance(r.rc, int) and r.rc < 0 and not case.get('may_die')):
                        kind = SAN_EXIT.get(r.rc, 'signal %d' % -r.rc if r.rc < 0 else 'sanitizer')
                        crash = core.Crash(kind, r.err.decode('utf-8', 'replace'), repr(run))
                        break
                    resp.append(r)
            self.cleanup(case)
            out.append((case, resp, crash))
            if crash is not None and crash.kind == 'hang':
                core._stop.set()
            if core._stop.is_set():
                break
        return out

    def cleanup(self, case):
        pass

    def nontrivial(self, case, resp):
        return [repr(r) for r in case['runs']]
