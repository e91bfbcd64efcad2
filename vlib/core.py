"""Framework for the checks: generates cases, runs them through the monitored
drivers, judges what was observed, and reports.

A check is a module in checks/ with a class Check derived from Base below.
"""
import hashlib, json, math, multiprocessing as mp, os, random, re, shutil
import signal, subprocess, sys, tempfile, time, traceback
from . import build as B

VERIF = B.VERIF
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WORKERS = min(8, os.cpu_count() or 4)

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:'
                    'strict_string_checks=1:detect_invalid_pointer_pairs=1:allocator_may_return_null=0:'
                    'handle_abort=1:hard_rss_limit_mb=6000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=87',
    'MSAN_OPTIONS': 'exitcode=88:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=89',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1',
}


class HarnessError(Exception):
    pass


class Inconclusive(Exception):
    pass


def clean_env(**extra):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C', 'HOME': '/nonexistent'}
    env.update(SAN_ENV)
    env.update(extra)
    return env


def hexs(s):
    """Text or bytes as a driver argument."""
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogatepass')
    return s.hex() or '-'


def cps(seq):
    return ','.join('%x' % c for c in seq) or '-'


def uncps(t):
    return () if t == '-' else tuple(int(x, 16) for x in t.split(','))


def unhex(t):
    return b'' if t == '-' else bytes.fromhex(t)


# -------------------------------------------------------------- statistics
def chi2_sf(x, k):
    """Survival function of the chi square distribution."""
    if x <= 0:
        return 1.0
    a, h = k / 2.0, x / 2.0
    if h < a + 1:
        t = s = 1.0 / a
        n = a
        while True:
            n += 1
            t *= h / n
            s += t
            if t < s * 1e-16:
                break
        return max(0.0, 1.0 - s * math.exp(-h + a * math.log(h) - math.lgamma(a)))
    b = h + 1 - a
    c = 1e300
    d = 1 / b
    f = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1 / (d if abs(d) > 1e-300 else 1e-300)
        c = b + an / c
        c = c if abs(c) > 1e-300 else 1e-300
        de = d * c
        f *= de
        if abs(de - 1) < 1e-15:
            break
    try:
        return f * math.exp(-h + a * math.log(h) - math.lgamma(a))
    except OverflowError:
        return 0.0


def goodness(observed, expected):
    """p-value of counts against probabilities (dicts by key), pooling rare
    ones. Anything with probability zero that was observed gives zero."""
    n = sum(observed.values())
    x, k, po, pe = 0.0, 0, 0.0, 0.0
    for key in observed:
        if not expected.get(key):
            return 0.0
    for key, p in expected.items():
        e, o = float(p) * n, observed.get(key, 0)
        if e < 10:
            po += o
            pe += e
            continue
        x += (o - e) ** 2 / e
        k += 1
    if pe > 10:
        x += (po - pe) ** 2 / pe
        k += 1
    if k < 2:
        return 1.0
    return chi2_sf(x, k - 1)


P_MIN = 1e-10


# ----------------------------------------------------------- running drivers
# set once something hangs: there is a violation to report, waiting for others
# takes too long
_stop = mp.get_context('fork').Event()


class Crash:
    def __init__(self, kind, text, cmd):
        self.kind, self.text, self.cmd = kind, text, cmd

    def summary(self):
        m = re.search(r'(SUMMARY: .*|.*runtime error: .*|.*Assertion .*)', self.text)
        return '%s: %s' % (self.kind, (m.group(1) if m else self.text.strip()[-300:]).strip())


def run_driver(exe, lines, scratch, timeout=240, env=None, cpu=None):
    """Feeds commands to a driver. Returns the responses (one list of lines per
    command) and a Crash or None."""
    fd, inp = tempfile.mkstemp(dir=scratch)
    os.close(fd)
    with open(inp, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    outp, errp = inp + '.out', inp + '.err'
    timed_out = stopped = False
    with open(inp) as fi, open(outp, 'wb') as fo, open(errp, 'wb') as fe:
        p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=fe, env=env or clean_env(),
                             cwd=scratch, start_new_session=True)
        end = time.time() + timeout
        while True:
            try:
                p.wait(max(0.01, min(1, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                stopped = _stop.is_set()
                if not stopped and time.time() < end:
                    continue
                timed_out = not stopped
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    text = open(outp, errors='replace').read()
    err = open(errp, errors='replace').read()
    for x in (inp, outp, errp):
        os.unlink(x)
    resp, cur, ended = [], [], False
    for l in text.split('\n'):
        if l == '.':
            resp.append(cur)
            cur = []
        elif l == 'END':
            ended = True
        else:
            cur.append(l)
    if p.returncode == 99 or 'DRIVER:' in err:
        raise HarnessError('driver: ' + err[-500:])
    crash = None
    if stopped:
        crash = Crash('stopped', '', None)
    elif timed_out:
        crash = Crash('timeout', '', lines[len(resp)] if len(resp) < len(lines) else None)
    elif p.returncode != 0 or len(resp) != len(lines) or not ended:
        kind = {86: 'AddressSanitizer', 87: 'UndefinedBehaviorSanitizer', 88: 'MemorySanitizer',
                89: 'LeakSanitizer', 66: 'ThreadSanitizer'}.get(p.returncode)
        if kind is None:
            kind = 'signal %d' % -p.returncode if p.returncode < 0 else 'exit status %d' % p.returncode
        cmd = lines[len(resp)] if len(resp) < len(lines) else None
        if cmd is None and 'LeakSanitizer' in err:
            kind = 'LeakSanitizer'
        crash = Crash(kind, err, cmd)
        crash.partial = cur
    return resp, crash


# ------------------------------------------------------------------ checks
class Base:
    pid = None
    level = 'exploration'
    rule = ''
    assumptions = []
    # variants to run and the number of cases for each
    quick = {'san': 400}
    thorough = {'san': 4000}
    programs = {'drv': (['/verif/drv/drv.c'], [])}
    cli = None
    cli_flags = ()
    shards = WORKERS * 2
    timeout = 240

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.exes = {}
        self.scratch = None

    def rng(self, i, salt=''):
        return random.Random('%s:%s:%s:%s' % (self.seed, self.pid, i, salt))

    def case(self, rng, i, variant):
        """Returns a dictionary with at least cmds, the driver commands."""
        raise NotImplementedError

    def judge(self, case, resp, variant):
        """Yields (key, description) of everything that violates."""
        raise NotImplementedError

    def nontrivial(self, case, resp):
        """Returns something identifying the case, None if it was trivial, or a
        list of those if several things were tried."""
        return tuple(case['cmds'])

    def observe(self, case, resp, stats):
        """Counts what was observed."""

    def crash(self, case, crash):
        return [('crash ' + crash.kind, crash.summary())]

    def prepare(self):
        """Runs once, after building."""

    def finish(self, stats):
        """Runs once at the end, yields violations judged from the totals."""
        return ()

    def variants(self):
        v = dict(self.thorough if self.tier == 'thorough' else self.quick)
        return v

    def build(self):
        for v in self.variants():
            progs = {}
            for n, (srcs, fl) in self.programs.items():
                progs[n] = ([s.replace('/verif', VERIF) if s.startswith('/verif/') else s for s in srcs], fl)
            self.exes[v] = B.build(self.scratch, v, progs, cli=self.cli, cli_flags=self.cli_flags)

    # runs consecutive cases, returns [(case, resp or None, Crash or None)]
    def execute(self, cases, variant):
        exe = self.exes[variant]['drv']
        out, start, crashes, slow = [], 0, 0, 0
        # a single case is a matter of seconds
        limit = min(self.timeout, 150) if self.tier == 'quick' else self.timeout
        alone = 75 if self.tier == 'quick' else self.timeout
        while start < len(cases):
            lines, owner = [], []
            for k in range(start, len(cases)):
                for c in cases[k]['cmds']:
                    lines.append(c)
                    owner.append(k)
            resp, crash = run_driver(exe, lines, self.scratch, limit)
            if crash is not None and crash.kind == 'stopped':
                return out
            done = len(resp)
            by = {}
            for j, r in enumerate(resp):
                by.setdefault(owner[j], []).append(r)
            if crash is None:
                out += [(cases[k], by.get(k, []), None) for k in range(start, len(cases))]
                return out
            if crash.cmd is None:
                # at exit: a leak, find out which case causes it
                bad = self.find_leak(exe, cases[start:])
                for k in range(start, len(cases)):
                    out.append((cases[k], by.get(k, []), crash if cases[k] is bad or
                                (bad is None and k == len(cases) - 1) else None))
                return out
            k = owner[done]
            out += [(cases[j], by.get(j, []), None) for j in range(start, k)]
            if crash.kind == 'timeout':
                resp, again = run_driver(exe, cases[k]['cmds'], self.scratch, alone)
                if again is None:
                    # there was too much to do, not a hang
                    out.append((cases[k], resp, None))
                    start = k + 1
                    slow += 1
                    if slow > 6:
                        raise Inconclusive('repeated timeouts')
                    continue
                if again.kind == 'stopped':
                    return out
                if again.kind != 'timeout':
                    crash = again
                else:
                    crash.kind = 'hang'
                    crash.text = 'no result after %d s, alone' % alone
                    out.append((cases[k], by.get(k, []), crash))
                    _stop.set()
                    return out
            out.append((cases[k], by.get(k, []), crash))
            start = k + 1
            crashes += 1
            if crashes >= 3:
                break
        return out

    def find_leak(self, exe, cases):
        while len(cases) > 1:
            half = cases[:len(cases) // 2]
            _, crash = run_driver(exe, [c for x in half for c in x['cmds']], self.scratch, self.timeout)
            cases = half if crash is not None else cases[len(half):]
        _, crash = run_driver(exe, cases[0]['cmds'], self.scratch, self.timeout)
        return cases[0] if crash is not None else None


def _digest(x):
    return hashlib.blake2b(repr(x).encode('utf-8', 'replace'), digest_size=8).hexdigest()


_check = None


def _shard(args):
    variant, lo, hi = args
    c = _check
    res = dict(viol=[], keys=set(), stats={}, samples=[], n=0, unjudged=0)
    if _stop.is_set():
        return res
    try:
        cases = []
        for i in range(lo, hi):
            case = c.case(c.rng(i, variant), i, variant)
            if case is None:
                continue
            case['index'] = i
            case['variant'] = variant
            cases.append(case)
        for case, resp, crash in c.execute(cases, variant):
            if resp is None:
                res['unjudged'] += 1
                continue
            res['n'] += 1
            found = []
            if crash is not None:
                found += c.crash(case, crash)
            if crash is None or crash.cmd is None:
                try:
                    for f in c.judge(case, resp, variant) or ():
                        found.append(f)
                except (HarnessError, Inconclusive):
                    raise
                except Exception:
                    if found or res['viol']:
                        for key, text in found:
                            res['viol'].append(dict(key=key, text=text, index=case['index'], variant=variant,
                                                    cmds=case['cmds'][:50], detail='', stderr=''))
                        return res
                    raise HarnessError('judging %r:\n%s\nresponses %r' % (
                        {k: str(v)[:600] for k, v in case.items()}, traceback.format_exc(), str(resp)[:1500]))
                c.observe(case, resp, res['stats'])
                k = c.nontrivial(case, resp)
                if k is not None and k != []:
                    res['keys'].update(map(_digest, k if isinstance(k, list) else [k]))
                    if len(res['samples']) < 2:
                        res['samples'].append({
                            'case': [str(x)[:300] for x in (case['cmds'] + case.get('runs', []))[:6]],
                            'observed': [[str(l)[:300] for l in r[:4]] if isinstance(r, list) else str(r)[:300]
                                         for r in resp[:6]]})
            for key, text in found:
                res['viol'].append(dict(key=key, text=text, index=case['index'], variant=variant,
                                        cmds=[str(x)[:20000] for x in (case['cmds'] + case.get('runs', []))[:50]],
                                        detail=str(case.get('text', ''))[:2000],
                                        stderr=crash.text[:6000] if crash is not None else ''))
        return res
    except Exception as e:
        if res['viol']:
            return res
        return dict(error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc())


def known_findings(pid):
    """Lines `open: property=<id> key=<regular expression> :: <description>`"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'open: property=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run(check, only=None):
    global _check
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    check.scratch = tempfile.mkdtemp(prefix='passgen-verif-')
    os.chmod(check.scratch, 0o755)
    pid = check.pid
    try:
        check.build()
        check.prepare()
        _check = check
        tasks = []
        for v, n in check.variants().items():
            base = 0
            if only is not None:
                if v == only[0]:
                    tasks.append((v, only[1], only[1] + 1))
                continue
            size = max(1, math.ceil(n / check.shards))
            while base < n:
                tasks.append((v, base, min(n, base + size)))
                base += size
        results, errors = [], []
        with mp.get_context('fork').Pool(WORKERS) as pool:
            for r in pool.imap_unordered(_shard, tasks):
                (errors if 'error' in r else results).append(r)
        if errors and not any(r['viol'] for r in results):
            sys.stderr.write(errors[0]['trace'])
            raise HarnessError(errors[0]['error'])
        viol, keys, stats, samples, n, unjudged = [], set(), {}, [], 0, 0
        for r in results:
            viol += r['viol']
            keys |= r['keys']
            n += r['n']
            unjudged += r['unjudged']
            samples += r['samples']
            for k, v in r['stats'].items():
                if isinstance(v, set):
                    stats.setdefault(k, set()).update(v)
                elif isinstance(v, dict):
                    d = stats.setdefault(k, {})
                    for a, b in v.items():
                        d[a] = d.get(a, 0) + b
                elif k.startswith('max_'):
                    stats[k] = max(stats.get(k, v), v)
                else:
                    stats[k] = stats.get(k, 0) + v
        if only is None and not _stop.is_set():
            for key, text in check.finish(stats):
                viol.append(dict(key=key, text=text, index=-1, variant='', cmds=[], detail='', stderr=''))
        viol.sort(key=lambda v: (v['variant'], v['index']))
        samples.sort(key=lambda s: str(s))
        known = known_findings(pid)
        seen_known, fresh = {}, []
        for v in viol:
            for kx, desc in known:
                if re.fullmatch(kx, v['key']):
                    seen_known[kx] = desc
                    break
            else:
                fresh.append(v)
        if only is None and not unjudged and n == 0:
            raise HarnessError('nothing was observed')
        ev = dict(property=pid, tier=check.tier, seed=check.seed, level=check.level,
                  coverage=dict(evaluations=n, distinct_nontrivial=len(keys), rule=check.rule,
                                samples=samples[:5],
                                observed={k: (len(v) if isinstance(v, set) else
                                              dict(sorted(v.items(), key=lambda x: str(x[0]))[:60]) if isinstance(v, dict)
                                              else v)
                                          for k, v in sorted(stats.items())},
                                cases_per_build={v: sum(t[2] - t[1] for t in tasks if t[0] == v)
                                                 for v in check.variants()},
                                inconclusive=unjudged),
                  assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2),
                  violations=len(fresh), known_findings=sorted(seen_known.values()))
        if only is None:
            with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        for kx, desc in known:
            if kx in seen_known:
                print('KNOWN-FINDING: property=%s %s' % (pid, desc))
        if fresh:
            v = fresh[0]
            path = os.path.join(EVIDENCE, 'replay-%s.json' % pid)
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=check.tier, seed=check.seed, violation=v,
                               more=[(x['key'], x['text'][:300]) for x in fresh[1:20]],
                               replay='VERIF_SEED=%s python3 %s/check.py %s --tier %s --replay %s:%d' % (
                                   check.seed, VERIF, pid, check.tier, v['variant'], v['index'])), f, indent=1)
            for x in fresh[:5]:
                sys.stderr.write('%s [%s] %s\n    %s\n' % (pid, x['key'], str(x['text'])[:1500], str(x['cmds'])[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('%s: held on %d executions (%d distinct), %.1f s' % (pid, n, len(keys), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(check.scratch, ignore_errors=True)
