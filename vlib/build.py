"""Builds xfbs/passgen from the working tree into a scratch directory.

The library is everything below src/ except for the command line tool, tools,
tests and benchmarks, so that added, split or renamed files are picked up.
"""
import os, re, subprocess, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all']
VARIANTS = {
    # name: compiler, flags, debug assertions, extra link flags
    'san': dict(cc='gcc', flags=SAN, mono=['-O1', '-g', '-fsanitize=address'], debug=True),
    'sanrel': dict(cc='gcc', flags=SAN + ['-DNDEBUG'], mono=['-O1', '-g', '-fsanitize=address'], debug=False),
    'clangsan': dict(cc='clang', flags=SAN + ['-fno-sanitize=function'], debug=True),
    'msan': dict(cc='clang', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory',
                                    '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all'], debug=True),
    # without the checks for null pointers
    'asan': dict(cc='gcc', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'], debug=False),
    # reports what is decided by poisoned data, not handing it over
    'secret': dict(cc='clang', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fno-sanitize-memory-param-retval',
                                      '-fno-sanitize-recover=all'], debug=True),
    'tsan': dict(cc='clang', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'], debug=True),
    # counts the edges of the control flow that are taken, see drv/cost.c
    'cost': dict(cc='clang', flags=['-O1', '-g', '-fno-builtin', '-fsanitize-coverage=trace-pc-guard'], debug=False),
    'debug': dict(cc='gcc', flags=['-O1', '-g'], debug=True),
    'rel': dict(cc='gcc', flags=['-O2', '-g', '-DNDEBUG'], debug=False),
    'lto': dict(cc='gcc', flags=['-O3', '-g', '-flto=auto', '-DNDEBUG'], debug=False),
    'clangrel': dict(cc='clang', flags=['-O2', '-g', '-DNDEBUG'], debug=False),
}
# the code indexes trailing one-element arrays beyond their declared bound.
for _v in VARIANTS.values():
    if any('undefined' in f for f in _v['flags']):
        _v['flags'] = _v['flags'] + ['-fno-sanitize=bounds,object-size']


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def _configure(dst, debug, mlock=True):
    """What the build system's configure step generates."""
    src = os.path.join(REPO, 'include/passgen/config.h.in')
    text = open(src).read()
    on = {'PASSGEN_MEMORY', 'PASSGEN_MONOCYPHER'}
    if debug:
        on.add('PASSGEN_DEBUG')
    if mlock:
        on.add('PASSGEN_MLOCK')
    text = re.sub(r'#\s*cmakedefine\s+(\w+)',
                  lambda m: ('#define ' if m.group(1) in on else '// ') + m.group(1), text)
    os.makedirs(os.path.join(dst, 'passgen'), exist_ok=True)
    open(os.path.join(dst, 'passgen/config.h'), 'w').write(text)
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)\s+DESCRIPTION', cm)
    ver = m.groups() if m else ('0', '0', '0')
    text = open(os.path.join(REPO, 'src/version.c.in')).read()
    for name, val in zip(('MAJOR', 'MINOR', 'PATCH'), ver):
        text = text.replace('@PROJECT_VERSION_%s@' % name, val)
    text = re.sub(r'@\w+@', 'x', text)
    open(os.path.join(dst, 'version.c'), 'w').write(text)


def lib_sources():
    out = []
    root = os.path.join(REPO, 'src')
    for d, dirs, files in os.walk(root):
        if d == root:
            dirs[:] = [x for x in dirs if x not in ('cli', 'tools', 'tests', 'bench')]
        out += [os.path.join(d, f) for f in files if f.endswith('.c')]
    return sorted(out)


def build(scratch, variant, programs, cli=None, cli_flags=(), defines=()):
    """Builds the library and some programs.

    programs: {name: ([sources], [link flags])}; cli: None or name under which
    to build the command line tool (together with any extra sources listed in
    programs[cli]). Returns {name: path}.
    """
    v = VARIANTS[variant]
    out = os.path.join(scratch, 'b-' + variant)
    os.makedirs(out, exist_ok=True)
    _configure(out, v['debug'], mlock=not any('sanitize' in f for f in v['flags']))
    inc = ['-I' + out, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
    base = [v['cc'], '-std=gnu99', '-w', '-D_GNU_SOURCE'] + inc
    jobs = []
    libobjs = []
    for s in [os.path.join(out, 'version.c')] + lib_sources():
        o = os.path.join(out, re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.o')
        flags = v.get('mono', v['flags']) if s.endswith('monocypher.c') else v['flags']
        # -D_GNU_SOURCE would change the library, it is only used by harnesses
        jobs.append([x for x in base if x != '-D_GNU_SOURCE'] + flags + ['-c', s, '-o', o])
        libobjs.append(o)
    links = []
    for name, (sources, lflags) in programs.items():
        objs = []
        for s in sources:
            o = os.path.join(out, name + '_' + re.sub(r'\W', '_', os.path.basename(s)) + '.o')
            jobs.append(base + v['flags'] + list(defines) + ['-c', s, '-o', o])
            objs.append(o)
        if name == cli:
            clid = os.path.join(REPO, 'src/cli')
            for s in sorted(os.listdir(clid)):
                if s.endswith('.c'):
                    o = os.path.join(out, 'cli_' + re.sub(r'\W', '_', s) + '.o')
                    jobs.append([x for x in base if x != '-D_GNU_SOURCE'] + v['flags'] +
                                [f for f in cli_flags if f.startswith('-D')] +
                                ['-c', os.path.join(clid, s), '-o', o])
                    objs.append(o)
        exe = os.path.join(out, name)
        links.append((exe, [v['cc']] + v['flags'] + objs + ['@LIB@'] + list(lflags) +
                      ([f for f in cli_flags if not f.startswith('-D')] if name == cli else []) +
                      ['-lm', '-o', exe]))
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[j.index('-c') + 1]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_run, jobs))
        list(ex.map(_run, [[y for x in l for y in (libobjs if x == '@LIB@' else [x])] for _, l in links]))
    return {os.path.basename(e): e for e, _ in links}
