#!/usr/bin/env python3
"""Builds the harness against /repo's current working tree and runs one property check.

usage: run.py <PROPERTY> <quick|thorough>      run a check
       run.py replay <FILE>                    re-execute a replay file
       run.py build [BINARY...]                only build
"""
import fcntl, glob, json, os, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')
CXX = 'g++-13'
STD = ['-std=c++23', '-pthread', '-fno-omit-frame-pointer', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=enum']
ASSERTS = ["-D_GLIBCXX_ASSERTIONS"] + (["-DVP_ASSERT_INFO"] if os.environ.get("VP_ASSERT_INFO") else [])

# binary -> harness sources
BINARIES = {
    'core': ['h_core.cpp', 'hl.cpp'],
}
CHECKS = {}


def load_checks():
    with open(os.path.join(VERIF, 'checks.json')) as f:
        d = json.load(f)
    BINARIES.clear()
    BINARIES.update(d['binaries'])
    CHECKS.update(d['checks'])


def lib_sources():
    s = []
    for pat in ('src/main/cpp/*.cpp', 'src/main/cpp/lang/*.cpp'):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    return [x for x in s if os.path.basename(x) not in ('main.cpp', 'wasm.cpp')]


def ninja_file(bdir):
    inc = '-I' + os.path.join(REPO, 'include')
    out = ['ninja_required_version = 1.5',
           'rule cxx\n  command = %s $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % CXX,
           'rule ar\n  command = rm -f $out && ar rcs $out $in',
           'rule link\n  command = %s $flags $in -o $out $libs' % CXX]
    libflags = ' '.join(STD + SAN + ASSERTS + ['-O1', '-g1', inc, '-fsanitize-coverage=trace-pc'])
    objs = []
    for s in lib_sources():
        o = 'lib/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'
        out.append('build %s: cxx %s\n  flags = %s' % (o, s, libflags))
        objs.append(o)
    out.append('build libulight.a: ar ' + ' '.join(objs))
    hflags = ' '.join(STD + SAN + ASSERTS + ['-O1', '-g1', inc, '-I' + H])
    done = set()
    for b, srcs in BINARIES.items():
        os_ = []
        for s in ['engine.cpp'] + srcs:
            o = 'h/' + s + '.o'
            if o not in done:
                done.add(o)
                out.append('build %s: cxx %s\n  flags = %s' % (o, os.path.join(H, s), hflags))
            os_.append(o)
        # The library comes first, so that inline functions are linked as instrumented there, not as in the harness.
        out.append('build bin/%s: link %s | libulight.a\n  flags = %s -Wl,--wrap=memchr -Wl,--whole-archive libulight.a -Wl,--no-whole-archive\n  libs = -lpthread'
                   % (b, ' '.join(os_), ' '.join(STD + SAN)))
    # The command-line program, built like the project's own (no sanitizers) and with them.
    main = os.path.join(REPO, 'src/main/cpp/main.cpp')
    if os.path.exists(main):
        out.append('build lib/main.o: cxx %s\n  flags = %s' % (main, ' '.join(STD + SAN + ASSERTS + ['-O1', '-g1', inc])))
        out.append('build h/covstub.o: cxx %s\n  flags = %s' % (os.path.join(H, 'covstub.cpp'), ' '.join(STD)))
        out.append('build bin/ulight-cli: link lib/main.o h/covstub.o libulight.a\n  flags = %s\n  libs = -lpthread' % ' '.join(STD + SAN))
    # For the JavaScript parts: the library behind a pipe, and the memory layout on wasm32.
    js = os.path.join(H, 'js')
    out.append('build h/jsrpc.o: cxx %s\n  flags = %s' % (os.path.join(js, 'jsrpc.cpp'), hflags))
    if not os.path.exists(main):
        out.append('build h/covstub.o: cxx %s\n  flags = %s' % (os.path.join(H, 'covstub.cpp'), ' '.join(STD)))
    out.append('build bin/jsrpc: link h/jsrpc.o h/covstub.o libulight.a\n  flags = %s\n  libs = -lpthread' % ' '.join(STD + SAN))
    out.append('rule wasm_layout\n  command = clang --target=wasm32 -std=c17 -w -O0 -S -MMD -MF $out.d -I%s %s -o $out $in\n  depfile = $out.d\n  deps = gcc'
               % (os.path.join(js, 'freestanding'), inc))
    out.append('build js/layout.s: wasm_layout %s' % os.path.join(js, 'layout.c'))
    text = '\n'.join(out) + '\n'
    p = os.path.join(bdir, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, 'w') as f:
            f.write(text)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ninja_file(BUILD)
        r = subprocess.run(['ninja', '-C', BUILD, '-j', str(os.cpu_count() or 8)] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print('BUILD FAILED')
            sys.exit(3)


def targets(c):
    if 'node' in c:
        return ['bin/jsrpc', 'js/layout.s']
    return ['bin/' + c['binary']] + (['bin/ulight-cli'] if c.get('cli') else [])


def command(c):
    if 'node' in c:
        return ['node', '--experimental-vm-modules', '--no-warnings', '--max-old-space-size=2048', os.path.join(H, 'js', c['node'])]
    return [os.path.join(BUILD, 'bin', c['binary'])]


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)['known']


STACK = 512 << 20


def raise_stack_limit():
    """The instrumented build needs several times the stack of the product, so deeply nested
    inputs get a generous stack here."""
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = STACK if hard == resource.RLIM_INFINITY else min(STACK, hard)
    if soft != resource.RLIM_INFINITY and soft < want:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def main():
    load_checks()
    raise_stack_limit()
    if len(sys.argv) >= 2 and sys.argv[1] == 'build':
        build(['bin/' + b for b in (sys.argv[2:] or BINARIES)] + ['bin/ulight-cli', 'bin/jsrpc', 'js/layout.s'])
        return 0
    env = dict(os.environ, VP_DIR=VERIF, VP_REPO=REPO, VP_CLI=os.path.join(BUILD, 'bin/ulight-cli'),
               VP_JSRPC=os.path.join(BUILD, 'bin/jsrpc'), VP_LAYOUT=os.path.join(BUILD, 'js/layout.s'))
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        prop = None
        for line in open(sys.argv[2]):
            if line.startswith('property:'):
                prop = line.split()[1]
        c = CHECKS[prop]
        build(targets(c))
        with tempfile.TemporaryDirectory(prefix='vp-') as tmp:
            return subprocess.run(command(c) + ['--prop', prop, '--replay', sys.argv[2], '--tmp', tmp], env=env).returncode
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    extra = sys.argv[3:]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = CHECKS[prop]
    t0 = time.time()
    build(targets(c))
    t_build = time.time() - t0
    ev_dir = os.path.join(VERIF, 'evidence')
    rp_dir = os.path.join(VERIF, 'out', 'replays')
    os.makedirs(ev_dir, exist_ok=True)
    os.makedirs(rp_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rp_dir, prop + '-*.replay')):
        os.unlink(f)
    limit = c.get('cpu_limit_quick', 300) if tier == 'quick' else c.get('cpu_limit_thorough', 2400)
    with tempfile.TemporaryDirectory(prefix='vp-') as tmp:
        res = os.path.join(tmp, 'result.json')
        cmd = command(c) + ['--prop', prop, '--tier', tier, '--seed', str(seed),
               '--out', res, '--replay-dir', rp_dir, '--tmp', tmp, '--workers', '8', '--cpu-limit', str(limit)] + extra
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(res):
            print('CHECK ERROR: the harness produced no result (exit %d)' % r.returncode)
            return 4
        with open(res) as f:
            d = json.load(f)
    listed = {k['id']: k for k in findings() if k['property'] == prop}
    rc = 0
    violations = list(d['violations'])
    for k, v in d['known'].items():
        if k not in listed:
            # a finding the machinery recognises but which is not (or no longer) in the file
            path = os.path.join(rp_dir, '%s-finding-%s.replay' % (prop, k))
            with open(path, 'w') as f:
                f.write('property: %s\nfinding: %s\ninput: %s\n' % (prop, k, v['sample']))
            violations.append(path)
    for k in listed.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        rc = 1
    cov = {
        'evaluations': d['evaluations'],
        'distinct_nontrivial': d['distinct_nontrivial'],
        'rule': d['rule'],
        'samples': d['samples'],
        'cases_generated': d['cases'],
        'classes': d['classes'],
        'coverage_guided_corpus': d['coverage_corpus'],
        'cut_by_cpu_limit': d['cut_by_cpu_limit'],
        'known_finding_hits': {k: v['count'] for k, v in d['known'].items()},
        'build_s': round(t_build, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2),
          'assumptions': c.get('assumptions', []),
          'violations': [{'replay': v} for v in violations]}
    if d['unconfirmed']:
        cov['unconfirmed'] = d['unconfirmed'][:2000]
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs'
          % (prop, tier, seed, d['cases'], d['distinct_nontrivial'], t_build, time.time() - t0))
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (prop, v))
    return rc


if __name__ == '__main__':
    sys.exit(main())
