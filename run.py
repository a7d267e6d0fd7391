#!/usr/bin/env python3
"""Driver of all checks.

usage: run.py <property> [quick|thorough]      run the check of a property
       run.py --setup                          build everything once (smoke test of the toolchain)
       run.py --replay <replay file>           run the case of a replay file again

Everything is built from the working tree of /repo (override: VP_REPO) in /verif/build (override: VP_BUILD),
keyed by the content of the sources, so a changed tree is always rebuilt.

exit: 0 held on all that was explored, 1 with a VIOLATION line, 2 no verdict (build or harness problem)
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
EVID = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))
JOBS = int(os.environ.get('VP_JOBS', '8'))

from checks import CHECKS, HARNESSES, VARIANTS  # noqa: E402


class NoVerdict(Exception):
    pass


class BuildError(Exception):
    def __init__(self, what, output):
        super().__init__(what)
        self.output = output


def files_under(*roots):
    res = []
    for root in roots:
        if os.path.isfile(root):
            res.append(root)
            continue
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.cpp', '.h', '.hpp', '.inl', '.ipp', '.py', '.rb', '.in')):
                    res.append(os.path.join(d, f))
    return res


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(os.path.relpath(f, '/').encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_tree = None


def tree_digest():
    global _tree
    if _tree is None:
        _tree = digest(files_under(os.path.join(REPO, 'code'), os.path.join(REPO, 'v1compat'), os.path.join(VERIF, 'stubs')))
    return _tree


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def compile_all(cmds):
    """runs compile commands in parallel; raises on the first failure"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(cmds, ex.map(lambda c: sh(c, timeout=800), cmds)):
            if r.returncode != 0:
                raise BuildError(' '.join(cmd), r.stdout)


def base_flags(variant):
    v = VARIANTS[variant]
    return ['-g', '-fno-omit-frame-pointer', '-include', os.path.join(VERIF, 'stubs', 'vp_prelude.hpp'),
            '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'code')] + v['flags']


def lib_commands(variant, out):
    v = VARIANTS[variant]
    cmds, objs = [], []
    for sub in ('code/dynamix', 'code/dynamix/compat/pmr'):
        d = os.path.join(REPO, sub)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if f.endswith('.cpp'):
                o = os.path.join(out, sub.replace('/', '_') + '_' + f + '.o')
                cmds.append([v['cxx'], '-std=c++17'] + base_flags(variant) + v['lib'] + ['-c', os.path.join(d, f), '-o', o])
                objs.append(o)
    d = os.path.join(REPO, 'code/dnmx')
    for f in sorted(os.listdir(d)):
        if f.endswith('.c'):
            o = os.path.join(out, 'dnmx_' + f + '.o')
            cmds.append([v['cc'], '-g', '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'code')] + v['flags'] + v['lib'] + ['-c', os.path.join(d, f), '-o', o])
            objs.append(o)
    return cmds, objs


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def prune(keep):
    """builds of trees that are gone"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.match(r'^[a-z0-9_]+-[0-9a-f]{16}$', d)]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-60]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(wanted):
    """builds [(harness, variant)] -> {(harness, variant): executable or list of executables}"""
    res = {}
    with Lock():
        phase1, libs, todo, shared = [], {}, [], []
        for h, v in wanted:
            H = HARNESSES[h]
            if H.get('lib', True) and v not in libs:
                out = os.path.join(BUILD, 'lib%s-%s' % (v, digest([], tree_digest() + json.dumps(VARIANTS[v]))))
                a = os.path.join(out, 'libdynamix.so' if VARIANTS[v].get('shared') else 'lib.a')
                if not os.path.exists(a):
                    shutil.rmtree(out, ignore_errors=True)
                    os.makedirs(out)
                    cmds, objs = lib_commands(v, out)
                    libs[v] = (a, objs)
                    phase1 += [('lib', c) for c in cmds]
                else:
                    libs[v] = (a, None)
        for h, v in wanted:
            H = HARNESSES[h]
            srcs = [os.path.join(VERIF, 'harness', s) for s in H['sources']]
            dig = digest(files_under(os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'tools')), tree_digest() + json.dumps(VARIANTS[v]) + json.dumps(H, default=str))
            out = os.path.join(BUILD, '%s_%s-%s' % (h, v, dig))
            exe = os.path.join(out, h)
            res[(h, v)] = exe
            if os.path.exists(exe):
                os.utime(out)
                continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            V = VARIANTS[v]
            gen = []
            incs = ['-I' + os.path.join(VERIF, 'harness')]
            if 'generate' in H:
                import generate
                gdir = os.path.join(out, 'gen')
                os.makedirs(gdir)
                more, gincs = getattr(generate, H['generate'])(gdir, REPO)
                gen += more
                incs += ['-I' + i for i in gincs]
            objs = []
            for s in srcs + gen:
                o = os.path.join(out, os.path.basename(s) + '.o')
                if s.endswith('.c'):
                    cmd = [V['cc'], '-g', '-std=c11', '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(REPO, 'code')] + V['flags'] + V['harness'] + incs
                else:
                    cmd = [V['cxx'], '-std=' + H.get('std', 'c++20')] + base_flags(v) + V['harness'] + incs
                cmd += ['-Wno-everything'] if 'clang' in V['cc'] else ['-w']
                phase1.append(('harness ' + h, cmd + H.get('flags', []) + ['-c', s, '-o', o]))
                objs.append(o)
            todo.append((h, v, exe, objs))
            # shared libraries: (name, sources or None for the library itself, flags, names of libraries it needs)
            for name, lsrcs, flags, needs in H.get('shared', []):
                lout = os.path.join(out, name)
                os.makedirs(lout)
                flags = flags + H.get('flags', []) + ['-fPIC']
                if lsrcs is None:
                    cmds, lobjs = lib_commands(v, lout)
                    phase1 += [('lib', c + flags) for c in cmds]
                else:
                    lobjs = []
                    for s in lsrcs:
                        o = os.path.join(lout, s + '.o')
                        phase1.append(('harness ' + h, [V['cxx'], '-std=' + H.get('std', 'c++20')] + base_flags(v) + V['harness'] + incs + ['-w'] + flags + ['-c', os.path.join(VERIF, 'harness', s), '-o', o]))
                        lobjs.append(o)
                so = os.path.join(out, 'lib%s.so' % name)
                shared.append((so, [V['cxx']] + V['flags'] + ['-shared'] + lobjs + ['-o', so, '-Wl,-rpath,$ORIGIN', '-L' + out] + ['-l' + x for x in needs] + V.get('link', [])))
        # longest first: harnesses
        phase1.sort(key=lambda x: x[0] == 'lib')
        errors = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (what, cmd), r in zip(phase1, ex.map(lambda c: sh(c[1], timeout=800), phase1)):
                if r.returncode != 0:
                    errors.append((what, cmd, r.stdout))
        lerr = [e for e in errors if e[0] == 'lib']
        if lerr:
            raise NoVerdict('the library does not build:\n' + lerr[0][2][:3000])
        if errors:
            raise BuildError(errors[0][0], ' '.join(errors[0][1]) + '\n' + errors[0][2])
        for v, (a, objs) in libs.items():
            if objs is not None:
                r = sh([VARIANTS[v]['cxx'], '-shared', '-Wl,-soname,libdynamix.so'] + objs + ['-o', a + '.tmp', '-pthread'] if VARIANTS[v].get('shared') else ['ar', 'rcs', a + '.tmp'] + objs)
                if r.returncode != 0:
                    raise NoVerdict(r.stdout)
                os.rename(a + '.tmp', a)
        for so, cmd in shared:
            r = sh(cmd)
            if r.returncode != 0:
                raise BuildError('link of ' + os.path.basename(so), r.stdout)
        for h, v, exe, objs in todo:
            V = VARIANTS[v]
            lib = [libs[v][0], '-Wl,-rpath,' + os.path.dirname(libs[v][0])] if v in libs and HARNESSES[h].get('lib', True) else []
            for e, os_ in [(exe + '.r', objs[::-1]), (exe, objs)]:
                if e != exe and not HARNESSES[h].get('reversed'):
                    continue
                r = sh([V['cxx']] + V['flags'] + os_ + lib + ['-o', e + '.tmp', '-pthread'] + V.get('link', []) + ['-L' + os.path.dirname(exe)] * bool(HARNESSES[h].get('link')) + HARNESSES[h].get('link', []))
                if r.returncode != 0:
                    raise BuildError('link of ' + h, r.stdout)
                os.rename(e + '.tmp', e)
        prune(set(os.path.dirname(x) for x in res.values()))
    return res


# ----------------------------------------------------------------------------------------------------

def san_env(variant, leaks=True):
    e = dict(os.environ)
    sup = os.path.join(VERIF, 'harness', 'tsan.supp')
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=12' % (1 if leaks else 0)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1' + (':suppressions=' + sup if os.path.exists(sup) else '')
    e['LSAN_OPTIONS'] = 'exitcode=66'
    return e


def run_chunk(exe, variant, args, timeout, leaks=True):
    cmd = [exe] + args
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(variant, leaks), timeout=timeout)
        out, err, rc = p.stdout.decode('latin1'), p.stderr.decode('latin1'), p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('latin1')
        err = (x.stderr or b'').decode('latin1')
        rc = 'timeout'
    if rc not in (0, 'timeout') and 'LeakSanitizer has encountered a fatal error' in err and leaks:
        return run_chunk(exe, variant, args, timeout, False)
    return {'cmd': cmd, 'out': out, 'err': err, 'rc': rc, 't': time.time() - t, 'variant': variant}


def key_of(r):
    """classifies the end of a run; None if it is clean"""
    err = r['err']
    m = re.search(r'VPFAIL key=(\S+)', err)
    if m:
        return m.group(1)
    if r['rc'] == 0 and 'VPSTATS' in r['out']:
        return None
    m = re.search(r'SUMMARY: (\w+)Sanitizer: (\S+)(?: (\S+))?(?: in (.*))?', err)
    um = re.search(r'(\S+): runtime error: (.*)', err)
    if um and (not m or 'undefined' in m.group(2)):
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|\d+', '#', um.group(2))[:100].replace(' ', '_')
    if m:
        fn = re.sub(r'\(.*', '', m.group(4) or '').strip()
        return 'san:%s:%s' % (m.group(2), fn.replace(' ', '_')[:80])
    if r['rc'] == 'timeout':
        return 'hang'
    if re.search(r'Assertion .* failed', err):
        return 'assertion'
    if 'terminate called' in err or r['rc'] == -6:
        return 'abort'
    return 'exit:%s' % r['rc']


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                res.append(m.groups())
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    C = CHECKS[prop]
    runs = [r for r in C['runs'] if r.get(tier, 0)]
    failures, stats, total_chunks = [], {'evaluations': 0, 'counters': {}, 'samples': [], 'distinct': set(), 'by_run': {}}, 0
    inconclusive = []
    exes = {}
    try:
        exes = build(sorted({(r['harness'], r.get('variant', 'asan')) for r in runs}))
    except BuildError as b:
        # the library builds: a program that uses its interface does not
        if C.get('compile_is_property'):
            failures.append({'key': 'api-compile', 'cmd': [str(b)], 'err': b.output[:8000], 'out': '', 'variant': 'asan', 'rc': 1})
        else:
            raise NoVerdict('%s does not build:\n%s' % (b, b.output[:6000]))
    tb = time.time() - t0
    jobs = []
    if exes:
        for r in runs:
            n = r[tier]
            v = r.get('variant', 'asan')
            procs = max(1, JOBS // r.get('weight', 1))
            chunk = r.get('chunk') or max(1, min((n + 4 * procs - 1) // (4 * procs), VARIANTS[v].get('chunk', 400)))
            for a in range(0, n, chunk):
                args = ['--seed', str(seed + r.get('seed_offset', 0)), '--from', str(a), '--cases', str(min(chunk, n - a)), '--level', '1' if tier == 'thorough' else '0']
                if 'profile' in r:
                    args += ['--profile', r['profile']]
                jobs.append((r, exes[(r['harness'], v)] + ('.r' if r.get('reversed') else ''), v, args, r.get('weight', 1)))
    import threading
    slots = threading.Condition()
    free = [JOBS]
    stop = threading.Event()

    def one(job):
        r, exe, v, args, w = job
        if stop.is_set():
            return None
        with slots:
            while free[0] < w:
                slots.wait()
            free[0] -= w
        try:
            if stop.is_set():
                return None
            res = run_chunk(exe, v, args, r.get('timeout', 400))
            if res['rc'] == 'timeout':
                # once more: the machine may have been busy
                res = run_chunk(exe, v, args, r.get('timeout', 400))
            res['run'] = r
            res['key'] = key_of(res)
            if res['key'] == 'no-verdict':
                pass
            return res
        finally:
            with slots:
                free[0] += w
                slots.notify_all()

    known = [k for k in known_findings() if k[0] == prop]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in cf.as_completed(futs):
            res = f.result()
            if res is None:
                continue
            total_chunks += 1
            if res['key']:
                failures.append(res)
                if not any(k[1] == res['key'] for k in known):
                    stop.set()
            m = re.search(r'^VPSTATS (.*)$', res['out'], re.M)
            if m and not res['key']:
                s = json.loads(m.group(1), strict=False)
                stats['evaluations'] += s['evaluations']
                name = '%s/%s/%s' % (res['run']['harness'], res['run'].get('profile', '-'), res['variant'])
                br = stats['by_run'].setdefault(name, {'evaluations': 0})
                br['evaluations'] += s['evaluations']
                for k, n in s['counters'].items():
                    stats['counters'][k] = stats['counters'].get(k, 0) + n
                if len(stats['samples']) < 6 and s['samples']:
                    stats['samples'].append(s['samples'][0])
                stats['distinct'].update(s['distinct'])
    new = [f for f in failures if not any(k[1] == f['key'] for k in known)]
    hit = {k for k in known for f in failures if f['key'] == k[1]}
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    missing = [c for c in C.get('must_observe', []) if not stats['counters'].get(c)]
    rc = 0
    replay = None
    if new:
        f = new[0]
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        case = re.search(r'VPCASE (\d+)', f['err'])
        cmd = list(f['cmd'])
        if case and '--from' in cmd:
            cmd[cmd.index('--from') + 1] = case.group(1)
            cmd[cmd.index('--cases') + 1] = '1'
            if f['variant'] == 'plain':
                # memory which was used by earlier cases may matter
                one_case = run_chunk(cmd[0], 'plain', cmd[1:], 60)
                if key_of(one_case) == f['key']:
                    f['err'] = one_case['err']
                else:
                    cmd = list(f['cmd'])
        name = '%s-%s.txt' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', f['key'])[:60])
        replay = os.path.join(d, name)
        with open(replay, 'w', encoding='utf-8', errors='replace') as o:
            o.write('property: %s\nkey: %s\nharness: %s %s\ncommand: %s\nexit: %s\n\n' % (prop, f['key'], f['run']['harness'] if 'run' in f else '-', f['variant'], ' '.join(shlex.quote(c) for c in cmd), f['rc']))
            o.write(f['err'][:60000])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, VERIF)))
        first = re.search(r'VPFAIL.*|.*runtime error.*|SUMMARY.*|.*error:.*', f['err'])
        print('  key=%s %s' % (f['key'], first.group(0)[:600] if first else ''))
        rc = 1
    elif missing:
        print('no verdict: the workload did not observe: %s' % ', '.join(missing))
        rc = 2
    elif stats['evaluations'] == 0:
        print('no verdict: nothing was observed')
        rc = 2
    os.makedirs(EVID, exist_ok=True)
    cov = {
        'evaluations': stats['evaluations'],
        'distinct_nontrivial': len(stats['distinct']),
        'rule': C['rule'],
        'samples': stats['samples'] or ['none: stopped by a violation'],
        'observed': dict(sorted(stats['counters'].items())),
        'runs': stats['by_run'],
        'processes': total_chunks,
        'build_s': round(tb, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': C.get('level', 'exploration'), 'coverage': cov,
          'assumptions': C.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print('%s %s: held on %d executions (%d distinct non-trivial), %.0f s' % (prop, tier, stats['evaluations'], len(stats['distinct']), time.time() - t0))
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == '--setup':
            want = sorted({(r['harness'], r.get('variant', 'asan')) for c in CHECKS.values() for r in c['runs'] if r.get('quick')})
            build(want)
            print('built %d harnesses' % len(want))
            return 0
        if a[0] == '--replay':
            t = open(a[1], encoding='utf-8', errors='replace').read()
            m = re.search(r'^harness: (\S+) (\S+)$', t, re.M)
            cmd = shlex.split(re.search(r'^command: (.*)$', t, re.M).group(1))
            exe = build([(m.group(1), m.group(2))])[(m.group(1), m.group(2))] + ('.r' if cmd[0].endswith('.r') else '')
            return subprocess.run([exe] + cmd[1:], env=san_env(m.group(2))).returncode
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[0], tier)
    except BuildError as b:
        print('no verdict: %s does not build\n%s' % (b, b.output[:6000]))
        return 2
    except NoVerdict as n:
        print('no verdict: %s' % n)
        return 2


if __name__ == '__main__':
    sys.exit(main())
