#!/usr/bin/env python3
"""Deterministic-simulation checks for ladnir/macoro.

  check.py <property> [--tier quick|thorough] [--runs N] [--time S] [--scen NAME]
  check.py --replay FILE          rebuild from /repo and replay a violation
  check.py --setup                compile the simulator itself (warms nothing the checks depend on)
  check.py --selftest             litmus tests of the simulator: what it must report and what it must not

Exit 0 held, 1 with a VIOLATION line, 2 the check itself failed.
"""
import sys, os, re, json, glob, time, threading, hashlib, subprocess, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MACORO_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS, COMPONENTS
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known-findings.txt')
CXX = 'g++'

class CheckError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def make_config(cfg, d):
    """config.h exactly as CMake's configure_file makes it, for C++20 and this stop-token configuration."""
    on = {'MACORO_CPP_20'} | ({'MACORO_HAS_STD_STOP_TOKEN'} if cfg == 'std' else set())
    out = []
    for l in open(os.path.join(REPO, 'macoro/config.h.in')):
        m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', l)
        if m:
            n, rest = m.group(2), m.group(3)
            if m.group(1): l = '#define %s %d\n' % (n, n in on)
            elif n in on: l = '#define %s%s\n' % (n, re.sub(r'@(\w+)@', lambda k: 'ON' if k.group(1) in on else '', rest))
            else: l = '/* #undef %s */\n' % n
        out.append(l)
    p = os.path.join(d, 'macoro'); os.makedirs(p, exist_ok=True)
    open(os.path.join(p, 'config.h'), 'w').writelines(out)
    srcs = sorted(glob.glob(os.path.join(REPO, 'macoro/**/*.cpp'), recursive=True))
    with open(os.path.join(d, 'lib_sources.inc'), 'w') as f:
        for s in srcs:
            own = os.path.basename(s).startswith('stop_')
            if (own and cfg == 'std') or os.path.basename(s).startswith('win32'): continue
            f.write('#include "%s"\n' % os.path.relpath(s, REPO))

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

def repo_files():
    r = []
    for pat in ('*.h', '*.cpp', '*.in', '*.hpp', '*.inc', '*.ipp'):
        r += glob.glob(os.path.join(REPO, 'macoro/**', pat), recursive=True)
    return sorted(set(r))

def compile_one(out, args):
    if os.path.exists(out): return
    tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident())
    r = sh([CXX] + args + ['-o', tmp])
    if r.returncode: raise CheckError('compilation failed: %s\n%s' % (' '.join(args), r.stdout[-6000:]))
    os.replace(tmp, out)

def build(tu, cfg):
    """Builds the simulator with /repo's current sources; content-addressed, so a stale object is never used."""
    if cfg == 'deep': tu = 'deep'
    os.makedirs(BUILD, exist_ok=True)
    simf = sorted(glob.glob(HERE + '/sim/*')); scf = sorted(glob.glob(HERE + '/scen/*'))
    rt = '%s/rt-%s.o' % (BUILD, digest(simf)); mn = '%s/main-%s.o' % (BUILD, digest(simf))
    key = digest(simf + scf + repo_files() + [HERE + '/check.py'], tu + cfg)
    gen = '%s/gen-%s-%s' % (BUILD, cfg, key); so = '%s/%s-%s-%s.o' % (BUILD, tu, cfg, key); exe = '%s/%s-%s-%s' % (BUILD, tu, cfg, key)
    if os.path.exists(exe): return exe
    def mtime(p):   # another build may be renaming or deleting it
        try: return os.path.getmtime(p)
        except OSError: return time.time()
    for t, p in sorted((mtime(p), p) for p in glob.glob(BUILD + '/*'))[:-120]:   # bound the size of the build directory
        if t >= time.time() - 3600: continue
        try: shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        except OSError: pass
    tmpg = '%s.%d.%d' % (gen, os.getpid(), threading.get_ident()); make_config(cfg, tmpg)
    if not os.path.exists(gen):
        try: os.rename(tmpg, gen)
        except OSError: shutil.rmtree(tmpg, ignore_errors=True)
    else: shutil.rmtree(tmpg, ignore_errors=True)
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(compile_one, rt, ['-std=c++20', '-O2', '-g1', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin-memcpy', '-fno-builtin-memset', '-c', HERE + '/sim/rt.cpp']),
              ex.submit(compile_one, mn, ['-std=c++20', '-O1', '-w', '-c', HERE + '/sim/main.cpp']),
              ex.submit(compile_one, so, ['-std=c++20'] + (['-O2'] if cfg == 'deep' else ['-O0' if cfg == 'O0' else '-O1', '-fsanitize=thread']) + ['-g1', '-w', '-U_FORTIFY_SOURCE', '-Wno-tsan', '-I' + HERE + '/sim', '-I' + gen, '-I' + REPO, '-c', '%s/scen/%s.cpp' % (HERE, tu)])]
        for f in fs: f.result()
    tmp = '%s.%d.%d.tmp' % (exe, os.getpid(), threading.get_ident())
    r = sh([CXX, '-no-pie', so, rt, mn, '-o', tmp])
    if r.returncode: raise CheckError('link failed\n' + r.stdout[-4000:])
    os.replace(tmp, exe)
    return exe

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r'\{([0-9a-f]+)\}', text)))
    if not pcs: return text
    m = {}
    try:
        r = subprocess.run(['addr2line', '-e', exe, '-f', '-C', '-i', '-s', '-a'] + ['0x%x' % (int(p, 16) - 1) for p in pcs], capture_output=True, text=True, timeout=60).stdout
        cur = None; fr = {}
        for l in r.split('\n'):
            if re.match(r'0x[0-9a-f]+$', l): cur = int(l, 16) + 1; fr[cur] = []
            elif cur is not None and l: fr[cur].append(l)
        for p in pcs:
            f = fr.get(int(p, 16), []); o = []
            for i in range(0, len(f) - 1, 2):
                fn = f[i]; prev = None
                while prev != fn: prev = fn; fn = re.sub(r'<[^<>]*>', '', fn)
                fn = re.sub(r'\(.*', '', fn).split(' ')[-1]
                o.append('%s@%s' % (fn[-48:], f[i + 1].split(' ')[0]))
            m[p] = ' < '.join(o[:3]) or p
    except Exception: return text
    return re.sub(r'\{([0-9a-f]+)\}', lambda k: '{' + m.get(k.group(1), k.group(1)) + '}', text)

def read_known():
    known = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+) (.*)', l)
            if m: known.append(m.groups())
    return known

def run_exe(exe, prop, seed, runs, tmax, workers, work, scen, known):
    out = os.path.join(work, os.path.basename(exe) + '.json'); kf = os.path.join(work, 'known')
    with open(kf, 'w') as f:
        for p, s, c, _ in known: f.write('%s %s %s\n' % (p, s, c))
    cmd = [exe, 'run', '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--time', str(tmax), '--workers', str(workers), '--out', out, '--known', kf, '--mintime', '25']
    if scen: cmd += ['--scen', scen]
    r = sh(cmd, timeout=tmax + 240)
    if r.returncode not in (0, 1) or not os.path.exists(out): raise CheckError('simulator ended with %s:\n%s' % (r.returncode, r.stdout[-3000:]))
    j = json.load(open(out)); j['_out'] = out; j['_rc'] = r.returncode
    return j

def replay(exe, path, trace=False):
    r = sh([exe, 'replay', path] + (['--trace', '1'] if trace else []), timeout=120)
    l = [x for x in r.stdout.strip().split('\n') if x.startswith('{"violation"')]
    if not l: raise CheckError('replay gave no result: rc=%s %s' % (r.returncode, r.stdout[-800:]))
    return json.loads(l[-1]), r.stdout

def fault_trace(text):
    """the decision trace of a replay, without the atomic-by-atomic detail"""
    keep = [l for l in text.split('\n') if l.strip() and not l.startswith('{"violation"')]
    return keep

def check(prop, tier, seed, runs=None, tmax=None, scen=None):
    t0 = time.time(); P = PROPS[prop]; tu = P['tu']; cfgs = P.get('cfgs', ['own'])
    runs = runs or P[tier]; tmax = tmax or (46 if tier == 'quick' else 660)
    workers = min(8, os.cpu_count() or 1)
    evp = os.path.join(HERE, 'evidence', prop + '.json'); os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp): os.unlink(evp)
    with ThreadPoolExecutor(len(cfgs)) as ex: exes = list(ex.map(lambda c: build(tu, c), cfgs))
    tb = time.time() - t0
    known = [k for k in read_known() if k[0] == prop]
    work = tempfile.mkdtemp(prefix='sim-' + prop + '-')
    viol = 0; res = []; vline = None; samples = []
    try:
        for cfg, exe in zip(cfgs, exes):
            deep = cfg == 'deep'   # few, long, single-threaded runs
            main_cfgs = [c for c in cfgs if c not in ('deep', 'O0')]   # O0: an unoptimised build, in which every access of the source survives
            if scen and scen not in [x.split()[1] for x in sh([exe, 'list']).stdout.split('\n') if x.startswith(prop + ' ')]: continue
            j = run_exe(exe, prop, seed, 4000 if deep else runs // 8 if cfg == 'O0' else max(1, runs // len(main_cfgs)), 20 if deep else tmax / 6 if cfg == 'O0' else tmax / len(main_cfgs), workers, work, scen, known); j['cfg'] = cfg; res.append(j)
            if j['_rc'] == 1:
                viol = 1; rp = j['_out'] + '.replay'
                d = json.load(open(rp))
                r, tr = replay(exe, rp, True)
                if not r['violation'] or r['class'] != d['class'] or r['hash'] != d['hash']:
                    raise CheckError('a violation (%s) did not reproduce in a fresh process: %s' % (d, r))
                r2, _ = replay(exe, rp)
                if r2['hash'] != r['hash']: raise CheckError('replay is not repeatable')
                d['tu'] = tu; d['config'] = cfg; d['symbolised'] = symbolise(exe, d['message']); d['trace'] = symbolise(exe, '\n'.join(fault_trace(tr)[-400:])).split('\n'); d['verif_seed'] = seed; d['tape_format'] = 'one integer per decision the simulator made (0 = the simplest one)'
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, '%s-%s-%s.json' % (prop, d['scenario'], d['hash']))
                # same field order as the driver writes, so that the driver can read it back
                with open(path, 'w') as f: f.write(json.dumps(d, separators=(',', ':')).replace(',"trace":', ',\n"trace":').replace(',"message":', ',\n"message":').replace(',"tape":', ',\n"tape":'))
                r3, _ = replay(exe, path)
                if r3['hash'] != r['hash']: raise CheckError('the stored replay file does not reproduce')
                print('%s: scenario %s (configuration %s), %s: %s' % (prop, d['scenario'], cfg, d['class'], d['symbolised']))
                print('seed %d run %s, schedule of %d decisions minimised to %d' % (seed, d['run'], d['original_tape'], len(d['tape'])))
                vline = 'VIOLATION property=%s replay=%s' % (prop, path)
                break
            for k in known:
                if j['known'].get(k[1]): print('KNOWN-FINDING: property=%s %s (%d runs, configuration %s)' % (prop, k[3], j['known'][k[1]], cfg))
        # sample runs, written out
        for cfg, exe in list(zip(cfgs, exes))[:1]:
            names = [x.split()[1] for x in sh([exe, 'list']).stdout.split('\n') if x.startswith(prop + ' ')]
            for i, n in enumerate(names[:3]):
                o = sh([exe, 'one', '--prop', prop, '--scen', n, '--seed', str(seed * 7919 + i), '--trace', '1'], timeout=60).stdout.strip().split('\n')
                samples.append({'scenario': n, 'configuration': cfg, 'run_seed': seed * 7919 + i, 'events': len(o) - 1, 'first_events': symbolise(exe, '\n'.join(x.strip() for x in o[:18])).split('\n'), 'outcome': o[-1]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    S = lambda k: sum(j[k] for j in res)
    def merge(k):
        m = {}
        for j in res:
            for a, b in j[k].items(): m[a] = m.get(a, 0) + b
        return m
    exp = S('explore_s')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': viol,
          'coverage': {
              'evaluations': S('runs'), 'distinct_nontrivial': S('distinct'),
              'rule': 'One evaluation is one simulated run: a scenario (workload with randomly drawn parameters) executed under a schedule and fault sequence drawn from one seed. '
                      'A run is non-trivial if it contains at least one pre-emption of a runnable thread, one fired fault or one distinct generated program; it is distinct if the hash of its scenario and of its sequence of context switches (thread, event, location) differs from all others of the same configuration.',
              'samples': samples,
              'scenarios': {j['cfg']: j['scenarios'] for j in res},
              'runs_per_hour': int(S('runs') / max(exp, 1e-3) * 3600), 'seeds_per_hour': int(S('runs') / max(exp, 1e-3) * 3600),
              'simulated_events': S('steps'), 'simulated_seconds': round(S('sim_ns') / 1e9, 3), 'context_switches': S('switches'), 'runs_finished_under_fair_scheduling': S('fair'), 'longest_run_events': max(j['maxsteps'] for j in res),
              'faults_fired': merge('faults'), 'probes': merge('probes'),
              'determinism_resamples': S('detcheck'), 'determinism_mismatches': S('detbad'), 'known_finding_runs': merge('known'),
              'explore_s': round(exp, 2), 'build_s': round(tb, 2), 'workers': workers, 'configurations': cfgs,
              'real_code': COMPONENTS[tu]['real'], 'simulated_or_stub': COMPONENTS[tu]['stub']},
          'assumptions': ['The simulated memory model is release/acquire with bounded-staleness loads (see DESIGN.md); compiled code is g++ -O1 with the sanitizer instrumentation redirected to the simulator.',
                          'Sampling, not enumeration: a clean batch is evidence for the schedules and faults explored.']}
    json.dump(ev, open(evp + '.tmp', 'w'), indent=1); os.replace(evp + '.tmp', evp)
    print('%s: %d runs, %d distinct, %.1f s (build %.1f s), %s' % (prop, S('runs'), S('distinct'), time.time() - t0, tb, 'VIOLATED' if viol else 'held'))
    if vline: print(vline, flush=True); return 1
    return 0

def selftest():
    d = tempfile.mkdtemp(prefix='sim-self-'); bad = 0
    try:
        for o, f in (('rt', ['-O2']), ('main', ['-O1'])): compile_one('%s/%s.o' % (d, o), ['-std=c++20', '-w', '-U_FORTIFY_SOURCE', '-fno-builtin-memcpy', '-fno-builtin-memset', '-c', '%s/sim/%s.cpp' % (HERE, o)] + f)
        compile_one(d + '/st.o', ['-std=c++20', '-O1', '-g1', '-w', '-fsanitize=thread', '-I' + HERE + '/sim', '-c', HERE + '/sim/selftest.cpp'])
        compile_one(d + '/st', ['-no-pie', d + '/st.o', d + '/rt.o', d + '/main.o'])
        for l in sh([d + '/st', 'list']).stdout.split('\n'):
            if not l.strip(): continue
            p, n = l.split()[:2]; out = d + '/o.json'
            r = sh([d + '/st', 'run', '--prop', p, '--scen', n, '--seed', '1', '--runs', '100000', '--time', '20', '--workers', '4', '--out', out])
            cls = json.load(open(out + '.replay'))['class'] if r.returncode == 1 else 'quiet'
            ok = (cls == 'quiet') == (p == 'OK'); bad += not ok
            print('%s %-28s %s' % ('ok  ' if ok else 'FAIL', n, cls))
            if os.path.exists(out + '.replay'): os.unlink(out + '.replay')
    finally: shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == '--setup':
            os.makedirs(BUILD, exist_ok=True); d = tempfile.mkdtemp(prefix='sim-setup-')
            try: compile_one(d + '/rt.o', ['-std=c++20', '-O1', '-w', '-c', HERE + '/sim/rt.cpp']); compile_one(d + '/main.o', ['-std=c++20', '-O1', '-w', '-c', HERE + '/sim/main.cpp'])
            finally: shutil.rmtree(d, ignore_errors=True)
            return 0
        if a and a[0] == '--selftest': return selftest()
        if a and a[0] == '--replay':
            d = json.load(open(a[1])); exe = build(d['tu'], d['config']); r, tr = replay(exe, a[1], True)
            print(symbolise(exe, tr)); return 1 if r['violation'] else 0
        prop = a[0]; opt = {a[i][2:]: a[i + 1] for i in range(1, len(a) - 1, 2)}
        tier = opt.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
        seed = int(opt.get('seed') or os.environ.get('VERIF_SEED') or 1)
        return check(prop, tier, seed, int(opt['runs']) if 'runs' in opt else None, float(opt['time']) if 'time' in opt else None, opt.get('scen'))
    except Exception as e:
        print('check error: %s: %s' % (type(e).__name__, e), file=sys.stderr); return 2
if __name__ == '__main__': sys.exit(main())
