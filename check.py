#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough]   decide one property by seeded simulation
   check.py replay FILE                   rebuild what FILE needs and run exactly that execution
   check.py setup                         compile-check the simulator
   check.py selftest                      the simulator itself: correct OpenMP programs stay quiet, incorrect ones are reported, equal seeds give equal executions"""
import array, concurrent.futures as cf, hashlib, json, os, queue, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/sim')
import build as B
REPO = os.environ.get('LALIB_REPO', '/repo')
VARIANTS = {n: ('int', 'blas', 'lapack') for n in range(1, 17)} | {18: ('acc',)}      # 'acc': LALIB_USE_ACCELERATOR
# simulated runs per variant and worker (8 workers) of the quick tier: about 40 s of search on 8 cores
QUICK = {1: 8500, 2: 5000, 3: 6000, 4: 6000, 5: 6000, 6: 13000, 7: 3300, 8: 5000, 9: 20000, 10: 7000, 11: 4000, 12: 5500, 13: 10000, 14: 16000, 15: 28000, 16: 10000, 18: 9000}
WALL = {'quick': 150.0, 'thorough': float(os.environ.get('SIM_THOROUGH_S', '2400'))}      # limit on the search
WORKERS = 8
REAL = ['all of lalib (include/lalib: vectors, dense/packed/banded/sparse matrices, operations, direct and iterative solvers), compiled from the working tree with its own OpenMP directives',
        'libstdc++ containers, algorithms and exceptions', 'OpenBLAS/LAPACKE numerics (single-threaded) where a run is not given the simulated BLAS']
STUB = ['OpenMP runtime (team sizes, chunks, barriers, locks, nesting, target devices and their memory: simulator)', 'thread creation, mutexes, condition variables (simulator)',
        'heap (fixed-address arena with guard zones, seed-chosen content, reuse and failures)', 'level-1/2/3 BLAS in two thirds of the runs (simulated multi-threaded backend that divides the work by seed)',
        'LAPACK error reports where a fault is injected', 'clock, randomness and sleeping (simulated time)']

def known(prop):
    """Entries of known_findings.txt that are not fixed: (property, class, text that the message contains, description)."""
    out = []
    p = HERE + '/known_findings.txt'
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(C\d\d) class=(\S+) contains="([^"]*)" (.*)', l.strip())
        if m and m.group(1) == prop: out.append(m.groups())
    return out

def replay(binary, path):
    p = subprocess.run([binary, 'replay', path], capture_output=True, text=True, timeout=200)
    m = re.search(r'REPRODUCED class=(\S+)', p.stdout)
    return (m.group(1) if m else None), p.stdout.strip()

def worker(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    line = [l for l in p.stdout.splitlines() if l.startswith('{')]
    if not line: raise RuntimeError('%s ended with status %d\n%s\n%s' % (' '.join(cmd), p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
    return json.loads(line[-1]), p.stderr

def check(pid, tier):
    n = int(pid[1:]); t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(HERE + '/evidence', exist_ok=True); os.makedirs(HERE + '/replays', exist_ok=True); os.makedirs(HERE + '/build', exist_ok=True)
    out = tempfile.mkdtemp(prefix=pid + '-', dir=HERE + '/build')
    try: return check_in(out, pid, n, tier, seed, t0)
    finally: shutil.rmtree(out, ignore_errors=True)

def check_in(out, pid, n, tier, seed, t0):
    skipped = []
    bins = B.build(out + '/b', REPO, VARIANTS[n], prop=n, skipped=skipped)
    for v, b, msg in skipped: print(f'warning: {b} ({v}) does not compile against this tree and is left out:\n{msg[-800:]}')
    build_s = time.time() - t0; ts = time.time(); wall = WALL[tier]
    if tier == 'quick': wall = min(wall, 800 - build_s)
    jobs = []
    # small portions, so that the cores stay busy to the end
    per = QUICK[n] if tier == 'quick' else 1 << 60
    portions = 4 if tier == 'quick' else 1
    for part in range(portions):
        for k in range(WORKERS):
            for vi, v in enumerate(VARIANTS[n]): jobs.append((part, k, vi, v))
    results = []; bad = None; vios = []; finding_hits = {}
    kf = known(pid)
    cpus = queue.SimpleQueue()
    for k in range(WORKERS): cpus.put(k)
    def one(job):
        cpu = cpus.get()
        try: return one_on(job, cpu)
        finally: cpus.put(cpu)
    def one_on(job, cpu):
        part, k, vi, v = job
        if vios and any(not x['known'] for x in vios): return None
        left = wall - (time.time() - ts)
        if left <= 0: return None
        # thorough: each job gets an equal share of the wall time (one job per core and variant)
        share = left if tier == 'quick' else wall / len(VARIANTS[n])
        cnt = max(1, per // (portions * len(VARIANTS[n]))) if tier == 'quick' else per
        start = (vi * 1000 + part * 8 + k + 1) * 1_000_000_000 + (0 if tier == 'quick' else 500_000_000)
        tag = f'{out}/{v}.{part}.{k}'
        try:
            r, err = worker([bins[v], 'search', '--prop', str(n), '--seed', str(seed), '--start', str(start), '--count', str(cnt), '--wall', '%.1f' % share, '--out', tag, '--hashes', tag + '.h', '--cpu', str(cpu), '--maxv', '1', '--minwall', '25' if tier == 'quick' else '60'])
        except Exception as e: return ('error', str(e))
        for x in r['violations']:
            known_as = next((f for f in kf if f[1] == x['class'] and f[2] in x['msg']), None)
            x['known'] = bool(known_as); x['variant'] = v
            if known_as: finding_hits[known_as[3]] = x
            try:
                ok = all(replay(bins[v], x['replay'])[0] == x['class'] for _ in range(2))       # in fresh processes
            except Exception as e: ok = False
            x['reproduced'] = ok
            if ok: vios.append(x)
        r['variant'] = v; r['hashes'] = tag + '.h'; r['stderr'] = err[-1500:]
        return r
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(one, jobs):
            if r is None: continue
            if isinstance(r, tuple): bad = r[1]; continue
            results.append(r)
    search_s = time.time() - ts
    vios_new = [x for x in vios if not x['known']]
    # --- evidence
    tot = {}; ops = {}; byv = {}; pol = [0] * 5; inter = set(); nontriv = set(); runs = 0; unstable = 0; cpu = 0.0
    for r in results:
        runs += r['runs']; cpu += r['wall']; unstable += bool(r['unstable']); byv[r['variant']] = byv.get(r['variant'], 0) + r['runs']
        for k, x in r['totals'].items(): tot[k] = max(tot.get(k, 0), x) if k.startswith('max_') else tot.get(k, 0) + x
        for k, x in r['ops'].items(): ops[k] = ops.get(k, 0) + x
        for i, x in enumerate(r['policies']): pol[i] += x
        a = array.array('Q')
        try:
            with open(r['hashes'], 'rb') as f: a.frombytes(f.read())
        except OSError: pass
        for i in range(0, len(a) - 3, 4):
            if a[i + 2]: inter.add(a[i])
            if a[i + 2] or a[i + 3]: nontriv.add(a[i + 1])
    samples = []
    for v, st in ((VARIANTS[n][0], 1_000_000_000), (VARIANTS[n][-1], (len(VARIANTS[n]) - 1) * 1000_000_000_000 + 1_000_000_007)):
        p = subprocess.run([bins[v], 'show', '--prop', str(n), '--seed', str(seed), '--start', str(st)], capture_output=True, text=True)
        samples.append({'variant': v, 'run': st, 'script': [l for l in p.stdout.splitlines() if not l.startswith('#')]})
    faults = {k: tot.get(k, 0) for k in ('alloc_failures_injected', 'lapack_failures_injected', 'stalled_threads', 'runs_memory_nan', 'runs_memory_random', 'runs_memory_stale', 'runs_memory_zero', 'runs_memory_reused_at_once')}
    faults['blas_calls_with_divided_work'] = tot.get('blas_simulated_calls', 0)
    if n == 18: faults |= {k: tot.get(k, 0) for k in ('runs_device_shared_memory', 'runs_device_own_memory', 'device_maps')}
    cov = {'evaluations': runs, 'distinct_nontrivial': len(nontriv),
           'rule': 'one evaluation = one simulated execution generated from (seed, run number): objects, client histories, scheduling policy, memory content, faults. Counted as distinct and non-trivial: executions with at least one task switch, stall or injected failure, distinct by the hash of their whole event trace (every memory access, synchronisation, allocation and switch in order).',
           'samples': samples, 'runs_per_hour': int(runs * 3600 / max(search_s, 1e-6)), 'seeds_per_hour': int(runs * 3600 / max(search_s, 1e-6)),
           'distinct_interleavings': len(inter), 'interleaving_measure': 'hash of the sequence of (task, position in that task, next task) over all scheduling decisions that differ from run-to-completion',
           'simulated_time': {'events': tot.get('ticks', 0), 'unit': 'one instrumented memory access, synchronisation or allocation; the library itself uses no clock', 'longest_run_events': tot.get('max_ticks_in_a_run', 0)},
           'faults_injected': faults, 'work': {k: tot.get(k, 0) for k in sorted(tot) if k not in faults and k != 'max_ticks_in_a_run'},
           'runs_per_variant': byv, 'scheduling_policies': dict(zip(('run-to-completion', 'random', 'priority-change', 'round-robin', 'stalled-thread'), pol)), 'operations': ops,
           'components_real': REAL, 'components_simulated': STUB, 'build_s': round(build_s, 1), 'search_s': round(search_s, 1), 'worker_s': round(cpu, 1), 'unreproducible_runs': unstable,
           'not_compiling': [[v, b] for v, b, _ in skipped]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['sequentially consistent interleavings at the granularity of memory accesses; weaker memory behaviour is covered by the happens-before race check only',
                          'OpenMP, BLAS threading and the allocator behave as their specifications allow; the simulator decides how', 'shapes, lengths and histories up to the stated generator limits (sim/main.cpp generate())'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(vios_new)}
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid} {tier}: {runs} simulated runs ({len(nontriv)} distinct non-trivial, {len(inter)} interleavings), build {build_s:.0f} s, search {search_s:.0f} s, {tot.get("values_judged", 0)} results judged')
    for r in results:
        if r['unstable'] and r['stderr']: print('warning: a run did not behave the same twice and was not used:', r['stderr'].strip()[-600:])
    for d, x in finding_hits.items(): print(f'KNOWN-FINDING: property={pid} {d}')
    for f in kf:
        if f[3] not in finding_hits: print(f'KNOWN-FINDING: property={pid} {f[3]}')
    if vios_new:
        x = vios_new[0]
        txt = open(x['replay']).read()
        dst = f'{HERE}/replays/{pid}-{x["variant"]}-{hashlib.sha256(txt.encode()).hexdigest()[:10]}.replay'
        with open(dst, 'w') as f: f.write(txt)
        print(f'{x["class"]}: {x["msg"]}')
        print(f'VIOLATION property={pid} replay={dst}')
        return 1
    if bad: print('error:', bad, file=sys.stderr); return 2
    if not results: print('error: no run was made', file=sys.stderr); return 2
    return 0

def selftest():
    """Three tests of the simulator: none of them concerns the library."""
    out = tempfile.mkdtemp(prefix='self-'); fails = []
    try:
        b = B.build(out, REPO, ('int',), prop=17)['int']
        def go(which, seed, count):
            e = dict(os.environ); e.pop('SELF_WHICH', None)
            if which is not None: e['SELF_WHICH'] = str(which)
            p = subprocess.run([b, 'search', '--prop', '17', '--seed', str(seed), '--start', '1', '--count', str(count), '--cpu', str(seed % 8), '--maxv', '1', '--out', f'{out}/{which}.{seed}'], capture_output=True, text=True, env=e)
            return json.loads([l for l in p.stdout.splitlines() if l.startswith('{')][-1])
        with cf.ThreadPoolExecutor(8) as ex:
            good = list(ex.map(lambda s: go(None, s, 5000), range(1, 9)))
            bad = list(ex.map(lambda w: (w, go(w, w, 400)), range(100, 100 + 13)))
        for r in good:
            for v in r['violations']: fails.append('a correct program was reported: ' + v['msg'])
        for w, r in bad:
            if not r['violations']: fails.append(f'the incorrect program {w} was not reported')
        print(f'{sum(r["runs"] for r in good)} runs of correct OpenMP programs, {len(bad)} incorrect programs')
        for prop, v in ((1, 'int'), (9, 'blas'), (18, 'acc')):
            os.mkdir(f'{out}/d{prop}'); b = B.build(f'{out}/d{prop}', REPO, (v,), prop=prop)[v]; h = []
            for k in range(2):
                subprocess.run([b, 'search', '--prop', str(prop), '--seed', '1', '--start', '5000', '--count', '1500', '--cpu', str(3 * k), '--out', f'{out}/r', '--hashes', f'{out}/h{k}'], capture_output=True)
                h.append(open(f'{out}/h{k}', 'rb').read())
            if h[0] != h[1] or len(h[0]) < 32 * 1000: fails.append(f'property {prop}: the same runs differ between two processes')
            print(f'C{prop:02d} {v}: {len(h[0]) // 32} runs twice, event hashes {"equal" if h[0] == h[1] else "DIFFERENT"}')
    finally: shutil.rmtree(out, ignore_errors=True)
    for f in fails: print('FAILED:', f)
    return 1 if fails else 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'replay':
        t = open(a[1]).read(); v = re.search(r'^variant (\S+)', t, re.M).group(1); n = int(re.search(r'^property C(\d+)', t, re.M).group(1))
        os.makedirs(HERE + '/build', exist_ok=True); out = tempfile.mkdtemp(prefix='replay-', dir=HERE + '/build')
        try:
            c, o = replay(B.build(out, REPO, (v,), prop=n, skipped=[])[v], a[1]); print(o); return 1 if c else 0
        finally: shutil.rmtree(out, ignore_errors=True)
    if a[0] == 'setup':
        out = tempfile.mkdtemp(prefix='setup-')
        try: B.build(out, REPO, ('int',), prop=15); print('simulator builds'); return 0
        finally: shutil.rmtree(out, ignore_errors=True)
    if a[0] == 'selftest': return selftest()
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    try: return check(a[0], tier)
    except B.BuildError as e: print('error: the build failed:', str(e)[-4000:], file=sys.stderr); return 2
if __name__ == '__main__': sys.exit(main())
