#!/usr/bin/env python3
"""Builds the simulator binaries from the working tree of the repository.
   build.py OUTDIR [--repo DIR] [--variants int,blas,lapack] [--opt -O2]"""
import concurrent.futures as cf, glob, os, re, subprocess, sys, threading, time
SRC = os.path.dirname(os.path.abspath(__file__))
DEFS = {'acc': ['-DLALIB_INTERNAL_BACKEND', '-DLALIB_USE_ACCELERATOR'], 'int': ['-DLALIB_INTERNAL_BACKEND'], 'blas': ['-DLALIB_BLAS_BACKEND'], 'lapack': ['-DLALIB_BLAS_BACKEND', '-DLALIB_LAPACK_BACKEND']}
RT = ['rt_sched', 'rt_tsan', 'rt_alloc', 'rt_omp', 'rt_libc', 'rt_blas', 'judge']
class BuildError(Exception): pass

def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-6000:])

def catalogue(prop=None):
    """Translation units of the operations; with prop, only those that have operations for that property."""
    for f in sorted(glob.glob(SRC + '/cat_*.cpp')):
        t = open(f).read()
        if prop and not re.search(r'\bP%d\b' % prop, t): continue
        m = re.search(r'^// CT=(.*)$', t, re.M)
        b = os.path.basename(f)[:-4]
        if m:
            for n in m.group(1).split(): yield f, b + n, ['-DCT=' + n]
        else: yield f, b, []
    yield SRC + '/classify.cpp', 'classify', []

def build(out, repo='/repo', variants=('int', 'blas', 'lapack'), opt='-O2', jobs=8, prop=None, skipped=None):
    """Returns {variant: path of the binary}. skipped: a list that receives the operations that do not compile
    against this tree (they are then left out); without it such an operation is an error."""
    os.makedirs(out + '/rt', exist_ok=True)
    rtf = ['g++', '-std=c++20', '-O2', '-g1', '-fno-builtin-malloc', '-I' + SRC]
    tasks = []
    def inst(f, o, defs, v):
        try: inst1(f, o, defs, v)
        except BuildError as e:
            if skipped is None: raise
            skipped.append((v, os.path.basename(o)[:-2], str(e)[-3000:])); objs[v].remove(o)
    def inst1(f, o, defs, v):
        run(['g++', '-std=c++20', opt, '-g1', '-DNDEBUG', '-fopenmp', '-fsanitize=thread', '-Wno-tsan', *DEFS[v], *defs, '-I' + repo + '/include', '-I' + SRC, '-c', f, '-o', o + '.t'])
        run(['objcopy', '--redefine-syms=' + SRC + '/redef.syms', o + '.t', o]); os.unlink(o + '.t')
    cats = list(catalogue(prop))
    objs = {v: [] for v in variants}
    for v in variants:
        os.makedirs(f'{out}/{v}', exist_ok=True)
        for f, b, d in cats:
            o = f'{out}/{v}/{b}.o'; objs[v].append(o); tasks.append((os.path.getsize(f), inst, (f, o, d, v)))
    rto = []
    for b in RT:
        o = f'{out}/rt/{b}.o'; rto.append(o); tasks.append((1, run, ([*rtf, '-c', f'{SRC}/{b}.cpp', '-o', o],)))
    for v in variants:
        o = f'{out}/{v}/main.o'; tasks.append((1000, run, ([*rtf, f'-DVARIANT_NAME="{v}"', '-DHAVE_BLAS', '-c', f'{SRC}/main.cpp', '-o', o],)))
    tasks.sort(key=lambda t: -t[0])
    with cf.ThreadPoolExecutor(jobs) as ex:
        for fu in [ex.submit(t[1], *t[2]) for t in tasks]: fu.result()
        for v in variants:
            if len(objs[v]) < 2: raise BuildError(f'no operation compiles ({v}): ' + (skipped[0][2] if skipped else ''))
        bins = {v: f'{out}/{v}/sim' for v in variants}
        for fu in [ex.submit(run, ['g++', '-no-pie', '-o', bins[v], *objs[v], f'{out}/{v}/main.o', *rto, '-llapacke', '-lopenblas', '-lpthread', '-ldl']) for v in variants]: fu.result()
    return bins

if __name__ == '__main__':
    import argparse
    a = argparse.ArgumentParser(); a.add_argument('out'); a.add_argument('--repo', default='/repo'); a.add_argument('--variants', default='int,blas,lapack'); a.add_argument('--opt', default='-O2'); a.add_argument('--prop', type=int)
    a = a.parse_args(); t = time.time()
    try: print(build(a.out, a.repo, tuple(a.variants.split(',')), a.opt, prop=a.prop))
    except BuildError as e: print(e, file=sys.stderr); sys.exit(2)
    print('built in %.1f s' % (time.time() - t))
