"""Regenerate everything from /repo's current working tree: symbolic modules
(LLVM IR for C and C++, GIMPLE for Fortran) and the real replay library."""
import glob
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir            # noqa: E402
import fe_llvm       # noqa: E402
import fe_gimple     # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
CL = ['-S', '-emit-llvm', '-O1', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
      '-fno-unroll-loops', '-w', '-o', '-']
CMPLX = ['-DCMPLX(x,y)=__builtin_complex((double)(x),(double)(y))',
         '-DCMPLXF(x,y)=__builtin_complex((float)(x),(float)(y))',
         '-DCMPLXL(x,y)=__builtin_complex((long double)(x),(long double)(y))']
UB = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,null,unreachable,return',
      '-fsanitize-trap=all']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])
    return r.stdout


def sources(lang):
    d = {'cpp': 'src/cpp', 'c': 'src/c', 'fortran': 'src/fortran'}[lang]
    ext = {'cpp': '*.cpp', 'c': '*.c', 'fortran': '*.f90'}[lang]
    return sorted(glob.glob(os.path.join(REPO, d, ext)))


def compile_ir(lang, src, ub=False, work=None, extra=()):
    if lang == 'cpp':
        return run(['clang++', '-std=c++11', '-I' + os.path.join(REPO, 'src/cpp')] + CL + (UB if ub else []) + list(extra) + [src])
    if lang == 'c':
        return run(['clang', '-std=c11', '-I' + os.path.join(REPO, 'src/c')] + CMPLX + CL + (UB if ub else []) + list(extra) + [src])
    base = os.path.basename(src)
    d = os.path.join(work, 'gf', base)
    os.makedirs(d, exist_ok=True)
    run(['gfortran', '-O1', '-fno-inline-functions', '-c', '-fdump-tree-stdarg', '-I' + os.path.dirname(src), src, '-o', base + '.o'], cwd=d)
    g = [f for f in os.listdir(d) if f.endswith('.stdarg')]
    return open(os.path.join(d, g[0])).read()


def module(lang, work, ub=False, only=None, extra=()):
    srcs = sources(lang)
    if only:
        srcs = [s for s in srcs if re.match(only, os.path.basename(s))]
    if not srcs:
        raise BuildError('no sources for ' + lang)
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(lambda s: compile_ir(lang, s, ub, work, extra), srcs))
    mod = ir.Module()
    for s, t in zip(srcs, texts):
        m = fe_gimple.parse_gimple(t) if lang == 'fortran' else fe_llvm.parse_llvm(t)
        mod.link(m, os.path.basename(s))
    return mod


def reachable(mod, roots):
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs:
            continue
        seen.add(f)
        for b in mod.funcs[f].blocks.values():
            todo += [i[1] for i in b if i[0] == 'call']
    return seen


def demangle(names):
    if not names:
        return []
    return run(['c++filt'], input='\n'.join(names) + '\n').split('\n')[:len(names)]


def fortran_prefix(lib):
    return lib


def replay_lib(work):
    """the real library, compiled as the project does (gcc, RelWithDebInfo), with batch entry points"""
    o = os.path.join(work, 'libreplay.so')
    jobs = []
    od = os.path.join(work, 'obj')
    os.makedirs(od, exist_ok=True)
    for s in sources('cpp'):
        jobs.append(['g++', '-std=c++11', '-O2', '-g0', '-DNDEBUG', '-fPIC', '-w', '-I' + REPO + '/src/cpp', '-c', s])
    for s in sources('c'):
        jobs.append(['gcc', '-std=c11', '-O2', '-g0', '-DNDEBUG', '-fPIC', '-w', '-I' + REPO + '/src/c', '-c', s])
    for s in sources('fortran'):
        jobs.append(['gfortran', '-O2', '-g0', '-fPIC', '-w', '-I' + REPO + '/src/fortran', '-c', s])
    jobs.append(['g++', '-std=c++11', '-O1', '-fPIC', '-w', '-I' + REPO + '/src/cpp', '-c', VERIF + '/replay/wrap.cpp'])
    jobs.append(['gcc', '-std=c11', '-O1', '-fPIC', '-w', '-I' + REPO + '/src/c', '-c', VERIF + '/replay/wrap.c'])
    objs = []
    for j in jobs:
        p = os.path.join(od, os.path.basename(j[-1]) + '.o')
        j += ['-o', p]
        objs.append(p)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(['g++', '-shared', '-o', o] + objs + ['-lgfortran', '-lm'])
    return o


def engine(work):
    o = os.path.join(work, 'tmx')
    run(['g++', '-std=gnu++17', '-O2', '-fext-numeric-literals', '-w', '-o', o, os.path.join(HERE, 'tmx.cpp'),
         '-lquadmath', '-lz3', '-ldl'])
    return o


SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all']


def run_exe(work, san=True):
    """the real sources with a driver that calls entry points one input at a time; with sanitizers or as released"""
    o = os.path.join(work, 'run_san' if san else 'run_rel')
    od = o + '.obj'
    os.makedirs(od, exist_ok=True)
    opt = (['-O1', '-g'] + SAN) if san else ['-O2', '-g0', '-DNDEBUG']
    fopt = (['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fcheck=bounds,mem,pointer'] if san else opt)
    jobs = [['g++', '-std=c++11'] + opt + ['-w', '-I' + REPO + '/src/cpp', '-c', s] for s in sources('cpp')]
    jobs += [['gcc', '-std=c11'] + opt + ['-w', '-I' + REPO + '/src/c', '-c', s] for s in sources('c')]
    jobs += [['gfortran'] + fopt + ['-w', '-I' + REPO + '/src/fortran', '-c', s] for s in sources('fortran')]
    jobs += [['g++', '-std=c++11', '-O1', '-w', '-I' + REPO + '/src/cpp', '-c', VERIF + '/replay/wrap.cpp'],
             ['gcc', '-std=c11', '-O1', '-w', '-I' + REPO + '/src/c', '-c', VERIF + '/replay/wrap.c'],
             ['g++', '-std=c++11', '-O1', '-w', '-c', VERIF + '/replay/runmain.cpp']]
    objs = []
    for j in jobs:
        p = os.path.join(od, os.path.basename(j[-1]) + '.o')
        j += ['-o', p]
        objs.append(p)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(['g++', '-rdynamic'] + (SAN if san else []) + ['-o', o] + objs + ['-lgfortran', '-ldl', '-lm'])
    return o
