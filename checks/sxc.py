"""Shared plumbing of the path-wise symbolic checks (engine/symx.py)."""
import json
import multiprocessing as mpx
import os
import random
import time
import traceback
import numpy as np
import z3
import ir
from acc import Job, LET
from common import Native, SEED, demangle_map
from symx import (Exec, F, Trap, Unsupported, StepLimit, PathEnd, U, W, INF, NAN, entry, fconst, fnum, finput, model_bits, neg, frac, isnanc)

T64 = (1 << 64) - 1
TYPES = {'cpp': {'Li': ('f32', 'f64', 'f80'), 'Cl': ('f64', 'f80')}, 'c': {'Li': ('f32', 'f64', 'f80'), 'Cl': ('f64', 'f80')},
         'fortran': {'Li': ('f64',), 'Cl': ('f64',)}}
LIG = '_ZN13polylogarithm2LiElRKSt7complexIdE'


def fixed_cplx(langs=('cpp', 'c', 'fortran')):
    return [Job(l, 'Li', n, t, 'cplx') for l in langs for n in range(2, 7) for t in TYPES[l]['Li'] if not (t == 'f32' and n > 2)]


def fixed_real(langs=('cpp', 'c', 'fortran')):
    out = []
    for l in langs:
        out += [Job(l, 'Li', 2, t, 'real') for t in TYPES[l]['Li']] + [Job(l, 'Li', n, 'f64', 'real') for n in (3, 4)]
    return out


def fixed_cl(langs=('cpp', 'c', 'fortran')):
    out = [Job('cpp', 'Cl', 1, 'f64', 'theta')] if 'cpp' in langs else []
    return out + [Job(l, 'Cl', n, t, 'theta') for l in langs for n in range(2, 7) for t in TYPES[l]['Cl']]


def generic(fam, ns, cover=None):
    return [Job('cpp', fam, n, 'f64', cover or ('cplx' if fam == 'Li' else 'theta'), generic=True) for n in ns]


# ------------------------------------------------------------------ bits
def from_bits(ty, b):
    if ty == 'f32':
        return np.frombuffer(int(b).to_bytes(4, 'little'), dtype=np.float32)[0]
    if ty == 'f64':
        return np.frombuffer(int(b).to_bytes(8, 'little'), dtype=np.float64)[0]
    return np.frombuffer(int(b).to_bytes(16, 'little'), dtype=np.longdouble)[0]


def to_bits(ty, v):
    n = {'f32': 4, 'f64': 8, 'f80': 10}[ty]
    t = {'f32': np.float32, 'f64': np.float64, 'f80': np.longdouble}[ty]
    return int.from_bytes(np.asarray(v, dtype=t).tobytes()[:n], 'little')


def valid80(b):
    e, i = b >> 64 & 0x7fff, b >> 63 & 1
    return bool(i) == (e != 0)


def npt(ty):
    return {'f32': np.float32, 'f64': np.float64, 'f80': np.longdouble}[ty]


def hexs(ty, v):
    """exact decimal-free text of one number"""
    return '%s:%x' % (ty, to_bits(ty, v))


# ------------------------------------------------------- constants of a function
def consts(mod, roots, ty, limit=200):
    """floating-point constants compared against anywhere below a function: the places where its branches switch"""
    import build
    out = set()
    for f in build.reachable(mod, roots):
        for b in mod.funcs[f].blocks.values():
            for i in b:
                if i[0] == 'fcmp':
                    for o in (i[4], i[5]):
                        if o[0] == 'f':
                            s, k, q = ir.f_unpack(o[1], o[2])
                            if k == 'fin' and q != 0:
                                out.add(abs(float(q)) if abs(q) < 10 ** 300 else 1e300)
    return sorted(out)[:limit]


def sample_reals(ty, cs, n, rng, wide=True):
    """numbers used to replay a suspected difference on the real build: random, near branch switches, extreme"""
    T = npt(ty)
    lo, hi = {'f32': (-126, 127), 'f64': (-1022, 1023), 'f80': (-1022, 1023)}[ty]
    out = [T(0), T(1), T(2), T(0.5), T(3), T(1.5), np.finfo(T).tiny, np.finfo(T).max, np.finfo(T).eps]
    import math
    base = sorted(set(cs) | {math.sqrt(c) for c in cs} | {1.0, 2.0, 0.5, math.pi, 2 * math.pi, math.pi / 2, math.pi / 3, 4 * math.pi, math.pi * 1.5})
    for c in base:
        if c > float(np.finfo(T).max) or c < float(np.finfo(T).tiny):
            continue
        t = T(c)
        u = d = t
        out.append(t)
        for k in range(3):
            u, d = np.nextafter(u, T(np.inf)), np.nextafter(d, T(0))
            out += [u, d]
        out += [t * T(1 + 10 ** -k) for k in range(1, 6)] + [t * T(1 - 10 ** -k) for k in range(1, 6)] + [t - T(1), t + T(1), T(1) - t]
    while len(out) < n:
        m = rng.random()
        if m < 0.4:
            out.append(T(rng.uniform(0, 8)))
        elif m < 0.7:
            out.append(T(math.exp(rng.uniform(-12, 12))))
        elif m < 0.8:
            out.append(T(1) + T(math.exp(rng.uniform(-35, 0)) * rng.choice((1, -1))))
        elif m < 0.9 and wide:
            out.append(T(rng.uniform(1, 2)) * np.ldexp(T(1), rng.randint(lo, hi)))
        else:
            out.append(T(rng.choice(base)) * T(rng.choice((0.25, 0.5, 1, 2, 3, 4, 5, 7))))
    a = np.array(out, dtype=T)
    a = np.abs(a[np.isfinite(a)])
    return a


# ------------------------------------------------------------ translator validation
def validate_sx(mod, job, nat, npts, rng):
    """the executor on concrete inputs against the real build: (compared, different, not run, sample)"""
    ok = bad = notrun = 0
    sample = None
    T = npt(job.ty)
    import math
    tol = {'f32': 1e-4, 'f64': 1e-11, 'f80': 1e-13}[job.ty]
    for _ in range(npts):
        x = T(rng.choice((rng.uniform(-4, 4), math.exp(rng.uniform(-6, 6)) * rng.choice((1, -1)))))
        y = T(rng.uniform(-4, 4))
        vals = [x, y] if job.cx else [x]
        ex = Exec(mod, nonan=False, unroll=10 ** 6, timeout=10, maxpaths=2)
        res = []
        try:
            ex.explore(lambda e: res.append(entry(e, job.func, tuple(fconst(job.ty, to_bits(job.ty, v)) for v in vals), job.ty, job.cx, job.n & T64 if job.generic else None)[0]))
        except (Unsupported, Trap, StepLimit):
            res = []
        if len(res) != 1 or not all(v.const() for v in res[0]):
            notrun += 1
            continue
        got = [from_bits(job.ty, v.bits()) for v in res[0]]
        want = nat.call(job.replay, LET[job.ty], np.array([vals], dtype=T), job.n if job.generic else None)[0]
        sc = max(float(abs(w)) for w in want) + 1e-300
        if all(abs(float(g) - float(w)) <= tol * max(sc, 1e-3) for g, w in zip(got, want)):
            ok += 1
            sample = sample or {'function': job.name(), 'args': [str(v) for v in vals], 'symbolic_executor': [str(g) for g in got], 'real_build': [str(w) for w in want]}
        else:
            bad += 1
            sample = {'MISMATCH': job.name(), 'args': [str(v) for v in vals], 'symbolic_executor': [str(g) for g in got], 'real_build': [str(w) for w in want]}
    return ok, bad, notrun, sample


# ---------------------------------------------------------------------- running
_G = {}


def _entry(k):
    fn, task = _G['tasks'][k]
    t = time.time()
    try:
        r = fn(task)
    except Exception as e:      # an engine problem is never a verdict
        r = {'undecided': ['%s: %s: %s' % (getattr(task, 'name', lambda: str(task))(), type(e).__name__, str(e)[:200])], 'trace': traceback.format_exc()[-600:]}
    r['wall_s'] = round(time.time() - t, 2)
    r['task'] = task.name() if hasattr(task, 'name') else str(task)
    return k, r


def run_tasks(ctx, tasks, budget=780):
    """tasks: list of (function, task); run in forked workers, results merged in order"""
    _G['tasks'] = tasks
    res = [None] * len(tasks)
    pool = mpx.get_context('fork').Pool(8, maxtasksperchild=1)
    end = ctx.t0 + budget
    try:
        it = pool.imap_unordered(_entry, range(len(tasks)))
        for _ in range(len(tasks)):
            try:
                k, r = it.next(timeout=max(1, end - time.time()))
            except (mpx.TimeoutError, StopIteration):
                break
            res[k] = r
    finally:
        pool.terminate()
        pool.join()
    for k, r in enumerate(res):
        if r is None:
            t = tasks[k][1]
            res[k] = {'undecided': ['%s: time budget used up' % (t.name() if hasattr(t, 'name') else str(t))], 'task': t.name() if hasattr(t, 'name') else str(t), 'wall_s': 0}
    return res


def stats(ex):
    s = ex.st
    return dict(paths=s.paths, steps=s.steps, queries=s.queries, solver_s=s.solver_s, bounded=s.bounded, unknown=s.unknown,
                fns=sorted(s.fns), ext=sorted(s.ext), axioms=sorted(s.axioms))


def merge(ctx, res, rule, extra=None, level='model_checking'):
    tot = dict(paths=0, steps=0, queries=0, solver_s=0.0, bounded=0, unknown=0, obligations=0, discharged=0, validated=0, vbad=0, vnot=0)
    fns, ext, axioms, und, samples, rows = set(), set(), set(), [], [], []
    for r in res:
        for k in tot:
            tot[k] += r.get(k, 0)
        fns |= set(r.get('fns', []))
        ext |= set(r.get('ext', []))
        axioms |= set(r.get('axioms', []))
        und += r.get('undecided', [])
        if r.get('sample'):
            samples.append(r['sample'])
        rows.append({'task': r['task'], 'paths': r.get('paths', 0), 'queries': r.get('queries', 0), 'obligations': r.get('obligations', 0),
                     'discharged': r.get('discharged', 0), 'paths_cut_at_bound': r.get('bounded', 0), 'wall_s': r['wall_s'], **r.get('row', {})})
        if r.get('trace'):
            rows[-1]['engine_error'] = r['trace'][-200:]
    dm = demangle_map(sorted(fns))
    ctx.assumptions += ['axiom used: ' + a for a in sorted(axioms)]
    cov = {'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': tot['validated'],
           'samples': samples[:6] or rows[:3], 'rule': rule, 'obligations': tot['obligations'], 'discharged': tot['discharged'],
           'solver': 'z3 (bit vectors, uninterpreted floating-point terms)', 'queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
           'paths_cut_at_bound': tot['bounded'], 'solver_unknown': tot['unknown'], 'validation_mismatches': tot['vbad'], 'validation_not_run': tot['vnot'],
           'functions_encoded': [dm[f] for f in sorted(fns)], 'external_functions_modelled': sorted(ext), 'undecided': und[:40], 'undecided_count': len(und),
           'per_task': rows}
    cov.update(extra or {})
    ctx.log('paths %d queries %d solver %.1fs obligations %d discharged %d undecided %d' % (tot['paths'], tot['queries'], tot['solver_s'], tot['obligations'], tot['discharged'], len(und)))
    for u in und[:8]:
        ctx.log('undecided:', u[:300])
    return cov


SXASSUME = [
    'Floating-point arithmetic is uninterpreted except for exact IEEE-754 sign laws (commutativity, sign symmetry of + - * /), comparisons, signs, infinities and NaN are exact bit-vector facts.',
    'The front end translates clang -O1 LLVM IR (C, C++) and gcc GIMPLE (Fortran) of the current tree; it is validated on random concrete inputs against the real gcc -O2 build.',
    'A violation is reported only after the difference has been reproduced on the real gcc -O2 build.',
]
