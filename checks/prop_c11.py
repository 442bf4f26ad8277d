"""C11: exact parity of the Clausen functions."""
import random
import numpy as np
from sxc import *

_M, _L = {}, {}


def sine_type(j):
    return (j.n % 2 == 0) == (j.fam == 'Cl')


def loops(f):
    """labels reachable from themselves"""
    succ = {}
    for l, b in f.blocks.items():
        t = b[-1]
        succ[l] = [t[1]] if t[0] == 'br' else [t[2], t[3]] if t[0] == 'cbr' else [t[3]] + [x for _, x in t[4]] if t[0] == 'switch' else []
    for l in succ:
        seen, todo = set(), list(succ[l])
        while todo:
            k = todo.pop()
            if k == l:
                return True
            if k not in seen:
                seen.add(k)
                todo += succ.get(k, [])
    return False


def loop_helpers(mod, root):
    """helpers with scalar arguments that contain a loop: deterministic functions of their arguments, kept uninterpreted"""
    import build
    out = set()
    for f in build.reachable(mod, [root]):
        if f != root and loops(mod.funcs[f]) and all(t != 'ptr' for _, t in mod.funcs[f].params):
            out.add(f)
    return out


def search(job, mod, nat, hints, seed):
    """replay on the real build: first failing x or None"""
    rng = random.Random(seed)
    cs = consts(mod, [job.func], job.ty)
    xs = np.concatenate([np.array(hints, dtype=npt(job.ty)), sample_reals(job.ty, cs, 20000, rng)])
    xs = np.abs(xs)
    k = job.n if job.generic else None
    a = nat.call(job.replay, LET[job.ty], xs[:, None], k)[:, 0]
    b = nat.call(job.replay, LET[job.ty], -xs[:, None], k)[:, 0]
    w = -b if sine_type(job) else b
    bad = np.nonzero(~((a == w) | (np.isnan(a) & np.isnan(w))))[0]
    if len(bad):
        i = bad[0]
        return {'function': job.name(), 'order': job.n, 'symbol': job.func, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic,
                'relation': 'f(-x) = %sf(x)' % ('-' if sine_type(job) else ''), 'x': hexs(job.ty, xs[i]), 'x_dec': repr(xs[i]), 'f(x)': repr(a[i]), 'f(-x)': repr(b[i])}
    if sine_type(job):
        z = nat.call(job.replay, LET[job.ty], np.array([[0.0], [-0.0]]), k)[:, 0]
        if not (z == 0).all():
            return {'function': job.name(), 'order': job.n, 'symbol': job.func, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic,
                    'relation': 'f(0) = 0', 'x': hexs(job.ty, 0.0), 'f(x)': repr(z[0]), 'f(-x)': repr(z[1])}
    return None


def explore(job, mod, stop, unroll, timeout, maxpaths):
    ex = Exec(mod, nonan=True, unroll=unroll, stop=stop, timeout=timeout, maxpaths=maxpaths)
    x = finput('x', job.ty)
    hasn = job.n & T64 if job.generic else None
    if job.tag:         # symbolic order of the parity of job.n
        hasn = z3.BitVec('n', 64)
        ex.assume0 = z3.And(hasn >= 1, z3.Extract(0, 0, hasn) == job.n % 2)
    out = dict(obl=0, dis=0, bad=[], und=[], n=[])

    def prog(e):
        if job.tag:
            e.assume(ex.assume0)
        mag = z3.Extract(W[job.ty] - 2, 0, e.z(x))
        e.assume(z3.And(mag != 0, z3.ULT(mag, z3.BitVecVal(INF[job.ty], W[job.ty] - 1))))
        r, _ = entry(e, job.func, (x,), job.ty, False, hasn)
        q, _ = entry(e, job.func, (neg(x),), job.ty, False, hasn)
        out['obl'] += 1
        m = e.prove(e.same(neg(q[0]) if sine_type(job) else q[0], r[0]))
        if m is None:
            out['dis'] += 1
        elif m == 'unknown':
            out['und'].append('%s: solver gave no answer' % job.name())
        else:
            out['bad'].append(from_bits(job.ty, model_bits(m, x)))
            if job.tag:
                out['n'].append(m.eval(hasn, model_completion=True).as_signed_long())

    def zero(e):
        if job.tag:
            e.assume(ex.assume0)
        for s in (0, 1):
            r, _ = entry(e, job.func, (fconst(job.ty, s << (W[job.ty] - 1)),), job.ty, False, hasn)
            out['obl'] += 1
            m = e.prove(e.same(r[0], fconst(job.ty, 0)))
            if m is None:
                out['dis'] += 1
            else:
                out['bad'].append(npt(job.ty)(0))
    ex.explore(prog)
    if sine_type(job):
        ex.explore(zero)
    if ex.incomplete:
        out['und'] += ['%s: %s' % (job.name(), s) for s in ex.incomplete[:2]]
    return ex, out


def task(job):
    mod, nat = _M['cppni' if job.generic else job.lang], Native(_L['lib'])
    helpers = loop_helpers(mod, job.func)
    r = {}
    ex, o = explore(job, mod, helpers, 4, 120, 3000)
    if o['bad'] and helpers:
        ex, o = explore(job, mod, (), 2, 120, 3000)
    r.update(stats(ex), obligations=o['obl'], discharged=o['dis'], undecided=o['und'])
    r['row'] = {'uninterpreted_helpers': sorted(helpers)}
    if o['obl'] == 0:
        r['undecided'].append('%s: nothing explored' % job.name())
    if o['bad']:
        v = None
        for n in dict.fromkeys([n for n in o['n'] if n < 10 ** 9][:6] + [job.n, job.n + 6, job.n + 10, job.n + 24]) if job.tag else [job.n]:
            v = v or search(Job(job.lang, job.fam, n, job.ty, job.cover, generic=job.generic), mod, nat, o['bad'], SEED)
        if v:
            r['violation'] = v
        else:
            r['undecided'].append('%s: %d paths not proved, no failing input found on the real build' % (job.name(), len(o['bad'])))
    ok, bad, no, s = validate_sx(mod, job, nat, 6, random.Random(SEED)) if not job.tag else (0, 0, 0, None)
    r.update(validated=ok, vbad=bad, vnot=no, sample=s)
    if bad:
        r['undecided'].append('%s: translator validation mismatch' % job.name())
    return r


def run(ctx):
    th = ctx.tier == 'thorough'
    ns = range(1, 61) if th else list(range(1, 16)) + [17, 20, 25, 26, 27, 40, 41, 100]
    ctx.prepare(('cpp', 'c', 'fortran'))
    for l in ('cpp', 'c', 'fortran'):
        _M[l] = ctx.module(l)
    _M['cppni'] = ctx.module('cpp', extra=('-fno-inline',))
    _L['lib'] = ctx.lib()
    jobs = fixed_cl() + generic('Cl', ns) + generic('Sl', ns)
    for fam in ('Cl', 'Sl'):
        for n in (1, 2):
            jobs.append(Job('cpp', fam, n, 'f64', 'theta', generic=True, tag=' every %s order' % ('odd' if n == 1 else 'even')))
    res = run_tasks(ctx, [(task, j) for j in jobs])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME + ['x is finite and not zero (zero is checked separately for the sine-type functions); a result that differs only in the sign of a zero counts as equal',
                                   'scalar helper functions that contain a loop are kept as uninterpreted deterministic functions (listed per task)',
                                   'odd/even symmetry of sin, cos, fmod and the other libm functions in the axiom list']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path of f(x) together with f(-x), a transition one IR instruction executed symbolically; x is one symbolic bit pattern',
                                         {'bounds': {'orders_generic': 'every 64-bit order n >= 1 (and separately %s)' % list(ns), 'loop_unrolling': 4, 'x': 'every finite non-zero bit pattern'}}))
