"""C19: Clausen functions of huge angles stay accurate and inside their range.
For every finite x >= 2 pi the function is executed symbolically on x and on r = fmod(x, P), the reduced angle it computed itself,
0 <= r < P, P = 2 pi rounded; the solver proves f(x) = f(r) bit for bit. With the accuracy of f on [0, 2 pi] (C02, C06, C08, C09, C10)
this bounds f everywhere. Without the proof the real build is searched for an angle at which f leaves its range."""
import random
import mpmath as mp
from sxc import *
from prop_c11 import loop_helpers, sine_type

_M, _L = {}, {}
TWOPI = mp.mpf(2) * mp.mp.pi


def reductions(x, ty):
    """(term, modulus) of every fmod of x itself by 2 pi computed so far"""
    out = []
    for c in U.list:
        if c is None or c.op not in ('fmod', 'remainder') or c.ty != ty:
            continue
        a, b = c.args[0], c.args[1]
        m = U.list[b[1]]
        if a[1] != x.c.id or m.op != 'c':
            continue
        s, k, q = frac(F(0, m))
        if k == 'fin' and abs(mp.mpf(q.numerator) / q.denominator / TWOPI - 1) < mp.mpf(2) ** {'f32': -23, 'f64': -52, 'f80': -63}[ty]:
            out.append((c, F(0, m)))
    return out


def explore(job, mod, stop):
    ex = Exec(mod, nonan=True, unroll=4, stop=stop, timeout=100, maxpaths=3000)
    x = finput('x', job.ty)
    o = dict(obl=0, dis=0, bad=[], und=[], n=[])
    hasn = z3.BitVec('n', 64) if job.tag else job.n & T64 if job.generic else None
    w = W[job.ty]
    rng = random.Random(SEED)

    def prog(e):
        if job.tag:
            e.assume(z3.And(hasn >= 2, z3.Extract(0, 0, hasn) == job.n % 2))
        zx = e.z(x)
        e.assume(z3.And(z3.UGE(zx, z3.BitVecVal(fnum(job.ty, 7.0).bits(), w)), z3.ULT(zx, z3.BitVecVal(INF[job.ty], w))))
        r, _ = entry(e, job.func, (x,), job.ty, False, hasn)
        o['obl'] += 1
        done = False
        why = 'no reduction modulo 2 pi found'
        for c, P in reductions(x, job.ty):
            rr = F(0, c)
            if c.op != 'fmod':
                continue
            e.assume(z3.ULT(e.z(rr), z3.BitVecVal(P.bits(), w)))
            q, _ = entry(e, job.func, (rr,), job.ty, False, hasn)
            m = e.prove(e.same(q[0], r[0]))
            if m is None:
                done = True
                break
            why = 'solver gave no answer' if m == 'unknown' else 'f(x) and f(fmod(x, 2 pi)) differ'
        if done:
            o['dis'] += 1
        else:
            o['und'].append(why)
            if e.check() == z3.sat:
                m = e.solver.model()
                o['bad'].append(from_bits(job.ty, model_bits(m, x)))
                if job.tag:
                    o['n'].append(m.eval(hasn, model_completion=True).as_signed_long())
    ex.explore(prog)
    o['und'] += ex.incomplete[:2]
    return ex, o


def limit(job, n):
    """largest magnitude of the function"""
    if job.fam == 'Sl' and n == 1:
        return float(mp.pi / 2)
    if sine_type(Job(job.lang, job.fam, n, job.ty, 'theta')):
        return 1.0149416064096537 if n == 2 else 1.02
    return float(mp.zeta(n))


def search(job, nat, hints, n, rng):
    T = npt(job.ty)
    top = int(np.finfo(T).maxexp) - 1
    xs = [T(h) for h in hints] + [np.ldexp(T(rng.uniform(1, 2)), rng.randint(3, top)) for _ in range(20000)]
    xs += [np.ldexp(T(rng.uniform(1, 2)), rng.randint(3, 70)) for _ in range(20000)]
    xs += [T(k) * T(6.283185307179586) for k in range(2, 3000)] + [np.finfo(T).max, T(2) ** 31, T(2) ** 32, T(2) ** 53, T(2) ** 63, T(2) ** 64]
    xs = np.array(xs, dtype=T)
    xs = xs[np.isfinite(xs)]
    xs = np.concatenate([xs, -xs])
    v = nat.call(job.replay, LET[job.ty], xs[:, None], n if job.generic else None)[:, 0]
    lim = limit(job, n) * (1 + 1e-9)
    bad = np.nonzero(~(np.abs(v) <= lim))[0]
    if len(bad):
        i = bad[0]
        return {'function': job.name(), 'order': n, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic, 'x': hexs(job.ty, xs[i]), 'x_dec': repr(xs[i]),
                'f(x)': repr(v[i]), 'relation': '|f(x)| <= %.10g' % lim}
    # accuracy against the function at the exactly reduced angle
    sel = [i for i in range(len(xs)) if abs(xs[i]) < 1e11][:6000]
    with mp.workdps(45):
        red = np.array([T(0) + T(float(r)) + T(float(r - mp.mpf(float(r)))) for r in (mp.fmod(mpx_(abs(xs[i])), 2 * mp.pi) for i in sel)], dtype=T)
    red = np.where(xs[sel] < 0, -red, red)
    u = nat.call(job.replay, LET[job.ty], red[:, None], n if job.generic else None)[:, 0]
    tol = 4 * {'f32': 5e-6, 'f64': 1e-13, 'f80': 1e-15}[job.ty]
    d = np.abs(u - v[sel]) - tol * np.abs(xs[sel])
    bad = np.nonzero(~(d <= 0))[0]
    if len(bad):
        i = sel[bad[0]]
        return {'function': job.name(), 'order': n, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic, 'x': hexs(job.ty, xs[i]), 'x_dec': repr(xs[i]),
                'f(x)': repr(v[i]), 'reduced': repr(red[bad[0]]), 'f(reduced)': repr(u[bad[0]]), 'relation': '|f(x) - f(x mod 2 pi)| <= %g*|x|' % tol}
    return None


def mpx_(t):
    hi = float(t)
    return mp.mpf(hi) + mp.mpf(float(t - type(t)(hi)))


def task(job):
    mod, nat = _M['cppni' if job.generic else job.lang], Native(_L['lib'])
    ex, o = explore(job, mod, loop_helpers(mod, job.func))
    r = stats(ex)
    und = ['%s: %s' % (job.name(), u) for u in list(dict.fromkeys(o['und']))[:3]]
    if o['obl'] == 0:
        und.append('%s: nothing explored' % job.name())
    r.update(obligations=o['obl'], discharged=o['dis'], undecided=und)
    r['row'] = {'uninterpreted_helpers': sorted(loop_helpers(mod, job.func))}
    if und:
        rng = random.Random(SEED)
        for n in dict.fromkeys([n for n in o['n'] if n < 10 ** 6][:5] + [job.n, job.n + 4, job.n + 6, job.n + 10, job.n + 24]) if job.tag else [job.n]:
            v = search(job, nat, o['bad'], n, rng)
            if v:
                r['violation'] = v
                break
    ok, bad, no, s = validate_sx(mod, job, nat, 6, random.Random(SEED)) if not job.tag else (0, 0, 0, None)
    r.update(validated=ok, vbad=bad, vnot=no, sample=s)
    if bad:
        r['undecided'].append('%s: translator validation mismatch' % job.name())
    return r


def run(ctx):
    th = ctx.tier == 'thorough'
    ns = range(2, 61) if th else list(range(2, 16)) + [17, 20, 25, 26, 27, 40]
    ctx.prepare(('cpp', 'c', 'fortran'))
    for l in ('cpp', 'c', 'fortran'):
        _M[l] = ctx.module(l)
    _M['cppni'] = ctx.module('cpp', extra=('-fno-inline',))
    _L['lib'] = ctx.lib()
    jobs = [j for j in fixed_cl() if j.n > 1] + generic('Cl', ns) + generic('Sl', [1] + list(ns))
    for fam in ('Cl', 'Sl'):
        for n in (2, 3):
            jobs.append(Job('cpp', fam, n, 'f64', 'theta', generic=True, tag=' every %s order' % ('odd' if n == 3 else 'even')))
    res = run_tasks(ctx, [(task, j) for j in jobs])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME + ['x is finite and at least 7; negative angles follow from the exact parity (C11)',
                                   'axiom: 0 <= fmod(x, P) < P for finite x >= 0 (C library fmod is exact)',
                                   'scalar helper functions that contain a loop are kept as uninterpreted deterministic functions (listed per task)',
                                   'the value at the reduced angle is the business of the accuracy properties; reducing by the rounded 2 pi changes the angle by at most |x|*2^-53 (2^-64 in long double)']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path of f(x) together with f(fmod(x, 2 pi)), a transition one IR instruction executed symbolically; x is one symbolic bit pattern',
                                         {'bounds': {'orders_generic': 'every 64-bit order n >= 2 (and separately %s)' % list(ns), 'loop_unrolling': 4, 'x': 'every finite bit pattern >= 7'}}))
