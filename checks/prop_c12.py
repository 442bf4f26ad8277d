"""C12: conjugation symmetry of the complex polylogarithms off the cut, real results for real z <= 1."""
import random
import numpy as np
from sxc import *

_M, _L = {}, {}


def grid(job, mod, hints, rng, n):
    T = npt(job.ty)
    cs = consts(mod, [job.func], job.ty)
    a = sample_reals(job.ty, cs, n, rng, wide=False)
    r = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    x = a[r.randint(0, len(a), n)] * r.choice([1, -1], n).astype(T)
    y = a[r.randint(0, len(a), n)]
    # radius close to a branch switch, any phase; close to 1
    cc = np.array(sorted(set(cs) | {abs(c) ** 0.5 for c in cs} | {1.0}))
    cc = cc[(cc > 1e-3) & (cc < 1e3)]
    rad = (cc[r.randint(0, len(cc), n)] * (1 + r.choice([1, -1], n) * np.exp(r.uniform(-36, 0, n)))).astype(T)
    ph = (r.uniform(0, np.pi, n)).astype(T)
    x = np.concatenate([np.array([h[0] for h in hints], dtype=T), x, rad * np.cos(ph), a[:n // 2] * 0 + T(0)])
    y = np.concatenate([np.array([h[1] for h in hints], dtype=T), y, rad * np.sin(ph), a[:n // 2]])
    with np.errstate(all='ignore'):
        ok = np.isfinite(x) & np.isfinite(y) & (np.hypot(x.astype(float), y.astype(float)) < 1e30)
    return x[ok], y[ok]


def differ(a, b):
    return ~((a == b) | (np.isnan(a) & np.isnan(b)))


def search(job, mod, nat, hints, seed, n=15000):
    x, y = grid(job, mod, hints, random.Random(seed), n)
    k = job.n if job.generic else None
    f = lambda u, v: nat.call(job.replay, LET[job.ty], np.stack([u, v], 1), k)
    ok = y != 0
    xs, ys = x[ok], np.abs(y[ok])
    a, b = f(xs, ys), f(xs, -ys)
    bad = np.nonzero(differ(a[:, 0], b[:, 0]) | differ(a[:, 1], -b[:, 1]))[0]
    base = {'function': job.name(), 'order': job.n, 'symbol': job.func, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic}
    if len(bad):
        i = bad[0]
        return dict(base, relation='Li(conj z) = conj Li(z)', x=hexs(job.ty, xs[i]), y=hexs(job.ty, ys[i]), z=[repr(xs[i]), repr(ys[i])],
                    **{'Li(z)': [repr(t) for t in a[i]], 'Li(conj z)': [repr(t) for t in b[i]]})
    u = x[x <= 1]
    for s in (0.0, -0.0) if exact_real(job) else ():
        a = f(u, np.full_like(u, s))
        bad = np.nonzero(~(a[:, 1] == 0) & ~np.isinf(a[:, 0]))[0]
        if len(bad):
            i = bad[0]
            return dict(base, relation='real z <= 1 gives a real result', x=hexs(job.ty, u[i]), y=hexs(job.ty, s), z=[repr(u[i]), repr(s)], **{'Li(z)': [repr(t) for t in a[i]]})
    return None


def exact_real(job):
    return not job.generic or -1 <= job.n <= 6


def setup(ex, job):
    ex.recursion[job.func] = 1
    ex.conj_funcs = {job.func: 1}


def task(job):
    mod, nat = _M[job.lang], Native(_L['lib'])
    unroll = _L["unroll"]
    ex = Exec(mod, nonan=True, unroll=unroll, timeout=_L['timeout'], maxpaths=3000)
    setup(ex, job)
    x, y = finput('x', job.ty), finput('y', job.ty)
    hasn = job.n & T64 if job.generic else None
    o = dict(obl=0, dis=0, bad=[], und=[])
    one = fnum(job.ty, 1.0)

    def fin(e, v):
        e.assume(z3.ULT(z3.Extract(W[job.ty] - 2, 0, e.z(v)), z3.BitVecVal(INF[job.ty], W[job.ty] - 1)))

    def verdict(m, yv):
        if m is None:
            o['dis'] += 1
        elif m == 'unknown':
            o['und'].append('%s: solver gave no answer' % job.name())
        else:
            o['bad'].append((from_bits(job.ty, model_bits(m, x)), from_bits(job.ty, model_bits(m, yv) if yv is y else yv.bits())))

    def conj(e):
        fin(e, x)
        fin(e, y)
        e.assume(z3.Not(e._cmp('eq', y, fnum(job.ty, 0.0))))
        r, _ = entry(e, job.func, (x, y), job.ty, True, hasn)
        q, _ = entry(e, job.func, (x, neg(y)), job.ty, True, hasn)
        o['obl'] += 1
        verdict(e.prove(e.zand(e.same(r[0], q[0]), e.same(r[1], neg(q[1])))), y)

    def real(s):
        yv = fconst(job.ty, s << (W[job.ty] - 1))

        def prog(e):
            fin(e, x)
            e.assume(e._cmp('le', x, one))
            r, _ = entry(e, job.func, (x, yv), job.ty, True, hasn)
            o['obl'] += 1
            p = e.same(r[1], fnum(job.ty, 0.0))
            # the pole: an infinite real part has no imaginary part to speak of
            m = z3.Extract(W[job.ty] - 2, 0, e.z(r[0]))
            verdict(e.prove(e.zor(p, m == z3.BitVecVal(INF[job.ty], W[job.ty] - 1))), yv)
        return prog
    ex.explore(conj)
    n0 = o['obl']
    if exact_real(job):
        ex.explore(real(0))
        ex.explore(real(1))
    if n0 == 0 or (o['obl'] == n0 and exact_real(job)):
        o['und'].append('%s: nothing explored' % job.name())
    o['und'] += ['%s: %s' % (job.name(), s) for s in ex.incomplete[:2]]
    r = dict(stats(ex), obligations=o['obl'], discharged=o['dis'], undecided=o['und'])
    if o['bad']:
        v = search(job, mod, nat, o['bad'], SEED)
        if v:
            r['violation'] = v
        else:
            r['undecided'].append('%s: %d paths not proved, no failing input found on the real build, e.g. z = %s' % (job.name(), len(o['bad']), o['bad'][0]))
    ok, bad, no, s = validate_sx(mod, job, nat, 4, random.Random(SEED))
    r.update(validated=ok, vbad=bad, vnot=no, sample=s)
    if bad:
        r['undecided'].append('%s: translator validation mismatch' % job.name())
    return r


def run(ctx):
    th = ctx.tier == 'thorough'
    ns = list(range(-12, 41)) + [50, 60, 80, 100, 150, 170, 200, 500] if th else list(range(-4, 13)) + [20, 120]
    _L["timeout"] = 600 if th else 35
    _L["unroll"] = 40 if th else 4
    ctx.prepare(('cpp', 'c', 'fortran'))
    for l in ('cpp', 'c', 'fortran'):
        _M[l] = ctx.module(l)
    _L['lib'] = ctx.lib()
    jobs = fixed_cplx() + generic('Li', ns)
    res = run_tasks(ctx, [(task, j) for j in jobs], 3000 if th else 780)
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME + ['z is finite; a result that differs only in the sign of a zero counts as equal',
                                   'no NaN is produced on the way (overflowing moduli are outside the bounds)',
                                   'conjugation symmetry of complex libm functions and of complex division, oddness/evenness of real libm functions (axiom list)',
                                   'the recursive call of Li (n < -1) is taken to be conjugation symmetric (induction on the recursion depth)']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path of Li(z) together with Li(conj z) (or of Li(x +- 0i)), a transition one IR instruction executed symbolically; x and y are symbolic bit patterns',
                                         {'bounds': {'orders_generic': list(ns), 'undecided_loop_exits_followed': _L["unroll"], 'z': 'every finite z with nonzero imaginary part; every finite real z <= 1 with either zero'}}))
