"""C15: the general-order functions agree with the fixed-order ones."""
import random
import numpy as np
from sxc import *
import prop_c12
from prop_c12 import differ, grid

_M, _L = {}, {}


class Pair:
    def __init__(self, gen, fix):
        self.gen, self.fix = gen, fix

    def name(self):
        return '%s = %s' % (self.gen.name(), self.fix.name())


def search(p, mod, nat, hints, seed):
    rng = random.Random(seed)
    g, f = p.gen, p.fix
    if g.cx:
        x, y = grid(g, mod, hints, rng, 15000)
        y = np.concatenate([y, -y, np.zeros_like(y), np.zeros_like(y) * -1.0])
        x = np.concatenate([x, x, x, x])
        a = np.stack([x, y], 1)
        a = a[~((y == 0) & ((x == 0) | (np.abs(x) == 1)))]
    else:
        cs = consts(mod, [g.func, f.func], g.ty)
        x = np.concatenate([np.array([h[0] for h in hints]), sample_reals(g.ty, cs, 20000, rng)])
        a = np.concatenate([x, -x, [0.0, -0.0, np.nan, np.inf, -np.inf]])[:, None]
    u, v = nat.call(g.replay, 'd', a, g.n), nat.call(f.replay, 'd', a)
    bad = np.nonzero(differ(u, v).any(axis=1))[0]
    if len(bad):
        i = bad[0]
        return {'function': p.name(), 'order': g.n, 'general': g.replay, 'fixed': f.replay, 'type': 'f64', 'args': [hexs('f64', t) for t in a[i]], 'args_dec': [repr(t) for t in a[i]],
                'general_result': [repr(t) for t in u[i]], 'fixed_result': [repr(t) for t in v[i]]}
    return None


def task(p):
    g, f = p.gen, p.fix
    mod, nat = _M['cpp'], Native(_L['lib'])
    ex = Exec(mod, nonan=g.cx, unroll=6, timeout=_L['timeout'], maxpaths=3000)
    x, y = finput('x', g.ty), finput('y', g.ty)
    vals = (x, y) if g.cx else (x,)
    o = dict(obl=0, dis=0, bad=[], und=[])

    def fin(e, v):
        e.assume(z3.ULT(z3.Extract(62, 0, e.z(v)), z3.BitVecVal(INF['f64'], 63)))

    def prog(e):
        if g.cx:
            fin(e, x)
            fin(e, y)
            m = z3.Extract(62, 0, e.z(x))
            e.assume(z3.Not(z3.And(z3.Extract(62, 0, e.z(y)) == 0, z3.Or(m == 0, m == z3.BitVecVal(ir.f_from_float('f64', 1.0), 63)))))
        r, _ = entry(e, f.func, vals, f.ty, f.cx)
        q, _ = entry(e, g.func, vals, g.ty, g.cx, g.n & T64)
        o['obl'] += 1
        c = 1
        for a, b in zip(r, q):
            c = e.zand(c, e.same(a, b))
        m = e.prove(c)
        if m is None:
            o['dis'] += 1
        elif m == 'unknown':
            o['und'].append('%s: solver gave no answer' % p.name())
        else:
            o['bad'].append((from_bits('f64', model_bits(m, x)), from_bits('f64', model_bits(m, y))))
    ex.explore(prog)
    if o['obl'] == 0:
        o['und'].append('%s: nothing explored' % p.name())
    o['und'] += ['%s: %s' % (p.name(), s) for s in ex.incomplete[:2]]
    r = dict(stats(ex), obligations=o['obl'], discharged=o['dis'], undecided=o['und'])
    if o['bad']:
        v = search(p, mod, nat, o['bad'], SEED)
        if v:
            r['violation'] = v
        else:
            r['undecided'].append('%s: %d paths not proved, no failing input found on the real build, e.g. %s' % (p.name(), len(o['bad']), o['bad'][0]))
    ok, bad, no, s = validate_sx(mod, g, nat, 10, random.Random(SEED))
    r.update(validated=ok, vbad=bad, vnot=no, sample=s)
    if bad:
        r['undecided'].append('%s: translator validation mismatch' % p.name())
    return r


def run(ctx):
    import acc
    import props_acc
    th = ctx.tier == 'thorough'
    _L['timeout'] = 600
    # closed forms of the orders -1, 0, 1: accuracy over boxes
    orders = [-1, 0, 1]
    cov0 = acc.run_jobs(ctx, props_acc.gen_li_crow(orders) + props_acc.gen_li_cplx(orders), 500)
    _M['cpp'] = ctx.module('cpp')
    _L['lib'] = ctx.lib()
    pairs = [Pair(g, Job('cpp', 'Li', g.n, 'f64', 'cplx')) for g in generic('Li', range(2, 7))]
    pairs += [Pair(g, Job('cpp', 'Cl', g.n, 'f64', 'theta')) for g in generic('Cl', range(1, 7))]
    res = run_tasks(ctx, [(task, p) for p in pairs])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME + ['Li: z finite and not 0, 1, -1 (those are C13), no NaN produced on the way (overflowing moduli); Cl: every bit pattern of x including NaN and infinities']
    cov = merge(ctx, res, 'a state is one path of the general together with the fixed-order function, a transition one IR instruction executed symbolically (orders 2..6); or one box path of the Taylor-model engine (orders -1, 0, 1)',
                {'bounds': {'orders': 'Li 2..6 and Cl 1..6 by term identity; Li -1, 0, 1 by accuracy boxes'}})
    cov['orders_minus1_0_1'] = {k: cov0[k] for k in ('obligations', 'discharged', 'queries', 'solver_s', 'per_function', 'undischarged')}
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        cov[k] += cov0[k]
    ctx.evidence('model_checking', cov)
