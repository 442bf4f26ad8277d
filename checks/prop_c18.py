"""C18: every call ends.
Fixed-order functions: every path is followed to its end, with all bit patterns as inputs; a path that is still feasible after the unrolling
bound is a suspected endless loop.  Cl, Sl: the same for every 64-bit order, with the helpers entered one by one.  Li(n,.): Taylor models decide
the exit test of every summation loop on boxes of z for the listed orders.  A suspicion becomes a violation only if the real build hangs."""
import json
import random
import mpmath as mp
import numpy as np
from sxc import *
from prop_c16 import Deep, split, explore, deep, inputs
from prop_c17 import IntJob, INTF
from acc import BOX, tmx
from nativerun import run_inputs
from props_acc import CPLX
import prop_c16
import build

_M, _L = {}, {}
WAIT = 20       # seconds after which a call of the real build counts as endless
HUGE = [200, 1000, 10 ** 6, 2 ** 31, 2 ** 31 + 1, 2 ** 32 + 10, 2 ** 40, 2 ** 53 + 1, 2 ** 62]


def native(job, pts, rng, count=300):
    """(failing input, description) or (None, None)"""
    isint = isinstance(job, IntJob)
    rows = special(job) + inputs(job, pts, rng, count)
    k, what, calls, _ = run_inputs(_L['exe'], job.replay, 'i' if isint else LET[job.ty], 2 if job.cx else 1, rows, job.generic and not isint, seconds=120, percall=WAIT)
    if k is not None and what.startswith('no answer'):
        return rows[k], what, calls
    return None, None, calls


def special(job):
    if isinstance(job, IntJob):
        return []
    T = npt(job.ty)
    v = [T(s) for s in (0.0, -0.0, 1.0, -1.0, 0.5, -0.7, 2.0, -3.0, np.nan, np.inf, -np.inf, 1e17, -1e17)] + [np.finfo(T).max, -np.finfo(T).max, np.finfo(T).max / 2, np.finfo(T).tiny, np.nextafter(T(0), T(1)),
                                                                                                 np.nextafter(T(1), T(2)), np.nextafter(T(1), T(0))]
    if job.ty != 'f32':
        v += [T(s) for s in ('1e200', '-1e300', '1e-200')]
    args = [[a, b] for a in v for b in v] if job.cx else [[a] for a in v]
    bits = [[to_bits(job.ty, t) for t in r] for r in args]
    if not job.generic:
        return [(None, b) for b in bits]
    if job.n:
        return [(job.n, b) for b in bits]
    ns = [2, 3, 7, 8, 170, 171, 10 ** 6, 10 ** 6 + 1] + [2 ** k + d for k in (31, 32, 40, 62) for d in (-1, 0)] + [-1, -2, -3, -100, -101, -170, -171, -1000, -10 ** 6, -10 ** 6 - 1, -2 ** 31, -2 ** 62]
    return [(n, b) for n in ns for b in (bits if not job.cx else bits[::3] + bits[1::7])]


def verdict(job, r, suspects, pts):
    """native run of suspected endless loops"""
    where, what, calls = native(job, pts, random.Random(SEED))
    r['validated'] = r.get('validated', 0) + calls
    if where is not None:
        isint = isinstance(job, IntJob)
        r['violation'] = {'function': job.name(), 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic, 'symbolic_finding': suspects[:5], 'native': what,
                          'order': where if isint else where[0], 'bits': None if isint else ['%x' % b for b in where[1]],
                          'args': None if isint else [repr(from_bits(job.ty, b)) for b in where[1]]}
    elif suspects:
        r['undecided'] = r.get('undecided', []) + ['%s: %s, not reproduced' % (job.name(), suspects[:3])]


class Loops(Exec):
    """keeps an input of every path that is cut at the unrolling bound"""


def fixed(job):
    """fixed-order function: every path, every bit pattern"""
    mod = _M[job.lang]
    U0 = 64
    ex = Exec(mod, nonan=False, unroll=U0, timeout=150, maxpaths=20000, maxsteps=3000000)
    ex.merging = ex.havoc_tables = True
    x = tuple(finput('%s0' % 'xy'[k], job.ty) for k in range(2 if job.cx else 1))
    o = dict(obl=0)

    def prog(e):
        try:
            entry(e, job.func, x, job.ty, job.cx, None)
        except Trap:
            pass
        o['obl'] += 1
    return finish(job, ex, prog, o, U0, [])


def finish(job, ex, prog, o, unroll, pts):
    r = {}
    try:
        ex.explore(prog)
        r = stats(ex)
    except (Unsupported, StepLimit) as e:
        r = stats(ex)
        r['undecided'] = ['%s: %s' % (job.name(), e)]
    und = list(r.get('undecided', [])) + (['%s: %s' % (job.name(), ex.incomplete[0])] if ex.incomplete else [])
    cut = r['bounded']
    sus = ['%d paths do not end within %d iterations' % (cut, unroll)] if cut else []
    r.update(obligations=o['obl'] + cut + len(und), discharged=o['obl'], undecided=und)
    r['row'] = {'unrolling': unroll, 'most_steps_on_a_path': getattr(ex, 'mostSteps', None)}
    verdict(job, r, sus, pts)
    return r


def ints(job):
    mod = _M['cpp']
    ex = Exec(mod, nonan=False, unroll=300, timeout=200, maxpaths=20000, maxsteps=3000000)
    ex.merging = ex.havoc_tables = True
    n = z3.BitVec('n', 64)
    o = dict(obl=0)

    def prog(e):
        try:
            e.call(job.func, [n])
        except Trap:
            pass
        o['obl'] += 1
    return finish(job, ex, prog, o, 300, [])


def root(job):
    """Li, Cl, Sl for every order: the function itself (recursion followed once), all helpers with loops abstracted"""
    mod = _M['cpp']
    stop, probe = split(job)
    ex = Exec(mod, nonan=False, unroll=24, stop=stop | probe, timeout=200, maxpaths=20000, maxsteps=3000000)
    ex.merging = ex.havoc_tables = True
    ex.recursion = {job.func: 1}
    x = tuple(finput('%s0' % 'xy'[k], 'f64') for k in range(2 if job.cx else 1))
    n = z3.BitVec('n', 64)
    o = dict(obl=0)

    def prog(e):
        e.assume(z3.And(n >= -(1 << 62), n <= 1 << 62))
        try:
            entry(e, job.func, x, 'f64', job.cx, n)
        except Trap:
            pass
        o['obl'] += 1
    r = finish(job, ex, prog, o, 24, [])
    r['row']['abstracted'] = sorted(stop | probe)
    return r


def helper(d):
    """one helper of Cl or Sl entered directly, integers in the range of its call sites, reals arbitrary"""
    job, name = d.job, d.helper
    mod = _M['cpp']
    stop, probe = split(job)
    sites = {}
    explore(job, mod, 24, 60, 20000, probe, stop, False, sites)
    r = {'undecided': []}
    try:
        # a helper called by other helpers: integer ranges of the calls there
        for up in [h for h in list(sites) if h in probe and name not in sites and name in build.reachable(mod, [h])]:
            deep(mod, up, sites[up], stop | (probe - {up}), 300, 60, sites)
        if name not in sites:
            return dict(r, undecided=['%s: no call site found' % d.name()])
        ex, o = deep(mod, name, sites[name], stop | (probe - {name}), 300, 240)
    except (Unsupported, StepLimit) as e:
        r['undecided'] = ['%s: %s' % (d.name(), e)]
        verdict(job, r, [str(e)], [])
        return r
    r = stats(ex)
    cut = r['bounded']
    und = ['%s: %s' % (d.name(), ex.incomplete[0])] if ex.incomplete else []
    r.update(obligations=o['obl'] + cut + len(und), discharged=o['obl'], undecided=und)
    r['row'] = {'unrolling': 300, 'integer_ranges_at_call_sites': [x for x in sites[name] if x]}
    verdict(job, r, ['%d paths do not end within 300 iterations' % cut] if cut else [], [])
    return r


# ------------------------------------------------------------------ Li(n,.)
def boxpoint(s):
    m = BOX.search(s)
    if not m:
        return None
    ch, sx, sy, a0, a1, b0, b1 = (float(t) for t in m.groups())
    a, b = (a0 + a1) / 2, (b0 + b1) / 2
    if int(ch) in (1, 3, 5):
        x, y = (mp.exp(a) * mp.cos(b), mp.exp(a) * mp.sin(b)) if int(ch) != 5 else (mp.exp(a), mp.mpf(0))
        x, y = float(x) * sx, float(y) * sy
    else:
        x, y = a, b
        if int(ch) == 4:
            y = 0.0
    return None if not (np.isfinite(x) and np.isfinite(y)) else (x, y)


class Term:
    def __init__(self, n, cover, extra, budget):
        self.n, self.cover, self.extra, self.budget = n, cover, extra, budget
        self.job = Job('cpp', 'Li', n, 'f64', cover, list(extra), True)

    def name(self):
        return 'cpp:Li(%d,z) %s ends' % (self.n, self.cover)


def term(t):
    d, err = tmx(_L['args'](t.job) + ['cover=' + t.cover, 'budget=%g' % t.budget, 'jobs=1', 'term=1'], t.budget + 60)
    r = {'undecided': [], 'obligations': 1, 'discharged': 0}
    pts, sus = [], []
    if d is None:
        r['undecided'].append('%s: engine gave no answer (%s)' % (t.name(), err))
    else:
        W = d.get('workers', [d])
        g = lambda k: sum(w.get(k, 0) for w in W)
        inc = [i for w in W for i in w.get('inc', [])]
        und = ['worker ended (%s)' % w['crash'] for w in W if 'crash' in w]
        sus = [i[:150] for i in inc if 'undecided' in i or 'step limit' in i] + [u for u in und]
        for s in inc[:40]:
            p = boxpoint(s)
            if p:
                pts.append((t.n, [to_bits('f64', v) for v in p]))
        r.update(paths=g('leaves'), steps=g('steps'), queries=g('queries'), solver_s=g('z3_s'), fns=sorted({f for w in W for f in w.get('fns', [])}),
                 ext=sorted({f for w in W for f in w.get('ext', [])}), obligations=g('boxes') - g('splits') + len(und), discharged=max(0, g('boxes') - g('splits') - g('ninc')))
        r['row'] = {'order': t.n, 'cover': t.cover, 'bounds': ' '.join(t.extra), 'boxes': g('boxes'), 'undischarged_boxes': g('ninc'), 'most_steps_on_a_box': max(w.get('maxsteps', 0) for w in W)}
        if g('ninc') or und:
            r['undecided'] += ['%s: %d boxes: %s' % (t.name(), g('ninc'), (sus or inc or und)[0][:150])]
        if g('leaves') == 0:
            r['undecided'].append('%s: nothing explored' % t.name())
    und0 = list(r['undecided'])
    verdict(t.job, r, sus, pts)
    r['undecided'] = und0
    return r


def terms(tier):
    th = tier == 'thorough'
    out = []
    pos = list(range(7, 33)) + [37, 40, 53, 54, 60, 64, 100, 128, 170, 171, 172, 180] + HUGE
    negs = [-2, -3, -4, -5, -6, -8, -10, -15, -20, -31, -40, -64, -100, -200, -1000]
    if th:
        pos, negs = sorted(set(pos) | set(range(7, 200))), sorted(set(negs) | set(range(-70, -1)))
    for n in pos:
        out.append(Term(n, 'crow', ['rmax=1e60'] if n >= 200 else [], 60))
    for n in HUGE[1:] + ([8, 9, 12, 13, 30] if not th else list(range(7, 60))):
        out.append(Term(n, 'cplx', CPLX[:3] + ['D2=6', 'maxdepth=%d' % (10 if n < 200 else 12)], 180 if not th else 400))
    for n in negs:
        out.append(Term(n, 'crow', ['rmax=1e6', 'd1min=1e-6'], 40 if not th else 200))
    return out


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        fs = {l: ex.submit(ctx.module, l) for l in ('c', 'fortran')}
        fs['cpp'] = ex.submit(ctx.module, 'cpp', extra=('-fno-inline',))
        fx = ex.submit(build.run_exe, ctx.work, False)
        fp = ex.submit(ctx.prepare, ['cpp'])
        for l in fs:
            _M[l] = fs[l].result()
        _L['exe'] = fx.result()
        fp.result()
    _L['tier'] = ctx.tier
    _L['args'] = lambda j: j.args(ctx)
    prop_c16._M = _M
    gen = [Job('cpp', f, 0, 'f64', 'cplx' if f == 'Li' else 'theta', generic=True, tag=' every order') for f in ('Li', 'Cl', 'Sl')]
    tasks = [(term, t) for t in sorted(terms(ctx.tier), key=lambda t: (t.cover != 'cplx', t.n > 0))]
    tasks = [(helper, Deep(j, h)) for j in gen if j.fam != 'Li' for h in sorted(split(j)[1])] + [(root, j) for j in gen] + [(ints, IntJob(n)) for n in INTF] + tasks
    tasks += [(fixed, j) for j in fixed_cplx() + fixed_real() + fixed_cl()]
    res = run_tasks(ctx, tasks, 3000 if ctx.tier == 'thorough' else 780)
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += [
        'fixed-order functions, Cl, Sl and their helpers: floating-point values are arbitrary (uninterpreted), so a finished exploration bounds the iterations for every argument, NaN and infinities included',
        'Li(n,.): the exit tests of the summation loops are decided by Taylor models with rounding errors on boxes of z; a box counts as discharged only if every test was decided within 4000 undecided iterations and every path ended within 1000000 instructions',
        'a violation is reported only when a call of the real gcc -O2 build gives no answer for %d s' % WAIT]
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path (or one path over one box of z), a transition one IR instruction; an obligation is one path or box that must end',
                                         {'bounds': {'orders': 'Cl, Sl, zeta, neg_eta, inv_fac, harmonic: every 64-bit order; Li: every order with the loops abstracted, and the listed orders with the loops',
                                                     'Li_orders': sorted({t.n for t in terms(ctx.tier)}), 'complex_boxes': ' '.join(CPLX[:3]), 'real_axis': '2^-996 <= |x| <= e^690 (orders below -1: 1e6, |x-1| >= 1e-6)'}}))
