"""C16: no argument triggers undefined behaviour or an out-of-bounds table access.
The functions are compiled with the compiler's own undefined-behaviour checks turned into traps and executed symbolically;
a path on which a trap, an out-of-range access or conversion is feasible yields inputs that are replayed under sanitizers."""
import random
import numpy as np
from sxc import *
from prop_c11 import loops
from prop_c17 import IntJob, INTF
from nativerun import run_inputs
import build

_M, _L = {}, {}
BIG = 1 << 62


def loop_funcs(mod, root):
    return {f for f in build.reachable(mod, [root]) if f != root and loops(mod.funcs[f])}


def explore(job, mod, unroll, timeout, maxpaths, probe, stop, want_probe, sites=None):
    ex = Sites(mod, nonan=False, unroll=unroll, stop=stop, timeout=timeout, maxpaths=maxpaths, maxsteps=3000000)
    ex.trapmode = ex.merging = ex.havoc_tables = True
    ex.nswcheck = job.lang == 'fortran'
    ex.recursion = {job.func: 1}
    ex.sites = sites
    ex.probe, ex.probes = set(probe), int(want_probe)
    isint = isinstance(job, IntJob)
    x = tuple(finput('%s0' % 'xy'[k], job.ty) for k in range(2 if job.cx else 1))
    n = z3.BitVec('n', 64) if job.generic else None
    o = dict(obl=0, dis=0, traps={}, good=[])

    def point(e):
        if e.check() != z3.sat:
            return []
        m = e.solver.model()
        return [(m.eval(n, model_completion=True).as_signed_long() if job.generic else None, None if isint else [model_bits(m, v) for v in x])]

    def prog(e):
        if job.generic and not isint:
            e.assume(z3.And(n >= -BIG, n <= BIG))
        try:
            if isint:
                e.call(job.func, [n])
            else:
                entry(e, job.func, x, job.ty, job.cx, n)
            o['obl'] += 1
            o['dis'] += 1
            if len(o['good']) < 40 and not want_probe:
                o['good'] += point(e)
        except Trap as t:
            o['obl'] += 1
            where = ' in ' + (e.stack[-1] if e.stack else job.func)
            pts = o['traps'].setdefault(str(t.what) + where, [])
            if len(pts) < 12:
                pts += point(e)
    ex.explore(prog)
    return ex, o


class Sites(Exec):
    """collects, for every helper, the range of its integer arguments over all call sites"""
    sites = None

    def hook_probe(self, name, f, args):
        if self.sites is None or self.stack[-1] == name:
            return
        r = self.sites.setdefault(name, [None] * len(args))
        for k, (_, t) in enumerate(f.params):
            if t.startswith('i'):
                a = self.irange(args[k], int(t[1:]))
                r[k] = a if r[k] is None else (min(a[0], r[k][0]), max(a[1], r[k][1]))


def deep(mod, name, rng, stop, unroll, timeout, sites=None):
    """one helper entered directly: integers anywhere in the range of its call sites, reals and complex numbers arbitrary"""
    ex = Sites(mod, nonan=False, unroll=unroll, stop=stop, timeout=timeout, maxpaths=20000, maxsteps=3000000)
    ex.trapmode = ex.merging = ex.havoc_tables = True
    ex.recursion = {name: 1}
    ex.sites, ex.probe = sites, set(stop)
    f = mod.funcs[name]
    ints = {k: z3.BitVec('n%d' % k, int(t[1:])) for k, (_, t) in enumerate(f.params) if t.startswith('i')}
    o = dict(obl=0, dis=0, traps={})

    def prog(e):
        args = []
        for k, (_, t) in enumerate(f.params):
            if k in ints:
                e.assume(z3.And(ints[k] >= rng[k][0], ints[k] <= rng[k][1]))
                args.append(ints[k])
            elif t == 'ptr':
                p = e.newobj(16)
                e.objs[p.base].cells.update({0: ('f64', finput('re%d' % k, 'f64')), 8: ('f64', finput('im%d' % k, 'f64'))})
                args.append(p)
            else:
                args.append(finput('x%d' % k, t))
        try:
            e.call(name, args)
            o['obl'] += 1
            o['dis'] += 1
        except Trap as t:
            o['obl'] += 1
            where = ' in ' + (e.stack[-1] if e.stack else name)
            pts = o['traps'].setdefault(str(t.what) + where, [])
            if len(pts) < 12 and ints and e.check() == z3.sat:
                m = e.solver.model()
                pts.append((m.eval(ints[min(ints)], model_completion=True).as_signed_long(), None))
    ex.explore(prog)
    return ex, o


def inputs(job, pts, rng, count=700):
    """inputs for the replay under sanitizers: the solver's, special values, sampled ones"""
    if isinstance(job, IntJob):
        v = [p[0] for p in pts]
        v += [d + s for d in v[:10] for s in (-3, -2, -1, 1, 2, 3)]
        v += list(range(-600, 600)) + [s * (1 << k) + d for k in range(10, 63) for s in (1, -1) for d in (-1, 0, 1)] + [-(1 << 63), (1 << 63) - 1]
        return [a for a in dict.fromkeys(v) if -(1 << 63) <= a < 1 << 63]
    T = npt(job.ty)
    cs = consts(_M[job.lang], [job.func], job.ty)
    v = sample_reals(job.ty, cs, 400, rng)
    huge = [T(s) for s in (1e17, 1e19, 1e30, -1e19, -1e30)] + [T(s) * np.finfo(T).max for s in (1, -1)] + [np.finfo(T).tiny]
    spec = [T(s) for s in (np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0, -1.0, 0.5, -2.0, 7.0, -0.3)] + huge
    c = 2 if job.cx else 1
    rows = []
    if c == 2:
        base = [[a, b] for a in spec for b in spec[:9]] + [[a, a] for a in spec]
    else:
        base = [[a] for a in spec]
    while len(base) < count:
        base.append([T(v[rng.randrange(len(v))]) * T(rng.choice((1, -1))) for _ in range(c)])
    bits = [b for _, b in pts if b is not None and (job.ty != 'f80' or all(valid80(t) for t in b))] + [[to_bits(job.ty, t) for t in r] for r in base]
    if not job.generic:
        return [(None, b) for b in bits]
    ns = [p[0] for p in pts]
    grid = list(range(-12, 40)) + [50, 54, 60, 100, 170, 171, 172, 180, 200, 250, 262, 300, 1000, 10 ** 6, -20, -31, -32, -33, -50, -60, -64, -100, -180, -261, -1000]
    grid += [1 << k for k in (31, 32, 62)] + [-(1 << 31), -(1 << 32)]
    near = [a + d for a in ns for d in (-1, 0, 1) if abs(a) <= 10 ** 6]
    allow = [a for a in dict.fromkeys(ns + near + grid) if -BIG <= a <= BIG and (abs(a) <= 2000 or a in ns or job.fam != 'Li')]
    for k, b in enumerate(bits):
        own = pts[k][0] if k < len(pts) else None
        pick = ([own] if own is not None and own in allow else []) + [allow[(k * 7 + j * 13) % len(allow)] for j in range(3)]
        rows += [(a, b) for a in dict.fromkeys(pick)]
    for a in allow:
        rows += [(a, [to_bits(job.ty, t) for t in r]) for r in base[:6] + base[-3:]]
    return rows


def native(job, traps):
    pts = [p for ps in traps.values() for p in ps]
    rng = random.Random(SEED)
    rows = inputs(job, pts, rng)
    isint = isinstance(job, IntJob)
    ty = 'i' if isint else LET[job.ty]
    hasn = job.generic and not isint
    end = time.time() + 60
    k, what, calls, flags = run_inputs(_L['san'], job.replay, ty, 2 if job.cx else 1, rows, hasn, seconds=60, percall=10)
    # an input that only takes very long is no verdict here: go on behind it
    while k is not None and what.startswith('no answer') and time.time() < end:
        rows = rows[k + 1:]
        k, what, calls, flags = run_inputs(_L['san'], job.replay, ty, 2 if job.cx else 1, rows, hasn, seconds=max(1, end - time.time()), percall=10)
    if k is not None and not what.startswith('no answer'):
        return rows[k], what
    if job.lang == 'fortran' and any('conversion' in t for t in traps):
        # gfortran has no check of its own: the conversion instruction raises the invalid exception on a finite argument
        for i, f in sorted(flags.items()):
            r = [from_bits(job.ty, b) for b in rows[i][1]]
            if f and all(np.isfinite(r)) and concrete_trap(job, rows[i][1]):
                return rows[i], 'conversion of an unrepresentable value to an integer (floating-point invalid exception raised by the real build)'
    return None, None


def concrete_trap(job, bits):
    ex = Exec(_M[job.lang], nonan=False, unroll=10 ** 6, timeout=10, maxpaths=2)
    ex.trapmode = ex.nswcheck = True
    hit = []

    def prog(e):
        try:
            entry(e, job.func, tuple(fconst(job.ty, b) for b in bits), job.ty, job.cx, None)
        except Trap as t:
            hit.append(str(t.what))
    try:
        ex.explore(prog)
    except (Unsupported, StepLimit):
        pass
    return bool(hit)


def split(job):
    """functions abstracted in, and helpers with loops below, a general function"""
    if not job.generic or isinstance(job, IntJob):
        return set(), set()
    stop = {j.func for j in fixed_cplx(('cpp',)) + fixed_real(('cpp',)) + fixed_cl(('cpp',))} | {v[0] for v in INTF.values()}
    return stop, loop_funcs(_M[job.lang], job.func) - stop


def phases(job, plan):
    mod = _M[job.lang]
    stop, probe = split(job)
    tot, und, traps, sites, depth, good = Exec(mod), [], {}, {}, {}, []
    obl = dis = 0
    for want, unroll, tmo in plan:
        try:
            if want == 'deep':
                if unroll not in sites:
                    continue
                ex, o = deep(mod, unroll, sites[unroll], stop | (probe - {unroll}), 300, tmo)
            else:
                ex, o = explore(job, mod, unroll, tmo, 20000, probe, stop, want, sites)
        except (Unsupported, StepLimit) as e:
            und.append('%s: %s' % (job.name(), e))
            traps.setdefault('not encodable: %s' % e, [])
            obl += 1
            continue
        if not (plan[-1][0] == 'deep' and want != 'deep'):      # there the first phase only finds the call sites
            tot.absorb(ex)
            obl, dis = obl + o['obl'], dis + o['dis']
        for k, v in o['traps'].items():
            traps.setdefault(k, []).extend(v)
        good += o.get('good', [])
        if ex.incomplete:
            und.append('%s: unrolling %s: %s' % (job.name(), unroll, ex.incomplete[0]))
        else:
            depth[str(unroll) if want == 'deep' else job.func + (' with one helper call' if want else '')] = 300 if want == 'deep' else unroll
    r = stats(tot)
    if obl == 0 and tot.st.paths == 0 and plan[-1][0] != 'deep':
        und.append('%s: nothing explored' % job.name())
    r.update(obligations=obl, discharged=dis, undecided=und)
    r['row'] = {'helpers_explored_one_call_at_a_time': sorted(probe), 'abstracted': sorted(stop), 'loop_unrolling_completed': depth,
                'integer_ranges_at_call_sites': {k: [x for x in v if x] for k, v in sites.items()}}
    return r, traps, good


def report(job, r, traps):
    if not traps:
        return
    where, what = native(job, traps)
    if where is not None:
        r['violation'] = violation(job, where, what, sorted(traps)[:5])
    else:
        r['undecided'].append('%s: %s, not reproduced under the sanitizers' % (job.name(), sorted(traps)[:3]))


def violation(job, where, what, found):
    isint = isinstance(job, IntJob)
    return {'function': job.name(), 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic, 'symbolic_finding': found, 'native': what,
            'order': where if isint else where[0], 'bits': None if isint else ['%x' % b for b in where[1]],
            'args': None if isint else [repr(from_bits(job.ty, b)) for b in where[1]]}


def task(job):
    r, traps, good = phases(job, [(False, 24, 200)] + ([(True, 12, 150)] if split(job)[1] else []))
    report(job, r, traps)
    isint = isinstance(job, IntJob)
    good = [p for p in good if isint or job.ty != 'f80' or all(valid80(t) for t in p[1])]
    if good and not r.get('violation'):     # one input of each path the solver found harmless, under the sanitizers
        rows = [p[0] for p in good] if isint else [(p[0] if job.generic else None, p[1]) for p in good]
        k, what, calls, _ = run_inputs(_L['san'], job.replay, 'i' if isint else LET[job.ty], 2 if job.cx else 1, rows, job.generic and not isint, seconds=30, percall=5)
        r['validated'] = calls
        if k is not None and not what.startswith('no answer'):
            r['violation'] = violation(job, rows[k], what, ['found while validating the encoding'])
    return r


class Deep:
    def __init__(self, job, helper):
        self.job, self.helper = job, helper

    def name(self):
        return self.job.name() + ' / ' + self.helper


def deeptask(d):
    job, name = d.job, d.helper
    r, traps, _ = phases(job, [(False, 24, 60), ('deep', name, 600 if _L['tier'] == 'thorough' else 200)])
    report(job, r, traps)
    return r


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        fs = {l: ex.submit(ctx.module, l, l != 'fortran', ('-fno-inline',) if l != 'fortran' else ()) for l in ('cpp', 'c', 'fortran')}
        fx = ex.submit(build.run_exe, ctx.work, True)
        for l in fs:
            _M[l] = fs[l].result()
        _L['san'] = fx.result()
    _L['tier'] = ctx.tier
    gen = [Job('cpp', f, 3, 'f64', 'cplx' if f == 'Li' else 'theta', generic=True, tag=' every order') for f in ('Li', 'Cl', 'Sl')]
    jobs = gen + [IntJob(n) for n in INTF] + fixed_cplx() + fixed_real() + fixed_cl()
    tasks = [(deeptask, Deep(j, h)) for j in gen for h in sorted(split(j)[1])]
    res = run_tasks(ctx, tasks + [(task, j) for j in jobs])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    # vacuity guard: the same machinery must find the planted out-of-range access, overflow and conversion
    ctx.assumptions += SXASSUME[:2] + [
        'C and C++: clang -O1 -fno-inline with -fsanitize=%s as traps; Fortran: signed overflow, division, conversion and object bounds checked by the executor on GIMPLE' % build.UB[0].split('=')[1],
        'conversions: the range of the converted value is taken from interval arithmetic over the orders feasible on the path, libm pow/log/exp/ceil correct to 1e-5 relative',
        'zeta, neg_eta, inv_fac, harmonic and the fixed-order functions are roots of their own; inside Li, Cl, Sl their results are arbitrary',
        'functions with loops that are called by Li, Cl, Sl are entered from every call site with the path condition of the call, one call per path, other calls giving arbitrary results',
        'a suspected violation is reported only after it was reproduced on the real sources under AddressSanitizer/UndefinedBehaviorSanitizer (gcc, gfortran -fcheck=bounds)']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one feasible path over symbolic arguments (all bit patterns, NaN and infinities included) and, for the general functions, a symbolic order; a transition is one IR instruction',
                                         {'bounds': {'orders': '|n| <= 2^62 symbolic (every 64-bit n for zeta, neg_eta, inv_fac, harmonic)', 'loop_unrolling': 'per task, see loop_unrolling_completed; paths beyond it are counted in paths_cut_at_bound'}}))
