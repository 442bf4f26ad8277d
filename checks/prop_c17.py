"""C17: every public function is pure: no writes to static objects, arguments unmodified, no stateful calls.
A two-call exploration (the second call in the state left by the first) supplies the inputs that are replayed."""
import random
import subprocess
import sys
import tempfile
import numpy as np
from sxc import *
from prop_c11 import loop_helpers

_M, _L = {}, {}
INTF = {'zeta': ('_ZN13polylogarithm4zetaEl', 'cpp_zeta_i'), 'neg_eta': ('_ZN13polylogarithm7neg_etaEl', 'cpp_neg_eta_i'),
        'inv_fac': ('_ZN13polylogarithm7inv_facEl', 'cpp_inv_fac_i'), 'harmonic': ('_ZN13polylogarithm8harmonicEl', 'cpp_harmonic_i')}


class IntJob:
    lang, ty, generic, cx, n = 'cpp', 'f64', True, False, 0

    def __init__(self, name):
        self.nm = name
        self.func, self.replay = INTF[name]

    def name(self):
        return 'cpp:%s(n)' % self.nm


class HelperJob:
    """loop helper kept uninterpreted elsewhere: explored on its own with symbolic arguments"""
    lang, ty, generic, cx, n = 'cpp', 'f64', True, False, 0

    def __init__(self, func, owner):
        self.func, self.owner = func, owner

    def name(self):
        return 'helper ' + demangle_map([self.func])[self.func]


class PExec(Exec):
    """records writes to static objects and calls of functions that are not pure"""

    def hook_gwrite(self, p):
        self.events.append(('write', p.base))

    def hook_impure(self, name):
        self.events.append(('impure call', name))


def explore(job, mod, stop, unroll, timeout, maxpaths, calls=1):
    ex = PExec(mod, nonan=False, unroll=unroll, stop=stop, timeout=timeout, maxpaths=maxpaths)
    ex.events, ex.merging, ex.havoc_tables = [], True, True
    ex.recursion = {job.func: 1}
    isint = isinstance(job, IntJob)
    o = dict(obl=0, dis=0, und=[], ev=set(), pts=[])
    nin = 2 if job.cx else 1
    xs = [tuple(finput('%s%d' % ('xy'[k], c), job.ty) for k in range(nin)) for c in range(calls)]
    ns = [z3.BitVec('n%d' % c, 64) if job.generic else None for c in range(calls)]

    def model_pts(e):
        r = e.check()
        if r != z3.sat:
            return
        m = e.solver.model()
        pt = []
        for c in range(calls):
            n = m.eval(ns[c], model_completion=True).as_signed_long() if job.generic else None
            pt.append(((n,), None) if isint else (tuple(model_bits(m, v) for v in xs[c]), n))
        if len(o['pts']) < 60:
            o['pts'].append(pt)

    def prog(e):
        e.events = []
        for c in range(calls):
            if job.generic:
                e.assume(z3.And(ns[c] >= -(1 << 62), ns[c] <= 1 << 62))
            try:
                if isinstance(job, HelperJob):
                    f = e.mod.funcs[job.func]
                    a = [ns[c] if t == 'i64' else z3.BitVec('h%d' % k, int(t[1:])) if t[0] == 'i' else finput('h%d' % k, t) for k, (_, t) in enumerate(f.params)]
                    e.call(job.func, a)
                elif isint:
                    e.call(job.func, [ns[c]])
                else:
                    r, after = entry(e, job.func, xs[c], job.ty, job.cx, ns[c])
                    if after is not None:
                        for p, q in zip(xs[c], after):
                            if p.key() != q.key() and e.prove(e.z(p) == e.z(q)) is not None:
                                e.events.append(('argument modified', ''))
            except Trap as t:
                if 'write to constant' not in str(t.what):
                    return
                e.events.append(('write', str(t.what)))
        o['obl'] += 1
        if e.events:
            o['ev'] |= set(e.events)
            model_pts(e)
        else:
            o['dis'] += 1
    ex.explore(prog)
    if ex.incomplete:
        o['und'] += ['%s: %s' % (job.name(), s) for s in ex.incomplete[:1]]
    return ex, o


def native(job, pts, seconds=4):
    """observe the real build: None or a description of what was seen"""
    rng = random.Random(SEED)
    isint = isinstance(job, IntJob)
    flat = list(dict.fromkeys(p for pt in pts for p in pt))[:60]
    if isint:
        args = [p[0][0] for p in flat] + [-7, -2, -1, 0, 1, 2, 3, 5, 10, 25, 26, 40, 100, 171, 1000] + [rng.randint(-80, 80) for _ in range(20)]
        args = [str(a) for a in dict.fromkeys(args)]
    else:
        T = npt(job.ty)
        cs = consts(_M[job.lang], [job.func], job.ty)
        v = sample_reals(job.ty, cs, 120, rng)
        rng.shuffle(v)
        args = [{'v': ['%x' % b for b in bits], 'n': n} for bits, n in flat]
        ns = list(dict.fromkeys([n for _, n in flat if n is not None and abs(n) < 10 ** 6][:6] + [2, 3, 7, 1, -1, -3, 12, 0])) if job.generic else [None]
        base = []
        for k in range(40):
            r = [T(v[(2 * k + j) % len(v)]) * T(rng.choice((1, -1))) for j in range(2 if job.cx else 1)]
            base.append(r)
            if k % 4 == 0:      # close relatives of the same point: confusable keys of a cache
                base += [[-t for t in r], [t * T(1 + 1e-9) for t in r], [r[0]] + [-t for t in r[1:]], [t + T(1) for t in r]]
                if job.cx:
                    base += [[r[1], r[0]], [r[0], r[1] * T(2)], [r[0] * T(2), r[1]]]
        base += [[T(s)] * (2 if job.cx else 1) for s in (0.0, -0.0, np.inf, -np.inf, np.nan)]
        for k, r in enumerate(base):
            args += [{'v': ['%x' % to_bits(job.ty, t) for t in r], 'n': n} for n in (ns if k < 6 else [ns[k % len(ns)]])]
    spec = {'replay': job.replay, 'argsym': job.replay + '_arg' if not isint and (job.lang == 'fortran' or (job.lang == 'cpp' and job.cx)) else None,
            'ty': LET[job.ty], 'cols': 2 if job.cx else 1, 'generic': job.generic and not isint, 'int': isint, 'args': args, 'seconds': seconds, 'seed': SEED}
    return run_spec(spec), spec


def run_spec(spec, lib=None):
    import common
    with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
        json.dump(spec, f)
        f.flush()
        try:
            p = subprocess.run([sys.executable, os.path.join(common.HERE, 'purity_native.py'), lib or _L['lib'], f.name], capture_output=True, text=True, timeout=150)
            return json.loads(p.stdout)
        except (subprocess.TimeoutExpired, ValueError):
            return {'kind': None, 'calls': 0, 'note': 'native run gave no answer'}


def task(job):
    helper = isinstance(job, HelperJob)
    mod = _M[job.lang]
    stop = set()
    if job.generic and not isinstance(job, IntJob):
        stop = set(loop_helpers(mod, job.func)) - {job.func}
        if not helper:      # public functions that are roots of their own
            stop |= {j.func for j in fixed_cplx(('cpp',)) + fixed_real(('cpp',)) + fixed_cl(('cpp',))} | {v[0] for v in INTF.values()}
    r = {}
    susp = None
    try:
        ex, o = explore(job, mod, stop, 3, 200, 6000)
    except (Unsupported, StepLimit) as e:
        ex, o = None, dict(obl=1, dis=0, und=['%s: %s' % (job.name(), e)], ev={('not encodable', str(e))}, pts=[])
    if ex:
        r.update(stats(ex))
    r.update(obligations=o['obl'], discharged=o['dis'], undecided=list(o['und']))
    if o['obl'] == 0:
        r['undecided'].append('%s: nothing explored' % job.name())
    r['row'] = {'uninterpreted_helpers': sorted(stop)}
    if o['ev']:
        who = job.owner if helper else job
        pts = [] if helper else list(o['pts'])
        if ex and not helper and o['ev']:
            try:        # the second call in the state left by the first
                pts += explore(job, mod, stop, 1, 60, 60, calls=2)[1]['pts']
            except (Unsupported, StepLimit):
                pass
        res, spec = native(who, pts)
        what = sorted('%s %s' % e for e in o['ev'])[:6]
        if res.get('kind'):
            r['violation'] = dict(res, function=who.name(), type=who.ty, generic=who.generic, symbolic_finding=what, spec=dict(spec, seconds=4))
        else:
            r['undecided'].append('%s: %s, but the real build shows no difference' % (job.name(), what))
    if not helper and not isinstance(job, IntJob):
        j2 = Job(job.lang, job.fam, 3, job.ty, job.cover, generic=True) if job.generic else job
        ok, bad, no, s = validate_sx(mod, j2, Native(_L['lib']), 6, random.Random(SEED))
        r.update(validated=ok, vbad=bad, vnot=no, sample=s)
        if bad:
            r['undecided'].append('%s: translator validation mismatch' % job.name())
    return r


def run(ctx):
    ctx.prepare(('cpp', 'c', 'fortran'))
    for l in ('cpp', 'c', 'fortran'):
        _M[l] = ctx.module(l)
    _L['lib'] = ctx.lib()
    gen = [Job('cpp', f, 3, 'f64', 'cplx' if f == 'Li' else 'theta', generic=True, tag=' every order') for f in ('Li', 'Cl', 'Sl')]
    helpers, seen = [], set()
    for j in gen:
        for h in sorted(loop_helpers(_M['cpp'], j.func)):
            if h not in seen and h not in [v[0] for v in INTF.values()]:
                seen.add(h)
                helpers.append(HelperJob(h, j))
    jobs = gen + [IntJob(n) for n in INTF] + helpers + fixed_cplx() + fixed_real() + fixed_cl()
    res = run_tasks(ctx, [(task, j) for j in jobs])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME + [
        'libm functions are pure (errno and floating-point exception flags are not part of the result)',
        'one-time initialisation of a function-local constant by the compiler (__cxa_guard_*) is not by itself a violation',
        'a suspected violation is reported only after it was observed on the real gcc -O2 build: a changed argument object, a result that differs from the one in a fresh process, a change in the writable segments of the library, or a wrong result under concurrent calls']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one feasible path of a public function over symbolic arguments (all bit patterns, NaN and infinities included) and, for the general functions, a symbolic order; a transition is one IR instruction',
                                         {'bounds': {'orders_generic': '|n| <= 2^62, symbolic', 'loop_unrolling': '3 symbolic iterations (code after the loop is reached from each)', 'arguments': 'every bit pattern, NaN and infinities included'}}))
