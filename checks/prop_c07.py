"""C07: zeta, -eta, 1/n!, harmonic for every 64-bit order.
The order is a symbolic 64-bit integer.  Orders in [LO, HI] are split by the solver down to single values, the two
outer ranges stay symbolic."""
import random
import mpmath as mp
import numpy as np
from sxc import *
from prop_c13 import int_call

_M, _L = {}, {}
LO, HI = -320, 220
MAXD = mp.mpf(2) ** 1024 * (1 - mp.mpf(2) ** -54)      # rounds to infinity from here on
MIND = mp.mpf(2) ** -1074
FN = {'zeta': '_ZN13polylogarithm4zetaEl', 'neg_eta': '_ZN13polylogarithm7neg_etaEl', 'inv_fac': '_ZN13polylogarithm7inv_facEl',
      'harmonic': '_ZN13polylogarithm8harmonicEl'}
TOL = mp.mpf(10) ** -14
mp.mp.dps = 40


def truth(name, n):
    """exact value, or 'nan'"""
    if name == 'zeta':
        return mp.inf if n == 1 else mp.mpf(0) if n < 0 and n % 2 == 0 else mp.zeta(n)
    if name == 'neg_eta':
        return mp.mpf(0) if n < 0 and n % 2 == 0 else -mp.altzeta(n)
    if name == 'inv_fac':
        return 'nan' if n < 0 else 1 / mp.factorial(n)
    return 'nan' if n <= 0 else mp.harmonic(n)


def far(name, n):
    """truth() for orders of any size"""
    if -400 <= n <= 400:
        return truth(name, n)
    if name in ('zeta', 'neg_eta'):
        s = 1 if name == 'zeta' else -1
        if n > 0:
            return mp.mpf(s)
        if n % 2 == 0:
            return mp.mpf(0)
        return mp.inf if n % 4 == 1 else -mp.inf
    if name == 'inv_fac':
        return 'nan' if n < 0 else mp.mpf(0)
    if n <= 0:
        return 'nan'
    t = 1 / mp.mpf(n)
    return mp.log(n) + mp.euler + t / 2 - t * t / 12 + t ** 4 / 120 - t ** 6 / 252


def good(v, t):
    """is the double v right for the exact value t"""
    if isinstance(t, str):
        return v != v
    if v != v:
        return False
    if abs(t) >= MAXD:
        return abs(v) == float('inf') and (v > 0) == (t > 0)
    if abs(v) == float('inf'):
        return False
    if t == 0:
        return v == 0
    return abs(mp.mpf(float(v)) - t) <= max(TOL * abs(t), MIND)


class Fn:
    def __init__(self, name):
        self.n_ = name

    def name(self):
        return self.n_


class Poly:
    """aL*log(n) + sum c_k t^k + error, t = 1/n in [0, 1/HI]; error bounded by e0 + e1*log(n)"""
    DEG = 24

    def __init__(self, a=0, c=(0,), e0=0, e1=0):
        self.a, self.c, self.e0, self.e1 = mp.mpf(a), [mp.mpf(x) for x in c], mp.mpf(e0), mp.mpf(e1)

    def mag(self):
        """(m0, m1) with |value| <= m0 + m1*log(n)"""
        T = mp.mpf(1) / HI
        return sum(abs(x) * T ** k for k, x in enumerate(self.c)) + self.e0, abs(self.a) + self.e1

    def rnd(self):
        u = mp.mpf(2) ** -53
        m0, m1 = self.mag()
        self.e0 += u * m0 + MIND
        self.e1 += u * m1
        return self


def poly(v, n, memo):
    """interpretation of a floating-point term over symbolic n >= HI"""
    k = v.key()
    if k in memo:
        return memo[k]
    c = v.c
    sub = lambda i: poly(F(c.args[i][0], U.list[c.args[i][1]]), n, memo)
    s = -1 if v.neg else 1
    if c.op == 'c':
        q = frac(v)
        if q[1] != 'fin':
            raise Unsupported('infinite constant')
        r = Poly(0, [mp.mpf(q[2].numerator) / q[2].denominator])
        memo[k] = r
        return r
    if c.op == 'fadd':
        a, b = sub(0), sub(1)
        m = max(len(a.c), len(b.c))
        g = lambda l: l + [mp.mpf(0)] * (m - len(l))
        r = Poly(a.a + b.a, [x + y for x, y in zip(g(a.c), g(b.c))], a.e0 + b.e0, a.e1 + b.e1).rnd()
    elif c.op == 'fmul':
        a, b = sub(0), sub(1)
        if a.a or a.e1:
            a, b = b, a
        if a.a or a.e1:
            raise Unsupported('product of logarithms')
        m0, _ = a.mag()
        r = Poly(0, [0])
        if b.a:
            if any(a.c[1:]):
                raise Unsupported('log(n)/n term')
            r.a = b.a * a.c[0]
        p = [mp.mpf(0)] * (len(a.c) + len(b.c) - 1)
        for i, x in enumerate(a.c):
            for j, y in enumerate(b.c):
                p[i + j] += x * y
        T = mp.mpf(1) / HI
        r.e0 += sum(abs(x) * T ** i for i, x in enumerate(p) if i > Poly.DEG)
        r.c = p[:Poly.DEG + 1]
        nb0, nb1 = b.mag()
        r.e0 += a.e0 * nb0 + b.e0 * m0
        r.e1 += a.e0 * nb1 + b.e1 * m0
        r = r.rnd()
    elif c.op == 'fdiv':
        b = F(c.args[1][0], U.list[c.args[1][1]])
        if b.c.op != 'sitofp' or not b.c.args[0].e.eq(n):
            raise Unsupported('division')
        a = sub(0)
        if a.a or a.e1:
            raise Unsupported('log(n)/n')
        # x/fl(n) = x*t*(1 + d)
        T = mp.mpf(1) / HI
        r = Poly(-a.a if b.neg else a.a, [mp.mpf(0)] + [(-x if b.neg else x) for x in a.c], a.e0 * T, 0).rnd().rnd()
    elif c.op == 'log':
        b = F(c.args[0][0], U.list[c.args[0][1]])
        if b.c.op != 'sitofp' or b.neg or not b.c.args[0].e.eq(n):
            raise Unsupported('logarithm')
        u = mp.mpf(2) ** -53
        r = Poly(1, [0], 2 * u, 16 * u)
    else:
        raise Unsupported('term ' + c.op)
    if s < 0:
        r = Poly(-r.a, [-x for x in r.c], r.e0, r.e1)
    memo[k] = r
    return r


def bound_harm(v, n, st):
    """H_n for n >= HI: z3 decides |result - H_n| <= tol*H_n over the monomials of t = 1/n"""
    p = poly(v, n, {})
    if p.a != 1:
        return False
    d = list(p.c) + [mp.mpf(0)] * 8
    d[0] -= mp.euler
    d[1] -= mp.mpf(1) / 2
    T = mp.mpf(1) / HI
    rem = mp.mpf(0)
    for k in range(1, 8):
        b = mp.bernoulli(2 * k) / (2 * k)
        while len(d) <= 2 * k:
            d.append(mp.mpf(0))
        d[2 * k] += b
        rem = abs(mp.bernoulli(2 * k + 2) / (2 * k + 2)) * T ** (2 * k + 2)
    q = lambda x: z3.RealVal('%d/%d' % (int(mp.nint(x * mp.mpf(2) ** 200)), 2 ** 200))
    s = z3.Solver()
    L, t0 = z3.Real('L'), time.time()
    ms = [z3.Real('t%d' % k) for k in range(1, len(d))]
    for k, m in enumerate(ms, 1):
        s.add(m >= 0, m <= q(T ** k))
    s.add(L >= q(mp.log(HI) - mp.mpf(2) ** -100))
    diff = q(d[0]) + z3.Sum([q(x) * m for x, m in zip(d[1:], ms)])
    err = q(p.e0 + rem + mp.mpf(2) ** -190) + q(p.e1) * L
    s.add(z3.Or(diff + err > q(TOL) * L, diff - err < -q(TOL) * L))
    r = s.check()
    st['queries'] += 1
    st['solver_s'] += time.time() - t0
    return r == z3.unsat


def bound_one(v, n, lo, s):
    """value within 1e-15 of s*1 for every n >= lo: interval evaluation of the term"""
    def ev(v):
        c = v.c
        if c.op == 'c':
            x = mp.mpf(frac(v)[2].numerator) / frac(v)[2].denominator
            return x, x
        sub = [F(a[0], U.list[a[1]]) for a in c.args if isinstance(a, tuple)]
        if c.op == 'sitofp':
            r = (mp.mpf(lo), mp.mpf(2) ** 64)
        elif c.op == 'fadd':
            a, b = ev(sub[0]), ev(sub[1])
            r = (a[0] + b[0], a[1] + b[1])
        elif c.op == 'fmul':
            a, b = ev(sub[0]), ev(sub[1])
            p = [x * y for x in a for y in b]
            r = (min(p), max(p))
        elif c.op == 'fdiv':
            a, b = ev(sub[0]), ev(sub[1])
            if b[0] <= 0 <= b[1]:
                raise Unsupported('division by a range containing zero')
            p = [x / y for x in a for y in b]
            r = (min(p), max(p))
        elif c.op == 'pow':
            a, b = ev(sub[0]), ev(sub[1])
            if a[0] != a[1] or a[0] <= 0:
                raise Unsupported('pow')
            p = [a[0] ** x for x in b]
            r = (min(p), max(p))
        elif c.op in ('exp2', 'exp'):
            a = ev(sub[0])
            f = (lambda x: mp.mpf(2) ** x) if c.op == 'exp2' else mp.exp
            r = (f(a[0]), f(a[1]))
        else:
            raise Unsupported('term ' + c.op)
        g = mp.mpf(2) ** -50
        r = (r[0] - abs(r[0]) * g - MIND, r[1] + abs(r[1]) * g + MIND)
        return (-r[1], -r[0]) if v.neg else r
    a, b = ev(v)
    return abs(a - s) <= TOL / 2 and abs(b - s) <= TOL / 2


def split(e, n, lo, hi):
    """solver-driven case split of lo <= n <= hi down to one value"""
    while lo < hi:
        m = (lo + hi) // 2
        if e.decide(n <= m):
            hi = m
        else:
            lo = m + 1
    return lo


def task(fn):
    name = fn.name()
    mod, nat = _M['cpp'], Native(_L['lib'])
    ex = Exec(mod, nonan=False, unroll=4, timeout=400, maxpaths=20000)
    n = z3.BitVec('n', 64)
    o = dict(obl=0, dis=0, bad=[], und=[], leaves=0, outer=0, queries=0, solver_s=0.0, val=0, vbad=0)
    small = -(1 << 63) + 1

    def judge(k, v):
        o['obl'] += 1
        if v is None:
            o['und'].append('%s(%d): value does not reduce to a constant' % (name, k))
            o['bad'].append(k)
            return
        w = tofl(v)
        nv = int_call(nat, 'cpp_%s_i' % name, k)
        if w == nv or (w != w and nv != nv):
            o['val'] += 1
        elif not (abs(w - nv) <= 1e-15 * abs(nv)):
            o['vbad'] += 1
        if good(w, truth(name, k)):
            o['dis'] += 1
        else:
            o['bad'].append(k)

    def prog(e):
        e.assume(z3.And(n > small))
        if e.decide(n < LO):
            side = -1
        elif e.decide(n > HI):
            side = 1
        else:
            k = split(e, n, LO, HI)
            o['leaves'] += 1
            r = e.call(FN[name], [k & T64])
            judge(k, r[0] if r[0].const() else None)
            return
        r = e.call(FN[name], [n])[0]
        o['outer'] += 1
        o['obl'] += 1
        ok, p = False, None
        nan = fconst('f64', NAN['f64'])
        inf = fconst('f64', INF['f64'])
        zero = fconst('f64', 0)
        even = z3.Extract(0, 0, n) == 0
        if name == 'inv_fac':
            p = e.isnan(r) if side < 0 else e.same(r, zero)
        elif name == 'harmonic':
            if side < 0:
                p = e.isnan(r)
            else:
                try:
                    ok = bound_harm(r, n, o)
                except Unsupported as x:
                    o['und'].append('harmonic(n > %d): %s' % (HI, x))
        elif side < 0:
            plus = z3.Extract(1, 0, n) == 1
            sm = lambda a: z3.BoolVal(bool(a)) if isinstance(a, (int, bool)) else a
            p = z3.If(even, sm(e.same(r, zero)), z3.If(plus, sm(e.same(r, inf)), sm(e.same(r, neg(inf)))))
        else:
            try:
                ok = bound_one(r, n, HI, 1 if name == 'zeta' else -1)
            except Unsupported as x:
                o['und'].append('%s(n > %d): %s' % (name, HI, x))
        m = None
        if p is not None:
            m = e.prove(p)
            ok = m is None
        if ok:
            o['dis'] += 1
        else:
            if m is None or m == 'unknown':
                e.check()
                m = e.solver.model()
            o['bad'].append(m.eval(n, model_completion=True).as_signed_long())
    ex.explore(prog)
    if o['leaves'] < HI - LO or o['outer'] < 2:
        o['und'].append('%s: not every order was reached (%d single orders, %d outer paths)' % (name, o['leaves'], o['outer']))
    o['und'] += ['%s: %s' % (name, s) for s in ex.incomplete[:2]]
    st = stats(ex)
    st['queries'] += o['queries']
    st['solver_s'] += o['solver_s']
    if ex.st.bounded:
        o['und'].append('%s: %d paths cut at the loop bound' % (name, ex.st.bounded))
    r = dict(st, obligations=o['obl'], discharged=o['dis'], undecided=o['und'], validated=o['val'], vbad=o['vbad'])
    if o['bad'] or o['und']:
        # confirm on the real build
        big = [2 ** k for k in range(8, 63)] + [2 ** k + d for k in (31, 32, 52, 53, 62) for d in (-1, 1)] + [2 ** 63 - 1, 2 ** 63 - 2]
        cand = o['bad'] + [k for k in range(LO, HI + 1)] + [s * k for k in big for s in (1, -1)]
        rr = random.Random(SEED)
        cand += [s * int(10 ** rr.uniform(2.3, 18.9)) + d for _ in range(300) for s in (1, -1) for d in (0, 1)]
        for k in cand:
            if not small < k < 1 << 63:
                continue
            v = int_call(nat, 'cpp_%s_i' % name, k)
            if not good(v, far(name, k)):
                t = far(name, k)
                r['violation'] = {'function': name, 'n': k, 'got': repr(v), 'want': t if isinstance(t, str) else mp.nstr(t, 20), 'symbol': FN[name], 'replay_symbol': 'cpp_%s_i' % name}
                break
        else:
            if o['bad']:
                r['undecided'].append('%s: not proved for n = %s, holds on the real build' % (name, o['bad'][:5]))
    r['sample'] = {'function': name, 'orders_split_to_single_values': o['leaves'], 'symbolic_outer_paths': o['outer'], 'n=2': repr(int_call(nat, 'cpp_%s_i' % name, 2))}
    return r


def tofl(v):
    import symx
    return symx.tofloat(v)


def run(ctx):
    ctx.prepare(('cpp',))
    _M['cpp'] = ctx.module('cpp')
    _L['lib'] = ctx.lib()
    res = run_tasks(ctx, [(task, Fn(n)) for n in FN])
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += ['The front end translates clang -O1 LLVM IR of the current tree; every single order in [%d, %d] is also compared with the real gcc -O2 build.' % (LO, HI),
                        'reference values: mpmath with 40 digits; values below 2^-1022 may be off by one subnormal unit',
                        'n > %d: pow(0.5, n) and log(n) are taken to be within 2^-50 / 16 unit roundoffs of the real function; harmonic: z3 decides the error bound over the monomials of 1/n' % HI,
                        'the order -2^63 is excluded', 'libm calls with constant arguments are evaluated by the libm of this machine']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path of a helper function under a symbolic 64-bit order, a transition one IR instruction executed symbolically',
                                         {'bounds': {'order': 'every 64-bit integer except -2^63', 'single_orders': [LO, HI]}}))
