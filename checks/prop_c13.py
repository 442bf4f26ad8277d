"""C13: special points.  The order is one symbolic 64-bit integer."""
import random
import mpmath as mp
import numpy as np
from sxc import *

_M, _L = {}, {}
NS = list(range(-40, 60)) + [-300, -299, -262, -261, -260, -259, -258, -219, -218, -217, -216, 63, 64, 65, 100, 101, 170, 171, 1000, 1001, -1000, -1001,
                             2 ** 31, -2 ** 31, 2 ** 31 - 1, 2 ** 53, 2 ** 62, -2 ** 62, 2 ** 63 - 1, 2 ** 63 - 2, -2 ** 63 + 2, -2 ** 63 + 3]
ZETA, NETA = '_ZN13polylogarithm4zetaEl', '_ZN13polylogarithm7neg_etaEl'
INFB = INF['f64']


class Case:
    def __init__(self, kind, label):
        self.kind, self.label = kind, label

    def name(self):
        return self.label


def cases():
    out = []
    for s in (0, 1):
        for t in (0, 1):
            out.append(Case(('zero', s, t), 'Li(n,z), every n, z = (%s0,%s0)' % ('+-'[s], '+-'[t])))
        out.append(Case(('one', s), 'Li(n,z), every n, z = (1,%s0)' % '+-'[s]))
        out.append(Case(('mone', s), 'Li(n,z), every n, z = (-1,%s0)' % '+-'[s]))
    out += [Case(('nan', 0), 'Li(n,z), every n, z = (NaN,y)'), Case(('nan', 1), 'Li(n,z), every n, z = (x,NaN)'),
            Case(('inf', 0), 'Li(n,z), every n, z = (+-inf,y)'), Case(('inf', 1), 'Li(n,z), every n, z = (x,+-inf)')]
    for f in ('Cl', 'Sl'):
        out.append(Case(('low', f), '%s(n,x), every n < 1, every x' % f))
    return out


def d(bits):
    return from_bits('f64', bits)


def native(kind, nat, n, x, y):
    """does the real build satisfy the case at this point? None or a description"""
    with np.errstate(all='ignore'):
        return _native(kind, nat, n, x, y)


def _native(kind, nat, n, x, y):
    if kind[0] == 'low':
        r = nat.call('cpp_%s_d' % kind[1], 'd', np.array([[x]]), n)[0]
        return None if np.isnan(r[0]) else {'got': repr(r[0]), 'want': 'NaN'}
    r = nat.call('cpp_Li_cd', 'd', np.array([[x, y]]), n)[0]
    one = lambda s: int_call(nat, s, n)
    if kind[0] == 'zero':
        ok, w = r[0] == 0 and r[1] == 0, '0'
    elif kind[0] == 'one':
        if n <= 0:
            ok, w = r[0] == np.inf and r[1] == np.inf, '(inf,inf)'
        else:
            z = one('cpp_zeta_i')
            ok, w = r[0] == z and r[1] == 0, '(zeta(n),0) = %r' % z
    elif kind[0] == 'mone':
        z = one('cpp_neg_eta_i')
        ok, w = r[0] == z and r[1] == 0, '(-eta(n),0) = %r' % z
    elif kind[0] == 'nan':
        ok, w = np.isnan(r[0]), 'NaN real part'
    else:
        ok, w = r[0] == -np.inf, '-inf real part'
    return None if ok else {'got': [repr(r[0]), repr(r[1])], 'want': w}


def int_call(nat, sym, n):
    import ctypes
    a = np.array([n], dtype=np.int64)
    o = np.zeros(1)
    P = lambda v: v.ctypes.data_as(ctypes.c_void_p)
    f = getattr(nat.L, sym)
    f.restype = None
    f(P(a), P(o), ctypes.c_long(1))
    return o[0]


def task(case):
    k = case.kind
    mod, nat = _M['cpp'], Native(_L['lib'])
    func = LIG if k[0] != 'low' else '_ZN13polylogarithm2%sEld' % k[1]
    o = dict(obl=0, dis=0, und=[], bad=[])
    n = z3.BitVec('n', 64)
    # NaN is a proper value here: the whole input range is covered
    for stop in ((ZETA, NETA), ()):
        ex = Exec(mod, nonan=False, unroll=2, stop=stop, timeout=200, maxpaths=4000)
        o['bad'], o['und'], obl0, dis0 = [], [], 0, 0
        x, y = finput('x', 'f64'), finput('y', 'f64')
        if k[0] == 'zero':
            x, y = fconst('f64', k[1] << 63), fconst('f64', k[2] << 63)
        elif k[0] in ('one', 'mone'):
            x, y = fnum('f64', 1.0 if k[0] == 'one' else -1.0), fconst('f64', k[1] << 63)
        elif k[0] == 'nan':
            q = fconst('f64', NAN['f64'])
            x, y = (q, y) if k[1] == 0 else (x, q)
        cnt = [0, 0]

        def prog(e):
            e.assume(z3.And(n != z3.BitVecVal(1 << 63, 64), n != z3.BitVecVal((1 << 63) + 1, 64)))
            if k[0] == 'low':
                e.assume(n < 1)
                r, _ = entry(e, func, (x,), 'f64', False, n)
                p = e.isnan(r[0])
            else:
                if k[0] == 'inf':
                    e.assume(z3.Extract(62, 0, e.z(x if k[1] == 0 else y)) == z3.BitVecVal(INFB, 63))
                    e.assume(z3.ULE(z3.Extract(62, 0, e.z(y if k[1] == 0 else x)), z3.BitVecVal(INFB, 63)))
                r, _ = entry(e, func, (x, y), 'f64', True, n)
                pinf = fconst('f64', INFB)
                if k[0] == 'zero':
                    p = e.zand(e.same(r[0], x), e.same(r[1], y))
                elif k[0] == 'one':
                    if e.decide(n <= 0):
                        p = e.zand(e.same(r[0], pinf), e.same(r[1], pinf))
                    else:
                        v = e.docall((0, ZETA, 0, ['f64']), [n])[0]
                        p = e.zand(e.same(r[0], v), e.same(r[1], y))
                elif k[0] == 'mone':
                    v = e.docall((0, NETA, 0, ['f64']), [n])[0]
                    p = e.zand(e.same(r[0], v), e.same(r[1], y))
                elif k[0] == 'nan':
                    p = e.isnan(r[0])
                else:
                    p = e.same(r[0], fconst('f64', INFB | 1 << 63))
            cnt[0] += 1
            m = e.prove(p)
            if m is None:
                cnt[1] += 1
            elif m == 'unknown':
                o['und'].append('%s: solver gave no answer' % case.name())
            else:
                o['bad'].append((m.eval(n, model_completion=True).as_signed_long(), d(model_bits(m, x)), d(model_bits(m, y))))
        ex.explore(prog)
        o['obl'], o['dis'] = cnt
        if ex.st.bounded:
            o['und'].append('%s: %d paths run into a loop instead of the special case' % (case.name(), ex.st.bounded))
        o['und'] += ['%s: %s' % (case.name(), s) for s in ex.incomplete[:1]]
        if cnt[0] == 0:
            o['und'].append('%s: nothing explored' % case.name())
        if not o['bad'] and not o['und']:
            break
    r = dict(stats(ex), obligations=o['obl'], discharged=o['dis'], undecided=list(o['und']))
    # the representative points are run on the real build: replay of models, and validation of the executor
    hits = None
    if o['bad'] or o['und']:
        pts = list(o['bad'])
        ys = [0.0, -0.0, 1.0, -2.5, np.inf, -np.inf, np.nan, 1e-300, 1e300]
        for m in NS:
            if k[0] == 'zero':
                pts.append((m, d(k[1] << 63), d(k[2] << 63)))
            elif k[0] in ('one', 'mone'):
                pts.append((m, 1.0 if k[0] == 'one' else -1.0, d(k[1] << 63)))
            elif k[0] == 'nan':
                pts += [(m, np.nan, t) if k[1] == 0 else (m, t, np.nan) for t in ys]
            elif k[0] == 'inf':
                pts += [(m, s, t) if k[1] == 0 else (m, t, s) for s in (np.inf, -np.inf) for t in ys if t == t]
            elif m < 1:
                pts += [(m, t, 0.0) for t in ys]
        for p in pts:
            hits = native_guard(k, *p)
            if hits:
                r['violation'] = dict(hits, function=case.name(), kind=list(k), n=p[0], x=hexs('f64', p[1]), y=hexs('f64', p[2]))
                break
        if not hits and o['bad']:
            r['undecided'].append('%s: %d paths not proved, holds on the real build at %d points' % (case.name(), len(o['bad']), len(pts)))
    ok = bad = 0
    for m in random.Random(SEED).sample(NS, 12):
        if k[0] == 'low' and m >= 1:
            continue
        xx = {'zero': d(k[1] << 63) if k[0] == 'zero' else 0, 'one': 1.0, 'mone': -1.0, 'nan': np.nan, 'inf': np.inf, 'low': 0.3}[k[0]]
        yy = 0.0 if k[0] in ('zero', 'one', 'mone') else 2.0
        if native_guard(k, m, xx, yy):
            bad += 1
        else:
            ok += 1
    r.update(validated=ok)
    if bad and not r.get('violation'):
        r['undecided'].append('%s: real build disagrees at %d points' % (case.name(), bad))
    r['sample'] = {'case': case.name(), 'paths': r['paths'], 'obligations': r['obligations']}
    return r


def native_guard(k, n, x, y):
    """run one point in a child process: a hang or crash is not a verdict of this property"""
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(5)
            h = native(k, Native(_L['lib']), n, x, y)
            os.write(wr, json.dumps(h).encode())
        finally:
            os._exit(0)
    os.close(wr)
    b = b''
    while True:
        t = os.read(rd, 65536)
        if not t:
            break
        b += t
    os.close(rd)
    os.waitpid(pid, 0)
    try:
        return json.loads(b.decode())
    except ValueError:
        return None


# ------------------------------------------------------- fixed orders
def exact(job, x):
    mp.mp.dps = 40
    n = job.n
    if job.fam == 'Li':
        if x == 0:
            return mp.mpf(0)
        return mp.zeta(n) if x == 1 else -mp.altzeta(n)
    if n % 2 == 0:
        return mp.mpf(0)
    return mp.zeta(n) if n > 1 else mp.inf


def fixed(job):
    mod, nat = _M[job.lang], Native(_L['lib'])
    eps = {'f32': 2 ** -24, 'f64': 2 ** -53, 'f80': 2 ** -64}[job.ty]
    r = dict(paths=0, steps=0, queries=0, solver_s=0.0, obligations=0, discharged=0, undecided=[], fns=[], ext=[], axioms=[], validated=0)
    for x in ((0.0, 1.0, -1.0) if job.fam == 'Li' else (0.0,)):
        for sx_ in (0, 1) if x == 0 else (0,):
            for s in (0, 1) if job.cx else (0,):
                w = W[job.ty]
                xv = fconst(job.ty, sx_ << (w - 1)) if x == 0 else fnum(job.ty, x)
                vals = (xv, fconst(job.ty, s << (w - 1))) if job.cx else (xv,)
                ex = Exec(mod, nonan=False, unroll=10 ** 6, timeout=20)
                want = exact(job, x)
                got = []

                def prog(e):
                    q, _ = entry(e, job.func, vals, job.ty, job.cx)
                    got.append(q)
                ex.explore(prog)
                for a in ('paths', 'steps', 'queries', 'solver_s'):
                    r[a] += getattr(ex.st, a)
                r['fns'] = sorted(set(r['fns']) | ex.st.fns)
                r['ext'] = sorted(set(r['ext']) | ex.st.ext)
                r['obligations'] += 1

                def good(v):
                    t = mp.mpf(str(v[0])) if np.isfinite(v[0]) else (mp.inf if v[0] > 0 else mp.nan if np.isnan(v[0]) else -mp.inf)
                    a = t == want if want == 0 or mp.isinf(want) else abs(t - want) <= 8 * eps * abs(want)
                    return bool(a) and (not job.cx or v[1] == 0)
                nv = nat.call(job.replay, LET[job.ty], np.array([[from_bits(job.ty, v.bits()) for v in vals]], dtype=npt(job.ty)))[0]
                sym = [from_bits(job.ty, v.bits()) for v in got[0]] if len(got) == 1 and all(v.const() for v in got[0]) else None
                if sym is None:
                    r['undecided'].append('%s at %r: the value does not reduce to a constant' % (job.name(), x))
                elif all(a == b or (a != a and b != b) for a, b in zip(sym, nv)):
                    r['validated'] += 1
                if sym is not None and good(sym):
                    r['discharged'] += 1
                if not good(nv):
                    if sym is None or not good(sym):
                        r['violation'] = {'function': job.name(), 'symbol': job.func, 'replay_symbol': job.replay, 'type': job.ty, 'x': hexs(job.ty, from_bits(job.ty, xv.bits())),
                                          'y': hexs(job.ty, -0.0 if s else 0.0) if job.cx else None, 'got': [repr(t) for t in nv], 'want': mp.nstr(want, 25)}
                elif sym is not None and not good(sym):
                    r['undecided'].append('%s at %r: symbolic value %r is off, the real build is right' % (job.name(), x, sym))
                r['sample'] = {'function': job.name(), 'x': x, 'value': repr(nv[0]), 'want': mp.nstr(want, 20)}
    return r


def run(ctx):
    ctx.prepare(('cpp', 'c', 'fortran'))
    for l in ('cpp', 'c', 'fortran'):
        _M[l] = ctx.module(l)
    _L['lib'] = ctx.lib()
    tasks = [(task, c) for c in cases()] + [(fixed, j) for j in fixed_cplx() + fixed_real() + [c for c in fixed_cl()]]
    res = run_tasks(ctx, tasks)
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    ctx.assumptions += SXASSUME[1:] + ['zeta(n) and -eta(n) are compared as the values of the helper functions zeta and neg_eta (their correctness is C07)',
                                       'the order is any 64-bit integer except the two smallest; loops are not entered on the special points',
                                       'fixed-order values at 0, 1, -1: within 8 unit roundoffs of the mpmath value']
    ctx.evidence('model_checking', merge(ctx, res, 'a state is one path of the function at a special point with a symbolic order (and symbolic other component), a transition one IR instruction executed symbolically',
                                         {'bounds': {'order': 'every 64-bit integer except the two smallest', 'arguments': [c.name() for c in cases()]}}))
