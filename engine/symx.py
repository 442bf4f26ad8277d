"""Path-enumerating symbolic executor with z3.

Integers are exact bit-vectors.  Floating-point *comparisons*, signs, NaNs and
infinities are exact (values are raw IEEE bit-vectors); floating-point
*arithmetic* and libm calls are uninterpreted, hash-consed operations that are
normalised by the laws below, each of which is exact under round-to-nearest
(up to the sign of a zero produced by cancellation, and the sign of a NaN):
   a+b = b+a, (-a)+(-b) = -(a+b), (-a)*b = -(a*b), a*b = b*a, (-a)/b = -(a/b),
   odd/even libm functions, conjugation symmetry of complex libm functions.
Every path is explored by re-execution with a decision prefix; the solver
decides the feasibility of each branch and every final assertion.
"""
import ctypes
import ctypes.util
import math
import sys
import time
from fractions import Fraction
import z3
import ir

sys.setrecursionlimit(100000)
W = {'f32': 32, 'f64': 64, 'f80': 80}
INF = {'f32': 0x7f800000, 'f64': 0x7ff << 52, 'f80': 0x7fff << 64 | 1 << 63}
NAN = {'f32': 0x7fc00000, 'f64': 0x7ff8 << 48, 'f80': 0x7fff << 64 | 3 << 62}


PURE = set('''acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf erfc exp exp2 expm1 fabs fdim floor fma fmax fmin fmod frexp hypot
ilogb ldexp llrint llround log log10 log1p log2 logb lrint lround modf nan nearbyint nextafter nexttoward pow powi remainder rint round roundeven scalbn scalbln
sin sincos sinh sqrt tan tanh trunc cabs carg cacos casin catan ccos ccosh cexp cimag clog conj cpow cproj creal csin csinh csqrt ctan ctanh cpowi clog10
isnan isinf isfinite signbit finite fpclassify abs labs llabs __muldc3 __mulsc3 __mulxc3 __divdc3 __divsc3 __divxc3 __powidf2 __powisf2 __powixf2 tgamma
__cdivf64 __cdivf32 __cdivf80 __signbit __signbitf __signbitl __isnan __isinf __finite __fpclassify exp10 pown
memcpy memset memmove unreachable expect _gfortran_pow_r8_i8 _gfortran_pow_c8_i4 _gfortran_pow_c8_i8 _gfortran_pow_i4_i4 _gfortran_pow_i8_i8 is_constant'''.split())


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path is abandoned (infeasible, or beyond the bound)"""


class Trap(Exception):
    """undefined behaviour reached"""

    def __init__(self, what):
        self.what = what


class Core:
    __slots__ = ('op', 'ty', 'args', 'id', 'z', 'ax')


class Universe:
    """hash-consed floating-point cores, shared by all runs of one check"""

    def __init__(self):
        self.tab, self.list, self.keep = {}, [], []

    def core(self, op, ty, args, ax=None):
        k = (op, ty, args)
        c = self.tab.get(k)
        if c is None:
            c = Core()
            c.op, c.ty, c.args, c.id, c.ax = op, ty, args, len(self.list), ax
            c.z = None
            self.list.append(c)
            self.tab[k] = c
        return c


U = Universe()


class F:
    """floating-point value: sign flip and core"""
    __slots__ = ('neg', 'c')

    def __init__(self, neg, c):
        self.neg, self.c = neg, c

    @property
    def ty(self):
        return self.c.ty

    def const(self):
        return self.c.op == 'c'

    def bits(self):
        return self.c.args[0] | (self.neg << (W[self.ty] - 1))

    def key(self):
        return (self.neg, self.c.id)

    def __repr__(self):
        return ('-' if self.neg else '') + show(self.c)


def show(c, d=0):
    if c.op == 'c':
        s, k, q = ir.f_unpack(c.ty, c.args[0])
        return k if k != 'fin' else repr(float(q)) if abs(q) < 10 ** 300 else 'big'
    if d > 3:
        return '..'
    return '%s(%s)' % (c.op, ','.join(('-' if isinstance(a, tuple) and a[0] == 1 else '') + (show(U.list[a[1]], d + 1) if isinstance(a, tuple) and len(a) == 2 else str(a)) for a in c.args))


def fconst(ty, bits):
    w = W[ty]
    s, b = bits >> (w - 1), bits & ((1 << (w - 1)) - 1)
    if b > INF[ty]:
        s, b = 0, NAN[ty]
    return F(s, U.core('c', ty, (b,)))


def fnum(ty, x):
    return fconst(ty, ir.f_from_float(ty, x))


def isnanc(v):
    return v.const() and v.c.args[0] > INF[v.ty]


def frac(v):
    return ir.f_unpack(v.ty, v.bits())


def from_frac(ty, q, zero_neg=0):
    if q == 0:
        return fconst(ty, zero_neg << (W[ty] - 1))
    b = ir.f_bits_from_fraction(ty, q)
    if b & ((1 << (W[ty] - 1)) - 1) == 0 and q < 0:
        b |= 1 << (W[ty] - 1)
    return fconst(ty, b)


def neg(v):
    return F(1 - v.neg, v.c) if not isnanc(v) else v


def arith(op, ty, a, b):
    if isnanc(a) or isnanc(b):
        return fconst(ty, NAN[ty])
    if a.const() and b.const():
        r = fold(op, ty, a, b)
        if r is not None:
            return r
    if op == 'fsub':
        return arith('fadd', ty, a, neg(b))
    if op == 'fadd':
        # adding an exact zero changes at most the sign of a zero
        for p, q in ((a, b), (b, a)):
            if p.const() and p.c.args[0] == 0 and not (q.const()):
                return q
        if a.c.id > b.c.id:
            a, b = b, a
        n = a.neg
        return F(n, U.core('fadd', ty, ((0, a.c.id), (a.neg ^ b.neg, b.c.id))))
    if op == 'fmul':
        for p, q in ((a, b), (b, a)):
            if p.const() and frac(p)[1] == 'fin' and abs(frac(p)[2]) == 1:
                return F(q.neg ^ p.neg, q.c)
            if p.const() and p.c.args[0] == 0:
                return fconst(ty, 0)           # 0*x = 0 for finite x
        n = a.neg ^ b.neg
        if a.c.id > b.c.id:
            a, b = b, a
        return F(n, U.core('fmul', ty, ((0, a.c.id), (0, b.c.id)), 'sq' if a.c is b.c else None))
    if op == 'fdiv':
        if b.const() and frac(b)[1] == 'fin' and abs(frac(b)[2]) == 1:
            return F(a.neg ^ b.neg, a.c)
        if b.const() and frac(b)[1] == 'fin' and frac(b)[2] != 0:
            q = abs(frac(b)[2])
            if q.numerator & (q.numerator - 1) == 0 and q.denominator & (q.denominator - 1) == 0 and 2 ** -100 < q < 2 ** 100:
                r = from_frac(ty, 1 / q)
                return arith('fmul', ty, F(a.neg ^ b.neg, a.c), r)
        return F(a.neg ^ b.neg, U.core('fdiv', ty, ((0, a.c.id), (0, b.c.id))))
    if op == 'frem':
        return F(a.neg, U.core('fmod', ty, ((0, a.c.id), (0, b.c.id))))
    raise Unsupported(op)


def fold(op, ty, a, b):
    sa, ka, qa = frac(a)
    sb, kb, qb = frac(b)
    if ka == 'fin' and kb == 'fin':
        if op in ('fadd', 'fsub'):
            if op == 'fsub':
                sb, qb = 1 - sb, -qb
            return from_frac(ty, qa + qb, sa & sb if qa == 0 and qb == 0 else 0)
        if op == 'fmul':
            return from_frac(ty, qa * qb, sa ^ sb)
        if op == 'fdiv':
            if qb == 0:
                return fconst(ty, NAN[ty]) if qa == 0 else fconst(ty, INF[ty] | (sa ^ sb) << (W[ty] - 1))
            return from_frac(ty, qa / qb, sa ^ sb)
        if op == 'frem':
            if qb == 0:
                return fconst(ty, NAN[ty])
            r = abs(qa) % abs(qb)
            return from_frac(ty, -r if sa else r, sa)
        return None
    inf = lambda s: fconst(ty, INF[ty] | s << (W[ty] - 1))
    if op == 'fsub':
        sb = 1 - sb
        op = 'fadd'
    if op == 'fadd':
        if ka == 'inf' and kb == 'inf':
            return inf(sa) if sa == sb else fconst(ty, NAN[ty])
        return inf(sa) if ka == 'inf' else inf(sb)
    if op == 'fmul':
        if (ka == 'fin' and qa == 0) or (kb == 'fin' and qb == 0):
            return fconst(ty, NAN[ty])
        return inf(sa ^ sb)
    if op == 'fdiv':
        if ka == 'inf' and kb == 'inf':
            return fconst(ty, NAN[ty])
        return inf(sa ^ sb) if ka == 'inf' else fconst(ty, (sa ^ sb) << (W[ty] - 1))
    if op == 'frem':
        return fconst(ty, NAN[ty]) if ka == 'inf' else a
    return None


_libm = ctypes.CDLL(ctypes.util.find_library('m'))
_CT = {'f32': ctypes.c_float, 'f64': ctypes.c_double}


def libm_const(name, ty, args):
    """constant arguments: the real libm (binary32/64 only)"""
    if any(not a.const() or a.ty != ty for a in args):
        return None
    if ty == 'f80':
        return libm_long(name, args)
    try:
        f = getattr(_libm, name)
    except AttributeError:
        return None
    f.restype = _CT[ty]
    f.argtypes = [_CT[ty]] * len(args)
    r = f(*[tofloat(a) for a in args])
    return fnum(ty, r)


_NPL = {'log': 'log', 'log1p': 'log1p', 'exp': 'exp', 'exp2': 'exp2', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'hypot': 'hypot',
        'atan2': 'arctan2', 'atan': 'arctan', 'pow': 'power', 'ceil': 'ceil', 'floor': 'floor', 'fmod': 'fmod', 'sinh': 'sinh', 'cosh': 'cosh'}


def libm_long(name, args):
    import numpy as np
    if name not in _NPL:
        return None
    a = [np.frombuffer(v.bits().to_bytes(16, 'little'), dtype=np.longdouble)[0] for v in args]
    with np.errstate(all='ignore'):
        r = np.longdouble(getattr(np, _NPL[name])(*a))
    return fconst('f80', int.from_bytes(r.tobytes()[:10], 'little'))


def tofloat(v):
    s, k, q = frac(v)
    if k == 'nan':
        return math.nan
    if k == 'inf':
        return -math.inf if s else math.inf
    if q == 0:
        return -0.0 if s else 0.0
    return float(q)


# ------------------------------------------------------------------ z3 view
def width(ty):
    return int(ty[1:])


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Val:
    """pointer"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off


class Obj:
    __slots__ = ('size', 'cells', 'kind')

    def __init__(self, size, kind='local'):
        self.size, self.cells, self.kind = size, {}, kind


class Stats:
    def __init__(self):
        self.paths = self.steps = self.queries = self.bounded = self.unknown = 0
        self.solver_s = 0.0
        self.fns, self.ext, self.axioms = set(), set(), set()


class Pair(tuple):
    pass


RANGED = {'ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint', 'pow', 'exp', 'log', 'fmul', 'fdiv'}


class Exec:
    def __init__(self, mod, nonan=True, unroll=6, stop=(), maxpaths=4000, timeout=None, maxsteps=400000):
        self.mod, self.nonan, self.unroll, self.stop = mod, nonan, unroll, set(stop)
        self.maxpaths, self.maxsteps = maxpaths, maxsteps
        self.deadline = time.time() + timeout if timeout else None
        self.st = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', 10000)
        self.depthlimit = 60
        self.recursion = {}          # function -> recursion depth at which it becomes uninterpreted
        self.rangecache, self.nranges = {}, 0
        self.trapmode = False        # report undefined behaviour (C16)
        self.nswcheck = False        # signed overflow of GIMPLE arithmetic is undefined behaviour
        self.probe = set()           # functions explored once per path, with everything before and after abstracted
        self.probes = 0
        self.watch_globals = False
        self.incomplete = []
        self.rand = None
        self.inregion = False
        self.merging = False         # join small side-effect-free branches instead of forking the path

    def absorb(self, o):
        a, b = self.st, o.st
        for k in ('paths', 'steps', 'queries', 'bounded', 'unknown', 'solver_s'):
            setattr(a, k, getattr(a, k) + getattr(b, k))
        a.fns |= b.fns
        a.ext |= b.ext
        a.axioms |= b.axioms

    # -------- exploration
    def explore(self, prog):
        """run prog(self) on every feasible path; prog may call prove()"""
        work = [[]]
        self.results, self.rangecache = [], {}
        while work:
            if self.st.paths >= self.maxpaths or (self.deadline and time.time() > self.deadline):
                self.incomplete.append('path or time limit, %d prefixes left' % len(work))
                break
            self.prefix = work.pop()
            self.pos = self.nranges = 0
            self.taken = []
            self.known, self.keep = {}, []
            self.work = work
            self.axdone = set()
            self.nsteps = 0
            self.objs = {}
            self.gmem = {}
            self.gflag = {}
            self.nobj = 0
            self.visits = {}
            self.npr = self.notinlined = 0
            self.probed = False
            self.stack = []
            self.solver.push()
            self.pc = []
            try:
                r = prog(self)
                self.st.paths += 1
                self.results.append(r)
            except PathEnd:
                pass
            finally:
                self.solver.pop()
        return self.results

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.st.queries += 1
        self.st.solver_s += time.time() - t
        if r == z3.unknown:
            self.st.unknown += 1
        return r

    def assume(self, e):
        if isinstance(e, int):
            if not e:
                raise PathEnd()
            return
        self.solver.add(e)
        self.pc.append(e)
        self._learn(e, True)

    def _learn(self, e, v):
        while z3.is_not(e):
            e, v = e.arg(0), not v
        self.known[e.get_id()] = v
        self.keep.append(e)

    def decide(self, e):
        """branch on a z3 Bool; returns a Python bool and extends the path"""
        if isinstance(e, (int, bool)):
            return bool(e)
        e = z3.simplify(e) if not z3.is_const(e) else e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        b, inv = e, False
        while z3.is_not(b):
            b, inv = b.arg(0), not inv
        k = self.known.get(b.get_id())
        if k is not None:
            return k ^ inv
        if self.inregion:
            raise Unsupported('fork inside a merged region')
        if self.pos < len(self.prefix):
            r, forced = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((r, forced))
            c = e if r else z3.Not(e)
            if not forced:
                self.solver.add(c)
            self.pc.append(c)
            self._learn(e, r)
            return r
        t = self.check(e)
        f = self.check(z3.Not(e))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd()
        if t == z3.unsat or f == z3.unsat:
            r = t != z3.unsat
            self.taken.append((r, True))
            self.pos += 1
            self.prefix = self.prefix + [(r, True)]
            self._learn(e, r)
            return r
        self.work.append(self.taken + [(False, False)])
        self.taken.append((True, False))
        self.prefix = self.prefix + [(True, False)]
        self.pos += 1
        self.solver.add(e)
        self.pc.append(e)
        self._learn(e, True)
        return True

    def prove(self, e):
        """None if e holds on this path, otherwise a z3 model (or 'unknown')"""
        if isinstance(e, (int, bool)):
            if e:
                self.st.queries += 0
                return None
            r = self.check()
            return self.solver.model() if r == z3.sat else ('unknown' if r == z3.unknown else None)
        r = self.check(z3.Not(e))
        if r == z3.unsat:
            return None
        return self.solver.model() if r == z3.sat else 'unknown'

    # -------- floating-point values in z3
    def zc(self, c):
        w = W[c.ty]
        if c.op == 'c':
            return z3.BitVecVal(c.args[0], w)
        if c.z is None:
            if c.op == 'bits':
                c.z = c.args[0].e
            elif c.op == 'ite':
                c.z = z3.If(c.args[0].e, self.z(F(c.args[1][0], U.list[c.args[1][1]])), self.z(F(c.args[2][0], U.list[c.args[2][1]])))
            elif c.op == 'fabs':
                c.z = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, self.zc(U.list[c.args[0][1]])))
            else:
                c.z = z3.BitVec('%s!%d' % (c.op if c.op != 'in' else c.args[0], c.id), w)
        if c.id not in self.axdone:
            self.axdone.add(c.id)
            if c.op == 'ite':
                self.zc(U.list[c.args[1][1]])
                self.zc(U.list[c.args[2][1]])
            elif c.op == 'fabs':
                self.zc(U.list[c.args[0][1]])
            self.axioms(c)
        return c.z

    def axioms(self, c):
        w = W[c.ty]
        mag = z3.Extract(w - 2, 0, c.z)
        sgn = z3.Extract(w - 1, w - 1, c.z)
        ax = []
        if c.ty == 'f80' and c.op not in ('fabs', 'bits', 'ite'):
            ex = z3.Extract(78, 64, c.z)
            ib = z3.Extract(63, 63, c.z)
            ax.append(z3.If(ex == 0, ib == 0, ib == 1))
        if self.nonan and c.op not in ('bits', 'fabs', 'ite'):
            ax.append(z3.ULE(mag, z3.BitVecVal(INF[c.ty], w - 1)))
        if c.op in ('hypot', 'sqrt', 'exp', 'exp2', 'cabs') or c.ax == 'sq':
            ax.append(z3.Or(sgn == 0, z3.UGT(mag, z3.BitVecVal(INF[c.ty], w - 1))))
        if c.op in ('atan2', 'clog.im'):
            yv = U.list[c.args[0 if c.op == 'atan2' else 1][1]]
            yn = c.args[0 if c.op == 'atan2' else 1][0]
            if yv.op != 'c':
                zy = self.zc(yv)
                ysg = z3.Extract(w - 1, w - 1, zy) ^ z3.BitVecVal(yn, 1)
                ax.append(z3.Implies(z3.And(z3.Extract(w - 2, 0, zy) != 0, z3.ULE(z3.Extract(w - 2, 0, zy), z3.BitVecVal(INF[c.ty], w - 1))), z3.Or(z3.UGT(mag, z3.BitVecVal(INF[c.ty], w - 1)), z3.And(mag != 0, sgn == ysg))))
        if c.op == 'sitofp':
            e, iw = c.args[0].e, c.args[1]
            ax.append(z3.ULE(mag, z3.BitVecVal(INF[c.ty] - 1, w - 1)))
            ax.append((sgn == 1) == (e < 0))
            ax.append((mag == 0) == (e == 0))
            for k in (1, 2, 3, 4, 8, 9, 10, 16, 26, 64, 1 << 20, 1 << 53, 1 << 62):
                if k < 1 << (iw - 1):
                    kb = z3.BitVecVal(ir.f_from_float(c.ty, float(k)), w - 1)
                    ax.append(z3.Implies(e >= k, z3.UGE(mag, kb)))
                    ax.append(z3.Implies(z3.And(e <= k, e >= 0), z3.ULE(mag, kb)))
        if c.op == 'log' and self.nonan:
            za = self.z(F(*[c.args[0][0], U.list[c.args[0][1]]]))
            one = z3.BitVecVal(ir.f_from_float(c.ty, 1.0), w)
            pos = z3.Extract(w - 1, w - 1, za) == 0
            ax.append(z3.Implies(pos, z3.And((sgn == 1) == z3.ULT(za, one), (mag == 0) == (za == one))))
        if c.op == 'log1p' and self.nonan:
            za = self.z(F(*[c.args[0][0], U.list[c.args[0][1]]]))
            ax.append(z3.And(sgn == z3.Extract(w - 1, w - 1, za), (mag == 0) == (z3.Extract(w - 2, 0, za) == 0)))
        if c.op == 'fadd' and self.nonan:
            p, q = (F(k, U.list[i]) for k, i in c.args)
            ax.append((mag == 0) == self._cmp('eq', p, neg(q)))     # gradual underflow: a + b = 0 only for a = -b
            if q.const():
                p, q = q, p
            if p.const() and not isnanc(p):     # rounding is monotone
                zq, wb = self.z(q), fconst(c.ty, p.bits())
                sq = z3.Extract(w - 1, w - 1, zq) == 1
                me = F(0, c)
                ax.append(z3.Implies(sq, self._cmp('le', me, wb)))
                ax.append(z3.Implies(z3.Not(sq), self._cmp('le', wb, me)))
                z0 = fconst(c.ty, 0)
                ax.append(z3.Implies(self._cmp('le', q, neg(p)), self._cmp('le', me, z0)))
                ax.append(z3.Implies(self._cmp('le', neg(p), q), self._cmp('le', z0, me)))
        if c.op in ('fmul', 'fdiv') and self.nonan and c.ax != 'sq':     # exact: sign of a product or quotient, |a/b| against |a|
            za, zb = (self.zc(U.list[i]) for k, i in c.args)
            sg = lambda t: z3.Extract(w - 1, w - 1, t)
            mg = lambda t: z3.Extract(w - 2, 0, t)
            ax.append(sgn == sg(za) ^ sg(zb))
            if c.op == 'fdiv':
                one = z3.BitVecVal(ir.f_from_float(c.ty, 1.0), w - 1)
                ax.append(z3.Implies(z3.UGE(mg(zb), one), z3.ULE(mag, mg(za))))
                ax.append(z3.Implies(z3.ULE(mg(zb), one), z3.UGE(mag, mg(za))))
        if c.ax == 'sq' and self.nonan:
            one = z3.BitVecVal(ir.f_from_float(c.ty, 1.0), w - 1)
            ma = z3.Extract(w - 2, 0, self.zc(U.list[c.args[0][1]]))
            ax.append(z3.Implies(z3.UGE(ma, one), z3.UGE(mag, one)))
            ax.append(z3.Implies(z3.ULE(ma, one), z3.ULE(mag, one)))
        for a in ax:
            self.solver.add(a)

    def z(self, v):
        e = self.zc(v.c)
        if v.neg:
            w = W[v.ty]
            if v.const():
                return z3.BitVecVal(v.bits(), w)
            e = e ^ z3.BitVecVal(1 << (w - 1), w)
        return e

    def isnan(self, v):
        if v.const():
            return v.c.args[0] > INF[v.ty]
        if self.nonan:
            return False
        w = W[v.ty]
        if v.c.op == 'sitofp':
            return False
        return z3.UGT(z3.Extract(w - 2, 0, self.zc(v.c)), z3.BitVecVal(INF[v.ty], w - 1))

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        un = self.zor(self.isnan(a), self.isnan(b))
        if pred == 'uno':
            return un
        if pred == 'ord':
            return self.znot(un)
        p = pred[1:]
        if a.const() and b.const() and un is False or (a.const() and b.const()):
            if un:
                return int(pred[0] == 'u')
            x, y = self.cval(a), self.cval(b)
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
            return int(r)
        if p in ('gt', 'ge'):
            a, b, p = b, a, {'gt': 'lt', 'ge': 'le'}[p]
        if self.trapmode and p in ('lt', 'le') and (a.c.op in RANGED or b.c.op in RANGED):
            x, y = self.frange(a), self.frange(b)
            if x and y and x[1] < y[0]:
                return 1
            if x and y and x[0] > y[1]:
                return 0
        # canonical signs
        if p in ('eq', 'ne'):
            if (a.c.id, a.neg) > (b.c.id, b.neg):
                a, b = b, a
            if a.neg:
                a, b = neg(a), neg(b)
        elif (neg(b).key(), neg(a).key()) < (a.key(), b.key()):
            a, b = neg(b), neg(a)
        if a.c is b.c and not a.const():
            if a.neg == b.neg:
                base = {'eq': True, 'ne': False, 'lt': False, 'le': True}[p]
            else:
                base = None
        else:
            base = None
        if base is None:
            base = self._cmp(p, a, b)
        if pred[0] == 'o':
            return self.zand(self.znot(un), base)
        return self.zor(un, base)

    def cval(self, v):
        s, k, q = frac(v)
        if k == 'inf':
            return -math.inf if s else math.inf
        return q

    def _cmp(self, p, a, b):
        w = W[a.ty]
        za, zb = self.z(a), self.z(b)
        ma, mb = z3.Extract(w - 2, 0, za), z3.Extract(w - 2, 0, zb)
        sa, sb = z3.Extract(w - 1, w - 1, za) == 1, z3.Extract(w - 1, w - 1, zb) == 1
        if p in ('eq', 'ne'):
            e = z3.Or(za == zb, z3.And(ma == 0, mb == 0))
            if a.const() and a.c.args[0] == 0:
                e = mb == 0
            elif b.const() and b.c.args[0] == 0:
                e = ma == 0
            return e if p == 'eq' else z3.Not(e)
        if p == 'lt':
            return z3.If(sa, z3.If(sb, z3.UGT(ma, mb), z3.Or(ma != 0, mb != 0)), z3.And(z3.Not(sb), z3.ULT(ma, mb)))
        return z3.If(sa, z3.If(sb, z3.UGE(ma, mb), z3.BoolVal(True)), z3.If(sb, z3.And(ma == 0, mb == 0), z3.ULE(ma, mb)))

    @staticmethod
    def znot(a):
        return (0 if a else 1) if isinstance(a, (int, bool)) else z3.Not(a)

    @staticmethod
    def zand(a, b):
        if isinstance(a, (int, bool)):
            return b if a else 0
        if isinstance(b, (int, bool)):
            return a if b else 0
        return z3.And(a, b)

    @staticmethod
    def zor(a, b):
        if isinstance(a, (int, bool)):
            return 1 if a else b
        if isinstance(b, (int, bool)):
            return 1 if b else a
        return z3.Or(a, b)

    # equality of two results as numbers (zeros of either sign are equal, NaN equals NaN)
    def same(self, a, b):
        if a.key() == b.key():
            return True
        if a.const() and b.const():
            if isnanc(a) or isnanc(b):
                return isnanc(a) and isnanc(b)
            return self.cval(a) == self.cval(b)
        return self.zor(self.fcmp('oeq', a, b), self.zand(self.isnan(a), self.isnan(b)))

    # -------- execution
    def newobj(self, size, kind='local'):
        self.nobj += 1
        self.objs[self.nobj] = Obj(size, kind)
        return Val(self.nobj, 0)

    def op(self, fr, o):
        k = o[0]
        if k == 'r':
            try:
                return fr[o[1]]
            except KeyError:
                raise Unsupported('undefined register')
        if k == 'f':
            return fconst(o[1], o[2])
        if k == 'i':
            return o[2] & ((1 << o[1]) - 1)
        if k == 'g':
            return Val(o[1], o[2])
        if k == 'u':
            return fconst(o[1], 0) if o[1] in W else 0
        raise Unsupported('operand ' + k)

    def bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def call(self, name, args):
        f = self.mod.funcs[name]
        self.st.fns.add(name)
        depth = sum(1 for s in self.stack if s == name)
        if len(self.stack) > self.depthlimit:
            raise PathEnd()
        fr = {}
        for k, ((reg, ty), a) in enumerate(zip(f.params, args)):
            if k in f.byval and isinstance(a, Val):
                o = self.newobj(f.byval[k])
                self.objs[o.base].cells = dict(self.cells(a.base))
                a = o
            fr[reg] = a
        self.stack.append(name)
        vis = {}
        lab, prev, ip = f.entry, None, 0
        blk = f.blocks[lab]
        while True:
            if self.nsteps > self.maxsteps:
                raise StepLimit()
            if self.deadline and (self.nsteps & 4095) == 0 and time.time() > self.deadline:
                self.incomplete.append('time limit')
                raise PathEnd()
            i = blk[ip]
            o = i[0]
            self.nsteps += 1
            self.st.steps += 1
            if o == 'phi':
                vals = []
                while blk[ip][0] == 'phi':
                    j = blk[ip]
                    v = next((v for v, l in j[3] if l == prev), None)
                    if v is None:
                        raise Unsupported('phi')
                    vals.append((j[2], self.op(fr, v)))
                    ip += 1
                for d, v in vals:
                    fr[d] = v
                continue
            ip += 1
            if o == 'br':
                prev, lab, ip = lab, i[1], 0
                blk = f.blocks[lab]
            elif o == 'cbr':
                c = self.op(fr, i[1])
                if not isinstance(c, (int, bool)) and self.merging:
                    j = self.try_merge(f, fr, lab, i, c if z3.is_bool(c) else c == 1)
                    if j is not None:
                        prev, lab, ip = None, j, self.first[(f.name, j)]
                        blk = f.blocks[lab]
                        continue
                if not isinstance(c, (int, bool)):
                    before = len(self.taken)
                    c = self.decide(c if z3.is_bool(c) else c == 1)
                    if len(self.taken) > before:
                        vis[lab] = vis.get(lab, 0) + 1
                        if vis[lab] > self.unroll:
                            self.st.bounded += 1
                            raise PathEnd()
                prev, lab, ip = lab, i[2] if c else i[3], 0
                blk = f.blocks[lab]
            elif o == 'ret':
                self.stack.pop()
                return [self.op(fr, v) for v in i[1]]
            elif o == 'bin':
                fr[i[3]] = self.binop(i[1], i[2], self.op(fr, i[4]), self.op(fr, i[5]))
            elif o == 'fneg':
                fr[i[2]] = neg(self.op(fr, i[3]))
            elif o == 'copy':
                fr[i[2]] = self.op(fr, i[3])
            elif o == 'fcmp':
                fr[i[3]] = self.fcmp(i[1], self.op(fr, i[4]), self.op(fr, i[5]))
            elif o == 'icmp':
                fr[i[3]] = self.icmp(i[1], i[2], self.op(fr, i[4]), self.op(fr, i[5]))
            elif o == 'cast':
                fr[i[4]] = self.cast(i[1], i[2], i[3], self.op(fr, i[5]))
            elif o == 'select':
                c = self.op(fr, i[3])
                if i[1] == 'i1' and not isinstance(c, (int, bool)):
                    a, b = self.op(fr, i[4]), self.op(fr, i[5])
                    c = c if z3.is_bool(c) else c == 1
                    fr[i[2]] = self.zor(self.zand(c, self.b(a)), self.zand(self.znot(c), self.b(b)))
                elif self.merging and i[1] != 'ptr' and not isinstance(c, (int, bool)):
                    fr[i[2]] = self.ite(c if z3.is_bool(c) else c == 1, i[1], self.op(fr, i[4]), self.op(fr, i[5]))
                else:
                    if not isinstance(c, (int, bool)):
                        c = self.decide(c if z3.is_bool(c) else c == 1)
                    fr[i[2]] = self.op(fr, i[4] if c else i[5])
            elif o == 'switch':
                v = self.op(fr, i[2])
                tgt = i[3]
                for cv, l in i[4]:
                    if isinstance(v, int):
                        if v == cv & ((1 << width(i[1])) - 1):
                            tgt = l
                            break
                    elif self.decide(v == cv):
                        tgt = l
                        break
                prev, lab, ip = lab, tgt, 0
                blk = f.blocks[lab]
            elif o == 'unreachable':
                raise Trap('unreachable code in ' + name)
            elif o == 'alloca':
                fr[i[1]] = self.newobj(i[2])
            elif o == 'load':
                fr[i[2]] = self.load(i[1], self.op(fr, i[3]))
            elif o == 'store':
                self.store(i[1], self.op(fr, i[2]), self.op(fr, i[3]))
            elif o == 'gep':
                p = self.op(fr, i[2])
                if not isinstance(p, Val):
                    raise Unsupported('gep base')
                off = p.off + i[3] if isinstance(p.off, int) else p.off + z3.BitVecVal(i[3], 64)
                for v, w, s in i[4]:
                    x = self.op(fr, v)
                    if isinstance(x, int):
                        x = sx(x, w) * s
                        off = off + x if isinstance(off, int) else off + z3.BitVecVal(x, 64)
                    else:
                        x = x if w == 64 else z3.SignExt(64 - w, x)
                        off = (z3.BitVecVal(off, 64) if isinstance(off, int) else off) + x * z3.BitVecVal(s, 64)
                fr[i[1]] = Val(p.base, off)
            elif o == 'memcpy':
                d, s, n = (self.op(fr, v) for v in i[1:4])
                if not isinstance(n, int) or not isinstance(d.off, int) or not isinstance(s.off, int):
                    raise Unsupported('memcpy')
                self.wr(d)
                src = dict(self.cells(s.base))
                self.bounds(d, n, 'memcpy destination')
                self.bounds(s, n, 'memcpy source')
                for off, c in src.items():
                    if s.off <= off < s.off + n:
                        self.cells(d.base)[off - s.off + d.off] = c
            elif o == 'memset':
                d, v, n = (self.op(fr, x) for x in i[1:4])
                if not isinstance(n, int) or not isinstance(d.off, int) or v != 0:
                    raise Unsupported('memset')
                self.wr(d)
                self.bounds(d, n, 'memset')
                c = self.cells(d.base)
                for off in [k for k in c if d.off <= k < d.off + n]:
                    del c[off]
                c[('zero', d.off)] = (n, None)
            elif o == 'call':
                rs = self.docall(i, [self.op(fr, a) for a in i[4]])
                for d, r in zip(i[2], rs):
                    fr[d] = r
            else:
                raise Unsupported(str(i)[:80])

    def b(self, v):
        if isinstance(v, (int, bool)):
            return int(v)
        return v if z3.is_bool(v) else v == 1

    # ---- joining of small pure regions (exact: values become if-then-else)
    MERGE_OPS = {'bin', 'fneg', 'copy', 'fcmp', 'icmp', 'cast', 'select', 'phi', 'br', 'cbr', 'call'}

    def region(self, f, lab):
        """(join, blocks) of the small acyclic side-effect-free region behind a conditional branch, or None"""
        tab = self.mod.__dict__.setdefault('_regions', {})
        if (f.name, lab) in tab:
            return tab[(f.name, lab)]
        res = None
        succ = lambda l: {'br': lambda t: [t[1]], 'cbr': lambda t: [t[2], t[3]]}.get(f.blocks[l][-1][0], lambda t: [])(f.blocks[l][-1])
        s0 = succ(lab)
        # candidates for the join: nearest block reached on all ways, breadth first
        cand, seen = [], set(s0)
        todo = list(s0)
        while todo and len(cand) < 12:
            l = todo.pop(0)
            cand.append(l)
            for k in succ(l):
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        for j in cand:
            blocks, ok = set(), True
            todo = [l for l in s0 if l != j]
            while todo and ok:
                l = todo.pop()
                if l in blocks:
                    continue
                if l == lab or len(blocks) >= 6 or not self.pure_block(f, l):
                    ok = False
                    break
                blocks.add(l)
                todo += [k for k in succ(l) if k != j]
            if not ok or j == lab:
                continue
            # acyclic and entered only through lab
            order, left = [], set(blocks)
            while left:
                k = next((l for l in left if not any(m in left and l in succ(m) for m in left)), None)
                if k is None:
                    ok = False
                    break
                order.append(k)
                left.discard(k)
            if not ok:
                continue
            preds = {l for l in f.blocks for k in succ(l) if k in blocks} | {l for l in f.blocks if f.blocks[l] and f.blocks[l][-1][0] == 'switch'
                                                                            and (set([f.blocks[l][-1][3]] + [x for _, x in f.blocks[l][-1][4]]) & blocks)}
            if preds <= blocks | {lab}:
                res = (j, blocks)
                break
        tab[(f.name, lab)] = res
        return res

    def pure_block(self, f, l):
        b = f.blocks[l]
        if len(b) > 40 or b[-1][0] not in ('br', 'cbr'):
            return False
        for i in b:
            if i[0] not in self.MERGE_OPS:
                return False
            if i[0] == 'bin' and (i[1].split('.')[0] in ('sdiv', 'srem', 'udiv', 'urem') or self.nswcheck and i[1].endswith('.nsw')):
                return False
            if i[0] == 'cast' and i[1] in ('fptosi', 'fptoui'):
                return False
            if i[0] == 'call':
                n = i[1][10:] if i[1].startswith('__builtin_') else i[1]
                if i[1].startswith('llvm.'):
                    if not i[1][5:].startswith(('fabs', 'fmuladd', 'fma.', 'sqrt', 'sin', 'cos', 'floor', 'ceil', 'log', 'exp')):
                        return False
                elif i[1] in self.mod.funcs or not (n in PURE or n[:-1] in PURE):
                    return False
                if any(t == 'ptr' for t in i[5]):
                    return False
        return True

    def try_merge(self, f, fr, lab, br, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            return None
        k = cond
        while z3.is_not(k):
            k = k.arg(0)
        if k.get_id() in self.known:
            return None
        rg = self.region(f, lab)
        if rg is None:
            return None
        join, blocks = rg
        if not hasattr(self, 'first'):
            self.first = {}
        phis = [i for i in f.blocks[join] if i[0] == 'phi']
        ends = []           # (condition, values of the phis)

        def leave(c, frame, prev):
            vals = []
            for p in phis:
                v = next((v for v, l in p[3] if l == prev), None)
                if v is None:
                    raise Unsupported('phi')
                vals.append(self.op(frame, v))
            ends.append((c, vals))

        def go(l, prev, c, frame):
            if l == join:
                return leave(c, frame, prev)
            b = f.blocks[l]
            frame = dict(frame)
            ip = 0
            vals = []
            while b[ip][0] == 'phi':
                v = next((v for v, q in b[ip][3] if q == prev), None)
                vals.append((b[ip][2], self.op(frame, v)))
                ip += 1
            frame.update(vals)
            for i in b[ip:]:
                o = i[0]
                self.nsteps += 1
                self.st.steps += 1
                if o == 'bin':
                    frame[i[3]] = self.binop(i[1], i[2], self.op(frame, i[4]), self.op(frame, i[5]))
                elif o == 'fneg':
                    frame[i[2]] = neg(self.op(frame, i[3]))
                elif o == 'copy':
                    frame[i[2]] = self.op(frame, i[3])
                elif o == 'fcmp':
                    frame[i[3]] = self.fcmp(i[1], self.op(frame, i[4]), self.op(frame, i[5]))
                elif o == 'icmp':
                    frame[i[3]] = self.icmp(i[1], i[2], self.op(frame, i[4]), self.op(frame, i[5]))
                elif o == 'cast':
                    frame[i[4]] = self.cast(i[1], i[2], i[3], self.op(frame, i[5]))
                elif o == 'select':
                    q = self.b(self.op(frame, i[3]))
                    x, y = self.op(frame, i[4]), self.op(frame, i[5])
                    frame[i[2]] = (x if q else y) if isinstance(q, int) else self.ite(q, i[1], x, y)
                elif o == 'call':
                    for d, r in zip(i[2], self.docall(i, [self.op(frame, a) for a in i[4]])):
                        frame[d] = r
                elif o == 'br':
                    return go(i[1], l, c, frame)
                elif o == 'cbr':
                    q = self.b(self.op(frame, i[1]))
                    if isinstance(q, int):
                        return go(i[2] if q else i[3], l, c, frame)
                    go(i[2], l, z3.And(c, q), frame)
                    return go(i[3], l, z3.And(c, z3.Not(q)), frame)
        self.inregion = True
        try:
            go(br[2], lab, cond, fr)
            go(br[3], lab, z3.Not(cond), fr)
            out = []
            for k, p in enumerate(phis):
                v = ends[-1][1][k]
                for c, vals in reversed(ends[:-1]):
                    v = self.ite(c, p[1], vals[k], v)
                out.append((p[2], v))
        except Unsupported:
            return None
        finally:
            self.inregion = False
        fr.update(out)
        self.first[(f.name, join)] = len(phis)
        return join

    def ite(self, c, ty, a, b):
        if isinstance(a, F) and isinstance(b, F):
            if a.key() == b.key():
                return a
            return F(0, U.core('ite', ty, (ZKey(c), a.key(), b.key())))
        if isinstance(a, Val) or isinstance(b, Val):
            if isinstance(a, Val) and isinstance(b, Val) and a.base == b.base and isinstance(a.off, int) and a.off == b.off:
                return a
            raise Unsupported('pointer merge')
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and int(a) == int(b):
            return a
        if ty == 'i1':
            return z3.If(c, self.tob(a), self.tob(b))
        return z3.If(c, self.bv(a, width(ty)), self.bv(b, width(ty)))

    def tob(self, a):
        return z3.BoolVal(bool(a)) if isinstance(a, (int, bool)) else a if z3.is_bool(a) else a == 1

    def binop(self, op, ty, a, b):
        if ty in W:
            if not isinstance(a, F) or not isinstance(b, F):
                raise Unsupported('float operands')
            return arith(op.split('.')[0], ty, a, b)
        w = width(ty)
        m = (1 << w) - 1
        base = op.split('.')[0]
        if isinstance(a, Val) or isinstance(b, Val):
            raise Unsupported('pointer arithmetic')
        if ty == 'i1' and base in ('and', 'or', 'xor'):
            x, y = self.b(a), self.b(b)
            if base == 'and':
                return self.zand(x, y)
            if base == 'or':
                return self.zor(x, y)
            if isinstance(y, int):
                return self.znot(x) if y else x
            if isinstance(x, int):
                return self.znot(y) if x else y
            return z3.Xor(x, y)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sx(a, w), sx(b, w)
            if self.nswcheck and op.endswith('.nsw'):
                q = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[base]
                if not -(1 << (w - 1)) <= q < 1 << (w - 1):
                    raise Trap('signed integer overflow')
            if base == 'add':
                r = a + b
            elif base == 'sub':
                r = a - b
            elif base == 'mul':
                r = a * b
            elif base in ('sdiv', 'srem'):
                if sb == 0:
                    raise Trap('division by zero')
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                r = q if base == 'sdiv' else sa - q * sb
            elif base in ('udiv', 'urem'):
                if b == 0:
                    raise Trap('division by zero')
                r = a // b if base == 'udiv' else a % b
            elif base == 'and':
                r = a & b
            elif base == 'or':
                r = a | b
            elif base == 'xor':
                r = a ^ b
            elif base == 'shl':
                r = a << b if b < w else 0
            elif base == 'lshr':
                r = a >> b if b < w else 0
            elif base == 'ashr':
                r = sa >> min(b, w - 1)
            else:
                raise Unsupported(op)
            return r & m
        x, y = self.bv(a, w), self.bv(b, w)
        if base in ('sdiv', 'srem', 'udiv', 'urem') and self.trapmode:
            if self.decide(y == 0):
                raise Trap('division by zero')
        if self.nswcheck and op.endswith('.nsw'):
            r, o = self.overflow('s%s.with.overflow.i%d' % (base, w), [x, y])
            if self.decide(self.b(o)):
                raise Trap('signed integer overflow')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y),
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}
        if base not in r:
            raise Unsupported(op)
        e = z3.simplify(r[base]())
        return e.as_long() if z3.is_bv_value(e) else e

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Val) or isinstance(b, Val):
            if isinstance(a, Val) and isinstance(b, Val) and isinstance(a.off, int) and isinstance(b.off, int):
                eq = a.base == b.base and a.off == b.off
                return int(eq if pred == 'eq' else not eq)
            if isinstance(a, Val) and isinstance(b, Val) and a.base != b.base and pred in ('eq', 'ne'):
                return int(pred == 'ne')
            if pred in ('eq', 'ne') and (isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0):
                return int(pred == 'ne')        # the address of an object is never null
            raise Unsupported('pointer comparison')
        if isinstance(a, F) or isinstance(b, F):
            raise Unsupported('icmp on float')
        w = width(ty) if ty != 'ptr' else 64
        if ty == 'i1' and pred in ('eq', 'ne') and not (isinstance(a, int) and isinstance(b, int)):
            x = self.binop('xor', 'i1', a, b)
            return x if pred == 'ne' else self.znot(x)
        if isinstance(a, int) and isinstance(b, int):
            s, t = sx(a, w), sx(b, w)
            return int({'eq': a == b, 'ne': a != b, 'slt': s < t, 'sle': s <= t, 'sgt': s > t, 'sge': s >= t,
                        'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
        x, y = self.bv(a, w), self.bv(b, w)
        e = z3.simplify({'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y,
                         'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                         'uge': lambda: z3.UGE(x, y)}[pred]())
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def cast(self, op, a, b, v):
        if op in ('sitofp', 'uitofp'):
            w = width(a)
            if isinstance(v, int):
                return from_frac(b, Fraction(sx(v, w) if op == 'sitofp' else v))
            if op == 'uitofp':
                raise Unsupported('uitofp')
            if z3.is_bool(v):
                v = self.bv(v, w)
            return F(0, U.core('sitofp', b, (ZKey(v), w)))
        if op in ('fptosi', 'fptoui'):
            w = width(b)
            if v.const():
                s, k, q = frac(v)
                if k != 'fin':
                    raise Trap('conversion of a non-finite value to an integer')
                n = int(q)
                if not -(1 << (w - 1)) <= n < 1 << (w - 1):
                    raise Trap('conversion out of range')
                return n & ((1 << w) - 1)
            if self.trapmode:
                lim = 1 << (w - 1) if op == 'fptosi' else 1 << w
                lo, hi = (-lim if op == 'fptosi' else 0), lim
                r = self.frange(v)
                if not (r and r[0] > lo - 1 and r[1] < hi):
                    bad = self.zor(self.isnan(v), self.zor(self.fcmp('oge', v, fnum(a, float(hi))), self.fcmp('ole', v, fnum(a, float(lo) - 1))))
                    if self.decide(self.b(bad)):
                        raise Trap('conversion of an unrepresentable value to an integer')
            res = z3.BitVec('fptosi!%d!%d' % v.key(), w)
            if self.trapmode and op == 'fptosi' and not self.inregion and r and abs(r[0]) < 1e15 and abs(r[1]) < 1e15:
                self.assume(z3.And(res >= math.floor(r[0]) - 1, res <= math.ceil(r[1]) + 1))
            return res
        if op in ('fpext', 'fptrunc'):
            if v.const():
                s, k, q = frac(v)
                if k == 'fin':
                    return from_frac(b, q, s)
                return fconst(b, (INF[b] if k == 'inf' else NAN[b]) | s << (W[b] - 1))
            return F(v.neg, U.core(op, b, ((0, v.c.id),)))
        if op == 'bitcast':
            if a in W and b not in W:
                if v.const():
                    return v.bits()
                return self.z(v)
            if a not in W and b in W:
                if isinstance(v, int):
                    return fconst(b, v)
                return F(0, U.core('bits', b, (ZKey(v),)))
            return v
        if op in ('zext', 'sext', 'trunc'):
            wa, wb = width(a), width(b)
            if isinstance(v, int):
                return (sx(v, wa) if op == 'sext' else v) & ((1 << wb) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal((1 << wb) - 1 if op == 'sext' else 1, wb), z3.BitVecVal(0, wb))
            e = z3.ZeroExt(wb - wa, v) if op == 'zext' else z3.SignExt(wb - wa, v) if op == 'sext' else z3.Extract(wb - 1, 0, v)
            e = z3.simplify(e)
            if wb == 1:
                e = z3.simplify(e == 1)
            return e
        raise Unsupported('cast ' + op)

    # -------- ranges of derived values, for conversions to integers
    def irange(self, e, w):
        """smallest and largest signed value of an integer term on this path"""
        if isinstance(e, int):
            return sx(e, w), sx(e, w)
        self.nranges += 1
        key = (tuple(r for r, _ in self.taken), self.nranges)
        if key in self.rangecache:
            return self.rangecache[key]
        out = []
        for sgn in (-1, 1):
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            while lo < hi:      # hi is always a valid bound
                mid = (lo + hi) // 2 if sgn > 0 else (lo + hi + 1) // 2
                r = self.check(e > mid if sgn > 0 else e < mid)
                if sgn > 0:
                    lo, hi = (lo, mid) if r == z3.unsat else (mid + 1, hi)
                else:
                    lo, hi = (mid, hi) if r == z3.unsat else (lo, mid - 1)
            out.append(hi if sgn > 0 else lo)
        self.rangecache[key] = out[0], out[1]
        return out[0], out[1]

    def frange(self, v):
        """(lo, hi) of a value that is never NaN, or None"""
        r = self.crange(v.c, v.ty)
        if r is None:
            return None
        return (-r[1], -r[0]) if v.neg else r

    def crange(self, c, ty):
        up = lambda x: x + abs(x) * 1e-5 + 1e-300
        dn = lambda x: x - abs(x) * 1e-5 - 1e-300
        sub = lambda k: (lambda r: None if r is None else (-r[1], -r[0]) if k[0] else r)(self.crange(U.list[k[1]], ty))
        try:
            if c.op == 'c':
                f = F(0, c)
                s, k, q = frac(f)
                return (float(q), float(q)) if k == 'fin' else None
            if c.op == 'sitofp':
                lo, hi = self.irange(c.args[0].e, c.args[1])
                return dn(float(lo)), up(float(hi))
            if c.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                a, b = sub(c.args[0]), sub(c.args[1])
                if a is None or b is None:
                    return None
                if c.op == 'fadd':
                    r = [a[0] + b[0], a[1] + b[1]]
                elif c.op == 'fsub':
                    r = [a[0] - b[1], a[1] - b[0]]
                elif c.op == 'fmul':
                    r = [x * y for x in a for y in b]
                else:
                    if b[0] <= 0 <= b[1]:
                        return None
                    r = [x / y for x in a for y in b]
                return dn(min(r)), up(max(r))
            if c.op == 'pow':
                a, b = sub(c.args[0]), sub(c.args[1])
                if a is None or b is None or a[0] <= 0:
                    return None
                r = [x ** y for x in a for y in b]
                return dn(min(r)), up(max(r))
            if c.op in ('exp', 'exp2'):
                a = sub(c.args[0])
                g = math.exp if c.op == 'exp' else lambda t: 2.0 ** t
                return None if a is None else (dn(g(a[0])), up(g(a[1])))
            if c.op in ('log', 'log2', 'log10', 'sqrt', 'cbrt'):
                a = sub(c.args[0])
                if a is None or a[0] <= 0:
                    return None
                g = {'log': math.log, 'log2': math.log2, 'log10': math.log10, 'sqrt': math.sqrt, 'cbrt': lambda t: t ** (1 / 3)}[c.op]
                return dn(g(a[0])), up(g(a[1]))
            if c.op in ('ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint'):
                a = sub(c.args[0])
                return None if a is None else (a[0] - 1, a[1] + 1)
            if c.op == 'fabs':
                a = sub(c.args[0])
                return None if a is None else (0.0, max(abs(a[0]), abs(a[1])))
        except (OverflowError, ValueError, ZeroDivisionError, AttributeError, TypeError):
            return None
        return None

    # -------- memory
    def cells(self, base):
        if isinstance(base, int):
            return self.objs[base].cells
        if base not in self.gmem:
            size, cells, const = self.mod.globals[base]
            self.gmem[base] = {off: (ty, None if v is None else v) for off, ty, v in cells}
            for off, (ty, v) in list(self.gmem[base].items()):
                self.gmem[base][off] = (ty, self.op({}, v))
        return self.gmem[base]

    def size(self, base):
        return self.objs[base].size if isinstance(base, int) else self.mod.globals[base][0]

    def bounds(self, p, n, what):
        size = self.size(p.base)
        nm = 'local object' if isinstance(p.base, int) else 'table ' + p.base
        if isinstance(p.off, int):
            if p.off < 0 or p.off + n > size:
                raise Trap('%s outside %s (offset %d, size %d)' % (what, nm, p.off, size))
        elif self.trapmode:
            if self.decide(z3.Not(z3.And(p.off >= 0, p.off <= size - n))):
                raise Trap('%s outside %s (size %d)' % (what, nm, size))

    def load(self, ty, p):
        if not isinstance(p, Val):
            raise Unsupported('load')
        if not isinstance(p.base, int) and p.base not in self.mod.globals:
            raise Unsupported('external object ' + str(p.base))
        n = ir.size_of(ty) if ty != 'f80' else 10
        self.bounds(p, n, 'read')
        self.hook_load(p)
        cells = self.cells(p.base)
        if isinstance(p.off, int):
            c = cells.get(p.off)
            if c is None:
                for k in cells:
                    if isinstance(k, tuple) and k[1] <= p.off < k[1] + cells[k][0]:
                        return fconst(ty, 0) if ty in W else 0
                if not isinstance(p.base, int):
                    return fconst(ty, 0) if ty in W else 0
                raise Unsupported('uninitialised load')
            if c[0] != ty:
                if c[0] in W and ty == 'i%d' % W[c[0]]:
                    return self.cast('bitcast', c[0], ty, c[1])
                d = cells.get(p.off + 4)
                if ty == 'i64' and c[0] == 'f32' and d is not None and d[0] == 'f32':
                    return Pair((c[1], d[1]))
                raise Unsupported('load %s of %s' % (ty, c[0]))
            return c[1]
        return self.symload(ty, p, cells)

    def symload(self, ty, p, cells):
        """symbolic index into a table: case split over the feasible entries"""
        if getattr(self, 'havoc_tables', False):
            k = ZKey(p.off)
            if ty in W:
                return F(0, U.core('tbl', ty, (p.base, k)))
            return z3.BitVec('tbl!%s!%d' % (p.base, k.e.get_id()), width(ty))
        offs = sorted(k for k in cells if isinstance(k, int) and cells[k][0] == ty)
        for off in offs:
            if self.decide(p.off == off):
                return cells[off][1]
        raise PathEnd()

    def hook_load(self, p):
        pass

    def hook_impure(self, name):
        pass

    def wr(self, p):
        if not isinstance(p.base, int):
            if self.mod.globals[p.base][2] if p.base in self.mod.globals else True:
                raise Trap('write to constant object %s' % p.base)
            self.hook_gwrite(p)

    def hook_gwrite(self, p):
        pass

    def store(self, ty, v, p):
        if not isinstance(p, Val):
            raise Unsupported('store')
        n = ir.size_of(ty) if ty != 'f80' else 10
        self.wr(p)
        self.bounds(p, n, 'write')
        c = self.cells(p.base)
        if not isinstance(p.off, int):
            offs = sorted({k for k in c if isinstance(k, int)} | {k for k in range(0, self.size(p.base), ir.size_of(ty))})
            for off in offs:
                if self.decide(p.off == off):
                    p = Val(p.base, off)
                    break
            else:
                raise PathEnd()
        for k in [k for k in c if isinstance(k, tuple)]:      # a zero-filled range loses this cell's bytes only
            pass
        if isinstance(v, Pair):     # a complex<float> copied as one 64-bit word
            c[p.off], c[p.off + 4] = ('f32', v[0]), ('f32', v[1])
            return
        c[p.off] = (ty, v)

    # -------- calls
    def docall(self, i, args):
        name = i[1]
        f = self.mod.funcs.get(name)
        if f is not None and name in self.probe and self.stack:
            self.hook_probe(name, f, args)
            if self.probes > 0 and self.decide(z3.Bool('probe!%d' % self.nprobe())):
                r = self.call(name, args)
                self.probed = True
                self.st.paths += 1
                raise PathEnd()
            self.notinlined += 1
            return self.havoc(name, i[3], args)
        if f is not None and name not in self.stop:
            lim = self.recursion.get(name)
            if lim is None or sum(1 for s in self.stack if s == name) < lim:
                return self.call(name, args)
        return self.external(name, i[3], args)

    def hook_probe(self, name, f, args):
        pass

    def nprobe(self):
        self.npr += 1
        return self.npr

    def havoc(self, name, rts, args):
        """any result of the right type, the same for the same arguments"""
        for a in args:
            if isinstance(a, Val) and a.base not in self.mod.globals and self.objs[a.base].kind == 'local':
                c = self.cells(a.base)      # objects it may have written
                for k in list(c):
                    if isinstance(k, int) and c[k][0] in W:
                        c[k] = (c[k][0], F(0, U.core('havoc', c[k][0], (name, self.nprobe(), k))))
        flat = [a for a in args if not isinstance(a, Val)]
        out = []
        for k, r in enumerate(rts):
            if r in W:
                out.append(self.uf('%s.%d' % (name, k), r, flat) if len(flat) == len(args) else F(0, U.core('havoc', r, (name, self.nprobe(), k))))
            elif r.startswith('i'):
                out.append(z3.BitVec('havoc!%s!%d!%d' % (name, k, self.nprobe()), width(r)))
            else:
                raise Unsupported('call ' + name)
        return out

    def external(self, name, rts, args):
        if name.startswith('llvm.'):
            n = name[5:]
            if n.startswith(('lifetime', 'assume', 'experimental.noalias', 'dbg', 'invariant', 'donothing')):
                return []
            if n.startswith(('ubsantrap', 'trap')):
                raise Trap('undefined behaviour check failed in %s' % self.stack[-1])
            if n.startswith('fabs'):
                return [self.fabs(args[0])]
            if n.startswith('copysign'):
                return [self.copysign(args[0], args[1])]
            if '.with.overflow' in n:
                return self.overflow(n, args)
            if n.startswith(('smax', 'smin', 'umax', 'umin')):
                w = int(n.split('.i')[1])
                p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[n[:4]]
                return [args[0] if self.decide(self.b(self.icmp(p, 'i%d' % w, args[0], args[1]))) else args[1]]
            if n.startswith('abs.i'):
                w = int(n.split('.i')[1])
                return [self.binop('sub', 'i%d' % w, 0, args[0]) if self.decide(self.b(self.icmp('slt', 'i%d' % w, args[0], 0))) else args[0]]
            if n.startswith('fmuladd') or n.startswith('fma'):
                return [arith('fadd', args[0].ty, arith('fmul', args[0].ty, args[0], args[1]), args[2])] if n.startswith('fmuladd') else [self.uf('fma', args[0].ty, args)]
            if n.startswith('threadlocal.address'):
                return [args[0]]
            name = n.split('.')[0]
        self.st.ext.add(name)
        if name == '__cxa_guard_acquire':       # initialisation of a local static: once
            self.hook_impure(name)
            return [int(self.gflag.setdefault(args[0].base, 0) == 0)]
        if name == '__cxa_guard_release':
            self.gflag[args[0].base] = 1
            return []
        if name in ('__cxa_atexit', 'feclearexcept', 'feraiseexcept'):
            return [0] if rts else []
        b = name[10:] if name.startswith('__builtin_') else name
        if name not in self.mod.funcs and b not in PURE and not (b[-1:] in 'fl' and b[:-1] in PURE):
            self.hook_impure(name)
        # by-pointer complex arguments (x87 complex is passed in memory)
        flat = []
        for a in args:
            if isinstance(a, Val):
                c = self.cells(a.base)
                ks = sorted(k for k in c if isinstance(k, int) and k >= a.off and c[k][0] in W)[:2]
                flat += [c[k][1] for k in ks]
            else:
                flat.append(a)
        return self.libcall(name, rts, flat)

    def fabs(self, v):
        if v.const():
            return F(0, v.c)
        if v.c.op in ('fabs', 'hypot', 'sqrt', 'exp', 'exp2', 'cabs'):
            return F(0, v.c)
        return F(0, U.core('fabs', v.ty, ((0, v.c.id),)))

    def copysign(self, a, b):
        w = W[a.ty]
        if b.const():
            s = b.neg
        else:
            s = int(self.decide(z3.Extract(w - 1, w - 1, self.z(b)) == 1))
        m = self.fabs(a)
        return F(s, m.c)

    def overflow(self, n, args):
        w = int(n.split('.i')[1])
        op = n[1:4]
        if all(isinstance(a, int) for a in args):
            a, b = (sx(v, w) if n[0] == 's' else v for v in args)
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            ok = -(1 << (w - 1)) <= r < 1 << (w - 1) if n[0] == 's' else 0 <= r < 1 << w
            return [r & ((1 << w) - 1), int(not ok)]
        x, y = (self.bv(a, w) for a in args)
        e = 2 * w if op == 'mul' else w + 1
        ext = (lambda v: z3.SignExt(e - w, v)) if n[0] == 's' else (lambda v: z3.ZeroExt(e - w, v))
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        full = {'add': ext(x) + ext(y), 'sub': ext(x) - ext(y), 'mul': ext(x) * ext(y)}[op]
        r = z3.simplify(r)
        o = z3.simplify(ext(r) != full)
        return [r.as_long() if z3.is_bv_value(r) else r, 1 if z3.is_true(o) else 0 if z3.is_false(o) else o]

    def uf(self, name, ty, args):
        ks = []
        for a in args:
            if isinstance(a, F):
                ks.append(a.key())
            elif isinstance(a, int):
                ks.append(a)
            else:
                ks.append(ZKey(a if not isinstance(a, Val) else z3.BitVecVal(0, 1)))
        return F(0, U.core(name, ty, tuple(ks)))

    ODD = {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt', 'trunc', 'round', 'rint', 'nearbyint'}
    EVEN = {'cos', 'cosh'}

    def libcall(self, name, rts, a):
        base = name
        if base.startswith('__builtin_'):
            base = base[10:]
        ty = rts[0] if rts else None
        if base not in ('log1p', 'erf', 'tgamma') and base.endswith(('f', 'l')) and ty in ('f32', 'f80') and not base.startswith('__') and base not in ('ceil',):
            base = base[:-1]
        elif base in ('log1pf', 'log1pl'):
            base = 'log1p'
        nf = len([r for r in rts if r in W])
        if nf != len(rts) or not rts:
            raise Unsupported('call ' + name)
        if base in ('__muldc3', '__mulsc3', '__mulxc3'):
            self.st.axioms.add('complex multiplication fallback = (ac-bd, ad+bc)')
            x, y, u, v = a
            return [arith('fsub', ty, arith('fmul', ty, x, u), arith('fmul', ty, y, v)),
                    arith('fadd', ty, arith('fmul', ty, x, v), arith('fmul', ty, y, u))]
        if base in ('__divdc3', '__divsc3', '__divxc3', '__cdivf64', '__cdivf32', '__cdivf80'):
            self.st.axioms.add('complex division is conjugation symmetric and odd in either operand')
            x, y, u, v = a
            if all(t.const() for t in a):
                r = self.cdiv_const(ty, a)
                if r:
                    return r
            if all(t.const() and t.c.args[0] == 0 for t in (y, v)):
                return [arith('fdiv', ty, x, u), fconst(ty, 0)]      # real numbers: the imaginary part is a zero
            # canonical signs; a constant zero counts as +0
            x, y, u, v = (fconst(ty, 0) if t.const() and t.c.args[0] == 0 else t for t in (x, y, u, v))
            sr = si = 0
            lead = x if not (x.const() and x.c.args[0] == 0) else y
            if lead.neg:
                x, y, sr, si = neg(x), neg(y), sr ^ 1, si ^ 1
            lead = u if not (u.const() and u.c.args[0] == 0) else v
            if lead.neg:
                u, v, sr, si = neg(u), neg(v), sr ^ 1, si ^ 1
            lead = v if not v.const() else y
            if lead.neg:
                y, v, si = neg(y), neg(v), si ^ 1
            x, y, u, v = (fconst(ty, 0) if t.const() and t.c.args[0] == 0 else t for t in (x, y, u, v))
            r = self.uf('cdiv.re', ty, (x, y, u, v))
            q = self.uf('cdiv.im', ty, (x, y, u, v))
            return [F(r.neg ^ sr, r.c), F(q.neg ^ si, q.c)]
        if base == 'cabs':
            base = 'hypot'
        if base in ('carg',):
            base = 'atan2'
            a = [a[1], a[0]]
        if len(rts) == 1 and all(isinstance(t, F) for t in a):
            if any(isnanc(t) for t in a) and base not in ('hypot', 'cabs', 'pow', 'fmax', 'fmin'):
                return [fconst(ty, NAN[ty])]
            r = libm_const(base + 'f' if ty == 'f32' else base, ty, a) if base not in ('cabs',) else None
            if r is not None:
                return [r]
            if base in self.ODD:
                self.st.axioms.add('odd libm functions')
                r = self.uf(base, ty, [F(0, a[0].c)])
                return [F(a[0].neg, r.c)]
            if base in self.EVEN:
                self.st.axioms.add('even libm functions')
                return [self.uf(base, ty, [F(0, a[0].c)])]
            if base in ('hypot', 'cabs'):
                self.st.axioms.add('hypot is even in both arguments, hypot(x, 0) = |x|')
                for p, q in ((a[0], a[1]), (a[1], a[0])):
                    if p.const() and p.c.args[0] == 0:
                        return [self.fabs(q)]
                return [self.uf('hypot', ty, sorted([F(0, t.c) for t in a], key=lambda t: t.c.id))]
            if base == 'pow' and a[1].const() and frac(a[1])[1] == 'fin' and frac(a[1])[2].denominator == 1 and not a[0].const():
                self.st.axioms.add('pow(-x, n) = (-1)^n pow(x, n) for integers n')
                r = self.uf(base, ty, [F(0, a[0].c), a[1]])
                return [F(a[0].neg if frac(a[1])[2].numerator % 2 else 0, r.c)]
            if base == 'atan2':
                self.st.axioms.add('atan2 is odd in its first argument, atan2(+-0, x) = +-0 (x positive) or +-pi (x negative)')
                if self.nonan and a[0].const() and a[0].c.args[0] == 0 and not a[1].const():
                    w = W[ty]
                    if self.decide(z3.Extract(w - 1, w - 1, self.z(a[1])) == 1):
                        b = self.libcall({'f32': 'atan2f', 'f64': 'atan2', 'f80': 'atan2l'}[ty], rts, [a[0], fnum(ty, -1.0)])
                        return b
                    return [a[0]]
                r = self.uf(base, ty, [F(0, a[0].c), a[1]])
                return [F(a[0].neg, r.c)]
            if base in ('fmod', 'remainder'):
                self.st.axioms.add('fmod is odd in its first and even in its second argument')
                r = self.uf(base, ty, [F(0, a[0].c), F(0, a[1].c)])
                return [F(a[0].neg, r.c)]
            return [self.uf(base, ty, a)]
        if len(rts) == 2 and all(isinstance(t, F) for t in a) and base in ('clog', 'csqrt', 'cexp', 'csin', 'ccos', 'cpow', 'catan', 'clog1p', 'cpowi'):
            self.st.axioms.add('complex libm functions are conjugation symmetric')
            if base == 'clog' and all(t.const() for t in a):
                h = self.libcall('hypot', rts[:1], a)[0]
                return [self.libcall('log', rts[:1], [h])[0], self.libcall('atan2', rts[:1], [a[1], a[0]])[0]]
            im = [t for k, t in enumerate(a) if k % 2 == 1]
            lead = next((t for t in im if not t.const()), im[0])
            s = lead.neg
            if s:
                a = [neg(t) if k % 2 == 1 else t for k, t in enumerate(a)]
            r, q = self.uf(base + '.re', ty, a), self.uf(base + '.im', ty, a)
            q = F(q.neg ^ s, q.c)
            if base == 'clog' and self.nonan and a[1].const() and a[1].c.args[0] == 0 and not a[0].const():
                q = self.libcall({'f32': 'atan2f', 'f64': 'atan2', 'f80': 'atan2l'}[ty], rts[:1], [neg(a[1]) if s else a[1], a[0]])[0]
            return [r, q]
        # a function of this library that is not inlined, or an unknown pure function
        return self.ufcall(name, rts, a)

    def ufcall(self, name, rts, a):
        sym = getattr(self, 'conj_funcs', {}).get(name)
        s = 0
        if sym is not None and len(rts) == 2:
            fl = [k for k, t in enumerate(a) if isinstance(t, F)]
            lead = a[fl[-1]]
            if not lead.const() and lead.neg:
                a = list(a)
                a[fl[-1]] = neg(lead)
                s = 1
        out = []
        for k, r in enumerate(rts):
            if r not in W:
                raise Unsupported('call ' + name)
            v = self.uf('%s.%d' % (name, k), r, a)
            if sym is not None and k == 1 and s:
                v = neg(v)
            out.append(v)
        return out

    def cdiv_const(self, ty, a):
        q = [frac(t) for t in a]
        if any(k != 'fin' for _, k, _ in q):
            return None
        x, y, u, v = (t[2] for t in q)
        d = u * u + v * v
        if d == 0:
            return None
        return [from_frac(ty, (x * u + y * v) / d), from_frac(ty, (y * u - x * v) / d)]


class StepLimit(Exception):
    pass


class ZKey:
    """hashable wrapper of a z3 expression"""
    __slots__ = ('e', 'h')

    def __init__(self, e):
        self.e = e
        self.h = e.hash()

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, ZKey) and self.e.eq(o.e)

    def __repr__(self):
        return 'z'


def finput(name, ty):
    return F(0, U.core('in', ty, (name,)))


def entry(ex, func, vals, ty, cx, hasn=None, arginfo=None):
    """call a public function following its ABI; vals = (x,) or (x, y).
    Returns (results, argument cell values after the call or None)"""
    f = ex.mod.funcs[func]
    sz = {'f32': 4, 'f64': 8, 'f80': 16}[ty]
    args, outobj, inobj = [], None, None
    pt = [t for _, t in f.params]
    p = 0
    nptr = pt.count('ptr')
    if hasn is not None and pt[p].startswith('i'):
        args.append(hasn)
        p += 1
    if nptr == 2 and cx:
        outobj = ex.newobj(2 * sz)
        args.append(outobj)
        p += 1
        if hasn is not None and p < len(pt) and pt[p].startswith('i'):
            args.append(hasn)
            p += 1
    if p < len(pt) and pt[p] == 'ptr':
        inobj = ex.newobj(sz * len(vals), 'arg')
        for k, v in enumerate(vals):
            ex.objs[inobj.base].cells[k * sz] = (ty, v)
        args.append(inobj)
    else:
        args += list(vals)
    r = ex.call(func, args)
    if outobj is not None:
        c = ex.objs[outobj.base].cells
        r = [c[0][1], c[sz][1]]
    after = None
    if inobj is not None:
        c = ex.objs[inobj.base].cells
        after = [c[k * sz][1] for k in range(len(vals))]
    return r, after


def model_bits(model, v):
    """concrete bits of an input under a model"""
    if v.const():
        return v.bits()
    if v.c.z is None:
        return 0
    e = model.eval(v.c.z, model_completion=True)
    b = e.as_long()
    return b ^ (v.neg << (W[v.ty] - 1))
