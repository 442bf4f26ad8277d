"""Common, scalarised SSA intermediate representation shared by the front ends
(LLVM IR for C/C++, GIMPLE for Fortran) and the two symbolic back ends.

operand:  ('r', reg) | ('f', ty, bits) | ('i', width, value) | ('g', global, off)
          | ('u', ty)   (undef/poison)
types:    'f32' 'f64' 'f80' 'i<N>' 'ptr'
instr:    tuple, first element the opcode:
  ('bin', op, ty, dst, a, b)          fadd fsub fmul fdiv frem / add sub mul sdiv srem udiv urem and or xor shl lshr ashr
  ('fneg', ty, dst, a)
  ('fcmp', pred, ty, dst, a, b)  ('icmp', pred, ty, dst, a, b)
  ('cast', op, ty_from, ty_to, dst, a)
  ('select', ty, dst, cond, a, b)
  ('phi', ty, dst, [(operand, pred_label)...])
  ('br', label) ('cbr', cond, l_true, l_false) ('switch', ty, op, default, [(value, label)])
  ('ret', [operands]) ('unreachable',)
  ('call', callee, [dst...], [ret types], [args], [arg types])
  ('alloca', dst, size) ('load', ty, dst, ptr) ('store', ty, val, ptr)
  ('gep', dst, base, const_off, [(operand, width, scale)...])
  ('memcpy', d, s, n) ('memset', d, byte, n)
"""

SIZE = {'f32': 4, 'f64': 8, 'f80': 16, 'ptr': 8}


def size_of(ty):
    if ty in SIZE:
        return SIZE[ty]
    if ty[0] == 'i':
        return max(1, (int(ty[1:]) + 7) // 8)
    raise ValueError(ty)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []        # [(reg, ty)]
        self.byval = {}         # param index -> size
        self.rets = []          # types
        self.blocks = {}        # label -> [instr]
        self.order = []
        self.entry = None
        self.src = ''
        self.internal = False


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}       # name -> (size, [(off, ty, operand)], const?)

    def link(self, other, tag):
        """add another translation unit; its private symbols are renamed"""
        gm = {g: tag + '::' + g for g in other.globals}
        fm = {k: tag + '::' + k for k, f in other.funcs.items() if f.internal}

        def ren(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'g' and x[1] in gm:
                    return ('g', gm[x[1]], x[2])
                return tuple(ren(y) for y in x)
            if isinstance(x, list):
                return [ren(y) for y in x]
            return x
        for k, f in other.funcs.items():
            for l in f.blocks:
                f.blocks[l] = [ren(i) for i in f.blocks[l]]
                f.blocks[l] = [('call', fm.get(i[1], i[1])) + i[2:] if i[0] == 'call' else i for i in f.blocks[l]]
            f.name = fm.get(k, k)
            f.unit = tag
            self.funcs.setdefault(f.name, f)
        for g, d in other.globals.items():
            self.globals[gm[g]] = (d[0], ren(d[1]), d[2])


# ---- floating point constants -------------------------------------------
import struct
from fractions import Fraction


def f_bits_from_fraction(ty, q):
    """round-to-nearest-even of an exact rational into bits of ty"""
    p, emin, emax, bias = {'f32': (24, -126, 127, 127), 'f64': (53, -1022, 1023, 1023),
                           'f80': (64, -16382, 16383, 16383)}[ty]
    s = 0
    if q < 0:
        s, q = 1, -q
    if q == 0:
        return pack_bits(ty, s, 0, 0)
    # find e with 2^e <= q < 2^(e+1)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    e = max(e, emin)
    ulp = Fraction(2) ** (e - p + 1)
    m = q / ulp
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << p:
        n >>= 1
        e += 1
    if e > emax:
        return pack_bits(ty, s, 2 * bias + 1, 1 << (p - 1))
    if n < 1 << (p - 1):
        return pack_bits(ty, s, 0, n)
    return pack_bits(ty, s, e + bias, n)


def pack_bits(ty, s, be, mant):
    if ty == 'f32':
        return s << 31 | be << 23 | (mant & ((1 << 23) - 1))
    if ty == 'f64':
        return s << 63 | be << 52 | (mant & ((1 << 52) - 1))
    return s << 79 | be << 64 | mant


def f_unpack(ty, bits):
    """(sign, kind, Fraction) with kind in 'fin','inf','nan'"""
    if ty == 'f80':
        s, be, m = bits >> 79, (bits >> 64) & 0x7fff, bits & ((1 << 64) - 1)
        if be == 0x7fff:
            return s, ('inf' if (m << 1) & ((1 << 64) - 1) == 0 else 'nan'), None
        return s, 'fin', (-1) ** s * Fraction(m) * Fraction(2) ** (max(be, 1) - 16383 - 63)
    w, p, bias = (32, 24, 127) if ty == 'f32' else (64, 53, 1023)
    s = bits >> (w - 1)
    be = (bits >> (p - 1)) & ((1 << (w - p)) - 1)
    m = bits & ((1 << (p - 1)) - 1)
    if be == (1 << (w - p)) - 1:
        return s, ('inf' if m == 0 else 'nan'), None
    if be:
        m |= 1 << (p - 1)
    return s, 'fin', (-1) ** s * Fraction(m) * Fraction(2) ** (max(be, 1) - bias - p + 1)


def f_from_float(ty, x):
    if ty == 'f64':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if ty == 'f32':
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if x != x:
        return 0x7fff << 64 | 3 << 62
    if x in (float('inf'), float('-inf')):
        return (1 << 79 if x < 0 else 0) | 0x7fff << 64 | 1 << 63
    b = f_bits_from_fraction('f80', Fraction(x))
    if x == 0 and str(x)[0] == '-':
        b = 1 << 79
    return b


def F(ty, x):
    return ('f', ty, f_from_float(ty, x))
