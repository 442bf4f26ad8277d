"""check.py --replay FILE: run a recorded counterexample on a fresh build of the real sources and print what it returns."""
import json
import os
import numpy as np
import common
import oracle
from sxc import from_bits, npt, LET


def value(s, T):
    """'0x..p..' , 'f64:hex', plain hex bits or a decimal"""
    ty = {np.float32: 'f32', np.float64: 'f64', np.longdouble: 'f80'}[T]
    if ':' in s:
        return T(from_bits(s.split(':')[0], int(s.split(':')[1], 16)))
    if 'p' in s and 'x' in s:
        import mpmath as mp
        f = T(mp.nstr(oracle.hexf(s), 40))
        return -f if s.startswith('-') and f == 0 and not np.signbit(f) else f
    return T(from_bits(ty, int(s, 16)))


def main(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1))
    sym = d.get('replay_symbol') or d.get('general') or d.get('symbol')
    ctx = common.Ctx('replay', 'quick')
    try:
        nat = common.Native(ctx.lib())
        sym = {v: k for k, v in wrappers().items()}.get(sym, sym)
        ty = d.get('type') or {'d': 'f64', 'f': 'f32', 'l': 'f80'}.get((sym or 'd')[-1], 'f64')
        T = npt(ty)
        if sym is None:
            print('nothing to call: see the description above')
            return 0
        if sym.endswith('_i'):
            from prop_c13 import int_call
            print(sym, d['order'], '->', repr(int_call(nat, sym, d['order'])))
            return 0
        a = [value(s, T) for s in (d.get('bits') or ([t for t in (d['x'], d.get('y')) if t is not None] if 'x' in d else d['args']))]
        if 'no answer' in str(d.get('native')):
            print('recorded as an endless call: not repeated')
            return 0
        r = nat.call(sym, LET[ty], np.array([a], dtype=T), d.get('order') if d.get('generic', sym.split('_')[1] in ('Li', 'Cl', 'Sl')) else None)[0]
        print(sym, d.get('order'), [repr(t) for t in a], '->', [repr(t) for t in r])
        return 0
    finally:
        ctx.close()


def wrappers():
    """replay wrapper -> symbol of the library"""
    from acc import Job
    from sxc import fixed_cplx, fixed_real, fixed_cl, generic
    js = fixed_cplx() + fixed_real() + fixed_cl() + [Job('cpp', 'Li', 7, 'f64', 'cplx', generic=True)] + generic('Cl', [7]) + generic('Sl', [7])
    return {j.replay: j.func for j in js}
