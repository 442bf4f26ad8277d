#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ACC = ('Taylor models with rounding-error terms over the compiled code, each leaf bound decided by z3 (linear real arithmetic over monomials)',
       'model_checking',
       'Exhaustive over the stated argument ranges within the error model: every box is discharged by z3 or listed as undischarged in the evidence. '
       'Trusts: front end (validated on random points against the real build), the floating-point and libm error model, the mpmath-free reference series in ref.hpp. '
       'A counterexample is re-evaluated with an independent mpmath oracle on the real gcc -O2 build before it is reported.')
SYM = ('path-wise symbolic execution of the compiled code; z3 (bit vectors for control, integers and signs, uninterpreted floating-point arithmetic with sign laws) decides every path and assertion',
       'model_checking')
LEVEL = {
    'C07': 'All 2^64 orders for zeta, neg_eta, inv_fac (table contents compared exactly); harmonic by case split. Trusts the front end, the libm contracts listed in the evidence.',
    'C11': 'All doubles (no NaN/inf restriction beyond the stated one), orders as listed in the evidence. Arithmetic is uninterpreted modulo exact IEEE sign symmetry; a difference is replayed natively before it is reported.',
    'C12': 'All finite z for the fixed-order functions; listed orders for Li(n,z). Arithmetic is uninterpreted modulo exact IEEE sign symmetry and conjugation symmetry of libm; replayed natively before it is reported.',
    'C13': 'Symbolic 64-bit order at the special arguments; fixed-order values at 0, 1, -1 by Taylor models on point boxes.',
    'C14': ACC[2],
    'C15': 'All z / x for the listed orders (identical terms) and accuracy boxes for n = -1, 0, 1.',
    'C16': 'Every path within the loop unrolling stated in the evidence; a suspected trap is reported only if it is reproduced natively under ASan/UBSan.',
    'C17': 'Every path within the loop unrolling stated in the evidence; a suspected write is reported only if it is reproduced natively.',
    'C18': 'Step bounds over all paths for the fixed-order functions; listed huge orders for the general ones; a suspected hang is reported only if it is reproduced natively.',
}
CLAIM = [l.strip() for l in open(os.path.join(HERE, 'claimed.txt')) if l.strip()]
checks, na = [], []
for p in (json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))):
    i = p['id']
    if i not in CLAIM:
        na.append({'property': i, 'reason': 'check under construction in this revision'})
        continue
    tech, lvl, note = ACC if i not in LEVEL else SYM + (LEVEL[i],)
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'technique': tech, 'level': lvl, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, mpmath, numpy" && g++ --version >/dev/null && clang++ --version >/dev/null && gfortran --version >/dev/null',
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check regenerates LLVM IR (C, C++) and GIMPLE (Fortran) from /repo, compiles its engine and a replay library, and works in a scratch directory of its own.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
