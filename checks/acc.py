"""Accuracy properties: every job hands one public function and a cover of its
domain to the Taylor-model / z3 engine (engine/tmx.cpp)."""
import json
import os
import re
import subprocess
import time
import mpmath as mp
import oracle
from common import Native, SEED, demangle_map

TOL = {('li', 'f32'): '5e-6', ('li', 'f64'): '1e-13', ('li', 'f80'): '1e-16',
       ('cl', 'f64'): '1e-13', ('cl', 'f80'): '1e-15', ('sl', 'f64'): '1e-13'}
LET = {'f32': 'f', 'f64': 'd', 'f80': 'l'}
DOM = {'f32': ('2^-100', 'e^88.7'), 'f64': ('2^-996', 'e^709.78'), 'f80': ('2^-996', 'e^11356')}


def mang(lang, fam, n, ty, cx):
    t = LET[ty]
    if lang == 'cpp':
        m = '_ZN13polylogarithm3%s%dE' % (fam, n)
        e = {'f': 'f', 'd': 'd', 'l': 'e'}[t]
        return m + ('RKSt7complexI%sE' % e if cx else e)
    if lang == 'c':
        return ('c' if cx else '') + fam.lower() + str(n) + {'f': 'f', 'd': '', 'l': 'l'}[t]
    return ('cd' if cx else 'd') + fam.lower() + str(n)


class Job:
    def __init__(self, lang, fam, n, ty, cover, extra=(), generic=False, budget=60, cond=0, tag=''):
        self.lang, self.fam, self.n, self.ty, self.cover = lang, fam, n, ty, cover
        self.extra, self.generic, self.budget, self.cond, self.tag = list(extra), generic, budget, cond, tag
        self.kind = fam.lower()
        self.cx = cover in ('cplx', 'crow')
        if generic:
            self.func = {'li': '_ZN13polylogarithm2LiElRKSt7complexIdE', 'cl': '_ZN13polylogarithm2ClEld',
                         'sl': '_ZN13polylogarithm2SlEld', 'harm': '_ZN13polylogarithm8harmonicEl'}[self.kind]
            self.replay = {'li': 'cpp_Li_cd', 'cl': 'cpp_Cl_d', 'sl': 'cpp_Sl_d', 'harm': 'cpp_harmonic_i'}[self.kind]
        else:
            self.func = mang(lang, fam, n, ty, self.cx)
            pre = {'cpp': 'cpp_', 'c': 'c_', 'fortran': 'f_'}[lang]
            self.replay = pre + fam + str(n) + '_' + ('c' if self.cx else '') + LET[ty]
        self.tol = TOL.get((self.kind, ty), '1e-14')

    def name(self):
        return '%s:%s%s(%s)%s/%s%s' % (self.lang, self.fam, '(%d,.)' % self.n if self.generic else self.n,
                                       'complex ' * self.cx + {'f32': 'float', 'f64': 'double', 'f80': 'long double'}[self.ty],
                                       '', self.cover, self.tag)

    def args(self, ctx):
        a = [ctx.engine(), ctx.tir(self.lang), ctx.lib(), 'func=' + self.func, 'replay=' + self.replay, 'ty=' + self.ty,
             'cplx=%d' % self.cx, 'n=%d' % self.n, 'kind=' + self.kind, 'tol=' + self.tol, 'hasn=%d' % self.generic,
             'cond=%d' % self.cond]
        return a + self.extra


def tmx(args, timeout):
    try:
        p = subprocess.run(args, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    try:
        return json.loads(p.stdout), p.stderr[-300:]
    except ValueError:
        return None, 'rc %s: %s' % (p.returncode, p.stderr[-300:])


def confirm(job, nat, v):
    """independent evaluation of a counterexample on the real build; None if it does not fail"""
    np = nat.np
    x, y = oracle.hexf(v['xa']), oracle.hexf(v['ya'])
    T = nat.T[LET[job.ty]]

    def tof(s):
        t = mp.nstr(oracle.hexf(s), 40)
        f = T(t)
        return -f if s.startswith('-') and f == 0 and not np.signbit(f) else f
    row = [tof(v['xa']), tof(v['ya'])] if job.cx else [tof(v['xa'])]
    out = nat.call(job.replay, LET[job.ty], np.array([row], dtype=T), job.n if job.generic else None)[0]
    if job.kind == 'li':
        t = oracle.li(job.n, x, y)
        tr, ti = t.real, t.imag
        if (y == 0 and x <= 1) or not job.cx:
            ti = mp.mpf(0)
    else:
        tr, ti = oracle.clsl(job.kind, job.n, x), mp.mpf(0)
    got = [str(o) for o in out]
    ax = mp.hypot(x, y)
    if mp.isinf(tr):
        return None
    sc = max(mp.hypot(tr, ti), min(mp.mpf(1), ax)) * oracle.condfac(job.kind, job.cond, job.n, x, y) * mp.mpf(job.tol)
    bad = any(g != g or abs(float(g)) == float('inf') for g in out)
    err = max(abs(mp.mpf(str(g)) - t) for g, t in zip(out, (tr, ti))) if not bad else mp.inf
    if not err > sc:
        return None
    return {'function': job.name(), 'symbol': job.func, 'replay_symbol': job.replay, 'type': job.ty, 'generic': job.generic, 'order': job.n, 'x': v['xa'], 'y': v['ya'] if job.cx else None,
            'x_dec': v['x'], 'y_dec': v['y'] if job.cx else None, 'got': got, 'want': [mp.nstr(tr, 25), mp.nstr(ti, 25)][:1 + job.cx],
            'error': mp.nstr(err, 6), 'allowed': mp.nstr(sc, 6), 'engine': v.get('ratio')}


BOX = re.compile(r'chart (\d) sx (-?\d) sy (-?\d) \[([^,]+),([^\]]+)\]x\[([^,]+),([^\]]+)\]')


def probe(job, ctx, nat, incs, seed):
    """undischarged boxes: look for a concrete counterexample in them (an extra, it never counts as a discharge)"""
    out = []
    for s in incs[:40]:
        m = BOX.search(s)
        if not m:
            continue
        ch, sx, sy, a0, a1, b0, b1 = m.groups()
        p = job.args(ctx) + ['box=%s,%s,%s,%s,%s,%s,%s' % (ch, a0, a1, b0, b1, sx, sy), 'probe=200', 'seed=%d' % seed]
        d, _ = tmx(p, 60)
        if d:
            out += d.get('viol', [])
        if out:
            break
    return out


def run_jobs(ctx, jobs, total_budget=800, validate=60):
    nat = None
    ctx.prepare(sorted({j.lang for j in jobs}))
    nat = Native(ctx.lib())
    tot = dict(boxes=0, leaves=0, queries=0, excl=0, sat=0, splits=0, steps=0, z3_s=0.0, ninc=0, assumed=0, roots=0)
    fns, ext, rows, inconcl = set(), set(), [], []
    validated = mismatch = notrun = 0
    vs = []
    worst = 0
    for job in jobs:
        left = total_budget - ctx.wall()
        if left < 5:
            inconcl.append('%s: not run, time budget used up' % job.name())
            tot['ninc'] += 1
            continue
        bud = min(job.budget, left)
        d, err = tmx(job.args(ctx) + ['cover=' + job.cover, 'budget=%g' % bud, 'jobs=8'], bud + 120)
        if d is None:
            inconcl.append('%s: engine gave no answer (%s)' % (job.name(), err))
            tot['ninc'] += 1
            viol, inc = [], []
        else:
            W = d['workers']
            for w in W:
                if 'crash' in w:
                    inconcl.append('%s: worker ended (%s)' % (job.name(), w['crash']))
                    tot['ninc'] += 1
                for k in tot:
                    if k != 'roots':
                        tot[k] += w.get(k, 0)
                fns |= set(w.get('fns', []))
                ext |= set(w.get('ext', []))
            tot['roots'] += d['roots']
            inc = [i for w in W for i in w.get('inc', [])]
            viol = [i for w in W for i in w.get('viol', [])]
            leaves = sum(w.get('leaves', 0) for w in W)
            if leaves == 0:
                inconcl.append('%s: nothing was explored' % job.name())
                tot['ninc'] += 1
            jw = max([w.get('worst', 0) for w in W] + [0])
            worst = max(worst, jw if jw == jw and jw < 1e30 else 0)
            rows.append({'function': job.name(), 'order': job.n, 'tolerance': job.tol, 'extra': ' '.join(job.extra), 'root_boxes': d['roots'],
                         'paths_decided': leaves, 'queries': sum(w.get('queries', 0) for w in W),
                         'undischarged_boxes': sum(w.get('ninc', 0) for w in W),
                         'largest_bound_over_tolerance': jw, 'z3_s': round(sum(w.get('z3_s', 0) for w in W), 2), 'wall_s': d['wall']})
            for i in inc[:3]:
                inconcl.append('%s: %s' % (job.name(), i))
            ctx.log(job.name(), 'n=%d' % job.n, 'boxes', sum(w.get('boxes', 0) for w in W), 'undischarged', sum(w.get('ninc', 0) for w in W), 'viol', len(viol), 'wall', d['wall'])
        cand = list(viol)
        if not cand and inc:
            cand = probe(job, ctx, nat, inc, SEED)
        hit = 0
        for v in cand:
            c = confirm(job, nat, v)
            if c:
                ctx.violation(c)
                hit += 1
                if hit >= 2:
                    break
            else:
                inconcl.append('%s: engine counterexample not confirmed by the independent oracle: %s' % (job.name(), json.dumps(v)))
        if hit:
            break
        # translator validation: symbolic executor on concrete inputs against the real build
        d, err = tmx(job.args(ctx) + ['validate=%d' % validate, 'seed=%d' % SEED], 60)
        if d:
            validated += d['validated']
            mismatch += d['mismatch']
            notrun += d['not_run']
            if len(vs) < 4:
                vs.append({'function': job.name(), 'x_y_re_im': d['samples'][:1]})
    if mismatch:
        inconcl.append('translator validation: %d mismatching points' % mismatch)
    dm = demangle_map(sorted(fns))
    obligations = tot['boxes'] - tot['splits']
    ctx.assumptions += [
        'Every floating-point operation of the encoded code is modelled as the real operation with relative error at most 2^-24 / 2^-53 / 2^-64 (binary32 / binary64 / x87 extended); exact cases (Sterbenz subtraction, scaling by powers of two, integers) are recognised; underflow is covered by an absolute term.',
        'libm calls (' + ', '.join(sorted(ext)) + ') are modelled as the real function with an error of at most 16 unit roundoffs.',
        'The front end translates clang -O1 LLVM IR (C, C++) and gcc GIMPLE (Fortran) produced from the current tree; the translation is validated at %d random points per function against the real gcc -O2 build.' % validate,
        'A loop whose exit test cannot be decided on a box is assumed to leave within 300 undecided iterations (%d such assumptions in this run).' % tot['assumed'],
    ]
    cov = {'states': tot['leaves'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated,
           'samples': vs + rows[:3],
           'rule': 'a state is one path through the function over one box of inputs (Taylor model of the result), a transition one IR instruction executed symbolically',
           'obligations': obligations, 'discharged': obligations - tot['ninc'] - len(ctx.violations), 'queries': tot['queries'], 'solver_s': round(tot['z3_s'], 2),
           'solver': 'z3 (QF_LRA over the monomials of the box polynomial)', 'largest_bound_over_tolerance': worst,
           'boxes_excluded': tot['excl'], 'functions_encoded': [dm[f] for f in sorted(fns)], 'external_functions_modelled': sorted(ext),
           'bounds': [r['function'] + ' ' + r['extra'] for r in rows], 'per_function': rows, 'undischarged': inconcl[:40],
           'validation_mismatches': mismatch, 'validation_not_run': notrun}
    return cov
