"""Job lists of the accuracy properties."""
import math
from acc import Job, run_jobs


def fixed_li(lang, tys, orders=range(2, 7), cplx=True):
    out = []
    for n in orders:
        for ty in tys:
            if ty == 'f32' and n > 2:
                continue
            out.append(Job(lang, 'Li', n, ty, 'crow'))
            if cplx:
                out.append(Job(lang, 'Li', n, ty, 'cplx', budget=150))
    out.sort(key=lambda j: j.cover == 'cplx')
    return out


def real_li(lang, two):
    return [Job(lang, 'Li', 2, t, 'real') for t in two] + ([Job(lang, 'Li', n, 'f64', 'real') for n in (3, 4)] if 'f64' in two else [])


def clausen(lang, tys, orders):
    return [Job(lang, 'Cl', n, t, 'theta') for n in orders for t in tys if not (n == 1 and t != 'f64')]


CPLX = ['ymin=1e-9', 'd1min=1e-9', 'rmax=1e6', 'maxdepth=12']
CNEG = ['ymin=1e-6', 'd1min=1e-6', 'rmin=1e-4', 'rmax=4', 'maxdepth=12']


def gen_li_crow(orders, quick=False):
    out = []
    for n in orders:
        if n <= 1:
            ex = ['rmax=1e6']
            if n < -10:     # closer to z = 1 the value overflows
                ex.append('d1min=%.3g' % 10 ** max(-12, (math.lgamma(1 - n) / math.log(10) - 290) / (1 - n)))
            out.append(Job('cpp', 'Li', n, 'f64', 'crow', ex, True, cond=1 if n <= 0 else 0, budget=6 if quick and n < -1 else 60))
        else:
            out.append(Job('cpp', 'Li', n, 'f64', 'crow', ['rmax=%.4g' % 2.0 ** (n / 3)] if 200 <= n < 600 else ['rmax=1e60'] if n >= 600 else [], True, cond=2 if n > 60 else 0))
    return out


def gen_li_cplx(orders):
    out = []
    for n in orders:
        out.append(Job('cpp', 'Li', n, 'f64', 'cplx', CNEG if n < -1 else CPLX, True, cond=1 if n <= 0 else 0, budget=150))
    return out


def jobs(pid, tier):
    th = tier == 'thorough'
    if pid == 'C01':
        return real_li('cpp', ('f32', 'f64', 'f80'))
    if pid == 'C02':
        return clausen('cpp', ('f64', 'f80'), range(1, 7))
    if pid == 'C03':
        return fixed_li('cpp', ('f32', 'f64'))
    if pid == 'C04':
        return fixed_li('cpp', ('f80',))
    if pid == 'C05':
        huge = [200, 1000, 10 ** 6, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 10, 2 ** 62]
        if th:
            return gen_li_crow(list(range(-70, 172)) + [-100] + huge) + gen_li_cplx([0, 1, -1, 2, 7, 8, 9, 10, 11, 12, 13, 15, 20, 30, 50, 10 ** 6, 2 ** 32 + 10, -2, -3, -4, -5, -10])
        return gen_li_crow(list(range(-20, 41)) + [-31, -32, -33, -40, -50, -64, 45, 50, 53, 54, 55, 60, 64, 65, 80, 100, 128, 170, 171] + huge, True) + gen_li_cplx([8, 2 ** 32 + 10, -2])
    if pid == 'C06':
        ns = list(range(1, 171 if th else 61)) + [64, 65, 100, 171, 200, 201, 1000, 1001, 10 ** 6, 2 ** 31, 2 ** 31 + 1, 2 ** 32 + 10, 2 ** 32 + 11, 2 ** 62]
        ns = list(dict.fromkeys(ns))
        return [Job('cpp', f, n, 'f64', 'theta', ['xmax=32'], True) for f in ('Cl', 'Sl') for n in ns]
    if pid == 'C08':
        return real_li('c', ('f32', 'f64')) + clausen('c', ('f64',), range(2, 7)) + fixed_li('c', ('f32', 'f64'))
    if pid == 'C09':
        return [Job('c', 'Li', 2, 'f80', 'real')] + clausen('c', ('f80',), range(2, 7)) + fixed_li('c', ('f80',))
    if pid == 'C10':
        return real_li('fortran', ('f64',)) + clausen('fortran', ('f64',), range(2, 7)) + fixed_li('fortran', ('f64',))
    if pid == 'C14':
        out = []
        for l, tys in (('cpp', ('f32', 'f64', 'f80')), ('c', ('f32', 'f64', 'f80')), ('fortran', ('f64',))):
            out += fixed_li(l, tys, cplx=False) + real_li(l, tys)
        return out + gen_li_crow([7, 8, 9, 12] + ([13, 16, 20, 30, 50] if th else []))
    raise KeyError(pid)


def huge_angles(ctx, pid, cov):
    """angles beyond the boxes of the cover: the relation of C19 for the functions of this property"""
    import prop_c19 as h
    from sxc import fixed_cl, generic, run_tasks, merge
    langs = {'C02': ('cpp',), 'C06': ('cpp',), 'C08': ('c',), 'C09': ('c',), 'C10': ('fortran',)}[pid]
    for l in langs:
        h._M[l] = ctx.module(l)
    h._L['lib'] = ctx.lib()
    if pid == 'C06':
        h._M['cppni'] = ctx.module('cpp', extra=('-fno-inline',))
        js = [Job('cpp', f, n, 'f64', 'theta', generic=True, tag=' every %s order' % ('odd' if n == 3 else 'even')) for f in ('Cl', 'Sl') for n in (2, 3)] + generic('Sl', [1])
    else:
        js = [j for j in fixed_cl(langs) if j.n > 1 and not (pid == 'C08' and j.ty == 'f80') and not (pid == 'C09' and j.ty != 'f80')]
    res = run_tasks(ctx, [(h.task, j) for j in js], max(860, ctx.wall() + 300))
    for r in res:
        if r.get('violation'):
            ctx.violation(r['violation'])
    sub = merge(ctx, res, 'path of f(x) and f(fmod(x, 2 pi)), x any finite number >= 7')
    for k in ('states', 'transitions', 'traces_validated_against_impl', 'obligations', 'discharged', 'queries'):
        cov[k] += sub[k]
    cov['solver_s'] = round(cov['solver_s'] + sub['solver_s'], 2)
    cov['undischarged'] = (cov['undischarged'] + sub['undecided'])[:40]
    cov['huge_angles'] = {k: sub[k] for k in ('states', 'obligations', 'discharged', 'queries', 'solver_s', 'undecided_count', 'per_task')}


def run(ctx):
    cov = run_jobs(ctx, jobs(ctx.pid, ctx.tier), 3000 if ctx.tier == 'thorough' else 780, 200 if ctx.tier == 'thorough' else 60)
    if ctx.pid in ('C02', 'C06', 'C08', 'C09', 'C10') and not ctx.violations:
        huge_angles(ctx, ctx.pid, cov)
    ctx.evidence('model_checking', cov)
