"""C17: Model bookkeeping under arbitrary operation sequences, against a shadow model."""
import math
import numpy as np
from .. import core, load, symnp
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ['dfols.model.Model.%s' % s for s in ('__init__', 'change_point', 'swap_points', 'add_new_sample', 'add_new_point', 'shift_base',
                                                   'save_point', 'get_final_results', 'xpt', 'xopt', 'ropt', 'objopt', 'npt',
                                                   'as_absolute_coordinates', 'project_step')] + ['dfols.util.sumsq', 'dfols.util.remove_scaling']
BOUNDS = ('operation sequences of length <=4 (6 thorough; short lengths exhaustive, longer ones explored from both ends within the budget) over '
          'replace/resample/append/swap/shift/save in any order and with any index, n<=2, m<=2, npt<=n+2 plus appended points, growing or fully '
          'initialised start; every residual is an arbitrary real in [-1e3,1e3] or NaN/+inf/-inf, points arbitrary within the bounds; '
          'with and without regulariser, scaling, convex (box) projection.')
ASSUMPTIONS = ['real arithmetic (means compared to 1e-9)', 'squares of distinct expressions are related only through nonnegativity and identity']


def tasks(tier):
    out = []
    big = tier == 'thorough'
    base = dict(n=1, m=1, npt=2, L=3)
    V = {
        'plain': dict(), 'plain-m2': dict(m=2), 'plain-n2': dict(n=2, npt=3),
        'npt3': dict(npt=3), 'grow': dict(npt=3, grow=True), 'grow-h': dict(npt=3, grow=True, h=True),
        'h': dict(h=True), 'h-scaled': dict(h=True, scaled=True), 'h-n2': dict(n=2, npt=3, h=True, scaled=True), 'proj': dict(proj=True), 'proj-h': dict(proj=True, h=True),
        'nofault': dict(kinds=['r']), 'nofault-m2': dict(kinds=['r'], m=2), 'h-nofault': dict(h=True, kinds=['r']), 'x0nan': dict(k0='nan'), 'x0inf': dict(k0='inf'),
        'scalar-lb': dict(h=True, bounds='half'),
    }
    for k, v in V.items():
        c = dict(base, **v)
        out.append(Task(k + '-L2', 'check', dict(c, L=2), must=('obj',), weight=1.5))
        out.append(Task(k, 'check', dict(c), must=('obj', 'kopt', 'final')))
        out.append(Task(k + '-L5', 'check', dict(c, L=5), must=('obj',)))
        if big:
            out.append(Task(k + '-L8', 'check', dict(c, L=8), must=('obj',)))
    # repeated samples: mean over many samples
    out.append(Task('means', 'check', dict(base, L=4, ops=['sample', 'swap', 'shift'], kinds=['r']), must=('mean',)))
    out.append(Task('means-h', 'check', dict(base, L=4, ops=['sample', 'change'], kinds=['r'], h=True), must=('mean',)))
    out.append(Task('save', 'check', dict(base, L=4, ops=['save', 'saveinc', 'change']), must=('final',)))
    out.append(Task('save-h', 'check', dict(base, L=3, ops=['save', 'saveinc', 'change', 'shift'], h=True, scaled=True), must=('final',)))
    out.append(Task('swap-append', 'check', dict(base, L=4, ops=['swap', 'append', 'sample'], kinds=['r', 'nan'], h=True), must=('evalnum',)))
    return out


def isnan(v):
    return (not core.is_sym(v)) and math.isnan(float(v))


def nanle(H, a, b):
    """a is at least as good as b, any finite value being better than NaN (NaN against +inf is left open)"""
    if isnan(b):
        return True
    if isnan(a):
        return (not core.is_sym(b)) and math.isinf(float(b)) and float(b) > 0
    return a <= b


class Pt(object):
    def __init__(self, x, samples, ev):
        self.x, self.samples, self.ev = x, samples, ev


def ssq(r):
    s = 0.0
    for v in r:
        s = s + v * v
    return s


def check(H, cfg):
    n, m = cfg['n'], cfg['m']
    kinds = cfg.get('kinds', ['r', 'nan', 'inf', '-inf'])
    cnt = [0]
    bk = cfg.get('bounds', 'box')
    if bk == 'box':
        lo, hi = [-8.0] * n, [8.0] * n
    else:
        lo, hi = [-8.0] * n, [1e20] * n
    x0 = [H.real('x0_%d' % i, -8, 8) for i in range(n)]
    scal = None
    if cfg.get('scaled'):
        scal = (np.array([1.0, -2.0][:n]), np.array([2.0, 0.5][:n]))
    ncall = []

    def h(x, *a):
        ncall.append(a)
        s = 0.0
        for i in range(n):
            s = s + abs(x[i]) * (0.5 + i)
        return s + x[0] * a[0]
    argsh = (3.0,)

    def hval(x):
        if not cfg.get('h'):
            return 0.0
        u = [x[i] if scal is None else scal[0][i] + x[i] * scal[1][i] for i in range(n)]
        s = 0.0
        for i in range(n):
            s = s + abs(u[i]) * (0.5 + i)
        return s + u[0] * argsh[0]

    def rvec(force=None):
        cnt[0] += 1
        out = []
        for j in range(m):
            k = kinds[H.choose(len(kinds), 'kind')] if (force is None and j == 0) else (force if j == 0 and force else 'r')
            if k == 'r':
                out.append(H.real('r%d_%d' % (cnt[0], j), -1000, 1000))
            else:
                out.append({'nan': float('nan'), 'inf': float('inf'), '-inf': -float('inf')}[k])
        return out

    def newx():
        cnt[0] += 1
        return [H.real('p%d_%d' % (cnt[0], i), -8, 8) for i in range(n)]
    projs = None
    if cfg.get('proj'):
        a, b = np.array(lo), np.array(hi)
        projs = [lambda v: H.mods.util.pbox(v, a, b)] * 2
    r0 = rvec(cfg.get('k0'))
    M = H.mods.model.Model(cfg['npt'], H.arr(list(x0)), H.arr(list(r0)), np.array(lo), np.array(hi), projs, 1,
                           h=h if cfg.get('h') else None, argsh=argsh, do_logging=False, scaling_changes=scal)
    pts = [Pt(list(x0), [r0], 1)]
    base = list(x0)          # shadow xbase
    ev = [1]
    dirty = False
    saved = []
    S = dict(dirty=False)

    def mean(p):
        out = []
        for j in range(m):
            s = 0.0
            for q in p.samples:
                s = s + q[j]
            out.append(s / float(len(p.samples)))
        return out

    def rel(x):
        return H.arr([x[i] - base[i] for i in range(n)])

    def verify(tag):
        d = lambda: 'after %s: objval=%s fval=%s nsamples=%s eval_num=%s kopt=%s; shadow=%s' % (
            tag, list(M.objval), [list(M.fval_v[k]) for k in range(len(pts))], list(M.nsamples), list(M.eval_num), M.kopt,
            [(p.x, p.samples, p.ev) for p in pts])
        H.check(M.npt() == len(pts), 'npt', d)
        K = M.kopt
        H.check(0 <= int(K) < len(pts), 'kopt-range', d)
        best = True
        for k, p in enumerate(pts):
            H.check(int(M.nsamples[k]) == len(p.samples), 'nsamples', d)
            H.check(int(M.eval_num[k]) == p.ev, 'evalnum', d)
            xk = M.xpt(k, abs_coordinates=True)
            for i in range(n):
                H.check(H.close(xk[i], p.x[i], 1e-9, 10.0), 'point', d)
            mu = mean(p)
            for j in range(m):
                H.check(H.close(M.fval_v[k, j], mu[j], 1e-9, 1e3), 'mean', d)
            want = ssq([M.fval_v[k, j] for j in range(m)]) + hval(p.x)
            H.check(H.close(M.objval[k], want, 1e-9, 1e3), 'obj', d)
            best = H.AND(best, nanle(H, M.objval[K], M.objval[k]))
        H.check(H.OR(S['dirty'], best), 'kopt', d)
        S['dirty'] = H.AND(S['dirty'], H.NOT(best))
        # final-result query
        x, r, o, J, ns, en, jn = M.get_final_results()
        H.check(nanle(H, o, M.objval[K]), 'final', lambda: 'final %s worse than incumbent %s; %s' % (o, M.objval[K], d()))
        cands = [(pts[K].x, mean(pts[K]), len(pts[K].samples), pts[K].ev, M.objval[K])] + saved
        ok = False
        for (cx, cr, cns, cen, co) in cands:
            H.check(nanle(H, o, co), 'final', lambda: 'final %s worse than saved %s; %s' % (o, co, d()))
            if int(ns) == cns and int(en) == cen:
                ok = H.OR(ok, H.AND(*([H.close(x[i], cx[i], 1e-9, 10.0) for i in range(n)] + [H.close(r[j], cr[j], 1e-9, 1e3) for j in range(m)] +
                                      [H.close(o, co, 1e-9, 1e3)])))
        H.check(ok, 'final-consistent', lambda: 'final (%s,%s,%s,%s,%s) is neither the incumbent nor a saved point %s; %s' % (x, r, o, ns, en, cands, d()))

    allops = cfg.get('ops', ['change', 'sample', 'append', 'swap', 'shift', 'save', 'saveinc'])
    # full initialisation (unless growing)
    seq = []
    if not cfg.get('grow'):
        for k in range(1, cfg['npt']):
            x, r = newx(), rvec()
            ev[0] += 1
            M.change_point(k, rel(x), H.arr(list(r)), ev[0])
            pts.append(Pt(x, [r], ev[0]))
            seq.append('change%d' % k)
    verify(','.join(seq) or 'start')
    for it in range(cfg['L']):
        op = allops[H.choose(len(allops), 'op')]
        N = len(pts)
        if op == 'change':
            top = N + 1 if N < cfg['npt'] and not any(s.startswith('append') for s in seq) else N
            k = H.choose(top, 'k')
            x, r = newx(), rvec()
            ev[0] += 1
            old = M.objval[k] if k < N else None
            wask = int(M.kopt)
            M.change_point(k, rel(x), H.arr(list(r)), ev[0])
            if k < N:
                pts[k] = Pt(x, [r], ev[0])
                if k == wask:
                    S['dirty'] = H.OR(S['dirty'], H.NOT(nanle(H, M.objval[k], old)))
            else:
                pts.append(Pt(x, [r], ev[0]))
            seq.append('change%d' % k)
        elif op == 'sample':
            k = H.choose(N, 'k')
            r = rvec()
            old = M.objval[k]
            M.add_new_sample(k, H.arr(list(r)))
            pts[k].samples.append(r)
            seq.append('sample%d' % k)
        elif op == 'append':
            x, r = newx(), rvec()
            ev[0] += 1
            M.add_new_point(rel(x), H.arr(list(r)), ev[0])
            pts.append(Pt(x, [r], ev[0]))
            seq.append('append')
        elif op == 'swap':
            k1 = H.choose(N, 'k1')
            k2 = H.choose(N, 'k2')
            M.swap_points(k1, k2)
            pts[k1], pts[k2] = pts[k2], pts[k1]
            seq.append('swap%d,%d' % (k1, k2))
        elif op == 'shift':
            cnt[0] += 1
            sh = [H.real('s%d_%d' % (cnt[0], i), -4, 4) for i in range(n)]
            M.shift_base(H.arr(list(sh)))
            for i in range(n):
                base[i] = base[i] + sh[i]
            seq.append('shift')
        elif op == 'save':
            x, r = newx(), rvec()
            ev[0] += 1
            ns = 1 + H.choose(2, 'ns')
            H.check(M.save_point(H.arr(list(x)), H.arr(list(r)), ns, ev[0], x_in_abs_coords=True) in (True, False), 'save-ret')
            saved.append((x, r, ns, ev[0], ssq(r) + hval(x)))
            seq.append('save')
        elif op == 'saveinc':
            K = int(M.kopt)
            if H.choose(2, 'abs'):
                M.save_point(M.xopt(abs_coordinates=True), M.ropt(), M.nsamples[K], M.eval_num[K], x_in_abs_coords=True)
            else:
                M.save_point(M.xopt(), M.ropt(), M.nsamples[K], M.eval_num[K], x_in_abs_coords=False)
            saved.append((list(pts[K].x), mean(pts[K]), len(pts[K].samples), pts[K].ev, M.objval[K]))
            seq.append('saveinc')
        verify(','.join(seq))


def main():
    from ..runner import run_check
    return run_check('C17', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
