"""C16: interpolation / regression models reproduce their data, Lagrange functions, base shifts, under operation histories."""
import math
import numpy as np
from .. import core, load, symnp
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ['dfols.model.Model.%s' % s for s in ('interpolation_matrix', 'factorise_geom_system', 'solve_geom_system', 'interpolate_mini_models_svd',
                                                   'lagrange_gradient', 'build_full_model', 'model_value', 'shift_base', 'change_point',
                                                   'swap_points', 'add_new_point', 'add_new_sample', 'xpt_directions', 'distances_to_xopt')]
BOUNDS = ('geometry layer: n<=3, m<=2, 2..2n+1 points taken from concrete well- and ill-conditioned point sets (spread 2^-7..2^6, base up to 2^10 away), '
          'ALL residual values in [-1,1], ALL base shifts in [-4,4]^n, histories of <=4 (6 thorough) replace/resample/append/swap/shift/refit operations with '
          'models and Lagrange functions checked after every refit and every shift; full-rank completion with concrete residual sets and all shifts; '
          'symbolic layer: n=1 with arbitrary points in [-4,4] (separation >=1/8), npt 2..3, exact QR; tolerance 1e-9*cond.')
ASSUMPTIONS = ['real arithmetic apart from the QR/SVD factors of concrete matrices, which are LAPACK\'s', 'symbolic layer: QR by exact Gram-Schmidt']

# concrete point offsets, in units of the spread; later rows are replacement candidates
GEOM = {
    (1, 'a'): [[0], [1], [-0.5], [0.75], [-1], [0.25]],
    (2, 'a'): [[0, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [0.5, 0.5], [-0.75, 0.25], [0.25, -1]],
    (2, 'b'): [[0.5, 0.25], [1, 0.5], [-0.25, 1], [0.75, -0.5], [-1, -0.75], [0.125, 0.5], [1, 1], [0, -0.25]],
    (2, 'ill'): [[0, 0], [1, 0], [0.5, 0.015625], [-1, 0.03125], [0.25, -0.015625], [0.75, 0.03125], [-0.5, 0.0625], [1, 0.125]],
    (3, 'a'): [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [0.5, 0.5, -0.25], [0.25, -0.5, 1], [-0.5, -0.25, -1]],
}
FRR = {     # residual sets for the full-rank completion, (point index, component)
    'p': [[1.0, 2.0], [0.5, -1.0], [-1.5, 0.25], [0.75, 3.0], [0.0, 1.0]],
    'q': [[0.0, 0.0], [0.125, 0.5], [2.0, -0.5], [1.0, 1.0], [-3.0, 0.25]],
}


def tasks(tier):
    big = tier == 'thorough'
    out = []
    for (n, g) in GEOM:
        pts = sorted(set([2, n + 1, n + 2, 2 * n + 1]))
        for npt in pts:
            for sc, base in ((1.0, 0.0), (2.0 ** -7, 1.0), (2.0 ** 6, -1024.0)):
                if not big and g != 'a' and sc != 1.0 and npt != n + 1:
                    continue
                grow = npt < n + 1
                nm = 'g-n%d%s-p%d-s%g' % (n, g, npt, sc)
                for pre in ((True, False) if npt == n + 1 and sc == 1.0 else (True,)):
                    out.append(Task(nm + ('' if pre else '-nopre'), 'check', dict(n=n, m=2 if n > 1 else 1, g=g, npt=npt, sc=sc, base=base, L=4 if not big else 6, pre=pre),
                                    must=('lagrange', 'shift', 'fit'), float_mode='format', path_timeout=60))
    for n, npt in ((2, 2), (3, 2), (3, 3), (2, 3)):
        for r in FRR:
            out.append(Task('full-n%d-p%d-%s' % (n, npt, r), 'fullrank', dict(n=n, m=2 if n == 2 else 3, g='a', npt=npt, r=r, L=3), must=('fit-grow',), float_mode='format'))
    for npt in (2, 3):
        out.append(Task('sym-n1-p%d' % npt, 'symbolic', dict(npt=npt), nl='exact', norm_mode='exact', timeout_ms=20000, must=('fit',), path_timeout=120))
    return out


def build(H, n, m, npt, base, h=None, pre=True, num=None, scale=1.0):
    x0 = [base + 0.0] * n
    lo, hi = np.array([-1e20] * n), np.array([1e20] * n)
    return x0, lo, hi


def absle(H, v, t):
    return H.AND(v <= t, -v <= t) if core.is_sym(v) else bool(abs(v) <= t)


def dot(a, b):
    s = 0.0
    for i in range(len(a)):
        s = s + a[i] * b[i]
    return s


class Driver(object):
    """a Model under test plus the absolute positions of its points"""

    def __init__(self, H, cfg, resid):
        self.H, self.cfg = H, cfg
        n, m = cfg['n'], cfg['m']
        self.n, self.m = n, m
        self.sc, self.b0 = cfg.get('sc', 1.0), cfg.get('base', 0.0)
        self.G = [[self.b0 + self.sc * c for c in row] for row in GEOM[(n, cfg['g'])]]
        self.resid = resid
        self.ev = 1
        npt = max(cfg['npt'], n + 1)
        big = 1e20
        x0 = self.G[0]
        self.M = H.mods.model.Model(npt, H.arr(list(x0)), H.arr(resid(0)), np.array([-big] * n), np.array([big] * n), None, 1,
                                    precondition=cfg.get('pre', True), do_logging=False)
        self.X = [list(x0)]
        self.base = list(x0)
        self.nxt = cfg['npt']            # next unused geometry row
        for k in range(1, cfg['npt']):
            self.put(k, self.G[k])
        self.R = 1.0

    def rel(self, x):
        return self.H.arr([x[i] - self.base[i] for i in range(self.n)])

    def put(self, k, x):
        self.ev += 1
        self.M.change_point(k, self.rel(x), self.H.arr(self.resid(self.ev)), self.ev)
        if k < len(self.X):
            self.X[k] = list(x)
        else:
            self.X.append(list(x))

    def append(self, x):
        self.ev += 1
        self.M.add_new_point(self.rel(x), self.H.arr(self.resid(self.ev)), self.ev)
        self.X.append(list(x))

    def conc(self):
        """concrete design matrix rel. to the incumbent, its condition number and the spread"""
        K = int(self.M.kopt)
        D = np.array([[float(x[i] - self.X[K][i]) for i in range(self.n)] for x in self.X])
        dl = max(np.sqrt((D ** 2).sum(axis=1).max()), 1e-300)
        W = np.hstack([np.ones((len(D), 1)), D / dl])
        s = np.linalg.svd(W, compute_uv=False)
        W1 = np.hstack([np.ones((len(D), 1)), D])
        s1 = np.linalg.svd(W1, compute_uv=False)
        c = max(s[0] / max(s[-1], 1e-300), s1[0] / max(s1[-1], 1e-300) if not self.cfg.get('pre', True) else 0.0)
        return W, c, dl

    def values(self, x):
        """model residuals at the absolute point x"""
        M, H = self.M, self.H
        return M.model_value(self.rel(x), d_based_at_xopt=False, with_const_term=True)

    def farness(self):
        return 1.0 + 16.0 / self.conc()[2] + abs(self.b0) / self.conc()[2]


def verify(D, tag, what='fit'):
    H, M, n, m = D.H, D.M, D.n, D.m
    W, cond, dl = D.conc()
    tol = 1e-9 * cond * D.R * (D.farness() if not H.symbolic else 1.0) + (D.slack if hasattr(D, 'slack') else 0.0)
    N = len(D.X)
    d = lambda: '%s: n=%d points=%s kopt=%s fval=%s J=%s c=%s' % (tag, n, D.X, M.kopt, M.fval_v, M.model_jac, M.model_const)
    K = int(M.kopt)
    vals = [D.values(x) for x in D.X]
    res = [[vals[j][i] - M.fval_v[j, i] for i in range(m)] for j in range(N)]
    if N <= n + 1:
        for j in range(N):
            for i in range(m):
                H.check(absle(H, res[j][i], tol), what, d)
            # the same value through the xopt-based call
            step = H.arr([D.X[j][i] - D.X[K][i] for i in range(n)])
            v2 = M.model_value(step, d_based_at_xopt=True, with_const_term=True)
            for i in range(m):
                H.check(absle(H, v2[i] - vals[j][i], tol), 'xopt-based', d)
    else:
        for c in range(n + 1):
            for i in range(m):
                s = 0.0
                for j in range(N):
                    s = s + float(W[j, c]) * res[j][i]
                H.check(absle(H, s, tol * N), what, d)
    g, Hm = M.build_full_model()
    checkfull(D, g, Hm, tol, d)


def checkfull(D, g, Hm, tol, d):
    H, M, n, m = D.H, D.M, D.n, D.m
    J = M.model_jac
    K = int(M.kopt)
    r = D.values(D.X[K])
    W, cond, dl = D.conc()
    jb = 4.0 * cond / dl
    for i in range(n):
        want = 0.0
        for q in range(m):
            want = want + 2.0 * J[q, i] * r[q]
        H.check(absle(H, g[i] - want, tol * m * jb * 10), 'full-g', d)
        for j in range(n):
            want = 0.0
            for q in range(m):
                want = want + 2.0 * J[q, i] * J[q, j]
            H.check(absle(H, Hm[i, j] - want, tol * m * jb * jb), 'full-H', d)


def lagrange(D, tag, single):
    H, M, n = D.H, D.M, D.n
    W, cond, dl = D.conc()
    N = len(D.X)
    K = int(M.kopt)
    tol = 1e-8 * cond
    if single is None:
        cs, gs = M.lagrange_gradient()
    else:
        a = [M.lagrange_gradient(k) for k in range(N)]
        cs, gs = [t[0] for t in a], None
        gl = [t[1] for t in a]
    d = lambda: '%s: points=%s kopt=%s c=%s g=%s' % (tag, D.X, M.kopt, cs, gs)
    for j in range(N):
        tot = 0.0
        for k in range(N):
            v = cs[k]
            for i in range(n):
                v = v + (gs[i, k] if gs is not None else gl[k][i]) * (D.X[j][i] - D.X[K][i])
            tot = tot + v
            if N <= n + 1:
                H.check(absle(H, v - (1.0 if j == k else 0.0), tol), 'lagrange', d)
        H.check(absle(H, tot - 1.0, tol * N), 'lagrange', d)


def check(H, cfg):
    n, m = cfg['n'], cfg['m']

    def resid(ev):
        return [H.real('r%d_%d' % (ev, j), -1, 1) for j in range(m)]
    D = Driver(H, cfg, resid)
    history(H, cfg, D, dict())


def history(H, cfg, D, fitargs, ops=('replace', 'shift', 'shiftopt', 'swap', 'append', 'sample', 'refit'), what='fit'):
    n, m, M = D.n, D.m, D.M
    seq = []
    fitted = False
    G = D.G

    def refit():
        ok = M.interpolate_mini_models_svd(**fitargs)[0]
        tag = ','.join(seq)
        H.check(bool(ok), 'fit-ok', lambda: 'fit failed after %s; points %s' % (tag, D.X))
        if hasattr(D, 'setslack'):
            D.setslack()
        verify(D, tag, what)
    refit()
    lagrange(D, 'start', None)
    nsh = 0
    for it in range(cfg['L'] - 1):
        op = ops[H.choose(len(ops), 'op')]
        N = len(D.X)
        if op == 'replace':
            k = H.choose(N, 'k')
            free = [x for x in G if x not in D.X]
            if not free:
                return
            x = free[H.choose(min(2, len(free)), 'x')]
            old = D.X[k]
            # keep the set affinely independent and of moderate conditioning
            trial = [y for i, y in enumerate(D.X) if i != k] + [x]
            if not poised(trial, n):
                H.cut('degenerate replacement')
            D.put(k, x)
            seq.append('replace%d' % k)
            fitted = False
        elif op in ('shift', 'shiftopt'):
            xs = [D.X[0], [D.X[0][i] + D.sc * (0.5 + i) for i in range(n)]]
            before = [D.values(x) for x in xs]
            stale = [r for r in [0]]
            if op == 'shift':
                nsh += 1
                s = [H.real('s%d_%d' % (nsh, i), -4, 4) for i in range(n)]
            else:
                xo = M.xopt()
                s = [xo[i] for i in range(n)]
            gb = M.build_full_model()
            M.shift_base(H.arr(list(s)))
            for i in range(n):
                D.base[i] = D.base[i] + s[i]
            seq.append(op)
            W, cond, dl = D.conc()
            tol = 1e-9 * cond * D.R * (D.farness() if not H.symbolic else 1.0) * 8
            d = lambda: 'after %s: base=%s J=%s c=%s' % (seq, D.base, M.model_jac, M.model_const)
            after = [D.values(x) for x in xs]
            for a, b in zip(before, after):
                for i in range(m):
                    H.check(absle(H, a[i] - b[i], tol), 'shift', d)
            ga = M.build_full_model()
            jb = 64.0 * cond / dl
            for i in range(n):
                H.check(absle(H, ga[0][i] - gb[0][i], tol * jb * m), 'shift', d)
                for j in range(n):
                    H.check(absle(H, ga[1][i, j] - gb[1][i, j], tol * jb * jb * m), 'shift', d)
            continue
        elif op == 'swap':
            k1, k2 = (0, N - 1) if H.choose(2, 'sw') == 0 else (min(1, N - 1), 0)
            if k1 == k2:
                H.cut('trivial swap')
            M.swap_points(k1, k2)
            D.X[k1], D.X[k2] = D.X[k2], D.X[k1]
            seq.append('swap%d,%d' % (k1, k2))
        elif op == 'append':
            free = [x for x in G if x not in D.X]
            if not free or not poised(D.X + [free[-1]], n):
                H.cut('no point to append')
            D.append(free[-1])
            seq.append('append')
        elif op == 'sample':
            k = H.choose(N, 'k')
            D.ev += 1
            M.add_new_sample(k, H.arr(D.resid(D.ev)))
            seq.append('sample%d' % k)
        else:
            refit()
            seq.append('refit')
            continue
        # every change of the point set is followed by a Lagrange query or a refit in the solver
        if H.choose(2, 'then') == 0:
            lagrange(D, ','.join(seq), None if H.choose(2, 'form') == 0 else 1)
            seq.append('lagrange')
        else:
            refit()
            seq.append('refit')
    refit()
    lagrange(D, ','.join(seq), 1)


def poised(P, n):
    A = np.array(P, dtype=float)
    c = A - A[0]
    dl = np.sqrt((c ** 2).sum(axis=1).max())
    s = np.linalg.svd(c[1:] / dl, compute_uv=False)
    k = min(len(P) - 1, n)
    return len(s) >= k and s[k - 1] > 1e-3


def fullrank(H, cfg):
    """growing phase with full-rank completion: the data are still interpolated, wherever the base point is"""
    tab = FRR[cfg['r']]

    def resid(ev):
        row = tab[ev % len(tab)]
        return [row[j % 2] + (0.5 * ev if j == 2 else 0.0) for j in range(cfg['m'])]
    D = Driver(H, cfg, resid)
    D.R = 4.0

    def setslack():
        # singular values of the plain interpolant below the documented floors are raised: allow that much
        K = int(D.M.kopt)
        Y = np.array([[float(x[i] - D.X[K][i]) for i in range(D.n)] for j, x in enumerate(D.X) if j != K])
        F = np.array([[float(D.M.fval_v[j, i] - D.M.fval_v[K, i]) for i in range(D.m)] for j in range(len(D.X)) if j != K])
        J = np.linalg.lstsq(Y, F, rcond=None)[0].T
        s = np.linalg.svd(J, compute_uv=False)
        r = min(len(D.X) - 1, D.n, D.m)
        floor = max(s[0] / 1e8, 1e-6)
        D.slack = 0.0 if s[r - 1] >= floor * 1.01 else 10 * floor
        rk = int((s > 1e-9).sum())
        if rk < min(len(D.X) - 1, D.n) :
            D.slack = 1e9 if rk < len(D.X) - 1 else D.slack
    D.setslack = setslack
    history(H, cfg, D, dict(make_full_rank=True), ops=('replace', 'shift', 'shiftopt', 'swap', 'refit'), what='fit-grow')


def symbolic(H, cfg):
    """n=1, arbitrary points"""
    npt = cfg['npt']
    X = [H.real('x%d' % k, -4, 4) for k in range(npt)]
    for i in range(npt):
        for j in range(i):
            H.assume((X[i] - X[j]) * (X[i] - X[j]) >= 1.0 / 64)
    R = [H.real('r%d' % k, -1, 1) for k in range(npt)]
    M = H.mods.model.Model(npt, H.arr([X[0]]), H.arr([R[0]]), np.array([-1e20]), np.array([1e20]), None, 1, do_logging=False)
    for k in range(1, npt):
        M.change_point(k, H.arr([X[k] - X[0]]), H.arr([R[k]]), k + 1)
    ok = M.interpolate_mini_models_svd()[0]
    H.check(bool(ok), 'fit-ok')
    d = lambda: 'X=%s R=%s J=%s c=%s' % (X, R, M.model_jac, M.model_const)
    res = [M.model_value(H.arr([X[k] - X[0]]), d_based_at_xopt=False, with_const_term=True)[0] - R[k] for k in range(npt)]
    if npt == 2:
        for v in res:
            H.check(absle(H, v, 1e-7), 'fit', d)
    else:
        K = int(M.kopt)
        s0 = s1 = 0.0
        for k in range(npt):
            s0 = s0 + res[k]
            s1 = s1 + res[k] * (X[k] - X[K])
        H.check(absle(H, s0, 1e-6), 'fit', d)
        H.check(absle(H, s1, 1e-5), 'fit', d)


def main():
    from ..runner import run_check
    return run_check('C16', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
