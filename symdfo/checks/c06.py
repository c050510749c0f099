"""C06: linear least squares plus a convex Lipschitz regulariser reaches the regularised optimum, reports success, and passes argsh/argsprox through."""
import math
import numpy as np
from .. import core, symnp, ws
from ..runner import Task

BUDGET = dict(quick=110, thorough=1200)
FUNCTIONS = ['dfols.solver.solve', 'dfols.solver.solve_main', 'dfols.controller.Controller (evaluate_criticality_measure, trust_region_step, calculate_ratio and all other methods on the path)',
             'dfols.model.Model (all methods on the path)', 'dfols.trust_region.ctrsbox_sfista', 'dfols.trust_region.ctrsbox_geometry', 'dfols.trust_region.ctrsbox_linear',
             'dfols.util.dykstra', 'dfols.util.pbox', 'dfols.util.pball', 'dfols.util.model_value', 'dfols.util.eval_least_squares_with_regularisation', 'dfols.params.ParameterList']
BOUNDS = ('complete solver runs with a regulariser (real S-FISTA subproblem solver, criticality measure, safety steps and termination; default parameters, rhobeg 0.25, rhoend 1e-5): fixed well-conditioned instances (A, b) '
          'with n <= 2 (thorough: 3), m <= 3 (4), h = lambda ||x||_1 or lambda ||x||_2, lambda in {0.01, 1, 8}, no bounds / box around / box away from the kink / one-sided / box with scaling_within_bounds; each for every '
          'residual scale s in [1e-2,1e2] (so the weight s^2 lambda covers eight decades) and every translation t in [-100,100] of the problem along a fixed direction (scaled boxes: translation only); extra arguments of h and of the proximal operator are '
          'symbolic numbers and sentinel objects that must arrive unchanged at every call. Per explored path; the number of unexplored paths is reported.')
ASSUMPTIONS = ['powers of the scale variable are exact, their coefficients are rounded to double precision as in the program (exact for s a power of two)',
               'the oracle is an independent proximal-gradient run on the fixed instance with exact proximal maps of h plus the box', 'general.check_objfun_for_overflow is off']


def tasks(tier):
    big = tier == 'thorough'
    out = []
    must = ('optimal', 'success', 'args')
    o = dict(nl='exact', norm_mode='exact', timeout_ms=4000, path_timeout=120, float_mode='format', minmax='fork', round_coef='float', max_decisions=1000000)
    k = 0
    lams = (0.01, 1.0, 8.0)
    for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 4)) if big else ((1, 1), (2, 3), (2, 2)):
        for reg in ('l1', 'l2'):
            for box in ('free', 'around', 'away', 'lower', 'scaled'):
                if n == 2 and m == 2 and not big and not (reg == 'l1' and box in ('around', 'free')):
                    continue
                for lam in lams if big else (lams[(k + (n > 1)) % 3],):
                    k += 1
                    cfg = dict(k=k, n=n, m=m, reg=reg, box=box, lam=lam, fam='t' if box == 'scaled' else 'st')
                    out.append(Task('%s%d-n%d-m%d-%s-%s-lam%g' % (cfg['fam'], k, n, m, reg, box, lam), 'family', cfg, must=must, weight=1.0, **o))
    return out


def instance(k, n, m, box):
    rng = np.random.RandomState(3000 + 13 * k)
    for _ in range(1000):
        A = rng.randint(-4, 5, size=(m, n)).astype(float)
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] > 0.5 and sv[0] / sv[-1] < 20:
            break
    b = rng.randint(-16, 17, size=m) / 2.0
    x0 = rng.randint(-8, 9, size=n) / 4.0
    lo = hi = None
    if box in ('around', 'scaled'):
        lo, hi = np.minimum(x0, 0) - 1.5, np.maximum(x0, 0) + 2.0
    elif box == 'away':             # the regulariser's kink is outside the box
        lo, hi = x0 - 0.75, x0 + 1.25
        for i in range(n):
            if lo[i] <= 0 <= hi[i]:
                lo[i], hi[i], x0[i] = 0.5, 3.0, 1.0
    elif box == 'lower':
        lo = x0 - 0.5 * rng.randint(0, 3, size=n)
    return A, b, x0, lo, hi


def prox_true(w, c, reg, lo, hi):
    """argmin 1/2 |x-w|^2 + c h(x) over the box"""
    if reg == 'l1':
        return np.clip(np.sign(w) * np.maximum(np.abs(w) - c, 0.0), lo, hi)
    cand = []
    if np.all(lo <= 0) and np.all(hi >= 0):
        cand.append(np.zeros(len(w)))
    x = lambda r: np.clip(w * (r / (r + c)), lo, hi)
    a, b = 0.0, 1.0 + np.linalg.norm(np.clip(w, lo, hi)) + np.linalg.norm(w)
    for _ in range(200):
        r = 0.5 * (a + b)
        if np.linalg.norm(x(r)) >= r:
            a = r
        else:
            b = r
    cand.append(x(0.5 * (a + b)))
    return min(cand, key=lambda z: 0.5 * np.sum((z - w) ** 2) + c * np.linalg.norm(z))


_TM = {}


def true_minimum(A, b, lam, reg, lo, hi):
    """long proximal-gradient run"""
    m, n = A.shape
    lo = np.full(n, -np.inf) if lo is None else lo
    hi = np.full(n, np.inf) if hi is None else hi
    L = 2.0 * np.linalg.norm(A, 2) ** 2
    x = np.clip(np.zeros(n), lo, hi)
    F = lambda z: float(np.sum((A.dot(z) - b) ** 2) + lam * (np.sum(np.abs(z)) if reg == 'l1' else np.linalg.norm(z)))
    best = F(x)
    for it in range(5000):
        xn = prox_true(x - 2.0 * A.T.dot(A.dot(x) - b) / L, lam / L, reg, lo, hi)
        best = min(best, F(xn))
        if np.linalg.norm(xn - x) <= 1e-15 * max(1.0, np.linalg.norm(x)):
            break
        x = xn
    return best


def vabs(v):
    return -v if v < 0 else v


def family(H, cfg):
    A, b, x0, lo, hi = instance(cfg['k'], cfg['n'], cfg['m'], cfg['box'])
    n, m, reg, fam = cfg['n'], cfg['m'], cfg['reg'], cfg['fam']
    s = H.real('s', 1e-2, 1e2) if 's' in fam else 1.0
    t = H.real('t', -100, 100) if 't' in fam else 0.0
    v = [1.0, -2.0, 4.0][:n]
    w = s * s * cfg['lam']
    wp = w * 1.0
    tag = ('tag',)
    calls = []
    center = [t * v[i] for i in range(n)]
    zof = lambda x: [x[i] - center[i] if 't' in fam else x[i] for i in range(n)]

    def objfun(x):
        calls.append(x)
        z = zof(x)
        r = []
        for j in range(m):
            q = -b[j]
            for i in range(n):
                q = q + A[j, i] * z[i]
            r.append(q * s)
        return H.arr(r)

    def norm2(z):
        return H.mods.util.LA.norm(H.arr(z))

    def h(x, *args):
        H.check(len(args) == 2 and args[0] is tag and args[1] is w, 'args', lambda: 'h was called with extra arguments %s instead of %s' % (args, (tag, w)))
        z = zof(x)
        return w * (sum([vabs(zi) for zi in z], 0.0) if reg == 'l1' else norm2(z))

    def prox(x, u, *args):
        H.check(len(args) == 2 and args[0] is wp and args[1] is tag, 'args', lambda: 'prox_uh was called with extra arguments %s instead of %s' % (args, (wp, tag)))
        z = zof(x)
        c = u * wp
        if reg == 'l1':
            z = [zi - c if zi > c else (zi + c if zi < -c else 0.0) for zi in z]
        else:
            q = norm2(z)
            z = [zi * (1.0 - c / q) for zi in z] if q > c else [0.0 for zi in z]
        return H.arr([z[i] + center[i] if 't' in fam else z[i] for i in range(n)])
    kw = dict(do_logging=False, h=h, lh=w * (math.sqrt(n) if reg == 'l1' else 1.0), prox_uh=prox, argsh=(tag, w), argsprox=(wp, tag), user_params={'general.check_objfun_for_overflow': False},
              rhobeg=0.25, rhoend=cfg.get('rhoend', 1e-5))
    place = lambda z: H.arr([z[i] + center[i] if 't' in fam else z[i] for i in range(n)])
    L, U = (None if lo is None else place(lo)), (None if hi is None else place(hi))
    if L is not None or U is not None:
        kw['bounds'] = (L, U)
        kw['scaling_within_bounds'] = cfg['box'] == 'scaled'
    soln = H.mods.solver.solve(objfun, place(x0), **kw)
    f = true_minimum(A, b, cfg['lam'], reg, lo, hi) * s * s
    d = lambda: '%s, lambda=%s, A=%s b=%s x0=%s bounds %s %s, s=%s t=%s: flag %s (%s), x=%s obj=%s; true minimum %s, %d evaluations' % (
        reg, w, A.tolist(), b.tolist(), x0, lo, hi, s, t, soln.flag, soln.msg, soln.x, soln.obj, f, len(calls))
    H.check(soln.flag == soln.EXIT_SUCCESS, 'success', d)
    H.check(soln.obj <= f + 1e-3 * (1 + f), 'optimal', d)
    for i in range(n):
        if L is not None:
            H.check(soln.x[i] >= L[i] - 1e-10 * (1 + abs(lo[i])), 'feasible', d)
        if U is not None:
            H.check(soln.x[i] <= U[i] + 1e-10 * (1 + abs(hi[i])), 'feasible', d)


def main():
    from ..runner import run_check
    return run_check('C06', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
