"""C05: linear least-squares problems (any m, with or without bounds, scaling, npt) are solved to global optimality and reported as success."""
import math, itertools
import numpy as np
from .. import core, symnp, ws
from ..runner import Task

BUDGET = dict(quick=70, thorough=900)
FUNCTIONS = ['dfols.solver.solve', 'dfols.solver.solve_main', 'dfols.controller.Controller (all methods on the path)', 'dfols.model.Model (all methods on the path)',
             'dfols.trust_region.trsbox', 'dfols.trust_region.alt_trust_step', 'dfols.trust_region.d_within_bounds', 'dfols.trust_region.trsbox_geometry', 'dfols.trust_region.trsbox_linear',
             'dfols.params.ParameterList', 'dfols.util']
BOUNDS = ('complete solver runs (real subproblem solver, real geometry, real termination, default budget and tolerances). n=1: residuals a_i x - b_i with fixed slopes (m <= 3), every b_i in [-100,100] (a separate family: every '
          'starting point in [-10,10]), npt 2 and 3, no bounds / one-sided / two-sided boxes around or away from the minimiser / starting point on a bound or far away, internal scaling on and off; exact real arithmetic. '
          'n <= 4 (thorough: 5): fixed small-integer instances (under-, square and over-determined; free, inside, active bounds, one-sided; npt n+1, n+2, 2n+1; scaling), each with every residual scale s in [1e-3,1e3] '
          'and every translation t in [-100,100] of x0, bounds and minimiser along a fixed direction ("st"), or every unit of length u in [1e-3,1e3] ("u"); coefficients carry double-precision rounding.')
ASSUMPTIONS = ['n=1: real arithmetic; the QR factorisation is replaced by the square-root-free one (identical solutions of the least-squares systems)',
               'families: powers of the scale variable are exact, their coefficients are rounded to double precision as in the program (exact for s a power of two)',
               'the bounded least-squares oracle enumerates all active sets of the fixed instance']


def tasks(tier):
    big = tier == 'thorough'
    out = []
    o = dict(nl='exact', norm_mode='exact', timeout_ms=4000, path_timeout=60, float_mode='format', minmax='fork', exact_qr=True, max_decisions=100000)
    must = ('optimal', 'success')
    for A in ([2.0], [2.0, -1.0], [0.5, 0.25, -0.5]) if big else ([2.0], [2.0, -1.0]):
        for npt in (2, 3):
            for nm, kw in (('free', {}), ('box', dict(bounds=(-1.0, 3.0))), ('scaled', dict(bounds=(-1.0, 3.0), scaled=True)), ('lower', dict(bounds=(0.25, None))), ('edge', dict(bounds=(0.5, 30.0))),
                           ('far', dict(x0=200.0, bounds=(None, 250.0)))):
                if len(A) == 1 or big or npt == 2 and nm in ('free', 'box'):
                    out.append(Task('n1-m%d-npt%d-%s' % (len(A), npt, nm), 'one', dict(A=A, npt=npt, **kw), must=must if len(A) == 1 else (), weight=1.0, **o))
    for npt in (2, 3):
        out.append(Task('n1-x0-npt%d' % npt, 'one', dict(A=[1.0], b=[1.0], npt=npt, x0='sym', bounds=(-2.0, 2.0), rhobeg=0.5), must=must, **o))
    o = dict(nl='exact', norm_mode='exact', timeout_ms=4000, path_timeout=120, float_mode='format', minmax='fork', round_coef='float', max_decisions=100000)
    k = 0
    for n, m in ((1, 2), (2, 2), (2, 3), (3, 3), (3, 5), (3, 2), (4, 4), (4, 6), (2, 1), (5, 7)) if big else ((2, 2), (2, 3), (3, 3), (3, 5), (3, 2), (4, 6), (2, 1)):
        for kind in ('freer', 'active', 'activer', 'insider', 'lowerr'):
            for rep in range(3 if big else 1):
                k += 1
                npt = [None, n + 2, 2 * n + 1][k % 3]
                cfg = dict(k=k, n=n, m=m, kind=kind, fam='st', npt=npt)
                out.append(Task('st%d-n%d-m%d-%s%s' % (k, n, m, kind, '-npt%d' % npt if npt else ''), 'family', cfg, must=must, weight=1.0, **o))
                if kind in ('activer', 'insider') and (big or k % 2 or n > 2):
                    out.append(Task('sc%d-n%d-m%d-%s' % (k, n, m, kind), 'family', dict(cfg, scaled=True, npt=None), must=must, weight=1.0, **o))
                if (kind in ('freer', 'lowerr')) and n <= 3 and (big or n == 2 and (kind == 'freer' or m == 1)):
                    out.append(Task('u%d-n%d-m%d-%s' % (k, n, m, kind), 'family', dict(cfg, fam='u'), must=must, weight=0.5, **o))
    for n, m in ((2, 2), (2, 4), (3, 3), (3, 5), (4, 5)) if big else ((2, 2), (2, 4), (3, 3), (3, 5)):
        for kind in ('freeill', 'activeill'):
            k += 1
            npt = [None, n + 2, 2 * n + 1][k % 3]
            out.append(Task('st%d-n%d-m%d-%s%s' % (k, n, m, kind, '-npt%d' % npt if npt else ''), 'family', dict(k=k, n=n, m=m, kind=kind, fam='st', npt=npt), must=must, weight=1.0, **o))
    return out


def one(H, cfg):
    A = cfg['A']
    m = len(A)
    b = cfg.get('b')
    if b is None:
        b = [H.real('b', -100, 100)]
        if m > 1:       # one parameter: b = t (1, c1, ...) + (0, e1, ...)
            c, e = [(0.0, 1.0), (1.0, 0.0), (-0.5, 0.25), (2.0, -8.0)][H.choose(4, 'family')]
            b = b + [b[0] * c * i + e for i in range(1, m)]
    x0 = cfg.get('x0', 0.5)
    if x0 == 'sym':
        x0 = H.real('x0', -10, 10)
    calls = []

    def objfun(x):
        calls.append(x[0])
        return H.arr([A[i] * x[0] - b[i] for i in range(m)])
    kw = dict(npt=cfg['npt'], do_logging=False, scaling_within_bounds=bool(cfg.get('scaled')), user_params={'general.check_objfun_for_overflow': False})
    B = cfg.get('bounds')
    if B is not None:
        kw['bounds'] = tuple(None if v is None else H.arr([v]) for v in B)
    if 'rhobeg' in cfg:
        kw['rhobeg'] = cfg['rhobeg']
    s = H.mods.solver.solve(objfun, H.arr([x0]), **kw)
    AA = sum(a * a for a in A)
    xs = 0.0
    for i in range(m):
        xs = xs + b[i] * (A[i] / AA)
    if B is not None:
        if B[0] is not None and xs < B[0]:
            xs = B[0]
        elif B[1] is not None and xs > B[1]:
            xs = B[1]
    f = 0.0
    for i in range(m):
        v = A[i] * xs - b[i]
        f = f + v * v
    d = lambda: 'A=%s b=%s: flag %s (%s), x=%s obj=%s; true minimiser %s, f*=%s, %d evaluations' % (A, b, s.flag, s.msg, s.x, s.obj, xs, f, len(calls))
    H.check(s.flag == s.EXIT_SUCCESS, 'success', d)
    H.check(s.obj <= f + 1e-6 * (1 + f), 'optimal', d)
    if B is not None:
        H.check(H.AND(*([s.x[0] >= B[0]] if B[0] is not None else []) + ([s.x[0] <= B[1]] if B[1] is not None else [])), 'feasible', d)



# ---- families of problems in n = 1..5 variables ------------------------------------------------------------------------------
def instance(k, n, m, kind):
    """a well-conditioned integer instance: A, b, x0, bounds"""
    rng = np.random.RandomState(1000 + 17 * k)
    for _ in range(100000):
        A = rng.randint(-4, 5, size=(m, n)).astype(float)
        if kind.endswith('ill'):        # condition number 100 .. 1000
            A = A * 2.0 ** rng.randint(-4, 5, size=n)
        sv = np.linalg.svd(A, compute_uv=False)
        if kind.endswith('ill'):
            if sv[min(m, n) - 1] > 1e-3 and 100 < sv[0] / sv[min(m, n) - 1] < 900:
                break
            continue
        if sv[min(m, n) - 1] > 0.3 and sv[0] / sv[min(m, n) - 1] < 50:
            break
    x0 = rng.randint(-3, 4, size=n).astype(float)
    xt = rng.randint(-16, 17, size=n) / 4.0
    b = A.dot(xt) + (rng.randint(-3, 4, size=m) if kind.endswith('r') else 0)
    lo = hi = None
    if kind.startswith('active'):       # the unconstrained minimiser is outside the box in about half of the coordinates
        c = rng.randint(-8, 9, size=n) / 4.0
        lo, hi = c - 1.0 - rng.randint(0, 3, size=n), c + 1.0 + rng.randint(0, 3, size=n)
    elif kind.startswith('inside'):
        lo, hi = np.minimum(xt, x0) - 4.0, np.maximum(xt, x0) + 5.0
    elif kind.startswith('lower'):
        lo = xt + rng.randint(-1, 2, size=n)
    return A, np.asarray(b, dtype=float), x0, lo, hi


def true_minimum(A, b, lo, hi):
    """bounded least squares by enumeration of the active sets"""
    m, n = A.shape
    lo = np.full(n, -np.inf) if lo is None else lo
    hi = np.full(n, np.inf) if hi is None else hi
    best = np.inf
    for pat in itertools.product((0, -1, 1), repeat=n):
        if any(p == -1 and np.isinf(lo[i]) or p == 1 and np.isinf(hi[i]) for i, p in enumerate(pat)):
            continue
        x = np.array([lo[i] if p == -1 else hi[i] if p == 1 else 0.0 for i, p in enumerate(pat)])
        F = [i for i, p in enumerate(pat) if p == 0]
        if F:
            x[F] = np.linalg.lstsq(A[:, F], b - A.dot(x), rcond=None)[0]
        if np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9):
            best = min(best, float(np.sum((A.dot(x) - b) ** 2)))
    if n > m and not np.isfinite(best):
        raise ValueError('no minimiser')
    return best


def family(H, cfg):
    A, b, x0, lo, hi = instance(cfg['k'], cfg['n'], cfg['m'], cfg['kind'])
    n, m = cfg['n'], cfg['m']
    fam = cfg['fam']
    s = H.real('s', 1e-3, 1e3) if 's' in fam else 1.0           # residual scale
    u = H.real('u', 1e-3, 1e3) if 'u' in fam else 1.0           # unit of the variables
    t = H.real('t', -100, 100) if 't' in fam else 0.0           # translation of the variables
    v = [1.0, -2.0, 4.0, 0.5, -1.0][:n]
    calls = []

    def place(z):
        return [z[i] * u + (t * v[i] if 't' in fam else 0.0) for i in range(n)]

    def objfun(x):
        calls.append(x)
        z = [(x[i] - t * v[i]) if 't' in fam else x[i] / u for i in range(n)]
        r = []
        for j in range(m):
            q = -b[j]
            for i in range(n):
                q = q + A[j, i] * z[i]
            r.append(q * s)
        return H.arr(r)
    kw = dict(do_logging=False, scaling_within_bounds=bool(cfg.get('scaled')), user_params={'general.check_objfun_for_overflow': False})
    if cfg.get('npt'):
        kw['npt'] = cfg['npt']
    if 'u' in fam or 't' in fam:
        if not cfg.get('scaled'):
            kw['rhobeg'] = u * 0.5
        if 'u' in fam:
            kw['rhoend'] = u * 1e-8
    L, U = (None if lo is None else place(lo)), (None if hi is None else place(hi))
    if L is not None or U is not None:
        kw['bounds'] = (None if L is None else H.arr(list(L)), None if U is None else H.arr(list(U)))
    soln = H.mods.solver.solve(objfun, H.arr(place(x0)), **kw)
    f = true_minimum(A, b, lo, hi) * s * s
    d = lambda: 'A=%s b=%s x0=%s bounds %s %s, s=%s u=%s t=%s: flag %s (%s), x=%s obj=%s; true minimum %s, %d evaluations' % (
        A.tolist(), b.tolist(), x0, lo, hi, s, u, t, soln.flag, soln.msg, soln.x, soln.obj, f, len(calls))
    H.check(soln.flag == soln.EXIT_SUCCESS, 'success', d)
    H.check(soln.obj <= f + 1e-6 * (1 + f), 'optimal', d)
    for i in range(n):
        if L is not None:
            H.check(soln.x[i] >= L[i], 'feasible', d)
        if U is not None:
            H.check(soln.x[i] <= U[i], 'feasible', d)


def main():
    from ..runner import run_check
    return run_check('C05', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
