"""C14: the initial interpolation set is feasible and well poised; the random direction generators respect bounds, length and count."""
import math
import numpy as np
from .. import core, symnp, ws
from ..runner import Task

BUDGET = dict(quick=50, thorough=600)
FUNCTIONS = ['dfols.solver.solve (entry, projection of x0, scaling)', 'dfols.solver.solve_main (initialisation)', 'dfols.controller.Controller.initialise_coordinate_directions',
             'dfols.model.Model (as_absolute_coordinates, change_point)', 'dfols.util.random_orthog_directions_within_bounds', 'dfols.util.random_directions_within_bounds', 'dfols.util.get_scale']
BOUNDS = ('initial set: n=1 (npt 2,3) with x0, both bounds, rhobeg and all residuals symbolic; n=2 (npt 3,4,5) and n=3 (npt 4..7) with x0 and bounds symbolic; n=4..8 with one or two symbolic coordinates and the others '
          'at concrete interior/face/corner/infeasible positions, npt in {n+1, n+2, 2n, 2n+1}; one-sided and missing bounds; internal scaling on/off (box >= 2*rhobeg). '
          'direction generators: n<=2 with symbolic bounds, length and random vectors (n=3 with parametrised directions), every active-set pattern, up to 2n+2 requested directions, with/without negatives.')
ASSUMPTIONS = ['real arithmetic', 'numpy.linalg.qr returns an arbitrary orthogonal matrix (1x1: +-1, 2x2: any rotation/reflection, 3x3: rotations about one axis composed with a fixed one)',
               'numpy.random.normal returns arbitrary nonzero vectors']


def tasks(tier):
    big = tier == 'thorough'
    out = []
    o = dict(nl='exact', norm_mode='exact', timeout_ms=4000, path_timeout=20, float_mode='format', minmax='fork')
    must = ('first', 'inside', 'distance', 'poised')
    for npt in (2, 3):
        for sc in (False, True):
            out.append(Task('n1-npt%d%s' % (npt, '-scaled' if sc else ''), 'init', dict(n=1, npt=npt, sym=[0], rhosym=not sc, scaled=sc), must=must, weight=2, **o))
        for side in ('lower', 'upper', 'none'):
            out.append(Task('n1-npt%d-%s' % (npt, side), 'init', dict(n=1, npt=npt, sym=[0], rhosym=True, side=side), must=must, **o))
    for npt in (3, 4, 5):
        for sc in (False, True):
            out.append(Task('n2-npt%d%s' % (npt, '-scaled' if sc else ''), 'init', dict(n=2, npt=npt, sym=[0, 1], scaled=sc), must=must, weight=2, **o))
    for npt in (4, 5, 6, 7):
        out.append(Task('n3-npt%d' % npt, 'init', dict(n=3, npt=npt, sym=[0, 1, 2] if big else [1, 2]), must=must, weight=1.5, **o))
    for n in (4, 5, 6, 7, 8) if big else (4, 8):
        for npt in sorted(set((n + 1, n + 2, 2 * n, 2 * n + 1))):
            out.append(Task('n%d-npt%d' % (n, npt), 'init', dict(n=n, npt=npt, sym='any'), must=must, weight=0.7, **o))
    for f in ('orthog', 'orthog-pos', 'random'):
        for n in (1, 2, 3):
            for num in (1, n, n + 1, 2 * n, 2 * n + 2):
                out.append(Task('dir-%s-n%d-%d' % (f, n, num), 'dirs', dict(f=f, n=n, num=num), must=('count', 'inside', 'length'), weight=0.5, **o))
    for f in ('orthog', 'random'):
        for w in range(3):
            out.insert(0, Task('dirfp-%s-%d' % (f, w), 'dirsfp', dict(f=f, which=w), must=('inside',), fpmode='abs', timeout_ms=20000 if not big else 120000, path_timeout=40 if not big else 300))
    return out


class Done(Exception):
    pass


def interior(i):
    """concrete placements (x0, lower, upper) for rhobeg=1"""
    return [(0.0, -3.0, 4.0), (-3.0, -3.0, 4.0), (4.0, -3.0, 4.0), (-2.995, -3.0, 4.0), (3.4, -3.0, 4.0), (9.0, -3.0, 4.0), (-2.0, -3.0, -1.0), (-1.0, -3.0, -1.0)][i % 8]


def init(H, cfg):
    n, npt = cfg['n'], cfg['npt']
    sym = cfg['sym']
    if sym == 'any':
        sym = [H.choose(n, 'coord')]
    x0, lo, hi = [], [], []
    rho = H.real('rho', 1e-3, 100) if cfg.get('rhosym') else (0.25 if cfg.get('scaled') else 1.0)
    side = cfg.get('side')
    off = H.choose(3, 'layout') if len(sym) < n else 0
    for i in range(n):
        if i in sym:
            x0.append(H.real('x%d' % i, -100, 100))
            l = H.real('l%d' % i, -100, 100)
            u = H.real('u%d' % i, -100, 300)
            if side in (None, 'lower'):
                lo.append(l)
            if side in (None, 'upper'):
                hi.append(u)
            if side is None:
                H.assume(u - l >= 2.0 * rho * (1.0 if not cfg.get('scaled') else 0.0) + (1e-2 if cfg.get('scaled') else 0.0))
        else:
            a, b, c = interior(i * 3 + off)
            x0.append(a)
            lo.append(b)
            hi.append(c)
    seen = []

    def objfun(x):
        seen.append([x[i] for i in range(n)])
        if len(seen) >= npt:
            raise Done()
        return H.arr([H.real('r%d' % len(seen), 1, 1000)])
    kw = dict(npt=npt, rhobeg=rho, rhoend=1e-6, maxfun=npt, do_logging=False, scaling_within_bounds=bool(cfg.get('scaled')), user_params={'general.check_objfun_for_overflow': False})
    if side != 'none':
        kw['bounds'] = (H.arr(list(lo)) if lo else None, H.arr(list(hi)) if hi else None)
    msg = lambda: 'x0=%s lower=%s upper=%s rhobeg=%s npt=%d: evaluated %s' % (x0, lo, hi, rho, npt, seen)
    res = None
    try:
        res = H.mods.solver.solve(objfun, H.arr(list(x0)), **kw)
    except core.EngineStop:
        raise
    except Done:
        pass
    except Exception as e:
        H.fail('inside', lambda: 'solve raised %s: %s; %s' % (type(e).__name__, e, msg()))
        return
    if side == 'none':
        H.check(True, 'inside', msg)
    H.check(len(seen) == npt, 'first', lambda: 'only %d evaluations (flag %s); %s' % (len(seen), res.flag if res is not None else None, msg()))
    # projected starting point
    y0 = []
    for i in range(n):
        v = x0[i]
        if lo:
            v = lo[i] if v < lo[i] else v
        if hi:
            v = hi[i] if v > hi[i] else v
        y0.append(v)
    big = 1000.0
    for i in range(n):
        H.check(H.close(seen[0][i], y0[i], 1e-12, big), 'first', lambda: 'first evaluation is not the projected x0 %s; %s' % (y0, msg()))
    tol = 0.0 if H.symbolic else 1e-12
    # in scaled problems the radius is relative to the box
    rad = [rho * (hi[i] - lo[i]) if cfg.get('scaled') else rho for i in range(n)]
    for k, x in enumerate(seen):
        for i in range(n):
            if lo:
                H.check(x[i] >= lo[i], 'inside', msg)
            if hi:
                H.check(x[i] <= hi[i], 'inside', msg)
    A = [[(x[i] - seen[0][i]) / rad[i] for i in range(n)] for x in seen[1:]]
    for row in A:
        d2 = 0.0
        for v in row:
            d2 = d2 + v * v
        H.check(H.AND(d2 >= 1e-4 * (1 - 1e-6) - tol, d2 <= 4.0 * (1 + 1e-6) + tol), 'distance', lambda: 'a point at distance^2 %s (radius units); %s' % (d2, msg()))
    # no two points coincide (a repeated point is not affinely independent of the others)
    for k in range(len(A)):
        for l in range(k):
            q = 0.0
            for i in range(n):
                v = A[k][i] - A[l][i]
                q = q + v * v
            H.check(q >= 1e-6, 'distinct', lambda: 'evaluations %d and %d coincide; %s' % (l + 2, k + 2, msg()))
    if not H.symbolic:
        W = np.array(A, dtype=float)
        c = np.linalg.cond(W)
        H.check(bool(c < 1e4), 'poised', lambda: 'condition number %g; %s' % (c, msg()))
        return
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            s = 0.0
            for row in A:
                a, b = row[i], row[j]
                if (not core.is_sym(a) and a == 0) or (not core.is_sym(b) and b == 0):
                    continue
                s = s + a * b
            M[i][j] = s
    K2 = 1e8
    diag = all(not core.is_sym(M[i][j]) and M[i][j] == 0 for i in range(n) for j in range(n) if i != j)
    if diag:
        mx = mn = M[0][0]
        for i in range(n):
            H.check(M[i][i] > 0, 'poised', msg)
        for i in range(n):
            for j in range(n):
                if i != j:
                    H.check(M[i][i] < K2 * M[j][j], 'poised', lambda: 'condition number too large; %s' % msg())
        H.check(True, 'poised')
        return
    D = det(M)
    T = 0.0
    for i in range(n):
        T = T + M[i][i]
    # lambda_min >= det/(T/(n-1))^(n-1), lambda_max <= T
    t = T
    for _ in range(n - 1):
        t = t * (T / (n - 1))
    H.check(t < K2 * D, 'poised', lambda: 'condition number too large; %s' % msg())


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = 0.0
    for j in range(n):
        if not core.is_sym(M[0][j]) and M[0][j] == 0:
            continue
        s = s + (-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
    return s


class Rand(object):
    """arbitrary random vectors and orthogonal matrices"""

    def __init__(self, H, n):
        self.H, self.n, self.k = H, n, 0

    def vec(self, n):
        H = self.H
        self.k += 1
        if n == 1:
            v = H.real('z%d' % self.k, -10, 10)
            H.assume(H.OR(v >= 1e-3, v <= -1e-3))
            return [v]
        if self.k > 2:   # further vectors are concrete
            return [[0.6, -0.8], [-1.2, 0.5], [0.3, 0.1], [-0.1, -0.7]][self.k % 4] if n == 2 else [[1.0, -2.0, 2.0], [-0.3, 0.4, 1.2], [-1.0, -1.0, 0.5]][self.k % 3]
        u = H.real('z%d' % self.k, -1, 1)
        s = [1.0, -2.0][H.choose(2, 'half')]
        a, b, r = (1 - u * u) * s, 2 * s * u, s * (1 + u * u)
        if n == 2:
            return [a, b]
        return [[a * 0.75, b * 0.75, r], [r, b * -0.75, a * 0.75], [b, 0.0, a]][H.choose(3, 'form')]

    def normal(self, loc=0.0, scale=1.0, size=None):
        if isinstance(size, tuple) and len(size) == 2:
            return self.H.arr(np.eye(size[0], size[1]))      # only used through qr
        n = size[0] if isinstance(size, tuple) else (size if size is not None else 1)
        return self.H.arr(self.vec(n))

    def qr(self, A, *a, **k):
        H = self.H
        n = A.shape[0]
        self.k += 1
        if n == 1:
            Q = [[[1.0, -1.0][H.choose(2, 'q')]]]
        elif n == 2:
            u = H.real('q%d' % self.k, -1, 1)
            s = [1.0, -1.0][H.choose(2, 'q')]
            e = [1.0, -1.0][H.choose(2, 'qs')]
            den = 1 + u * u
            c, t = s * (1 - u * u) / den, 2 * s * u / den
            Q = [[c, -e * t], [t, e * c]]
        else:
            B = [[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.], [-1 / 3., 2 / 3., 2 / 3.]]
            i = H.choose(3, 'q')
            Q = [[B[r][(cc + i) % 3] for cc in range(3)] for r in range(3)]
        return H.arr(Q), H.arr(np.eye(n))


def dirs(H, cfg):
    n, num, f = cfg['n'], cfg['num'], cfg['f']
    U = H.mods.util
    delta = H.real('delta', 1e-3, 100) if n == 1 else [1.0, 0.0625][H.choose(2, 'delta')]
    lo, hi = [], []
    for i in range(n):
        act = H.choose(3, 'act')
        if n == 1 or i == 0:
            a = H.real('a%d' % i, 1e-4, 50)
            b = H.real('b%d' % i, 1e-4, 50)
        else:
            a, b = [(0.75, 100.0), (0.03125, 0.25)][H.choose(2, 'box')]
        lo.append(0.0 if act == 1 else -a)
        hi.append(0.0 if act == 2 else b)
    R = Rand(H, n)
    np_mod = U.np
    # the generator sees arbitrary random vectors and an arbitrary orthogonal factor
    fake = Proxy(np_mod, random=Proxy(np_mod.random, normal=R.normal, randn=lambda *s: R.normal(size=s if len(s) > 1 else s[0])), linalg=Proxy(np_mod.linalg, qr=R.qr))
    U.np = fake
    try:
        args = (H.arr(list(lo)), H.arr(list(hi)))
        if f == 'random':
            D = U.random_directions_within_bounds(num, delta, *args)
        else:
            D = U.random_orthog_directions_within_bounds(num, delta, *args, with_neg_dirns=(f == 'orthog'))
    except core.EngineStop:
        raise
    except Exception as e:
        H.fail('count', lambda: '%s raised %s: %s for lower=%s upper=%s delta=%s' % (f, type(e).__name__, e, lo, hi, delta))
        return
    finally:
        U.np = np_mod
    msg = lambda: '%s(%d directions, delta=%s, lower=%s, upper=%s) -> %s' % (f, num, delta, lo, hi, D)
    H.check(tuple(D.shape) == (num, n), 'count', msg)
    for k in range(num):
        d2 = 0.0
        for i in range(n):
            H.check(H.AND(D[k, i] >= lo[i], D[k, i] <= hi[i]), 'inside', msg)
            d2 = d2 + D[k, i] * D[k, i]
        H.check(d2 <= delta * delta * (1 + 1e-8), 'length', lambda: 'direction %d: squared length %s; %s' % (k, d2, msg()))


FPD = [(0.6, -0.8), (-1.2, 0.5), (0.3, 0.7), (-0.1, -0.7), (0.9, 0.1)]


def dirsfp(H, cfg):
    """bit-precise: with rounding, every component is still exactly inside (bounds on the first variable are arbitrary doubles)"""
    U = H.mods.util
    f, w = cfg['f'], cfg['which']
    a, b = H.fp('lo', lo=-1.0, hi=-2.0 ** -10), H.fp('hi', lo=2.0 ** -10, hi=1.0)
    lo = [a, -100.0] if w != 1 else [-100.0, a]
    hi = [b, 50.0] if w != 1 else [50.0, b]
    delta = 1.75 if w != 2 else 20.0
    k = [0]

    def normal(loc=0.0, scale=1.0, size=None):
        if isinstance(size, tuple) and len(size) == 2:
            return np.array([[0.6, -0.8], [0.7, 0.9]])[:size[0], :size[1]]
        k[0] += 1
        return np.array(FPD[(k[0] + 2 * w) % len(FPD)])
    np_mod = U.np
    U.np = Proxy(np_mod, random=Proxy(np_mod.random, normal=normal))
    num = 2 if f == 'random' else 4
    try:
        fn = U.random_directions_within_bounds if f == 'random' else U.random_orthog_directions_within_bounds
        D = fn(num, delta, H.arr(list(lo)), H.arr(list(hi)))
    finally:
        U.np = np_mod
    i = 0 if w != 1 else 1
    for j in range(num):
        H.check(H.AND(D[j, i] >= a, D[j, i] <= b), 'inside', lambda: '%s: direction %d has component %s outside [%s, %s]' % (f, j, D[j, i], a, b))


class Proxy(object):
    def __init__(self, base, **kw):
        self.__dict__['_b'] = base
        self.__dict__.update(kw)

    def __getattr__(self, k):
        return getattr(self._b, k)


def main():
    from ..runner import run_check
    return run_check('C14', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
