"""C15: Dykstra's routine: stopping rule, sweep cap, set distances, box last, fixed points; the exact projectors pball/pbox;
nearness to the true projection on parametric families."""
import math
import numpy as np
from .. import core, load, symnp
from ..runner import Task

BUDGET = dict(quick=90, thorough=900)
FUNCTIONS = ['dfols.util.dykstra', 'dfols.util.pball', 'dfols.util.pbox']
BOUNDS = ('abstract layer: n<=2 (3 thorough), p<=4 sets, <=3 sweeps (5 thorough), projector outputs arbitrary symbolic reals, tol in {1e-10,1e-4,1}, max_iter 0..5; '
          'projector layer: pball/pbox with symbolic point, centre, radius and bounds, n<=2; '
          'family layer: products of intervals, axis-aligned boxes and half-planes with concrete rational normals, offsets and start symbolic, '
          'n<=2, p<=3, up to 40 sweeps; accuracy 1e-3 against the exact projection (KKT enumeration).')
ASSUMPTIONS = ['real arithmetic']


def abstract_tasks(tier, keys=None):
    out = []
    big = tier == 'thorough'
    for n, p, mi in [(1, 1, 2), (1, 2, 2), (1, 2, 3), (1, 3, 2), (1, 3, 3), (1, 4, 2), (2, 2, 2), (2, 3, 1), (2, 2, 3), (1, 2, 1), (1, 2, 0)] + ([(2, 3, 2), (3, 2, 2), (1, 4, 4), (1, 2, 6), (2, 3, 3)] if big else []):
        for tol in (1e-10, 1e-4, 1.0):
            out.append(Task('abs-n%d-p%d-it%d-tol%g' % (n, p, mi, tol), 'abstract', dict(n=n, p=p, mi=mi, tol=tol), nl='exact', norm_mode='exact',
                            must=('sweeps',) if mi else ('sweeps',), timeout_ms=20000))
    return out


def tasks(tier):
    out = abstract_tasks(tier)
    for n in (1, 2):
        for p in (1, 2, 3):
            out.append(Task('fixed-n%d-p%d' % (n, p), 'fixed', dict(n=n, p=p), nl='exact', norm_mode='exact', must=('unchanged',)))
    for n in (1, 2, 3):
        out.append(Task('boxlast-n%d' % n, 'boxlast', dict(n=n), nl='exact', norm_mode='exact', must=('box-last',)))
        out.append(Task('pbox-n%d' % n, 'pbox', dict(n=n), nl='exact', norm_mode='exact', must=('pbox',)))
        if n <= 2:
            out.append(Task('pball-n%d' % n, 'pball', dict(n=n), nl='exact', norm_mode='exact', must=('pball',), timeout_ms=30000))
    for k in FAM:
        if tier == 'thorough' or not FAM[k].get('thorough'):
            out.append(Task('fam-' + k, 'family', FAM[k], nl='exact', norm_mode='exact', must=('near',), timeout_ms=20000, path_timeout=60))
    return out


def vec(H, nm, n, lo=-100, hi=100):
    return [H.real('%s_%d' % (nm, i), lo, hi) for i in range(n)]


def sq(a, b):
    s = 0.0
    for i in range(len(a)):
        d = a[i] - b[i]
        s = s + d * d
    return s


def abstract(H, cfg):
    n, p, mi, tol = cfg['n'], cfg['p'], cfg['mi'], cfg['tol']
    x0 = vec(H, 'x', n)
    ins, outs = [], []

    def mk(i):
        def proj(x):
            H.check(len(outs) % p == i, 'order', lambda: 'set %d projected out of turn' % i)
            z = vec(H, 'z%d' % len(outs), n)
            ins.append([x[j] for j in range(n)])
            outs.append(z)
            return H.arr(z)
        return proj
    xa = H.arr(list(x0))
    r = H.mods.util.dykstra([mk(i) for i in range(p)], xa, max_iter=mi, tol=tol)
    for i in range(n):
        H.check(H.close(xa[i], x0[i], 0.0), 'x0-unchanged', lambda: 'x0 overwritten')
    H.check(len(outs) <= mi * p, 'sweeps', lambda: '%d projections > %d sweeps of %d sets' % (len(outs), mi, p))
    H.check(len(outs) % p == 0, 'whole-sweeps')
    sweeps = len(outs) // p
    seq = [list(x0)] + outs
    for i in range(n):
        H.check(H.close(r[i], seq[-1][i], 1e-12), 'last-output', lambda: 'result %r is not the last projection %r' % (r, seq[-1]))
    if sweeps == 0:
        H.check(mi == 0, 'stops-early', 'no sweep performed')
        return
    # Dykstra's correction form: set i sees (previous iterate) - (its own last correction)
    ys = [[0.0] * n for _ in range(p)]
    cI = None
    for k in range(sweeps):
        cI = 0.0
        for i in range(p):
            t = k * p + i
            for j in range(n):
                H.check(H.close(ins[t][j], seq[t][j] - ys[i][j], 1e-9), 'correction', lambda: 'sweep %d set %d projects the wrong point' % (k + 1, i + 1))
                ys[i][j] = seq[t + 1][j] - (seq[t][j] - ys[i][j])
            cI = cI + sq(seq[t + 1], seq[t])
    # stopped before the cap only by the rule, and the rule implies the set distances
    met = cI < tol
    if sweeps < mi:
        H.check(cI <= tol * (1 + 1e-9), 'stops-early', lambda: 'stopped after %d of %d sweeps with change %r' % (sweeps, mi, cI))
    for i in range(p):
        d2 = sq(outs[(sweeps - 1) * p + i], [r[j] for j in range(n)])
        H.check(H.OR(H.NOT(met), d2 <= p * tol * (1 + 1e-9)), 'rule', lambda: 'distance^2 %r to set %d exceeds p*tol' % (d2, i))


def fixed(H, cfg):
    """a point in all sets is returned unchanged after one sweep"""
    n, p = cfg['n'], cfg['p']
    x0 = vec(H, 'x', n)
    cnt = [0]

    def proj(x):
        cnt[0] += 1
        same = H.AND(*[H.close(x[i], x0[i], 0.0) for i in range(n)])
        H.check(same, 'unchanged', lambda: 'iterate moved to %r' % x)
        return x.copy()
    r = H.mods.util.dykstra([proj] * p, H.arr(list(x0)))
    for i in range(n):
        H.check(H.close(r[i], x0[i], 1e-12), 'unchanged', lambda: 'returned %r for feasible %r' % (r, x0))
    H.check(cnt[0] <= 2 * p, 'unchanged', lambda: '%d projections of a feasible point' % cnt[0])


def boxlast(H, cfg):
    n = cfg['n']
    x0 = vec(H, 'x', n)
    l, u = vec(H, 'l', n), vec(H, 'u', n)
    for i in range(n):
        H.assume(l[i] <= u[i])
    k = [0]

    def any_proj(x):
        k[0] += 1
        return H.arr(vec(H, 'z%d' % k[0], n))
    U = H.mods.util
    r = U.dykstra([any_proj, lambda x: U.pbox(x, H.arr(l), H.arr(u))], H.arr(x0), max_iter=2)
    for i in range(n):
        H.check(H.AND(r[i] >= l[i], r[i] <= u[i]), 'box-last', lambda: '%r outside [%r,%r]' % (r[i], l[i], u[i]))


def pbox(H, cfg):
    n = cfg['n']
    x, l, u, z = vec(H, 'x', n), vec(H, 'l', n), vec(H, 'u', n), vec(H, 'z', n)
    for i in range(n):
        H.assume(l[i] <= u[i])
        H.assume(H.AND(z[i] >= l[i], z[i] <= u[i]))
    r = H.mods.util.pbox(H.arr(x), H.arr(l), H.arr(u))
    for i in range(n):
        H.check(H.AND(r[i] >= l[i], r[i] <= u[i]), 'pbox', lambda: 'outside')
        # nearest point of the interval: variational inequality
        H.check((x[i] - r[i]) * (z[i] - r[i]) <= 1e-9, 'pbox', lambda: 'not the nearest point: x=%r -> %r but %r is in the box' % (x[i], r[i], z[i]))


def pball(H, cfg):
    n = cfg['n']
    x, c, z = vec(H, 'x', n, -10, 10), vec(H, 'c', n, -10, 10), vec(H, 'z', n, -10, 10)
    rad = H.real('r', 1e-2, 10)
    p = H.mods.util.pball(H.arr(x), H.arr(c), rad)
    H.check(sq(p, c) <= rad * rad * (1 + 1e-9), 'pball', lambda: 'outside ball')
    inside = sq(x, c) <= rad * rad
    if inside:
        for i in range(n):
            H.check(H.close(p[i], x[i], 1e-9, 10.0), 'pball', lambda: 'interior point moved')
    else:
        # p = c + t (x-c) with t in (0,1) and |p-c| = r  <=>  the projection
        H.check(sq(p, c) >= rad * rad * (1 - 1e-9), 'pball', lambda: 'exterior point not mapped to the sphere')
        dot = 0.0
        for i in range(n):
            dot = dot + (p[i] - c[i]) * (x[i] - c[i])
        H.check(dot >= -1e-9, 'pball', lambda: 'wrong side')
        if n == 2:
            cr = (p[0] - c[0]) * (x[1] - c[1]) - (p[1] - c[1]) * (x[0] - c[0])
            H.check(H.AND(cr <= 1e-7, cr >= -1e-7), 'pball', lambda: 'not radial')


# ---------------------------------------------------------------------------- families with a known projection
# half-planes a.x <= b0 + b1*t  (concrete a, b0, b1), start x0 + t*dir, t symbolic in [0, T]; boxes = pairs of half-planes handled as one set
def hp(a, b, bt=0.0):
    return ('half', tuple(map(float, a)), float(b), float(bt))


def bx(l, u):
    return ('box', tuple(map(float, l)), tuple(map(float, u)))


FAM = {
    'orth': dict(sets=[hp([1, 0], 1), hp([0, 1], 1)], x0=(0, 0), dir=(3, 2), T=3),
    'orth-box': dict(sets=[hp([1, 0], 1), bx([-1, -1], [2, 0.5])], x0=(-3, 0), dir=(3, 2), T=3),
    'int1': dict(sets=[bx([-2], [1]), bx([0], [3])], x0=(-5,), dir=(1,), T=10),
    'int3': dict(sets=[bx([-2], [1]), bx([0], [3]), bx([-1], [0.5])], x0=(-5,), dir=(1,), T=10),
    'wide': dict(sets=[hp([1, 0], 1), hp([0.1, 1], 1)], x0=(0.5, 0), dir=(2, 3), T=2),
    'wide-t': dict(sets=[hp([1, 0], 1, 0.3), hp([0.1, 1], 1, -0.5)], x0=(2, 2), dir=(1, 0), T=2),
    'wide2': dict(sets=[hp([1, 0.2], 1), hp([-0.1, 1], 1)], x0=(0.5, 0), dir=(2, 3), T=2),
    'deg60': dict(sets=[hp([1, 0], 1), hp([0.5, 0.8660254037844386], 1)], x0=(0.5, 0), dir=(3, 1), T=2),
    'deg60b': dict(sets=[hp([1, 0], 1), hp([0.5, 0.8660254037844386], 1)], x0=(1.2, 0.2), dir=(0.3, 1), T=2),
    'deg45': dict(sets=[hp([1, 0], 1), hp([1, 1], 1.5)], x0=(2, -1), dir=(0, 1), T=4, thorough=True),
    'deg120': dict(sets=[hp([1, 0], 1), hp([-0.5, 0.8660254037844386], 1)], x0=(2, 0), dir=(0.5, 1), T=3),
    'box-half': dict(sets=[hp([1, 1], 1), bx([-1, -1], [0.75, 3])], x0=(-1, 1), dir=(1, 0.5), T=4),
    'three': dict(sets=[hp([1, 0], 1), hp([0.1, 1], 1), bx([-2, -2], [0.9, 0.8])], x0=(0.5, 0), dir=(2, 3), T=2),
    'box-box': dict(sets=[bx([-2, -2], [0.9, 0.8]), bx([-1, -3], [4, 0.5])], x0=(-5, -5), dir=(1, 0.8), T=10),
}


def constraints(cfg, t):
    out = []
    n = len(cfg['x0'])
    for s in cfg['sets']:
        if s[0] == 'half':
            out.append((s[1], s[2] + s[3] * t))
        else:
            for i in range(n):
                e = [0.0] * n
                e[i] = 1.0
                out.append((tuple(e), s[2][i]))
                e = [0.0] * n
                e[i] = -1.0
                out.append((tuple(e), -s[1][i]))
    return out


def family(H, cfg):
    t = H.real('t', 0, cfg['T'])
    n = len(cfg['x0'])
    x0 = [cfg['x0'][i] + t * cfg['dir'][i] for i in range(n)]
    U = H.mods.util
    nsw = [0]

    def mk(s, last):
        def proj(x):
            nsw[0] += last
            if s[0] == 'half':
                a, b = s[1], s[2] + s[3] * t
                v = -b
                for i in range(n):
                    v = v + a[i] * x[i]
                if v <= 0:
                    return x.copy()
                aa = sum(c * c for c in a)
                return H.arr([x[i] - v * (a[i] / aa) for i in range(n)])
            r = []
            for i in range(n):
                if x[i] <= s[1][i]:
                    r.append(s[1][i])
                elif x[i] >= s[2][i]:
                    r.append(s[2][i])
                else:
                    r.append(x[i])
            return H.arr(r)
        return proj
    Ps = [mk(s, i == len(cfg['sets']) - 1) for i, s in enumerate(cfg['sets'])]
    mi = 40
    r = U.dykstra(Ps, H.arr(x0), max_iter=mi)
    if nsw[0] >= mi:
        H.cut('hit the sweep cap')
    cons = constraints(cfg, t)
    # exact projection: try every active set of size <= n in order; exactly one satisfies the KKT conditions
    import itertools
    for k in range(0, n + 1):
        for act in itertools.combinations(range(len(cons)), k):
            A = np.array([cons[i][0] for i in act]).reshape(k, n)
            if k and np.linalg.matrix_rank(A) < k:
                continue
            if k:
                G = np.linalg.inv(A @ A.T)
                res = []
                for i in range(k):
                    v = -cons[act[i]][1]
                    for j in range(n):
                        v = v + float(A[i, j]) * x0[j]
                    res.append(v)
                lam = []
                for i in range(k):
                    v = 0.0
                    for j in range(k):
                        v = v + float(G[i, j]) * res[j]
                    lam.append(v)
                xs = []
                for j in range(n):
                    v = x0[j]
                    for i in range(k):
                        v = v - float(A[i, j]) * lam[i]
                    xs.append(v)
            else:
                lam, xs = [], x0
            conds = [l >= 0 for l in lam]
            for a, b in cons:
                v = -b
                for j in range(n):
                    v = v + a[j] * xs[j]
                conds.append(v <= 1e-9)
            kkt = H.AND(*conds)
            near = H.AND(*[H.AND(r[j] - xs[j] <= 7e-4, xs[j] - r[j] <= 7e-4) for j in range(n)])
            H.check(H.OR(H.NOT(kkt), near), 'near', lambda: 'result %r is not within 1e-3 of the projection %r of %r' % (r, xs, x0))
