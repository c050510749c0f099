"""C12: the box trust-region step is feasible, short enough, decreasing, at least as good as the Cauchy step, with a correct gradient."""
import math
import numpy as np
from .. import core, load, symnp
from ..runner import Task

BUDGET = dict(quick=60, thorough=900)
FUNCTIONS = ['dfols.trust_region.trsbox', 'dfols.trust_region.alt_trust_step', 'dfols.trust_region.d_within_bounds', 'dfols.util.sumsq']
BOUNDS = ('n=1: every xopt, g, H, sl, su, delta (|values|<=1e3, delta>=1e-4) - exhaustive; n=2: 10 Hessians (zero, PSD full/deficient rank, indefinite, negative) x 7 boxes '
          '(far, near, active, corner) x 3 radii with the gradient direction (and, in part, a bound, the radius or the gradient scale) symbolic; '
          'n=3: 6 Hessians x 4 boxes, one symbolic gradient component. The final clipping is also decided in IEEE double arithmetic (n=1, |values|<=1e6).')
ASSUMPTIONS = ['real arithmetic except the bit-precise clipping layer', 'branches the solver cannot decide within its timeout are not followed (counted as inconclusive)']

H2 = {
    'zero': [[0, 0], [0, 0]], 'eye': [[1, 0], [0, 1]], 'diag10': [[1, 0], [0, 0]], 'pd': [[2, 1], [1, 2]], 'rank1': [[1, 1], [1, 1]], 'rank1b': [[4, -2], [-2, 1]],
    'indef': [[1, 0], [0, -1]], 'indef2': [[0, 2], [2, 0]], 'neg': [[-1, 0], [0, -1]], 'cond': [[100, 0], [0, 0.5]],
}
B2 = {  # sl - xopt, su - xopt
    'far': ([-100, -100], [100, 100]), 'near': ([-0.25, -0.25], [0.25, 0.25]), 'one': ([-100, -100], [0.25, 100]), 'lowact': ([0, -100], [100, 100]),
    'upact': ([-100, -0.5], [100, 0]), 'corner': ([0, -100], [100, 0]), 'thin': ([-100, -0.0625], [100, 0.5]),
}
H3 = {'zero': np.zeros((3, 3)).tolist(), 'pd': [[2, 1, 0], [1, 2, 0.5], [0, 0.5, 1]], 'rank1': [[1, 1, 2], [1, 1, 2], [2, 2, 4]], 'rank2': [[1, 0, 1], [0, 1, 0], [1, 0, 1]],
      'indef': [[1, 0, 0], [0, -1, 0], [0, 0, 2]], 'eye': np.eye(3).tolist()}
B3 = {'far': ([-100] * 3, [100] * 3), 'near': ([-0.25, -0.5, -100], [0.25, 0.125, 0.5]), 'act': ([0, -100, -0.5], [100, 0.25, 0]), 'one': ([-100, -0.125, -100], [100, 100, 100])}
# boundary-refinement families: radius and bounds chosen so that the angle limits are rational
HA = {'neg': [[-1, 0], [0, -16]], 'negf': [[-3, 2], [2, -9]], 'indef': [[-8, 4], [4, 2]], 'indef2': [[0, 6], [6, 0]], 'pd': [[2, 1], [1, 8]], 'zero': [[0, 0], [0, 0]]}
BA = {'far': ([-100, -100], [100, 100]), 'y': ([-100, -0.75], [100, 0.75]), 'x': ([-0.75, -100], [1.0, 100]), 'yl': ([-100, -1.0], [100, 100]), 'xu': ([-100, -100], [0.75, 100])}
X0 = [0.5, -0.25, 2.0]


def tasks(tier):
    big = tier == 'thorough'
    out = [Task('n1', 'n1', dict(xo='zero'), nl='exact', norm_mode='exact', timeout_ms=8000, must=('cauchy', 'box', 'ball', 'gnew'), weight=6, path_timeout=120),
           Task('n1-x', 'n1', dict(xo='sym'), nl='exact', norm_mode='exact', timeout_ms=8000, must=('cauchy', 'box', 'ball', 'gnew'), weight=4, path_timeout=120),
           Task('clip-fp', 'clipfp', dict(), fpmode='abs', must=('clip',), weight=1)]
    o = dict(nl='exact', norm_mode='exact', timeout_ms=2500 if big else 1000, path_timeout=30 if big else 5)
    # combinations whose paths are long (several conjugate-gradient and boundary steps with high-degree coefficients) are left to the thorough tier
    q2 = {'zero': 'far one near thin upper lower delta', 'eye': 'far near lowact thin corner scale upper', 'diag10': 'near lowact corner', 'pd': 'near lowact corner upact',
          'rank1': 'lowact near corner lower', 'rank1b': 'lowact upact near', 'indef': 'near upact far lower', 'indef2': 'near upact corner lower', 'neg': 'far near one thin upper lower delta',
          'cond': 'lowact upact corner lower'}
    q3 = {'zero': 'far near upper', 'rank2': 'act', 'pd': 'act', 'rank1': 'act near'}
    for h in H2:
        for b in B2:
            if big or b in q2[h].split():
                out.append(Task('n2-%s-%s' % (h, b), 'fam', dict(n=2, H=H2[h], box=B2[b]), **o))
        for kind in ('delta', 'scale', 'upper', 'lower'):
            if big or kind in q2[h].split():
                out.append(Task('n2-%s-%s' % (h, kind), 'fam', dict(n=2, H=H2[h], box=B2['far' if kind != 'delta' else 'one'], kind=kind), **o))
    # conjugate-gradient iterates that come back to the bound they started from
    for nm, bx in (('u', ([-100, -100], [0, 100])), ('l', ([0, -100], [100, 100]))):
        for h in ('pd', 'eye', 'cond'):
            out.append(Task('cgback-%s-%s' % (h, nm), 'fam', dict(n=2, H=H2[h], box=bx, delta=1024.0, kind='scale', gs=[(5.0, 12.0), (-5.0, -12.0), (12.0, -5.0)], cmin=1.0), weight=2, **o))
    qa = {'neg': 'y', 'negf': 'x'}
    for h in HA:
        for b in BA:
            ob = dict(o, path_timeout=30 if big else 6)
            if big or b in qa.get(h, '').split():
                out.append(Task('alt-%s-%s' % (h, b), 'fam', dict(n=2, H=HA[h], box=BA[b], delta=1.25, scales=[1.0, 8.0, 64.0]), **ob))
            if big:
                out.append(Task('althess-%s-%s' % (h, b), 'fam', dict(n=2, H=HA[h], box=BA[b], delta=1.25, kind='hess'), **ob))
            out.append(Task('altscale-%s-%s' % (h, b), 'fam', dict(n=2, H=HA[h], box=BA[b], delta=1.25, kind='scale'), **ob))
    for h in H3:
        for b in B3:
            if big or b in q3.get(h, '').split():
                out.append(Task('n3-%s-%s' % (h, b), 'fam', dict(n=3, H=H3[h], box=B3[b]), weight=0.7, **o))
        for kind in ('delta', 'upper'):
            if big or kind in q3.get(h, '').split():
                out.append(Task('n3-%s-%s' % (h, kind), 'fam', dict(n=3, H=H3[h], box=B3['far' if kind != 'delta' else 'one'], kind=kind), weight=0.7, **o))
    return out


def quad(g, Hm, d):
    n = len(g)
    q = 0.0
    for i in range(n):
        q = q + g[i] * d[i]
        for j in range(n):
            q = q + 0.5 * d[i] * Hm[i][j] * d[j]
    return q


def props(H, xopt, g, Hm, lo, hi, delta, d, gnew, gsc=1e-4):
    """lo, hi: sl and su; all per-component lists"""
    n = len(g)
    msg = lambda: 'xopt=%s g=%s H=%s sl=%s su=%s delta=%s -> d=%s gnew=%s' % (xopt, list(g), Hm, lo, hi, delta, [d[i] for i in range(n)], [gnew[i] for i in range(n)])
    nsq = 0.0
    for i in range(n):
        x = xopt[i] + d[i]
        H.check(H.AND(x >= lo[i], x <= hi[i]), 'box', msg)
        nsq = nsq + d[i] * d[i]
    H.check(nsq <= delta * delta * (1 + 2e-8), 'ball', msg)
    scale = 0.0
    if not H.symbolic:
        scale = sum(abs(float(g[i] * d[i])) for i in range(n)) + sum(abs(float(Hm[i][j] * d[i] * d[j])) for i in range(n) for j in range(n))
    q = quad(g, Hm, d)
    H.check(q <= 1e-10 * scale, 'decrease', msg)
    for i in range(n):
        w = g[i]
        sc = abs(float(g[i])) if not H.symbolic else 0.0
        for j in range(n):
            w = w + Hm[i][j] * d[j]
            if not H.symbolic:
                sc += abs(float(Hm[i][j] * d[j]))
        if H.symbolic:
            H.check(H.close(gnew[i], w, 1e-9, gsc), 'gnew', msg)
        else:
            H.check(bool(abs(gnew[i] - w) <= 1e-8 * max(sc, max(abs(float(v)) for v in g)) + 1e-8 * max(abs(float(Hm[i][j])) for j in range(n)) * abs(float(delta))), 'gnew', msg)
    # Cauchy step: steepest descent in the variables not held at a bound, truncated at the first bound / the ball / the minimiser
    s = []
    for i in range(n):
        if (xopt[i] <= lo[i] and g[i] >= 0) or (xopt[i] >= hi[i] and g[i] <= 0):
            s.append(0.0)
        else:
            s.append(-g[i])
    ss = 0.0
    for v in s:
        ss = ss + v * v
    shs = 0.0
    for i in range(n):
        for j in range(n):
            shs = shs + s[i] * Hm[i][j] * s[j]
    # upper limits on the step length t along s: t*s_i within bounds, t^2*ss <= delta^2, t <= ss/shs if shs>0.
    # The reduction is increasing up to the smallest limit, so: -q >= phi(T) for the smallest T.
    if not H.symbolic:
        if ss <= 0:
            return
        T = delta / math.sqrt(ss)
        if shs > 0:
            T = min(T, ss / shs)
        for i in range(n):
            if s[i] > 0:
                T = min(T, (hi[i] - xopt[i]) / s[i])
            elif s[i] < 0:
                T = min(T, (lo[i] - xopt[i]) / s[i])
        red = T * ss - 0.5 * T * T * shs
        H.check(bool(-q >= red * (1 - 1e-6) - 1e-10 * scale), 'cauchy', lambda: 'reduction %g below Cauchy reduction %g; %s' % (-q, red, msg()))
        return
    if not core.is_sym(ss) and ss <= 0:
        return
    if not (ss > 0):
        return
    T = delta / symnp.s_sqrt(ss) if hasattr(symnp, 's_sqrt') else None
    lim = [T]
    if shs > 0:
        lim.append(ss / shs)
    for i in range(n):
        if not core.is_sym(s[i]) and s[i] == 0:
            continue
        if s[i] > 0:
            lim.append((hi[i] - xopt[i]) / s[i])
        elif s[i] < 0:
            lim.append((lo[i] - xopt[i]) / s[i])
    T = lim[0]
    for v in lim[1:]:
        if v < T:
            T = v
    red = T * ss - 0.5 * T * T * shs
    H.check(-q >= red * (1 - 1e-6), 'cauchy', msg)


def n1(H, cfg):
    g = H.real('g', -1000, 1000)
    h = H.real('h', -1000, 1000)
    delta = H.real('delta', 1e-4, 1000)
    x = 0.0 if cfg['xo'] == 'zero' else H.real('x', -10, 10)
    lo = H.real('lo', -1000, 1000)
    hi = H.real('hi', -1000, 1000)
    H.assume(H.AND(lo <= x, x <= hi))
    d, gnew, crv = H.mods.trust_region.trsbox(H.arr([x]), H.arr([g]), H.arr([[h]]), H.arr([lo]), H.arr([hi]), delta, use_fortran=False)
    props(H, [x], [g], [[h]], [lo], [hi], delta, d, gnew)


PY = [(3.0, 4.0), (-4.0, 3.0), (5.0, -12.0), (-8.0, -15.0), (5.0, 12.0), (-5.0, -12.0), (0.0, 2.0), (-2.0, 0.0)]


def fam(H, cfg):
    n = cfg['n']
    Hm = cfg['H']
    xopt = X0[:n]
    lo = [xopt[i] + cfg['box'][0][i] for i in range(n)]
    hi = [xopt[i] + cfg['box'][1][i] for i in range(n)]
    kind = cfg.get('kind', 'dir')
    if kind == 'dir':
        # the whole circle of gradient directions, rationally parametrised
        sg = [1.0, -1.0][H.choose(2, 'half')]
        c = cfg.get('scales', [1.0, 0.0078125, 32.0])[H.choose(3, 'scale')] * sg
        dl = [1.0, 0.0078125, 8.0][H.choose(3, 'delta')] if 'delta' not in cfg else cfg['delta']
        u = H.real('u', -1, 1)
        a, b = (1 - u * u) * c, u * (2 * c)
        if n == 2:
            g = [a, b]
        else:
            g = [[a * 0.75, b * 0.75, c * (1 + u * u)], [c * (1 + u * u), a * 0.75, b * -0.75], [a, 0.0, b]][H.choose(3, 'form')]
    else:
        py = cfg.get('gs', PY)
        p = py[H.choose(len(py), 'g')]
        g = list(p) if n == 2 else [p[0], p[1], 0.0]
        if kind == 'delta':
            dl = H.real('delta', 2.0 ** -10, 64)
        elif kind == 'scale':
            dl = cfg.get('delta', 1.0)
            c = H.real('c', cfg.get('cmin', 2.0 ** -10), 64)
            g = [v * c for v in g]
        elif kind == 'hess':
            dl = cfg['delta']
            c = [0.25, 1.0, 4.0][H.choose(3, 'scale')]
            g = [v * c for v in g]
            i, j = [(0, 0), (1, 1), (0, 1)][H.choose(3, 'entry')]
            Hm = [list(map(float, r)) for r in Hm]
            Hm[i][j] = Hm[j][i] = H.real('h', -32, 32)
        else:
            dl = [1.0, 8.0][H.choose(2, 'delta')]
            w = H.real('b', 0, 16)
            i = H.choose(2, 'which')
            if kind == 'upper':
                hi[i] = xopt[i] + w
            else:
                lo[i] = xopt[i] - w
    d, gnew, crv = H.mods.trust_region.trsbox(H.arr(list(xopt)), H.arr(list(g)), H.arr([[v if core.is_sym(v) else float(v) for v in r] for r in Hm]), H.arr(lo), H.arr(hi), dl, use_fortran=False)
    props(H, xopt, g, Hm, lo, hi, dl, d, gnew, 100.0 if kind in ('scale', 'hess') else 1e-4)


def clipfp(H, cfg):
    """bit-precise: the clipped step never leaves the box after the rounding of xopt + d"""
    f = getattr(H.mods.trust_region, 'd_within_bounds', None)
    if f is None:
        H.cut('no separate clipping routine')
    x = H.fp('x', lo=-1e6, hi=1e6)
    lo = H.fp('lo', lo=-1e6, hi=1e6)
    hi = H.fp('hi', lo=-1e6, hi=1e6)
    d = H.fp('d', lo=-1e6, hi=1e6)
    H.assume(H.AND(lo <= x, x <= hi))
    b = H.choose(3, 'xbdi')
    xb = np.array([[0, -1, 1][b]])
    r = f(H.arr([d]), H.arr([x]), H.arr([lo]), H.arr([hi]), xb)
    y = x + r[0]
    H.check(H.AND(y >= lo, y <= hi), 'clip', lambda: 'xopt=%r d=%r box [%r,%r] -> %r, xopt+d=%r' % (x, d, lo, hi, r, y))


def main():
    from ..runner import run_check
    return run_check('C12', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
