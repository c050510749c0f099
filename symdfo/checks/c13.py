"""C13: geometry and convex-constrained step solvers stay inside their regions; the bound-constrained geometry step is globally optimal;
the regularised trust-region step never has a negative predicted reduction."""
import inspect, math
import numpy as np
from .. import core, load, symnp, ws
from ..runner import Task

BUDGET = dict(quick=55, thorough=900)
FUNCTIONS = ['dfols.trust_region.%s' % f for f in ('trsbox_geometry', 'trsbox_linear', 'ball_step', 'ctrsbox_geometry', 'ctrsbox_linear', 'ctrsbox_pgd', 'ctrsbox_sfista')] + \
    ['dfols.util.dykstra', 'dfols.util.pball', 'dfols.util.pbox', 'dfols.util.model_value', 'dfols.util.remove_scaling', 'dfols.controller.Controller.trust_region_step']
BOUNDS = ('box geometry step: n=1 with every c, g, box, radius and base point symbolic (|values|<=1e3, radius in [1e-3,1e2], g zero or |g|>=1e-6) - exhaustive; n=2 (n=3 thorough: more) '
          'with the whole circle of gradients, or a bound, the radius, the base point or the gradient scale symbolic, c symbolic, degenerate/active/inactive sides, zero components; '
          'convex solvers: n=1,2 with user projectors returning arbitrary points for the first K<=3 calls and an arbitrary fixed point afterwards (so that the iterations end), '
          'arbitrary gradient/radius, S-FISTA with <=3 iterations and real L1 prox, 1-3 user sets, <=3 Dykstra sweeps; also real ball/half-space/box projectors with symbolic gradient scale; '
          'trust_region_step: n=1,2, arbitrary symbolic gradient and regulariser values, step from the subproblem solver arbitrary (palette) or from the real S-FISTA (n=1), with/without scaling and projections.')
ASSUMPTIONS = ['real arithmetic (tolerances 1e-12 relative for the box, 1e-8 for the ball, 1e-6 for optimality)', 'gradient components are 0 or at least 1e-6 in magnitude (the code ignores components below 1e-14)']

TOL = 1e-12


def tasks(tier):
    big = tier == 'thorough'
    out = []
    ex = dict(nl='exact', norm_mode='exact', timeout_ms=4000, path_timeout=30)
    must = ('box', 'ball', 'optimal', 'no-worse')
    out.append(Task('geo1', 'geo1', dict(), must=must, weight=2, **ex))
    out.append(Task('geo1-x', 'geo1', dict(x=True), must=must, weight=2, **ex))
    o2 = dict(nl='exact', norm_mode='exact', timeout_ms=2500, path_timeout=12)
    for b in BOX2:
        for dl in (1.25, 0.03125, 32.0):
            if not big and dl != 1.25 and b not in ('low', 'thin'):
                continue
            out.append(Task('geo2-%s-%g' % (b, dl), 'geo', dict(n=2, box=BOX2[b], delta=dl, kind='dir'), must=must, **o2))
    for k in ('upper', 'lower', 'delta', 'scale', 'xbase', 'both'):
        out.append(Task('geo2-' + k, 'geo', dict(n=2, box=BOX2['mid'], delta=1.25, kind=k), must=must, **o2))
    for b in BOX3:
        out.append(Task('geo3-' + b, 'geo', dict(n=3, box=BOX3[b], delta=1.25, kind='dir'), must=must, **o2))
    for k in ('upper', 'delta', 'lower'):
        out.append(Task('geo3-' + k, 'geo', dict(n=3, box=BOX3['mid'], delta=1.25, kind=k), must=must, **o2))
    for f in ('linear', 'geometry', 'pgd', 'sfista'):
        for p in (1, 2):
            for mi in (1, 2, 3):
                for K in (0, 1, 2):
                    if not big and (mi == 3 or (K == 2 and mi == 2)):
                        continue
                    out.append(Task('abs1-%s-p%d-it%d-K%d' % (f, p, mi, K), 'absconv', dict(f=f, n=1, p=p, mi=mi, K=K), must=('ball',), weight=0.5, **o2))
        out.append(Task('abs2-' + f, 'absconv', dict(f=f, n=2, p=1, mi=1, K=0), must=('ball',), **o2))
        out.append(Task('none-' + f, 'absconv', dict(f=f, n=1, p=0, mi=2, K=0), must=('ball',), **o2))
        for s in SETS:
            out.append(Task('real-%s-%s' % (f, s), 'realconv', dict(f=f, sets=s), must=('ball',), weight=0.7, **o2))
    for n in (1, 2):
        for sc in (False, True):
            for pj in (False, True):
                out.append(Task('tr%d%s%s' % (n, '-scaled' if sc else '', '-proj' if pj else ''), 'trstep', dict(n=n, scaled=sc, proj=pj), must=('no-increase', 'zero-or-step')))
    for it in (1, 2, 3):
        for pj in (False, True):
            out.append(Task('trreal-%d%s' % (it, '-proj' if pj else ''), 'trreal', dict(it=it, proj=pj), must=('no-increase', 'ball'), nl='exact', norm_mode='exact', timeout_ms=2500, path_timeout=15))
    return out


# ---- box geometry step ---------------------------------------------------------------------------------------------------------
BOX2 = {'far': ([-100, -100], [100, 100]), 'mid': ([-0.75, -1.0], [0.75, 1.0]), 'one': ([-100, -100], [0.75, 100]), 'act': ([0, -100], [100, 100]), 'corner': ([0, -0.75], [0.35, 0]),
        'degen': ([0, -1.0], [0, 0.75]), 'thin': ([-0.0078125, -100], [0.0078125, 1.0]), 'inner': ([-0.25, -0.5], [0.125, 0.0625]), 'low': ([-0.35, -100], [100, 0.75])}
BOX3 = {'far': ([-100] * 3, [100] * 3), 'mid': ([-0.75, -1.0, -0.35], [0.75, 0.35, 1.0]), 'act': ([0, -100, -0.75], [100, 0.35, 0]), 'in': ([-0.25, -0.5, -0.125], [0.5, 0.125, 0.25]),
        'two': ([-0.35, -0.25, -100], [0.125, 0.5, 100]), 'two-b': ([-100, -0.35, -0.125], [100, 0.125, 0.75])}


def sqrt_(H, v):
    return symnp.s_sqrt(v) if core.is_sym(v) else math.sqrt(v)


def linmax(H, g, a, b, delta):
    """max g's over a <= s <= b (a <= 0 <= b), ||s|| <= delta: the clipped ray s = clip(t g), t as large as the ball allows"""
    n = len(g)
    mag, room = [], []
    for i in range(n):
        if g[i] > 0:
            mag.append(g[i])
            room.append(b[i])
        elif g[i] < 0:
            mag.append(-g[i])
            room.append(-a[i])
    free = list(range(len(mag)))
    val = 0.0
    left = delta * delta
    while free:
        # the component that hits its side first along the ray
        k = free[0]
        for i in free[1:]:
            if room[i] * mag[k] < room[k] * mag[i]:
                k = i
        # does the ray reach that side within the ball?  t = room_k/mag_k
        s2 = 0.0
        for i in free:
            s2 = s2 + mag[i] * mag[i]
        if room[k] * room[k] * s2 <= left * mag[k] * mag[k]:
            val = val + mag[k] * room[k]
            left = left - room[k] * room[k]
            free.remove(k)
        else:
            return val + sqrt_(H, left * s2)
    return val


def geo_check(H, xb, c, g, lo, hi, delta):
    n = len(g)
    TR = H.mods.trust_region
    x = TR.trsbox_geometry(H.arr(list(xb)), c, H.arr(list(g)), H.arr(list(lo)), H.arr(list(hi)), delta, use_fortran=False)
    msg = lambda: 'xbase=%s c=%s g=%s lower=%s upper=%s Delta=%s -> x=%s' % (xb, c, list(g), lo, hi, delta, [x[i] for i in range(n)])
    H.check(len(x) == n, 'box', msg)
    nsq = 0.0
    val = c
    for i in range(n):
        ab = abs(xb[i]) if not core.is_sym(xb[i]) else 0.0
        H.check(H.AND(x[i] >= lo[i] - TOL * (1 + ab), x[i] <= hi[i] + TOL * (1 + ab)), 'box', msg)
        s = x[i] - xb[i]
        nsq = nsq + s * s
        val = val + g[i] * s
    H.check(nsq <= delta * delta * (1 + 2e-8) + (0 if H.symbolic else 1e-14), 'ball', msg)
    a = [lo[i] - xb[i] for i in range(n)]
    b = [hi[i] - xb[i] for i in range(n)]
    up = linmax(H, g, a, b, delta)
    dn = linmax(H, [-v for v in g], a, b, delta)
    got = val if val >= 0 else -val
    ac = c if c >= 0 else -c
    gn = 1e-13 * (delta if not core.is_sym(delta) else 1.0) * max([1.0] + [abs(float(v)) for v in g if not core.is_sym(v)])
    H.check(got >= ac * (1 - 1e-9) - gn, 'no-worse', lambda: '|c+g.s|=%s < |c|; %s' % (got, msg()))
    H.check(H.AND(got >= (c + up) * (1 - 1e-6) - gn, got >= (dn - c) * (1 - 1e-6) - gn), 'optimal', lambda: '|c+g.s|=%s, optimum max(%s,%s); %s' % (got, c + up, dn - c, msg()))


def nz(H, g):
    if H.choose(2, 'zero'):
        return 0.0
    H.assume(H.OR(g >= 1e-6, g <= -1e-6))
    return g


def geo1(H, cfg):
    c = H.real('c', -1000, 1000)
    g = nz(H, H.real('g', -1000, 1000))
    delta = H.real('delta', 1e-3, 100)
    xb = H.real('x', -100, 100) if cfg.get('x') else 0.0
    lo = H.real('lo', -1000, 1000)
    hi = H.real('hi', -1000, 1000)
    H.assume(H.AND(lo <= xb, xb <= hi))
    geo_check(H, [xb], c, [g], [lo], [hi], delta)


PY = [(3.0, 4.0), (-4.0, 3.0), (5.0, -12.0), (-8.0, -15.0), (0.0, 2.0), (-2.0, 0.0), (24.0, 7.0), (0.0, 0.0)]


def geo(H, cfg):
    n, kind = cfg['n'], cfg['kind']
    xb = [0.5, -0.25, 2.0][:n]
    dl = cfg['delta']
    lo = [xb[i] + cfg['box'][0][i] for i in range(n)]
    hi = [xb[i] + cfg['box'][1][i] for i in range(n)]
    if kind == 'dir':
        sg = [1.0, -1.0][H.choose(2, 'half')]
        sc = [1.0, 0.0078125, 64.0][H.choose(3, 'scale')] * sg
        u = H.real('u', -1, 1)
        z = H.choose(3, 'zero')
        a, b = (1 - u * u) * sc, u * (2 * sc)
        if z == 1 and n == 2:
            a = 0.0
        if z == 2 and n == 2:
            b = 0.0
        for v in (a, b):
            if core.is_sym(v):
                H.assume(H.OR(v >= 1e-6, v <= -1e-6))
        if n == 2:
            g = [a, b]
        else:
            w = sc * (1 + u * u)
            g = [[a * 0.75, b * 0.75, w], [w, a * 0.75, b * -0.75], [a, 0.0, b]][z]
    else:
        p = PY[H.choose(len(PY), 'g')]
        g = list(p) if n == 2 else ([p[0], p[1], 0.0] if H.choose(2, 'third') else [p[0], math.hypot(*p), p[1]])
        if kind == 'delta':
            dl = H.real('delta', 2.0 ** -10, 32)
        elif kind == 'scale':
            k = H.real('k', 2.0 ** -12, 64)
            g = [v * k for v in g]
        elif kind == 'xbase':
            i = H.choose(n, 'which')
            w = H.real('w', 0, 1)
            xb = list(xb)
            xb[i] = lo[i] + w * (hi[i] - lo[i])
        else:
            i = H.choose(n, 'which')
            w = H.real('w', 0, 4)
            if kind in ('upper', 'both'):
                hi[i] = xb[i] + w
            if kind in ('lower', 'both'):
                lo[i] = xb[i] - (w if kind == 'lower' else 2 * w)
    c = [0.0, 0.5, -4.0, None][H.choose(3 if kind in ('dir', 'delta') else 4, 'c')]
    if c is None:
        c = H.real('c', -100, 100)
    geo_check(H, xb, c, g, lo, hi, dl)


# ---- convex-constrained solvers ----------------------------------------------------------------------------------------------
def call(H, f, xb, c, g, Hm, projs, delta, mi, tol, iters, w):
    TR = H.mods.trust_region
    n = len(xb)
    x, G = H.arr(list(xb)), H.arr(list(g))
    if f == 'linear':
        return TR.ctrsbox_linear(x, G, projs, delta, d_max_iters=mi, d_tol=tol, use_fortran=False)
    if f == 'geometry':
        return TR.ctrsbox_geometry(x, c, G, projs, delta, d_max_iters=mi, d_tol=tol, use_fortran=False)
    Hs = H.arr([[float(v) for v in r] for r in Hm])
    if f == 'pgd':
        r = TR.ctrsbox_pgd(x, G, Hs, projs, delta, d_max_iters=mi, d_tol=tol, use_fortran=False)
        return r[0]

    def h(z, *a):
        s = 0.0
        for i in range(n):
            s = s + core_abs(z[i])
        return w * s

    def prox(z, u, *a):
        out = []
        for i in range(n):
            v = z[i]
            if v > u * w:
                out.append(v - u * w)
            elif v < -u * w:
                out.append(v + u * w)
            else:
                out.append(0.0 * v if core.is_sym(v) else 0.0)
        return H.arr(out)
    r = TR.ctrsbox_sfista(x, G, Hs, projs, delta, h, w * math.sqrt(n), prox, func_tol=1e-3, max_iters=iters, d_max_iters=mi, d_tol=tol, use_fortran=False)
    return r[0]


def core_abs(v):
    return core.sym_abs(v) if core.is_sym(v) else abs(v)


def ball_check(H, d, delta, msg):
    n2 = 0.0
    for i in range(len(d)):
        n2 = n2 + d[i] * d[i]
    H.check(n2 <= delta * delta * (1 + 2e-8), 'ball', lambda: 'd=%s, Delta=%s; %s' % ([d[i] for i in range(len(d))], delta, msg()))


class Abort(Exception):
    pass


def absconv(H, cfg):
    n, p, K, f = cfg['n'], cfg['p'], cfg['K'], cfg['f']
    xb = [0.5, -1.0][:n]
    delta = 1.25 if n == 2 else ([0.03125, 1.0, 64.0][H.choose(3, 'delta')] if f == 'sfista' else H.real('delta', 1e-3, 100))
    rec = []
    if p == 0 and n == 1:
        g = [H.real('g', -100, 100)]
        H.assume(H.OR(g[0] >= delta * 4, g[0] <= delta * -4))   # reaches the ball at once, so that few iterations suffice
    elif n == 1:
        g = [H.real('g', -100, 100)]
    else:
        g = [3.0, -4.0]
    last = None
    if p:
        if n == 1:
            last = [[xb[0] + H.real('p%d' % i, -100, 100)] for i in range(p)]
        else:
            u = H.real('u', -1, 1)
            rho = [0.5, 1.25, 40.0][H.choose(3, 'rho')]
            den = 1 + u * u
            last = [[xb[0] + rho * (1 - u * u) / den, xb[1] + rho * 2 * u / den]]
    cnt = [0]

    def mk(i):
        def proj(x):
            cnt[0] += 1
            if cnt[0] > 4000:
                raise Abort()
            rec.append(1)
            if cnt[0] <= K * p:
                return H.arr([H.real('z%d_%d' % (cnt[0], j), -100, 100) for j in range(n)])
            return H.arr(list(last[i]))
        return proj
    Hm = [[[1.0]], [[0.0]], [[-2.0]]][H.choose(3, 'H')] if n == 1 else [[2.0, 1.0], [1.0, 2.0]]
    if p == 0:
        Hm = [[0.0]] if n == 1 else Hm
    it = 1 + H.choose(3, 'iters') if f == 'sfista' else 1
    c = H.real('c', -10, 10) if f == 'geometry' else 0.0
    try:
        d = call(H, f, xb, c, g, Hm, [mk(i) for i in range(p)], delta, cfg['mi'], [1e-10, 1.0][H.choose(2, 'tol')] if p else 1e-10, it, 0.5)
    except Abort:
        H.cut('many iterations')
    ball_check(H, d, delta, lambda: '%s with %d abstract sets, first %d calls arbitrary, then fixed at %s; xbase=%s g=%s H=%s' % (f, p, K, last, xb, g, Hm))


SETS = ('box', 'half', 'ball', 'box-half', 'outside')


def realconv(H, cfg):
    """real projectors; n=1 with symbolic gradient and radius"""
    f, s = cfg['f'], cfg['sets']
    xb = [0.5]
    delta = H.real('delta', 0.01, 10) if f != 'sfista' else [0.03125, 1.0, 8.0][H.choose(3, 'delta')]
    U = H.mods.util
    w = H.real('w', 0, 10)
    box = lambda x: U.pbox(x, H.arr([xb[0] - w]), H.arr([2.0]))
    half = lambda x: H.arr([x[0] if x[0] <= 1.0 else 1.0])
    ball = lambda x: U.pball(x, H.arr([0.0]), 0.75)
    out = lambda x: U.pbox(x, H.arr([xb[0] + 1.0]), H.arr([xb[0] + 3.0]))
    projs = dict(box=[box], half=[half], ball=[ball])
    projs['box-half'] = [box, half]
    projs['outside'] = [out]
    g = [H.real('g', -100, 100)]
    H.assume(H.OR(g[0] >= delta * 2 + 2, g[0] <= delta * -2 - 2))
    it = 1 + H.choose(2, 'iters') if f == 'sfista' else 1
    d = call(H, f, xb, 1.0, g, [[[0.0]], [[1.0]]][H.choose(2, 'H')] if f == 'sfista' else [[0.0]], projs[s], delta, [1, 3][H.choose(2, 'mi')], 1e-4, it, 0.5)
    ball_check(H, d, delta, lambda: '%s over %s (w=%s), xbase=%s g=%s' % (f, s, w, xb, g))


# ---- Controller.trust_region_step ---------------------------------------------------------------------------------------------
def controller(H, n, xopt, r, lo, hi, projs, h, prox, argsh, argsprox, scaling, params, delta, lh=1.0):
    C = H.mods.controller.Controller
    kw = dict(objfun=None, argsf=(), x0=H.arr(list(xopt)), r0=H.arr(list(r)), r0_nsamples=1, xl=H.arr(lo), xu=H.arr(hi), projections=projs, npt=n + 1, rhobeg=delta, rhoend=1e-8, nf=1, nx=1,
              maxfun=100, params=params, scaling_changes=scaling, r0_eval_num=1, h=h, lh=lh, argsh=argsh, prox_uh=prox, argsprox=argsprox, do_logging=False)
    sig = inspect.signature(C.__init__)
    return C(**{k: kw[k] for k in sig.parameters if k in kw})


def params_of(H, n, upd=None):
    p = H.mods.params.ParameterList(n, n + 1, 100)
    for k, v in (upd or {}).items():
        p(k, new_value=v)
    return p


def trstep(H, cfg):
    """the step returned by the subproblem solver is arbitrary; so are the gradient and the values of the regulariser"""
    n = cfg['n']
    xopt = [0.5, -1.0][:n]
    scaling = (np.array([-2.0, 1.0][:n]), np.array([4.0, 0.5][:n])) if cfg['scaled'] else None
    memo = {}
    args = ('a', 3)

    def h(x, *a):
        H.check(a == args, 'args', lambda: 'regulariser called with extra arguments %r' % (a,))
        k = tuple(round(float(v), 9) for v in ws.P(x))
        if k not in memo:
            memo[k] = H.real('h%d' % len(memo), -100, 100)
        return memo[k]
    steps = [[0.0] * n, [-0.25, 0.1][:n], [0.125, 0.5][:n], [1.0, 0.0][:n]]
    d0 = np.array(steps[H.choose(len(steps), 'step')])
    projs = [lambda x: x] if cfg['proj'] else None
    C = controller(H, n, xopt, [1.0], [-10.0] * n, [10.0] * n, projs, h, (lambda x, u, *a: x), args, (), scaling, params_of(H, n), 1.0)
    g = [H.real('g%d' % i, -100, 100) for i in range(n)]
    Hm = np.array([[[2.0]], [[0.0]]][H.choose(2, 'H')]) if n == 1 else np.array([[[2.0, 1.0], [1.0, 2.0]], [[0.0, 0.0], [0.0, 0.0]]][H.choose(2, 'H')])
    bad = H.choose(3, 'bad')
    gg = list(g)
    if bad == 1:
        gg[0] = float('nan')
    elif bad == 2:
        gg[n - 1] = float('inf')
    C.model.build_full_model = lambda: (H.arr(gg), H.arr(Hm))

    def mk(orig):
        return lambda *a, **k: (H.arr(d0), H.arr(gg), -1.0)
    for nm in ('ctrsbox_sfista', 'ctrsbox_pgd', 'trsbox'):
        load.stub(H.mods, nm, mk)
    res = C.trust_region_step(C_params(H, n))
    d = ws.P(res[0])
    msg = lambda: 'xopt=%s g=%s H=%s scaling=%s solver step %s -> step %s; regulariser values %s' % (xopt, gg, Hm.tolist(), scaling, d0, d, memo)
    H.check(bool(np.array_equal(d, d0) or not np.any(d)), 'zero-or-step', msg)
    if bad:
        H.check(not np.any(d), 'zero-or-step', msg)
        return
    if not np.any(d):
        H.check(True, 'no-increase', msg)
        return
    un = lambda x: x if scaling is None else scaling[0] + x * scaling[1]
    xa = np.array(xopt)
    q = 0.0
    for i in range(n):
        q = q + g[i] * d[i]
    q = q + 0.5 * float(d @ Hm @ d)
    H.check(h(un(xa), *args) - (q + h(un(xa + d), *args)) >= (0.0 if H.symbolic else -1e-9), 'no-increase', msg)


def C_params(H, n, upd=None):
    return params_of(H, n, upd)


def trreal(H, cfg):
    """the real S-FISTA solver inside trust_region_step, n=1, L1 regulariser"""
    xopt = [0.5, 0.0, -2.0][H.choose(3, 'x')]
    w = [0.5, 8.0][H.choose(2, 'w')]
    Hs = [0.0, 2.0][H.choose(2, 'H')]
    delta = [1.0, 0.125][H.choose(2, 'delta')]
    g = H.real('g', -100, 100)

    def h(x, *a):
        return w * core_abs(x[0])

    def prox(z, u, *a):
        v = z[0]
        if v > u * w:
            return H.arr([v - u * w])
        if v < -u * w:
            return H.arr([v + u * w])
        return H.arr([0.0])
    U = H.mods.util
    projs = [lambda x: U.pbox(x, H.arr([-3.0]), H.arr([0.75]))] if cfg['proj'] else None
    upd = {'func_tol.max_iters': cfg['it'], 'dykstra.max_iters': 2}
    C = controller(H, 1, [xopt], [1.0], [-3.0], [0.75], projs, h, prox, (), (), None, params_of(H, 1, upd), delta, lh=w)
    C.model.build_full_model = lambda: (H.arr([g]), H.arr([[Hs]]))
    d = C.trust_region_step(params_of(H, 1, upd))[0]
    msg = lambda: 'xopt=%s g=%s H=%s w=%s delta=%s -> %s' % (xopt, g, Hs, w, delta, d[0])
    H.check(H.AND(d[0] <= delta * (1 + 1e-8), d[0] >= -delta * (1 + 1e-8)), 'ball', msg)
    q = g * d[0] + 0.5 * Hs * d[0] * d[0]
    H.check(w * abs(xopt) - (q + w * core_abs(xopt + d[0])) >= (0.0 if H.symbolic else -1e-9), 'no-increase', msg)


def main():
    from ..runner import run_check
    return run_check('C13', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
