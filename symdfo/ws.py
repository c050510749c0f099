"""Whole-solve harness: the real dfols.solve() with a residual function returning symbolic values.

Point geometry stays concrete; the subproblem solvers (trsbox, ctrsbox_pgd, ctrsbox_sfista) are replaced by an
environment that returns any step of a small palette satisfying their contract (inside the region, within the radius),
and the predicted reduction is an unconstrained symbolic number (non-negative unless cfg['predlo'] says otherwise).
Everything else - initialisation, interpolation, incumbent bookkeeping, ratio test, radius update, restarts, exits - is
the unmodified code.
"""
import re, math, inspect, logging
import numpy as np
from . import load, core, symnp

LOGRE = re.compile(r'Function eval (\d+) at point (\d+)')
KINDS = ['nan', 'inf', '-inf', 'big', 'exc']


class ObjError(Exception):
    pass


class LogCatch(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=logging.INFO)
        self.pts = []

    def emit(self, rec):
        m = LOGRE.search(rec.getMessage())
        if m:
            self.pts.append((int(m.group(1)), int(m.group(2))))


class Call(object):
    __slots__ = ('x', 'r', 'fault', 'f', 'ns', 'rmean', 'key')


class Run(object):
    pass


def P(x):
    """plain float array"""
    return np.array(symnp.plain(x), dtype=float)


def key(x):
    return P(x).tobytes()


def fsum(H, r):
    """sum of squares with IEEE-like treatment of faults"""
    s = 0.0
    for v in r:
        if isinstance(v, core.Sym):
            s = s + v * v
        else:
            with np.errstate(all='ignore'):
                s = s + np.float64(v) * np.float64(v)
    return s


def isbad(v):
    return (not isinstance(v, core.Sym)) and not np.isfinite(v)


def l1(x, w):
    s = 0.0
    for v in P(x):
        s = s + abs(v)
    return w * s


def make_solver_stubs(H, cfg, run):
    mods = H.mods
    npal = cfg.get('palette', 4)
    preds = {}
    idle = [0, -1]
    run.hang = False
    run.npred = 0
    run.steps = []

    def palette(n):
        base = [np.zeros(n)]
        e0 = np.zeros(n)
        e0[0] = 1.0
        base += [-e0, 0.6 * e0]
        if n > 1:
            e1 = np.zeros(n)
            e1[1] = 1.0
            base += [e1, np.ones(n) / math.sqrt(n) * 0.999]
            base += [-0.6 * e1]
        else:
            base += [e0, -0.55 * e0]
        base.append(-0.3 * e0)
        return base[:npal]

    def pick(n, delta):
        pal = palette(n)
        if len(run.calls) == idle[1]:
            idle[0] += 1
            if idle[0] > cfg.get('idle_max', 150):
                run.hang = True
                if cfg.get('check_hang'):
                    H.fail('terminates', '%d trust-region subproblems in a row without any evaluation' % idle[0])
                H.cut('hang')
        else:
            idle[:] = [0, len(run.calls)]
        k = H.choose(len(pal), 'step')
        preds.clear()
        return pal[k] * delta

    def trsbox_make(orig):
        sig = inspect.signature(orig)

        def trsbox(*a, **kw):
            b = sig.bind(*a, **kw).arguments
            xopt, g, sl, su, delta = P(b['xopt']), b['g'], P(b['sl']), P(b['su']), float(b['delta'])
            if not np.isfinite(delta) or not np.all(np.isfinite(xopt)):
                H.cut('non-finite subproblem')
            d = pick(len(xopt), delta)
            d = np.minimum(np.maximum(xopt + d, sl), su) - xopt
            d = np.where(xopt + d > su, su - xopt, d)
            d = np.where(xopt + d < sl, sl - xopt, d)
            run.steps.append(d)
            crv = 0.0 if np.linalg.norm(d) > 0.99 * delta else float(cfg.get('crvmin', 0.0))
            return H.arr(d), H.arr(np.zeros(len(xopt))) if cfg.get('gnew0', True) else g, crv
        return trsbox

    def conv_make(orig):
        sig = inspect.signature(orig)

        def step(*a, **kw):
            b = sig.bind(*a, **kw).arguments
            xopt, Hm, delta = P(b['xopt']), b['H'], float(b['delta'])
            if not symnp.has_sym(Hm) and not np.any(P(Hm)):
                return H.arr(np.zeros(len(xopt))), b['g'], 0.0      # criticality measure call
            if not np.isfinite(delta) or not np.all(np.isfinite(xopt)):
                H.cut('non-finite subproblem')
            d = pick(len(xopt), delta)
            projs = list(b['projections'])
            x = run.dykstra0(projs, xopt + d)
            d = P(x) - xopt
            nd = np.linalg.norm(d)
            if nd > delta:
                d = d * (delta / nd)
            run.steps.append(d)
            return H.arr(d), b['g'], 0.0
        return step

    def mv_make(orig):
        sig = inspect.signature(orig)

        def model_value(*a, **kw):
            b = sig.bind(*a, **kw).arguments
            g, Hm, s = b['g'], b['H'], P(b['s'])
            h = b.get('h')
            base = 0.0
            if h is not None:
                sc = b.get('scaling_changes')
                xo = b['xopt']
                base = h(run.unscale(xo, sc), *b.get('argsh', ()))
                h(run.unscale(P(xo) + s, sc), *b.get('argsh', ()))
            if not np.any(s) and not (not symnp.has_sym(Hm) and not np.any(P(Hm))):
                return base
            if not symnp.has_sym(Hm) and not np.any(P(Hm)) and h is not None:
                pal = cfg.get('crit', [5.0])
                return base - pal[H.choose(len(pal), 'crit')]
            for v in (g, Hm):
                if not symnp.has_sym(v) and not np.all(np.isfinite(P(v))):
                    return np.float64('nan')
            k = (s.tobytes(), key(b['xopt']) if h is not None else b'')
            if k not in preds:
                run.npred += 1
                preds[k] = H.real('p%d' % run.npred, cfg.get('predlo', 1e-3), cfg.get('predhi', 1e4))
            return base - preds[k]
        return model_value

    if cfg.get('autodet'):
        # the trend test of the automatic restart detection: any outcome (the Jacobian changes that feed it are arbitrary data)
        for k, v in list(vars(mods.solver).items()):
            if hasattr(v, 'linregress') and not isinstance(v, type):
                class Stat(object):
                    def linregress(self, x, y, *a, **kw):
                        up = H.choose(2, 'trend')
                        return (1.0, 0.0, 0.9, 0.0, 0.0) if up else (-1.0, 0.0, -0.9, 0.0, 0.0)
                setattr(mods.solver, k, Stat())
    load.stub(mods, 'trsbox', trsbox_make)
    load.stub(mods, 'ctrsbox_pgd', conv_make)
    load.stub(mods, 'ctrsbox_sfista', conv_make)
    load.stub(mods, 'model_value', mv_make)


def run_solve(H, cfg, hooks=None):
    """run dfols.solve; returns a Run record (soln or exc set)"""
    mods = H.mods
    run = Run()
    run.cfg = cfg
    n, m = cfg.get('n', 1), cfg.get('m', 1)
    run.n, run.m = n, m
    run.calls = []
    run.ns_calls = []           # results of the nsamples callback: (call index at that time, value)
    run.after_exc = 0
    run.dykstra0 = mods.util.dykstra
    scale = cfg.get('scaling', False)
    run.unscale = mods.util.remove_scaling
    noisy = cfg.get('noisy', False)
    rlo, rhi = cfg.get('rlo', -1000), cfg.get('rhi', 1000)
    cache = {}
    fault_at, fault_kind = None, None
    if cfg.get('faults'):
        # the call index that fails (0 = none) and how
        kinds = cfg['faults']
        fault_at = H.choose(cfg['maxfun'] + 1, 'fault_at')
        if cfg.get('fault_all'):
            fault_at = -1 if fault_at == 0 else fault_at
        if fault_at != 0:
            fault_kind = kinds[H.choose(len(kinds), 'fault_kind')]
    run.fault_kind = fault_kind
    run.fault_at = fault_at

    def objfun(x, *args):
        if cfg.get('argsf') is not None:
            H.check(args == cfg['argsf'], 'argsf-passed')
        if run.after_exc:
            run.after_exc += 1
        c = Call()
        c.x = P(x)
        c.key = c.x.tobytes()
        j = len(run.calls) + 1
        bad = fault_kind is not None and (fault_at == j or fault_at == -1 or (cfg.get('fault_from') and j >= fault_at))
        c.fault = fault_kind if bad else None
        if bad and fault_kind == 'exc':
            c.r, c.f = None, None
            run.calls.append(c)
            run.after_exc = 1
            run.raised = ObjError('user error')
            raise run.raised
        if c.key in cache and not noisy and not bad:
            r = cache[c.key]
        else:
            if bad:
                v = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'big': 1e200}[fault_kind]
                k = m - 1 if cfg.get('fault_last') else 0
                r = [np.float64(v) if i == k else H.real('r%d_%d' % (j, i), rlo, rhi) for i in range(m)]
            elif cfg.get('rfun'):
                r = cfg['rfun'](H, run, j, c.x)
            else:
                r = [H.real('r%d_%d' % (j, i), rlo, rhi) for i in range(m)]
            if not noisy:
                cache[c.key] = r
        c.r = list(r)
        c.f = fsum(H, r)
        if run.h is not None:
            c.f = c.f + run.h(c.x, *run.argsh)
        run.calls.append(c)
        return H.arr(r)

    w = cfg.get('h')
    run.h, run.argsh = None, ()
    kw = {}
    if w is not None:
        run.argsh = cfg.get('argsh', ())

        def h(x, *args):
            return l1(x, w)

        def prox(x, u, *args):
            raise RuntimeError('prox not expected (subproblem stubbed)')
        run.h = h
        kw.update(h=h, lh=cfg.get('lh', w * math.sqrt(n)), prox_uh=prox, argsh=run.argsh)
    ns = cfg.get('nsamples')
    if ns is not None:
        def nsamples(delta, rho, it, nruns):
            v = ns(float(delta), float(rho), it, nruns)
            run.ns_calls.append((len(run.calls), v))
            return v
        kw['nsamples'] = nsamples
    if cfg.get('bounds') is not None:
        lo, hi = cfg['bounds']
        kw['bounds'] = (None if lo is None else np.array(lo, dtype=float), None if hi is None else np.array(hi, dtype=float))
    if cfg.get('projections'):
        kw['projections'] = cfg['projections'](run)
    for k in ('npt', 'rhobeg', 'rhoend', 'maxfun'):
        if k in cfg:
            kw[k] = cfg[k]
    if scale:
        kw['scaling_within_bounds'] = True
    if cfg.get('noise'):
        kw['objfun_has_noise'] = True
    up = dict(cfg.get('params', {}))
    run.params_in = up
    kw['user_params'] = up
    x0 = np.array(cfg.get('x0', [0.0] * n), dtype=float)
    run.x0_in = x0
    run.kw = kw
    if not cfg.get('nostub'):
        make_solver_stubs(H, cfg, run)
    rs = cfg.get('np_seed', 0)
    np.random.seed(rs)
    lg = logging.getLogger('dfols')
    hd = LogCatch()
    lg.handlers[:] = [hd]
    lg.setLevel(logging.INFO)
    lg.propagate = False
    undo = []
    run.exc = run.soln = None
    run.tb = ''
    if hooks:
        undo = hooks(H, run)
    solve = mods.solver.solve
    try:
        run.soln = solve(objfun, x0, do_logging=cfg.get('logging', True), **kw)
    except core.EngineStop:
        raise
    except Exception as e:
        import traceback
        run.exc = e
        run.tb = traceback.format_exc()[-1200:]
    finally:
        for u in undo:
            u()
        lg.handlers[:] = []
        lg.setLevel(logging.WARNING)
    run.log = hd.pts
    return run


def same_x(a, b):
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def points(run):
    """list of (point number, [call indices]) from the log"""
    pts = []
    for i, (e, p) in enumerate(run.log):
        if pts and pts[-1][0] == p:
            pts[-1][1].append(i)
        else:
            pts.append((p, [i]))
    return pts


def desc(run):
    s = run.soln
    out = ['flag=%s msg=%s nf=%s nx=%s nruns=%s xmin_eval_num=%s' % (s.flag, s.msg, s.nf, s.nx, s.nruns, getattr(s, 'xmin_eval_num', None))] if s is not None else []
    for i, c in enumerate(run.calls[:12]):
        out.append('#%d x=%s r=%s' % (i + 1, c.x, c.r))
    return '; '.join(out)


# ------------------------------------------------------------------------------------------------
# configurations
# ------------------------------------------------------------------------------------------------
def ball_proj(run):
    def pb(x):
        c = np.zeros(len(x))
        nx = np.linalg.norm(P(x))
        return np.array(P(x)) * (1.5 / max(nx, 1.5))
    return [pb]


def half_ball(run):
    def pb(x):
        nx = np.linalg.norm(P(x))
        return np.array(P(x)) * (1.5 / max(nx, 1.5))

    def ph(x):
        y = np.array(P(x))
        y[0] = max(y[0], -0.3)
        return y
    return [pb, ph]


RS = {'restarts.use_restarts': True}
SOFT = {'restarts.use_restarts': True, 'restarts.use_soft_restarts': True, 'restarts.max_unsuccessful_restarts': 3}
HARD = {'restarts.use_restarts': True, 'restarts.use_soft_restarts': False, 'restarts.max_unsuccessful_restarts': 2}


def U(*ds, **kw):
    r = {}
    for d in ds:
        r.update(d)
    return r


def ns2(delta, rho, it, nr):
    return 2


def nsvar(delta, rho, it, nr):
    return 1 + (it + nr) % 3


def ns0(delta, rho, it, nr):
    return 0


def base_configs():
    """name -> cfg;  all use rhobeg=1, rhoend=0.5 unless noted so that rho reductions/restarts are reached quickly"""
    D = dict(rhobeg=1.0, rhoend=0.5, maxfun=6)
    C = {}

    def add(name, **kw):
        c = dict(D)
        c.update(kw)
        C[name] = c
    add('plain')
    add('plain-short', maxfun=2)
    add('plain-rho', maxfun=6, rhoend=0.05, palette=3)
    add('bounds', bounds=([-1.2], [3.0]), x0=[-1.2])
    add('bounds-near', bounds=([-1.2], [3.0]), x0=[-1.195], maxfun=5)
    add('scaled', bounds=([-1.0], [4.0]), x0=[3.7], scaling=True, rhobeg=0.3, rhoend=0.15)
    add('n2', n=2, m=1, maxfun=6, x0=[0.0, 1.0], palette=4)
    add('n2m2', n=2, m=2, maxfun=5, x0=[0.0, 1.0], palette=3)
    add('npt3', npt=3, maxfun=6)
    add('npt3-reg', npt=3, maxfun=7, params={'regression.num_extra_steps': 1}, palette=3)
    add('npt3-mom', npt=3, maxfun=7, params={'regression.num_extra_steps': 1, 'regression.momentum_extra_steps': True}, palette=3, random=True)
    add('ns2', nsamples=ns2, noisy=True, maxfun=7)
    add('nsvar', nsamples=nsvar, noisy=True, maxfun=9, params=U(SOFT), palette=3)
    add('soft', params=U(SOFT), maxfun=7)
    add('soft-ns2', params=U(SOFT), nsamples=ns2, noisy=True, maxfun=10, palette=3)
    add('soft-nomove', params=U(SOFT, {'restarts.soft.move_xk': False}), maxfun=7)
    add('soft-npt', params=U(SOFT, {'restarts.increase_npt': True, 'restarts.max_npt': 4}), maxfun=8, palette=3, random=True)
    add('soft-unsucc', params=U(SOFT, {'restarts.max_unsuccessful_restarts': 1}), maxfun=8, palette=2)
    add('soft-fake', params=U(SOFT, {'restarts.soft.max_fake_successful_steps': 1}), maxfun=7, palette=3)
    add('hard', params=U(HARD), maxfun=7, palette=3)
    add('hard-newrk', params=U(HARD, {'restarts.hard.use_old_rk': False}), maxfun=7, palette=3)
    add('hard-ns2', params=U(HARD), nsamples=ns2, noisy=True, maxfun=9, palette=3)
    add('hard-npt', params=U(HARD, {'restarts.increase_npt': True, 'restarts.max_npt': 3}), maxfun=8, palette=3)
    add('hard-scale', params=U(HARD, {'restarts.rhoend_scale': 0.5}), maxfun=7, palette=2)
    add('noise-add', noise=True, params={'noise.additive_noise_level': 0.5}, maxfun=6, palette=3)
    add('noise-mult', noise=True, params={'noise.multiplicative_noise_level': 0.1}, maxfun=6, palette=3)
    add('slow', params={'slow.history_for_slow': 1, 'slow.max_slow_iters': 1, 'slow.thresh_for_slow': 0.5}, maxfun=7, palette=3)
    add('slow-soft', params=U(SOFT, {'slow.history_for_slow': 1, 'slow.max_slow_iters': 1, 'slow.thresh_for_slow': 0.5}), maxfun=7, palette=3)
    add('reltol', params={'model.rel_tol': 0.3}, maxfun=5)
    add('abstol', params={'model.abs_tol': 4.0}, maxfun=5)
    add('abstol-ns2', params={'model.abs_tol': 4.0}, nsamples=ns2, noisy=True, maxfun=6)
    add('reltol-hard', params=U(HARD, {'model.rel_tol': 0.3}), maxfun=7, palette=3)
    add('reltol-soft', params=U(SOFT, {'model.rel_tol': 0.3}), maxfun=7, palette=3)
    add('trinc', predlo=-5.0, maxfun=5)
    add('trinc-soft', predlo=-5.0, maxfun=7, params=U(SOFT), palette=3)
    add('trinc-hard', predlo=-5.0, maxfun=7, params=U(HARD), palette=3)
    add('growing', n=2, m=2, maxfun=6, x0=[0.0, 1.0], params={'growing.ndirs_initial': 1, 'growing.full_rank.use_full_rank_interp': False, 'growing.num_new_dirns_each_iter': 1}, palette=3, random=True)
    add('growing-perturb', n=2, m=1, maxfun=6, x0=[0.0, 1.0], params={'growing.ndirs_initial': 1}, palette=3, random=True, predlo=-5.0)
    add('growing-safety', n=2, m=2, maxfun=6, x0=[0.0, 1.0], palette=2, random=True, params={'growing.ndirs_initial': 1, 'growing.full_rank.use_full_rank_interp': False,
        'growing.safety.full_geom_step': True, 'growing.num_new_dirns_each_iter': 1})
    G = dict(n=2, m=2, maxfun=7, x0=[0.0, 1.0], palette=3, random=True, predlo=-5.0)
    GP = {'growing.ndirs_initial': 1, 'growing.full_rank.use_full_rank_interp': True, 'growing.perturb_trust_region_step': False}
    add('growing-soft', params=U(SOFT, GP), **G)
    add('growing-soft-npt', params=U(SOFT, GP, {'restarts.increase_npt': True, 'restarts.max_npt': 5}), **dict(G, maxfun=9))
    add('growing-hard', params=U(HARD, GP), **G)
    add('growing-nomove', params=U(SOFT, GP, {'restarts.soft.move_xk': False}), **G)
    add('growing-soft-noise', params=U(SOFT, GP, {'noise.additive_noise_level': 0.5}), noise=True, **dict(G, predlo=1e-3))
    add('growing-geom', params=U(SOFT, GP, {'growing.do_geom_steps': True, 'growing.safety.full_geom_step': True, 'growing.reset_delta': True, 'growing.reset_rho': True}), **G)
    add('init-random', n=2, m=1, maxfun=5, x0=[0.0, 1.0], params={'init.random_initial_directions': True}, palette=3, random=True)
    add('init-parallel', n=2, m=1, maxfun=5, x0=[0.0, 1.0], params={'init.random_initial_directions': True, 'init.run_in_parallel': True}, palette=3, random=True)
    add('init-parallel-ns2', n=2, m=1, maxfun=8, x0=[0.0, 1.0], nsamples=ns2, noisy=True, params={'init.random_initial_directions': True, 'init.run_in_parallel': True}, palette=2, random=True)
    AD = {'restarts.auto_detect.history': 2}
    add('auto-soft', params=U(SOFT, AD), autodet=True, maxfun=8, palette=3, rhoend=0.05)
    add('auto-hard', params=U(HARD, AD), autodet=True, maxfun=8, palette=3, rhoend=0.05)
    add('auto-hard1', params=U(HARD, AD, {'restarts.max_unsuccessful_restarts': 1}), autodet=True, maxfun=8, palette=3, rhoend=0.05)
    add('hreg', h=0.5, x0=[1.0], maxfun=6, palette=3)
    add('hreg-crit', h=0.5, x0=[1.0], maxfun=5, palette=3, crit=[5.0, 0.3])
    add('hreg-bounds', h=0.5, x0=[1.0], bounds=([0.5], [4.0]), maxfun=5, palette=3)
    add('hreg-soft', h=0.5, x0=[1.0], maxfun=7, palette=3, params=U(SOFT))
    add('hreg-hard', h=0.5, x0=[1.0], maxfun=7, palette=3, params=U(HARD))
    add('hreg-abstol', h=0.5, x0=[1.0], maxfun=5, palette=3, params={'model.abs_tol': 2.0})
    add('proj', n=2, m=1, projections=ball_proj, x0=[1.9, 0.3], maxfun=5, palette=3, random=True)
    add('proj-soft', n=2, m=1, projections=half_ball, x0=[0.9, 0.3], maxfun=6, palette=3, params=U(SOFT), random=True, predlo=-1.0)
    add('proj-h', n=2, m=1, projections=half_ball, x0=[0.9, 0.3], maxfun=5, palette=3, h=0.3, random=True)
    add('diag', params={'logging.save_diagnostic_info': True}, maxfun=6, palette=3)
    add('diag-soft', params=U(SOFT, {'logging.save_diagnostic_info': True}), maxfun=7, palette=3)
    return C


WS_FUNCTIONS = ['dfols.solver.solve', 'dfols.solver.solve_main', 'dfols.controller.Controller (all methods)',
                'dfols.controller.ExitInformation', 'dfols.model.Model (all methods)', 'dfols.util.eval_least_squares_with_regularisation',
                'dfols.util.remove_scaling', 'dfols.util.apply_scaling', 'dfols.util.dykstra (concrete data)',
                'dfols.util.random_directions_within_bounds / random_orthog_directions_within_bounds (seeded)',
                'dfols.diagnostic_info.DiagnosticInfo', 'dfols.trust_region.trsbox_geometry / ctrsbox_geometry (concrete data)']
WS_BOUNDS = ('Whole solve() runs: n<=2, m<=2, npt<=4, maxfun 2..10, rhobeg=1 (0.3 when scaled), 1-3 reachable rho levels, at most '
             'maxfun evaluations and the restarts they allow; residual values symbolic reals in [-1000,1000] (plus NaN/+-inf/1e200/exception '
             'kinds in fault configurations); trust-region steps from a palette of <=4 feasible steps per iteration; predicted reduction any '
             'real in [1e-3,1e4] (from a negative lower limit in the tr-increase configurations); norms of symbolic vectors that only feed '
             'logging/tau fixed to 1.  Point geometry is concrete.  Outside: larger n/m/npt/budgets, steps outside the palette, effects of '
             'floating-point rounding of residual arithmetic (real arithmetic is used for residuals; geometry is exact float64).')
WS_ASSUMPTIONS = ['subproblem solvers return any palette step inside the region with non-negative predicted reduction (contract checked by C12/C13)',
                  'residual arithmetic is real arithmetic; products of distinct residuals are relaxed to free variables and any '
                  'counterexample is re-solved with exact products and replayed on the unmodified modules',
                  'random generators are seeded identically on every path']


def diag_on(c, poised=False):
    c = dict(c)
    p = dict(c.get('params', {}))
    p['logging.save_diagnostic_info'] = True
    p['logging.save_poisedness'] = poised
    c['params'] = p
    return c


def fmean(H, calls):
    """mean residual vector over calls"""
    m = len(calls[0].r)
    out = []
    for i in range(m):
        s = 0.0
        for c in calls:
            s = s + c.r[i]
        out.append(s / float(len(calls)))
    return out


def leq(H, a, b):
    """a <= b with rounding slack (b >= 0 expected); NaN-aware on concrete values"""
    if not core.is_sym(a) and not core.is_sym(b):
        a, b = float(a), float(b)
        return a <= b + 1e-9 * (abs(b) + 1.0) if math.isfinite(b) else (a <= b)
    d = a - b
    if not core.is_sym(d):
        return bool(d <= 0)
    return d <= b * 1e-9 + 1e-9


def close(H, a, b, rel=1e-9):
    if not core.is_sym(a) and not core.is_sym(b):
        a, b = float(a), float(b)
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= rel * (abs(b) + 1.0)
    d = a - b
    if not core.is_sym(d):
        return bool(d == 0)
    ab = core.sym_abs(b)
    return H.AND(d <= ab * rel + rel, d >= -(ab * rel) - rel)


def seq(v):
    v = np.asarray(v, dtype=object) if not isinstance(v, np.ndarray) else v
    return [v[i] for i in range(len(v))]


def leq0(a, b, t):
    """a <= t*b (b >= 0) with rounding slack"""
    if not core.is_sym(a) and not core.is_sym(b):
        return float(a) <= t * float(b) * (1 + 1e-9)
    d = a - b * (t * (1 + 1e-9))
    if not core.is_sym(d):
        return bool(d <= 0)
    return d <= 0
