"""C07: solve() always returns a well-formed result; invalid input is reported as an input error, not raised."""
import math
import numpy as np
from .. import ws, core, load, symnp
from ..runner import Task

BUDGET = dict(quick=110, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS + ['dfols.params.ParameterList (all methods)', 'dfols.params.check_*', 'dfols.solver.OptimResults']
BOUNDS = ('Arguments: n<=2, rhobeg/rhoend/lh/x0/bounds symbolic reals, npt and maxfun from a list covering every side of each threshold, bounds none/one-sided/both/'
          'wrong length, scaling and projections on/off; solve_main stubbed once reached.  Parameters: every documented key, value symbolic (float or int) or '
          'of a wrong type, one key per path (pairs for the contradictory options).  Runs: every key at boundary values inside its documented range, in 10 modes, '
          'as whole solve() runs under: ' + ws.WS_BOUNDS)
ASSUMPTIONS = ws.WS_ASSUMPTIONS + ['interpolation.throw_error_on_nans=True (documented to raise) is outside',
                                   'int values for float parameters and bool values for int parameters are not judged']
CODES = ['EXIT_SUCCESS', 'EXIT_MAXFUN_WARNING', 'EXIT_SLOW_WARNING', 'EXIT_FALSE_SUCCESS_WARNING', 'EXIT_TR_INCREASE_WARNING',
         'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_EVAL_ERROR']

# key: (type, None allowed, lower, upper); 'npt' stands for the npt in use
SPEC = {}


def _sp(t, none, lo, hi, *keys):
    for k in keys:
        SPEC[k] = (t, none, lo, hi)


_sp('float', False, 0.0, None, 'general.rounding_error_constant', 'general.safety_step_thresh', 'model.abs_tol', 'slow.thresh_for_slow',
    'noise.scale_factor_for_quit', 'restarts.rhoend_scale', 'restarts.auto_detect.min_chgJ_slope', 'growing.delta_scale_new_dirns',
    'dykstra.d_tol', 'matrix_rank.r_tol')
_sp('float', False, 0.0, 1.0, 'tr_radius.eta1', 'tr_radius.eta2', 'tr_radius.gamma_dec', 'tr_radius.alpha1', 'tr_radius.alpha2', 'model.rel_tol',
    'restarts.auto_detect.min_correl', 'growing.gamma_dec', 'func_tol.criticality_measure', 'func_tol.tr_step')
_sp('float', False, 1.0, None, 'tr_radius.gamma_inc', 'tr_radius.gamma_inc_overline', 'sfista.max_iters_scaling')
_sp('float', True, 0.0, None, 'noise.multiplicative_noise_level', 'noise.additive_noise_level', 'growing.full_rank.scale_factor')
_sp('float', True, 0.0, 1.0, 'growing.full_rank.min_sing_val', 'growing.full_rank.svd_scale_factor')
_sp('float', True, 1.0, None, 'growing.full_rank.svd_max_jac_cond')
_sp('int', False, 0, None, 'logging.n_to_print_whole_x_vector', 'slow.max_slow_iters', 'regression.num_extra_steps',
    'regression.increase_num_extra_steps_with_restart', 'restarts.max_unsuccessful_restarts', 'restarts.soft.num_geom_steps',
    'restarts.increase_npt_amt', 'restarts.hard.increase_ndirs_initial_amt', 'growing.num_new_dirns_each_iter', 'dykstra.max_iters', 'func_tol.max_iters')
_sp('int', False, 1, None, 'slow.history_for_slow', 'restarts.soft.max_fake_successful_steps', 'restarts.auto_detect.history')
_sp('int', False, 'npt', None, 'restarts.max_npt')
_sp('int', False, 1, 'npt-1', 'growing.ndirs_initial')
_sp('bool', False, None, None, 'general.check_objfun_for_overflow', 'init.random_initial_directions', 'init.run_in_parallel',
    'init.random_directions_make_orthogonal', 'interpolation.precondition', 'interpolation.throw_error_on_nans', 'logging.save_diagnostic_info',
    'logging.save_poisedness', 'logging.save_xk', 'logging.save_rk', 'noise.quit_on_noise_level', 'regression.momentum_extra_steps',
    'restarts.use_restarts', 'restarts.use_soft_restarts', 'restarts.soft.move_xk', 'restarts.hard.use_old_rk', 'restarts.increase_npt',
    'restarts.auto_detect', 'growing.do_geom_steps', 'growing.reset_delta', 'growing.reset_rho', 'growing.safety.do_safety_step',
    'growing.safety.reduce_delta', 'growing.safety.full_geom_step', 'growing.full_rank.use_full_rank_interp', 'growing.perturb_trust_region_step')


class Reached(BaseException):
    pass


def modes():
    B = ws.base_configs()
    M = {k: B[k] for k in ('plain', 'n2m2', 'soft', 'hard', 'npt3-reg', 'noise-add', 'slow', 'hreg', 'proj', 'scaled', 'growing', 'soft-npt', 'hard-npt', 'hreg-soft', 'diag')}
    return M


def tasks(tier):
    out = []
    for b in ('none', 'lower', 'upper', 'both', 'both-scaled', 'both-proj', 'badlen'):
        out.append(Task('args-' + b, 'args', dict(bmode=b, n=1), must=('input-error',), nl='exact', norm_mode='exact'))
    out.append(Task('args2-both', 'args', dict(bmode='both', n=2), must=('input-error',), nl='exact', norm_mode='exact'))
    out.append(Task('args2-scaled', 'args', dict(bmode='both-scaled', n=2), must=('input-error',), nl='exact', norm_mode='exact'))
    for t in ('float', 'int', 'bool'):
        out.append(Task('params-' + t, 'params', dict(type=t), must=('input-error', 'accepted')))
    out.append(Task('params-unknown', 'unknown', dict(), must=('unknown-key',)))
    out.append(Task('params-contradictory', 'contra', dict(), must=('input-error',)))
    out.append(Task('codes', 'codes', dict(), must=('codes',)))
    for k, c in modes().items():
        out.append(Task('range-' + k, 'rng', dict(c, maxfun=min(c['maxfun'], 7), palette=3, check_hang=True), float_mode='format', must=('no-exception',), weight=1.5))
    for k, c in ws.base_configs().items():
        out.append(Task('run-' + k, 'plainrun', dict(c, check_hang=True), float_mode='format', must=('no-exception',), weight=0.5))
    for k in ('plain', 'soft', 'hard', 'hreg', 'growing', 'npt3-reg', 'proj', 'diag'):
        c = ws.base_configs()[k]
        out.append(Task('run-%s-fault' % k, 'plainrun', dict(c, faults=ws.KINDS[:4], check_hang=True, maxfun=min(c['maxfun'], 6)), float_mode='format', must=('no-exception',), weight=0.5))
    for k in ('tol', 'iters'):
        out.append(Task('sfista-' + k, 'sfista', dict(kind=k), must=('sfista-returns',)))
    return out


# ----------------------------------------------------------------------------------------- helpers
def stub_main(H, hit):
    def mk(o):
        def solve_main(*a, **k):
            hit.append((a, k))
            raise Reached()
        return solve_main
    load.stub(H.mods, 'solve_main', mk)


def call(H, x0, kw):
    """(solution, reached, exc, number of objfun calls)"""
    hit, calls = [], []
    stub_main(H, hit)

    def objfun(x, *a):
        calls.append(1)
        return H.arr([1.0])
    try:
        s = H.mods.solver.solve(objfun, x0, do_logging=False, **kw)
        return s, bool(hit), None, len(calls)
    except Reached:
        return None, True, None, len(calls)
    except core.EngineStop:
        raise
    except Exception as e:
        return None, bool(hit), e, len(calls)


def input_error(H, res, why):
    s, reached, exc, nc = res
    ok = exc is None and not reached and s is not None
    H.check(ok, 'input-error', lambda: '%s: %s' % (why, ('raised %s: %s' % (type(exc).__name__, exc)) if exc is not None else 'accepted' if reached else 'no result'))
    H.check(s.flag == s.EXIT_INPUT_ERROR == H.mods.solver.OptimResults(None, None, None, None, 0, 0, 0, 0, '', None, None).EXIT_INPUT_ERROR, 'input-error', lambda: '%s: flag %s (%s)' % (why, s.flag, s.msg))
    H.check(nc == 0 and s.nf == 0, 'zero-evals', lambda: '%s: %s evaluations, nf=%s' % (why, nc, s.nf))
    wellformed(H, s, why)


def wellformed(H, s, why):
    H.check(s.flag in [getattr(s, k, None) for k in CODES], 'flag', lambda: '%s: flag %s is not documented' % (why, s.flag))
    H.check(isinstance(s.msg, str) and len(s.msg.strip()) > 0, 'msg', lambda: '%s: message %r' % (why, s.msg))
    txt = None
    try:
        txt = str(s)
    except core.EngineStop:
        raise
    except Exception as e:
        txt = e
    H.check(isinstance(txt, str) and len(txt) > 0, 'str', lambda: '%s: str() gives %r' % (why, txt))


# ----------------------------------------------------------------------------------------- arguments
def args(H, cfg):
    n, b = cfg['n'], cfg['bmode']
    kw = {}
    x0 = H.arr([H.real('x%d' % i, -5, 5) for i in range(n)])
    valid = True
    gaps = None
    if b in ('lower', 'both', 'both-scaled', 'both-proj'):
        lo = [H.real('l%d' % i, -5, 5) for i in range(n)]
    if b in ('upper', 'both', 'both-scaled', 'both-proj'):
        hi = [H.real('u%d' % i, -5, 5) for i in range(n)]
    if b == 'lower':
        kw['bounds'] = (H.arr(lo), None)
    elif b == 'upper':
        kw['bounds'] = (None, H.arr(hi))
    elif b.startswith('both'):
        kw['bounds'] = (H.arr(lo), H.arr(hi))
        gaps = [hi[i] - lo[i] for i in range(n)]
    elif b == 'badlen':
        k = H.choose(4, 'badlen')
        l, u = [-1.0] * (n + (k % 2 == 0)), [4.0] * (n + (k != 1 and k != 0 or k == 1))
        if k == 2:
            u = [4.0] * (n + 1)
        if k == 3:
            l, u = [-1.0] * n, [4.0] * (n + 2)
        if H.choose(2, 'one-sided'):
            kw['bounds'] = (np.array(l), None) if len(l) != n else (None, np.array(u))
        else:
            kw['bounds'] = (np.array(l), np.array(u))
        if len(l) == n and len(u) == n:
            H.cut('lengths are right')
        valid = False
    scaled = b == 'both-scaled' or (b in ('lower', 'upper', 'badlen') and H.choose(2, 'scaling') == 1)
    proj = b == 'both-proj' or (b in ('none', 'lower', 'badlen') and H.choose(2, 'proj') == 1)
    if scaled:
        kw['scaling_within_bounds'] = True
    if proj:
        kw['projections'] = [lambda x: x]
    eff_scaled = scaled and not proj and kw.get('bounds') is not None and kw['bounds'][0] is not None and kw['bounds'][1] is not None
    npt = [None, n + 1, n + 2, n, 1, 0][H.choose(6, 'npt')]
    if npt is not None:
        kw['npt'] = npt
        if npt < n + 1:
            valid = False
    mf = [None, 50, 1, 0, -3][H.choose(5, 'maxfun')]
    if mf is not None:
        kw['maxfun'] = mf
        if mf <= 0:
            valid = False
    if H.choose(2, 'rhobeg given'):
        rb = kw['rhobeg'] = H.real('rhobeg', -5, 5)
    else:
        rb = 0.1
        if not eff_scaled:
            m = 1.0
            for i in range(n):
                ax = core.sym_abs(x0[i]) if core.is_sym(x0[i]) else abs(x0[i])
                m = ax if bool(ax > m) else m
            rb = 0.1 * m
    if H.choose(2, 'rhoend given'):
        re = kw['rhoend'] = H.real('rhoend', -5, 5)
    else:
        re = 1e-8
    hm = H.choose(5, 'h')
    if hm:
        kw['h'] = lambda x: 0.0
        kw['prox_uh'] = lambda x, u: x
        kw['lh'] = 1.0
        if hm == 2:
            kw['prox_uh'] = None
            valid = False
        elif hm == 3:
            kw['lh'] = None
            valid = False
        elif hm == 4:
            kw['lh'] = H.real('lh', -5, 5)
            valid = valid and bool(kw['lh'] > 0)
    res = call(H, x0, kw)
    why = 'npt=%s maxfun=%s h-mode=%s bounds=%s scaled=%s proj=%s' % (npt, mf, hm, b, scaled, proj)
    # radii and gaps decided after the call: the code's own branches come first
    ok = valid
    near = False
    for lhs, rhs in [(rb, 0.0), (re, 0.0), (rb, re)]:
        if ok:
            ok = bool(lhs > rhs)
    if ok and gaps is not None:
        for g in gaps:
            if proj:
                if bool(g <= 0):
                    ok = False
                elif bool(g < 2.0 * rb):
                    H.cut('narrow box together with projections: not judged')
            elif eff_scaled:
                if bool(g <= 0) or bool(rb > 0.5):
                    ok = False
            elif bool(g < rb * 2.0):
                ok = False
    if ok:
        H.check(res[2] is None and res[1], 'accepted', lambda: '%s: valid input gives %s' % (why, res[2] or (res[0] and res[0].msg)))
    else:
        input_error(H, res, why)


# ----------------------------------------------------------------------------------------- parameters
def params(H, cfg):
    keys = sorted(k for k in SPEC if SPEC[k][0] == cfg['type'])
    key = keys[H.choose(len(keys), 'key')]
    t, none, lo, hi = SPEC[key]
    npt = [2, 4][H.choose(2, 'npt')]
    n = 1
    lo = npt if lo == 'npt' else lo
    hi = npt - 1 if hi == 'npt-1' else hi
    kw = dict(npt=npt)
    if H.choose(2, 'noise'):
        kw['objfun_has_noise'] = True
    why = key
    k = H.choose({'float': 4, 'int': 4, 'bool': 4}[t], 'kind')
    up = {}
    if t == 'float':
        v = [None, 'abc', True, [1.0]][k] if k else H.real('v', -10, 10)
        good = k == 0
    elif t == 'int':
        v = [None, 'abc', 1.5, (1,)][k] if k else H.int('v', -10, 10)
        good = k == 0
    else:
        v = [bool(H.choose(2, 'b')) if k == 0 else None, 'yes', 1.0, [True]][k] if k != 0 else bool(H.choose(2, 'b'))
        good = k == 0
    up[key] = v
    res = call(H, H.arr([0.5] * n), dict(kw, user_params=up))
    ok = good
    if good and t != 'bool':
        if lo is not None:
            ok = ok and bool(v >= lo)
        if ok and hi is not None:
            ok = bool(v <= hi)
        if ok and key == 'tr_radius.alpha1':
            ok = bool(v < 1.0)
        if ok and key in ('restarts.rhoend_scale', 'growing.delta_scale_new_dirns'):
            ok = bool(v > 0.0)
    if good and t == 'bool':
        # combinations which are contradictory with the defaults
        if not v and key == 'init.random_initial_directions' and npt > (n + 1) * (n + 2) // 2:
            input_error(H, res, why + '=False with npt=%d' % npt)
            return
        if v and key in ('init.run_in_parallel', 'growing.perturb_trust_region_step', 'growing.reset_rho'):
            if res[1]:
                H.cut('accepted')
            input_error(H, res, why)
            return
    if ok:
        H.check(res[2] is None and res[1], 'accepted', lambda: '%s=%r (npt=%d): in range but %s' % (key, v, npt, res[2] or (res[0] and res[0].msg)))
    else:
        input_error(H, res, '%s=%r (npt=%d)' % (key, v, npt))


def unknown(H, cfg):
    keys = sorted(SPEC)
    k = keys[H.choose(len(keys), 'key')]
    bad = [k + 'x', k.upper(), k.replace('.', '_'), k.split('.')[-1], ''][H.choose(5, 'mangle')]
    hit = []
    up = {bad: SPEC_VALUE(k)}
    if H.choose(2, 'with-good'):
        up = {'tr_radius.eta1': 0.2, bad: SPEC_VALUE(k)}
    res = call(H, H.arr([0.5]), dict(user_params=up))
    H.check(isinstance(res[2], ValueError) and res[3] == 0, 'unknown-key', lambda: 'unknown parameter %r: %s' % (bad, res[2] or ('accepted' if res[1] else res[0].msg)))


def SPEC_VALUE(k):
    t, none, lo, hi = SPEC[k]
    return True if t == 'bool' else 1 if t == 'int' else 0.5


CONTRA = [
    {'growing.safety.full_geom_step': True, 'growing.safety.reduce_delta': True},
    {'growing.full_rank.use_full_rank_interp': True, 'growing.perturb_trust_region_step': True},
    {'noise.quit_on_noise_level': True, 'noise.additive_noise_level': None, 'noise.multiplicative_noise_level': None},   # filled in below
    {'growing.reset_rho': True, 'growing.reset_delta': False},
    {'init.run_in_parallel': True, 'init.random_initial_directions': False},
]


def contra(H, cfg):
    i = H.choose(len(CONTRA), 'which')
    up = dict(CONTRA[i])
    if i == 2:
        up['noise.additive_noise_level'] = H.real('a', 0, 10)
        up['noise.multiplicative_noise_level'] = H.real('m', 0, 10)
    kw = {}
    if H.choose(2, 'noise'):
        kw['objfun_has_noise'] = True
    n = 1 + H.choose(2, 'n')
    if H.choose(2, 'order'):
        up = dict(reversed(list(up.items())))
    extra = H.choose(3, 'extra')
    if extra == 1:
        up['restarts.use_restarts'] = True
    elif extra == 2:
        kw['npt'] = 2 * n + 1
    input_error(H, call(H, H.arr([0.5] * n), dict(kw, user_params=up)), str(sorted(up)))


def codes(H, cfg):
    k = H.choose(2, 'which')
    if k == 0:
        s, reached, exc, nc = call(H, H.arr([0.5]), dict(rhobeg=-1.0))
        H.check(exc is None and s is not None, 'codes', lambda: 'raised %r' % exc)
    else:
        s = H.mods.solver.OptimResults(H.arr([0.0]), H.arr([0.0]), 0.0, None, 1, 1, 1, 0, 'Success: x', 1, None)
    have = [getattr(s, c, None) for c in CODES]
    H.check(None not in have and len(set(have)) == len(CODES), 'codes', lambda: 'constants %s' % dict(zip(CODES, have)))
    for c, v in zip(CODES, have):
        H.check(getattr(H.mods.controller, c, None) == v, 'codes', lambda: '%s: %s on the result, %s in use' % (c, v, getattr(H.mods.controller, c, None)))
        m = H.mods.controller.ExitInformation(v, 'abc')
        t = m.message(with_stem=True)
        H.check(isinstance(t, str) and 'abc' in t and len(t) > 3 and 'unknown' not in t.lower(), 'codes', lambda: '%s: message %r' % (c, t))


# ----------------------------------------------------------------------------------------- whole runs
def boundary(key, npt, maxfun):
    t, none, lo, hi = SPEC[key]
    lo = npt if lo == 'npt' else lo
    hi = npt - 1 if hi == 'npt-1' else hi
    if t == 'bool':
        return [True, False]
    if t == 'int':
        v = [lo, lo + 1, lo + 3]
        return sorted(set([a for a in v if hi is None or a <= hi] + ([hi] if hi is not None else [])))
    v = [lo, lo + 1e-9, lo + 0.5, lo + 10.0, 1e6 if hi is None else hi]
    v = sorted(set(a for a in v if hi is None or a <= hi))
    if key == 'tr_radius.alpha1':
        v = [a for a in v if a < 1.0] + [0.9]
    if key in ('restarts.rhoend_scale', 'growing.delta_scale_new_dirns'):
        v = [a for a in v if a > 0.0]
    return v


def rng(H, cfg):
    npt = cfg.get('npt') or cfg.get('n', 1) + 1
    keys = sorted(k for k in SPEC if k != 'interpolation.throw_error_on_nans')
    key = keys[H.choose(len(keys), 'key')]
    vals = boundary(key, npt, cfg['maxfun'])
    v = vals[H.choose(len(vals), 'value')]
    up = dict(cfg.get('params', {}))
    up[key] = v
    if cfg.get('projections') and ((key == 'growing.ndirs_initial' and v != npt - 1) or (key == 'matrix_rank.r_tol' and v > 1e-3)):
        H.cut('recorded limitation')
    if up.get('growing.perturb_trust_region_step') and 'growing.full_rank.use_full_rank_interp' not in up:
        up['growing.full_rank.use_full_rank_interp'] = False
    if key == 'growing.full_rank.use_full_rank_interp' and v:
        up['growing.perturb_trust_region_step'] = False
    if up.get('growing.reset_rho'):
        up['growing.reset_delta'] = True
    if up.get('init.run_in_parallel'):
        up['init.random_initial_directions'] = True
    if up.get('growing.safety.full_geom_step'):
        up['growing.safety.reduce_delta'] = False
    if key == 'growing.safety.reduce_delta' and v:
        up['growing.safety.full_geom_step'] = False
    if key.startswith('noise.') and key.endswith('noise_level') and key != 'noise.quit_on_noise_level':
        up = {k: w for k, w in up.items() if not (k.startswith('noise.') and k.endswith('noise_level')) or k == key or k == 'noise.quit_on_noise_level'}
    c = dict(cfg, params=up)
    judge(H, ws.run_solve(H, c), '%s=%r' % (key, v))


def plainrun(H, cfg):
    judge(H, ws.run_solve(H, cfg), '')


def judge(H, run, why):
    d = lambda: '%s: %s %s' % (why, ws.desc(run), run.tb)
    if run.fault_kind == 'exc':
        H.cut('objfun raises')
    H.check(run.exc is None, 'no-exception', d)
    s = run.soln
    wellformed(H, s, why)
    H.check(s.flag != s.EXIT_INPUT_ERROR, 'valid-accepted', d)
    H.check(s.x is not None and len(run.calls) >= 1, 'has-solution', d)


# ----------------------------------------------------------------------------------------- S-FISTA parameters
def sfista(H, cfg):
    """the regularised subproblem solver accepts every documented value of its iteration controls"""
    ft = [0.0, 1e-9, 0.5, 1.0][H.choose(4, 'func_tol')] if cfg['kind'] == 'tol' else 0.5
    mi = [0, 1, 2][H.choose(3, 'max_iters')]
    sc = [1.0, 2.0, 1e6][H.choose(3, 'scaling')] if cfg['kind'] == 'iters' else 1.0
    n = 1
    g = H.arr([H.real('g', -10, 10)])
    f = H.mods.trust_region.ctrsbox_sfista
    import inspect
    names = inspect.signature(f).parameters
    kw = dict(func_tol=ft, max_iters=mi, scaling_changes=None)
    if 'sfista_iters_scale' in names:
        kw['sfista_iters_scale'] = sc
    B = lambda x: symnp.SArr.of([min(max(ws.P(x)[0], -3.0), 3.0)]) if H.symbolic and not symnp.has_sym(x) else x
    exc = None
    try:
        r = f(H.arr([0.5]), g, np.zeros((1, 1)) if not H.symbolic else H.arr(np.zeros((1, 1))), [lambda x: x], 1.0, lambda x: abs_(x[0]), 1.0, lambda x, u: x, **kw)
    except core.EngineStop:
        raise
    except Exception as e:
        exc = e
        r = None
    H.check(exc is None and len(r) == 3, 'sfista-returns', lambda: 'func_tol=%g max_iters=%d scale=%g: %r' % (ft, mi, sc, exc))


def abs_(v):
    return core.sym_abs(v) if core.is_sym(v) else abs(v)
