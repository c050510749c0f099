"""C19: repeated calls give identical evaluation sequences and results whatever the global random state; caller data are never modified."""
import copy, math
import numpy as np
from .. import core, load, symnp, ws
from ..runner import Task
from . import c13, c14

BUDGET = dict(quick=60, thorough=900)
FUNCTIONS = list(ws.WS_FUNCTIONS) + ['dfols.trust_region.%s' % f for f in ('trsbox', 'trsbox_geometry', 'trsbox_linear', 'ctrsbox_geometry', 'ctrsbox_linear', 'ctrsbox_pgd', 'ctrsbox_sfista')] + ['dfols.util.dykstra']
BOUNDS = ws.WS_BOUNDS + (' Self-composition: each run is repeated in the same process with the same symbolic residuals and the same subproblem answers but another global random state '
                         '(and, without re-seeding, a third time); evaluation points, evaluation order and every result field must be identical on every path. '
                         'Subproblem solvers: executed symbolically (n=1) with a global generator whose every use is an error. Caller data: x0 (float, integer, view), bounds (infinite, 1e25, None), '
                         'user_params, plus n=1,2 runs in which x0 and the bounds themselves are symbolic.')
ASSUMPTIONS = list(ws.WS_ASSUMPTIONS) + ['NumPy, SciPy and pandas routines other than numpy.random are deterministic']


RANDOM = ('npt3-mom', 'soft-npt', 'hard-npt', 'init-random', 'init-parallel', 'init-parallel-ns2')


def tasks(tier):
    out = []
    C = ws.base_configs()
    for k, c in C.items():
        if c.get('random') or k in RANDOM or k.startswith('growing') or k.startswith('init-'):
            continue
        if k in ('plain-short', 'plain-rho', 'diag-soft'):
            continue
        out.append(Task(k, 'twice', c, float_mode='format', must=('same-points', 'same-result', 'caller-data')))
    c = C['plain']
    inf = float('inf')
    caller = dict(
        infbounds=dict(n=2, x0=[0.0, 1.0], bounds=([-inf, -1e25], [inf, 3.0])),
        infeasible=dict(n=2, x0=[5.0, -7.0], bounds=([-1.0, -3.0], [3.0, 4.0])),
        oneside=dict(n=2, x0=[5.0, -7.0], bounds=([-1.0, -3.0], None)),
        scaledout=dict(n=2, x0=[5.0, -7.0], bounds=([-1.0, -3.0], [3.0, 4.0]), scaling=True, rhobeg=0.2, rhoend=0.1),
        intx0=dict(n=2, x0=[2, 1], x0kind='int', bounds=([-1, -3], [3, 4]), bkind='int'),
        view=dict(n=2, x0=[2.0, 1.0], x0kind='view', bounds=([-1.0, -3.0], [3.0, 4.0]), bkind='view'),
        f32=dict(n=2, x0=[2.0, 1.0], x0kind='f32'),
        readonly=dict(n=2, x0=[2.0, 1.0], x0kind='ro', bounds=([-1.0, -3.0], [3.0, 4.0]), bkind='ro'),
        noiseparams=dict(noise=True, params={'restarts.max_unsuccessful_restarts': 2, 'noise.quit_on_noise_level': True}),
        proj=dict(C['proj']), projbounds=dict(C['proj'], bounds=([-1.0] * C['proj'].get('n', 1), [4.0] * C['proj'].get('n', 1))),
        badparam=dict(params={'tr_radius.eta1': 5.0}), badrho=dict(rhobeg=1.0, rhoend=2.0),
    )
    for k, v in caller.items():
        out.append(Task('caller-' + k, 'twice', dict(c, **v), float_mode='format', must=('same-points', 'same-result', 'caller-data')))
    o = dict(nl='exact', norm_mode='exact', timeout_ms=2500, path_timeout=12, float_mode='format', minmax='fork')
    for n in (1, 2):
        for k in ('plain', 'scaled', 'lower', 'proj'):
            out.append(Task('symcaller-n%d-%s' % (n, k), 'symcaller', dict(n=n, kind=k), must=('caller-data',), **o))
    o = dict(nl='exact', norm_mode='exact', timeout_ms=2500, path_timeout=12)
    for f in ('trsbox', 'trsbox_geometry', 'linear', 'geometry', 'pgd', 'sfista', 'dykstra'):
        out.append(Task('taint-' + f, 'taint', dict(f=f), must=('no-global-random',), **o))
    return out


# ---- whole runs, repeated -----------------------------------------------------------------------------------------------------
class Again(object):
    """replays the choices and the residual symbols of a first run"""

    def __init__(self, H):
        self.__dict__['H'] = H
        self.__dict__['ch'] = []
        self.__dict__['pos'] = None

    def __getattr__(self, k):
        return getattr(self.H, k)

    def restart(self):
        self.__dict__['pos'] = 0

    def choose(self, k, label=''):
        if self.pos is None:
            v = self.H.choose(k, label)
            self.ch.append((k, label, v))
            return v
        if self.pos >= len(self.ch) or self.ch[self.pos][:2] != (k, label):
            return 0     # the runs have diverged already: reported by the comparison of the points
        self.__dict__['pos'] = self.pos + 1
        return self.ch[self.pos - 1][2]


def reals(H):
    memo = {}
    orig = H.H.real

    def real(name, lo=None, hi=None):
        if name not in memo:
            memo[name] = orig(name, lo, hi)
        return memo[name]
    H.__dict__['real'] = real


def mk(v, kind):
    if v is None:
        return None
    if kind == 'int':
        return np.array(v, dtype=int)
    if kind == 'f32':
        return np.array(v, dtype=np.float32)
    if kind == 'view':
        b = np.zeros(2 * len(v) + 1)
        b[::2][:len(v)] = v
        return b[::2][:len(v)]
    a = np.array(v, dtype=float)
    if kind == 'ro':
        a.setflags(write=False)
    return a


def snapshot(kw, x0):
    b = kw.get('bounds')
    return (x0.dtype, x0.shape, ws.P(x0).tobytes(), None if b is None else [None if v is None else (v.dtype, v.shape, v.tobytes()) for v in b],
            None if kw.get('user_params') is None else [(k, type(v), repr(v)) for k, v in kw['user_params'].items()])


def eq(H, a, b):
    if isinstance(a, core.Sym) or isinstance(b, core.Sym):
        if a is b:
            return True
        if not isinstance(a, core.Sym) and not np.isfinite(a) or not isinstance(b, core.Sym) and not np.isfinite(b):
            return False
        return a == b
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b))


def same_array(H, a, b):
    if a is None or b is None:
        return a is None and b is None
    if np.shape(a) != np.shape(b):
        return False
    return H.AND(*[eq(H, a[i], b[i]) for i in np.ndindex(*np.shape(a))]) if np.size(a) else True


def twice(H, cfg):
    A = Again(H)
    reals(A)
    runs = []
    for t, seed in enumerate((0, 12345, None)):
        if t:
            A.restart()
        np.random.seed(seed) if seed is not None else np.random.rand(3)
        run = run_once(A, cfg, seed)
        runs.append(run)
        if t == 0 and run.exc is not None:
            H.cut('exception')
    d = lambda: 'first run: %s; repeated: %s' % (ws.desc(runs[0]), ' | '.join(ws.desc(r) + (r.tb if r.exc is not None else '') for r in runs[1:]))
    for r in runs:
        H.check(r.snap0 == r.snap1, 'caller-data', lambda: 'caller data before %r, after %r; %s' % (r.snap0, r.snap1, d()))
    a = runs[0]
    for b in runs[1:]:
        H.check(b.exc is None and len(a.calls) == len(b.calls), 'same-points', d)
        for p, q in zip(a.calls, b.calls):
            H.check(ws.same_x(p.x, q.x), 'same-points', d)
        s, u = a.soln, b.soln
        for f in ('flag', 'msg', 'nf', 'nx', 'nruns', 'xmin_eval_num'):
            H.check(getattr(s, f) == getattr(u, f), 'same-result', lambda: 'field %s; %s' % (f, d()))
        if s.flag == s.EXIT_INPUT_ERROR:
            H.check(True, 'same-points', d)
            continue
        H.check(eq(H, s.obj, u.obj), 'same-result', lambda: 'obj; %s' % d())
        for f in ('x', 'resid', 'jacobian', 'jacmin_eval_nums'):
            H.check(same_array(H, getattr(s, f), getattr(u, f)), 'same-result', lambda: 'field %s: %s, then %s; %s' % (f, getattr(s, f), getattr(u, f), d()))
        H.check((s.diagnostic_info is None) == (u.diagnostic_info is None), 'same-result', d)
        if s.diagnostic_info is not None:
            S, T = s.diagnostic_info, u.diagnostic_info
            H.check(list(S.columns) == list(T.columns) and len(S) == len(T), 'same-result', d)
            for col in S.columns:
                for p, q in zip(list(S[col]), list(T[col])):
                    if isinstance(p, (core.Sym, float, int, np.floating, np.integer)) and isinstance(q, (core.Sym, float, int, np.floating, np.integer)):
                        H.check(eq(H, p, q), 'same-result', lambda: 'table column %s; %s' % (col, d()))


def run_once(A, cfg, seed):
    """ws.run_solve with the caller's own objects kept for comparison"""
    keep = {}

    def hooks(H, run):
        solve = run_solve_fn(H)

        def spy(objfun, x0, **kw):
            x0 = mk(cfg.get('x0', [0.0] * cfg.get('n', 1)), cfg.get('x0kind'))
            if cfg.get('bounds') is not None:
                kw['bounds'] = tuple(mk(v, cfg.get('bkind')) for v in cfg['bounds'])
            kw['user_params'] = copy.deepcopy(kw['user_params'])
            if seed is None:
                np.random.rand(5)
            else:
                np.random.seed(seed)
            keep['0'] = snapshot(kw, x0)
            try:
                return solve(objfun, x0, **kw)
            finally:
                keep['1'] = snapshot(kw, x0)
        setattr(H.mods.solver, 'solve', spy)
        return [lambda: setattr(H.mods.solver, 'solve', solve)]
    c = dict(cfg)
    c['np_seed'] = seed if seed is not None else 7
    stubbed = ('trsbox', 'ctrsbox_pgd', 'ctrsbox_sfista', 'model_value')
    saved = [(mod, k, v) for mod in A.mods.all.values() for k, v in list(vars(mod).items()) if k in stubbed or (hasattr(v, 'linregress') and not isinstance(v, type))]
    try:
        run = ws.run_solve(A, c, hooks)
    finally:
        for mod, k, v in saved:      # only the stand-ins are taken away: module state left behind by the run stays
            setattr(mod, k, v)
    run.snap0, run.snap1 = keep.get('0'), keep.get('1')
    return run


def run_solve_fn(H):
    return H.mods.solver.solve


# ---- symbolic caller data ---------------------------------------------------------------------------------------------------
def symcaller(H, cfg):
    n, kind = cfg['n'], cfg['kind']
    x0 = [H.real('x%d' % i, -10, 10) for i in range(n)]
    lo = [H.real('l%d' % i, -10, 10) for i in range(n)]
    hi = [H.real('u%d' % i, -10, 30) for i in range(n)]
    for i in range(n):
        H.assume(hi[i] - lo[i] >= 2.0)
    a, b, c = H.arr(list(x0)), H.arr(list(lo)), H.arr(list(hi))
    cnt = [0]

    def objfun(x):
        cnt[0] += 1
        if cnt[0] >= n + 1:
            raise c14.Done()
        return H.arr([H.real('r%d' % cnt[0], 1, 1000)])
    kw = dict(rhobeg=0.25 if kind == 'scaled' else 1.0, rhoend=1e-6, maxfun=n + 1, do_logging=False, scaling_within_bounds=(kind == 'scaled'), user_params={'general.check_objfun_for_overflow': False})
    kw['bounds'] = (b, None) if kind == 'lower' else (b, c)
    if kind == 'proj':
        kw['projections'] = [lambda x: H.mods.util.pbox(x, H.arr([-20.0] * n), H.arr([40.0] * n))]
        kw['user_params']['dykstra.max_iters'] = 2
    try:
        H.mods.solver.solve(objfun, a, **kw)
    except core.EngineStop:
        raise
    except c14.Done:
        pass
    for nm, arr, ref in (('x0', a, x0), ('lower bound', b, lo), ('upper bound', c, hi)):
        H.check(len(arr) == n, 'caller-data')
        for i in range(n):
            H.check(arr[i] == ref[i], 'caller-data', lambda: '%s was %s, now %s (x0=%s, bounds %s, %s)' % (nm, ref, [arr[j] for j in range(n)], x0, lo, hi))


# ---- no use of the global generator in the subproblem solvers ---------------------------------------------------------------------
def taint(H, cfg):
    f = cfg['f']
    used = []
    if H.symbolic:
        def handler(k):
            v = getattr(np.random, k)
            if k in ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'):
                def make(*a, **kw):
                    if not a and not kw:
                        used.append(k)
                    return v(*a, **kw)
                return make
            if callable(v):
                def call(*a, **kw):
                    used.append(k)
                    return v(*a, **kw)
                return call
            return v
        H.eng.random_handler = handler
    res = []
    st0 = np.random.get_state()
    for rep in range(1 if H.symbolic else 2):
        np.random.seed(rep + 5)
        k0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
        res.append(one(H, f))
        k1 = np.random.get_state()
        if not H.symbolic and not (np.array_equal(k0[0], k1[1]) and k0[1] == k1[2]):
            used.append('numpy.random')
    np.random.set_state(st0)
    differ = not H.symbolic and any(not np.array_equal(np.asarray(res[0], dtype=float), np.asarray(r, dtype=float)) for r in res[1:])
    # the generator may only be touched without consequence: in the replay the results for two global states are compared
    if H.symbolic:
        H.check(not used, 'no-global-random', lambda: '%s uses the global random generator: %s' % (f, used))
    else:
        H.check(not differ, 'no-global-random', lambda: '%s gives %s for different global random states' % (f, res))


def one(H, f):
    TR, U = H.mods.trust_region, H.mods.util
    g = H.real('g', -100, 100)
    delta = [1.0, 0.125][H.choose(2, 'delta')]
    if f == 'trsbox':
        r = TR.trsbox(H.arr([0.5, 0.0]), H.arr([g, 1.0]), H.arr([[0.0, 0.0], [0.0, 2.0]]), H.arr([0.0, -1.0]), H.arr([2.0, 1.0]), delta, use_fortran=False)
        return [r[0][0], r[0][1]]
    if f == 'trsbox_geometry':
        r = TR.trsbox_geometry(H.arr([0.5, 0.0]), H.real('c', -1, 1), H.arr([g, 0.0]), H.arr([0.0, -1.0]), H.arr([2.0, 1.0]), delta, use_fortran=False)
        return [r[0], r[1]]
    if f == 'dykstra':
        r = U.dykstra([lambda x: U.pbox(x, H.arr([-2.0]), H.arr([1.0])), lambda x: U.pball(x, H.arr([0.5]), delta)], H.arr([g]), max_iter=2)
        return [r[0]]
    H.assume(H.OR(g >= 8, g <= -8))
    d = c13.call(H, f, [0.5], 1.0, [g], [[0.0]], [lambda x: U.pbox(x, H.arr([-2.0]), H.arr([1.0]))], delta, 2, 1e-6, 2, 0.5)
    return [d[0]]


def main():
    from ..runner import run_check
    return run_check('C19', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
