"""C11: the returned Jacobian is the interpolant / regression fit through the evaluations it names, in the user's coordinates."""
import numpy as np
from .. import ws, core
from ..runner import Task

BUDGET = dict(quick=60, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS + (' The fit is recomputed independently from the recorded calls (points concrete, residuals symbolic), so the comparison is linear in the residuals and decided '
                         'for all residual values; npt from n+1 to 2n+1 (and 2n+2 after increase_npt), n<=2 (n=3 for the initial set and one iteration), scaling, shifted boxes, nsamples>1, soft/hard/automatic restarts, '
                         'early termination by budget after any evaluation, non-finite residuals, growing sets that completed; linear residuals with symbolic A, b.')
ASSUMPTIONS = ws.WS_ASSUMPTIONS + ['matrix factors of concrete geometries are trusted up to 1e-10*cond; sets with condition number above 1e7 are not judged']


def linear(H, run, j, x):
    n, m = run.n, run.m
    if not hasattr(run, 'A'):
        run.A = [[H.real('A%d_%d' % (i, k), -50, 50) for k in range(n)] for i in range(m)]
        run.b = [H.real('b%d' % i, -50, 50) for i in range(m)]
    out = []
    for i in range(m):
        s = -run.b[i]
        for k in range(n):
            s = s + run.A[i][k] * float(x[k])
        out.append(s)
    return out


def configs(tier):
    C = ws.base_configs()
    D = dict(rhobeg=1.0, rhoend=0.5)
    S2 = dict(n=2, x0=[3.7, -1.0], bounds=([-1.0, -3.0], [4.0, 7.0]), scaling=True, rhobeg=0.2, rhoend=0.1, palette=3)
    C['scaled2'] = dict(S2, m=2, maxfun=5)
    C['scaled2-b'] = dict(S2, m=1, maxfun=6)
    C['scaled2-npt5'] = dict(S2, m=1, npt=5, maxfun=7)
    C['scaled2-soft'] = dict(S2, m=1, maxfun=7, params=ws.SOFT)
    C['scaled2-hard'] = dict(S2, m=1, maxfun=8, params=ws.HARD)
    C['scaled-hard'] = dict(C['scaled'], params=ws.HARD, maxfun=7)
    C['scaled-soft'] = dict(C['scaled'], params=ws.SOFT, maxfun=7)
    C['scaled-h'] = dict(C['scaled'], h=0.4, maxfun=6)
    C['scaled-reltol'] = dict(C['scaled'], params={'model.rel_tol': 0.3})
    C['scaled-abstol-hard'] = dict(C['scaled'], params=ws.U(ws.HARD, {'model.abs_tol': 1.0}), maxfun=7)
    C['scaled-npt3'] = dict(C['scaled'], npt=3, maxfun=7)
    C['shifted'] = dict(D, n=2, m=1, x0=[1e3, -2e3], bounds=([0.0, -4e3], [2e3, 0.0]), maxfun=6, palette=3)
    C['base-shift'] = dict(D, n=1, m=1, maxfun=7, rhobeg=1.0, rhoend=0.02, palette=3, params={'general.rounding_error_constant': 2.0})
    C['base-shift2'] = dict(D, n=2, m=1, maxfun=7, rhobeg=1.0, rhoend=0.02, palette=3, params={'general.rounding_error_constant': 2.0})
    for npt in (4, 5):
        C['n2-npt%d' % npt] = dict(D, n=2, m=1, npt=npt, maxfun=7, palette=3, x0=[0.0, 1.0])
        C['n2-npt%d-bounds' % npt] = dict(D, n=2, m=1, npt=npt, maxfun=7, palette=3, x0=[0.0, 1.0], bounds=([0.0, -4.0], [6.0, 1.0]))
    C['n2-npt4-hard'] = dict(D, n=2, m=1, npt=4, maxfun=9, palette=2, x0=[0.0, 1.0], params=ws.HARD)
    C['n2-npt4-soft'] = dict(D, n=2, m=1, npt=4, maxfun=9, palette=2, x0=[0.0, 1.0], params=ws.SOFT)
    C['n3'] = dict(D, n=3, m=2, maxfun=6, palette=2, x0=[0.0, 1.0, 2.0])
    C['n3-npt7'] = dict(D, n=3, m=1, npt=7, maxfun=9, palette=2, x0=[0.0, 1.0, 2.0])
    C['n3-npt7-scaled'] = dict(D, n=3, m=1, npt=7, maxfun=8, palette=2, x0=[0.0, 1.0, 2.0], bounds=([-1.0, 0.0, 1.0], [3.0, 2.0, 9.0]), scaling=True, rhobeg=0.1, rhoend=0.05)
    C['noprecond'] = dict(D, n=1, m=2, maxfun=6, params={'interpolation.precondition': False})
    C['n2m2-hard'] = dict(D, n=2, m=2, maxfun=8, palette=2, x0=[0.0, 1.0], params=ws.HARD)
    C['n2m2-soft'] = dict(D, n=2, m=2, maxfun=8, palette=2, x0=[0.0, 1.0], params=ws.SOFT)
    C['hard-reltol2'] = dict(D, n=1, m=2, maxfun=8, palette=3, params=ws.U(ws.HARD, {'model.rel_tol': 0.3}))
    C['hard-newrk-ns2'] = dict(C['hard-ns2'], params=ws.U(ws.HARD, {'restarts.hard.use_old_rk': False}), maxfun=10)
    C['hard-fault'] = dict(C['hard'], faults=['nan', 'inf'], fault_all=True)
    C['soft-fault'] = dict(C['soft'], faults=['nan', 'inf'], fault_all=True, palette=3)
    C['plain-fault'] = dict(C['plain'], faults=['nan', 'inf'], fault_all=True, palette=3)
    C['n2m2-fault'] = dict(C['n2m2'], faults=['nan', 'inf'], fault_all=True, palette=2)
    for k in ('plain', 'n2', 'scaled', 'scaled2', 'npt3', 'soft', 'hard', 'n2-npt5', 'scaled2-hard'):
        C['lin-' + k] = dict(C[k], rfun=linear)
    return C


def tasks(tier):
    out = []
    for k, c in configs(tier).items():
        if c.get('projections') or k in ('plain-short', 'diag', 'diag-soft', 'trinc-soft', 'soft-fake', 'slow-soft'):
            continue
        out.append(Task(k, 'check', c, float_mode='format', must=('jacobian',) if not k.startswith('growing') and k != 'growing-hard' else ()))
    return out


def npts_of(H, run):
    """hook: the largest point count of any model used, so that sets still growing can be told apart"""
    M = H.mods.model.Model
    orig = M.interpolate_mini_models_svd
    run.full = {}

    def interp(self, *a, **k):
        r = orig(self, *a, **k)
        if r is not None and r[0]:
            run.full[tuple(int(v) for v in self.model_jac_eval_nums[:self.npt()])] = self.npt() >= self.num_pts
        return r
    M.interpolate_mini_models_svd = interp

    def undo():
        M.interpolate_mini_models_svd = orig
    return [undo]


def fit(X, R):
    """coefficients F with J[i][k] = sum_t F[k][t]*R[t][i]: affine least squares through the rows of X (exact when square)"""
    X = np.array(X)
    sc = np.max(np.abs(X - X[0])) or 1.0
    M = np.hstack([np.ones((len(X), 1)), (X - X[0]) / sc])
    cond = np.linalg.cond(M)
    if not np.isfinite(cond) or cond > 1e7:
        return None, None, cond, sc
    return np.linalg.pinv(M)[1:] / sc, sc, cond, sc


def check(H, cfg):
    run = ws.run_solve(H, cfg, npts_of)
    if run.exc is not None and cfg.get('faults'):
        H.cut('exception under a fault (C08)')
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    s = run.soln
    J, E = s.jacobian, s.jacmin_eval_nums
    if J is None or E is None:
        H.note('no-jacobian')
        return
    n, m = run.n, run.m
    E = [int(v) for v in np.asarray(E).tolist()]
    d = lambda: 'jacobian=%s jacmin_eval_nums=%s; %s' % (J, E, ws.desc(run))
    if cfg.get('params', {}).get('growing.ndirs_initial') is not None:
        if len(E) < n + 1 or any(not v and tuple(E[:len(k)]) == k for k, v in run.full.items()):
            H.note('still growing')
            return
    npt = cfg.get('npt', n + 1)
    H.check(len(E) >= npt, 'count', d)
    if len(E) == 0:
        return
    H.check(len(set(E)) == len(E), 'distinct', d)
    pts = dict(ws.points(run))
    H.check(all(e in pts for e in E), 'named-evaluations-exist', d)
    X = [run.calls[pts[e][0]].x for e in E]
    R = [ws.fmean(H, [run.calls[i] for i in pts[e]]) for e in E]
    F, _, cond, sc = fit(X, R)
    if F is None:
        H.note('ill-conditioned set not judged')
        return
    if any(ws.isbad(v) for r in R for v in r):
        H.fail('finite-data', d)
    tol = 1e-10 * cond * 1000.0 / sc * (1 + np.max(np.abs(X)) / sc * 1e-3) + 1e-9
    H.check(tuple(np.shape(J)) == (m, n), 'shape', d)
    for i in range(m):
        for k in range(n):
            want = 0.0
            for t in range(len(E)):
                want = want + R[t][i] * float(F[k][t])
            dl = J[i, k] - want
            H.check(H.AND(dl <= tol, dl >= -tol), 'jacobian', lambda: 'J[%d,%d]=%s but the fit gives %s (tol %g); %s' % (i, k, J[i, k], want, tol, d()))
            if hasattr(run, 'A'):
                dl = J[i, k] - run.A[i][k]
                H.check(H.AND(dl <= tol, dl >= -tol), 'linear-A', lambda: 'J[%d,%d]=%s but A=%s; %s' % (i, k, J[i, k], run.A[i][k], d()))
