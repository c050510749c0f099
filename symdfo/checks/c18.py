"""C18: trust-region radii and the diagnostic table obey their invariants."""
import math
import numpy as np
from .. import ws, core
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS
ASSUMPTIONS = ws.WS_ASSUMPTIONS
COLS = ['fk', 'rho', 'delta', 'interpolation_error', 'interpolation_condition_number', 'interpolation_change_J_norm',
        'interpolation_total_residual', 'poisedness', 'max_distance_xk', 'norm_gk', 'norm_sk', 'nruns', 'nf', 'nx', 'npt', 'nsamples',
        'iter_this_run', 'iters_total', 'iter_type', 'ratio', 'slow_iter']


def tasks(tier):
    out = []
    C = ws.base_configs()
    C['reset-rho'] = dict(C['growing'], params=dict(C['growing']['params'], **{'growing.reset_rho': True, 'growing.reset_delta': True}))
    C['big-delta'] = dict(C['plain'], maxfun=6, params={'tr_radius.gamma_inc': 1e6, 'tr_radius.gamma_inc_overline': 1e6}, palette=3)
    C['rho-deep'] = dict(C['plain'], maxfun=5, rhoend=1e-4, palette=2)
    C['rho-deep-hard'] = dict(C['hard-scale'], maxfun=6, rhoend=0.05, palette=2)
    C['rho-deep-soft'] = dict(C['soft'], maxfun=6, rhoend=0.05, palette=2, params=dict(C['soft']['params'], **{'restarts.rhoend_scale': 0.25}))
    C['hreg-tau'] = dict(C['hreg'], maxfun=6, palette=2, crit=[1e-12, 0.0, -1e-3, 0.3])
    C['hreg-tau-growing'] = dict(C['growing'], h=0.5, maxfun=6, palette=2, crit=[1e-12, 0.0, 0.3])
    for i, (a1, a2) in enumerate(((0.6, 0.61), (0.3, 0.05), (0.9, 0.95), (0.05, 0.9))):
        for k, r in (('', 1e-3), ('-near', 0.04)):
            C['alpha%d%s' % (i, k)] = dict(C['plain'], maxfun=5, rhoend=r, palette=2, params={'tr_radius.alpha1': a1, 'tr_radius.alpha2': a2})
    C['gamma-dec'] = dict(C['plain'], maxfun=6, rhoend=0.05, palette=3, params={'tr_radius.gamma_dec': 0.05, 'tr_radius.eta1': 0.4, 'tr_radius.eta2': 0.45})
    C['gamma-one'] = dict(C['plain'], maxfun=6, rhoend=0.05, palette=3, params={'tr_radius.gamma_inc': 1.0, 'tr_radius.gamma_inc_overline': 1.5, 'tr_radius.eta1': 0.0, 'tr_radius.eta2': 1.0})
    C['noise-rho'] = dict(C['noise-add'], rhoend=0.9)
    for k, c in C.items():
        if k in ('diag', 'diag-soft', 'plain-short'):
            continue
        out.append(Task(k, 'check', ws.diag_on(c, poised=(k in ('plain', 'bounds', 'n2'))), float_mode='format', must=() if k in ('init-parallel-ns2',) else ('radii',)))
    out.append(Task('reduce', 'check', dict(ws.diag_on(C['rho-deep']), probe=True), float_mode='format', nl='exact', must=('radii',)))
    return out


def iters_hook(H, run):
    """count the iterations (one model fit or noise exit per iteration)"""
    C = H.mods.controller.Controller
    orig = C.trust_region_step
    run.iters = 0

    def trust_region_step(self, *a, **k):
        r = orig(self, *a, **k)
        run.iters += 1
        return r
    C.trust_region_step = trust_region_step

    def undo():
        C.trust_region_step = orig
    return [undo]


def reduce_hook(H, run):
    """at every rho reduction of a run the same method is also executed once with an arbitrary radius state and arbitrary factors"""
    C = H.mods.controller.Controller
    if not hasattr(C, 'reduce_rho'):
        return []
    orig = C.reduce_rho

    def reduce_rho(self, current_iter, params):
        if not hasattr(run, 'probe'):
            run.probe = True
            keep = {k: getattr(self, k) for k in ('rho', 'delta', 'rhoend', 'last_successful_iter')}
            a1, a2 = H.real('alpha1', 0.0, 0.999), H.real('alpha2', 0.0, 1.0)
            re, q = H.real('rhoend', 1e-6, 10), [3.0, 16.0, 16.5, 100.0, 250.0, 251.0, 1e4][H.choose(7, 'ratio')]
            self.rhoend, self.rho = re, re * q
            self.delta = self.rho * H.real('dscale', 1, 100)
            old = self.rho
            orig(self, current_iter, lambda k, *a: {'tr_radius.alpha1': a1, 'tr_radius.alpha2': a2}[k] if k.startswith('tr_radius.alpha') else params(k, *a))
            rho, delta = self.rho, self.delta
            d = lambda: 'rho reduction from rho=%s with rhoend=%s alpha1=%s alpha2=%s gives rho=%s delta=%s' % (old, re, a1, a2, rho, delta)
            H.check(H.AND(rho > 0, delta >= rho), 'radii', d)
            tol = 0.0 if H.symbolic else 1e-12
            H.check(H.AND(rho >= re * (1 - tol), rho <= old * (1 + tol)), 'radii', d)
            for k, v in keep.items():
                setattr(self, k, v)
        return orig(self, current_iter, params)
    C.reduce_rho = reduce_rho

    def undo():
        C.reduce_rho = orig
    return [undo]


def check(H, cfg):
    if cfg.get('probe'):
        run = ws.run_solve(H, cfg, reduce_hook)
        H.check(run.exc is None, 'no-exception', lambda: run.tb)
        return
    run = ws.run_solve(H, cfg, iters_hook)
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    s = run.soln
    df = s.diagnostic_info
    d = lambda: ws.desc(run) + '\n' + str(df.drop(columns=[c for c in ('fk',) if c in df.columns]).to_dict('list') if df is not None else None)[:1500]
    H.check(df is not None, 'table', d)
    p = run.params_in
    exp = list(COLS)
    if p.get('logging.save_xk'):
        exp.append('xk')
    if p.get('logging.save_rk'):
        exp.append('rk')
    H.check(sorted(df.columns) == sorted(exp), 'columns', d)
    N = len(df)
    H.check(N == run.iters, 'one-row-per-iteration', lambda: '%d rows, %d iterations; %s' % (N, run.iters, d()))
    col = {c: df[c].tolist() for c in df.columns}
    n = run.n
    npt0 = cfg.get('npt', n + 1)
    npt_max = max(npt0, p.get('restarts.max_npt', npt0))
    sc = p.get('restarts.rhoend_scale', 1.0)
    tol = 1 + 1e-12
    for i in range(N):
        rho, delta = col['rho'][i], col['delta'][i]
        run_i = col['nruns'][i]
        H.check(H.AND(rho > 0, delta >= rho, delta <= 1e10, rho <= cfg['rhobeg'], rho * tol >= cfg['rhoend'] * sc ** run_i), 'radii',
                lambda: 'row %d: rho=%s delta=%s run=%s; %s' % (i, rho, delta, run_i, d()))
        H.check(2 <= col['npt'][i] <= npt_max, 'npt', d)
        H.check(col['iters_total'][i] == i, 'iter-numbers', d)
        for c, fin in (('nf', s.nf), ('nx', s.nx), ('nruns', s.nruns)):
            H.check(col[c][i] <= fin, 'counters', d)
        H.check(col['nx'][i] <= col['nf'][i] <= len(run.calls), 'counters', d)
        if i:
            for c in ('nf', 'nx', 'nruns'):
                H.check(col[c][i] >= col[c][i - 1], 'counters', d)
            if col['nruns'][i] == col['nruns'][i - 1]:
                H.check(col['iter_this_run'][i] == col['iter_this_run'][i - 1] + 1, 'iter-numbers', d)
                if not p.get('growing.reset_rho'):
                    H.check(rho <= col['rho'][i - 1], 'rho-monotone', d)
                if not cfg.get('noisy'):
                    H.check(ws.leq(H, col['fk'][i], col['fk'][i - 1]), 'fk-monotone', lambda: 'row %d fk=%s after %s; %s' % (i, col['fk'][i], col['fk'][i - 1], d()))
            elif not cfg.get('noisy'):
                H.check(ws.leq(H, col['fk'][i], col['fk'][i - 1]), 'fk-monotone', lambda: 'row %d fk=%s after %s; %s' % (i, col['fk'][i], col['fk'][i - 1], d()))
