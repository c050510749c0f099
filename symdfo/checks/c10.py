"""C10: exit flags and messages tell the truth."""
import math
import numpy as np
from .. import ws, core, load
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS
ASSUMPTIONS = ws.WS_ASSUMPTIONS


def tasks(tier):
    out = []
    C = ws.base_configs()
    C['x0-budget'] = dict(rhobeg=1.0, rhoend=0.5, maxfun=1, nsamples=ws.ns2, noisy=True)
    C['x0-small'] = dict(rhobeg=1.0, rhoend=0.5, maxfun=2, params={'model.abs_tol': 4.0})
    C['x0-small-h'] = dict(rhobeg=1.0, rhoend=0.5, maxfun=2, h=0.5, x0=[1.0], params={'model.abs_tol': 4.0})
    for k in ('plain', 'soft', 'hard', 'hard-newrk', 'proj', 'hreg'):
        C[k + '-fault'] = dict(C[k], faults=['nan', 'inf', 'big'], fault_all=True, maxfun=5, palette=3)
    C['abstol-nanfault'] = dict(C['abstol'], faults=['nan', 'inf', '-inf', 'big'], fault_all=True)
    for k, c in C.items():
        if k == 'diag' or k == 'diag-soft':
            continue
        out.append(Task(k, 'check', ws.diag_on(c), float_mode='format', must=('nruns',)))
    return out


def hooks(H, run):
    """count restarts through the restart entry points (no source change)"""
    mods = H.mods
    run.mains = 0
    run.soft_done = 0
    run.soft_partial = 0
    C = mods.controller.Controller
    orig = C.soft_restart

    def soft_restart(self, *a, **k):
        n0 = len(run.calls)
        r = orig(self, *a, **k)
        if r is None:
            run.soft_done += 1
        elif len(run.calls) > n0:
            run.soft_partial += 1
        return r
    C.soft_restart = soft_restart

    def mk(o):
        def solve_main(*a, **k):
            run.mains += 1
            return o(*a, **k)
        return solve_main
    load.stub(mods, 'solve_main', mk)

    def undo():
        C.soft_restart = orig
    return [undo]


def check(H, cfg):
    run = ws.run_solve(H, cfg, hooks)
    if run.exc is not None and cfg.get('faults'):
        H.cut('exception under a fault (C08)')
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    s = run.soln
    d = lambda: ws.desc(run)
    p = dict(run.params_in)
    if s.flag == s.EXIT_MAXFUN_WARNING:
        H.check(s.nf == cfg['maxfun'], 'maxfun-flag', d)
        H.check(len(run.calls) == cfg['maxfun'], 'maxfun-flag', d)
    restarts = run.mains - 1 + run.soft_done
    H.check(restarts + 1 <= s.nruns <= restarts + 1 + run.soft_partial, 'nruns', lambda: 'nruns=%s but %d restarts performed (+%d partial); %s' % (s.nruns, restarts, run.soft_partial, ws.desc(run)))
    if s.flag == s.EXIT_SUCCESS:
        fin = True if isinstance(s.obj, core.Sym) else bool(np.isfinite(s.obj))
        H.check(fin, 'success-finite', d)
        if 'sufficiently small' in s.msg:
            pts = ws.points(run)
            calls = [run.calls[i] for i in pts[0][1]]
            f0 = ws.fsum(H, ws.fmean(H, calls))
            if run.h is not None:
                f0 = f0 + run.h(calls[0].x, *run.argsh)
            abs_tol = p.get('model.abs_tol', 1e-12)
            rel_tol = p.get('model.rel_tol', 1e-20)
            H.check(H.OR(s.obj <= abs_tol * (1 + 1e-9), ws.leq0(s.obj, f0, rel_tol)), 'small-truth', lambda: 'obj=%s f0=%s abs_tol=%s rel_tol=%s; %s' % (s.obj, f0, abs_tol, rel_tol, ws.desc(run)))
        elif 'rho has reached rhoend' in s.msg:
            df = s.diagnostic_info
            rho = df['rho'].tolist()[-1]
            want = cfg['rhoend'] * p.get('restarts.rhoend_scale', 1.0) ** (s.nruns - 1)
            H.check(abs(float(rho) - want) <= 1e-12 * want, 'rhoend-truth', lambda: 'last rho=%s rhoend=%s; %s' % (rho, want, ws.desc(run)))
        elif 'maximum number of unsuccessful restarts' in s.msg.lower():
            H.check(s.nruns >= p.get('restarts.max_unsuccessful_restarts', 10), 'unsucc-truth', d)
            H.check(run.mains + run.soft_done >= p.get('restarts.max_unsuccessful_restarts', 10), 'unsucc-truth', d)
