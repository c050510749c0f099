"""C03: the returned solution is a point that was really evaluated, with its own residual mean and objective."""
import numpy as np
from .. import ws, core
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS
ASSUMPTIONS = ws.WS_ASSUMPTIONS
KEYS = ('x-evaluated', 'resid', 'obj')


def tasks(tier):
    out = []
    for k, c in ws.base_configs().items():
        if k in ('diag', 'diag-soft'):
            continue
        out.append(Task(k, 'check', c, float_mode='format', must=KEYS))
    return out


def solution_ok(H, run, s):
    pts = dict((p, idx) for p, idx in ws.points(run))
    e = s.xmin_eval_num
    d = lambda: ws.desc(run)
    H.check(e is not None and int(e) in pts, 'x-evaluated', lambda: 'xmin_eval_num=%s not an evaluation point; %s' % (e, ws.desc(run)))
    calls = [run.calls[i] for i in pts[int(e)]]
    x = ws.P(s.x)
    H.check(bool(np.all(np.abs(x - calls[0].x) <= 1e-9 * (1.0 + np.abs(x)))), 'x-evaluated', lambda: 'soln.x=%s is not the point of eval number %s; %s' % (x, e, ws.desc(run)))
    rm = ws.fmean(H, calls)
    got = ws.seq(s.resid)
    H.check(len(got) == len(rm), 'resid', d)
    for a, b in zip(got, rm):
        H.check(ws.close(H, a, b), 'resid', lambda: 'soln.resid=%s, mean at eval point %s is %s; %s' % (s.resid, e, rm, ws.desc(run)))
    f = ws.fsum(H, rm)
    if run.h is not None:
        f = f + run.h(calls[0].x, *run.argsh)
    H.check(ws.close(H, s.obj, f), 'obj', lambda: 'soln.obj=%s, sum(r^2)+h=%s; %s' % (s.obj, f, ws.desc(run)))


def check(H, cfg):
    run = ws.run_solve(H, cfg)
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    solution_ok(H, run, run.soln)
