"""C04: the best point ever evaluated is never lost."""
from .. import ws
from ..runner import Task

BUDGET = dict(quick=75, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS
ASSUMPTIONS = ws.WS_ASSUMPTIONS


def tasks(tier):
    out = []
    for k, c in ws.base_configs().items():
        if k in ('diag', 'diag-soft', 'plain-short') or c.get('noisy'):
            continue
        out.append(Task(k, 'check', c, float_mode='format', must=('best',)))
    return out


def check(H, cfg):
    run = ws.run_solve(H, cfg)
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    s = run.soln
    for i, c in enumerate(run.calls):
        H.check(ws.leq(H, s.obj, c.f), 'best', lambda: 'soln.obj=%s > f at evaluation %d (%s); %s' % (s.obj, i + 1, c.f, ws.desc(run)))
