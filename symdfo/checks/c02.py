"""C02: evaluation budget and counters are exact."""
from .. import ws
from ..runner import Task

BUDGET = dict(quick=60, thorough=600)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS
ASSUMPTIONS = ws.WS_ASSUMPTIONS


def tasks(tier):
    C = ws.base_configs()
    out = []
    for k, c in C.items():
        out.append(Task(k, 'check', c, float_mode='format', must=('budget', 'nf')))
    return out


def check(H, cfg):
    run = ws.run_solve(H, cfg)
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    s = run.soln
    nc = len(run.calls)
    H.check(nc <= cfg['maxfun'], 'budget', lambda: ws.desc(run))
    H.check(s.nf == nc, 'nf', lambda: ws.desc(run))
    ev = [e for e, p in run.log]
    H.check(ev == list(range(1, nc + 1)), 'eval-numbers', lambda: str(run.log) + ws.desc(run))
    pn = []
    for e, p in run.log:
        if not pn or pn[-1] != p:
            pn.append(p)
    H.check(pn == list(range(1, len(pn) + 1)), 'point-numbers', lambda: str(run.log) + ws.desc(run))
    H.check(s.nx == (pn[-1] if pn else 0), 'nx', lambda: str(run.log) + ws.desc(run))
    pts = ws.points(run)
    nsv = cfg.get('nsamples')
    for j, (p, idx) in enumerate(pts):
        for i in idx[1:]:
            H.check(ws.same_x(run.calls[i].x, run.calls[idx[0]].x), 'same-x', lambda: ws.desc(run))
        if nsv is not None:
            want = None
            for at, v in run.ns_calls:
                if at <= idx[0]:
                    want = max(v, 1)
            ok = len(idx) == want or (j == len(pts) - 1 and nc == cfg['maxfun'] and len(idx) < want)
            H.check(ok, 'samples-per-point', lambda: 'point %d: %d samples, asked %s; %s %s' % (p, len(idx), want, run.log, ws.desc(run)))
        else:
            H.check(len(idx) == 1, 'samples-per-point', lambda: '%s %s' % (run.log, ws.desc(run)))
    if nsv is None:
        H.check(s.nx == s.nf, 'nx-eq-nf', lambda: ws.desc(run))
