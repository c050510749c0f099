"""C08: bad objective values (NaN, +-inf, overflow, exceptions) at any evaluation are survived gracefully."""
import math
import numpy as np
from .. import ws, core
from ..runner import Task

BUDGET = dict(quick=100, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS
BOUNDS = ws.WS_BOUNDS + (' Faults: at one evaluation index chosen symbolically among all 1..maxfun, from that index on, or at all evaluations; '
                         'kinds NaN, +inf, -inf, 1e200, exception; in the first or the last residual component.')
ASSUMPTIONS = ws.WS_ASSUMPTIONS + ['IEEE special values are concrete and propagate through the same expressions as symbolic reals (inf*sym is '
                                   'resolved by the sign of the symbolic value)']


def tasks(tier):
    out = []
    base = ws.base_configs()
    skip = ('plain-short', 'plain-rho', 'diag-soft')
    for k, c in base.items():
        if k in skip:
            continue
        out.append(Task(k, 'check', dict(c, faults=ws.KINDS, maxfun=min(c['maxfun'], 7)), float_mode='format', must=('no-exception', 'x-evaluated')))
    for k in ('plain', 'soft', 'hard', 'npt3', 'ns2', 'n2m2', 'proj', 'hreg', 'growing', 'diag', 'bounds', 'scaled', 'init-parallel', 'slow', 'noise-mult', 'reltol'):
        if k in base:
            c = dict(base[k], faults=ws.KINDS[:4], fault_from=True, maxfun=min(base[k]['maxfun'], 6))
            out.append(Task(k + '-from', 'check', c, float_mode='format', must=('no-exception',)))
    for k in ('n2m2', 'growing', 'hreg', 'proj'):
        c = ws.diag_on(dict(base[k], faults=ws.KINDS[:4], fault_from=True, maxfun=min(base[k]['maxfun'], 6)))
        out.append(Task(k + '-diagfrom', 'check', c, float_mode='format', must=('no-exception',)))
    for k in ('n2m2', 'growing'):
        c = dict(base[k], faults=ws.KINDS[:4], fault_last=True, maxfun=min(base[k]['maxfun'], 6))
        out.append(Task(k + '-last', 'check', c, float_mode='format', must=('no-exception',)))
    for k in ('plain', 'soft', 'hard'):
        c = dict(base[k], faults=['nan', 'inf'], maxfun=5, params=dict(base[k].get('params', {}), **{'interpolation.throw_error_on_nans': True}))
        out.append(Task(k + '-raise', 'check_raise', c, float_mode='format', must=('raise-opt-in',)))
    return out


def check(H, cfg):
    run = ws.run_solve(H, cfg)
    d = lambda: '%s; fault %s at %s; %s' % (ws.desc(run), run.fault_kind, run.fault_at, run.tb)
    exc = [i for i, c in enumerate(run.calls) if c.fault == 'exc']
    if exc:
        H.check(isinstance(run.exc, ws.ObjError) and run.exc.args == ('user error',) and run.exc is run.raised, 'exception-propagates',
                lambda: 'exception from objfun replaced by %r; %s' % (run.exc, d()))
        H.check(len(run.calls) == exc[0] + 1, 'no-more-evals', lambda: '%d evaluations after the exception' % (len(run.calls) - exc[0] - 1))
        return
    H.check(run.exc is None, 'no-exception', d)
    s = run.soln
    H.check(len(run.calls) <= cfg['maxfun'] and s.nf == len(run.calls), 'budget', d)
    if cfg.get('bounds') is not None:
        lo, hi = cfg['bounds']
        for c in run.calls:
            H.check(bool((lo is None or np.all(c.x >= np.array(lo))) and (hi is None or np.all(c.x <= np.array(hi)))), 'bounds', d)
    x = ws.P(s.x)
    H.check(bool(np.all(np.isfinite(x))), 'x-finite', d)
    H.check(any(np.all(np.abs(c.x - x) <= 1e-9 * (1.0 + np.abs(x))) for c in run.calls), 'x-evaluated', lambda: 'soln.x=%s was not evaluated; %s' % (x, d()))
    H.check(isinstance(str(s), str), 'str', d)
    first = [i for i, c in enumerate(run.calls) if c.fault is not None]
    first = first[0] if first else len(run.calls)
    # points completely sampled before the fault
    best = []
    for p, idx in ws.points(run):
        if idx[-1] < first and all(run.calls[i].fault is None for i in idx):
            cs = [run.calls[i] for i in idx]
            f = ws.fsum(H, ws.fmean(H, cs))
            if run.h is not None:
                f = f + run.h(cs[0].x, *run.argsh)
            best.append(f)
    if best:
        fin = isinstance(s.obj, core.Sym) or np.isfinite(s.obj)
        averaged = any(len(idx) > 1 for p, idx in ws.points(run))
        H.check(bool(fin), 'finite-obj', lambda: 'soln.obj=%s although a finite value was found before the fault; %s' % (s.obj, d()))
        if not averaged:
            for f in best:
                H.check(ws.leq(H, s.obj, f), 'best-kept', lambda: 'soln.obj=%s worse than %s found before the fault; %s' % (s.obj, f, d()))
    # a success claim needs a finite objective
    if s.flag == 0:
        H.check(isinstance(s.obj, core.Sym) or bool(np.isfinite(s.obj)), 'success-finite', d)


def check_raise(H, cfg):
    """the user opted into raising on NaN: the only exception allowed is the documented one"""
    run = ws.run_solve(H, cfg)
    H.note('raised', int(run.exc is not None))
    H.check(run.exc is None or isinstance(run.exc, (np.linalg.LinAlgError, ValueError)), 'raise-opt-in', lambda: run.tb)
