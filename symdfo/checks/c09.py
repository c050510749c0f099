"""C09: with projections, every evaluated point is an output of Dykstra's routine, exactly inside the box and within
sqrt(p*tol) of every set whenever the stopping rule was met; an infeasible x0 is projected first."""
import math, inspect
import numpy as np
from .. import ws, core, load, symnp
from ..runner import Task
from . import c15

BUDGET = dict(quick=100, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS + ['dfols.util.dykstra with arbitrary (symbolic) projector outputs', 'Model.as_absolute_coordinates / xpt / get_final_results with symbolic points']
BOUNDS = ws.WS_BOUNDS + (' Constraint sets: balls, half-spaces, boxes (concrete, n<=3), 1-3 user sets plus optional bounds. Abstract layer: Dykstra with '
                         'unconstrained symbolic projector outputs in [-100,100], n<=2, p<=4, <=3 sweeps; Model mapping with symbolic x, n=2.')
ASSUMPTIONS = ws.WS_ASSUMPTIONS


def ball(c, r):
    c = np.array(c, dtype=float)

    def pb(x):
        x = ws.P(x)
        v = x - c
        return c + v * (r / max(np.linalg.norm(v), r))
    return pb


def half(a, b):
    """a.x <= b"""
    a = np.array(a, dtype=float)

    def ph(x):
        x = ws.P(x)
        return x - max(0.0, (a @ x - b) / (a @ a)) * a
    return ph


def box(l, u):
    l, u = np.array(l, dtype=float), np.array(u, dtype=float)

    def pb(x):
        return np.minimum(np.maximum(ws.P(x), l), u)
    return pb


def configs():
    C = {}
    D = dict(n=2, m=1, rhobeg=0.5, rhoend=0.25, maxfun=6, palette=4)

    def add(name, sets, **kw):
        C[name] = dict(dict(D), projections=lambda run, s=tuple(sets): list(s), random=True, **kw)
    b2, h1, h2 = ball([0, 0], 1.5), half([1.0, 1.0], 1.0), half([-1.0, 0.2], 0.3)
    add('ball', [b2], x0=[0.3, 0.2])
    add('ball-out', [b2], x0=[5.0, 3.0])
    add('ball-edge', [b2], x0=[1.5, 0.0])
    add('ball-bounds', [b2], x0=[1.9, 0.3], bounds=([-1.0, 0.1], [1.1, 4.0]))
    add('half-ball', [b2, h1], x0=[0.1, 0.3])
    add('half-ball-out', [b2, h1], x0=[4.0, 4.0])
    add('wedge', [h1, h2], x0=[0.5, 0.5])
    add('three', [b2, h1, h2], x0=[2.0, 2.0])
    add('three-bounds', [b2, h1, h2], x0=[2.0, 2.0], bounds=([-0.7, -0.9], [0.6, 0.1]))
    add('box-only', [box([-1.0, -1.0], [0.1, 1.0 / 3])], x0=[0.7, 0.7])
    add('box-upper', [b2], x0=[1.0, 1.0], bounds=(None, [1.0 / 3, 5.0]))
    add('box-lower', [b2, h1], x0=[-1.0, -1.0], bounds=([-1.0 / 3, -0.1], None))
    add('n1', [ball([0.3], 0.9)], n=1, x0=[2.0])
    add('n3', [ball([0, 0, 0], 1.2), half([1, 2, 3.0], 1.0)], n=3, x0=[1.0, 1.0, 1.0], palette=3)
    SP = dict(x0=[1.0, 1.0], params=ws.U(ws.SOFT), maxfun=7, palette=3)
    add('ball-soft', [b2], **dict(SP))
    add('half-ball-soft', [b2, h1], **dict(SP, bounds=([-1.3, -1.0], [0.1, 4.0])))
    add('soft-nomove', [b2, h1], **dict(SP, params=ws.U(ws.SOFT, {'restarts.soft.move_xk': False})))
    add('ball-hard', [b2], **dict(SP, params=ws.U(ws.HARD)))
    add('half-ball-hard', [b2, h1], **dict(SP, params=ws.U(ws.HARD), bounds=([-1.3, -1.0], [0.1, 4.0])))
    add('tol', [b2, h1], x0=[3.0, 2.0], params={'dykstra.d_tol': 1e-4})
    add('iters', [b2, h1], x0=[3.0, 2.0], params={'dykstra.max_iters': 3}, bounds=([-2.0, -2.0], [0.9, 4.0]))
    add('tol-soft', [b2, h1, h2], **dict(SP, params=ws.U(ws.SOFT, {'dykstra.d_tol': 1e-3, 'dykstra.max_iters': 7})))
    add('slow-sets', [ball([0, 0], 1.0), ball([1.9, 0], 1.0)], x0=[1.0, 0.4], rhobeg=0.2, rhoend=0.1)
    add('slow-sets-b', [ball([0, 0], 1.0), half([1.0, 0.05], -0.9)], x0=[-0.5, 0.9], rhobeg=0.2, rhoend=0.1, bounds=([-2.0, -0.4], [2.0, 2.0]))
    add('reg', [b2, h1], x0=[0.5, 0.5], h=0.3)
    add('reg-bounds', [b2, h1], x0=[0.5, 0.5], h=0.3, bounds=([-1.0, 0.1], [0.4, 1.0]))
    add('trinc', [b2, h1], x0=[0.5, 0.5], predlo=-1.0)
    add('trinc-soft', [b2, h1], **dict(SP, predlo=-1.0))
    add('slow-soft', [b2, h1], **dict(SP, params=ws.U(ws.SOFT, {'slow.history_for_slow': 1, 'slow.max_slow_iters': 1, 'slow.thresh_for_slow': 0.5})))
    add('ns2', [b2, h1], x0=[0.5, 0.5], nsamples=ws.ns2, noisy=True, maxfun=8, palette=3)
    add('faults', [b2, h1], x0=[0.5, 0.5], faults=['nan', 'inf', 'big'], maxfun=6, params=ws.U(ws.SOFT), palette=3)
    add('fault-abort', [b2], x0=[1.5, 1.5], faults=['nan', 'inf'], maxfun=5)
    return C


def tasks(tier):
    out = [Task(k, 'check', c, float_mode='format', must=('dykstra-output', 'set-distance', 'params-passed')) for k, c in configs().items()]
    out += c15.abstract_tasks(tier, ('rule',))
    for ops in (('abs',), ('chg', 'xpt'), ('chg', 'shift', 'xpt'), ('shift', 'final'), ('chg', 'shift', 'final'), ('add', 'xpt')):
        out.append(Task('model-' + '-'.join(ops), 'model', dict(ops=ops), must=('mapped',), nl='exact'))
    return out


abstract = c15.abstract


def check(H, cfg):
    rec = []

    def hooks(H, run):
        def make(orig):
            sig = inspect.signature(orig)

            def dykstra(*a, **kw):
                ba = sig.bind(*a, **kw)
                ba.apply_defaults()
                b = ba.arguments
                names = list(b)
                Ps = list(b[names[0]])
                xs = []

                def wrap(p):
                    def q(x):
                        y = p(x)
                        xs.append(ws.P(y).copy())
                        return y
                    return q
                x0 = ws.P(b[names[1]]).copy()
                b[names[0]] = [wrap(p) for p in Ps]
                out = orig(*ba.args, **ba.kwargs)
                pp = len(Ps)
                full = [x0] + xs
                met = False
                if len(xs) >= pp and pp:
                    last = full[-pp - 1:]
                    cI = sum(float(np.sum((last[i + 1] - last[i]) ** 2)) for i in range(pp))
                    met = cI < float(b['tol']) * (1 - 1e-9) and len(xs) % pp == 0
                rec.append((ws.P(out).tobytes(), met, pp, float(b['tol']), int(b['max_iter']), x0, len(xs)))
                return out
            return dykstra
        load.stub(H.mods, 'dykstra', make)
        return []
    run = ws.run_solve(H, cfg, hooks)
    H.check(run.exc is None or any(c.fault == 'exc' for c in run.calls), 'no-exception', lambda: run.tb)
    user = run.kw['projections']
    nb = len(user) + (1 if cfg.get('bounds') is not None else 0)
    p = dict(H.mods.params.ParameterList(run.n, run.n + 1, 100).params)
    p.update(cfg.get('params', {}))
    tol, mi = p['dykstra.d_tol'], p['dykstra.max_iters']
    for r in rec:
        H.check(r[3] == tol and r[4] == mi, 'params-passed', lambda: 'dykstra called with tol=%s max_iter=%s, expected %s %s' % (r[3], r[4], tol, mi))
    outs = {}
    for r in rec:
        outs.setdefault(r[0], []).append(r)

    def feasible(x, what, strict):
        d = lambda: '%s x=%s; %s' % (what, [float(v).hex() for v in x], ws.desc(run))
        rs = outs.get(x.tobytes())
        H.check(rs is not None, 'dykstra-output', lambda: 'not an output of the projection routine: ' + d())
        full = [r for r in rs if r[2] >= nb]
        H.check(bool(full), 'dykstra-output', lambda: 'only projected onto %d of %d sets: %s' % (max(r[2] for r in rs), nb, d()))
        if cfg.get('bounds') is not None:
            lo, hi = cfg['bounds']
            H.check(bool((lo is None or np.all(x >= np.array(lo))) and (hi is None or np.all(x <= np.array(hi)))), 'box-exact', d)
        if any(r[1] for r in full):
            H.note('met', 1)
            for i, q in enumerate(user):
                dist = float(np.linalg.norm(q(x.copy()) - x))
                H.check(dist <= math.sqrt(nb * tol) * (1 + 1e-6) + 1e-13, 'set-distance', lambda: 'distance %g to set %d; %s' % (dist, i, d()))
        else:
            H.note('notmet', 1)
            H.check(True, 'set-distance')
    for i, c in enumerate(run.calls):
        feasible(c.x, 'evaluation %d' % (i + 1), i > 0)
    if run.soln is not None:
        x = ws.P(run.soln.x)
        H.check(any(np.all(np.abs(c.x - x) <= 1e-9 * (1 + np.abs(x))) for c in run.calls), 'final-x', lambda: ws.desc(run))
    # the starting point is the projection of the user's x0
    if run.calls:
        c0 = run.calls[0].x
        H.check(any(r[0] == c0.tobytes() and np.array_equal(r[5], run.x0_in) for r in rec) or
                bool(np.max(np.abs(c0 - run.x0_in)) <= 1e-12) or any(r[0] == c0.tobytes() and np.max(np.abs(r[5] - c0)) < 1e-3 for r in rec),
                'x0-projected', lambda: 'first evaluation at %s for x0=%s' % (c0, run.x0_in))
        feas0 = all(np.array_equal(q(run.x0_in.copy()), run.x0_in) for q in user)
        if cfg.get('bounds') is not None:
            lo, hi = cfg['bounds']
            feas0 = feas0 and (lo is None or np.all(run.x0_in >= lo)) and (hi is None or np.all(run.x0_in <= hi))
        if feas0:
            H.check(bool(np.max(np.abs(c0 - run.x0_in)) <= 1e-9), 'x0-projected', lambda: 'feasible x0=%s moved to %s' % (run.x0_in, c0))


def model(H, cfg):
    """every user-space point produced by the model is a projection output (arbitrary symbolic points, abstract projection)"""
    outs = []

    def make(orig):
        def dykstra(*a, **kw):
            x = [H.real('z%d_%d' % (len(outs), i), -100, 100) for i in range(2)]
            outs.append(x)
            return H.arr(x)
        return dykstra
    load.stub(H.mods, 'dykstra', make)
    M = H.mods.model.Model
    x0 = H.arr([H.real('x0_%d' % i, -100, 100) for i in range(2)])
    big = H.arr([1e20, 1e20])
    m = M(3, x0, H.arr([1.0]), -big, big, [lambda x: x], 1, do_logging=False)

    def vec(nm):
        return H.arr([H.real('%s_%d' % (nm, i), -100, 100) for i in range(2)])

    def ck(x, start_ok=False):
        ok = []
        for o in outs + ([list(x0)] if start_ok else []):
            ok.append(H.AND(*[H.close(x[i], o[i], 1e-12) for i in range(2)]))
        H.check(H.OR(*ok) if ok else False, 'mapped', lambda: '%r is not a projection output %r' % (x, outs))
    for j, op in enumerate(cfg['ops']):
        if op == 'abs':
            ck(m.as_absolute_coordinates(vec('a%d' % j)))
        elif op == 'shift':
            m.shift_base(vec('s%d' % j))
        elif op == 'chg':
            m.change_point(1, vec('c%d' % j), H.arr([0.5]), 2)
        elif op == 'add':
            m.change_point(1, vec('c%d' % j), H.arr([0.7]), 2)
            m.change_point(2, vec('d%d' % j), H.arr([0.8]), 3)
            m.add_new_point(vec('e%d' % j), H.arr([0.5]), 4)
        elif op == 'xpt':
            ck(m.xpt(1, abs_coordinates=True))
            ck(m.xopt(abs_coordinates=True))
        elif op == 'final':
            ck(m.get_final_results()[0], start_ok=True)
