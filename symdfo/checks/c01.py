"""C01: every evaluation point and the returned solution satisfy the bounds exactly.

Two layers:
 * float64 (bit-precise) symbolic execution of every function that produces or maps an evaluation point: solve()'s handling
   of x0/scaling, Model.as_absolute_coordinates / xpt / get_final_results / shift_base sequences, and the initial point set;
 * whole solve() runs (see ws.py) over configurations with awkward bounds: every recorded call is compared exactly.
"""
import math, inspect
import numpy as np
from .. import ws, core, load, symnp
from ..runner import Task

BUDGET = dict(quick=100, thorough=900)
FUNCTIONS = ws.WS_FUNCTIONS + ['float64-symbolic: dfols.solver.solve (x0, bounds, scaling), dfols.model.Model.__init__/as_absolute_coordinates/xpt/'
                               'shift_base/change_point/save_point/get_final_results, dfols.util.apply_scaling/remove_scaling, '
                               'dfols.controller.Controller.initialise_coordinate_directions (n=1)']
BOUNDS = ws.WS_BOUNDS + (' Float64 layer: n=1 (components are independent in these functions), all x0, bounds, steps and base points any finite '
                         'float64 with |.|<=1e10 (bounds may be one-sided), sequences of <=3 operations.')
ASSUMPTIONS = ws.WS_ASSUMPTIONS + ['float64 layer: z3 FloatingPoint theory, round-to-nearest-even']
A, B, C3 = 0.1, 1.0 / 3.0, 0.7


def fpt(H, name, lim=1e10):
    return H.fp(name, lo=-lim, hi=lim)


def tasks(tier):
    out = []
    fo = dict(fpmode='abs', timeout_ms=60000 if tier == 'quick' else 300000, path_timeout=100 if tier == 'quick' else 400)
    for k in ('none', 'lower', 'upper', 'both'):
        out.append(Task('fp-x0-' + k, 'fp_x0', dict(kind=k), weight=3, must=('x0-box',), **fo))
    out.append(Task('fp-x0-scaled', 'fp_x0', dict(kind='scaled'), weight=6, must=('x0-box',), **fo))
    out.append(Task('fp-unscale', 'fp_unscale', dict(), weight=6, must=('unscaled-box',), **fo))
    for ops in (('abs',), ('shift', 'abs'), ('chg', 'xpt'), ('shift', 'chg', 'xpt'), ('chg', 'shift', 'xpt'), ('chg', 'shift', 'final'),
                ('save', 'final'), ('add', 'final'), ('add', 'shift', 'xptadd')):
        out.append(Task('fp-model-' + '-'.join(ops), 'fp_model', dict(ops=ops), weight=3, must=('model-box',), **fo))
    for k in ('both', 'upper', 'lower'):
        out.append(Task('fp-init-' + k, 'fp_init', dict(kind=k), weight=3, must=('call-box',), **fo))
    for k, c in configs().items():
        out.append(Task(k, 'check', c, float_mode='format', must=('call-box', 'x-box')))
    return out


def configs():
    base = ws.base_configs()
    Cf = {}
    bnd = lambda n: ([A] * n, [A + 2.3] * n)
    for k, c in base.items():
        if c.get('projections') or k in ('plain-short', 'diag', 'diag-soft', 'plain-rho'):
            continue
        c = dict(c)
        n = c.get('n', 1)
        if c.get('bounds') is None:
            # put the start in a corner region of awkward numbers
            c['bounds'] = bnd(n)
            c['x0'] = [A + 2.3 - 1e-9 if i == 0 else A - 0.4 for i in range(n)]
        Cf[k + '+b'] = c
    mk = lambda **kw: dict(dict(rhobeg=1.0, rhoend=0.5, maxfun=6, palette=4), **kw)
    Cf['lower-only'] = mk(bounds=([B], None), x0=[0.0])
    Cf['upper-only'] = mk(bounds=(None, [B]), x0=[7.0])
    Cf['upper-only-n2'] = mk(n=2, bounds=(None, [B, 1e6]), x0=[7.0, 1e6 - 0.3], palette=4)
    Cf['on-bound'] = mk(bounds=([B], [B + 2.5]), x0=[B + 2.5])
    Cf['far-base'] = mk(bounds=([-1000.0 / 3], [1e7 / 3.0]), x0=[1e7 / 3.0 - 0.1], rhobeg=1.0, rhoend=0.05)
    Cf['far-base-soft'] = mk(bounds=([-1000.0 / 3], [1e7 / 3.0]), x0=[1e7 / 3.0 - 0.1], params=ws.U(ws.SOFT), maxfun=7, palette=3)
    Cf['far-base-hard'] = mk(bounds=([-1000.0 / 3], [1e7 / 3.0]), x0=[1e7 / 3.0 - 0.1], params=ws.U(ws.HARD), maxfun=7, palette=3)
    Cf['scaled-n2'] = mk(n=2, bounds=([A, -B], [3 * A, 1e3 / 3]), x0=[1.0, 333.333], scaling=True, rhobeg=0.3, rhoend=0.1, maxfun=6, palette=4)
    Cf['scaled-soft'] = mk(n=1, bounds=([-0.7], [1.0 / 7]), x0=[0.2], scaling=True, rhobeg=0.3, rhoend=0.1, params=ws.U(ws.SOFT), palette=3, maxfun=7)
    Cf['scaled-hard'] = mk(n=1, bounds=([-0.7], [1.0 / 7]), x0=[0.2], scaling=True, rhobeg=0.3, rhoend=0.1, params=ws.U(ws.HARD), palette=3, maxfun=7)
    Cf['scaled-h'] = mk(n=1, bounds=([-0.7], [1.0 / 7]), x0=[0.2], scaling=True, rhobeg=0.3, rhoend=0.1, h=0.5, palette=3, maxfun=5)
    Cf['corner-n2-reg'] = mk(n=2, npt=5, bounds=([A, A], [2.2, 2.2]), x0=[2.2, A], maxfun=8, palette=3, params={'regression.num_extra_steps': 1})
    Cf['corner-n2-mom'] = mk(n=2, npt=4, bounds=([A, A], [2.2, 2.2]), x0=[2.2, A], maxfun=7, palette=3, params={'regression.num_extra_steps': 1, 'regression.momentum_extra_steps': True}, random=True)
    Cf['corner-init-random'] = mk(n=2, bounds=([A, A], [2.2, 2.2]), x0=[2.2, A], maxfun=6, palette=3, params={'init.random_initial_directions': True}, random=True)
    Cf['corner-init-random2'] = mk(n=2, bounds=([A, A], [2.2, 2.2]), x0=[2.2, A], maxfun=6, palette=3, params={'init.random_initial_directions': True, 'init.random_directions_make_orthogonal': False}, random=True)
    Cf['corner-grow'] = mk(n=2, m=2, bounds=([A, A], [2.2, 2.2]), x0=[2.2, 2.1], maxfun=7, palette=3, random=True, params={'growing.ndirs_initial': 1, 'growing.num_new_dirns_each_iter': 1, 'growing.full_rank.use_full_rank_interp': False})
    Cf['corner-grow-pert'] = mk(n=2, m=2, bounds=([A, A], [2.2, 2.2]), x0=[2.2, 2.1], maxfun=7, palette=3, random=True, params={'growing.ndirs_initial': 1, 'growing.perturb_trust_region_step': True, 'growing.full_rank.use_full_rank_interp': False})
    Cf['corner-soft-npt'] = mk(n=2, bounds=([A, A], [2.2, 2.2]), x0=[2.2, A], maxfun=9, palette=2, random=True, params=ws.U(ws.SOFT, {'restarts.increase_npt': True, 'restarts.max_npt': 5}))
    return Cf


def check(H, cfg):
    run = ws.run_solve(H, cfg)
    H.check(run.exc is None, 'no-exception', lambda: run.tb)
    lo, hi = cfg['bounds']
    inbox = lambda x: bool((lo is None or np.all(x >= np.array(lo))) and (hi is None or np.all(x <= np.array(hi))))
    for i, c in enumerate(run.calls):
        H.check(inbox(c.x), 'call-box', lambda: 'evaluation %d at %s outside bounds %s (excess below %s, above %s); %s' % (
            i + 1, [float(v).hex() for v in c.x], cfg['bounds'], None if lo is None else (np.array(lo) - c.x).max(), None if hi is None else (c.x - np.array(hi)).max(), ws.desc(run)))
    x = ws.P(run.soln.x)
    H.check(inbox(x), 'x-box', lambda: 'soln.x=%s outside bounds %s; %s' % ([float(v).hex() for v in x], cfg['bounds'], ws.desc(run)))


# ---------------------------------------------------------------------------- float64 layer
def box(H, kind, gap=None):
    lo = hi = None
    if kind in ('lower', 'both', 'scaled'):
        lo = fpt(H, 'lo')
    if kind in ('upper', 'both', 'scaled'):
        hi = fpt(H, 'hi')
    if lo is not None and hi is not None:
        H.assume(hi - lo >= 1e-6)
    return lo, hi


def inb(H, x, lo, hi):
    cs = []
    if lo is not None:
        cs.append(x >= lo)
    if hi is not None:
        cs.append(x <= hi)
    return H.AND(*cs) if cs else True


def call_solve(H, x0, lo, hi, rhobeg, scaled, stub_main, objfun, **kw):
    mods = H.mods
    if stub_main is not None:
        load.stub(mods, 'solve_main', lambda o: stub_main(inspect.signature(o)))
    b = None
    if lo is not None or hi is not None:
        b = (None if lo is None else H.arr([lo]), None if hi is None else H.arr([hi]))
    return mods.solver.solve(objfun, H.arr([x0]), bounds=b, rhobeg=rhobeg, rhoend=rhobeg * 1e-3, scaling_within_bounds=scaled, do_logging=False, **kw)


def fp_x0(H, cfg):
    """the starting point handed to the solver, mapped back to user space, is in the user's box"""
    kind = cfg['kind']
    lo, hi = box(H, kind)
    x0 = fpt(H, 'x0')
    scaled = kind == 'scaled'

    def main(sig):
        def solve_main(*a, **k):
            b = sig.bind(*a, **k).arguments
            x, sc, xl, xu = b['x0'], b['scaling_changes'], b['xl'], b['xu']
            xx = H.mods.util.remove_scaling(x, sc)[0]
            H.check(inb(H, xx, lo, hi), 'x0-box', lambda: 'start %r outside [%r,%r]' % (xx, lo, hi))
            H.check(H.AND(x[0] >= xl[0], x[0] <= xu[0]), 'x0-box', lambda: 'internal start %r outside [%r,%r]' % (x[0], xl[0], xu[0]))
            H.cut('done')
        return solve_main
    s = call_solve(H, x0, lo, hi, 1e-6 if not scaled else 0.1, scaled, main, lambda x: H.arr([1.0]))
    H.check(s.flag == -1 and s.nf == 0, 'x0-box', 'input error expected when solve_main is not called')


def fp_unscale(H, cfg):
    """every internal point of the unit box maps into the user's box exactly"""
    lo, hi = box(H, 'scaled')
    x0 = lo
    y = H.fp('y', lo=-0.0, hi=1.0)

    def main(sig):
        def solve_main(*a, **k):
            b = sig.bind(*a, **k).arguments
            sc, xl, xu = b['scaling_changes'], b['xl'], b['xu']
            H.assume(H.AND(y >= xl[0], y <= xu[0]))
            xx = H.mods.util.remove_scaling(H.arr([y]), sc)[0]
            H.check(xx >= lo, 'unscaled-box', lambda: 'y=%r -> %r below %r' % (y, xx, lo))
            H.check(H.AND(xx <= hi), 'unscaled-box', lambda: 'y=%r -> %r above %r' % (y, xx, hi))
            H.cut('done')
        return solve_main
    call_solve(H, x0, lo, hi, 0.1, True, main, lambda x: H.arr([1.0]))


def fp_model(H, cfg):
    lo, hi = box(H, 'both')
    x0 = fpt(H, 'x0')
    H.assume(inb(H, x0, lo, hi))
    M = H.mods.model.Model
    m = M(2, H.arr([x0]), H.arr([1.0]), H.arr([lo]), H.arr([hi]), [], 1, do_logging=False)
    j = 0

    def ck(x, what):
        H.check(inb(H, x[0], lo, hi), 'model-box', lambda: '%s: %r outside [%r,%r]' % (what, x[0], lo, hi))
    for op in cfg['ops']:
        j += 1
        s = fpt(H, 's%d' % j)
        if op == 'abs':
            ck(m.as_absolute_coordinates(H.arr([s])), 'as_absolute_coordinates')
        elif op == 'shift':
            m.shift_base(H.arr([s]))
        elif op == 'chg':
            m.change_point(1, H.arr([s]), H.arr([0.5]), 2)
        elif op == 'add':
            m.change_point(1, H.arr([s]), H.arr([0.7]), 2)
            m.add_new_point(H.arr([fpt(H, 't%d' % j)]), H.arr([0.5]), 3)
        elif op == 'xpt':
            ck(m.xpt(1, abs_coordinates=True), 'xpt')
            ck(m.xopt(abs_coordinates=True), 'xopt')
        elif op == 'xptadd':
            ck(m.xpt(2, abs_coordinates=True), 'xpt')
        elif op == 'save':
            m.save_point(H.arr([s]), H.arr([0.1]), 1, 2, x_in_abs_coords=False)
        elif op == 'final':
            ck(m.get_final_results()[0], 'final result')


def fp_init(H, cfg):
    """first two evaluations (x0 and the coordinate step), bit-precise"""
    kind = cfg['kind']
    lo, hi = box(H, kind)
    x0 = fpt(H, 'x0')
    calls = []

    def objfun(x):
        calls.append(x)
        H.check(inb(H, x[0], lo, hi), 'call-box', lambda: 'evaluation %d at %r outside [%r,%r]' % (len(calls), x[0], lo, hi))
        if len(calls) == 2:
            H.cut('done')
        return H.arr([1.0])
    call_solve(H, x0, lo, hi, 0.1, False, None, objfun, maxfun=2)
