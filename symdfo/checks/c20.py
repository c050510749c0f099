"""C20: results survive a JSON round trip and always print."""
import copy, json, math
import numpy as np
from .. import ws, core, load, symnp
from ..runner import Task

BUDGET = dict(quick=40, thorough=600)
FUNCTIONS = ['dfols.solver.OptimResults.%s' % s for s in ('__init__', '__str__', 'to_dict', 'from_dict')] + ['dfols.util.replace_nan_with_none'] + ws.WS_FUNCTIONS
BOUNDS = ('fields: results with n<=3 variables and m<=3 residuals where every number in x, resid, obj, Jacobian and table is an arbitrary double (any bit pattern, NaN, infinities and '
          'signed zeros included), with/without Jacobian, evaluation numbers and table (0-3 rows, optional vector columns, entries number/NaN/None/text), the print thresholds (100/200 entries, run counts) '
          'crossed on both sides, replace_nan on and off; runs: the results of whole symbolic solve() runs as in C03/C18, with diagnostic tables. The text layer of JSON is modelled: numbers are preserved '
          '(CPython prints doubles so that they read back identically), object keys become strings; the replay uses the real json module.')
ASSUMPTIONS = ['json.dumps/loads preserve finite doubles, ints, strings, None, lists'] + list(ws.WS_ASSUMPTIONS)


def tasks(tier):
    out = []
    big = tier == 'thorough'
    for nm, c in dict(
            scalar=dict(n=1, m=1), vec=dict(n=2, m=2), noj=dict(n=2, m=1, jac=False), nonums=dict(n=1, m=2, nums=False), none=dict(n=1, m=1, jac=False, nums=False),
            table=dict(n=1, m=1, rows=2), table1=dict(n=1, m=1, rows=1), table0=dict(n=1, m=1, rows=0, jac=False), tablevec=dict(n=1, m=2, rows=2, vec=True), table3=dict(n=2, m=1, rows=3),
            longr=dict(n=1, m=1, pad_m=True), longj=dict(n=2, m=1, pad_j=True), longe=dict(n=1, m=1, pad_e=True), counters=dict(n=1, m=1, cnt=True)).items():
        out.append(Task('f-' + nm, 'fields', c, float_mode='format', must=('roundtrip', 'serialisable', 'strict', 'print')))
    C = ws.base_configs()
    def faulty(c, **k):
        return dict(c, faults=ws.KINDS[:4], maxfun=min(c['maxfun'], 6), **k)
    for k in ('plain', 'soft', 'hard', 'n2m2', 'growing'):
        C[k + '-flt'] = faulty(C[k])
        C[k + '-fltfrom'] = faulty(C[k], fault_from=True)
    for k in ('plain', 'plain-short', 'bounds', 'soft', 'hard', 'ns2', 'noise-add', 'growing', 'scaled', 'hreg', 'hreg-soft', 'proj', 'npt3-reg', 'abstol', 'slow', 'trinc', 'auto-soft', 'auto-hard',
              'n2m2', 'init-random', 'plain-flt', 'plain-fltfrom', 'soft-flt', 'hard-flt', 'n2m2-flt', 'n2m2-fltfrom', 'growing-flt', 'growing-fltfrom'):
        c = C[k]
        out.append(Task('r-' + k, 'run', c, float_mode='format', must=('roundtrip', 'print')))
        out.append(Task('rd-' + k, 'run', ws.diag_on(c), float_mode='format', must=('roundtrip',)))
        dv = ws.diag_on(c)
        dv = dict(dv, params=dict(dv.get('params') or {}, **{'logging.save_xk': True, 'logging.save_rk': True}))
        out.append(Task('rv-' + k, 'run', dv, float_mode='format', must=('roundtrip',)))
    return out


class NotSerialisable(Exception):
    pass


def leaves(H, d, path=''):
    """(path, value) of all leaves of a nested dict/list, checking the container and leaf types"""
    if isinstance(d, dict):
        for k, v in d.items():
            if not isinstance(k, (str, int, float, bool)) and k is not None:
                raise NotSerialisable('key %r of type %s at %s' % (k, type(k).__name__, path))
            for r in leaves(H, v, '%s.%s' % (path, k)):
                yield r
    elif isinstance(d, (list, tuple)):
        for i, v in enumerate(d):
            for r in leaves(H, v, '%s[%d]' % (path, i)):
                yield r
    else:
        if not (d is None or isinstance(d, (bool, int, float, str, core.SymFP, core.SymReal))) or isinstance(d, np.ndarray):
            raise NotSerialisable('%s at %s' % (type(d).__name__, path))
        yield path, d


def jsonify(d):
    """what json.loads(json.dumps(d)) returns"""
    if isinstance(d, dict):
        out = {}
        for k, v in d.items():
            kk = k if isinstance(k, str) else json.loads('[%s]' % json.dumps({k: 0}))[0]
            out[kk if isinstance(kk, str) else list(kk)[0]] = jsonify(v)
        return out
    if isinstance(d, (list, tuple)):
        return [jsonify(v) for v in d]
    if isinstance(d, np.floating):
        return float(d)
    return d


def same(H, a, b, strict=True):
    """identical values (NaN equals NaN; signed zeros differ)"""
    fa, fb = isinstance(a, core.SymFP), isinstance(b, core.SymFP)
    if fa or fb:
        z3 = core.z3
        A = a.t if fa else (z3.FPVal(float(a), core.F64) if isnum(a) else None)
        B = b.t if fb else (z3.FPVal(float(b), core.F64) if isnum(b) else None)
        if A is None or B is None:
            return False
        return core.SymBool(z3.Or(A == B, z3.And(z3.fpIsNaN(A), z3.fpIsNaN(B))))
    if isinstance(a, core.Sym) or isinstance(b, core.Sym):
        if a is b:
            return True
        if not (isinstance(a, core.Sym) or isnum(a)) or not (isinstance(b, core.Sym) or isnum(b)):
            return False
        return a == b
    if isnum(a) and isnum(b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) == type(b) and a == b


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_))


def isnan(H, v):
    if isinstance(v, core.SymFP):
        return v.isnan()
    return isinstance(v, float) and math.isnan(v)


def cell(v):
    """a table entry: None and NaN are the same missing value"""
    return float('nan') if v is None else v


def skeleton(s):
    s = copy.copy(s)
    for f in ('x', 'resid', 'jacobian'):
        if getattr(s, f) is not None:
            setattr(s, f, np.zeros(getattr(s, f).shape))
    s.obj = 1.0
    return s


def roundtrip(H, s, d, inf=False):
    """all obligations on the result object s"""
    cls = H.mods.solver.OptimResults
    try:
        text = str(s)
        H.check(isinstance(text, str) and len(text) > 0, 'print', d)
    except core.EngineStop:
        raise
    except Exception as e:
        H.fail('print', lambda: 'str() raised %s: %s; %s' % (type(e).__name__, e, d()))
        return
    for rn in (True, False):
        why = lambda: 'replace_nan=%s: %s' % (rn, d())
        try:
            dic = s.to_dict(replace_nan=rn)
        except core.EngineStop:
            raise
        except Exception as e:
            H.fail('serialisable', lambda: 'to_dict raised %s: %s; %s' % (type(e).__name__, e, why()))
            return
        H.check(isinstance(dic, dict), 'serialisable', why)
        try:
            lv = list(leaves(H, dic))
        except NotSerialisable as e:
            H.fail('serialisable', lambda: '%s; %s' % (e, why()))
            return
        H.check(True, 'serialisable', why)
        if rn:
            for p, v in lv:
                if isinstance(v, core.SymFP):
                    H.check(H.NOT(v.isnan()), 'strict', lambda: 'NaN at %s; %s' % (p, why()))
                elif isinstance(v, float):
                    H.check(not math.isnan(v), 'strict', lambda: 'NaN at %s; %s' % (p, why()))
            H.check(True, 'strict', why)
        if H.symbolic:
            js = jsonify(dic)
        else:
            js = json.loads(json.dumps(dic))
        try:
            t = cls.from_dict(js)
        except core.EngineStop:
            raise
        except Exception as e:
            H.fail('roundtrip', lambda: 'from_dict raised %s: %s; %s' % (type(e).__name__, e, why()))
            return
        for f in ('x', 'resid', 'jacobian', 'jacmin_eval_nums'):
            a, b = getattr(s, f), getattr(t, f)
            w = lambda: 'field %s: %s became %s; %s' % (f, a, b, why())
            H.check((a is None) == (b is None), 'roundtrip', w)
            if a is not None:
                H.check(isinstance(b, np.ndarray) and a.shape == b.shape, 'roundtrip', w)
                if not H.symbolic:
                    H.check(a.dtype == b.dtype, 'roundtrip', w)
                for i in np.ndindex(*a.shape):
                    H.check(same(H, a[i], b[i]), 'roundtrip', w)
        for f in ('obj', 'nf', 'nx', 'nruns', 'flag', 'msg', 'xmin_eval_num'):
            a, b = getattr(s, f), getattr(t, f)
            H.check(same(H, a, b), 'roundtrip', lambda: 'field %s: %r became %r; %s' % (f, a, b, why()))
        A, B = s.diagnostic_info, t.diagnostic_info
        H.check((A is None) == (B is None), 'roundtrip', lambda: 'table: %s; %s' % (B, why()))
        if A is not None:
            H.check(list(A.columns) == list(B.columns) and [same(H, i, j) for i, j in zip(A.index, B.index)] == [True] * len(A) and len(A) == len(B), 'roundtrip',
                    lambda: 'table layout %s %s became %s %s; %s' % (list(A.columns), list(A.index), list(B.columns), list(B.index), why()))
            for c in A.columns:
                for u, v in zip(A[c].tolist() if not H.symbolic else list(A[c].values), B[c].tolist() if not H.symbolic else list(B[c].values)):
                    w = lambda: 'table column %s: %r became %r; %s' % (c, u, v, why())
                    if isinstance(u, (np.ndarray, list)):
                        u2, v2 = list(u), (list(v) if isinstance(v, (np.ndarray, list)) else None)
                        H.check(isinstance(v, np.ndarray) == isinstance(u, np.ndarray) and v2 is not None and len(u2) == len(v2), 'roundtrip', w)
                        for p, q in zip(u2, v2):
                            H.check(same(H, cell(p), cell(q)), 'roundtrip', w)
                    else:
                        H.check(same(H, cell(u), cell(v)), 'roundtrip', w)
        try:
            text2 = str(t)
        except core.EngineStop:
            raise
        except Exception as e:
            H.fail('print', lambda: 'str() of the reloaded object raised %s: %s; %s' % (type(e).__name__, e, why()))
            return
        if H.symbolic:  # the numbers are compared above; compare the layout only
            text, text2 = str(skeleton(s)), str(skeleton(t))
        H.check(text == text2, 'print', lambda: 'original prints\n%s\nreloaded prints\n%s' % (text, text2))
    # strict JSON also excludes the infinities
    if inf:
        for p, v in leaves(H, s.to_dict(replace_nan=True)):
            if isinstance(v, core.SymFP):
                H.check(H.NOT(v.isinf()), 'strict-inf', lambda: 'infinity at %s is not strict JSON; %s' % (p, d()))
            elif isinstance(v, float):
                H.check(not math.isinf(v), 'strict-inf', lambda: 'infinity at %s is not strict JSON; %s' % (p, d()))


def fields(H, cfg):
    import pandas as pd
    n, m = cfg['n'], cfg['m']
    k = [0]

    def num(nm):
        k[0] += 1
        return H.fp('%s%d' % (nm, k[0]), finite=False)
    x = H.arr([num('x') for _ in range(n)])
    r = [num('r') for _ in range(m)]
    if cfg.get('pad_m'):
        r = r + [0.5] * ([98, 99, 100, 101][H.choose(4, 'len')])
    r = H.arr(r)
    obj = num('f')
    jac = None
    if cfg.get('jac', True):
        J = [[num('j') for _ in range(n)] for _ in range(min(m, 2))]
        if cfg.get('pad_j'):
            J = J + [[0.25] * n] * [98, 99, 100][H.choose(3, 'lenj')]
        jac = H.arr(J)
    nums = None
    if cfg.get('nums', True):
        L = n + 1
        if cfg.get('pad_e'):
            L = [99, 100, 101][H.choose(3, 'lene')]
        nums = np.arange(1, L + 1, dtype=int)
    nf, nx, nruns = 7, 6, 1
    if cfg.get('cnt'):
        nf = [1, 7, 123456789, np.int64(12)][H.choose(4, 'nf')]
        nx = [1, 6, 98765432, np.int64(11)][H.choose(4, 'nx')]
        nruns = [0, 1, 2, np.int64(3)][H.choose(4, 'nruns')]
    S = H.mods.solver
    flags = sorted(set(getattr(S, a) for a in dir(S) if a.startswith('EXIT_') and getattr(S, a) != S.EXIT_INPUT_ERROR))
    flag = flags[H.choose(len(flags), 'flag')] if cfg.get('cnt') else flags[0]
    s = S.OptimResults(x, r, obj, jac, nf, nx, nruns, flag, 'Some "message" \u00e9', [1, np.int64(5)][H.choose(2, 'ev')], nums)
    if 'rows' in cfg:
        N = cfg['rows']
        data = {}
        if cfg.get('vec'):
            data['xk'] = [H.arr([num('t')]) for _ in range(N)]
            data['rk'] = [H.arr([num('t'), 1.5]) for _ in range(N)]
        data['fk'] = [num('t') for _ in range(N)]
        data['nf'] = list(range(3, 3 + N))
        opts = ['txt', None]
        data['iter_type'] = [opts[H.choose(2, 'it')] for _ in range(N)]
        kinds = ['num', 'none', 'nan']
        data['ratio'] = []
        for _ in range(N):
            kk = H.choose(3, 'rt')
            data['ratio'].append([num('t') if kk == 0 else None, None, float('nan')][kk])
        data['slow_iter'] = [[True, False, None][H.choose(3, 'sl')] if N == 1 else (-1 if i == 0 else 2) for i in range(N)]
        s.diagnostic_info = pd.DataFrame(data)
    roundtrip(H, s, lambda: 'x=%s resid=%s obj=%s jac=%s nums=%s table=%s' % (x, r, obj, jac, nums, s.diagnostic_info.to_dict('list') if s.diagnostic_info is not None else None), inf=True)


def run(H, cfg):
    run = ws.run_solve(H, cfg)
    if run.soln is None:  # exceptions are C07's and C08's concern
        H.cut('no result')
    s = run.soln
    if s.flag == s.EXIT_INPUT_ERROR:
        H.cut('input error')
    roundtrip(H, s, lambda: ws.desc(run))


def main():
    from ..runner import run_check
    return run_check('C20', __name__, BUDGET, functions=FUNCTIONS, bounds=BOUNDS, assumptions=ASSUMPTIONS)
