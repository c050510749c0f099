"""Symbolic execution core: symbolic scalars, path exploration, obligations.

Scalars
  SymReal : a rational function over named real atoms (exact rational coefficients).
  SymFP   : an IEEE-754 binary64 term (z3 FloatingPoint theory).
  SymBool : a z3 Boolean; truth-testing it forks the path.

A path is re-executed from the start with a list of recorded decisions.  At a new
decision both sides are tested with the solver; the side not taken is queued.
Engine exceptions derive from BaseException so that the code under test cannot swallow them.
"""
import sys, math, time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)          # appended last: numpy/scipy stay those of the interpreter
import z3
import numpy as np

RM = z3.RNE()
F64 = z3.Float64()


class EngineStop(BaseException):
    pass


class PathInfeasible(EngineStop):
    pass


class PathCut(EngineStop):
    """Path abandoned deliberately (outside the stated bounds)."""


class Unsupported(EngineStop):
    """The code left the supported fragment: path is inconclusive."""


class PathDone(EngineStop):
    """Path ended after an obligation failed."""


# ---------------------------------------------------------------------------
# polynomials:  dict { monomial : Fraction },  monomial = tuple(sorted atom ids)
# ---------------------------------------------------------------------------
ONE = ()


def p_const(c):
    return {ONE: c} if c else {}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, c):
    if not c:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def p_neg(a):
    return {m: -v for m, v in a.items()}


def p_isconst(a):
    return not a or (len(a) == 1 and ONE in a)


def p_cval(a):
    return a.get(ONE, Fraction(0))


ROUND_COEF_BITS = 400       # coefficients with larger denominators are rounded (real-relaxed contexts only)


class Engine(object):
    cur = None

    def __init__(self, prefix=(), nl='relax', timeout_ms=4000, minmax='ite', float_mode='error', max_decisions=4000,
                 round_coef=False, real_timeout_ms=8000, fpmode=None, fp_exact_ms=15000):
        self.prefix = list(prefix)
        self.trace = []                 # list of [taken, noptions, label]
        self.nl = nl
        self.timeout_ms = timeout_ms
        self.real_timeout_ms = real_timeout_ms
        self.minmax = minmax
        self.float_mode = float_mode
        self.round_coef = round_coef
        self.max_decisions = max_decisions
        self.atoms = []                 # list of dict(name, kind, ...)
        self.byname = {}
        self.signs = {}
        self.moncache = {}
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.zmodel = None
        self.alg_model = False
        self.model_valid = False
        self.pc = []                    # path condition (list of z3 bools)
        self.monvars = {}               # monomial -> z3 var (relaxed)
        self.defined = set()
        self.pending = []               # alternative prefixes found
        self.witness = {}
        self.linear = {}                # z3 id -> (term, atom, slope, constant, op) of univariate linear comparisons
        self.fps = {}                   # fp atoms name->term
        self.fpmode = fpmode            # 'abs': real abstraction first, bit-precise only for candidate counterexamples
        self.fp_exact_ms = fp_exact_ms
        self.fp_ranges = {}
        self.fp_defs = []               # exact definitions of auxiliary fp functions
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, obligations=0, discharged=0, trivially=0,
                          floats=0, forks=0)
        self.failures = []              # (key, msg, model)
        self.inconclusive = []          # reasons
        self.notes = {}
        self.chooses = []               # concrete choices in order (label, value)
        self.float_sites = {}

    # -- atoms --------------------------------------------------------------
    def new_atom(self, name, lo=None, hi=None, kind='in', **kw):
        i = len(self.atoms)
        d = dict(name=name, kind=kind, lo=lo, hi=hi, z3=None, **kw)
        self.atoms.append(d)
        if kind == 'in':
            if name in self.byname:
                raise Unsupported('duplicate atom ' + name)
            self.byname[name] = i
        return i

    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        i = self.new_atom(name, lo, hi)
        return SymReal({(i,): Fraction(1)})

    def define_atom(self, i):
        """emit definition of atom i (once)"""
        if i in self.defined:
            return
        self.defined.add(i)
        a = self.atoms[i]
        v = z3.Real('%s!%d' % (a['name'], i))
        a['z3'] = v
        cs = []
        if a['lo'] is not None:
            cs.append(v >= q(a['lo']))
        if a['hi'] is not None:
            cs.append(v <= q(a['hi']))
        k = a['kind']
        if k == 'abs':
            t = self.z3poly(a['arg'])
            cs.append(v == z3.If(t >= 0, t, -t))
        elif k == 'max':
            t, u = self.z3poly(a['a']), self.z3poly(a['b'])
            cs.append(v == z3.If(t >= u, t, u))
        elif k == 'min':
            t, u = self.z3poly(a['a']), self.z3poly(a['b'])
            cs.append(v == z3.If(t <= u, t, u))
        elif k == 'sqrt':
            cs.append(v >= 0)
            t = self.z3poly(a['arg'])
            if self.nl == 'exact':
                cs.append(v * v == t)
            else:
                cs.append(z3.Implies(t <= 0, v == 0))
                cs.append(z3.Implies(t > 0, v > 0))
                cs.append(z3.And(z3.Implies(t >= 1, v >= 1), z3.Implies(t <= 1, v <= 1)))
        for c in cs:
            self.add(c)

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)
        # model completion gives unknown variables a fixed default, so the model may survive
        if self.model_valid and not z3.is_true(self.meval(e)):
            self.model_valid = False

    def take_model(self):
        self.zmodel = m = self.last.model()
        # evaluating large polynomials at algebraic numbers is prohibitively slow
        self.alg_model = self.nl == 'exact' and any(z3.is_algebraic_value(m[d]) for d in m.decls())

    def meval(self, e):
        if self.alg_model:
            return z3.BoolVal(False) if z3.is_false(e) else (z3.BoolVal(True) if z3.is_true(e) else e)
        return self.zmodel.eval(e, model_completion=True)

    def z3atom(self, i):
        self.define_atom(i)
        return self.atoms[i]['z3']

    def z3mon(self, m):
        if len(m) == 1:
            return self.z3atom(m[0])
        if self.nl == 'exact':
            r = self.moncache.get(m)
            if r is None:
                r = self.z3mon(m[:-1]) * self.z3atom(m[-1])
                self.moncache[m] = r
            return r
        v = self.monvars.get(m)
        if v is None:
            v = z3.Real('M' + '_'.join(map(str, m)))
            self.monvars[m] = v
            cs = []
            if len(m) % 2 == 0 and all(m[2 * k] == m[2 * k + 1] for k in range(len(m) // 2)):
                cs.append(v >= 0)
                if len(m) == 2:
                    a = self.atoms[m[0]]
                    lo, hi = a['lo'], a['hi']
                    if lo is not None and hi is not None:
                        cs.append(v <= q(max(lo * lo, hi * hi)))
            for c in cs:
                self.add(c)
        return v

    def z3poly(self, p):
        terms = []
        if len(p) > 3 and self.nl == 'exact':
            i = uni_atom(p)
            if i is not None:
                L = uni_dense(p)
                x = self.z3atom(i)
                r = q(L[-1])
                for c in reversed(L[:-1]):
                    r = x * r if not c else x * r + q(c)
                return r
        for m, c in p.items():
            if m == ONE:
                terms.append(q(c))
            else:
                t = self.z3mon(m)
                terms.append(t if c == 1 else q(c) * t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def sqfree(self, p):
        """(odd part, even part or None) of a univariate polynomial, normalised; None when not univariate"""
        i = uni_atom(p)
        if i is None:
            return None
        L = uni_dense(p)
        if len(L) < 3 or len(L) > 200:
            return None
        r = uni_oddeven(L)
        if r is None:
            return None
        odd, even = r
        return uni_sparse(odd, i), (uni_sparse(even, i) if len(even) > 1 else None)

    def known_sign(self, p, pos):
        """+1/-1 when the path condition fixes the strict sign of p (pos: the condition p > 0)"""
        key = p_key(p)
        v = self.signs.get(key)
        if v is None:
            v = 0
            if self.check(z3.Not(pos.z)) == z3.unsat:
                v = 1
            else:
                neg = poly_cmp(p, '<')
                if not isinstance(neg, SymBool):
                    v = -1 if neg else 0
                elif self.check(z3.Not(neg.z)) == z3.unsat:
                    v = -1
            if v:
                self.signs[key] = v
        return v

    # interval of a polynomial from declared atom bounds
    def interval(self, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            if m == ONE:
                lo += c
                hi += c
                continue
            iv = self.mon_interval(m)
            if iv is None:
                return None
            a, b = iv
            x, y = c * a, c * b
            if x > y:
                x, y = y, x
            lo += x
            hi += y
        return lo, hi

    def mon_interval(self, m):
        lo = hi = Fraction(1)
        j = 0
        while j < len(m):
            k = j
            while k < len(m) and m[k] == m[j]:
                k += 1
            a = self.atoms[m[j]]
            l, h = a['lo'], a['hi']
            if l is None or h is None:
                return None
            e = k - j
            if e % 2 == 0:
                mx = max(abs(l), abs(h)) ** e
                mn = Fraction(0) if l <= 0 <= h else min(abs(l), abs(h)) ** e
                pl, ph = mn, mx
            else:
                pl, ph = l ** e, h ** e
            c = (lo * pl, lo * ph, hi * pl, hi * ph)
            lo, hi = min(c), max(c)
            j = k
        return lo, hi

    # -- solver -------------------------------------------------------------
    def check_abs(self, *assumptions):
        from . import fpabs
        t = time.time()
        r, cand = fpabs.solve(self.pc + list(assumptions), self.fp_ranges)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.stats[r if r != 'noabs' else 'unknown'] += 1
        return r, cand

    def check(self, *assumptions):
        t = time.time()
        self.last = self.solver
        if self.nl == 'exact' and self.fpmode is None:
            # nlsat on the whole (small) path condition is far faster than the incremental core here
            self.last = s = z3.SolverFor('QF_NRA')
            s.set('timeout', self.timeout_ms)
            s.add(*self.pc)
            s.add(*assumptions)
            r = s.check()
        else:
            r = self.solver.check(*assumptions)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.stats[str(r)] += 1
        return r

    def ensure_model(self):
        if self.model_valid:
            return True
        if self.fpmode == 'abs':
            r, cand = self.check_abs()
            if r == 'unsat':
                raise PathInfeasible()
            self.solver.set('timeout', self.fp_exact_ms)
            for d in self.fp_defs:
                self.solver.add(d)
        r = self.check()
        if r == z3.sat:
            self.take_model()
            self.model_valid = True
            return True
        if r == z3.unsat:
            raise PathInfeasible()
        self.inconclusive.append('unknown: path feasibility')
        raise Unsupported('solver unknown on path condition')

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathInfeasible()
            return
        self.add(cond.z)

    def choose(self, k, label=''):
        """nondeterministic choice in range(k): an explored dimension, not a solver decision"""
        pos = len(self.trace)
        if k <= 0:
            raise PathInfeasible()
        if k == 1:
            self.chooses.append((label, 0))
            return 0
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            base = [t[0] for t in self.trace]
            for j in range(k - 1, 0, -1):
                self.pending.append(base + [j])
        self.trace.append((v, k, label))
        self.chooses.append((label, v))
        self.stats['forks'] += 1
        return v

    def branch(self, zc, label=''):
        """decide a z3 boolean"""
        if z3.is_true(zc):
            return True
        if z3.is_false(zc):
            return False
        pos = len(self.trace)
        if pos > self.max_decisions:
            raise PathCut('decision bound')
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append((v, 2, label))
            e = zc if v else z3.Not(zc)
            self.solver.add(e)
            self.pc.append(e)
            self.model_valid = False
            self.tighten(zc, bool(v))
            return bool(v)
        if self.fpmode == 'abs':
            a, _ = self.check_abs(zc)
            b, _ = self.check_abs(z3.Not(zc))
            if a == 'unsat' and b == 'unsat':
                raise PathInfeasible()
            side = a != 'unsat'
            if a != 'unsat' and b != 'unsat':
                self.pending.append([t[0] for t in self.trace] + [0])
                self.stats['forks'] += 1
            self.trace.append((int(side), 2, label))
            e = zc if side else z3.Not(zc)
            self.solver.add(e)
            self.pc.append(e)
            return side
        self.ensure_model()
        ev = self.meval(zc)
        if z3.is_true(ev):
            side = True
        elif z3.is_false(ev):
            side = False
        else:
            # algebraic / unevaluable: ask the solver
            r = self.check(zc)
            if r == z3.sat:
                self.take_model()
                side = True
            elif r == z3.unsat:
                side = False
            else:
                self.inconclusive.append('unknown branch')
                raise Unsupported('unknown at branch')
        other = z3.Not(zc) if side else zc
        r = self.check(other)
        if r == z3.sat:
            self.pending.append([t[0] for t in self.trace] + [int(not side)])
            self.stats['forks'] += 1
        elif r == z3.unknown:
            self.inconclusive.append('unknown branch side')
        self.trace.append((int(side), 2, label))
        e = zc if side else z3.Not(zc)
        self.solver.add(e)
        self.pc.append(e)
        self.tighten(zc, side)
        return side

    def tighten(self, zc, side):
        """after a decision a*t + b op 0 on an input t: narrow the interval kept for t"""
        r = self.linear.get(zc.get_id())
        if r is None:
            return
        _, i, c1, c0, op, k = r
        if not side:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        if c1 < 0:
            op = FLIP[op]
        v = -c0 / c1
        a = self.atoms[i]
        up = dn = v
        if k > 1:       # c1*t^k + c0 op 0 with t >= 0
            if v <= 0:
                return
            f = float(v) ** (1.0 / k)
            up, dn = Fraction(f * (1 + 1e-12)), Fraction(f * (1 - 1e-12))
        if op in ('<', '<=', '==') and (a['hi'] is None or up < a['hi']):
            a['hi'] = up
        if op in ('>', '>=', '==') and (a['lo'] is None or dn > a['lo']):
            a['lo'] = dn

    # -- obligations ---------------------------------------------------------
    def check_obligation(self, cond, key, msg=''):
        """cond must hold for all values on this path"""
        self.stats['obligations'] += 1
        self.notes.setdefault('keys', {}).setdefault(key, 0)
        self.notes['keys'][key] += 1
        if isinstance(cond, SymBool):
            zc = cond.z
            if z3.is_true(zc):
                cond = True
            elif z3.is_false(zc):
                cond = False
        if not isinstance(cond, SymBool):
            if bool(cond):
                self.stats['trivially'] += 1
                self.stats['discharged'] += 1
                return True
            # definitely false on this path: is the path feasible?
            self.ensure_model()
            self.failures.append((key, msg() if callable(msg) else msg, self.model_values(self.zmodel)))
            raise PathDone()
        if self.fpmode == 'abs':
            r, cand = self.check_abs(z3.Not(cond.z))
            if r == 'unsat':
                self.stats['discharged'] += 1
                return True
            self.solver.set('timeout', self.fp_exact_ms)
            for d in self.fp_defs:
                self.solver.add(d)
            guess = self.fp_guess(z3.Not(cond.z))
            if guess is not None:
                self.failures.append((key, msg() if callable(msg) else msg, guess))
                raise PathDone()
            r = self.check(z3.Not(cond.z))
            if r == z3.unknown:
                self.inconclusive.append('unknown obligation ' + key)
                if cand and 'why' not in cand:
                    full = {n: 1.0 for n in self.fps}
                    full.update(cand)
                    self.failures.append((key, msg() if callable(msg) else msg, full))
                return None
        else:
            r = self.check(z3.Not(cond.z))
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return True
        if r == z3.sat:
            self.fail_extra = z3.Not(cond.z)
            self.failures.append((key, msg() if callable(msg) else msg, self.model_values(self.last.model(), z3.Not(cond.z))))
            raise PathDone()
        self.inconclusive.append('unknown obligation ' + key)
        return None

    def guess_int(self, x):
        """integer part of x at a remembered (not necessarily feasible) assignment of the inputs"""
        def val(i):
            a = self.atoms[i]
            if a['kind'] == 'in':
                v = self.witness.get(i)
                lo, hi = a['lo'], a['hi']
                if lo is None or hi is None:
                    raise KeyError
                if v is None or not lo <= v <= hi:
                    v = math.sqrt(lo * hi) if lo > 0 else 0.5 * float(lo + hi)
                    self.witness[i] = v
                return v
            if a['kind'] == 'sqrt':
                return math.sqrt(ev(a['arg']))
            raise KeyError

        def ev(p):
            return sum(float(c) * math.prod(val(i) for i in m) for m, c in p.items())
        try:
            return int(ev(x.n) / (ev(x.d) if x.d is not None else 1.0))
        except (KeyError, ValueError, ZeroDivisionError, OverflowError):
            return None

    def fp_guess(self, neg, tries=200):
        """look for a bit-precise model by evaluating the exact formula at random doubles in the declared ranges"""
        import random
        names = [n for n in self.fps if n in self.fp_ranges]
        if not names or len(names) != len(self.fps):
            return None
        rng = random.Random(12345)
        f = z3.And(*(list(self.pc) + list(self.fp_defs) + [neg]))
        for _ in range(tries):
            vals = {n: rng.uniform(*self.fp_ranges[n]) for n in names}
            sub = [(self.fps[n], z3.FPVal(vals[n], self.fps[n].sort())) for n in names]
            e = z3.simplify(z3.substitute(f, *sub))
            if z3.is_true(e):
                return vals
        return None

    # -- models --------------------------------------------------------------
    def model_values(self, m, extra=None):
        """list of candidate assignments {name: float} for replay"""
        out = {}
        for i, a in enumerate(self.atoms):
            if a['kind'] != 'in':
                continue
            v = None
            if a['z3'] is not None:
                v = zval(m.eval(a['z3'], model_completion=True))
                mv = self.monvars.get((i, i))
                if mv is not None and self.nl != 'exact':
                    # the square was reasoned about as its own variable
                    s = zval(m.eval(mv, model_completion=True))
                    if not self.occurs_linear(i):
                        v = math.sqrt(max(float(s), 0.0))
            else:
                mv = self.monvars.get((i, i))
                if mv is not None:
                    v = math.sqrt(max(float(zval(m.eval(mv, model_completion=True))), 0.0))
                    lo, hi = a['lo'], a['hi']
                    if lo is not None and v < lo:
                        v = -v
                else:
                    lo, hi = a['lo'], a['hi']
                    if lo is not None and hi is not None:
                        v = float(lo + hi) / 2 if not (lo <= 1 <= hi) else 1.0
                    elif lo is not None:
                        v = float(lo) + 1.0
                    elif hi is not None:
                        v = float(hi) - 1.0
                    else:
                        v = 1.0
            out[a['name']] = float(v)
        for name, t in self.fps.items():
            out[name] = fpval(m.eval(t, model_completion=True))
        return out

    def occurs_linear(self, i):
        return self.atoms[i]['z3'] is not None


    def exact_values(self, extra=None, timeout_ms=None):
        """solve the path condition (plus extra) with the true nonlinear definitions; returns (status, values)"""
        s = z3.Solver()
        s.set('timeout', timeout_ms or self.real_timeout_ms)
        for c in self.pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        for m, v in list(self.monvars.items()):
            r = self.z3atom(m[0])
            for i in m[1:]:
                r = r * self.z3atom(i)
            s.add(v == r)
        for i, a in enumerate(self.atoms):
            if a['kind'] == 'sqrt' and a['z3'] is not None:
                s.add(a['z3'] * a['z3'] == self.z3poly(a['arg']))
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat:
            m = s.model()
            out = {}
            for i, a in enumerate(self.atoms):
                if a['kind'] == 'in':
                    out[a['name']] = float(zval(m.eval(a['z3'], model_completion=True))) if a['z3'] is not None else 1.0
            for name, tt in self.fps.items():
                out[name] = fpval(m.eval(tt, model_completion=True))
            return 'sat', out
        return str(r), None


def q(fr):
    fr = Fraction(fr)
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return zval(v.approx(40))
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


def fpval(v):
    """python float from a z3 FP numeral"""
    if z3.is_fp(v):
        if z3.is_fp_value(v):
            if v.isNaN():
                return float('nan')
            if v.isInf():
                return float('-inf') if v.isNegative() else float('inf')
            if v.isZero():
                return -0.0 if v.isNegative() else 0.0
            s = v.sign()
            m = v.significand_as_long()
            e = v.exponent_as_long(False)
            sub = v.isSubnormal()
            if sub:
                r = math.ldexp(m, -1022 - 52)
            else:
                r = math.ldexp((1 << 52) + m, e - 52)
            return -r if s else r
    return 0.0


# ---------------------------------------------------------------------------
def frac(x):
    """exact rational of a finite python/numpy number"""
    if type(x) is np.float64 or type(x) is float:
        return Fraction.from_float(float(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return Fraction(int(x))
    return Fraction(float(x))


NUMT = frozenset((int, float, np.float64, bool, np.bool_, Fraction))


def is_num(x):
    if type(x) in NUMT:
        return True
    if type(x) is SymReal:
        return False
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction))


def finite(x):
    if type(x) is np.float64 or type(x) is float:
        return math.isfinite(x)
    return isinstance(x, (int, Fraction, np.integer, np.bool_)) or math.isfinite(x)


class SymBool(object):
    __slots__ = ('z',)
    __array_ufunc__ = None

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return Engine.cur.branch(self.z)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z))
        return self if bool(o) else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z))
        return True if bool(o) else self
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))


def b_and(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SymBool):
            zs.append(c.z)
        elif not bool(c):
            return False
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0])


def b_or(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SymBool):
            zs.append(c.z)
        elif bool(c):
            return True
    if not zs:
        return False
    return SymBool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def b_not(c):
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.z))
    return not bool(c)


def b_implies(a, b):
    return b_or(b_not(a), b)


class Sym(object):
    """base class of symbolic scalars"""
    __slots__ = ()


P1 = {ONE: Fraction(1)}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(b) == 1 and ONE in b:
        return p_scale(a, b[ONE])
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE])
    eng = Engine.cur
    if len(a) > 3 and len(b) > 3:
        i = uni_atom(a, b)
        if i is not None and eng.atoms[i]['kind'] not in ('sqrt', 'abs'):
            return uni_sparse(uni_mul(uni_dense(a), uni_dense(b)), i)
    r = {}
    extra = []
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            if ma and mb:
                m = tuple(sorted(m))
                red = eng_reduce(eng, m)
                if red is not None:
                    extra.append(p_scale(red, ca * cb))
                    continue
            v = r.get(m)
            c = ca * cb
            r[m] = c if v is None else v + c
    r = {m: c for m, c in r.items() if c}
    for e in extra:
        r = p_add(r, e)
    return r


def eng_reduce(eng, m):
    """replace sqrt(p)^2 by p and |p|^2 by p^2"""
    for j in range(len(m) - 1):
        if m[j] == m[j + 1]:
            a = eng.atoms[m[j]]
            if a['kind'] in ('sqrt', 'abs'):
                rest = m[:j] + m[j + 2:]
                arg = a['arg'] if a['kind'] == 'sqrt' else p_mul(a['arg'], a['arg'])
                return p_mul(arg, {rest: Fraction(1)}) if rest else arg
    return None


def p_round(p):
    eng = Engine.cur
    if not eng.round_coef:
        return p
    out = {}
    if eng.round_coef == 'float':       # coefficients carry the rounding error of double precision
        for m, c in p.items():
            if c.denominator.bit_length() > 53 or c.numerator.bit_length() > 53:
                c = Fraction(float(c))
            if c:
                out[m] = c
        return out
    for m, c in p.items():
        if c.denominator.bit_length() > 120 or c.numerator.bit_length() > 400:
            c = Fraction(float(c))
        if c:
            out[m] = c
    return out


class SymReal(Sym):
    __slots__ = ('n', 'd')

    def __init__(self, num, den=None):
        self.n = num
        self.d = den            # None means 1

    # -- helpers
    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        return SymReal(p_const(frac(x)))

    def simp(self):
        """collapse to np.float64 when constant"""
        if self.d is None and p_isconst(self.n):
            c = p_cval(self.n)
            f = float(c)
            return np.float64(f) if Fraction(f) == c else self
        return self

    def isconst(self):
        return self.d is None and p_isconst(self.n)

    def __repr__(self):
        return '<sym>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __float__(self):
        return sym_float(self)

    def __int__(self):
        eng = Engine.cur
        if eng is None or eng.nl != 'exact':
            raise Unsupported('int() of symbolic real')
        for it in range(200):
            # guess from the current model, then decide the guess (the other side is explored as another path)
            k = eng.guess_int(self) if it == 0 else None
            if k is None:
                eng.ensure_model()
                e = eng.z3poly(self.n)
                if self.d is not None:
                    e = e / eng.z3poly(self.d)
                eng.ensure_model()
                v = zval(z3.simplify(eng.zmodel.eval(e, model_completion=True)))
                k = int(v)
                eng.witness = {i: float(zval(eng.zmodel.eval(a['z3'], model_completion=True))) for i, a in enumerate(eng.atoms) if a['kind'] == 'in' and a['z3'] is not None}
            c = b_and(self >= k, self < k + 1) if k > 0 else (b_and(self > -1, self < 1) if k == 0 else b_and(self > k - 1, self <= k))
            if bool(c):
                return k
        raise Unsupported('int() of symbolic real')

    def __index__(self):
        raise Unsupported('index from symbolic real')

    def __hash__(self):
        raise Unsupported('hash of symbolic real')

    def _bin(self, o, f):
        pass

    def __add__(self, o):
        if type(o) is SymReal:
            if self.d is None and o.d is None:
                return SymReal(p_round(p_add(self.n, o.n))).simp()
        elif isinstance(o, np.ndarray):
            return NotImplemented
        elif isinstance(o, SymFP):
            raise Unsupported('mix fp/real')
        elif is_num(o):
            if not finite(o):
                return np.float64(o)
            if o == 0:
                return self
            o = SymReal(p_const(frac(o)))
        elif not isinstance(o, SymReal):
            return NotImplemented
        if self.d is None and o.d is None:
            return SymReal(p_round(p_add(self.n, o.n))).simp()
        if self.d == o.d:
            return SymReal(p_add(self.n, o.n), self.d).norm()
        d1 = self.d or P1
        d2 = o.d or P1
        return SymReal(p_add(p_mul(self.n, d2), p_mul(o.n, d1)), p_mul(d1, d2)).norm()
    __radd__ = __add__

    def norm(self):
        if self.d is None:
            return self.simp()
        if not self.n:
            return np.float64(0.0)
        if p_isconst(self.d):
            return SymReal(p_round(p_scale(self.n, 1 / p_cval(self.d)))).simp()
        # proportional?
        r = p_ratio(self.n, self.d)
        if r is not None:
            return SymReal(p_round(p_const(r))).simp()
        if len(self.d) > 1 and Engine.cur is not None and Engine.cur.nl == 'exact':
            nd = uni_reduce(self.n, self.d)
            if nd is not None:
                if p_isconst(nd[1]):
                    return SymReal(p_scale(nd[0], 1 / p_cval(nd[1]))).simp()
                return SymReal(nd[0], nd[1])
        g = p_common_monomial(self.n, self.d)
        if g:
            n_ = {mon_div(m, g): c for m, c in self.n.items()}
            d_ = {mon_div(m, g): c for m, c in self.d.items()}
            if p_isconst(d_):
                return SymReal(p_round(p_scale(n_, 1 / p_cval(d_)))).simp()
            return SymReal(n_, d_)
        return self

    def __neg__(self):
        return SymReal(p_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            return self + (-o if not isinstance(o, (bool, np.bool_)) else -int(o))
        if not isinstance(o, SymReal):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            if not finite(o):
                return self._mul_nonfinite(o)
            if o == 0:
                return np.float64(0.0)
            if o == 1:
                return self
            return SymReal(p_round(p_scale(self.n, frac(o))), self.d)
        if not isinstance(o, SymReal):
            return NotImplemented
        if self.d is None and o.d is None:
            return SymReal(p_round(p_mul(self.n, o.n))).simp()
        return SymReal(p_mul(self.n, o.n), p_mul(self.d or P1, o.d or P1)).norm()
    __rmul__ = __mul__

    def _mul_nonfinite(self, o):
        if math.isnan(o):
            return np.float64(o)
        if self == 0:
            return np.float64('nan')
        return np.float64(o) if (self > 0) else np.float64(-o)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            if not finite(o):
                return np.float64('nan') if math.isnan(o) else np.float64(0.0)
            if o == 0:
                if self == 0:
                    return np.float64('nan')
                return np.float64('inf') if (self > 0) == (math.copysign(1, o) > 0) else np.float64('-inf')
            return SymReal(p_round(p_scale(self.n, 1 / frac(o))), self.d)
        if not isinstance(o, SymReal):
            return NotImplemented
        if o == 0:      # forks
            if self == 0:
                return np.float64('nan')
            return np.float64('inf') if self > 0 else np.float64('-inf')
        return SymReal(p_mul(self.n, o.d or P1), p_mul(self.d or P1, o.n)).norm()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not is_num(o):
            return NotImplemented
        if not finite(o):
            if math.isnan(o):
                return np.float64('nan')
            return np.float64(o) if self >= 0 else np.float64(-o)
        if self == 0:
            if isinstance(o, (np.floating, np.integer)):
                return np.float64('nan') if o == 0 else np.float64(math.copysign(float('inf'), o))
            # python float / numpy float -> numpy semantics too; symbolic values model numpy floats
            return np.float64('nan') if o == 0 else np.float64(math.copysign(float('inf'), o))
        return SymReal.lift(o) / self

    def __pow__(self, e):
        if is_num(e) and float(e) == int(e) and 0 <= int(e) <= 6:
            r = np.float64(1.0)
            for _ in range(int(e)):
                r = self * r
            return r
        if is_num(e) and float(e) == 0.5:
            return sym_sqrt(self)
        raise Unsupported('pow')

    def __abs__(self):
        return sym_abs(self)

    def __bool__(self):
        return bool(self != 0)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            if not finite(o):
                if math.isnan(o):
                    return op == '!='
                if o > 0:
                    return {'<': True, '<=': True, '>': False, '>=': False, '==': False, '!=': True}[op]
                return {'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True}[op]
            diff = self + (-frac(o)) if o else self
        elif isinstance(o, SymReal):
            diff = self - o
        elif o is None or isinstance(o, str):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError('unorderable')
        elif isinstance(o, LogExpr):
            return o._cmp(self, FLIP[op])
        else:
            return NotImplemented
        return cmp_zero(diff, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def sum(self, *a, **k):
        return self

    def dot(self, o):
        return self * o

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.handle_function(func, args, kwargs)


FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
PYOP = {'<': lambda a: a < 0, '<=': lambda a: a <= 0, '>': lambda a: a > 0, '>=': lambda a: a >= 0, '==': lambda a: a == 0, '!=': lambda a: a != 0}


def mon_div(m, g):
    m = list(m)
    for i in g:
        m.remove(i)
    return tuple(m)


def p_common_monomial(a, b):
    common = None
    for p in (a, b):
        for m in p:
            if not m:
                return ()
            if common is None:
                common = list(m)
            else:
                c2 = []
                mm = list(m)
                for i in common:
                    if i in mm:
                        mm.remove(i)
                        c2.append(i)
                common = c2
            if not common:
                return ()
    return tuple(common or ())


def p_ratio(a, b):
    if len(a) != len(b):
        return None
    r = None
    for m, c in a.items():
        d = b.get(m)
        if d is None:
            return None
        t = c / d
        if r is None:
            r = t
        elif r != t:
            return None
    return r


def p_content_factor(p):
    """split common monomial: p = mono * rest"""
    return None


def poly_cmp(p, op):
    """compare polynomial with 0, returns bool or SymBool"""
    if p_isconst(p):
        return PYOP[op](p_cval(p))
    eng = Engine.cur
    iv = eng.interval(p)
    if iv is not None:
        lo, hi = iv
        if op == '<':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif op == '<=':
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif op == '>':
            if lo > 0:
                return True
            if hi <= 0:
                return False
        elif op == '>=':
            if lo >= 0:
                return True
            if hi < 0:
                return False
        elif op in ('==', '!='):
            if lo > 0 or hi < 0:
                return op == '!='
    # single monomial c*m: sign-decompose
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) >= 2:
            z = mono_cmp(eng, m, c, op)
            if z is not None:
                return z
    if eng.round_coef == 'float':
        z = sqrt_cmp(eng, p, op)
        if z is not None:
            return z
    if eng.nl == 'exact' and len(p) > 2:
        sf = eng.sqfree(p)
        if sf is not None:
            odd, even = sf
            if even is None:
                return SymBool(rel0(eng.z3poly(odd), op))
            e0 = eng.z3poly(even) == 0
            if op in ('<=', '>=', '=='):
                return SymBool(z3.Or(rel0(eng.z3poly(odd), op), e0)) if not p_isconst(odd) else (
                    True if PYOP[op](p_cval(odd)) else SymBool(e0))
            if p_isconst(odd):
                return SymBool(z3.Not(e0)) if PYOP[op](p_cval(odd)) else False
            return SymBool(z3.And(rel0(eng.z3poly(odd), op), z3.Not(e0)))
    zc = rel0(eng.z3poly(p), op)
    lin = [m for m in p if m]
    if len(lin) == 1 and len(set(lin[0])) == 1:
        i = lin[0][0]
        if eng.atoms[i]['kind'] == 'in' and (len(lin[0]) == 1 or (eng.atoms[i]['lo'] is not None and eng.atoms[i]['lo'] >= 0)):
            eng.linear[zc.get_id()] = (zc, i, p[lin[0]], p.get(ONE, Fraction(0)), op, len(lin[0]))
    return SymBool(zc)


def sqrt_cmp(eng, p, op):
    """p = A + B r with r = sqrt(q) occurring linearly: the comparison with 0 without r (None: another shape)"""
    r = None
    for m in p:
        for i in m:
            if eng.atoms[i]['kind'] == 'sqrt':
                if r is not None and r != i or m.count(i) > 1:
                    return None
                r = i
            elif eng.atoms[i]['kind'] != 'in':
                return None
    if r is None:
        return None
    q = eng.atoms[r]['arg']
    if any(eng.atoms[i]['kind'] != 'in' for m in q for i in m):
        return None
    B = {tuple(i for i in m if i != r): c for m, c in p.items() if r in m}
    A = {m: c for m, c in p.items() if r not in m}
    a2, b2 = raw_mul(A, A), raw_mul(raw_mul(B, B), q)
    dlt = p_add(a2, p_neg(b2))

    def cmp(u, o):
        if p_isconst(u):
            return z3.BoolVal(bool(PYOP[o](p_cval(u))))
        return rel0(eng.z3poly(u), o)

    def ge(sa):       # sa*(A + B r) >= 0
        pos, neg = ('>=', '<=') if sa > 0 else ('<=', '>=')
        return z3.Or(z3.And(cmp(A, pos), cmp(B, pos)), z3.And(cmp(A, pos), cmp(B, neg), cmp(dlt, '>=')), z3.And(cmp(A, neg), cmp(B, pos), cmp(dlt, '<=')))
    if op == '>=':
        return SymBool(ge(1))
    if op == '<=':
        return SymBool(ge(-1))
    if op == '<':
        return SymBool(z3.Not(ge(1)))
    if op == '>':
        return SymBool(z3.Not(ge(-1)))
    if op == '==':
        return SymBool(z3.And(ge(1), ge(-1)))
    return SymBool(z3.Not(z3.And(ge(1), ge(-1))))


def rel0(t, op):
    return {'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0, '==': t == 0, '!=': t != 0}[op]


def mono_cmp(eng, m, c, op):
    """c * prod(atoms) op 0 expressed through signs of the atoms (exact, no product needed)"""
    odd = []
    allv = []
    j = 0
    while j < len(m):
        k = j
        while k < len(m) and m[k] == m[j]:
            k += 1
        allv.append(m[j])
        if (k - j) % 2:
            odd.append(m[j])
        j = k
    if eng.nl != 'exact':
        # in relaxed mode squares are their own variables; only use when no pure squares are involved
        return None
    zs = [eng.z3atom(i) for i in allv]
    iszero = z3.Or(*[v == 0 for v in zs])
    neg = None
    for i in odd:
        b = eng.z3atom(i) < 0
        neg = b if neg is None else z3.Xor(neg, b)
    neg = z3.BoolVal(False) if neg is None else neg
    if c < 0:
        neg = z3.Not(neg)
    nz = z3.Not(iszero)
    r = {'<': z3.And(nz, neg), '<=': z3.Or(iszero, neg), '>': z3.And(nz, z3.Not(neg)), '>=': z3.Or(iszero, z3.Not(neg)),
         '==': iszero, '!=': nz}[op]
    return SymBool(r)


def cmp_zero(x, op):
    if not isinstance(x, SymReal):
        return PYOP[op](x)
    if x.d is None:
        return poly_cmp(x.n, op)
    if op in ('==', '!='):
        return poly_cmp(x.n, op)
    pos = poly_cmp(x.d, '>')
    if isinstance(pos, SymBool) and Engine.cur.nl == 'exact' and Engine.cur.fpmode is None:
        sg = Engine.cur.known_sign(x.d, pos)
        if sg:
            pos = sg > 0
    if not isinstance(pos, SymBool):
        return poly_cmp(x.n if pos else p_neg(x.n), op)
    # combine without forking: (d>0 and n op 0) or (d<0 and -n op 0)
    return b_or(b_and(pos, poly_cmp(x.n, op)), b_and(b_not(pos), poly_cmp(p_neg(x.n), op)))


def sym_float(x):
    eng = Engine.cur
    eng.stats['floats'] += 1
    f = sys._getframe(2)
    site = '%s:%d' % (f.f_code.co_filename.rsplit('/', 1)[-1], f.f_lineno)
    eng.float_sites[site] = eng.float_sites.get(site, 0) + 1
    if eng.float_mode == 'format':
        return 0.0
    if eng.float_mode == 'concretise':
        eng.ensure_model()
        v = zval(eng.zmodel.eval(eng.z3poly(x.n), model_completion=True))
        if x.d is not None:
            v = v / zval(eng.zmodel.eval(eng.z3poly(x.d), model_completion=True))
        eng.inconclusive.append('concretised at ' + site)
        return float(v)
    raise Unsupported('float() of symbolic value at ' + site)


def sym_abs(x):
    if not isinstance(x, SymReal):
        return abs(x)
    eng = Engine.cur
    if x.d is not None:
        return x if (x >= 0) else -x
    iv = eng.interval(x.n)
    if iv is not None:
        if iv[0] >= 0:
            return x
        if iv[1] <= 0:
            return -x
    if eng.minmax == 'fork':
        return x if (x >= 0) else -x
    key = ('abs', p_key(x.n))
    i = eng.byname.get(key)
    if i is None:
        kneg = ('abs', p_key(p_neg(x.n)))
        i = eng.byname.get(kneg)
    if i is None:
        lo, hi = Fraction(0), None
        if iv is not None:
            hi = max(abs(iv[0]), abs(iv[1]))
        i = eng.new_atom('abs', lo, hi, kind='abs', arg=x.n)
        eng.byname[key] = i
    return SymReal({(i,): Fraction(1)})


def p_key(p):
    return tuple(sorted(p.items()))


def sym_max(a, b):
    return _minmax(a, b, True)


def sym_min(a, b):
    return _minmax(a, b, False)


def _minmax(a, b, ismax):
    """max(a,b)/min(a,b) of possibly symbolic finite reals (NaN handled by callers)"""
    eng = Engine.cur
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        if ismax:
            return a if a >= b else b
        return a if a <= b else b
    for u, v in ((a, b), (b, a)):
        if is_num(u) and not finite(u):
            if math.isnan(u):
                return u
            return u if (u > 0) == ismax else v
    c = (a >= b) if ismax else (a <= b)
    if not isinstance(c, SymBool):
        return a if c else b
    A, B = SymReal.lift(a), SymReal.lift(b)
    if eng.minmax == 'fork' or A.d is not None or B.d is not None:
        return a if c else b
    kind = 'max' if ismax else 'min'
    key = (kind, p_key(A.n), p_key(B.n))
    i = eng.byname.get(key)
    if i is None:
        ia, ib = eng.interval(A.n), eng.interval(B.n)
        lo = hi = None
        if ia and ib:
            f = max if ismax else min
            lo, hi = f(ia[0], ib[0]), f(ia[1], ib[1])
        i = eng.new_atom(kind, lo, hi, kind=kind, a=A.n, b=B.n)
        eng.byname[key] = i
    return SymReal({(i,): Fraction(1)})


def frac_sqrt(c):
    """exact rational square root or None"""
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def uni_atom(*ps):
    """the single atom of the given polynomials, None when there is none or more than one"""
    i = None
    for p in ps:
        for m in p:
            if m:
                if i is None:
                    i = m[0]
                if m[0] != i or m[-1] != i:
                    return None
    return i


def uni_dense(p):
    r = [Fraction(0)] * (max(len(m) for m in p) + 1)
    for m, c in p.items():
        r[len(m)] = c
    return r


def uni_sparse(L, i):
    return {(i,) * k: c for k, c in enumerate(L) if c}


def uni_divmod(x, y):
    x = list(x)
    if len(y) == 1:
        return [c / y[0] for c in x], []
    q_ = [Fraction(0)] * max(len(x) - len(y) + 1, 1)
    while len(x) >= len(y):
        c = x[-1] / y[-1]
        k = len(x) - len(y)
        q_[k] = c
        if c:
            for t in range(len(y)):
                x[k + t] -= c * y[t]
        x.pop()
    while x and not x[-1]:
        x.pop()
    return q_, x


_MP = (1 << 61) - 1


def uni_mod(L):
    """coefficients modulo a large prime, None when the reduction is degenerate"""
    r = []
    for c in L:
        d = c.denominator % _MP
        if d == 0:
            return None
        r.append(c.numerator * pow(d, -1, _MP) % _MP)
    return r if r[-1] else None


def uni_coprime_mod(A, B):
    """True when the two polynomials are certainly coprime (their images modulo a prime are)"""
    x, y = uni_mod(A), uni_mod(B)
    if x is None or y is None:
        return False
    while y:
        inv = pow(y[-1], -1, _MP)
        while len(x) >= len(y):
            c = x[-1] * inv % _MP
            if c:
                k = len(x) - len(y)
                for t in range(len(y)):
                    x[k + t] = (x[k + t] - c * y[t]) % _MP
            x.pop()
        while x and not x[-1]:
            x.pop()
        x, y = y, x
    return len(x) == 1


def uni_int(L):
    """integer coefficients and the common denominator"""
    D = 1
    for c in L:
        D = D * c.denominator // math.gcd(D, c.denominator)
    return [c.numerator * (D // c.denominator) for c in L], D


def uni_eval2(L, k):
    """value of an integer polynomial at 2**k"""
    r = 0
    for c in reversed(L):
        r = (r << k) + c
    return r


def uni_unpack(v, k):
    """integer coefficients (|c| < 2**(k-1)) of the polynomial with value v at 2**k"""
    neg = v < 0
    if neg:
        v = -v
    half, mask, full = 1 << (k - 1), (1 << k) - 1, 1 << k
    out = []
    while v:
        c = v & mask
        v >>= k
        if c >= half:
            c -= full
            v += 1
        out.append(-c if neg else c)
    return out


def uni_mul(A, B):
    """product by Kronecker substitution"""
    a, da = uni_int(A)
    b, db = uni_int(B)
    k = max(abs(c) for c in a).bit_length() + max(abs(c) for c in b).bit_length() + min(len(a), len(b)).bit_length() + 2
    r = uni_unpack(uni_eval2(a, k) * uni_eval2(b, k), k)
    d = da * db
    return [Fraction(c, d) for c in r]


def uni_prim(a):
    g = 0
    for c in a:
        g = math.gcd(g, c)
    return [c // g for c in a] if g > 1 else list(a)


def uni_gcd(A, B):
    """monic gcd; [1] when coprime"""
    if uni_coprime_mod(A, B):
        return [Fraction(1)]
    # heuristic gcd: integer gcd of the values at a large power of two, verified by exact division
    a, b = uni_prim(uni_int(A)[0]), uni_prim(uni_int(B)[0])
    k = max(max(abs(c) for c in a), max(abs(c) for c in b)).bit_length() + 4 + len(a)
    for _ in range(4):
        g = uni_prim(uni_unpack(math.gcd(uni_eval2(a, k), uni_eval2(b, k)), k))
        if len(g) > 1 and uni_divides(g, a) and uni_divides(g, b):
            return [Fraction(c, g[-1]) for c in g]
        k = k * 3 // 2 + 7
    x, y = A, B
    while y:
        lc = y[-1]
        y = [c / lc for c in y]
        _, r = uni_divmod(x, y)
        x, y = y, r
    return x


def uni_divides(g, a):
    """exact divisibility of integer polynomials (g primitive)"""
    x = list(a)
    while len(x) >= len(g):
        c, m = divmod(x[-1], g[-1])
        if m:
            return False
        k = len(x) - len(g)
        if c:
            for t in range(len(g)):
                x[k + t] -= c * g[t]
        x.pop()
    return not any(x)


def uni_reduce(a, b):
    """cancel the gcd of two polynomials in the same single atom (None when not univariate or coprime)"""
    i = uni_atom(a, b)
    if i is None or not a or not b:
        return None
    A, B = uni_dense(a), uni_dense(b)
    if len(A) > 200 or len(B) > 200 or len(A) < 2 or len(B) < 2:
        return None
    x = uni_gcd(A, B)
    if len(x) <= 1:
        return None
    A, _ = uni_divmod(A, x)
    B, _ = uni_divmod(B, x)
    return uni_sparse(A, i), uni_sparse(B, i)


def uni_deriv(L):
    return [L[k] * k for k in range(1, len(L))]


def uni_oddeven(L):
    """L = c * prod a_k^k  ->  (c * prod of a_k with k odd, prod of a_k with k even); None when squarefree"""
    g = uni_gcd(L, uni_deriv(L))
    if len(g) <= 1:
        return None
    c = L[-1]
    w, _ = uni_divmod(L, g)
    one = [Fraction(1)]

    def mul(x, y):
        r = [Fraction(0)] * (len(x) + len(y) - 1)
        for s_, u in enumerate(x):
            if u:
                for t, v in enumerate(y):
                    r[s_ + t] += u * v
        return r
    odd, even = [c], one
    w = [x / w[-1] for x in w]
    k = 1
    while len(w) > 1:
        y = uni_gcd(w, g) if len(g) > 1 else one
        f, _ = uni_divmod(w, y)
        if len(f) > 1:
            if k % 2:
                odd = mul(odd, f)
            else:
                even = mul(even, f)
        if len(g) > 1:
            g, _ = uni_divmod(g, y)
        w = y
        k += 1
    return odd, even


def p_sqrt(p):
    """polynomial square root if p is (exactly) a perfect square of a polynomial, else None"""
    if not p:
        return {}
    if p_isconst(p):
        r = frac_sqrt(p_cval(p))
        return None if r is None else p_const(r)
    # leading monomial under (degree, lex)
    key = lambda m: (len(m), tuple(-i for i in m))
    lead = max(p, key=key)
    c = frac_sqrt(p[lead])
    if c is None or len(lead) % 2:
        return None
    half = []
    j = 0
    while j < len(lead):
        if j + 1 >= len(lead) or lead[j] != lead[j + 1]:
            return None
        half.append(lead[j])
        j += 2
    qn = {tuple(half): c}
    rem = p_add(p, p_neg(raw_mul(qn, qn)))
    for _ in range(40):
        if not rem:
            return qn
        m = max(rem, key=key)
        # next term t = rem_lead / (2*lead(q))
        mm = list(m)
        try:
            for i in half:
                mm.remove(i)
        except ValueError:
            return None
        t = {tuple(mm): rem[m] / (2 * c)}
        if tuple(mm) in qn:
            return None
        qn = p_add(qn, t)
        rem = p_add(p, p_neg(raw_mul(qn, qn)))
        if key(m) <= (0, ()) and rem:
            return None
    return None


def raw_mul(a, b):
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = tuple(sorted(ma + mb))
            r[m] = r.get(m, 0) + ca * cb
    return {m: c for m, c in r.items() if c}


def sym_sqrt(x):
    """sqrt of a symbolic real; caller has dealt with x < 0"""
    if not isinstance(x, SymReal):
        return np.sqrt(x)
    eng = Engine.cur
    if x.d is not None:
        # sqrt(n/d) = sqrt(n*d)/|d|
        return sym_sqrt(SymReal(p_mul(x.n, x.d))) / sym_abs(SymReal(x.d))
    r = p_sqrt(x.n)
    if r is not None:
        return sym_abs(SymReal(p_round(r)).simp())
    if getattr(eng, 'exact_qr', False) and x.n:
        # c q^2 with c > 0 not a rational square (c comes from rounded constants such as delta**2): sqrt(c) rounded to double
        c = x.n[max(x.n, key=lambda m: (len(m), tuple(-i for i in m)))]
        if c > 0:
            r = p_sqrt({m: v / c for m, v in x.n.items()})
            if r is not None:
                q = Fraction(math.sqrt(float(c)))
                return sym_abs(SymReal({m: v * q for m, v in r.items()}).simp())
    if eng.round_coef == 'float' and len(x.n) == 1:
        (mon, c), = x.n.items()
        if c > 0 and len(mon) % 2 == 0 and mon[::2] == mon[1::2]:
            return sym_abs(SymReal({mon[::2]: Fraction(math.sqrt(float(c)))}))
    # pull out a rational square content and monomial squares
    key = ('sqrt', p_key(x.n))
    i = eng.byname.get(key)
    if i is None:
        iv = eng.interval(x.n)
        lo, hi = Fraction(0), None
        if iv is not None:
            hi = Fraction(math.sqrt(float(max(iv[1], 0))) * (1 + 1e-9) + 1e-300)
            if iv[0] > 0:
                lo = Fraction(math.sqrt(float(iv[0])) * (1 - 1e-9))
        i = eng.new_atom('sqrt', lo, hi, kind='sqrt', arg=x.n)
        eng.byname[key] = i
    return SymReal({(i,): Fraction(1)})


class SymInt(SymReal):
    """integer-valued input (arithmetic results are plain SymReal)"""
    __slots__ = ()

    def simp(self):
        return self

    __hash__ = SymReal.__hash__


class LogExpr(Sym):
    """c*(log a - log b) or c*log a with a, b positive symbolic/concrete"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __sub__(self, o):
        if isinstance(o, LogExpr) and self.c == o.c and self.b is None and o.b is None:
            return LogExpr(self.c, self.a, o.a)
        if is_num(o):
            if not finite(o):
                return np.float64(-o) if not math.isnan(o) else np.float64(o)
            if self.b is None and self.c == 1:
                return LogExpr(self.c, self.a, math.exp(o))
        raise Unsupported('log arithmetic')

    def __rsub__(self, o):
        if is_num(o) and self.b is None and self.c == 1:
            if not finite(o):
                return np.float64(o)
            return LogExpr(self.c, math.exp(o), self.a)
        raise Unsupported('log arithmetic')

    def __truediv__(self, k):
        if is_num(k) and k != 0:
            return LogExpr(self.c / float(k), self.a, self.b)
        raise Unsupported('log arithmetic')

    def __mul__(self, k):
        return LogExpr(self.c * float(k), self.a, self.b)
    __rmul__ = __mul__

    def __neg__(self):
        return LogExpr(-self.c, self.a, self.b)

    def _cmp(self, o, op):
        if not is_num(o):
            raise Unsupported('log compare')
        if not finite(o):
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        if self.c == 0:
            raise Unsupported('log zero')
        t = o / self.c
        if self.c < 0:
            op = FLIP[op]
        if t > 700:
            raise Unsupported('log range')
        # log(a/b) op t
        rhs = math.exp(t) * (1.0 if self.b is None else self.b)
        return SymReal.lift(self.a)._cmp(rhs, op) if not is_num(self.a) else SymReal.lift(rhs)._cmp(self.a, FLIP[op])

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    __hash__ = None


# ---------------------------------------------------------------------------
class SymFP(Sym):
    """IEEE binary64 term (numpy float64 semantics: no exceptions)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def lift(x):
        if isinstance(x, SymFP):
            return x.t
        return z3.FPVal(float(x), F64)

    ndim = 0
    shape = ()
    size = 1

    def copy(self):
        return self

    def __repr__(self):
        return '<symfp>'
    __str__ = __repr__

    def __format__(self, s):
        return '<symfp>'

    def __float__(self):
        eng = Engine.cur
        eng.stats['floats'] += 1
        if eng.float_mode == 'format':
            return 0.0
        raise Unsupported('float() of symbolic fp')

    def __hash__(self):
        raise Unsupported('hash of fp')

    def _b(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymFP) or is_num(o):
            return SymFP(z3.simplify(f(self.t, SymFP.lift(o))))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: z3.fpAdd(RM, a, b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: z3.fpSub(RM, a, b))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: z3.fpSub(RM, b, a))

    def __mul__(self, o):
        return self._b(o, lambda a, b: z3.fpMul(RM, a, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: z3.fpDiv(RM, a, b))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: z3.fpDiv(RM, b, a))

    def __neg__(self):
        return SymFP(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFP(z3.fpAbs(self.t))

    def __pow__(self, e):
        if is_num(e) and int(e) == e and 1 <= e <= 4:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        raise Unsupported('fp pow')

    def _c(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymFP) or is_num(o):
            z = z3.simplify(f(self.t, SymFP.lift(o)))
            if z3.is_true(z):
                return True
            if z3.is_false(z):
                return False
            return SymBool(z)
        if o is None:
            return False
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, z3.fpLT)

    def __le__(self, o):
        return self._c(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._c(o, z3.fpGT)

    def __ge__(self, o):
        return self._c(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._c(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._c(o, z3.fpEQ)
        if r is NotImplemented:
            return r
        return b_not(r)

    def __bool__(self):
        return bool(self != 0.0)

    def isnan(self):
        return SymBool(z3.fpIsNaN(self.t))

    def isinf(self):
        return SymBool(z3.fpIsInf(self.t))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.handle_function(func, args, kwargs)


def fp_max(a, b):
    """numpy maximum: NaN propagates; equal -> first"""
    A, B = SymFP.lift(a), SymFP.lift(b)
    return SymFP(z3.simplify(z3.If(z3.fpIsNaN(A), A, z3.If(z3.fpIsNaN(B), B, z3.If(z3.fpGEQ(A, B), A, B)))))


def fp_min(a, b):
    A, B = SymFP.lift(a), SymFP.lift(b)
    return SymFP(z3.simplify(z3.If(z3.fpIsNaN(A), A, z3.If(z3.fpIsNaN(B), B, z3.If(z3.fpLEQ(A, B), A, B)))))


def fp_ite(c, a, b):
    return SymFP(z3.If(c.z, SymFP.lift(a), SymFP.lift(b)))


def fp_atom(name):
    eng = Engine.cur
    t = z3.FP(name, F64)
    eng.fps[name] = t
    return SymFP(t)


NEXT0 = z3.Function('nextafter0', F64, F64)


def fp_nextafter(x, y):
    """nextafter(x, 0)"""
    if isinstance(y, Sym) or float(y) != 0.0:
        raise Unsupported('nextafter to nonzero')
    eng = Engine.cur
    t = SymFP.lift(x)
    v = z3.simplify(t)
    if z3.is_fp_value(v):
        return SymFP(z3.FPVal(math.nextafter(fpval(v), 0.0), F64))
    b = z3.fpToIEEEBV(t)
    eng.fp_defs.append(NEXT0(t) == z3.If(z3.fpIsZero(t), z3.FPVal(0.0, F64), z3.fpBVToFP(b - 1, F64)))
    return SymFP(NEXT0(t))


def is_sym(x):
    return isinstance(x, (Sym, SymBool))
