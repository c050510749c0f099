"""Sound real-arithmetic abstraction of float64 terms.

Every float64 operation v = rnd(y) (y the exact real result) becomes a fresh real v with facts that hold for IEEE round-to-nearest:
  * |v - y| <= 2^-53 |y| + 2^-1074
  * for every other float64 term f of the query:  f <= y -> f <= v,  f >= y -> f >= v      (v is a nearest float)
  * for two operations: y1 <= y2 -> v1 <= v2                                                  (rounding is monotone)
nextafter(x, 0) = w:  w strictly between 0 and x, and no float term strictly between w and x.
Finiteness is justified by interval arithmetic on the declared ranges of the inputs (otherwise the query is not abstracted).
An unsat answer is a proof for the float64 semantics; a sat answer is only a candidate.
"""
import math
import z3
from .core import fpval, q
from fractions import Fraction

LIM = 1e300
EPS = Fraction(1, 2 ** 53)
NZ = Fraction(1, 10 ** 100)
TINY = Fraction(1, 2 ** 1074)


class NoAbs(Exception):
    pass


def down(x):
    return math.nextafter(x, -math.inf)


def up(x):
    return math.nextafter(x, math.inf)


class Abs(object):
    def __init__(self, ranges):
        self.ranges = ranges          # atom name -> (lo, hi)
        self.cache = {}               # ast id -> (real expr, lo, hi)
        self.bcache = {}
        self.keep = []
        self.floats = []              # real exprs that are float64-valued (atoms, op results, constants)
        self.ops = []                 # (v, y)
        self.ax = []
        self.n = 0
        self.atoms = {}
        self.done = []

    def fresh(self):
        self.n += 1
        return z3.Real('fp!%d' % self.n)

    def rnd(self, y, lo, hi):
        lo, hi = down(lo), up(hi)
        if not (abs(lo) < LIM and abs(hi) < LIM):
            raise NoAbs('overflow possible')
        v = self.fresh()
        ay = z3.If(y >= 0, y, -y)
        self.ax.append(v - y <= ay * q(EPS) + q(TINY))
        self.ax.append(y - v <= ay * q(EPS) + q(TINY))
        self.ax.append(z3.And(z3.Implies(y >= 0, v >= 0), z3.Implies(y <= 0, v <= 0)))
        for (v2, y2) in self.ops:
            self.ax.append(z3.Implies(y <= y2, v <= v2))
            self.ax.append(z3.Implies(y2 <= y, v2 <= v))
        for f in self.floats:
            self.ax.append(z3.And(z3.Implies(f <= y, f <= v), z3.Implies(f >= y, f >= v)))
        for (v2, y2) in self.ops:
            self.ax.append(z3.And(z3.Implies(v <= y2, v <= v2), z3.Implies(v >= y2, v >= v2)))
        self.ops.append((v, y))
        self.floats.append(v)
        return v, lo, hi

    def addfloat(self, f):
        for (v2, y2) in self.ops:
            self.ax.append(z3.And(z3.Implies(f <= y2, f <= v2), z3.Implies(f >= y2, f >= v2)))
        self.floats.append(f)

    def term(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        self.keep.append(t)
        r = self._term(t)
        self.cache[k] = r
        return r

    def _term(self, t):
        if z3.is_fp_value(t):
            c = fpval(t)
            if math.isnan(c) or math.isinf(c):
                raise NoAbs('non-finite constant')
            e = q(Fraction(c))
            self.addfloat(e)
            return e, c, c
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            name = d.name()
            if name not in self.ranges or self.ranges[name][0] is None:
                raise NoAbs('unbounded atom ' + name)
            lo, hi = self.ranges[name]
            v = z3.Real('fa!' + name)
            self.atoms[name] = v
            self.ax.append(z3.And(v >= q(Fraction(lo)), v <= q(Fraction(hi))))
            self.addfloat(v)
            return v, lo, hi
        if k == z3.Z3_OP_UNINTERPRETED and d.name() == 'nextafter0':
            x, lo, hi = self.term(t.arg(0))
            w = self.fresh()
            self.ax.append(z3.Implies(x > 0, z3.And(w >= 0, w < x, x - w <= x * q(2 * EPS) * 2 + q(TINY))))
            self.ax.append(z3.Implies(x < 0, z3.And(w <= 0, w > x, w - x <= -x * q(2 * EPS) * 2 + q(TINY))))
            self.ax.append(z3.Implies(x == 0, w == 0))
            for f in self.floats:
                self.ax.append(z3.Implies(x > 0, z3.Or(f <= w, f >= x)))
                self.ax.append(z3.Implies(x < 0, z3.Or(f >= w, f <= x)))
            self.addfloat(w)
            # x is the rounding of its own exact value: w on the near side must lie strictly below that value
            return w, min(lo, 0.0), max(hi, 0.0)
        if k == z3.Z3_OP_FPA_NEG:
            a, lo, hi = self.term(t.arg(0))
            self.addfloat(-a)
            return -a, -hi, -lo
        if k == z3.Z3_OP_FPA_ABS:
            a, lo, hi = self.term(t.arg(0))
            return z3.If(a >= 0, a, -a), (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
        if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
            a, al, ah = self.term(t.arg(1))
            b, bl, bh = self.term(t.arg(2))
            if k == z3.Z3_OP_FPA_SUB:
                b, bl, bh = -b, -bh, -bl
            return self.rnd(z3.simplify(a + b), al + bl, ah + bh)
        if k == z3.Z3_OP_FPA_MUL:
            a, al, ah = self.term(t.arg(1))
            b, bl, bh = self.term(t.arg(2))
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = down(min(ps)), up(max(ps))
            if al == ah or bl == bh:
                y = a * b
            else:
                y = self.fresh()
                for (u, w) in ((a, b), (b, a)):
                    au = z3.If(u >= 0, u, -u)
                    aw = z3.If(w >= 0, w, -w)
                    ay = z3.If(y >= 0, y, -y)
                    self.ax.append(z3.Implies(au <= 1, ay <= aw))
                    self.ax.append(z3.Implies(au >= 1, ay >= aw))
                self.ax.append(z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), y >= 0))
                self.ax.append(z3.Implies(z3.Or(z3.And(a <= 0, b >= 0), z3.And(a >= 0, b <= 0)), y <= 0))
                if t.arg(1).eq(t.arg(2)):
                    self.ax.append(y >= 0)
            return self.rnd(y, lo, hi)
        if k == z3.Z3_OP_FPA_DIV:
            a, al, ah = self.term(t.arg(1))
            b, bl, bh = self.term(t.arg(2))
            if bl <= 0 <= bh:
                if not self.nonzero(b):
                    raise NoAbs('division')
                lim = up(max(abs(al), abs(ah)) / float(NZ))
                ps = [-lim, lim, -lim, lim]
            else:
                ps = [al / bl, al / bh, ah / bl, ah / bh]
            y = self.fresh()
            aa = z3.If(a >= 0, a, -a)
            ab = z3.If(b >= 0, b, -b)
            ay = z3.If(y >= 0, y, -y)
            self.ax.append(z3.Implies(aa <= ab, ay <= 1))
            self.ax.append(z3.Implies(aa >= ab, ay >= 1))
            self.ax.append(z3.Implies(ab >= 1, ay <= aa))
            self.ax.append(z3.Implies(ab <= 1, ay >= aa))
            self.ax.append(z3.Implies(a == 0, y == 0))
            self.ax.append(z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), y >= 0))
            self.ax.append(z3.Implies(z3.Or(z3.And(a <= 0, b >= 0), z3.And(a >= 0, b <= 0)), y <= 0))
            return self.rnd(y, down(min(ps)), up(max(ps)))
        if k == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            if z3.is_true(c):
                return self.term(t.arg(1))
            if z3.is_false(c):
                return self.term(t.arg(2))
            a, al, ah = self.term(t.arg(1))
            b, bl, bh = self.term(t.arg(2))
            return z3.If(c, a, b), min(al, bl), max(ah, bh)
        raise NoAbs('fp op %s' % d.name())

    def nonzero(self, b):
        """the conditions seen so far imply |b| >= NZ"""
        s = z3.Solver()
        s.set('timeout', 3000)
        for c in self.done + self.ax:
            s.add(c)
        s.add(b < q(NZ), b > -q(NZ))
        return s.check() == z3.unsat

    def boolean(self, e):
        k = e.get_id()
        if k in self.bcache:
            return self.bcache[k]
        self.keep.append(e)
        r = self._boolean(e)
        self.bcache[k] = r
        return r

    def _boolean(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        k = e.decl().kind()
        if k in (z3.Z3_OP_FPA_IS_NAN, z3.Z3_OP_FPA_IS_INF):
            self.term(e.arg(0))
            return z3.BoolVal(False)
        cmp = {z3.Z3_OP_FPA_LE: lambda a, b: a <= b, z3.Z3_OP_FPA_LT: lambda a, b: a < b, z3.Z3_OP_FPA_GE: lambda a, b: a >= b,
               z3.Z3_OP_FPA_GT: lambda a, b: a > b, z3.Z3_OP_FPA_EQ: lambda a, b: a == b}
        if k in cmp:
            return z3.simplify(cmp[k](self.term(e.arg(0))[0], self.term(e.arg(1))[0]))
        if k == z3.Z3_OP_NOT:
            return z3.simplify(z3.Not(self.boolean(e.arg(0))))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            cs = [self.boolean(c) for c in e.children()]
            return z3.simplify(z3.And(*cs) if k == z3.Z3_OP_AND else z3.Or(*cs))
        if k == z3.Z3_OP_IMPLIES:
            return z3.simplify(z3.Implies(self.boolean(e.arg(0)), self.boolean(e.arg(1))))
        if k == z3.Z3_OP_ITE and z3.is_bool(e):
            return z3.simplify(z3.If(*[self.boolean(c) for c in e.children()]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_fp(e.arg(0)):
                raise NoAbs('structural fp equality')
            if z3.is_bool(e.arg(0)):
                r = self.boolean(e.arg(0)) == self.boolean(e.arg(1))
                return z3.simplify(r if k == z3.Z3_OP_EQ else z3.Not(r))
        # a purely real/boolean expression
        if not has_fp(e):
            return e
        raise NoAbs('boolean op %s' % e.decl().name())


def has_fp(e):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            return True
        todo += x.children()
    return False


def solve(conds, ranges, timeout_ms=10000):
    """('unsat'|'sat'|'unknown'|'noabs', {name: float} candidate)"""
    A = Abs(ranges)
    try:
        cs = []
        for c in conds:
            cs.append(A.boolean(c))
            A.done = cs
    except NoAbs as e:
        return 'noabs', {'why': str(e)}
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for c in cs + A.ax:
        s.add(c)
    r = s.check()
    cand = None
    if r == z3.sat:
        m = s.model()
        cand = {}
        for n, v in A.atoms.items():
            x = m.eval(v, model_completion=True)
            try:
                cand[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            except Exception:
                cand[n] = float(x.approx(30).as_fraction())
    return str(r), cand
