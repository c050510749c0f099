"""Harness API shared by symbolic runs and concrete replays."""
import math
import numpy as np
from . import core, symnp, load
from .core import Engine, SymReal, SymBool, PathCut, PathDone, PathInfeasible


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg = key, msg


class SymH(object):
    symbolic = True

    def __init__(self, eng, mods):
        self.eng, self.mods = eng, mods
        self.log = []

    def real(self, name, lo=None, hi=None):
        return self.eng.real(name, lo, hi)

    def int(self, name, lo, hi):
        r = self.eng.real(name, lo, hi)
        self.eng.add(core.z3.IsInt(self.eng.z3poly(r.n)))
        return core.SymInt(r.n)

    def fp(self, name, finite=True, lo=None, hi=None):
        x = core.fp_atom(name)
        if finite:
            z = core.z3
            self.eng.add(z.Not(z.Or(z.fpIsNaN(x.t), z.fpIsInf(x.t))))
        if lo is not None:
            self.eng.fp_ranges[name] = (float(lo), float(hi))
            self.eng.assume(core.b_and(x >= float(lo), x <= float(hi)))
        return x

    def choose(self, k, label=''):
        return self.eng.choose(k, label)

    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, key, msg=''):
        self.eng.check_obligation(c, key, msg)

    def fail(self, key, msg=''):
        self.check(False, key, msg)

    def cut(self, why=''):
        raise PathCut(why)

    def arr(self, x):
        return symnp.SArr.of(x)

    def note(self, k, n=1):
        self.eng.notes[k] = self.eng.notes.get(k, 0) + n

    # comparisons with tolerance `tol` in the concrete replay only
    AND = staticmethod(core.b_and)
    OR = staticmethod(core.b_or)
    NOT = staticmethod(core.b_not)

    def close(self, a, b, rel=1e-9, scale=1.0):
        """a == b in the real-arithmetic model; within a rounding tolerance when replayed in floats"""
        if not core.is_sym(a) and not core.is_sym(b):
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            return a == b or abs(a - b) <= rel * max(abs(a), abs(b), scale)
        dlt = a - b
        if not core.is_sym(dlt):
            if not np.isfinite(dlt):
                return False
            if abs(dlt) <= rel * scale:
                return True
        t = rel * scale
        ab = core.sym_abs(b)
        return core.b_and(dlt <= ab * rel + t, -dlt <= ab * rel + t)

    def leq(self, a, b, rel=1e-9, scale=1.0):
        if not core.is_sym(a) and not core.is_sym(b):
            return a <= b + rel * max(abs(b), scale) if np.isfinite(b) else a <= b
        return a <= b

    def value(self, x):
        return x


class ReplayH(object):
    symbolic = False

    def __init__(self, mods, values, chooses):
        self.mods, self.values, self.chooses = mods, values, list(chooses)
        self.pos = 0
        self.log = []
        self.notes = {}

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = 1.0
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
        return np.float64(v)

    def int(self, name, lo, hi):
        return int(round(float(self.values.get(name, lo))))

    def fp(self, name, finite=True, lo=None, hi=None):
        return np.float64(self.values.get(name, 0.0))

    def choose(self, k, label=''):
        if k <= 0:
            raise PathInfeasible()
        if self.pos < len(self.chooses):
            lab, v = self.chooses[self.pos]
            self.pos += 1
            if lab != label or v >= k:
                raise PathCut('replay diverged: %s vs %s' % (lab, label))
            return v
        return 0

    def assume(self, c):
        if not bool(c):
            raise PathInfeasible()

    def check(self, c, key, msg=''):
        if not bool(c):
            raise Violation(key, msg() if callable(msg) else msg)

    def fail(self, key, msg=''):
        raise Violation(key, msg() if callable(msg) else msg)

    def cut(self, why=''):
        raise PathCut(why)

    def arr(self, x):
        return np.array(x, dtype=float)

    def note(self, k, n=1):
        pass

    @staticmethod
    def AND(*cs):
        return all(bool(c) for c in cs)

    @staticmethod
    def OR(*cs):
        return any(bool(c) for c in cs)

    @staticmethod
    def NOT(c):
        return not bool(c)

    def close(self, a, b, rel=1e-9, scale=1.0):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= max(rel, 1e-12) * max(abs(a), abs(b), scale)

    def leq(self, a, b, rel=1e-9, scale=1.0):
        if not np.isfinite(b):
            return a <= b
        return a <= b + max(rel, 1e-12) * max(abs(b), scale)
