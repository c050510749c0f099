"""numpy facade: arrays holding symbolic scalars.

SArr is an ndarray subclass of dtype object.  When every element involved in an operation is
concrete the real numpy/scipy routine runs on float64 data (bit-identical to the unmodified
program); otherwise a symbolic implementation is used, or Unsupported is raised.
"""
import math, builtins, types, numbers, operator
from fractions import Fraction
import numpy as np
import scipy.linalg
import scipy.stats
from . import core
from .core import (Engine, SymReal, SymFP, SymBool, Sym, Unsupported, sym_abs, sym_sqrt, sym_max, sym_min, fp_max, fp_min,
                   LogExpr, fp_nextafter, is_num, b_and, b_not, b_or)

f64 = np.float64
NPDEFAULT = object()


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        for v in x.ravel().tolist() if type(x) is np.ndarray else np.ndarray.ravel(x.view(np.ndarray)).tolist():
            if isinstance(v, (Sym, SymBool)):
                return True
        return False
    if isinstance(x, (list, tuple)):
        for v in x:
            if has_sym(v):
                return True
        return False
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def plain(x):
    """strip SArr -> float64 arrays (all concrete)"""
    if isinstance(x, SArr):
        a = x.view(np.ndarray)
        if a.dtype == object:
            return a.astype(float)
        return a
    if isinstance(x, (list, tuple)):
        t = [plain(v) for v in x]
        if isinstance(x, tuple):
            return type(x)(*t) if hasattr(x, '_fields') else tuple(t)
        return t
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, np.ndarray):
        if isinstance(x, SArr):
            return x
        if x.dtype.kind == 'f':
            if x.ndim == 0:
                return f64(x)
            return SArr.of(x)
        if x.dtype == object:
            return norm_obj(x).view(SArr)
        return x
    if isinstance(x, tuple):
        if type(x) is not tuple:
            return x
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    if type(x) is float:
        return f64(x)
    return x


def norm_obj(a):
    return a


class SArr(np.ndarray):
    @staticmethod
    def of(x):
        """object array from numeric data, elements np.float64"""
        a = np.empty(np.shape(x), dtype=object)
        src = np.asarray(x, dtype=float) if not has_sym(x) else None
        if src is not None:
            if a.ndim == 0:
                a[()] = f64(src)
            else:
                flat = a.ravel()
                flat[:] = [f64(v) for v in src.ravel()]
                a = flat.reshape(a.shape)
        else:
            y = np.array(x, dtype=object)
            return y.view(SArr)
        return a.view(SArr)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, k)
        if type(r) is float or type(r) is int:
            return f64(r)
        if isinstance(r, np.ndarray) and r.ndim == 0:
            r = r.view(np.ndarray)
            while isinstance(r, np.ndarray) and r.ndim == 0:
                r = r.item()
            return f64(r) if type(r) is float or type(r) is int else r
        return r

    def __iter__(self):
        if self.ndim == 1:
            return iter([self[i] for i in range(self.shape[0])])
        return iter([self[i] for i in range(self.shape[0])])

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu' and v.ndim > 0:
            v = SArr.of(v)
        elif isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item() if v.dtype == object else f64(v)
        elif isinstance(v, (list, tuple)):
            v = SArr.of(v)
        elif isinstance(v, (SymBool,)):
            raise Unsupported('symbolic bool in array')
        elif type(v) in (float, int):
            v = f64(v)
        if isinstance(v, np.ndarray):
            np.ndarray.__setitem__(self, k, v.view(np.ndarray))
        elif isinstance(v, Sym):
            kk = k if isinstance(k, tuple) else (k,)
            if len(kk) == self.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) for i in kk):
                np.ndarray.__setitem__(self, k, v)      # full integer index: a 0-d array would be stored as an element
            else:
                # object scalars: assign through 0-d object array so numpy does not inspect them
                z = np.empty((), dtype=object)
                z[()] = v
                np.ndarray.__setitem__(self, k, z)
        else:
            if v is None:
                v = f64('nan')
            np.ndarray.__setitem__(self, k, v)

    def astype(self, t, *a, **k):
        if t is b_float or t in (float, 'float', np.float64, 'float64') or (isinstance(t, np.dtype) and t.kind == 'f'):
            if k.get('copy', True) is False:
                return self
            return self.copy()
        if t is object:
            return self.copy()
        if not has_sym(self):
            return plain(self).astype(t, *a, **k)
        if t in (bool, np.bool_):
            out = np.zeros(self.shape, dtype=bool)
            for i in np.ndindex(*self.shape):
                out[i] = bool(self[i])
            return out
        raise Unsupported('astype')

    def copy(self, *a, **k):
        return np.ndarray.copy(self.view(np.ndarray)).view(SArr)

    def tolist(self):
        r = np.ndarray.tolist(self.view(np.ndarray))

        def fix(v):
            if isinstance(v, list):
                return [fix(u) for u in v]
            if isinstance(v, np.floating):
                return float(v)
            return v
        return fix(r)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return handle_function(func, args, kwargs)

    # reductions / methods
    def sum(self, axis=None, **k):
        return handle_function(np.sum, (self,), dict(axis=axis))

    def mean(self, axis=None, **k):
        return handle_function(np.mean, (self,), dict(axis=axis))

    def max(self, axis=None, **k):
        return handle_function(np.max, (self,), dict(axis=axis))

    def min(self, axis=None, **k):
        return handle_function(np.min, (self,), dict(axis=axis))

    def argmin(self, axis=None, **k):
        return handle_function(np.argmin, (self,), dict(axis=axis))

    def argmax(self, axis=None, **k):
        return handle_function(np.argmax, (self,), dict(axis=axis))

    def argsort(self, *a, **k):
        return handle_function(np.argsort, (self,), k)

    def any(self, axis=None, **k):
        return handle_function(np.any, (self,), dict(axis=axis))

    def all(self, axis=None, **k):
        return handle_function(np.all, (self,), dict(axis=axis))

    def dot(self, o, *a):
        return handle_function(np.dot, (self, o), {})

    def clip(self, *a, **k):
        return handle_function(np.clip, (self,) + a, k)

    def prod(self, axis=None, **k):
        return handle_function(np.prod, (self,), dict(axis=axis))

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a

    def __repr__(self):
        if has_sym(self):
            return '<SArr %s>' % (np.ndarray.tolist(self.view(np.ndarray)),)
        return repr(plain(self))

    def __str__(self):
        if has_sym(self):
            return '<SArr>'
        return str(plain(self))

    def __format__(self, s):
        return str(self)

    def __reduce__(self):
        return (SArr.of, (plain(self),))


def asobj(x):
    """ndarray(object) view/copy of anything array-like"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return SArr.of(x).view(np.ndarray) if x.dtype.kind in 'fiu' else x.astype(object)
    if isinstance(x, (list, tuple)):
        return SArr.of(x).view(np.ndarray)
    z = np.empty((), dtype=object)
    z[()] = x
    return z


# -------------------------------------------------------------------------------------------
# scalar functions (NaN/inf aware)
# -------------------------------------------------------------------------------------------
def isnanc(x):
    return (not isinstance(x, (Sym, SymBool))) and isinstance(x, (float, np.floating)) and math.isnan(x)


def s_maximum(a, b):
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        return fp_max(a, b)
    if isnanc(a):
        return a
    if isnanc(b):
        return b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym_max(a, b)
    return np.maximum(a, b)


def s_minimum(a, b):
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        return fp_min(a, b)
    if isnanc(a):
        return a
    if isnanc(b):
        return b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym_min(a, b)
    return np.minimum(a, b)


def s_isnan(a):
    if isinstance(a, SymFP):
        return bool(a.isnan())
    if isinstance(a, Sym):
        return False
    return bool(np.isnan(a))


def s_isinf(a):
    if isinstance(a, SymFP):
        return bool(SymBool(core.z3.fpIsInf(a.t)))
    if isinstance(a, Sym):
        return False
    return bool(np.isinf(a))


def s_isfinite(a):
    if isinstance(a, SymFP):
        return bool(SymBool(core.z3.Not(core.z3.Or(core.z3.fpIsInf(a.t), core.z3.fpIsNaN(a.t)))))
    if isinstance(a, Sym):
        return True
    return bool(np.isfinite(a))


def s_sqrt(a):
    if isinstance(a, SymReal):
        lt = a < 0
        if lt is not False and bool(lt):
            return f64('nan')
        return sym_sqrt(a)
    if isinstance(a, SymFP):
        return SymFP(core.z3.fpSqrt(core.RM, a.t))
    if isinstance(a, Sym):
        raise Unsupported('sqrt')
    with np.errstate(all='ignore'):
        return np.sqrt(a)


def s_log(a):
    if isinstance(a, SymReal):
        if a > 0:
            return LogExpr(1.0, a, None)
        if a == 0:
            return f64('-inf')
        return f64('nan')
    if isinstance(a, Sym):
        raise Unsupported('log')
    with np.errstate(all='ignore'):
        return np.log(a)


def s_sign(a):
    if isinstance(a, SymReal):
        if a > 0:
            return f64(1.0)
        if a < 0:
            return f64(-1.0)
        return f64(0.0)
    if isinstance(a, Sym):
        raise Unsupported('sign')
    return np.sign(a)


def fbool(f):
    return lambda a, b: force(f(a, b))


def force(c):
    if isinstance(c, SymBool):
        return bool(c)
    return bool(c)


def s_div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return f64(a) / f64(b)
    return a / b


def s_mul(a, b):
    # IEEE: 0*nan = nan etc.
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a * b
    with np.errstate(all='ignore'):
        return f64(a) * f64(b)


def s_add(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a + b
    with np.errstate(all='ignore'):
        return f64(a) + f64(b)


def s_sub(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a - b
    with np.errstate(all='ignore'):
        return f64(a) - f64(b)


def s_abs(a):
    if isinstance(a, SymReal):
        return sym_abs(a)
    return abs(a)


def s_nextafter(a, b):
    if isinstance(a, SymFP):
        return fp_nextafter(a, b)
    if isinstance(a, Sym):
        return a            # real-arithmetic runs do not model single ulps
    if isinstance(b, Sym):
        raise Unsupported('nextafter towards a symbolic value')
    return np.nextafter(f64(a), f64(b))


UF = {
    np.add: s_add, np.subtract: s_sub, np.multiply: s_mul, np.true_divide: s_div, np.divide: s_div,
    np.negative: lambda a: -a, np.positive: lambda a: a, np.absolute: s_abs, np.fabs: s_abs,
    np.maximum: s_maximum, np.minimum: s_minimum, np.fmax: s_maximum, np.fmin: s_minimum,
    np.sqrt: s_sqrt, np.square: lambda a: s_mul(a, a), np.log: s_log, np.sign: s_sign,
    np.nextafter: s_nextafter,
    np.power: lambda a, b: a ** b, np.float_power: lambda a, b: a ** b,
}
UFB = {   # boolean valued
    np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b, np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
    np.isnan: s_isnan, np.isinf: s_isinf, np.isfinite: s_isfinite,
    np.logical_and: lambda a, b: bool(a) and bool(b), np.logical_or: lambda a, b: bool(a) or bool(b),
    np.logical_not: lambda a: not bool(a), np.signbit: lambda a: a < 0,
}


FAST = {np.add: operator.add, np.subtract: operator.sub, np.multiply: operator.mul, np.true_divide: operator.truediv}


def fast_ufunc(ufunc, inputs):
    """elementwise + - * / of one-dimensional arrays and scalars (same results as the general code below)"""
    a, b = inputs
    ta, tb = type(a), type(b)
    if ta is SArr:
        if a.ndim != 1 or a.dtype != object:
            return None
        la = np.ndarray.tolist(a)
        n = len(la)
        if tb is SArr:
            if b.ndim != 1 or b.dtype != object or b.shape[0] != n:
                return None
            lb = np.ndarray.tolist(b)
        elif tb in (f64, float, int, SymReal):
            lb = [b] * n
        else:
            return None
    elif ta in (f64, float, int, SymReal) and tb is SArr and b.ndim == 1 and b.dtype == object:
        lb = np.ndarray.tolist(b)
        n = len(lb)
        la = [a] * n
    else:
        return None
    op, fn = FAST[ufunc], UF[ufunc]
    out = []
    for u, v in zip(la, lb):
        tu, tv = type(u), type(v)
        if (tu is f64 or tu is float or tu is int) and (tv is f64 or tv is float or tv is int):
            if ufunc is np.true_divide and v == 0:
                return None
            out.append(f64(op(float(u), float(v))))
        elif isinstance(u, Sym) or isinstance(v, Sym):
            out.append(fn(pf(u), pf(v)))
        else:
            return None
    res = np.empty(n, dtype=object)
    res[:] = out
    return res.view(SArr)


def handle_ufunc(ufunc, method, inputs, kw):
    if not kw and method == '__call__' and ufunc in FAST:
        r = fast_ufunc(ufunc, inputs)
        if r is not None:
            return r
    out = kw.pop('out', None)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if not has_sym(inputs) and not has_sym(list(kw.values())):
        args = [plain(x) for x in inputs]
        args = [a.item() if isinstance(a, np.ndarray) and a.dtype == object and a.ndim == 0 else a for a in args]
        kk = {k: plain(v) for k, v in kw.items()}
        if method == '__call__' and ufunc in (np.matmul,):
            r = np.dot(*args) if False else ufunc(*args, **kk)
        else:
            with np.errstate(all='ignore'):
                r = getattr(ufunc, method)(*args, **kk)
        r = wrap(r)
        return put_out(out, r)
    if 'where' in kw and kw['where'] is not True:
        raise Unsupported('ufunc where')
    if ufunc is np.matmul:
        return put_out(out, sym_dot(inputs[0], inputs[1]))
    if method == 'reduce':
        f = {np.add: np.sum, np.maximum: np.max, np.minimum: np.min, np.multiply: np.prod, np.logical_and: np.all,
             np.logical_or: np.any}.get(ufunc)
        if f is None:
            raise Unsupported('reduce')
        return handle_function(f, (inputs[0],), dict(axis=kw.get('axis', 0)))
    if method == 'outer':
        a, b = asobj(inputs[0]), asobj(inputs[1])
        return handle_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim).view(SArr), b.view(SArr)), {})
    if method != '__call__':
        raise Unsupported('ufunc method ' + method)
    fn = UF.get(ufunc)
    isb = False
    if fn is None:
        fn = UFB.get(ufunc)
        isb = True
        if fn is None:
            raise Unsupported('ufunc ' + ufunc.__name__)
    scalar = all(not isinstance(x, (np.ndarray, list, tuple)) for x in inputs)
    if scalar:
        r = fn(*[pf(x) for x in inputs])
        return put_out(out, r)
    arrs = [asobj(x) for x in inputs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    bs = [np.broadcast_to(a, shape) for a in arrs]
    res = np.empty(shape, dtype=bool if isb else object)
    for i in np.ndindex(*shape):
        v = fn(*[pf(b[i]) for b in bs]) if len(bs) > 1 else fn(fixf(bs[0][i]))
        if isb:
            res[i] = force(v)
        else:
            res[i] = v
    if shape == ():
        r = res[()]
        return put_out(out, r)
    return put_out(out, res if isb else res.view(SArr))


def pf(v):
    """python float (so that a symbolic right operand gets its reflected method)"""
    if isinstance(v, (np.floating, int, np.integer)) and not isinstance(v, bool):
        return builtins.float(v)
    return v


def fixf(v):
    if type(v) in (float, int):
        return f64(v)
    return v


def put_out(out, r):
    if out is None:
        return r
    if isinstance(out, SArr) or (isinstance(out, np.ndarray) and out.dtype == object):
        if isinstance(out, SArr):
            out[...] = r
        else:
            out[...] = asobj(r)
        return out
    if has_sym(r):
        raise Unsupported('symbolic result into native array')
    out[...] = plain(r)
    return out


def sym_dot(a, b):
    A, B = asobj(a), asobj(b)
    if A.ndim == 0 or B.ndim == 0:
        return handle_ufunc(np.multiply, '__call__', (a, b), {})
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError('shapes not aligned')
        return ssum([s_mul(fixf(x), fixf(y)) for x, y in zip(A, B)])
    if A.ndim == 2 and B.ndim == 1:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((A.shape[0],), dtype=object)
        for i in range(A.shape[0]):
            out[i] = ssum([s_mul(fixf(A[i, k]), fixf(B[k])) for k in range(A.shape[1])])
        return out.view(SArr)
    if A.ndim == 1 and B.ndim == 2:
        if A.shape[0] != B.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((B.shape[1],), dtype=object)
        for j in range(B.shape[1]):
            out[j] = ssum([s_mul(fixf(A[k]), fixf(B[k, j])) for k in range(A.shape[0])])
        return out.view(SArr)
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = ssum([s_mul(fixf(A[i, k]), fixf(B[k, j])) for k in range(A.shape[1])])
        return out.view(SArr)
    raise Unsupported('dot ndim')


def ssum(vals):
    r = f64(0.0)
    for v in vals:
        r = s_add(r, v)
    return r


def reduce_axis(a, axis, fn, boolean=False):
    A = asobj(a)
    if axis is None:
        r = fn([fixf(v) for v in A.ravel()])
        return r
    if isinstance(axis, tuple):
        raise Unsupported('axis tuple')
    if axis < 0:
        axis += A.ndim
    B = np.moveaxis(A, axis, -1)
    out = np.empty(B.shape[:-1], dtype=bool if boolean else object)
    for i in np.ndindex(*B.shape[:-1]):
        out[i] = fn([fixf(v) for v in B[i]])
    if out.ndim == 0:
        return out[()]
    return out if boolean else out.view(SArr)


def r_max(vals):
    if not vals:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = vals[0]
    for v in vals[1:]:
        r = s_maximum(r, v)
    return r


def r_min(vals):
    if not vals:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    r = vals[0]
    for v in vals[1:]:
        r = s_minimum(r, v)
    return r


def r_nanargmin(vals):
    idx = [i for i, v in enumerate(vals) if not s_isnan(v)]
    if not idx:
        raise ValueError('All-NaN slice encountered')
    # numpy replaces NaN by +inf, so the first of several infs (or NaNs before it) is returned
    return r_argmin([float('inf') if s_isnan(v) else v for v in vals])


def r_argmin(vals):
    k = 0
    for i in range(len(vals)):
        if s_isnan(vals[i]):
            return i
    for i in range(1, len(vals)):
        if force(vals[i] < vals[k]):
            k = i
    return k


def r_argmax(vals):
    k = 0
    for i in range(len(vals)):
        if s_isnan(vals[i]):
            return i
    for i in range(1, len(vals)):
        if force(vals[i] > vals[k]):
            k = i
    return k


def r_argsort(vals):
    idx = []
    for i in range(len(vals)):
        j = len(idx)
        while j > 0 and force(vals[i] < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def r_sum(vals):
    return ssum(vals)


def r_mean(vals):
    if not vals:
        return f64('nan')
    return s_div(ssum(vals), f64(len(vals)))


def sym_norm(x, ord=None, axis=None, **k):
    """2-norm / Frobenius norm / inf-norm of symbolic data"""
    eng = Engine.cur
    A = asobj(x)
    nonf = [v for v in A.ravel() if not isinstance(v, Sym) and not np.isfinite(v)]
    mode = getattr(eng, 'norm_mode', 'exact')
    if axis is not None:
        raise Unsupported('norm axis')
    if nonf:
        if any(isnanc(v) for v in nonf):
            return f64('nan')
        if A.ndim == 2 and ord == 2:
            return f64('nan')
        return f64('inf')
    if any(isinstance(v, SymFP) for v in A.ravel()):
        if A.ndim == 1 and A.size == 1:
            return abs(A[0])
        raise Unsupported('fp norm')
    if mode == 'one':
        eng.notes['norms_concretised'] = eng.notes.get('norms_concretised', 0) + 1
        return f64(1.0)
    if ord in (np.inf,) and A.ndim == 1:
        return r_max([s_abs(fixf(v)) for v in A])
    if A.ndim == 1 and ord in (None, 2) or A.ndim == 2 and ord in (None, 'fro'):
        vals = [fixf(v) for v in A.ravel()]
        if len(vals) == 1:
            return s_abs(vals[0])
        return sym_sqrt_lift(ssum([s_mul(v, v) for v in vals]))
    if A.ndim == 2 and ord == 2:
        if A.shape == (1, 1):
            return s_abs(fixf(A[0, 0]))
        r = sym_norm_mono(A, ord)
        if r is not None:
            return r
        if A.shape == (2, 2):
            return sym_norm2_2x2(A)
    raise Unsupported('norm ord')


def mono_of(v):
    """(numerator monomial, denominator monomial, coefficient) of a single-term value"""
    if not isinstance(v, SymReal):
        return (), (), Fraction(float(v))
    if len(v.n) != 1 or (v.d is not None and len(v.d) != 1):
        return None
    (m, c), = v.n.items()
    if v.d is None:
        return m, (), c
    (dm, dc), = v.d.items()
    return m, dm, c / dc


def sym_norm_mono(A, ord):
    """norm of a matrix whose entries are all multiples of one monomial (coefficients in double precision)"""
    if getattr(Engine.cur, 'round_coef', False) != 'float':
        return None
    C = np.zeros(A.shape)
    mono = None
    for i in np.ndindex(*A.shape):
        v = fixf(A[i])
        if not isinstance(v, Sym) and v == 0:
            continue
        t = mono_of(v)
        if t is None or (mono is not None and t[:2] != mono):
            return None
        mono = t[:2]
        C[i] = float(t[2])
    r = np.linalg.norm(C, ord)
    if mono is None or mono == ((), ()):
        return f64(r)
    return s_mul(s_abs(SymReal({mono[0]: Fraction(1)}, {mono[1]: Fraction(1)} if mono[1] else None)), f64(r))


def sym_sqrt_lift(v):
    if isinstance(v, SymReal):
        return sym_sqrt(v)
    return np.sqrt(v)


def sym_norm2_2x2(A):
    a, b, c, d = [fixf(v) for v in A.ravel()]
    # largest singular value, symmetric case only
    if not (b is c or force(b == c)):
        raise Unsupported('norm2 nonsym')
    h = (a + d) * 0.5
    k = (a - d) * 0.5
    r = sym_sqrt_lift(k * k + b * b)
    return s_maximum(s_abs(h + r), s_abs(h - r))


# -- QR / triangular solves with symbolic matrices (exact reals, small) ------------------------
def sym_solve_triangular(R, b, trans=0, lower=False, **k):
    A = asobj(R)
    Bv = asobj(b)
    n = A.shape[0]
    for v in list(A.ravel()) + list(Bv.ravel()):
        if not isinstance(v, Sym) and not np.isfinite(v):
            raise ValueError('array must not contain infs or NaNs')
    if trans in ('T', 1, 'C', 2):
        A = A.T
        lower = not lower
    one = Bv.ndim == 1
    Bm = Bv.reshape(-1, 1) if one else Bv
    if Bm.shape[0] != n:
        raise ValueError('shapes')
    X = np.empty(Bm.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for j in range(Bm.shape[1]):
        for i in order:
            s = fixf(Bm[i, j])
            rng = range(i) if lower else range(i + 1, n)
            for k2 in rng:
                s = s_sub(s, s_mul(fixf(A[i, k2]), X[k2, j]))
            piv = fixf(A[i, i])
            if force(piv == 0):
                raise scipy.linalg.LinAlgError('singular matrix')
            X[i, j] = s_div(s, piv)
    X = X.view(SArr)
    return X[:, 0] if one else X


def sym_qr(A, mode='full', **k):
    """QR by Gram-Schmidt with LAPACK-like sign convention not modelled: only used where the result does not depend on
    the sign choice (products Q R^-1); small sizes only"""
    M = asobj(A)
    m, n = M.shape
    for v in M.ravel():
        if not isinstance(v, Sym) and not np.isfinite(v):
            raise ValueError('array must not contain infs or NaNs')
    if m < n:
        raise Unsupported('qr wide')
    Q = np.empty((m, n), dtype=object)
    R = np.empty((n, n), dtype=object)
    R[:] = f64(0.0)
    if getattr(Engine.cur, 'exact_qr', False) and mode in ('economic', 'reduced'):
        exact = lambda v: v if isinstance(v, Sym) else SymReal.lift(v)
        # square-root-free variant A = V U (orthogonal columns V, unit upper triangular U), returned as Q = V, R = (V'V) U:
        # R^-1 Q' and Q R^-T are the same matrices as for the orthonormal factorisation
        for j in range(n):
            v = [exact(M[i, j]) for i in range(m)]
            for k2 in range(j):
                r = ssum([s_mul(Q[i, k2], exact(M[i, j])) for i in range(m)])
                R[k2, j] = r
                u = s_div(r, R[k2, k2])
                v = [s_sub(v[i], s_mul(u, Q[i, k2])) for i in range(m)]
            nr = ssum([s_mul(t, t) for t in v])
            if force(nr == 0):
                raise Unsupported('rank-deficient symbolic qr')
            R[j, j] = nr
            for i in range(m):
                Q[i, j] = v[i]
        return Q.view(SArr), R.view(SArr)
    for j in range(n):
        v = [fixf(M[i, j]) for i in range(m)]
        for k2 in range(j):
            r = ssum([s_mul(Q[i, k2], fixf(M[i, j])) for i in range(m)])
            R[k2, j] = r
            v = [s_sub(v[i], s_mul(r, Q[i, k2])) for i in range(m)]
        nr = sym_sqrt_lift(ssum([s_mul(t, t) for t in v]))
        if force(nr == 0):
            raise Unsupported('rank-deficient symbolic qr')
        R[j, j] = nr
        for i in range(m):
            Q[i, j] = s_div(v[i], nr)
    if mode not in ('economic', 'reduced') and m != n:
        raise Unsupported('full qr')
    return Q.view(SArr), R.view(SArr)


def sym_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = asobj(a), asobj(b)
    shape = np.broadcast_shapes(A.shape, B.shape)
    A, B = np.broadcast_to(A, shape), np.broadcast_to(B, shape)
    for i in np.ndindex(*shape):
        x, y = fixf(A[i]), fixf(B[i])
        if x is y and isinstance(x, SymReal):
            continue
        if isinstance(x, Sym) or isinstance(y, Sym):
            dlt = x - y
            if not isinstance(dlt, Sym) and np.isfinite(dlt) and dlt == 0:
                continue
            if not force(s_abs(dlt) <= atol + rtol * s_abs(y)):
                return False
        elif not np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan):
            return False
    return True


def sym_argfun(fn):
    def f(a, axis=None, **k):
        A = asobj(a)
        if axis is None:
            return fn([fixf(v) for v in A.ravel()])
        if A.ndim == 1:
            return fn([fixf(v) for v in A])
        raise Unsupported('arg axis')
    return f


def sym_where(c, *xy):
    C = np.asarray(c) if not isinstance(c, SArr) else c.astype(bool)
    if not xy:
        return np.where(C)
    x, y = asobj(xy[0]), asobj(xy[1])
    shape = np.broadcast_shapes(C.shape, x.shape, y.shape)
    C, x, y = [np.broadcast_to(t, shape) for t in (C, x, y)]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = x[i] if C[i] else y[i]
    return out.view(SArr) if shape else out[()]


def sym_clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)
    r = a
    if lo is not None:
        r = handle_ufunc(np.maximum, '__call__', (r, lo), {})
    if hi is not None:
        r = handle_ufunc(np.minimum, '__call__', (r, hi), {})
    return r


def bool_reduce(fn):
    def f(a, axis=None, **k):
        return reduce_axis(a, axis, fn, boolean=True)
    return f


def sym_cond(x, p=None):
    eng = Engine.cur
    eng.notes['norms_concretised'] = eng.notes.get('norms_concretised', 0) + 1
    return f64(1.0)


def sym_svd(a, full_matrices=True, **k):
    A = asobj(a)
    for v in A.ravel():
        if not isinstance(v, Sym) and not np.isfinite(v):
            raise ValueError('array must not contain infs or NaNs')
    if getattr(Engine.cur, 'norm_mode', 'exact') == 'one':
        # whole-solve runs: the Jacobian only reaches stubbed consumers, so any factors of the right shape will do
        Engine.cur.notes['svd_stubbed'] = Engine.cur.notes.get('svd_stubbed', 0) + 1
        m_, n_ = A.shape
        k_ = min(m_, n_)
        return (wrap(np.eye(m_, m_ if full_matrices else k_)), wrap(np.ones(k_)), wrap(np.eye(n_ if full_matrices else k_, n_)))
    if A.shape[0] == 1 or A.shape[1] == 1:
        vals = [fixf(v) for v in A.ravel()]
        nr = sym_norm_exact(vals)
        if force(nr == 0):
            raise Unsupported('svd of zero')
        unit = np.array([s_div(v, nr) for v in vals], dtype=object)
        one = np.empty((1, 1), dtype=object)
        one[0, 0] = f64(1.0)
        s = np.empty((1,), dtype=object)
        s[0] = nr
        if full_matrices and A.shape != (1, 1):
            raise Unsupported('full svd')
        if A.shape[0] == 1:
            return one.view(SArr), s.view(SArr), unit.reshape(1, -1).view(SArr)
        return unit.reshape(-1, 1).view(SArr), s.view(SArr), one.view(SArr)
    raise Unsupported('svd')


def sym_norm_exact(vals):
    if len(vals) == 1:
        return s_abs(vals[0])
    return sym_sqrt_lift(ssum([s_mul(v, v) for v in vals]))


def sym_array_equal(a, b, **k):
    A, B = asobj(a), asobj(b)
    if A.shape != B.shape:
        return False
    return all(force(fixf(x) == fixf(y)) for x, y in zip(A.ravel(), B.ravel()))


FUN = {
    np.dot: lambda a, b, **k: sym_dot(a, b),
    np.vdot: lambda a, b, **k: sym_dot(asobj(a).ravel(), asobj(b).ravel()),
    np.inner: lambda a, b, **k: sym_dot(a, b),
    np.sum: lambda a, axis=None, **k: reduce_axis(a, axis, r_sum),
    np.mean: lambda a, axis=None, **k: reduce_axis(a, axis, r_mean),
    np.average: lambda a, axis=None, **k: reduce_axis(a, axis, r_mean),
    np.max: lambda a, axis=None, **k: reduce_axis(a, axis, r_max),
    np.min: lambda a, axis=None, **k: reduce_axis(a, axis, r_min),
    np.amax: lambda a, axis=None, **k: reduce_axis(a, axis, r_max),
    np.amin: lambda a, axis=None, **k: reduce_axis(a, axis, r_min),
    np.prod: lambda a, axis=None, **k: reduce_axis(a, axis, lambda v: __import__('functools').reduce(s_mul, v, f64(1.0))),
    np.any: bool_reduce(lambda v: any([force(x) if isinstance(x, (bool, np.bool_, SymBool)) else bool(x) for x in v])),
    np.all: bool_reduce(lambda v: all([force(x) if isinstance(x, (bool, np.bool_, SymBool)) else bool(x) for x in v])),
    np.argmin: sym_argfun(r_argmin),
    np.argmax: sym_argfun(r_argmax),
    np.nanargmin: sym_argfun(r_nanargmin),
    np.argsort: lambda a, axis=-1, **k: r_argsort([fixf(v) for v in asobj(a)]),
    np.sort: lambda a, **k: asobj(a)[r_argsort([fixf(v) for v in asobj(a)])].view(SArr),
    np.allclose: sym_allclose,
    np.isclose: lambda a, b, **k: sym_allclose(a, b, **k),
    np.array_equal: sym_array_equal,
    np.where: sym_where,
    np.clip: sym_clip,
    np.linalg.norm: sym_norm,
    np.linalg.cond: sym_cond,
    np.linalg.qr: lambda a, mode='reduced': sym_qr(a, mode),
    np.linalg.svd: sym_svd,
    np.nanmin: lambda a, **k: Unsupported('nanmin'),
    np.isreal: lambda a, **k: True,
    np.iscomplexobj: lambda a, **k: False,
    np.nan_to_num: lambda a, **k: a,
    np.outer: lambda a, b, **k: handle_ufunc(np.multiply, 'outer', (a, b), {}),
    np.ravel: lambda a, **k: asobj(a).ravel().view(SArr),
    np.round: lambda a, *b, **k: (_ for _ in ()).throw(Unsupported('round')),
    np.trace: lambda a, **k: ssum([fixf(asobj(a)[i, i]) for i in range(min(asobj(a).shape))]),
    np.square: lambda a: handle_ufunc(np.square, '__call__', (a,), {}),
    np.einsum: lambda *a, **k: sym_einsum(*a),
    np.cumsum: lambda a, **k: sym_cumsum(a),
    np.diff: lambda a, **k: handle_ufunc(np.subtract, '__call__', (asobj(a)[1:].view(SArr), asobj(a)[:-1].view(SArr)), {}),
}


def sym_cumsum(a):
    out = []
    s = f64(0.0)
    for v in asobj(a).ravel():
        s = s_add(s, fixf(v))
        out.append(s)
    return SArr.of(out)


def sym_einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if spec in ('i,i->', 'i,i'):
        return sym_dot(ops[0], ops[1])
    if spec == 'ij,ij->i':
        A, B = asobj(ops[0]), asobj(ops[1])
        return SArr.of([sym_dot(A[i].view(SArr), B[i].view(SArr)) for i in range(A.shape[0])])
    if spec in ('ij,j->i', 'ij,j', 'ij,jk->ik', 'ij,jk'):
        return sym_dot(ops[0], ops[1])
    raise Unsupported('einsum ' + spec)


def sym_insert(arr, obj, values, axis=None):
    a = asobj(arr)
    if not isinstance(obj, (int, np.integer)) or isinstance(obj, bool):
        raise Unsupported('np.insert index')
    if a.ndim > 1 and axis is None:
        a = a.ravel()
    v = asobj(values)
    if a.ndim == 1:
        new = list(a[:obj]) + (list(v.ravel()) if v.ndim else [v.item()]) + list(a[obj:])
        out = np.empty(len(new), dtype=object)
        for i, x in enumerate(new):
            out[i] = x
        return out.view(SArr)
    if a.ndim != 2 or axis not in (0, 1):
        raise Unsupported('np.insert shape')
    t = a if axis == 0 else a.T
    if v.ndim == 2 and axis == 1:
        v = v.T
    rows = v if v.ndim == 2 else np.broadcast_to(v, (1, t.shape[1]))
    out = np.concatenate([t[:obj], rows, t[obj:]], axis=0)
    return (out if axis == 0 else out.T).view(SArr)


FUN[np.insert] = sym_insert
STRUCT = set(f for f in [
    np.append, np.delete, np.concatenate, np.vstack, np.hstack, np.stack, np.column_stack, np.reshape,
    np.transpose, np.copy, np.diag, np.tile, np.repeat, np.squeeze, np.expand_dims, np.flip, np.roll, np.split,
    np.take, np.atleast_1d, np.atleast_2d, np.broadcast_to, np.moveaxis, np.swapaxes, np.full_like, np.triu, np.tril,
    np.fill_diagonal, np.copyto, np.array_split, np.diagonal, np.put,
])
SHAPE = set([np.shape, np.size, np.ndim])


def handle_function(func, args, kwargs):
    if func in SHAPE:
        a = [x.view(np.ndarray) if isinstance(x, SArr) else x for x in args]
        if isinstance(a[0], Sym):
            return {np.shape: (), np.size: 1, np.ndim: 0}[func]
        return func(*a, **kwargs)
    if func in (np.zeros_like, np.ones_like, np.empty_like):
        v = 1.0 if func is np.ones_like else 0.0
        dt = kwargs.get('dtype')
        if dt is not None and dt not in (float, np.float64, object):
            return func(np.zeros(np.shape(args[0])), **kwargs)
        return SArr.of(np.full(np.shape(asobj(args[0])), v))
    if func is np.full_like:
        a = np.empty(np.shape(asobj(args[0])), dtype=object).view(SArr)
        a[...] = args[1] if len(args) > 1 else kwargs['fill_value']
        return a
    if not has_sym(args) and not has_sym(kwargs):
        with np.errstate(all='ignore'):
            r = func(*plain(tuple(args)), **plain(kwargs))
        if func in (np.copyto, np.fill_diagonal, np.put):
            raise Unsupported('in-place numpy function')
        return wrap(r)
    f = FUN.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func in STRUCT:
        def strip(x):
            if isinstance(x, np.ndarray):
                return asobj(x) if x.dtype.kind in 'fO' else x
            if isinstance(x, (list, tuple)):
                if has_sym(x) and not any(isinstance(v, np.ndarray) for v in x):
                    return asobj(x)
                return type(x)(strip(v) for v in x)
            if isinstance(x, Sym):
                return asobj(x)
            return x
        r = func(*[strip(x) for x in args], **{k: strip(v) for k, v in kwargs.items()})
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SArr)
        if isinstance(r, list):
            return [x.view(SArr) if isinstance(x, np.ndarray) and x.dtype == object else x for x in r]
        return r
    raise Unsupported('numpy function ' + getattr(func, '__name__', str(func)))


# -------------------------------------------------------------------------------------------
# facade modules
# -------------------------------------------------------------------------------------------
class Facade(object):
    def __init__(self, real, table, name):
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_name'] = name

    def __getattr__(self, k):
        t = self._table
        if k in t:
            return t[k]
        v = getattr(self._real, k)
        if isinstance(v, types.ModuleType):
            return v
        return v


def _isfloatdt(dt):
    return dt is None or dt is b_float or dt in (float, np.float64, 'float', 'float64', object, np.double) or \
        (isinstance(dt, np.dtype) and dt.kind == 'f')


def f_zeros(shape, dtype=None, **k):
    if not _isfloatdt(dtype):
        return np.zeros(shape, dtype=dtype, **k)
    return SArr.of(np.zeros(shape))


def f_ones(shape, dtype=None, **k):
    if not _isfloatdt(dtype):
        return np.ones(shape, dtype=dtype, **k)
    return SArr.of(np.ones(shape))


def f_full(shape, v, dtype=None, **k):
    if not _isfloatdt(dtype) or (isinstance(v, (bool, np.bool_, int, np.integer)) and dtype is None):
        return np.full(shape, v, dtype=dtype, **k)
    a = SArr.of(np.zeros(shape))
    a[...] = v
    return a


def f_eye(*a, dtype=None, **k):
    if not _isfloatdt(dtype):
        return np.eye(*a, dtype=dtype, **k)
    return SArr.of(np.eye(*a, **k))


def f_array(x, dtype=None, copy=True, **k):
    if dtype is b_float:
        dtype = float
    if not _isfloatdt(dtype) and dtype is not None:
        return np.array(plain(x) if not has_sym(x) else x, dtype=dtype, **k)
    if isinstance(x, SArr):
        return x.copy() if copy else x
    if has_sym(x):
        y = SArr.of(x)
        if dtype is not None:
            v = y.view(np.ndarray)
            for i in np.ndindex(*v.shape):
                if v[i] is None:
                    v[i] = float('nan')
        return y
    y = np.array(plain(x), **k) if dtype is None else np.array(plain(x), dtype=float, **k)
    if y.dtype.kind == 'f':
        return SArr.of(y)
    if y.dtype == object and dtype is None:
        try:
            return SArr.of(np.array([plain(v) for v in x], dtype=float))
        except Exception:
            return y
    return y


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and _isfloatdt(dtype):
        return x
    return f_array(x, dtype=dtype, **k)


def f_arange(*a, **k):
    r = np.arange(*a, **k)
    return wrap(r)


def f_linspace(*a, **k):
    return wrap(np.linspace(*plain(a), **k))


class RandomStub(object):
    """nondeterministic stand-in for numpy's global generator"""

    def __init__(self):
        self.handler = None

    def __getattr__(self, k):
        h = Engine.cur.random_handler if Engine.cur is not None and hasattr(Engine.cur, 'random_handler') else None
        if h is not None:
            return h(k)
        return getattr(np.random, k)


def d(func):
    """dispatching version of a numpy function: handles plain lists containing symbolic data"""
    def g(*args, **kw):
        if any(isinstance(a, (SArr, Sym)) for a in args) or has_sym(args) or any(isinstance(a, (list, tuple)) and any(isinstance(v, SArr) for v in a) for a in args):
            return handle_function(func, args, kw)
        return wrap(func(*args, **kw)) if func not in SHAPE else func(*args, **kw)
    g.__name__ = getattr(func, '__name__', 'f')
    g._np = func
    return g


def scipy_dispatch(func, symimpl):
    def g(*args, **kw):
        if has_sym(args) or (symimpl is sym_qr and getattr(Engine.cur, 'exact_qr', False) and kw.get('mode') == 'economic'):
            if symimpl is None:
                raise Unsupported('scipy ' + func.__name__)
            return symimpl(*args, **kw)
        return wrap(func(*plain(args), **plain(kw)))
    g.__name__ = func.__name__
    return g


def sp_norm(a, ord=None, axis=None, keepdims=False, check_finite=True):
    A = asobj(a)
    if check_finite:
        for v in A.ravel():
            if not isinstance(v, Sym) and not np.isfinite(v):
                raise ValueError('array must not contain infs or NaNs')
    return sym_norm(a, ord=ord, axis=axis)


def sp_lstsq(a, b, **k):
    if has_sym(a):
        raise Unsupported('lstsq symbolic matrix')
    P = np.linalg.pinv(plain(a))
    return sym_dot(SArr.of(P), b), None, None, None


def sp_solve(a, b, **k):
    if has_sym(a):
        raise Unsupported('solve symbolic matrix')
    return sym_dot(SArr.of(np.linalg.inv(plain(a))), b)


np_linalg_table = {
    'norm': d(np.linalg.norm), 'cond': d(np.linalg.cond), 'qr': d(np.linalg.qr), 'svd': d(np.linalg.svd),
    'lstsq': scipy_dispatch(np.linalg.lstsq, sp_lstsq), 'solve': scipy_dispatch(np.linalg.solve, sp_solve),
    'inv': scipy_dispatch(np.linalg.inv, None), 'pinv': scipy_dispatch(np.linalg.pinv, None),
}
np_linalg = Facade(np.linalg, np_linalg_table, 'np.linalg')
sp_linalg = Facade(scipy.linalg, {
    'norm': scipy_dispatch(scipy.linalg.norm, sp_norm),
    'qr': scipy_dispatch(scipy.linalg.qr, sym_qr),
    'solve_triangular': scipy_dispatch(scipy.linalg.solve_triangular, sym_solve_triangular),
    'svd': scipy_dispatch(scipy.linalg.svd, sym_svd),
    'lstsq': scipy_dispatch(scipy.linalg.lstsq, sp_lstsq),
    'solve': scipy_dispatch(scipy.linalg.solve, sp_solve),
    'inv': scipy_dispatch(scipy.linalg.inv, None),
    'diagsvd': scipy_dispatch(scipy.linalg.diagsvd, lambda s, M, N: sym_diagsvd(s, M, N)),
    'pinv': scipy_dispatch(scipy.linalg.pinv, None),
    'cholesky': scipy_dispatch(scipy.linalg.cholesky, None),
}, 'scipy.linalg')


def sym_diagsvd(s, M, N):
    a = f_zeros((M, N))
    for i, v in enumerate(asobj(s)):
        a[i, i] = v
    return a


sp_stats = Facade(scipy.stats, {'linregress': scipy_dispatch(scipy.stats.linregress, None)}, 'scipy.stats')
np_random = RandomStub()

np_table = {
    'zeros': f_zeros, 'ones': f_ones, 'empty': f_zeros, 'full': f_full, 'eye': f_eye, 'identity': f_eye, 'array': f_array,
    'asarray': f_asarray, 'asanyarray': f_asarray, 'ascontiguousarray': f_asarray, 'arange': f_arange,
    'linspace': f_linspace, 'linalg': np_linalg, 'random': np_random,
}
for _f in list(FUN) + list(STRUCT) + list(SHAPE) + [np.zeros_like, np.ones_like, np.empty_like, np.full_like]:
    nm = getattr(_f, '__name__', None)
    if nm and hasattr(np, nm) and getattr(np, nm) is _f and not isinstance(_f, np.ufunc):
        np_table.setdefault(nm, d(_f))
np_table['max'] = np_table['amax'] = d(np.max)
np_table['min'] = np_table['amin'] = d(np.min)


def f_ufunc(u):
    def g(*args, **kw):
        if has_sym(args) or any(isinstance(a, SArr) for a in args):
            return handle_ufunc(u, '__call__', args, kw)
        with np.errstate(all='ignore'):
            return wrap(u(*args, **kw))
    g.__name__ = u.__name__
    return g


class UfuncFacade(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if has_sym(args) or any(isinstance(a, SArr) for a in args):
            return handle_ufunc(self.u, '__call__', args, kw)
        with np.errstate(all='ignore'):
            return wrap(self.u(*args, **kw))

    def __getattr__(self, k):
        if k in ('reduce', 'outer'):
            return lambda *a, **kw: handle_ufunc(self.u, k, a, kw)
        return getattr(self.u, k)


for _u in list(UF) + list(UFB):
    np_table[_u.__name__] = UfuncFacade(_u)
np_table['abs'] = np_table['absolute']
np_table['divide'] = np_table['true_divide'] = UfuncFacade(np.true_divide)
np_facade = Facade(np, np_table, 'numpy')


def m_sqrt(x):
    if isinstance(x, SymReal):
        lt = x < 0
        if lt is not False and bool(lt):
            raise ValueError('math domain error')
        return sym_sqrt(x)
    if isinstance(x, SymFP):
        if x < 0:
            raise ValueError('math domain error')
        return s_sqrt(x)
    if isinstance(x, SArr):
        return m_sqrt(x.ravel()[0]) if x.size == 1 else math.sqrt(x)
    return math.sqrt(x)


def m_log(x, *b):
    if isinstance(x, SymReal):
        if x > 0:
            return LogExpr(1.0, x, None)
        raise ValueError('math domain error')
    if isinstance(x, Sym):
        raise Unsupported('log')
    return math.log(x, *b)


class SymCeil(object):
    """ceil(x) of a symbolic real: comparisons with integers are decided without fixing the value; any other use decides the value"""

    def __init__(self, x):
        self.x = x
        self.val = None

    def fix(self):
        if self.val is None:
            if getattr(self.x, 'd', None) is not None or Engine.cur.nl != 'exact':
                self.val = sym_ceil(self.x)
            else:
                self.val = -int(-self.x) if not force(self.x > 0) else None
                if self.val is None:
                    k = int(self.x)                     # floor of a positive number
                    self.val = k if force(self.x == k) else k + 1
        return self.val

    def _c(self, o, f):
        if self.val is not None or not isinstance(o, (int, float, np.number)):
            return f(self.fix(), o)
        k = math.floor(o)
        if f is operator.le:
            return force(self.x <= k)
        if f is operator.gt:
            return force(self.x > k)
        k = math.ceil(o) - 1
        if f is operator.lt:
            return force(self.x <= k)
        if f is operator.ge:
            return force(self.x > k)
        return f(self.fix(), o)

    __lt__ = lambda s, o: s._c(o, operator.lt)
    __le__ = lambda s, o: s._c(o, operator.le)
    __gt__ = lambda s, o: s._c(o, operator.gt)
    __ge__ = lambda s, o: s._c(o, operator.ge)
    __eq__ = lambda s, o: s._c(o, operator.eq)
    __ne__ = lambda s, o: s._c(o, operator.ne)
    __hash__ = None
    __index__ = __int__ = lambda s: s.fix()
    __float__ = lambda s: float(s.fix())
    __add__ = __radd__ = lambda s, o: s.fix() + o
    __mul__ = __rmul__ = lambda s, o: s.fix() * o
    __sub__ = lambda s, o: s.fix() - o
    __rsub__ = lambda s, o: o - s.fix()
    __truediv__ = lambda s, o: s.fix() / o
    __rtruediv__ = lambda s, o: o / s.fix()
    __neg__ = lambda s: -s.fix()


def m_ceil(x):
    if isinstance(x, SymReal):
        if Engine.cur.nl == 'exact':
            return SymCeil(x)
        return sym_ceil(x)
    if isinstance(x, Sym):
        raise Unsupported('ceil')
    return math.ceil(x)


def sym_ceil(x, lo=-50, hi=50):
    # fork over the integer value within a small range
    for k in range(lo, hi + 1):
        if force(x <= k):
            return k
    raise Unsupported('ceil range')


def m_isnan(x):
    if isinstance(x, Sym):
        return s_isnan(x)
    return math.isnan(x)


def m_isinf(x):
    if isinstance(x, Sym):
        return s_isinf(x)
    return math.isinf(x)


def m_isfinite(x):
    if isinstance(x, Sym):
        return s_isfinite(x)
    return math.isfinite(x)


def m_fabs(x):
    return s_abs(x) if isinstance(x, Sym) else math.fabs(x)


def m_hypot(*a):
    if has_sym(a):
        return sym_norm_exact(list(a))
    return math.hypot(*a)


def m_floor(x):
    if isinstance(x, SymReal):
        return -SymCeil(-x).fix() if Engine.cur.nl == 'exact' else -sym_ceil(-x)
    return math.floor(x)


math_table = {'sqrt': m_sqrt, 'log': m_log, 'ceil': m_ceil, 'isnan': m_isnan, 'isinf': m_isinf, 'isfinite': m_isfinite,
              'fabs': m_fabs, 'floor': m_floor, 'hypot': m_hypot}
math_facade = Facade(math, math_table, 'math')


# builtins that would otherwise fork on truth value / lose NaN order
def b_max(*args, **kw):
    seq = list(args[0]) if len(args) == 1 else list(args)
    if kw or not has_sym(seq):
        return builtins.max(*args, **kw)
    r = seq[0]
    for v in seq[1:]:
        r = py_max(r, v)
    return r


def b_min(*args, **kw):
    seq = list(args[0]) if len(args) == 1 else list(args)
    if kw or not has_sym(seq):
        return builtins.min(*args, **kw)
    r = seq[0]
    for v in seq[1:]:
        r = py_min(r, v)
    return r


def py_max(a, b):
    # python: b if b > a else a
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        c = (b > a) if isinstance(b, SymFP) else (a < b)
        if not isinstance(c, SymBool):
            return b if c else a
        return core.fp_ite(c, b, a)
    if isnanc(a):
        return a
    if isnanc(b):
        return a
    return sym_max(a, b)


def py_min(a, b):
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        c = (b < a) if isinstance(b, SymFP) else (a > b)
        if not isinstance(c, SymBool):
            return b if c else a
        return core.fp_ite(c, b, a)
    if isnanc(a):
        return a
    if isnanc(b):
        return a
    return sym_min(a, b)


def b_float_call(x=0.0):
    if isinstance(x, Sym):
        return x
    return builtins.float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, (SymReal, SymFP))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __call__(cls, x=0.0):
        return b_float_call(x)


class b_float(metaclass=_FloatMeta):
    """stand-in for builtins.float: keeps symbolic values; usable as a numpy dtype"""
    dtype = np.dtype(float)
    fromhex = builtins.float.fromhex


def b_abs(x):
    if isinstance(x, SymReal):
        return sym_abs(x)
    return builtins.abs(x)


def b_sum(seq, start=0):
    seq = list(seq)
    if not has_sym(seq):
        return builtins.sum(seq, start)
    r = start
    for v in seq:
        r = v + r if isinstance(v, Sym) else r + v
    return r


def flat_types(t):
    return sum([flat_types(k) for k in t], ()) if isinstance(t, tuple) else (t,)


def b_isinstance(x, t):
    if isinstance(x, core.SymInt):
        for k in flat_types(t):
            if k in (builtins.int, np.integer, object, numbers.Number, numbers.Real, numbers.Integral):
                return True
        return False
    if isinstance(x, (SymReal, SymFP)):
        for k in flat_types(t):
            if k in (builtins.float, np.floating, np.float64, object, b_float, numbers.Number, numbers.Real) or k is SymReal or k is SymFP:
                return True
        return builtins.isinstance(x, t)
    if t is b_float:
        t = builtins.float
    elif isinstance(t, tuple):
        t = tuple(builtins.float if k is b_float else k for k in flat_types(t))
    return builtins.isinstance(x, t)


def facade_for(v):
    """replacement for a module-global value, or None"""
    if v is np:
        return np_facade
    if v is np.linalg:
        return np_linalg
    if v is np.random:
        return np_random
    if v is scipy.linalg:
        return sp_linalg
    if v is scipy.stats:
        return sp_stats
    if v is math:
        return math_facade
    if isinstance(v, types.BuiltinFunctionType) and getattr(v, '__module__', None) == 'math':
        return math_table.get(v.__name__)
    if isinstance(v, np.ufunc):
        return np_table.get(v.__name__)
    if callable(v) and not isinstance(v, type) and getattr(v, '__module__', '') and str(v.__module__).startswith('numpy'):
        nm = getattr(v, '__name__', '')
        if nm in np_table and getattr(np, nm, None) is v:
            return np_table[nm]
        if nm in np_linalg_table and getattr(np.linalg, nm, None) is v:
            return np_linalg_table[nm]
    if callable(v) and not isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('scipy.linalg'):
        nm = getattr(v, '__name__', '')
        if nm in sp_linalg._table and getattr(scipy.linalg, nm, None) is v:
            return sp_linalg._table[nm]
    return None


BUILTIN_OVERRIDES = {'max': b_max, 'min': b_min, 'float': b_float, 'abs': b_abs, 'sum': b_sum, 'isinstance': b_isinstance}


def patch_module(mod):
    done = []
    for k, v in list(vars(mod).items()):
        if k.startswith('__'):
            continue
        r = facade_for(v)
        if r is not None:
            setattr(mod, k, r)
            done.append(k)
    for k, v in BUILTIN_OVERRIDES.items():
        if k not in vars(mod):
            setattr(mod, k, v)
    return done
