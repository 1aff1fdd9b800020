"""Stand-ins for the C modules the code under test calls."""
import math as _math
import sys
import types
from fractions import Fraction

from . import core, symdt
from .core import SymBool, SymInt, SymReal, is_sym


def _sym_in(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_sym_in(i) for i in x)
    return False


# ------------------------------------------------------------ builtin calls
def sx_float(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymReal:
            return x
        if t is SymInt:
            return x.real()
        if isinstance(x, str) and core.E is not None:
            v = core.E.from_token(x)
            if v is not None:
                return v.real() if type(v) is SymInt else v
        import numpy
        if isinstance(x, numpy.ndarray) and x.size == 1:
            return sx_float(x.item())
    return float(*a)


def sx_int(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymReal:
            return core.trunc(x)
        if isinstance(x, str) and core.E is not None:
            v = core.E.from_token(x)
            if v is not None:
                if type(v) is SymInt:
                    return v
                raise ValueError('invalid literal for int(): %r' % x)
    return int(*a)


def sx_type(x):
    t = type(x)
    if t is SymReal:
        return float
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if hasattr(t, '__sx_as__'):
        return t.__sx_as__
    if t in symdt.TYPES:
        return symdt.type_of(x, t)
    return t


# --------------------------------------------------------------------- math
def _math_module():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in vars(_math).items()
                       if not k.startswith('__')})

    def un(name, sym):
        real = getattr(_math, name)

        def f(x, *rest):
            if is_sym(x) or any(is_sym(r) for r in rest):
                return sym(core.as_real(x), *rest)
            return real(x, *rest)
        f.__name__ = name
        setattr(m, name, f)

    def log(x, base=None):
        r = core.E.fn('log', x)
        if base is not None:
            b = core.E.fn('log', core.as_real(base))
            return r / b
        return r
    un('log', log)
    un('log10', lambda x: core.E.fn('log10', x))
    un('log2', lambda x: core.E.fn('log', x) / _math.log(2))
    un('log1p', lambda x: core.E.fn('log', 1 + x))
    un('exp', lambda x: core.E.fn('exp', x))
    un('expm1', lambda x: core.E.fn('exp', x) - 1)
    un('sqrt', lambda x: core.E.fn('sqrt', x))
    un('cos', lambda x: core.E.fn('cos', x))
    un('sin', lambda x: core.E.fn('sin', x))
    un('tan', lambda x: core.E.fn('tan', x))
    un('fabs', lambda x: abs(x))
    un('floor', lambda x: core.floor(x))
    un('ceil', lambda x: -core.floor(-x))
    un('trunc', lambda x: core.trunc(x))
    un('radians', lambda x: x * (_math.pi / 180.0))
    un('degrees', lambda x: x * (180.0 / _math.pi))
    un('isnan', lambda x: False)
    un('isinf', lambda x: False)
    un('isfinite', lambda x: True)

    def pow_(a, b):
        if is_sym(a) or is_sym(b):
            return core.E.power(core._coerce(a), core._coerce(b))
        return _math.pow(a, b)
    m.pow = pow_

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if _sym_in(xs) else _math.fsum(xs)
    m.fsum = fsum

    def prod(xs, *, start=1):
        xs = list(xs)
        r = start
        for x in xs:
            r = r * x
        return r
    m.prod = prod

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            d = abs(a - b)
            if bool(d <= abs_tol):
                return True
            return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.isclose = isclose

    def hypot(*a):
        if _sym_in(a):
            return core.E.fn('sqrt', sum(x * x for x in a))
        return _math.hypot(*a)
    m.hypot = hypot

    def modf(x):
        if is_sym(x):
            i = core.trunc(x)
            return x - i, i * 1.0
        return _math.modf(x)
    m.modf = modf

    def copysign(a, b):
        if is_sym(a) or is_sym(b):
            return abs(a) if bool(b >= 0) else -abs(a)
        return _math.copysign(a, b)
    m.copysign = copysign
    return m


# -------------------------------------------------------------------- numpy
class _NumpyShim(types.ModuleType):
    def __getattr__(self, k):
        import numpy
        return getattr(numpy, k)


def _obj(a):
    """Float and int arrays become object arrays so they can hold terms."""
    import numpy
    if isinstance(a, numpy.ndarray) and a.dtype.kind in 'fiu':
        return a.astype(object)
    return a


def _dt(kw):
    import numpy
    d = kw.get('dtype')
    if d is None:
        return kw
    if d in (float, int, sx_float, sx_int, numpy.float64, numpy.float32,
             'float', 'float64', 'f8', 'd'):
        kw = dict(kw)
        kw['dtype'] = object
    return kw


def _numpy_module():
    import numpy
    m = _NumpyShim('numpy')

    def creator(name):
        real = getattr(numpy, name)

        def f(*a, **kw):
            kw = _dt(kw)
            a = [object if x in (sx_float, sx_int) else x
                 for x in a] if any(x is sx_float or x is sx_int
                                    for x in a) else a
            if name in ('zeros', 'ones', 'empty', 'full') and \
                    kw.get('dtype') is object:
                kw = {k: v for k, v in kw.items() if k != 'dtype'}
            r = _obj(real(*a, **kw))
            if name == 'empty':
                r = r * 0.0
            return r
        f.__name__ = name
        setattr(m, name, f)

    for n in ('zeros', 'ones', 'full', 'empty', 'array', 'asarray', 'append',
              'concatenate', 'copy', 'zeros_like', 'ones_like', 'full_like',
              'linspace', 'arange', 'fromiter', 'hstack', 'vstack', 'insert',
              'delete', 'asfarray', 'atleast_1d', 'ascontiguousarray',
              'loadtxt', 'genfromtxt', 'cumsum', 'cumprod', 'diff', 'repeat',
              'tile', 'eye', 'identity'):
        if hasattr(numpy, n):
            creator(n)

    def ewise(name, sym, real=None):
        real = real or getattr(numpy, name)

        def one(x):
            return sym(x) if is_sym(x) else real(float(x))

        def f(x, *a, **kw):
            if is_sym(x):
                return one(x)
            arr = numpy.asarray(x)
            if arr.dtype == object:
                if arr.ndim == 0:
                    return one(arr.item())
                r = numpy.empty(arr.shape, dtype=object)
                for i in numpy.ndindex(arr.shape):
                    r[i] = one(arr[i])
                if name in ('isnan', 'isinf', 'isfinite'):
                    return r.astype(bool)
                return r
            return real(x, *a, **kw)
        f.__name__ = name
        setattr(m, name, f)
    for n in ('exp', 'log', 'log10', 'sqrt', 'cos', 'sin', 'tan'):
        ewise(n, lambda x, n=n: core.E.fn(n, core.as_real(x)))
    ewise('isnan', lambda x: False)
    ewise('isinf', lambda x: False)
    ewise('isfinite', lambda x: True)
    for n in ('abs', 'absolute', 'fabs'):
        ewise(n, lambda x: abs(x))
    ewise('floor', lambda x: core.floor(x) * 1.0)
    ewise('ceil', lambda x: -core.floor(-x) * 1.0)
    ewise('radians', lambda x: x * (_math.pi / 180.0))
    ewise('deg2rad', lambda x: x * (_math.pi / 180.0))
    ewise('degrees', lambda x: x * (180.0 / _math.pi))
    ewise('square', lambda x: x * x)
    ewise('sign', lambda x: 1.0 if x > 0 else (-1.0 if x < 0 else 0.0))
    ewise('nan_to_num', lambda x: x)

    def scalar(x):
        if type(x) is Fraction:
            return float(x)
        return x

    def polyval(p, x):
        r = 0.0
        for c in p:
            r = r * x + c
        return r
    m.polyval = polyval

    def polyfit(x, y, deg, *a, **kw):
        """Least squares with symbolic ordinates: linear in them."""
        ys = list(y)
        if not _sym_in(ys) or a or kw:
            return numpy.polyfit(x, [float(v) for v in ys], deg, *a, **kw)
        xs = numpy.array([float(v) for v in x])
        p = numpy.array([numpy.polyfit(xs, row, deg)
                         for row in numpy.eye(len(xs))])
        r = numpy.empty(deg + 1, dtype=object)
        for j in range(deg + 1):
            r[j] = sum(float(p[i, j]) * ys[i] for i in range(len(ys)))
        return r
    m.polyfit = polyfit

    def clip(x, lo, hi):
        if is_sym(x):
            if lo is not None and bool(x < lo):
                return lo
            if hi is not None and bool(x > hi):
                return hi
            return x
        return numpy.clip(x, lo, hi)
    m.clip = clip

    def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
        if is_sym(a) or is_sym(b):
            return bool(abs(a - b) <= atol + rtol * abs(b))
        a_, b_ = numpy.broadcast_arrays(numpy.asarray(a), numpy.asarray(b))
        if a_.dtype == object or b_.dtype == object:
            r = numpy.zeros(a_.shape, dtype=bool)
            for i in numpy.ndindex(a_.shape):
                r[i] = bool(abs(a_[i] - b_[i]) <= atol + rtol * abs(b_[i]))
            return r
        return numpy.isclose(a, b, rtol, atol, **kw)
    m.isclose = isclose
    m.allclose = lambda a, b, rtol=1e-5, atol=1e-8, **kw: \
        bool(numpy.all(isclose(a, b, rtol, atol)))

    def power(a, b):
        return a ** b
    m.power = power

    def where(c, *a):
        if is_sym(c) and len(a) == 2:
            return a[0] if bool(c) else a[1]
        return numpy.where(c, *a)
    m.where = where

    def float64(x=0.0):
        return sx_float(x)
    return m


# ------------------------------------------------------------ scipy.optimize
def _optimize_module():
    import scipy.optimize as so
    m = _NumpyShim('scipy.optimize')
    m.__dict__['__getattr__'] = None
    for k in dir(so):
        if not k.startswith('__'):
            setattr(m, k, getattr(so, k))

    class Result:
        pass

    def solution(fun, args, array):
        """Contract of a converged solver: some x with fun(x) == 0."""
        import numpy
        import z3
        E = core.E
        E.approx.add('root')
        v = z3.Real('root!%d' % len(E.fns))
        E.fns[('root', v.get_id())] = v
        E.keep.append(v)
        x = SymReal(v)
        E.add(v > 0)
        arr = numpy.array([x], dtype=object)
        if not isinstance(args, tuple):
            args = (args,)
        y = fun(arr if array else x, *args)
        if isinstance(y, (list, tuple, numpy.ndarray)):
            y = numpy.asarray(y, dtype=object).ravel()[0]
        if is_sym(y):
            E.assume(y == 0.0)
        return arr

    def root(fun, x0, args=(), **kw):
        import numpy
        if core.E is None:
            return so.root(fun, x0, args=args, **kw)
        r = Result()
        r.x = solution(fun, args, True)
        r.success = True
        r.fun = numpy.array([0.0], dtype=object)
        r.message = ''
        return r
    m.root = root

    def fsolve(fun, x0, args=(), **kw):
        if core.E is None:
            return so.fsolve(fun, x0, args=args, **kw)
        return solution(fun, args, True)
    m.fsolve = fsolve

    def newton(fun, x0, fprime=None, args=(), **kw):
        if core.E is None:
            return so.newton(fun, x0, fprime, args, **kw)
        return solution(fun, args, False)[0]
    m.newton = newton

    def bracketed(name):
        def f(fun, a, b, args=(), **kw):
            if core.E is None:
                return getattr(so, name)(fun, a, b, args=args, **kw)
            x = solution(fun, args, False)[0]
            core.E.assume(x >= a)
            core.E.assume(x <= b)
            return x
        return f
    for k in ('brentq', 'brenth', 'bisect', 'ridder'):
        setattr(m, k, bracketed(k))

    def root_scalar(fun, args=(), **kw):
        if core.E is None:
            return so.root_scalar(fun, args, **kw)
        r = Result()
        r.root = solution(fun, args, False)[0]
        r.converged = True
        return r
    m.root_scalar = root_scalar
    return m


def _datetime_module():
    import datetime
    m = types.ModuleType('datetime')
    m.__dict__.update({k: v for k, v in vars(datetime).items()
                       if not k.startswith('__')})
    m.timedelta = symdt.timedelta
    m.datetime = symdt.datetime
    return m


def _relativedelta_module():
    import dateutil.relativedelta as rd
    m = types.ModuleType('dateutil.relativedelta')
    m.__dict__.update({k: v for k, v in vars(rd).items()
                       if not k.startswith('__')})
    m.relativedelta = symdt.relative_class()
    return m


_cache = {}


def _once(name, mk):
    def get():
        if name not in _cache:
            _cache[name] = mk()
        return _cache[name]
    return get


MODULES = {
    'math': _once('math', _math_module),
    'numpy': _once('numpy', _numpy_module),
    'datetime': _once('datetime', _datetime_module),
    'dateutil.relativedelta': _once('dateutil.relativedelta',
                                    _relativedelta_module),
    'scipy.optimize': _once('scipy.optimize', _optimize_module),
}
