"""Symbolic values, path exploration and solver queries.

A check runs the *real* source of /repo with proxy objects in place of
numbers.  Every arithmetic operation builds a z3 term, every branch on a
symbolic condition asks z3 which sides are feasible, and every assertion of
the property becomes a query `path condition AND NOT assertion`.

Python floats are modelled by exact real numbers: rounding error is outside
the claim (every counterexample is replayed on IEEE doubles before it is
reported).
"""
import math
import random
import sys
import time
from fractions import Fraction

import z3

from . import interval, poly

sys.set_int_max_str_digits(0)       # exact fractions get long

z3.set_param('model.completion', True)


class PathAbort(BaseException):
    """The path is infeasible (a failed assumption)."""


class Unsupported(BaseException):
    """The engine cannot represent an operation symbolically."""


class BudgetExceeded(BaseException):
    """The path exceeded its decision or time budget."""


E = None            # the current Engine


def frac(x):
    """The rational number a concrete Python number stands for."""
    t = type(x)
    if t is Fraction:
        return x
    if t is int or t is bool:
        return Fraction(x)
    if isinstance(x, float):
        # The shortest decimal that denotes the double, as it was written.
        return Fraction(repr(float(x)))
    try:
        import numpy
        if isinstance(x, numpy.integer):
            return Fraction(int(x))
        if isinstance(x, numpy.floating):
            return Fraction(repr(float(x)))
        if isinstance(x, numpy.bool_):
            return Fraction(int(x))
    except ImportError:
        pass
    raise TypeError('not a number: %r' % (x,))


def rv(f):
    f = Fraction(f)
    return z3.RealVal(str(f.numerator) + ('/' + str(f.denominator)
                                          if f.denominator != 1 else ''))


def is_sym(x):
    t = type(x)
    return t is SymReal or t is SymInt or t is SymBool


def is_num(x):
    """A concrete Python/numpy number (finite or not)."""
    t = type(x)
    if t is float or t is int or t is bool or t is Fraction:
        return True
    if is_sym(x):
        return False
    import numbers
    import numpy
    return isinstance(x, (numbers.Real, numpy.integer, numpy.floating,
                          numpy.bool_))


def is_weird(x):
    """nan or infinity."""
    try:
        return isinstance(x, float) and (math.isnan(x) or math.isinf(x))
    except Exception:
        return False


class Registry:
    """Keeps z3 terms alive and gives each a stable index."""

    def __init__(self):
        self.by_id = {}
        self.terms = []

    def key(self, t):
        i = t.get_id()
        if i in self.by_id:
            return self.by_id[i]
        k = len(self.terms)
        self.by_id[i] = k
        self.terms.append(t)
        return k


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)


def _pow_term(t, k):
    r = t
    for _ in range(k - 1):
        r = r * t
    return r


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.decide(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, _bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, _bt(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if is_sym(o) or isinstance(o, bool):
            return SymBool(self.t == _bt(o))
        return bool(self) == o

    def __ne__(self, o):
        if is_sym(o) or isinstance(o, bool):
            return SymBool(self.t != _bt(o))
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return str(bool(self))


def _bt(o):
    if type(o) is SymBool:
        return o.t
    if is_sym(o):
        return o.__ne__(0).t
    return z3.BoolVal(bool(o))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _cmp_weird(op, o):
    """x <op> o for finite symbolic x and nan/inf o."""
    if math.isnan(o):
        return op == 'ne'
    pos = o > 0
    return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
            'eq': False, 'ne': True}[op]


class SymReal:
    """n / prod(factor**power): an exact rational function of the inputs."""
    __slots__ = ('n', 'd', 'dot', '_t', 'logof')

    def __init__(self, n, d=None, dot=None):
        self.n = n
        self.d = d or {}       # registry key -> (term, power)
        self.dot = dot         # derivative (SymReal / number) or None
        self._t = None
        self.logof = None        # (base, x) of a value that is log(x)

    # ---- representation -------------------------------------------------
    @property
    def __class__(self):
        return float

    @property
    def t(self):
        if self._t is None:
            if not self.d:
                self._t = self.n
            else:
                self._t = self.n / self.den()
        return self._t

    def den(self):
        r = None
        for k in sorted(self.d):
            f, p = self.d[k]
            q = _pow_term(f, p)
            r = q if r is None else r * q
        return ONE if r is None else r

    def primal(self):
        return self if self.dot is None else SymReal(self.n, self.d)

    def numeral(self):
        """Fraction if the value is a literal, else None."""
        if self.d:
            return None
        if z3.is_rational_value(self.n):
            return self.n.as_fraction()
        s = z3.simplify(self.n)
        if z3.is_rational_value(s):
            self.n = s
            return s.as_fraction()
        return None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return E.token_for(self)

    __str__ = __repr__

    def __format__(self, spec):
        return E.token_for(self)

    def __hash__(self):
        # One hash for every symbolic number: sets and dictionaries then
        # decide with ==, as a choice of path.
        c = self.numeral()
        return hash(float(c)) if c is not None else 0x5ee0

    def __reduce__(self):
        raise Unsupported('pickling a symbolic number')

    # ---- conversions ----------------------------------------------------
    def __float__(self):
        c = self.numeral()
        if c is not None:
            return float(c)
        return E.concretise(self)

    def __int__(self):
        return int(trunc(self))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            # Banker's rounding differs only on exact halves.
            return floor(self + Fraction(1, 2))
        k = 10 ** nd
        return SymReal(z3.ToReal((floor(self * k + Fraction(1, 2))).t)) / k

    def __bool__(self):
        return bool(self != 0)

    # ---- numpy object-ufunc protocol ------------------------------------
    def exp(self):
        return E.fn('exp', self)

    def log(self):
        return E.fn('log', self)

    def log10(self):
        return E.fn('log10', self)

    def sqrt(self):
        return E.fn('sqrt', self)

    def cos(self):
        return E.fn('cos', self)

    def sin(self):
        return E.fn('sin', self)

    def tan(self):
        return E.fn('tan', self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        return self == floor(self)

    # ---- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is not SymReal:
            if type(o) is float:          # nan / inf
                return o
            if o == 0:
                return self
            n = self.n + rv(o) * self.den() if self.d else self.n + rv(o)
            return SymReal(n, self.d, self.dot)
        d, ma, mb = _lcm(self.d, o.d)
        na = self.n if ma is None else self.n * ma
        nb = o.n if mb is None else o.n * mb
        dot = None
        if self.dot is not None or o.dot is not None:
            dot = _z(self.dot) + _z(o.dot)
        n, d = reduced(na + nb, d)
        return SymReal(n, d, dot)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.n, self.d, None if self.dot is None
                       else -self.dot)

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.numeral()
        if c is not None:
            return abs(float(c))
        if bool(self >= 0):
            return self
        return -self

    fabs = __abs__

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is not SymReal:
            if type(o) is float:
                if math.isnan(o):
                    return o
                raise Unsupported('multiplication by infinity')
            if o == 0:
                return 0.0
            if o == 1:
                return self
            return SymReal(self.n * rv(o), self.d,
                           None if self.dot is None else self.dot * o)
        na, nb, d = self.n, o.n, dict(self.d)
        for k, (f, p) in o.d.items():
            d[k] = (f, d[k][1] + p) if k in d else (f, p)
        ka, kb = E.reg.key(na), E.reg.key(nb)
        if ka in d:
            na = ONE
            d = _dec(d, ka)
        if kb in d:
            nb = ONE
            d = _dec(d, kb)
        n = nb if na is ONE else (na if nb is ONE else na * nb)
        dot = None
        if self.dot is not None or o.dot is not None:
            dot = _z(self.dot) * o.primal() + self.primal() * _z(o.dot)
        return SymReal(n, d, dot)

    __rmul__ = __mul__

    def inverse(self):
        """1/self; the caller has dealt with zero."""
        c = self.numeral()
        if c is not None:
            return SymReal(rv(1 / c))
        num = self.den() if self.d else ONE
        # Split products so that common factors can cancel.
        coef = Fraction(1)
        d = {}
        for f in monomials(_factors(self.n)):
            q, f = content(f)
            coef *= q
            if z3.is_rational_value(f):
                coef *= f.as_fraction()
                continue
            k = E.reg.key(f)
            d[k] = (f, d[k][1] + 1) if k in d else (f, 1)
        if coef != 1:
            num = rv(1 / coef) if num is ONE else rv(1 / coef) * num
        return SymReal(num, d)

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is not SymReal:
            if type(o) is float:
                return 0.0 if math.isinf(o) else o
            if o == 0:
                raise ZeroDivisionError('float division by zero')
            return self * (1 / o)
        if bool(o == 0):
            raise ZeroDivisionError('float division by zero')
        r = self.primal() * o.primal().inverse()
        if self.dot is None and o.dot is None:
            return r
        dot = (_z(self.dot) - r * _z(o.dot)) * o.primal().inverse()
        return SymReal(r.n, r.d, dot)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if math.isnan(o):
                return o
            raise Unsupported('infinity divided by a symbolic number')
        return as_real(o).__truediv__(self)

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(floor(self / o).t))

    def __rfloordiv__(self, o):
        return SymReal(z3.ToReal(floor(as_real(o) / self).t))

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return as_real(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, e, mod=None):
        e = _coerce(e)
        if e is NotImplemented:
            return e
        return E.power(self, e)

    def __rpow__(self, b):
        b = _coerce(b)
        if b is NotImplemented:
            return b
        return E.power(b, self)

    # ---- comparison -----------------------------------------------------
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return _cmp_weird(op, o)
        if self.logof is not None:
            # a logarithm is monotonic: compare its argument
            base, x = self.logof
            c = o.numeral() if type(o) is SymReal else Fraction(o)
            if c is not None and abs(c) < 300:
                if c.denominator == 1 and base == 10:
                    y = Fraction(10) ** int(c)
                else:
                    y = Fraction(math.exp(float(c)) if base != 10 else
                                 10.0 ** float(c))
                return x._cmp(y, op)
            if type(o) is SymReal and o.logof is not None and o.logof[0] == base:
                return x._cmp(o.logof[1], op)
        elif type(o) is SymReal and o.logof is not None and \
                self.numeral() is not None:
            return o._cmp(self, {'lt': 'gt', 'gt': 'lt', 'le': 'ge',
                                 'ge': 'le'}.get(op, op))
        if type(o) is Fraction and self.d and op not in ('eq', 'ne'):
            return self._threshold(o, op)
        return self._cmp1(o, op)

    def _threshold(self, c, op):
        """x <op> c, unless what is known of x on this path settles it."""
        if E is None:
            return self._cmp1(c, op)
        k = (E.reg.key(self.n),
             tuple(sorted((a, p) for a, (_, p) in self.d.items())))
        seen = E.compared.setdefault(k, [])
        for c2, op2, t in seen:
            v = E.recall(t)
            if v is None:
                continue
            if not v:
                op2 = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[op2]
            if op2 in ('lt', 'le'):
                if c2 < c or c2 == c and (op2 == 'lt' or op in ('le', 'gt')):
                    return op in ('lt', 'le')
            elif c2 > c or c2 == c and (op2 == 'gt' or op in ('ge', 'lt')):
                return op in ('gt', 'ge')
        r = self._cmp1(c, op)
        if type(r) is SymBool:
            seen.append((c, op, r.t))
        return r

    def _cmp1(self, o, op):
        if op in ('eq', 'ne'):
            diff = self.primal() - (o.primal() if type(o) is SymReal else o)
            if type(diff) is not SymReal:
                t = z3.BoolVal(diff == 0)
            else:
                t = expand(diff.n) == 0
            return mkbool(t if op == 'eq' else z3.Not(t))
        if self.d or (type(o) is SymReal and o.d):
            diff = self.primal() - (o.primal() if type(o) is SymReal else o)
            if type(diff) is not SymReal:
                a, b = rv(diff), ZERO
            elif all(p % 2 == 0 or E.positive(f) for f, p in diff.d.values()):
                a, b = expand(diff.n), ZERO
            else:
                a, b = diff.t, ZERO
        else:
            a = self.n
            b = o.n if type(o) is SymReal else rv(o)
            a, b = expand(a - b), ZERO
        if op == 'lt':
            return mkbool(a < b)
        if op == 'le':
            return mkbool(a <= b)
        if op == 'gt':
            return mkbool(a > b)
        return mkbool(a >= b)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return r

    def __ne__(self, o):
        return self._cmp(o, 'ne')


class SymInt:
    """A symbolic Python int (a mathematical integer, as in Python)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return E.token_for(self)

    __str__ = __repr__

    def __format__(self, spec):
        return E.token_for(self)

    def __hash__(self):
        return hash(E.pick_int(self))

    def __index__(self):
        return E.pick_int(self)

    __int__ = __index__

    def __float__(self):
        return float(E.pick_int(self))

    def __bool__(self):
        return bool(self != 0)

    def real(self):
        return SymReal(z3.ToReal(self.t))

    def is_integer(self):
        return True

    def _bin(self, o, f, g):
        if type(o) is SymInt:
            return SymInt(f(self.t, o.t))
        if isinstance(o, bool) or type(o) is int:
            return SymInt(f(self.t, z3.IntVal(int(o))))
        c = _coerce(o)
        if c is NotImplemented:
            return c
        return g(self.real(), o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        return self.real() / (o.real() if type(o) is SymInt else o)

    def __rtruediv__(self, o):
        return o / self.real()

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.t / z3.IntVal(o))
        if type(o) in (int, SymInt):
            o = E.pick_int(o) if type(o) is SymInt else o
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return SymInt(self.t / z3.IntVal(o))
            return SymInt((-self.t) / z3.IntVal(-o))
        return self.real() // o

    def __rfloordiv__(self, o):
        return o // E.pick_int(self)

    def __mod__(self, o):
        if type(o) in (int, SymInt):
            return self - (self // o) * o
        return self.real() % o

    def __rmod__(self, o):
        return o % E.pick_int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, e, mod=None):
        return E.power(self.real(), _coerce(e))

    def __rpow__(self, b):
        return E.power(_coerce(b), self.real())

    def _cmp(self, o, op):
        if type(o) is SymInt or type(o) is int or isinstance(o, bool):
            b = o.t if type(o) is SymInt else z3.IntVal(int(o))
            a = self.t
            return mkbool({'lt': a < b, 'le': a <= b, 'gt': a > b,
                           'ge': a >= b, 'eq': a == b, 'ne': a != b}[op])
        return self.real()._cmp(o, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


def expand(t):
    """The normal form of t, unless it is too large for one."""
    if t.num_args() == 0:
        return t
    try:
        return E.space.term(E.space.poly(t))
    except poly.TooLarge:
        return t


def content(t):
    """Split a polynomial into a positive number and a monic rest."""
    try:
        q, p = poly.content(E.space.poly(t))
    except poly.TooLarge:
        return Fraction(1), t
    if q == 1:
        return q, E.space.term(p)
    return q, E.space.term(p)


def reduced(n, d):
    """n/d with the factors of d that divide n cancelled."""
    if not d:
        return n, d
    try:
        p = E.space.poly(n)
    except poly.TooLarge:
        return n, d
    if not p:
        return ZERO, {}
    changed = False
    for k in sorted(d):
        while k in d:
            try:
                f = E.space.poly(d[k][0])
            except poly.TooLarge:
                break
            q = poly.divide(p, f)
            if q is None:
                break
            p, d = q, _dec(d, k)
            changed = True
    return E.space.term(p), d


def _z(x):
    return 0 if x is None else x


def _factors(n):
    if z3.is_mul(n):
        r = []
        for c in n.children():
            r.extend(_factors(c))
        return r
    return [n]


def monomials(fs):
    """The factors, common powers of single atoms split off."""
    r = []
    for f in fs:
        if not z3.is_add(f):
            r.append(f)
            continue
        try:
            p = E.space.poly(f)
        except poly.TooLarge:
            r.append(f)
            continue
        g = poly.common(p)
        if not g:
            r.append(f)
            continue
        for k, e in g:
            r.extend([E.space.atoms[k]] * e)
        r.append(E.space.term({poly.mono_div(m, g): c for m, c in p.items()}))
    return r


def _dec(d, k):
    d = dict(d)
    f, p = d[k]
    if p == 1:
        del d[k]
    else:
        d[k] = (f, p - 1)
    return d


def _lcm(a, b):
    if a == b or not a and not b:
        return a, None, None
    d = dict(a)
    for k, (f, p) in b.items():
        if k not in d or d[k][1] < p:
            d[k] = (f, p)

    def missing(x):
        r = None
        for k in sorted(d):
            f, p = d[k]
            q = p - (x[k][1] if k in x else 0)
            if q:
                u = _pow_term(f, q)
                r = u if r is None else r * u
        return r
    return d, missing(a), missing(b)


def _coerce(o):
    """SymReal, Fraction, float nan/inf, or NotImplemented."""
    t = type(o)
    if t is SymReal:
        return o
    if t is float or t is int or t is Fraction or t is bool:
        if t is float and (math.isnan(o) or math.isinf(o)):
            return o
        return frac(o)
    if t is SymInt:
        return o.real()
    if t is SymBool:
        return Fraction(int(bool(o)))
    if is_num(o):
        o = float(o) if not isinstance(o, int) else int(o)
        return _coerce(o)
    return NotImplemented


def as_real(x):
    x = _coerce(x)
    if type(x) is SymReal:
        return x
    if x is NotImplemented or type(x) is float:
        raise Unsupported('not a finite number: %r' % (x,))
    return SymReal(rv(x))


def floor(x):
    if type(x) is SymInt:
        return x
    c = x.numeral()
    if c is not None:
        return math.floor(c)
    return SymInt(z3.ToInt(x.t))


def trunc(x):
    if type(x) is SymInt:
        return x
    c = x.numeral()
    if c is not None:
        return math.trunc(c)
    if bool(x >= 0):
        return floor(x)
    return -floor(-x)


class Point:
    """Inputs found by evaluation, in the place of a model."""

    def __init__(self, eng, sub):
        self.eng, self.sub = eng, sub
        self.full, self.n = None, -1

    def eval(self, t, model_completion=True):
        if self.n != len(self.eng.fdefs):
            self.full = self.eng.fn_values(self.sub)
            self.n = len(self.eng.fdefs)
        if self.full is None:
            return t
        return z3.simplify(z3.substitute(t, *self.full)) if self.full else t


# ------------------------------------------------------------------- engine
class Engine:
    """One path of one scenario."""

    def __init__(self, prefix=(), feas_ms=4000, query_ms=20000,
                 max_decisions=4000, deadline=None, seed=1):
        self.prefix = list(prefix)
        self.trace = []             # decisions taken on this path
        self.pending = []           # alternative prefixes
        self.reg = Registry()
        self.pc = []
        self.bounds = interval.Bounds()
        self.solver = z3.Solver()
        self.feas_ms = feas_ms
        self.query_ms = query_ms
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.known = {}
        self.space = poly.Space()
        self.model = None
        self.tokens = {}
        self.token_by_key = {}
        self.tokseq = 0
        self.fns = {}
        self.fn_list = {}
        self.exps = []
        self.fdefs = []
        self.axioms = set()
        self.keep = []
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.concretised = []
        self.unknown_feas = 0
        self.approx = set()
        self.rng = random.Random(seed)
        self.inputs = {}            # name -> ('real'|'int'|'choice', term/idx)
        self.sampler = None         # finds inputs by evaluation
        self.in_axiom = False
        self.compared = {}          # value -> [(constant, op, condition)]
        self.stats = {'simplified': 0, 'unsat': 0, 'sat': 0, 'unknown': 0}

    # ---- solver ---------------------------------------------------------
    def add(self, t):
        self.pc.append(t)
        self.bounds.learn(t)
        self.solver.add(t)
        if self.model is not None and not (
                self.in_axiom and type(self.model) is Point):
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def feasible(self, cond):
        """(may cond hold on this path?, a model where it does or None)"""
        r = self.check(cond, light=True)
        if r == z3.unknown:
            p = self.sampler([cond]) if self.sampler is not None else None
            if p is not None:
                return True, Point(self, p)
            r = self.check(cond)
        if r == z3.unknown:
            self.unknown_feas += 1
        return r != z3.unsat, self.last_model

    def check(self, *extra, ms=None, light=False):
        """sat/unsat/unknown of pc and extra; keeps the model on sat."""
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded('time')
        t0 = time.time()
        self.queries += 1
        ms = ms or self.feas_ms
        self.last_model = None
        self.solver.set('timeout', 300 if light else int(min(ms, 1500)))
        self.solver.push()
        try:
            if extra:
                self.solver.add(*extra)
            r = self.solver.check()
            if r == z3.sat:
                self.last_model = self.solver.model()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.pop()
        if r == z3.unknown and not light:
            for mk in (lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith',
                                       'simplify', 'qfnra-nlsat'),
                       lambda: z3.Tactic('qfnra-nlsat'),
                       lambda: z3.Tactic('smt')):
                s = mk().solver()
                s.set('timeout', int(ms))
                s.add(*self.pc)
                s.add(*extra)
                try:
                    r = s.check()
                    if r == z3.sat:
                        self.last_model = s.model()
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown:
                    break
        self.solver_s += time.time() - t0
        return r

    # ---- decisions ------------------------------------------------------
    def recall(self, cond):
        """The truth of a condition this path has decided, else None."""
        c = z3.simplify(cond)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        neg = z3.is_not(c)
        v = self.known.get((c.arg(0) if neg else c).get_id())
        return v if v is None or not neg else not v

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        base = c.arg(0) if neg else c
        i = base.get_id()
        if i in self.known:
            v = self.known[i]
            return (not v) if neg else v
        v = self.bounds.truth(c)
        if v is not None:
            self.known[i] = (not v) if neg else v
            self.keep.append(base)
            return v
        pos = len(self.trace)
        if pos >= self.max_decisions:
            raise BudgetExceeded('decisions')
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if type(v) is not bool:
                raise Unsupported('re-execution diverged')
        else:
            mt = mf = None
            if self.model is not None:
                try:
                    e = self.model.eval(c, model_completion=True)
                    if z3.is_true(e):
                        mt = True
                    elif z3.is_false(e):
                        mf = True
                except z3.Z3Exception:
                    pass
            model_t = model_f = None
            if mt is None:
                mt, model_t = self.feasible(c)
            if mf is None:
                mf, model_f = self.feasible(z3.Not(c))
            if mt and mf:
                self.forks += 1
                v = True
                self.pending.append(list(self.trace) + [False])
                if model_t is not None:
                    self.model = model_t
            elif mt:
                v = True
                self.model = model_t or self.model
            elif mf:
                v = False
                self.model = model_f or self.model
            else:
                raise PathAbort('infeasible path')
        self.trace.append(v)
        self.known[i] = (not v) if neg else v
        self.keep.append(base)
        self.add(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """A nondeterministic choice in range(n)."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = int(self.prefix[pos])
        else:
            v = 0
            self.forks += n - 1
            for k in range(n - 1, 0, -1):
                self.pending.append(list(self.trace) + [k])
        self.trace.append(v)
        return v

    def pick_int(self, x):
        """Enumerate the values of a symbolic integer by forking."""
        s = z3.simplify(x.t)
        if z3.is_int_value(s):
            return s.as_long()
        # Deterministic under re-execution: ask for the smallest values first.
        for _ in range(400):
            pos = len(self.trace)
            if pos < len(self.prefix):
                v = self.prefix[pos]
                # a recorded candidate: ['v', value, taken]
                _, val, taken = v
                self.trace.append(v)
                if taken:
                    self.add(s == val)
                    return val
                self.add(s != val)
                continue
            if self.check() != z3.sat:
                if self.last_model is None:
                    raise PathAbort('infeasible path')
            val = self.last_model.eval(s, model_completion=True).as_long()
            if self.check(s != val) != z3.unsat:
                self.forks += 1
                self.pending.append(list(self.trace) + [['v', val, False]])
            self.trace.append(['v', val, True])
            self.add(s == val)
            self.model = None
            return val
        raise Unsupported('too many integer values')

    def concretise(self, x):
        """A C function wants a real double: fix one value (incomplete)."""
        t = x.t if type(x) is not float else None
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            val = Fraction(v[1])
        else:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort('infeasible path')
            if self.last_model is None:
                raise Unsupported('no model to concretise with')
            val = self.value(self.last_model, t)
            v = ['c', str(val)]
        self.trace.append(v)
        self.concretised.append(str(val))
        self.add(t == rv(val))
        self.model = None
        return float(val)

    def assume(self, cond):
        t = _bt(cond) if not z3.is_expr(cond) else cond
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort('assumption')
        self.add(t)
        if len(self.trace) >= len(self.prefix):
            if self.model is None:
                r = self.check()
                if r == z3.unsat:
                    raise PathAbort('assumption')
                self.model = self.last_model

    # ---- values ---------------------------------------------------------
    @staticmethod
    def value(model, t):
        v = model.eval(t, model_completion=True)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return v.as_fraction()
        if z3.is_algebraic_value(v):
            return v.approx(20).as_fraction()
        raise Unsupported('model value %s' % v)

    # ---- tokens: text that stands for a symbolic number ------------------
    def token_for(self, x):
        if type(x) is SymReal:
            c = x.numeral()
            if c is not None:
                return repr(float(c))
            k = ('r', self.reg.key(x.n),
                 tuple(sorted((a, p) for a, (_, p) in x.d.items())))
        else:
            s = z3.simplify(x.t)
            if z3.is_int_value(s):
                return str(s.as_long())
            k = ('i', self.reg.key(x.t))
        if k not in self.token_by_key:
            self.tokseq += 1
            if type(x) is SymReal:
                # a float literal no program would write
                tok = '7%06d.%05d' % (731000 + self.tokseq, 91177)
            else:
                tok = '7%08d91' % (73100 + self.tokseq)
            self.token_by_key[k] = tok
            self.tokens[tok] = x
        return self.token_by_key[k]

    def from_token(self, s):
        if isinstance(s, str):
            return self.tokens.get(s.strip())
        return None

    # ---- functions ------------------------------------------------------
    def positive(self, t):
        """Is t > 0 on this path? (True / False = not shown)"""
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return t.as_fraction() > 0
        k = ('pos', self.reg.key(t))
        if k not in self.known:
            r = self.bounds.range(t)
            self.known[k] = r is not None and (
                r[0] > 0 or r[0] == 0 and r[1]) or \
                self.check(t <= 0) == z3.unsat
        return self.known[k]

    def fvar(self, name, key, mk, fun=None, args=()):
        """The variable standing for function `name` at argument `key`."""
        k = (name,) + key
        if k not in self.fns:
            v = z3.Real('%s!%d' % (name, len(self.fns)))
            self.fns[k] = v
            n = len(self.pc)
            self.in_axiom = True
            try:
                mk(v)
            finally:
                self.in_axiom = False
            self.axioms.update(range(n, len(self.pc)))
            self.fdefs.append((v, fun, args))
        return self.fns[k]

    def fn_values(self, sub):
        """sub extended by the values of the function variables."""
        sub = list(sub)
        for v, fun, args in self.fdefs:
            if fun is None:
                return None
            xs = []
            for a in args:
                t = z3.simplify(z3.substitute(a, *sub)) if sub else a
                if not z3.is_rational_value(t):
                    return None
                xs.append(float(t.as_fraction()))
            try:
                y = fun(*xs)
                sub.append((v, rv(Fraction(y))))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                return None
        return sub

    def holds(self, sub, cons, path=True):
        """Do the inputs of sub satisfy the path condition and cons?"""
        if sub is None:
            return False
        for i, c in enumerate(self.pc if path else ()):
            if i not in self.axioms and not z3.is_true(
                    z3.simplify(z3.substitute(c, *sub)) if sub else c):
                return False
        return all(z3.is_true(z3.simplify(z3.substitute(c, *sub)))
                   for c in cons)

    def _between(self, v, t, fun):
        """Bounds of v = fun(t), fun increasing, from those of t."""
        r = self.bounds.range(t)
        if r is None:
            return
        for x, up in ((r[0], False), (r[2], True)):
            if math.isinf(x):
                continue
            try:
                y = fun(x)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            if isinstance(y, complex) or math.isinf(y) or abs(y) > 1e200:
                continue
            y = Fraction(y)
            y += (abs(y) + 1) * Fraction(1 if up else -1, 10**12)
            self.add(v <= rv(y) if up else v >= rv(y))

    def _mono(self, name, arg, v, strict=True):
        """v = f(arg) with f strictly increasing."""
        lst = self.fn_list.setdefault(name, [])
        for a, w in lst[-12:]:
            self.add(z3.And((a < arg) == (w < v), (a == arg) == (w == v)))
        lst.append((arg, v))

    def _logterm(self, t):
        """log of a positive term, as a SymReal."""
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            f = t.as_fraction()
            if f == 1:
                return 0.0
            return self._constfn('log', f, math.log)
        if z3.is_mul(t):
            fs = _factors(t)
            if len(fs) > 1 and all(self.positive(f) for f in fs):
                r = 0.0
                for f in fs:
                    r = r + self._logterm(f)
                return r
        if z3.is_app_of(t, z3.Z3_OP_POWER) and \
                z3.is_rational_value(t.arg(1)) and self.positive(t.arg(0)):
            return self._logterm(t.arg(0)) * t.arg(1).as_fraction()

        q, t = content(t)
        if q != 1:
            return self._constfn('log', q, math.log) + self._logterm(t)

        def mk(v):
            self.add(z3.And((t > 1) == (v > 0), (t == 1) == (v == 0),
                            v <= t - 1))
            self._between(v, t, math.log)
            self._mono('log', t, v)
        return SymReal(self.fvar('log', (self.reg.key(t),), mk, math.log,
                                 (t,)))

    def _constfn(self, name, f, fun):
        val = fun(float(f))
        lo = Fraction(repr(val)) - Fraction(1, 10**13)
        hi = Fraction(repr(val)) + Fraction(1, 10**13)

        def mk(v):
            self.add(z3.And(v >= rv(lo), v <= rv(hi)))
        return SymReal(self.fvar('k' + name, (str(f),), mk, lambda: val))

    def fn(self, name, x):
        x = as_real(x)
        c = x.numeral()
        p = x.primal()
        if name == 'sqrt':
            return self.power(x, Fraction(1, 2), sqrt=True)
        if name in ('log', 'log10'):
            if c is not None:
                if c <= 0:
                    raise ValueError('math domain error')
                r = as_real(0) if c == 1 else \
                    self._constfn('log', c, math.log)
            else:
                if not bool(x > 0):
                    raise ValueError('math domain error')
                den = x.den()
                if not x.d:
                    r = as_real(self._logterm(x.n))
                elif self.positive(den) and self.positive(x.n):
                    r = as_real(self._logterm(x.n) - as_real(0))
                    for k in sorted(x.d):
                        f, pw = x.d[k]
                        if self.positive(f):
                            r = r - self._logterm(f) * pw
                        else:
                            r = r - self._logterm(_pow_term(f, pw))
                else:
                    r = as_real(self._logterm(x.t))
            dot = None
            if x.dot is not None:
                dot = x.dot * p.inverse()
            if name == 'log10':
                k = 1 / Fraction(repr(math.log(10)))
                r = r * k
                dot = None if dot is None else dot * k
                if type(r) is not SymReal:
                    r = as_real(r)
            r = SymReal(r.n, r.d, dot)
            if c is None:
                r.logof = (10 if name == 'log10' else 'e', p)
            return r
        if name == 'exp':
            if c is not None:
                if c == 0:
                    return 1.0
                return math.exp(float(c)) if abs(c) < 600 else \
                    math.exp(float(c))
            y = SymReal(*reduced(x.n, x.d))
            v = self._same_exp(y)
            if v is None:
                t = z3.simplify(y.t, som=True)

                def mk(v):
                    self.add(z3.And(v > 0, (t > 0) == (v > 1),
                                    (t == 0) == (v == 1), v >= t + 1))
                    self._between(v, t, math.exp)
                    self._mono('exp', t, v)
                v = SymReal(self.fvar('exp', (self.reg.key(t),), mk, math.exp,
                                      (t,)))
                self.exps.append((y, v))
            if x.dot is not None:
                return SymReal(v.n, v.d, v * x.dot)
            return v
        if name in ('cos', 'sin', 'tan'):
            if c is not None:
                return getattr(math, name)(float(c))
            t = z3.simplify(x.t, som=True)
            if (name, self.reg.key(t)) not in self.fns:
                m = z3.simplify(-t, som=True)
                if (name, self.reg.key(m)) in self.fns:
                    v = SymReal(self.fns[name, self.reg.key(m)])
                    if x.dot is not None:
                        raise Unsupported('derivative of %s' % name)
                    return v if name == 'cos' else -v

            def mk(v):
                if name != 'tan':
                    self.add(z3.And(v >= -1, v <= 1))
                if name == 'cos':
                    h = rv(Fraction(repr(math.pi / 2)))
                    self.add(z3.Implies(z3.And(t > -h, t < h), v > 0))
                    self.add((t == 0) == (v == 1) if True else True)
            self.approx.add(name)
            v = SymReal(self.fvar(name, (self.reg.key(t),), mk,
                                  getattr(math, name), (t,)))
            if x.dot is not None:
                raise Unsupported('derivative of %s' % name)
            return v
        raise Unsupported('function %s' % name)

    def _same_exp(self, x):
        """exp(x) from the exponentials there are, or None."""
        def num(d):
            if type(d) is not SymReal:
                return Fraction(d) if is_num(d) else None
            n = expand(d.n)
            if z3.is_rational_value(n):
                if n.as_fraction() == 0:
                    return Fraction(0)
                d = SymReal(n, d.d)
            return d.numeral()

        def times(v, c):
            if c == 0:
                return v
            return v * math.exp(float(c)) if abs(c) < 300 else None
        for y, v in self.exps:
            c = num(x - y)
            if c is not None:
                return times(v, c)
        if len(self.exps) > 5:
            return None
        for i, (y, v) in enumerate(self.exps):
            c = num(x + y)
            if c is not None:
                return times(v.inverse(), c)
            r = x - y
            for z, w in self.exps[:i + 1]:
                c = num(r - z)
                if c is not None:
                    return times(v * w, c)
            for z, w in self.exps[:i]:
                c = num(r + z)
                if c is not None:
                    return times(v / w, c)
                c = num(x + y - z)
                if c is not None:
                    return times(w / v, c)
        return None

    # ---- powers ---------------------------------------------------------
    def power(self, b, e, sqrt=False):
        if type(b) is float or type(e) is float:
            raise Unsupported('power with nan/inf')
        if type(e) is SymReal:
            c = e.numeral()
            if c is not None and e.dot is None:
                e = c
        if type(b) is not SymReal:
            if type(e) is not SymReal:
                return float(b) ** float(e)
            return self._power_sym(as_real(b), e)
        if type(e) is SymReal:
            return self._power_sym(b, e)
        # concrete exponent
        if e.denominator == 1 and abs(e) <= 64:
            k = int(e)
            if k == 0:
                return 1.0
            if k < 0:
                if bool(b == 0):
                    raise ZeroDivisionError(
                        '0.0 cannot be raised to a negative power')
                return self._ipow(b.primal().inverse() if b.dot is None
                                  else 1 / b, -k)
            return self._ipow(b, k)
        # fractional exponent
        if bool(b == 0):
            if e < 0:
                raise ZeroDivisionError(
                    '0.0 cannot be raised to a negative power')
            return 0.0
        if not bool(b > 0):
            if sqrt:
                raise ValueError('math domain error')
            raise Unsupported('fractional power of a negative number')
        k = math.floor(e)
        f = e - k
        r = self._fracpow(b.primal(), f)
        if k:
            r = r * self.power(b.primal(), Fraction(k))
        if b.dot is not None:
            dot = r * b.primal().inverse() * e * b.dot
            return SymReal(r.n, r.d, dot)
        return r

    def _ipow(self, b, k):
        """b**k for an integer k >= 1."""
        if k == 1:
            return b
        p = b.primal()
        d = {kk: (f, pw * k) for kk, (f, pw) in p.d.items()}
        r = SymReal(_pow_term(p.n, k), d)
        if b.dot is not None:
            inner = p if k == 2 else self._ipow(p, k - 1)
            r.dot = inner * k * b.dot
        return r

    def _fracpow(self, b, f):
        """b**f for b > 0 and 0 < f < 1, factor by factor."""
        def one(t):
            t = z3.simplify(t)
            if z3.is_rational_value(t):
                q = t.as_fraction()
                if q == 1:
                    return as_real(1)
                return self._constfn('pow%s' % f, q,
                                     lambda z: z ** float(f))
            q, t = content(t)
            if q != 1:
                return self._constfn('pow%s' % f, q,
                                     lambda z: z ** float(f)) * one(t)

            def mk(v):
                self.add(v > 0)
                if f == Fraction(1, 2):
                    self.add(v * v == t)
                elif f.denominator in (3, 4) and f.numerator == 1:
                    self.add(_pow_term(v, f.denominator) == t)
                else:
                    self.add(z3.And((t > 1) == (v > 1), (t == 1) == (v == 1)))
                    self._between(v, t, lambda z: z ** float(f))
                    self._mono('pow%s' % f, t, v)
                    self.approx.add('pow')
            return SymReal(self.fvar('pow', (str(f), self.reg.key(t)), mk,
                                     lambda z: z ** float(f), (t,)))
        if b.d and all(self.positive(x) for x, _ in b.d.values()) \
                and self.positive(b.n):
            r = one(b.n)
            for k in sorted(b.d):
                x, pw = b.d[k]
                q = one(x)
                r = r * self._ipow(q.inverse(), pw)
            return r
        return one(b.t)

    def _power_sym(self, b, e):
        """b**e with a symbolic exponent; b > 0 required."""
        if not bool(b > 0):
            raise Unsupported('symbolic power of a non-positive number')
        pe = e.primal()
        t = z3.simplify(pe.t, som=True)
        # split off the numeric part of the exponent
        k = Fraction(0)
        rest = t
        if z3.is_add(t):
            nums = [c for c in t.children() if z3.is_rational_value(c)]
            oth = [c for c in t.children() if not z3.is_rational_value(c)]
            if nums and oth:
                k = sum((c.as_fraction() for c in nums), Fraction(0))
                rest = oth[0] if len(oth) == 1 else z3.Sum(oth)
                rest = z3.simplify(rest, som=True)

        def one(u):
            u = z3.simplify(u)
            if z3.is_rational_value(u) and u.as_fraction() == 1:
                return as_real(1)
            if not z3.is_rational_value(u):
                q, u = content(u)
                if q != 1:
                    return one(rv(q)) * one(u)

            def mk(v):
                self.add(v > 0)
                self.add(z3.Implies(rest == 0, v == 1))
                self.add(z3.Implies(rest == 1, v == u))
                self.add(z3.Implies(rest == -1, v * u == 1))
                self.add(z3.Implies(u == 1, v == 1))
                self.add(z3.Implies(z3.And(u > 1, rest > 0), v > 1))
                self.add(z3.Implies(z3.And(u < 1, rest > 0), v < 1))
                self.approx.add('pow')
            return SymReal(self.fvar('spow', (self.reg.key(u),
                                              self.reg.key(rest)), mk,
                                     lambda z, w: z ** w, (u, rest)))
        pb = b.primal()
        if pb.d and all(self.positive(x) for x, _ in pb.d.values()) and \
                self.positive(pb.n):
            r = one(pb.n)
            for kk in sorted(pb.d):
                x, pw = pb.d[kk]
                r = r * self._ipow(one(x).inverse(), pw)
        else:
            r = one(pb.t)
        if k:
            r = r * self.power(pb, k)
        if b.dot is not None or e.dot is not None:
            dot = 0
            if b.dot is not None:
                dot = dot + r * pb.inverse() * pe * b.dot
            if e.dot is not None:
                dot = dot + r * self.fn('log', pb) * e.dot
            r = SymReal(r.n, r.d, dot)
        return r
