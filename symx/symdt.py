"""Symbolic dates, datetimes and differences between them.

A date is held as (year, month, day) terms, as its proleptic Gregorian day
number, or both; each form is derived from the other on demand.
"""
import datetime as _dt

import z3

from . import core
from .core import SymInt, SymReal, mkbool

DAY = 86400 * 10**6
_CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def iv(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim(y, m):
    return z3.If(m == 2, z3.If(leap(y), iv(29), iv(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), iv(30),
                       iv(31)))


def ordinal(y, m, d):
    c = iv(_CUM[11])
    for i in range(10, -1, -1):
        c = z3.If(m == i + 1, iv(_CUM[i]), c)
    n = y - 1
    return n * 365 + n / 4 - n / 100 + n / 400 + c + z3.If(
        z3.And(m > 2, leap(y)), iv(1), iv(0)) + d


def term(x):
    return x.t if type(x) is SymInt else iv(x)


class SymDatetime:
    __slots__ = ('_ymd', '_ord', 'u', 'isdate')

    def __init__(self, ymd=None, ordinal=None, u=0, isdate=False):
        self._ymd = tuple(iv(x) for x in ymd) if ymd is not None else None
        self._ord = None if ordinal is None else iv(ordinal)
        self.u = iv(u)
        self.isdate = isdate

    @property
    def __class__(self):
        return _dt.date if self.isdate else _dt.datetime

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return 0x5ee1

    def __reduce_ex__(self, p):
        raise core.Unsupported('pickling a symbolic date')

    def __repr__(self):
        return '<date %s>' % core.E.token_for(SymInt(self.ord))

    __str__ = isoformat = __repr__

    def __format__(self, spec):
        return repr(self)

    def strftime(self, f):
        return repr(self)

    # ---- forms -----------------------------------------------------------
    @property
    def ymd(self):
        if self._ymd is None:
            e = core.E
            n = len(e.fns)
            y, m, d = (z3.Int('%s!%d' % (k, n)) for k in 'ymd')
            e.fns[('date', y.get_id())] = y
            e.keep.extend((y, m, d))
            e.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1,
                         d <= dim(y, m), ordinal(y, m, d) == self._ord))
            self._ymd = (y, m, d)
        return self._ymd

    @property
    def ord(self):
        if self._ord is None:
            self._ord = z3.simplify(ordinal(*self._ymd))
        return self._ord

    year = property(lambda s: SymInt(s.ymd[0]))
    month = property(lambda s: SymInt(s.ymd[1]))
    day = property(lambda s: SymInt(s.ymd[2]))
    hour = property(lambda s: SymInt(s.u / (3600 * 10**6)))
    minute = property(lambda s: SymInt(s.u / (60 * 10**6) % 60))
    second = property(lambda s: SymInt(s.u / 10**6 % 60))
    microsecond = property(lambda s: SymInt(s.u % 10**6))
    tzinfo = None

    def date(self):
        return SymDatetime(self._ymd, self._ord, 0, True)

    def as_datetime(self):
        return SymDatetime(self._ymd, self._ord, self.u)

    @staticmethod
    def valid(f, isdate):
        """Of year, month, day, hour, minute, second and microsecond."""
        y, m, d, h, mi, s, us = (term(x) for x in f)
        if not mkbool(z3.And(
                y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m),
                h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0,
                us < 10**6)):
            raise ValueError('day is out of range for month')
        return SymDatetime((y, m, d), None, z3.simplify(
            ((h * 60 + mi) * 60 + s) * 10**6 + us), isdate)

    def replace(self, **kw):
        u = {'hour', 'minute', 'second', 'microsecond'}
        if self.isdate and u & set(kw) or \
                not set(kw) <= u | {'year', 'month', 'day'}:
            raise core.Unsupported('replace(%s)' % sorted(kw))
        if set(kw) <= u and not any(core.is_sym(v) for v in kw.values()):
            f = [kw.get(k, getattr(self, k)) for k in (
                'hour', 'minute', 'second', 'microsecond')]
            h, mi, s, us = (term(x) for x in f)
            return SymDatetime(self._ymd, self._ord, z3.simplify(
                ((h * 60 + mi) * 60 + s) * 10**6 + us))
        return SymDatetime.valid([kw.get(k, getattr(self, k)) for k in (
            'year', 'month', 'day', 'hour', 'minute', 'second',
            'microsecond')], self.isdate)

    def toordinal(self):
        return SymInt(self.ord)

    def weekday(self):
        return SymInt((self.ord + 6) % 7)

    def isoweekday(self):
        return SymInt((self.ord + 6) % 7 + 1)

    def timetuple(self):
        t = (self.year, self.month, self.day, self.hour, self.minute,
             self.second, self.weekday())
        return t + (SymInt(self.ord - ordinal(self.ymd[0], iv(1), iv(1)) + 1),
                    -1)

    def time(self):
        raise core.Unsupported('time of a symbolic date')

    def key(self):
        """Microseconds since 0001-01-01."""
        return (self.ord - 1) * DAY + self.u

    # ---- comparison ------------------------------------------------------
    def _pair(self, o):
        if type(o) is not SymDatetime:
            if not isinstance(o, _dt.date):
                return None
            o = lift(o)
        if self._ymd is not None and o._ymd is not None:
            a, b = ((y * 12 + m) * 32 + d for y, m, d in (self._ymd, o._ymd))
        else:
            a, b = self.ord, o.ord
        return o, a, b

    def _cmp(self, o, op):
        r = self._pair(o)
        if r is None:
            return NotImplemented
        o, a, b = r
        if self.isdate != o.isdate:
            if op in ('eq', 'ne'):
                return op == 'ne'
            raise TypeError("can't compare datetime.datetime to datetime.date")
        u, v = self.u, o.u
        if op == 'eq':
            return mkbool(z3.And(a == b, u == v))
        if op == 'ne':
            return mkbool(z3.Not(z3.And(a == b, u == v)))
        return mkbool(z3.Or(a < b if op in ('lt', 'le') else a > b,
                            z3.And(a == b, {'lt': u < v, 'le': u <= v,
                                            'gt': u > v, 'ge': u >= v}[op])))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    # ---- arithmetic ------------------------------------------------------
    def plus_us(self, us):
        if z3.is_expr(us):
            us = z3.simplify(us)
            if z3.is_int_value(us):
                us = us.as_long()
        if not z3.is_expr(us):
            if us == 0:
                return self
            if self.isdate:
                return SymDatetime(None, self.ord + us // DAY, 0, True)
            if us % DAY == 0:
                return SymDatetime(None, self.ord + us // DAY, self.u)
        if self.isdate:
            return SymDatetime(None, self.ord + us / DAY, 0, True)
        t = z3.simplify(self.u + us)
        return SymDatetime(None, z3.simplify(self.ord + t / DAY),
                           z3.simplify(t % DAY))

    def plus_months(self, k):
        y, m, d = self.ymd
        t = y * 12 + (m - 1) + iv(k)
        y, m = z3.simplify(t / 12), z3.simplify(t % 12 + 1)
        n = dim(y, m)
        return SymDatetime((y, m, z3.simplify(z3.If(d > n, n, d))), None,
                           self.u, self.isdate)

    def __add__(self, o):
        if type(o) is SymDelta:
            return self.plus_us(o.us)
        if type(o) is SymRelative:
            return o.__radd__(self)
        if isinstance(o, _dt.timedelta):
            return self.plus_us(_us(o))
        if type(o).__name__ == 'relativedelta':
            return SymRelative.of(o).__radd__(self)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.date) or type(o) is SymDatetime:
            o = lift(o)
            return SymDelta(z3.simplify(self.key() - o.key()))
        return self + (-o)

    def __rsub__(self, o):
        return lift(o) - self


def _us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def lift(o):
    if type(o) is SymDatetime:
        return o
    if isinstance(o, _dt.datetime):
        return SymDatetime((o.year, o.month, o.day), o.toordinal(),
                           ((o.hour * 60 + o.minute) * 60 + o.second) * 10**6
                           + o.microsecond)
    return SymDatetime((o.year, o.month, o.day), o.toordinal(), 0, True)


class SymDelta:
    """A symbolic timedelta."""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    def total_seconds(self):
        return SymReal(z3.ToReal(self.us)) / 10**6

    days = property(lambda s: SymInt(s.us / DAY))
    seconds = property(lambda s: SymInt(s.us % DAY / 10**6))
    microseconds = property(lambda s: SymInt(s.us % 10**6))

    def __neg__(self):
        return SymDelta(-self.us)

    def _o(self, o):
        return o.us if type(o) is SymDelta else iv(_us(o))

    def __add__(self, o):
        if type(o) is SymDelta or isinstance(o, _dt.timedelta):
            return SymDelta(self.us + self._o(o))
        if isinstance(o, _dt.date):
            return lift(o).plus_us(self.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return SymDelta(self.us - self._o(o))

    def __rsub__(self, o):
        if isinstance(o, _dt.date):
            return lift(o).plus_us(-self.us)
        return SymDelta(self._o(o) - self.us)

    def __mul__(self, k):
        return SymDelta(self.us * term(k))

    __rmul__ = __mul__

    def __lt__(self, o):
        return mkbool(self.us < self._o(o))

    def __le__(self, o):
        return mkbool(self.us <= self._o(o))

    def __gt__(self, o):
        return mkbool(self.us > self._o(o))

    def __ge__(self, o):
        return mkbool(self.us >= self._o(o))

    def __eq__(self, o):
        return mkbool(self.us == self._o(o))

    def __ne__(self, o):
        return mkbool(self.us != self._o(o))

    def __hash__(self):
        return 0x5ee2


class SymRelative:
    """A symbolic dateutil relativedelta of months and a timedelta."""

    def __init__(self, months, us):
        self.months, self.us = months, us

    @staticmethod
    def of(r):
        if any(getattr(r, k) is not None for k in (
                'year', 'month', 'day', 'weekday', 'hour', 'minute',
                'second', 'microsecond')) or r.leapdays:
            raise core.Unsupported('absolute relativedelta')
        return SymRelative(
            iv(r.years * 12 + r.months),
            iv((((r.days * 24 + r.hours) * 60 + r.minutes) * 60 + r.seconds)
               * 10**6 + r.microseconds))

    def __radd__(self, o):
        if not isinstance(o, _dt.date):
            return NotImplemented
        d = lift(o)
        m = z3.simplify(self.months)
        if not (z3.is_int_value(m) and m.as_long() == 0):
            d = d.plus_months(m)
        return d.plus_us(self.us)

    __add__ = __radd__

    def __neg__(self):
        return SymRelative(-self.months, -self.us)

    def __rsub__(self, o):
        return (-self).__radd__(o)

    def __mul__(self, k):
        return SymRelative(self.months * term(k), self.us * term(k))

    __rmul__ = __mul__


_UNITS = {'weeks': 7 * DAY, 'days': DAY, 'hours': 3600 * 10**6,
          'minutes': 60 * 10**6, 'seconds': 10**6, 'milliseconds': 1000,
          'microseconds': 1}


def _sum_us(kw):
    us = iv(0)
    for k, v in kw.items():
        if type(v) is SymReal:
            raise core.Unsupported('fractional symbolic timedelta')
        if isinstance(v, float) and v != int(v):
            us = us + int(round(v * _UNITS[k]))
        else:
            us = us + term(v) * _UNITS[k]
    return z3.simplify(us)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __getattr__(cls, k):
        return getattr(cls.real, k)


class timedelta(metaclass=_Meta):
    real = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
        kw = dict(days=days, seconds=seconds, microseconds=microseconds,
                  milliseconds=milliseconds, minutes=minutes, hours=hours,
                  weeks=weeks)
        if any(core.is_sym(v) for v in kw.values()):
            return SymDelta(_sum_us(kw))
        return _dt.timedelta(**kw)


class datetime(metaclass=_Meta):
    real = _dt.datetime

    def __new__(cls, year, month, day, hour=0, minute=0, second=0,
                microsecond=0, tzinfo=None, **kw):
        f = (year, month, day, hour, minute, second, microsecond)
        if not any(core.is_sym(v) for v in f):
            return _dt.datetime(*f, tzinfo, **kw)
        return SymDatetime.valid(f, False)

    @staticmethod
    def combine(d, t):
        if type(d) is not SymDatetime:
            return _dt.datetime.combine(d, t)
        return SymDatetime(d._ymd, d._ord, (
            (t.hour * 60 + t.minute) * 60 + t.second) * 10**6 + t.microsecond)


def type_of(x, t):
    """What type(x) is to the code under check."""
    if t is SymDatetime:
        return _dt.date if x.isdate else datetime
    if t is _dt.datetime:
        return datetime
    return timedelta


TYPES = (SymDatetime, SymDelta, _dt.datetime, _dt.timedelta)


def relative_class():
    from dateutil.relativedelta import relativedelta as real_

    class relativedelta(metaclass=_Meta):
        real = real_

        def __new__(cls, *a, **kw):
            if not any(core.is_sym(v) for v in list(a) + list(kw.values())):
                return real_(*a, **kw)
            ok = set(_UNITS) - {'milliseconds'} | {'years', 'months'}
            if a or not set(kw) <= ok:
                raise core.Unsupported('relativedelta(%s)' % sorted(kw))
            months = term(kw.pop('years', 0)) * 12 + term(kw.pop('months', 0))
            return SymRelative(z3.simplify(months), _sum_us(kw))
    return relativedelta
