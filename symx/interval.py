"""Outward rounded interval evaluation of z3 arithmetic terms.

Settles most sign questions (is this denominator positive?) without a query.
Bounds are those the path condition states directly about single variables.
"""
import math
from fractions import Fraction

import z3

INF = math.inf
EPS = 1e-12
TINY = 1e-300
MAXNODES = 4000

_CMP = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=',
        z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}
_FLIP = {'<=': '>=', '<': '>', '>=': '<=', '>': '<', '==': '=='}
_NEG = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}


class TooBig(Exception):
    pass


def _dn(x):
    return x - EPS * abs(x) if abs(x) < INF else x


def _up(x):
    return x + EPS * abs(x) if abs(x) < INF else x


def _num(t):
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def _var(t):
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return t
    return None


def _m(a, b):
    """Product of end points, where 0 * inf is 0."""
    if a == 0 or b == 0:
        return 0.0
    r = a * b
    return r if r != 0 else math.copysign(TINY, a) * math.copysign(1, b)


class Bounds:
    # var id -> [lo, lo is open, hi, hi is open]
    def __init__(self):
        self.b = {}
        self.keep = []
        self.cache = {}

    # ---- learning -------------------------------------------------------
    def learn(self, t, depth=0):
        k = t.decl().kind()
        if k == z3.Z3_OP_AND and depth < 4:
            for c in t.children():
                self.learn(c, depth + 1)
            return
        neg = k == z3.Z3_OP_NOT
        if neg:
            t = t.arg(0)
            k = t.decl().kind()
        op = _CMP.get(k)
        if op is None or not z3.is_arith(t.arg(0)):
            return
        if neg:
            op = _NEG.get(op)
            if op is None:
                return
        a, b = t.arg(0), t.arg(1)
        v, n = _var(a), _num(b)
        if v is None or n is None:
            v, n = _var(b), _num(a)
            if v is None or n is None:
                return
            op = _FLIP[op]
        i = v.get_id()
        if i not in self.b:
            self.keep.append(v)
            self.b[i] = [-INF, False, INF, False]
        r = self.b[i]
        f = float(n)
        if f != n:
            lo, hi = _dn(f), _up(f)
            op_lo = op_hi = False
        else:
            lo = hi = f
            op_lo = op_hi = op in ('<', '>')
        ch = False
        if op in ('>=', '>', '==') and (lo > r[0] or lo == r[0] and op_lo):
            r[0], r[1] = lo, op_lo
            ch = True
        if op in ('<=', '<', '==') and (hi < r[2] or hi == r[2] and op_hi):
            r[2], r[3] = hi, op_hi
            ch = True
        if ch:
            self.cache = {}

    # ---- evaluation -----------------------------------------------------
    def range(self, t):
        """(lo, lo open, hi, hi open), or None if it gives up."""
        try:
            self.left = MAXNODES
            return self._ev(t)
        except TooBig:
            return None

    def _ev(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i][0]
        self.left -= 1
        if self.left < 0:
            raise TooBig()
        r = self._ev1(t)
        self.cache[i] = (r, t)
        return r

    def _ev1(self, t):
        n = _num(t)
        if n is not None:
            try:
                f = float(n)
            except OverflowError:
                return (-INF, False, INF, False)
            if f == n:
                return (f, False, f, False)
            if f == 0:
                return (0.0, True, 1e-300, False) if n > 0 else \
                    (-1e-300, False, 0.0, True)
            return (_dn(f), False, _up(f), False)
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return self._ev(t.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED:
            r = self.b.get(t.get_id())
            return tuple(r) if r else (-INF, False, INF, False)
        if k == z3.Z3_OP_ADD:
            lo = hi = 0.0
            lm = hm = 0.0
            lopen = hopen = False
            for c in t.children():
                a, ao, b, bo = self._ev(c)
                lo, hi = lo + a, hi + b
                lm, hm = lm + abs(a), hm + abs(b)
                lopen, hopen = lopen or ao, hopen or bo
            if lm < INF:
                lo -= EPS * lm if lo != 0 or lm else 0
            if hm < INF:
                hi += EPS * hm if hi != 0 or hm else 0
            return (lo, lopen, hi, hopen)
        if k == z3.Z3_OP_SUB:
            r = self._ev(t.arg(0))
            for c in t.children()[1:]:
                r = self._sub(r, self._ev(c))
            return r
        if k == z3.Z3_OP_UMINUS:
            a, ao, b, bo = self._ev(t.arg(0))
            return (-b, bo, -a, ao)
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            # equal factors together, so that squares are not negative
            groups = {}
            for c in ch:
                groups.setdefault(c.get_id(), [c, 0])[1] += 1
            r = (1.0, False, 1.0, False)
            for c, p in groups.values():
                r = self._mul(r, self._pow(self._ev(c), p))
            return r
        if k == z3.Z3_OP_POWER:
            e = _num(t.arg(1))
            if e is not None and e.denominator == 1 and 1 <= e <= 64:
                return self._pow(self._ev(t.arg(0)), int(e))
        return (-INF, False, INF, False)

    @staticmethod
    def _sub(x, y):
        lm, hm = abs(x[0]) + abs(y[2]), abs(x[2]) + abs(y[0])
        lo, hi = x[0] - y[2], x[2] - y[0]
        if lm < INF:
            lo -= EPS * lm
        if hm < INF:
            hi += EPS * hm
        return (lo, x[1] or y[3], hi, x[3] or y[1])

    @staticmethod
    def _mul(x, y):
        if x == (1.0, False, 1.0, False):
            return y
        a, ao, b, bo = x
        c, co, d, do = y

        def pos(r):
            return r[0] > 0 or r[0] == 0 and r[1]
        if x[0] >= 0 and y[0] >= 0:
            lo = _dn(a * c if a and c else 0.0)
            op = pos(x) and pos(y) if lo == 0 else False
            return (lo, op, _up(_m(b, d)), False)
        if x[2] <= 0 and y[0] >= 0:
            r = Bounds._mul((-b, bo, -a, ao), y)
            return (-r[2], r[3], -r[0], r[1])
        if x[0] >= 0 and y[2] <= 0:
            r = Bounds._mul(x, (-d, do, -c, co))
            return (-r[2], r[3], -r[0], r[1])
        if x[2] <= 0 and y[2] <= 0:
            return Bounds._mul((-b, bo, -a, ao), (-d, do, -c, co))
        ps = [_m(a, c), _m(a, d), _m(b, c), _m(b, d)]
        return (_dn(min(ps)), False, _up(max(ps)), False)

    @staticmethod
    def _pow(x, p):
        if p == 1:
            return x
        a, ao, b, bo = x

        def pw(v):
            try:
                r = v ** p
                return r if r or not v else TINY
            except OverflowError:
                return INF if v > 0 or p % 2 == 0 else -INF
        if a >= 0:
            lo = pw(a) * (1 - p * EPS) if pw(a) < INF else 1e300
            return (_dn(lo if lo > 1e-290 else 0.0),
                    ao and a == 0, _up(pw(b) * (1 + p * EPS)), False)
        if b <= 0:
            r = Bounds._pow((-b, bo, -a, ao), p)
            return r if p % 2 == 0 else (-r[2], r[3], -r[0], r[1])
        if p % 2 == 0:
            return (0.0, False, _up(max(pw(a), pw(b)) * (1 + p * EPS)), False)
        return (_dn(pw(a) * (1 + p * EPS)), False,
                _up(pw(b) * (1 + p * EPS)), False)

    # ---- decisions ------------------------------------------------------
    def truth(self, c):
        """True or False if the bounds settle the comparison, else None."""
        neg = False
        if z3.is_not(c):
            neg, c = True, c.arg(0)
        k = c.decl().kind()
        if k in (z3.Z3_OP_OR, z3.Z3_OP_AND):
            stop = k == z3.Z3_OP_OR
            rs = [self.truth(x) for x in c.children()]
            r = stop if stop in rs else (None if None in rs else not stop)
            return r if r is None else (not r) if neg else r
        op = _CMP.get(c.decl().kind())
        if op is None or not z3.is_arith(c.arg(0)):
            return None
        x, y = self.range(c.arg(0)), self.range(c.arg(1))
        if x is None or y is None:
            return None
        d = self._sub(x, y) if not (y[0] == y[2] == 0) else x
        if any(math.isnan(v) for v in (d[0], d[2])):
            return None
        gt0 = d[0] > 0 or d[0] == 0 and d[1]
        lt0 = d[2] < 0 or d[2] == 0 and d[3]
        r = None
        if op == '==':
            r = False if gt0 or lt0 else None
        elif op == '>':
            r = True if gt0 else False if d[2] <= 0 else None
        elif op == '>=':
            r = True if d[0] >= 0 else False if lt0 else None
        elif op == '<':
            r = True if lt0 else False if d[0] >= 0 else None
        elif op == '<=':
            r = True if d[2] <= 0 else False if gt0 else None
        if r is None:
            return None
        return (not r) if neg else r
