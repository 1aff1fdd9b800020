"""Sparse multivariate polynomials with rational coefficients.

The normal form behind SymReal.  A polynomial is {monomial: Fraction}, a
monomial a tuple of (atom, power) sorted by atom.  Coefficients that cancel to
less than SNAP of what went into them are taken as zero: the code under test
computes with doubles, so constants that are equal on paper differ by rounding.
"""
from fractions import Fraction

import z3

SNAP = Fraction(1, 10 ** 10)
LIMIT = 6000


class TooLarge(Exception):
    pass


def add_into(acc, mag, p, k=1):
    for m, c in p.items():
        c = c * k if k != 1 else c
        a = abs(c)
        if m in acc:
            acc[m] += c
            if a > mag[m]:
                mag[m] = a
        else:
            acc[m] = c
            mag[m] = a


def snap(acc, mag):
    return {m: c for m, c in acc.items()
            if c and abs(c) > SNAP * mag[m]}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def mul(p, q):
    if len(p) * len(q) > LIMIT * 40:
        raise TooLarge
    if len(p) == 1 and () in p:
        c = p[()]
        return {m: v * c for m, v in q.items()}
    if len(q) == 1 and () in q:
        c = q[()]
        return {m: v * c for m, v in p.items()}
    acc, mag = {}, {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = c * d
            a = abs(v)
            if k in acc:
                acc[k] += v
                if a > mag[k]:
                    mag[k] = a
            else:
                acc[k] = v
                mag[k] = a
    r = snap(acc, mag)
    if len(r) > LIMIT:
        raise TooLarge
    return r


def order(m):
    """Lexicographic monomial order."""
    return tuple((-k, p) for k, p in m)


def mono_div(a, b):
    """a / b, or None."""
    d = dict(a)
    for k, p in b:
        q = d.get(k, 0) - p
        if q < 0:
            return None
        if q:
            d[k] = q
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def divide(p, q, limit=400):
    """p / q when it is exact (up to rounding), else None."""
    if len(q) < 1 or len(p) > 4000:
        return None
    lead = max(q, key=order)
    lc = q[lead]
    rest = [(m, c) for m, c in q.items() if m != lead]
    rem = dict(p)
    mag = {m: abs(c) for m, c in p.items()}
    out = {}
    steps = 0
    import heapq

    class Key:
        __slots__ = ('m', 'o')

        def __init__(self, m):
            self.m, self.o = m, order(m)

        def __lt__(self, b):
            return self.o > b.o
    heap = [Key(m) for m in rem]
    heapq.heapify(heap)
    while heap:
        m = heapq.heappop(heap).m
        c = rem.pop(m, None)
        if c is None:
            continue
        if abs(c) <= SNAP * mag[m]:
            continue
        k = mono_div(m, lead)
        if k is None:
            return None
        steps += 1
        if steps > limit:
            return None
        v = c / lc
        out[k] = v
        for n, d in rest:
            t = mono_mul(k, n)
            w = -v * d
            a = abs(w)
            if t in rem:
                rem[t] += w
                if a > mag[t]:
                    mag[t] = a
            else:
                rem[t] = w
                mag[t] = max(a, mag.get(t, 0))
                heapq.heappush(heap, Key(t))
    return out


def content(p):
    """(positive number, p / number) with leading coefficient +-1."""
    if not p:
        return Fraction(1), p
    ms = [m for m in p if m] or list(p)
    lead = max(ms, key=order)
    q = abs(p[lead])
    if q == 1:
        return Fraction(1), p
    return q, {m: c / q for m, c in p.items()}


def common(p):
    """The largest monomial that divides every term."""
    g = None
    for m in p:
        d = dict(m)
        g = d if g is None else {k: min(e, d[k]) for k, e in g.items()
                                 if k in d}
        if not g:
            return ()
    return tuple(sorted(g.items())) if g else ()


class Space:
    """Conversion between z3 terms and polynomials, memoised."""

    def __init__(self):
        self.atoms = []             # index -> z3 term
        self.index = {}             # z3 id -> index
        self.memo = {}              # z3 id -> polynomial or None
        self.terms = {}             # frozen polynomial -> z3 term
        self.keep = []
        self.powers = {}

    def atom(self, t):
        i = t.get_id()
        k = self.index.get(i)
        if k is None:
            k = self.index[i] = len(self.atoms)
            self.atoms.append(t)
        return {((k, 1),): Fraction(1)}

    def poly(self, t):
        """Polynomial of a real z3 term; TooLarge when it is."""
        i = t.get_id()
        if i in self.memo:
            r = self.memo[i]
            if r is None:
                raise TooLarge
            return r
        try:
            r = self._poly(t)
            if len(r) > LIMIT:
                raise TooLarge
        except TooLarge:
            self.memo[i] = None
            self.keep.append(t)
            raise
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return {(): f} if f else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            acc, mag = {}, {}
            for c in t.children():
                add_into(acc, mag, self.poly(c))
            return snap(acc, mag)
        if k == z3.Z3_OP_SUB:
            acc, mag = {}, {}
            for j, c in enumerate(t.children()):
                add_into(acc, mag, self.poly(c), 1 if j == 0 else -1)
            return snap(acc, mag)
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = None
            for c in t.children():
                p = self.poly(c)
                r = p if r is None else mul(r, p)
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            f = t.arg(1).as_fraction()
            if f:
                return {m: c / f for m, c in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            f = t.arg(1).as_fraction()
            if f.denominator == 1 and 0 < f <= 12:
                p = self.poly(t.arg(0))
                r = p
                for _ in range(int(f) - 1):
                    r = mul(r, p)
                return r
        return self.atom(t)

    def term(self, p):
        """The z3 term of a polynomial; equal polynomials share it."""
        key = frozenset(p.items())
        t = self.terms.get(key)
        if t is None:
            parts = []
            for m in sorted(p, key=order):
                c = p[m]
                fs = []
                for k, e in m:
                    fs.extend([self.atoms[k]] * e)
                if c != 1 or not fs:
                    fs.insert(0, z3.RealVal('%d/%d' % (
                        c.numerator, c.denominator)))
                parts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            t = z3.RealVal(0) if not parts else (
                parts[0] if len(parts) == 1 else z3.Sum(*parts))
            self.terms[key] = t
            self.memo[t.get_id()] = p
            self.keep.append(t)
        return t
