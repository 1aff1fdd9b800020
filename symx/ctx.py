"""The scenario API, in its symbolic and its native form.

A scenario is one Python function `scenario(ctx)` that drives the public API of
/repo.  It runs unchanged in two modes: symbolically (SymCtx), where
the inputs are z3 variables, and natively (NatCtx), where they are the doubles
and ints of one model, against the unmodified modules.
"""
import math
import os
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction

TOL = 1e-7          # native comparison: relative to the larger operand
MARGIN = 1e-6         # a counterexample has to be this clear (relative)


class StopScenario(BaseException):
    """End of a path, e.g. after an assertion that makes the rest moot."""


def leaves(x, path=''):
    """Flatten containers to (path, leaf) pairs."""
    import numpy
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from leaves(x[k], '%s[%s]' % (path, k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, '%s[%d]' % (path, i))
    elif isinstance(x, numpy.ndarray):
        if x.ndim == 0:
            yield path, x.item()
        else:
            for i in range(x.shape[0]):
                yield from leaves(x[i], '%s[%d]' % (path, i))
    else:
        yield path, x


class Approx(float):
    """A native result of finite differences, known within err."""

    def __new__(cls, x, err=0.0):
        r = float.__new__(cls, x)
        r.err = float(err)
        return r

    def __mul__(self, k):
        return Approx(float(self) * float(k), self.err * abs(float(k)))
    __rmul__ = __mul__

    def __truediv__(self, k):
        return Approx(float(self) / float(k), self.err / abs(float(k)))

    def __neg__(self):
        return Approx(-float(self), self.err)


class Base:
    symbolic = False

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='sx_', dir=self.scratch)
        return self._tmp

    def write(self, name, text):
        fn = os.path.join(self.tmpdir(), name)
        with open(fn, 'w') as f:
            f.write(text)
        return fn

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def reals(self, prefix, n, lo, hi):
        return [self.real('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def raises(self, name, exc, fn):
        """fn() has to raise one of exc."""
        try:
            fn()
        except exc:
            self.check(name, True)
            return True
        self.check(name, False)
        return False

    def no_raise(self, name, fn):
        try:
            r = fn()
        except Exception as e:
            self.check(name, False, info='%s: %s' % (type(e).__name__, e))
            raise StopScenario()
        return r

    def stamp(self, d):
        """Seconds since 0001-01-01."""
        import datetime
        if not isinstance(d, datetime.datetime):
            d = datetime.datetime(d.year, d.month, d.day)
        return Fraction((d - datetime.datetime.min) //
                        datetime.timedelta(microseconds=1), 10**6)

    def same(self, name, a, b):
        """Structure and numbers agree (equal keys, lengths, values)."""
        la, lb = list(leaves(a)), list(leaves(b))
        if [p for p, _ in la] != [p for p, _ in lb]:
            self.check(name, False, info='%s versus %s' % (
                [p for p, _ in la], [p for p, _ in lb]))
            return
        for (p, x), (_, y) in zip(la, lb):
            self.check_eq(name + p, x, y)


class NatCtx(Base):
    """Concrete run on the real modules."""

    def __init__(self, inputs, scratch=None):
        self.inputs = inputs
        self.scratch = scratch
        self.failures = []
        self.seen = []
        self.checks = 0
        self._tmp = None
        self.log = []

    def _get(self, name, lo=0, hi=0):
        """Inputs the symbolic path never reached get a value in range."""
        if name not in self.inputs:
            import random
            lo = -1000.0 if lo is None else lo
            hi = 1000.0 if hi is None else hi
            c = random.Random(name).uniform(0.2, 0.8)
            return repr(lo + c * (hi - lo))
        return self.inputs[name]

    def real(self, name, lo=None, hi=None):
        return float(Fraction(str(self._get(name, lo, hi))))

    def int(self, name, lo, hi):
        return int(Fraction(str(self._get(name, lo, hi))))

    def choice(self, name, options):
        return options[int(float(self._get(name)))]

    def bool(self, name):
        return bool(int(float(self._get(name))))

    def flag(self, name):
        return bool(int(float(self._get(name))))

    def dt(self, name, lo, hi, seconds=False, date=False):
        import calendar
        import datetime
        y = self.int(name + '.y', lo.year, hi.year)
        m = self.int(name + '.m', 1, 12)
        d = self.int(name + '.d', 1, 31)
        u = self.int(name + '.s', 0, 86399) if seconds else 0
        d = min(d, calendar.monthrange(y, m)[1])
        r = datetime.datetime(y, m, d) + datetime.timedelta(seconds=u)
        r = min(max(r, lo), hi)
        return r.date() if date else r

    def name(self, name, pool):
        """Any one of the pool; code only looks at names to compare them."""
        return pool[self.int(name, 0, len(pool) - 1)]

    def text(self, s):
        return s

    def num(self, text):
        return float(text)

    def tok(self, x):
        return repr(x)

    def assume(self, cond):
        if not cond:
            raise StopScenario('assumption does not hold')

    def case(self, cond):
        return bool(cond)

    def deriv(self, f, x, h=None):
        h = h or max(abs(x), 1e-3) * 1e-4
        r = (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) \
            / (12 * h)
        # Rounding in f, seen as second differences over tiny steps, is
        # divided by h with everything else.
        noise = 1e-15 * abs(f(x))
        for k in range(1, 13):
            e = h * 1e-4 * (k + 0.137 * k * k)
            noise = max(noise, abs(f(x + e) - 2 * f(x) + f(x - e)))
        return Approx(r, 4 * noise / h)

    def fn(self, name, x):
        """A function of math for the oracle."""
        return getattr(math, name)(x)

    def is_close(self, a, b, tol, scale):
        return abs(a - b) <= tol * max(abs(a), abs(b), scale)

    def observe(self, name, v):
        for p, x in leaves(v):
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                try:
                    x = float(x)
                except Exception:
                    continue
            self.seen.append((name + p, float(x)))

    def check(self, name, cond, info=None):
        self.checks += 1
        if not bool(cond):
            self.failures.append({'check': name, 'info': info})

    def check_eq(self, name, a, b, tol=TOL, scale=1e-9):
        self.checks += 1
        ok = None
        num = True
        for x in (a, b):
            if isinstance(x, (str, bytes)) or x is None:
                num = False
            else:
                try:
                    float(x)
                except Exception:
                    num = False
        if not num:
            ok = a == b
        else:
            fa, fb = float(a), float(b)
            if isinstance(a, complex) or isinstance(b, complex):
                ok = False
            elif math.isnan(fa) or math.isnan(fb):
                ok = False
            elif fa == fb:
                ok = True
            elif math.isinf(fa) or math.isinf(fb):
                ok = False
            else:
                ok = self.is_close(fa, fb, tol, scale) or \
                    abs(fa - fb) <= getattr(a, 'err', 0.0) + \
                    getattr(b, 'err', 0.0)
            self.seen.append((name + '.a', fa))
            self.seen.append((name + '.b', fb))
        if not ok:
            self.failures.append({'check': name, 'info': '%r != %r' % (a, b)})

    def check_le(self, name, a, b, tol=TOL, scale=1e-9):
        self.checks += 1
        fa, fb = float(a), float(b)
        self.seen.append((name + '.a', fa))
        self.seen.append((name + '.b', fb))
        if not (fa <= fb or self.is_close(fa, fb, tol, scale)):
            self.failures.append({'check': name, 'info': '%r > %r' % (a, b)})

    def check_lt(self, name, a, b, tol=TOL, scale=1e-9):
        self.check_le(name, a, b, tol, scale)


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, replay, scratch=None, rng=None):
        self.e = eng
        self.pool = []
        eng.sampler = self.find
        self.replay = replay            # callable(inputs) -> native result
        self.scratch = scratch
        self._tmp = None
        self.results = []               # obligations
        self.violations = []
        self.inconclusive = []
        self.observed = []              # (name, term or number)
        self.inputs = {}                # name -> (kind, term, lo, hi)
        self.failed_names = set()

    # ---- inputs ---------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        from . import core
        import z3
        assert name not in self.inputs, name
        v = z3.Real(name)
        self.inputs[name] = ('real', v, lo, hi)
        if lo is not None:
            self.e.add(v >= core.rv(core.frac(lo)))
        if hi is not None:
            self.e.add(v <= core.rv(core.frac(hi)))
        return core.SymReal(v)

    def int(self, name, lo, hi):
        from . import core
        import z3
        assert name not in self.inputs, name
        v = z3.Int(name)
        self.inputs[name] = ('int', v, lo, hi)
        self.e.add(z3.And(v >= lo, v <= hi))
        return core.SymInt(v)

    def choice(self, name, options):
        assert name not in self.inputs, name
        k = self.e.choose(len(options)) if len(options) > 1 else 0
        self.inputs[name] = ('choice', k, 0, len(options) - 1)
        return options[k]

    def bool(self, name):
        """A symbolic truth value, decided when the code looks at it."""
        from . import core
        import z3
        v = z3.Int(name)
        self.inputs[name] = ('int', v, 0, 1)
        self.e.add(z3.And(v >= 0, v <= 1))
        return core.SymBool(v == 1)

    def flag(self, name):
        return bool(self.bool(name))

    def dt(self, name, lo, hi, seconds=False, date=False):
        """A date, datetime at midnight, or datetime to the second."""
        from . import core, symdt
        import z3
        y = self.int(name + '.y', lo.year, hi.year).t
        m = self.int(name + '.m', 1, 12).t
        d = self.int(name + '.d', 1, 31).t
        u = 0
        if seconds:
            u = self.int(name + '.s', 0, 86399).t * 10**6
        self.e.add(d <= symdt.dim(y, m))
        r = symdt.SymDatetime((y, m, d), None, u, date)
        for c in (lo <= r.as_datetime(), r.as_datetime() <= hi):
            if c is not True:
                self.e.assume(c)
        return r

    def stamp(self, d):
        """Seconds since 0001-01-01."""
        from . import core, symdt
        import z3
        if type(d) is symdt.SymDatetime:
            return core.SymReal(z3.ToReal(d.key())) / 10**6
        return Base.stamp(self, d)

    def name(self, name, pool):
        from . import symtext
        return symtext.make(self.int(name, 0, len(pool) - 1).t, pool)

    def text(self, s):
        """Text read back from a file, with the symbolic names in it."""
        from . import symtext
        return symtext.wrap(s)

    def num(self, text):
        """The number some text states."""
        x = self.e.from_token(text)
        return float(text) if x is None else x

    def tok(self, x):
        from . import core
        if core.is_sym(x):
            return self.e.token_for(x)
        return repr(x)

    def assume(self, cond):
        self.e.assume(cond)

    def case(self, cond):
        """Split the path on a condition of the scenario itself."""
        return bool(cond)

    def deriv(self, f, x, h=None):
        from . import core
        xd = core.SymReal(x.n, x.d, core.as_real(1))
        y = f(xd)
        if type(y) is core.SymReal:
            return y.dot if y.dot is not None else 0.0
        return 0.0

    def fn(self, name, x):
        from . import core
        if not core.is_sym(x):
            return getattr(math, name)(x)
        return self.e.fn(name, x)

    def observe(self, name, v):
        from . import core
        for p, x in leaves(v):
            if type(x) is core.SymReal or type(x) is core.SymInt:
                self.observed.append((name + p, x.t, TOL, 1e-6))
            elif isinstance(x, bool) or not core.is_num(x):
                try:
                    self.observed.append((name + p, float(x), TOL, 1e-6))
                except Exception:
                    pass
            else:
                self.observed.append((name + p, float(x), TOL, 1e-6))

    # ---- obligations ----------------------------------------------------
    def _result(self, name, status):
        self.results.append((name, status))

    def _candidate(self, name, neg, info=None, stronger=()):
        """neg is satisfiable: get models, replay them natively."""
        tried = 0
        if name.split('[')[0] in self.failed_names and len(
                self.violations) >= 3:
            self._result(name, 'violated')
            return
        for extra in list(stronger) + [()]:
            r = self.e.check(neg, *extra, ms=self.e.query_ms)
            if self.e.last_model is None:
                continue
            for inputs in self.models_near(self.e.last_model, [neg, *extra],
                                           3):
                tried += 1
                nat = self.replay(inputs)
                if nat['failures']:
                    self.failed_names.add(name.split('[')[0])
                    self.violations.append({
                        'check': name, 'inputs': inputs,
                        'native': nat['failures'][:3], 'symbolic': info})
                    self._result(name, 'violated')
                    return
        self._result(name, 'inconclusive')
        self.inconclusive.append('%s: a counterexample of the encoding did '
                                 'not reproduce natively (%d tried) %s'
                                 % (name, tried, info or ''))

    def check(self, name, cond, info=None):
        from . import core
        import z3
        if type(cond) is not core.SymBool:
            if bool(cond):
                self._result(name, 'concrete')
                return
            self._candidate(name, z3.BoolVal(True), info)
            return
        neg = z3.simplify(z3.Not(cond.t))
        self._query(name, neg, info)

    def _query(self, name, neg, info=None, margin=None):
        import z3
        if z3.is_false(neg):
            self._result(name, 'simplified')
            return True
        if self.e.fdefs and self._evaluated(
                name, neg if margin is None else margin, info):
            return False
        r = self.e.check(neg, ms=self.e.query_ms)
        if r == z3.unsat:
            self._result(name, 'unsat')
            return True
        if margin is not None:
            m = self.e.check(margin, ms=self.e.query_ms)
            if m == z3.unsat:
                self._result(name, 'unsat-margin')
                return True
            if m == z3.unknown:
                self._result(name, 'inconclusive')
                self.inconclusive.append('%s: solver gave no answer' % name)
                self._sample(name)
                return False
            self._candidate(name, margin, info)
            return False
        if r == z3.unknown:
            self._result(name, 'inconclusive')
            self.inconclusive.append('%s: solver gave no answer' % name)
            self._sample(name)
            return False
        self._candidate(name, neg, info)
        return False

    def _evaluated(self, name, neg, info):
        """A counterexample found by evaluating the encoding, replayed."""
        if name.split('[')[0] in self.failed_names and len(
                self.violations) >= 3:
            self._result(name, 'violated')
            return True
        for inputs in self.quick_points(2, [neg], tries=6):
            nat = self.replay(inputs)
            if nat['failures']:
                self.failed_names.add(name.split('[')[0])
                self.violations.append({
                    'check': name, 'inputs': inputs,
                    'native': nat['failures'][:3], 'symbolic': info})
                self._result(name, 'violated')
                return True
        return False

    def _sample(self, name):
        """After an inconclusive query: still replay a few models."""
        if self.e.fdefs:
            for inputs in self.quick_points(3):
                nat = self.replay(inputs)
                if nat['failures']:
                    self.violations.append({'check': name, 'inputs': inputs,
                                            'native': nat['failures'][:3],
                                            'symbolic': 'sampled'})
                    return
        if self.e.check() is None or self.e.last_model is None:
            return
        for inputs in self.models_near(self.e.last_model, [], 3):
            nat = self.replay(inputs)
            if nat['failures']:
                self.violations.append({'check': name, 'inputs': inputs,
                                        'native': nat['failures'][:3],
                                        'symbolic': 'sampled'})
                return

    def check_eq(self, name, a, b, tol=TOL, scale=1e-9):
        from . import core
        import z3
        if not core.is_sym(a) and not core.is_sym(b):
            na = core.is_num(a) or not isinstance(a, (str, bytes, type(None)))
            try:
                fa, fb = float(a), float(b)
                ok = fa == fb or abs(fa - fb) <= tol * max(
                    abs(fa), abs(fb), scale)
                self.observed.append((name + '.a', fa, tol, scale))
                self.observed.append((name + '.b', fb, tol, scale))
            except (TypeError, ValueError):
                ok = a == b
            self.check(name, bool(ok), info='%r != %r' % (a, b))
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.check(name, False, info='%r != %r' % (a, b))
            return
        try:
            ra, rb = core.as_real(a), core.as_real(b)
        except core.Unsupported:
            self.check(name, False, info='%r != %r' % (a, b))
            return
        ra, rb = ra.primal(), rb.primal()
        self.observed.append((name + '.a', ra.t, tol, scale))
        self.observed.append((name + '.b', rb.t, tol, scale))
        diff = ra - rb
        if type(diff) is not core.SymReal:
            neg = z3.BoolVal(diff != 0)
        else:
            n = core.expand(diff.n)
            if z3.is_rational_value(n):
                neg = z3.BoolVal(n.as_fraction() != 0)
            else:
                neg = z3.simplify(n != 0)
        if z3.is_false(neg):
            self._result(name, 'simplified')
            return
        x, y, d, one = self._over(ra, rb, diff)
        k = core.rv(core.frac(max(MARGIN, 10 * tol)))
        s = core.rv(core.frac(max(scale, 1e-9))) * one

        def far(k):
            def big(u):
                return z3.Or(z3.And(d > k * u, d > -k * u),
                             z3.And(-d > k * u, -d > -k * u))
            return z3.And(big(x), big(y), z3.Or(d > k * s, -d > k * s))
        self._query(name, neg, info='not equal', margin=far(k))

    def _over(self, a, b, diff):
        """a, b and a-b times their common denominator, if it is positive."""
        from . import core
        if type(diff) is not core.SymReal:
            diff = core.as_real(diff)
        if not (a.d or b.d or diff.d):
            return (core.expand(a.n), core.expand(b.n), core.expand(diff.n),
                    core.ONE)
        d, ma, mb = core._lcm(a.d, b.d)
        if not all(p % 2 == 0 or self.e.positive(f) for f, p in d.values()):
            return a.t, b.t, diff.t, core.ONE
        na = a.n if ma is None else a.n * ma
        nb = b.n if mb is None else b.n * mb
        return (core.expand(na), core.expand(nb), core.expand(na - nb),
                core.SymReal(core.ONE, d).den())

    def _ineq(self, name, a, b, tol, scale, strict):
        from . import core
        import z3
        if not core.is_sym(a) and not core.is_sym(b):
            fa, fb = float(a), float(b)
            self.check(name, fa <= fb or abs(fa - fb) <= tol * max(
                abs(fa), abs(fb), scale), info='%r > %r' % (a, b))
            return
        ra, rb = core.as_real(a).primal(), core.as_real(b).primal()
        self.observed.append((name + '.a', ra.t, tol, scale))
        self.observed.append((name + '.b', rb.t, tol, scale))
        c = (ra < rb) if strict else (ra <= rb)
        if type(c) is core.SymBool:
            neg = z3.simplify(z3.Not(c.t))
        else:
            neg = z3.BoolVal(not c)
        x, y, d, one = self._over(ra, rb, ra - rb)
        k = core.rv(core.frac(max(MARGIN, 10 * tol)))
        s = core.rv(core.frac(max(scale, 1e-9))) * one
        m = z3.And(d > k * x, d > -k * x, d > k * y, d > -k * y, d > k * s)
        self._query(name, neg, info='not ordered', margin=m)

    def check_le(self, name, a, b, tol=TOL, scale=1e-9):
        self._ineq(name, a, b, tol, scale, False)

    def check_lt(self, name, a, b, tol=TOL, scale=1e-9):
        self._ineq(name, a, b, tol, scale, True)

    # ---- models ---------------------------------------------------------
    def inputs_of(self, model):
        out = {}
        for name, (kind, v, lo, hi) in self.inputs.items():
            if kind == 'choice':
                out[name] = v
            else:
                out[name] = str(self.e.value(model, v))
        return out

    def substitution(self, inputs):
        from . import core
        import z3
        return [(v, core.rv(Fraction(inputs[k])) if kind == 'real' else
                 z3.IntVal(int(Fraction(inputs[k]))))
                for k, (kind, v, _, _) in self.inputs.items()
                if kind != 'choice']

    def point(self, base=None):
        """Random inputs, or base with some of its inputs changed."""
        rng = self.e.rng
        out = {}
        some = [k for k, v in self.inputs.items() if v[0] != 'choice']
        change = some if base is None else rng.sample(
            some, min(len(some), rng.choice([1, 1, 2, 3])))
        for name, (kind, v, lo, hi) in self.inputs.items():
            if kind == 'choice':
                out[name] = v
                continue
            if base is not None and name in base and name not in change:
                out[name] = base[name]
                continue
            lo = -1000 if lo is None else lo
            hi = 1000 if hi is None else hi
            if kind == 'int':
                out[name] = str(rng.randint(int(lo), int(hi)))
                continue
            c = rng.uniform(0.02, 0.98)
            if lo > 0 and hi / lo > 100:
                x = math.exp(math.log(lo) + c * math.log(hi / lo))
            else:
                x = lo + c * (hi - lo)
            out[name] = str(Fraction(round(x * 2**16), 2**16)
                            if abs(x) > 0.1 else Fraction(x))
        return out

    def find(self, cons, tries=40):
        """Inputs on this path that satisfy cons, by evaluation, or None."""
        if not any(v[0] != 'choice' for v in self.inputs.values()):
            return None
        for _ in range(tries):
            base = None
            if self.pool and self.e.rng.random() < 0.7:
                base = self.e.rng.choice(self.pool)
            out = self.point(base)
            sub = self.e.fn_values(self.substitution(out))
            if sub is None:
                continue
            if self.e.holds(sub, ()):
                self.pool.append(out)
                del self.pool[:-8]
                if self.e.holds(sub, cons, path=False):
                    self.found = out
                    return self.substitution(out)
        return None

    def quick_points(self, n, cons=(), tries=12):
        """Inputs on this path found by evaluation, without a query."""
        for _ in range(n):
            if self.find(cons, tries) is None:
                return
            yield self.found

    def models_near(self, model, cons, n):
        """The model itself, and up to n-1 more spread over the domain."""
        from . import core
        import z3
        yield self.nice(model, cons)
        for _ in range(n - 1):
            extra = []
            names = [k for k, v in self.inputs.items()
                     if v[0] in ('real', 'int')]
            self.e.rng.shuffle(names)
            m = None
            for nm in names[:10]:
                kind, v, lo, hi = self.inputs[nm]
                lo = -1e3 if lo is None else lo
                hi = 1e3 if hi is None else hi
                c = self.e.rng.uniform(0.1, 0.9)
                if kind == 'int':
                    t = int(lo + c * (hi - lo) + 0.5)
                    for con in (v == t, v > t, v < t):
                        if self.e.check(*cons, *extra, con,
                                        ms=400) == z3.sat:
                            extra.append(con)
                            m = self.e.last_model
                            break
                    continue
                if lo > 0 and hi / lo > 100:
                    mid = math.exp(math.log(lo) + c * math.log(hi / lo))
                else:
                    mid = lo + c * (hi - lo)
                w = max(abs(mid) * 0.2, (hi - lo) * 1e-3)
                con = z3.And(v >= core.rv(core.frac(mid - w)),
                             v <= core.rv(core.frac(mid + w)))
                if self.e.check(*cons, *extra, con, ms=800) == z3.sat:
                    extra.append(con)
                    m = self.e.last_model
            if m is None:
                return
            yield self.nice(m, cons + extra)

    def nice(self, model, cons):
        """Prefer dyadic values close to the model's when they also work."""
        from . import core
        import z3
        raw = self.inputs_of(model)
        out = dict(raw)
        subst = []
        for name, (kind, v, lo, hi) in self.inputs.items():
            if kind == 'real':
                f = Fraction(raw[name])
                r = Fraction(float(f)).limit_denominator(10**6)
                r = Fraction(round(f * 2**16), 2**16)
                if abs(r - f) > abs(f) / 10**4:
                    r = f
                out[name] = str(r)
                subst.append((v, core.rv(r)))
            elif kind == 'int':
                subst.append((v, z3.IntVal(int(Fraction(raw[name])))))
        if not self.e.fns:
            ok = all(z3.is_true(z3.simplify(z3.substitute(c, *subst)))
                     for c in list(self.e.pc) + list(cons)) if subst else True
            if ok:
                return out
        return raw

    def witness(self):
        """End of path: replay one model natively and compare values."""
        import z3
        points = list(self.quick_points(2)) if self.e.fdefs else []
        if not points:
            r = self.e.check()
            if self.e.last_model is None:
                return {'status': 'unsat' if r == z3.unsat else 'unknown'}
            points = self.models_near(self.e.last_model, [], 2)
        last = None
        for inputs in points:
            last = inputs
            nat = self.replay(inputs)
            if nat['failures']:
                return {'status': 'failed', 'inputs': inputs,
                        'failures': nat['failures'][:3]}
        # compare what both runs computed
        from . import core
        sub = self.substitution(last)
        sub = self.e.fn_values(sub) or sub
        mism = 0
        comp = 0
        if nat.get('stopped'):
            return {'status': 'stopped', 'inputs': last, 'compared': 0,
                    'mismatch': 0}
        nd = {}
        for k, x in nat['seen']:
            nd.setdefault(k, []).append(x)
        used = {}
        first = None
        for k, t, tol, scale in self.observed:
            i = used.get(k, 0)
            used[k] = i + 1
            if k not in nd or i >= len(nd[k]):
                mism += 1
                first = first or (k, 'missing')
                continue
            x = nd[k][i]
            if isinstance(t, float):
                y = t
            else:
                v = z3.simplify(z3.substitute(t, *sub)) if sub else t
                if z3.is_int_value(v):
                    y = float(v.as_long())
                elif z3.is_rational_value(v):
                    y = float(v.as_fraction())
                else:
                    continue        # depends on a function variable
            comp += 1
            if not (x == y or (x != x and y != y) or
                    abs(x - y) <= 10 * tol * max(abs(x), abs(y), scale,
                                                 1e-4)):
                mism += 1
                first = first or (k, x, y)
        return {'status': 'ok', 'inputs': last, 'compared': comp,
                'mismatch': mism, 'first_mismatch': first}
