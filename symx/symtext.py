"""Symbolic names: text that is any one of a pool of strings.

A SymText is a str whose characters include markers; a marker stands for the
pool member that a symbolic integer selects.  Equality of names and of
/-separated paths of names is a formula over those integers; any other look at
the characters forks over the members of the pool.
"""
import re

import z3

from . import core

A, B = '\ue000', '\ue001'
MARK = re.compile('%s([0-9]+)%s' % (A, B))


def make(term, pool):
    assert all(p and '/' not in p and A not in p for p in pool)
    assert len(set(pool)) == len(pool)
    e = core.E
    e.atoms = getattr(e, 'atoms', None) or []
    e.atoms.append((term, list(pool)))
    return SymText('%s%d%s' % (A, len(e.atoms) - 1, B))


def wrap(s):
    if isinstance(s, str) and type(s) is not SymText and A in s:
        return SymText(s)
    return s


def raw(s):
    return str.__str__(s)


def conc(s):
    """The text itself, by forking over the pools of the names in it."""
    if not isinstance(s, str):
        return s
    p = raw(s)

    def one(m):
        term, pool = core.E.atoms[int(m.group(1))]
        return pool[core.E.pick_int(core.SymInt(term))]
    return MARK.sub(one, p) if A in p else p


def _piece(x, y):
    """Equality of two path segments: a formula, a bool, or None."""
    if x == y:
        return True
    mx, my = MARK.fullmatch(x), MARK.fullmatch(y)
    if mx and my:
        (a, p), (b, q) = (core.E.atoms[int(m.group(1))] for m in (mx, my))
        return z3.Or([z3.And(a == i, b == q.index(s))
                      for i, s in enumerate(p) if s in q])
    if A not in x and A not in y:
        return False
    if my:
        mx, y = my, x
    if mx and A not in y:
        a, p = core.E.atoms[int(mx.group(1))]
        return a == p.index(y) if y in p else False
    return None


def _same(xs, ys):
    fs = []
    for x, y in zip(xs, ys):
        f = _piece(x, y)
        if f is False:
            return False
        if f is None:
            return None
        if f is not True:
            fs.append(f)
    return core.mkbool(z3.And(fs)) if fs else True


class SymText(str):
    __slots__ = ()
    __sx_as__ = str

    def plain(self):
        return str.__str__(self)

    def __str__(self):
        return self

    def __format__(self, spec):
        return format(self.plain(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SymText, (self.plain(),))

    __reduce_ex__ = lambda self, p: self.__reduce__()

    def __hash__(self):
        return hash(conc(self))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        xs, ys = self.plain().split('/'), raw(o).split('/')
        if len(xs) != len(ys):
            return False
        r = _same(xs, ys)
        return conc(self) == conc(o) if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else ~r

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymText(self.plain() + raw(o))

    def __radd__(self, o):
        return SymText(raw(o) + self.plain())

    def __mod__(self, o):
        return wrap(self.plain() % o)

    def __bool__(self):
        return True

    def __contains__(self, o):
        if o == '/':
            return '/' in self.plain()
        return conc(o) in conc(self)

    def startswith(self, o, *a):
        if not a and isinstance(o, str) and (raw(o) == '' or
                                             raw(o).endswith('/')):
            xs, ys = self.plain().split('/'), raw(o).split('/')[:-1]
            if len(xs) <= len(ys):
                return False
            r = _same(xs, ys)
            if r is not None:
                return bool(r)
        if isinstance(o, tuple):
            return any(self.startswith(x, *a) for x in o)
        return conc(self).startswith(conc(o), *a)


def _slashed(name):
    def f(self, *a, **k):
        if a and a[0] == '/':
            r = getattr(self.plain(), name)(*a, **k)
            if isinstance(r, str):
                return wrap(r)
            return type(r)(wrap(x) for x in r)
        return getattr(conc(self), name)(*a, **k)
    return f


for _n in ('split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip',
           'rstrip'):
    setattr(SymText, _n, _slashed(_n))


def _forced(name):
    def f(self, *a, **k):
        return getattr(conc(self), name)(*[conc(x) for x in a], **k)
    return f


for _n in ('endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'lower',
           'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'replace',
           'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
           'encode', 'zfill', 'center', 'ljust', 'rjust', 'splitlines',
           'translate', 'removeprefix', 'removesuffix', '__len__',
           '__iter__', '__getitem__', '__lt__', '__le__', '__gt__', '__ge__', '__mul__',
           '__rmul__'):
    setattr(SymText, _n, _forced(_n))
