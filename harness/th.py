"""Packages and streams of thermochemical materials: shared scenarios.

Enthalpy balances that solve for a temperature use three compounds with
constant heat capacity, which makes enthalpy linear in temperature; the
isothermal operations are also run on shipped data.
"""
from harness.elements import MASS
from harness.pk import COUNTS, element_mass, elements, plus

# name -> (formula, DHref J/mol, Cp J/mol/K)
DATA = {'SiO2[S1]': ('SiO2', -910700.0, 44.6),
        'CaO[S]': ('CaO', -635090.0, 42.4),
        'H2O[L]': ('H2O', -285830.0, 75.3),
        'MgO[S]': ('MgO', -601600.0, 37.2),
        'SiO2[S2]': ('SiO2', -903490.0, 60.2)}
A = ['SiO2[S1]', 'CaO[S]', 'H2O[L]']
B = ['H2O[L]', 'SiO2[S1]']
ROWS = A
# two phases of one compound
PHASES = ['SiO2[S2]', 'CaO[S]', 'SiO2[S1]']
# not subsets of A
OTHERS = [(['CaO[S]', 'MgO[S]'], 'd'), (['SiO2[S1]', 'CaO[S]', 'MgO[S]'], 'a')]
LISTS = [A, ['SiO2[S1]', 'MgO[S]', 'H2O[L]', 'CaO[S]'], ['MgO[S]'],
         ['MgO[S]', 'SiO2[S1]', 'CaO[S]'], PHASES]


def molar(c):
    f = DATA[c][0]
    return sum(n * MASS[e] for e, n in COUNTS[f].items())


def el_mass(masses, el):
    return sum(element_mass({DATA[c][0]: m}, el) for c, m in masses.items())


def install():
    """Put the constant heat capacity compounds in the module's table."""
    from auxi.tools.chemistry import thermochemistry as th
    phases = {}
    for c, (f, dh, cp) in DATA.items():
        ph = c.split('[')[1][:-1]
        phases.setdefault(f, {})[ph] = {
            'Symbol': ph, 'DHref': dh, 'Sref': 50.0, 'Cp_records': {
                '9000.0': {'Tmin': 298.15, 'Tmax': 9000.0, 'Terms': [
                    {'Coefficient': cp, 'Exponent': 0.0}]}}}
    for f in phases:
        th.compounds[f] = th.Compound({'Formula': f, 'Phases': phases[f]})


def enthalpy(masses, T):
    """[kWh] of {compound: kg} at T [C], constant heat capacities."""
    H = 0.0
    for c, m in masses.items():
        f, dh, cp = DATA[c]
        H = H + m * ((dh + cp * (T - 25.0)) / (3600.0 * molar(c)))
    return H


class Package:
    word, cls, create = 'package', 'MaterialPackage', 'create_package'
    mass, H, amount = 'mass', 'H', 'amount'
    comp, comp_amounts = 'get_compound_mass', 'get_compound_amounts'
    comp_amount = 'get_compound_amount'
    els, el_dict = 'get_element_masses', 'get_element_mass_dictionary'
    el = 'get_element_mass'


class Stream:
    word, cls, create = 'stream', 'MaterialStream', 'create_stream'
    mass, H, amount = 'mfr', 'Hfr', 'afr'
    comp, comp_amounts = 'get_compound_mfr', 'get_compound_afrs'
    comp_amount = 'get_compound_afr'
    els, el_dict = 'get_element_mfrs', 'get_element_mfr_dictionary'
    el = 'get_element_mfr'


class Kit:
    """Scenario bodies for one of the two kinds."""

    def __init__(self, kind):
        self.k = kind

    # ---- access ----------------------------------------------------------
    def mass(self, p):
        return getattr(p, self.k.mass)

    def H(self, p):
        return getattr(p, self.k.H)

    def set_H(self, p, v):
        setattr(p, self.k.H, v)

    def comp(self, p, c):
        return getattr(p, self.k.comp)(c)

    def material(self, ctx, name, compounds, extra='', file=None):
        from auxi.modelling.process.materials import thermo
        return thermo.Material(name, ctx.write(
            (file or name) + '.txt', 'Compound x\n' + ''.join(
                '%s 1.0\n' % c for c in compounds) + extra))

    def make(self, ctx, mat, masses, P, T):
        import numpy
        from auxi.modelling.process.materials import thermo
        return getattr(thermo, self.k.cls)(
            mat, numpy.array([masses[c] for c in mat.compounds]), P, T)

    def draw(self, ctx, prefix, compounds, hi=1e3, lo=0.0):
        return {c: ctx.real('%s%d' % (prefix, i), lo, hi)
                for i, c in enumerate(compounds)}

    def PT(self, ctx, prefix):
        return (ctx.real(prefix + 'P', 0.1, 10.0),
                ctx.real(prefix + 'T', -50.0, 1500.0))

    def pair(self, ctx, cs=A, other=B, name='b'):
        """Two packages with a positive amount of material each."""
        install()
        a = self.material(ctx, 'a', cs)
        b = a if other is cs else self.material(ctx, name, other, file='b')
        x, y = self.draw(ctx, 'x', cs), self.draw(ctx, 'y', other)
        ctx.assume(sum(x.values()) >= 0.1)
        ctx.assume(sum(y.values()) >= 0.1)
        (P, T), (Q, U) = self.PT(ctx, 'p'), self.PT(ctx, 'q')
        return (a, x, P, T, self.make(ctx, a, x, P, T)), \
            (b, y, Q, U, self.make(ctx, b, y, Q, U))

    def one(self, ctx, cs=A, floor=0.1):
        install()
        a = self.material(ctx, 'a', cs)
        x = self.draw(ctx, 'x', cs)
        ctx.assume(sum(x.values()) >= floor)
        P, T = self.PT(ctx, 'p')
        return a, x, P, T, self.make(ctx, a, x, P, T)

    # ---- what has to hold ------------------------------------------------
    def masses(self, ctx, name, p, want):
        for c in p.material.compounds:
            ctx.check_eq('%s: mass of %s' % (name, c), self.comp(p, c),
                         want.get(c, 0.0))
        ctx.check_eq(name + ': total mass', self.mass(p), sum(want.values()))

    def state(self, ctx, name, p, want, P, T):
        """Contents, pressure and temperature; the enthalpy follows."""
        self.masses(ctx, name, p, want)
        ctx.check_eq(name + ': pressure', p.P, P)
        ctx.check_eq(name + ': temperature', p.T, T, scale=1.0, tol=1e-6)
        ctx.check_eq(name + ': enthalpy', self.H(p), enthalpy(want, T),
                     scale=1e-3, tol=1e-6)

    def balance(self, ctx, name, p, want, P, H):
        """Contents and enthalpy; the temperature agrees with them."""
        self.masses(ctx, name, p, want)
        ctx.check_eq(name + ': pressure', p.P, P)
        ctx.check_eq(name + ': enthalpy', self.H(p), H, scale=1e-3, tol=1e-6)
        ctx.check_eq(name + ': temperature and enthalpy agree',
                     enthalpy(want, p.T), H, scale=1e-2, tol=1e-6)

    # ---- bodies ----------------------------------------------------------
    def properties(self, ctx):
        A = ctx.choice('compounds', LISTS)
        a, x, P, T, p = self.one(ctx, A)
        self.state(ctx, self.k.word, p, x, P, T)
        es = elements([DATA[c][0] for c in A])
        ctx.check('elements', list(a.elements) == es)
        e = getattr(p, self.k.els)()
        d = getattr(p, self.k.el_dict)()
        ctx.check('dictionary keys', sorted(d) == es)
        for i, s in enumerate(es):
            ctx.check_eq('element mass[%s]' % s, e[i], el_mass(x, s))
            ctx.check_eq('element mass by name[%s]' % s,
                         getattr(p, self.k.el)(s), el_mass(x, s))
            ctx.check_eq('element mass dictionary[%s]' % s, d[s],
                         el_mass(x, s))
        ctx.check_eq('elements add up', sum(e), self.mass(p))
        want = ctx.choice('elements', [['O', 'Cr', 'Si'], ['Si'],
                                       ['Mg', 'H', 'O', 'Ca', 'O']])
        f = getattr(p, self.k.els)(want)
        ctx.check('one for each element', len(f) == len(want))
        for s, v in zip(want, f):
            ctx.check_eq('requested element[%s]' % s, v, el_mass(x, s))
        n = getattr(p, self.k.comp_amounts)()
        for i, c in enumerate(A):
            ctx.check_eq('amount of %s' % c, n[i] * molar(c), x[c])
            ctx.check_eq('amount of %s by name' % c,
                         getattr(p, self.k.comp_amount)(c), n[i])
        ctx.check_eq('total amount', getattr(p, self.k.amount), sum(n))
        y = p.get_assay()
        ctx.check_eq('the assay adds up to one', sum(y), 1.0)
        for i, c in enumerate(A):
            ctx.check_eq('assay[%s]' % c, y[i] * sum(x.values()), x[c],
                         tol=1e-6, scale=1e-3)
        for c in DATA:
            if c not in A:
                ctx.check_eq('a compound that is not in the material',
                             self.comp(p, c), 0.0)

    def set_temperature(self, ctx):
        a, x, P, T, p = self.one(ctx)
        U = ctx.real('U', 0, 1500)
        p.T = U
        self.state(ctx, 'at the new temperature', p, x, P, U)
        Q = ctx.real('Q', 0.1, 10)
        p.P = Q
        self.state(ctx, 'at the new pressure', p, x, Q, U)
        self.set_H(p, enthalpy(x, T))
        self.balance(ctx, 'at the old enthalpy', p, x, Q, enthalpy(x, T))
        ctx.check_eq('the old temperature', p.T, T, scale=10.0, tol=1e-6)

    def addition(self, ctx, other, name='b'):
        (a, x, P, T, p), (b, y, Q, U, q) = self.pair(ctx, A, other, name)
        r = p + q
        ctx.check('the material is that of the left operand',
                  r.material is a)
        ctx.check('a new object', r is not p and r is not q)
        self.balance(ctx, 'sum', r, plus(x, y), P,
                     enthalpy(x, T) + enthalpy(y, U))
        self.state(ctx, 'left operand', p, x, P, T)
        self.state(ctx, 'right operand', q, y, Q, U)

    def addition_same(self, ctx):
        self.addition(ctx, A)

    def addition_other(self, ctx):
        self.addition(ctx, *ctx.choice('other', [
            (B, 'b'), (A[::-1], 'a'), (A[1:] + A[:1], 'b')]))

    def mixing_at_one_temperature(self, ctx):
        install()
        a = self.material(ctx, 'a', A)
        x, y = self.draw(ctx, 'x', A), self.draw(ctx, 'y', A)
        ctx.assume(sum(x.values()) >= 0.1)
        P, T = self.PT(ctx, 'p')
        p, q = self.make(ctx, a, x, P, T), self.make(ctx, a, y, P, T)
        r = p + q
        self.balance(ctx, 'sum', r, plus(x, y), P,
                     enthalpy(plus(x, y), T))
        ctx.check_eq('the temperature stays', r.T, T, scale=10.0, tol=1e-6)

    def addition_compound(self, ctx):
        A = ctx.choice('compounds', [ROWS, PHASES])
        a, x, P, T, p = self.one(ctx, A)
        c = ctx.choice('compound', A)
        m = ctx.real('m', 0, 1e9)
        r = p + (c, m)
        self.state(ctx, 'sum', r, plus(x, {c: m}), P, T)
        self.state(ctx, 'operand', p, x, P, T)

    def addition_compound_at(self, ctx):
        a, x, P, T, p = self.one(ctx)
        c = ctx.choice('compound', A)
        m, U = ctx.real('m', 0, 1e3), ctx.real('U', 0, 1500)
        r = p + (c, m, U)
        self.balance(ctx, 'sum', r, plus(x, {c: m}), P,
                     enthalpy(x, T) + enthalpy({c: m}, U))
        self.state(ctx, 'operand', p, x, P, T)

    def multiplication(self, ctx):
        a, x, P, T, p = self.one(ctx)
        k = ctx.real('k', 1e-3, 100)
        self.state(ctx, 'product', p * k, {c: k * m for c, m in x.items()},
                   P, T)
        self.state(ctx, 'operand', p, x, P, T)

    def extraction(self, ctx):
        A = ctx.choice('compounds', [ROWS, PHASES])
        B = A[::-1][:2]
        a, x, P, T, p = self.one(ctx, A)
        how = ctx.choice('how', ['mass', 'compound', 'part', 'material'])
        f = 1.0 if how in ('compound', 'material') else ctx.real('f', 0, 1)
        c = ctx.choice('compound', A) if how in ('compound', 'part') else None
        mat = a
        if how == 'mass':
            r = p.extract(f * self.mass(p))
            out = {k: f * x[k] for k in A}
        elif how == 'compound':
            r = p.extract(c)
            out = {k: x[k] if k == c else 0.0 for k in A}
        elif how == 'part':
            r = p.extract((c, f * self.comp(p, c)))
            out = {k: f * x[k] if k == c else 0.0 for k in A}
        else:
            mat = self.material(ctx, 'b', B)
            r = p.extract(mat)
            out = {k: x[k] if k in B else 0.0 for k in A}
        ctx.check('a new object of the expected material',
                  r is not p and r.material is mat)
        self.state(ctx, 'extracted', r, out, P, T)
        self.state(ctx, 'remainder', p, {k: x[k] - out[k] for k in A}, P, T)

    def refusals(self, ctx):
        how = ctx.choice('what', ['mass', 'part', 'factor', '+', 'unknown',
                                  'type'])
        other, name = ctx.choice('other', OTHERS) if how == '+' else OTHERS[0]
        (a, x, P, T, p), (b, y, Q, U, q) = self.pair(ctx, A, other, name)
        m = ctx.real('more', 1e-7, 1e3)
        if how == 'mass':
            ctx.raises('too much', Exception,
                       lambda: p.extract(self.mass(p) + m))
        elif how == 'part':
            c = ctx.choice('c', A)
            ctx.raises('too much of a compound', Exception,
                       lambda: p.extract((c, self.comp(p, c) + m)))
        elif how == 'factor':
            ctx.raises('negative factor', Exception, lambda: p * (-m))
        elif how == '+':
            ctx.raises('incompatible material', Exception, lambda: p + q)
        elif how == 'unknown':
            c = ctx.choice('c', ['MgO[S]', 'SiO2[S2]'])
            for f in (lambda: p + (c, m), lambda: p + (c, m, 100.0)):
                ctx.raises('unknown compound', Exception, f)
            for r in (p.extract(c), p.extract((c, m))):
                ctx.check_eq('nothing is extracted', self.mass(r), 0.0)
        else:
            for f in (lambda: p + 'a', lambda: p + m, lambda: p * 'a',
                      lambda: p.extract(None),
                      lambda: p.extract(('CaO[S]',))):
                ctx.raises('wrong type', Exception, f)
        self.state(ctx, 'left operand', p, x, P, T)
        self.state(ctx, 'right operand', q, y, Q, U)

    def empty(self, ctx):
        """Empty ones: creation, clearing, addition."""
        a, x, P, T, p = self.one(ctx)
        none = {c: 0.0 for c in A}
        e = getattr(a, self.k.create)(P=P, T=T)
        how = ctx.choice('how', ['clear', 'left', 'right', 'both', 'fill',
                                 'drain'])
        if how == 'clear':
            p.clear()
            self.state(ctx, 'cleared', p, none, 1.0, 25.0)
        elif how == 'left':
            self.balance(ctx, 'empty + p', e + p, x, P, enthalpy(x, T))
        elif how == 'right':
            self.balance(ctx, 'p + empty', p + e, x, P, enthalpy(x, T))
        elif how == 'both':
            r = e + getattr(a, self.k.create)()
            self.masses(ctx, 'empty + empty', r, none)
            ctx.check_eq('enthalpy of nothing', self.H(r), 0.0)
            r = r + ('CaO[S]', x['CaO[S]'])
            self.masses(ctx, 'refilled', r, plus(none, {
                'CaO[S]': x['CaO[S]']}))
            ctx.check_eq('refilled: temperature and enthalpy agree',
                         self.H(r), enthalpy({'CaO[S]': x['CaO[S]']}, r.T),
                         scale=1e-3, tol=1e-6)
        elif how == 'fill':
            r = e + ('CaO[S]', x['CaO[S]'])
            self.state(ctx, 'filled', r, plus(none, {
                'CaO[S]': x['CaO[S]']}), P, T)
        else:
            for c in A:
                p.extract(c)
            self.state(ctx, 'drained', p, none, P, T)

    def copies(self, ctx):
        a, x, P, T, p = self.one(ctx)
        p.custom_properties['Price'] = 1.0
        q = p.clone()
        self.state(ctx, 'clone', q, x, P, T)
        ctx.check('custom properties', q.custom_properties == {'Price': 1.0})
        how = ctx.choice('change', ['T', 'P', 'extract', 'clear', 'H',
                                    'property'])
        U = ctx.real('U', 0, 1500)
        which = ctx.choice('which', [0, 1])
        r, s = (p, q) if which else (q, p)
        if how == 'T':
            r.T = U
        elif how == 'P':
            r.P = 3.0
        elif how == 'extract':
            r.extract('CaO[S]')
        elif how == 'clear':
            r.clear()
        elif how == 'H':
            self.set_H(r, enthalpy(x, U))
        else:
            r.custom_properties['Price'] = 2.0
        self.state(ctx, 'the other one', s, x, P, T)
        ctx.check_eq('its custom properties', s.custom_properties['Price'],
                     1.0)

    def shipped(self, ctx):
        """Operations at one temperature on the shipped data."""
        from auxi.tools.chemistry import thermochemistry as th
        th.load_data_auxi()
        cs = ['CaO[S]', 'Fe2O3[Salpha]', 'MgO[S]', 'O2[G]']
        a = self.material(ctx, 'a', cs)
        x = self.draw(ctx, 'x', cs)
        ctx.assume(sum(x.values()) >= 0.1)
        T = ctx.real('T', 30.0, 600.0)
        p = self.make(ctx, a, x, 1.0, T)

        def H(w, t):
            return sum(th.H(c, t, m) for c, m in w.items())

        def same(name, r, w, t):
            self.masses(ctx, name, r, w)
            ctx.check_eq(name + ': enthalpy', self.H(r), H(w, t),
                         scale=1e-3)
            ctx.check_eq(name + ': temperature', r.T, t)
        same('as made', p, x, T)
        how = ctx.choice('how', ['T', '*', '+', 'extract', 'compound'])
        if how == 'T':
            U = ctx.real('U', 30.0, 600.0)
            p.T = U
            same('at U', p, x, U)
        elif how == '*':
            k = ctx.real('k', 1e-3, 10)
            same('product', p * k, {c: k * m for c, m in x.items()}, T)
        elif how == '+':
            m = ctx.real('m', 0, 100)
            same('sum', p + ('MgO[S]', m), plus(x, {'MgO[S]': m}), T)
        elif how == 'extract':
            f = ctx.real('f', 0, 1)
            r = p.extract(f * self.mass(p))
            same('extracted', r, {c: f * m for c, m in x.items()}, T)
            same('remainder', p, {c: m - f * m for c, m in x.items()}, T)
        else:
            r = p.extract('O2[G]')
            same('extracted', r, {c: m if c == 'O2[G]' else 0.0
                                  for c, m in x.items()}, T)
            same('remainder', p, {c: 0.0 if c == 'O2[G]' else m
                                  for c, m in x.items()}, T)

    def sizes(self, ctx):
        """Heating and mixing of any quantity, from grams of a trace to
        shiploads: the temperature does not depend on the quantity."""
        install()
        from auxi.tools.chemistry import thermochemistry as th
        th.compounds['MgO'] = th.Compound({'Formula': 'MgO', 'Phases': {'S': {
            'Symbol': 'S', 'DHref': -601600.0, 'Sref': 50.0, 'Cp_records': {
                '9000.0': {'Tmin': 298.15, 'Tmax': 9000.0, 'Terms': [
                    {'Coefficient': 20.0, 'Exponent': 0.0},
                    {'Coefficient': 0.03, 'Exponent': 1.0}]}}}}})
        cs = ['MgO[S]', 'CaO[S]']
        a = self.material(ctx, 'a', cs)
        s = ctx.real('scale', 1e-9, 1e9)
        x = {'MgO[S]': 0.75 * s, 'CaO[S]': 0.25 * s}
        T, U = ctx.choice('T', [25.0, 900.0]), ctx.choice('U', [30.0, 1490.0])
        p, q = self.make(ctx, a, x, 1.0, T), self.make(ctx, a, x, 1.0, U)
        h = self.H(q)
        how = ctx.choice('how', ['H', 'mixed'])
        if how == 'H':
            self.set_H(p, h)
            ctx.check_eq('the temperature', p.T, U, scale=10.0, tol=1e-5)
            ctx.check_eq('the enthalpy', self.H(p) / s, h / s, tol=1e-6)
        else:
            r = p + q
            t = self.make(ctx, a, {c: 2 * m for c, m in x.items()}, 1.0, r.T)
            ctx.check_eq('the enthalpy at the temperature',
                         self.H(t) / s, (self.H(p) + h) / s, tol=1e-6)
        self.masses(ctx, 'what was added', q, x)

    def piecewise_all(self, ctx):
        self.piecewise(ctx, [(40.0, 60.0), (60.0, 40.0), (30.0, 75.0),
                             (90.0, 31.0)], [0.5, 1.0, 40.0],
                       [25.0, 400.0, 430.0, 1000.0, 1390.0])

    def piecewise(self, ctx, cps=((40.0, 60.0), (60.0, 40.0)), ms=(1.0,),
                  starts=(25.0, 400.0, 1000.0)):
        """The temperature search where the heat capacity jumps."""
        from auxi.tools.chemistry import thermochemistry as th
        c1, c2 = ctx.choice('Cp', list(cps))
        th.compounds['CaO'] = th.Compound({'Formula': 'CaO', 'Phases': {'S': {
            'Symbol': 'S', 'DHref': -635090.0, 'Sref': 50.0, 'Cp_records': {
                '700.0': {'Tmin': 298.15, 'Tmax': 700.0, 'Terms': [
                    {'Coefficient': c1, 'Exponent': 0.0}]},
                '9000.0': {'Tmin': 700.0, 'Tmax': 9000.0, 'Terms': [
                    {'Coefficient': c2, 'Exponent': 0.0}]}}}}})
        T0 = ctx.choice('from', list(starts))
        T1 = ctx.real('T', 26.0, 1400.0)
        m = ctx.choice('mass', list(ms))
        a = self.material(ctx, 'a', ['CaO[S]'])
        p = self.make(ctx, a, {'CaO[S]': m}, 1.0, T0)
        q = self.make(ctx, a, {'CaO[S]': m}, 1.0, T1)
        self.set_H(p, self.H(q))
        ctx.check_eq('temperature of the enthalpy', p.T, T1, tol=1e-4,
                     scale=1.0)

    OPS = ['add compound', 'add compound at', 'add', 'double', 'multiply',
           'set T', 'set H', 'extract', 'extract compound', 'extract part',
           'clone', 'clear']

    def history(self, ctx, n, ops=None):
        """n operations; the enthalpy and the masses follow a ledger."""
        HC = ['SiO2[S1]', 'CaO[S]']
        install()
        a, b = self.material(ctx, 'a', HC), self.material(ctx, 'b', HC[1:])
        x = self.draw(ctx, 'x', HC, lo=0.1, hi=100)
        y = self.draw(ctx, 'y', HC[1:], lo=0.1, hi=100)
        P, T = self.PT(ctx, 'p')
        U = ctx.real('qT', 0, 1500)
        p, q = self.make(ctx, a, x, P, T), self.make(ctx, b, y, 1.0, U)
        w, H, V = dict(x), enthalpy(x, T), enthalpy(y, U)
        for i in range(n):
            op = ctx.choice('op%d' % i, ops or self.OPS)
            if op == 'add compound':
                m = ctx.real('m%d' % i, 0, 100)
                H = H + enthalpy({'CaO[S]': m}, p.T)
                p = p + ('CaO[S]', m)
                w = plus(w, {'CaO[S]': m})
            elif op == 'add compound at':
                m, t = ctx.real('m%d' % i, 0.1, 100), ctx.real(
                    't%d' % i, 0, 1500)
                p = p + ('SiO2[S1]', m, t)
                w = plus(w, {'SiO2[S1]': m})
                H = H + enthalpy({'SiO2[S1]': m}, t)
            elif op == 'add':
                p = p + q
                w, H = plus(w, y), H + V
            elif op == 'double':
                ctx.assume(sum(w.values()) >= 1e-2)
                p = p + p
                w, H = plus(w, w), H + H
            elif op == 'multiply':
                k = ctx.real('k%d' % i, 0.01, 10)
                p = p * k
                w, H = {c: k * m for c, m in w.items()}, k * H
            elif op == 'set T':
                t = ctx.real('t%d' % i, 0, 1500)
                p.T = t
                H = enthalpy(w, t)
            elif op == 'set H':
                ctx.assume(sum(w.values()) >= 1e-2)
                t = ctx.real('t%d' % i, 0, 1500)
                H = enthalpy(w, t)
                self.set_H(p, H)
                ctx.check_eq('temperature of the enthalpy %d' % i, p.T, t,
                             scale=10.0, tol=1e-6)
            elif op in ('extract', 'extract compound', 'extract part'):
                t = p.T
                if op == 'extract':
                    ctx.assume(sum(w.values()) >= 1e-2)
                    f = ctx.real('f%d' % i, 0, 1)
                    r = p.extract(f * self.mass(p))
                    out = {c: f * m for c, m in w.items()}
                elif op == 'extract compound':
                    r = p.extract('CaO[S]')
                    out = {c: m if c == 'CaO[S]' else 0.0
                           for c, m in w.items()}
                else:
                    f = ctx.real('f%d' % i, 0, 1)
                    r = p.extract(('SiO2[S1]', f * self.comp(p, 'SiO2[S1]')))
                    out = {c: f * m if c == 'SiO2[S1]' else 0.0
                           for c, m in w.items()}
                w = {c: w[c] - out[c] for c in w}
                self.masses(ctx, 'extracted %d' % i, r, out)
                ctx.check_eq('enthalpy is conserved by step %d' % i,
                             self.H(r) + self.H(p), H, scale=1e-2, tol=1e-6)
                ctx.check_eq('temperature of the extract %d' % i, r.T, t,
                             scale=1.0, tol=1e-6)
                H = H - enthalpy(out, t)
            elif op == 'clone':
                s = p.clone()
                p.clear()
                p = s
            elif op == 'clear':
                p.clear()
                w, H = {c: 0.0 for c in w}, 0.0
            name = 'after step %d (%s)' % (i, op)
            self.masses(ctx, name, p, w)
            ctx.check_eq(name + ': enthalpy', self.H(p), H, scale=1e-2,
                         tol=1e-6)
            ctx.check_eq(name + ': temperature and enthalpy agree',
                         enthalpy(w, p.T), self.H(p), scale=1e-2, tol=1e-6)
        self.state(ctx, 'the other operand', q, y, 1.0, U)
