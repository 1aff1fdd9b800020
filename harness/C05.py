"""Chemical packages conserve mass, compounds and elements."""
from symx.runner import scenario
from harness import pk

PRELOAD = ['auxi.modelling.process.materials.chem']

A = ['SiO2', 'Al2O3', 'Fe2O3', 'CaO']
B = ['CaO', 'SiO2']
ROWS = A
# alike but for the case of a letter, or one the beginning of another
ALIKE = ['CoO', 'CO', 'Co', 'CaO']
# not subsets of A
OTHERS = [(['SiO2', 'MgO'], 'd'), (['SiO2', 'Al2O3', 'Fe2O3', 'MgO'], 'a')]


def holds(ctx, name, p, want):
    """The package's contents are exactly want."""
    for c in p.material.compounds:
        ctx.check_eq('%s: mass of %s' % (name, c),
                     p.get_compound_mass(c), want[c])
    ctx.check_eq(name + ': total mass', p.get_mass(), sum(want.values()))


LISTS = [A, ['FeO', 'SiO2', 'Fe2O3', 'CaO', 'Fe'], ['Fe', 'Fe2O3'],
         ['TiO2', 'Al2O3', 'P4O10', 'MgO', 'FeCr2O4', 'Ca(OH)2'], ['CaO'], ALIKE]


@scenario('%d lists of 1 to 6 compounds with masses in [0, 1e6], elements '
          'from the formulas' % len(LISTS))
def element_masses(ctx):
    A = ctx.choice('compounds', LISTS)
    m = pk.chem_material(ctx, 'a', A)
    w = pk.draw(ctx, 'm', A)
    p = pk.chem_package(ctx, m, w)
    els = pk.elements(A)
    ctx.check('elements', list(m.elements) == els)
    e = p.get_element_masses()
    d = p.get_element_mass_dictionary()
    ctx.check('dictionary keys', sorted(d) == els)
    for i, s in enumerate(els):
        ctx.check_eq('element mass[%s]' % s, e[i], pk.element_mass(w, s))
        ctx.check_eq('element mass by name[%s]' % s,
                     p.get_element_mass(s), e[i])
        ctx.check_eq('element mass dictionary[%s]' % s, d[s], e[i])
    ctx.check_eq('elements add up to the mass', sum(e), p.get_mass())
    ctx.check_eq('an element that is not there', p.get_element_mass('Xe'), 0.0)
    ctx.assume(sum(w.values()) >= 1e-3)
    a = p.get_assay()
    ctx.check_eq('the assay adds up to one', sum(a), 1.0)
    for i, c in enumerate(A):
        ctx.check_eq('assay[%s]' % c, a[i] * p.get_mass(), w[c],
                     tol=1e-6, scale=1e-3)
        ctx.check_eq('mass fraction[%s]' % c,
                     p.get_compound_mass_fraction(c), a[i])


@scenario('sum of two packages of one material, or of a material whose '
          'compounds are a subset or the same in another order, of the same '
          'name or another; masses in [0, 1e9]')
def addition(ctx):
    a = pk.chem_material(ctx, 'a', A)
    cs = ctx.choice('other', [A, B, A[::-1], list(A), A[1:] + A[:1]])
    b = a if cs is A else pk.chem_material(
        ctx, ctx.choice('name', ['b', 'a']), cs, file='b')
    x, y = pk.draw(ctx, 'x', A, hi=1e9), pk.draw(ctx, 'y', cs, hi=1e9)
    p, q = pk.chem_package(ctx, a, x), pk.chem_package(ctx, b, y)
    inplace = ctx.choice('how', ['+', 'add_to'])
    if inplace == '+':
        r = p + q
        holds(ctx, 'left operand', p, x)
        ctx.check('a new package', r is not p and r is not q)
    else:
        p.add_to(q)
        r = p
    ctx.check('the sum has the material of the left operand',
              r.material is a)
    holds(ctx, 'sum', r, pk.plus(x, y))
    holds(ctx, 'right operand', q, y)
    ex, ey, er = (z.get_element_mass_dictionary() for z in (
        pk.chem_package(ctx, a, x), q, r))
    for s in er:
        ctx.check_eq('element[%s]' % s, er[s], ex[s] + ey.get(s, 0.0))


@scenario('adding a mass of one compound, each of 4 compounds')
def addition_of_a_compound(ctx):
    A = ctx.choice('compounds', [ROWS, ALIKE])
    a = pk.chem_material(ctx, 'a', A)
    x = pk.draw(ctx, 'x', A)
    p = pk.chem_package(ctx, a, x)
    c = ctx.choice('compound', A)
    m = ctx.real('m', 0, 1e9)
    if ctx.choice('how', ['+', 'add_to']) == '+':
        r = p + (c, m)
        holds(ctx, 'operand', p, x)
    else:
        p.add_to((c, m))
        r = p
    holds(ctx, 'sum', r, pk.plus(x, {c: m}))


@scenario('multiplication by any factor in [0, 100]')
def multiplication(ctx):
    a = pk.chem_material(ctx, 'a', A)
    x = pk.draw(ctx, 'x', A)
    k = ctx.real('k', 0, 100)
    p = pk.chem_package(ctx, a, x)
    r = p * k
    holds(ctx, 'operand', p, x)
    holds(ctx, 'product', r, {c: k * x[c] for c in A})


@scenario('extraction of a fraction of the mass, of one compound, or of a '
          'part of one compound')
def extraction(ctx):
    A = ctx.choice('compounds', [ROWS, ALIKE])
    a = pk.chem_material(ctx, 'a', A)
    large = ctx.flag('large')
    x = pk.draw(ctx, 'x', A, hi=1e9 if large else 1e6)
    ctx.assume(sum(x.values()) >= 1e-3)
    p = pk.chem_package(ctx, a, x)
    how = ctx.choice('how', ['mass', 'compound', 'part'])
    c = A[0] if how == 'mass' else ctx.choice('compound', A)
    f = 1.0 if how == 'compound' else ctx.real('f', 0, 0.5 if large else 1)
    if how == 'mass':
        r = p.extract(f * p.get_mass())
        want = {k: f * x[k] for k in A}
    elif how == 'compound':
        r = p.extract(c)
        want = {k: x[k] if k == c else 0.0 for k in A}
    else:
        r = p.extract((c, f * p.get_compound_mass(c)))
        want = {k: f * x[k] if k == c else 0.0 for k in A}
    ctx.check('a new package of the same material',
              r is not p and r.material is a)
    holds(ctx, 'extracted', r, want)
    holds(ctx, 'remainder', p, {k: x[k] - want[k] for k in A})


@scenario('refused: too much mass, too much of a compound, negative factor, '
          'incompatible material, unknown compound, wrong types; nothing '
          'changes')
def refusals(ctx):
    how = ctx.choice('what', ['mass', 'part', 'factor', '+', 'add_to',
                              'compound', 'type'])
    # the other material has as many compounds, or fewer
    D, name = ctx.choice('other', OTHERS) if how in ('+', 'add_to') else \
        OTHERS[0]
    a = pk.chem_material(ctx, 'a', A)
    d = pk.chem_material(ctx, name, D, file='d')
    x, y = pk.draw(ctx, 'x', A), pk.draw(ctx, 'y', D)
    ctx.assume(sum(x.values()) >= 1e-3)
    p, q = pk.chem_package(ctx, a, x), pk.chem_package(ctx, d, y)
    m = ctx.real('more', 1e-7, 1e6)
    if how == 'mass':
        ctx.raises('too much mass', Exception,
                   lambda: p.extract(p.get_mass() + m))
    elif how == 'part':
        c = ctx.choice('c', A)
        ctx.raises('too much of a compound', Exception,
                   lambda: p.extract((c, p.get_compound_mass(c) + m)))
    elif how == 'factor':
        ctx.raises('negative factor', Exception, lambda: p * (-m))
    elif how == '+':
        ctx.raises('incompatible material +', Exception, lambda: p + q)
    elif how == 'add_to':
        ctx.raises('incompatible material add_to', Exception,
                   lambda: p.add_to(q))
    elif how == 'compound':
        c = ctx.choice('c', ['MgO', 'CAO', 'CaO2', 'Ca'])
        for f in (lambda: p + (c, m), lambda: p.extract(c),
                  lambda: p.extract((c, m)),
                  lambda: p.add_to((c, m)),
                  lambda: p.get_compound_mass(c)):
            ctx.raises('unknown compound', Exception, f)
    else:
        for f in (lambda: p + 'SiO2', lambda: p + m, lambda: p * 'a',
                  lambda: p.extract(None), lambda: p.extract(('SiO2',)),
                  lambda: p.add_to(m)):
            ctx.raises('wrong type', Exception, f)
    holds(ctx, 'left operand', p, x)
    holds(ctx, 'right operand', q, y)


def step(ctx, i, p, mat, other, led, ops):
    """One operation; the ledger holds what each package has to contain.
    Returns the package under study."""
    op = ctx.choice('op%d' % i, ops)
    if op == 'add compound':
        m = ctx.real('m%d' % i, 0, 1e3)
        p = p + ('Al2O3', m)
        led[0] = pk.plus(led[0], {'Al2O3': m})
    elif op == 'add_to compound':
        m = ctx.real('m%d' % i, 0, 1e3)
        p.add_to(('CaO', m))
        led[0] = pk.plus(led[0], {'CaO': m})
    elif op == 'add':
        p = p + other
        led[0] = pk.plus(led[0], led[1])
    elif op == 'add_to':
        p.add_to(other)
        led[0] = pk.plus(led[0], led[1])
    elif op == 'double':
        p = p + p
        led[0] = pk.plus(led[0], led[0])
    elif op == 'add_to self':
        p.add_to(p)
        led[0] = pk.plus(led[0], led[0])
    elif op == 'multiply':
        k = ctx.real('k%d' % i, 0, 10)
        p = p * k
        led[0] = {c: k * v for c, v in led[0].items()}
    elif op == 'clone':
        q = p.clone()
        p.extract('SiO2')
        p = q
    elif op == 'clear clone':
        p.clone().clear()
    elif op == 'extract':
        f = ctx.real('f%d' % i, 0, 1)
        ctx.assume(p.get_mass() >= 1e-3)
        r = p.extract(f * p.get_mass())
        out = {c: f * v for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
        p, led[0] = (r, out) if ctx.choice('keep%d' % i, [0, 1]) else \
            (p, led[0])
    elif op == 'extract compound':
        r = p.extract('SiO2')
        out = {c: v if c == 'SiO2' else 0.0 for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
    elif op == 'extract part':
        f = ctx.real('f%d' % i, 0, 1)
        r = p.extract(('CaO', f * p.get_compound_mass('CaO')))
        out = {c: f * v if c == 'CaO' else 0.0 for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
    elif op == 'clear':
        p.clear()
        led[0] = {c: 0.0 for c in led[0]}
    holds(ctx, 'after step %d (%s)' % (i, op), p, led[0])
    holds(ctx, 'other after step %d (%s)' % (i, op), other, led[1])
    return p


OPS = ['add compound', 'add_to compound', 'add', 'add_to', 'double',
       'add_to self', 'multiply', 'clone', 'clear clone', 'extract',
       'extract compound', 'extract part', 'clear']


def run(ctx, n):
    cs = ['SiO2', 'Al2O3', 'CaO']
    a = pk.chem_material(ctx, 'a', cs)
    b = pk.chem_material(ctx, 'b', B)
    x, y = pk.draw(ctx, 'x', cs, 0, 1e3), pk.draw(ctx, 'y', B, 0, 1e3)
    p, q = pk.chem_package(ctx, a, x), pk.chem_package(ctx, b, y)
    led = [dict(x), dict(y)]
    for i in range(n):
        p = step(ctx, i, p, a, q, led, OPS)


@scenario('every sequence of 2 operations out of 13, 3 compounds, masses in '
          '[0, 1e3], against a ledger')
def histories_2(ctx):
    run(ctx, 2)


@scenario('every sequence of 3 operations out of 13', tier='thorough',
          max_paths=20000)
def histories_3(ctx):
    run(ctx, 3)


SCENARIOS = [element_masses, addition, addition_of_a_compound,
             multiplication, extraction, refusals, histories_2, histories_3]
