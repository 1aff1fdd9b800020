"""Mass, amount and fraction conversions."""
from symx.runner import scenario
from harness.elements import MASS

PRELOAD = ['auxi.tools.chemistry.stoichiometry']

COUNTS = {
    'H2O': {'H': 2, 'O': 1}, 'SiO2': {'Si': 1, 'O': 2},
    'FeO': {'Fe': 1, 'O': 1}, 'Fe2O3[S1]': {'Fe': 2, 'O': 3},
    'Fe': {'Fe': 1}, 'FeCr2O4': {'Fe': 1, 'Cr': 2, 'O': 4},
    'Ca(OH)2': {'Ca': 1, 'O': 2, 'H': 2}, 'CO2[G]': {'C': 1, 'O': 2},
    'CuSO4.5H2O': {'Cu': 1, 'S': 1, 'O': 9, 'H': 10},
    'O2': {'O': 2}, 'SiO2[L]': {'Si': 1, 'O': 2},
    'SiO2[S1]': {'Si': 1, 'O': 2}, 'Co': {'Co': 1}, 'CO': {'C': 1, 'O': 1},
    'CuSO4': {'Cu': 1, 'S': 1, 'O': 4}, 'CaO': {'Ca': 1, 'O': 1},
    'Mg(OH)2.5H2O[S1]': {'Mg': 1, 'O': 7, 'H': 12}}
SETS = [['H2O'], ['SiO2', 'FeO'], ['Fe2O3[S1]', 'FeO', 'Fe'],
        ['Ca(OH)2', 'CO2[G]', 'CuSO4.5H2O', 'O2', 'FeCr2O4'],
        ['SiO2[L]', 'SiO2[S1]', 'FeO'], ['SiO2', 'SiO2[S1]'], ['Co', 'CO'],
        ['SiO2[L]', 'CO', 'SiO2[S1]', 'Co', 'SiO2', 'H2O', 'Fe2O3[S1]'],
        sorted(COUNTS)]


def mm(c):
    return sum(n * MASS[e] for e, n in COUNTS[c].items())


def draw(ctx, lo=0.0, hi=1e6):
    cs = ctx.choice('compounds', SETS)
    return cs, {c: ctx.real('v%d' % i, lo, hi) for i, c in enumerate(cs)}


@scenario('single compounds, %d formulas, any mass or amount in '
          '[-1e6, 1e6]' % len(COUNTS))
def single(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    c = ctx.choice('compound', sorted(COUNTS))
    m = ctx.real('m', -1e6, 1e6)
    n = st.amount(c, m)
    ctx.check_eq('amount = mass / molar mass', n * mm(c), m)
    ctx.check_eq('mass(amount(m)) = m', st.mass(c, n), m)
    ctx.check_eq('amount(mass(n)) = n', st.amount(c, st.mass(c, m)), m)


@scenario('dictionaries of 1 to %d compounds, masses in [0, 1e6]'
          % len(COUNTS))
def dictionaries(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    cs, v = draw(ctx)
    before = dict(v)
    n = st.amounts(v)
    m = st.masses(v)
    ctx.check('amounts has the same compounds', set(n) == set(cs))
    ctx.check('masses has the same compounds', set(m) == set(cs))
    for c in cs:
        ctx.check_eq('amounts[%s]' % c, n[c] * mm(c), v[c])
        ctx.check_eq('masses[%s]' % c, m[c], v[c] * mm(c))
    ctx.same('masses(amounts(v)) = v', st.masses(n), v)
    ctx.same('amounts(masses(v)) = v', st.amounts(m), v)
    ctx.same('the argument is not changed', v, before)


@scenario('fractions of 1 to %d compounds, each in [0, 1e6], total > 1e-3'
          % len(COUNTS))
def fractions(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    cs, v = draw(ctx)
    ctx.assume(sum(v.values()) >= 1e-3)
    before = dict(v)
    st.amount_fractions({'H2O': 3.0, 'SiO2': 1.0})
    st.mass_fractions({c: 1.0 for c in cs})
    x = st.amount_fractions(v)
    w = st.mass_fractions(v)
    ctx.same('the argument is not changed', v, before)
    for nm, f in (('mole', x), ('mass', w)):
        ctx.check(nm + ' fractions have the same compounds',
                  set(f) == set(cs))
        ctx.check_eq(nm + ' fractions sum to one', sum(f.values()), 1.0)
        for c in cs:
            ctx.check_le(nm + ' fraction >= 0', 0.0, f[c])
            ctx.check_le(nm + ' fraction <= 1', f[c], 1.0)
    nt = sum(v[c] / mm(c) for c in cs)
    mt = sum(v[c] * mm(c) for c in cs)
    for c in cs:
        ctx.check_eq('mole fraction[%s]' % c, x[c] * nt, v[c] / mm(c),
                     tol=1e-5, scale=1e-3)
        ctx.check_eq('mass fraction[%s]' % c, w[c] * mt, v[c] * mm(c),
                     tol=1e-5, scale=1e-3)


@scenario('fractions are inverse to one another and do not depend on scale; '
          '1 to 3 compounds')
def fraction_round_trip(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    cs = ctx.choice('compounds', SETS[:3] + SETS[4:7])
    v = {c: ctx.real('v%d' % i, 0.01, 1e4) for i, c in enumerate(cs)}
    k = ctx.real('k', 0.01, 100)
    x = st.amount_fractions(v)
    w = st.mass_fractions(x)
    t = sum(v.values())
    for c in cs:
        ctx.check_eq('mass fractions of the mole fractions[%s]' % c,
                     w[c] * t, v[c])
    xs = st.amount_fractions({c: k * v[c] for c in cs})
    ctx.same('scale invariance', xs, x)


@scenario('fractions of mixtures of 2 compounds in very small and very large '
          'amounts, one possibly absent')
def magnitudes(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    lo, hi = ctx.choice('range', [(1e-15, 1e-12), (1e-9, 1e-6), (1e-6, 1e-3),
                                  (1e6, 1e9), (1e12, 1e15)])
    cs = ['FeO', 'Fe2O3[S1]', 'SiO2']
    v = {c: ctx.real('v%d' % i, lo, hi) for i, c in enumerate(cs)}
    if ctx.choice('absent', [False, True]):
        v['SiO2'] = 0.0
    for nm, f, u in (('mole', st.amount_fractions(v),
                      {c: v[c] / mm(c) for c in cs}),
                     ('mass', st.mass_fractions(v),
                      {c: v[c] * mm(c) for c in cs})):
        t = sum(u.values())
        ctx.check_eq(nm + ' fractions sum to one', sum(f.values()), 1.0)
        for c in cs:
            ctx.check_eq(nm + ' fraction[%s]' % c, f[c] * t / hi, u[c] / hi,
                         tol=1e-6, scale=1e-6)


@scenario('conversion between %d compounds on any of their elements and two '
          'others, any mass' % len(COUNTS))
def conversion(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    names = sorted(COUNTS)
    a = ctx.choice('source', names)
    b = ctx.choice('target', names)
    el = ctx.choice('element', sorted({'Fe', 'H', *COUNTS[a],
                                        *COUNTS[b]}))
    m = ctx.real('m', 0, 1e6)
    r = st.convert_compound(m, a, b, el)
    na, nb = COUNTS[a].get(el, 0), COUNTS[b].get(el, 0)
    if nb == 0:
        ctx.check_eq('target without the element', r, 0.0)
        return
    ctx.check_eq('the mass of the element is conserved',
                 r * nb / mm(b), m * na / mm(a))
    if na:
        ctx.check_eq('converting back', st.convert_compound(r, b, a, el), m)
    ctx.check_eq('element mass fraction', st.element_mass_fraction(a, el),
                 na * MASS[el] / mm(a))


@scenario('X{a}(Y{b}O{c}){d} with symbolic subscripts in [1, 99]: element '
          'mass fractions sum to one and weigh the molar mass')
def element_fractions(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    a, b, c, d = (ctx.int(k, 1, 99) for k in 'abcd')
    t = 'Fe%s(Si%sO%s)%s' % tuple(ctx.tok(v) for v in (a, b, c, d))
    f = st.element_mass_fractions(t, ['Si', 'Fe', 'O', 'Cr'])
    ctx.check_eq('sum', sum(f), 1.0)
    M = a * MASS['Fe'] + d * (b * MASS['Si'] + c * MASS['O'])
    for x, el, n in zip(f, ('Si', 'Fe', 'O', 'Cr'), (b * d, a, c * d, 0)):
        ctx.check_eq('fraction[%s]' % el, x * M, n * (MASS[el]))
    f = st.element_mass_fractions(t, ['O', 'Cr', 'O', 'Fe'])
    for x, el, n in zip(f, ('O', 'Cr', 'O', 'Fe'), (c * d, 0, c * d, a)):
        ctx.check_eq('fraction in a list with repetition[%s]' % el, x * M,
                     n * (MASS[el]))
    m = ctx.real('m', 0, 1e6)
    ctx.check_eq('amount', st.amount(t, m) * M, m)
    ctx.check_eq('conversion to the element',
                 st.convert_compound(m, t, 'Fe', 'Fe') * M,
                 m * a * MASS['Fe'])
    ctx.check_eq('conversion from the element',
                 st.convert_compound(m, 'Si', t, 'Si') * (b * d * MASS['Si']),
                 m * M)


SCENARIOS = [single, dictionaries, fractions, fraction_round_trip, magnitudes,
             conversion, element_fractions]
