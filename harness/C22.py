"""Viscosity of slags by Urbain and Riboud."""
from symx.runner import scenario

from .elements import MASS

PRELOAD = ['auxi.tools.materialphysicalproperties.slags']
COMP = {'SiO2': {'Si': 1, 'O': 2}, 'CaO': {'Ca': 1, 'O': 1},
        'MgO': {'Mg': 1, 'O': 1}, 'Al2O3': {'Al': 2, 'O': 3},
        'FeO': {'Fe': 1, 'O': 1}, 'MnO': {'Mn': 1, 'O': 1},
        'Na2O': {'Na': 2, 'O': 1}, 'K2O': {'K': 2, 'O': 1},
        'CaF2': {'Ca': 1, 'F': 2}, 'TiO2': {'Ti': 1, 'O': 2},
        'ZrO2': {'Zr': 1, 'O': 2}, 'P2O5': {'P': 2, 'O': 5},
        'Fe2O3': {'Fe': 2, 'O': 3}, 'B2O3': {'B': 2, 'O': 3}}
M = {c: sum(MASS[e] * n for e, n in d.items()) for c, d in COMP.items()}
# glass former, modifier, amphoteric and normalisation of one mole (Urbain)
URBAIN = {'SiO2': (1, 0, 0, 0), 'P2O5': (1, 0, 0, 0), 'CaO': (0, 1, 0, 0),
          'MgO': (0, 1, 0, 0), 'Na2O': (0, 1, 0, 0), 'K2O': (0, 1, 0, 0),
          'CaF2': (0, 3, 0, 1), 'FeO': (0, 1, 0, 0), 'MnO': (0, 1, 0, 0),
          'TiO2': (0, 2, 0, 1), 'ZrO2': (0, 2, 0, 1), 'Al2O3': (0, 0, 1, 0),
          'Fe2O3': (0, 0, 1, 1), 'B2O3': (0, 0, 1, 0)}
# group and single cation equivalents of one mole (Riboud)
RIBOUD = {'SiO2': ('s', 1), 'P2O5': ('s', 2), 'TiO2': ('s', 1),
          'ZrO2': ('s', 1), 'CaO': ('c', 1), 'MgO': ('c', 1),
          'Fe2O3': ('c', 2), 'FeO': ('c', 1), 'MnO': ('c', 1),
          'B2O3': ('c', 2), 'Al2O3': ('a', 1), 'CaF2': ('f', 1),
          'Na2O': ('n', 1), 'K2O': ('n', 1)}
SLAGS = [('SiO2', 'CaO', 'Al2O3'), ('SiO2', 'MgO', 'Fe2O3', 'CaF2'),
         ('SiO2', 'FeO', 'Al2O3', 'P2O5'), ('CaO', 'B2O3', 'SiO2'),
         ('Na2O', 'K2O', 'Al2O3', 'SiO2'), ('MnO', 'TiO2', 'Al2O3'),
         ('ZrO2', 'Fe2O3', 'B2O3', 'CaO'), ('SiO2', 'CaO'),
         ('P2O5', 'CaF2', 'FeO')]
WHOLE = tuple(COMP)


def model(kind, basis):
    from auxi.tools.materialphysicalproperties import slags as s
    return {('urbain', 'x'): s.UrbainViscosityTx,
            ('urbain', 'y'): s.UrbainViscosityTy,
            ('riboud', 'x'): s.RiboudViscosityTx,
            ('riboud', 'y'): s.RiboudViscosityTy}[kind, basis]()


def slag(ctx, cs, lo=0.01):
    return {c: ctx.real('x_' + c, lo, 1) for c in cs}


def urbain(ctx, T, x):
    tot = sum(x.values())
    g, m, a, n = [sum(x[c] * URBAIN[c][i] for c in x) / tot for i in range(4)]
    al = m / (m + a)
    xg = g / (1 + n)
    B = 13.8 + 39.9355 * al - 44.049 * al ** 2 + \
        (30.481 - 117.1505 * al + 129.9978 * al ** 2) * xg + \
        (-40.9429 + 234.0846 * al - 300.04 * al ** 2) * xg ** 2 + \
        (60.7619 - 153.9276 * al + 211.1616 * al ** 2) * xg ** 3
    return -0.2693 * B - 11.6725, 1000 * B / T


def riboud(ctx, T, x):
    tot = sum(x[c] * RIBOUD[c][1] for c in x)
    g = {k: sum([x[c] * RIBOUD[c][1] for c in x if RIBOUD[c][0] == k]) / tot
         for k in 'scafn'}
    return (-17.51 + 1.73 * g['c'] + 5.82 * g['f'] + 7.02 * g['n'] -
            33.76 * g['a'],
            (31140 - 23896 * g['c'] - 46356 * g['f'] - 39159 * g['n'] +
             68833 * g['a']) / T)


ORACLE = {'urbain': urbain, 'riboud': riboud}


def mu_of(ctx, kind, T, x):
    a, b = ORACLE[kind](ctx, T, x)
    return T * ctx.fn('exp', a) * ctx.fn('exp', b) / 10


def same_input(ctx, x, given):
    ctx.check('composition unchanged', list(x) == list(given))
    for c in given:
        ctx.check_eq('composition ' + c, x[c], given[c])


@scenario('2 to 4 compounds in any amounts from 0.01 to 1, covering all 14, '
          'T in [300, 4000] K: the published equation, positive, composition '
          'not altered', path_s=120)
def moles(ctx):
    kind = ctx.choice('kind', ['urbain', 'riboud'])
    cs = ctx.choice('slag', SLAGS)
    x, T = slag(ctx, cs), ctx.real('T', 300, 4000)
    given = dict(x)
    m = model(kind, 'x')
    mu = m(T=T, x=x)
    ctx.check_eq('equation', mu, mu_of(ctx, kind, T, given), tol=1e-4)
    ctx.check_lt('positive', 0.0, mu, scale=1e-30)
    same_input(ctx, x, given)
    ctx.check_eq('the same again', m.calculate(T=T, x=x), mu)


@scenario('the same in mass fractions', path_s=120)
def masses(ctx):
    kind = ctx.choice('kind', ['urbain', 'riboud'])
    cs = ctx.choice('slag', SLAGS)
    y, T = slag(ctx, cs), ctx.real('T', 300, 4000)
    given = dict(y)
    m = model(kind, 'y')
    mu = m(T=T, y=y)
    ctx.check_eq('that of the amounts', mu, model(kind, 'x')(
        T=T, x={c: given[c] / M[c] for c in cs}), tol=1e-4)
    ctx.check_eq('equation', mu, mu_of(
        ctx, kind, T, {c: given[c] / M[c] for c in cs}), tol=1e-4)
    same_input(ctx, y, given)
    ctx.check_eq('the same again', m.calculate(T=T, y=y), mu)


@scenario('amounts multiplied by any factor and in another order: the same '
          'viscosity', path_s=120)
def invariant(ctx):
    kind = ctx.choice('kind', ['urbain', 'riboud'])
    basis = ctx.choice('basis', ['x', 'y'])
    cs = ctx.choice('slag', SLAGS)
    x, T = slag(ctx, cs), ctx.real('T', 300, 4000)
    f = ctx.real('f', 0.01, 100)
    m = model(kind, basis)
    a = m(**{'T': T, basis: dict(x)})
    b = m(**{'T': T, basis: {c: x[c] * f for c in cs[::-1]}})
    ctx.check_eq('same', a, b, tol=1e-4)


@scenario('one composition in all four models one after the other, in any of '
          'their orders: each gives what it gives alone', path_s=120)
def together(ctx):
    cs = ctx.choice('slag', SLAGS[:4])
    x, T = slag(ctx, cs), ctx.real('T', 300, 4000)
    shared = dict(x)
    order = ctx.choice('order', [('urbain', 'riboud'), ('riboud', 'urbain')])
    for kind in order + order[:1]:
        ctx.check_eq(kind, model(kind, 'x')(T=T, x=shared),
                     mu_of(ctx, kind, T, x), tol=1e-4)


@scenario('all 14 compounds at once in any amounts', path_s=300)
def all_of_them(ctx):
    kind = ctx.choice('kind', ['urbain', 'riboud'])
    x, T = slag(ctx, WHOLE), ctx.real('T', 300, 4000)
    mu = model(kind, 'x')(T=T, x=dict(x))
    ctx.check_eq('equation', mu, mu_of(ctx, kind, T, x), tol=1e-4)


@scenario('one model for two slags of the same compounds, or of others, and '
          'the first again', path_s=120)
def states(ctx):
    kind = ctx.choice('kind', ['urbain', 'riboud'])
    basis = ctx.choice('basis', ['x', 'y'])
    cs, ds = ctx.choice('slags', [(SLAGS[0], SLAGS[0]), (SLAGS[0], SLAGS[2]),
                                  (SLAGS[2], SLAGS[0]), (SLAGS[1], SLAGS[1])])
    x, T = slag(ctx, cs), ctx.real('T', 300, 4000)
    z = {c: ctx.real('z_' + c, 0.01, 1) for c in ds}
    m = model(kind, basis)
    for s in (x, z, x):
        ctx.check_eq('equation', m(**{'T': T, basis: dict(s)}), mu_of(
            ctx, kind, T, s if basis == 'x' else {c: s[c] / M[c] for c in s}),
            tol=1e-4)


SCENARIOS = [moles, states, masses, invariant, together, all_of_them]
