"""Ideal gas density and thermal expansion."""
from symx.runner import scenario

from .elements import MASS

PRELOAD = ['auxi.tools.materialphysicalproperties.idealgas']
R = 8.314462618
GASES = ['N2', 'O2', 'CO2', 'H2O', 'CO', 'Ar', 'CH4', 'SO2', 'H2']
M = {'N2': 2 * MASS['N'], 'O2': 2 * MASS['O'], 'CO2': MASS['C'] + 2 *
     MASS['O'], 'H2O': 2 * MASS['H'] + MASS['O'], 'CO': MASS['C'] + MASS['O'],
     'Ar': MASS['Ar'], 'CH4': MASS['C'] + 4 * MASS['H'],
     'SO2': MASS['S'] + 2 * MASS['O'], 'H2': 2 * MASS['H'],
     'C2H4': 2 * MASS['C'] + 4 * MASS['H']}
M['C2H4O'] = M['OC2H4'] = M['C2H4'] + MASS['O']


def state(ctx):
    return ctx.real('T', 1, 5000), ctx.real('P', 0, 1e8)


def law(ctx, rho, T, P, m):
    ctx.check_eq('rho R T = P M', rho * R * T * 1000, P * m, tol=1e-5)


@scenario('T in [1, 5000] K, P in [0, 1e8] Pa, molar mass in [1, 500] g/mol')
def density(ctx):
    from auxi.tools.materialphysicalproperties import idealgas as ig
    T, P = state(ctx)
    m = ctx.real('M', 1, 500)
    kind = ctx.choice('kind', ['T', 'TP'])
    model = ig.RhoT(m, P) if kind == 'T' else ig.RhoTP(m)
    st = {'T': T} if kind == 'T' else {'T': T, 'P': P}
    rho = model(**st)
    law(ctx, rho, T, P, m)
    ctx.check_eq('calculate is the call', model.calculate(**st), rho)
    T2 = ctx.real('T2', 1, 5000)
    st['T'] = T2
    law(ctx, model(**st), T2, P, m)
    ctx.check_eq('the first again', model(**dict(st, T=T)), rho)


@scenario('the same, of 1 to 3 of %s in any amounts, in either order' % GASES,
          path_s=120)
def mixture(ctx):
    from auxi.tools.materialphysicalproperties import idealgas as ig
    T, P = state(ctx)
    pairs = [('N2',), ('CO2', 'N2'), ('H2O', 'Ar', 'SO2'), ('CO', 'H2', 'CH4'),
             ('O2', 'CO2', 'H2O'), ('C2H4O', 'OC2H4'), ('N2', 'CO', 'C2H4')]
    gs = ctx.choice('gases', pairs)
    if ctx.flag('reversed'):
        gs = gs[::-1]
    x = {g: ctx.real('x_' + g, 0, 1) for g in gs}
    given = dict(x)
    model = ig.RhoTPx()
    rho = model(T=T, P=P, x=x)
    m = sum(x[g] * M[g] for g in gs)
    law(ctx, rho, T, P, m)
    ctx.check_eq('as the gas of that molar mass', ig.RhoTP(m)(T=T, P=P), rho)
    ctx.check_eq('as the gas at that pressure', ig.RhoT(m, P)(T=T), rho)
    ctx.check('composition unchanged', list(x) == list(given))
    for g in gs:
        ctx.check_eq('x ' + g, x[g], given[g])


@scenario('T in [1, 5000] K: thermal expansion is that of the density')
def expansion(ctx):
    from auxi.tools.materialphysicalproperties import idealgas as ig
    T = ctx.real('T', 1, 5000)
    P = ctx.real('P', 1, 1e8)
    m = ctx.real('M', 1, 500)
    b = ig.BetaT()
    beta = b(T=T)
    ctx.check_eq('beta T', beta * T, 1.0)
    ctx.check_eq('calculate', b.calculate(T=T), beta)
    rho = ig.RhoT(m, P)
    ctx.check_eq('beta = -drho/dT / rho', -ctx.deriv(lambda t: rho(T=t), T),
                 beta * rho(T=T), tol=1e-5)


def make(kind):
    from auxi.tools.materialphysicalproperties import idealgas as ig
    return {'beta': ig.BetaT, 'RhoT': lambda: ig.RhoT(30.0, 1e5),
            'RhoTP': lambda: ig.RhoTP(30.0), 'RhoTPx': ig.RhoTPx}[kind]()


KEYS = {'beta': ['T'], 'RhoT': ['T'], 'RhoTP': ['T', 'P'],
        'RhoTPx': ['T', 'P', 'x']}


@scenario('every model; each quantity missing, negative, of another type or '
          'not part of the state; any values of the others')
def refused(ctx):
    from cerberus import ValidationError
    kind = ctx.choice('model', sorted(KEYS))
    st = {k: ctx.real(k, 0.001, 1e6) for k in KEYS[kind] if k != 'x'}
    if kind == 'RhoTPx':
        st['x'] = {'N2': ctx.real('x', 0, 1)}
    what = ctx.choice('what', ['missing', 'negative', 'type', 'extra'])
    if what == 'extra':
        st['Z'] = ctx.real('Z', -1e6, 1e6)
    else:
        k = ctx.choice('which', KEYS[kind])
        if what == 'missing':
            del st[k]
        elif what == 'type':
            st[k] = 'abc'
        elif k != 'x':
            st[k] = ctx.real('neg', -1e6, -1e-9)
        else:
            st['x'] = [0.5]
    model = make(kind)
    ctx.raises('refused', ValidationError, lambda: model(**st))
    ctx.raises('refused again', ValidationError,
               lambda: model.calculate(**st))


@scenario('every model: a refused state does not affect the next one')
def after_refusal(ctx):
    from cerberus import ValidationError
    kind = ctx.choice('model', sorted(KEYS))
    st = {k: ctx.real(k, 0.001, 1e6) for k in KEYS[kind] if k != 'x'}
    if kind == 'RhoTPx':
        st['x'] = {'N2': ctx.real('x', 0, 1)}
    model = make(kind)
    a = model(**st)
    bad = dict(st, T=ctx.real('neg', -1e6, -1e-9))
    ctx.raises('refused', ValidationError, lambda: model(**bad))
    ctx.check_eq('same result', model(**st), a)


@scenario('one model for three states one after the other: other amounts of '
          'the same gases, the same amounts of others, another T or P; the '
          'first again', path_s=120)
def states(ctx):
    from auxi.tools.materialphysicalproperties import idealgas as ig
    T, P = state(ctx)
    T2, P2 = ctx.real('T2', 1, 5000), ctx.real('P2', 0, 1e8)
    gs, hs = ctx.choice('gases', [
        (('N2',), ('CO2',)), (('CO2', 'N2'), ('N2', 'O2')),
        (('CO2', 'N2'), ('N2', 'CO2')), (('CO', 'N2', 'Ar'), ('CO', 'N2'))])
    a, b = ctx.reals('a', len(gs), 0.01, 1), ctx.reals('b', len(gs), 0.01, 1)
    x = dict(zip(gs, a))
    ys = {'amounts': dict(zip(gs, b)), 'gases': dict(zip(hs, a)), 'T': x,
          'P': x, 'changed': x}
    model = ig.RhoTPx()
    what = ctx.choice('what', sorted(ys))
    st = dict(T=T, P=P, x=x)
    st2 = dict(st, x=ys[what])
    if what in 'TP':
        st2[what] = {'T': T2, 'P': P2}[what]
    for s in (st, st2, st):
        if what == 'changed' and s is st2:
            x[gs[0]] = b[0]
        law(ctx, model(**s), s['T'], s['P'],
            sum(s['x'][g] * M[g] for g in s['x']))


SCENARIOS = [density, mixture, states, expansion, refused, after_refusal]
