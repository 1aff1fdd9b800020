"""Viscosity and heat capacity of gas mixtures."""
from symx.runner import scenario

from .elements import MASS

PRELOAD = ['auxi.tools.materialphysicalproperties.gases']
M = {'OC': MASS['C'] + MASS['O'], 'SiH4': MASS['Si'] + 4 * MASS['H'],
     'N2': 2 * MASS['N'], 'O2': 2 * MASS['O'], 'CO2': MASS['C'] + 2 *
     MASS['O'], 'H2O': 2 * MASS['H'] + MASS['O'], 'CO': MASS['C'] + MASS['O'],
     'Ar': MASS['Ar'], 'NH3': MASS['N'] + 3 * MASS['H']}
TRIPLES = [('N2', 'CO2', 'H2O'), ('Ar', 'O2', 'CO'), ('NH3', 'H2O', 'N2'),
           ('CO', 'CO2', 'Ar')]
PAIRS = [('N2', 'O2'), ('CO', 'CO2'), ('H2O', 'Ar'), ('NH3', 'N2'),
         ('CO2', 'H2O')]
QUADS = [('CO', 'CO2', 'N2', 'O2'), ('NH3', 'Ar', 'H2O', 'N2')]
# also gases of a user: one of the same molar mass as another, and a new one
ADDED = [('CO', 'OC'), ('SiH4', 'OC', 'CO')]
SHIPPED = ['Ar', 'CO', 'CO2', 'H2O', 'N2', 'NH3', 'O2']
KINDS = ['wilke', 'hz', 'cp']
T_LO, T_HI = 375.0, 470.0       # every shipped gas has values


def mod():
    from auxi.tools.materialphysicalproperties import gases
    return gases


def model(kind):
    g = mod()
    return {'wilke': g.WilkeMuTx, 'hz': g.HerningZippererMuTx,
            'cp': g.IdealCpTx}[kind]()


class pure:
    """The pure gases have any viscosity and heat capacity."""

    def __init__(self, values, T):
        self.values, self.T = values, T

    def __enter__(self):
        from auxi.modelling.process.materials.core import Material
        ms = mod().materials
        self.old, self.new = {}, []
        for g, v in self.values.items():
            if g not in ms:
                self.new.append(g)
                ms[g] = Material(g)
            m = ms[g]
            self.old[g] = {k: m.__dict__[k] for k in ('mu', 'Cp')
                           if k in m.__dict__}
            # the value at T; there is another one at other temperatures
            m.mu = m.Cp = lambda v=v, **st: v if st['T'] == self.T else 1.5 * v

    def __exit__(self, *a):
        ms = mod().materials
        for g, o in self.old.items():
            for k in ('mu', 'Cp'):
                ms[g].__dict__.pop(k, None)
            ms[g].__dict__.update(o)
        for g in self.new:
            del ms[g]


def amounts(ctx, gs, lo=0.001):
    return {g: ctx.real('x_' + g, lo, 1) for g in gs}


def values(ctx, gs):
    return {g: ctx.real('v_' + g, 1e-3, 10) for g in gs}


def temp(ctx, lo=T_LO, hi=T_HI):
    return ctx.real('T', lo, hi)


def any_temp(ctx):
    return temp(ctx, 10.0, 5000.0)


def wilke(ctx, x, v):
    tot = 0.0
    for i in x:
        d = 0.0
        for j in x:
            r = ctx.fn('sqrt', v[i] / v[j])
            d = d + x[j] * (1 + r * (M[j] / M[i]) ** 0.25) ** 2 / (
                8 * (1 + M[i] / M[j])) ** 0.5
        tot = tot + x[i] * v[i] / d
    return tot


@scenario('1 to 4 of the gases, T in [10, 5000] K, any amounts from 0.001 to 1 and pure '
          'viscosities from 0.001 to 10: Wilke', path_s=200)
def wilke_rule(ctx):
    gs = ctx.choice('gases', [('CO2',)] + ADDED + PAIRS + TRIPLES[:2] +
                    QUADS)
    x, T = amounts(ctx, gs), any_temp(ctx)
    v = values(ctx, gs) if len(gs) < 4 else \
        {g: 0.4 + 0.7 * i for i, g in enumerate(gs)}
    with pure(v, T):
        r = model('wilke')(T=T, x=x)
    ctx.check_eq('rule', r, wilke(ctx, x, v), tol=1e-5)


@scenario('the same: Herning and Zipperer, and the ideal heat capacity; the '
          'value of the mixture is between those of the gases', path_s=120)
def weighted(ctx):
    kind = ctx.choice('kind', KINDS[1:])
    gs = ctx.choice('gases', PAIRS + ADDED + TRIPLES + QUADS[:1])
    x, v, T = amounts(ctx, gs, 0.0), values(ctx, gs), any_temp(ctx)
    ctx.assume(sum(x.values()) > 0.01)
    with pure(v, T):
        r = model(kind)(T=T, x=x)
    w = {g: M[g] ** 0.5 if kind == 'hz' else M[g] for g in gs}
    ctx.check_eq('rule', r * sum(x[g] * w[g] for g in gs),
                 sum(x[g] * w[g] * v[g] for g in gs), tol=1e-5)
    lo = ctx.choice('smallest', list(gs))
    hi = ctx.choice('largest', list(gs))
    for g in gs:
        ctx.assume(v[lo] <= v[g])
        ctx.assume(v[g] <= v[hi])
    ctx.check_le('not less than the smallest', v[lo], r)
    ctx.check_le('not more than the largest', r, v[hi])


@scenario('all 7 gases in one mixture, any amounts and pure values, in two '
          'orders: the linear rules', path_s=200)
def all_of_them(ctx):
    kind = ctx.choice('kind', KINDS[1:])
    gs = SHIPPED
    x, v = amounts(ctx, gs), values(ctx, gs)
    x2 = {g: x[g] for g in gs[::-1]}
    with pure(v, 1000.0):
        m = model(kind)
        r, r2 = m(T=1000.0, x=x), m(T=1000.0, x=x2)
    w = {g: M[g] ** 0.5 if kind == 'hz' else M[g] for g in gs}
    want = sum(x[g] * w[g] * v[g] for g in gs)
    for y in (r, r2):
        ctx.check_eq('rule', y * sum(x[g] * w[g] for g in gs), want, tol=1e-5)


@scenario('each gas alone in any amount, also with none of another one and '
          'any amount of an unknown one, T in [375, 470] K', path_s=120)
def single(ctx):
    kind = ctx.choice('kind', KINDS)
    g = ctx.choice('gas', SHIPPED)
    T = temp(ctx)
    x = {g: ctx.real('x', 0.001, 1)}
    if ctx.flag('unknown'):
        x['SO3'] = ctx.real('x_SO3', 0, 1)
    if ctx.flag('none of'):
        x['CO' if g != 'CO' else 'N2'] = 0.0
    m = mod().materials[g]
    ctx.check_eq('as the gas', model(kind)(T=T, x=x),
                 m.Cp(T=T) if kind == 'cp' else m.mu(T=T))


@scenario('2 or 3 gases, amounts multiplied by any factor, in another order, '
          'with an unknown gas: the same value', path_s=200)
def invariant(ctx):
    kind = ctx.choice('kind', KINDS)
    gs = ctx.choice('gases', PAIRS + TRIPLES[:2])
    x, v, T = amounts(ctx, gs), values(ctx, gs), any_temp(ctx)
    f = ctx.real('f', 0.01, 100)
    x2 = {g: x[g] * f for g in gs[::-1]}
    if ctx.flag('unknown'):
        x2['SO3'] = ctx.real('x_SO3', 0, 1)
    given = dict(x2)
    with pure(v, T):
        m = model(kind)
        r, r2 = m(T=T, x=x), m(T=T, x=x2)
        ctx.check_eq('call', m.calculate(T=T, x=x), r)
    ctx.check_eq('same', r, r2, tol=1e-5)
    ctx.check('composition unchanged', list(x2) == list(given))
    for g in given:
        ctx.check_eq('x ' + g, x2[g], given[g])


@scenario('pairs of the gases as shipped, T in [375, 470] K, any amounts: the '
          'linear rules', path_s=200)
def shipped(ctx):
    kind = ctx.choice('kind', KINDS[1:])
    gs = ctx.choice('gases', PAIRS)
    x, T = amounts(ctx, gs), temp(ctx)
    ms = mod().materials
    v = {g: ms[g].Cp(T=T) if kind == 'cp' else ms[g].mu(T=T) for g in gs}
    r = model(kind)(T=T, x=x)
    w = {g: M[g] ** 0.5 if kind == 'hz' else M[g] for g in gs}
    ctx.check_eq('rule', r * sum(x[g] * w[g] for g in gs),
                 sum(x[g] * w[g] * v[g] for g in gs), tol=1e-5)


@scenario('one model for two states one after the other and the first again: '
          'other amounts, other gases, another temperature (and so other '
          'pure gases)', path_s=200)
def states(ctx):
    kind = ctx.choice('kind', KINDS)
    gs, hs = ctx.choice('gases', [(('CO2', 'N2'), ('CO2', 'H2O')),
                                  (('CO', 'Ar'), ('Ar', 'CO'))])
    what = ctx.choice('what', ['amounts', 'gases', 'T', 'changed'])
    a, b = ctx.reals('a', 2, 0.001, 1), ctx.reals('b', 2, 0.001, 1)
    v = {g: ctx.real('v_' + g, 1e-3, 10) for g in sorted(set(gs + hs))}
    v2 = {g: ctx.real('w_' + g, 1e-3, 10) for g in v} if what == 'T' else v
    x = dict(zip(gs, a))
    x2 = {'amounts': dict(zip(gs, b)), 'gases': dict(zip(hs, a))}.get(what, x)
    T = any_temp(ctx)
    T2 = ctx.real('T2', 10.0, 5000.0) if what == 'T' else T
    m = model(kind)

    def look(T, x, v):
        with pure(v, T):
            r = m(T=T, x=x)
        if kind == 'wilke':
            ctx.check_eq('rule', r, wilke(
                ctx, x, {g: v[g] for g in x}), tol=1e-5)
        else:
            w = {g: M[g] ** 0.5 if kind == 'hz' else M[g] for g in x}
            ctx.check_eq('rule', r * sum(x[g] * w[g] for g in x),
                         sum(x[g] * w[g] * v[g] for g in x),
                         tol=1e-5)
    look(T, x, v)
    if what == 'changed':
        x[gs[0]] = b[0]
    look(T2, x2, v2)
    look(T, x, v)


SCENARIOS = [wilke_rule, weighted, all_of_them, states, single, invariant, shipped]
