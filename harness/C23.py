"""Heat capacity and enthalpy of dry ash-free coal."""
from symx.runner import scenario

from .elements import MASS

PRELOAD = ['auxi.tools.materialphysicalproperties.coals']
R = 8.314462618
ELS = ['C', 'H', 'O', 'N', 'S']


def models():
    from auxi.tools.materialphysicalproperties import coals
    return coals.DafCpTy(), coals.DafHTy()


def coal(ctx, lo=0.0):
    y = {'y_' + e: ctx.real('y_' + e, lo if e != 'C' else 0.01, 1)
         for e in ELS}
    return y


def amount(y):
    """[kmol/kg] of atoms."""
    return sum(y['y_' + e] / MASS[e] for e in ELS)


def tempr(ctx, name='T'):
    return ctx.real(name, 100, 4000)


@scenario('T in [100, 4000] K, any mass fractions: the heat capacity is the '
          'derivative of the enthalpy')
def derivative(ctx):
    cp, h = models()
    y, T = coal(ctx), tempr(ctx)
    ctx.check_eq('dH/dT = Cp', ctx.deriv(lambda t: h(T=t, **y), T),
                 cp(T=T, **y), tol=1e-5)
    ctx.check_eq('call and calculate', cp.calculate(T=T, **y), cp(T=T, **y))
    ctx.check_eq('call and calculate H', h.calculate(T=T, **y), h(T=T, **y))


@scenario('the same: Merrick\'s two Einstein terms, positive')
def equation(ctx):
    cp, h = models()
    y, T = coal(ctx), tempr(ctx)
    n = amount(y) * 1000
    e1, e2 = ctx.fn('exp', 380 / T), ctx.fn('exp', 1800 / T)
    ctx.check_eq('H', h(T=T, **y),
                 R * n * (380 / (e1 - 1) + 3600 / (e2 - 1)), tol=1e-5)

    def g(z, e):
        return e * z * z / ((e - 1) * (e - 1))
    ctx.check_eq('Cp', cp(T=T, **y),
                 R * n * (g(380 / T, e1) + 2 * g(1800 / T, e2)), tol=1e-5)
    ctx.check_lt('Cp > 0', 0.0, cp(T=T, **y))
    ctx.check_lt('H > 0', 0.0, h(T=T, **y))


@scenario('two coals and any blend of them: both values are the blend of '
          'those of the coals')
def blend(ctx):
    m = models()[ctx.choice('model', [0, 1])]
    T = tempr(ctx)
    a = coal(ctx)
    b = {'y_' + e: ctx.real('b_' + e, 0.01 if e == 'C' else 0, 1)
         for e in ELS}
    f = ctx.real('f', 0.01, 0.99)
    y = {k: f * a[k] + (1 - f) * b[k] for k in a}
    ctx.check_eq('blend', m(T=T, **y),
                 f * m(T=T, **a) + (1 - f) * m(T=T, **b), tol=1e-5)


@scenario('two temperatures: the enthalpy of a coal rises with temperature')
def rises(ctx):
    h = models()[1]
    y, T = coal(ctx), tempr(ctx)
    T2 = tempr(ctx, 'T2')
    ctx.assume(T2 > T)
    ctx.check_lt('H', h(T=T, **y), h(T=T2, **y))


@scenario('two coals that differ in any of the five elements, and two '
          'temperatures: the value of the second does not depend on a call '
          'for the first')
def memory(ctx):
    i = ctx.choice('model', [0, 1])
    m = models()[i]
    a, T = coal(ctx), tempr(ctx)
    other = ctx.choice('other', ['C', 'H', 'O', 'N', 'S', 'NS', 'HO', 'T'])
    b, T2 = dict(a), T
    for e in other:
        if e == 'T':
            T2 = tempr(ctx, 'T2')
        else:
            b['y_' + e] = ctx.real('b_' + e, 0.01, 1)
    m(T=T, **a)
    ctx.check_eq('value', m(T=T2, **b), models()[i](T=T2, **b))
    ctx.check_eq('the first again', m(T=T, **a), models()[i](T=T, **a))


SCENARIOS = [derivative, equation, blend, rises, memory]
