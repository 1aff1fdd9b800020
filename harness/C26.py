"""Dimensionless numbers."""
from symx.runner import scenario

PRELOAD = ['auxi.tools.transportphenomena.dimensionlessquantities']
G = 9.80665


def dq():
    from auxi.tools.transportphenomena import dimensionlessquantities as d
    return d


def inputs(ctx):
    return (ctx.real('L', 1e-6, 100), ctx.real('Ts', 1, 5000),
            ctx.real('Tf', 1, 5000), ctx.real('beta', -0.1, 1),
            ctx.real('nu', 1e-8, 1), ctx.real('alpha', 1e-8, 1),
            ctx.real('g', 0, 100))


@scenario('L in [1e-6, 100] m, Ts and Tf in [1, 5000] K, beta in [-0.1, 1] '
          '1/K, nu and alpha in [1e-8, 1] m2/s, g in [0, 100] m/s2')
def buoyancy(ctx):
    d = dq()
    L, Ts, Tf, beta, nu, alpha, g = inputs(ctx)
    F = g * beta * (Ts - Tf) * L * L * L
    Gr = d.Gr(L, Ts, Tf, beta, nu, g)
    Pr = d.Pr(nu, alpha)
    ctx.check_eq('Gr nu2', Gr * nu * nu, F, scale=1e-6)
    ctx.check_eq('Pr alpha', Pr * alpha, nu)
    if ctx.flag('default g'):
        Ra = d.Ra(L, Ts, Tf, alpha, beta, nu)
        F = G * beta * (Ts - Tf) * L * L * L
        ctx.check_eq('standard gravity', Ra * nu * alpha, F, scale=1e-6)
    else:
        Ra = d.Ra(L, Ts, Tf, alpha, beta, nu, g)
        ctx.check_eq('Ra nu alpha', Ra * nu * alpha, F, scale=1e-6)
        ctx.check_eq('Ra = Gr Pr', Ra, Gr * Pr, scale=1e-6)


@scenario('named arguments in any order')
def named(ctx):
    d = dq()
    L, Ts, Tf, beta, nu, alpha, g = inputs(ctx)
    v, h, k = ctx.reals('v', 3, 1e-6, 1e4)
    ctx.check_eq('Gr', d.Gr(nu=nu, g=g, beta=beta, Tf=Tf, Ts=Ts, L=L),
                 d.Gr(L, Ts, Tf, beta, nu, g))
    ctx.check_eq('Ra', d.Ra(nu=nu, g=g, beta=beta, Tf=Tf, Ts=Ts, L=L,
                            alpha=alpha), d.Ra(L, Ts, Tf, alpha, beta, nu, g))
    ctx.check_eq('Pr', d.Pr(alpha=alpha, nu=nu), nu / alpha)
    ctx.check_eq('Re', d.Re(nu=nu, v=v, L=L), v * L / nu)
    ctx.check_eq('Nu', d.Nu(k=k, h=h, L=L), h * L / k)
    ctx.check_eq('Sh', d.Sh(D=k, h=h, L=L), h * L / k)


@scenario('L in [0, 100] m, velocities and coefficients in [-1e4, 1e4], nu, k '
          'and D in [1e-8, 1e3]')
def transfer(ctx):
    d = dq()
    L = ctx.real('L', 0, 100)
    v = ctx.real('v', -1e4, 1e4)
    p = ctx.real('p', 1e-8, 1e3)
    for n in ('Re', 'Nu', 'Sh'):
        ctx.check_eq(n, getattr(d, n)(L, v, p) * p, v * L, scale=1e-6)


SCENARIOS = [buoyancy, named, transfer]
