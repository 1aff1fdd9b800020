"""Natural convection at an isothermal flat surface."""
from symx.runner import scenario

PRELOAD = ['auxi.tools.transportphenomena.heattransfer.naturalconvection',
           'auxi.modelling.process.materials.core']
G = 9.80665
RAD = 3.141592653589793 / 180
# the angle ranges on which one correlation holds, log10(Ra) permitting
SPANS = [(-90, True, -52, True, None), (-52, False, 0, False, '8.27'),
         (0, True, 0, True, '8.26'), (0, False, 88, False, '8.27'),
         (88, True, 90, True, '8.38')]


class Fluid:
    """Properties of a fluid: lines of the temperature."""

    def __init__(self, ctx, varying):
        self.c = {}
        for n, lo, hi in (('beta', 1e-4, 1e-2), ('nu', 1e-7, 1e-4),
                          ('alpha', 1e-7, 1e-4), ('k', 0.01, 1)):
            a = ctx.real(n, lo, hi)
            b = ctx.real(n + '_T', 0, hi / 1000) if n in varying else 0.0
            self.c[n] = (a, b)

    def at(self, n, T):
        a, b = self.c[n]
        return a + b * T

    def material(self, pr=None):
        from auxi.modelling.process.materials.core import Material

        def f(n):
            return lambda **st: self.at(n, st['T'])
        return Material('Fluid', property_models={n: f(n) for n in self.c})


def surface(fluid, isgas):
    from auxi.tools.transportphenomena.heattransfer.naturalconvection import \
        IsothermalFlatSurface
    return IsothermalFlatSurface(fluid.material(), isgas) if not isgas else \
        IsothermalFlatSurface(fluid.material())


def span_of(theta):
    for a, ai, b, bi, eq in SPANS:
        if (theta >= a if ai else theta > a) and \
                (theta <= b if bi else theta < b):
            return eq
    raise AssertionError('no span')


def nusselt(ctx, eq, Ra, Pr):
    if eq is None:
        eq = '9.22' if ctx.case(ctx.fn('log10', Ra) <= 7) else '9.23'
    if eq == '8.26':
        return 0.678 * Ra ** 0.25 * (Pr / (0.952 + Pr)) ** 0.25
    if eq == '8.27':
        return 0.68 + 0.67 * Ra ** 0.25 / (
            1 + (0.492 / Pr) ** (9 / 16)) ** (4 / 9)
    if eq == '8.38':
        return 0.58 * Ra ** 0.2
    if eq == '9.22':
        return 0.59 * Ra ** 0.25
    return 0.1 * Ra ** (1 / 3)


def setting(ctx, varying):
    f = Fluid(ctx, varying)
    L = ctx.real('L', 0.01, 10) if varying else ctx.real('L', 1e-3, 100)
    if varying:     # lines that stay positive
        return f, L, ctx.real('Tf', 200, 1500), ctx.real('dT', 0.1, 500)
    Tf = ctx.real('Tf', 300, 3000)
    dT = ctx.real('dT', 0.01, 900)
    return f, L, Tf, dT


def expected(ctx, f, isgas, L, theta, Ts, Tf):
    """Nu_x for the hot surface at theta or the cold one at -theta."""
    Tr = Ts - (0.38 if isgas else 0.5) * (Ts - Tf)
    beta = f.at('beta', Tf if isgas else Tr)
    nu, alpha = f.at('nu', Tr), f.at('alpha', Tr)
    g = G
    if theta > 0 and theta < 45:
        g = G * ctx.fn('cos', theta * RAD)
    d = Ts - Tf
    if d < 0:
        d = -d
    Ra = g * beta * d * L ** 3 / nu ** 2 * (nu / alpha)
    return nusselt(ctx, span_of(theta), Ra, nu / alpha), f.at('k', Tr), Tr


def compare(ctx, f, isgas, L, theta, hot, Ts, Tf):
    s = surface(f, isgas)
    want, k, Tr = expected(ctx, f, isgas, L, theta if hot else -theta, Ts, Tf)
    ctx.check_eq('Nu_x', s.Nu_x(L, theta, Ts, T=Tf), want, tol=1e-6)
    return s, want, k


ANGLES = [-90.0, -75.0, -60.0, -52.5, -52.0, -45.0, -44.9, -20.0, 0.0, 30.0,
          44.9, 45.0, 60.0, 87.9, 88.0, 89.0, 90.0]


@scenario('hot and cold surfaces in gas and liquid at 17 angles with the '
          'vertical, L in [0.001, 100] m, Tf in [300, 3000] K, 0.01 to 900 K '
          'between surface and fluid (the cold surface above 0 K), beta, nu, '
          'alpha and k any in realistic ranges', path_s=120)
def angles(ctx):
    isgas = ctx.flag('gas')
    hot = ctx.flag('hot')
    theta = ctx.choice('theta', ANGLES)
    f, L, Tf, dT = setting(ctx, ())
    Ts = Tf + dT if hot else Tf - dT * 0.3
    compare(ctx, f, isgas, L, theta, hot, Ts, Tf)


@scenario('every angle in [-90, 90], properties constant', path_s=120)
def sweep(ctx):
    isgas = ctx.flag('gas')
    hot = ctx.flag('hot')
    theta = ctx.real('theta', -90, 90)
    f, L, Tf, dT = setting(ctx, ())
    Ts = Tf + dT if hot else Tf - dT * 0.3
    compare(ctx, f, isgas, L, theta, hot, Ts, Tf)


@scenario('properties that are lines of the temperature, at 5 angles: which '
          'temperature each is taken at', path_s=120)
def film(ctx):
    isgas = ctx.flag('gas')
    hot = ctx.flag('hot')
    theta = ctx.choice('theta', [-75.0, -30.0, 0.0, 50.0, 89.5])
    f, L, Tf, dT = setting(ctx, ('beta', 'nu', 'alpha', 'k'))
    Ts = Tf + dT if hot else Tf - dT * 0.3
    compare(ctx, f, isgas, L, theta, hot, Ts, Tf)


@scenario('k a line of the temperature: local and average coefficients, in any order of the '
          'calls', path_s=120)
def coefficients(ctx):
    isgas = ctx.flag('gas')
    hot = ctx.flag('hot')
    theta = ctx.choice('theta', [-60.0, 0.0, 89.0])
    f, L, Tf, dT = setting(ctx, ('k',))
    Ts = Tf + dT if hot else Tf - dT * 0.3
    s = surface(f, isgas)
    want, k, Tr = expected(ctx, f, isgas, L, theta if hot else -theta, Ts, Tf)
    for n in ctx.choice('order', [('h_L', 'Nu_x', 'Nu_L', 'h_x'),
                                  ('h_x', 'Nu_L', 'h_L', 'Nu_x')]):
        v = getattr(s, n)(L, theta, Ts, T=Tf)
        e = want * k / L if n[0] == 'h' else want
        ctx.check_eq(n, v, e / 0.75 if n[-1] == 'L' else e, tol=1e-6)


@scenario('gas or liquid: a surface asked about another length and '
          'temperature in between answers as before', path_s=120)
def memory(ctx):
    isgas = ctx.flag('gas')
    f, L, Tf, dT = setting(ctx, ('k',))
    s = surface(f, isgas)
    want, k, Tr = expected(ctx, f, isgas, L, 0.0, Tf + dT, Tf)
    s.h_L(ctx.real('L2', 0.01, 10), 0.0, Tf + dT + 10.0, T=Tf)
    n = ctx.choice('what', ['h_x', 'h_L', 'Nu_x', 'Nu_L'])
    e = want * k / L if n[0] == 'h' else want
    ctx.check_eq(n, getattr(s, n)(L, 0.0, Tf + dT, T=Tf),
                 e / 0.75 if n[-1] == 'L' else e, tol=1e-6)


@scenario('every angle and properties constant: a cold surface is the hot one '
          'upside down', path_s=200)
def mirrored(ctx):
    theta = ctx.real('theta', -90, 90)
    f, L, Tf, dT = setting(ctx, ())
    isgas = ctx.flag('gas')
    s = surface(f, isgas)
    dT = dT * 0.3
    ctx.check_eq('Nu_x', s.Nu_x(L, theta, Tf + dT, T=Tf),
                 s.Nu_x(L, -theta, Tf - dT, T=Tf), tol=1e-6)


SCENARIOS = [angles, sweep, film, coefficients, memory, mirrored]
