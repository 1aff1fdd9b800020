"""Friction factors and pressure drop of flow in ducts."""
from symx.runner import scenario

PRELOAD = ['auxi.tools.transportphenomena.fluidflow.pressuredrop']


def pd():
    from auxi.tools.transportphenomena.fluidflow import pressuredrop
    return pressuredrop


@scenario('laminar flow, Re in [1e-9, 1e6]; hydraulic diameter of any duct up '
          'to 100 m2 with a perimeter up to 1000 m')
def laminar(ctx):
    p = pd()
    Re = ctx.real('Re', 1e-9, 1e6)
    ctx.check_eq('f Re = 64', p.f_l(Re) * Re, 64.0)
    A, P = ctx.real('A', 0, 100), ctx.real('P', 1e-3, 1000)
    ctx.check_eq('D P = 4 A', p.D_h(A, P) * P, 4 * A)
    # a square and a circular duct have their width as diameter
    w = ctx.real('w', 1e-3, 10)
    ctx.check_eq('square', p.D_h(w * w, 4 * w), w)


@scenario('smooth duct, Re in [100, 1e12]')
def smooth(ctx):
    p = pd()
    Re = ctx.real('Re', 100, 1e12)
    f = p.f_ts(Re)
    x = 1.82 * ctx.fn('log10', Re) - 1.64
    ctx.check_eq('f (1.82 log10 Re - 1.64)2 = 1', f * x * x, 1.0)
    Re2 = ctx.real('Re2', 100, 1e12)
    ctx.check_eq('another', 1 / p.f_ts(Re2), (
        1.82 * ctx.fn('log10', Re2) - 1.64) ** 2)


@scenario('rough duct by Haaland: D in [1e-3, 10] m, roughness in [1e-6, '
          '0.5] of D, also outside the recommended range, Re in [100, 1e12], with and without the warning')
def haaland(ctx):
    p = pd()
    Re = ctx.real('Re', 100, 1e12)
    D = ctx.real('D', 1e-3, 10)
    e = ctx.real('r', 1e-6, 0.5) * D
    how = ctx.choice('warn', [None, True, False])
    f = p.f_tr_Haaland(Re, e, D) if how is None else \
        p.f_tr_Haaland(Re, e, D, warn=how)
    x = ctx.fn('log10', 6.9 / Re + (e / D / 3.7) ** 1.11)
    ctx.check_eq('f (1.8 log10(...))2 = 1', f * (1.8 * x) ** 2, 1.0)


@scenario('a duct without roughness by Haaland')
def no_roughness(ctx):
    p = pd()
    Re = ctx.real('Re', 100, 1e12)
    D = ctx.real('D', 1e-3, 10)
    f = p.f_tr_Haaland(Re, 0.0, D)
    x = ctx.fn('log10', 6.9 / Re)
    ctx.check_eq('f (1.8 log10(6.9/Re))2 = 1', f * (1.8 * x) ** 2, 1.0)


@scenario('rough duct by Colebrook: what the root finder is asked to solve, '
          'Re in [4000, 1e8], roughness in [1e-6, 0.05] of D in [0.01, 10] m')
def colebrook(ctx):
    p = pd()
    Re = ctx.real('Re', 4000, 1e8)
    D = ctx.real('D', 0.01, 10)
    r = ctx.real('r', 1e-6, 0.05)
    f = p.f_tr_Colebrook(Re, r * D, D)
    ctx.check('positive', f > 0)
    s = ctx.fn('sqrt', f)
    ctx.check_eq('1/sqrt f = -2 log10(e/3.7 D + 2.51/(Re sqrt f))', 1 / s,
                 -2 * ctx.fn('log10', r / 3.7 + 2.51 / Re / s), tol=1e-5)


@scenario('f in [1e-4, 1], L in [0, 1e6] m, D in [1e-6, 1e3] m, density in '
          '[1e-6, 1e5] kg/m3, velocity in [-1e4, 1e4] m/s')
def drop(ctx):
    p = pd()
    f = ctx.real('f', 1e-4, 1)
    L = ctx.real('L', 0, 1e6)
    D = ctx.real('D', 1e-6, 1e3)
    rho = ctx.real('rho', 1e-6, 1e5)
    v = ctx.real('v', -1e4, 1e4)
    fn = getattr(p, '\u0394p')
    dp = fn(f, L, D, rho, v)
    ctx.check_eq('2 D dp = f L rho v2', 2 * D * dp, f * L * rho * v * v,
                 scale=1e-6)
    L2 = ctx.real('L2', 0, 1e6)
    ctx.check_eq('in two lengths', fn(f, L + L2, D, rho, v),
                 dp + fn(f, L2, D, rho, v), scale=1e-6)


SCENARIOS = [laminar, smooth, haaland, no_roughness, colebrook, drop]
