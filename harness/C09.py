"""Thermochemical streams conserve mass flow and enthalpy flow."""
from symx.runner import scenario
from harness import th
from harness.C08 import build

PRELOAD = ['auxi.modelling.process.materials.thermo']
KIT = th.Kit(th.Stream)
SCENARIOS = build(KIT)

COAL = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Sortho]', 'CaO[S]']
CUSTOM = '#\nIsCoal  1\nHHV[MJ/kg]  %s\n'


def burnt(p):
    """MJ/h, the heat of combustion of the elements of the stream at 25 C."""
    from auxi.tools.chemistry import thermochemistry as th
    from harness.elements import MASS
    heat = 0.0
    for c, product, n, o in [('C[Sgr]', 'CO2[G]', 1, 2),
                             ('H2[G]', 'H2O[L]', 2, 1),
                             ('S[Sortho]', 'SO2[G]', 1, 2)]:
        e = c[0]
        k = p.get_compound_mfr(c)
        heat += th.H(c, 25.0, k) - th.H(product, 25.0, 1.0) * k * (
            (n * MASS[e] + o * MASS['O']) / (n * MASS[e]))
    return 3.6 * heat


@scenario('a coal stream of 5 elements and CaO, 0.1 to 100 kg/h each, HHV in '
          '[10, 40] MJ/kg or that of the elements, 25 to 700 C: '
          'multiplication and extraction of a flow rate')
def coal(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    th.load_data_auxi()
    given = ctx.flag('given')
    hhv = ctx.real('HHV', 10, 40)
    mat = KIT.material(ctx, 'coal', COAL, CUSTOM % ctx.tok(hhv) if given
                       else '#\nIsCoal  1\n')
    T = ctx.real('T', 25, 700)
    m = ctx.real('m', 1, 1e3)
    p = mat.create_stream('x', m, 1.0, T)
    ctx.check('it is coal', p.isCoal is True)
    if not given:
        hhv = burnt(p) / m
    ctx.check_eq('heating value', p.HHV, hhv, tol=1e-6)
    H = p.Hfr
    if ctx.choice('how', ['*', 'extract']) == '*':
        k = ctx.real('k', 0.01, 10)
        r = p * k
        ctx.check_eq('enthalpy of the product', r.Hfr, k * H, scale=1e-2,
                     tol=1e-6)
    else:
        f = ctx.real('f', 0.01, 0.99)
        r = p.extract(f * p.mfr)
        ctx.check_eq('enthalpy of the extract', r.Hfr, f * H, scale=1e-2,
                     tol=1e-6)
        ctx.check_eq('enthalpy is conserved', r.Hfr + p.Hfr, H, scale=1e-2,
                     tol=1e-6)
        ctx.check_eq('mass is conserved', r.mfr + p.mfr, m)
        ctx.check_eq('heating value of the remainder', p.HHV, hhv, tol=1e-6)
    ctx.check('the result is coal', r.isCoal is True)
    ctx.check_eq('heating value of the result', r.HHV, hhv, tol=1e-6)


@scenario('carbon added to, and taken out of, a coal stream with or without a '
          'heating value of its own: the heat of combustion is accounted for')
def coal_carbon(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    from harness.elements import MASS
    th.load_data_auxi()
    given = ctx.flag('given')
    hhv = ctx.real('HHV', 10, 40)
    mat = KIT.material(ctx, 'coal', COAL, CUSTOM % ctx.tok(hhv) if given
                       else '#\nIsCoal  1\n')
    m = ctx.real('m', 6, 1e3)
    p = mat.create_stream('x', m, 1.0, 25.0)
    if not given:
        hhv = burnt(p) / m
    dm = ctx.real('dm', 0.01, 0.9)
    heat = th.H('C[Sgr]', 25.0, 1.0) - th.H(
        'CO2[G]', 25.0, 1.0) * ((MASS['C'] + 2 * MASS['O']) / MASS['C'])
    how = ctx.choice('how', ['add', 'add at its temperature', 'extract'])
    if how != 'extract':
        H = p.Hfr
        r = p + (('C[Sgr]', dm) if how == 'add' else ('C[Sgr]', dm, 25.0))
        ctx.check_eq('enthalpy', r.Hfr, H + th.H('C[Sgr]', 25.0, dm),
                     scale=1e-2, tol=1e-6)
        ctx.check_eq('temperature', r.T, 25.0, tol=1e-6)
        ctx.check_eq('heat', r.HHV * (m + dm),
                     hhv * m + 3.6 * heat * dm, tol=1e-6)
    else:
        p.extract(('C[Sgr]', dm))
        ctx.check_eq('heat', p.HHV * (m - dm),
                     hhv * m - 3.6 * heat * dm, tol=1e-6)


class LinearCoal:
    """Stands in for the coal enthalpy model: 1.1 kJ/kg/K."""

    def calculate(self, **state):
        return 1100.0 * (state['T'] - 298.15)


@scenario('a coal stream and a stream of the same material, coal or not, '
          'are added: the heat of combustion is that of both; the coal '
          'enthalpy model is replaced by a constant heat capacity',
          path_s=20)
def coal_addition(ctx):
    from auxi.tools.materialphysicalproperties import coals
    coals.DafHTy = LinearCoal
    th.install()
    hhv = [ctx.real('HHV%d' % i, 10, 40) for i in range(2)]
    kinds = ctx.choice('coal', [(1, 1), (1, 0), (0, 1), (0, 0)])
    from auxi.modelling.process.materials import thermo
    mat = thermo.Material('coal', ctx.write('coal.txt', 'Compound x y\n' + ''.join(
        '%s 1.0 %s\n' % (c, 0.5 + 0.5 * (i % 2)) for i, c in enumerate(COAL[:5]))
        + '#\nIsCoal %d %d\nHHV[MJ/kg] %s %s\n' % (kinds + tuple(
            ctx.tok(h) if k else '0.0' for h, k in zip(hhv, kinds)))))
    T = ctx.choice('T', [25.0, 300.0])
    m = ctx.choice('m', [1.0, 37.5, 1000.0])
    p = mat.create_stream('x', m, 1.0, T)
    q = mat.create_stream('y', 10.0, 1.0, T)
    H = p.Hfr + q.Hfr
    r = p + q
    ctx.check('coal if one of them is', bool(r.isCoal) == any(kinds))
    ctx.check_eq('mass flow rate', r.mfr, m + 10.0)
    ctx.check_eq('enthalpy flow rate', r.Hfr, H, scale=1e-2, tol=1e-6)
    if any(kinds):
        ctx.check_eq('heat of combustion', r.HHV * (m + 10.0),
                     hhv[0] * kinds[0] * m + hhv[1] * kinds[1] * 10.0,
                     tol=1e-6)


SCENARIOS = SCENARIOS + [coal, coal_carbon, coal_addition]
