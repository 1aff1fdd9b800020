"""Thermochemical packages conserve mass and enthalpy."""
from symx.runner import scenario
from harness import th

PRELOAD = ['auxi.modelling.process.materials.thermo']
KIT = th.Kit(th.Package)


def build(kit):
    w = kit.k.word

    def mk(name, bounds, body=None, **kw):
        def fn(ctx):
            (body or getattr(kit, name))(ctx)
        fn.__name__ = name
        return scenario(bounds, **kw)(fn)
    std = '3 compounds of constant heat capacity, 0 to 1e3 kg each, ' \
        '-50 to 1500 C, 0.1 to 10 atm'
    return [
        mk('properties', 'one %s; %s' % (w, std)),
        mk('set_temperature', 'setting T, P and H; ' + std),
        mk('addition_same', 'sum, same material; ' + std),
        mk('addition_other', 'sum, the other material has a subset of the '
           'compounds, or the same, in another order; ' + std),
        mk('mixing_at_one_temperature', 'sum at one temperature; ' + std),
        mk('addition_compound', 'adding (compound, mass); ' + std),
        mk('addition_compound_at', 'adding (compound, mass, T); ' + std),
        mk('multiplication', 'factors 1e-3 to 100; ' + std),
        mk('extraction', 'a mass, a compound, part of a compound, or a '
           'material\'s compounds; ' + std),
        mk('refusals', 'refused operations change nothing; ' + std),
        mk('empty', 'empty ones; ' + std),
        mk('copies', 'clone, then change either; ' + std),
        mk('piecewise', 'setting the enthalpy of one compound whose heat '
           'capacity jumps at 700 K (2 pairs), from 3 temperatures to any in '
           '[26, 1400] C, 1 kg'),
        mk('sizes', 'setting the enthalpy and mixing, heat capacity linear '
           'in T, 1e-9 to 1e9 kg, 4 pairs of temperatures'),
        mk('piecewise_all', 'as piecewise: 4 pairs, 5 temperatures, 3 '
           'masses', tier='thorough'),
        mk('shipped', 'operations at one temperature in [30, 600] C on '
           'CaO, Fe2O3, MgO and O2 of the shipped data'),
        mk('histories_2', 'every sequence of 2 operations out of 12, 2 '
           'compounds, against a ledger',
           body=lambda ctx: kit.history(ctx, 2)),
        mk('histories_3', 'every sequence of 3 operations out of 12',
           body=lambda ctx: kit.history(ctx, 3), tier='thorough',
           max_paths=20000),
    ]


@scenario('a package made from a coal assay, 0.1 to 1e3 kg, 25 to 700 C',
          finding='F01')
def coal_package(ctx):
    from auxi.tools.chemistry import thermochemistry as tc
    tc.load_data_auxi()
    mat = KIT.material(ctx, 'coal', [
        'C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Sortho]', 'CaO[S]'],
        '#\nIsCoal  1\nHHV[MJ/kg]  30.0\n')
    m = ctx.real('m', 0.1, 1e3)
    p = mat.create_package('x', m, 1.0, ctx.real('T', 25, 700))
    ctx.check_eq('mass', p.mass, m)
    r = p.extract(0.5 * m)
    ctx.check_eq('enthalpy of one half', r.H, p.H, scale=1e-2, tol=1e-6)


SCENARIOS = build(KIT) + [coal_package]
