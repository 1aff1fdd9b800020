"""Physical properties of a material, and of the fluids that are shipped."""
import csv
import os

from symx.runner import REPO, scenario

MP = 'auxi.tools.materialphysicalproperties.'
PRELOAD = ['auxi.modelling.process.materials.core', MP + 'gases',
           MP + 'liquids', MP + 'core']
PROPS = ['alpha', 'beta', 'Cp', 'k', 'mu', 'nu', 'rho']
DATA = os.path.join(REPO, 'auxi/tools/materialphysicalproperties/data')


def line(ctx, name, lo, hi):
    """A property that is any line of T (and of P) and counts its calls."""
    a, b, c = ctx.real(name + '_a', lo, hi), ctx.real(name + '_b', 0, 0.01), \
        ctx.real(name + '_c', 0, 1e-6)

    def f(**state):
        return a + b * state['T'] + c * state.get('P', 0.0)
    return f


def models(ctx, names):
    return {n: line(ctx, n, 0.1, 10) for n in names}


@scenario('every subset of the 7 property models, each any line of T in [200, '
          '2000] K and P in [0, 1e6] Pa: alpha = k/(rho Cp) and nu = mu/rho '
          'unless given, the given model where there is one, '
          'NotImplementedError where there is none')
def properties(ctx):
    from auxi.modelling.process.materials.core import Material
    names = [n for n in PROPS if ctx.flag(n)]
    given = models(ctx, names)
    d = dict(given)
    m = Material('Stuff', property_models=d)
    ctx.check('models unchanged', d == given)
    other = Material('Other', property_models=models(ctx, []))
    st = {'T': ctx.real('T', 200, 2000), 'P': ctx.real('P', 0, 1e6)}
    for n in PROPS:
        f = getattr(m, n)
        if n in given:
            ctx.check_eq(n, f(**st), given[n](**st))
        elif n == 'alpha' and {'k', 'rho', 'Cp'} <= set(given):
            ctx.check_eq('alpha rho Cp = k', f(**st) * given['rho'](**st) *
                         given['Cp'](**st), given['k'](**st))
        elif n == 'nu' and {'mu', 'rho'} <= set(given):
            ctx.check_eq('nu rho = mu', f(**st) * given['rho'](**st),
                         given['mu'](**st))
        else:
            ctx.raises(n + ' is missing', NotImplementedError,
                       lambda: f(**st))
        ctx.raises(n + ' of the other', NotImplementedError,
                   lambda: getattr(other, n)(**st))


@scenario('the properties at one state, at others (of which only T or only P '
          'is another) and at the first again: those of the state asked for')
def states(ctx):
    from auxi.modelling.process.materials.core import Material
    given = models(ctx, ['Cp', 'k', 'mu', 'rho'])
    m = Material('Stuff', property_models=dict(given))
    T, P = ctx.real('T', 200, 2000), ctx.real('P', 0, 1e6)
    T2, P2 = ctx.real('T2', 200, 2000), ctx.real('P2', 0, 1e6)
    sts = [dict(T=T, P=P), dict(T=T2, P=P), dict(T=T2, P=P2), dict(T=T, P=P)]
    for n in ctx.choice('order', [PROPS, PROPS[::-1]]):
        if n == 'beta':
            continue
        for st in sts:
            v = getattr(m, n)(**st)
            g = {x: f(**st) for x, f in given.items()}
            if n == 'alpha':
                ctx.check_eq('alpha rho Cp = k', v * g['rho'] * g['Cp'],
                             g['k'])
            elif n == 'nu':
                ctx.check_eq('nu rho = mu', v * g['rho'], g['mu'])
            else:
                ctx.check_eq(n, v, g[n])


@scenario('a material of each state of matter, with and without models')
def plain(ctx):
    from auxi.modelling.process.materials.core import Material
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    s = ctx.choice('state', [None, 'gas', 'liquid', 'solid'])
    kw = {} if s is None else {'state_of_matter': StateOfMatter[s]}
    if ctx.flag('described'):
        kw['description'] = 'some stuff'
    m = Material('Stuff', **kw)
    ctx.check('name', m.name == 'Stuff')
    ctx.check('state', m.mstate == (StateOfMatter.unknown if s is None else
                                    StateOfMatter[s]))
    ctx.check('description', m.description == kw.get('description'))
    T = ctx.real('T', 1, 5000)
    for n in PROPS:
        ctx.raises(n + ' is missing', NotImplementedError,
                   lambda: getattr(m, n)(T=T))


FLUIDS = {'Air': 'air-lienhard2015', 'Ammonia': 'ammonia-lienhard2018',
          'Argon': 'argon-lienhard2018',
          'Carbon Dioxide': 'carbon-dioxide-lienhard2018',
          'Carbon Monoxide': 'carbon-monoxide-lienhard2018',
          'Nitrogen': 'nitrogen-lienhard2018',
          'Oxygen': 'oxygen-lienhard2018',
          'Water Vapour': 'water-vapour-lienhard2018',
          'Water': 'water-lienhard2015'}
KEYS = {'Air': 'Air', 'Argon': 'Ar', 'Ammonia': 'NH3',
        'Carbon Dioxide': 'CO2', 'Carbon Monoxide': 'CO', 'Nitrogen': 'N2',
        'Oxygen': 'O2', 'Water Vapour': 'H2O'}


def table(name):
    fn = os.path.join(DATA, 'dataset-%s.csv' % FLUIDS[name])
    with open(fn, newline='', encoding='utf-8') as f:
        rows = list(csv.reader(f))
    cols = [c.strip() for c in rows[6]]
    out = {c: [] for c in cols if c}
    for r in rows[7:]:
        if r and r[0].strip():
            for c, v in zip(cols, r):
                if c:
                    out[c].append(float(v))
    return rows, out


def fluid(name):
    from auxi.tools.materialphysicalproperties import gases, liquids
    return liquids.h2o if name == 'Water' else gases.materials[KEYS[name]]


def close(ctx, what, v, lo, hi, f, slack):
    """v between two neighbouring data, but for f of them and the slack."""
    a, b = min(lo, hi), max(lo, hi)
    ctx.check_le(what + ' from below', a - f * abs(a) - slack, v)
    ctx.check_le(what + ' from above', v, b + f * abs(b) + slack)


def within(ctx, name, props):
    m = fluid(name)
    ctx.check('name', m.name == name)
    _, d = table(name)
    order = sorted(range(len(d['T'])), key=lambda i: d['T'][i])
    k = ctx.choice('interval', list(range(len(order) - 1)))
    i, j = order[k], order[k + 1]
    T = ctx.real('T', d['T'][i], d['T'][j])
    for p in props:
        if p in d:
            f = {'rho': 0.03, 'nu': 0.05, 'alpha': 0.06, 'Cp': 0.02,
                 'mu': 0.03, 'k': 0.04, 'beta': 0.05}[p]
            close(ctx, p, getattr(m, p)(T=T), d[p][i], d[p][j], f,
                  1e-5 if p == 'beta' else 0)


def _shipped(name):
    def run(ctx):
        within(ctx, name, ['Cp', 'k', 'mu', 'rho', 'beta'])
    run.__name__ = 'shipped_' + name.lower().replace(' ', '_')
    return scenario('%s: Cp, k, mu, rho and beta between the data of the '
                    'neighbouring temperatures (but for 2 to 5 %%) for every T '
                    'in the range of the data set' % name, path_s=120)(run)


def _derived(name):
    def run(ctx):
        within(ctx, name, ['alpha', 'nu'])
    run.__name__ = 'derived_' + name.lower().replace(' ', '_')
    return scenario('%s: alpha and nu, likewise' % name, path_s=200,
                    tier='thorough')(run)


@scenario('the data set of each of the 9 fluids against its file')
def datasets(ctx):
    from auxi.tools.materialphysicalproperties.core import DataSet
    name = ctx.choice('fluid', sorted(FLUIDS))
    rows, d = table(name)
    fn = os.path.join(DATA, 'dataset-%s.csv' % FLUIDS[name])
    ds = DataSet(fn)
    ctx.check('material', ds.material == name)
    ctx.check('file', ds.name == os.path.basename(fn))
    ctx.check('reference', ds.reference == rows[2][1])
    ctx.check('description', ds.description == rows[1][1])
    for i, c in enumerate(rows[6]):
        if not c:
            continue
        ctx.check('name of ' + c, ds.names_dict[c] == rows[3][i])
        ctx.check('symbol of ' + c,
                  ds.display_symbols_dict[c] == rows[4][i])
        ctx.check('units of ' + c, ds.units_dict[c] == rows[5][i])
        ctx.check('data of ' + c, [float(v) for v in ds.data[c]] == d[c])


HEAD = ['Name,Stuff A', 'Description,"any, text"', 'Reference,', None]
COLS = {'T': ('Temperature', 'T', 'K'), 'rho': ('Density', '\\rho', 'kg/m3'),
        'mu': ('Dynamic Viscosity', '\\mu', 'Pa.s')}
ROWS = {'sorted': [(300, 1, 2), (400, 3, 4), (500, 5, 6)],
        'any order': [(500, 1, 2), (300, 3, 4), (400, 5, 6)],
        'same temperature': [(300, 1, 2), (300, 1, 2), (300, 3, 4)],
        'gap': [(300, 1, None), (400, None, 4), (500, 5, 6)],
        'zero': [(300, 0, -2), (400, 1e-30, 4e20), (500.25, 5, 6)],
        'one': [(300, 1, 2)]}


@scenario('data sets with rows in any order, repeated temperatures, gaps, '
          'columns in any order')
def data_file(ctx):
    from auxi.tools.materialphysicalproperties.core import DataSet
    cols = ctx.choice('columns', [('T', 'rho', 'mu'), ('T', 'mu'),
                                  ('rho', 'T', 'mu')])
    rows = ROWS[ctx.choice('rows', sorted(ROWS))]
    at = [list(COLS).index(c) for c in cols]
    text = HEAD[:3] + [','.join(COLS[c][i] for c in cols) for i in range(3)] \
        + [','.join(cols)] + [','.join(
            '' if r[i] is None else repr(float(r[i])) for i in at)
            for r in rows]
    fn = ctx.write('data.csv', '\n'.join(text) + '\n')
    for _ in (0, 1):
        ds = DataSet(fn)
        ctx.check('material', ds.material == 'Stuff A')
        ctx.check('description', ds.description == 'any, text')
        ctx.check('reference', ds.reference == '')
        ctx.check('columns', list(ds.data.columns) == list(cols))
        for c, i in zip(cols, at):
            got = [None if v != v else float(v) for v in ds.data[c]]
            ctx.check('data of ' + c, got == [
                None if r[i] is None else float(r[i]) for r in rows])
            ctx.check('names of ' + c, (
                ds.names_dict[c], ds.display_symbols_dict[c],
                ds.units_dict[c]) == COLS[c])


@scenario('the template of a data set, for materials of any of 4 names')
def template(ctx):
    from auxi.tools.materialphysicalproperties.core import DataSet
    n = ctx.choice('name', ['iron', 'Liquid Iron', 'H2O', 'a, "b"'])
    d = ctx.tmpdir()
    DataSet.create_template(n, d)
    files = os.listdir(d)
    ctx.check('one file, named after the material',
              files == ['dataset-%s.csv' % n.lower()])
    ds = DataSet(os.path.join(d, files[0]))
    ctx.check('material', ds.material == n)
    ctx.check('temperature', ds.names_dict['T'] == 'Temperature' and
              ds.units_dict['T'] == 'K' and ds.display_symbols_dict['T'] ==
              'T' and len(ds.data['T']) > 0)
    ctx.check('as many columns', len(ds.col_names) == len(ds.col_units) ==
              len(ds.col_symbols) == len(ds.data.columns))


SCENARIOS = [template, properties, states, plain, datasets, data_file] + \
    [_shipped(n) for n in sorted(FLUIDS)] + \
    [_derived(n) for n in sorted(FLUIDS)]
