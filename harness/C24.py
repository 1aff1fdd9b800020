"""Polynomial models and the states that models accept."""
from symx.runner import scenario

MP = 'auxi.tools.materialphysicalproperties.'
PRELOAD = [MP + 'polynomial', MP + 'gases', MP + 'slags', MP + 'coals',
           MP + 'liquids']
CSV = '''Name,Stuff
Description,d
Reference,r
Temperature,Density
T,\\rho
K,kg/m3
T,rho
'''


def poly(c, T):
    r = 0.0
    for i, x in enumerate(c):
        r = r + x * T ** (len(c) - 1 - i) if i < len(c) - 1 else r + x
    return r


@scenario('1 to 8 coefficients, each in [-1000, 1000], T in [0, 3000] K: the '
          'value of the polynomial')
def value(ctx):
    from auxi.tools.materialphysicalproperties.polynomial import \
        PolynomialModelT
    n = ctx.choice('n', [1, 2, 3, 4, 5, 8])
    c = ctx.reals('c', n, -1000, 1000)
    given = list(c)
    m = PolynomialModelT('Stuff', 'Density', 'rho', '\\rho', 'kg/m3', None,
                         None, c)
    T = ctx.real('T', 0, 3000)
    ctx.check_eq('value', m(T=T), poly(given, T), scale=1.0)
    ctx.check_eq('calculate', m.calculate(T=T), poly(given, T), scale=1.0)
    T2 = ctx.real('T2', 0, 3000)
    ctx.check_eq('another', m(T=T2), poly(given, T2), scale=1.0)
    ctx.check_eq('the first again', m(T=T), poly(given, T), scale=1.0)


def fitted(ctx, ts, ys, degree):
    import pandas
    from auxi.tools.materialphysicalproperties.core import DataSet
    from auxi.tools.materialphysicalproperties.polynomial import \
        PolynomialModelT
    fn = ctx.write('dataset-stuff.csv', CSV + '\n'.join(
        '%s,1.0' % t for t in ts) + '\n')
    ds = DataSet(fn)
    ds.data = pandas.DataFrame({'T': ts, 'rho': ys}, dtype=object)
    return PolynomialModelT.create(ds, 'rho', degree)


DATA = [([300.0, 350.0, 400.0], 2), ([300.0, 350.0, 400.0], 1),
        ([500.0, 400.0, 450.0, 300.0], 2), ([300.0, 310.0], 1),
        ([250.0, 300.0, 350.0, 400.0, 450.0], 1), ([273.0, 400.0, 500.0], 0)]


@scenario('data sets of 2 to 5 temperatures with any values in [-100, 100], '
          'polynomials of degree 0 to 2: the least squares fit, for every T '
          'in the range of the data and no other')
def created(ctx):
    from cerberus import ValidationError
    ts, degree = ctx.choice('data', DATA)
    ys = ctx.reals('y', len(ts), -100, 100)
    m = fitted(ctx, ts, ys, degree)
    other = ctx.flag('another model after it')
    if other:
        n = fitted(ctx, [320.0, 360.0], [1.0, 2.0], 1)
    f = [ctx.no_raise('a temperature of the data is accepted',
                      lambda: m(T=t)) for t in ts]
    c = sum(ts) / len(ts)
    for k in range(degree + 1):
        ctx.check_eq('residual of degree %d' % k, 1000.0 + sum(
            (y - v) * ((t - c) / 100) ** k for t, y, v in zip(ts, ys, f)),
            1000.0, tol=1e-6, scale=1.0)
    ctx.check('material', m.material == 'Stuff')
    ctx.check('property', m.property == 'Density')
    ctx.check('symbol', m.symbol == 'rho')
    ctx.check('units', m.units == 'kg/m3')
    T = ctx.real('T', 0, 1000)
    if other:
        ctx.check_eq('the other', n(T=350.0), 1.75, tol=1e-6)
        ctx.raises('below the other', ValidationError, lambda: n(T=319.0))
        ctx.raises('above the other', ValidationError, lambda: n(T=361.0))
    if ctx.case(T < min(ts)):
        ctx.raises('below the data', ValidationError, lambda: m(T=T))
    elif ctx.case(T > max(ts)):
        ctx.raises('above the data', ValidationError, lambda: m(T=T))
    else:
        v = m(T=T)
        # the polynomial through the values at the data
        if degree == 1:
            a, b = min(ts), max(ts)
            ctx.check_eq('straight', v * (b - a), m(T=a) * (b - T) +
                         m(T=b) * (T - a), tol=1e-5, scale=100.0)
        if degree == 0:
            ctx.check_eq('constant', v, f[0], tol=1e-5, scale=1.0)


def _models():
    from auxi.tools.materialphysicalproperties import gases, liquids
    out = {}
    for n, m in list(gases.materials.items()) + [('Water', liquids.h2o)]:
        for k in ('Cp', 'mu', 'k', 'rho', 'beta', 'nu'):
            f = m.__dict__.get(k)
            if f is not None and 'max' in f.state_schema['T']:
                out[n + ' ' + k] = f
    return out


RANGES = {'Air': (100.0, 1500.0), 'Ar': (150.0, 700.0), 'NH3': (240.0, 473.0),
          'CO2': (220.0, 600.0), 'CO': (250.0, 1000.0), 'N2': (100.0, 1600.0),
          'O2': (100.0, 1000.0), 'H2O': (373.15, 1073.15),
          'Water': (273.16, 620.0)}
SHIPPED = [n + ' ' + k for n in sorted(RANGES) for k in ('Cp', 'mu', 'k')] + \
    ['NH3 rho', 'CO2 rho', 'Water rho', 'Water beta', 'Water nu']


@scenario('the shipped polynomials of 9 fluids, T in [-100, 5000] K: accepted '
          'exactly in the range of their data')
def shipped_range(ctx):
    from cerberus import ValidationError
    name = ctx.choice('model', SHIPPED)
    m = _models()[name]
    lo, hi = RANGES[name.split()[0]]
    T = ctx.real('T', -100, 5000)
    if ctx.case(T < lo):
        ctx.raises('below', ValidationError, lambda: m(T=T))
    elif ctx.case(T > hi):
        ctx.raises('above', ValidationError, lambda: m(T=T))
    else:
        ctx.observe('value', ctx.no_raise('accepted', lambda: m(T=T)))


def mixtures():
    from auxi.tools.materialphysicalproperties import gases
    return [gases.WilkeMuTx, gases.HerningZippererMuTx, gases.IdealCpTx]


def refuse(ctx, m, st, composition, lo_T):
    """Each way to spoil a state is refused."""
    what = ctx.choice('what', ['T missing', 'T negative', 'T type', 'T None', 'extra',
                               'extra None',
                               'composition missing', 'composition type'])
    st = dict(st)
    if what == 'T missing':
        del st['T']
    elif what == 'T negative':
        st['T'] = ctx.real('neg', -1e6, -1e-9)
    elif what == 'T type':
        st['T'] = 'abc'
    elif what == 'T None':
        st['T'] = None
    elif what == 'extra None':
        st['Z'] = None
    elif what == 'extra':
        st['Z'] = ctx.real('Z', -10, 10)
    elif what == 'composition missing':
        del st[composition]
    else:
        st[composition] = 'abc'
    refused(ctx, m, st)


def refused(ctx, m, st):
    from cerberus import ValidationError
    r = 'accepted'
    try:
        m(**st)
    except ValidationError:
        r = 'refused'
    except Exception as e:
        r = type(e).__name__
    ctx.check('%s is refused' % type(m).__name__, r == 'refused', r)


@scenario('gas mixtures: T or composition missing, of another type, negative '
          'or with a quantity that is not part of the state')
def mixture_states(ctx):
    m = mixtures()[ctx.choice('model', [0, 1, 2])]()
    x = {'N2': ctx.real('x1', 0.1, 1), 'CO2': ctx.real('x2', 0.1, 1)}
    T = ctx.real('T', 300, 500)
    refuse(ctx, m, {'T': T, 'x': x}, 'x', 300)


@scenario('polynomials: T missing, of another type, or with a quantity that '
          'is not part of the state')
def polynomial_states(ctx):
    from auxi.tools.materialphysicalproperties.polynomial import \
        PolynomialModelT
    c = ctx.reals('c', 2, -10, 10)
    m = PolynomialModelT('Stuff', 'Density', 'rho', '\\rho', 'kg/m3', None,
                         None, c)
    refuse(ctx, m, {'T': ctx.real('T', 1, 500)}, 'T', 0)


@scenario('slag models: the same', finding='F06')
def slag_states(ctx):
    from auxi.tools.materialphysicalproperties import slags as s
    i = ctx.choice('model', [0, 1, 2, 3])
    m = [s.UrbainViscosityTx, s.RiboudViscosityTx, s.UrbainViscosityTy,
         s.RiboudViscosityTy][i]()
    x = {'SiO2': ctx.real('x1', 0.1, 1), 'CaO': ctx.real('x2', 0.1, 1)}
    k = 'x' if i < 2 else 'y'
    refuse(ctx, m, {'T': ctx.real('T', 1000, 2000), k: x}, k, 0)


@scenario('coal models: the same, and mass fractions below 0 or above 1',
          finding='F05')
def coal_states(ctx):
    from auxi.tools.materialphysicalproperties import coals
    m = [coals.DafCpTy, coals.DafHTy][ctx.choice('model', [0, 1])]()
    st = {'y_' + e: ctx.real('y' + e, 0.1, 0.3) for e in 'CHONS'}
    st['T'] = ctx.real('T', 300, 2000)
    if ctx.flag('fraction'):
        e = ctx.choice('of', list('CHONS'))
        d = ctx.real('off', 1e-6, 5)
        st['y_' + e] = -d if ctx.flag('negative') else 1 + d
        refused(ctx, m, st)
    else:
        refuse(ctx, m, st, 'y_C', 0)


SCENARIOS = [value, created, shipped_range, mixture_states, polynomial_states,
             slag_states, coal_states]
