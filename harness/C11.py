"""Packages and streams created from an assay in a material file."""
from symx.runner import scenario
from harness import th

PRELOAD = ['auxi.modelling.process.materials.chem',
           'auxi.modelling.process.materials.psd',
           'auxi.modelling.process.materials.slurry',
           'auxi.modelling.process.materials.thermo']

CHEM = ['Al2O3', 'CaO', 'SiO2']
COAL = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Sortho]', 'SiO2[S1]']
THERMO = ['CaO[S]', 'H2O[L]', 'SiO2[S1]']
SIZES = [0.3072, 4.45e-07, 0.0]
KINDS = ['chem', 'psd', 'slurry', 'package', 'stream']


def rows_of(kind):
    return {'chem': CHEM, 'psd': SIZES, 'slurry': SIZES}.get(kind, THERMO)


def text(ctx, kind, rows, values, extra, layout):
    """values[assay][row]; layout changes white space and the order of the
    columns."""
    names = sorted(values, reverse=layout == 1)
    sep = ['  ', '\t', '   \t ', ' '][layout]
    lead = ['', '', '  ', ''][layout]
    head = {'chem': 'Compound', 'psd': 'SizeClass', 'slurry': 'SizeClass'}
    lines = [head.get(kind, 'Compound') + sep + sep.join(names)]
    if kind == 'slurry':
        for key in ('solid_density', 'H2O'):
            lines.append(key + sep + sep.join(
                ctx.tok(extra[key][n]) for n in names))
    for r in rows:
        lines.append('%s%s' % (r, sep) + sep.join(
            ctx.tok(values[n][r]) for n in names))
        if layout == 3:
            lines += ['', ' \t'][:1 + len(lines) % 2]
    if layout in (1, 2):
        lines.append('')
    return '\n'.join(lead + ln + (' ' if layout else '')
                     for ln in lines) + '\n'


def load(ctx, kind, name, txt):
    import importlib
    mod = importlib.import_module(
        'auxi.modelling.process.materials.' +
        ('thermo' if kind in ('package', 'stream') else kind))
    return mod.Material(name, ctx.write(name + '.txt', txt))


def comp(kind, p, r):
    return getattr(p, {'chem': 'get_compound_mass',
                       'psd': 'get_size_class_mass',
                       'slurry': 'get_size_class_mass',
                       'package': 'get_compound_mass',
                       'stream': 'get_compound_mfr'}[kind])(r)


def total(kind, p):
    if kind == 'package':
        return p.mass
    if kind == 'stream':
        return p.mfr
    return p.get_mass()


def create(kind, mat, *a, **k):
    f = mat.create_stream if kind == 'stream' else mat.create_package
    return f(*a, **k)


def assays_of(kind, mat):
    return mat.raw_assays if kind in ('package', 'stream') else mat.assays


def setup(ctx, kind, layout=0):
    th.install()
    rows = rows_of(kind)
    if layout == 2:
        rows = rows[1:] + rows[:1]
    values = {n: {r: ctx.real('%s%d' % (n, i), 0, 2)
                  for i, r in enumerate(rows)} for n in ('a', 'b')}
    extra = None
    if kind == 'slurry':
        extra = {'solid_density': {n: ctx.real('rho' + n, 0.5, 10)
                                   for n in ('a', 'b')},
                 'H2O': {n: ctx.real('w' + n, 0, 1) for n in ('a', 'b')}}
    mat = load(ctx, kind, 'm', text(ctx, kind, rows, values, extra, layout))
    return rows, values, extra, mat


@scenario('2 assays of 3 rows with values in [0, 2], mass in [0, 1e4], '
          '4 layouts of white space, blank lines, columns and rows, '
          'normalised or not, five kinds')
def from_assay(ctx):
    kind = ctx.choice('kind', KINDS)
    rows, values, extra, mat = setup(ctx, kind, ctx.choice(
        'layout', [0, 1, 2, 3]))
    n = ctx.choice('assay', ['a', 'b'])
    w = values[n]
    t = sum(w.values())
    ctx.assume(t >= 1e-3)
    ctx.check_eq('total of the assay', mat.get_assay_total(n), t)
    ctx.check('rows of the material', list(
        mat.size_classes if kind in ('psd', 'slurry') else mat.compounds)
        == rows)
    m = ctx.real('m', 0, 1e4)
    norm = ctx.choice('normalise', ['default', True, False])
    kw = {} if norm == 'default' else {'normalise': norm}
    P = T = None
    if kind in ('package', 'stream'):
        ctx.assume(m >= 0.01)
        P, T = ctx.real('P', 0.1, 10), ctx.real('T', 0, 1500)
        p = create(kind, mat, n, m, P, T, **kw)
    else:
        p = create(kind, mat, n, m, **kw)
    ctx.check('the package refers to its material', p.material is mat)
    solid = m
    if kind == 'slurry':
        solid = m - m * extra['H2O'][n]
        ctx.check_eq('water', p.H2O_mass, m * extra['H2O'][n])
        ctx.check_eq('solid density', p.solid_density,
                     extra['solid_density'][n])
    for r in rows:
        if norm is False:
            ctx.check_eq('mass of %s' % r, comp(kind, p, r), solid * w[r])
        else:
            ctx.check_eq('mass of %s' % r, comp(kind, p, r) * t,
                         solid * w[r])
    if norm is not False:
        ctx.check_eq('total mass', total(kind, p), m)
    if T is not None:
        ctx.check_eq('pressure', p.P, P)
        ctx.check_eq('temperature', p.T, T)
        ctx.check_eq('enthalpy', p.Hfr if kind == 'stream' else p.H,
                     th.enthalpy({r: comp(kind, p, r) for r in rows}, T),
                     scale=1e-3, tol=1e-6)


@scenario('packages from an assay share nothing with it or one another; '
          'five kinds')
def not_shared(ctx):
    kind = ctx.choice('kind', KINDS)
    rows, values, extra, mat = setup(ctx, kind)
    t = sum(values['a'].values())
    ctx.assume(t >= 1e-3)
    m = ctx.real('m', 0.01, 1e4)
    p = create(kind, mat, 'a', m)
    q = create(kind, mat, 'a', m)
    before = {r: comp(kind, q, r) for r in rows}
    how = ctx.choice('change', ['extract', 'clear', 'row'])
    if how == 'extract':
        p.extract(total(kind, p) * 0.5)
    elif how == 'clear':
        p.clear()
    else:
        p.extract(str(rows[0]))
    for i, r in enumerate(rows):
        ctx.check_eq('the other package[%s]' % r, comp(kind, q, r),
                     before[r])
        ctx.check_eq('the assay[%s]' % r, assays_of(kind, mat)['a'][i],
                     values['a'][r])
    s = create(kind, mat, 'a', m)
    for r in rows:
        ctx.check_eq('a later package[%s]' % r, comp(kind, s, r), before[r])


@scenario('empty packages of five kinds: no mass, and filling one leaves the '
          'next one empty')
def empty(ctx):
    kind = ctx.choice('kind', KINDS)
    rows, values, extra, mat = setup(ctx, kind)
    m = ctx.real('m', 0.01, 1e4)
    p = create(kind, mat)
    ctx.check_eq('empty', total(kind, p), 0.0)
    for r in rows:
        ctx.check_eq('empty[%s]' % r, comp(kind, p, r), 0.0)
    p = p + (rows[1], m)
    ctx.check_eq('filled', total(kind, p), m)
    ctx.check_eq('filled[%s]' % rows[1], comp(kind, p, rows[1]), m)
    if kind in ('chem', 'psd'):
        p.add_to((rows[0], m))
        ctx.check_eq('filled more', total(kind, p), m + m)
    q = create(kind, mat)
    ctx.check_eq('the next one is empty', total(kind, q), 0.0)


def vector(kind, xs):
    import numpy
    return list(xs) if kind == 'chem' else numpy.array(list(xs))


def add_assay(kind, mat, name, v, rho=2.0, w=0.25):
    if kind == 'slurry':
        mat.add_assay(name, rho, w, v)
    else:
        mat.add_assay(name, v)


@scenario('assays added to a material: used like the others; refused when '
          'the name is taken, or the length or type is wrong')
def added_assays(ctx):
    kind = ctx.choice('kind', KINDS)
    rows, values, extra, mat = setup(ctx, kind)
    v = {r: ctx.real('v%d' % i, 0, 2) for i, r in enumerate(rows)}
    t = sum(v.values())
    ctx.assume(t >= 1e-3)
    m = ctx.real('m', 0.01, 1e4)
    add_assay(kind, mat, 'c', vector(kind, v.values()))
    p = create(kind, mat, 'c', m)
    ctx.check_eq('mass', total(kind, p), m)
    k = 0.75 if kind == 'slurry' else 1.0
    for r in rows:
        ctx.check_eq('mass of %s' % r, comp(kind, p, r) * t, m * k * v[r])
    bad = ctx.choice('refused', ['name', 'length', 'type'])
    name = 'b' if bad == 'name' else 'd'
    xs = [1.0, 2.0] if bad == 'length' else [1.0, 2.0, 3.0]
    u = tuple(xs) if bad == 'type' else vector(kind, xs)
    ctx.raises('refused: ' + bad, Exception,
               lambda: add_assay(kind, mat, name, u, 4.0, 0.5))
    for i, r in enumerate(rows):
        ctx.check_eq('assay b is as it was[%s]' % r,
                     assays_of(kind, mat)['b'][i], values['b'][r])
    if kind == 'slurry':
        ctx.check_eq('its solid density', mat.solid_densities['b'],
                     extra['solid_density']['b'])
        ctx.check_eq('its water', mat.H2O_fractions['b'], extra['H2O']['b'])


@scenario('custom properties of three assays are read per assay, for every '
          'combination of coal and other assays, with and without blank '
          'lines')
def custom_properties(ctx):
    th.install()
    names = ctx.choice('assays', [['a', 'b', 'c'], ['z', 'b', 'm']])
    props = ctx.choice('properties', [['Price', 'Ash'], ['Ash', 'IsCoal'],
                                      ['IsCoal', 'HHV[MJ/kg]', 'Price']])
    v = {n: {k: ctx.choice('coal ' + n, [0, 1]) if k == 'IsCoal' else
             ctx.real('%s_%s' % (n, k), 1, 100) for k in props}
         for n in names}
    cs = COAL if 'IsCoal' in props else THERMO
    gap = ctx.choice('blank lines', ['', '\n', ' \t\n\n'])
    txt = 'Compound %s\n' % ' '.join(names) + ''.join(
        '%s 1.0 2.0 1.5\n' % c for c in cs) + gap + '#\n' + ''.join(
        '%s %s\n%s' % (k, ' '.join(ctx.tok(v[n][k]) for n in names), gap)
        for k in props)
    mat = load(ctx, 'package', 'm', txt)
    ctx.check('compounds', mat.compounds == cs)
    ctx.check('properties', sorted(set(mat.custom_properties)) ==
              sorted(props))
    for n in names:
        ctx.check('properties of ' + n,
                  sorted(mat.assay_custom_properties[n]) == sorted(props))
        for k in props:
            ctx.check_eq('%s of %s' % (k, n),
                         mat.assay_custom_properties[n][k], v[n][k])
    for n in names:
        p = mat.create_stream(n, 2.0)
        ctx.check('coal if its assay says so', bool(p.isCoal) == bool(
            v[n].get('IsCoal', 0)))
        if 'HHV[MJ/kg]' in props and p.isCoal:
            ctx.check_eq('heating value', p.HHV, v[n]['HHV[MJ/kg]'])
        ctx.check_eq('mass flow rate', p.mfr, 2.0)


FORMS = [('1e-05', 1e-5), ('2.5E-1', 0.25), ('.5', 0.5), ('1.', 1.0),
         ('+0.75', 0.75), ('007.50', 7.5), ('0', 0.0), ('12', 12.0),
         ('1e3', 1000.0), ('-0.0', 0.0), ('100.000', 100.0),
         ('0.1234567890123456', 0.1234567890123456)]
LONG = {'chem': ['Al2O3', 'C', 'CaO', 'CaSO4.2H2O', 'Cr2O3', 'Fe', 'Fe2O3[S1]',
                 'Fe2O3[hematite]', 'FeO', 'H2O[L]', 'K2O', 'MgO', 'MnO',
                 'Na2O', 'P4O10', 'SiO2[L]', 'SiO2', 'TiO2', 'ZrO2'],
        'psd': ['1500', '3.35E+2', '250.', '1e2', '75', '53.0', '+38', '2.5',
                '1e0', '.5', '0.25', '0.125', '62.5e-3', '0.01', '4.45e-07',
                '0'],
        'thermo': ['CaO[S]', 'H2O[L]', 'MgO[S]', 'SiO2[S1]', 'O2[G]',
                   'Fe2O3[Salpha]']}
NAMES = ['x', 'IsCoalAssay', 'Mix.1', '-', 'ore_B', '2', 'a/b', 'X',
         'alongnameofanassayofthreehundredtonnes']


@scenario('files of 9 assays and 6 to 19 rows, the values in %d forms of '
          'number but for one assay with any values; five kinds' % len(FORMS))
def large_files(ctx):
    kind = ctx.choice('kind', KINDS)
    th.install()
    rows = LONG['psd' if kind == 'slurry' else 'thermo' if kind in (
        'package', 'stream') else kind]
    k = ctx.choice('column', [0, 1, 4, 8])
    vals, lines = {n: [] for n in NAMES}, []
    for i, r in enumerate(rows):
        out = []
        for j, n in enumerate(NAMES):
            if j == k:
                x = ctx.real('v%d' % i, 0.01, 2)
                out.append(ctx.tok(x))
            else:
                t, x = FORMS[(i * 5 + j * 7) % len(FORMS)]
                out.append(t)
            vals[n].append(x)
        lines.append('%s %s' % (r, '  '.join(out)))
    head = ['SizeClass' if kind in ('psd', 'slurry') else 'Compound']
    head[0] += ' ' + ' '.join(NAMES)
    if kind == 'slurry':
        head.append('solid_density ' + ' '.join(
            FORMS[(j * 5) % 2 + 6 + 1][0] for j in range(9)))
        head.append('H2O ' + ' '.join(FORMS[j % 3][0] for j in range(9)))
    mat = load(ctx, kind, 'm', '\n'.join(head + lines) + '\n')
    keys = rows if kind not in ('psd', 'slurry') else [float(r) for r in rows]
    ctx.check('rows of the material', list(
        mat.size_classes if kind in ('psd', 'slurry') else mat.compounds)
        == keys)
    got = assays_of(kind, mat)
    ctx.check('assays', sorted(got) == sorted(NAMES))
    for n in NAMES:
        ctx.check('as many values as rows', len(got[n]) == len(rows))
        for i, r in enumerate(rows):
            ctx.check_eq('value[%s, %s]' % (n, r), got[n][i], vals[n][i])
    m = ctx.real('m', 0.01, 1e4)
    n = NAMES[ctx.choice('assay', [k, (k + 1) % 9, 5])]
    t = sum(vals[n])
    p = create(kind, mat, n, m)
    f = 1.0
    if kind == 'slurry':
        f = 1.0 - FORMS[NAMES.index(n) % 3][1]
    ctx.check_eq('total mass', total(kind, p), m)
    for r, x in zip(keys, vals[n]):
        ctx.check_eq('mass of %s' % r, comp(kind, p, r) * t, m * f * x)


SCENARIOS = [large_files, from_assay, not_shared, empty, added_assays,
             custom_properties]
