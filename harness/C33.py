"""Materials, packages, streams and phases print what they contain."""
from symx.runner import scenario
from harness import th
from harness.C11 import KINDS, SIZES, comp, create, load, total

from harness.C09 import COAL

PRELOAD = ['auxi.modelling.process.materials.chem',
           'auxi.modelling.process.materials.psd',
           'auxi.modelling.process.materials.slurry',
           'auxi.modelling.process.materials.thermo',
           'auxi.tools.chemistry.thermochemistry']
TOL = 2e-8  # nine digits are printed
# names of twenty characters are as wide as a column
ROWS = {'chem': ['SiO2', 'CaO', 'Ca3Al2Si3O12Mg3Fe2O5'],
        'psd': SIZES, 'slurry': SIZES}
LONG = '1.2345678912345678e-05'
LONG_NAME = 'Ca3Al2Si3O12[Garnet]'


def rows_of(kind):
    return ROWS.get(kind, ['CaO[S]', 'SiO2[S1]', 'H2O[L]'])


def table(text):
    """{first word: [the words after it]} of the lines of the text."""
    return {ln.split()[0]: ln.split()[1:] for ln in text.splitlines()
            if ln.strip()}


def line(text, label):
    """The words after the label."""
    for ln in text.splitlines():
        words = ln[len(label):].split()
        if ln.startswith(label + ' ') and words[:1] != ['fraction']:
            return words
    return None


def numbers(ctx, name, words, want, scale=1e-6):
    """The words are the numbers wanted."""
    words = [w for w in words or [] if w != '-']
    ctx.check(name + ': how many', len(words) >= len(want),
              info='%r' % (words,))
    for k, w in enumerate(want):
        ctx.check_eq(name, ctx.num(words[k]), w, tol=TOL, scale=scale)


@scenario('a material of each of four kinds with three rows, two or three '
          'assays of any numbers or long ones, one added later, custom '
          'properties or none: every number printed in its row and column')
def material(ctx):
    import numpy
    th.install()
    kind = ctx.choice('kind', ['chem', 'psd', 'slurry', 'package'])
    rows = rows_of(kind)[::ctx.choice('rows', [1, -1])]
    names = ctx.choice('assays', [['B', 'A'], ['Mix', 'Ore', 'Coal']])
    long = ctx.flag('long')
    v = {n: [ctx.real('%s%d' % (n, i), 0, 1) for i in range(3)]
         for n in names}
    t = {n: [ctx.tok(x) for x in v[n]] for n in names}
    if long:
        for n in names:
            v[n][1], t[n][1] = float(LONG), LONG
    head = ['Compound ' + ' '.join(names)]
    rho, water = {}, {}
    if kind == 'slurry':
        for n in names:
            rho[n] = float(LONG) if long else ctx.real('rho' + n, 0.5, 9)
            water[n] = ctx.real('w' + n, 0, 1)
        head += ['solid_density ' + ' '.join(
            LONG if long else ctx.tok(rho[n]) for n in names),
            'H2O ' + ' '.join(ctx.tok(water[n]) for n in names)]
    body = ['%s %s' % (r, ' '.join(t[n][i] for n in names))
            for i, r in enumerate(rows)]
    price = {}
    if kind == 'package' and ctx.flag('custom'):
        price = {n: ctx.real('price' + n, 0, 99) for n in names}
        body += ['#', 'Price ' + ' '.join(ctx.tok(price[n]) for n in names),
                 'Ash ' + ' '.join('0.25' for n in names)]
    mat = load(ctx, kind, 'Ore', '\n'.join(head + body) + '\n')
    added = ctx.choice('added', [None, '0', 'Zz'])
    if added:
        v[added] = [ctx.real('new%d' % i, 0, 1) for i in range(3)]
        if kind == 'slurry':
            rho[added], water[added] = 2.5, 0.5
            mat.add_assay(added, 2.5, 0.5, numpy.array(v[added]))
        else:
            mat.add_assay(added, v[added] if kind == 'chem' else
                          numpy.array(v[added]))
    text = str(mat)
    order = sorted(v)
    got = table(text)
    ctx.check('named', 'Ore' in text)
    ctx.check('columns', got.get('Compound') == order)
    for i, r in enumerate(rows):
        numbers(ctx, 'row', line(text, str(r)), [v[n][i] for n in order])
    if kind == 'slurry':
        numbers(ctx, 'density', line(text, 'Solid density'),
                [rho[n] for n in order])
        numbers(ctx, 'water', line(text, 'H2O fraction'),
                [water[n] for n in order])
    if kind == 'package':
        numbers(ctx, 'total', got['Total'], [sum(v[n]) for n in order])
    if price:
        numbers(ctx, 'custom', got.get('Price'),
                [price[n] for n in sorted(names)])
        numbers(ctx, 'custom', got.get('Ash'), [0.25] * len(names))


@scenario('a package or stream of each of five kinds, any masses, pressure '
          'and temperature, or empty: every quantity printed')
def package(ctx):
    kind = ctx.choice('kind', KINDS)
    th.install()
    rows = rows_of(kind)[::ctx.choice('rows', [1, -1])]
    extra = ''
    if kind == 'slurry':
        extra = 'solid_density 3.5 2.5\nH2O 0.5 0.25\n'
    x = [ctx.real('x%d' % i, 0.01, 1) for i in range(3)]
    mat = load(ctx, kind, 'Ore', 'Compound A B\n' + extra + ''.join(
        '%s %s 0.125\n' % (r, ctx.tok(w)) for r, w in zip(rows, x)))
    thermo = kind in ('package', 'stream')
    empty = kind != 'slurry' and ctx.flag('empty')
    if empty:
        p = create(kind, mat)
    elif thermo:
        p = create(kind, mat, 'A', ctx.real('m', 1, 1e4),
                   ctx.real('P', 0.1, 10), ctx.real('T', 0, 1500))
        if ctx.flag('custom'):
            p.custom_properties['Price'] = ctx.real('price', 0, 99)
    else:
        p = create(kind, mat, 'A', ctx.real('m', 1, 1e4))
    text = str(p)
    got = table(text)
    ctx.check('named', 'Ore' in text)
    m = total(kind, p)
    for r in rows:
        w = [comp(kind, p, r)]
        if thermo:
            n = p.get_compound_amounts() if kind == 'package' else \
                p.get_compound_afrs()
            a = n[mat.get_compound_index(r)]
            w += [0.0, 0.0] if empty else [w[0] / m, a / n.sum()]
        numbers(ctx, 'row', got.get(str(r)), w)
    if not thermo:
        numbers(ctx, 'mass', line(text, 'mass'), [m])
    else:
        rate = ' Flow Rate' if kind == 'stream' else ''
        for label, q in (
                ('Mass' + rate, m),
                ('Amount' + rate, p.amount if not rate else p.afr),
                ('Enthalpy' + rate, p.H if not rate else p.Hfr),
                ('Pressure', p.P), ('Temperature', p.T)):
            numbers(ctx, label, line(text, label), [q])
    if 'Price' in getattr(p, 'custom_properties', ()):
        numbers(ctx, 'custom', got.get('Price'),
                [p.custom_properties['Price']])
    if kind == 'slurry':
        numbers(ctx, 'solids', line(text, 'mass fraction solids'),
                [p.get_mass_fraction_solids()])
        numbers(ctx, 'volume of solids', line(
            text, 'volume fraction solids'), [p.get_volume_fraction_solids()])
        numbers(ctx, 'solid density', line(text, 'solid density'), [3.5])
        numbers(ctx, 'density', line(text, 'slurry density'),
                [p.get_density()])
        numbers(ctx, 'water', line(text, 'H2O mass'), [p.H2O_mass])
        numbers(ctx, 'volume', line(text, 'volume'), [p.get_volume()])


@scenario('long compound names in each kind of package, material and stream; '
          'custom properties')
def long_names(ctx):
    from auxi.tools.chemistry import thermochemistry as tc
    kind = ctx.choice('kind', ['package', 'stream'])
    th.install()
    tc.compounds['Ca3Al2Si3O12'] = tc.Compound({
        'Formula': 'Ca3Al2Si3O12', 'Phases': {'Garnet': {
            'Symbol': 'Garnet', 'DHref': -1e5, 'Sref': 5.0, 'Cp_records': {
                '9000.0': {'Tmin': 298.15, 'Tmax': 9000.0, 'Terms': [
                    {'Coefficient': 40.0, 'Exponent': 0.0}]}}}}})
    x = ctx.reals('x', 2, 0.1, 1)
    prop = 'PriceOfTheOre[USD/t]'
    mat = load(ctx, kind, 'Ore', 'Compound A\n%s %s\nCaO[S] %s\n#\n'
               '%s 25\n' % (LONG_NAME, ctx.tok(x[0]), ctx.tok(x[1]), prop))
    text = str(mat)
    numbers(ctx, 'material', line(text, LONG_NAME), [x[0]])
    numbers(ctx, 'property', line(text, prop), [25.0])
    p = create(kind, mat, 'A', 2.0)
    p.custom_properties[prop] = x[1]
    text = str(p)
    numbers(ctx, 'mass', line(text, LONG_NAME),
            [2 * x[0] / (x[0] + x[1]), x[0] / (x[0] + x[1])])
    numbers(ctx, 'of the package', line(text, prop), [x[1]])


@scenario('a phase of any enthalpy and entropy, two heat capacity records of '
          'one to nine terms of any coefficients, or seven records')
def phase(ctx):
    from auxi.tools.chemistry.thermochemistry import Phase
    dh, s = ctx.real('dh', -1e6, 1e6), ctx.real('s', 0, 1e3)
    sizes = ctx.choice('terms', [(2, 1), (9, 4), (1,) * 7, (3,)])
    c = ctx.reals('c', sum(sizes), -1e3, 1e3)
    want, at = [], 0
    for i, n in enumerate(sizes):
        want.append((298.15 if not i else 300.0 + 200 * i, 500.0 + 200 * i, [
            (c[at + k], [0.0, -2.0, 1.0, 0.5, -0.5, 2.0, -1.0, 3.0, -3.0][k])
            for k in range(n)]))
        at += n
    p = Phase({'Symbol': 'S1', 'DHref': dh, 'Sref': s, 'Cp_records': {
        str(hi): {'Tmin': lo, 'Tmax': hi, 'Terms': [
            {'Coefficient': x, 'Exponent': y} for x, y in terms]}
        for lo, hi, terms in want}})
    words = [w for ln in str(p).splitlines() for w in ln.split()]
    at = [i for i, w in enumerate(words) if w == 'DHref:']
    numbers(ctx, 'DHref', words[at[0] + 1:][:1], [dh])
    at = [i for i, w in enumerate(words) if w == 'Sref:']
    numbers(ctx, 'Sref', words[at[0] + 1:][:1], [s])
    recs = str(p).split('Tmin:')[1:]
    ctx.check('records', len(recs) == len(want))
    recs.sort(key=lambda t: float(t.split()[0]))
    for text, (lo, hi, terms) in zip(recs, want):
        w = text.split()
        numbers(ctx, 'range', [w[0], w[2]], [lo, hi])
        flat = [y for t in terms for y in t]
        numbers(ctx, 'terms', w[3:3 + len(flat)], flat)


@scenario('a coal stream of 5 elements and CaO, with or without a heating value '
          'of its own, and one that is not of coal')
def heating_value(ctx):
    from auxi.tools.chemistry import thermochemistry as tc
    tc.load_data_auxi()
    x = ctx.real('HHV', 10, 40)
    m = ctx.real('m', 1, 1e3)
    given = ctx.flag('given')
    mat = load(ctx, 'stream', 'Coal', 'Compound A B\n%s#\nIsCoal 1 0\n%s' % (
        ''.join(c + ' 1.0 1.0\n' for c in COAL),
        'HHV[MJ/kg] %s 0\n' % ctx.tok(x) if given else ''))
    p = create('stream', mat, 'A', m)
    numbers(ctx, 'heating value', line(str(p), 'HHV'),
            [x if given else p.HHV])
    q = create('stream', mat, 'B', m)
    ctx.check('none of what is not coal', line(str(q), 'HHV') is None)


SCENARIOS = [material, package, long_names, phase, heating_value]
