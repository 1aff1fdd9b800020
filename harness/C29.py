"""Compound data read from FactSage and auxi files."""
import os

from symx.runner import scenario

PRELOAD = ['auxi.tools.chemistry.thermochemistry']
TREF = 298.15
# exponents of the terms of every record, per phase
LAYOUTS = {
    'one term': [('S1', [[0.0]])],
    'two terms': [('S1', [[0.0, 1.0]])],
    'three terms, on two lines': [('S1', [[0.0, -2.0, 1.0]])],
    'four terms, on two lines': [('G', [[0.0, -2.0, 1.0, 2.0]])],
    'two records': [('S1', [[0.0, 1.0], [0.0]])],
    'two records of several lines': [
        ('S1', [[0.0, 1.0, -2.0], [1.0, 0.0, 2.0, -2.0]])],
    'two phases of one record': [('S1', [[0.0]]), ('L', [[0.0, 1.0]])],
    'two phases, the first of two records': [
        ('S1', [[0.0], [0.0, 1.0]]), ('L', [[0.0, 1.0, -2.0]])],
    'three phases': [('S1', [[0.0, -2.0]]), ('S2', [[1.0], [0.0, 1.0]]),
                     ('L', [[0.0], [0.0]])],
}
LAYOUTS['liquid from 600 K'] = [('S1', [[0.0]]), ('L', [None, [0.0, 1.0]])]
LAYOUTS['seven terms, on four lines'] = [
    ('S1', [[0.0, -2.0, 1.0, 2.0, -1.0, 3.0, -3.0]])]
LAYOUTS['twelve records'] = [('S1', [[0.0], [0.0, 1.0], [1.0]] * 4)]
LAYOUTS['seven phases, eleven records'] = [
    (p, r) for p, r in zip(('S1', 'S2', 'S3', 'L', 'G', 'Aq', 'S10'), (
        [[0.0]], [[0.0], [1.0]], [[1.0]], [[0.0, 1.0], [0.0]],
        [[0.0], [0.0], [-2.0]], [[0.0, 2.0]], [[0.0]]))]
TOPS = [500.0, 900.0, 1400.0] + [1450.0 + 75.0 * i for i in range(9)]


def numbers(ctx, layout, tag=''):
    """[(phase, DHref, Sref, [(Tmin, Tmax, [(coefficient, exponent)])])]"""
    out = []
    for p, recs in layout:
        rs, lo = [], TREF
        for k, exps in enumerate(recs):
            hi = TOPS[k]
            if exps is None:  # the first record begins later
                continue
            rs.append((lo, hi, [
                (ctx.real(tag + 'c_%s_%d_%d' % (p, k, i), -100, 100), e)
                for i, e in enumerate(exps)]))
            lo = hi
        out.append((p, ctx.real(tag + 'DH_' + p, -1e6, 1e6),
                    ctx.real(tag + 'S_' + p, 0.01, 500), rs))
    return out


def factsage(ctx, formula, data, numbering, gap='  '):
    """The file, with two terms to a line."""
    out = ['Compound %s in a file' % formula, 'Phase Record DH S Cp', '',
           '_' * 40]
    n = 0
    for p, dh, s, recs in data:
        if numbering == 'restart':
            n = 0
        first = True
        for lo, hi, terms in recs:
            n += 10 if numbering == 'tens' else 1
            for i in range(0, len(terms), 2):
                f = [p, '%d' % n]
                if first:
                    f += [ctx.tok(dh), ctx.tok(s)]
                first = False
                for c, e in terms[i:i + 2]:
                    f += [ctx.tok(c), '%.2f' % e]
                if lo == TREF and hi != TOPS[0]:
                    f += ['600.00', '-', '%.2f' % hi]
                else:
                    f += ['298' if lo == TREF else '%.2f' % lo, '-',
                          '%.2f' % hi]
                out.append(gap.join(f))
        out.append('')
    out += ['_' * 40, 'S9 7 is not data']
    return '\n'.join(out) + '\n'


def direct(formula, data, **kw):
    from auxi.tools.chemistry.thermochemistry import Compound
    return Compound({**kw, 'Formula': formula, 'Phases': {p: {
        'Symbol': p, 'DHref': dh, 'Sref': s, 'Cp_records': {
            str(hi): {'Tmin': lo, 'Tmax': hi, 'Terms': [
                {'Coefficient': c, 'Exponent': e} for c, e in terms]}
            for lo, hi, terms in recs}} for p, dh, s, recs in data}})


def verify(ctx, got, formula, data, Ts, label=''):
    want = direct(formula, data)
    ctx.check('formula' + label, got.formula == formula)
    ctx.check_eq('molar mass' + label, got.molar_mass, want.molar_mass)
    ctx.check('phases' + label, got.get_phase_list() ==
              sorted(d[0] for d in data))
    for p, dh, s, recs in data:
        ctx.check_eq('H(298.15)' + label, got.H(p, TREF), dh, scale=1.0)
        ctx.check_eq('S(298.15)' + label, got.S(p, TREF), s, scale=1.0)
        for (lo, hi, terms), T in zip(recs, Ts):
            cp = 0.0
            for c, e in terms:
                cp = cp + c * T ** e
            ctx.check_eq('Cp' + label, got.Cp(p, T), cp, scale=1.0)
            for f in ('H', 'S', 'G'):
                ctx.check_eq(f + label, getattr(got, f)(p, T),
                             getattr(want, f)(p, T), scale=1.0)


def temperatures(ctx):
    T = ctx.real('T', 299, 499)
    more = [1000.0] + [t - 1.0 for t in TOPS[3:]]
    return [T, 501.0] + more, [450.0, ctx.real('T2', 501, 899)] + more


def load(th, how, path):
    getattr(th, 'load_data_' + how)(path)
    return th


@scenario('FactSage files of %d layouts (phases, records, lines), any '
          'coefficients in [-100, 100], formation enthalpies and entropies; '
          'T any in the first and second record; record numbers that go on '
          'or start again in each phase, or in tens' % len(LAYOUTS))
def factsage_file(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    layout = LAYOUTS[ctx.choice('layout', sorted(LAYOUTS))]
    numbering = ctx.choice('numbering', ['on', 'restart', 'tens'])
    gap = ctx.choice('gap', [' ', '    '])
    data = numbers(ctx, layout)
    fn = ctx.write('Compound_Fe2O3.txt',
                   factsage(ctx, 'Fe2O3', data, numbering, gap))
    try:
        th.load_data_factsage(os.path.dirname(fn))
        ctx.check('the compounds of the file', list(th.compounds) == ['Fe2O3'])
        for Ts in temperatures(ctx):
            verify(ctx, th.compounds['Fe2O3'], 'Fe2O3', data, Ts)
    finally:
        th.load_data_auxi()


@scenario('a FactSage file with numbers written as 298, 298.15, -298 and 0 '
          'among any others')
def whole_numbers(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    a, b = ctx.real('a', -100, 100), ctx.real('b', -100, 100)
    h, s, c = ctx.choice('numbers', [
        ('298', '60', '5'), ('-298', '298', '298.15'), ('0', '5', '298'),
        ('1e3', '298.150', '0'), ('-1000', '298.', '-298')])
    fn = ctx.write('Compound_Fe2O3.txt', '\n'.join([
        'Compound Fe2O3 in a file', '', '_' * 9,
        'S1 1 %s %s %s 0 %s 1 298 - 500' % (h, s, c, ctx.tok(a)),
        'S1 1 %s -2 298 - 500' % ctx.tok(b),
        'S1 2 %s 0 298 1 500 - 900' % c, '_' * 9]) + '\n')
    data = [('S1', float(h), float(s), [
        (TREF, 500.0, [(float(c), 0.0), (a, 1.0), (b, -2.0)]),
        (500.0, 900.0, [(float(c), 0.0), (298.0, 1.0)])])]
    try:
        th.load_data_factsage(os.path.dirname(fn))
        for Ts in temperatures(ctx):
            verify(ctx, th.compounds['Fe2O3'], 'Fe2O3', data, Ts)
    finally:
        th.load_data_auxi()


@scenario('a compound of any numbers in seven layouts, from a FactSage file '
          'or made directly: written to an auxi file and loaded, once and '
          'twice')
def auxi_file(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    layout = LAYOUTS[ctx.choice('layout', [
        'two terms', 'two records', 'three phases',
        'two records of several lines', 'seven terms, on four lines',
        'twelve records', 'seven phases, eleven records'])]
    data = numbers(ctx, layout)
    try:
        if ctx.flag('from FactSage'):
            fn = ctx.write('Compound_Fe2O3.txt',
                           factsage(ctx, 'Fe2O3', data, 'on'))
            th.load_data_factsage(os.path.dirname(fn))
            c = th.compounds['Fe2O3']
        else:
            ref = ctx.choice('reference', [None, 'rao1985', 'own 2020'])
            c = direct('Fe2O3', data, **(
                {} if ref is None else {'Reference': ref}))
            ctx.check('reference', c.reference == (ref or ''))
        ref = c.reference
        for k in range(ctx.choice('times', [1, 2])):
            d = os.path.join(ctx.tmpdir(), 'd%d' % k)
            os.mkdir(d)
            th.write_compound_to_auxi_file(d, c)
            th.load_data_auxi(d)
            ctx.check('the compounds of the directory',
                      list(th.compounds) == ['Fe2O3'])
            c = th.compounds['Fe2O3']
            ctx.check('reference loaded', c.reference == ref)
            ctx.check('text of the reference', c.get_reference() == (
                th.get_datafile_references()[ref]) if ref == 'rao1985' else
                ref != '' or c.get_reference() == '')
        for Ts in temperatures(ctx):
            verify(ctx, c, 'Fe2O3', data, Ts, ' loaded')
        T = ctx.real('T3', 299, 499)
        m = ctx.real('m', 0.01, 1000)
        p, dh, s, recs = data[0]
        ctx.check_eq('enthalpy per mass', th.H('Fe2O3[%s]' % p, T - 273.15, m),
                     direct('Fe2O3', data).H(p, T) * m / 3.6e6 /
                     c.molar_mass, scale=1.0)
    finally:
        th.load_data_auxi()


@scenario('a phase with magnetic data of any numbers: written to an auxi '
          'file and loaded')
def magnetic(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    dh, s = ctx.real('DH', -1e6, 1e6), ctx.real('S', 0.01, 500)
    a = ctx.real('a', -100, 100)
    tc = ctx.choice('Tc', [350.0, 1043.0])
    b0, p = ctx.real('beta0', 0.1, 3), ctx.choice('p', [0.4, 0.28])
    c = th.Compound({'Formula': 'Fe', 'Phases': {'S1': {
        'Symbol': 'S1', 'DHref': dh, 'Sref': s,
        'magnetic': {'Tc': tc, 'beta0': b0, 'p': p},
        'Cp_records': {'2000.0': {
            'Tmin': TREF, 'Tmax': 2000.0,
            'Terms': [{'Coefficient': a, 'Exponent': 0.0}]}}}}})
    try:
        th.write_compound_to_auxi_file(ctx.tmpdir(), c)
        th.load_data_auxi(ctx.tmpdir())
        r = th.compounds['Fe']
        T = ctx.real('T', 300, 1900)
        for f in ('Cp', 'H', 'S', 'G'):
            ctx.check_eq(f, getattr(r, f)('S1', T), getattr(c, f)('S1', T),
                         scale=1.0)
    finally:
        th.load_data_auxi()


@scenario('a directory of two to three files, loaded after another one: the '
          'compounds of the directory and no others')
def directory(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    how = ctx.choice('how', ['factsage', 'auxi'])
    forms = ctx.choice('compounds', [('Fe2O3', 'CO2'), ('CO', 'CO2', 'C')])
    data = {}
    for k, f in enumerate(forms):
        data[f] = [('S', ctx.real('DH%d' % k, -1e6, 1e6),
                    ctx.real('S%d' % k, 0.01, 500),
                    [(TREF, 500.0, [(ctx.real('c%d' % k, -100, 100), 0.0)])])]
    try:
        d = os.path.join(ctx.tmpdir(), 'all')
        os.mkdir(d)
        for f in forms:
            if how == 'auxi':
                th.write_compound_to_auxi_file(d, direct(f, data[f]))
            else:
                ctx.write('all/Compound_%s.txt' % f,
                          factsage(ctx, f, data[f], 'on'))
        load(th, how, d)
        ctx.check('the compounds', sorted(th.compounds) == sorted(forms))
        T = ctx.real('T', 299, 499)
        for f in forms:
            verify(ctx, th.compounds[f], f, data[f], [T])
    finally:
        th.load_data_auxi()
    ctx.check('the default data again', 'Al2O3' in th.compounds)


@scenario('a directory loaded, its file written anew, a file added, changed '
          'and taken away, and loaded again: each time what the directory '
          'has then; also with brackets in its name and files of other names')
def reloaded(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    how = ctx.choice('how', ['factsage', 'auxi'])
    nm = ctx.choice('directory', ['d', 'd [1]', 'Compound_x'])
    T = ctx.real('T', 299, 499)
    n = [0]

    def put(f):
        n[0] += 1
        data = [('S', ctx.real('DH%d' % n[0], -1e6, 1e6),
                 ctx.real('S%d' % n[0], 0.01, 500),
                 [(TREF, 500.0, [(ctx.real('c%d' % n[0], -100, 100), 0.0)])])]
        if how == 'auxi':
            th.write_compound_to_auxi_file(d, direct(f, data))
        else:
            ctx.write(nm + '/Compound_%s.txt' % f,
                      factsage(ctx, f, data, 'on'))
        have[f] = data

    def look(what):
        load(th, how, d)
        ctx.check('the compounds ' + what, sorted(th.compounds) ==
                  sorted(have))
        for f in have:
            verify(ctx, th.compounds[f], f, have[f], [T], ' ' + what)
    have = {}
    d = os.path.join(ctx.tmpdir(), nm)
    os.mkdir(d)
    os.mkdir(os.path.join(d, 'Compound_sub'))
    try:
        put('CO2')
        ctx.write(nm + '/Other_C.txt', 'text')
        ctx.write(nm + '/notes.json', '{}')
        look('at first')
        look('loaded again')
        put('CO2')
        look('after the file is written anew')
        put('Ca(OH)2')
        look('after another is added')
        ext = 'json' if how == 'auxi' else 'txt'
        os.remove(os.path.join(d, 'Compound_CO2.' + ext))
        del have['CO2']
        look('after one is taken away')
        th.load_data_auxi()
        ctx.check('the default data again', 'Al2O3' in th.compounds and
                  'Ca(OH)2' not in th.compounds or th.compounds['Ca(OH)2']
                  .get_phase_list() != ['S'])
        look('after the default data')
    finally:
        th.load_data_auxi()


@scenario('one to three compounds of one to three phases: the printed list '
          'has each of them once, with its phases')
def listed(ctx):
    import contextlib
    import io
    from auxi.tools.chemistry import thermochemistry as th
    keys = ctx.choice('layouts', [
        ('one term', 'three phases'), ('two phases of one record',),
        ('four terms, on two lines', 'one term', 'three phases')])
    want = []
    try:
        for k, lay in enumerate(keys):
            f = ['Fe2O3', 'Al', 'MgO'][k]
            data = numbers(ctx, LAYOUTS[lay], f)
            if k:  # one more to those loaded
                th.compounds[f] = direct(f, data)
            else:
                th.load_data_factsage(os.path.dirname(ctx.write(
                    'Compound_%s.txt' % f, factsage(ctx, f, data, 'on'))))
            want.append('%s: %s' % (f, ', '.join(sorted(
                d[0] for d in data))))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            th.list_compounds()
        ctx.check('the list', [x.strip() for x in out.getvalue().splitlines()
                               if ': ' in x] == sorted(want))
    finally:
        th.load_data_auxi()


SCENARIOS = [whole_numbers, listed, reloaded, factsage_file, auxi_file, magnetic, directory]
