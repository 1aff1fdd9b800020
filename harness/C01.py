"""Formula parsing: coefficients and molar mass are those of the formula."""
from symx.runner import scenario
from harness.elements import MASS

PRELOAD = ['auxi.tools.chemistry.stoichiometry']

ELEMENTS = list(MASS)

# (formula with {a}..{e} for symbolic subscripts, expected coefficients)
SHAPES = [
    ('Fe{a}O{b}', 'Fe:a O:b'),
    ('X', None),
    ('Fe{a}Cr{b}O{c}', 'Fe:a Cr:b O:c'),
    ('FeO', 'Fe:1 O:1'),
    ('H{a}O', 'H:a O:1'),
    ('CaCO{a}', 'Ca:1 C:1 O:a'),
    ('C{a}H{b}OH', 'C:a H:b+1 O:1'),
    ('CH{a}CH{b}CH{c}', 'C:3 H:a+b+c'),
    ('Ca(OH){a}', 'Ca:1 O:a H:a'),
    ('(OH){a}', 'O:a H:a'),
    ('(OH)', 'O:1 H:1'),
    ('Fe{a}(SO{b}){c}', 'Fe:a S:c O:b*c'),
    ('Al{a}(Si{b}O{c}){d}(OH){e}', 'Al:a Si:b*d O:c*d+e H:e'),
    ('Ca{a}(P(O{b}H){c}){d}', 'Ca:a P:d O:b*c*d H:c*d'),
    ('(Fe(Ni{a}(CO){b}){c}){d}', 'Fe:d Ni:a*c*d C:b*c*d O:b*c*d'),
    ('(((Si))){a}', 'Si:a'),
    ('CuSO{a}.{b}H{c}O', 'Cu:1 S:1 O:a+b H:b*c'),
    ('CuSO{a}.H{c}O', 'Cu:1 S:1 O:a+1 H:c'),
    ('NiCl{a}.{b}(NH{c}){d}', 'Ni:1 Cl:a N:b*d H:b*c*d'),
    ('Mg(OH){a}.{b}MgCl{c}', 'Mg:1+b O:a H:a Cl:b*c'),
    ('Fe{a}O{b}[S1]', 'Fe:a O:b'),
    ('Fe{a}O{b}.{c}H{d}O[hematite]', 'Fe:a O:b+c H:c*d'),
    ('Ca(OH){a}[S2]', 'Ca:1 O:a H:a'),
    ('SiO[G]', 'Si:1 O:1'),
    ('Co{a}CO{b}', 'Co:a C:1 O:b'),
    ('Si{a}SI{b}', 'Si:a S:1 I:b'),
    ('NaN{a}No{b}', 'Na:1 N:a No:b'),
]


def build(ctx, shape, spec, lo):
    env = {k: ctx.int(k, lo, 999) for k in 'abcde' if '{%s}' % k in shape}
    text = shape.format(**{k: ctx.tok(v) for k, v in env.items()})
    expected = {}
    for part in spec.split():
        el, ex = part.split(':')
        expected[el] = eval(ex, {}, env)
    return text, expected


def verify(ctx, text, expected):
    from auxi.tools.chemistry import stoichiometry as st
    for el, n in expected.items():
        ctx.check_eq('coefficient[%s]' % el,
                     st.stoichiometry_coefficient(text, el), n)
    ctx.check_eq('coefficient of an absent element',
                 st.stoichiometry_coefficient(text, 'Xe'), 0)
    els = sorted(expected)
    els = els + ['Xe'] + els[::-1] + ['Xe']  # any order, also repeated
    got = st.stoichiometry_coefficients(text, els)
    ctx.check('one coefficient per element asked for', len(got) == len(els))
    for el, n in zip(els, got):
        ctx.check_eq('coefficients[%s]' % el, n, expected.get(el, 0))
    mm = sum(n * MASS[el] for el, n in expected.items())
    ctx.check_eq('molar mass', st.molar_mass(text), mm)
    ctx.check_eq('molar mass, surrounding blanks',
                 st.molar_mass(' %s ' % text), mm)
    ctx.check('elements', st.elements([text]) == set(expected))


@scenario('%d formula shapes (nested groups to depth 3, hydrates, phase '
          'suffixes, look-alike symbols), up to 5 symbolic subscripts, each '
          'any integer in [1, 999]' % (len(SHAPES) - 1))
def shapes(ctx):
    shape, spec = ctx.choice('shape', [s for s in SHAPES if s[1]])
    text, expected = build(ctx, shape, spec, 1)
    verify(ctx, text, expected)


@scenario('the group and hydrate shapes with subscripts that may be zero')
def zero_subscripts(ctx):
    shape, spec = ctx.choice('shape', [
        ('Fe(OH){a}', 'Fe:1 O:a H:a'),
        ('CuSO{a}.{b}H{c}O', 'Cu:1 S:1 O:a+b H:b*c'),
        ('H{a}O{b}', 'H:a O:b')])
    text, expected = build(ctx, shape, spec, 0)
    from auxi.tools.chemistry import stoichiometry as st
    for el, n in expected.items():
        ctx.check_eq('coefficient[%s]' % el,
                     st.stoichiometry_coefficient(text, el), n)
    ctx.check_eq('molar mass', st.molar_mass(text),
                 sum(n * MASS[el] for el, n in expected.items()), tol=1e-5,
                 scale=1e-3)


@scenario('X{a}(Y{b}){c} with X, Y over pairs covering all 111 elements')
def every_element(ctx):
    i = ctx.choice('x', list(range(len(ELEMENTS))))
    x, y = ELEMENTS[i], ELEMENTS[(i + 7) % len(ELEMENTS)]
    text, expected = build(ctx, '%s{a}(%s{b}){c}' % (x, y),
                           '%s:a %s:b*c' % (x, y), 1)
    from auxi.tools.chemistry import stoichiometry as st
    ctx.check_eq('molar mass of the element[%s]' % x, st.molar_mass(x),
                 MASS[x])
    ctx.check_eq('molar mass', st.molar_mass(text), expected[x] * MASS[x]
                 + expected[y] * MASS[y])
    ctx.check_eq('coefficient', st.stoichiometry_coefficient(text, y),
                 expected[y])


@scenario('two formulas with different subscripts interleaved: the answer '
          'for one does not depend on the other or on repetition')
def interleaved(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    a, b, c, d = (ctx.int(k, 1, 999) for k in 'abcd')
    t1 = 'Fe%sO%s' % (ctx.tok(a), ctx.tok(b))
    t2 = 'Fe%s(OH)%s' % (ctx.tok(c), ctx.tok(d))
    for _ in range(2):
        ctx.check_eq('first', st.stoichiometry_coefficient(t1, 'Fe'), a)
        ctx.check_eq('first absent', st.stoichiometry_coefficient(t1, 'H'), 0)
        ctx.check_eq('second', st.stoichiometry_coefficient(t2, 'Fe'), c)
        ctx.check_eq('second H', st.stoichiometry_coefficient(t2, 'H'), d)
        ctx.check_eq('molar mass 1', st.molar_mass(t1),
                     a * MASS['Fe'] + b * MASS['O'])
        ctx.check_eq('molar mass 2', st.molar_mass(t2),
                     c * MASS['Fe'] + d * (MASS['H'] + MASS['O']))
        ctx.check('elements of both',
                  st.elements([t1, t2]) == {'Fe', 'O', 'H'})


LARGE = [
    ('Fe{a}O{b}', 'Fe:a O:b'),
    ('Ca(OH){a}', 'Ca:1 O:a H:a'),
    ('C{a}H{b}OH', 'C:a H:b+1 O:1'),
    ('CuSO4.{a}H{b}O', 'Cu:1 S:1 O:4+a H:a*b'),
    ('Fe{a}(SO{b}){c}[S1]', 'Fe:a S:c O:b*c'),
    ('((((((Si{a}O)2)2)2){b})2)3', 'Si:a*b*48 O:b*48'),
    ('(H(C(N(O(F{a})2)3)4)5){b}',
     'H:b C:5*b N:20*b O:60*b F:120*a*b'),
    ('H{a}LiBeBCNOFNaMgAlSiPSClKCaTiCrMnFe{b}CoNiCuZnAgAuHgPbU',
     'H:a Fe:b ' + ' '.join('%s:1' % e for e in (
         'Li Be B C N O F Na Mg Al Si P S Cl K Ca Ti Cr Mn Co Ni Cu Zn Ag Au '
         'Hg Pb U').split())),
    ('(OH){a}(OH){b}(OH)(OH)2(OH)3(OH)4(OH)5(OH)6(OH)7(OH)8(OH)9',
     'O:a+b+45 H:a+b+45'),
    ('CH3CH2CH2CH2CH2CH2CH2CH2CH2CH2CH2CH2CH2CH{a}',
     'C:14 H:27+a'),
    ('Ca(OH)2.{a}CaCl2H{b}O[averylongnameofaphase12345]',
     'Ca:1+a O:2+a H:2+a*b Cl:2*a'),
    ('K{a}Na{b}OH.{a}H2O', 'K:a Na:b O:1+a H:1+2*a'),
]


@scenario('long formulas: groups nested to depth 6, 30 elements, 11 groups, '
          'a term repeated 14 times; subscripts in [1, 9], [10, 99], '
          '[1000, 9999] or [10000, 9999999]')
def large(ctx):
    shape, spec = ctx.choice('shape', LARGE)
    lo, hi = ctx.choice('size', [(1, 9), (10, 99), (1000, 9999),
                                 (10000, 9999999)])
    env = {k: ctx.int(k, lo, hi) for k in 'abc' if '{%s}' % k in shape}
    text = shape.format(**{k: ctx.tok(v) for k, v in env.items()})
    verify(ctx, text, {p.split(':')[0]: eval(p.split(':')[1], {}, env)
                       for p in spec.split()})


# Families of formulas that are easily taken for one another.
LOOKALIKE = [
    [('CO', 'C:1 O:1'), ('Co', 'Co:1'), ('OC', 'C:1 O:1'), ('CoO', 'Co:1 O:1'),
     ('CO[G]', 'C:1 O:1'), ('Co[S1]', 'Co:1')],
    [('NO', 'N:1 O:1'), ('No', 'No:1'), ('N2O', 'N:2 O:1'),
     ('NO2', 'N:1 O:2'), ('N2O4', 'N:2 O:4'), ('No2O4', 'No:2 O:4')],
    [('SI', 'S:1 I:1'), ('Si', 'Si:1'), ('S', 'S:1'), ('I', 'I:1'),
     ('SiS', 'Si:1 S:1'), ('Si2', 'Si:2')],
    [('HF', 'H:1 F:1'), ('Hf', 'Hf:1'), ('HfF4', 'Hf:1 F:4'),
     ('HFe', 'H:1 Fe:1'), ('FeH', 'Fe:1 H:1'), ('F', 'F:1')],
    [('CS', 'C:1 S:1'), ('Cs', 'Cs:1'), ('CsCl', 'Cs:1 Cl:1'),
     ('CSC', 'C:2 S:1'), ('C', 'C:1'), ('CCl', 'C:1 Cl:1')],
    [('Fe2O3', 'Fe:2 O:3'), ('Fe3O2', 'Fe:3 O:2'), ('Fe23O', 'Fe:23 O:1'),
     ('Fe2O3[S1]', 'Fe:2 O:3'), ('Fe2O3[S2]', 'Fe:2 O:3'),
     ('O3Fe2', 'Fe:2 O:3')],
    [('CuSO4', 'Cu:1 S:1 O:4'), ('CuSO4.H2O', 'Cu:1 S:1 O:5 H:2'),
     ('CuSO4.2H2O', 'Cu:1 S:1 O:6 H:4'), ('CuSO42', 'Cu:1 S:1 O:42'),
     ('(CuSO4)2', 'Cu:2 S:2 O:8'), ('CuSO4.H2O[S1]', 'Cu:1 S:1 O:5 H:2')],
    [('CaOH2', 'Ca:1 O:1 H:2'), ('Ca(OH)2', 'Ca:1 O:2 H:2'),
     ('(CaOH)2', 'Ca:2 O:2 H:2'), ('CaO2H2', 'Ca:1 O:2 H:2'),
     ('CaO.H2O', 'Ca:1 O:2 H:2'), ('Ca2OH', 'Ca:2 O:1 H:1')],
    [('H2', 'H:2'), ('H', 'H:1'), ('He', 'He:1'), ('H2[G]', 'H:2'),
     ('H2O[G]', 'H:2 O:1'), ('H2O[L]', 'H:2 O:1')],
]


@scenario('formulas that are easily taken for one another (families of 6: '
          'letter case, phases, hydrates, brackets, order), the queries '
          'starting with any of them and repeated')
def lookalikes(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    fam = ctx.choice('family', LOOKALIKE)
    i = ctx.choice('first', list(range(6)))
    rev = ctx.choice('reversed', [False, True])
    fam = fam[i:] + fam[:i]
    if rev:
        fam = fam[::-1]
    k = ctx.real('k', 0, 1e6)
    for n in range(2):
        for text, spec in fam:
            exp = {e.split(':')[0]: int(e.split(':')[1])
                   for e in spec.split()}
            mm = sum(c * MASS[e] for e, c in exp.items())
            ctx.check_eq('molar mass[%s]' % text, st.molar_mass(text), mm)
            for el in sorted(exp) + ['Xe']:
                ctx.check_eq('coefficient[%s, %s]' % (text, el),
                             st.stoichiometry_coefficient(text, el),
                             exp.get(el, 0))
            got = st.elements([text])
            ctx.check('elements[%s]' % text, set(got) == set(exp))
            if isinstance(got, set):
                got.add('Zz')  # what is returned is the caller's
            cs = st.stoichiometry_coefficients(text, tuple(sorted(exp)))
            ctx.check_eq('coefficients[%s]' % text, sum(cs),
                         sum(exp.values()))
            if isinstance(cs, list):
                cs[0] = 77
            ctx.check_eq('mass of an amount[%s]' % text, st.mass(text, k),
                         k * mm)
    ctx.check('elements of all', set(st.elements(t for t, _ in fam)) ==
              {e.split(':')[0] for _, sp in fam for e in sp.split()})


@scenario('two formulas with symbolic subscripts asked for again after 400 '
          'others and a refused one')
def many(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    a, b, c = (ctx.int(k, 1, 999) for k in 'abc')
    t1 = 'Fe%sO%s' % (ctx.tok(a), ctx.tok(b))
    t2 = 'Al%s(OH)%s.2H2O' % (ctx.tok(c), ctx.tok(b))
    for _ in range(2):
        ctx.check_eq('molar mass 1', st.molar_mass(t1),
                     a * MASS['Fe'] + b * MASS['O'])
        ctx.check_eq('molar mass 2', st.molar_mass(t2), c * MASS['Al'] +
                     (b + 4) * MASS['H'] + (b + 2) * MASS['O'])
        ctx.check_eq('coefficient 1', st.stoichiometry_coefficient(t1, 'O'),
                     b)
        ctx.check_eq('coefficient 2', st.stoichiometry_coefficient(t2, 'H'),
                     b + 4)
        for i in range(400):
            t = 'C%dH%d' % (i + 1, 2 * i + 2)
            if i % 40 == 0:
                ctx.check_eq('another', st.molar_mass(t), (i + 1) *
                             MASS['C'] + (2 * i + 2) * MASS['H'])
            else:
                st.molar_mass(t)
        ctx.raises('refused', Exception, lambda: st.molar_mass('Xx2'))
        ctx.raises('refused coefficient', Exception,
                   lambda: st.stoichiometry_coefficient('Fe(', 'Fe'))
    ctx.check_eq('no formula has no mass', st.molar_mass(''), 0.0)


@scenario('text that is no formula: unknown symbols, unbalanced brackets, '
          'lower-case starts (fixed list of 10)')
def rejects(ctx):
    from auxi.tools.chemistry import stoichiometry as st
    a = ctx.int('a', 1, 999)
    t = ctx.choice('text', ['Xx{a}', 'fe{a}', 'Fe{a}(O', 'Fe{a})O', '(){a}',
                            '{a}Fe', 'Fe{a}-O', 'Fe{a}[', 'Fe..O{a}',
                            'Fe O{a}'])
    text = t.format(a=ctx.tok(a))
    ctx.raises('malformed formula is refused', Exception,
               lambda: st.molar_mass(text))


SCENARIOS = [shapes, large, zero_subscripts, every_element, interleaved, lookalikes,
             many, rejects]
