"""Writes properties.jsonl and MANIFEST.json; run after editing the tables."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'auxi/tools/'
M = 'auxi/modelling/'
MAT = M + 'process/materials/'

# id, title, statement, over, quantifier text, why tests can't,
# files, [(mechanism, where)]
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, title
    PROPS.append({
        'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files, 'mechanism': [
            {'name': a, 'where': b} for a, b in mech], **(
            {'state': [{'name': a, 'meaning': b, 'where': c}
                       for a, b, c in state]} if state else {})}})


prop('C01', 'Formula parsing gives the atoms and molar mass the formula states',
     '''For every well-formed chemical formula (element symbols, subscripts,
     nested groups, hydrates, phase suffix) the stoichiometry coefficients of
     every element are those the formula states, and the molar mass is the sum
     of the coefficients times the standard atomic masses.  The answer for one
     formula does not depend on the formulas asked for before; text with an
     unknown symbol is refused.''',
     'inputs histories', 'every formula of the listed shapes with any '
     'subscripts; every sequence of queries',
     'Tests use a handful of formulas with fixed subscripts.',
     [T + 'chemistry/stoichiometry.py'],
     [('recursive formula parser', T + 'chemistry/stoichiometry.py'),
      ('molar mass cache', T + 'chemistry/stoichiometry.py')])
prop('C02', 'Mass, amount, fraction and compound conversions are consistent',
     '''Mass and amount conversions are inverse to one another and use the
     compound's molar mass; mole and mass fractions of any mixture are
     non-negative, sum to one, are inverse to one another and do not depend on
     the scale of the mixture.  Converting a mass of one compound to another
     on an element keeps the mass of that element, and inputs are not
     modified.''',
     'inputs', 'all masses, amounts and mixtures of up to five compounds',
     'Tests check a few fixed numbers for fixed compounds.',
     [T + 'chemistry/stoichiometry.py'],
     [('amount, mass, fraction and convert functions',
       T + 'chemistry/stoichiometry.py')])
prop('C03', 'Cp, H, S and G of a phase are thermodynamically consistent',
     '''For a phase with any heat capacity records, enthalpy is the integral of
     heat capacity over temperature from its reference value at 298.15 K,
     entropy the integral of Cp/T, and G = H - TS, also at record boundaries,
     above the last record, and with the magnetic contribution.  How the
     temperature range is divided in records does not matter, and a compound
     answers for the phase that was asked for.''',
     'inputs configurations', 'all coefficients, record boundaries and '
     'temperatures within the stated shapes of up to 3 records',
     'Tests compare a few temperatures of shipped compounds with recorded '
     'values.', [T + 'chemistry/thermochemistry.py'],
     [('heat capacity records: Cp, H, S', T + 'chemistry/thermochemistry.py'),
      ('phase: reference state, records, magnetic terms',
       T + 'chemistry/thermochemistry.py')])
prop('C04', 'Thermochemistry functions are consistent over all shipped data',
     '''For every compound and phase in the shipped databases, every
     temperature and every mass, the mass-based Cp, H, S and G functions agree
     with one another (dH/dT = Cp, dS/dT = Cp/T, G = H - TS), are proportional
     to mass, and a compound or phase that is not in the database is
     refused.''',
     'inputs configurations', 'every shipped compound and phase, every '
     'temperature in and above its records, every mass',
     'Tests check a few compounds at a few temperatures.',
     [T + 'chemistry/thermochemistry.py', T + 'chemistry/data'],
     [('Cp, H, S, G with unit conversion', T + 'chemistry/thermochemistry.py'),
      ('database loader', T + 'chemistry/thermochemistry.py')])
prop('C05', 'Chemical material packages conserve compounds, elements and mass',
     '''Under every history of addition, scaling, extraction, clearing and
     cloning, the mass of each compound in every chemical package is what a
     ledger of the operations gives, element masses follow from the compound
     masses, and totals are their sum.  Extraction moves material and creates
     or destroys none; a refused operation changes nothing.''',
     'inputs histories', 'all masses and factors; every sequence of up to '
     '2 (thorough: 3) of 13 operations',
     'Tests apply single operations to one fixed package.',
     [MAT + 'chem.py'], [('package operators, add_to, extract, clear, clone',
                          MAT + 'chem.py')])
prop('C06', 'Particle size packages conserve the mass of every size class',
     '''Under every history of addition, scaling, extraction, clearing and
     cloning, the mass of each size class in every particle size package is
     what a ledger of the operations gives, and totals and mass fractions
     follow from it.  Extraction moves material; a refused operation changes
     nothing.''',
     'inputs histories', 'all masses and factors; every sequence of up to '
     '2 (thorough: 3) of 13 operations',
     'Tests apply single operations to one fixed package.',
     [MAT + 'psd.py'], [('package operators, add_to, extract, clear, clone',
                         MAT + 'psd.py')])
prop('C07', 'Slurry packages conserve solids, water and volume',
     '''Under every history of addition, scaling, extraction, clearing and
     cloning of slurry packages, the mass of each size class and of water is
     what a ledger gives, and combining slurries adds their solid volumes.
     Solid, liquid and slurry densities, fractions and volumes agree with one
     another; a refused operation changes nothing.''',
     'inputs histories', 'all masses, densities and factors; every sequence '
     'of up to 2 (thorough: 3) of 12 operations',
     'Tests apply single operations to one fixed package.',
     [MAT + 'slurry.py'], [('package operators, extract, density ratios',
                            MAT + 'slurry.py')])
for pid, w, m, h in (('C08', 'packages', 'mass', 'enthalpy'),
                     ('C09', 'streams', 'mass flow', 'enthalpy flow')):
    extra = '' if pid == 'C08' else ''' For a coal stream scaling and
     extraction keep the heating value, which is that of its elements if none
     is given, and adding or removing carbon accounts for its heat of
     combustion.'''
    prop(pid, 'Thermochemical %s conserve mass and enthalpy' % w,
         '''Under every history of addition, scaling, extraction, temperature
         and enthalpy changes, the %s of each compound and the %s of every
         thermochemical %s are what a ledger gives, temperature and enthalpy
         correspond to one another, and element amounts follow from the
         compounds.  Extraction and scaling keep temperature and pressure,
         mixing at one temperature keeps it, and a refused operation changes
         nothing.%s''' % (m, h, w[:-1], extra),
         'inputs histories', 'all masses, temperatures, pressures and factors '
         'in the stated ranges; every sequence of up to 2 (thorough: 3) of 12 '
         'operations',
         'Tests apply single operations to one fixed mixture.',
         [MAT + 'thermo.py'],
         [('operators, extract, temperature from enthalpy', MAT + 'thermo.py'),
          ('enthalpy of a compound', T + 'chemistry/thermochemistry.py')],
         [('compound masses, P, T, H', 'contents and state', MAT + 'thermo.py')])
prop('C10', 'Packages derived from packages share no state with them',
     '''Cloning, adding, scaling and extracting give packages and streams of
     their own: whatever is then done to an operand or to the result leaves
     the others as they were, and an operator changes neither operand.''',
     'histories inputs', 'five kinds of package, 10 ways to derive one, 5 ways '
     'to change one afterwards, all contents',
     'Tests look at the result of one operation, not at what a later '
     'operation does to its operands.',
     [MAT + f for f in ('chem.py', 'psd.py', 'slurry.py', 'thermo.py')],
     [('operators copy the arrays they are given', MAT + 'chem.py'),
      ('clone', MAT + 'thermo.py')])
prop('C11', 'Packages created from an assay have its composition and mass',
     '''A package or stream created from an assay of a material file has the
     requested mass (or mass flow rate), pressure and temperature and the
     composition of that assay, normalised unless asked otherwise; an empty
     one contains nothing.  Neither the material nor packages created before
     or after are affected, assays added later are used like those in the
     file, and a refused assay changes nothing.''',
     'inputs histories', 'all assays, masses, pressures and temperatures in '
     'the stated ranges; five kinds of material; 4 layouts of the file',
     'Tests create one package from one fixed file.',
     [MAT + f for f in ('chem.py', 'psd.py', 'slurry.py', 'thermo.py')],
     [('material file reader', MAT + 'chem.py'),
      ('create_package and create_stream', MAT + 'thermo.py')])

exec(open(os.path.join(ROOT, 'tools', 'spec_more.py')).read())

REAL = ('Covers every input within the bounds the evidence file lists per '
        'scenario. Assumes real arithmetic for floats; the modelled '
        'numpy/datetime operations are validated by replaying a model of every '
        'path on the unmodified modules.')
NA = {}
NOTE = {}
NA.update(globals().get('NA_MORE', {}))


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    man = {
        'version': 1,
        'setup_cmd': './check selftest',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './check %s quick' % p['id'],
            'thorough_cmd': './check %s thorough' % p['id'],
            'technique': 'symbolic execution of the Python source, SMT (z3)',
            'level': 'model_checking',
            'level_note': LEVEL.get(p['id'], REAL),
        } for p in PROPS if p['id'] not in NA],
        'not_applicable': [{'property': k, 'reason': v}
                           for k, v in sorted(NA.items())],
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    design()


def design():
    with open(os.path.join(ROOT, 'tools', 'DESIGN.in.md')) as f:
        s = f.read()
    det = []
    for p in PROPS:
        if p['id'] in NA:
            continue
        det.append('### %s %s\n\n%s\n' % (p['id'], p['title'],
                                          DETAIL.get(p['id'], '')))
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        kf = json.load(f)['findings']
    fixed = ['* ' + x['what'] for x in kf if x['status'] == 'fixed']
    known = ['* %s (%s): %s' % (x['id'], x['property'], x['what'])
             for x in kf if x['status'] == 'known']
    sd = os.path.join(ROOT, 'seeded')
    rf = os.path.join(ROOT, 'tools', 'seeded_results.json')
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    rows = []
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (
            n, m['property'], m['what_it_breaks'].replace('|', '/'),
            res.get(n, '')))
    table = '\n'.join(['| change | property | what it breaks | reported by |',
                       '|---|---|---|---|'] + rows)
    for k, v in (('DETAILS', '\n'.join(det)), ('FIXED', '\n'.join(fixed)),
                 ('RECORDED', '\n'.join(known)), ('SEEDED', table)):
        s = s.replace('\n%s\n' % k, '\n%s\n' % v)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(s)


main()
