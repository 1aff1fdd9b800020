"""Material files and oracles shared by the package harnesses."""
from harness.elements import MASS
from harness.C02 import COUNTS as _C

COUNTS = dict(_C)
COUNTS.update({'CaO': {'Ca': 1, 'O': 1}, 'Al2O3': {'Al': 2, 'O': 3},
               'Fe2O3': {'Fe': 2, 'O': 3}, 'MgO': {'Mg': 1, 'O': 1},
               'P4O10': {'P': 4, 'O': 10}, 'TiO2': {'Ti': 1, 'O': 2},
               'Co': {'Co': 1}, 'CO': {'C': 1, 'O': 1},
               'CoO': {'Co': 1, 'O': 1}})


def element_mass(masses, el):
    """[kg] of el in {compound: kg}, from the formulas' atom counts."""
    t = 0.0
    for c, m in masses.items():
        n = COUNTS[c].get(el, 0)
        if n:
            M = sum(k * MASS[e] for e, k in COUNTS[c].items())
            t = t + m * (n * MASS[el] / M)
    return t


def elements(compounds):
    return sorted({e for c in compounds for e in COUNTS[c]})


def chem_text(compounds, assays, values):
    """values[assay][compound] are texts."""
    lines = ['Compound ' + ' '.join(assays)]
    for c in compounds:
        lines.append(c + '  ' + ' '.join(values[a][c] for a in assays))
    return '\n'.join(lines) + '\n'


def chem_material(ctx, name, compounds, file=None):
    from auxi.modelling.process.materials import chem
    fn = ctx.write((file or name) + '.txt', chem_text(
        compounds, ['x'], {'x': {c: '1.0' for c in compounds}}))
    return chem.Material(name, fn)


def chem_package(ctx, mat, masses):
    from auxi.modelling.process.materials import chem
    return chem.MaterialPackage(mat, [masses[c] for c in mat.compounds])


def contents(p):
    return {c: p.get_compound_mass(c) for c in p.material.compounds}


def draw(ctx, prefix, compounds, lo=0.0, hi=1e6):
    return {c: ctx.real('%s%d' % (prefix, i), lo, hi)
            for i, c in enumerate(compounds)}


def plus(a, b):
    r = dict(a)
    for c, m in b.items():
        r[c] = r[c] + m
    return r
