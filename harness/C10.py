"""Packages made from packages share no state with them."""
from symx.runner import scenario
from harness import pk, th
from harness import C06, C07

PRELOAD = ['auxi.modelling.process.materials.chem',
           'auxi.modelling.process.materials.psd',
           'auxi.modelling.process.materials.slurry',
           'auxi.modelling.process.materials.thermo']
KITS = {'package': th.Kit(th.Package), 'stream': th.Kit(th.Stream)}
KINDS = ['chem', 'psd', 'slurry', 'package', 'stream']
CHEM = ['SiO2', 'CaO', 'Al2O3']
SIZES = [0.3072, 4.45e-07, 0.0]
THERMO = ['SiO2[S1]', 'CaO[S]', 'H2O[L]']


def rows_of(kind):
    return {'chem': CHEM, 'psd': SIZES, 'slurry': SIZES}.get(kind, THERMO)


def material(ctx, kind, name, rows):
    if kind == 'chem':
        return pk.chem_material(ctx, name, rows)
    if kind == 'psd':
        return C06.material(ctx, name, rows)
    if kind == 'slurry':
        return C07.material(ctx, name, rows)
    return KITS[kind].material(ctx, name, rows)


def make(ctx, kind, mat, w, tag):
    if kind == 'chem':
        return pk.chem_package(ctx, mat, w)
    if kind == 'psd':
        return C06.package(ctx, mat, w)
    if kind == 'slurry':
        return C07.package(ctx, mat, C07.Want(
            ctx.real(tag + 'rho', 0.5, 10), ctx.real(tag + 'w', 0.1, 1e3), w))
    P, T = KITS[kind].PT(ctx, tag)
    return KITS[kind].make(ctx, mat, w, P, T)


def snapshot(kind, p):
    rows = p.material.size_classes if kind in ('psd', 'slurry') else \
        p.material.compounds
    if kind in KITS:
        k = KITS[kind]
        return dict([(str(r), k.comp(p, r)) for r in rows],
                    T=p.T, P=p.P, H=k.H(p), m=k.mass(p),
                    price=p.custom_properties.get('Price', 0.0))
    f = p.get_compound_mass if kind == 'chem' else p.get_size_class_mass
    s = {str(r): f(r) for r in rows}
    s['m'] = p.get_mass()
    if kind == 'slurry':
        s.update(rho=p.solid_density, w=p.H2O_mass, V=p.get_volume())
    return s


def total(kind, p):
    return KITS[kind].mass(p) if kind in KITS else p.get_mass()


DERIVE = ['clone', '+ package', '+ other', '+ part', '*', 'extract',
          'extract row', 'extract part', '* one', '+ empty']
CHANGE = ['extract', 'extract row', 'extract part', 'clear', 'in place']


def derive(ctx, kind, how, p, q, o, rows):
    if how == 'clone':
        return p.clone()
    if how == '+ package':
        return p + q
    if how == '+ other':
        return p + o
    if how == '+ part':
        return p + (rows[0], ctx.real('m', 0, 1e3))
    if how == '*':
        return p * ctx.real('k', 0.01, 10)
    if how == '* one':
        return p * 1.0
    if how == 'extract':
        return p.extract(0.5 * total(kind, p))
    if how == 'extract row':
        return p.extract(str(rows[1]))
    if how == '+ empty':
        return p + p.material.create_stream() if kind == 'stream' else \
            p + p.material.create_package()
    return p.extract((rows[1], 0.25))


def change(ctx, kind, how, p, rows):
    """Modify p in place."""
    if how == 'extract':
        p.extract(0.5 * total(kind, p))
    elif how == 'extract row':
        p.extract(str(rows[0]))
    elif how == 'extract part':
        p.extract((rows[2], 0.0))
        p.extract((rows[0], 0.0))
    elif how == 'clear':
        p.clear()
    elif kind in ('chem', 'psd'):
        p.add_to((rows[0], 1.0))
        p.add_to((rows[1], 1.0))
    elif kind == 'slurry':
        p.extract(('H2O', 0.5 * p.H2O_mass))
    else:
        p.T = 77.0
        p.P = 2.5
        p.custom_properties['Price'] = 9.0


@scenario('five kinds, 10 ways to derive a package, 5 ways to change the '
          'operand or the result: the others keep their contents')
def independent(ctx):
    th.install()
    kind = ctx.choice('kind', KINDS)
    rows = rows_of(kind)
    a = material(ctx, kind, 'a', rows)
    b = material(ctx, kind, 'b', rows[::-1][:2])
    x, y = ({r: ctx.real('%s%d' % (n, i), 1.0, 1e3)
             for i, r in enumerate(rows)} for n in 'xy')
    z = {r: ctx.real('z%d' % i, 1.0, 1e3) for i, r in enumerate(rows[::-1][:2])}
    p, q, o = (make(ctx, kind, m, w, t) for m, w, t in (
        (a, x, 'p'), (a, y, 'q'), (b, z, 'o')))
    how = ctx.choice('derive', DERIVE)
    if kind in KITS:
        p.custom_properties['Price'] = 7.0
    keep = snapshot(kind, p)
    r = derive(ctx, kind, how, p, q, o, rows)
    if not how.startswith('extract'):
        ctx.same('the operand after the operation', snapshot(kind, p), keep)
    things = {'p': p, 'q': q, 'o': o, 'r': r}
    which = ctx.choice('changed', ['p', 'r', 'q', 'o'])
    if which in 'qo' and how not in ('+ package', '+ other'):
        return
    before = {k: snapshot(kind, v) for k, v in things.items()}
    if which == 'o':
        o.clear()
    else:
        change(ctx, kind, ctx.choice('change', CHANGE), things[which], rows)
    for k, v in things.items():
        if k != which:
            ctx.same('%s after %s was changed' % (k, which),
                     snapshot(kind, v), before[k])


ORIGIN = ['empty', 'assay', 'part of empty', 'times zero']


def originate(ctx, kind, how, mat, rows, assay):
    new = mat.create_stream if kind == 'stream' else mat.create_package
    if how == 'assay':
        return new(assay, 8.0)
    if how == 'part of empty':
        return new() + (rows[0], 0.0)
    if how == 'times zero':
        return new(assay, 8.0) * 0.0
    return new()


@scenario('five kinds: two packages created from a material in 4 ways, empty '
          'ones too; one is filled, scaled, emptied or changed and the other '
          'and packages created later are as new')
def created(ctx):
    th.install()
    kind = ctx.choice('kind', KINDS)
    rows = rows_of(kind)
    mat = material(ctx, kind, 'a', rows)
    assay = sorted(mat.raw_assays if kind in KITS else mat.assays)[0]
    h1, h2 = ctx.choice('first', ORIGIN), ctx.choice('second', ORIGIN)
    p = originate(ctx, kind, h1, mat, rows, assay)
    q = originate(ctx, kind, h2, mat, rows, assay)
    before = {'p': snapshot(kind, p), 'q': snapshot(kind, q)}
    m = ctx.real('m', 0.5, 10)
    how = ctx.choice('change', ['add', 'add_to', 'extract', 'clear'])
    if how == 'add':
        r = p + (rows[1], m)
        ctx.same('the operand', snapshot(kind, p), before['p'])
        ctx.check_eq('the sum', total(kind, r), total(kind, p) + m)
        r.extract((rows[1], 0.25))
        r.clear()
        ctx.same('the operand later', snapshot(kind, p), before['p'])
    elif how == 'add_to':
        if kind not in ('chem', 'psd'):
            return
        p.add_to((rows[0], m))
        ctx.check_eq('filled', total(kind, p), before['p']['m'] + m)
        p.add_to(p)
        ctx.check_eq('doubled', total(kind, p), 2 * (before['p']['m'] + m))
    elif how == 'extract':
        p.extract(str(rows[0]))
        p.extract((rows[1], 0.0))
    else:
        p.clear()
    ctx.same('the other one', snapshot(kind, q), before['q'])
    for h, k in ((h1, 'p'), (h2, 'q')):
        ctx.same('created later', snapshot(kind, originate(
            ctx, kind, h, mat, rows, assay)), before[k])


SCENARIOS = [independent, created]
