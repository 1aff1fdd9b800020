"""Slurry packages conserve solids, water and volume."""
from symx.runner import scenario

PRELOAD = ['auxi.modelling.process.materials.slurry']

A = [0.3072, 4.45e-07, 0.0]
B = [0.0, 0.3072]
OTHERS = [([4.45e-07, 0.0750], 'd'), ([0.3072, 4.45e-07, 0.0750], 'a')]


def text(sizes, density='3.0', water='0.5', values=None):
    return ('SizeClass  x\nsolid_density  %s\nH2O  %s\n' % (density, water) +
            ''.join('%r  %s\n' % (s, '1.0' if values is None else values[s])
                    for s in sizes))


def material(ctx, name, sizes, file=None):
    from auxi.modelling.process.materials import slurry
    return slurry.Material(name, ctx.write((file or name) + '.txt',
                                           text(sizes)))


class Want:
    """What a package has to contain."""

    def __init__(self, density, water, solids):
        self.density, self.water, self.solids = density, water, dict(solids)

    def solid(self):
        return sum(self.solids.values())

    def times(self, k):
        return Want(self.density, k * self.water,
                    {s: k * m for s, m in self.solids.items()})


def package(ctx, mat, w):
    import numpy
    from auxi.modelling.process.materials import slurry
    return slurry.MaterialPackage(
        mat, w.density, w.water,
        numpy.array([w.solids[s] for s in mat.size_classes]))


def draw(ctx, prefix, sizes, hi=1e6):
    return Want(ctx.real(prefix + 'rho', 0.5, 10),
                ctx.real(prefix + 'w', 0, hi),
                {s: ctx.real('%s%d' % (prefix, i), 0, hi)
                 for i, s in enumerate(sizes)})


def plus(a, m):
    r = dict(a)
    for c in m:
        r[c] = r[c] + m[c]
    return r


def masses(ctx, name, p, w):
    for s in p.material.size_classes:
        ctx.check_eq('%s: mass of %s' % (name, s),
                     p.get_size_class_mass(s), w.solids[s])
    ctx.check_eq(name + ': water', p.H2O_mass, w.water)
    ctx.check_eq(name + ': solid mass', p.get_solid_mass(), w.solid())
    ctx.check_eq(name + ': total mass', p.get_mass(), w.solid() + w.water)


def holds(ctx, name, p, w):
    masses(ctx, name, p, w)
    ctx.check_eq(name + ': solid density', p.solid_density, w.density)
    ctx.check_eq(name + ': volume', p.get_volume(),
                 w.water + w.solid() / w.density)


@scenario('3 size classes and water, masses in [0, 1e6], solid density in '
          '[0.5, 10]')
def ratios(ctx):
    a = material(ctx, 'a', A)
    w = draw(ctx, 'x', A)
    p = package(ctx, a, w)
    holds(ctx, 'package', p, w)
    ctx.assume(w.solid() + w.water >= 1e-3)
    V = w.water + w.solid() / w.density
    ctx.check_eq('density', p.get_density() * V, w.solid() + w.water)
    ctx.check_eq('mass fraction of solids',
                 p.get_mass_fraction_solids() * (w.solid() + w.water),
                 w.solid(), tol=1e-6, scale=1e-3)
    ctx.check_eq('volume fraction of solids',
                 p.get_volume_fraction_solids() * V, w.solid() / w.density,
                 tol=1e-6, scale=1e-3)
    ctx.check_le('fraction >= 0', -1e-9, p.get_volume_fraction_solids())
    ctx.check_le('fraction <= 1', p.get_mass_fraction_solids(), 1.0)
    ctx.assume(w.solid() >= 1e-3)
    y = p.get_assay()
    ctx.check_eq('the assay adds up to one', sum(y), 1.0)
    for i, s in enumerate(A):
        ctx.check_eq('assay[%s]' % s, y[i] * w.solid(), w.solids[s],
                     tol=1e-6, scale=1e-3)
        ctx.check_eq('fraction[%s]' % s, p.get_size_class_mass_fraction(s),
                     y[i])


@scenario('sum of two packages of one material, or of a material whose size '
          'classes are a subset or the same in another order, of the same '
          'name or another; different solid densities; '
          'with and without solids')
def addition(ctx):
    a = material(ctx, 'a', A)
    cs = ctx.choice('other', [A, B, A[::-1], A[1:] + A[:1]])
    b = a if cs is A else material(
        ctx, ctx.choice('name', ['b', 'a']), cs, file='b')
    wp, wq = draw(ctx, 'x', A, 1e9), draw(ctx, 'y', cs, 1e9)
    dry = ctx.choice('solids', ['both', 'right', 'left', 'none'])
    if dry in ('right', 'none'):
        wp.solids = {s: 0.0 for s in A}
    if dry in ('left', 'none'):
        wq.solids = {s: 0.0 for s in cs}
    else:
        ctx.assume(wq.solid() >= 1e-3)
    if dry == 'left':
        ctx.assume(wp.solid() >= 1e-3)
    p, q = package(ctx, a, wp), package(ctx, b, wq)
    V, Vs = p.get_volume() + q.get_volume(), \
        wp.solid() / wp.density + wq.solid() / wq.density
    r = p + q
    masses(ctx, 'sum', r, Want(0, wp.water + wq.water,
                               plus(wp.solids, wq.solids)))
    ctx.check('the sum has the material of the left operand',
              r.material is a)
    ctx.check_eq('volumes add up', r.get_volume(), V)
    if dry != 'none':
        ctx.check_eq('solid volumes add up',
                     r.get_solid_mass() / r.solid_density, Vs)
    holds(ctx, 'left operand', p, wp)
    holds(ctx, 'right operand', q, wq)
    ctx.assume(V >= 1e-3)
    ctx.check_eq('density of the sum', r.get_density() * V, r.get_mass())


@scenario('adding water or a mass of one size class')
def addition_of_a_part(ctx):
    a = material(ctx, 'a', A)
    w = draw(ctx, 'x', A)
    p = package(ctx, a, w)
    m = ctx.real('m', 0, 1e9)
    s = ctx.choice('part', A + ['H2O'])
    r = p + (s, m)
    if s == 'H2O':
        want = Want(w.density, w.water + m, w.solids)
    else:
        want = Want(w.density, w.water, plus(w.solids, {s: m}))
    holds(ctx, 'sum', r, want)
    holds(ctx, 'operand', p, w)


@scenario('multiplication by any factor in [0, 100]')
def multiplication(ctx):
    a = material(ctx, 'a', A)
    w = draw(ctx, 'x', A)
    k = ctx.real('k', 0, 100)
    p = package(ctx, a, w)
    holds(ctx, 'product', p * k, w.times(k))
    holds(ctx, 'operand', p, w)


@scenario('extraction of a fraction of the mass, of water, of one size '
          'class, or of a part of one')
def extraction(ctx):
    a = material(ctx, 'a', A)
    large = ctx.flag('large')
    w = draw(ctx, 'x', A, 1e9 if large else 1e6)
    ctx.assume(w.solid() + w.water >= 1e-3)
    p = package(ctx, a, w)
    V = p.get_volume()
    how = ctx.choice('how', ['mass', 'water', 'class', 'part'])
    f = 1.0 if how == 'class' else ctx.real('f', 0, 0.5 if large else 1)
    none = {s: 0.0 for s in A}
    if how == 'mass':
        r = p.extract(f * p.get_mass())
        want = w.times(f)
    elif how == 'water':
        r = p.extract(('H2O', f * p.H2O_mass))
        want = Want(w.density, f * w.water, none)
    else:
        s = ctx.choice('size', A)
        if how == 'class':
            r = p.extract(str(s))
        else:
            r = p.extract((s, f * p.get_size_class_mass(s)))
        want = Want(w.density, 0.0, plus(none, {s: f * w.solids[s]}))
    ctx.check('a new package of the same material',
              r is not p and r.material is a)
    holds(ctx, 'extracted', r, want)
    holds(ctx, 'remainder', p, Want(
        w.density, w.water - want.water,
        {s: w.solids[s] - want.solids[s] for s in A}))
    ctx.check_eq('volume is conserved', p.get_volume() + r.get_volume(), V)


@scenario('refused: too much mass, water or of a class, negative factor, '
          'incompatible material, unknown keys, wrong types; nothing changes')
def refusals(ctx):
    how = ctx.choice('what', ['mass', 'water', 'part', 'factor', '+',
                              'class', 'key', 'type'])
    # the other material has as many size classes, or fewer
    D, name = ctx.choice('other', OTHERS) if how == '+' else OTHERS[0]
    a, d = material(ctx, 'a', A), material(ctx, name, D, file='d')
    w, v = draw(ctx, 'x', A), draw(ctx, 'y', D)
    ctx.assume(w.solid() + w.water >= 1e-3)
    ctx.assume(v.solid() >= 1e-3)
    p, q = package(ctx, a, w), package(ctx, d, v)
    m = ctx.real('more', 1e-7, 1e6)
    if how == 'mass':
        ctx.raises('too much mass', Exception,
                   lambda: p.extract(p.get_mass() + m))
    elif how == 'water':
        ctx.raises('too much water', Exception,
                   lambda: p.extract(('H2O', p.H2O_mass + m)))
    elif how == 'part':
        s = ctx.choice('size', A)
        ctx.raises('too much of a class', Exception,
                   lambda: p.extract((s, p.get_size_class_mass(s) + m)))
    elif how == 'factor':
        ctx.raises('negative factor', Exception, lambda: p * (-m))
    elif how == '+':
        try:
            p + q
            ctx.check('incompatible material', False)
        except Exception as e:
            ctx.check('the refusal names the size class',
                      '0.075' in str(e), info=str(e))
    elif how == 'class':
        for f in (lambda: p + (0.5, m), lambda: p.extract('0.5'),
                  lambda: p.extract((0.5, m)),
                  lambda: p.get_size_class_mass(0.5)):
            ctx.raises('unknown class', Exception, f)
    elif how == 'key':
        for f in (lambda: p + ('Fe', m), lambda: p.extract(('Fe', 0.0))):
            ctx.raises('unknown key', Exception, f)
    else:
        for f in (lambda: p + 'a', lambda: p + m, lambda: p * 'a',
                  lambda: p.extract(None), lambda: p.extract((0.3072,))):
            ctx.raises('wrong type', Exception, f)
    holds(ctx, 'left operand', p, w)
    holds(ctx, 'right operand', q, v)


OPS = ['add class', 'add water', 'add', 'double', 'multiply', 'clone',
       'clear clone', 'extract', 'extract water', 'extract class',
       'extract part', 'clear']
S1, S2 = HIST = [0.3072, 0.0]


def step(ctx, i, p, other, led):
    """led: [ledger of p, of other]; densities are tracked as volumes of
    solids, the masses as themselves."""
    w = led[0]
    none = {s: 0.0 for s in HIST}

    def took(r, water, solids):
        out = Want(w.density, water, solids)
        holds(ctx, 'extracted %d' % i, r, out)
        led[0] = Want(w.density, w.water - water,
                      {s: w.solids[s] - solids[s] for s in HIST})
        return out
    op = ctx.choice('op%d' % i, OPS)
    if op == 'add class':
        m = ctx.real('m%d' % i, 0, 1e3)
        p = p + (S2, m)
        led[0] = Want(w.density, w.water, plus(w.solids, {S2: m}))
    elif op == 'add water':
        m = ctx.real('m%d' % i, 0, 1e3)
        p = p + ('H2O', m)
        led[0] = Want(w.density, w.water + m, w.solids)
    elif op in ('add', 'double'):
        o, q = (led[1], other) if op == 'add' else (w, p)
        p = p + q
        solid = w.solid() + o.solid()
        if ctx.case(solid == 0.0):
            rho = w.density
        else:
            rho = solid / (w.solid() / w.density + o.solid() / o.density)
        led[0] = Want(rho, w.water + o.water, plus(w.solids, o.solids))
    elif op == 'multiply':
        k = ctx.real('k%d' % i, 0, 10)
        p = p * k
        led[0] = w.times(k)
    elif op == 'clone':
        q = p.clone()
        p.extract(str(S1))
        p = q
    elif op == 'clear clone':
        p.clone().clear()
    elif op == 'extract':
        f = ctx.real('f%d' % i, 0, 1)
        ctx.assume(p.get_mass() >= 1e-3)
        r = p.extract(f * p.get_mass())
        out = took(r, f * w.water, {s: f * v for s, v in w.solids.items()})
        if ctx.choice('keep%d' % i, [0, 1]):
            p, led[0] = r, out
    elif op == 'extract water':
        f = ctx.real('f%d' % i, 0, 1)
        took(p.extract(('H2O', f * p.H2O_mass)), f * w.water, none)
    elif op == 'extract class':
        took(p.extract(str(S1)), 0.0, plus(none, {S1: w.solids[S1]}))
    elif op == 'extract part':
        f = ctx.real('f%d' % i, 0, 1)
        took(p.extract((S2, f * p.get_size_class_mass(S2))), 0.0,
             plus(none, {S2: f * w.solids[S2]}))
    elif op == 'clear':
        p.clear()
        led[0] = Want(1.0, 0.0, none)
    holds(ctx, 'after step %d (%s)' % (i, op), p, led[0])
    holds(ctx, 'other after step %d (%s)' % (i, op), other, led[1])
    return p


def run(ctx, n):
    a, b = material(ctx, 'a', HIST), material(ctx, 'b', [S1])
    x, y = draw(ctx, 'x', HIST, 1e3), draw(ctx, 'y', [S1], 1e3)
    p, q = package(ctx, a, x), package(ctx, b, y)
    led = [x, y]
    for i in range(n):
        p = step(ctx, i, p, q, led)


@scenario('every sequence of 2 operations out of 12, 2 size classes and '
          'water, masses in [0, 1e3], against a ledger')
def histories_2(ctx):
    run(ctx, 2)


@scenario('every sequence of 3 operations out of 12', tier='thorough',
          max_paths=20000)
def histories_3(ctx):
    run(ctx, 3)


SCENARIOS = [ratios, addition, addition_of_a_part, multiplication,
             extraction, refusals, histories_2, histories_3]
