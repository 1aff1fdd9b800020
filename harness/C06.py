"""Particle size packages conserve the mass of every size class."""
from symx.runner import scenario

PRELOAD = ['auxi.modelling.process.materials.psd']

A = [0.3072, 0.0136, 0.0006, 4.45e-07, 0.0]
B = [0.0006, 0.3072]
# not subsets of A
OTHERS = [([0.0136, 0.0750], 'd'), ([0.3072, 0.0136, 0.0006, 0.0750, 0.0], 'a')]


def text(sizes, values=None):
    return 'SizeClass  x\n' + ''.join('%r  %s\n' % (
        s, '1.0' if values is None else values[s]) for s in sizes)


def material(ctx, name, sizes, file=None):
    from auxi.modelling.process.materials import psd
    return psd.Material(name, ctx.write((file or name) + '.txt',
                                        text(sizes)))


def package(ctx, mat, masses):
    import numpy
    from auxi.modelling.process.materials import psd
    return psd.MaterialPackage(
        mat, numpy.array([masses[s] for s in mat.size_classes]))


def draw(ctx, prefix, sizes, hi=1e6):
    return {s: ctx.real('%s%d' % (prefix, i), 0, hi)
            for i, s in enumerate(sizes)}


def plus(a, b):
    r = dict(a)
    for c, m in b.items():
        r[c] = r[c] + m
    return r


def holds(ctx, name, p, want):
    for s in p.material.size_classes:
        ctx.check_eq('%s: mass of %s' % (name, s),
                     p.get_size_class_mass(s), want[s])
    ctx.check_eq(name + ': total mass', p.get_mass(), sum(want.values()))


@scenario('5 size classes, masses in [0, 1e6]')
def assay(ctx):
    a = material(ctx, 'a', A)
    x = draw(ctx, 'x', A)
    p = package(ctx, a, x)
    holds(ctx, 'package', p, x)
    ctx.assume(sum(x.values()) >= 1e-3)
    y = p.get_assay()
    ctx.check_eq('the assay adds up to one', sum(y), 1.0)
    for i, s in enumerate(A):
        ctx.check_eq('assay[%s]' % s, y[i] * p.get_mass(), x[s],
                     tol=1e-6, scale=1e-3)
        ctx.check_eq('fraction[%s]' % s, p.get_size_class_mass_fraction(s),
                     y[i])


@scenario('sum of two packages of one material, or of a material whose size '
          'classes are a subset or the same in another order, of the same '
          'name or another')
def addition(ctx):
    a = material(ctx, 'a', A)
    cs = ctx.choice('other', [A, B, A[::-1], list(A), A[1:] + A[:1]])
    b = a if cs is A else material(
        ctx, ctx.choice('name', ['b', 'a']), cs, file='b')
    x, y = draw(ctx, 'x', A, 1e9), draw(ctx, 'y', cs, 1e9)
    p, q = package(ctx, a, x), package(ctx, b, y)
    if ctx.choice('how', ['+', 'add_to']) == '+':
        r = p + q
        holds(ctx, 'left operand', p, x)
        ctx.check('a new package', r is not p and r is not q)
    else:
        p.add_to(q)
        r = p
    ctx.check('the sum has the material of the left operand',
              r.material is a)
    holds(ctx, 'sum', r, plus(x, y))
    holds(ctx, 'right operand', q, y)


@scenario('adding a mass of one size class')
def addition_of_a_size_class(ctx):
    a = material(ctx, 'a', A)
    x = draw(ctx, 'x', A)
    p = package(ctx, a, x)
    s = ctx.choice('size', A)
    m = ctx.real('m', 0, 1e9)
    if ctx.choice('how', ['+', 'add_to']) == '+':
        r = p + (s, m)
        holds(ctx, 'operand', p, x)
    else:
        p.add_to((s, m))
        r = p
    holds(ctx, 'sum', r, plus(x, {s: m}))


@scenario('multiplication by any factor in [0, 100]')
def multiplication(ctx):
    a = material(ctx, 'a', A)
    x = draw(ctx, 'x', A)
    k = ctx.real('k', 0, 100)
    p = package(ctx, a, x)
    r = p * k
    holds(ctx, 'operand', p, x)
    holds(ctx, 'product', r, {s: k * x[s] for s in A})


@scenario('extraction of a fraction of the mass, of one size class, or of a '
          'part of one size class')
def extraction(ctx):
    a = material(ctx, 'a', A)
    large = ctx.flag('large')
    x = draw(ctx, 'x', A, 1e9 if large else 1e6)
    ctx.assume(sum(x.values()) >= 1e-3)
    p = package(ctx, a, x)
    how = ctx.choice('how', ['mass', 'class', 'part'])
    c = A[0] if how == 'mass' else ctx.choice('size', A)
    f = 1.0 if how == 'class' else ctx.real('f', 0, 0.5 if large else 1)
    if how == 'mass':
        r = p.extract(f * p.get_mass())
        want = {k: f * x[k] for k in A}
    elif how == 'class':
        r = p.extract(str(c))
        want = {k: x[k] if k == c else 0.0 for k in A}
    else:
        r = p.extract((c, f * p.get_size_class_mass(c)))
        want = {k: f * x[k] if k == c else 0.0 for k in A}
    ctx.check('a new package of the same material',
              r is not p and r.material is a)
    holds(ctx, 'extracted', r, want)
    holds(ctx, 'remainder', p, {k: x[k] - want[k] for k in A})


@scenario('refused: too much mass, too much of a class, negative factor, '
          'incompatible material, unknown class, wrong types; nothing changes')
def refusals(ctx):
    how = ctx.choice('what', ['mass', 'part', 'factor', '+', 'add_to',
                              'class', 'type'])
    # the other material has as many size classes, or fewer
    D, name = ctx.choice('other', OTHERS) if how in ('+', 'add_to') else \
        OTHERS[0]
    a, d = material(ctx, 'a', A), material(ctx, name, D, file='d')
    x, y = draw(ctx, 'x', A), draw(ctx, 'y', D)
    ctx.assume(sum(x.values()) >= 1e-3)
    p, q = package(ctx, a, x), package(ctx, d, y)
    m = ctx.real('more', 1e-7, 1e6)
    if how == 'mass':
        ctx.raises('too much mass', Exception,
                   lambda: p.extract(p.get_mass() + m))
    elif how == 'part':
        c = ctx.choice('c', A)
        ctx.raises('too much of a class', Exception,
                   lambda: p.extract((c, p.get_size_class_mass(c) + m)))
    elif how == 'factor':
        ctx.raises('negative factor', Exception, lambda: p * (-m))
    elif how in ('+', 'add_to'):
        try:
            p + q if how == '+' else p.add_to(q)
            ctx.check('incompatible material ' + how, False)
        except Exception as e:
            ctx.check('the refusal names the size class',
                      '0.075' in str(e), info=str(e))
    elif how == 'class':
        for f in (lambda: p + (0.5, m), lambda: p.extract('0.5'),
                  lambda: p.extract((0.5, m)),
                  lambda: p.add_to((0.5, m)),
                  lambda: p.get_size_class_mass(0.5)):
            ctx.raises('unknown class', Exception, f)
    else:
        for f in (lambda: p + 'a', lambda: p + m, lambda: p * 'a',
                  lambda: p.extract(None), lambda: p.extract((0.3072,)),
                  lambda: p.add_to(m)):
            ctx.raises('wrong type', Exception, f)
    holds(ctx, 'left operand', p, x)
    holds(ctx, 'right operand', q, y)


OPS = ['add class', 'add_to class', 'add', 'add_to', 'double', 'add_to self',
       'multiply', 'clone', 'clear clone', 'extract', 'extract class',
       'extract part', 'clear']
S1, S2, S3 = HIST = [0.3072, 0.0136, 0.0006]


def step(ctx, i, p, other, led):
    op = ctx.choice('op%d' % i, OPS)
    if op == 'add class':
        m = ctx.real('m%d' % i, 0, 1e3)
        p = p + (S2, m)
        led[0] = plus(led[0], {S2: m})
    elif op == 'add_to class':
        m = ctx.real('m%d' % i, 0, 1e3)
        p.add_to((S3, m))
        led[0] = plus(led[0], {S3: m})
    elif op == 'add':
        p = p + other
        led[0] = plus(led[0], led[1])
    elif op == 'add_to':
        p.add_to(other)
        led[0] = plus(led[0], led[1])
    elif op == 'double':
        p = p + p
        led[0] = plus(led[0], led[0])
    elif op == 'add_to self':
        p.add_to(p)
        led[0] = plus(led[0], led[0])
    elif op == 'multiply':
        k = ctx.real('k%d' % i, 0, 10)
        p = p * k
        led[0] = {c: k * v for c, v in led[0].items()}
    elif op == 'clone':
        q = p.clone()
        p.extract(str(S1))
        p = q
    elif op == 'clear clone':
        p.clone().clear()
    elif op == 'extract':
        f = ctx.real('f%d' % i, 0, 1)
        ctx.assume(p.get_mass() >= 1e-3)
        r = p.extract(f * p.get_mass())
        out = {c: f * v for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
        if ctx.choice('keep%d' % i, [0, 1]):
            p, led[0] = r, out
    elif op == 'extract class':
        r = p.extract(str(S1))
        out = {c: v if c == S1 else 0.0 for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
    elif op == 'extract part':
        f = ctx.real('f%d' % i, 0, 1)
        r = p.extract((S3, f * p.get_size_class_mass(S3)))
        out = {c: f * v if c == S3 else 0.0 for c, v in led[0].items()}
        led[0] = {c: led[0][c] - out[c] for c in out}
        holds(ctx, 'extracted %d' % i, r, out)
    elif op == 'clear':
        p.clear()
        led[0] = {c: 0.0 for c in led[0]}
    holds(ctx, 'after step %d (%s)' % (i, op), p, led[0])
    holds(ctx, 'other after step %d (%s)' % (i, op), other, led[1])
    return p


def run(ctx, n):
    a, b = material(ctx, 'a', HIST), material(ctx, 'b', B)
    x, y = draw(ctx, 'x', HIST, 1e3), draw(ctx, 'y', B, 1e3)
    p, q = package(ctx, a, x), package(ctx, b, y)
    led = [dict(x), dict(y)]
    for i in range(n):
        p = step(ctx, i, p, q, led)


@scenario('every sequence of 2 operations out of 13, 3 size classes, masses '
          'in [0, 1e3], against a ledger')
def histories_2(ctx):
    run(ctx, 2)


@scenario('every sequence of 3 operations out of 13', tier='thorough',
          max_paths=20000)
def histories_3(ctx):
    run(ctx, 3)


SCENARIOS = [assay, addition, addition_of_a_size_class, multiplication,
             extraction, refusals, histories_2, histories_3]
