"""Cp, H, S and G of one phase are consistent with one another."""
from symx.runner import scenario

PRELOAD = ['auxi.tools.chemistry.thermochemistry']
TREF = 298.15
EXPS = [0.0, 1.0, -2.0, -1.0, 2.0, -0.5, 0.5, -3.0, 3.0, 1.5, -1.5]
PAIRS = [(0.0, -1.0), (1.0, -2.0), (-1.0, 0.0), (2.0, -0.5), (0.0, 0.0),
         (-3.0, 0.5)]
TRIPLE = [1.0, -2.0, -0.5]


def mk_terms(ctx, exps, tag):
    return [(ctx.real('c%s_%d' % (tag, i), -1000, 1000), e)
            for i, e in enumerate(exps)]


def mk_phase(dh, s, tmin, breaks, terms, magnetic=None):
    from auxi.tools.chemistry.thermochemistry import Phase
    d = {'Symbol': 'S', 'DHref': dh, 'Sref': s, 'Cp_records': {}}
    lo = tmin
    for hi, ts in zip(breaks, terms):
        d['Cp_records'][str(hi)] = {
            'Tmin': lo, 'Tmax': hi,
            'Terms': [{'Coefficient': c, 'Exponent': e} for c, e in ts]}
        lo = hi
    if magnetic:
        d['magnetic'] = magnetic
    return Phase(d)


def refs(ctx):
    return ctx.real('DHref', -1e6, 1e6), ctx.real('Sref', -500, 500)


def consistent(ctx, p, T):
    """The differential identities and the Gibbs relation at T."""
    cp = p.Cp(T)
    h, s, g = p.H(T), p.S(T), p.G(T)
    ctx.check_eq('dH/dT = Cp', ctx.deriv(p.H, T), cp, tol=1e-5, scale=1)
    ctx.check_eq('dS/dT = Cp/T', ctx.deriv(p.S, T) * T, cp, tol=1e-5, scale=1)
    ctx.check_eq('G = H - TS', g, h - T * s, scale=1e3)
    return cp, h, s, g


def at_reference(ctx, p, dh, s):
    ctx.check_eq('H(298.15 K) = DHref', p.H(TREF), dh, scale=1)
    ctx.check_eq('S(298.15 K) = Sref', p.S(TREF), s, scale=1)
    ctx.check_eq('G(298.15 K)', p.G(TREF), dh - TREF * s, scale=1e3)


@scenario('1 record of 3 terms with exponents from %s, coefficients in '
          '[-1000, 1000], Tmax in [400, 6000], T in [200, Tmax] including '
          'below 298.15 K' % EXPS)
def one_record(ctx):
    e1 = ctx.choice('e1', EXPS)
    e2 = ctx.choice('e2', EXPS)
    tmax = ctx.real('Tmax', 400, 6000)
    dh, s0 = refs(ctx)
    ts = mk_terms(ctx, [e1, e2, 0.0], 'a')
    p = mk_phase(dh, s0, TREF, [tmax], [ts])
    T = ctx.real('T', 200, 5999)
    ctx.assume(T <= tmax - 1)
    cp, _, _, _ = consistent(ctx, p, T)
    ctx.check_eq('Cp = sum c T**e', cp, sum(c * T**e for c, e in ts), scale=1)
    at_reference(ctx, p, dh, s0)


@scenario('1 record, 1 term with a symbolic exponent in [-3, 3] plus a '
          'constant term, T in [200, Tmax]; T**e is uninterpreted up to '
          'T**(e+k) = T**e T**k and its derivative')
def symbolic_exponent(ctx):
    e = ctx.real('e', -3, 3)
    tmax = ctx.real('Tmax', 400, 6000)
    dh, s0 = refs(ctx)
    ts = mk_terms(ctx, [e, 0.0], 'a')
    p = mk_phase(dh, s0, TREF, [tmax], [ts])
    if not ctx.symbolic:
        # finite differences of (T**(e+1) - c)/(e+1) cancel near e = -1, 0
        ctx.assume(e in (0, -1) or min(abs(e), abs(e + 1)) > 1e-3)
    T = ctx.real('T', 200, 5999)
    ctx.assume(T <= tmax - 1)
    consistent(ctx, p, T)
    at_reference(ctx, p, dh, s0)


def multi(ctx, n, exps, T_over):
    """n contiguous records; T in any of them or above the last."""
    dh, s0 = refs(ctx)
    w = [ctx.real('w%d' % i, 10, 2000) for i in range(n)]
    breaks = []
    lo = TREF
    for x in w:
        lo = lo + x
        breaks.append(lo)
    terms = [mk_terms(ctx, exps, 'r%d' % i) for i in range(n)]
    p = mk_phase(dh, s0, TREF, breaks, terms)
    k = ctx.choice('record', list(range(n)) + (['above'] if T_over else []))
    if k == 'above':
        T = breaks[-1] + ctx.real('dT', 1, 4000)
    else:
        lo = TREF if k == 0 else breaks[k - 1]
        T = lo + ctx.real('f', 0.05, 0.95) * w[k]
    return dh, s0, breaks, terms, p, k, T


def pieces(ctx, dh, s0, breaks, terms, k, T):
    """H and S at T from one single-record phase per temperature range."""
    h, s = dh, s0
    lo = TREF
    for i, (hi, ts) in enumerate(zip(breaks, terms)):
        q = mk_phase(0.0, 0.0, lo, [hi], [ts])
        ctx.check_eq('no jump at a breakpoint (H)', q.H(lo), 0.0, scale=1e-3)
        ctx.check_eq('no jump at a breakpoint (S)', q.S(lo), 0.0, scale=1e-3)
        at = T if i == k else hi
        h, s = h + q.H(at), s + q.S(at)
        if i == k:
            return h, s
        lo = hi
    cp = sum(c * breaks[-1]**e for c, e in terms[-1])
    return h + cp * (T - breaks[-1]), s, cp


@scenario('2 contiguous records of 2 terms, exponent pairs %s, breakpoints '
          'symbolic, T in either record or up to 4000 K above the last' %
          PAIRS, path_s=90)
def two_records(ctx):
    exps = ctx.choice('exps', PAIRS)
    dh, s0, breaks, terms, p, k, T = multi(ctx, 2, exps, True)
    cp, h, s, g = consistent(ctx, p, T)
    r = pieces(ctx, dh, s0, breaks, terms, k, T)
    ctx.check_eq('H accumulates over the records', h, r[0], scale=1e3)
    if k == 'above':
        ctx.check_eq('constant Cp above the last record', cp, r[2], scale=1)
        lim = p.S(breaks[-1])
        ctx.check_eq('S up to the last breakpoint', lim, r[1], scale=1)
    else:
        ctx.check_eq('Cp of the record that covers T', cp,
                     sum(c * T**e for c, e in terms[k]), scale=1)
        ctx.check_eq('S accumulates over the records', s, r[1], scale=1)
    at_reference(ctx, p, dh, s0)


@scenario('the temperature of a breakpoint itself, 2 records: H, S and G are '
          'those of the lower record, and the upper record starts there')
def at_breakpoint(ctx):
    exps = ctx.choice('exps', PAIRS)
    dh, s0 = refs(ctx)
    t1 = ctx.real('T1', 300, 2000)
    t2 = t1 + ctx.real('w', 10, 2000)
    a, b = mk_terms(ctx, exps, 'a'), mk_terms(ctx, exps, 'b')
    p = mk_phase(dh, s0, TREF, [t1, t2], [a, b])
    lower = mk_phase(dh, s0, TREF, [t1], [a])
    ctx.check_eq('H at the first breakpoint', p.H(t1), lower.H(t1), scale=1e3)
    ctx.check_eq('S at the first breakpoint', p.S(t1), lower.S(t1), scale=1)
    ctx.check_eq('G at the first breakpoint', p.G(t1),
                 lower.H(t1) - t1 * lower.S(t1), scale=1e3)
    both = sum(c * t1**e for c, e in a), sum(c * t1**e for c, e in b)
    cp = p.Cp(t1)
    if ctx.case(cp == both[0]):
        ctx.check_eq('Cp at the first breakpoint', cp, both[0], scale=1)
    else:
        ctx.check_eq('Cp at the first breakpoint', cp, both[1], scale=1)
    upper = mk_phase(lower.H(t1), lower.S(t1), t1, [t2], [b])
    ctx.check_eq('H at the last breakpoint', p.H(t2), upper.H(t2), scale=1e3)
    ctx.check_eq('S at the last breakpoint', p.S(t2), upper.S(t2), scale=1)
    ctx.check_eq('Cp at the last breakpoint', p.Cp(t2),
                 sum(c * t2**e for c, e in b), scale=1)
    ctx.check_eq('G at the last breakpoint', p.G(t2),
                 p.H(t2) - t2 * p.S(t2), scale=1e3)


@scenario('splitting one record at an arbitrary temperature changes nothing; '
          'the records are given in either order')
def split_invariance(ctx):
    exps = ctx.choice('exps', PAIRS)
    dh, s0 = refs(ctx)
    t1 = ctx.real('T1', 300, 2000)
    t2 = t1 + ctx.real('w', 10, 2000)
    a = mk_terms(ctx, exps, 'a')
    one = mk_phase(dh, s0, TREF, [t2], [a])
    from auxi.tools.chemistry.thermochemistry import Phase
    recs = [(t1, TREF), (t2, t1)]
    if ctx.flag('reversed'):
        recs.reverse()
    two = Phase({'Symbol': 'S', 'DHref': dh, 'Sref': s0, 'Cp_records': {
        str(hi): {'Tmin': lo, 'Tmax': hi,
                  'Terms': [{'Coefficient': c, 'Exponent': e}
                            for c, e in a]} for hi, lo in recs}})
    T = ctx.real('T', 200, 6000)
    for f in ('Cp', 'H', 'S', 'G'):
        ctx.check_eq('%s of the split phase' % f, getattr(two, f)(T),
                     getattr(one, f)(T), scale=1 if f in 'CpS' else 1e3)


MANY = [(350.0, [0.0]), (500.0, [1.0, 0.0]), (990.0, [0.0, -2.0, 1.0]),
        (1000.0, [0.0]), (2500.0, [0.0, 1.0, -2.0, 2.0, -0.5, 0.5]),
        (9990.0, [-1.0, 3.0]), (12000.0, [0.0, 1.0])]


@scenario('7 contiguous records of 1 to 6 terms, from 298.15 K to 12000 K, '
          'given in three orders; T any in each record or above', path_s=90)
def many_records(ctx):
    from auxi.tools.chemistry.thermochemistry import Phase
    dh, s0 = refs(ctx)
    breaks = [b for b, _ in MANY]
    lows = [TREF] + breaks[:-1]
    terms = [mk_terms(ctx, e, 'r%d' % i) for i, (_, e) in enumerate(MANY)]
    order = ctx.choice('order', [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0],
                                 [3, 0, 6, 1, 5, 2, 4]])
    p = Phase({'Symbol': 'S', 'DHref': dh, 'Sref': s0, 'Cp_records': {
        str(breaks[i]): {'Tmin': lows[i], 'Tmax': breaks[i], 'Terms': [
            {'Coefficient': c, 'Exponent': e} for c, e in terms[i]]}
        for i in order}})
    k = ctx.choice('record', [0, 1, 2, 3, 4, 5, 6, 'above'])
    if k == 'above':
        T = ctx.real('T', 12001, 20000)
    else:
        T = ctx.real('T', lows[k] + 0.05 * (breaks[k] - lows[k]),
                     breaks[k] - 0.05 * (breaks[k] - lows[k]))
    cp, h, s, g = consistent(ctx, p, T)
    r = pieces(ctx, dh, s0, breaks, terms, k, T)
    ctx.check_eq('H accumulates over the records', h, r[0], scale=1e3)
    if k == 'above':
        ctx.check_eq('constant Cp above the last record', cp, r[2], scale=1)
    else:
        ctx.check_eq('Cp of the record that covers T', cp,
                     sum(c * T**e for c, e in terms[k]), scale=1)
        ctx.check_eq('S accumulates over the records', s, r[1], scale=1)
    at_reference(ctx, p, dh, s0)


@scenario('3 contiguous records, exponents %s, T in any record or above'
          % TRIPLE, path_s=240, tier='thorough')
def three_records(ctx):
    dh, s0, breaks, terms, p, k, T = multi(ctx, 3, TRIPLE, True)
    cp, h, s, g = consistent(ctx, p, T)
    r = pieces(ctx, dh, s0, breaks, terms, k, T)
    ctx.check_eq('H accumulates over the records', h, r[0], scale=1e3)
    if k != 'above':
        ctx.check_eq('S accumulates over the records', s, r[1], scale=1)


@scenario('magnetic phase: critical temperature in [300, 2000], magnetic '
          'moment in [0, 4], p in {0.28, 0.4}; 1 record (Cp constant), T '
          'inside it or above it, on both sides of the critical temperature')
def magnetic(ctx):
    dh, s0 = refs(ctx)
    tmax = ctx.real('Tmax', 400, 3000)
    tc = ctx.real('Tc', 300, 2000)
    b0 = ctx.real('beta0', 0, 4)
    pm = ctx.choice('p', [0.28, 0.4])
    ts = mk_terms(ctx, [0.0, -2.0], 'a')
    p = mk_phase(dh, s0, TREF, [tmax], [ts],
                 {'Tc': tc, 'beta0': b0, 'p': pm})
    T = ctx.real('T', 250, 5000)
    ctx.assume((T <= tc * 0.99) | (T >= tc * 1.01))
    ctx.assume((T <= tmax * 0.99) | (T >= tmax * 1.01))
    ctx.assume((tc >= 0.2 * T) & (T <= 5 * tc))
    consistent(ctx, p, T)
    published(ctx, p, mk_phase(dh, s0, TREF, [tmax], [ts]), T, tc, b0, pm)


def published(ctx, p, q, T, tc, b0, pm):
    """Phase p is q with the contribution of Hillert and Jarl, as Dinsdale
    (1991) gives it."""
    tau = T / tc
    D = 518 / 1125 + 11692 / 15975 * (1 / pm - 1)
    if ctx.case(T <= tc):
        g = 1 - (79 / (140 * pm) / tau + 474 / 497 * (1 / pm - 1) * (
            tau**3 / 6 + tau**9 / 135 + tau**15 / 600)) / D
    else:
        g = -(tau**-5 / 10 + tau**-15 / 315 + tau**-25 / 1500) / D
    ln = ctx.fn('log', b0 + 1)
    ctx.check_eq('magnetic Gibbs energy', p.G(T) - q.G(T),
                 8.3145 * T * ln * g, tol=1e-4, scale=1e2)


@scenario('magnetic phase without moment (beta0 = 0) equals the phase '
          'without magnetic data')
def no_moment(ctx):
    dh, s0 = refs(ctx)
    tmax = ctx.real('Tmax', 400, 3000)
    tc = ctx.real('Tc', 300, 2000)
    ts = mk_terms(ctx, [0.0, -2.0], 'a')
    p = mk_phase(dh, s0, TREF, [tmax], [ts],
                 {'Tc': tc, 'beta0': 0.0, 'p': 0.4})
    q = mk_phase(dh, s0, TREF, [tmax], [ts])
    T = ctx.real('T', 250, 5000)
    for f in ('Cp', 'H', 'S', 'G'):
        ctx.check_eq(f + ' without magnetic moment', getattr(p, f)(T),
                     getattr(q, f)(T), scale=1e3)


PHASES = [['S', 'L'], ['S'], ['S1', 'S2', 'L', 'G'], ['L', 'aq']]
OTHERS = ['G', 'S', 'S1', 'S3', 'S2', 'L', 'L1', 's', '', 'aq', 'AQ', ' S',
          'SL', 'S12']


@scenario('a compound hands each query to the phase asked for and refuses '
          'any of %d phase names it does not have; %d sets of phases'
          % (len(OTHERS), len(PHASES)))
def compound_dispatch(ctx):
    from auxi.tools.chemistry.thermochemistry import Compound
    ks = ctx.choice('phases', PHASES)
    ph = {}
    for k in ks:
        ph[k] = {'Symbol': k, 'DHref': ctx.real('dh' + k, -1e6, 1e6),
                 'Sref': ctx.real('s' + k, 0, 500), 'Cp_records': {
                     '2000.0': {'Tmin': TREF, 'Tmax': 2000.0, 'Terms': [
                         {'Coefficient': ctx.real('c' + k, 1, 100),
                          'Exponent': 0.0}]}}}
    c = Compound({'Formula': 'H2O', 'Phases': ph})
    T = ctx.real('T', 300, 2900)
    k = ctx.choice('phase', ks + [x for x in OTHERS if x not in ks])
    if k not in ks:
        for f in ('Cp', 'H', 'S', 'G'):
            ctx.raises('unknown phase is refused by ' + f, Exception,
                       lambda: getattr(c, f)(k, T))
        return
    d = ph[k]
    cp = d['Cp_records']['2000.0']['Terms'][0]['Coefficient']
    h = d['DHref'] + cp * (T - TREF)
    ctx.check_eq('Cp', c.Cp(k, T), cp, scale=1)
    ctx.check_eq('H', c.H(k, T), h, scale=1e3)
    ctx.check_eq('G', c.G(k, T), h - T * c.S(k, T), scale=1e3)
    ctx.check_eq('S at the reference', c.S(k, TREF), d['Sref'], scale=1)
    ctx.check('phases of the compound',
              sorted(c.get_phase_list()) == sorted(ks))


SCENARIOS = [one_record, symbolic_exponent, two_records, many_records,
             at_breakpoint,
             split_invariance, three_records, magnetic, no_moment,
             compound_dispatch]
