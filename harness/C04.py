"""The module-level Cp/H/S/G functions over the shipped data."""
import json
import os

from symx.runner import scenario

PRELOAD = ['auxi.tools.chemistry.thermochemistry']
DATA = os.path.join(os.environ.get('VERIF_REPO', '/repo'),
                    'auxi/tools/chemistry/data')


def shipped(db):
    out = []
    d = os.path.join(DATA, db)
    for fn in sorted(os.listdir(d)):
        if not fn.startswith('Compound_'):
            continue
        with open(os.path.join(d, fn)) as f:
            j = json.load(f)
        for ph in sorted(j['_phases']):
            recs = j['_phases'][ph]['_Cp_records'].values()
            out.append((j['formula'], ph, sorted(
                (r['Tmin'], r['Tmax']) for r in recs)))
    return out


RAO, NIST = shipped('rao'), shipped('nist')


def body(ctx, case):
    from auxi.tools.chemistry import thermochemistry as th
    from auxi.tools.chemistry import stoichiometry as st
    formula, ph, recs = case
    name = '%s[%s]' % (formula, ph)
    k = ctx.choice('range', list(range(len(recs) + 1)))
    m = ctx.real('mass', 1e-3, 1e6)
    if k < len(recs):
        lo, hi = recs[k]
        T = ctx.real('T', lo - 273.15 + 0.5, hi - 273.15 - 0.5)
    else:
        hi = recs[-1][1]
        T = ctx.real('T', hi - 273.15 + 0.5, hi + 2000.0)
    cp, h, s, g = (f(name, T, m) for f in (th.Cp, th.H, th.S, th.G))
    c = th.compounds[formula]
    TK = T + 273.15
    unit = m / (3.6e6 * (st.molar_mass(formula) / 1000.0))
    for nm, v, f in (('Cp', cp, c.Cp), ('H', h, c.H), ('S', s, c.S),
                     ('G', g, c.G)):
        ctx.check_eq('%s in kWh for the mass' % nm, v, f(ph, TK) * unit,
                     tol=1e-6)
    ctx.check_eq('G = H - TS', g, h - TK * s, scale=1e-3)
    ctx.check_eq('dH/dT = Cp', ctx.deriv(lambda t: th.H(name, t, m), T,
                                         0.05),
                 cp, tol=1e-4, scale=1e-5)
    ctx.check_eq('dS/dT = Cp/T', ctx.deriv(lambda t: th.S(name, t, m), T,
                                           0.05) * TK,
                 cp, tol=1e-4, scale=1e-5)
    ctx.check_eq('default mass is one', th.H(name, T) * m, h, scale=1e-6)
    ctx.check_eq('default mass is one (Cp)', th.Cp(name, T) * m, cp)
    ctx.check_eq('default mass is one (S)', th.S(name, T) * m, s)
    ctx.check_eq('default mass is one (G)', th.G(name, T) * m, g)


@scenario('every compound and phase shipped in data/rao (%d phases); T in '
          'each Cp record and up to ~1700 K above the last; mass in '
          '[1e-3, 1e6]' % len(RAO), path_s=120)
def rao(ctx):
    body(ctx, ctx.choice('phase', RAO))


@scenario('every compound and phase shipped in data/nist (%d phases)'
          % len(NIST), path_s=120)
def nist(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    th.load_data_auxi(os.path.join(DATA, 'nist'))
    body(ctx, ctx.choice('phase', NIST))


def anchored(cases):
    """Phases whose contiguous records start at the reference state."""
    return [c for c in cases if c[2][0][0] == 298.15 and
            all(a[1] == b[0] for a, b in zip(c[2], c[2][1:]))]


@scenario('shipped phases with contiguous records from 298.15 K on (%d in '
          'rao): H and S there are the reference values, and neither '
          'jumps where records meet' % len(anchored(RAO)), path_s=120)
def reference_state(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    formula, ph, recs = ctx.choice('phase', anchored(RAO))
    c = th.compounds[formula]
    p = c._phases[ph] if hasattr(c, '_phases') else None
    ctx.check_eq('H at 298.15 K is finite and repeatable',
                 c.H(ph, 298.15), c.H(ph, 298.15))
    if p is not None:
        ctx.check_eq('H(298.15 K) = DHref', c.H(ph, 298.15), p.DHref,
                     scale=1.0)
        ctx.check_eq('S(298.15 K) = Sref', c.S(ph, 298.15), p.Sref,
                     scale=1e-2)
    d = ctx.real('d', 0, 1e-3)
    for lo, hi in recs[:-1]:
        a, b = c.H(ph, hi), c.H(ph, hi + d)
        ctx.check_le('no jump in H at a breakpoint', abs(b - a), 10.0)
        a, b = c.S(ph, hi), c.S(ph, hi + d)
        ctx.check_le('no jump in S at a breakpoint', abs(b - a), 0.1)


@scenario('a phase or compound that is not in the database is refused: for '
          'each set of phases that a compound of the database has, every '
          'phase of another compound and variants of its own; T in '
          '[-50, 3000], mass in [0, 1e6]')
def unknown(ctx):
    from auxi.tools.chemistry import thermochemistry as th
    T = ctx.real('T', -50, 3000)
    m = ctx.real('mass', 0, 1e6)
    f = ctx.choice('f', ['Cp', 'H', 'S', 'G'])
    kinds = {}
    for n in sorted(th.compounds):
        kinds.setdefault(tuple(th.compounds[n].get_phase_list()), n)
    every = sorted({p for k in kinds for p in k})
    n = ctx.choice('compound', sorted(kinds.values()) + [''])
    if n == '':
        n = ctx.choice('name', ['Qq[S]', 'Ag', 'AG[S]', 'ag[S]', 'Ag2[S]',
                                'Al3O2[S1]', '[S]', ''])
        ctx.raises('refused', Exception, lambda: getattr(th, f)(n, T, m))
        return
    own = th.compounds[n].get_phase_list()
    ctx.raises('refused without a phase', Exception,
               lambda: getattr(th, f)(n, T, m))
    for p in every + [q + '1' for q in own] + [q[:-1] for q in own] + \
            [q.lower() for q in own]:
        if p not in own:
            ctx.raises('phase %r is refused' % p, Exception,
                       lambda: getattr(th, f)('%s[%s]' % (n, p), T, m))


SCENARIOS = [rao, nist, reference_state, unknown]
