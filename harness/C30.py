"""What was written to a file is, once read back, what it was."""
import os

from symx.runner import scenario
from harness import fin
from harness.C17 import make as make_loan
from harness.fin import d0

MP = 'auxi.tools.materialphysicalproperties.'
PRELOAD = ['auxi.modelling.business.models', 'auxi.modelling.business.basic',
           'auxi.modelling.financial.des', MP + 'polynomial', MP + 'idealgas',
           MP + 'gases', MP + 'slags', MP + 'coals', 'auxi.core.time']
BANK = 'Bank/Default'
NAMES = ['Default', 'Alpha', 'Alpha 2', 'id', '1.5']


def again(ctx, x, name='x', times=1):
    """x as read from the file it was written to."""
    from auxi.core.objects import Object
    for k in range(times):
        fn = os.path.join(ctx.tmpdir(), name + '%d.json' % k)
        x.write(fn)
        x = Object.read(fn)
    return x


def txs(e):
    return [((t.tx_date, t.source, t.name, t.description, t.dt_account,
              t.cr_account, t.is_closing_dt_account, t.is_closing_cr_account),
             t.amount) for t in e.gl.transactions]


def same_ledgers(ctx, m1, m2, what):
    ctx.check('entities ' + what, [(e.name, e.path) for e in m1.entities] ==
              [(e.name, e.path) for e in m2.entities])
    for e1, e2 in zip(m1.entities, m2.entities):
        a, b = txs(e1), txs(e2)
        ctx.check('as many transactions ' + what, len(a) == len(b))
        for x, y in zip(a, b):
            ctx.check('the same transactions ' + what, x[0] == y[0])
            ctx.check_eq('the same amounts ' + what, x[1], y[1])


def build(ctx, unit, periods, shared, loan=False, deep=0):
    from auxi.core.time import TimePeriod
    from auxi.modelling.business.basic import BasicActivity
    from auxi.modelling.business.models import TimeBasedModel
    m = TimeBasedModel('m', 'd', start_datetime=d0(2001, 10),
                       period_count=periods,
                       period_duration=getattr(TimePeriod, unit))
    gls = fin.structure()
    n = [ctx.name('n%d' % k, NAMES) for k in range(2)]
    for k in range(2):
        e = m.create_entity('e%d' % k, gls if shared else fin.structure(),
                            'entity')
        c = e.create_component(n[k])
        s = c.create_component('sub')
        for i in range(deep):
            s = s.create_component('sub%d' % i)
        x, y = ctx.real('x%d' % k, 1e3, 1e4), ctx.real('y%d' % k, 1, 100)
        c.add_activity(BasicActivity('in', BANK, 'Sales/Metal', amount=x,
                                     start=d0(2001, 11) if k else d0(2001)))
        s.add_activity(BasicActivity('out', 'Expense/Wages', BANK, amount=y,
                                     interval=1 + k))
        if loan:
            s.add_activity(make_loan(ctx, ctx.real('loan%d' % k, 1e3, 1e4),
                                     0.06, 3, d0(2001, 11)))
    return m, n


@scenario('a model of two entities with components of any of %d names and '
          'activities of any amounts, with one account structure or two, '
          'monthly over a year end or yearly: written before its run'
          % len(NAMES), max_paths=400)
def before_run(ctx):
    unit = ctx.choice('unit', ['month', 'year'])
    m, n = build(ctx, unit, 4, ctx.flag('shared'))
    r = again(ctx, m, times=ctx.choice('times', [1, 2]))
    for k in range(2):
        e, f = m.entities[k], r.entities[k]
        ctx.check('path', f.path == e.path and
                  f.components[0].path == e.components[0].path and
                  f.components[0].components[0].path ==
                  e.path + '/' + n[k] + '/sub')
        ctx.check('found by name', r['e%d' % k] is f and
                  f[n[k]] is f.components[0])
    m.run()
    r.run()
    same_ledgers(ctx, m, r, 'in the run')
    ctx.check('the same clock', r.clock.timestep_ix == m.clock.timestep_ix and
              r.clock.get_datetime() == m.clock.get_datetime())
    r.run()
    same_ledgers(ctx, m, r, 'in a second run')


@scenario('components and accounts nested 9 deep, names and descriptions of '
          '300 characters, 40 periods')
def deep(ctx):
    m, n = build(ctx, 'month', 40, ctx.flag('shared'), deep=7)
    e = m.entities[0]
    a = e.gl.structure.get_account('Sales')
    for i in range(8):
        a = a.create_account('account %d' % i, '%04d' % i, 'x' * 300)
    c = e.create_component('y' * 300, 'z' * 300)
    from auxi.modelling.business.basic import BasicActivity
    c.add_activity(BasicActivity('in', BANK, a.path, amount=ctx.real(
        'z', 1, 1e6), description='long ' * 60))
    r = again(ctx, m)
    m.run()
    r.run()
    same_ledgers(ctx, m, r, 'in the run')
    f, s, t = r.entities[0], e.components[0], r.entities[0].components[0]
    while s.components:
        s, t = s.components[0], t.components[0]
        ctx.check('path', s.path == t.path)
    ctx.check('accounts', f.gl.structure.get_account(a.path).description ==
              'x' * 300)
    q = again(ctx, m, 'after the run')
    same_ledgers(ctx, m, q, 'read after the run')


@scenario('the same model with loans, written after its run: the ledgers and '
          'reports, a rename, an added activity and another run',
          max_paths=400)
def after_run(ctx):
    from auxi.modelling.business.basic import BasicActivity
    m, n = build(ctx, 'month', 5, ctx.flag('shared'), loan=True)
    m.run()
    r = again(ctx, m)
    same_ledgers(ctx, m, r, 'written')
    for k in range(2):
        a, b = m.entities[k].gl, r.entities[k].gl
        for what in ('balance_sheet', 'income_statement'):
            p = fin.rows(ctx, a, what, 'a' + what)
            q = fin.rows(ctx, b, what, 'b' + what)
            ctx.check('the same ' + what, p == q)
        ctx.check('accounts', b.structure.get_account(BANK).path == BANK)
    z = ctx.real('z', 0.01, 1e6)
    for x in (m, r):
        x.name = 'mm'
        x.entities[0].components[0].name = 'c'
        x.entities[1].components[0].add_activity(
            BasicActivity('more', BANK, 'Other Income', amount=z))
        x.entities[0].components[0].activities[0].amount = z
        x.period_count = 3
        x.run()
    same_ledgers(ctx, m, r, 'in the next run')


@scenario('a ledger of three transactions of any amounts, its structure with '
          'accounts of any of %d names: written, read and added to'
          % len(NAMES))
def ledger(ctx):
    gl = fin.ledger()
    n = ctx.name('n', NAMES)
    gl.structure.get_account('Sales').create_account(n, '0099', 'x')
    for k, (dt, cr) in enumerate(((BANK, 'Sales/' + n),
                                  ('Expense/Wages', BANK),
                                  ('Fixed Assets/Plant/Mill',
                                   'Account Payable'))):
        gl.create_transaction('t%d' % k, 'about %d' % k,
                              tx_date=d0(2001, 1 + k), dt_account=dt,
                              cr_account=cr, source='s/%d' % k,
                              amount=ctx.real('x%d' % k, -1e6, 1e6))
    r = again(ctx, gl)
    y = ctx.real('y', 0.01, 1e6)
    for g in (gl, r):
        g.create_transaction('more', tx_date=d0(2001, 2), dt_account=BANK,
                             cr_account='Sales/' + n, amount=y)
        with_n = g.structure.get_account('Sales/' + n)
        ctx.check('the account', with_n.number == '0099' and
                  with_n.account_type.name == 'revenue' and
                  with_n.path == 'Sales/' + n)
        with_n.name = 'Late'
        ctx.check('renamed', g.structure.get_account('Sales/Late') is with_n)
        with_n.name = n
    for a, b in zip(gl.transactions, r.transactions):
        ctx.check('transaction', (a.name, a.description, a.tx_date, a.source,
                                  a.dt_account, a.cr_account) ==
                  (b.name, b.description, b.tx_date, b.source, b.dt_account,
                   b.cr_account))
        ctx.check_eq('amount', a.amount, b.amount)
    for what in ('transaction_list', 'balance_sheet', 'income_statement'):
        ctx.check('the same ' + what, fin.rows(ctx, gl, what, 'a' + what) ==
                  fin.rows(ctx, r, what, 'b' + what))
    s = again(ctx, gl.structure, 's')
    s.validate_account_names([BANK, 'Sales/' + n, 'Fixed Assets/Plant/Mill'])
    ctx.raises('an unknown account', ValueError,
               lambda: s.validate_account_names(['Sales/None']))


@scenario('polynomials of 1 to 4 coefficients of any value, T limits kept')
def polynomial(ctx):
    from auxi.tools.materialphysicalproperties.polynomial import \
        PolynomialModelT
    c = ctx.reals('c', ctx.choice('n', [1, 2, 4]), -1000, 1000)
    m = PolynomialModelT('Stuff', 'Density', 'rho', '\\rho', 'kg/m$^3$',
                         ['a2015'], ['d.csv'], c)
    T = ctx.real('T', 0, 3000)
    r = again(ctx, m, times=ctx.choice('times', [1, 2]))
    ctx.check_eq('value', r(T=T), m(T=T), scale=1.0)
    ctx.check('what it is of', (r.material, r.property, r.symbol,
                                r.display_symbol, r.units, r.references,
                                r.datasets) ==
              ('Stuff', 'Density', 'rho', '\\rho', 'kg/m$^3$', ['a2015'],
               ['d.csv']))
    for bad in ({'T': -1.0}, {}, {'T': 300.0, 'P': 1.0}, {'T': 'a'}):
        ctx.raises('a state it refuses', Exception, lambda: m(**bad))
        ctx.raises('a state it refuses, read back', Exception, lambda: r(**bad))


@scenario('ideal gas and mixture models at any state; a gas with its models')
def models(ctx):
    from auxi.tools.materialphysicalproperties import coals, gases, \
        idealgas, slags
    T = ctx.real('T', 300, 500)
    P = ctx.real('P', 1e4, 1e6)
    M = ctx.real('M', 2, 200)
    a, b = ctx.reals('x', 2, 0.01, 1)
    kind = ctx.choice('kind', ['T', 'TP', 'TPx', 'beta', 'air', 'Wilke', 'HZ',
                               'Cp', 'slag', 'coal'])
    x = {'CO2': a, 'N2': b}
    if kind == 'slag':
        m, st = slags.RiboudViscosityTx(), {
            'T': 1800.0, 'x': {'SiO2': a, 'CaO': b, 'Al2O3': 0.2}}
    elif kind == 'coal':
        m, st = coals.DafCpTy(), {
            'T': 400.0, 'y_C': 0.8 * a, 'y_H': 0.05, 'y_O': 0.1, 'y_N': 0.01,
            'y_S': 0.01}
    elif kind == 'air':
        m, st = gases.air, {'T': T}
        r = again(ctx, m)
        for p in ('Cp', 'k', 'mu'):
            ctx.check_eq(p, getattr(r, p)(**st), getattr(m, p)(**st))
        ctx.check('its name', r.name == m.name)
        return
    elif kind in ('Wilke', 'HZ', 'Cp'):
        m = {'Wilke': gases.WilkeMuTx, 'HZ': gases.HerningZippererMuTx,
             'Cp': gases.IdealCpTx}[kind]()
        st = {'T': 400.0, 'x': x}
    else:
        m = {'beta': idealgas.BetaT, 'T': lambda: idealgas.RhoT(M, P), 'TP': lambda: idealgas.RhoTP(M),
             'TPx': idealgas.RhoTPx, }[kind]()
        st = {'T': {'T': T}, 'beta': {'T': T}, 'TP': {'T': T, 'P': P},
              'TPx': {'T': T, 'P': P, 'x': x}}[kind]
    r = again(ctx, m)
    ctx.check_eq('value', r(**st), m(**st))
    ctx.check_eq('calculate', r.calculate(**st), m.calculate(**st))
    ctx.raises('no temperature', Exception, lambda: r())


@scenario('a clock after up to 2 ticks, every unit of two; ticks and reset '
          'after it is read')
def clock(ctx):
    from auxi.core.time import Clock, TimePeriod
    unit = ctx.choice('unit', ['hour', 'month', 'year'])
    c = Clock('c', 'd', start_datetime=d0(2019, 1, 31),
              timestep_period_duration=getattr(TimePeriod, unit))
    for i in range(ctx.choice('ticks', [0, 1, 2])):
        c.tick()
    r = again(ctx, c)
    i = ctx.int('i', 0, 500)
    ctx.check('any period', r.get_datetime_at_period_ix(i) ==
              c.get_datetime_at_period_ix(i))
    for k in range(3):
        ctx.check('now', r.get_datetime() == c.get_datetime())
        if k == 1:
            r.reset()
            c.reset()
        r.tick()
        c.tick()


@scenario('three ledgers or polynomials of different lengths written to one '
          'path in any of 12 orders, changed in between; what is read is of '
          'the last write and its own')
def overwritten(ctx):
    from auxi.core.objects import Object
    from auxi.modelling.financial.des import GeneralLedger
    from auxi.tools.materialphysicalproperties.polynomial import \
        PolynomialModelT
    kind = ctx.choice('kind', ['ledger', 'polynomial'])
    order = ctx.choice('order', [
        (0, 1, 0), (1, 0, 1), (0, 0, 1, 0), (2, 1, 0, 1, 2), (2, 2, 0),
        (0, 2, 2, 1)])
    change = ctx.flag('changed')
    v = [ctx.reals('v%d' % k, k + 1, 1, 1000) for k in range(3)]
    xs = []
    for k in range(3):
        if kind == 'ledger':
            x = GeneralLedger('x' * (1 + 9 * k), None)
            for a in v[k]:
                x.create_transaction('t', tx_date=d0(2001), amount=a)
        else:
            x = PolynomialModelT('m' * (1 + 9 * k), 'p', 's', 's', 'u',
                                 [], [], list(v[k]))
        xs.append(x)

    def same(a, b, what):
        if kind == 'ledger':
            ctx.check('name ' + what, a.name == b.name)
            ctx.check('as many ' + what, len(a.transactions) ==
                      len(b.transactions))
            for t, u in zip(a.transactions, b.transactions):
                ctx.check_eq('amount ' + what, t.amount, u.amount)
        else:
            ctx.check('name ' + what, a.material == b.material)
            ctx.check_eq('value ' + what, a(T=2.0), b(T=2.0), scale=1.0)
    fn = os.path.join(ctx.tmpdir(), 'one.json')
    n = 0
    for k in order:
        n += 1
        if change and kind == 'ledger':
            xs[k].transactions[0].amount = ctx.real('w%d' % n, 1, 1000)
        elif change:
            xs[k] = PolynomialModelT(xs[k].material, 'p', 's', 's', 'u', [],
                                     [], ctx.reals('w%d' % n, 2, 1, 1000))
        xs[k].write(fn)
        r = Object.read(fn)
        same(r, xs[k], 'of the last write')
        if kind == 'ledger':
            r.transactions[0].amount = 0.5
            r.create_transaction('more', tx_date=d0(2001), amount=1.0)
            same(Object.read(fn), xs[k], 'read again')


SCENARIOS = [overwritten, before_run, deep, after_run, ledger, polynomial, models, clock]
