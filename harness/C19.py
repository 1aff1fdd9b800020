"""A business model: its tree of entities, components and activities, and
what a run does with them.  Names are symbolic, as in C14."""
from symx.runner import scenario
from harness import fin
from harness.fin import d0

PRELOAD = ['auxi.modelling.business.models', 'auxi.modelling.business.basic',
           'auxi.modelling.financial.des']
POOL = ['Default', 'Alpha', 'Alpha 2', 'alpha']
BANK, INC, EXP = 'Bank/Default', 'Other Income', 'Expense/Wages'


def new(n, unit='month', start=None):
    from auxi.core.time import TimePeriod
    from auxi.modelling.business.models import TimeBasedModel
    return TimeBasedModel('m', start_datetime=start or d0(2000),
                          period_count=n,
                          period_duration=getattr(TimePeriod, unit))


def activity(name, x, dt=BANK, cr=INC, **kw):
    from auxi.modelling.business.basic import BasicActivity
    return BasicActivity(name, dt, cr, amount=x, **kw)


def snap(e):
    return [(t.tx_date, t.source, t.dt_account, t.cr_account, t.amount)
            for t in e.gl.transactions]


def of(e, source):
    return [t for t in e.gl.transactions if t.source == source]


# parent of component k+1; parent 0 is the entity
SHAPES = [(0, 0, 0), (0, 1, 2), (0, 1, 1), (0, 0, 2)]


def tree(ctx, e, shape, acts=True, more=0):
    """Three components of any names with an activity each."""
    nodes, names, xs = [e], [None], [None]
    for k, p in enumerate(shape):
        n = ctx.name('n%d' % k, POOL)
        for j in range(1, k + 1):
            if shape[j - 1] == p:
                ctx.assume(n != names[j])
        # described by the name of another
        nodes.append(nodes[p].create_component(
            n, description=POOL[(k + len(shape) - shape[-1]) % len(POOL)]))
        names.append(n)
        if acts:
            xs.append(ctx.real('x%d' % k, 0.01, 1e9))
            nodes[-1].add_activity(activity('act', xs[-1]))
            for a in range(more):
                nodes[-1].add_activity(activity('act %d' % a, xs[-1]))
    return nodes, names, xs


def path(root, names, shape, i):
    if i == 0:
        return root
    return path(root, names, shape, shape[i - 1]) + '/' + names[i]


@scenario('three components of any names in four shapes with an activity of '
          'any amount each, 1 to 4 monthly periods: every activity runs once '
          'in each period, under its own path')
def once(ctx):
    n = ctx.choice('periods', [1, 2, 4])
    m = new(n)
    e = m.create_entity('e', fin.structure())
    shape = ctx.choice('shape', SHAPES)
    more = ctx.choice('more activities', [0, 2])
    nodes, names, xs = tree(ctx, e, shape, more=more)
    m.run()
    ctx.check('as many transactions as periods and activities',
              len(e.gl.transactions) == 3 * (1 + more) * n)
    for i in range(1, 4):
        p = path(e.path, names, shape, i)
        ctx.check('path of the component', nodes[i].path == p)
        got = of(e, p + '/act')
        ctx.check('once in each period', len(got) == n)
        for k, t in enumerate(got):
            ctx.check('date', t.tx_date ==
                      m.clock.get_datetime_at_period_ix(k))
            ctx.check_eq('amount', t.amount, xs[i])
    ctx.check('all under the entity', all(
        t.source.startswith(e.path + '/') for t in e.gl.transactions))


@scenario('renaming any component, then the entity, then the model: every '
          'path below follows, in lookups and in the next run')
def rename(ctx):
    m = new(2)
    e = m.create_entity('e', fin.structure())
    shape = ctx.choice('shape', SHAPES)
    more = ctx.choice('more activities', [0, 2])
    nodes, names, xs = tree(ctx, e, shape, more=more)
    i = ctx.choice('which', [1, 2, 3])
    v = ctx.name('new', POOL)
    for j in range(1, 4):
        if j != i and shape[j - 1] == shape[i - 1]:
            ctx.assume(v != names[j])
    nodes[i].name = v
    names[i] = v
    for root in ('e', 'e2', 'm2'):
        if root == 'e2':
            e.name = 'e2'
        if root == 'm2':
            m.name = 'm2'
            ctx.check('path of the entity', e.path == 'm2/e2')
        ctx.check('name in the path', e.path.endswith(
            '/e' if root == 'e' else '/e2'))
        m.run()
        for j in range(1, 4):
            p = path(e.path, names, shape, j)
            ctx.check('path of the component', nodes[j].path == p)
            ctx.check('path of the activity',
                      nodes[j]('act').path == p + '/act')
            ctx.check('source of the transactions', len(of(e, p + '/act'))
                      == 2)
            for a in range(more):
                ctx.check('path of its other activities',
                          nodes[j]('act %d' % a).path == p + '/act %d' % a)
                ctx.check('source of their transactions',
                          len(of(e, p + '/act %d' % a)) == 2)
            ctx.check('found by name',
                      nodes[shape[j - 1]][names[j]] is nodes[j])


@scenario('removing a component of any name from the entity or a component, '
          'or an entity of any name from the model: exactly that one no '
          'longer runs')
def remove(ctx):
    m = new(2)
    e = m.create_entity('e', fin.structure())
    shape = ctx.choice('shape', SHAPES)
    nodes, names, xs = tree(ctx, e, shape)
    i = ctx.choice('from', [0, 1, 2])
    v = ctx.name('gone', POOL)
    gone = None
    for j in range(1, 4):
        if shape[j - 1] == i and names[j] == v:
            gone = j
    nodes[i].remove_component(v)
    for j in range(1, 4):
        p = shape[j - 1]
        if j != gone:
            ctx.check('found by name', (nodes[p][names[j]] if p == 0 else
                                        nodes[p].get_component(names[j]))
                      is nodes[j])
            a = activity('Alpha', xs[j], description='act')
            nodes[j].activities.insert(0, a)
            ctx.check('its activity', nodes[j].get_activity('act') is
                      nodes[j].activities[1])
            nodes[j].activities.remove(a)
    m.run()
    alive = 0
    for j in range(1, 4):
        k, here = j, True
        while k:
            here = here and k != gone
            k = shape[k - 1]
        alive += here
        ctx.check('only what was removed does not run', len(of(
            e, path(e.path, names, shape, j) + '/act')) == (2 if here else 0))
    ctx.check('nothing else ran', len(e.gl.transactions) == 2 * alive)


@scenario('three entities of any names, one removed by name; amounts '
          'symbolic: separate ledgers, every entity once per period')
def entities(ctx):
    m = new(3)
    names = [ctx.name('e%d' % k, POOL) for k in range(3)]
    for k in range(3):
        for j in range(k):
            ctx.assume(names[k] != names[j])
    gls = fin.structure()
    es, xs = [], []
    for k in range(3):
        es.append(m.create_entity(names[k], gls,
                                  description=POOL[(k + 1) % 4]))
        xs.append(ctx.real('x%d' % k, 0.01, 1e9))
        es[k].create_component('c').add_activity(activity('act', xs[k]))
    v = ctx.name('gone', POOL)
    m.remove_entity(v)
    m.run()
    for k in range(3):
        gone = names[k] == v
        txs = es[k].gl.transactions
        ctx.check('its own transactions', len(txs) == (0 if gone else 3))
        for i, t in enumerate(txs):
            ctx.check_eq('amount', t.amount, xs[k])
            ctx.check('date', t.tx_date ==
                      m.clock.get_datetime_at_period_ix(i))
        if not gone:
            ctx.check('found by name', m[names[k]] is es[k])
        ctx.check('path', es[k].path == '/' + names[k])


@scenario('two and three runs, with amounts changed or an activity added '
          'between them: each run starts afresh; monthly and yearly')
def rerun(ctx):
    unit = ctx.choice('unit', ['month', 'year'])
    start = ctx.dt('start', d0(1999), d0(2004, 12, 31)) \
        if ctx.flag('limited') else None
    m = new(3, unit)
    e = m.create_entity('e', fin.structure())
    x, y, z = ctx.reals('x', 3, 0.01, 1e9)
    a = activity('a', x, **({} if start is None else {'start': start}))
    c = e.create_component('c')
    c.add_activity(a)
    m.run()
    one = snap(e)
    m.run()
    two = snap(e)
    ctx.check('a second run gives as many', len(one) == len(two))
    for s, t in zip(one, two):
        ctx.check('the same transactions', s[:4] == t[:4])
        ctx.check_eq('the same amounts', s[4], t[4])
    b = activity('b', y, EXP, BANK)
    e.create_component('d').add_activity(b)
    a.amount = z
    m.run()
    ctx.check('as often as before',
              len(of(e, a.path)) == len([s for s in one if s[1] == a.path]))
    for t in of(e, a.path):
        ctx.check_eq('the new amount', t.amount, z)
    ctx.check('the added activity', len(of(e, b.path)) == 3)
    for t in of(e, b.path):
        ctx.check_eq('its amount', t.amount, y)


@scenario('more or fewer periods in the second run: as if it were the first',
          )
def longer(ctx):
    n1, n2 = ctx.choice('periods', [(1, 4), (4, 1), (2, 5), (5, 3), (0, 2)])
    x = ctx.real('x', 0.01, 1e9)

    def build(n):
        m = new(n)
        e = m.create_entity('e', fin.structure())
        e.create_component('c').add_activity(activity('a', x))
        return m, e
    m, e = build(n1)
    m.run()
    m.period_count = n2
    m.run()
    m2, e2 = build(n2)
    m2.run()
    ctx.check('the same transactions', [s[:4] for s in snap(e)] ==
              [s[:4] for s in snap(e2)])
    ctx.check('every period', len(e.gl.transactions) == n2)


@scenario('a model of two entities run, its clock, dates, intervals, names, tree '
          'or ledgers changed, and run again: as a new model with these')
def changed(ctx):
    from auxi.core.time import TimePeriod
    xs = ctx.reals('x', 4, 0.01, 1e9)
    what = ctx.choice('change', ['start', 'unit', 'dates', 'interval', 'tree',
                                 'start and unit', 'entity', 'by hand', 'all'])
    it = {'e': 'e', 'start': d0(2000), 'unit': 'month', 'a': d0(2000, 2),
          'b': d0(2000, 4), 'i': 1, 'tree': False}

    def build():
        m = new(5, it['unit'], it['start'])
        for k in range(2):
            e = m.create_entity(it['e'] + '%d' % k, fin.structure())
            c = e.create_component('c')
            c.add_activity(activity('a', xs[2 * k], start=it['a'],
                                    end=it['b']))
            s = c.create_component('s')
            s.add_activity(activity('b', xs[2 * k + 1], interval=it['i']))
            if it['tree']:
                more(m, k)
        return m

    def more(m, k):
        if k == 0:
            c = m.entities[0].create_component('late')
            c.add_activity(activity('a', xs[2], cr='Sales/Metal'))
        else:
            m.entities[1]['c'].remove_component('s')

    m = build()
    m.run()
    if ctx.flag('twice'):
        m.run()
    if what in ('start', 'start and unit', 'all'):
        it['start'] = m.clock.start_datetime = d0(2000, 3, 20)
    if what in ('unit', 'start and unit', 'all'):
        it['unit'] = 'year'
        m.clock.timestep_period_duration = TimePeriod.year
    if what in ('dates', 'all'):
        it['a'], it['b'] = d0(1999, 12, 5), d0(2001)
    if what in ('interval', 'all'):
        it['i'] = 2
    for k in range(2):
        c = m['e%d' % k]['c']
        a, b = c('a'), c['s']('b')
        a.start_datetime, a.end_datetime = it['a'], it['b']
        b.interval = it['i']
    if what in ('tree', 'all'):
        it['tree'] = True
        for k in range(2):
            more(m, k)
    if what in ('entity', 'all'):
        it['e'] = 'f'
        for k in range(2):
            m['e%d' % k].name = 'f%d' % k
    if what in ('by hand', 'all'):
        # what is in the ledger before the run is not of the run
        for e in m.entities:
            for s in (None, 'me', e.path, e['c'].path):
                e.gl.create_transaction(
                    'mine', tx_date=d0(2000, 3), dt_account=BANK,
                    cr_account=INC, source=s, amount=7.0)
    m.run()
    w = build()
    w.run()
    for e, f in zip(m.entities, w.entities):
        p, q = snap(e), snap(f)
        ctx.check('as many transactions', len(p) == len(q),
                  info='%d, %d' % (len(p), len(q)))
        for x, y in zip(p, q):
            ctx.check('the same transactions', x[:4] == y[:4])
            ctx.check_eq('amount', x[4], y[4])
    ctx.check('the same clock', m.clock.get_datetime() ==
              w.clock.get_datetime())


@scenario('namesakes: components, activities or entities of one name; each '
          'of them runs once in each of 1 to 3 periods')
def namesakes(ctx):
    n = ctx.choice('periods', [1, 3])
    m = new(n)
    what = ctx.choice('of one name', ['components', 'sub components',
                                      'activities', 'entities',
                                      'at two levels'])
    gls = fin.structure()
    es = [m.create_entity('e', gls)]
    xs = ctx.reals('x', 3, 0.01, 1e9)
    if what == 'entities':
        es += [m.create_entity('e', gls) for _ in xs[1:]]
        cs = [e.create_component('c') for e in es]
    elif what == 'components':
        cs = [es[0].create_component('c') for _ in xs]
    elif what == 'sub components':
        top = es[0].create_component('c')
        cs = [top.create_component('s') for _ in xs]
    elif what == 'activities':
        cs = [es[0].create_component('c')] * 3
    else:
        cs = [es[0].create_component('e')]
        cs.append(cs[0].create_component('e'))
        cs.append(es[0].create_component('a'))
    acts = [activity('a', x) for x in xs]
    for c, a in zip(cs, acts):
        c.add_activity(a)
    m.run()
    txs = [e.gl.transactions for e in es]
    ctx.check('all of them', sum(len(t) for t in txs) == 3 * n)
    if what == 'entities':
        for t, x in zip(txs, xs):
            ctx.check('in its own ledger', len(t) == n)
            for u in t:
                ctx.check_eq('amount', u.amount, x)
        return
    for k in range(n):
        got = [t for t in txs[0]
               if t.tx_date == m.clock.get_datetime_at_period_ix(k)]
        ctx.check('once per period', len(got) == 3)
        ctx.check_eq('amounts', sum(t.amount for t in got), sum(xs))
        for p in ([a.path for a in acts] if what == 'at two levels' else []):
            ctx.check('path', len([t for t in got if t.source == p]) == 1)


@scenario('an activity or a loan on an account of any name: accepted only when the '
          'account exists, and a refused one is not added')
def accounts(ctx):
    m = new(2)
    e = m.create_entity('e', fin.structure())
    c = e.create_component('c')
    n, k = ctx.name('acc', ['Default', 'Wages', 'Other']), \
        ctx.choice('top', ['Bank', 'Expense', 'Sales', 'Nowhere'])
    acc = k + '/' + n
    x = ctx.real('x', 0.01, 1e9)
    ok = (k == 'Bank' and n == 'Default') or (k == 'Expense' and n == 'Wages')
    side = ctx.choice('side', ['debit', 'credit', 'bank', 'loan', 'interest'])
    if side in ('debit', 'credit'):
        a = activity('a', x, acc, INC) if side == 'debit' else \
            activity('a', x, INC, acc)
    else:
        from auxi.modelling.business.basic import BasicLoanActivity
        three = {'bank': BANK, 'loan': 'Long Term Borrowing', 'interest': EXP}
        three[side] = acc
        a = BasicLoanActivity('a', three['bank'], three['loan'],
                              three['interest'], amount=x, interest_rate=0.0,
                              start=d0(1999, 12, 20), duration=3)
    if ok:
        c.add_activity(a)
    else:
        ctx.raises('refused', ValueError, lambda: c.add_activity(a))
    m.run()
    ctx.check('runs if it was accepted',
              len(e.gl.transactions) == (0 if not ok else 2 if side in (
                  'debit', 'credit') else 3))


@scenario('a model of 12 entities, each with a chain of 7 components, 12 side '
          'by side and 2 activities in every one, some of any amounts; 1, '
          '4 or 15 periods; one entity, component and activity renamed or removed')
def large(ctx):
    n, unit = ctx.choice('periods', [(1, 'day'), (15, 'month'), (4, 'year')])
    m = new(n, unit)
    want = {}
    es = []
    for i in range(12):
        e = m.create_entity('e%d' % i, fin.structure())
        es.append(e)
        c, comps = e, []
        for k in range(7):
            c = c.create_component('deep %d' % k)
            comps.append(c)
        for k in range(12):
            comps.append(e.create_component('wide %d' % k))
        for k, c in enumerate(comps):
            for a in range(2):
                x = ctx.real('x%d_%d' % (i, k), 0.01, 1e9) \
                    if (i, a) == (5, 1) and k in (0, 6, 18) else \
                    1.0 + i + 20 * k + 500 * a
                act = activity('act %d' % a, x)
                c.add_activity(act)
                want.setdefault(i, {})[c.path + '/act %d' % a] = x
    what = ctx.choice('change', ['none', 'removed entity', 'renamed entity',
                                 'removed component', 'renamed component'])
    if what == 'removed entity':
        m.remove_entity('e3')
        want.pop(3)
        es[3] = None
    if what == 'renamed entity':
        es[5].name = 'other'
        want[5] = {p.replace('/e5/', '/other/'): x
                   for p, x in want[5].items()}
    if what == 'removed component':
        es[5].remove_component('wide 10')
        want[5] = {p: x for p, x in want[5].items()
                   if '/wide 10/' not in p}
    if what == 'renamed component':
        es[5].components[0].name = 'deeper'
        want[5] = {p.replace('/deep 0/', '/deeper/'): x
                   for p, x in want[5].items()}
    m.run()
    dates = [m.clock.get_datetime_at_period_ix(k) for k in range(n)]
    for i, e in enumerate(es):
        if e is None:
            continue
        got = {}
        for t in e.gl.transactions:
            if t.source in want[i]:
                got.setdefault(t.source, []).append(t)
        ctx.check('every activity and no others ran', set(got) ==
                  set(want[i]) == {t.source for t in e.gl.transactions
                                   if '/act ' in t.source})
        for p, x in want[i].items():
            ctx.check('once in each period',
                      [t.tx_date for t in got[p]] == dates)
            for t in got[p][:1] + got[p][-1:]:
                ctx.check_eq('amount', t.amount, x)


SCENARIOS = [large, once, rename, remove, entities, rerun, longer, changed,
             namesakes, accounts]
