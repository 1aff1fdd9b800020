"""When a business activity runs."""
import datetime

from symx.runner import scenario
from harness import fin
from harness.fin import CENT, d0

PRELOAD = ['auxi.modelling.business.models', 'auxi.modelling.business.basic',
           'auxi.modelling.financial.des']
LO, HI = d0(1995), d0(2009, 12, 31)
MIN, MAX = datetime.datetime.min, datetime.datetime.max


def model(start, n, unit='month'):
    from auxi.core.time import TimePeriod
    from auxi.modelling.business.models import TimeBasedModel
    m = TimeBasedModel('m', start_datetime=start, period_count=n,
                       period_duration=getattr(TimePeriod, unit))
    return m, m.create_entity('e', fin.structure())


def periods(dates, n, start, end, interval):
    """The periods in which the activity is due.

    It starts in the first period later than its start (a start on or before
    the first period with no later one: the first).  It ends before the first
    period later than its end; with none it has as many periods from its
    start as the run has.  It is due at the end of every interval that ends
    an interval before that.
    """
    first = 0
    if start is not MIN:
        first = None
        for i in range(n):
            if dates[i] > start:
                first = i
                break
        if first is None:
            if start > dates[0]:
                return []
            first = 0
    stop = first + n
    if end is not MAX:
        for i in range(n):
            if dates[i] > end:
                stop = i
                break
    return [i for i in range(n) if i >= first and i + interval <= stop and
            (i + 1) % interval == 0]


def run_one(ctx, clock0, n, unit, start, end, interval, amount):
    from auxi.modelling.business.basic import BasicActivity
    m, e = model(clock0, n, unit)
    kw = {}
    if start is not MIN:
        kw['start'] = start
    if end is not MAX:
        kw['end'] = end
    a = BasicActivity('a', 'Bank/Default', 'Sales/Metal', amount=amount,
                      interval=interval, **kw)
    e.create_component('c').add_activity(a)
    m.run()
    return m, e, a


def compare(ctx, m, e, a, due, amount):
    dates = [m.clock.get_datetime_at_period_ix(i) for i in due]
    txs = [t for t in e.gl.transactions if t.source == a.path]
    ctx.check('one transaction in every period it is due, no others',
              len(txs) == len(due), info='%d, %r' % (len(txs), due))
    for t, d in zip(txs, dates):
        ctx.check('date', t.tx_date == d)
        ctx.check_eq('amount', t.amount, amount)
        ctx.check('accounts', t.dt_account == 'Bank/Default' and
                  t.cr_account == 'Sales/Metal')
        ctx.check('source', t.source == a.path)


def body(ctx, ns, intervals, units, clock0=None):
    n = ctx.choice('periods', ns)
    unit = ctx.choice('unit', units)
    k = ctx.choice('limits', ['both', 'start', 'end', 'none'])
    clock0 = clock0 or d0(2000)
    start, end = MIN, MAX
    if k in ('both', 'start'):
        start = ctx.dt('start', LO, HI)
    if k in ('both', 'end'):
        end = ctx.dt('end', LO, HI)
    interval = ctx.int('interval', *intervals)
    x = ctx.real('amount', 0.01, 1e9)
    m, e, a = run_one(ctx, clock0, n, unit, start, end, interval, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(n)]
    compare(ctx, m, e, a, periods(dates, n, start, end, interval), x)


@scenario('1 to 6 periods of a month or a year from 2000-01-01; start and end '
          'any days from 1995 to 2009, or not given; interval 1 to 4')
def grid(ctx):
    body(ctx, [1, 2, 3, 4, 6], (1, 4), ['month', 'year'])


@scenario('40 monthly, 400 daily, 60 weekly, 30 yearly and 3000 hourly '
          'periods; limits early, late, on a boundary or outside the run; '
          'intervals 1 to 52 (fixed lists), any amount')
def long_runs(ctx):
    n, unit, step, ivs = ctx.choice('run', [
        (40, 'month', 30, [1, 5, 6, 7, 12, 13, 24, 36, 40, 41]),
        (400, 'day', 1, [1, 7, 28, 30, 100, 365, 400]),
        (60, 'week', 7, [1, 4, 13, 26, 52]),
        (30, 'year', 365, [1, 5, 7, 10, 25]),
        (3000, 'hour', 1 / 24, [24, 168, 1000])])
    x = ctx.real('amount', 0.01, 1e9)
    c0 = d0(2003, 2, 1)
    at = lambda f: c0 + datetime.timedelta(int(n * step * f))
    start = ctx.choice('start', [MIN, at(0.02), at(0.5), at(0.7), at(0.97),
                                 at(2)])
    end = ctx.choice('end', [MAX, at(0.3), at(0.75), at(0.99), at(1.5)])
    interval = ctx.choice('interval', ivs)
    m, e, a = run_one(ctx, c0, n, unit, start, end, interval, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(n)]
    compare(ctx, m, e, a, periods(dates, n, start, end, interval), x)


@scenario('12 monthly periods, 13 daily and 9 weekly ones; interval 1 to 13',
          tier='thorough')
def longer(ctx):
    n, unit = ctx.choice('run', [(12, 'month'), (13, 'day'), (9, 'week')])
    start = ctx.dt('start', d0(1999, 12, 1), d0(2000, 12, 31))
    end = ctx.dt('end', d0(1999, 12, 1), d0(2001, 12, 31))
    interval = ctx.int('interval', 1, 13)
    x = ctx.real('amount', 0.01, 1e9)
    m, e, a = run_one(ctx, d0(2000), n, unit, start, end, interval, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(n)]
    compare(ctx, m, e, a, periods(dates, n, start, end, interval), x)


@scenario('the run starts any second of 2000 or 2001, four monthly periods; '
          'start and end any second from 1999 to 2003; interval 1 and 2')
def any_clock(ctx):
    c0 = ctx.dt('clock', d0(2000), d0(2001, 12, 31), seconds=True)
    start = ctx.dt('start', d0(1999), d0(2003), seconds=True)
    end = ctx.dt('end', d0(1999), d0(2003), seconds=True)
    interval = ctx.choice('interval', [1, 2])
    x = ctx.real('amount', 0.01, 1e9)
    m, e, a = run_one(ctx, c0, 3, 'month', start, end, interval, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(3)]
    compare(ctx, m, e, a, periods(dates, 3, start, end, interval), x)


@scenario('an activity run again with another start, end, interval or amount '
          'of its own, or start, unit or number of periods of the run: as if '
          'it were the first run', path_s=60)
def changed(ctx):
    x, y = ctx.real('x', 0.01, 1e9), ctx.real('y', 0.01, 1e9)
    n, unit, c0, i = 5, 'month', d0(2000), 1
    k = ctx.choice('limits', ['both', 'none', 'start', 'end'])
    s = ctx.dt('start', d0(1999, 11), d0(2000, 8)) \
        if k in ('both', 'start') else MIN
    t = ctx.dt('end', d0(1999, 11), d0(2000, 8)) \
        if k in ('both', 'end') else MAX
    m, e, a = run_one(ctx, c0, n, unit, s, t, i, x)
    what = ctx.choice('change', ['start', 'end', 'interval', 'run start',
                                 'periods', 'both', 'amount'])
    if what in ('start', 'both'):
        s = a.start_datetime = ctx.choice('then', [
            MIN, d0(1999), d0(2000, 2, 15), d0(2000, 4), d0(2001)])
    if what in ('end', 'both'):
        t = a.end_datetime = ctx.choice('then, end', [
            MAX, d0(1999), d0(2000, 3, 15), d0(2000, 4), d0(2001)])
    if what == 'interval':
        i = a.interval = ctx.choice('interval then', [2, 3])
    if what == 'run start':
        c0 = m.clock.start_datetime = ctx.choice('from', [
            d0(1999, 10), d0(2000, 3), d0(2000, 4, 20)])
    if what == 'periods':
        n = m.period_count = ctx.choice('periods then', [0, 1, 3, 8])
    if what == 'amount':
        a.amount = x = y
    for j in range(2):
        m.run()
        dates = [m.clock.get_datetime_at_period_ix(i) for i in range(n + 1)]
        compare(ctx, m, e, a, periods(dates, n, s, t, i), x)


@scenario('an amount in [-1e9, 0]: no transactions; two activities of one '
          'component do not affect one another')
def amounts(ctx):
    from auxi.modelling.business.basic import BasicActivity
    m, e = model(d0(2000), 5)
    x, y = ctx.real('x', -1e9, 1e9), ctx.real('y', 0.01, 1e9)
    i, j = ctx.int('i', 1, 3), ctx.int('j', 1, 3)
    c = e.create_component('c')
    for n, z, k, d in (('a', x, i, 'Day to day'), ('b', y, j, None)):
        c.add_activity(BasicActivity(n, 'Bank/Default', 'Sales/Metal',
                                     amount=z, interval=k, description=d))
    m.run()
    dates = [m.clock.get_datetime_at_period_ix(k) for k in range(5)]
    got = {n: [t for t in e.gl.transactions if t.source == c(n).path]
           for n in 'ab'}
    da = periods(dates, 5, MIN, MAX, i) if x > 0 else []
    db = periods(dates, 5, MIN, MAX, j)
    for n, due, z in (('a', da, x), ('b', db, y)):
        ctx.check('as many as are due', len(got[n]) == len(due))
        for t, k in zip(got[n], due):
            ctx.check('date', t.tx_date == dates[k])
            ctx.check_eq('amount', t.amount, z)
            ctx.check('name', t.name == ('Day to day' if n == 'a' else 'b'))


@scenario('the start of the run and those of the activity given as text, '
          'dates or datetimes, in every combination')
def kinds(ctx):
    x = ctx.real('x', 0.01, 1e9)
    c0 = fin.given(ctx, 'clock', ctx.choice('run', fin.KINDS), '2000-03-31',
                   d0(2000), d0(2001, 12, 31))
    k = ctx.choice('activity', fin.KINDS)
    start = fin.given(ctx, 'start', k, '2000-06-15', d0(2000), d0(2001))
    end = fin.given(ctx, 'end', k, '2000-08-20', d0(2000), d0(2001)) \
        if ctx.flag('ends') else MAX
    m, e, a = run_one(ctx, c0, 3, 'month', start, end, 1, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(3)]
    ctx.check('the first period', dates[0] == fin.midnight(c0))
    compare(ctx, m, e, a, periods(
        dates, 3, fin.midnight(start),
        MAX if end is MAX else fin.midnight(end), 1), x)


@scenario('start and end as text')
def text_dates(ctx):
    x = ctx.real('x', 0.01, 1e9)
    c0 = ctx.dt('clock', d0(2000), d0(2001, 12, 31))
    m, e, a = run_one(ctx, c0, 4, 'month', '2000-06-15', '2001-02-20', 1, x)
    dates = [m.clock.get_datetime_at_period_ix(i) for i in range(4)]
    compare(ctx, m, e, a, periods(dates, 4, d0(2000, 6, 15), d0(2001, 2, 20),
                                  1), x)


SCENARIOS = [kinds, long_runs, grid, changed, longer, any_clock, amounts, text_dates]
