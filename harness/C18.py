"""The clock: periods, ticks and reset."""
import datetime

from symx.runner import scenario

PRELOAD = ['auxi.core.time']
LO, HI = datetime.datetime(1890, 1, 1), datetime.datetime(2110, 12, 31)
FIXED = {'millisecond': 1e-3, 'second': 1.0, 'minute': 60.0, 'hour': 3600.0,
         'day': 86400.0, 'week': 604800.0}
N = 2000
# indices up to some 270 years of the shorter units, and of calendar units
MANY = {'millisecond': 8 * 10**12, 'second': 8 * 10**9,
        'minute': 14 * 10**7, 'hour': 24 * 10**5, 'day': 10**5,
        'week': 14000, 'month': 3200, 'year': 800}


def days(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m == 4 or m == 6 or m == 9 or m == 11 else 31


def clock(ctx, unit):
    from auxi.core.time import Clock, TimePeriod
    s = ctx.dt('start', LO, HI, seconds=True)
    return s, Clock('c', start_datetime=s,
                    timestep_period_duration=getattr(TimePeriod, unit))


@scenario('start any second of 1890 to 2110, period index 0 to 2000; periods '
          'of fixed length')
def fixed(ctx):
    unit = ctx.choice('unit', sorted(FIXED))
    s, c = clock(ctx, unit)
    i = ctx.int('i', 0, N)
    ctx.check_eq('elapsed', ctx.stamp(c.get_datetime_at_period_ix(i)) -
                 ctx.stamp(s), i * FIXED[unit], scale=1.0)


@scenario('start any second of 1890 to 2110, period index up to that some 250 '
          'years later; periods of fixed length')
def far(ctx):
    unit = ctx.choice('unit', sorted(FIXED))
    s, c = clock(ctx, unit)
    i = ctx.int('i', 0, MANY[unit])
    ctx.check_eq('elapsed', ctx.stamp(c.get_datetime_at_period_ix(i)) -
                 ctx.stamp(s), i * FIXED[unit], scale=1.0)
    ctx.check('later', c.get_datetime_at_period_ix(i + 1) >
              c.get_datetime_at_period_ix(i))


@scenario('start any second of 1890 to 2110, period index 0 to 2000; months '
          'and years')
def calendar(ctx):
    unit = ctx.choice('unit', ['month', 'year'])
    s, c = clock(ctx, unit)
    i = ctx.int('i', 0, N if unit == 'month' else 800)
    k = 12 if unit == 'year' else 1
    d = c.get_datetime_at_period_ix(i)
    ctx.check_eq('months elapsed', (d.year - s.year) * 12 + d.month - s.month,
                 i * k)
    ctx.check('not a later day of the month', d.day <= s.day)
    if d.day != s.day:
        ctx.check('only the end of a month is earlier',
                  d.day == days(d.year, d.month))
    ctx.check('the same time of day', d.hour == s.hour)
    ctx.check('the same minute', d.minute == s.minute)
    ctx.check('the same second', d.second == s.second)


@scenario('start any second of 1890 to 2110, two period indices in 0 to 2000, '
          'every unit: later periods are later')
def order(ctx):
    unit = ctx.choice('unit', sorted(FIXED) + ['month', 'year'])
    s, c = clock(ctx, unit)
    n = N if unit != 'year' else 800
    i, j = ctx.int('i', 0, n), ctx.int('j', 0, n)
    ctx.assume(i < j)
    a, b = c.get_datetime_at_period_ix(i), c.get_datetime_at_period_ix(j)
    ctx.check('order', a < b)
    ctx.check('period 0 is the start', c.get_datetime_at_period_ix(0) == s)


@scenario('every unit, up to 6 ticks and resets in any order')
def ticks(ctx):
    unit = ctx.choice('unit', sorted(FIXED) + ['month', 'year'])
    s, c = clock(ctx, unit)
    n = 0
    for k in range(6):
        if ctx.flag('tick%d' % k):
            c.tick()
            n += 1
        else:
            c.reset()
            n = 0
        ctx.check_eq('index', c.timestep_ix, n)
    ctx.check('now', c.get_datetime() == c.get_datetime_at_period_ix(n))
    if n == 0:
        ctx.check('the start', c.get_datetime() == s)
    else:
        ctx.check('after the period before',
                  c.get_datetime() > c.get_datetime_at_period_ix(n - 1))


STARTS = [(1896, 2, 28), (1999, 12, 31), (2000, 2, 28), (2000, 2, 29),
          (2019, 1, 29), (2019, 1, 30), (2019, 1, 31), (2019, 8, 31),
          (2019, 11, 30), (2022, 2, 28), (2023, 2, 28), (2024, 1, 1),
          (2024, 3, 1), (2024, 3, 31), (2024, 12, 31), (2096, 2, 29)]


@scenario('starts at and near the ends of months (%d of them), a leap day '
          'among them, period index 0 to 800; months and years' % len(STARTS))
def month_end(ctx):
    from auxi.core.time import Clock, TimePeriod
    unit = ctx.choice('unit', ['month', 'year'])
    s = datetime.datetime(*ctx.choice('start', STARTS), 7, 30)
    c = Clock('c', start_datetime=s,
              timestep_period_duration=getattr(TimePeriod, unit))
    i = ctx.int('i', 0, 800)
    k = 12 if unit == 'year' else 1
    d = c.get_datetime_at_period_ix(i)
    ctx.check_eq('months elapsed', (d.year - s.year) * 12 + d.month - s.month,
                 i * k)
    n = days(d.year, d.month)
    if s.day <= n:
        ctx.check('the same day', d.day == s.day)
    else:
        ctx.check('the last day', d.day == n)
    ctx.check('the same time of day', d.hour == 7 and d.minute == 30)


@scenario('starts with any of 4 microseconds, period index 0 to 2000, every '
          'unit: no part of a second is lost')
def parts_of_seconds(ctx):
    from auxi.core.time import Clock, TimePeriod
    unit = ctx.choice('unit', sorted(FIXED) + ['month', 'year'])
    us = ctx.choice('microsecond', [1, 500, 891234, 999999])
    s = datetime.datetime(2001, 1, 28, 23, 59, 59, us)
    c = Clock('c', start_datetime=s,
              timestep_period_duration=getattr(TimePeriod, unit))
    ctx.check('period 0 is the start', c.get_datetime_at_period_ix(0) == s)
    i = ctx.int('i', 0, 800 if unit == 'year' else N)
    d = c.get_datetime_at_period_ix(i)
    if unit in FIXED:
        ctx.check_eq('elapsed', ctx.stamp(d) - ctx.stamp(s),
                     i * FIXED[unit], scale=1.0)
        if unit != 'millisecond':
            ctx.check('the same part of a second', d.microsecond == us)
    else:
        ctx.check('the same time of day', d.hour == 23 and d.minute == 59 and
                  d.second == 59)
        ctx.check('the same part of it', d.microsecond == us)


SCENARIOS = [fixed, far, calendar, order, ticks, month_end, parts_of_seconds]
