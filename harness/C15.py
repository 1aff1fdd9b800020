"""Closing the books at the end of each year of a run."""
import datetime

from symx.runner import scenario
from harness import fin
from harness.C16 import model
from harness.fin import CENT, TYPES, d0

PRELOAD = ['auxi.modelling.business.models', 'auxi.modelling.business.basic',
           'auxi.modelling.financial.des']
BANK = 'Bank/Default'
GROSS = 'Unallocated Income Statement/Gross Profit'
SUMMARY = 'Unallocated Income Statement/Income Summary'
EARNED = 'Retained Income/Retained Earnings'
INCOME = ['Other Income', 'Sales', 'Other Income/Rent']
COST = ['Expense/Wages', 'Expense', 'Tax/Income Tax Expense', 'Dividends',
        'Cost of Sales']


def kind(acc):
    t = {'Other Income/Rent': 'revenue', 'Expense': 'expense',
         'Expense/Interest': 'expense', 'Dividends': 'expense',
         'Sales': 'revenue', GROSS: 'closing', SUMMARY: 'closing'}
    return t.get(acc) or TYPES[acc]


def setup(ctx, clock0, n, unit, acts):
    """acts: (debit, credit, amount, first period or None)."""
    from auxi.modelling.business.basic import BasicActivity
    m, e = model(clock0, n, unit)
    e.gl.structure.get_account('Other Income').create_account('Rent', '0010')
    c = e.create_component('c')
    for k, (dt, cr, x, start) in enumerate(acts):
        kw = {} if start is None else {'start': start}
        c.add_activity(BasicActivity('a%d' % k, dt, cr, amount=x, **kw))
    return m, e


def balances(txs):
    b = {}
    for t in txs:
        b[t.dt_account] = b.get(t.dt_account, 0) + t.amount
        b[t.cr_account] = b.get(t.cr_account, 0) - t.amount
    return b


def verify(ctx, e, starts, closed, label='', loss=False):
    """starts: start of each year and of the one after; closed: how many."""
    txs = list(e.gl.transactions)
    prev = 0
    for k in range(len(starts) - 1):
        lo, hi = starts[k], starts[k + 1]
        mine = [t for t in txs if lo <= t.tx_date and t.tx_date < hi]
        ops = [t for t in mine if t.source != e.path]
        cls = [t for t in mine if t.source == e.path]
        if k >= closed:
            ctx.check('an unfinished year is not closed' + label, cls == [])
            continue
        for t in cls:
            ctx.check('closed in the last second of the year' + label,
                      t.tx_date == hi - datetime.timedelta(seconds=1))
            ctx.check('marked as closing' + label,
                      t.is_closing_cr_account or t.is_closing_dt_account)
        b, after = balances(ops), balances(mine)
        net = 0
        for a in b:
            if kind(a) in ('revenue', 'expense'):
                net = net - b[a]
                ctx.check_eq('%s is settled%s' % (a, label), after[a], 0,
                             scale=1e3)
            elif a != EARNED:
                ctx.check_eq('%s is left alone%s' % (a, label), after[a],
                             b[a])
        ctx.check_eq('gross profit is settled' + label, after.get(GROSS, 0),
                     0, scale=1e3)
        if loss or net > -1e-6:
            ctx.check_eq('income summary is settled' + label,
                         after.get(SUMMARY, 0), 0, scale=1e3)
            ctx.check_eq('net income is retained' + label,
                         -after.get(EARNED, 0), net, scale=1e3)
        for a in after:
            ctx.check('accounts touched' + label,
                      a in b or a in (GROSS, SUMMARY, EARNED))
    for t in txs:
        ctx.check('within the run' + label,
                  starts[0] <= t.tx_date and t.tx_date < starts[-1])


@scenario('a run of 3 years from 2000-01-01; an income and an expense account '
          'of 3 by 5, and from any of the years a transfer between them; '
          'amounts in [0.01, 1e6]')
def by_year(ctx):
    inc, exp = ctx.choice('income', INCOME), ctx.choice('expense', COST)
    late = ctx.choice('late', [None, 0, 1])
    x, y, z = ctx.reals('x', 3, 0.01, 1e6)
    acts = [(BANK, inc, x, None), (exp, BANK, y, None),
            (inc, exp, z, None if late is None else d0(2000 + late))]
    m, e = setup(ctx, d0(2000), 3, 'year', acts)
    m.run()
    verify(ctx, e, [d0(2000 + k) for k in range(4)], 2)


@scenario('a run of 3 years that starts at any second of 1999 to 2001; two '
          'incomes and an expense')
def any_start(ctx):
    c0 = ctx.dt('clock', d0(1999), d0(2001, 12, 31), seconds=True)
    x, y, z = ctx.reals('x', 3, 0.01, 1e6)
    m, e = setup(ctx, c0, 3, 'year', [
        (BANK, 'Other Income', x, None), ('Expense/Wages', BANK, y, None),
        (BANK, 'Other Income/Rent', z, None)])
    m.run()
    verify(ctx, e, [m.clock.get_datetime_at_period_ix(k) for k in range(4)],
           2)


@scenario('a run that starts at a date given as text, yearly or monthly, or '
          'as a date, any from 1999 to 2001, yearly')
def from_date(ctx):
    n, unit = ctx.choice('run', [(3, 'year'), (25, 'month')])
    how = 'text' if unit == 'month' else ctx.choice('how', ['text', 'date'])
    c0 = fin.given(ctx, 'clock', how, '2001-01-01', d0(1999),
                   d0(2001, 12, 31))
    x, y = ctx.reals('x', 2, 0.01, 1e6)
    m, e = setup(ctx, c0, n, unit, [
        (BANK, 'Other Income', 2 * x + 2 * y, None),
        ('Expense/Wages', BANK, y, None)])
    m.run()
    k = 12 if unit == 'month' else 1
    ctx.check('the start', m.clock.get_datetime_at_period_ix(0) ==
              fin.midnight(c0))
    verify(ctx, e, [m.clock.get_datetime_at_period_ix(k * i)
                    for i in range(4)], 2)


@scenario('12, 13, 14 and 25 monthly periods from 2000-03-01: 0, 1, 1 and 2 '
          'years closed; activities from the first, the fifth and the twelfth '
          'month on')
def monthly(ctx):
    n = ctx.choice('n', [12, 13, 14, 25])
    x, y, z = ctx.reals('x', 3, 0.01, 1e6)
    m, e = setup(ctx, d0(2000, 3), n, 'month', [
        (BANK, 'Other Income', x, None),
        ('Expense/Wages', BANK, y, d0(2000, 7, 15)),
        ('Fixed Assets', 'Long Term Borrowing/Loan', z, d0(2001, 2))])
    m.run()
    closed = {12: 0, 13: 1, 14: 1, 25: 2}[n]
    verify(ctx, e, [d0(2000 + k, 3) for k in range(4)], closed)


@scenario('an income and an expense that begin in any of the years of a run '
          'of 5 years or 50 months, or never: years without transactions, '
          'before and between', path_s=60)
def quiet(ctx):
    n, unit = ctx.choice('run', [(5, 'year'), (50, 'month')])
    x, y = ctx.reals('x', 2, 0.01, 1e6)
    k = ctx.choice('income from', [1, 2, 3])
    j = ctx.choice('expense from', [1, 2, 3, None])
    acts = [(BANK, 'Other Income', x, d0(1999 + k, 12, 1))]
    if j is not None:
        acts.append(('Expense/Wages', BANK, y, d0(1999 + j, 12, 1)))
        if j < k:
            ctx.assume(x > y)
    m, e = setup(ctx, d0(2000), n, unit, acts)
    c = e.components[0].activities[0]
    if ctx.flag('one year only'):
        c.end_datetime = d0(2000 + k, 12, 31)
    m.run()
    verify(ctx, e, [d0(2000 + i) for i in range(6)], 4)


@scenario('periods that do not begin with the year: 110 weeks or 800 days '
          'from 2001-01-01, 30 months from the 1st, a year of other days')
def uneven(ctx):
    n, unit, c0 = ctx.choice('run', [
        (110, 'week', d0(2001)), (760, 'day', d0(2001, 5, 20)),
        (62, 'week', d0(2003, 7, 9)), (30, 'month', d0(2001, 2, 28))])
    x, y = ctx.reals('x', 2, 0.01, 1e6)
    m, e = setup(ctx, c0, n, unit, [
        (BANK, 'Other Income', x, None),
        ('Expense/Wages', BANK, y, c0 + datetime.timedelta(days=100))])
    m.run()
    starts = [c0.replace(year=c0.year + k) for k in range(4)]
    end = m.clock.get_datetime_at_period_ix(n - 1)
    verify(ctx, e, starts, sum(s <= end for s in starts[1:]))


@scenario('the reports after closing: the income statement of a year is that '
          'of its activities, and the balance sheet at its end balances '
          'without the net income; 3 years')
def reports(ctx):
    x, y = ctx.real('x', 0.01, 1e6), ctx.real('y', 0.01, 1e6)
    m, e = setup(ctx, d0(2000), 3, 'year', [
        (BANK, 'Other Income', x, None), ('Expense/Wages', BANK, y, None),
        ('Fixed Assets', 'Account Payable', 77.0, None)])
    m.run()
    second = datetime.timedelta(seconds=1)
    for k in range(3):
        lo, hi = d0(2000 + k), d0(2001 + k) - second
        inc, exp, tot = fin.income_statement(ctx, e.gl, 'is%d' % k, start=lo,
                                             end=hi)
        ctx.check('income accounts', set(inc) == {'Other Income'})
        ctx.check('expense accounts', set(exp) == {'Expense/Wages'})
        ctx.check_eq('income', inc['Other Income'], x, **CENT)
        ctx.check_eq('expense', exp['Expense/Wages'], y, **CENT)
        ctx.check_eq('net income', tot['net'], x - y, **CENT)
        left, right, tot = fin.balance_sheet(ctx, e.gl, 'bs%d' % k, end=hi)
        ctx.check_eq('bank', left[BANK], (k + 1) * (x - y), **CENT)
        ctx.check_eq('assets', tot['assets'], (k + 1) * (x - y + 77.0),
                     **CENT)
        if x > y:
            ctx.check_eq('retained', right.get(EARNED, 0),
                         min(k + 1, 2) * (x - y), **CENT)
            if k < 2:
                ctx.check_eq('balanced', tot['assets'], tot['financed'],
                             **CENT)


@scenario('two runs: the second leaves the same books')
def rerun(ctx):
    x, y = ctx.real('x', 0.01, 1e9), ctx.real('y', 0.01, 1e9)
    m, e = setup(ctx, d0(2000), 3, 'year', [
        (BANK, 'Other Income', x, None), ('Expense/Wages', BANK, y, None)])

    def all_of():
        return [(t.name, t.tx_date, t.dt_account, t.cr_account, t.amount,
                 t.source, bool(t.is_closing_cr_account))
                for t in e.gl.transactions]
    m.run()
    one = all_of()
    m.run()
    two = all_of()
    ctx.check('as many', len(one) == len(two))
    for a, b in zip(one, two):
        ctx.check('the same', a[:4] == b[:4] and a[5:] == b[5:])
        ctx.check_eq('amount', a[4], b[4])
    verify(ctx, e, [d0(2000 + k) for k in range(4)], 2)


@scenario('accounts below Sales and Cost of Sales, two incomes, 3 years: one '
          'closing entry per account and year, of its balance, and the net '
          'income is retained')
def sales(ctx):
    x, y, z, w = ctx.reals('x', 4, 0.01, 1e6)
    m, e = setup(ctx, d0(2000), 3, 'year', [
        (BANK, 'Sales/Metal', x, None),
        ('Cost of Sales/Ore', BANK, y, d0(2000) if ctx.flag('late') else None),
        (BANK, 'Other Income', z, None), ('Expense/Wages', BANK, w, None)])
    m.run()
    for k in range(2):
        lo, hi = d0(2000 + k), d0(2001 + k)
        mine = [t for t in e.gl.transactions if lo <= t.tx_date < hi]
        ops = balances([t for t in mine if t.source != e.path])
        cls = [t for t in mine if t.source == e.path]
        ctx.check('closed in the last second of the year', all(
            t.tx_date == hi - datetime.timedelta(seconds=1) and
            t.is_closing_cr_account for t in cls))
        net = 0
        for a in sorted(ops):
            if kind(a) not in ('revenue', 'expense'):
                continue
            net = net - ops[a]
            below = '/' in a and a.startswith(('Sales', 'Cost of Sales'))
            hit = [t for t in cls if a in (t.dt_account, t.cr_account)]
            ctx.check('one entry for the account', len(hit) == 1)
            ctx.check_eq('entry of its balance', hit[0].amount, abs(ops[a]))
            ctx.check('against gross profit or income summary',
                      (GROSS if below else SUMMARY) in (
                          hit[0].dt_account, hit[0].cr_account))
        gross = sum(-ops[a] for a in ops
                    if a in ('Sales/Metal', 'Cost of Sales/Ore'))
        hit = [t for t in cls if
               {t.dt_account, t.cr_account} == {GROSS, SUMMARY}]
        if abs(gross) > 1e-6:
            ctx.check('one entry for the gross profit', len(hit) == 1)
            ctx.check_eq('gross profit', hit[0].amount, abs(gross),
                         scale=1e3)
            ctx.check('in the direction of its sign',
                      (hit[0].cr_account == SUMMARY) == (gross > 0))
        if net > 1e-6:
            ctx.check_eq('net income is retained',
                         -balances(mine).get(EARNED, 0), net, scale=1e3)


@scenario('income on an account below Sales', finding='F02')
def sub_accounts(ctx):
    x = ctx.real('x', 0.01, 1e9)
    m, e = setup(ctx, d0(2000), 2, 'year', [(BANK, 'Sales/Metal', x, None)])
    m.run()
    verify(ctx, e, [d0(2000 + k) for k in range(3)], 1, loss=True)


@scenario('a year with a loss', finding='F03')
def loss(ctx):
    x = ctx.real('x', 0.01, 1e9)
    m, e = setup(ctx, d0(2000), 2, 'year', [('Expense/Wages', BANK, x, None)])
    m.run()
    verify(ctx, e, [d0(2000 + k) for k in range(3)], 1, loss=True)


SCENARIOS = [from_date, by_year, any_start, monthly, quiet, uneven, reports, rerun, sales, sub_accounts, loss]
