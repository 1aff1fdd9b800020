"""A loan: paid out once, then interest and equal payments until repaid."""
from symx.runner import scenario
from harness import fin
from harness.C16 import model
from harness.fin import d0

PRELOAD = ['auxi.modelling.business.models', 'auxi.modelling.business.basic',
           'auxi.modelling.financial.des']
BANK, LOAN, INT = 'Bank/Default', 'Long Term Borrowing/Loan', \
    'Expense/Interest'


def make(ctx, amount, rate, months, start, **kw):
    from auxi.modelling.business.basic import BasicLoanActivity
    return BasicLoanActivity('loan', BANK, LOAN, INT, amount=amount,
                             interest_rate=rate, start=start,
                             duration=months, **kw)


def run(ctx, clock0, n, loan):
    m, e = model(clock0, n)
    e.create_component('c').add_activity(loan)
    m.run()
    return m, e


def verify(ctx, m, e, loan, first, months, n, amount, rate, label=''):
    """Loan in period first, payments in the periods after it."""
    txs = [t for t in e.gl.transactions if t.source == loan.path]
    due = [i for i in range(n) if first <= i <= first + months]
    want = []
    for i in due:
        want += [('pay out', i)] if i == first else \
            [('interest', i), ('payment', i)]
    ctx.check('number of transactions' + label, len(txs) == len(want),
              info='%d, %r' % (len(txs), want))
    r = rate / 12.0
    owed = 0.0
    paid = None
    name = 'loan' if loan.description is None else loan.description
    for t, (what, i) in zip(txs, want):
        ctx.check('name' + label, t.name == name)
        ctx.check('date' + label,
                  t.tx_date == m.clock.get_datetime_at_period_ix(i))
        if what == 'pay out':
            ctx.check('paid out to the bank' + label,
                      (t.dt_account, t.cr_account) == (BANK, LOAN))
            ctx.check_eq('the amount is paid out' + label, t.amount, amount)
            owed = amount
        elif what == 'interest':
            ctx.check('interest is owed' + label,
                      (t.dt_account, t.cr_account) == (INT, LOAN))
            ctx.check_eq('interest on what is owed' + label, t.amount,
                         owed * r)
            owed = owed + owed * r
        else:
            ctx.check('payment from the bank' + label,
                      (t.dt_account, t.cr_account) == (LOAN, BANK))
            if paid is not None:
                ctx.check_eq('equal payments' + label, t.amount, paid)
            paid = t.amount
            owed = owed - paid
    if len(due) == months + 1:
        ctx.check_eq('nothing is owed in the end' + label, owed, 0,
                     scale=1e6)
    elif paid is not None:
        ctx.check_le('still owed' + label, 0, owed)
    bal = 0
    for t in txs:
        bal = bal + (t.amount if t.cr_account == LOAN else 0) - \
            (t.amount if t.dt_account == LOAN else 0)
    ctx.check_eq('balance of the loan account' + label, bal, owed, scale=1e6)
    return paid


def body(ctx, months, n, start_at):
    d = ctx.choice('months', months)
    x = ctx.real('amount', 1.0, 1e9)
    k = ctx.choice('rate', ['zero', 'positive'])
    r = 0.0 if k == 'zero' else ctx.real('r', 1e-3, 1.0)
    loan = make(ctx, x, r, d, start_at)
    m, e = run(ctx, d0(2000), n, loan)
    verify(ctx, m, e, loan, 1, d, n, x, r)


@scenario('amount in [1, 1e9], rate 0 or in [0.001, 1] per year, 1 to 8 '
          'monthly payments, a run that covers them')
def repaid(ctx):
    body(ctx, [1, 2, 3, 5, 8], 12, d0(2000))


@scenario('as repaid, 12, 18 and 24 payments', tier='thorough', path_s=300)
def repaid_long(ctx):
    body(ctx, [12, 18, 24], 27, d0(2000))


@scenario('the rate any of 12, the default duration of 60 months: amount '
          'symbolic', path_s=120)
def five_years(ctx):
    r = ctx.choice('r', [0.0, 0.005, 0.01, 0.02, 0.05, 0.0725, 0.1, 0.12,
                         0.15, 0.2, 0.3, 1.0])
    x = ctx.real('amount', 1.0, 1e9)
    loan = make(ctx, x, r, 60, d0(2000))
    m, e = run(ctx, d0(2000), 63, loan)
    verify(ctx, m, e, loan, 1, 60, 63, x, r)


@scenario('long loans, of 61, 121 and 361 months, the rate any of 3: amount '
          'symbolic', path_s=300)
def decades(ctx):
    # a 64th and a 128th per month
    r = ctx.choice('r', [0.0, 0.1875, 0.09375])
    d = ctx.choice('months', [61, 121, 361])
    x = ctx.real('amount', 1.0, 1e9)
    loan = make(ctx, x, r, d, d0(2000))
    m, e = run(ctx, d0(2000), d + 3, loan)
    verify(ctx, m, e, loan, 1, d, d + 3, x, r)


@scenario('start any day from 1999-12 to 2001, run of 6 months from any day '
          '1 to 27 of a month of 2000, 1 to 3 payments')
def dates(ctx):
    c0 = ctx.dt('clock', d0(2000), d0(2000, 12, 31))
    ctx.assume(c0.day <= 27)
    start = ctx.dt('start', d0(1999, 12), d0(2001, 12, 31))
    ctx.assume(c0 <= start)
    d = ctx.choice('months', [1, 2, 3])
    x = ctx.real('amount', 1.0, 1e9)
    n = 6
    loan = make(ctx, x, 0.12, d, start)
    m, e = run(ctx, c0, n, loan)
    first = n
    for i in range(n):
        if m.clock.get_datetime_at_period_ix(i) > start:
            first = i
            break
    verify(ctx, m, e, loan, first, d, n, x, 0.12)


@scenario('a run of months from 2001-01-31 and a loan from 2001-02-28, '
          'amount in [1, 1e9]', finding='F04')
def month_end(ctx):
    x = ctx.real('amount', 1.0, 1e9)
    loan = make(ctx, x, 0.12, 1, d0(2001, 2, 28))
    m, e = run(ctx, d0(2001, 1, 31), 6, loan)
    verify(ctx, m, e, loan, 2, 1, 6, x, 0.12)


@scenario('amount and rate changed before the run, and the run repeated')
def changed(ctx):
    x, y = ctx.real('x', 1.0, 1e9), ctx.real('y', 1.0, 1e9)
    zero = ctx.choice('without interest', [None, 'before', 'after'])
    r = 0.0 if zero == 'before' else ctx.real('r', 1e-3, 1.0)
    s = 0.0 if zero == 'after' else ctx.real('s', 1e-3, 1.0)
    loan = make(ctx, x, r, 3, d0(2000))
    m, e = run(ctx, d0(2000), 6, loan)
    p = verify(ctx, m, e, loan, 1, 3, 6, x, r)
    m.run()
    q = verify(ctx, m, e, loan, 1, 3, 6, x, r, ' again')
    ctx.check_eq('the same payment', p, q)
    if ctx.choice('first', ['amount', 'rate']) == 'amount':
        loan.amount = y
        loan.interest_rate = s
    else:
        loan.interest_rate = s
        loan.amount = y
    m.run()
    verify(ctx, m, e, loan, 1, 3, 6, y, s, ' changed')
    ctx.check_eq('amount', loan.amount, y)
    ctx.check_eq('rate', loan.interest_rate, s)


@scenario('the start of the run and of the loan given as text, dates or '
          'datetimes, any of 2000')
def kinds(ctx):
    c0 = fin.given(ctx, 'clock', ctx.choice('run', fin.KINDS), '2000-01-15',
                   d0(2000), d0(2000, 1, 27))
    start = fin.given(ctx, 'start', ctx.choice('loan', fin.KINDS),
                      '2000-05-15', d0(2000, 1, 28), d0(2000, 7))
    x, r = ctx.real('amount', 1.0, 1e9), ctx.choice('rate', [0.0, 0.12])
    loan = make(ctx, x, r, 2, start)
    m, e = run(ctx, c0, 8, loan)
    t = fin.midnight(start)
    first = [i for i in range(8)
             if m.clock.get_datetime_at_period_ix(i) > t]
    if len(first) >= 4:
        verify(ctx, m, e, loan, first[0], 2, 8, x, r)


@scenario('the duration changed from any of 1, 3, 5 to any of 1, 2, 4, 6 '
          'months before the first or the second run, other loans of the '
          'same and another entity unaffected')
def duration(ctx):
    x, y = ctx.real('x', 1.0, 1e9), ctx.real('y', 1.0, 1e9)
    r = ctx.choice('rate', [0.0, 0.12, 0.3])
    d1 = ctx.choice('months', [1, 3, 5])
    d2 = ctx.choice('then', [1, 2, 4, 6])
    loan = make(ctx, x, r, d1, d0(2000))
    other = make(ctx, y, 0.06, 2, d0(2000, 2),
                 description='Loan of the mill')
    third = make(ctx, x + y, 0.0, 2, d0(2000))
    m, e = model(d0(2000), 9)
    c = e.create_component('c')
    c.add_activity(loan)
    c.create_component('deep').add_activity(other)
    e2 = m.create_entity('e2', fin.structure())
    e2.create_component('c').add_activity(third)
    if ctx.flag('run before'):
        m.run()
        verify(ctx, m, e, loan, 1, d1, 9, x, r)
    loan.duration = d2
    ctx.check('duration', loan.duration == d2)
    for k in range(2):
        m.run()
        verify(ctx, m, e, loan, 1, d2, 9, x, r, ' changed')
        verify(ctx, m, e, other, 2, 2, 9, y, 0.06, ' of the other')
        verify(ctx, m, e2, third, 1, 2, 9, x + y, 0.0, ' of the third')


@scenario('a loan run again from another start of the run, or with its own '
          'start changed')
def moved(ctx):
    x = ctx.real('x', 1.0, 1e9)
    loan = make(ctx, x, 0.12, 3, d0(2000, 3))
    m, e = run(ctx, d0(2000), 9, loan)
    verify(ctx, m, e, loan, 3, 3, 9, x, 0.12)
    s = ctx.choice('start', [1, 2, 3])
    m.clock.start_datetime = d0(2000, s)
    m.run()
    verify(ctx, m, e, loan, 4 - s, 3, 9, x, 0.12, ' again')


@scenario('no amount or no duration: no transactions')
def nothing(ctx):
    r = ctx.real('r', 1e-3, 1.0)
    x = ctx.real('x', 1.0, 1e9)
    k = ctx.choice('what', ['amount', 'months', 'amount later',
                            'months later'])
    if k == 'amount':
        loan = make(ctx, 0, r, 3, d0(2000))
    elif k == 'months':
        loan = make(ctx, x, r, 0, d0(2000))
    else:
        loan = make(ctx, x, r, 3, d0(2000))
    if k == 'amount later':
        loan.amount = 0
    elif k == 'months later':
        loan.duration = 0
    m, e = run(ctx, d0(2000), 6, loan)
    ctx.check('none', [t for t in e.gl.transactions] == [])
    loan.amount = x
    loan.duration = 2
    m.run()
    verify(ctx, m, e, loan, 1, 2, 6, x, r, ' when it has both')


@scenario('what is not given: no amount, no interest, 60 months')
def defaults(ctx):
    from auxi.modelling.business.basic import BasicLoanActivity
    x = ctx.real('x', 1.0, 1e9)
    a = BasicLoanActivity('loan', BANK, LOAN, INT, start=d0(2000))
    b = BasicLoanActivity('loan', BANK, LOAN, INT, amount=x, start=d0(2000))
    m, e = model(d0(2000), 63)
    e.create_component('c').add_activity(a)
    e.create_component('d').add_activity(b)
    m.run()
    ctx.check('none without an amount', [
        t for t in e.gl.transactions if t.source == a.path] == [])
    verify(ctx, m, e, b, 1, 60, 63, x, 0.0)
    a.amount = 2 * x
    m.run()
    verify(ctx, m, e, a, 1, 60, 63, 2 * x, 0.0, ' later')
    verify(ctx, m, e, b, 1, 60, 63, x, 0.0, ' again')


SCENARIOS = [kinds, defaults, repaid, repaid_long, five_years, decades,
             dates, month_end, changed, duration, moved, nothing]
