"""Balance sheet and income statement against the transactions."""
from symx.runner import scenario
from harness import fin
from harness.fin import CENT, CENTS, TYPES, Book, close, d0

PRELOAD = ['auxi.modelling.financial.des', 'auxi.modelling.financial.reporting']
LO, HI = d0(2000), d0(2003, 12, 31)
ALL = sorted(TYPES)
PAIRS = [(a, b) for a in ALL for b in ALL if a != b]
# one transaction of each kind, so that no total is zero
BASE = [('Bank/Default', 'Sales/Metal', 50.0),
        ('Expense/Wages', 'Bank/Default', 8.0),
        ('Cost of Sales/Ore', 'Account Payable', 4.0),
        ('Bank/Default', 'Retained Income/Retained Earnings', 300.0)]


def verify(ctx, gl, book, bs, st, label=''):
    left, right, tot = fin.balance_sheet(ctx, gl, **bs)
    inc, exp, tot2 = fin.income_statement(ctx, gl, **st)
    for d in (left, right, inc, exp):
        for a in d:
            ctx.check('a known account' + label, a in TYPES)
    close(ctx, 'assets' + label, left, book.of('asset'))
    close(ctx, 'liabilities and equity' + label, right,
          book.of('liability', 'equity'))
    close(ctx, 'income' + label, inc, book.of('revenue'))
    close(ctx, 'expense' + label, exp, book.of('expense'))

    def s(d):
        return sum(d.values())
    cos = s({a: x for a, x in book.of('expense').items()
             if a.split('/')[0] == 'Cost of Sales'})
    net = s(book.of('revenue')) - s(book.of('expense'))
    for n, got, want in (
            ('total assets', tot['assets'], s(book.of('asset'))),
            ('total liabilities', tot['Total liabilities'],
             s(book.of('liability'))),
            ('total equity', tot["Total owners' equities"],
             s(book.of('equity'))),
            ('total financed', tot['financed'],
             s(book.of('liability', 'equity'))),
            ('gross revenue', tot2['gross'], s(book.of('revenue')) - cos),
            ('total expenses', tot2['expenses'], s(book.of('expense')) - cos),
            ('net income', tot2['net'], net)):
        ctx.check_eq(n + label, got, want, **CENT)
    ctx.check_eq('assets = liabilities + equity + net income' + label,
                 tot['assets'], tot['financed'] + tot2['net'], **CENTS)


@scenario('two transactions of any amount in [-1e9, 1e9] between any two of '
          '%d accounts of every type and depth, after or before '
          'four fixed ones'
          % len(ALL))
def pairs(ctx):
    gl, book = fin.ledger(), Book()

    def fixed():
        for k, (dt, cr, x) in enumerate(BASE):
            gl.create_transaction(
                'base%d' % k, tx_date=d0(2000), dt_account=dt, cr_account=cr,
                source='e', amount=x)
            book.post(dt, cr, x)
    first = ctx.flag('fixed ones first')
    if first:
        fixed()
    dt, cr = ctx.choice('accounts', PAIRS)
    for k, (a, b) in enumerate(((dt, cr), (cr, 'Bank/Default'))):
        if a == b:
            continue
        x = ctx.real('x%d' % k, -1e9, 1e9)
        gl.create_transaction('t%d' % k, tx_date=d0(2001), dt_account=a,
                              cr_account=b, source='e', amount=x)
        book.post(a, b, x)
    if not first:
        fixed()
    verify(ctx, gl, book, {}, {})


@scenario('three transactions on any days of 2000 to 2003, the date limits '
          'any days, all of them dates or all datetimes to the second, or '
          'the limits dates')
def windows(ctx):
    gl = fin.ledger()
    how = ctx.choice('dates', ['date', 'datetime', 'mixed'])
    kw = dict(date=how == 'date', seconds=how != 'date')
    txs = []
    for k, (dt, cr) in enumerate((
            ('Bank/Default', 'Sales/Metal'), ('Expense/Wages', 'Bank/Default'),
            ('Cost of Sales/Ore', 'Account Payable'))):
        t = ctx.dt('t%d' % k, LO, HI, **kw)
        x = ctx.real('x%d' % k, -1e9, 1e9)
        gl.create_transaction('t%d' % k, tx_date=t, dt_account=dt,
                              cr_account=cr, amount=x)
        txs.append((t, dt, cr, x))
    lim = dict(date=how != 'datetime', seconds=how == 'datetime')
    start = ctx.dt('start', LO, HI, **lim)
    end = ctx.dt('end', LO, HI, **lim)
    upto, during = Book(), Book()
    for t, dt, cr, x in txs:
        if fin.in_window(t, None, end):
            upto.post(dt, cr, x)
            if fin.in_window(t, start):
                during.post(dt, cr, x)
    left, right, tot = fin.balance_sheet(ctx, gl, end=end)
    inc, exp, tot2 = fin.income_statement(ctx, gl, start=start, end=end)
    close(ctx, 'assets', left, upto.of('asset'))
    close(ctx, 'liabilities', right, upto.of('liability'))
    close(ctx, 'income', inc, during.of('revenue'))
    close(ctx, 'expense', exp, during.of('expense'))
    ctx.check_eq('net income', tot2['net'],
                 sum(during.of('revenue').values()) -
                 sum(during.of('expense').values()), **CENT)
    ctx.check_eq('total assets', tot['assets'],
                 sum(upto.of('asset').values()), **CENT)
    inc, exp, tot2 = fin.income_statement(ctx, gl, 'is2', end=end)
    ctx.check_eq('assets = liabilities + equity + net income so far',
                 tot['assets'], tot['financed'] + tot2['net'], **CENTS)


@scenario('the reports after more transactions: they are of the ledger as it '
          'is now, and reporting changes nothing')
def again(ctx):
    gl, book = fin.ledger(), Book()
    txs = []
    dates = [d0(2001, 1 + m) for m in ctx.choice('months', [
        (0, 1, 2), (2, 0, 1), (1, 1, 0)])]
    for k, (dt, cr) in enumerate((
            ('Bank/Default', 'Sales/Metal'), ('Expense/Wages', 'Bank/Default'),
            ('Fixed Assets/Plant/Mill', 'Long Term Borrowing/Loan'))):
        x = ctx.real('x%d' % k, 0.01, 1e9)
        txs.append(gl.create_transaction(
            't%d' % k, 'd%d' % k, tx_date=dates[k], dt_account=dt,
            cr_account=cr, source='s', amount=x))
        book.post(dt, cr, x)
        verify(ctx, gl, book, {'name': 'bs%d' % k}, {'name': 'is%d' % k},
               ' %d' % k)
        fin.rows(ctx, gl, 'transaction_list', 'tl%d' % k)
        fin.rows(ctx, gl.structure, 'report', 'gls%d' % k)
        ctx.check('the same transactions in the same order',
                  len(gl.transactions) == k + 1 and
                  all(a is b for a, b in zip(gl.transactions, txs)))
        for t, d in zip(txs, dates):
            ctx.check('the transactions are as they were',
                      (t.source, t.tx_date) == ('s', d) and
                      not t.is_closing_cr_account and
                      not t.is_closing_dt_account)
    y, x0 = ctx.real('y', 0.01, 1e9), txs[0].amount
    txs[0].amount = y
    book.post('Bank/Default', 'Sales/Metal', y - x0)
    verify(ctx, gl, book, {'name': 'bs9'}, {'name': 'is9'}, ' 9')


@scenario('transactions that are alike in everything, or but for one thing: '
          'every one of them counts')
def alike(ctx):
    gl, book = fin.ledger(), Book()
    for k, (dt, cr, x) in enumerate(BASE):
        gl.create_transaction('base%d' % k, tx_date=d0(2000), dt_account=dt,
                              cr_account=cr, source='e', amount=x)
        book.post(dt, cr, x)
    a, b = ctx.choice('accounts', [
        ('Bank/Default', 'Sales/Metal'), ('Expense/Wages', 'Bank/Default'),
        ('Cost of Sales/Ore', 'Account Payable'),
        ('Bank/Default', 'Retained Income/Retained Earnings')])
    x, y = ctx.real('x', -1e9, 1e9), ctx.real('y', -1e9, 1e9)
    first = dict(name='t', description='d', tx_date=d0(2001), dt_account=a,
                 cr_account=b, source='e', amount=x)
    other = dict(first, **ctx.choice('other', [
        {}, {'name': 'u'}, {'description': 'u'}, {'tx_date': d0(2002)},
        {'source': 'f'}, {'amount': y}, {'dt_account': 'Fixed Assets'},
        {'cr_account': 'Fixed Assets'}, {'dt_account': b, 'cr_account': a}]))
    for t in (first, other, first):
        gl.create_transaction(**t)
        book.post(t['dt_account'], t['cr_account'], t['amount'])
    verify(ctx, gl, book, {}, {})


@scenario('180 transactions between all pairs of accounts, seven of them of '
          'any amounts, from 0.01 or from 1e9 to 1e12; limits given or not')
def many(ctx):
    import random
    rng = random.Random(7)
    gl = fin.ledger()
    lo, hi = ctx.choice('amounts', [(0.01, 1e9), (1e9, 1e12)])
    start, end = ctx.choice('limits', [
        (None, None), (d0(2001, 7), d0(2003, 2)), (None, d0(2002, 2, 3))])
    everything, upto, during = Book(), Book(), Book()
    for k in range(180):
        a, b = PAIRS[(k * 37) % len(PAIRS)]
        x = ctx.real('x%d' % k, lo, hi) if k % 26 == 0 else \
            float(rng.randint(1, 10000) * 25)
        t = d0(2000) + fin.datetime.timedelta(rng.randint(0, 1400))
        gl.create_transaction('t%d' % k, tx_date=t, dt_account=a,
                              cr_account=b, source='e', amount=x)
        everything.post(a, b, x)
        if end is None or t <= end:
            upto.post(a, b, x)
            if start is None or t >= start:
                during.post(a, b, x)
    bs = {} if end is None else {'end': end}
    st = dict(bs) if start is None else dict(bs, start=start)
    left, right, tot = fin.balance_sheet(ctx, gl, **bs)
    inc, exp, tot2 = fin.income_statement(ctx, gl, **st)
    close(ctx, 'assets', left, upto.of('asset'))
    close(ctx, 'liabilities and equity', right, upto.of('liability', 'equity'))
    close(ctx, 'income', inc, during.of('revenue'))
    close(ctx, 'expense', exp, during.of('expense'))
    ctx.check_eq('total assets', tot['assets'],
                 sum(upto.of('asset').values()), **CENTS)
    ctx.check_eq('net income', tot2['net'], sum(
        during.of('revenue').values()) - sum(
            during.of('expense').values()), **CENTS)


@scenario('an entry marked as closing its debit account, its credit account or '
          'both, of any amount between accounts of four kinds, and another '
          'not marked: the income statement is without it, the balance sheet '
          'with it')
def closing(ctx):
    gl, book = fin.ledger(), Book()
    for k, (dt, cr, x) in enumerate(BASE):
        gl.create_transaction('base%d' % k, tx_date=d0(2000), dt_account=dt,
                              cr_account=cr, source='e', amount=x)
        book.post(dt, cr, x)
    a, b = ctx.choice('accounts', [
        ('Sales/Metal', 'Retained Income/Retained Earnings'),
        ('Retained Income/Retained Earnings', 'Expense/Wages'),
        ('Sales/Metal', 'Expense/Wages'),
        ('Expense/Wages', 'Sales/Metal'),
        ('Bank/Default', 'Cost of Sales/Ore'),
        ('Cost of Sales/Ore', 'Bank/Default')])
    x, y = ctx.real('x', -1e9, 1e9), ctx.real('y', -1e9, 1e9)
    t = gl.create_transaction('c', tx_date=d0(2001), dt_account=a,
                              cr_account=b, source='e', amount=x)
    mark = ctx.choice('marked', ['dt', 'cr', 'both'])
    if mark != 'cr':
        t.is_closing_dt_account = True
    if mark != 'dt':
        t.is_closing_cr_account = True
    gl.create_transaction('d', tx_date=d0(2001), dt_account=a, cr_account=b,
                          source='e', amount=y)
    book.post(a, b, y)
    inc, exp, tot = fin.income_statement(ctx, gl)
    close(ctx, 'income', inc, book.of('revenue'))
    close(ctx, 'expense', exp, book.of('expense'))
    ctx.check_eq('net income', tot['net'],
                 sum(book.of('revenue').values()) -
                 sum(book.of('expense').values()), **CENT)
    book.post(a, b, x)
    left, right, tot = fin.balance_sheet(ctx, gl)
    close(ctx, 'assets', left, book.of('asset'))
    close(ctx, 'liabilities and equity', right,
          book.of('liability', 'equity'))


SCENARIOS = [many, pairs, windows, again, alike, closing]
