"""The transaction list: which transactions, in what order, and the total;
and the income statement of a component."""
from symx.runner import scenario
from harness import fin
from harness.fin import CENT, Book, close, d0

PRELOAD = ['auxi.modelling.financial.des', 'auxi.modelling.financial.reporting']
LO, HI = d0(2000), d0(2003, 12, 31)
ACC = [('Bank/Default', 'Sales/Metal'), ('Expense/Wages', 'Bank/Default'),
       ('Fixed Assets/Plant/Mill', 'Account Payable')]
HEAD = ['Date', 'Source', 'Tx Name', 'Debit Account', 'Credit Account',
        'Amount', 'Description']


def listing(ctx, gl, name='tl', **kw):
    """[(description, source, name, debit, credit, amount)], total."""
    r = fin.rows(ctx, gl, 'transaction_list', name, **kw)
    ctx.check('columns', r[0] == HEAD)
    ctx.check('total row', r[-1][2] == 'Total')
    return [(x[6], x[1], x[2], x[3], x[4], ctx.num(x[5])) for x in r[1:-1]], \
        ctx.num(r[-1][5])


def compare(ctx, got, total, want):
    ctx.check('which transactions, in which order',
              [g[0] for g in got] == [w['description'] for w in want],
              info='%r' % ([g[0] for g in got],))
    s = 0
    for g, w in zip(got, want):
        ctx.check('source', g[1] == (w['source'] or ''))
        ctx.check('name', g[2] == w['name'] or (
            g[2] == '' and (w['source'] or '').endswith(w['name'])))
        ctx.check('debit account', g[3] == w['dt_account'])
        ctx.check('credit account', g[4] == w['cr_account'])
        ctx.check_eq('amount', g[5], w['amount'], **CENT)
        s = s + w['amount']
    ctx.check_eq('total', total, s, **CENT)


def earlier(a, b):
    """A date and a datetime are of different days."""
    if isinstance(a, fin.datetime.datetime) != isinstance(
            b, fin.datetime.datetime):
        a, b = (x.date() if isinstance(x, fin.datetime.datetime) else x
                for x in (a, b))
    return a < b


def in_order(txs):
    """By date; those of one date as they were entered."""
    out = []
    for t in txs:
        k = len(out)
        while k > 0 and earlier(t['tx_date'], out[k - 1]['tx_date']):
            k -= 1
        out.insert(k, t)
    return out


@scenario('three transactions of any dates in 2000 to 2003 and any amounts '
          '(also negative), limits any dates there; dates, datetimes, '
          'datetimes with dates as limits, or both in one ledger')
def dates(ctx):
    gl = fin.ledger()
    how = ctx.choice('dates', ['date', 'datetime', 'mixed', 'one date'])
    txs = []
    for k, (dt, cr) in enumerate(ACC):
        day = how == 'date' or how == 'one date' and k == 1
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source=['/e/a', None, ''][k],
                 tx_date=ctx.dt('t%d' % k, LO, HI, **dict(
                     date=day, seconds=not day)),
                 amount=ctx.real('x%d' % k, -1e9, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    if how == 'one date':
        for t in (txs[0], txs[2]):
            ctx.assume(t['tx_date'].date() != txs[1]['tx_date'])
    lim = dict(date=how != 'datetime', seconds=how == 'datetime')
    start = ctx.dt('start', LO, HI, **lim)
    end = ctx.dt('end', LO, HI, **lim)
    want = [t for t in in_order(txs)
            if fin.in_window(t['tx_date'], start, end)]
    got, total = listing(ctx, gl, start=start, end=end)
    compare(ctx, got, total, want)


@scenario('four transactions of any dates, no limits: every one of them, in '
          'order of date, whatever order they were entered in',
          tier='thorough')
def order(ctx):
    gl = fin.ledger()
    how = ctx.choice('dates', ['date', 'datetime'])
    txs = []
    for k in range(4):
        dt, cr = ACC[k % 3]
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source='/e/n%d' % k,
                 tx_date=ctx.dt('t%d' % k, LO, HI, date=how == 'date'),
                 amount=ctx.real('x%d' % k, -1e9, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    compare(ctx, *listing(ctx, gl), in_order(txs))


@scenario('three transactions at any times of one day, limits any times of '
          'that day')
def one_day(ctx):
    gl = fin.ledger()
    lo, hi = d0(2001, 5, 4), d0(2001, 5, 4) + fin.datetime.timedelta(
        seconds=86399)
    txs = []
    for k, (dt, cr) in enumerate(ACC):
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source='/e/n%d' % k,
                 tx_date=ctx.dt('t%d' % k, lo, hi, seconds=True),
                 amount=ctx.real('x%d' % k, 0.01, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    kw = {}
    if ctx.flag('limits'):
        kw = {'start': ctx.dt('start', lo, hi, seconds=True),
              'end': ctx.dt('end', lo, hi, seconds=True)}
    want = [t for t in in_order(txs)
            if fin.in_window(t['tx_date'], **kw)]
    compare(ctx, *listing(ctx, gl, **kw), want)


SOURCES = ['/e/a', '/e/a/x', '/e/a/x/y', '/e/a1', '/e/ab/x', '/e/b', '/e',
           '/f/a', '', None]


@scenario('a transaction from each of %d sources; the list and the income '
          'statement of a component are those of it and its parts'
          % len(SOURCES))
def components(ctx):
    gl = fin.ledger()
    txs = []
    for k, src in enumerate(SOURCES):
        dt, cr = ACC[k % 2]
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source=src, tx_date=d0(2001, 1 + k),
                 amount=ctx.real('x%d' % k, 0.01, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    c = ctx.choice('component', ['', '/e', '/e/a', '/e/a/x', '/e/b', '/g'])
    want = [t for t in txs if c == '' or t['source'] == c or
            (t['source'] or '').startswith(c + '/')]
    compare(ctx, *listing(ctx, gl, component_path=c), want)
    book = Book()
    for t in want:
        book.post(t['dt_account'], t['cr_account'], t['amount'])
    inc, exp, tot = fin.income_statement(ctx, gl, component_path=c)
    close(ctx, 'income', inc, book.of('revenue'))
    close(ctx, 'expense', exp, book.of('expense'))
    ctx.check_eq('net income', tot['net'],
                 sum(book.of('revenue').values()) -
                 sum(book.of('expense').values()), **CENT)


@scenario('the limits and the filter together, on transactions of two '
          'components at any days')
def both(ctx):
    gl = fin.ledger()
    txs = []
    for k, src in enumerate(('/e/a', '/e/b', '/e/a/x')):
        dt, cr = ACC[k % 2]
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source=src,
                 tx_date=ctx.dt('t%d' % k, LO, HI),
                 amount=ctx.real('x%d' % k, 0.01, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    start, end = ctx.dt('start', LO, HI), ctx.dt('end', LO, HI)
    want = [t for t in in_order(txs) if t['source'] != '/e/b' and
            fin.in_window(t['tx_date'], start, end)]
    got, total = listing(ctx, gl, start=start, end=end,
                         component_path='/e/a')
    compare(ctx, got, total, want)
    ctx.check('the ledger is as it was', [
        t.description for t in gl.transactions] == ['tx 0', 'tx 1', 'tx 2'])


@scenario('limits given as text')
def text_limits(ctx):
    gl = fin.ledger()
    t = ctx.dt('t', LO, HI, date=ctx.flag('date'))
    gl.create_transaction('n', description='tx 0', tx_date=t,
                          dt_account='Bank/Default', cr_account='Sales/Metal',
                          amount=ctx.real('x', 0.01, 1e9))
    got, total = listing(ctx, gl, start='2001-02-03', end='2002-11-30')
    inside = fin.in_window(t, d0(2001, 2, 3).date(), d0(2002, 11, 30).date())
    ctx.check('within the limits', len(got) == (1 if inside else 0))


@scenario('three transactions from components with any names of a pool '
          '(some begin alike), nested to depth 3; the filter any component')
def names(ctx):
    gl = fin.ledger()
    pool = ['a', 'a1', 'ab', 'b']
    n = [ctx.name('n%d' % k, pool) for k in range(3)]
    depth = ctx.choice('depth', [1, 2])
    q = [ctx.name('q%d' % k, pool) for k in range(depth)]
    srcs = [[n[0]], [n[1], n[2]], [n[1], 'a', n[0]]]
    txs = []
    for k, src in enumerate(srcs):
        dt, cr = ACC[k % 2]
        s = '/e'
        for x in src:
            s = s + '/' + x
        t = dict(name='tx', description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source=s, tx_date=d0(2001, 1 + k),
                 amount=ctx.real('x%d' % k, 0.01, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    c = '/e'
    for x in q:
        c = c + '/' + x
    want = [t for t, src in zip(txs, srcs) if len(src) >= depth and
            all(x == y for x, y in zip(src, q))]
    got, total = listing(ctx, gl, component_path=c)
    ctx.check('which transactions',
              [g[0] for g in got] == [w['description'] for w in want])
    ctx.check_eq('total', total, sum(w['amount'] for w in want), **CENT)
    book = Book()
    for t in want:
        book.post(t['dt_account'], t['cr_account'], t['amount'])
    inc, exp, tot = fin.income_statement(ctx, gl, component_path=c)
    close(ctx, 'income', inc, book.of('revenue'))
    close(ctx, 'expense', exp, book.of('expense'))


@scenario('transactions that are alike in everything, or but for one thing: '
          'every one of them is listed')
def alike(ctx):
    gl = fin.ledger()
    x, y = ctx.real('x', -1e9, 1e9), ctx.real('y', -1e9, 1e9)
    t = ctx.dt('t', LO, HI)
    first = dict(name='n', description='d', tx_date=t,
                 dt_account='Bank/Default', cr_account='Sales/Metal',
                 source='/e/a', amount=x)
    other = dict(first, **ctx.choice('other', [
        {}, {'name': 'u'}, {'description': 'u'}, {'source': '/e/b'},
        {'amount': y}, {'dt_account': 'Fixed Assets'},
        {'cr_account': 'Fixed Assets'},
        {'dt_account': 'Sales/Metal', 'cr_account': 'Bank/Default'},
        {'tx_date': ctx.dt('t2', LO, HI)}]))
    txs = [first, other, first, other]
    for u in txs:
        gl.create_transaction(**u)
    compare(ctx, *listing(ctx, gl), in_order(txs))
    book = Book()
    for u in txs:
        book.post(u['dt_account'], u['cr_account'], u['amount'])
    inc, exp, tot = fin.income_statement(ctx, gl)
    close(ctx, 'income', inc, book.of('revenue'))


@scenario('names, sources, accounts and descriptions of up to %d characters, '
          'alike but for the last' % 400)
def long_texts(ctx):
    from auxi.modelling.financial.des import (GeneralLedger,
                                              GeneralLedgerStructure)
    n = ctx.choice('length', [30, 100, 400])
    w = ('abcdefghi ' * 40)[:n - 1]
    st = GeneralLedgerStructure('s')
    st['Expense'].create_account('X' * n).create_account(w + '1')
    gl = GeneralLedger('g', st)
    txs = []
    for k in '12':
        t = dict(name=w + k, description=w + k, source='/e/' + w + k,
                 tx_date=d0(2001, 2), dt_account='Bank/Default',
                 cr_account='Expense/' + 'X' * n + '/' + w + '1',
                 amount=ctx.real('x' + k, -1e9, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    compare(ctx, *listing(ctx, gl), txs)


@scenario('transactions named after a part of their source or not: each shows '
          'its name, unless its source ends with that')
def named(ctx):
    gl = fin.ledger()
    src = ctx.choice('source', ['/e/mine/dig', '/e/mine', '/mine/e', 'mine',
                                '', None])
    txs = []
    for k, n in enumerate(['mine', 'dig', 'e', '/e', 'min', 'e/mine',
                           'mine/dig', 'Mine', 'dig ']):
        dt, cr = ACC[k % 2]
        t = dict(name=n, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source=src, tx_date=d0(2001, 1 + k),
                 amount=ctx.real('x%d' % k, -1e9, 1e9))
        gl.create_transaction(**t)
        txs.append(t)
    compare(ctx, *listing(ctx, gl), txs)


@scenario('250 transactions of 30 sources, entered out of order, many of one '
          'day; six of them of any amounts, up to 1e12; limits and filter '
          'from lists')
def many(ctx):
    import random
    rng = random.Random(3)
    gl = fin.ledger()
    txs = []
    for k in range(250):
        dt, cr = ACC[k % 3]
        t = dict(name='n%d' % k, description='tx %d' % k, dt_account=dt,
                 cr_account=cr, source='/e/c%d/a' % rng.randint(0, 29),
                 tx_date=LO + fin.datetime.timedelta(rng.randint(0, 400)),
                 amount=ctx.real('x%d' % k, -1e5, 1e12) if k % 45 == 7 else
                 float(rng.randint(-4000, 4000) * 25))
        gl.create_transaction(**t)
        txs.append(t)
    start, end = ctx.choice('limits', [
        (None, None), (LO + fin.datetime.timedelta(100), None),
        (None, LO + fin.datetime.timedelta(333)),
        (LO + fin.datetime.timedelta(399), LO + fin.datetime.timedelta(399))])
    path = ctx.choice('filter', [None, '/e/c1', '/e/c29/a', '/e'])
    kw = {}
    if start is not None:
        kw['start'] = start
    if end is not None:
        kw['end'] = end
    if path is not None:
        kw['component_path'] = path
    want = [t for t in in_order(txs)
            if fin.in_window(t['tx_date'], start, end) and (
                path is None or t['source'] == path or
                t['source'].startswith(path + '/'))]
    got, total = listing(ctx, gl, **kw)
    compare(ctx, got, total, want)


SCENARIOS = [many, long_texts, names, alike, dates, one_day, order, components, both,
             text_limits, named]
