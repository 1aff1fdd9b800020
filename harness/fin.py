"""The general ledger: accounts, transactions and reading its reports."""
import csv
import datetime
import os

# amounts are printed to the cent; sums of up to three of them
CENT = dict(tol=1e-8, scale=5.5e5)
CENTS = dict(tol=1e-8, scale=1.65e6)

# account -> type, one or more of every type, nested and not
TYPES = {'Bank/Default': 'asset', 'Fixed Assets/Plant/Mill': 'asset',
         'Fixed Assets': 'asset', 'Long Term Borrowing/Loan': 'liability',
         'Account Payable': 'liability',
         'Retained Income/Retained Earnings': 'equity',
         'Sales/Metal': 'revenue', 'Other Income': 'revenue',
         'Expense/Wages': 'expense', 'Cost of Sales/Ore': 'expense',
         'Expense/Cost of Sales Staff': 'expense',
         'Other Income/Cost of Sales Rebate': 'revenue',
         'Bank/Default 2': 'asset',
         'Cost of Sales': 'expense', 'Tax/Income Tax Expense': 'expense'}


def structure():
    from auxi.modelling.financial.des import GeneralLedgerStructure
    gls = GeneralLedgerStructure('gls')
    gls.get_account('Fixed Assets').create_account('Plant', '0010') \
        .create_account('Mill', '0011')
    gls.get_account('Long Term Borrowing').create_account('Loan', '0010')
    gls.get_account('Sales').create_account('Metal', '0010')
    gls.get_account('Expense').create_account('Wages', '0010')
    gls.get_account('Expense').create_account('Interest', '0020')
    gls.get_account('Expense').create_account('Cost of Sales Staff', '0030')
    gls.get_account('Other Income').create_account(
        'Cost of Sales Rebate', '0010')
    gls.get_account('Bank').create_account('Default 2', '0010')
    gls.get_account('Cost of Sales').create_account('Ore', '0010')
    return gls


def ledger():
    from auxi.modelling.financial.des import GeneralLedger
    return GeneralLedger('gl', structure())


def rows(ctx, gl, report, name, **kw):
    """The rows of a report, as lists of text."""
    from auxi.core.reporting import ReportFormat
    fn = os.path.join(ctx.tmpdir(), name)
    getattr(gl, report)(format=ReportFormat.csv, output_path=fn, **kw)
    with open(fn + '.csv', newline='') as f:
        return list(csv.reader(f))


def amount(ctx, text):
    text = text.strip()
    if text.startswith('('):
        return -ctx.num(text[1:-1])
    return ctx.num(text)


def put(ctx, out, name, text):
    assert name not in out, name
    out[name] = amount(ctx, text)


def balance_sheet(ctx, gl, name='bs', **kw):
    """{account: amount} of both sides, {total: amount}."""
    left, right, tot = {}, {}, {}
    for r in rows(ctx, gl, 'balance_sheet', name, **kw)[1:]:
        if r[0] == 'Total':
            put(ctx, tot, 'assets', r[1])
            put(ctx, tot, 'financed', r[4])
            continue
        if r[1].strip(' -'):
            put(ctx, left, r[0], r[1])
        if r[3].strip():
            put(ctx, right, r[2], r[3])
        if r[4].strip(' -'):
            put(ctx, tot, r[2], r[4])
    return left, right, tot


def income_statement(ctx, gl, name='is', **kw):
    """{account: amount} of income and expenses, {total: amount}."""
    inc, exp, tot = {}, {}, {}
    totals = {'Gross Revenues (including interest income)': 'gross',
              'Total Expenses': 'expenses', 'Net Income': 'net'}
    for r in rows(ctx, gl, 'income_statement', name, **kw)[1:]:
        if r[0] in totals:
            put(ctx, tot, totals[r[0]], r[1] or r[2])
        elif r[0] and (r[1].strip('-') or r[2].strip('-')):
            put(ctx, inc if r[2] else exp, r[0], r[1] or r[2])
    return inc, exp, tot


def close(ctx, name, got, want):
    """Equal amounts; accounts without transactions may be left out."""
    for k in sorted(set(got) | set(want)):
        ctx.check_eq('%s: %s' % (name, k), got.get(k, 0), want.get(k, 0),
                     **CENT)


class Book:
    """What the transactions add up to, per account: debit minus credit."""

    def __init__(self):
        self.dr = {}

    def post(self, dt, cr, x):
        self.dr[dt] = self.dr.get(dt, 0) + x
        self.dr[cr] = self.dr.get(cr, 0) - x

    def of(self, *types):
        s = 1 if types[0] in ('asset', 'expense') else -1
        return {a: s * x for a, x in self.dr.items() if TYPES[a] in types}


def d0(y, m=1, d=1):
    return datetime.datetime(y, m, d)


def in_window(t, start=None, end=None):
    """Whether a date is within the limits; days when one has no time."""
    return (start is None or not_after(start, t)) and \
        (end is None or not_after(t, end))


def not_after(a, b):
    if isinstance(a, datetime.datetime) and \
            not isinstance(b, datetime.datetime):
        a = a.date()
    elif isinstance(b, datetime.datetime) and \
            not isinstance(a, datetime.datetime):
        b = b.date()
    return a <= b


def midnight(x):
    """The datetime of a date, a datetime, or text."""
    if isinstance(x, str):
        return datetime.datetime.strptime(x, '%Y-%m-%d')
    if isinstance(x, datetime.datetime):
        return x
    if hasattr(x, 'as_datetime'):
        return x.as_datetime()
    return datetime.datetime.combine(x, datetime.time())


def given(ctx, name, how, text, lo, hi, **kw):
    """A date as text, a date or a datetime, for which any in [lo, hi]."""
    if how == 'text':
        return text
    return ctx.dt(name, lo, hi, date=how == 'date', **kw)


KINDS = ['text', 'date', 'datetime']
