"""Every format of a report states the same rows."""
import contextlib
import csv
import io
import os
import re

from symx.runner import scenario
from harness import fin
from harness.fin import CENT, TYPES, d0

PRELOAD = ['auxi.modelling.financial.des', 'auxi.modelling.financial.reporting']
# texts a report has to show as they are
NAMES = ['Ore & flux', '007', '1e5', '50% of A_B', '12345.6789', 'pay #1',
         '-0', '1,234', 'nan', '+5', '{x}', 'a~b^c', '$5 < $6',
         'Tapping of the second furnace ' * 4 + 'on 3 shifts']
ESC = [('\\textasciicircum{}', '^'), ('\\textasciitilde{}', '~'),
       ('\\textbackslash{}', '\\'), ('{\\textasciicircum}', '^'),
       ('{\\textbackslash}', '\\'), ('{\\textasciitilde}', '~'),
       ('\\^{}', '^'), ('\\~{}', '~'),
       ('\\ensuremath{<}', '<'), ('\\ensuremath{>}', '>'),
       ('\\&', '&'), ('\\%', '%'), ('\\$', '$'), ('\\#', '#'), ('\\_', '_'),
       ('\\{', '{'), ('\\}', '}')]


def plain_table(text):
    """Rows of a table of columns that a line of dashes marks."""
    lines = text.split('\n')
    while lines and not lines[-1].strip():
        lines.pop()
    rule = lines[1]
    assert re.fullmatch('[- ]+', rule), rule
    cols = [(m.start(), m.end()) for m in re.finditer('-+', rule)]
    rows = []
    for i, x in enumerate(lines):
        if i == 1:
            continue
        rows.append([x[a:(None if j + 1 == len(cols) else b)].strip()
                     for j, (a, b) in enumerate(cols)])
    return rows


def unescape(s):
    out, i = '', 0
    while i < len(s):
        for e, c in ESC:
            if s.startswith(e, i):
                out += c
                i += len(e)
                break
        else:
            out += s[i]
            i += 1
    return out


def latex_table(text):
    rows = []
    for x in text.split('\n'):
        x = x.strip()
        if x.endswith('\\\\'):
            rows.append([unescape(c.strip())
                         for c in re.split(r'(?<!\\)&', x[:-2])])
    return rows


def csv_table(text):
    return [[c.strip() for c in r] for r in csv.reader(io.StringIO(text))
            if r]


def every_format(ctx, make, name):
    """{format: rows} of a report; make(format, output_path)."""
    from auxi.core.reporting import ReportFormat as F
    fn = os.path.join(ctx.tmpdir(), name)
    out = {}
    for f, ext, read in ((F.csv, '.csv', csv_table),
                         (F.txt, '.txt', plain_table),
                         (F.latex, '.tex', latex_table)):
        with open(fn + ext, 'w') as h:      # of an earlier report, longer
            h.write('stale,stale\nstale & stale \\\\\n' * 40)
        make(f, fn)
        with open(fn + ext, newline='') as h:
            out[f.name + ' file'] = read(h.read())
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            make(f, None)
        out[f.name] = read(b.getvalue())
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        make(F.printout, None)
    out['printout'] = plain_table(b.getvalue())
    out['string'] = plain_table(make(F.string, None))
    return out


def same(ctx, out, report):
    """All formats have the rows of the csv file."""
    want = out['csv file']
    for f, rows in out.items():
        ctx.check('%s %s: as many rows' % (report, f), len(rows) == len(want))
        for r, w in zip(rows, want):
            r = r + [''] * (len(w) - len(r))
            ctx.check('%s %s: the same rows' % (report, f), r == w, (r, w))


AMOUNTS = [(0.01, 1.0), (1.0, 1e5), (1e5, 1e9), (-1e9, -1e5)]


def report(gl, what, **kw):
    def make(f, path):
        return getattr(gl, what)(format=f, output_path=path, **kw)
    return make


@scenario('transaction list of two transactions, one of any amount from a '
          'cent to 1e9 or negative; names and descriptions that look like '
          'numbers or need escapes')
def transactions(ctx):
    gl = fin.ledger()
    lo, hi = ctx.choice('size', AMOUNTS)
    x, y = ctx.real('x', lo, hi), ctx.real('y', 0.01, 1e6)
    k = ctx.choice('text', range(len(NAMES)))
    n, d = NAMES[k], NAMES[(k + 1) % len(NAMES)]
    gl.create_transaction(n, d, tx_date=d0(2001, 3), dt_account='Bank/Default',
                          cr_account='Sales/Metal', source='e/c', amount=x)
    gl.create_transaction('t', NAMES[(k + 2) % len(NAMES)],
                          tx_date=d0(2002, 3), dt_account='Expense/Wages',
                          cr_account='Bank/Default', source='e/' + n, amount=y)
    out = every_format(ctx, report(gl, 'transaction_list'), 'tl')
    same(ctx, out, 'transaction list')
    for f, rows in out.items():
        ctx.check(f + ': text as given', rows[1][2] == n and
                  rows[1][6] == d and rows[2][1] == 'e/' + n)
        for r, want in zip(rows[1:], (x, y, x + y)):
            ctx.check_eq(f + ': amount', fin.amount(ctx, r[5]), want,
                         tol=1e-9, scale=1e7 if hi < 1e6 else 1e9)


PAIRS = [('Bank/Default', 'Sales/Metal'), ('Expense/Wages', 'Bank/Default'),
         ('Fixed Assets/Plant/Mill', 'Account Payable'),
         ('Cost of Sales/Ore', 'Retained Income/Retained Earnings'),
         ('Bank/Default', 'Long Term Borrowing/Loan')]


@scenario('balance sheet and income statement of three transactions of any '
          'amounts to 1e9, in each of %d pairs of accounts' % len(PAIRS))
def statements(ctx):
    gl = fin.ledger()
    k = ctx.choice('accounts', range(len(PAIRS)))
    for i in range(3):
        dt, cr = PAIRS[(k + i) % len(PAIRS)]
        gl.create_transaction('t%d' % i, tx_date=d0(2001, 3), dt_account=dt,
                              cr_account=cr, source='e',
                              amount=ctx.real('x%d' % i, 0.01, 1e9))
    for what in ('balance_sheet', 'income_statement'):
        same(ctx, every_format(ctx, report(gl, what), what), what)


@scenario('structure report with accounts of names and descriptions that look '
          'like numbers or need escapes')
def structure(ctx):
    from auxi.modelling.financial.des import GeneralLedgerStructure
    s = GeneralLedgerStructure('gls')
    k = ctx.choice('text', range(len(NAMES)))
    a = s.get_account('Bank').create_account(NAMES[k], '0020',
                                             NAMES[(k + 3) % len(NAMES)])
    a.create_account(NAMES[(k + 1) % len(NAMES)], '0021')

    def make(f, path):
        return s.report(f, path)
    out = every_format(ctx, make, 'gls')
    same(ctx, out, 'structure')
    for f, rows in out.items():
        hit = [r for r in rows if r[1].endswith('/0020')]
        ctx.check(f + ': one row', len(hit) == 1)
        ctx.check(f + ': text as given', hit[0][2] == NAMES[k] and
                  hit[0][3] == NAMES[(k + 3) % len(NAMES)])


SCENARIOS = [transactions, statements, structure]
