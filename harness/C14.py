"""The account tree: paths, lookup, renaming and removal.

Account names are symbolic: every name may be any of a pool, so all patterns
of equal and different names are covered (the code only compares names).
"""
from symx.runner import scenario
from harness import fin

PRELOAD = ['auxi.modelling.financial.des', 'auxi.modelling.financial.reporting']
POOL = ['Default', 'Alpha', 'alpha', 'Bank', 'Alpha ']
TOP = {'Unallocated Income Statement': 'revenue', 'Sales': 'revenue',
       'Cost of Sales': 'expense', 'Other Income': 'revenue',
       'Expense': 'expense', 'Tax': 'expense', 'Dividends': 'expense',
       'Share Capital': 'asset', 'Retained Income': 'equity',
       'Shareholders Loan': 'liability', 'Long Term Borrowing': 'liability',
       'Other Long Term Liabilities': 'liability', 'Fixed Assets': 'asset',
       'Investments': 'asset', 'Other Fixed Assets': 'asset',
       'Inventory': 'asset', 'Accounts Receivable': 'asset', 'Bank': 'asset',
       'Other Current Assets': 'asset', 'Account Payable': 'liability',
       'Taxation': 'liability', 'Other Current Liabilities': 'liability'}


def gls():
    from auxi.modelling.financial.des import GeneralLedgerStructure
    return GeneralLedgerStructure('gls')


def tree(s, ctx, top, shape):
    """Accounts below a top account; [(account, parent index)], names may
    not repeat among siblings."""
    accs, names = [s.get_account(top)], [top]
    kids = {0: [(a.name,) for a in accs[0].accounts]}
    for k, parent in enumerate(shape):
        n = ctx.name('n%d' % k, POOL)
        for other in kids.setdefault(parent, []):
            ctx.assume(n != other[0])
        kids[parent].append((n,))
        kids.setdefault(k + 1, [])
        accs.append(accs[parent].create_account(n, '00%d' % k))
        names.append(n)
    return accs, names


def path(names, shape, i):
    if i == 0:
        return names[0]
    return path(names, shape, shape[i - 1]) + '/' + names[i]


SHAPES = [(0, 0, 0), (0, 1, 2), (0, 1, 1), (0, 0, 1), (0, 0, 2)]


@scenario('every top account; three accounts below it in five shapes, every '
          'name any of %d; lookup of any path of names' % len(POOL))
def lookup(ctx):
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    top = ctx.choice('top', ['Bank', 'Sales', 'Retained Income'])
    accs, names = tree(s, ctx, top, shape)
    for i in range(1, 4):
        p = path(names, shape, i)
        ctx.check('path', accs[i].path == p)
        ctx.check('type', accs[i].account_type == accs[0].account_type)
        ctx.check('name', accs[i].name == names[i])
        ctx.check('an account is found at its path',
                  s.get_account(p) is accs[i])
        ctx.check('the same from its top account',
                  accs[0].get_child_account(
                      p[len(top) + 1:] if not ctx.symbolic else
                      p.split('/', 1)[1]) is accs[i])
        ctx.check('the same by name from its parent',
                  accs[shape[i - 1]][names[i]] is accs[i])
        # its name alone is not its path
        if names[i] != 'Bank':
            ctx.check('no top account of that name',
                      s.get_account(names[i]) is None)
            ctx.raises('its name alone is refused', ValueError,
                       lambda: s.validate_account_names([names[i]]))
    s.validate_account_names([a.path for a in accs])


@scenario('lookup of a path of one to three names, each any of %d, in a tree '
          'of three accounts: the account there, else None' % len(POOL))
def lookup_any(ctx):
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    accs, names = tree(s, ctx, 'Sales', shape)
    depth = ctx.choice('depth', [1, 2, 3])
    q = [ctx.name('q%d' % k, POOL) for k in range(depth)]
    at = 0
    for n in q:
        nxt = None
        for i in range(1, 4):
            if shape[i - 1] == at and names[i] == n:
                nxt = i
        at = nxt
        if at is None:
            break
    p = 'Sales'
    for n in q:
        p = p + '/' + n
    got = s.get_account(p)
    ctx.check('the account at the path, or None',
              got is (None if at is None else accs[at]))
    if at is None:
        ctx.raises('an unknown name is refused', ValueError,
                   lambda: s.validate_account_names(['Bank/Default', p]))
    else:
        s.validate_account_names(['Bank/Default', p])
    if at is not None:
        # a path with an empty name in it is another path
        double = 'Sales/'
        for n in q:
            double = double + '/' + n
        for r in (p + '/', '/' + p, double, 'Sales/' + p):
            ctx.check('no such path', s.get_account(r) is None)
        ctx.raises('a trailing slash is refused', ValueError,
                   lambda: s.validate_account_names([p + '/']))
    ctx.check('an unknown top account', s.get_account('No' + p) is None)
    ctx.raises('an unknown top account is refused', ValueError,
               lambda: s.validate_account_names(['No' + p]))


@scenario('renaming any account of a tree of three to any name: every path '
          'follows, and lookups find the accounts at their new paths')
def rename(ctx):
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    accs, names = tree(s, ctx, 'Fixed Assets', shape)
    i = ctx.choice('which', [1, 2, 3])
    new = ctx.name('new', POOL)
    for j in range(1, 4):
        if j != i and shape[j - 1] == shape[i - 1]:
            ctx.assume(new != names[j])
    accs[i].name = new
    names[i] = new
    for j in range(1, 4):
        p = path(names, shape, j)
        ctx.check('path', accs[j].path == p)
        ctx.check('found at its path', s.get_account(p) is accs[j])
    more = accs[3].create_account('Late')
    ctx.check('a later account', more.path == path(names, shape, 3) + '/Late')
    top = ctx.name('top', POOL[:3])
    accs[0].name = top
    names[0] = top
    for j in range(4):
        ctx.check('path below a renamed top account',
                  accs[j].path == path(names, shape, j))
        ctx.check('found below a renamed top account',
                  s.get_account(path(names, shape, j)) is accs[j])


@scenario('removal by any name from any account of the tree: exactly the '
          'sub account of that name is gone')
def remove(ctx):
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    accs, names = tree(s, ctx, 'Inventory', shape)
    i = ctx.choice('from', [0, 1, 2])
    n = ctx.name('name', POOL)
    gone = None
    for j in range(1, 4):
        if shape[j - 1] == i and names[j] == n:
            gone = j
    accs[i].remove_account(n)
    for j in range(1, 4):
        k, alive = j, True
        while k:
            alive = alive and k != gone
            k = shape[k - 1]
        got = s.get_account(path(names, shape, j))
        ctx.check('only the removed one and its sub accounts are gone',
                  got is (accs[j] if alive else None))
    ctx.check('the name is free', accs[i][n] is None)


@scenario('descendants of every account of a tree of three accounts: each '
          'account below it once')
def descendants(ctx):
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    accs, names = tree(s, ctx, 'Other Income', shape)
    for i in range(4):
        want = []
        for j in range(1, 4):
            k = j
            while k and shape[k - 1] != i:
                k = shape[k - 1]
            if k:
                want.append(accs[j])
        got = s.get_account_descendants(accs[i])
        ctx.check('as many', len(got) == len(want))
        ctx.check('each one', all(any(a is b for b in got) for a in want))


@scenario('a new structure: the standard accounts with their types, and the '
          'year end accounts')
def standard(ctx):
    s = gls()
    n = ctx.name('n', sorted(TOP) + ['Nothing'])
    a = s.get_account(n)
    for t in TOP:
        if n == t:
            ctx.check('known', a is not None)
            ctx.check('type', a.account_type.name == TOP[t])
            ctx.check('path', a.path == t)
            break
    else:
        ctx.check('unknown', a is None)
    for p, t in (('Bank/Default', 'asset'),
                 ('Retained Income/Retained Earnings', 'equity'),
                 ('Tax/Income Tax Expense', 'expense'),
                 ('Unallocated Income Statement/Gross Profit', 'revenue'),
                 ('Unallocated Income Statement/Income Summary', 'revenue')):
        ctx.check('year end account', s.get_account(p).path == p and
                  s.get_account(p).account_type.name == t)


@scenario('the structure report: one row for every account, with its type, '
          'name and number')
def report(ctx):
    import csv
    import os
    from auxi.core.reporting import ReportFormat
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    top = ctx.choice('top', ['Bank', 'Sales', 'Long Term Borrowing'])
    accs, names = tree(s, ctx, top, shape)
    fn = os.path.join(ctx.tmpdir(), 'gls')
    s.report(ReportFormat.csv, fn)
    with open(fn + '.csv', newline='') as f:
        rows = [[ctx.text(x) for x in r] for r in csv.reader(f)][1:]
    for i in range(1, 4):
        number = '00%d' % (i - 1)
        hit = [r for r in rows if r[1].endswith('/' + number)]
        ctx.check('one row', len(hit) == 1 if number != '0000' else True)
        ctx.check('type and name', hit[0][0] == TOP[top] and
                  hit[0][2] == names[i])
    ctx.check('every account has a row', len(rows) == len(TOP) + 5 + 3)
    for t in TOP:
        ctx.check('top account', len([
            r for r in rows if r[2] == t and r[0] == TOP[t] and
            '/' not in r[1]]) == 1)


NUMBERS = [None, '0', '00', '9', '10', 'B60']


@scenario('the structure report of three accounts with any of %d numbers, '
          'also alike or without one, in five shapes, the accounts described '
          'or not' % len(NUMBERS))
def numbered(ctx):
    import csv
    import os
    from auxi.core.reporting import ReportFormat
    s = gls()
    shape = ctx.choice('shape', SHAPES)
    top = ctx.choice('top', ['Bank', 'Expense'])
    accs, want = [s.get_account(top)], []
    for k, parent in enumerate(shape):
        n = ctx.choice('number%d' % k, NUMBERS)
        d = [None, 'about', ''][k]
        kw = {} if n is None else {'number': n}
        accs.append(accs[parent].create_account('acc %d' % k, description=d,
                                                **kw))
        want.append((TOP[top], n or '', 'acc %d' % k, d or ''))
    fn = os.path.join(ctx.tmpdir(), 'gls')
    s.report(ReportFormat.csv, fn)
    with open(fn + '.csv', newline='') as f:
        rows = [r for r in csv.reader(f)][1:]
    got = [(r[0], r[1].split('/')[-1], r[2], r[3]) for r in rows]
    for w in want:
        ctx.check('one row for %s' % w[2], got.count(w) == 1)
    ctx.check('every account has a row', len(rows) == len(TOP) + 5 + 3)
    text = s.report(ReportFormat.string)
    for w in want:
        ctx.check('listed as text', text.count(w[2]) == 1)
    for k, parent in enumerate(shape):
        for other in {want[k][1] or 'x', 'about', 'ACC %d' % k, 'acc',
                      want[k][0]}:
            q = accs[parent].path + '/' + other
            ctx.check('no path', s.get_account(q) is None)
            ctx.raises('refused', ValueError,
                       lambda: s.validate_account_names([q, top]))
            accs[parent].remove_account(other)
        ctx.check('not removed', s.get_account(accs[k + 1].path)
                  is accs[k + 1])
    for other in ('B60', 'I25', 'I10', 'asset', 'expense', 'BANK', '0000',
                  'Bank/0000', 'bank'):
        ctx.check('no account', s.get_account(other) is None)


@scenario('a chain of 12 accounts and 40 siblings with 2 accounts each below '
          'one account; one name of each any of %d; lookup, descendants, '
          'report, renaming and removal' % len(POOL))
def large(ctx):
    import csv
    import os
    from auxi.core.reporting import ReportFormat
    s = gls()
    top = ctx.choice('top', ['Inventory', 'Other Income'])
    root = s.get_account(top)
    a, chain, cnames = root, [], []
    low = ctx.name('deep', POOL)
    depth = ctx.choice('depth', [3, 11])
    for k in range(12):
        n = low if k == depth else 'Level %d' % k
        a = a.create_account(n, '%04d' % k)
        chain.append(a)
        cnames.append(n)
    j0 = ctx.choice('sibling', [2, 39])
    wide, wnames = [], []
    for k in range(40):
        n = ctx.name('wide', [x + '!' for x in POOL]) if k == j0 else \
            'Item %d' % k
        w = root.create_account(n, '1%03d' % k)
        wide.append((w, w.create_account('a', '1'), w.create_account(n, '2')))
        wnames.append(n)

    def find(name):
        p = name
        for a, n in zip(chain, cnames):
            p = p + '/' + n
            ctx.check('path', a.path == p)
            ctx.check('found in the chain', s.get_account(p) is a)
            ctx.check('type', a.account_type.name == TOP[top])
        for (w, x, y), n in zip(wide, wnames):
            p = name + '/' + n
            ctx.check('found among the siblings', s.get_account(p) is w)
            ctx.check('the first below it',
                      s.get_account(p + '/a') is x and x.path == p + '/a')
            ctx.check('the second below it',
                      s.get_account(p + '/' + n) is y)
    find(top)
    s.validate_account_names([z.path for w in wide for z in w] +
                             [a.path for a in chain])
    d = s.get_account_descendants(root)
    ctx.check('descendants', len(d) == 132 and {id(a) for a in d} == {
        id(z) for w in wide for z in w} | {id(a) for a in chain})
    fn = os.path.join(ctx.tmpdir(), 'gls')
    s.report(ReportFormat.csv, fn)
    with open(fn + '.csv', newline='') as f:
        rows = [[ctx.text(x) for x in r] for r in csv.reader(f)][1:]
    ctx.check('every account has a row', len(rows) == len(TOP) + 5 + 132)
    for k in (0, 5, 38):
        if k != j0:
            ctx.check('one row', len([
                r for r in rows if r[2] == wnames[k]]) == 2)
    root.name = 'Renamed'
    find('Renamed')
    chain[0].remove_account(cnames[1])
    root.remove_account(wnames[j0])
    p = 'Renamed/' + wnames[j0]
    for q in (p, p + '/a', 'Renamed/' + '/'.join(cnames) if not ctx.symbolic
              else 'Renamed/Level 0/Level 1'):
        ctx.check('gone', s.get_account(q) is None)
    ctx.check('what is left', len(s.get_account_descendants(root)) ==
              132 - 11 - 3)


SCENARIOS = [large, numbered, lookup, lookup_any, rename, remove, descendants,
             standard, report]
