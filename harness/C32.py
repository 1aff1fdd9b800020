"""Variables, projects, models, accounts and clocks keep what they are given."""
from symx.runner import scenario
from harness.fin import d0

PRELOAD = ['auxi.modelling.core', 'auxi.modelling.process.core',
           'auxi.modelling.financial.des', 'auxi.core.time'] + [
    'auxi.modelling.process.materials.' + m
    for m in ('chem', 'psd', 'slurry', 'thermo', 'core')]


@scenario('any values, the optional arguments each given or not, two of each')
def variables(ctx):
    from auxi.modelling.core import Project, Variable, VariableGroup
    cls = ctx.choice('class', [Variable, VariableGroup])
    vs, made = [], []
    for k in range(2):
        kw = {a: '%s %d' % (a, k) for a in ('units', 'category', 'description')
              if ctx.flag('%s%d' % (a, k))}
        x = ctx.real('x%d' % k, -1e9, 1e9)
        vs.append((x, kw))
        made.append(cls('v%d' % k, x, **kw))
    for k, (v, (x, kw)) in enumerate(zip(made, vs)):
        ctx.check_eq('value', v.value, x)
        ctx.check_eq('call', v(), x)
        ctx.check('name', v.name == 'v%d' % k)
        for a in ('units', 'category', 'description'):
            ctx.check(a, getattr(v, a, None) == kw.get(a))
    y = ctx.real('y', -1e9, 1e9)
    made[0].value = y
    ctx.check_eq('the new value', made[0](), y)
    ctx.check_eq('of that one only', made[1](), vs[1][0])
    p, q = Project('p', 'a project'), Project('q')
    ctx.check('projects', (p.name, p.description, q.name, q.description) ==
              ('p', 'a project', 'q', None))


@scenario('two process models of each kind with any values of parameters and '
          'variables')
def process_models(ctx):
    from auxi.modelling.process import core
    cls = getattr(core, ctx.choice('class', [
        'Model', 'SteadyStateModel', 'DynamicModel']))

    class Furnace(cls):
        class Parameters(object):
            def __init__(self):
                self.loss = 1.0

        class InputVariables(object):
            def __init__(self):
                self.feed = None

    a, b = Furnace('a', 'one'), Furnace('b')
    x, y, z = ctx.reals('x', 3, -1e6, 1e6)
    a.parameters.loss = x
    a.input_variables.feed = y
    b.input_variables.feed = z
    a.output_variables.slag = z
    ctx.check_eq('its parameter', a.parameters.loss, x)
    ctx.check_eq('not that of another', b.parameters.loss, 1.0)
    ctx.check_eq('its input', a.input_variables.feed, y)
    ctx.check_eq('the input of another', b.input_variables.feed, z)
    ctx.check('output', not hasattr(b.output_variables, 'slag') and
              hasattr(a.output_variables, 'slag'))
    ctx.check('names', (a.name, a.description, b.name, b.description) ==
              ('a', 'one', 'b', None))
    s = {'in': y}
    a.run(s)
    ctx.check_eq('streams', s['in'], y)


@scenario('two transactions of any amounts with every combination of optional '
          'arguments, in two ledgers')
def transactions(ctx):
    from auxi.modelling.financial.des import (GeneralLedger,
                                              GeneralLedgerStructure)
    s = GeneralLedgerStructure('s')
    g, h = GeneralLedger('g', s), GeneralLedger('h', s, 'other')
    kw = {}
    if ctx.flag('source'):
        kw['source'] = 'a/b'
    if ctx.flag('described'):
        kw['description'] = 'about'
    x, y = ctx.reals('x', 2, -1e9, 1e9)
    t = g.create_transaction('t', tx_date=d0(2001, 2), amount=x,
                             dt_account='Bank/Default', cr_account='Sales',
                             **kw)
    u = h.create_transaction('u', tx_date=d0(2002, 2), amount=y,
                             dt_account='Sales', cr_account='Bank/Default')
    ctx.check('each in its ledger', g.transactions == [t] and
              h.transactions == [u])
    ctx.check('what was given', (t.name, t.tx_date, t.dt_account,
                                 t.cr_account, t.source, t.description) ==
              ('t', d0(2001, 2), 'Bank/Default', 'Sales', kw.get('source'),
               kw.get('description')))
    ctx.check('not closing', not t.is_closing_dt_account and
              not t.is_closing_cr_account)
    ctx.check_eq('amount', t.amount, x)
    ctx.check_eq('the other amount', u.amount, y)
    ctx.check('the other', (u.source, u.description, u.dt_account) ==
              (None, None, 'Sales'))


@scenario('templates of transactions with any texts, two of them; '
          'transactions without amount')
def templates(ctx):
    from auxi.modelling.financial.des import Transaction, TransactionTemplate
    w = ['n', 'm', 'a/b', 'c', '']
    a = [ctx.choice('a%d' % k, w[k:] + w[:k]) for k in range(4)]
    b = ['x', 'about', 'Bank/Default', 'Sales/Metal']
    t = TransactionTemplate(a[0], a[2], a[3], description=a[1])
    u = TransactionTemplate(b[0], dt_account=b[2], cr_account=b[3],
                            description=b[1])
    for v, z in ((t, a), (u, b)):
        ctx.check('template', [v.name, v.description, v.dt_account,
                               v.cr_account] == z)
    ctx.check('not described', TransactionTemplate(
        'x', 'a', 'b').description is None)
    x = ctx.real('x', -1e9, 1e9)
    p, q = Transaction('p', amount=x), Transaction('q')
    ctx.check_eq('amount', p.amount, x)
    ctx.check('no amount', q.amount == 0 and q.source is None and
              q.description is None)
    q.amount = 2 * x
    ctx.check_eq('amount set', q.amount, 2 * x)
    ctx.check_eq('amount kept', p.amount, x)


FILES = {
    'chem': 'Compound A B\nFe2O3[S1] 0.5 %s\nSiO2[S1] 0.5 0.25\n',
    'psd': 'SizeClass A B\n0.5 0.5 %s\n0.0 0.5 0.25\n',
    'slurry': 'SizeClass A B\nsolid_density 3.0 3.5\nH2O 0.5 0.25\n'
              '0.5 0.5 %s\n0.0 0.5 0.25\n',
    'thermo': 'Compound A B\nFe2O3[S1] 0.5 %s\nSiO2[S1] 0.5 0.25\n'
              '#\nPrice 1 %s\n\n'}


@scenario('two materials of each kind made from one file of any mass '
          'fraction, one described; an assay added to one')
def materials(ctx):
    import importlib
    import numpy
    kind = ctx.choice('kind', sorted(FILES))
    mod = importlib.import_module('auxi.modelling.process.materials.' + kind)
    x, y = ctx.reals('x', 2, 0, 1)
    text = FILES[kind]
    fn = ctx.write('m.txt', text % ((ctx.tok(x),) + ('2',) * (
        text.count('%s') - 1)))
    a, b = mod.Material('a', fn, 'about'), mod.Material('b', fn)
    ctx.check('names', (a.name, b.name) == ('a', 'b'))
    ctx.check('descriptions', (a.description, b.description) ==
              ('about', None))
    def assays(m):
        return m.raw_assays if kind == 'thermo' else m.assays

    new = [y, 1 - y]
    if kind in ('psd', 'thermo', 'slurry'):
        new = numpy.array(new)
    a.add_assay(*(('C', 2.0, 0.5, new) if kind == 'slurry' else ('C', new)))
    ctx.check('assays', sorted(assays(a)) == ['A', 'B', 'C'] and
              sorted(assays(b)) == ['A', 'B'])
    for m in (a, b):
        ctx.check_eq('of the file', assays(m)['B'][0], x)
        ctx.check_eq('of the file', assays(m)['B'][1], 0.25)
    ctx.check_eq('added', assays(a)['C'][0], y)
    ctx.check_eq('added', assays(a)['C'][1], 1 - y)


@scenario('materials of property models of any constant values; two of them')
def model_materials(ctx):
    from auxi.core.objects import NamedObject
    from auxi.modelling.process.materials.core import Material
    from auxi.tools.materialphysicalproperties.core import StateOfMatter
    kinds = ['alpha', 'beta', 'Cp', 'k', 'mu', 'nu', 'rho']
    given = ctx.choice('given', [kinds] + [[k] for k in kinds] + [[]])
    x, y = ctx.reals('x', 2, 0.1, 10)
    state = ctx.choice('state', list(StateOfMatter))
    a = Material('a', state, {k: (lambda i: lambda **s: x * i * s['T'])(i)
                              for i, k in enumerate(given, 1)}, 'about')
    b = Material('b', property_models={'rho': lambda **s: y * s['T']})
    ctx.check('names', (a.name, a.description, b.name, b.description) ==
              ('a', 'about', 'b', None) and isinstance(a, NamedObject))
    ctx.check('states', (a.mstate, b.mstate) ==
              (state, StateOfMatter.unknown))
    T = ctx.real('T', 250, 2500)
    for i, k in enumerate(given, 1):
        ctx.check_eq(k, getattr(a, k)(T=T), x * i * T)
    ctx.check_eq('the other', b.rho(T=T), y * T)


SCENARIOS = [variables, process_models, transactions, templates, materials,
             model_materials]
