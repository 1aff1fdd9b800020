"""Writes known_findings.json; run by hand when a defect is found or fixed."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# words of the commit subject, property, what failed
FIXED = [
    ('read from its data dict|magnetic properties from its data', 'C03',
     'magnetic properties of a phase were looked up as attributes of a '
     'dictionary and never used'),
    ('count the magnetic heat capacity once', 'C03',
     'above the last record the magnetic heat capacity was counted twice'),
    ('subscript of zero', 'C01', 'a subscript 0 on a group or hydrate counted '
     'as 1'),
    ('add chem packages of the same material', 'C05',
     'a chem package + one of the same material had the lists concatenated'),
    ('clear() on a chem package', 'C05', 'clear() emptied the mass list'),
    ('leave a chem package as it was', 'C05',
     'a refused add_to had already added part of the other package'),
    ('leave a psd package as it was', 'C06',
     'a refused add_to had already added part of the other package'),
    ('name the size class', 'C06', 'adding a psd or slurry package of an '
     'incompatible material raised TypeError while building the message'),
    ('only the key H2O', 'C07', 'any text with the letters H2O in it, or any '
     'part of it (substring test), was taken for water'),
    ('add slurry packages that contain no solids', 'C07',
     'the sum of two slurries without solids had density 0/0'),
    ('keeps its pressure', 'C08', 'material extracted from a package or '
     'stream by a material was at 1 atm'),
    ('custom properties of its own', 'C08', 'a clone shared custom_properties '
     'with the original'),
    ('clear() sets the enthalpy flow', 'C09', 'clear() left the enthalpy flow '
     'rate of a stream'),
    ('setting the enthalpy of an empty', 'C08', 'setting the enthalpy of an '
     'empty package or stream made its temperature nan'),
    ('multiply a compound\'s flow rate', 'C09', 'element flow rates raised '
     'TypeError'),
    ('extracted from a coal stream', 'C09', 'a stream extracted from a coal '
     'stream was not coal and lost its heating value'),
    ('carbon burns to CO2', 'C09', 'adding carbon to a coal stream raised '
     'for the compound COs'),
    ('refused slurry assay', 'C11', 'a refused slurry assay overwrote the '
     'density and water of the existing one'),
    ('assay added to a thermo material', 'C11', 'create_package and '
     'create_stream raised KeyError for an assay added with add_assay'),
    ('sign of the first expense credit', 'C12', 'the first credit of an '
     'expense (or debit of a revenue) account had the wrong sign in the '
     'income statement'),
    ('dated with a date or a datetime', 'C13', 'a report on transactions '
     'dated with a date and limits that are datetimes, or the other way '
     'round, raised TypeError'),
    ('transactions without a source', 'C13', 'the transaction list and income '
     'statement raised for a transaction without a source'),
    ('no child account of an unknown name', 'C14', 'looking up a sub account '
     'of an unknown name raised IndexError'),
    ('components with a longer name', 'C13', 'the report on component a '
     'included the transactions of component ab'),
    ('the Rayleigh number uses', 'C26', 'Ra raised NameError'),
    ('without property models', 'C25', 'Material(name) without property '
     'models raised TypeError'),
    ("leaves the caller's composition", 'C22', 'the Riboud model added single '
     'cation oxides to the composition it was given, which changed what the '
     'Urbain model made of it'),
    ('cover every angle', 'C27', 'no region had 88 degrees with Ra < 1e6 '
     '(IndexError), and vertical plates at 5 < log Ra <= 11 were in two'),
    ('its correlation on log10(Ra)', 'C27', 'the limits of the regions, '
     'powers of ten, were compared with Ra itself'),
    ('surface colder than', 'C27', 'the Nusselt number of a cold surface came '
     'out complex'),
    ('named after the gas', 'C25', 'the shipped gases had the name of a data '
     'file'),
    ('array the root finder supplies', 'C28', 'the Colebrook friction factor '
     'raised TypeError with current numpy for any input'),
    ('Colebrook equation for smooth ducts', 'C28', 'the Colebrook friction '
     'factor raised ValueError for smooth ducts at high Reynolds numbers: the '
     'root finder left the domain of the square root'),
    ('gas mixture models refuse', 'C24', 'gas mixture models raised KeyError '
     'for a state without T or x and ignored unknown quantities'),
    ('loan without interest', 'C17', 'a loan with the default interest rate '
     '(0) raised ZeroDivisionError'),
    ('starts after the run or ends before', 'C16', 'an activity that starts '
     'after the run, or ends before it starts, ran'),
    ('close both accounts', 'C15', 'a transaction between two income '
     'statement accounts was closed for one of them only'),
    ('state amounts in full', 'C31', 'printed, text and LaTeX transaction '
     'lists showed 1234567.89 as 1.23457e+06'),
    ('written object with shared parts', 'C30', 'a business model read back '
     'from a file had a datetime in the place of an account and could not '
     'run'),
    ('number records per phase', 'C29', 'FactSage files in which a phase '
     "begins with the record number of the previous phase's last raised "
     'KeyError'),
    ('create variable groups', 'C32', 'VariableGroup() raised TypeError'),
    ('brackets in their path', 'C29', 'no compound was loaded from a '
     'directory with brackets in its path'),
    ('periods anew for every run', 'C16', 'an activity whose start, end or '
     'model start was changed after a run ran in the periods of the first '
     'run'),
    ('by the mass of the package', 'C08', 'the temperature of a package of '
     'less than about a gram was wrong after heating or mixing, and that of '
     'one of kilotonnes could be nan'),
    ('accounts that have no number', 'C14', 'the structure report of accounts '
     'without a number raised TypeError'),
    ('let a model start at a date', 'C15', 'the years of a model started at a '
     'date raised TypeError, or were closed a day late'),
    ('start and end on a date', 'C16', 'an activity started or ended on a '
     'date raised TypeError when run'),
    ('date given as text', 'C17', 'a loan whose start was given as text could '
     'not be created'),
    ('its new duration', 'C17', 'a loan whose duration was changed was not '
     'repaid, or for longer than it lasts; one of no duration could not be '
     'created'),
    ('written 298', 'C29', 'numbers of a FactSage file that are written 298 '
     'were read as 298.15 when they are not temperatures'),
    ('description given to psd', 'C32', 'psd and slurry materials dropped '
     'their description'),
    ('among the custom properties', 'C11', 'a thermo material with a blank '
     'line among its custom properties raised IndexError'),
    ('to which an assay was added', 'C33', 'printing a thermo material with '
     'custom properties raised KeyError once an assay was added to it'),
    ('keep the columns apart', 'C33', 'printed columns ran together after '
     'names or numbers of twenty characters or more'),
    ('of which none is given', 'C09', 'the enthalpy of a coal stream without a '
     'heating value was not proportional to its mass, and adding to it, '
     'extracting from it or printing it raised TypeError'),
    ('to which a compound is added at a temperature', 'C09', 'adding carbon at '
     'a stated temperature to a coal stream lost its heat of combustion: at '
     'its own temperature the stream became warmer'),
    ('dates and datetimes in one ledger', 'C13', 'the transaction list of a '
     'ledger with both dates and datetimes raised TypeError'),
]
KNOWN = [
    {'id': 'F01', 'property': 'C08', 'match': '_calculate_Hfr_coal',
     'what': 'Material.create_package() on an assay with IsCoal = 1 raises '
     'AttributeError (MaterialPackage._calculate_H calls '
     '_calculate_Hfr_coal, which the class lacks)'},
    {'id': 'F02', 'property': 'C15', 'match': 'Sales/Metal is settled',
     'what': 'the year-end procedure settles sub accounts of Sales and Cost '
     'of Sales in the wrong direction: their balance is doubled (the existing '
     'tests expect it)'},
    {'id': 'F03', 'property': 'C15', 'match': 'income summary is settled',
     'what': 'in a year with a loss the amount of the entry to Retained '
     'Earnings is negative although its accounts are swapped: the loss is '
     'added to Retained Earnings (the existing tests expect it)'},
    {'id': 'F04', 'property': 'C17', 'match': 'number of transactions',
     'what': 'a loan from 2001-02-28 in a monthly run from 2001-01-31 is not '
     'repaid: its end (start plus whole months) is before the last day of the '
     'month on which the run has its period'},
    {'id': 'F05', 'property': 'C24', 'match': 'Daf',
     'what': 'the coal models DafCpTy and DafHTy do not check their state: '
     'calculate() of T = -1 or y_C = 2 returns a number instead of raising '
     'ValidationError'},
    {'id': 'F06', 'property': 'C24', 'match': 'Viscosity',
     'what': 'the slag models do not check their state: calculate() of a '
     'negative T returns a number instead of raising ValidationError'},
]


def main():
    log = [ln.split(' ', 1) for ln in subprocess.run(
        ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True,
        capture_output=True).stdout.splitlines() if ' fix: ' in ln]
    out = [dict(k, status='known') for k in KNOWN]
    used = set()
    for i, (words, pid, what) in enumerate(FIXED):
        hit = [h for h, s in log if any(w in s for w in words.split('|'))]
        assert len(hit) == 1, (words, hit)
        used.add(hit[0])
        out.append({'id': 'R%02d' % (i + 1), 'status': 'fixed',
                    'property': pid, 'commit': hit[0],
                    'what': 'fixed: property=%s %s %s' % (pid, hit[0], what)})
    assert len(used) == len(log), [s for h, s in log if h not in used]
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')


main()
