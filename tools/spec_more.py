LEVEL = {}
NA_MORE = {}
F = 'auxi/modelling/financial/'
BUS = 'auxi/modelling/business/'
prop('C12', 'Balance sheet and income statement are those of the transactions',
     """For every ledger the balance sheet gives each asset, liability and
     equity account the sum of its debits and credits up to the end date, and
     the income statement each revenue and expense account that of the period,
     with correct signs and totals.  So total assets equal liabilities plus
     equity plus the net income of the statement up to the same date.
     Reporting does not change the ledger.""",
     'inputs configurations', 'all amounts, all pairs of accounts of every '
     'type and depth, all dates and limits; ledgers of up to 180 transactions',
     'Tests report on one fixed ledger and look at part of the text.',
     [F + 'reporting.py', F + 'des.py'],
     [('sums per account', F + 'reporting.py'),
      ('account lookup and types', F + 'des.py')])
prop('C13', 'Reports cover exactly the transactions asked for, in date order',
     """The transaction list shows every transaction within the date limits
     (both included) and of the component asked for or a component below it,
     and no others, in order of date, with its own accounts, source and
     amount, and the total of the amounts shown.  The income statement of a
     component is that of the same transactions.""",
     'inputs', 'all dates, limits, amounts and component names; ledgers of up '
     'to 250 transactions',
     'Tests report on one fixed ledger without filters.',
     [F + 'reporting.py'], [('date and component filter', F + 'reporting.py')])
prop('C14', 'Accounts are found at their paths, whatever their names',
     """In a tree of accounts with any names, each account has the path of its
     parent and its name, also after any of them is renamed, has the type of
     its top account, and is what a lookup of its path gives; a path that is
     not in the tree gives None and is refused by validation.  Removal takes
     away exactly the account named, and descendants and the structure report
     list each account once.""",
     'inputs histories', 'all names that do not contain a slash (any pattern '
     'of equal and different names), trees of 3 accounts below any top '
     'account, and one of 132',
     'Tests look up a few fixed names.', [F + 'des.py', F + 'reporting.py'],
     [('account paths and lookup', F + 'des.py')])
prop('C15', 'Closing a year settles its accounts and retains its net income',
     """At the end of each completed year of a run every income and expense
     account that had transactions is brought to zero by entries dated in the
     last second of that year, other accounts are left alone, and Retained
     Earnings grows by the year's net income.  The income statement of a year
     is not affected by its closing, unfinished years are not closed, and a
     second run leaves the same books.""",
     'inputs histories', 'all amounts, run starts and account combinations in '
     'the stated shapes of 1 to 3 years',
     'Tests close one year of one fixed set of transactions.',
     [BUS + 'structure.py'], [('year-end procedure', BUS + 'structure.py')])
prop('C16', 'Activities run in exactly the periods that start and end allow',
     """A basic activity with a positive amount makes one transaction of that
     amount, between its accounts and dated with the period, in every period
     that its start, its end and its interval make it due, and none in any
     other; an activity without a positive amount makes none.""",
     'inputs schedules', 'all starts, ends, amounts and run starts in the '
     'stated ranges, intervals 1 to 4 (thorough: 13), up to 6 (thorough: 13) '
     'periods; runs of 30 to 3000 periods with listed starts and ends',
     'Tests use one fixed start and end on the first of a month.',
     [BUS + 'structure.py', BUS + 'basic.py'],
     [('first and last period', BUS + 'structure.py'),
      ('basic activity', BUS + 'basic.py')])
prop('C17', 'A loan is repaid with interest in equal monthly payments',
     """A loan is paid out once, in the first month after its start; in each of
     the following months, as many as its duration, interest on what is still
     owed and one and the same payment are entered, after which nothing is
     owed.  Changing amount, rate or duration changes the payments accordingly,
     and a second run is like the first.""",
     'inputs schedules', 'all amounts, rates from 0 to 1 per year, starts on '
     'any day, durations of 1 to 8 (thorough: 24) months and of 60 to 361',
     'Tests look at two months of one loan.', [BUS + 'basic.py'],
     [('monthly payment', BUS + 'basic.py'),
      ('loan, interest and payment transactions', BUS + 'basic.py')])
prop('C18', 'The clock steps through periods of the length it was given',
     """Period ix of a clock begins ix periods of its duration after its start:
     exactly so for milliseconds to weeks, and for months and years in the
     month that many months later, on the same day or the last of a shorter
     month, at the same time of day.  Period 0 is the start, later periods are
     later, tick advances by one and reset goes back to the start.""",
     'inputs histories', 'every start to the second from 1890 to 2110, period '
     'indices up to 2000, or 250 years, histories of 6 ticks and resets',
     'Tests use one start and a few indices.', ['auxi/core/time.py'],
     [('datetime at a period index', 'auxi/core/time.py')])
prop('C19', 'A model run executes every activity of its tree once per period',
     """In a run of a model every activity of every component, at any depth, of
     every entity runs once in each period, in its own entity's ledger and
     under the path made of the names above it, also after renaming; what was
     removed does not run and nothing else is removed.  Every run starts
     afresh, and activities on accounts that do not exist are refused.""",
     'inputs histories', 'all names without slash and all amounts; trees of 3 '
     'components or entities, up to 5 periods and 3 runs; a model of 12 entities '
     'and 228 components',
     'Tests run one fixed model once.',
     [BUS + 'models.py', BUS + 'structure.py'],
     [('run loop', BUS + 'models.py'),
      ('entity and component tree', BUS + 'structure.py')])
PH = 'auxi/tools/materialphysicalproperties/'
TR = 'auxi/tools/transportphenomena/'
prop('C20', 'The ideal gas models follow the ideal gas law',
     """For every temperature, pressure, molar mass and composition the density
     from each of the three ideal gas models is P M / (R T), with the molar
     mass of a mixture the mean over its mole fractions, and the thermal
     expansion coefficient is 1/T.  The models agree with each other, are not
     affected by earlier calls and leave the composition passed to them as it
     was; states that are incomplete or of negative temperature or pressure are
     refused.""",
     'inputs', 'all T, P, molar masses and mole fractions in the stated ranges',
     'Tests evaluate one or two states of each model.', [PH + 'idealgas.py'],
     [('density and expansion models', PH + 'idealgas.py')])
prop('C21', 'Gas mixture viscosity and heat capacity follow their mixing rules',
     """The Wilke and the Herning-Zipperer viscosity of a mixture are those of
     the published equations in the pure viscosities at the temperature, and the
     heat capacity is the one per mass of the mixture.  So a pure gas has its own
     value, the order of the gases and the scale of a split into equal gases do
     not matter, the value is between the extremes of the pure gases where the rule
     says so, and the composition passed is not changed.""",
     'inputs', 'all mole fractions, all pure viscosities and heat capacities, '
     'all T in the stated range, mixtures of 1 to 4 of the shipped gases '
     '(all 7 for the linear rules)',
     'Tests evaluate one mixture at a few temperatures.', [PH + 'gases.py'],
     [('Wilke, Herning-Zipperer and ideal Cp models', PH + 'gases.py')])
prop('C22', 'Slag viscosity models follow Urbain and Riboud for any slag',
     """For every temperature and composition of the 14 oxides and fluorides the
     viscosity is that of the published model: groups of glass formers,
     modifiers and amphoterics (Urbain) or of single cation equivalents (Riboud) are
     formed with the right members and factors.  Mass fraction models give
     what the mole fraction models give for the same slag, order and earlier
     calls do not matter, and the composition passed is not changed.""",
     'inputs', 'all compositions of 9 slag systems and of all 14 components '
     'at once, all T in the stated range',
     'No test covers these models.', [PH + 'slags.py'],
     [('Urbain and Riboud models', PH + 'slags.py')])
prop('C23', 'Coal heat capacity and enthalpy are consistent',
     """For every temperature and elemental composition of a dry ash-free coal
     the heat capacity is the derivative of the enthalpy, both are those of
     Merrick's equations for the mean atomic weight and positive, both blend
     linearly in the coal's mass, and do not depend on earlier calls.""",
     'inputs', 'all T in [100, 4000] K and all mass fractions',
     'No test covers these models.', [PH + 'coals.py'],
     [('heat capacity and enthalpy of daf coal', PH + 'coals.py')])
prop('C24', 'Property models are valid for exactly the states they accept',
     """A polynomial model is the polynomial of its coefficients; one created
     from a data set is the least squares fit of its degree and is valid in exactly
     the temperature range of the data.  The shipped polynomials accept exactly
     the range of the data they were made from.  Models refuse with
     ValidationError a state with a missing quantity, one of another type, a
     negative temperature or a quantity that is not part of the state.""",
     'inputs', 'all coefficients, data values and temperatures; each way to '
     'spoil a state for each model',
     'Tests evaluate each model at one or two states.',
     [PH + 'polynomial.py', PH + 'core.py', PH + 'gases.py', PH + 'slags.py',
      PH + 'coals.py'],
     [('polynomial model and its fit', PH + 'polynomial.py'),
      ('validation of the state', PH + 'core.py')])
prop('C25', 'Physical properties of materials and shipped fluids',
     """A material gives each property from the model it was given; without one
     alpha is k/(rho Cp), nu is mu/rho, and others raise NotImplementedError,
     for every combination of given models and without one material affecting
     another.  A data set contains what its file contains.  Every property of
     the 9 shipped fluids lies, for every temperature in the range of its data
     set, between the two neighbouring data but for a few per cent.""",
     'inputs configurations', 'all 128 subsets of models, all T in the range '
     'of the data of each fluid',
     'Tests evaluate a few properties at a few temperatures.',
     ['auxi/modelling/process/materials/core.py', PH + 'gases.py',
      PH + 'liquids.py', PH + 'core.py'],
     [('property defaults', 'auxi/modelling/process/materials/core.py'),
      ('shipped gases', PH + 'gases.py'), ('shipped water', PH + 'liquids.py'),
      ('data set reader', PH + 'core.py')])
prop('C26', 'Dimensionless numbers follow their definitions',
     """Gr, Pr, Re, Ra, Nu and Sh are those of their definitions for all
     arguments, positional or named, and Ra = Gr Pr also with the default
     gravity, which is standard gravity.""",
     'inputs', 'all arguments in wide ranges',
     'Tests evaluate each at one point.', [TR + 'dimensionlessquantities.py'],
     [('the six functions', TR + 'dimensionlessquantities.py')])
prop('C27', 'Natural convection selects one correlation for every surface',
     """For every angle from -90 to 90 degrees, hot or cold surface, gas or
     liquid and every Rayleigh number, the local Nusselt number is that of
     exactly the correlation of the region the surface is in, with fluid properties
     at the reference temperature and gravity reduced by the angle where it is; a
     cold surface is like the hot one upside down.  Average and local
     coefficients are consistent (h = Nu k/L, average = local/0.75) and do not
     depend on earlier calls.""",
     'inputs', 'all angles, temperatures, lengths and fluid properties in the '
     'stated ranges',
     'Tests evaluate a few angles; the ones beyond one point fail on the base.',
     [TR + 'heattransfer/naturalconvection.py'],
     [('regions and correlations', TR + 'heattransfer/naturalconvection.py')])
prop('C28', 'Friction factors and pressure drop satisfy their equations',
     """For all Reynolds numbers and roughnesses the laminar, smooth, Haaland and
     Colebrook friction factors satisfy their equations, the hydraulic diameter
     is 4A/P, and the pressure drop is f L/D rho v2/2, additive in length.
     The warning about the range of validity does not change the result.""",
     'inputs', 'all Re, roughness, diameter, length, density and velocity in '
     'wide ranges',
     'No test covers this module.', [TR + 'fluidflow/pressuredrop.py'],
     [('friction factors and pressure drop', TR + 'fluidflow/pressuredrop.py')])
prop('C29', 'Compound data files give the compounds they describe',
     '''A compound read from a FactSage file has the phases, formation enthalpies,
     entropies and heat capacity records of the file, whatever the numbers and
     however records and terms are spread over lines, so that its Cp, H, S and
     G are those of the same data given directly.  Written to an auxi file and
     loaded it is the same compound, magnetic data included, any number of times.
     Loading a directory gives the compounds of its files and no others.''',
     'inputs configurations', 'files of up to seven phases, twelve records '
     'and seven terms; every number',
     'No test reads a FactSage file or writes an auxi file.',
     ['auxi/tools/chemistry/thermochemistry.py'],
     [('file readers and writers', 'auxi/tools/chemistry/thermochemistry.py')])
prop('C30', 'A saved object is restored as it was',
     '''What was written to a file with write() is, once read back, what it was:
     a business model runs to the same transactions, again and after
     further changes, whether it was written before or after a run and whether its
     entities share an account structure; ledgers, account structures, clocks,
     material property models and materials give the same values and reports.''',
     'histories', 'models of two entities with nested components of any names, '
     'activities and loans of any amounts; one or two writes',
     'Tests write single objects and look at the text.',
     ['auxi/core/objects.py', 'auxi/modelling/business/models.py',
      'auxi/modelling/business/structure.py'],
     [('write and read', 'auxi/core/objects.py'),
      ('models', 'auxi/modelling/business/models.py'),
      ('ledger', 'auxi/modelling/financial/des.py')])
prop('C31', 'A report says the same in every format',
     '''The printed, text, LaTeX, string and csv forms of a report, to a file or to
     the console, have the same rows: every amount in full, to the cent,
     and every name and description as given, also when it looks like a number or
     has characters LaTeX reserves.''',
     'inputs formats', 'amounts from a cent to 1e9, negative ones; 14 texts',
     'Tests look at the format of one small table.',
     ['auxi/core/reporting.py', 'auxi/modelling/financial/reporting.py'],
     [('rendering', 'auxi/core/reporting.py'),
      ('tables', 'auxi/modelling/financial/reporting.py')])
prop('C32', 'Modelling objects keep what they are given, each its own',
     '''Variables and variable groups return the value they were given or were
     last set to, with their units, category and description; the
     parameters and variables of a process model are its own; a transaction has
     what it was created with and is in the ledger it was created in only; a
     material has its name, description, state, property models and the assays
     of its file, and an assay added to one is not in another.''',
     'inputs', 'any values, every combination of optional arguments',
     'Tests construct one object of a few of the classes.',
     ['auxi/modelling/core.py', 'auxi/modelling/process/core.py',
      'auxi/modelling/financial/des.py',
      'auxi/modelling/process/materials/core.py',
      'auxi/modelling/process/materials/psd.py',
      'auxi/modelling/process/materials/slurry.py'],
     [('variables', 'auxi/modelling/core.py'),
      ('process models', 'auxi/modelling/process/core.py'),
      ('transactions', 'auxi/modelling/financial/des.py')])
prop('C33', 'Printed materials, packages and phases state what they contain',
     '''Printing a material gives every mass fraction, density, water fraction,
     total and custom property in its row and in the column of its assay, each
     readable apart from its neighbours, for the assays of the file and for
     those added later. Printing a package or stream gives its mass, amount,
     pressure, temperature, enthalpy, fractions and the mass of every row, and
     printing a phase its reference values and its heat capacity records, as
     they are.''',
     'inputs', 'any contents; five kinds of package, four of material; long '
     'numbers and names',
     'Tests print nothing, or look at the text of one object.',
     ['auxi/modelling/process/materials/chem.py',
      'auxi/modelling/process/materials/psd.py',
      'auxi/modelling/process/materials/slurry.py',
      'auxi/modelling/process/materials/thermo.py',
      'auxi/tools/chemistry/thermochemistry.py'],
     [('tables of materials', 'auxi/modelling/process/materials/thermo.py'),
      ('tables of packages', 'auxi/modelling/process/materials/slurry.py')])
DETAIL = {
    'C01': '''Symbolic: every subscript (integers 0/1 to 999; to 9999999 in `large`) in 40 shapes
covering nesting to depth 6, hydrates, up to 30 elements, phase suffixes and look-alike symbols,
and pairs covering all 111 elements.  Digits are symbolic characters of the
text, so the parser itself runs.  Oracle: coefficients by hand per shape, own
table of atomic masses.  Outside: deeper nesting, subscripts of more than 7
digits.  About 2 s.''',
    'C02': '''Symbolic: masses, amounts, fractions (1 to 17 compounds), subscripts
for element fractions.  Oracle: definitions over own atomic masses.  About
3 s.''',
    'C03': '''Symbolic: coefficients, record boundaries, temperature, mass,
magnetic parameters, and in one scenario the exponent.  Exponents otherwise
from a list with the special cases 0, -1 and -2.  Oracle: dual-number
derivative of the code's own H and S against its Cp; reference values at
298.15 K; invariance under splitting a record; the magnetic part against the
published equations of Hillert, Jarl and Dinsdale (`published`).  `many_records`: 7 records of up to 6 terms
between fixed temperatures.  Thorough: 3 records between any.  About 5 s.''',
    'C04': '''Symbolic: temperature (per record and above the last) and mass, for
every compound and phase of the two shipped databases.  Oracle as C03 plus
proportionality.  Outside: the accuracy of the data.  About 6 s.''',
    'C05': '''Symbolic: compound masses and factors.  Oracle: a ledger kept by the
scenario.  Histories: all sequences of 2 (thorough 3) of 13 operations over
three packages.  About 3 s (thorough 35 s).''',
    'C06': '''As C05 for size classes (five, one of them 0.445 micrometres).  About 3 s (thorough 35 s).''',
    'C07': '''As C05, with water, solid densities and volumes; ratios are checked
cross-multiplied.  About 4 s (thorough 60 s).''',
    'C08': '''Symbolic: masses, P, T, set enthalpies, factors.  Three compounds
with constant heat capacity are put in the public table, so enthalpy is linear in T
and the secant iteration's result is exact; `piecewise` drives the iteration
through a heat capacity jump with concrete steps; `sizes` has packages of 1e-9
to 1e9 kg of a compound with a rising heat capacity; `shipped` uses the
shipped data at one temperature.  Oracle: ledger of masses and enthalpy.  About 30 s.''',
    'C09': '''As C08 for streams, and coal streams (heating value symbolic,
or that of the elements).  About 75 s.''',
    'C10': '''All combinations of kind, way to derive and later change; contents
symbolic.  Oracle: snapshots taken before.  About 45 s.''',
    'C11': '''Symbolic: the numbers in the material file (symbolic tokens that the
reader converts), masses, P, T.  Oracle: composition from those numbers.
`large_files`: 9 assays, up to 19 rows, numbers written in 12 forms.  About 4 s.''',
    'C12': """Symbolic: amounts, dates, limits.  Enumerated: 132 pairs of 12
accounts.  The reports are read back from the CSV files the code writes, where
symbolic numbers are tokens.  Amounts of either sign, and transactions alike
but for the amount, are included.  Oracle: a ledger of debits and credits kept by
the scenario.  Tolerance: 0.03 (amounts are printed to the cent).  `many`: 180
transactions.  About 15 s.""",
    'C13': """Symbolic: dates, limits, amounts, and names of components as integers
selecting from a pool (`symx/symtext.py`; the code only compares names, so a
pool larger than the number of names covers all of them).  Oracle: an own
filter and insertion sort.  Texts of up to 60 characters have to be shown in full (`long_texts`).
`many`: 250 transactions of 30 sources.
Outside: a list that mixes dates and datetimes.  About 9 s.""",
    'C14': """Symbolic: all names, as in C13, with existing account names in the
pool.  Oracle: an own table of parents and names.  Outside: two sub accounts of
one name under the same parent.  `numbered`: account numbers, or none, in the
structure report.  `large`: 132 accounts, 12 deep and 40 wide.  About 11 s.""",
    'C15': """Symbolic: amounts, start of the run to the second.  Oracle: balances of
the transactions before and after.  The two recorded findings concern the
direction of the entries for sub accounts of Sales and Cost of Sales, and of
the last entry in a year with a loss; the amounts, dates, number and accounts
of those entries are still decided (`sales`).  Runs started at a text date or a date (`from_date`) close like those started
at a datetime.  Outside: the last year of a run is never closed.  About 26 s.""",
    'C16': """Symbolic: start, end (to the day or second), start of the run, interval,
amount.  Oracle: the schedule written as a condition on the period dates
(function `periods`): strictly after the start; not in the last interval
before the end; an activity without end has as many periods as the run.  Starts
and ends given as text, date or datetime (`kinds`) mean the same.  `long_runs`:
up to 3000 periods and intervals up to 1000.  About 50 s.""",
    'C17': """Symbolic: amount, rate (as a polynomial up to degree 24; 12 concrete rates
for 60 months; for 61, 121 and 361 months rates whose monthly value is dyadic), start of run and loan.  Oracle: a running balance.  Outside:
intervals other than one month, runs from a day of month later than 27 (F04).
Starts given as text, date or datetime (`kinds`).  About 34 s.""",
    'C18': """Symbolic: start (year, month, day, second) and index.  Oracle: elapsed
seconds by day number; calendar fields for months.  Outside: timestep_period_count,
which the code ignores.  About 3 s.""",
    'C19': """Symbolic: names (as C14), amounts, start.  Oracle: counts and paths from an
own table of the tree.  `large`: 12 entities, 228 components, 456
activities.  About 14 s.""",
    'C20': """Symbolic: T, P, molar mass, mole fractions.  Oracle: rho R T = P M with
own atomic masses.  About 2 s.""",
    'C21': """Symbolic: mole fractions and T; the viscosity and heat capacity of the
pure gases are replaced by free inputs or, in other scenarios, are the shipped
polynomials in T.  Square roots of molar masses are enclosed to 1e-13.  Oracle:
the equations of Wilke and Herning-Zipperer.  Four gases with concrete pure
viscosities, all seven for the rules linear in them.  Outside: Wilke for more
than 4 gases.  About 15 s.""",
    'C22': """Symbolic: all fractions and T.  Oracle: own tables of groups and factors
for each component and the published polynomials; exponentials are compared
through their arguments.  The coefficient 234.0846 of Urbain's B2 could not be
checked against the publication (some sources print 234.0486); the check uses
the one of the code.  About 3 s.""",
    'C23': """Symbolic: T and 5 mass fractions.  Oracle: dual-number derivative of the
code's own enthalpy, and Merrick's two Einstein terms.  About 1 s.""",
    'C24': """Symbolic: coefficients, ordinates of the data (the fit is linear in them),
T, and the quantities of invalid states.  Oracle: Horner sum; normal equations
of least squares.  Slag and coal models do not check their state: recorded.
About 3 s.""",
    'C25': """Symbolic: T within each interval of the data, properties that are lines of T
and P.  Oracle: the CSV files, read by the scenario; univariate polynomial
inequalities of degree up to 11 per interval.  The report template of a
material and repeated states are included.  Thorough adds alpha and nu of the
fluids.  About 6 s.""",
    'C26': """Symbolic: every argument.  Oracle: definitions.  Under 1 s.""",
    'C27': """Symbolic: angle (in `sweep` and `mirrored`; 17 values in `angles`), L, Tf,
Ts-Tf, properties of the fluid (as constants or lines of T).  Comparisons of
log10(Ra) are decided on Ra itself; the regions' feasibility by sampled inputs or
the solver.  Oracle: an own table of angle ranges and correlations.  About
135 s.""",
    'C28': """Symbolic: every argument.  The root finder is replaced by its contract (a
positive root of the function it is given), so what is decided is the equation it is
asked to solve; its convergence is only seen in the replays.  About 2 s.""",
    'C29': """Symbolic: every number of the file (in the text, the number literal that
stands for it), T, mass.  Layouts (12, up to 7 phases, 12 records, 7
terms) are enumerated.  Oracle: the polynomial of
each record, and a compound made from the same numbers; the listing of the
loaded compounds and the reference of each.  About 3 s.""",
    'C30': """Symbolic: names, amounts, coefficients, states.  jsonpickle runs as it is;
in the text a symbolic number is a number literal of its own.  Oracle: the object
that was not written.  Outside: packages, material streams and data
sets (they print as tables), surfaces of C27 (their bound methods do not survive), and
dates (concrete).  About 4 s.""",
    'C31': """Symbolic: amounts.  tabulate and csv run as they are; the scenario parses
each output.  Oracle: the csv file and the ledger.  Outside: names with line
breaks or leading and trailing spaces.  About 3 s.""",
    'C32': """Symbolic: values.  Oracle: what was given.  Ledger templates used
more than once, and groups, are included.  Materials of the four file formats
and of property models are made in pairs.  About 10 s.""",
    'C33': """Symbolic: every number in the text (a symbolic number prints as a
token that reads back as itself, so the text's layout is the code's own), and
one long concrete number and names as wide as a column, which touch their
neighbours if nothing separates them.  Oracle: the numbers given, at the nine
digits printed, in the order of the sorted assays.  Outside: exact spacing and
headings.  About 3 s.""",
}
