"""The properties, and how each is claimed."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note,
      na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na))


P('S01', 'Formula parsing conserves atoms: molar mass is the sum of its parts',
  'For every well-formed chemical compound formula (nested groups, integer '
  'multipliers, hydrates, phase suffix), the molar '
  'mass, elements, stoichiometry coefficients and element mass fractions are '
  'exactly those of the atoms the formula denotes. Mass fractions are '
  'non-negative and sum to one, and are independent of how the same '
  'composition is written.',
  ['inputs'], 'all formulas of the grammar: any nesting, multiplicity, '
  'hydrate part and phase suffix',
  'The grammar is infinite; the tests sample some dozens of mostly flat '
  'formulas and never compare two ways of writing the same composition.',
  ['auxi/tools/chemistry/stoichiometry.py'],
  [('formula parser', '_formula_code_'),
   ('molar_mass, elements, stoichiometry_coefficients, '
    'element_mass_fractions', 'auxi/tools/chemistry/stoichiometry.py')],
  'hypothesis: formulas generated from a syntax tree, independent atom count '
  'as oracle, metamorphic rewriting',
  'Assumes the standard atomic weights of the tree the check was written '
  'for; nesting and multiplicities bounded by the generator.')

P('S02', 'Amounts, masses and conversions are linear, inverse and conserving',
  'Converting between amount and mass is linear in the quantity and the two '
  'directions are inverse. Converting a compound into another conserves the '
  'mass of the chosen element, is linear in the mass and undone by the '
  'reverse conversion. Batch versions agree with the single ones.',
  ['inputs'], 'all compounds, all pairs of compounds that share an element, '
  'all quantities',
  'Tests pin single conversions; conservation and inversion quantify over all '
  'pairs of compounds, elements and masses.',
  ['auxi/tools/chemistry/stoichiometry.py'],
  [('amount, mass, amounts, masses, convert_compound',
    'auxi/tools/chemistry/stoichiometry.py')],
  'hypothesis: generated formula pairs and quantities; conservation, '
  'round-trip and linearity relations',
  'Quantities between 1e-6 and 1e9; formulas as in S01.')

P('T01', 'Thermochemical Cp, H, S and G of a phase are mutually consistent',
  'For every compound and phase, heat capacity, enthalpy, entropy and Gibbs '
  'energy at any temperature are those of the stored record coefficients and '
  'reference values: enthalpy and entropy are the integrals of heat capacity '
  'and its quotient by temperature, with G = H - TS, continuous across record '
  'boundaries, and extrapolated with constant heat capacity above the last '
  'record. The mass-based functions scale with the molar mass and the mass.',
  ['inputs', 'configurations'],
  'all compounds and phases of the default data and all generated '
  'ones (any records, exponents, magnetic parameters), all temperatures',
  'Tests evaluate a handful of compounds at fixed temperatures; consistency '
  'is over every temperature, record layout and exponent.',
  ['auxi/tools/chemistry/thermochemistry.py'],
  [('CpRecord and Phase Cp/H/S/G, magnetic contributions',
    'auxi/tools/chemistry/thermochemistry.py')],
  'hypothesis: generated phases and all shipped compounds against an '
  'independent reference, plus quadrature of the returned heat capacity',
  'Relative tolerances 1e-9 (closed form) and about 1e-6 (quadrature).')

P('T02', 'Thermochemical data survives export, import and file conversion',
  'Writing a compound to a data file and reading it back yields the same '
  'compound, phase and record data and hence the same properties at every '
  'temperature, and converting a FactSage text file keeps every number in it '
  'with the right compound, phase and record.',
  ['inputs'], 'all compounds: any number of phases, records, terms and any '
  'coefficient values',
  'The tests convert the shipped files; the guarantee is over any data file.',
  ['auxi/tools/chemistry/thermochemistry.py'],
  [('write_compound_to_auxi_file, load_data_auxi, load_data_factsage',
    'auxi/tools/chemistry/thermochemistry.py')],
  'hypothesis: generated compound files, write/read round trip and an '
  'independent reading of the generated FactSage text',
  'FactSage layout as shipped with the package.')

P('C01', 'The clock keeps calendar time: start plus whole periods',
  'The time of a clock, and of any period it is asked about, is its start '
  'moved by a whole number of its periods, counted on the calendar (months '
  'and years keep the day of month where it exists). Ticking advances it by '
  'one time step, resetting returns it to the start, asking never changes '
  'it.',
  ['inputs', 'histories'], 'all starts, period types, indices and histories '
  'of ticks, resets and questions',
  'Tests use one start on the first of a month; month ends, leap days and '
  'histories are never reached.',
  ['auxi/core/time.py'],
  [('Clock.tick, reset, get_datetime, get_datetime_at_period_ix',
    'auxi/core/time.py')],
  'hypothesis: generated clocks and tick/reset histories against independent '
  'calendar arithmetic (model-based)',
  'Naive datetimes between 1900 and 2100. Known finding: time steps of more '
  'than one period.')

P('C02', 'Objects written to a file and read back are the same objects',
  'Any object of the framework (clocks, models, entity trees, activities, '
  'charts of accounts, ledgers, materials, before or after a run) written to '
  'a file and read back has the same type, attributes, structure and shared '
  'references, prints the same, gives the same reports, and behaves the same '
  'when it is used further.',
  ['inputs', 'histories'], 'all object graphs, including shared and cyclic '
  'references, and all states reached by using the objects',
  'Tests write one fresh object of a class and read it back without '
  'comparing its behaviour.',
  ['auxi/core/objects.py', 'auxi/core/time.py',
   'auxi/modelling/business/structure.py',
   'auxi/modelling/business/models.py',
   'auxi/modelling/financial/des.py'],
  [('Object.write, Object.read', 'auxi/core/objects.py')],
  'hypothesis: generated object graphs, models and ledgers; write/read round '
  'trip with differential continuation',
  'Compares public attributes, printed text, reports and further runs.')

P('C03', 'Every report format shows the same, complete table',
  'A report shows the same rows and the same unrounded values whether it is '
  'rendered as a plain text, csv or latex table, returned as a string, '
  'printed or written to a file. No row, digit or account is lost in any of '
  'them.',
  ['inputs', 'configurations'],
  'all reports, output formats and table contents',
  'Tests only check that rendering does not fail.',
  ['auxi/core/reporting.py', 'auxi/modelling/financial/reporting.py'],
  [('Report.render, _tabulate_, csv and latex output',
    'auxi/core/reporting.py')],
  'hypothesis: generated reports, every format parsed back and compared '
  'cell by cell (differential)',
  'Texts without line breaks or column separators.')

P('F01', 'The account tree is found, named, listed and edited consistently',
  'Every account has the path that leads to it from the top, is found by '
  'that path and by no other, and appears among the descendants of its '
  'ancestors and in the structure report, ordered by number, exactly once. '
  'Creating, renaming and removing accounts (siblings have distinct names) '
  'keeps this true at every level below, and leaves every other account, its '
  'type, number and description as they were. A name that leads to no '
  'account finds nothing, and is what makes a validation of names fail.',
  ['histories'], 'all account trees and all sequences of operations on them',
  'Tests check one small tree after single operations.',
  ['auxi/modelling/financial/des.py', 'auxi/modelling/financial/reporting.py'],
  [('GeneralLedgerStructure, GLAccount', 'auxi/modelling/financial/des.py'),
   ('GeneralLedgerStructureReport',
    'auxi/modelling/financial/reporting.py')],
  'hypothesis: operation sequences on account trees against a reference tree '
  '(model-based)',
  'Trees of up to some dozens of accounts.')

P('F02', 'The ledger records transactions as given and stays in balance',
  'A ledger holds every transaction created in it and no other, in order, '
  'with the name, description, date, accounts, source, amount and flags '
  'given, and reporting does not change it. Debits equal credits, so that '
  'assets equal liabilities plus equity plus the income to date. Activities '
  'on accounts that do not exist are rejected without effect.',
  ['inputs', 'histories'], 'all ledgers and sequences of transactions',
  'Tests record a few transactions with fixed amounts.',
  ['auxi/modelling/financial/des.py', 'auxi/modelling/financial/reporting.py'],
  [('GeneralLedger.create_transaction, Transaction',
    'auxi/modelling/financial/des.py')],
  'hypothesis: generated ledgers; accounting-identity invariants and record '
  'equality',
  'Amounts up to 1e9.')

P('F03', 'A transaction list shows exactly the transactions of its period',
  'The transaction list report shows each transaction from its start to its '
  'end date, both included, and of the selected component, exactly once, '
  'sorted by date, with its accounts and amount, and no other.',
  ['inputs', 'configurations'],
  'all ledgers, date ranges, date types and component paths',
  'Tests use one ledger with one range; the boundary dates and component '
  'paths are not compared.',
  ['auxi/modelling/financial/reporting.py'],
  [('TransactionList', 'auxi/modelling/financial/reporting.py')],
  'hypothesis: generated ledgers and selections against a reference filter',
  'Up to some dozens of transactions in a ledger.')

P('F04', 'Balance sheet and income statement add up the transactions',
  'For any ledger, period and component, every line of a balance sheet or '
  'income statement is the signed sum of the matching transactions of that '
  'account, group totals are the sums of their lines, and net income is '
  'revenue less expenses.',
  ['inputs', 'configurations'],
  'all ledgers, date ranges, account trees and component paths',
  'Tests check one ledger; signs, order and boundary dates are combinatorial.',
  ['auxi/modelling/financial/reporting.py'],
  [('BalanceSheet, IncomeStatement',
    'auxi/modelling/financial/reporting.py')],
  'hypothesis: generated ledgers against an independent accumulation and '
  'order-independence relations',
  'Up to some dozens of transactions in a ledger.')

P('B01', 'Activities run in exactly the periods of their schedule',
  'An activity takes place once in each whole interval of periods, counted '
  'from the start of the run, that lies between its start and its end, and '
  'in no other period, whatever the clock and the length of the run. The '
  'schedule is that of its settings at the time of the run: earlier settings '
  'and runs leave no trace.',
  ['inputs', 'configurations'],
  'all starts, ends, intervals, repetitions, clocks and run lengths',
  'Tests prepare a few fixed schedules.',
  ['auxi/modelling/business/structure.py',
   'auxi/modelling/business/basic.py'],
  [('Activity.prepare_to_run, _meet_execution_criteria',
    'auxi/modelling/business/structure.py')],
  'hypothesis: generated schedules and clocks against a reference schedule',
  'Up to some hundred periods.')

P('B02', 'Entities, components and activities form a consistent tree',
  'Every entity, component and activity has the path that leads to it, is '
  'found under its name in its parent and nowhere else, and takes part in a '
  'run once, in order of creation, the parts of a component before its own '
  'activities. Creating, renaming and removing them (siblings have distinct '
  'names) keeps this true at every level below and leaves the others as they '
  'were.',
  ['histories'], 'all trees and all sequences of operations on them',
  'Tests check single operations on one tree.',
  ['auxi/modelling/business/structure.py',
   'auxi/modelling/business/models.py', 'auxi/core/objects.py'],
  [('Entity, Component, TimeBasedModel',
    'auxi/modelling/business/structure.py')],
  'hypothesis: operation sequences against a reference tree (model-based)',
  'Trees of up to some dozens of nodes.')

P('B03', 'A run posts exactly the transactions its activities describe',
  'After a run, the ledger of each entity contains exactly the transactions '
  'its activities describe, in period order, with the dates, accounts, '
  'source component, and amounts set; amounts scale linearly. Reports of a '
  'component show exactly those of its activities.',
  ['inputs', 'histories'], 'all entity trees, activities and run lengths',
  'Tests run one activity at a time for one period.',
  ['auxi/modelling/business/basic.py',
   'auxi/modelling/business/structure.py'],
  [('BasicActivity.run', 'auxi/modelling/business/basic.py')],
  'hypothesis: generated models against a reference simulation',
  'Up to some dozens of components and periods.')

P('B04', 'A loan is paid off by its schedule, interest included',
  'A loan is received once, in the first period after its start. In each '
  'following period of its term, interest of a twelfth of the annual rate on '
  'what is owed is added to the loan and the annuity of amount, rate and '
  'duration is paid. After a run of the whole term nothing is owed any more '
  'and nothing further is posted, with the terms the loan has at the time of '
  'the run.',
  ['inputs'], 'all amounts, rates, durations, intervals and starts',
  'Tests check one loan for a few periods.',
  ['auxi/modelling/business/basic.py'],
  [('BasicLoanActivity', 'auxi/modelling/business/basic.py')],
  'hypothesis: generated loans against an independent amortisation schedule',
  'Rates up to 60 % a year, terms up to some hundred periods.')

P('B05', 'Year end closes the income accounts and keeps the income intact',
  'At the end of each year of a run but the last, every revenue and expense '
  'account with a balance for that year is closed once, sales and cost of '
  'sales to gross profit, the others and gross profit to the income summary, '
  'and that to retained earnings. The closing transactions are posted at the '
  'last second of the year, marked as closing and named after the account '
  'they settle, have the exact amounts of '
  'that year, and leave the income accounts at zero, the balance sheet in '
  'balance, and the net income reported for the year as it was.',
  ['inputs', 'histories'], 'all ledgers, account trees, run lengths and '
  'numbers of years',
  'Tests check the posted transactions of one year with one account each.',
  ['auxi/modelling/business/structure.py'],
  [('Entity.perform_year_end', 'auxi/modelling/business/structure.py')],
  'hypothesis: generated models over several years against a reference '
  'closing',
  'Known findings: gross profit and loss years post with reversed sign '
  '(both pinned by the tests). Income tax is a step that does nothing.')

P('B06', 'Model runs are repeatable, independent and complete',
  'Running a model visits every period once, from the start of its clock, '
  'for the number of periods asked. Running it again gives the same ledgers, '
  'edits between runs act as if made before the first run, and entities and '
  'models do not influence each other.',
  ['histories'], 'all models and sequences of runs, resets and edits',
  'Tests run a model once.',
  ['auxi/modelling/business/models.py',
   'auxi/modelling/business/structure.py'],
  [('TimeBasedModel.run, prepare_to_run',
    'auxi/modelling/business/models.py')],
  'hypothesis: run/edit/rerun sequences, differential against a fresh model',
  'Up to some dozens of periods.')

_mat = 'auxi/modelling/process/materials/'
_hist = ('hypothesis: operation histories against a reference model '
         '(stateful / model-based), material files round-tripped')

P('M01', 'Chem packages conserve mass and elements through every operation',
  'A package of an assay holds the mass asked for, split by the assay. '
  'Adding, multiplying, extracting, cloning, clearing and rereading chem '
  'packages conserves the mass of each compound and of each element; '
  'operands and materials stay as they were; rejected operations change '
  'nothing. Material files load as written.',
  ['inputs', 'histories'], 'all material files, assays and operation '
  'histories', 'Tests apply single operations to one small material.',
  [_mat + 'chem.py'], [('Material, MaterialPackage', _mat + 'chem.py')],
  _hist, 'Up to some dozens of operations on some packages. Nothing is '
  'extracted from empty packages.')

P('M02', 'Psd packages conserve mass in each size class',
  'A package of an assay holds the mass asked for, split over the size '
  'classes by the assay. Adding, multiplying, extracting, cloning, clearing '
  'and rereading psd packages conserves the mass in each size class; operands '
  'and materials stay as they were; rejected operations change nothing. '
  'Material files load as written.',
  ['inputs', 'histories'], 'all material files, assays and operation '
  'histories', 'Tests apply single operations to one small material.',
  [_mat + 'psd.py'], [('Material, MaterialPackage', _mat + 'psd.py')],
  _hist, 'Up to some dozens of operations on some packages.')

P('M03', 'Slurry packages conserve solids and water; densities follow volumes',
  'Slurry packages conserve the mass of solids in each size class and of '
  'water through all operations. The solid density of mixtures follows from '
  'adding volumes, and volume, density, mass and volume fractions are those '
  'of the solids and water present. Rejected operations change nothing; '
  'material files load as written.',
  ['inputs', 'histories'], 'all material files, assays and operation '
  'histories', 'Tests apply single operations to one small material.',
  [_mat + 'slurry.py'], [('Material, MaterialPackage', _mat + 'slurry.py')],
  _hist, 'Up to some dozens of operations on some packages.')

P('M04', 'Thermo packages conserve mass, elements and enthalpy',
  'Creating, adding, extracting, scaling, cloning and clearing thermo '
  'packages conserves the mass of compounds and elements and, where heat is '
  'neither added nor removed, enthalpy. Temperature and enthalpy agree with '
  'each other and with the compound data after every operation, coal '
  'included.',
  ['inputs', 'histories'], 'all materials of the data, temperatures, '
  'pressures, masses and operation histories',
  'Tests apply single operations to one mixture at one temperature.',
  [_mat + 'thermo.py', 'auxi/tools/materialphysicalproperties/coals.py'],
  [('MaterialPackage', _mat + 'thermo.py'),
   ('calculate_H, calculate_T', _mat + 'thermo.py')],
  _hist, 'Temperature is checked where the reference enthalpy increases with '
  'temperature. Compounds of data/rao.')

P('M05', 'Thermo streams conserve mass, element and enthalpy flow rates',
  'Creating, adding, extracting, scaling, cloning and clearing thermo '
  'streams conserves the flow rates of compounds and elements and, where '
  'heat is neither added nor removed, of enthalpy. Temperature and enthalpy '
  'flow rate agree with each other and with the compound data after every '
  'operation, coal included.',
  ['inputs', 'histories'], 'all materials of the data, temperatures, '
  'pressures, flow rates and operation histories',
  'Tests apply single operations to one mixture at one temperature.',
  [_mat + 'thermo.py', 'auxi/tools/materialphysicalproperties/coals.py'],
  [('MaterialStream', _mat + 'thermo.py'),
   ('calculate_Hfr, calculate_T', _mat + 'thermo.py')],
  _hist, 'Temperature is checked where the reference enthalpy increases with '
  'temperature. Compounds of data/rao.')

P('M06', 'Thermo materials load as written and are usable with any assay',
  'A thermo material file loads with the compounds, assays and custom '
  'properties it lists; assays can be added; packages and streams of any '
  'assay hold the amounts asked for, normalised or not; printing and '
  'rereading keep the content.',
  ['inputs'], 'all material files and assays',
  'Tests load one file.',
  [_mat + 'thermo.py'], [('Material', _mat + 'thermo.py')],
  'hypothesis: generated material files and round trips against what was '
  'written', 'Printing is checked for values that fit the printed columns.')

_mp = 'auxi/tools/materialphysicalproperties/'
_tp = 'auxi/tools/transportphenomena/'

P('P01', 'Property models evaluate valid material states only',
  'A property model accepts exactly the states its schema allows: it raises a '
  'ValidationError naming the parameter for a missing, unknown, out of range '
  'or wrongly typed one, and changes neither the state nor the model. '
  'Calling and calculate agree; fitted models are limited to the range of '
  'their data, also after being written and read.',
  ['inputs'], 'all models, states and ways to break a state',
  'Tests pass one invalid state to some models.',
  [_mp + f for f in ('core.py', 'idealgas.py', 'gases.py', 'slags.py',
                     'coals.py', 'polynomial.py')],
  [('Model.calculate', _mp + 'core.py')],
  'hypothesis: valid states and mutations of them, schema as oracle',
  'Temperatures above 0 K. Integers for floats are not decided.')

P('P02', 'Polynomial models are the least squares fit of their data',
  'A model created from a data set is the least squares polynomial of the '
  'degree asked for, recovers polynomial data exactly, carries the names and '
  'units of the column and the range of the data, and evaluates the same '
  'after being written and read. Models of given coefficients evaluate that '
  'polynomial, highest power first.',
  ['inputs'], 'all data sets, degrees and coefficients',
  'Tests fit one column of one data set.',
  [_mp + 'polynomial.py'], [('PolynomialModelT', _mp + 'polynomial.py')],
  'hypothesis: generated data sets, Chebyshev least squares as oracle',
  'Degrees up to 5.')

P('P03', 'Ideal gas properties follow the ideal gas law',
  'The densities of the ideal gas models equal molar mass x P / (R T), the '
  'molar mass of a mixture being the mean over its mole fractions, and agree '
  'between the models; the expansion coefficient is 1/T, as follows from the '
  'density. The composition passed is not changed.',
  ['inputs'], 'all temperatures, pressures, molar masses and compositions',
  'Tests check some temperatures of air.',
  [_mp + 'idealgas.py'],
  [('BetaT, RhoT, RhoTP, RhoTPx', _mp + 'idealgas.py')],
  'hypothesis: independent gas law, scaling and derivative relations',
  'Temperatures above 0 K.')

P('P04', 'Gas mixture properties follow their mixing rules',
  'The viscosities (Wilke, Herning-Zipperer) and heat capacity of gas '
  'mixtures follow their mixing rules from those of the pure gases: equal to '
  'these for a pure gas, independent of order and normalisation of the '
  'composition and of compounds that are not described.',
  ['inputs'], 'all compositions and temperatures in range',
  'There are no tests.',
  [_mp + 'gases.py'],
  [('WilkeMuTx, HerningZippererMuTx, IdealCpTx', _mp + 'gases.py')],
  'hypothesis: independent mixing rules and metamorphic relations',
  'Compounds with models; Air is not a compound.')

P('P05', 'Slag viscosities follow the Urbain and Riboud models',
  'The Urbain and Riboud viscosities follow the published models for any slag '
  'by moles, the models by mass giving the same for the same slag, '
  'independent of order and normalisation of the composition, which is not '
  'changed. Riboud takes oxides with two cations as twice those with one.',
  ['inputs'], 'all compositions and temperatures', 'There are no tests.',
  [_mp + 'slags.py'],
  [('UrbainViscosityTx, RiboudViscosityTx', _mp + 'slags.py')],
  'hypothesis: independent implementation and metamorphic relations',
  'Coefficients as in the modules. Urbain needs a modifier or amphoteric '
  'oxide.')

P('P06', 'Heat capacity and enthalpy of coal agree with each other',
  'The heat capacity and enthalpy of dry ash-free coal follow the Merrick '
  'model for any composition and temperature; the heat capacity is the '
  'derivative of the enthalpy, positive and below 3R per mole of atoms.',
  ['inputs'], 'all compositions and temperatures', 'There are no tests.',
  [_mp + 'coals.py'], [('DafCpTy, DafHTy', _mp + 'coals.py')],
  'hypothesis: independent formulas and the derivative relation',
  'Temperatures from 150 K.')

P('P07', 'Data sets hold what their files say',
  'A data set has the material, description, reference, columns, symbols, '
  'units and data its file lists, in any order of the columns and with any '
  'quoting. A template that is created reads as a data set of its material.',
  ['inputs'], 'all data set files', 'Tests read one file.',
  [_mp + 'core.py'], [('DataSet', _mp + 'core.py')],
  'hypothesis: generated files read back', 'ASCII text, numeric columns.')

P('P08', 'Shipped materials match their data; derived properties agree',
  'The shipped gases and water carry the name, property models and units of '
  'their data sets, which the models agree with over the range of the data, '
  'and reject temperatures outside. The kinematic '
  'viscosity is mu/rho and the thermal diffusivity k/(rho Cp) for any '
  'material without a model of its own; a property without a model is not '
  'implemented.',
  ['inputs'], 'all shipped materials and temperatures, and own materials',
  'Tests do not evaluate the shipped models.',
  [_mp + 'gases.py', _mp + 'liquids.py',
   'auxi/modelling/process/materials/core.py'],
  [('Material', 'auxi/modelling/process/materials/core.py')],
  'hypothesis: differential against the data sets, generated materials',
  'Tolerances as at the pinned commit, 0.2 to 7 %.')

P('D01', 'Dimensionless quantities are what they are defined as',
  'The Grashof, Prandtl, Reynolds, Rayleigh, Nusselt and Sherwood numbers are '
  'those of their definitions, do not depend on the units used, change sign '
  'with the direction of heat flow or motion, and Ra = Gr Pr.',
  ['inputs'], 'all arguments', 'Tests are empty.',
  [_tp + 'dimensionlessquantities.py'],
  [('Gr, Pr, Re, Ra, Nu, Sh', _tp + 'dimensionlessquantities.py')],
  'hypothesis: definitions, and metamorphic changes of units', 'Ranges of '
  'ten orders of magnitude.')

P('D02', 'Friction factors satisfy their correlations in all ducts',
  'The Colebrook friction factor solves the Colebrook equation for any '
  'Reynolds number and roughness, the Haaland and smooth duct ones follow '
  'their equations and agree with it, warnings are printed exactly out of '
  'range. Pressure drops scale with length, density, velocity squared and '
  'inverse diameter, laminar flow obeying Hagen-Poiseuille.',
  ['inputs'], 'all ducts and flows', 'There are no tests.',
  [_tp + 'fluidflow/pressuredrop.py'],
  [('f_tr_Colebrook, f_tr_Haaland, f_ts, f_l, D_h, Δp',
    _tp + 'fluidflow/pressuredrop.py')],
  'hypothesis: residual of the equation, metamorphic relations',
  'Re 2300 to 1e8 and relative roughness up to 0.05 for turbulent flow.')

P('D03', 'Natural convection at flat surfaces follows its correlations',
  'For any angle, length, temperatures and fluid, the Nusselt number is that '
  'of the correlation of its angle and Rayleigh number (regions in '
  'log10(Ra)), from properties at the reference temperature; coefficients '
  'are Nu k / L, means 4/3 of local ones, cold surfaces equal their hot '
  'mirror image. Regions contain exactly the points in their bounds.',
  ['inputs'], 'all angles, lengths, temperatures and fluids',
  'Tests check one vertical surface in air.',
  [_tp + 'heattransfer/naturalconvection.py'],
  [('IsothermalFlatSurface', _tp + 'heattransfer/naturalconvection.py')],
  'hypothesis: independent table of correlations, synthetic fluids',
  'Fluids that expand when heated.')

P('C04', 'Bibliographies provide every entry of their file',
  'Each entry of a bibtex file, of a standard type or not, is provided by its '
  'key with its fields; unknown keys are rejected, and the shipped '
  'bibliography has the references the package quotes.',
  ['inputs'], 'all bibliography files', 'Tests read one entry of one file.',
  ['auxi/core/bibliography.py'],
  [('Database', 'auxi/core/bibliography.py')],
  'hypothesis: generated bibtex files read back', 'Plain values in braces.')

P('C05', 'Named objects, process models and helpers keep what they are given',
  'Projects, variables, variable groups and process models keep the name, '
  'description, value, units and category given to them, a variable called '
  'gives its value, and every process model has parameters, input and output '
  'variables of its own, of its class, that no other model shares; written '
  'and read back they are the same and have the same hash. A date is taken '
  'from an ISO date text, a date or a datetime, and no other text; a path '
  'relative to a module is the absolute path from the folder of the module.',
  ['inputs', 'histories'],
  'all classes, values, orders of changes to several objects, dates, paths',
  'Tests construct one object of each class; that objects share no state and '
  'that texts and paths mean what they say holds over all of them.',
  ['auxi/core/helpers.py', 'auxi/core/objects.py', 'auxi/modelling/core.py',
   'auxi/modelling/process/core.py'],
  [('Model, SteadyStateModel, DynamicModel', 'auxi/modelling/process/core.py'),
   ('Project, Variable, VariableGroup', 'auxi/modelling/core.py'),
   ('get_date, get_path_relative_to_module', 'auxi/core/helpers.py'),
   ('Object, NamedObject', 'auxi/core/objects.py')],
  'hypothesis: generated objects and operation sequences against a plain '
  'model; dates and paths against independent construction',
  'Values that jsonpickle can write; POSIX paths without links.')

P('D04', 'The physical constants obey the laws that relate them',
  'The constants have the values of the reference they quote (CODATA 2018), '
  'and agree with each other for any state: the energy of an amount of gas '
  'is that of its molecules, the charge and mass of an amount those of its '
  'ions and atoms, and the radiation of a black body at any temperature is '
  "the integral of Planck's law. Standard and normal conditions are 0 and "
  '20 degrees Celsius, 100 and 101.325 kPa.',
  ['inputs'], 'all amounts, temperatures, masses, distances and elements',
  'No test looks at the constants; a wrong digit shows in no other test.',
  ['auxi/tools/physicalconstants.py'],
  [('constants', 'auxi/tools/physicalconstants.py')],
  'hypothesis: physical laws at generated states, and the published values',
  'Relative deviations above 2e-9 for the values, 1e-8 for the laws.')

P('P09', 'Plots show the data sets and the model, and nothing else',
  'A plot of a property model shows every point of every data set passed, '
  'under the name of the set, and a curve that is the model over the range '
  'of the data it is valid in, with the symbol and units of the property. '
  'Earlier plots leave nothing in later ones, model and data stay as they '
  'were, and a plot of correlation regions shows each with its bounds and '
  'name.',
  ['inputs', 'histories'],
  'all data sets, models, mixtures, sequences of plots and regions',
  'No test plots anything.',
  ['auxi/tools/materialphysicalproperties/polynomial.py',
   'auxi/tools/materialphysicalproperties/idealgas.py',
   'auxi/tools/materialphysicalproperties/gases.py',
   'auxi/tools/transportphenomena/heattransfer/naturalconvection.py'],
  [('plot', 'auxi/tools/materialphysicalproperties'),
   ('Region.plot_region, plot_regions',
    'auxi/tools/transportphenomena/heattransfer/naturalconvection.py')],
  'hypothesis: generated data sets, models and sequences of plots; the lines '
  'and patches of the figure written compared with data and model',
  'The figure is judged by its lines, labels and patches, not its pixels; '
  'curves of gas mixtures end at 1000 K as in the code.')

P('K01', 'A distribution contains every module and data file it needs',
  'Every module of the package, and every data file a module loads, is part '
  'of the distributions that setup.py builds.',
  ['configurations'], 'all modules and data files',
  'The tests run from the source tree, where nothing is missing.',
  ['setup.py'], [('packages, package_data', 'setup.py')], None, None,
  na='There is no input to generate: it is a statement about one list in '
     'setup.py, decided by building and looking. (Looking shows that the list '
     'lacks auxi.tools.transportphenomena.fluidflow and the data of '
     'auxi.core; see DESIGN.md.)')
