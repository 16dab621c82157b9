"""techniques and level notes of the properties beyond the energy system proper"""
TECH = {
 'C15': 'TLA+ specification of behaviours (EnergySystem/Explore/Trace) and of the objective (spec/Optimum.tla): no behaviour TLC explores may beat the reported optimum, recorded results must reach it, problems with and without solution must be told apart; cheapest selections of units (spec/Selection.tla) against the real search with various gaps',
 'C23': 'TLA+ specification of the equation layer (spec/MathModel.tla), every operation sequence TLC enumerates is replayed into flixOpt.math_modeling and the exported problem compared',
 'C24': 'TLA+ state machine of time series activation (spec/TimeSeries.tla), every behaviour TLC enumerates is replayed on TimeSeries objects and a flow system',
 'C18': 'TLA+ specifications of the windows (spec/SegPlan.tla) and of the chain of solved windows (spec/Segmented.tla): recorded segmented calculations must be behaviours of it',
 'C22': 'TLA+ state machine of registration (spec/Registry.tla), every sequence TLC enumerates is replayed on a FlowSystem, registered objects and calculated results compared',
 'C20': 'TLA+ state machine of calculations of one system (spec/Lifecycle.tla): sequences TLC enumerates are replayed, each problem and result compared with those of fresh systems',
 'C21': 'TLA+ specifications of saving/loading (spec/Saved.tla) and of tables (spec/Tables.tla): sequences and requests TLC enumerates are replayed on the file system and CalculationResults, contents and tables compared',
 'C19': 'TLA+ specification of aggregation (spec/AggPeriods.tla over EnergySystem): behaviours TLC explores (AggExplore) are replayed in the problem of a real aggregated calculation, reported results are checked as traces (AggTrace)',
 'C25': 'TLA+ specification of the summary (spec/Summary.tla over EnergySystem): summaries recorded from real calculations are checked by TLC against the behaviour the results describe',
 'C26': 'TLA+ state machines of drawing (spec/Figures.tla: columns and stacks; spec/HeatMap.tla: a calendar walking through the steps; spec/Network.tla): what TLC says is shown is compared with the figures the code makes',
}
LEVEL_NOTE = {
 'C23': 'TLC enumerates sequences of definitions of equations (legal and rejected calls, scalars/vectors/selected indices/sums, constants, bounds, fixed values, binaries) and the optimum over all integer points of small boxes; '
        'each sequence is executed through flixOpt.math_modeling and the problem handed to the solver is compared row by row, and solved. Bounded: few variables of length up to 3. '
        'Trusted: TLC, pyomo, the LP export, HiGHS.',
 'C24': 'TLC enumerates sequences of reset/selection/aggregated data/element insertion with their expected active values and weights; each sequence is replayed on the real objects. Bounded: series of few steps, short sequences. '
        'Trusted: TLC, numpy comparison.',
 'C18': 'TLC enumerates every horizon/segment/overlap length up to a bound with its windows and checks that they cover the horizon; for each a segmented calculation of a generated system is run and its record (windows, start values, '
        'results of each window, combined arrays, failures) is checked by TLC as a behaviour of spec/Segmented.tla. Bounded: horizons up to 9 (12) steps, sampled systems. Trusted: TLC, HiGHS, fixed point comparison.',
 'C22': 'TLC enumerates every sequence of add and calculate operations over small universes of elements whose labels collide in various ways; each is replayed on a real FlowSystem and acceptance, registered objects and the results '
        'of calculations are compared. Bounded: sequences of up to 4 operations. Trusted: TLC, HiGHS.',
 'C20': 'TLC enumerates every interleaving (up to depth 5-6) of creating, modelling, solving, saving, re-solving, reading, inspecting up to two calculations of one to three kinds (full, window, selected steps, aggregated, segmented) '
        'and changing the definition; a weighted sample is replayed in a forked process: each problem built must equal (by names) the one of a freshly defined system, each result must be a solution of it with its optimum, results read earlier must stay. '
        'Bounded: sampled sequences, sampled systems. Trusted: TLC, HiGHS, the comparison of problems.',
 'C21': 'TLC enumerates sequences of creating, saving (folders and names which may coincide), loading and changing the definition, with what each load has to show, and for each loaded result the tables for all combinations of options; '
        'a weighted sample of the sequences is replayed in scratch folders, reloaded values, roles and time stamps are compared with the returned ones, tables with the specified ones. '
        'Bounded: sequences of 4-5 operations, sampled systems. Trusted: TLC, numpy/pandas comparison.',
 'C19': 'The specification states which steps are equated (any assignment of periods to clusters, drawn or by the real clustering), what deviates at which price and which data is used; TLC explores behaviours over finite candidate steps; legal ones must be admitted '
        'with the same values by the real problem, forbidden ones excluded; results of solved aggregated calculations are validated as traces; parameters, weights, peaks and data handed to the clustering library are compared. '
        'Bounded: 4-8 steps (traces up to 12), sampled systems. The clustering itself (tsam) is trusted; its output is replaced by drawn assignments in most runs.',
 'C25': 'TLC follows the behaviour the results of a real calculation describe, step by step through spec/EnergySystem.tla, derives effects, penalty, objective, excess and investments, and compares the recorded summary (returned, saved, and after further '
        'calculations of the same system). Sampled systems of 2-6 steps. Trusted: TLC, HiGHS, fixed point comparison (deviations below 0.02 not judged).',
 'C26': 'TLC walks a calendar from step to step (heat maps: all supported pairs, leap years, weeks, months) and draws tables column by column; the resulting matrices, stacks, nodes and arrows are compared with the contents of the plotly, matplotlib and pyvis '
        'objects, for generated tables and for saved and reloaded results of calculations. Sampled tables of up to 9 rows, heat maps of up to 70 steps. Rendering itself is trusted.',
}
TECH['C27'] = 'TLA+ specification of a description read element by element, TLC judges the descriptions the code gives'
LEVEL_NOTE['C27'] = ('spec/Definition.tla: a reader walks through the elements as they were stated (recorded at the constructors) and looks every argument up in '
                     'the description: nothing lost, altered, invented; statistics of long series recomputed. Bound to infos (three forms), to_json, the printed form and the saved data and '
                     'infos files, before and after modelling selections of steps. Sampled over generated systems; aggregated data not described.')
TECH['C28'] = 'TLA+ specification of definitions growing piece by piece and of the configuration in effect; every definition and sequence TLC reaches is made with the real classes'
LEVEL_NOTE['C28'] = ('spec/Admission.tla grows definitions of nine kinds piece by piece and judges each one reached; spec/Settings.tla is the state machine of the configuration (loading, assigning, log level). '
                     'They are made with the real classes and modelled: an error exactly where the specification judges a contradiction, the configuration exactly the one in effect. Small sizes '
                     '(series of 3-7 values, converters of 2-4 flows and up to 5 equations, sequences of 3 settings), sampled where TLC reaches thousands.')
