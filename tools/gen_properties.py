"""Writes /verif/properties.jsonl (the source of the property list; run after editing)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
T_FIX = 'The tests solve a handful of hand-written systems and compare a few optimal values; an optimum only touches the constraints that happen to bind, so '
p('C01', 'Every bus balances in every step; imbalance only as penalised excess',
  'In every time step of every solution, the flows into a bus plus its excess input equal the flows out of it plus its excess output. A bus without an excess penalty has no excess at all; otherwise every unit of excess energy, of either sign, adds exactly its penalty (per flow-hour, at that time step) to the objective and to no effect.',
  ['inputs', 'configurations'], 'all flow systems, all time grids (equidistant or not), all demand/price profiles, every time step of every solution the optimiser may return',
  T_FIX + 'a lost, doubled or wrongly signed term in one bus, a penalty not scaled by the step length, or an unpenalised direction stays unseen.',
  ['flixOpt/elements.py', 'flixOpt/flow_system.py'], [('bus balance equation and excess shares', 'flixOpt/elements.py: BusModel.do_modeling'), ('flows register at their bus', 'flixOpt/elements.py: Component.register_flows_in_bus')],
  ['flow rates and excess in results', 'the optimisation problem handed to the solver'])
p('C02', 'A flow stays within its size, relative bounds, profile, totals and load factor',
  'Without on/off parameters a flow rate lies in every step between relative minimum and relative maximum times the size, and with a fixed relative profile it equals profile times size. With on/off parameters it may in addition be zero (off), and only then (a profile of a size still to be decided excepted: there the profile is always followed). Total flow hours and the average load factor (flow hours per size and total duration) stay within their given limits, every admissible flow rate being allowed.',
  ['inputs', 'configurations'], 'all sizes (fixed, default, optimised), scalar and time-varying relative bounds/profiles, with and without on/off, all time grids, all schedules',
  T_FIX + 'limits that never bind in those few cases (time-varying minimum, load factor with invested size, flow-hour minimum with unequal steps) are not exercised.',
  ['flixOpt/elements.py', 'flixOpt/features.py'], [('flow rate variable bounds, flow-hour and load-factor equations', 'flixOpt/elements.py: FlowModel'), ('size-dependent bounds', 'flixOpt/features.py: InvestmentModel')],
  ['flow rates and total flow hours in results', 'the optimisation problem handed to the solver'])
p('C03', 'Converters obey their conversion equations in every step',
  'For a linear converter, each conversion equation (sum of inputs times factors = sum of outputs times factors, factors possibly time-varying) holds in every step, and nothing else ties its flows together. Boiler, power-to-heat, heat pump, CHP, cooling tower and heat pump with source obey their physical definition: heat = efficiency or COP times drive energy, CHP power = electrical efficiency times fuel, tower electricity = specific demand times heat, source heat = heat minus electricity.',
  ['inputs', 'configurations'], 'all converter classes, all factors (scalar or per time step), any number of inputs/outputs and equations, all flow combinations',
  'The tests use boiler and CHP with one set of efficiencies each; a swapped factor, a dropped equation or a factor taken from the wrong time step in another class is never executed.',
  ['flixOpt/components.py', 'flixOpt/linear_converters.py'], [('conversion equations', 'flixOpt/components.py: LinearConverterModel'), ('factor definitions', 'flixOpt/linear_converters.py')],
  ['flow rates of the component', 'the optimisation problem handed to the solver'])
p('C04', 'Piecewise converters operate on exactly one segment, all flows at one position',
  'A converter with piecewise-linear conversion is in every step on exactly one of its segments, with all its flows at the same relative position between the two ends of that segment (ends possibly time-varying, gaps and single points respected). If it has on/off parameters it may instead be off, and then all its flows are zero.',
  ['inputs', 'configurations'], 'any number of flows and segments, gaps, points, time-varying ends, with and without on/off, every combination of flow rates',
  'One example with two contiguous segments is tested at its optimum; points between segments, mixed positions of flows, two active segments or gap crossing are not tried.',
  ['flixOpt/components.py', 'flixOpt/features.py'], [('segment selection and interpolation weights', 'flixOpt/features.py: SegmentModel, MultipleSegmentsModel')],
  ['flow rates of the component', 'the optimisation problem handed to the solver'])
p('C05', 'Storage content follows its energy balance from step to step',
  'The content at the end of a step equals the content at its start reduced by the relative self-discharge per hour times the step length, plus charging rate times charging efficiency times step length, minus discharging rate divided by discharging efficiency times step length. It holds for every step including the last, with time-varying efficiencies and losses and unequal steps; the reported net discharge is discharging minus charging.',
  ['inputs', 'configurations'], 'all storages, efficiencies, losses, time grids and charging schedules',
  'The tests check one storage with constant parameters and hourly steps at the optimum; step-length, index-shift or efficiency errors cancel or stay hidden there.',
  ['flixOpt/components.py'], [('charge state equation', 'flixOpt/components.py: StorageModel.do_modeling')],
  ['charge state and flows in results', 'the optimisation problem handed to the solver'])
p('C06', 'Storage content respects capacity limits, start value and end limits',
  'The content stays at every point in time, including the end of the horizon, between relative minimum and maximum times the capacity (fixed or optimised). A given initial content is the content at the start; with the cyclic option the content at the end of the horizon equals the content at the start; with none it is free. Limits for the final content, when given, always apply to the content at the end of the last step.',
  ['inputs', 'configurations'], 'all combinations of initial rule, final limits, scalar or time-varying relative limits, fixed or optimised capacity, all schedules',
  'The tests use numeric initial values with limits that scarcely bind; the cyclic option, free start with final limits and limits at the last point are not checked.',
  ['flixOpt/components.py'], [('initial/final equations and charge state bounds', 'flixOpt/components.py: StorageModel._model_initial_and_final_charge_state, absolute_charge_state_bounds')],
  ['charge state in results', 'the optimisation problem handed to the solver'])
p('C07', 'On/off status tells exactly whether an element runs; on-hours sum step lengths',
  'A flow with on/off status is on exactly in the steps in which its rate is non-zero, and is off exactly when it is zero; a component is on exactly when at least one of its flows is non-zero. The on-hours are the sum of the lengths of the on steps and stay within the given minimum and maximum; every on/off pattern not excluded by a stated limit is allowed.',
  ['inputs', 'configurations', 'histories'], 'all flows and components with on/off parameters, all on/off patterns, unequal steps, with zero or positive relative minimum, fixed or optimised size',
  T_FIX + 'component-level status, time-varying minimum load and unequal step lengths are not covered.',
  ['flixOpt/features.py', 'flixOpt/elements.py'], [('on constraints and on-hours sum', 'flixOpt/features.py: OnOffModel'), ('status forced on flows', 'flixOpt/elements.py: ComponentModel.do_modeling')],
  ['on status and on hours in results', 'the optimisation problem handed to the solver'])
p('C08', 'Minimum and maximum running and idle times hold for every run, history included',
  'Every completed run of an element with on/off parameters lasts at least its minimum running time and no run exceeds its maximum; the same holds for idle periods with their minimum and maximum. Durations are measured in hours with the actual step lengths; a run or idle period already under way before the first step counts with the time given by the previous flow rates, and one cut off by the end of the horizon need not reach its minimum. Nothing beyond this is forbidden.',
  ['inputs', 'histories', 'configurations'], 'all on/off patterns, all histories of previous flow rates (none, scalar, sequence, several flows), previous step lengths, scalar and time-varying limits, unequal steps, flows and components',
  'Tests check single optima of three patterns with hourly steps and one history each; histories whose last run starts inside the sequence, unequal steps and the first/last step are not explored.',
  ['flixOpt/features.py', 'flixOpt/elements.py'], [('duration counters and limits', 'flixOpt/features.py: OnOffModel._get_duration_in_hours'), ('duration of the history', 'flixOpt/features.py: OnOffModel.get_consecutive_duration, _previous_on_values')],
  ['on pattern in results', 'the optimisation problem handed to the solver'],
  [dict(name='running/idle duration', meaning='hours since the current run/idle period began', where='duration variables of OnOffModel')])
p('C09', 'Starts are counted exactly, limited and charged; running hours are charged',
  'A start is counted in exactly those steps in which an element is on after having been off in the step before (for the first step: off according to the history, off if there is none), and a stop likewise. The number of starts never exceeds its limit; each start adds its effects once (at the value of that step) and each on step adds its running-hour effects times the step length.',
  ['inputs', 'histories', 'configurations'], 'all on/off patterns, all histories, scalar and time-varying effects, flows and components, unequal steps',
  'One optimum with a switch limit is tested; over-counting, missing the first step, or charging per step instead of per hour is only visible in other patterns.',
  ['flixOpt/features.py'], [('switch equations and count', 'flixOpt/features.py: OnOffModel._add_switch_constraints'), ('effects per start / running hour', 'flixOpt/features.py: OnOffModel._create_shares')],
  ['start counts and effects in results', 'the optimisation problem handed to the solver'])
p('C10', 'Investment sizes obey their decision rules and bound the operation',
  'A size to be decided lies between its minimum and maximum, or equals the fixed size; if the investment is optional it may also be zero, and it counts as invested exactly when it is non-zero. In every step the flow rate (or storage content) lies between relative minimum and maximum times the decided size, or is zero if off; with a fixed profile it equals profile times decided size in every step (no off); not investing is always a possible choice for an optional investment and forces the flow or content to zero.',
  ['inputs', 'configurations'], 'all invest parameter combinations (fixed/variable, optional/mandatory), for flows and storages, with and without on/off, profiles, relative minima, scalar or time-varying',
  'Five optima of one boiler system are tested; minimum loads together with optional or minimum sizes, storages, and on/off coupling are not.',
  ['flixOpt/features.py', 'flixOpt/interface.py', 'flixOpt/elements.py', 'flixOpt/components.py'], [('size/invested variables and coupling', 'flixOpt/features.py: InvestmentModel'), ('absolute bounds from sizes', 'flixOpt/elements.py: FlowModel.absolute_flow_rate_bounds; flixOpt/components.py: StorageModel.absolute_charge_state_bounds')],
  ['sizes, invest decisions and flows in results', 'the optimisation problem handed to the solver'])
p('C11', 'Investment effects are charged exactly as specified',
  'The investment part of every effect is the sum over all investments of: fixed effects if invested (always, if mandatory), specific effects times size, divestment effects if an optional investment is not made, and the piecewise effects interpolated at the size. Piecewise effects are zero when an optional investment is not made, and apply to every effect named.',
  ['inputs', 'configurations'], 'all combinations of effect kinds, several effects, optional/mandatory, fixed/variable sizes, flows and storages',
  'Tests check total costs of a few optima; divestment effects, several effects and piecewise effects together with optional investments are not isolated.',
  ['flixOpt/features.py', 'flixOpt/effects.py'], [('investment shares', 'flixOpt/features.py: InvestmentModel._create_shares, SegmentedSharesModel')],
  ['investment part of effects in results', 'the optimisation problem handed to the solver'])
p('C12', 'Flows declared mutually exclusive are never active in the same step',
  'Whenever flows of a component are declared mutually exclusive (storage charging/discharging, source and sink in one component, the two directions of a transmission, or a user-defined group), at most one of them is non-zero in any step. When the exclusion is switched off, simultaneous use is possible, and exclusion never forbids using one of them alone.',
  ['inputs', 'configurations'], 'all such components and groups of two or more flows, all schedules in all time steps',
  'No test asserts exclusion; at an optimum simultaneous use is rarely attractive, so its loss stays unnoticed.',
  ['flixOpt/elements.py', 'flixOpt/features.py', 'flixOpt/components.py'], [('exclusion inequality over on variables', 'flixOpt/features.py: PreventSimultaneousUsageModel')],
  ['flow rates in results', 'the optimisation problem handed to the solver'])
p('C13', 'Effects sum all contributions and shares from other effects exactly once',
  'In every step the operational part of an effect equals the sum of all element contributions (flow rate times effect per flow-hour times step length, starts, running hours) plus, for each share declared from another effect, that effect times the share factor of the step, following chains of shares. The investment part sums investment contributions and shares likewise; the total is operation plus investment. Values given without naming an effect go to the standard effect, and one value object may be used by several elements.',
  ['inputs', 'configurations'], 'any number of effects, acyclic share graphs incl. chains, scalar and time-varying factors, unequal steps, values given as scalar, array or dictionary (also shared between elements)',
  'The tests use one share (CO2 to costs) with scalar factors and hourly steps; chains, time-varying factors, invest shares and shared value objects are not.',
  ['flixOpt/effects.py', 'flixOpt/features.py', 'flixOpt/elements.py'], [('effect accounting', 'flixOpt/effects.py: EffectCollectionModel; flixOpt/features.py: ShareAllocationModel'), ('value normalisation', 'flixOpt/effects.py: effect_values_to_time_series')],
  ['effect time series and totals in results', 'the optimisation problem handed to the solver'])
p('C14', 'Effect limits hold: per hour, operation, investment and total',
  'Every limit on an effect is respected by every solution and cuts off nothing else: the per-hour limits apply in each step to the operational part divided by the step length, the operation, investment and total limits to the respective sums, contributions from other effects included.',
  ['inputs', 'configurations'], 'all limit kinds (minimum and maximum), scalar and time-varying, several effects with shares, unequal steps',
  'Only one total maximum is exercised by one test; per-hour limits and minimum limits are not.',
  ['flixOpt/effects.py', 'flixOpt/features.py'], [('bounds of effect sums', 'flixOpt/effects.py: EffectModel; flixOpt/features.py: ShareAllocationModel.do_modeling')],
  ['effect results', 'the optimisation problem handed to the solver'])
p('C15', 'The returned solution is optimal for the stated problem; infeasible is an error',
  'The objective reported is the total of the objective effect (operation plus investment) plus the penalties of the returned solution, and no schedule obeying the stated rules is cheaper (beyond the solver gap). If no schedule obeys the rules, solving ends in an error and no results are produced; if one does, a solution is returned.',
  ['inputs', 'configurations'], 'all flow systems with any choice of objective and standard effect, all schedules as competitors',
  'Tests compare single known optima; a constraint that silently cuts off better schedules elsewhere, or results reported for an infeasible problem, is not noticed.',
  ['flixOpt/effects.py', 'flixOpt/math_modeling.py', 'flixOpt/calculation.py'], [('objective assembly', 'flixOpt/effects.py: EffectCollectionModel.do_modeling'), ('solver call and result extraction', 'flixOpt/math_modeling.py: PyomoModel.solve')],
  ['objective in results', 'exception of solve'])
p('C16', 'Transmission delivers input minus relative and absolute losses per direction',
  'In each direction and step a transmission delivers its input times one minus the relative loss, minus the absolute loss while that direction is in use, and nothing when it is not in use. If the size of the line is optimised, both directions have the same size and the size is paid for once.',
  ['inputs', 'configurations'], 'one- and two-directional lines, with and without absolute or relative losses (scalar or time-varying), fixed and optimised sizes, all schedules',
  'Two optima are tested, with scalar losses; per-direction losses under other schedules and the size coupling are not.',
  ['flixOpt/components.py'], [('transmission equations and size coupling', 'flixOpt/components.py: TransmissionModel')],
  ['flow rates and sizes in results', 'the optimisation problem handed to the solver'])
p('C17', 'Time steps have their true lengths and time-dependent data their own position',
  'The length of each step is the difference to the next time stamp (last step: the given or repeated length), and every per-hour quantity is scaled by it; calculating only a selection of consecutive time indices gives the same problem as building the system on just those time stamps with the data of those indices. Results carry exactly the time stamps used, plus the end of the last step. A time axis made from a start, an interval of weeks to seconds and a number of steps or an end advances by exactly that interval, and an interval that cannot be read is refused.',
  ['inputs', 'configurations', 'histories'], 'all time grids and resolutions, unequal steps, last-step lengths, all index windows, scalar and array data of every parameter',
  'Tests use hourly grids; windows starting after the first index, unequal steps and given last-step lengths are not checked.',
  ['flixOpt/flow_system.py', 'flixOpt/core.py', 'flixOpt/structure.py'], [('step lengths', 'flixOpt/flow_system.py: get_time_data_from_indices, create_datetime_array'), ('index activation', 'flixOpt/core.py: TimeSeries.activate_indices')],
  ['time, step lengths and series in results', 'the optimisation problem handed to the solver'])
p('C18', 'Segmented calculation covers the horizon once and hands over the true state',
  'A segmented calculation solves consecutive windows that together cover every selected time step, each window starting with the storage contents and flow rates its predecessor reached at exactly that point in time, and each window being a correct solution of its own problem. The combined results contain every time step exactly once, consistent across window borders, and afterwards, successful or failed, the start values of all elements are those the user gave.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all horizon lengths, segment and overlap lengths (0 included), index windows, storages and on/off elements, failing windows',
  'One configuration is tested for total costs; other overlap/length combinations (truncated last windows, zero overlap, offset index windows) and a failing window are not.',
  ['flixOpt/calculation.py'], [('window indices', 'flixOpt/calculation.py: SegmentedCalculation._get_indices'), ('hand-over and reset of start values', 'flixOpt/calculation.py: _transfer_start_values, _reset_start_values'), ('combination of arrays', 'flixOpt/calculation.py: _combine_nested_arrays')],
  ['combined and individual results', 'start values of segments', 'previous flow rate and initial content of elements afterwards'])
p('C19', 'Aggregated calculation equates exactly the steps of same-cluster periods',
  'In an aggregated calculation, corresponding steps (first step of a period excepted) of periods assigned to the same typical period have equal binary decisions, and also equal continuous time-dependent variables if data is aggregated, for exactly the chosen components (storages only if requested). With period freedom, at most the given share of binary values per variable may deviate, each at its penalty; no other coupling or restriction is added and the data used is the aggregated or the original data as requested.',
  ['inputs', 'configurations', 'histories'], 'all period lengths and counts, aggregation options, component subsets, storages, time series groups/weights/peaks, index windows',
  'One configuration is tested for total costs only.',
  ['flixOpt/aggregation.py', 'flixOpt/calculation.py'], [('index pairs and equations', 'flixOpt/aggregation.py: get_equation_indices, AggregationModel'), ('insertion of aggregated data', 'flixOpt/aggregation.py: TimeSeriesCollection.insert_data')],
  ['results of aggregated calculations', 'the optimisation problem handed to the solver'])
p('C20', 'Calculations are repeatable and independent of what was calculated before',
  'The outcome of a calculation depends only on the flow system as the user defined it and on the calculation\'s own parameters, not on calculations (full, windowed, segmented or aggregated, successful or not) done before with the same system or the same parameter objects. Results always belong to the latest solve of that calculation, and results obtained earlier are not changed by later calculations.',
  ['histories', 'fault_sequences'], 'all sequences of creating, modelling, solving, re-solving calculations of all types on one flow system, incl. failing ones',
  'Each test builds a fresh system and runs one calculation; sequences are not tested.',
  ['flixOpt/calculation.py', 'flixOpt/core.py', 'flixOpt/structure.py', 'flixOpt/effects.py'], [('clearing of activated data', 'flixOpt/structure.py: _create_time_series; flixOpt/core.py: TimeSeries'), ('result caching', 'flixOpt/calculation.py: Calculation.results')],
  ['results after each calculation of a sequence'])
p('C21', 'Saved results reload to the same values, structure and signs',
  'Everything a calculation returns as results is found again, with the same values, after saving and reloading, together with the time stamps, step lengths and the role of every flow. Tables made from reloaded results list for a bus or component exactly its flows and excess with inputs negative and outputs positive (or as asked), so that the columns of a bus sum to zero in every step; columns are only dropped if negligible, and rows match the time stamps.',
  ['inputs', 'configurations', 'histories'], 'all flow systems and calculation types, all time resolutions, all table options',
  'One reload test compares a single value; tables, signs, other resolutions and calculation types are not compared.',
  ['flixOpt/results.py', 'flixOpt/calculation.py', 'flixOpt/structure.py', 'flixOpt/utils.py'], [('serialisation', 'flixOpt/structure.py: copy_and_convert_datatypes; flixOpt/calculation.py: _save_solve_infos'), ('reconstruction', 'flixOpt/results.py: CalculationResults')],
  ['reloaded results', 'tables'])
p('C22', 'Registering elements is all-or-nothing and keeps labels unique',
  'Every element added to a flow system is part of every later calculation exactly once. Adding an element whose label is already used by a different element (component, effect, flow of the same component, or bus), or adding the same element or a second standard or objective effect, raises an error, and no registered element is ever silently replaced or dropped; a rejected addition leaves the system as it was.',
  ['histories', 'inputs'], 'all sequences of additions of components, buses (through their flows) and effects, with colliding and non-colliding labels',
  'No test adds colliding elements in different orders; the effect of a dropped bus or component is a silently weaker problem.',
  ['flixOpt/flow_system.py', 'flixOpt/effects.py', 'flixOpt/elements.py'], [('uniqueness checks', 'flixOpt/flow_system.py: _check_if_element_is_unique, add_components; flixOpt/effects.py: EffectCollection.add_effect')],
  ['exceptions of add_elements', 'elements and balances of the resulting problem'])
p('C23', 'The solver receives exactly the equations that were stated',
  'An equation or inequation built from summands (variable, factor scalar or vector, selected indices, optionally summed) and constants reaches the solver as exactly those rows: row i holds the i-th selected index and factor of each vector summand, scalar parts repeated in every row, sums over exactly the selected indices, constants accumulated, with the stated direction. Variables have exactly the stated bounds, fixed values and integrality, parts whose lengths do not fit are rejected with an error, and solution values are returned in index order.',
  ['histories', 'inputs'], 'all sequences of adding summands and constants of scalar/vector shapes in any order, all index selections, all variable kinds',
  'The equation layer has no test of its own; only the shapes used by the example systems run.',
  ['flixOpt/math_modeling.py', 'flixOpt/utils.py'], [('translation', 'flixOpt/math_modeling.py: PyomoModel'), ('lengths and vectors', 'flixOpt/math_modeling.py: _Constraint, Summand; flixOpt/utils.py: as_vector')],
  ['the model handed to the solver', 'exceptions', 'variable results'])
p('C24', 'Time-dependent data always yields the values of the active time steps',
  'A time-dependent value yields in every state exactly the user data at the currently selected indices, or the aggregated data if and only if such was inserted for the current calculation; constant arrays behave as scalars with the same values. Selecting new indices, inserting aggregated data and resetting in any order never leaves behind older selections or data, never alters the user\'s data, and never exchanges data between two values.',
  ['histories', 'inputs'], 'all sequences of select, insert, reset and read on any number of scalar, array and constant series',
  'No test touches these transitions directly; each test makes one pass.',
  ['flixOpt/core.py', 'flixOpt/structure.py', 'flixOpt/aggregation.py'], [('activation state', 'flixOpt/core.py: TimeSeries'), ('collection and insertion', 'flixOpt/aggregation.py: TimeSeriesCollection')],
  ['values read from time series'])
p('C25', 'The summary of a calculation says what its results say',
  'The main results and the saved infos of a calculation list, for every effect, the operation and investment parts and their sum that belong to the behaviour in the results; the penalty and the objective (objective effect plus penalty); a bound not above the objective; exactly the buses at which energy was lacking or in surplus; every investment decision exactly once, as invested if and only if something is built, with its size; and the number of selected time steps, name and kind of the calculation. Solving again, or modelling and solving other calculations of the same system, leaves it so.',
  ['inputs', 'histories'], 'any system with effects, investments (optional, fixed, of storages, transmissions), excess at buses, partial selection of time steps, followed by other calculations of the same system',
  'Tests compare single numbers of the summary of a few systems; lists of investments and buses are never compared with the results, nor the saved file.',
  ['flixOpt/structure.py', 'flixOpt/calculation.py'], [('main results', 'flixOpt/structure.py: SystemModel.main_results, SystemModel.infos'), ('infos file', 'flixOpt/calculation.py: Calculation._save_results')],
  ['main_results', 'infos', 'the saved infos file'])
p('C26', 'Figures, heat maps and network drawings show exactly the results',
  'A figure of a table of results draws every column exactly once, at its time steps and with its values (values closer to zero than the documented threshold may be drawn as zero in stacked areas); bars and areas are stacked upwards for positive and downwards for negative parts without overlap, columns with both signs are not stacked as areas, a storage is drawn with its content. A heat map places every value in the column of its period and the row of its step in the period, shows the mean of the values in a step, and nothing or what the neighbour shows where there is none, for every supported pair of period and step and at any date. The drawing of the network has exactly the components, buses and flows of the system, arrows pointing in flow direction. Drawing alters neither the tables and figures handed over nor the results.',
  ['inputs'], 'tables with any signs, zeros, irregular and unsorted time stamps across day, week, month, leap and year boundaries; results of any system',
  'No test looks at what a figure contains; the examples only open them.',
  ['flixOpt/plotting.py', 'flixOpt/results.py', 'flixOpt/flow_system.py'], [('figures', 'flixOpt/plotting.py: with_plotly, with_matplotlib, heat_map_data_from_df, heat_map_plotly, heat_map_matplotlib, reshape_to_2d'), ('figures of results', 'flixOpt/results.py: plot_operation, plot_storage, visualize_network'), ('network', 'flixOpt/flow_system.py: network_infos')],
  ['contents of plotly and matplotlib figures and pyvis networks'])
p('C27', 'Descriptions of a system say exactly what was stated',
  'The description of a flow system (infos, to_json, its printed form, and the data and infos saved with results) lists every component with its inputs and outputs, every bus used and every effect exactly once, with its class and every stated argument that is not a default, nested parameters included, with its value: time-dependent values are the stated ones or, once a calculation selected time steps, the stated values at those. Nothing that was not stated is said, apart from effective defaults of sizes. In compact form series are rounded to two decimals and long ones replaced by their true statistics. Describing and calculating do not alter the data of the user.',
  ['inputs', 'configurations'], 'all elements, all combinations of arguments, all forms of data (scalars, lists, arrays, time series data), before and after modelling any selection of time steps',
  'No test reads a description; the arguments of some twenty classes combine in endless ways, and a dropped or altered argument in the saved documentation of a study is noticed long after.',
  ['flixOpt/structure.py', 'flixOpt/flow_system.py', 'flixOpt/elements.py', 'flixOpt/calculation.py'], [('descriptions', 'flixOpt/structure.py: Interface.infos, to_json, copy_and_convert_datatypes, get_compact_representation, get_str_representation'), ('system', 'flixOpt/flow_system.py: FlowSystem.infos, to_json'), ('flows', 'flixOpt/elements.py: Component.infos, Flow.infos')],
  ['infos(), to_json, str(), <name>_data.json, <name>_infos.yaml'])
p('C28', 'Contradictory definitions are refused, admissible ones accepted',
  'A definition that cannot be meant ends in an error, at the latest when the calculation is modelled, never in a silently different model: a flow whose minimum exceeds its maximum in any step; time-dependent data (of any argument) of another length than the number of time steps (limits of storage contents: one more); a converter with neither or both of factors and segments, with as many equations as flows or more, with an equation over a flow of another component, or with segments and a flow of undecided size; a transmission whose second direction does not join the same two buses, or with an investment stated elsewhere than at its first input; an undefined start of a storage; time steps running backwards; a weight together with a group for aggregation; effects used but not added, an unnamed effect without a standard effect, no objective; aggregation of uneven steps or with periods that are no whole number of steps; invalid values in a configuration file or assignment, which leave the configuration in effect. Every definition without such a contradiction is accepted, and a valid configuration is in effect as stated.',
  ['inputs', 'configurations', 'histories'], 'all definitions up to a size, grown piece by piece; all sequences of loading, assigning and changing settings up to a length',
  'No test makes a contradictory definition; the combinations that must be told apart are thousands, and one that slips through becomes a solved model of something else.',
  ['flixOpt/elements.py', 'flixOpt/components.py', 'flixOpt/core.py', 'flixOpt/effects.py', 'flixOpt/calculation.py', 'flixOpt/utils.py', 'flixOpt/config.py'], [('checks of definitions', 'flixOpt/components.py, elements.py: _plausibility_checks'), ('lengths', 'flixOpt/utils.py: as_vector; core.py: TimeSeries'), ('time axis', 'flixOpt/utils.py: check_time_series'), ('effects', 'flixOpt/effects.py: EffectCollectionModel'), ('configuration', 'flixOpt/config.py: CONFIG, ValidatedConfig')],
  ['errors raised while defining and modelling', 'CONFIG'])
with open(pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
