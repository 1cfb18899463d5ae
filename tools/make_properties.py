"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/pymgrid/' + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
MG, STEP = 'microgrid/microgrid.py', 'microgrid/utils/step.py'
BASE, TS = 'modules/base/base_module.py', 'modules/base/timeseries/base_timeseries_module.py'
MODS = ['modules/battery_module.py', 'modules/genset_module.py', 'modules/grid_module.py', 'modules/load_module.py',
        'modules/renewable_module.py', 'modules/unbalanced_energy_module.py']
TESTS = 'The unit tests sample one or two module mixes with hand-picked constant series and actions; '

prop('C01', 'Every step conserves energy and the logged totals are true',
     'On every step of a microgrid, the energies its modules report providing add up to the energies its modules report absorbing, '
     'every reported energy is finite and non-negative, and the logged fixed, controllable and overall totals are the sums of exactly those reported energies. '
     'A microgrid without a balancing module whose modules cannot balance raises an error for that step instead of returning, and one whose modules do balance does not raise.',
     ['inputs', 'configurations', 'histories'], 'every module mix (several modules per name included), series, action, and history of steps, resets, copies and reloads',
     TESTS + 'conservation must hold for every mix, action and reachable state.',
     [MG, STEP] + MODS, [('balance of controllable then flex modules, final isclose check', MG + ' run'), ('energy totals', STEP + ' append, balance')],
     ['info returned by run()', 'balance columns of the log', 'per-module energy columns of the log'])
prop('C02', 'Battery charge stays within capacity and follows its efficiency exactly',
     "A battery's charge is always between its minimum and maximum capacity and its state of charge is always charge divided by maximum capacity; each step changes the charge by exactly absorbed energy times efficiency or minus provided energy divided by efficiency (or by what a custom transition model returns for that step), and by nothing on reset. "
     'The energy provided in a step never exceeds efficiency times the smaller of the discharge limit and the charge above minimum, and the energy absorbed never exceeds the smaller of the charge limit and the free capacity divided by efficiency.',
     ['inputs', 'histories', 'configurations'], 'every battery parameterisation, initial charge, action sequence, and interleaving with resets, copies and reloads',
     TESTS + 'batteries are tested for single transitions at round numbers with efficiency 0.9 or so, not for long histories with rounding at both limits.',
     ['modules/battery_module.py', BASE], [('max_production/max_consumption limits', 'modules/battery_module.py'), ('charge update and clamps', 'modules/battery_module.py _update_state'), ('transition model', 'modules/battery_module.py model_transition')],
     ['battery soc/current_charge state before and after each step', 'info of the step'],
     [('charge', 'energy stored', 'modules/battery_module.py _current_charge')])
prop('C03', 'Gensets obey start-up and wind-down times and production limits',
     'A genset asked to change status changes it after exactly its start-up or wind-down time of further requests (at once if the time is zero); asking for the current status aborts a change in progress and restarts its countdown, unless abortion is disallowed, in which case the change completes. '
     'A genset that is off produces nothing and one that is on always produces between its running minimum and maximum; its status, goal and countdown are reported in its state, and its advertised status and production limits for a prospective request are those that take effect if the request is made.',
     ['inputs', 'histories', 'configurations'], 'every start-up and wind-down time, abortion setting, initial status and sequence of goals and energy requests',
     'Tests walk a few goal sequences with small times; the guarantee is over every interleaving of requests, aborts and re-requests for every pair of times.',
     ['modules/genset_module.py'], [('status state machine', 'modules/genset_module.py update_status'), ('prediction', 'modules/genset_module.py next_status'), ('limits', 'modules/genset_module.py max_production, min_production')],
     ['genset state_dict before and after each step', 'info of the step', 'next_* queries'],
     [('status, goal, countdowns', 'genset status', 'modules/genset_module.py')])
prop('C04', 'Grid imports and exports respect limits and outages, at the current price',
     'In every step a grid module imports at most its import limit and exports at most its export limit, and neither imports nor exports anything while its series marks an outage. '
     'Imports are charged the import price and CO2 cost of the same time step, exports are credited the export price of that step and emit no CO2, and reported CO2 equals imported energy times the CO2 intensity of that step; a series without a status column means the grid is always available.',
     ['inputs', 'configurations', 'histories'], 'every price, CO2 and outage series, limits (zero included), action, and step of every episode',
     TESTS + 'grids are tested with constant series, so the value of a neighbouring step, or a limit ignored in a rare outage, goes unnoticed.',
     ['modules/grid_module.py', TS, BASE], [('status-scaled limits', 'modules/grid_module.py max_production, max_consumption'), ('cost', 'modules/grid_module.py get_cost, get_co2_production')],
     ['info and reward of the grid in each step', 'grid log columns', 'grid state'])
prop('C05', 'The reward is minus the sum of the documented costs of that step',
     'The reward of a step is the sum over modules of: minus cycle cost times the absolute change of stored energy for batteries, minus fuel cost and CO2 cost of production for gensets, minus import and CO2 cost or plus export revenue for grids, minus loss-load cost per unmet unit and overgeneration cost per excess unit for the balancing module, and zero for loads and renewables. '
     'Each module logs exactly its own term and the log of the microgrid holds their sum.',
     ['inputs', 'configurations', 'histories'], 'every module mix, cost setting (callable fuel costs included), action and step',
     TESTS + 'rewards are compared with literals for a few actions.',
     [MG, STEP] + MODS, [('module costs', 'modules/*_module.py get_cost'), ('accumulation', STEP + ' append')],
     ['reward returned by run()', 'reward columns of the log'])
prop('C06', 'Loads are drawn in full and imbalance is resolved in the documented order',
     'In every step each load draws exactly the demand of its series at that step, and each renewable reports used plus curtailed energy equal to what its series makes available; a series may be given in either sign, and one that mixes signs is rejected. '
     'After loads and controllable modules have acted, a deficit is covered by renewables in order as far as they go and only the remainder is loss load, while an excess uses no renewable energy and is absorbed entirely as overgeneration; loss load and overgeneration are never both positive, and loss load never occurs while renewable energy is curtailed.',
     ['inputs', 'configurations', 'histories'], 'every mix of loads, renewables and controllable modules, series and actions',
     TESTS + 'the dispatch order is only visible with several renewables, partial coverage and exact ties.',
     [MG, 'modules/load_module.py', 'modules/renewable_module.py', 'modules/unbalanced_energy_module.py', 'modules/module_container.py'],
     [('flex dispatch', MG + ' run'), ('order of flex modules', 'modules/module_container.py')],
     ['info returned by run()', 'log columns load_met, renewable_used, curtailment, loss_load, overgeneration'])
prop('C07', 'All modules share one clock; episodes have exactly the configured length',
     'After every step the time step of the microgrid and of each of its modules has advanced by exactly one, and after a reset it is the initial step. '
     'A step reports done exactly when it consumed the last time step before the final step (or a later one), so that an episode started by a reset has final minus initial steps, and in a microgrid with no time series no step reports done; initial and final steps set on a microgrid apply to all of its modules, and a final step not after the initial step is rejected.',
     ['histories', 'configurations', 'inputs'], 'every history of steps, resets, step-window changes, copies and reloads, over every initial and final step',
     'Tests run one episode of a few lengths; drift between module clocks or an off-by-one at the end needs particular windows and histories.',
     [MG, BASE, TS], [('module clock', BASE + ' _update_step'), ('done', TS + ' _done'), ('window setters', MG + ' _set_initial_step, _set_final_step')],
     ['current_step of the microgrid and modules', 'done of each step'])
prop('C08', 'The log has one true row per step since the last reset',
     'The log of a microgrid has exactly one row for every step run since construction or the last reset, indexed by the time step the row describes, with one set of columns per module, numbered within its name. '
     "Each row holds each module's state before that step (for a genset, its status once the request of that step took effect), and the reward and energies it reported for that step, with zero where a module did not act; the balance columns hold the energies of the fixed, the controllable and all modules together; a module's own log and its last logged values are those rows; if asked to, the returned frame drops the module number when every name has one module, logs returned earlier are not altered by later steps or resets, and a reset returns the balance rows that it discards.",
     ['histories', 'configurations', 'inputs'], 'every history of steps, resets, changes of initial step, forecasters, copies and reloads',
     'Tests compare a log of a few steps; rows shifted against steps, or columns of the wrong module, need multi-module microgrids and longer histories.',
     [MG, BASE, 'utils/logger.py'], [('module log', BASE + ' step, _log'), ('frame', MG + ' get_log'), ('logger', 'utils/logger.py ModularLogger')],
     ['get_log()/log after each operation, compared with a recorded history of state_dict and run() outputs'])
prop('C09', 'Normalized and unnormalized actions are equivalent, and sampled ones feasible',
     'Normalizing maps the bounds of an action or observation space affinely onto [0, 1] and denormalizing inverts it, for modules and whole microgrids alike; action bounds are minus the most a module could ever absorb and the most it could ever provide. '
     'Running a normalized action has exactly the effect of running its denormalized counterpart unnormalized; a sampled action lies in the action space, and one sampled with strict bounds requests no more energy than the module can currently exchange in that direction.',
     ['inputs', 'configurations', 'histories'], 'every module parameterisation (degenerate spaces included), state and action',
     'Tests check a few values on unit ranges.',
     ['utils/space.py', BASE, MG], [('affine maps', 'utils/space.py ModuleSpace, MicrogridSpace'), ('step', BASE + ' step'), ('sampling', BASE + ' sample_action')],
     ['to_normalized/from_normalized', 'paired runs on copies', 'sample_action'])
prop('C10', 'Observations are the normalized current state',
     "After construction, every step, reset and reload, a module's state is the value of its series at the current time step followed by its forecasts (or charge for batteries, and status and countdowns for gensets), and past the end of the series its value is the middle of its bounds. "
     'Observations returned by steps and resets, normalized state dictionaries and state series are that state mapped affinely from its observation bounds onto [0, 1], and lie in [0, 1]; the current and forecast prices, emissions and status that a grid reports, and current load and renewable energy, are those of the state.',
     ['inputs', 'histories', 'configurations'], 'every series, module mix and history, including the last step and beyond',
     'Tests check a few observations of single modules.',
     [MG, BASE, TS, 'utils/space.py'], [('state', TS + ' _state_dict, current_obs'), ('normalization', BASE + ' to_normalized')],
     ['obs returned by run() and reset()', 'state_dict()', 'state_series()'])
prop('C11', 'Forecasts describe the next steps of the series and stay within bounds',
     'At every time step the forecast of a module with horizon h has exactly h entries per component, entry k describing k+1 steps ahead: the oracle forecaster gives the true values, a noisy one the true values plus noise clipped to the observation bounds (the true values themselves if its standard deviation is zero), a user-defined one what its function returns clipped to the bounds, and entries beyond the end of the series are the middle of the bounds. '
     'A forecaster, horizon or series set on a microgrid or a module at any time applies to exactly the modules it names and takes effect on the current state and bounds at once; without a forecaster there are no forecast entries.',
     ['inputs', 'histories', 'configurations'], 'every series, horizon, forecaster, and time at which it is set, over all steps including the end of the series',
     'Tests check forecasters at isolated steps, mostly away from the end of the series and with single-component series.',
     ['forecast/forecaster.py', TS, MG], [('forecast window', TS + ' forecast'), ('pad and clip', 'forecast/forecaster.py'), ('set_forecaster', MG)],
     ['forecast entries of state_dict and forecast()'])
prop('C12', 'A saved microgrid loads as an equal one that behaves identically',
     'Dumping a microgrid, an environment or a module, to a string or a file, at any point of any history and loading it gives an equal object: same modules, names and order, parameters, state, time step, episode window, forecasts, log, trajectory and reward-shaping function. '
     'From there the loaded and the original give identical observations, rewards, done flags, information and logs for the same actions, and dumping leaves the original unchanged.',
     ['histories', 'crash_points', 'configurations'], 'every module mix and every point of a history at which the state is saved',
     'Tests round-trip a few fresh or once-stepped objects and compare equality at that point only.',
     ['utils/serialize.py', MG, BASE, TS, 'utils/logger.py', 'microgrid/trajectory/base.py', 'microgrid/reward_shaping/base.py', 'envs/base/base.py'],
     [('to_yaml/from_yaml', BASE + ', ' + MG), ('array files', 'utils/serialize.py')],
     ['dump/load and paired continuation of original and loaded'])
prop('C13', 'Microgrids own their modules and share nothing with their inputs or copies',
     'Building a module, microgrid, environment or rule-based controller, or running steps on it, never changes the modules, arrays, microgrids or control dictionaries it was given, and later changes to those do not affect it. '
     'A deep copy of a microgrid, a microgrid built from the same modules, and another loaded from the same text evolve independently of it.',
     ['histories', 'configurations', 'inputs'], 'every module mix and interleaving of steps on objects built from shared inputs',
     'Tests never interleave two microgrids built from the same modules.',
     [MG, 'modules/module_container.py', 'envs/base/base.py', 'algos/rbc/rbc.py', TS], [('deepcopy on construction', MG + ' _get_module_container'), ('series copied', TS + ' _set_time_series')],
     ['snapshots of every shared object before and after operations on another'])
prop('C14', 'Runs are reproducible, and queries have no side effects',
     'Two identically built microgrids given the same actions (and the same global random seed when a forecaster or trajectory is random) produce identical observations, rewards, done flags, information and logs, and a deep copy taken mid-episode continues exactly like the original. '
     'Reading logs, states, spaces, limits, forecasts or representations between steps never changes what later steps return.',
     ['histories', 'configurations', 'inputs'], 'every configuration, action sequence and placement of queries and copies',
     'Tests never run the same history twice with different queries in between.',
     [MG, BASE, TS, STEP], [('state only changed by steps, resets and setters', MG + ' run')],
     ['paired executions'])
prop('C15', 'Discrete environment actions are all deployment orders, deployed faithfully',
     'The discrete environment has exactly one action for every order in which its controllable modules can be deployed combined with every on/off choice per genset (off choices removed for gensets without a minimum production, if so requested). '
     'A step with an action deploys the modules in that order, each covering as much of the demand remaining after renewables as its current limits allow (at least its minimum production if it will be running) or absorbing as much of the remaining surplus as it can, and every action is executable in every reachable state; a remainder of at most 1e-4 units counts as covered.',
     ['inputs', 'histories', 'configurations'], 'every mix of controllable modules, genset settings, state and action',
     'Tests count actions for a few mixes and deploy a few of them.',
     ['envs/discrete/discrete.py', 'algos/priority_list/priority_list.py', 'algos/priority_list/priority_list_element.py'],
     [('enumeration', 'algos/priority_list/priority_list.py get_priority_lists'), ('deployment', 'algos/priority_list/priority_list.py _populate_action')],
     ['action_space, actions_list', 'energies in the log of env.step(action)'])
prop('C16', 'Rule-based control deploys the cheapest modules first, for a whole episode',
     'Without an explicit priority list, rule-based control deploys controllable modules in order of non-decreasing marginal cost, and with a valid explicit list in that order; in each step each module covers as much of what remains (more than 1e-4 units) as it can before the next one is used. '
     'A run starts from a reset, lasts until the episode is done or the requested number of steps, returns its log, and does not touch the microgrid it was built from; an invalid priority list is rejected.',
     ['inputs', 'configurations', 'histories'], 'every microgrid, priority list, starting state and number of steps',
     'Tests run a handful of microgrids and compare with literals.',
     ['algos/rbc/rbc.py', 'algos/priority_list/priority_list.py'], [('priority list', 'algos/rbc/rbc.py _get_priority_list'), ('run', 'algos/rbc/rbc.py run')],
     ['log returned by run()', 'priority_list'])
prop('C17', 'Model predictive control plays feasible, horizon-optimal actions',
     'On a modular microgrid with a battery, load, renewable and optional grid and genset without start-up times, every step of model predictive control plays the first step of a minimum-cost plan over its forecast horizon: a plan that covers the forecast load by renewable, battery, grid (zero in outages), genset (off, or between its minimum and maximum) and lost load, within all limits and the battery\'s capacity and efficiency, and whose cost counts fuel and CO2, imports and their CO2 less export revenue, battery cycling per unit exchanged, and lost load. Where charging and discharging (or importing and exporting) at once would make a plan cheaper, the difference is played. '
     'The run starts from a reset, lasts until the episode is done or the requested number of steps, and its log is that of the microgrid.',
     ['inputs', 'configurations', 'histories'], 'every such microgrid, series, outage pattern, starting charge and horizon',
     'Tests check a few constant-series microgrids for the dispatched amounts.',
     ['algos/mpc/mpc.py'], [('problem', 'algos/mpc/mpc.py _create_problem, _set_parameters'), ('receding horizon', 'algos/mpc/mpc.py _run_mpc_on_modular'), ('control', 'algos/mpc/mpc.py _extract_modular_control')],
     ['log of run(), compared with an independent optimiser'])
prop('C18', 'Converting between modular and non-modular microgrids preserves the system',
     'Converting a non-modular microgrid to a modular one, or back, preserves its components, load, renewable, price, CO2 and outage series, limits, capacities, efficiency, state of charge, and cost parameters. '
     'Driven by the same feasible dispatch, both give the same production, unmet load, excess, state of charge and costs in every step (apart from battery cycling, which non-modular microgrids charge per unit exchanged and modular ones per unit stored). A converted non-modular microgrid starts from the first row of the series, however far the modular one has run. Microgrids with several modules of a kind, without a load, or with unknown kinds of module are rejected, and converting changes neither the original nor the global random state.',
     ['inputs', 'configurations', 'histories'], 'every generated architecture, parameterisation, series and feasible dispatch',
     'Tests compare a few attributes right after conversion.',
     ['convert/convert.py', 'convert/get_module.py', 'convert/to_nonmodular_ops.py', '_deprecated/non_modular_microgrid.py'], [('to_modular', 'convert/get_module.py'), ('to_nonmodular', 'convert/to_nonmodular_ops.py')],
     ['attributes of both objects', 'paired runs'])
prop('C19', 'The non-modular simulator conserves energy, clips commands and sums its costs',
     'Every step of a non-modular microgrid records battery, grid and genset flows clipped to their power limits (and battery charge to the free capacity times the efficiency, discharge to the charge above minimum times the efficiency), and renewable use, curtailment, unmet load and excess that balance the load to within a thousandth of a unit. '
     'State of charge follows the recorded battery flows and efficiency, CO2 and each recorded cost equal their rate times the recorded flow at that time step, the total is their sum, and the step moves on to the next row of every series until the end of the data; a reset returns to the first row with empty records. Forecasts are the next rows of the data in use, of which a training and testing split are consecutive parts, and the penalty of a step is the total difference between commands and recorded flows.',
     ['inputs', 'histories', 'configurations'], 'every architecture, parameterisation, series, command (out-of-range included) and history',
     'Tests check single helper calls with literals.',
     ['_deprecated/non_modular_microgrid.py'], [('clipping', '_check_constraints_*'), ('records', '_record_production, _record_cost, _record_co2, _update_status'), ('clock', 'run, update_variables')],
     ['records and returned values of run()'])
prop('C20', 'Generated microgrids are well formed, runnable and reproducible from their seed',
     'For every seed and number requested, the generator returns that many microgrids, each with load, renewable and battery and at least a grid or a genset, a genset whenever the grid is weak, year-long non-negative series, component sizes derived from the load as documented, prices from one of the tariffs, and an initial state of charge within limits; modular ones run an episode without error. '
     'The same seed gives identical microgrids, and many draws are varied: every architecture, tariff and grid strength occurs, and weak grids have outages.',
     ['inputs', 'configurations'], 'every seed and number of microgrids',
     'Tests use one or two seeds.',
     ['MicrogridGenerator.py', 'convert/get_module.py'], [('sizing and architecture', 'MicrogridGenerator.py _create_microgrid, _size_mg'), ('series', 'MicrogridGenerator.py _get_random_file, _scale_ts')],
     ['microgrids of generate_microgrid(modular=True/False)'])
prop('C21', 'Requests beyond a module\'s limits are clipped, or rejected if so configured',
     'A request for more energy than a module can currently provide or absorb is executed at its current limit, and one below a running minimum at that minimum; a feasible request is executed exactly as asked. '
     'If the module is configured to raise errors, infeasible requests raise a ValueError and feasible ones do not; requests in a direction the module cannot act in, controls with a missing, too few or too many values, and goals outside [0, 1] are rejected with an error (incomplete controls before any module has stepped), while unknown control names are only warned about.',
     ['inputs', 'configurations', 'histories'], 'every module type and state and every request from minus to plus infinity, directly or through a microgrid',
     'Tests try a few requests per module from its initial state.',
     [BASE, MG] + MODS, [('clipping and errors', BASE + ' as_source, as_sink'), ('control parsing', MG + ' run')],
     ['info or exception of step() and run()'])
prop('C22', 'Shaped rewards replace the returned reward and nothing else',
     'With a reward-shaping function, every step calls the function exactly once, after all modules have acted, and returns exactly what it gives for the information of that step and the modules\' current marginal costs, and logs both the shaped and the unshaped reward; without one both are the unshaped reward, and shaping never changes the physics of the microgrid. '
     'The curtailment shaper gives minus the total curtailment of the modules named pv, and the battery shaper the difference of total battery discharge and loss load relative to total load, limited to [-1, 1] and zero without load.',
     ['inputs', 'configurations', 'histories'], 'every module mix, shaping function, action and history',
     'Tests use one or two shapers on a fixed microgrid.',
     ['microgrid/reward_shaping/base.py', 'microgrid/reward_shaping/pv_curtailment_shaper.py', 'microgrid/reward_shaping/battery_discharge_shaper.py', STEP, MG],
     [('shaping', STEP + ' shaped_reward'), ('cost info', MG + ' get_cost_info')],
     ['reward returned by run()', 'reward and shaped_reward in the log', 'arguments received by a recording shaper'])
prop('C23', 'Trajectories give episodes over exactly the chosen window',
     'With a trajectory function, each reset calls it once with the configured initial and final steps and the following episode runs from exactly the initial to the final step it returned; the configured window itself does not change however often the microgrid is reset. '
     'The provided trajectories always return a non-empty window within the configured one, of the requested length or bounds where they have one, and a trajectory function returning an invalid window is rejected at construction.',
     ['inputs', 'histories', 'configurations'], 'every window, trajectory function, random seed and sequence of resets',
     'Tests reset a few times with one window.',
     ['microgrid/trajectory/deterministic.py', 'microgrid/trajectory/stochastic.py', MG], [('validation', MG + ' _check_trajectory_func'), ('reset', MG + ' _set_trajectory')],
     ['calls to a recording trajectory function', 'current_step and done over episodes'])
prop('C24', 'Every module appears once, in order, in each view it belongs to',
     'A microgrid holds each module it was given (and the default balancing module if requested) exactly once: under its name, numbered in the order given among modules of the same name, and in exactly the fixed, flexible or controllable view and source, sink or both view that it belongs to. '
     'All views, by name, attribute, list, dictionary or tuple, agree on these modules, attribute queries report each module\'s value, setting an attribute sets it on exactly the modules that have it, and identically named modules of different kinds or objects that are not modules are rejected.',
     ['configurations', 'inputs'], 'every list of modules, named or not, of every kind',
     'Tests check a few lists.',
     ['modules/module_container.py', MG], [('containers', 'modules/module_container.py get_subcontainers, Container')],
     ['modules.* views, names, get_attrs'])
prop('C25', 'All benchmark scenarios load and run to the end with every guarantee',
     'Each of the 25 benchmark scenarios loads, as a microgrid or an environment, to the same system every time, the one on record: year-long series, a load, a renewable, a battery and a grid or genset. '
     'Each runs whole episodes, under random actions and rule-based control, with energy conserved, limits, state of charge and outages respected and rewards equal to the documented costs at every step, and any other scenario number is rejected.',
     ['configurations', 'histories', 'inputs'], 'all 25 scenarios, actions and steps of the year',
     'Tests run a few steps of some scenarios.',
     [MG, 'envs/base/base.py', 'utils/serialize.py'] + MODS, [('loading', MG + ' from_scenario, from_yaml')],
     ['info and logs over episodes'])
prop('C26', 'Environments follow the gym contract',
     'For every environment, flat or nested, observations from resets and steps lie in its observation space, any action sampled from its action space is accepted, done ends exactly the episodes of the underlying microgrid, and rewards are those of the microgrid. '
     'A flat observation holds each normalized state value exactly once, restricted to the requested observation keys if any, in the same position at every step; an environment made from a microgrid behaves as that microgrid does.',
     ['configurations', 'inputs', 'histories'], 'every microgrid, space setting, set of observation keys and history',
     'Tests construct environments and take single steps.',
     ['envs/base/base.py', 'envs/discrete/discrete.py', 'envs/continuous/continuous.py'], [('spaces', 'envs/base/base.py _get_observation_space'), ('observation', 'envs/base/base.py _get_obs')],
     ['observations, spaces and outputs of step() and reset()'])
prop('C27', 'Controllers of non-modular microgrids plan optimally and record truly',
     'On a non-modular microgrid with a battery, each step of model predictive control commands the first step of a minimum-cost plan over the next horizon rows of its series (cost as counted by the simulator, lost load included). '
     'Each step of rule-based control uses renewable energy first, then the battery and an available grid (the battery first if the export price over the squared efficiency is below the import price), then the genset, which runs at its minimum at least if neither grid nor battery and renewable suffice; surplus renewable energy goes to battery and grid in the same order. '
     'A run has length minus horizon steps, starts from the first row, and its records of flows, state, emissions and costs are what the simulator gives for the recorded commands; described benchmark totals are the sums of the recorded costs, outputs compare by them, and converting an output to a table does not change it.',
     ['inputs', 'configurations', 'histories'], 'every non-modular microgrid with a battery, series, outage pattern and horizon',
     'There are no tests of these controllers.',
     ['algos/mpc/mpc.py', 'algos/rbc/_nonmodular_rbc.py', 'algos/Control.py', 'algos/saa/saa.py', '_deprecated/non_modular_microgrid.py'],
     [('MPC', 'algos/mpc/mpc.py _run_mpc_on_sample'), ('rules', 'algos/rbc/_nonmodular_rbc.py _run_priority_based'), ('benchmarks', 'algos/Control.py Benchmarks')],
     ['action, production, status, cost and co2 records of the returned ControlOutput', 'printed totals'])
prop('C28', 'Sampled scenarios respect the data they are drawn from',
     'From whole days of hourly data with sun by day only, the forecast and every sample of sample-average control have columns pv, load and grid and one finite row per hour; pv and load are never negative, pv is zero in the dark hours of the data, '
     'grid status is 0 or 1 and makes no transition that its source never makes, at the frequencies of the source. A pv forecast is a daily parabola from dawn to dusk with its peak within the requested part of the fitted bounds, moved towards the actual values by exactly the requested weights; '
     'load is spread about the mean of its weekday and hour and pv samples about the forecast with the requested deviation. The same numpy seed gives the same samples, and neither sampling nor control changes data or samples. '
     'Sample-average control knows the actual data up to the current step and the samples after it, and commands the first step of an optimal plan for the sample at the requested percentile of planned costs; the reported error of a forecast is its mean relative deviation from the data.',
     ['inputs', 'configurations', 'histories'], 'every series of whole days, noise parameter, preset, seed, number of samples, percentile and horizon',
     'There are no tests of sampling.',
     ['utils/DataGenerator.py', 'algos/saa/saa.py', 'algos/mpc/mpc.py', 'algos/Control.py'],
     [('pv', 'utils/DataGenerator.py NoisyPVData'), ('load', 'utils/DataGenerator.py NoisyLoadData'), ('grid', 'utils/DataGenerator.py NoisyGridData'), ('control', 'algos/saa/saa.py run_mpc_on_group')],
     ['returned samples and forecasts', 'records of the returned ControlOutput'])
prop('C29', 'Malformed configurations and requests are rejected, limit values accepted',
     'Building a module, microgrid, environment or controller from malformed input raises instead of giving an object that computes wrongly: grids with negative limits, prices or emissions, a status other than 0 or 1 or a wrong number of columns; '
     'gensets whose minimum is above their maximum; batteries with an efficiency outside (0, 1] or without an initial charge; forecasters of an unknown kind, or functions that fail, return the wrong number or type of values or the wrong sign; '
     'lists of modules holding what is not a module; unknown observation keys; priority lists that are too short, too long or hold foreign elements; predictive control of microgrids without battery or with two loads. '
     'Environment actions outside the action space are refused and change neither state, clock nor log. Well-formed input at its limits (zero limits and prices, minimum equal to maximum, efficiency one, initial charge at a bound, statuses all 0 or all 1) '
     'and series given as list, tuple, array, integer array, pandas series or frame is accepted, with the values as given.',
     ['inputs', 'configurations'], 'every parameter value, series and action',
     'Tests try a few malformed values of a few parameters; a weakened check only shows for values between those tried.',
     ['modules/grid_module.py', 'modules/genset_module.py', 'modules/battery_module.py', 'modules/base/timeseries/base_timeseries_module.py', 'forecast/forecaster.py', 'microgrid/microgrid.py', 'envs/base/base.py', 'envs/discrete/discrete.py', 'algos/rbc/rbc.py', 'algos/mpc/mpc.py'],
     [('grid', 'modules/grid_module.py _check_params'), ('forecasters', 'forecast/forecaster.py get_forecaster, UserDefinedForecaster'), ('modules', 'modules/module_container.py'), ('actions', 'envs/base/base.py')],
     ['exceptions of constructors and calls', 'state, clock and log around refused actions', 'stored series'])
prop('C30', 'User-defined modules take part in a microgrid like built-in ones',
     'A module that a user writes against the base classes - a fixed source whose series must be taken, a controllable sink, source or store, or a flexible sink, source or store with limits, with or without time series and in any number - is balanced, limited, charged, logged, observed, copied and reloaded like the built-in ones. '
     'Each step the provided and absorbed energies of all modules sum to zero; fixed modules give all of their series; controllable ones give or take what is asked within their current limits (or raise, with raise_errors), normalized requests being mapped over their action bounds; '
     'flexible modules stay within their limits, only absorb in an excess and only provide in a deficit, and no energy is dumped while a flexible sink has room nor load lost while a flexible source has energy left. '
     'The reward is minus the sum of their costs; their logs hold the state before and the energy during each step under the names they chose; all keep the same clock; the microgrid is done at the last row of the series; a deep copy or a reloaded dump behaves the same from there on.',
     ['inputs', 'configurations', 'histories'], 'every combination of built-in and user-defined modules, limits, series, requests and history',
     'Tests define no modules of their own, and no built-in flexible sink but the balancing one exists.',
     ['microgrid/microgrid.py', 'modules/base/base_module.py', 'modules/base/timeseries/base_timeseries_module.py', 'modules/module_container.py', 'microgrid/utils/step.py'],
     [('dispatch', 'microgrid/microgrid.py run'), ('modules', 'modules/base/base_module.py step, as_source, as_sink'), ('categories', 'modules/module_container.py')],
     ['infos, rewards, observations and done of every step', 'log rows', 'levels of the modules'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P))
