prop(
    'C05', 'Simulated time advances by correct steps that end at the requested time',
    'A run starts at 0 s from the given initial temperatures and records one row per step, with strictly increasing time, until '
    'the requested time is reached, and not one step further. Constant steps have the requested length. Adaptive steps stay '
    'below max_stepsize, grow at most by max_factor per step, never move water across more than one cell, and '
    'an accepted step above min_stepsize keeps the error estimate (difference of the first and second order '
    'solution relative to rtol and atol) below the tolerance; with constant steps the recorded truncation error is that estimate. Each recorded step is the second order predictor-corrector '
    '(Heun) step of the energy balances.',
    ['configurations', 'inputs'], 'all networks, time frames, step sizes, tolerances and step control factors',
    'step control depends on the history of the errors; the tests run fixed networks with default settings and assert no step',
    ['multisim/simenv.py', 'multisim/precomp_funs.py'],
    [('step control', 'multisim/simenv.py: _heun, _heun_adaptive, __adaptive_step_control'),
     ('stability check', 'multisim/precomp_funs.py: von Neumann / Courant checks'), ('time frame', 'multisim/simenv.py: set_timeframe, start_sim')],
    'time_vec and res after a run',
    'property-based testing: step invariants plus a replay of recorded steps with an independent Heun step',
    'replayed steps compared to 1e-3 of the change; up to a few hundred steps per case',
)
prop(
    'C06', 'Time series drive the simulation with the value of the right moment',
    'A time series given for an open port, a pump, a valve, an ambient temperature or a set point acts on the simulation with '
    'its own value at the simulated time: interpolated linearly between samples for steps up to the spacing, '
    'within the range of the samples passed for longer steps, for every spacing, step size and '
    'combination of several series; everything without a series stays constant.',
    ['configurations', 'inputs', 'schedules'], 'all series (length, spacing, jumps, ramps), step sizes (constant and adaptive), targets and combinations',
    'an off-by-one sample or a value handed to the wrong target is invisible in the fixed runs of the tests',
    ['multisim/simenv.py', 'multisim/precomp_funs.py', 'multisim/parts/part_modules/base_parts.py'],
    [('series preparation', 'multisim/simenv.py: assign_boundary_cond, _initialize_dynamic_BC'),
     ('series stepping', 'multisim/simenv.py: _update_dyn_BC')],
    'res_dm, res and res_dQ of the driven parts after a run',
    'property-based testing: reference interpolation of the generated series compared with recorded flows, temperatures and switching',
    'flows compared to 1e-9; temperatures by replaying single steps with the reference model',
)
prop(
    'C07', 'Stored results are complete and independent of how they are stored',
    'The results of a run (temperatures, massflows, heating, times) are the same whether they are kept in memory, in arrays that had to grow, or are '
    'written to disk in pieces of any length: no row is lost, duplicated or altered. The store on disk holds exactly the rows of the run '
    '(or their means per resampling slot), dated from the start date, for the cells chosen with store_results at every compression level; the report '
    'gives the true number of steps and time, and load_sim_results returns the stored tables (all or the chosen keys).',
    ['configurations', 'histories'], 'all networks, run lengths, piece lengths (save_every_n_steps), storage options and cell selections',
    'losing a row needs a run length that hits a piece boundary in a special way; the tests never write to disk',
    ['multisim/simenv.py', 'multisim/parts/heated_pipe.py'],
    [('growing and flushing', 'multisim/simenv.py: _free_memory, _finalize_sim, _crop_results'),
     ('final store', 'multisim/simenv.py: _compress_store, return_stored_data, _write_report'),
     ('heating', 'multisim/parts/heated_pipe.py: _special_free_memory, _final_datastore_backcalc')],
    'res, res_dm, res_dQ, time_vec, return_stored_data() and the files written',
    'property-based testing: differential between storage modes, and a reference resampling',
    'bit-equal comparison up to 1e-12; files in a scratch folder',
)
prop(
    'C08', 'Results depend only on the described system',
    'The same description gives the same results every time, also when other simulations are built or run in between; '
    'neither the order in which parts, connections and boundary conditions are added, nor the side from which a connection is given, '
    'nor the names of the parts, nor an unconnected second system in the same environment changes the result.',
    ['configurations', 'histories'], 'all networks, permutations of the description, renamings and combinations of systems',
    'the tests use one order per network and one network per environment',
    ['multisim/simenv.py', 'multisim/flownet.py', 'multisim/precomp_funs.py'],
    [('assembly', 'multisim/simenv.py: _build_simenv, connect_ports, _get_port_connections'),
     ('flow net', 'multisim/simenv.py: flow net construction and _update_FlowNet')],
    'results of runs of equivalent descriptions',
    'property-based testing: metamorphic relations (repetition, permutation, renaming, union of systems)',
    'repetitions have to be bit-equal, equivalent descriptions equal to 1e-9',
)
prop(
    'C10', 'PID controllers follow the control law for every setting and history',
    'For every history of process values and step lengths a PID controller (terms P, I, D and their combinations, Ziegler-Nichols or manual '
    'coefficients, continuous or discrete form, normal or inverted, fixed set point, series or reference part with a difference, '
    'deadtime, anti-windup, saturation, slope) gives the output of its control law, and what it gives is what the actuator '
    'does in the simulation: error = set point - process value (sign changed when inverted), integral summed over time and limited by '
    'anti-windup, derivative per time, delayed by the deadtime.',
    ['inputs', 'histories', 'configurations'], 'all controller settings, step lengths and histories of process values',
    'a wrong sign, a lost integral or a wrong delay needs a specific setting and history; the tests have no controller but in one fixed network',
    ['multisim/controls.py', 'multisim/parts/controllers.py', 'multisim/simenv.py'],
    [('control law', 'multisim/parts/controllers.py: PID'), ('common behaviour', 'multisim/controls.py: Controls'), ('calls', 'multisim/simenv.py: _update_control')],
    'the control variable in the actuator after each call, and recorded flows, valve openings and heating of runs',
    'property-based testing: stateful histories against a reference model of the control law, and closed loops compared step by step',
    'outputs equal to 1e-9 relative; histories up to about 40 calls, closed loops up to about 100 steps',
)
prop(
    'C11', 'Switching controllers switch at their thresholds and keep their state between',
    'A bang-bang controller switches on and off exactly at set point and hysteresis (also inverted, delayed by a deadtime, with set points from '
    'a series or a reference part) and holds its state in between; a two-sensor controller switches on by its first and off by '
    'its second condition with the signs given, and holds in between. An on controller gives its on value, an off one its off value, and '
    'the actuator does what the controller gives.',
    ['inputs', 'histories', 'configurations'], 'all thresholds, signs, hystereses, step lengths and histories of process values',
    'state errors appear only after specific sequences of crossings; the tests have no such sequence',
    ['multisim/controls.py', 'multisim/parts/controllers.py', 'multisim/simenv.py'],
    [('two-point controllers', 'multisim/parts/controllers.py: BangBang, TwoSensors'), ('common behaviour', 'multisim/controls.py: Controls')],
    'the control variable in the actuator after each call, and recorded flows, valve openings and heating of runs',
    'property-based testing: stateful histories against a reference state machine, and closed loops compared step by step',
    'histories which come closer to a threshold than rounding are cut there',
)
prop(
    'C12', 'Actuators stay within all limits, dependencies and the emergency shut-down',
    'Whatever its controller wants, the actuator of a part stays within lower_limit and upper_limit and the saturation of the controller, changes by no more than the slope '
    'allows, and a sub-controller is off whenever its master is off (concurrent) or on (exclusive). A heater gives no heat '
    'as soon as one of its cells has reached 110 degC and the heat demanded otherwise.',
    ['inputs', 'histories', 'configurations'], 'all combinations of controllers, limits, slopes, master/slave dependencies and heaters',
    'limits are met only in particular combinations of settings and histories',
    ['multisim/controls.py', 'multisim/parts/controllers.py', 'multisim/parts/heated_pipe.py', 'multisim/parts/part_modules/base_parts.py'],
    [('limits', 'multisim/controls.py: Controls'), ('actuators', 'multisim/parts/part_modules/actuators.py and the parts'), ('heater', 'multisim/parts/heated_pipe.py')],
    'recorded flows, valve openings and heating after runs with up to four controllers',
    'property-based testing: invariants over the recorded history of closed loops with several controllers, plus the reference model',
    'recorded from the second step on (values before the first controller call are start values)',
)
prop(
    'C14', 'Heat exchangers exchange the heat their geometry and flows give',
    'A plate heat exchanger shows at its ports the counterflow temperatures of the effectiveness-NTU method for its plate geometry, '
    'channel numbers, flows in either direction and the fluid properties at its ports: what one side loses the other side gains, no outlet '
    'passes the inlet of the other side, and a side without flow exchanges nothing. The numeric plate heat exchanger conserves energy in '
    'every step, stays within the range of the temperatures around it and keeps an equilibrium; solved implicitly it follows its explicit solution, also when steps are repeated. The condensing heat exchanger returns its '
    'regression model within the flow range, mixes the bypassed water above the range, and blends to the gas inlet temperature below ten percent.',
    ['configurations', 'inputs'], 'all plate geometries, channel arrangements, flows (including zero and reversed), temperatures and regression models',
    'the branches depend on flow directions, flow ratios and how the geometry is given; the tests build no heat exchanger',
    ['multisim/parts/heatexchanger.py', 'multisim/parts/hex_num.py', 'multisim/parts/hex_condensing_polynome.py', 'multisim/precomp_funs.py'],
    [('plate geometry', 'multisim/parts/heatexchanger.py: HeatExchanger.init_part'), ('NTU outlet temperatures', 'multisim/precomp_funs.py: solve_platehex, _process_unified_T_and_dm'),
     ('numeric exchanger', 'multisim/parts/hex_num.py; multisim/precomp_funs.py: hexnum_diff'),
     ('condensing exchanger', 'multisim/parts/hex_condensing_polynome.py; multisim/precomp_funs.py: condensing_hex_solve')],
    'res and res_dm of the heat exchanger after a run',
    'property-based testing: reference NTU method, energy balance of the numeric exchanger per step, predictions of the fitted regression itself',
    'plate: 2 to 50 plates, 1 to 3 passes; numeric: up to 6 cells, counter flow; condensing: polynomials of degree 1 to 3, gas up to 105 degC',
)
prop(
    'C16', 'Fluid properties are those of water and air over the whole range',
    'Density, heat capacity, conductivity, viscosity, Prandtl number and expansion of water (0 to 100 degC), of dry air, and the saturation of '
    'humid air follow the property tables within the accuracy of the polynomials, are positive and smooth, and depend on the temperature only: the same '
    'for scalars, arrays of any shape, in-place and returning variants, and the combined functions used by the solver.',
    ['inputs'], 'all temperatures in the valid range, array shapes and variants of the property functions',
    'the tests evaluate no property; a wrong coefficient shifts results by percents only and shows nowhere as an error',
    ['multisim/precomp_funs.py', 'multisim/_precompiled/material_properties.py'],
    [('property polynomials', 'multisim/precomp_funs.py: get_rho_water, get_cp_water, get_lambda_water, get_ny_water, water_mat_props_ext_view, ...'),
     ('public property functions', 'multisim/_precompiled/material_properties.py')],
    'return values and output arrays of the property functions',
    'property-based testing: table values of the literature, differential comparison of all variants, elementwise consistency',
    'tables at 10 K steps with cubic interpolation, tolerances 0.02 to 16 percent; variants compared to 1e-12',
)
prop(
    'C17', 'Heat transfer coefficients follow the correlations for every flow regime',
    'Heat transfer between water and pipe wall (laminar, transition, turbulent, stagnant), from walls, cylinders and plates to ambient air '
    '(all inclinations, hotter or colder than ambient), the resistances of wall and insulation and their combination in series and parallel, and the '
    'buoyancy in storages are those of the cited correlations, are positive and finite, and are computed without altering their inputs.',
    ['inputs'], 'all flows, temperatures, geometries and positions in the range of the correlations',
    'each regime is a branch with its own formula; the tests reach the coefficients only through single runs without comparison',
    ['multisim/precomp_funs.py'],
    [('inner coefficients', 'multisim/precomp_funs.py: pipe_alpha_i, phex_alpha_i_wll_sep, ...'), ('outer coefficients', 'multisim/precomp_funs.py: cylinder_alpha_inf, plane_alpha_inf, vert_plane_alpha_inf, hor_plane_alpha_inf'),
     ('resistances', 'multisim/precomp_funs.py: UA_fld_wll_ins_amb_cyl, UA_fld_wll_ins_amb_plate, series_circuit_UA, parallel_circuit_UA'), ('buoyancy', 'multisim/precomp_funs.py: buoyancy_byNusselt')],
    'return values and output arrays of the functions the parts use',
    'property-based testing: independently written VDI correlations, metamorphic relations (order and splitting of resistances), input immutability',
    'water 1..98 degC, air -10..95 degC; compared to 1e-7',
)
prop(
    'C18', 'Meters show what the simulation computed at their place',
    'Temperature, massflow, volume flow and heat meters placed at any cells of any parts give, dated from the start time, exactly the recorded '
    'temperatures and flows there, the density and heat capacity at those temperatures, and the running totals of mass, volume and heat over '
    'the step lengths (and of their positive share), as the means of each resampling slot if the run was stored resampled; the table of all meters and '
    'the store on disk hold the same values, and a meter never replaces another one of its name.',
    ['configurations', 'inputs'], 'all networks, cells, meter types and combinations, storage and resampling options, flow directions',
    'meters depend on the flow layout of every part class; the tests place none',
    ['multisim/_utility/meters.py', 'multisim/utility_functions.py'],
    [('meters', 'multisim/_utility/meters.py: Meters; multisim/utility_functions.py: Meters'), ('cell to flow mapping', 'Meters._massflow_idx_from_temp_idx')],
    'the tables of the meters after a run, meters_df and the store on disk',
    'property-based testing: recomputation from the recorded temperatures and flows for generated networks and meters',
    'parts with one-dimensional temperatures; compared to 1e-9',
)
prop(
    'C19', 'Error measures compare simulation and measurement as they are defined',
    'R2, adjusted R2, MSE, RMSE, MAE, MSD, CV(RMSE), their normalized and rolling forms and the performance indicators of two time series equal their definitions for '
    'arrays, series and tables, for each column separately; time series are paired by time after resampling to the requested slots (by order without dates), '
    'samples are left out only where both series are zero and only if asked for, and the inputs are not altered.',
    ['inputs'], 'all observations and predictions of any length, number of columns, container, window, index and resampling method',
    'a wrong denominator or pairing only shifts the numbers; the tests call none of these functions',
    ['multisim/_utility/stat_error_measures.py', 'multisim/utility_functions.py'],
    [('error measures', 'multisim/_utility/stat_error_measures.py and multisim/utility_functions.py: r_squared, r_squared_adj, mean_squared_err, mean_abs_err, mean_signed_deviation, rmse, cv_rmse, normalized_err'),
     ('indicators', 'multisim/utility_functions.py: fit_time_series, ts_performance_indicators, process_unevenly_spaced_timeseries')],
    'return values of the functions',
    'property-based testing: definitions written in plain numpy over generated series, both implementations compared',
    'up to 14 samples and 3 columns; compared to 1e-9',
)
prop(
    'C20', 'Input data are prepared without being distorted',
    'Boundary condition series are repeated, cut and resampled so that every slot holds the value the given samples have then (or their mean), '
    'and too short ones are refused; pipes of any cross section keep it and get dimensions that fit together, equal to the table for table sizes and between the neighbouring pipes of the same type otherwise; '
    'centered rolling values and outlier removal touch exactly the values they should and leave the input alone.',
    ['inputs'], 'all series, frequencies, durations, start dates, pipe types, areas and factors, windows, thresholds and fill methods',
    'errors at slot borders, repetition seams or between table sizes need particular numbers; the tests call none of these functions',
    ['multisim/utility_functions.py'],
    [('boundary series', 'multisim/utility_functions.py: make_boundarycond_timeseries'), ('pipe data', 'multisim/utility_functions.py: interp_pipe_specs, adjust_pipes'),
     ('cleaning', 'multisim/utility_functions.py: rolling_centered, remove_outliers_roll, remove_outliers_mad')],
    'return values of the functions',
    'property-based testing: slot-by-slot reference, geometric identities and neighbour bounds of pipes, reference windows and outlier rules',
    'windows are multiples of the sample spacing; pipe areas within the table',
)
prop(
    'C15', 'CHP plants run only as their limits allow and convert gas as specified',
    'A combined heat and power plant follows the demanded modulation within its modulation range and ramp, is off below the range, runs at least its minimum '
    'on time (at lowest modulation if need be) and rests at least its minimum off time, does not start with an inlet above 75 degC, stops after two minutes of such an inlet and at once '
    'when a cell exceeds 110 degC. Electrical power, heat and gas power follow the startup and part load curves scaled to its power, power-to-heat ratio and efficiency, heat fades after a stop, a '
    'warm start continues at the heat that is left, the heat enters the heated cells, the flue gas flow follows the gas power, and efficiencies above the limit are refused.',
    ['histories', 'configurations', 'inputs'], 'all demand histories, inlet temperature histories, limits, timers, ramps, spreads and plant data',
    'timers, ramps and shutdowns interact over long histories; the tests build no plant',
    ['multisim/parts/chp_plant.py', 'multisim/precomp_funs.py'],
    [('plant states', 'multisim/parts/chp_plant.py: CHPPlant.get_diff'), ('curves', 'multisim/precomp_funs.py: chp_startup_th, chp_startup_el, chp_startup_gas, chp_thermal_power, chp_gas_power, chp_shutdown_th'),
     ('flue gas', 'multisim/parts/chp_plant.py: init_part (connect_fluegas_hex)')],
    'recorded modulation, electrical power, heat, gas power, temperatures and flue gas flow of runs',
    'property-based testing: stateful reference of the plant over generated demand and temperature histories, plus the energy balance of its cells',
    'constant steps of 4 to 10 s, histories up to about 300 steps; modulation given by a time series',
)
prop(
    'C13', 'Runs with invalid values are stopped and reported as failed',
    'When a temperature or mass flow of a part becomes invalid (not a number) and stays so, the run is stopped within 5000 steps, and at the latest at its end, with a warning, its last solver state '
    'marks the failure and the report on disk says that the simulation failed, why, and at which step; a run without invalid values is never stopped or reported as failed. The report gives the number of steps, '
    'the simulated time, the statistics of the step sizes, and the numbers of normal, limited and repeated steps of the run, also when results are written to disk while running.',
    ['inputs', 'faults', 'histories'], 'all networks, temperatures, moments at which values become invalid, step controls and sizes of the pieces written to disk',
    'the tests contain no run with invalid values and never read the report',
    ['multisim/simenv.py'],
    [('detection', 'multisim/simenv.py: start_sim'), ('report', 'multisim/simenv.py: _write_report')],
    'solver states, printed warning and report file of a run',
    'property-based testing: injected temperatures outside of the validity of the water correlations; the recorded results and times are the oracle for the report',
    'invalid values come from temperatures of 125 to 560 degC at open ports, in cells and in the ambience; runs of up to 12000 steps; an exception counts as a stop',
)
prop(
    'C09', 'Defective descriptions are refused before a simulation runs',
    'A complete description (parts, connections, boundary conditions, controllers, time frame, time series) is accepted; one with an unconnected or doubly connected port, an unknown part or port, a duplicate '
    'name, an unused or missing boundary condition, a branch without or with two pumps, a missing, mistyped or impossible argument of a part or controller, a sensor cell that does not exist, an actuator '
    'without or with two controllers, reversed limits, an impossible time frame or step control, or a time series that is too short, incomplete or dated differently, is refused with an error before the first step.',
    ['configurations', 'inputs'], 'all networks of the grammar and controller systems, each with one defect of the list',
    'the tests build valid networks only',
    ['multisim/simenv.py', 'multisim/controls.py', 'multisim/parts'],
    [('connections', 'multisim/simenv.py: connect_ports, _check_unconnected_ports, add_open_port'), ('arguments', 'multisim/simenv.py: _initialize_actuator, set_timeframe, assign_boundary_cond'),
     ('controllers', 'multisim/controls.py: Controls.__check_args'), ('flow net', 'multisim/flownet.py')],
    'exceptions of add_part, connect_ports, add_control, set_timeframe and initialize_sim',
    'property-based testing: mutation of generated valid descriptions; differential accepted / refused',
    'one defect per case from a list of about 250 kinds; any exception counts as refusal',
)
prop(
    'C21', 'Ready-made supply and demand systems are complete, sized as asked, independent',
    'Adding a ready-made system (gas boiler, CHP plant with flue gas heat exchanger and 0.5 to 3 return ports, low exergy hot water and circulation supply, hot water store charging system, space heating) to '
    'a simulation connects all of its parts with each other, with its boundary conditions and with the given ports, and wires its controllers to its own parts and the given sensors and set points; '
    'pipe areas, pump, heater and plant limits and plate numbers follow the given power, flows, temperatures and floor area, and are reported as such. The system runs: demands flow as given, pumps stay '
    'within their limits, a boiler or plant heats only as its sensors ask and within its ramp and power. It works under any segment name, twice in one simulation with equal results, and leaves the given arguments alone.',
    ['configurations', 'inputs'], 'all sizes, temperatures, demand series, sensor positions, segment names, connectors and numbers of return ports',
    'sizes and wiring are right for the defaults and wrong for other data; the tests use none of them',
    ['multisim/parts/part_modules'],
    [('suppliers', 'multisim/parts/part_modules/suppliers.py: gasboiler, chp_with_fghex'), ('consumers', 'multisim/parts/part_modules/consumers.py: lowex_phwrc, speicherladesys, space_heating')],
    'calls made to the simulation environment, the returned table of calculations, recorded temperatures, flows and powers of runs',
    'property-based testing: reference description of each system over generated sizes, bounds and ramps of the recorded runs, metamorphic duplication of the system in one simulation',
    'runs of 3 to 16 s; gains of the controllers, lengths and insulation are free; heat led plants only (chp_mode heat)',
)
prop(
    'C22', 'Compiled and interpreted runs give the same results',
    'A run with the numerical functions compiled (the default) and a run of the same description with compilation disabled take the same steps and record the same temperatures, flows, heat and '
    'power up to rounding, for all networks, storages, heat exchangers (plate, numeric, condensing), plants, controllers and ready-made systems, explicit or implicit, with constant or adaptive '
    'steps, with zero flows and in equilibrium; a description which runs in one mode runs in the other.',
    ['configurations', 'inputs'], 'all networks, plants, controlled systems and ready-made systems of the other generators',
    'each test runs in one mode only and asserts few values; types, divisions by zero and overlapping arrays behave differently only for particular inputs',
    ['multisim/precomp_funs.py', 'multisim/simenv.py', 'multisim/parts'],
    [('compiled functions', 'multisim/precomp_funs.py'), ('their arguments', 'multisim/simenv.py: _prep_inputs_for_njits, initialize_sim')],
    'recorded times, temperatures, flows, heat and power of both runs',
    'property-based testing: differential, the same generated case in an interpreted process and in one with compiled functions',
    'differences up to 1e-7 of the largest value are rounding; runs whose steps differ by rounding are compared in number of steps only',
)
