#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
SN = 'pysnobal/point/snobal.py'; SS = 'pysnobal/point/snow_state.py'; LB = 'pysnobal/point/libsnobal.py'
IN = 'pysnobal/point/input.py'; PY = 'pysnobal/pysnobal.py'; FN = 'pysnobal/core/functions.py'; SW = 'pysnobal/core/snow.py'

def p(id, title, statement, over, text, why, files, symbols, events=(), state=(), mech=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, symbols=symbols,
                               events=[dict(name=a, meaning=b, where=c) for a, b, c in events],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

HI = ('histories', 'inputs', 'configurations')
YEAR = 'The one end-to-end test compares a single water year at one site, from bare ground, with default settings, after rounding.'

p('C01', 'Water mass is conserved over every run step',
  'Over every run step, and so over any span of output records, the change in snow mass equals the precipitation received plus evaporation/condensation minus the water released. On bare ground all precipitation that does not become snowcover is released as water. Nothing is created or lost when the snowcover appears, gains or loses a layer, or disappears.',
  HI, 'Every weather sequence, every initial snowcover and every timestep/threshold configuration; each run step of each.',
  YEAR + ' It never forms a water balance, and it contains no disappearance by evaporation or by melt exceeding the mass.',
  [SN, SS], ['Snobal.mass_balance', 'Snobal.adj_layers', 'Snobal.runoff', 'Snobal.precip_event', 'Snobal.evap_cond'],
  [('run step', 'one call of the mass balance on a norm/medium/small step', SN)],
  [('m_s, swi, E_s, m_pp', 'snow mass, released water, vapour exchange, precipitation', SS)],
  [('remaining mass of a vanishing snowcover is turned into liquid water', SN)],
  ['output records with output_mode="all"'])

p('C02', 'Energy terms of every record add up',
  'In every run step with a snowcover at its start, the snowcover energy change equals net radiation + sensible + latent + soil conduction + advected heat, and the surface-layer energy change is the same sum with the heat conducted into the surface layer in place of soil conduction; with a single layer the two conducted fluxes are equal. With no snowcover at the start of the step, every energy term of that step is zero. Averages over an output interval obey the same sums.',
  HI, 'Every weather sequence, snow state and configuration; each run step and each averaged output record.',
  YEAR + ' No test relates the terms of a record to each other.',
  [SN], ['Snobal.energy_balance', 'Snobal.heat_transfer'], (), [('R_n,H,L_v_E,G,G_0,M,delta_Q,delta_Q_0', 'energy terms (W/m^2)', SS)], (), ['output records, both output modes'])

p('C03', 'Energy is spent on cold content, then melt; deficits refreeze',
  'For each layer the energy received in a run step plus its cold content is fully accounted for: only a surplus beyond zero cold content melts snow, as surplus divided by the latent heat of fusion at freezing, and only a deficit remains as cold content. Liquid water present is refrozen in each deficient layer in proportion to that layer\'s share of the depth, and its latent heat reduces the deficit, never below zero cold content. Cold content is never positive and reported melt is never negative.',
  HI, 'Every combination of surplus/deficit in the two layers, with and without liquid water, over every weather sequence.',
  YEAR + ' Partial and complete refreezing in each layer are reached only incidentally and never checked against the energy.',
  [SN, SW], ['Snobal.snowmelt', 'melt', 'Snobal.cold_content'], (), [('cc_s_0, cc_s_l, melt, h2o_total', 'cold contents, melt, liquid water', SS)], (), ['output records with output_mode="all"'])

p('C04', 'Layer temperatures agree with cold content, never above freezing',
  'After every run step that starts and ends with a snowcover, each existing layer\'s temperature equals freezing plus its cold content divided by its mass times the specific heat of ice at its previous temperature; the snowcover average follows the same rule with total mass and cold content and equals the surface temperature when there is one layer. A layer with no cold content is exactly at freezing, no layer is ever above freezing, and layers that do not exist are reported at -75 C.',
  HI, 'Every weather sequence, snow state and configuration; each run step.',
  'Unit tests cover layer counting and one saturation value only; the relation between temperature, mass and cold content is never asserted.',
  [SS, SW, SN], ['SnowState.adjust_layer_temps', 'new_tsno', 'SnowState.isothermal'], (), [('t_s, t_s_0, t_s_l', 'temperatures (K)', SS)], (), ['output records'])

p('C05', 'The snowpack record is structurally consistent after every step',
  'In every record there are zero, one or two layers; total depth is the sum of layer depths, and total mass the sum of layer masses, each being density times depth. The surface layer never exceeds the configured maximum active depth unless the snow below it would weigh less than the minimum layer mass, in which case there is a single layer. With no snowcover every depth, mass, density, cold content and water content is zero; depth, density and mass are never negative.',
  HI, 'Every reachable snow state under every configuration of thresholds, step lengths and maximum active depth.',
  'Four unit tests probe one depth each with default settings; reachable states under other settings and after whole step sequences are not checked.',
  [SS, SN], ['SnowState.calc_layers', 'SnowState.layer_mass', 'Snobal.adj_layers'], (), [('z_s,z_s_0,z_s_l,m_s,m_s_0,m_s_l,rho,layer_count', 'layer structure', SS)], (), ['output records', 'SnowState after calc_layers()'])

p('C06', 'Snow layers appear and disappear only by the mass and depth rules',
  'Snowfall on bare ground starts a snowcover with the density, temperature and wetness of the new snow when its mass exceeds the minimum layer mass, and otherwise becomes water; it takes part in the energy exchange from the next run step on. A lower layer that forms starts at the average snow temperature with the matching cold content, and one that goes is removed with its cold content. A snowcover is removed exactly when its mass does not exceed the minimum layer mass (or no depth, or no ice, is left) when layers are recomputed, and then everything it holds is released as water in that step.',
  HI, 'All transitions between 0, 1 and 2 layers, in any order, under every threshold setting.',
  YEAR + ' Few transitions occur in it, none near non-default thresholds.',
  [SN, SS], ['Snobal.adj_layers', 'Snobal.init_snow', 'Snobal.precip_event', 'SnowState.calc_layers'], (), (), (), ['output records with output_mode="all"'])

p('C07', 'Liquid water is held up to capacity and the excess drains at once',
  'After every run step the liquid water held lies between zero and the capacity given by the snow depth, its dry density and the configured maximum water content, and the reported saturation and volumetric water content match it. Water is released exactly when liquid water (held, rain, wet snowfall and melt, less refreezing and evaporation) exceeds capacity, in the amount of the excess. With no snowcover all liquid water of the step is released.',
  HI, 'Every sequence of rain, wet snow, melt, refreeze and evaporation, for every maximum water content.',
  YEAR + ' The capacity rule is never checked, and other water-content settings are never run.',
  [SN, SW], ['Snobal.runoff', 'h2o_left', 'Snobal.precip_event'], (), [('h2o,h2o_max,h2o_sat,h2o_vol,h2o_total,swi', 'liquid water', SS)], (), ['output records with output_mode="all"'])

p('C08', 'Snow density and depth evolve only by the documented processes',
  'In each run step depth and density change only through, in this order: compaction with elapsed time (temperature and overburden metamorphism, at rates proportional to the step length, none at or above 550 kg/m^3), new snow, depth lost to melt, half of the vapour/ice loss taken from depth, and compaction by added melt and rain; density never exceeds 600 kg/m^3 after an adjustment, mass being preserved. Compaction alone never lowers density.',
  HI, 'Every density, mass, temperature, wetness and step length, including very light, very dense and very deep snow.',
  YEAR + ' Its snow stays under 810 kg/m^2 and 450 kg/m^3, so deep and dense branches are never run.',
  [SN], ['Snobal.time_compact', 'Snobal.h2o_compact', 'Snobal.adj_snow'], (), [('rho, z_s', 'density, depth', SS)], (), ['output records with output_mode="all"'])

p('C09', 'Vapour exchange accounts for air and soil and consumes liquid first',
  'The mass evaporated or condensed in a run step is the latent-heat mass flux times the step length plus the soil-to-snow vapour flux through the soil measurement depth times the step length, the latter driven by the humidity difference between soil and the lowest layer; no more evaporates than the snow there is. Liquid water present shares in each exchange at the vaporization/sublimation ratio and never goes below zero. Without a snowcover there is no vapour exchange.',
  HI, 'Every sign of both fluxes, one and two layers, with and without liquid water, every step length.',
  YEAR + ' Evaporation is only compared after rounding in one year.',
  [SN, FN], ['Snobal.evap_cond', 'vapor_flux', 'diffusion_coef'], (), [('E, E_s, h2o_total', 'vapour flux, mass, liquid water', SS)], (), ['output records with output_mode="all"'])

p('C10', 'Run steps tile each data step and follow the layer-mass thresholds',
  'Each data step is covered exactly, without gap or overlap, by run steps of the configured normal, medium and small lengths. A normal step is divided into medium steps exactly when, at its start, a layer\'s mass is below the normal threshold, and a medium step into small steps exactly when a layer\'s mass is then below the medium threshold; bare ground is never divided. The model clock advances by exactly the length of each run step. A file run whose step lengths do not divide each other, or the interval of the data, is refused.',
  ('histories', 'configurations'), 'Every trajectory of layer masses within and across data steps, and every valid choice of step lengths, intervals and thresholds.',
  YEAR + ' Only the default 60/15/1 minute grid is run, and run-step records are not compared (the test for them lacks its data).',
  [SN, PY], ['Snobal.divide_tstep', 'Snobal.do_data_tstep', 'Snobal.below_thold', 'PySnobal.parse_time_steps'],
  [('run step', 'do_tstep at a level', SN)], [('date_time of records', 'model clock', SN)], (), ['output record times with output_mode="all"'])

p('C11', 'Forcing is interpolated linearly and precipitation is spread evenly',
  'Within a data step the radiation, air temperature, vapour pressure, wind and soil temperature used by each run step are the values interpolated linearly between the two input records at the start of that run step (vapour pressure capped at saturation). The precipitation of the first record is spread evenly over the data step, so each run step receives the share matching its length and the total delivered equals the input however the step is divided. The second input record is left unchanged and is the next step\'s start.',
  HI, 'Every pair of consecutive input records, every division of the data step and every history of preceding steps.',
  YEAR + ' No test looks at a divided step or at the input record after a step.',
  [IN, SN], ['InputDeltas.calculate', 'InputData.add_deltas', 'InputData.update_precip_deltas', 'Snobal.do_tstep'], (), (), (), ['energy and mass terms of run-step records', 'the second input record after the step'])

p('C12', 'Precipitation is split into rain and snow consistently',
  'Each input record\'s precipitation is split by its snow fraction into snow and rain masses that add up to the total, and the snow depth is its mass divided by the new-snow density. Rain is never colder than freezing; mixed snow is at freezing and wet, snow falling at or above freezing is at freezing and wet, colder snow is dry at precipitation temperature, and no precipitation yields no new snow. The advected heat of a run step is that of these masses and temperatures relative to the surface layer.',
  ('inputs',), 'Every combination of amount, snow fraction, density and temperature, in scalar or one-element array form.',
  'Four single-value tests; boundaries (exactly freezing, rain below freezing, zero mass) are not tested.',
  [IN, SN], ['InputData.precipitation_inputs', 'Snobal.advec'], (), (), (), ['InputData attributes', 'M of run-step records'])

p('C13', 'Output records average and total exactly their own interval',
  'In normal mode there is exactly one record per data step, in "all" mode one per run step, stamped with the model time at its end. Energy terms in a record are time-weighted means, and melt, evaporation and released water are totals, over exactly the run steps since the previous record; state variables are the values at the record time.',
  ('histories', 'configurations'), 'Every division history inside the output interval, both output modes.',
  'The test for the "all" mode cannot run (its data file is missing); a divided step in the other test is compared only after rounding.',
  [SN, SS], ['Snobal.output', 'SnowState.time_average', 'SnowState.value_to_bar', 'time_average'], (), [('*_bar, *_sum, time_since_out', 'accumulators', SS)], (), ['output_list in both modes'])

p('C14', 'Runs are reproducible, isolated and independent of output mode',
  'The simulated trajectory depends only on parameters, initial snowcover, and the sequence of input records: repeating a run in the same process, interleaving it with other model instances, or asking for records at every run step rather than every data step does not change it. Parameters, timestep tables and initial conditions given to one run are not altered by it, so they can be reused for another.',
  ('histories', 'schedules', 'configurations'), 'Every interleaving of data steps of several model instances, in either output mode, over any weather sequence.',
  'Every test runs a single model once per process.',
  [SN, SS, IN], ['Snobal.__init__', 'Snobal.do_data_tstep', 'SnowState.__init__'], (), (), (), ['output_list of paired runs'])

p('C15', 'Turbulent fluxes satisfy the stability equations or are flagged',
  'When the turbulent-transfer calculation reports success, sensible heat, latent heat and mass flux satisfy the bulk transfer equations with a mutually consistent stability length, whatever the starting guess, including neutral air and zero wind (zero fluxes); latent heat is the mass flux times the latent heat for the surface temperature. When iteration does not converge it says so and the model stops rather than use the result. Fluxes are toward the colder, drier side.',
  ('inputs', 'histories'), 'All physically valid temperatures, vapour pressures, winds, heights, roughness and pressures, with or without a previous solution as start.',
  'The gold comparison asserts the truth of an approx() object, which is always true, so it checks nothing.',
  [LB, SN], ['hle1', 'psi', 'Snobal.h_le'], (), (), (), ['libsnobal.hle1 results', 'H and L_v_E of run-step records'])

p('C16', 'Measurement heights follow the snow surface as configured',
  'When measurement heights are given above the ground, the turbulent exchange uses the heights above the current snow surface, shrinking as snow accumulates; when they are configured as relative to the snow surface they are used unchanged whatever the depth. Wind height applies to wind, and temperature height to temperature and humidity.',
  ('configurations', 'histories'), 'Both settings, all snow depths, distinct wind and temperature heights.',
  'No test sets relative heights or distinct heights.',
  [SN, PY], ['Snobal.h_le', 'PySnobal.parse_params'], (), [('relative_heights, z_u, z_t', 'configuration', PY)], (), ['H and L_v_E of run-step records'])

p('C17', 'Radiation, conduction and advection follow their definitions',
  'Net radiation is net solar plus emissivity times (incoming longwave minus black-body emission at the surface-layer temperature). Heat conducted between soil and the lowest layer, and between layers, is the steady-state flow through both media with their effective (vapour-enhanced) conductivities and thicknesses, from warm to cold and zero at equal temperatures. Advected heat is zero without precipitation.',
  HI, 'All snow states, temperatures, depths, densities and forcing.',
  YEAR + ' The conduction and conductivity functions have no tests.',
  [SN, LB, FN], ['Snobal.net_radiation', 'Snobal.g_soil', 'Snobal.g_snow', 'ssxfr', 'efcon'], (), (), (), ['R_n, G, G_0, M of run-step records'])

p('C18', 'A file run uses exactly the configured window of the input file',
  'A configured run reads the input table whatever the order of its rows, converts temperatures to Kelvin, and steps through every interval from the start date to the end date inclusive, in time order, in the configured time zone; records outside the window have no influence. The simulation is the one obtained by feeding those records to the point model directly. The clock of every record is that of the data it was simulated with: a table that lacks a record of the window (a gap, a late start, an early end), or has two for one time or one at another time, is refused.',
  ('inputs', 'configurations'), 'Every window position within the file, row order, time zone and input interval.',
  'One file, one window, sorted rows, one time zone.',
  [PY], ['PySnobal.read_input_data', 'PySnobal.parse_params', 'PySnobal.run'], (), (), (), ['the output CSV and output records of PySnobal(config).run()'])

p('C19', 'The output table reports the model records faithfully',
  'The output file has one row per output record, in time order, with the documented columns; each value is the model\'s record under its documented name, temperatures in Celsius, formatted as the original Snobal format when formatting is on and in full precision when it is off. No other quantity is rescaled, reordered or swapped.',
  ('inputs', 'configurations', 'histories'), 'Every run, both formatting settings, both output modes.',
  'The comparison is made for one year with formatting on; unformatted output and "all" mode are not checked.',
  [PY], ['PySnobal.output_to_file'], (), (), (), ['output_csv'])

p('C20', 'A run starts from the configured snowcover',
  'A run started with snow on the ground begins from the depth, density, temperatures, roughness and liquid-water saturation given: masses, layers, cold contents, capacity and held water all follow from them, temperatures in the configuration file being in Celsius. An initial snowcover at or below the minimum layer mass is no snowcover.',
  ('inputs', 'configurations'), 'Every initial depth, density, temperatures, saturation and threshold setting, through the model class and through a configuration file.',
  'Every test starts from bare ground.',
  [SN, PY, SS], ['Snobal.init_snow', 'Snobal.create_snow_state', 'PySnobal.run'], (), (), (), ['snow state after construction', 'first records of a file run'])

p('C21', 'Valid weather never stops a run; invalid inputs are refused',
  'Physically valid forcing and configuration (including zero wind, dry or saturated air, bare ground and any layer change) never makes a run fail or produce non-finite values, except that a run stops when the turbulent transfer does not converge. (Valid configurations have steps short enough for the lightest layer their thresholds allow.) Snowfall without a positive density and, with snow on the ground, sensors at or below the snow surface plus roughness, non-positive temperatures, and vapour pressures that are not positive or not below air pressure are refused with an error instead of being simulated; air vapour pressure above saturation is limited to saturation with a warning.',
  HI, 'All inputs on either side of each validity limit, at every point of a run.',
  'No test supplies an invalid input or a boundary value.',
  [LB, IN, SN], ['hle1', 'InputData.precipitation_inputs', 'Snobal.h_le', 'sati'], (), (), (), ['exceptions, warnings and records'])

p('C22', 'Saturation and thermodynamic relations are exact and never stale',
  'Saturation vapour pressure is that over ice at or below freezing and over water above it, increasing with temperature, the same for scalar and array input; the thermodynamic helper relations (latent heats, specific heats, gas density, virtual temperature, humidity, hydrostatic pressure, diffusion) follow their published formulas. Saturation values offered by the input and snow-state objects always correspond to their current temperature, after any sequence of reads and updates.',
  ('inputs', 'histories'), 'All valid temperatures and pressures; all interleavings of temperature updates and reads.',
  'One exact value is tested; the other assertion is always true. Functions in core have no direct tests.',
  [LB, FN, IN, SS], ['sati', 'satw', 'sati_np', 'SnowState.e_s_0', 'SnowState.e_s_l', 'InputData.sat_vp', 'InputData.e_g'], (), (), (), ['return values and attributes'])

p('C23', 'Gridded runs equal independent point runs cell by cell',
  'A gridded run gives in every cell the result of the point model run with that cell\'s elevation, forcing and initial snowcover.',
  ('inputs', 'configurations', 'histories'), 'Every grid, forcing and initial snowcover.',
  'The only gridded test asserts True.',
  ['pysnobal/ipysnobal.py', 'pysnobal/spatial/isnobal.py', 'pysnobal/spatial/snow_state.py'], ['iPySnobal.run', 'iSnobal.__init__', 'SpatialSnowState'], (), (), (), ['gridded outputs'])

p('C24', 'A run that cannot finish is refused and leaves no results',
  'The output table is written only once every interval of the window has been simulated, and is then complete and replaces whatever was at its place; a run stopped before that by a wrong configuration, an unreadable or incomplete input table, a refused value, an error or an interruption raises or exits, creates no output table and leaves an earlier one, the configuration and the input as they were, and starting the run again once the cause is gone gives the full result. A configuration (file or UserConfig instance) without start, end, input table or elevation, with an item of the wrong type or outside its options, or whose end is before its start is refused before the first step. Step lengths that do not divide each other, or the interval of the data, are refused too. An input table without one of its columns or one of the records of the window, with two for one time, or with something that is no number or no date in the window, or a missing value there (but for the properties of precipitation where there is none), is never simulated to the end.',
  ('inputs', 'configurations', 'histories', 'fault_sequences', 'crash_points'), 'Every kind of fault at every point of a run (configuration, table, each interval, writing), with and without an earlier output, and every sequence of failing and succeeding attempts.',
  'Tests run one valid configuration to its end; two configuration errors are tried, none with an earlier output, and no failure inside a run.',
  [PY], ['PySnobal.read_config_file', 'PySnobal.read_input_data', 'PySnobal.run', 'PySnobal.output_to_file'],
  [('fault', 'something wrong with the configuration, the table, a record, an interval or the output place', PY)], [('output_csv', 'the output table', PY)], (), ['output_csv before and after PySnobal(config).run()', 'exceptions'])

p('C25', 'Relations given for arrays treat every cell on its own',
  'Every relation documented for arrays (saturation pressures, latent and specific heats, gas density, humidity, diffusion, fluxes, conductivity, dry density, water capacity, layer temperature, air pressure over a terrain) gives each cell of an array of any shape and kind of number exactly the value it gives for that cell alone, and leaves the arrays it was given unaltered. The means and totals that a gridded snow state keeps between records follow each cell\'s own history, and leave the values of the run step itself unaltered.',
  ('inputs', 'histories'), 'Arrays of every shape (also labelled ones, and of integers) with any mixture of values on both sides of every boundary; every sequence of starting and continuing a mean.',
  'No test calls an array form with more than one value; the gridded snow state has no test.',
  [FN, SW, LB, 'pysnobal/spatial/snow_state.py'], ['sati_np', 'satw_np', 'SpatialSnowState.time_average', 'SpatialSnowState.value_to_bar', 'SpatialSnowState.new_tsno'],
  (), [('*_bar, *_sum', 'means and totals since the last record', SS)], (), ['return values, attributes and arguments afterwards'])

p('C26', 'Every configuration item takes effect as documented, or its default does',
  'A file run is the run of the point model with the values its configuration gives: elevation, wind and temperature heights and whether they follow the snow, soil depth, the three step lengths and mass thresholds, maximum water content, maximum active depth, roughness, the initial snowcover, time zone, output mode and format each act on the quantity they are documented for, at every valid value (zero included), in any combination and independently of each other. An item left out has its documented default, exactly as if that value had been given. How the file is laid out (upper or lower case of sections and items, order, spaces, comments, absolute or relative paths, file name or UserConfig instance) makes no difference.',
  ('configurations',), 'Every combination of given, default and other values of the items, every layout of the file.',
  'Tests run one configuration file, always with the same items given.',
  [PY, 'pysnobal/pysnobal_core_config.ini'], ['PySnobal.read_config_file', 'PySnobal.parse_params', 'PySnobal.parse_time_steps', 'PySnobal.run'],
  (), (), (), ['output records and output table of PySnobal(config).run()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
