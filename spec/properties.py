"""The properties, once: tools/genspec.py writes properties.jsonl and MANIFEST.json from this list."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), claim=True, reason=None):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
            mechanism=mechanism, technique=technique, note=note, observe=list(observe), claim=claim, reason=reason,
        )
    )


SAMPLED = 'Sampled, not exhaustive: a violation outside the generated domain can be missed. '

prop(
    'P01', 'Option and value containers return what was stored, in any compatible units',
    'A variable stored in a value or option container is returned unchanged, in the units asked for, whatever other '
    'variables are stored, read, copied, merged or deleted before or after. Containers reject values whose type or '
    'units do not fit the variable, and a rejected store leaves the previous content intact. Two containers compare '
    'equal exactly when they hold the same variables with the same values and units.',
    ['histories', 'inputs'],
    'all sequences of container operations over all known variables, value types and compatible or incompatible units',
    'The tests store and read a handful of fixed variables; the guarantee is over operation histories and over every '
    'variable type and unit pair.',
    ['aviary/utils/named_values.py', 'aviary/utils/aviary_values.py'],
    [{'name': 'unit conversion and key bookkeeping', 'where': 'aviary/utils/named_values.py'},
     {'name': 'type and unit checking against the metadata', 'where': 'aviary/utils/aviary_values.py'}],
    'stateful property-based testing against a dictionary reference model',
    'Random operation histories compared step by step with an independent reference model and an independent unit table.',
    ['NamedValues', 'AviaryValues', 'get_items/get_keys helpers'],
)
prop(
    'P10', 'Atmosphere and flight conditions obey the physics of the chosen model',
    'For every supported atmosphere model, altitude definition and temperature offset, the state reported at any altitude '
    'in range agrees with the published model, the gas law and hydrostatic balance. True airspeed, equivalent airspeed, Mach number '
    'and dynamic pressure are mutually consistent whichever of the three speeds is supplied.',
    ['inputs', 'configurations'],
    'all altitudes in range, offsets, atmosphere models, altitude definitions and speed forms',
    'The tests compare a few altitudes with stored numbers for some models; consistency must hold at every altitude, '
    'offset and speed form.',
    ['aviary/subsystems/atmosphere/atmosphere.py', 'aviary/subsystems/atmosphere/flight_conditions.py',
     'aviary/subsystems/atmosphere/utils/get_atmosphere_data.py'],
    [{'name': 'table interpolation and gas-law closure', 'where': 'aviary/subsystems/atmosphere/atmosphere.py'},
     {'name': 'speed-form conversions', 'where': 'aviary/subsystems/atmosphere/flight_conditions.py'}],
    'property-based testing against an analytic standard atmosphere and physical identities',
    'Generated altitudes, models, offsets and speeds judged by an independent analytic atmosphere and gas-law identities.',
)
prop(
    'P11', 'Every component reports the true derivatives of what it computes',
    'For every component and every point of its smooth domain, the derivatives it reports to the optimizer equal the actual '
    'rate of change of its computed outputs, and outputs that are declared independent of an input do not change with it.',
    ['inputs', 'configurations'],
    'all components, option settings, vector lengths and input points of the smooth domain',
    'Each unit test checks partials at one point with one set of options, often at a point where branches are not taken; '
    'the guarantee is over all points and options.',
    ['aviary/subsystems', 'aviary/mission', 'aviary/utils'],
    [{'name': 'compute_partials/linearize of each component', 'where': 'aviary/subsystems, aviary/mission'}],
    'property-based testing: differential check of reported derivatives against complex-step and finite differences',
    'Generated points, vector lengths and options over a recorded catalogue of component configurations; kinks are recognised and not judged.',
)
prop(
    'P12', 'Results at a trajectory point do not depend on the other points',
    'In every vectorized component and flight-equation group, what is computed at one trajectory node depends only on the inputs at '
    'that node: evaluating several nodes together, separately or in another order gives the same outputs node by node.',
    ['inputs', 'configurations'],
    'all vectorized components and flight-equation groups, node counts, orders and input points',
    'The tests evaluate fixed arrays, mostly of two equal or ordered nodes; independence must hold for every length, order and content.',
    ['aviary/subsystems', 'aviary/mission'],
    [{'name': 'vectorized compute of each component', 'where': 'aviary/subsystems, aviary/mission'}],
    'property-based testing: metamorphic relation (permute, repeat and split nodes)',
    'Metamorphic relation over generated node arrays for every vectorized component of a recorded catalogue and for full flight equations.',
)
prop(
    'P13', 'Analyses are repeatable and free of hidden state',
    'Evaluating a model again at the same inputs gives the same outputs and derivatives, whatever points were evaluated, '
    'refused or linearized in between and whether or not the model is a fresh copy. Building and running a second problem '
    'in the same process gives the same results as the first.',
    ['histories', 'inputs'],
    'all evaluation histories of components, flight-equation groups and whole problems',
    'The tests build one object, evaluate it once and compare; hidden state shows only over histories of several evaluations or problems.',
    ['aviary/subsystems', 'aviary/mission', 'aviary/core/aviary_problem.py'],
    [{'name': 'pure compute methods; per-problem copies of inputs and metadata', 'where': 'aviary/core, aviary/subsystems'}],
    'property-based testing: history-based metamorphic relation',
    'Generated evaluation histories over the component catalogue, whole flight-equation groups and whole problems built twice.',
)
prop(
    'P05', 'Missing passenger, crew, cargo and environment inputs are completed consistently',
    'Whatever subset of the passenger, crew, cargo, baggage, fuel-capacity, layout and environment inputs a user gives, in any units, '
    'preprocessing completes the rest by the documented rules: class counts and totals agree, design values follow or bound the flown ones, '
    'crew counts and masses follow the passenger counts. Given values are never changed unless the rules say so, and contradictory inputs are refused.',
    ['inputs', 'configurations'],
    'all subsets and values of the payload, crew and environment inputs for both mass methods',
    'The tests cover a few combinations of given and missing inputs; the rules interact and must hold for every combination.',
    ['aviary/utils/preprocessors.py'],
    [{'name': 'preprocess_crewpayload, preprocess_fuel_capacities and the environment defaults', 'where': 'aviary/utils/preprocessors.py'}],
    'property-based testing against an independent reference model of the completion rules',
    'Generated input subsets judged by an independent model of the documented completion rules.',
)
prop(
    'P06', 'Engine data of several engine types end up in the right place',
    'For vehicles with any number of engine types, each engine-related variable becomes a vector with one entry per engine type, taken from '
    'that engine if it gives the variable, else from the vehicle, else from the default. Engine counts on wing and fuselage are completed so that they add up to '
    'the total per engine type, and vehicle totals are the sums over engine types.',
    ['inputs', 'configurations'],
    'all numbers of engine types, sources, units and shapes of engine variables',
    'The tests use one or two engine types with a few variables; the merging must hold for every variable, source and engine order.',
    ['aviary/utils/preprocessors.py', 'aviary/subsystems/propulsion/engine_model.py'],
    [{'name': 'preprocess_propulsion', 'where': 'aviary/utils/preprocessors.py'}],
    'property-based testing against an independent reference model of the merging rules',
    'Generated vehicles of one to four engine types judged by an independent model of the merging rules.',
)
prop(
    'P07', 'An engine deck performs as its table says',
    'At every tabulated flight condition and throttle a tabular engine delivers exactly the tabulated net thrust, fuel flow, emissions, temperature and '
    'powers, scaled to the requested size; between tabulated points it interpolates the table. This holds for any row order, units, data source, '
    'ragged table, control normalization and sorting choice, and maximum thrust is the thrust at full throttle.',
    ['inputs', 'configurations'],
    'all engine tables, deck options, scale factors and flight conditions inside the table',
    'The tests compare a few shipped decks at a few points; the relation must hold for every deck and every point.',
    ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/engine_scaling.py'],
    [{'name': 'reading, sorting, packing and normalizing the table', 'where': 'aviary/subsystems/propulsion/engine_deck.py'},
     {'name': 'scaling of engine outputs', 'where': 'aviary/subsystems/propulsion/engine_scaling.py'}],
    'property-based testing: generated decks judged by independent interpolation and scaling',
    'Generated decks from memory or file evaluated at every tabulated point and at generated points between.',
)
prop(
    'P08', 'Defective engine decks are refused',
    'An engine deck that lacks a required column, has columns in incompatible units, contradicts itself about net thrust or scaling, has no reference thrust, has '
    'too few flight conditions or contains text instead of numbers is refused with an error. A sound deck that differs only by harmless details is accepted.',
    ['inputs', 'configurations'],
    'all sound decks and all single defects of these kinds',
    'The tests refuse one or two specific bad decks; every deck with such a defect must be refused, wherever the defect sits.',
    ['aviary/subsystems/propulsion/engine_deck.py'],
    [{'name': 'consistency checks of the deck', 'where': 'aviary/subsystems/propulsion/engine_deck.py'}],
    'property-based testing: generated sound decks with one injected defect',
    'Each generated sound deck must be accepted and the same deck with one injected defect refused.',
)
prop(
    'P17', 'The flight equations obey mechanics',
    'In every flight phase type the rates of speed, path angle, altitude, distance, time, mass and energy equal what Newtonian mechanics, kinematics and the energy balance '
    'give for the current mass, speed, angles, thrust, lift, drag, friction and gravity. Load factor, normal force, required thrust and lift, stall-speed '
    'margins, cruise range and landing distances follow from the same forces.',
    ['inputs', 'configurations'],
    'all flight-equation components and whole phase equations, at all states, forces, angles and options',
    'The tests compare each equation with stored numbers at one or two states, often with small angles where sine and cosine errors vanish.',
    ['aviary/mission'],
    [{'name': 'equations of motion', 'where': 'aviary/mission/**/*_eom.py'}, {'name': 'assembled phase equations', 'where': 'aviary/mission/**/*_ode.py'}],
    'property-based testing against independent vector mechanics',
    'Generated states for every flight-equation component and for the assembled phase equations of whole problems, judged by independent mechanics.',
)
prop(
    'P09', 'Propulsion totals are the count-weighted sums of the individual engines',
    'For any mix of engine types and counts, each engine type works with its own throttle, hybrid throttle, parameters and options, its results appear at its place in the vector '
    'results, and the totals of thrust, maximum thrust, fuel flow, electric power and emissions are the sums over types weighted by engine count. The total sea-level '
    'thrust is the same sum, per-engine sizing uses that engine\'s inputs, and allocated throttles add up to the aggregate throttle.',
    ['inputs', 'configurations'],
    'all propulsion systems of up to four engine types, user-written models and engine decks, at all conditions and throttles',
    'The tests try one or two fixed engine pairs; the slicing, merging and summing must be right for every number, mix and order of engine types.',
    ['aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/propulsion/propulsion_premission.py', 'aviary/subsystems/propulsion/throttle_allocation.py',
     'aviary/subsystems/propulsion/propulsion_builder.py'],
    [{'name': 'mission slicing, vectorizing and sums', 'where': 'aviary/subsystems/propulsion/propulsion_mission.py: PropulsionMission, PropulsionSum'},
     {'name': 'pre-mission slicing and muxing', 'where': 'aviary/subsystems/propulsion/propulsion_premission.py'},
     {'name': 'throttle allocation', 'where': 'aviary/subsystems/propulsion/throttle_allocation.py: ThrottleAllocator'}],
    'property-based testing: generated propulsion systems against per-engine evaluation',
    'Generated engine models with known formulas and generated decks are built through the propulsion builder; every vector entry and total is compared with the engines evaluated one by one.',
)
prop(
    'P16', 'Given values replace computed values everywhere',
    'When the user, or an external subsystem, gives a value for a variable that the geometry, aerodynamics, mass or performance subsystem would compute before the mission, '
    'every consumer of that variable uses the given value, converted to its units. The internally computed value stays available under its override name, and nothing '
    'that does not depend on the overridden variable changes.',
    ['inputs', 'configurations'],
    'all subsets of computed variables of the shipped vehicles, values and units, given by the user or by an external subsystem',
    'The tests override one or two variables of one vehicle; every computed variable can be overridden, in any combination and unit.',
    ['aviary/variable_info/functions.py', 'aviary/core/static_group.py', 'aviary/utils/functions.py', 'aviary/utils/preprocessors.py'],
    [{'name': 'override pass', 'where': 'aviary/variable_info/functions.py: override_aviary_vars'}, {'name': 'external outputs', 'where': 'aviary/core/static_group.py: StaticGroup.configure'}],
    'property-based testing: metamorphic comparison of whole pre-mission models',
    'Generated overrides of computed variables in the pre-mission models of 17 shipped vehicles, compared with the unmodified model through its dependency graph.',
)
prop(
    'P02', 'Vehicle decks mean what is written in them',
    'Reading a vehicle deck gives every variable exactly the value, type and units written in the file, however the file is laid out: number formats, arrays, missing units, '
    'comments, blank fields, line endings and repeated or unknown names. Saving a set of inputs to a file and reading it back returns the same inputs.',
    ['inputs', 'file contents'],
    'all decks over all registered variables and all sets of inputs',
    'The tests read a handful of fixed files; every variable, value and layout must be read and written faithfully.',
    ['aviary/utils/process_input_decks.py', 'aviary/utils/aviary_inputs_to_csv.py', 'aviary/utils/functions.py', 'aviary/utils/utils.py'],
    [{'name': 'deck reader', 'where': 'aviary/utils/process_input_decks.py: parse_inputs'}, {'name': 'deck writer', 'where': 'aviary/utils/aviary_inputs_to_csv.py: save_to_csv_file'}],
    'property-based testing: generated decks and write-read round trips',
    'Generated decks in many layouts are read and compared with what was written; generated inputs are saved and read back.',
)
prop(
    'P15', 'Results do not depend on the units or order in which inputs are given',
    'Giving any of the vehicle inputs in other compatible units, in another order, as lists or arrays, or in a file instead of an object changes no derived option, no '
    'initial guess and no result of the pre-mission analysis beyond round-off. Fuel capacities that agree are accepted and contradictory ones refused in any mix of units.',
    ['inputs', 'configurations'],
    'all re-expressions of the inputs of the shipped vehicles, and all sets of fuel capacities',
    'The tests give each input in one unit; a comparison or formula that ignores units is right for that unit only.',
    ['aviary/utils/process_input_decks.py', 'aviary/utils/preprocessors.py', 'aviary/utils/aviary_values.py', 'aviary/subsystems', 'aviary/mission'],
    [{'name': 'dependent options and initial guesses', 'where': 'aviary/utils/process_input_decks.py: update_dependent_options, initialization_guessing'},
     {'name': 'preprocessing', 'where': 'aviary/utils/preprocessors.py'}],
    'property-based testing: metamorphic change of units, order and medium',
    'Generated re-expressions of the inputs of 17 shipped vehicles; derived options, guesses and all pre-mission outputs must agree with the original.',
)
prop(
    'P14', 'The mass statement adds up',
    'Each total of the weight statement is the sum of its parts, with engine counts and scalers applied once: empennage, structure, propulsion, systems, '
    'empty, operating items, operating, payload and zero-fuel mass, useful load and total fuel. This holds for both mass methods, the alternate weights, any mix of '
    'engines, masses given by the user and masses of external subsystems in any units.',
    ['inputs', 'configurations'],
    'all part masses, engine mixes, given masses and external subsystems, for both mass methods',
    'The tests compare totals with stored numbers of a few vehicles, in which many parts are zero or there is one engine type; a part left out, counted twice or weighted wrongly can stay unseen.',
    ['aviary/subsystems/mass/flops_based', 'aviary/subsystems/mass/gasp_based', 'aviary/core/aviary_group.py'],
    [{'name': 'FLOPS summation', 'where': 'aviary/subsystems/mass/flops_based/mass_summation.py'}, {'name': 'GASP summation', 'where': 'aviary/subsystems/mass/gasp_based/mass_summation.py'},
     {'name': 'external subsystem masses', 'where': 'aviary/core/aviary_group.py: _add_premission_external_subsystem_masses'}],
    'property-based testing: accounting identities over generated weight statements',
    'Generated part masses, engine mixes and vehicles; each total is compared with the sum of the published parts.',
)
prop(
    'P03', 'Table files hold the same data when read as when written',
    'Writing a table and reading it back returns the same columns, values, units, labels and comments, and changes nothing the caller passed in. Reading a table file of any '
    'layout returns every required or requested column, under its canonical name whatever alias, case or spacing it uses, with its units and the values written. Tables that '
    'lack required columns, repeat a column, are ragged or hold text among the numbers are refused.',
    ['inputs', 'file contents'],
    'all tables of numbers, names, aliases, units and layouts',
    'The tests read a few fixed files; every combination of layout, alias and unit must be read faithfully.',
    ['aviary/utils/csv_data_file.py', 'aviary/utils/functions.py', 'aviary/utils/named_values.py'],
    [{'name': 'table reader', 'where': 'aviary/utils/csv_data_file.py: read_data_file'}, {'name': 'table writer', 'where': 'aviary/utils/csv_data_file.py: write_data_file'}],
    'property-based testing: write-read round trips and generated layouts',
    'Generated tables are written and read back; generated files in many layouts are read and compared with the table they were made from.',
)
prop(
    'P23', 'Interpolated tables reproduce the data they are given',
    'An interpolator built from a table reproduces every training point and, with the linear method, interpolates linearly between neighbours on the grid, whatever the order of rows '
    'and columns, the form of the data (file, object, connected), the units asked for and whether the data is structured or semistructured. Each output comes from its '
    'own column.',
    ['inputs', 'configurations'],
    'all gridded tables of one to three inputs, row and column orders, forms, units, methods and roles',
    'The tests build interpolators from a few files with one order of columns; mixing columns or rows changes only other tables.',
    ['aviary/utils/data_interpolator_builder.py', 'aviary/utils/csv_data_file.py'],
    [{'name': 'builder', 'where': 'aviary/utils/data_interpolator_builder.py: build_data_interpolator'}],
    'property-based testing: generated tables against their own data',
    'Generated tables in every supported form and order, evaluated at the training points and between them.',
)
prop(
    'P04', 'Metadata, hierarchies and component variables agree',
    'Adding, updating and merging variable metadata keeps every definition as given, refuses duplicates and contradictions, and never changes the sources. Merging variable hierarchies '
    'gives exactly the union of their variables, keeps the core hierarchy, refuses contradictions and never changes the sources. A component that declares a registered '
    'variable as input, output or option gets its registered default, units and description, converted to any compatible units asked for, while incompatible units are refused.',
    ['inputs', 'operation histories'],
    'all histories of metadata operations, all sets of hierarchies, all registered variables',
    'The tests use a few fixed definitions; shared mutable state shows only in longer histories.',
    ['aviary/utils/develop_metadata.py', 'aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py', 'aviary/utils/compare_hierarchies.py',
     'aviary/variable_info/functions.py', 'aviary/variable_info/variable_meta_data.py'],
    [{'name': 'metadata registry', 'where': 'aviary/utils/develop_metadata.py'}, {'name': 'merges', 'where': 'aviary/utils/merge_hierarchies.py, merge_variable_metadata.py'},
     {'name': 'declarations', 'where': 'aviary/variable_info/functions.py: add_aviary_input, add_aviary_output, add_aviary_option'}],
    'property-based testing: model-based histories',
    'Histories of registry operations against a dictionary model, generated hierarchies against their union, and declarations of every registered variable.',
)
prop(
    'P27', 'Smoothing functions match their exact definitions and derivatives',
    'For any finite argument and steepness, as a number, array or complex number, the sigmoid equals the logistic function and the smooth minimum and maximum stay within log(2)/steepness of the '
    'exact ones, on the documented side. The smooth integers stay within one step of the whole part and repeat with period one, and every derivative function equals the '
    'derivative of its function, without overflow or warnings.',
    ['inputs'],
    'all finite arguments, centres and steepness, in every form',
    'The tests evaluate a few points near the transition; overflow and branch mistakes show far from it.',
    ['aviary/utils/math.py'],
    [{'name': 'smoothing functions', 'where': 'aviary/utils/math.py'}],
    'property-based testing: closed forms and difference quotients',
    'Generated arguments compared with independently written, overflow-free closed forms.',
)
prop(
    'P28', 'External subsystems take part in the analysis as their builders say',
    'Every hook of a subsystem builder has its documented effect in every phase: its models run with the options meant for them, its states, controls, parameters, constraints, links, design '
    'variables, guesses, timeseries and masses appear with the stated values, units and bounds. The buses carry the stated values between pre-mission, mission and post-mission, whatever other '
    'subsystems are loaded; what is no builder or has an unknown kind of constraint is refused.',
    ['configurations', 'inputs'],
    'all builders with any combination of hooks, several of them, any phases and options',
    'The tests use a few example builders, each with a few hooks, in the default mission.',
    ['aviary/subsystems/subsystem_builder.py', 'aviary/core/aviary_group.py', 'aviary/mission/phase_builder.py', 'aviary/mission/base_ode.py'],
    [{'name': 'hooks', 'where': 'aviary/core/aviary_group.py: add_pre_mission_systems, add_phases, add_post_mission_systems, _add_bus_variables_and_connect, _connect_mission_bus_variables, add_design_variables, _add_subsystem_guesses'},
     {'name': 'phase variables', 'where': 'aviary/mission/phase_builder.py: add_subsystem_variables_to_phase; aviary/mission/base_ode.py: add_subsystems'}],
    'property-based testing: generated builders against a reference evaluation of their hooks',
    'Generated subsystems with known formulas in energy-state missions; every published value is recomputed and the driver inspected.',
)
prop(
    'P18', 'Every phase option appears in the optimization problem',
    'In an energy-state mission, each option of a phase is stated to the optimizer exactly once, in its units: bounds and fixed values of time, mass, distance, Mach and altitude, how the '
    'throttle is enforced, climb and descent restrictions, the required climb rate, the target distance and the constraints of the user, at the nodes they name. Quantities the options fix are '
    'not free, guesses give the starting values, and nothing else restricts the phase.',
    ['configurations', 'inputs'],
    'all combinations of phase options, units and numbers of phases',
    'The tests build a few standard missions; an option dropped or applied twice shows only with its own combination of options.',
    ['aviary/core/aviary_problem.py', 'aviary/mission', 'aviary/core/aviary_group.py'],
    [{'name': 'energy-state phases', 'where': 'aviary/mission/flight_phase_builder.py, aviary/mission/energy_state'},
     {'name': 'initial guesses', 'where': 'aviary/mission/energy_state_problem_configurator.py, aviary/core/aviary_group.py'}],
    'property-based testing: generated missions against the problem they state',
    'Generated phase options, built through the public interface; the design variables, constraints and values of the built problem are compared with the options.',
)
prop(
    'P19', 'The phases of a mission join up',
    'In an energy-state mission, each phase begins where the previous one ends in time, mass, distance, Mach and altitude: each mismatch is zero by construction, or is '
    'the value of an equality constraint given to the optimizer. The first phase begins with the mass, distance, Mach and altitude after takeoff, the mission totals are those at '
    'the end of the last main phase, and the reserve mission is not joined to the main one.',
    ['configurations', 'inputs'],
    'all missions of several phases, with any options, links and unrelated guesses',
    'The tests optimize a few missions with consistent guesses; a missing joint shows only where the guesses leave a gap.',
    ['aviary/core/aviary_group.py', 'aviary/mission'],
    [{'name': 'linking', 'where': 'aviary/core/aviary_group.py: link_phases; aviary/mission/utils.py; aviary/mission/energy_state_problem_configurator.py: link_phases'}],
    'property-based testing: invariant over generated missions',
    'Generated phases with unrelated guesses; each gap between neighbours in the evaluated mission must be zero or the value of an equality constraint.',
)
prop(
    'P20', 'Sizing and fuel constraints and objectives are those of the problem type',
    'Each problem type gives the optimizer the documented gross mass variables and the range, gross mass, fuel balance and tank capacity constraints. Their values, the mission, block and reserve '
    'fuel, and the objective asked for (single or weighted over several missions, with its reference value and the right direction) equal what follows from the '
    'flown mission, the reserve policy and the mass statement.',
    ['configurations', 'inputs'],
    'all problem types, objectives, references, reserve policies, ranges, fuel allowances and fleets of missions',
    'The tests optimize a few standard problems; a wrong residual or objective for another reserve policy or problem type still converges.',
    ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py', 'aviary/subsystems/energy', 'aviary/mission/energy_state_problem_configurator.py'],
    [{'name': 'problem types', 'where': 'aviary/core/aviary_group.py: add_design_variables'}, {'name': 'objectives', 'where': 'aviary/core/aviary_problem.py: add_objective, add_composite_objective'},
     {'name': 'fuel bookkeeping', 'where': 'aviary/subsystems/energy/fuel_summation.py, energy_builder.py'}],
    'property-based testing: generated problems against bookkeeping recomputed from the flown mission',
    'Generated missions, reserve policies and fleets; fuel totals, residuals and objectives are recomputed from the timeseries.',
)

prop(
    'P21', 'A saved or off-design aircraft is the same aircraft, flown as asked',
    'Saving a problem and reloading it reproduces every input, value and unit, and neither changes the problem. Off-design and payload-range missions keep the sized aircraft, carry exactly the '
    'passengers and cargo asked for (or those that fit), start at the gross mass and range asked for, and leave the design problem and the phase_info of the caller as they were; the payload-range '
    'points are those of the missions flown, whatever units the inputs were given in.',
    ['inputs', 'configurations'],
    'all inputs, payloads, gross masses, units, ranges, phase_info and tank capacities',
    'The tests that fly off-design missions need an optimizer that may be missing, and cover one aircraft with one payload in pounds.',
    ['aviary/core/aviary_problem.py'],
    [{'name': 'save and reload', 'where': 'aviary/core/aviary_problem.py: save_results, _read_sizing_json, reload_aviary_problem'}, {'name': 'off-design', 'where': 'aviary/core/aviary_problem.py: run_off_design_mission, run_payload_range'}],
    'property-based testing: save/reload round trip and metamorphic comparison of design and off-design problems',
    'Generated inputs, payloads, units and tanks; optimization is replaced by one evaluation, so what is checked is the problem posed and the aircraft in it.',
)

prop(
    'P22', 'Converting a Fortran deck keeps its meaning',
    'A GASP or FLOPS deck converts to the same Aviary file however it is laid out (case, spaces, comments, order, variables per line, closing marks). Every known variable keeps its value and units under its Aviary name, '
    'every unknown one is kept, variables whose meaning depends on their value or on others follow their documented rules, Aviary reads the converted file with the values of the deck, and decks without required variables are refused.',
    ['inputs'],
    'all decks: any subset of the known variables, any values, unknown variables, Aviary names and layouts',
    'The tests convert seven decks and compare the text with earlier output.',
    ['aviary/utils/fortran_to_aviary.py', 'aviary/utils/legacy_code_data'],
    [{'name': 'deck conversion', 'where': 'aviary/utils/fortran_to_aviary.py: parse_input_file, process_and_store_data, set_value, update_gasp_options, update_flops_options, update_flops_scaler_variables'}],
    'property-based testing: metamorphic comparison of two layouts of a generated deck, reference rules for legacy variables, round trip through create_vehicle',
    'Generated decks; legacy name tables and legacy defaults are taken as given.',
)

prop(
    'P24', 'The drivetrain conserves energy and every engine type is itself',
    'Power, speed and torque pass from the motor or turboshaft through the gearbox to the propeller with exactly the losses and ratios asked for, the electric power and fuel drawn are those of the tables '
    'given, whatever their row order and units, and the vehicle totals are the sums over engines. Each engine type of a vehicle performs as it does alone, with its own options, tables, fixed speed and size, and '
    'the battery loses exactly the energy used.',
    ['inputs', 'configurations'],
    'all motor maps, turboshaft decks, propeller tables, ratios, efficiencies, sizes, engine counts and mixes of engine types',
    'The tests cover one motor map, one turboshaft deck and at most one propeller table, with one engine type at a time.',
    ['aviary/subsystems/propulsion/turboprop_model.py', 'aviary/subsystems/propulsion/motor/model/motor_map.py', 'aviary/subsystems/propulsion/gearbox/model/gearbox_mission.py', 'aviary/subsystems/propulsion/propeller/propeller_performance.py', 'aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/energy/battery_builder.py'],
    [{'name': 'drivetrain', 'where': 'aviary/subsystems/propulsion/turboprop_model.py: TurbopropMission; motor/model/motor_map.py; gearbox/model; propeller'}, {'name': 'vehicle totals', 'where': 'aviary/subsystems/propulsion/propulsion_mission.py: PropulsionMission, PropulsionSum'}],
    'property-based testing: generated tables and vehicles against an energy balance in SI units, each engine type compared with itself alone, similarity laws of the propeller',
    'Generated tables are linear in each argument so that the expected values are exact; the Hamilton Standard charts are checked by their similarity laws only.',
)
