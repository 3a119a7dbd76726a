import copy

import numpy as np
from hypothesis import strategies as st

from lib import formulation as fm
from lib import units_ref
from lib.pbt import Part, short

PROPERTY = 'P20'
RULE = (
    'Missions of every problem type, objective, reserve policy and fuel bookkeeping are built and evaluated once; fuel totals, residuals and the objective are recomputed '
    'from the timeseries. Non-trivial: a reserve policy or a target range is active.'
)
ASSUMPTIONS = ['Energy-state missions of the advanced single aisle vehicle; points where the flight equations do not converge decide nothing about values.']

TYPES = ['SIZING', 'OFF_DESIGN_MIN_FUEL', 'OFF_DESIGN_MAX_RANGE']
# objective: default reference, or None where only the sign is documented
OBJECTIVES = ['mass', 'time', 'hybrid_objective', 'fuel_burned', 'fuel', None]
MAXIMIZED = ('mass',)

case_st = st.fixed_dictionaries(
    {
        'phases': st.lists(fm.phase_st, min_size=1, max_size=3),
        'reserve': st.sampled_from([0, 0, 1, 1, 2]),
        'problem': st.sampled_from(TYPES),
        'objective': st.sampled_from(OBJECTIVES),
        'ref': st.sampled_from([None, None, 2.0, 3000.0, -7.0]),
        'takeoff': st.sampled_from([False, False, True]),
        'target': fm.maybe(st.tuples(st.sampled_from([900.0, 1906.0, 2500.0]), st.sampled_from(['nmi', 'km', 'mi']))),
        'design_range': st.sampled_from([1500.0, 3375.0]),
        'gross': st.sampled_from([160000.0, 171000.0, 182000.0]),
        'mission_gross': fm.maybe(st.sampled_from([150000.0, 165000.0])),
        'taxi_out': st.sampled_from([0.0, 300.0]),
        'taxi_in': st.sampled_from([0.0, 150.0]),
        'takeoff_fuel': st.sampled_from([0.0, 500.0]),
        'margin': st.sampled_from([0.0, 0.0, 5.0, 12.5]),
        'additional': st.sampled_from([(0.0, 'lbm'), (1000.0, 'kg'), (3000.0, 'lbm')]),
        'ignore_capacity': st.booleans(),
        'unusable': st.sampled_from([0.0, 400.0]),
        'ascent': st.sampled_from([0.0, 45.0]),
        'mass_units': st.tuples(*[st.sampled_from(['lbm', 'kg', 'slug'])] * 6),
    }
)


def check(case, ctx):
    from aviary.variable_info.enums import ProblemType
    from aviary.variable_info.variables import Aircraft, Mission

    info = {'pre_mission': {'include_takeoff': case['takeoff']}, 'post_mission': {'include_landing': False}}
    if case['target'] is not None:
        info['post_mission']['target_range'] = case['target']
    phases = fm.settle(case['phases'])
    nres = min(case['reserve'], len(phases) - 1)
    names = []
    for j, c in enumerate(phases):
        name = f'p{j}'
        names.append(name)
        info[name], _ = fm.phase_info(dict(c, target_distance=None, constraints=[], mass_final=None))
        if j >= len(phases) - nres:
            info[name]['user_options']['reserve'] = True

    def change(inputs):
        def put(var, value, i):
            u = case['mass_units'][i]
            inputs.set_val(var, units_ref.convert(value, 'lbm', u), units=u)

        put(Mission.Taxi.FUEL_MASS_TAXI_OUT, case['taxi_out'], 0)
        put(Mission.Taxi.FUEL_MASS_TAXI_IN, case['taxi_in'], 1)
        if not case['takeoff']:
            put(Mission.Takeoff.FUEL_MASS, case['takeoff_fuel'], 2)
        inputs.set_val(Mission.RESERVE_FUEL_MARGIN, case['margin'])
        inputs.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, case['additional'][0], units=case['additional'][1])
        inputs.set_val(Aircraft.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT, case['ignore_capacity'])
        put(Aircraft.Fuel.UNUSABLE_FUEL_MASS, case['unusable'], 3)
        put(Aircraft.Design.GROSS_MASS, case['gross'], 4)
        inputs.set_val(Aircraft.Design.RANGE, case['design_range'], units='nmi')
        inputs.set_val(Mission.Takeoff.ASCENT_DURATION, case['ascent'], units='s')
        if case['mission_gross'] is not None:
            put(Mission.GROSS_MASS, case['mission_gross'], 5)

    f = fm.build(info, change=change, objective=case['objective'], ref=case['ref'], problem_type=ProblemType[case['problem']])
    p = f.prob
    what = short(dict(case, phases=len(names)), 900)

    def get(var, units='lbm'):
        return float(np.ravel(p.get_val(var, units=units))[0])

    def same(have, want, key, tol=1e-7):
        ctx.require(abs(have - want) <= tol * max(1.0, abs(have), abs(want)), lambda: f'{key} is {have}, recomputed {want}: {what}', key=key)

    # what the optimizer is given, apart from the phases
    dvs = {d['name']: d for n, d in f.dvs.items() if not n.startswith('traj')}
    want = {
        'SIZING': {Aircraft.Design.GROSS_MASS: (10.0, None), Mission.GROSS_MASS: (10.0, None)},
        'OFF_DESIGN_MIN_FUEL': {Mission.GROSS_MASS: (10.0, case['gross'])},
        'OFF_DESIGN_MAX_RANGE': {},
    }[case['problem']]
    ctx.require(set(dvs) == set(want), lambda: f'design variables are {sorted(dvs)}, expected {sorted(want)}: {what}', key='design_vars')
    for n, (lo, hi) in want.items():
        got = f.bounds(dvs[n], 'lbm')
        ctx.require(abs(got[0] - lo) < 1e-6 and ((hi is None) == (got[1] is None)) and (hi is None or abs(got[1] - hi) < 1e-6 * hi), lambda: f'{n} is bounded by {got}, expected {(lo, hi)} lbm: {what}', key='design_var_bounds')
    cons = {d['name']: d for n, d in f.cons.items() if not n.startswith(('traj', 'link_', 'mach_diff', 'alt_diff')) and 'collocation' not in n}
    need = {Mission.Constraints.MASS_RESIDUAL: (None, None, 0.0)}
    if not case['ignore_capacity']:
        need[Mission.Constraints.EXCESS_FUEL_MASS_CAPACITY] = (0.0, None, None)
    if case['problem'] == 'OFF_DESIGN_MIN_FUEL' or (case['problem'] == 'SIZING' and case['target'] is not None):
        need[Mission.Constraints.RANGE_RESIDUAL] = (None, None, 0.0)
    for n, w in need.items():
        ctx.require(n in cons, lambda: f'{n} is not constrained: {what}', key='constraint_missing:' + n)
        ctx.require(f.bounds(cons[n], None) == w, lambda: f'{n} is constrained to {f.bounds(cons[n], None)}, expected {w}: {what}', key='constraint:' + n)
    rest = {n: d for n, d in cons.items() if n not in need}
    gtow = [d for d in rest.values() if f.bounds(d, None)[2] == 0.0]
    ctx.require(len(rest) == len(gtow) == (case['problem'] == 'SIZING'), lambda: f'further constraints {sorted(rest)}: {what}', key='constraint_extra')
    ctx.label(case['problem'], str(case['objective']), f'{nres}_reserve')
    ctx.nontrivial(nres > 0 or case['margin'] > 0 or case['additional'][0] > 0 or case['target'] is not None)
    # masses known before the mission
    gross, design, total = get(Mission.GROSS_MASS), get(Aircraft.Design.GROSS_MASS), get(Mission.TOTAL_FUEL_MASS)
    same(design, case['gross'], 'design_gross_mass')
    if not f.ran:
        ctx.label('not_run')
        return
    for d in gtow:
        v = f.value(d)[0]
        w = design - gross
        ctx.require(np.sign(round(v, 9)) in (np.sign(round(w, 6)), -np.sign(round(w, 6))) and (abs(v) > 1e-9) == (abs(w) > 1e-6), lambda: f'design gross mass {design}, mission gross mass {gross} lbm, constraint value {v}: {what}', key='gross_mass_agree')
    same(total, gross - get(Mission.ZERO_FUEL_MASS), 'total_fuel')
    ends = {n: (np.ravel(p.get_val(f'traj.{n}.timeseries.mass', units='lbm')), np.ravel(p.get_val(f'traj.{n}.timeseries.time', units='h')), np.ravel(p.get_val(f'traj.{n}.timeseries.distance', units='nmi'))) for n in names}
    main, res = names[: len(names) - nres], names[len(names) - nres:]
    final, time, rng = (ends[main[-1]][k][-1] for k in range(3))
    fuel = gross - final
    same(get(Mission.FUEL_MASS), fuel, 'mission_fuel')
    same(get(Mission.BLOCK_FUEL_MASS), fuel + case['taxi_in'], 'block_fuel')
    burned = ends[res[0]][0][0] - ends[res[-1]][0][-1] if res else 0.0
    if res:
        same(get(Mission.RESERVE_FUEL_MASS), burned, 'reserve_burned')
    reserve = burned + case['margin'] / 100 * fuel + units_ref.convert(case['additional'][0], case['additional'][1], 'lbm')
    same(get(Mission.TOTAL_RESERVE_FUEL_MASS), reserve, 'reserve_total')
    same(get(Mission.Constraints.MASS_RESIDUAL), total - fuel - reserve, 'mass_residual', 1e-6)
    same(get(Mission.Constraints.EXCESS_FUEL_MASS_CAPACITY), get(Aircraft.Fuel.MAX_CAPACITY_MASS) - get(Aircraft.Fuel.UNUSABLE_FUEL_MASS) - total, 'excess_capacity', 1e-6)
    same(get(Aircraft.Fuel.UNUSABLE_FUEL_MASS), case['unusable'], 'unusable_fuel')
    same(get(Mission.FINAL_MASS), final, 'final_mass')
    same(get(Mission.FINAL_TIME, 'h'), time, 'final_time')
    same(get(Mission.RANGE, 'nmi'), rng, 'range')
    target = units_ref.convert(*case['target'], 'nmi') if case['target'] is not None else case['design_range']
    same(get(Mission.Constraints.RANGE_RESIDUAL, 'nmi'), target - rng, 'range_residual', 1e-6)
    # the objective
    o = list(f.objs.values())
    ctx.require(len(o) == 1, lambda: f'{len(o)} objectives: {what}', key='objective')
    fuel_obj, range_obj = total / 10000 + case['ascent'] / 30, -rng / 1000 + case['ascent'] / 30
    last = ends[names[-1]]
    value = {
        'mass': [final], 'time': [time * 3600], 'fuel_burned': [fuel], 'fuel': [fuel_obj],
        'hybrid_objective': [-final / case['gross'] + time / 5, -last[0][-1] / case['gross'] + last[1][-1] / 5],
        None: [range_obj] if case['problem'] == 'OFF_DESIGN_MAX_RANGE' else [fuel_obj],
    }[case['objective']]
    scaled = float(np.ravel(list(p.driver.get_objective_values().values())[0])[0])
    scaler = o[0]['total_scaler']
    scaler = 1.0 if scaler is None else float(np.ravel(scaler)[0])
    have = scaled / scaler
    unit = o[0]['units'] or f.own_units(o[0]['source'])
    own = {'mass': 'lbm', 'time': 's', 'fuel_burned': 'lbm'}.get(case['objective'])
    if own and unit not in (None, own):
        value = [units_ref.convert(v, own, unit) for v in value]
    ctx.require(any(abs(have - v) <= 1e-6 * max(1.0, abs(v)) for v in value), lambda: f'objective is {have} ({unit}), documented {value}: {what}', key=f'objective:{case["objective"]}')
    if case['ref'] is not None:
        ctx.require(abs(scaler * case['ref'] - 1) < 1e-9, lambda: f'objective is scaled by {scaler}, ref {case["ref"]}: {what}', key='ref')
    else:
        ctx.require((scaler < 0) == (case['objective'] in MAXIMIZED), lambda: f'objective {case["objective"]} is scaled by {scaler}: {what}', key='ref_sign')



SHORT = {'fuel_burned': 'FUEL_MASS', 'fuel': 'Objectives.FUEL', 'mass': 'FINAL_MASS', 'time': 'FINAL_TIME', 'range': 'RANGE'}
fleet_st = st.fixed_dictionaries(
    {
        'missions': st.lists(
            st.fixed_dictionaries(
                {
                    'phases': st.lists(fm.phase_st, min_size=1, max_size=2),
                    'target': st.tuples(st.sampled_from([900.0, 1906.0, 2500.0]), st.sampled_from(['nmi', 'km', 'mi'])),
                    'gross': st.sampled_from([150000.0, 165000.0, 171000.0]),
                    'pax': st.sampled_from([1, 60, 150]),
                }
            ),
            min_size=2,
            max_size=3,
        ),
        'terms': st.lists(
            st.tuples(st.sampled_from(range(3)), st.sampled_from(['fuel_burned', 'fuel', 'mass', 'time', 'range', 'FUEL_MASS', 'TOTAL_FUEL_MASS']), st.sampled_from([None, 1, 2, 0.5])),
            min_size=1, max_size=4, unique_by=lambda t: t[:2],
        ),
        'independent': st.booleans(),
        'mission_weights': fm.maybe(st.lists(st.sampled_from([1.0, 2.0, 5.0]), min_size=3, max_size=3)),
        'output_weights': fm.maybe(st.lists(st.sampled_from([1.0, 3.0, 0.25]), min_size=3, max_size=3)),
        'outputs': st.lists(st.sampled_from(['FUEL_MASS', 'TOTAL_FUEL_MASS', 'FINAL_MASS']), min_size=1, max_size=2, unique=True),
        'ref': st.sampled_from([None, 2.0, 1e4]),
        'design': st.sampled_from([160000.0, 175000.0]),
    }
)


def fleet(case, ctx):
    from openmdao.core.problem import _clear_problem_names

    import aviary.api as av
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.enums import ProblemType
    from aviary.variable_info.variables import Aircraft, Mission
    from lib.mission import om, quiet

    def var(name):
        v = Mission
        for k in SHORT.get(name, name).split('.'):
            v = getattr(v, k)
        return v

    names = [f'm{k}' for k in range(len(case['missions']))]
    what = short({k: v for k, v in case.items() if k != 'missions'}, 600) + short([{k: v for k, v in m.items() if k != 'phases'} for m in case['missions']], 600)
    with quiet():
        _clear_problem_names()
        p = av.AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
        for name, m in zip(names, case['missions']):
            info = {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False, 'target_range': m['target']}}
            for j, c in enumerate(fm.settle(m['phases'])):
                info[f'p{j}'], _ = fm.phase_info(dict(c, target_distance=None, constraints=[], mass_final=None))
            inputs, _ = create_vehicle(fm.DECK)
            inputs.set_val(Mission.GROSS_MASS, m['gross'], units='lbm')
            inputs.set_val(Aircraft.CrewPayload.NUM_PASSENGERS, m['pax'])
            inputs.set_val(Aircraft.CrewPayload.NUM_ECONOMY_CLASS, m['pax'])
            inputs.set_val(Aircraft.CrewPayload.NUM_BUSINESS_CLASS, 0)
            inputs.set_val(Aircraft.CrewPayload.NUM_FIRST_CLASS, 0)
            p.add_aviary_group(name, aircraft=inputs, phase_info=info, verbosity=0)
        p.build_model()
        p.promote_inputs(names, [(Aircraft.Design.GROSS_MASS, 'Fleet:GROSS_MASS'), (Aircraft.Design.RANGE, 'Fleet:RANGE')])
        p.add_design_var_default('Fleet:GROSS_MASS', lower=20.0, upper=900e3, units='lbm', default_val=case['design'])
        if case['independent']:
            mw = None if case['mission_weights'] is None else case['mission_weights'][: len(names)]
            ow = None if case['output_weights'] is None else case['output_weights'][: len(case['outputs'])]
            ref = case['ref'] or 1.0
            p.add_composite_objective_adv(missions=names, outputs=[var(o) for o in case['outputs']], mission_weights=mw, output_weights=ow, ref=ref)
            mw, ow = mw or [1.0] * len(names), ow or [1.0] * len(case['outputs'])
            terms = [(n, var(o), a / sum(mw) * b / sum(ow)) for n, a in zip(names, mw) for o, b in zip(case['outputs'], ow)]
        else:
            args, terms = [], []
            for k, o, w in {(k % len(names), o): (k % len(names), o, w) for k, o, w in case['terms']}.values():
                out = o if o in SHORT else var(o)
                args.append((names[k], out) if w is None else (names[k], out, w))
                terms.append((names[k], var(o), 1.0 if w is None else w))
            same_var = len({t[:2] for t in terms}) == len(terms)
            if not same_var:
                return  # the same output named twice
            total = sum(t[2] for t in terms)
            terms = [(n, o, w / total) for n, o, w in terms]
            p.add_composite_objective(*args, ref=case['ref'])
            ref = case['ref']
        p.add_driver('SLSQP', max_iter=1, use_coloring=False)
        p.add_design_variables()
        p.setup()
        p.set_design_range(names, range='Fleet:RANGE')
        p.final_setup()
        f = fm.Formulation(p)
        try:
            om.Problem.run_model(p)
        except om.AnalysisError:
            f.ran = False
    design_range = max(units_ref.convert(*m['target'], 'nmi') for m in case['missions'])
    mine = {n: d for n, d in f.dvs.items() if '.traj' not in n}
    ctx.require(len(mine) == len(names) + 1, lambda: f'design variables {sorted(mine)}: {what}', key='fleet:design_vars')
    ctx.require(f.bounds(mine['Fleet:GROSS_MASS'], 'lbm')[:2] == (20.0, 900e3), lambda: f'shared gross mass is bounded by {f.bounds(mine["Fleet:GROSS_MASS"], "lbm")}: {what}', key='fleet:design_bounds')

    def get(path, units='lbm'):
        return float(np.ravel(p.get_val(path, units=units))[0])

    def same(have, want, key, tol=1e-6):
        ctx.require(abs(have - want) <= tol * max(1.0, abs(have), abs(want)), lambda: f'{key} is {have}, expected {want}: {what}', key=key)

    for name, m in zip(names, case['missions']):
        cons = {n: d for n, d in f.cons.items() if n.startswith(name + '.') and '.traj' not in n}
        for n, w in ((Mission.Constraints.RANGE_RESIDUAL, (None, None, 0.0)), (Mission.Constraints.MASS_RESIDUAL, (None, None, 0.0)), ('gross_mass_resid', (0.0, None, None))):
            full = f'{name}.{n}'
            ctx.require(full in cons and f.bounds(cons[full], None) == w, lambda: f'{full} is constrained to {f.bounds(cons[full], None) if full in cons else None}: {what}', key='fleet:constraint')
        same(get(f'{name}.{Mission.GROSS_MASS}'), m['gross'], 'fleet:mission_gross_mass')
        same(get('Fleet:GROSS_MASS'), case['design'], 'fleet:design_gross_mass')
        same(get('Fleet:RANGE', 'nmi'), design_range, 'fleet:design_range')
        if f.ran:
            same(get(f'{name}.gross_mass_resid', 'lbm'), case['design'] - m['gross'], 'fleet:gross_mass_residual')
            same(get(f'{name}.{Mission.Constraints.RANGE_RESIDUAL}', 'nmi'), units_ref.convert(*m['target'], 'nmi') - get(f'{name}.{Mission.RANGE}', 'nmi'), 'fleet:range_residual')
            same(get(f'{name}.{Mission.TOTAL_FUEL_MASS}'), m['gross'] - get(f'{name}.{Mission.ZERO_FUEL_MASS}'), 'fleet:total_fuel')
    ctx.label(f'{len(names)}_missions', 'independent' if case['independent'] else f'{len(terms)}_terms')
    ctx.nontrivial(len(terms) > 1)
    if not f.ran:
        ctx.label('not_run')
        return
    want = sum(float(np.ravel(p.get_val(f'{n}.{o}'))[0]) * w for n, o, w in terms)
    same(float(np.ravel(p.get_val('composite_objective'))[0]), want, 'fleet:objective')
    o = list(f.objs.values())
    ctx.require(len(o) == 1, lambda: f'{len(o)} objectives: {what}', key='fleet:objective')
    scaler = o[0]['total_scaler']
    scaler = 1.0 if scaler is None else float(np.ravel(scaler)[0])
    if ref is not None:
        same(scaler * ref, 1.0, 'fleet:ref')


PARTS = [
    Part('energy', case_st, check, quick=160, thorough=6000, shards=8),
    Part('fleet', fleet_st, fleet, quick=40, thorough=1200, shards=8),
]
