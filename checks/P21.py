import copy
import os
from copy import deepcopy
from unittest import mock

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

import aviary.api as av
from aviary.core.aviary_problem import _read_sizing_json, reload_aviary_problem
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import ProblemType
from aviary.variable_info.variables import Aircraft, Mission, Settings
from checks.P02 import built, item_st, kinds
from lib import formulation as fm
from lib.mission import quiet
from lib.pbt import Part, short
from lib.units_ref import convert

PROPERTY = 'P21'
RULE = (
    'Generated sets of inputs are saved as results of a problem and read back; problems with generated payload, masses and units are evaluated once, saved and reloaded or not, and '
    'flown off-design with generated payloads, ranges and gross masses (optimization replaced by one evaluation). Non-trivial: at least three inputs with one that is no plain number, '
    'or an off-design mission that differs from the design mission.'
)
ASSUMPTIONS = [
    'Optimization is replaced by one evaluation at the initial guesses: what is checked is the aircraft, the payload and the problem given to the optimizer.',
    'Sequences read back as lists count as equal to the arrays that were saved.',
]
META = av.CoreMetaData
CP = Aircraft.CrewPayload


# ---------------------------------------------------------------------------------------------- files
json_st = st.fixed_dictionaries(
    {
        'items': st.lists(item_st, min_size=1, max_size=12),
        'gross': st.sampled_from([None, 'lbm', 'kg', 'slug']),
        'design': st.sampled_from([None, 'lbm', 'kg', 'slug']),
        'values': st.tuples(st.sampled_from([150000.0, 128123.456]), st.sampled_from([160000.0, 171717.17])),
    }
)
_bare = []


def bare():
    """A problem that only knows gross masses."""
    if not _bare:
        p = av.AviaryProblem(verbosity=0)
        ivc = om.IndepVarComp()
        ivc.add_output(Mission.GROSS_MASS, 1.0, units='lbm')
        ivc.add_output(Aircraft.Design.GROSS_MASS, 1.0, units='lbm')
        g = om.Group()
        g.add_subsystem('ivc', ivc, promotes=['*'])
        p.model = g
        with quiet():
            om.Problem.setup(p)
            p.final_setup()
        _bare.append(p)
    return _bare[0]


def same_value(a, b):
    """Equal values, whatever sequence type holds them."""
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if not (isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray))):
            return False
        a, b = np.asarray(a, dtype=object).ravel().tolist(), np.asarray(b, dtype=object).ravel().tolist()
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)) or isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def check_json(case, ctx):
    values = AviaryValues()
    plain = True
    for it in case['items']:
        _, w, units = built(it)
        n = it['name']
        if n in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS):
            continue
        multi = META[n]['multivalue']
        val = w[0]
        if multi and (it['form'] % 3 or len(w) > 1):
            val = [list(w), tuple(w), np.array(w) if kinds(n) in (int, float, bool) else list(w)][it['form'] % 3]
        values.set_val(n, val, units)
        plain = plain and kinds(n) is float and it['u'] is None
    p = bare()
    mission, design = case['values']
    p.set_val(Mission.GROSS_MASS, mission, units='lbm')
    p.set_val(Aircraft.Design.GROSS_MASS, design, units='lbm')
    if case['gross']:
        values.set_val(Mission.GROSS_MASS, 1.0, units=case['gross'])
    if case['design']:
        values.set_val(Aircraft.Design.GROSS_MASS, 1.0, units=case['design'])
    before = {n: (copy.deepcopy(v), u) for n, (v, u) in values}
    what = short({n: (v, u) for n, (v, u) in before.items()}, 700)
    p.model.aviary_inputs = values
    with quiet():
        p.save_results('saved.json')
        back = _read_sizing_json('saved.json', META)
    os.remove('saved.json')
    ctx.require({n: (repr(v), u) for n, (v, u) in values} == {n: (repr(v), u) for n, (v, u) in before.items()}, lambda: f'saving changed the inputs: {what}', key='mutated')
    for n, (v, u) in before.items():
        ctx.require(n in back, lambda: f'{n} = {v!r} is lost: {what}', key=f'lost|{kinds(n).__name__}|{META[n]["multivalue"]}')
        got, gu = back.get_item(n)
        ctx.require(gu == u, lambda: f'{n} saved in {u}, read in {gu}: {what}', key='units')
        if n == Mission.GROSS_MASS:
            v = convert(mission, 'lbm', u)
        elif n == Aircraft.Design.GROSS_MASS:
            v = convert(design, 'lbm', u)
        if n in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS):
            ctx.require(abs(got - v) <= 1e-7 * abs(v), lambda: f'{n} is {v} {u}, saved as {got}: {what}', key=f'value|{n}')
        else:
            if kinds(n) not in (int, float, bool, str) and isinstance(v, (list, tuple)) and len(v) == 1 and not isinstance(got, list):
                v = v[0]  # one member stands for itself
            ctx.require(same_value(v, got), lambda: f'{n} = {v!r} is read back as {got!r}: {what}', key=f'value|{kinds(n).__name__}|{META[n]["multivalue"]}')
    if not case['design']:
        got = back.get_val(Aircraft.Design.GROSS_MASS, 'lbm')
        ctx.require(abs(got - design) <= 1e-7 * design, lambda: f'design gross mass {design} is saved as {got}: {what}', key='value|design_gross_added')
    extra = set(back.keys()) - set(before) - {Aircraft.Design.GROSS_MASS}
    ctx.require(not extra, lambda: f'{extra} were added: {what}', key='extra')
    ctx.nontrivial(len(before) >= 3 and not plain)
    ctx.label(*{kinds(n).__name__ for n in before})


# ---------------------------------------------------------------------------------------------- off-design missions
count = st.sampled_from([0, 1, 5, 20, 75, 118])
mass = st.sampled_from([0.0, 300.0, 2500.0])
off_st = st.fixed_dictionaries(
    {
        'seats': st.tuples(st.sampled_from([0, 11, 16]), st.sampled_from([0, 20]), st.sampled_from([60, 118, 140])),
        'flown': fm.maybe(st.tuples(st.sampled_from([0, 5, 16]), st.sampled_from([0, 20]), st.sampled_from([60, 100])), 3),
        'wing_cargo': mass,
        'misc_cargo': mass,
        'gross': st.sampled_from([150000.0, 171000.0]),
        'mission_gross': fm.maybe(st.sampled_from([150000.0, 165000.0])),
        'gross_units': st.sampled_from(['lbm', 'kg']),
        'wing_area': fm.maybe(st.sampled_from([1250.0, 1450.0]), 3),
        'phases': st.lists(fm.phase_st, min_size=1, max_size=2),
        'target': fm.maybe(st.tuples(st.sampled_from([900.0, 1906.0]), st.sampled_from(['nmi', 'km']))),
        'reload': st.booleans(),
        'own_info': st.booleans(),
        'problem': st.sampled_from(['off_design_min_fuel', 'off_design_max_range']),
        'pax': st.sampled_from(['none', 'total', 'classes', 'some']),
        'n': st.tuples(count, count, count),
        'cargo': fm.maybe(st.sampled_from([0.0, 1500.0, 5000.0]), 3),
        'off_wing_cargo': fm.maybe(mass, 3),
        'off_misc_cargo': fm.maybe(mass, 3),
        'off_gross': fm.maybe(st.sampled_from([120000.0, 140000.0])),
        'range': fm.maybe(st.sampled_from([800.0, 1800.0])),
        'fill_fuel': st.sampled_from([False, False, False, True]),
    }
)


driver = av.AviaryProblem.add_driver


class Done:
    success = True


def evaluate(self, *args, **kwargs):
    try:
        om.Problem.run_model(self)
    except om.AnalysisError:
        self.gave_up = True
    self.result = Done


def plain_inputs(p):
    return {n: (copy.deepcopy(v), u) for n, (v, u) in p.aviary_inputs}


def differing(a, b):
    return sorted(n for n in set(a) | set(b) if n not in a or n not in b or a[n][1] != b[n][1] or not same_value(a[n][0], b[n][0]))


def frozen(info):
    return repr(info)


AIRCRAFT = [
    Aircraft.Design.EMPTY_MASS, Aircraft.Design.STRUCTURE_MASS, Aircraft.Wing.MASS, Aircraft.Fuselage.MASS, Aircraft.LandingGear.MAIN_GEAR_MASS, Aircraft.Fuel.MAX_CAPACITY_MASS,
    Aircraft.Design.GROSS_MASS, Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, Aircraft.Furnishings.MASS,
]


def check_off(case, ctx):
    info = {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False}}
    if case['target'] is not None:
        info['post_mission']['target_range'] = case['target']
    phases = fm.settle(case['phases'])
    names = [f'p{j}' for j in range(len(phases))]
    for n, c in zip(names, phases):
        info[n], _ = fm.phase_info(dict(c, target_distance=None, constraints=[], mass_final=None))

    def change(inputs):
        for v, k in zip((CP.Design.NUM_FIRST_CLASS, CP.Design.NUM_BUSINESS_CLASS, CP.Design.NUM_ECONOMY_CLASS), case['seats']):
            inputs.set_val(v, k)
        inputs.set_val(CP.Design.NUM_PASSENGERS, sum(case['seats']))
        for v in (CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS, CP.NUM_PASSENGERS):
            if v in inputs:
                inputs.delete(v)
        if case['flown'] is not None:
            for v, k in zip((CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS), case['flown']):
                inputs.set_val(v, k)
        inputs.set_val(CP.WING_CARGO, case['wing_cargo'], units='lbm')
        inputs.set_val(CP.MISC_CARGO, case['misc_cargo'], units='lbm')
        u = case['gross_units']
        inputs.set_val(Aircraft.Design.GROSS_MASS, convert(case['gross'], 'lbm', u), units=u)
        if case['mission_gross'] is not None:
            inputs.set_val(Mission.GROSS_MASS, convert(case['mission_gross'], 'lbm', u), units=u)
        if case['wing_area'] is not None:
            inputs.set_val(Aircraft.Wing.AREA, case['wing_area'], units='ft**2')

    f = fm.build(info, change=change)
    p = f.prob
    what = short(dict(case, phases=len(names)), 1200)

    def get(q, var, units='lbm'):
        return float(np.ravel(q.get_val(var, units=units))[0])

    def same(have, want, key, tol=1e-7):
        ctx.require(abs(have - want) <= tol * max(1.0, abs(have), abs(want)), lambda: f'{key}: {have}, expected {want}: {what}', key=key)

    aircraft = {n: get(p, n, META[n]['units']) for n in AIRCRAFT}
    inputs = plain_inputs(p)
    gross, design = get(p, Mission.GROSS_MASS), get(p, Aircraft.Design.GROSS_MASS)
    if case['reload']:
        with quiet():
            p.save_results('sized.json')
            # the default optimizer is not installed
            with mock.patch.object(av.AviaryProblem, 'add_driver', lambda self, *a, **k: driver(self, 'SLSQP')):
                q = reload_aviary_problem('sized.json', phase_info=deepcopy(info), verbosity=0)
        os.remove('sized.json')
        diff = [n for n in differing(inputs, plain_inputs(q)) if n not in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS) and n in META]
        ctx.require(not diff, lambda: f'reloaded inputs differ: {[(n, inputs.get(n), plain_inputs(q).get(n)) for n in diff][:4]}: {what}', key='reload|' + ','.join(diff)[:80])
        same(get(q, Mission.GROSS_MASS), gross, 'reload|mission_gross_mass')
        try:
            om.Problem.run_model(q)
        except om.AnalysisError:
            pass
        for n, v in aircraft.items():
            same(get(q, n, META[n]['units']), v, f'reload|{n}')
        p = q
        inputs = plain_inputs(p)

    kw = {}
    if case['pax'] == 'total':
        kw['num_pax'] = sum(case['n'])
    elif case['pax'] == 'classes':
        kw.update(num_first_class=case['n'][0], num_business=case['n'][1], num_economy=case['n'][2])
    elif case['pax'] == 'some':
        kw['num_economy'] = case['n'][2]
    for k, a in (('cargo', 'cargo_mass'), ('off_wing_cargo', 'wing_cargo'), ('off_misc_cargo', 'misc_cargo'), ('off_gross', 'mission_gross_mass'), ('range', 'mission_range')):
        if case[k] is not None:
            kw[a] = case[k]
    fill = case['fill_fuel'] and case['problem'] == 'off_design_max_range'
    own = deepcopy(info) if case['own_info'] else None
    mine = frozen(own)
    state = frozen(p.model.mission_info), frozen(p.model.pre_mission_info), frozen(p.model.post_mission_info)
    old = av.AviaryProblem.run_aviary_problem
    av.AviaryProblem.run_aviary_problem = evaluate
    try:
        with quiet():
            q = p.run_off_design_mission(case['problem'], phase_info=own, fill_fuel=fill, verbosity=0, name='off', **kw)
    finally:
        av.AviaryProblem.run_aviary_problem = old
    # nothing the caller has is changed
    ctx.require(frozen(own) == mine, lambda: f'the phase_info of the caller was changed: {what}', key='phase_info_changed')
    ctx.require((frozen(p.model.mission_info), frozen(p.model.pre_mission_info), frozen(p.model.post_mission_info)) == state, lambda: f'the phase_info of the design problem was changed: {what}', key='design_info_changed')
    diff = differing(inputs, plain_inputs(p))
    ctx.require(not diff, lambda: f'inputs of the design problem were changed: {diff[:4]}: {what}', key='design_inputs_changed')
    same(get(p, Mission.GROSS_MASS), gross, 'design_problem|gross')

    # the same aircraft
    for n, v in aircraft.items():
        same(get(q, n, META[n]['units']), v, f'aircraft|{n}')
    # the passengers and cargo asked for
    flown = list(case['flown'] or case['seats'])
    if case['pax'] == 'total':
        want = sum(case['n'])
    else:
        if case['pax'] == 'classes':
            flown = list(case['n'])
        elif case['pax'] == 'some':
            flown[2] = case['n'][2]
        want = sum(flown)
        if not (want == 0 and case['pax'] == 'none'):
            have = [q.aviary_inputs.get_val(v) for v in (CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS)]
            ctx.require(have == flown, lambda: f'passengers by class are {have}, asked for {flown}: {what}', key='classes|' + case['pax'])
    have = q.aviary_inputs.get_val(CP.NUM_PASSENGERS)
    ctx.require(have == want, lambda: f'{have} passengers, asked for {want}: {what}', key='passengers|' + case['pax'])
    seats = [q.aviary_inputs.get_val(v) for v in (CP.Design.NUM_FIRST_CLASS, CP.Design.NUM_BUSINESS_CLASS, CP.Design.NUM_ECONOMY_CLASS, CP.Design.NUM_PASSENGERS)]
    ctx.require(seats == [*case['seats'], sum(case['seats'])], lambda: f'design passengers became {seats}: {what}', key='design_passengers')
    wing = case['wing_cargo'] if case['off_wing_cargo'] is None else case['off_wing_cargo']
    misc = case['misc_cargo'] if case['off_misc_cargo'] is None else case['off_misc_cargo']
    cargo = wing + misc if case['cargo'] is None else case['cargo']
    same(get(q, CP.CARGO_MASS), cargo, 'cargo_mass')
    each = q.aviary_inputs.get_val(CP.MASS_PER_PASSENGER, 'lbm') if CP.MASS_PER_PASSENGER in q.aviary_inputs else META[CP.MASS_PER_PASSENGER]['default_value']
    same(get(q, CP.PASSENGER_MASS_TOTAL), each * want, 'passenger_mass|' + case['pax'])
    # what else the optimizer gets
    m = q.driver._designvars
    dv = {d['name']: d for d in m.values()}
    F = fm.Formulation(q)
    if case['problem'] == 'off_design_min_fuel':
        ctx.require(Mission.GROSS_MASS in dv, lambda: f'the gross mass is no design variable: {what}', key='min_fuel|gross_mass')
        if case['off_gross'] is not None:
            same(get(q, Mission.GROSS_MASS), case['off_gross'], 'min_fuel|gross_mass_guess')
        target = case['range']
        if target is None:
            target = get(p, Mission.RANGE, 'nmi')
        if not getattr(q, 'gave_up', False):
            same(get(q, Mission.Constraints.RANGE_RESIDUAL, 'nmi'), target - get(q, Mission.RANGE, 'nmi'), 'min_fuel|range_residual', 1e-6)
        names = [d['name'] for d in q.driver._cons.values()]
        ctx.require(Mission.Constraints.RANGE_RESIDUAL in names, lambda: f'the range is not constrained: {what}', key='min_fuel|range')
        bounds = F.bounds(dv[Mission.GROSS_MASS], 'lbm')
    else:
        want = design if case['off_gross'] is None else case['off_gross']
        same(get(q, Mission.GROSS_MASS), want, 'max_range|gross_mass')
        ctx.require((Mission.GROSS_MASS in dv) == fill, lambda: f'design variables are {sorted(dv)}: {what}', key='max_range|gross_mass_free')
        bounds = F.bounds(dv[Mission.GROSS_MASS], 'lbm') if fill else None
    if bounds is not None:
        ctx.require(abs(bounds[1] - design) <= 1e-6 * design, lambda: f'gross mass is limited to {bounds}, the design gross mass is {design}: {what}', key='gross_mass_limit')
    ctx.require(Aircraft.Design.GROSS_MASS not in dv, lambda: f'the design gross mass is free: {what}', key='design_free')
    ctx.nontrivial(bool(kw))
    ctx.label(case['problem'], 'pax_' + case['pax'], 'reloaded' if case['reload'] else 'direct', 'own_info' if own else 'same_info')


# ---------------------------------------------------------------------------------------------- payload and range
range_st = st.fixed_dictionaries(
    {
        'seats': st.tuples(st.sampled_from([0, 11, 16]), st.sampled_from([0, 20]), st.sampled_from([60, 118, 140])),
        'wing_cargo': st.sampled_from([0.0, 2500.0, 4077.0]),
        'misc_cargo': st.sampled_from([300.0, 2077.0, 4500.0]),
        'gross': st.sampled_from([108000.0, 114000.0, 120000.0, 127000.0]),
        'gross_units': st.sampled_from(['lbm', 'kg']),
        'capacity': st.tuples(st.sampled_from([32000.0, 35000.0, 38000.0, 42000.0, 47000.0, 60000.0]), st.sampled_from(['lbm', 'kg'])),
        'phases': st.lists(fm.phase_st, min_size=1, max_size=2),
        'cruise': st.sampled_from([None, 0, 0, -1]),
        'duration': fm.maybe(st.tuples(st.sampled_from([(60.0, 200.0), (30.0, 500.0)]), st.sampled_from(['min'])), 3),
        'quiet': st.booleans(),
        'converged': st.sampled_from([True] * 7 + [False]),
    }
)


class Failed:
    success = False


def check_range(case, ctx):
    info = {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False}}
    phases = fm.settle(case['phases'])
    names = [f'p{j}' for j in range(len(phases))]
    cruise = None
    if case['cruise'] is not None:
        cruise = case['cruise'] % len(names)
        names[cruise] = 'cruise'
    for n, c in zip(names, phases):
        info[n], _ = fm.phase_info(dict(c, target_distance=None, constraints=[], mass_final=None))
    options = info[names[cruise]]['user_options'] if cruise is not None else {}
    if case['duration'] is not None and options and 'time_duration_bounds' not in options and not options.get('time_duration'):
        options['time_duration_bounds'] = case['duration']
    bounds = options.get('time_duration_bounds')

    def change(inputs):
        for v, k in zip((CP.Design.NUM_FIRST_CLASS, CP.Design.NUM_BUSINESS_CLASS, CP.Design.NUM_ECONOMY_CLASS), case['seats']):
            inputs.set_val(v, k)
        inputs.set_val(CP.Design.NUM_PASSENGERS, sum(case['seats']))
        for v in (CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS, CP.NUM_PASSENGERS, Mission.GROSS_MASS):
            if v in inputs:
                inputs.delete(v)
        inputs.set_val(CP.WING_CARGO, case['wing_cargo'], units='lbm')
        inputs.set_val(CP.MISC_CARGO, case['misc_cargo'], units='lbm')
        u = case['gross_units']
        inputs.set_val(Aircraft.Design.GROSS_MASS, convert(case['gross'], 'lbm', u), units=u)
        capacity, u = case['capacity']
        inputs.set_val(Aircraft.Fuel.WING_FUEL_MASS_CAPACITY, convert(capacity, 'lbm', u), units=u)
        for v in (Aircraft.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY):
            inputs.set_val(v, 0.0, units='lbm')
        inputs.set_val(Aircraft.Fuel.MAX_CAPACITY_MASS, convert(capacity, 'lbm', u), units=u)

    p = fm.build(info, change=change).prob
    what = short(dict(case, phases=[(n, info[n]['user_options'].get('time_duration_bounds')) for n in names]), 1500)

    def get(q, var, units='lbm'):
        return float(np.ravel(q.get_val(var, units=units))[0])

    def same(have, want, key, tol=1e-6):
        ctx.require(abs(have - want) <= tol * max(1.0, abs(have), abs(want)), lambda: f'{key}: {have}, expected {want}: {what}', key=key)

    gross, empty, payload = get(p, Mission.GROSS_MASS), get(p, Mission.OPERATING_MASS), get(p, CP.TOTAL_PAYLOAD_MASS)
    same(get(p, Aircraft.Fuel.MAX_CAPACITY_MASS), case['capacity'][0], 'capacity')
    usable = get(p, Aircraft.Fuel.MAX_CAPACITY_MASS) - get(p, Aircraft.Fuel.UNUSABLE_FUEL_MASS)
    room = gross - empty - usable
    if usable < 0 or gross < empty + 1000 or room > payload:
        ctx.label('unusable_payload_or_tanks')
        return
    p.result = Done if case['converged'] else Failed
    state = frozen(p.model.mission_info), frozen(p.model.pre_mission_info), frozen(p.model.post_mission_info)
    inputs = plain_inputs(p)
    own = deepcopy(info)
    runs = []
    off = av.AviaryProblem.run_off_design_mission

    def flown(self, *args, **kwargs):
        q = off(self, *args, **kwargs)
        runs.append(q)
        return q

    with mock.patch.object(av.AviaryProblem, 'run_aviary_problem', evaluate), mock.patch.object(av.AviaryProblem, 'run_off_design_mission', flown), quiet():
        out = p.run_payload_range(verbosity=0 if case['quiet'] else 1)
    ctx.require(len(out) == (2 if case['converged'] else 0), lambda: f'{len(out)} missions are returned: {what}', key='returned')
    ctx.require((frozen(p.model.mission_info), frozen(p.model.pre_mission_info), frozen(p.model.post_mission_info)) == state, lambda: f'the phase_info of the design problem was changed: {what}', key='range|design_info_changed')
    diff = differing(inputs, plain_inputs(p))
    ctx.require(not diff, lambda: f'inputs of the design problem were changed: {diff[:4]}: {what}', key='range|design_inputs_changed')
    if not case['converged']:
        ctx.require(not runs, lambda: f'{len(runs)} missions were flown by an aircraft that is not sized: {what}', key='unconverged')
        ctx.label('unconverged')
        return
    fits = room > 0
    ctx.require(len(runs) == 1 + fits, lambda: f'{len(runs)} missions, tanks filled leave {room} lbm: {what}', key='runs')
    ferry = runs[-1]
    same(get(ferry, CP.TOTAL_PAYLOAD_MASS), 0.0, 'ferry|payload')
    ctx.require(ferry.aviary_inputs.get_val(CP.NUM_PASSENGERS) == 0, lambda: f'passengers on the ferry flight: {what}', key='ferry|passengers')
    same(get(ferry, Mission.GROSS_MASS), min(empty + usable, gross), 'ferry|gross_mass')
    for q in runs:
        for n in AIRCRAFT:
            same(get(q, n, META[n]['units']), get(p, n, META[n]['units']), f'range|aircraft|{n}')
        if bounds is not None:
            have = q.model.mission_info['cruise']['user_options']['time_duration_bounds']
            want = ((bounds[0][0], 2 * bounds[0][1]), bounds[1])
            near = all(abs(convert(h, have[1], 's') - convert(w, want[1], 's')) < 1e-6 for h, w in zip(have[0], want[0]))
            ctx.require(near, lambda: f'cruise lasts {have}, expected {want}: {what}', key='cruise_bounds')
    if fits:
        full = runs[0]
        fraction = room / payload
        have = [full.aviary_inputs.get_val(v) for v in (CP.NUM_FIRST_CLASS, CP.NUM_BUSINESS_CLASS, CP.NUM_ECONOMY_CLASS)]
        want = [int(k * fraction) for k in case['seats']]
        near = any(abs(k * fraction - round(k * fraction)) < 1e-6 for k in case['seats'] if k)
        ctx.require(near or have == want, lambda: f'{have} passengers, the payload is {fraction} of the largest, expected {want}: {what}', key='full|passengers')
        same(get(full, Mission.GROSS_MASS), gross, 'full|gross_mass')
        same(get(full, CP.CARGO_MASS), fraction * (case['wing_cargo'] + case['misc_cargo']), 'full|cargo')
        ctx.require(get(full, CP.TOTAL_PAYLOAD_MASS) <= room * (1 + 1e-6), lambda: f'payload {get(full, CP.TOTAL_PAYLOAD_MASS)} where {room} is left: {what}', key='full|payload')
    points = [(get(q, CP.TOTAL_PAYLOAD_MASS), get(q, Mission.RANGE, 'nmi'), get(q, Mission.FUEL_MASS)) for q in (p, runs[0], ferry)]
    points.insert(0, (payload, 0.0, 0.0))
    d = p.payload_range_data
    for i, (n, u) in enumerate((('Payload', 'lbm'), ('Range', 'nmi'), ('Fuel', 'lbm'))):
        have = d.get_val(n, u)
        ctx.require(len(have) == 4, lambda: f'{n} is {have}: {what}', key='points')
        for k in range(4):
            same(float(have[k]), points[k][i], f'{n}|{k}')
    path = os.path.join(str(p.get_reports_dir(force=True)), 'payload_range_data.csv')
    with open(path) as f:
        rows = [[c.strip() for c in line.split(',')] for line in f if line.strip() and not line.startswith('#')]
    for n, u in (('Payload', 'lbm'), ('Range', 'NM'), ('Fuel', 'lbm')):
        ctx.require(f'{n} ({u})' in rows[0] and len(rows) == 5, lambda: f'the file says {rows}: {what}', key='file')
        j = rows[0].index(f'{n} ({u})')
        for k in range(4):
            same(float(rows[1 + k][j]), float(d.get_val(n, u)[k]), f'written|{n}', 1e-4)
    ctx.nontrivial()
    ctx.label('full_tanks_fit' if fits else 'tanks_too_large', 'cruise_bounds' if bounds else 'no_cruise_bounds')


PARTS = [
    Part('json', json_st, check_json, quick=3000, thorough=100000, shards=8),
    Part('off_design', off_st, check_off, quick=80, thorough=2000, shards=8, case_limit=60, shrink_budget=30),
    Part('payload_range', range_st, check_range, quick=48, thorough=1200, shards=8, case_limit=90, shrink_budget=30),
]
