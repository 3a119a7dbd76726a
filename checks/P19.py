import copy

import numpy as np
from hypothesis import strategies as st

from lib import formulation as fm
from lib.pbt import Part, short

PROPERTY = 'P19'
RULE = (
    'Missions of two to four generated phases (some of them reserve phases) with unrelated guesses are built and run once; every mismatch between neighbouring phases '
    'must be zero or be the value of an equality constraint. Non-trivial: at least one mismatch is covered by a constraint and one is removed by a connection.'
)
ASSUMPTIONS = ['Energy-state missions of the advanced single aisle vehicle; points where the flight equations do not converge decide nothing.']

case_st = st.fixed_dictionaries(
    {
        'phases': st.lists(fm.phase_st, min_size=2, max_size=4),
        'reserve': st.sampled_from([0, 0, 0, 1, 2]),
        'takeoff': st.booleans(),
        'fuel': st.tuples(st.sampled_from([0.0, 300.0, 1000.0]), st.sampled_from([0.0, 500.0])),
    }
)
Q = {'time': 'min', 'mass': 'lbm', 'distance': 'nmi', 'mach': None, 'altitude': 'ft'}


def check(case, ctx):
    from aviary.variable_info.variables import Mission

    info = {'pre_mission': {'include_takeoff': case['takeoff']}, 'post_mission': {'include_landing': False}}
    phases = fm.settle(case['phases'])
    nres = min(case['reserve'], len(phases) - 1)
    names, said = [], {}
    for j, c in enumerate(phases):
        name = f'p{j}'
        names.append(name)
        c = dict(c, target_distance=None, constraints=[])
        info[name], said[name] = fm.phase_info(c)
        if j >= len(phases) - nres:
            info[name]['user_options']['reserve'] = True
    given = copy.deepcopy(info)

    def change(inputs):
        inputs.set_val(Mission.Taxi.FUEL_MASS_TAXI_OUT, case['fuel'][0], units='lbm')
        if not case['takeoff']:
            inputs.set_val(Mission.Takeoff.FUEL_MASS, case['fuel'][1], units='lbm')

    f = fm.build(info, change=change)
    if not f.ran:
        ctx.label('not_run')
        return
    p = f.prob
    ends = {n: {q: np.ravel(p.get_val(f'traj.{n}.timeseries.{q}', units=u)) for q, u in Q.items()} for n in names}
    eqs = {}
    for n, d in f.cons.items():
        lo, hi, eq = f.bounds(d, None)
        if eq == 0 and d['size'] == 1 and ('link' in n or 'takeoff' in n):
            v = f.value(d)[0]
            eqs[n] = (v, d['units'] or f.own_units(d['source']))
    used = set()

    def covered(q, diff, what):
        """Is this mismatch the value of some equality constraint?"""
        for n, (v, units) in eqs.items():
            if q not in n:
                continue
            want = diff if Q[q] is None or units in (None, 'unitless', Q[q]) else fm.units_ref.convert(diff, Q[q], units)
            if abs(abs(v) - abs(want)) <= 1e-6 * max(1e-3, abs(want)):
                used.add(n)
                return True
        return False

    connected = constrained = 0
    for a, b in zip(names, names[1:]):
        oa, ob = given[a]['user_options'], given[b]['user_options']
        if ob.get('reserve') and not oa.get('reserve'):
            continue
        for q in Q:
            end, start = ends[a][q][-1], ends[b][q][0]
            scale = {'time': 1.0, 'mass': 1e3, 'distance': 1.0, 'mach': 0.1, 'altitude': 100.0}[q]
            if q in ('mach', 'altitude'):
                if not oa[f'{q}_optimize'] and not ob[f'{q}_optimize']:
                    continue  # neither is free, the user set both
                if f'{q}_final' in oa and f'{q}_initial' in ob:
                    continue  # fixed on both sides
            if abs(end - start) <= 1e-6 * scale:
                connected += 1
                continue
            what = f'{a} ends with {q} {end}, {b} starts with {start} {Q[q]}: {short(oa, 400)} | {short(ob, 400)}'
            ctx.require(covered(q, end - start, what), lambda: f'no constraint joins the phases: {what}; constraints {eqs}', key=f'{q}:open')
            constrained += 1
    # the start of the mission
    mass0, dist0 = ends[names[0]]['mass'][0], ends[names[0]]['distance'][0]
    takeoff = float(p.get_val(Mission.Takeoff.FINAL_MASS, units='lbm')[0])
    if case['takeoff']:
        ctx.require(abs(mass0 - takeoff) < 1e-6 * takeoff, lambda: f'the first phase starts with {mass0} lbm, takeoff ends with {takeoff}', key='start:mass')
        ground = float(p.get_val(Mission.Takeoff.GROUND_DISTANCE, units='nmi')[0])
        ctx.require(abs(dist0 - ground) < 1e-6 * max(1, ground), lambda: f'the first phase starts at {dist0} nmi, takeoff ends at {ground}', key='start:distance')
        for q, var in (('mach', Mission.Takeoff.FINAL_MACH), ('altitude', Mission.Takeoff.FINAL_ALTITUDE)):
            if given[names[0]]['user_options'][f'{q}_optimize']:
                have = float(p.get_val(var, units=Q[q])[0])
                diff = ends[names[0]][q][0] - have
                ctx.require(abs(diff) < 1e-9 or covered(q, diff, ''), lambda: f'first phase starts with {q} {ends[names[0]][q][0]}, takeoff ends with {have}; constraints {eqs}', key=f'start:{q}')
    else:
        gross = float(p.get_val(Mission.GROSS_MASS, units='lbm')[0])
        want = gross - sum(case['fuel'])
        ctx.require(abs(takeoff - want) < 1e-6 * want, lambda: f'mass after takeoff is {takeoff}, gross mass {gross}, fuel {case["fuel"]}', key='start:takeoff_mass')
        ctx.require(abs(mass0 - want) < 1e-6 * want or covered('mass', mass0 - want, ''), lambda: f'first phase starts with {mass0}, takeoff ends with {want}; constraints {eqs}', key='start:mass')
    # the end of the mission
    last = names[len(names) - nres - 1]
    for var, q in ((Mission.FINAL_MASS, 'mass'), (Mission.FINAL_TIME, 'time'), (Mission.RANGE, 'distance')):
        have = float(p.get_val(var, units=Q[q])[0])
        ctx.require(abs(have - ends[last][q][-1]) <= 1e-6 * max(1, abs(have)), lambda: f'{var} is {have}, the main mission ends with {ends[last][q][-1]} {Q[q]}', key=f'final:{q}')
    for n in eqs:
        ctx.require(n in used or abs(eqs[n][0]) <= 1e-6 or nres == 0 or f'{names[-nres]}:' not in n.split('|')[-1], lambda: f'{n} joins the reserve mission to the main mission', key='reserve:joined')
    ctx.nontrivial(connected > 0 and constrained > 0)
    ctx.label(f'{len(names)}_phases', f'{nres}_reserve', 'takeoff' if case['takeoff'] else 'no_takeoff', 'constrained' if constrained else 'all_connected')


PARTS = [Part('energy', case_st, check, quick=160, thorough=6000, shards=8)]
