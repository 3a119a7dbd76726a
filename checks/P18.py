import copy

import numpy as np
from hypothesis import strategies as st

from lib import formulation as fm
from lib.pbt import Part, short

PROPERTY = 'P18'
RULE = (
    'Missions of one to three generated phases are built into whole problems; every phase option must appear in the design variables, constraints, fixed values and '
    'initial values of the optimization problem, in its units, and nothing else may restrict the phase. Non-trivial: two or more phases, or a user constraint.'
)
ASSUMPTIONS = ['Energy-state missions of the advanced single aisle vehicle. The throttle is solved for, bounded, constrained or a control.']

case_st = st.fixed_dictionaries({'phases': st.lists(fm.phase_st, min_size=1, max_size=3), 'reserve': st.sampled_from([False, False, False, True]), 'target': st.booleans()})


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    return np.ndim(a) == 0 and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check(case, ctx):
    info = {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False}}
    if case['target']:
        info['post_mission']['target_range'] = (1200.0, 'nmi')
    said, names = {}, []
    phases = fm.settle(case['phases'], case['reserve'])
    for j, c in enumerate(phases):
        name = f'p{j}'
        names.append(name)
        info[name], said[name] = fm.phase_info(c, first=j == 0)
    if case['reserve'] and len(names) > 1:
        info[names[-1]]['user_options']['reserve'] = True
    given = copy.deepcopy(info)
    f = fm.build(info)
    for j, (name, c) in enumerate(zip(names, phases)):
        linked = j > 0 and not given[name]['user_options'].get('reserve', False)
        judge(f, name, c, given[name], said[name], ctx, first=j == 0, linked=linked)
    ctx.nontrivial(len(names) > 1 or any(given[n]['user_options'].get('constraints') for n in names))
    ctx.label(f'{len(names)}_phases', 'run' if f.ran else 'not_run', *[str(c['throttle_enforcement']) for c in phases])


def judge(f, name, c, given, said, ctx, first, linked):
    p = f.prob
    opts = given['user_options']
    user = opts.get('constraints', {})
    what = f'{name} {short(opts, 700)}'
    pre = f'traj.{name}.'
    dvs = {n[len(pre):]: d for n, d in f.dvs.items() if n.startswith(pre)}
    cons = {n[len(pre):]: d for n, d in f.cons.items() if n.startswith(pre)}
    seen_d, seen_c = set(), set()

    def dv(n, bounds, kind, key):
        ctx.require(n in dvs, lambda: f'{n} is not a design variable: {what}', key=key + ':missing')
        seen_d.add(n)
        lo, hi, _ = f.bounds(dvs[n], fm.BASE.get(kind, 'unitless'))
        want = bounds or (None, None)
        ctx.require(close(lo, want[0]) and close(hi, want[1]), lambda: f'{n} is bounded by {lo}, {hi}, asked for {want} {fm.BASE.get(kind)}: {what}', key=key)

    def con(n, lower, upper, equals, units, nodes, key):
        ctx.require(n in cons, lambda: f'no constraint {n}, have {sorted(cons)}: {what}', key=key + ':missing')
        seen_c.add(n)
        got = f.bounds(cons[n], units)
        ctx.require(all(close(a, b) for a, b in zip(got, (lower, upper, equals))), lambda: f'{n} is {got}, asked for {(lower, upper, equals)} {units}: {what}', key=key)
        src = cons[n]['source'].split('.')[-1]
        idx = np.ravel(cons[n]['indices'].as_array() if hasattr(cons[n]['indices'], 'as_array') else np.asarray(cons[n]['indices']))
        total = np.ravel(p.get_val(f'traj.{name}.timeseries.time')).size
        want = {'initial': [0], 'final': [total - 1], 'path': list(range(total))}[nodes]
        ctx.require(list(idx) == want, lambda: f'{n} ({src}) applies at nodes {list(idx)}, asked for {nodes} of {total}: {what}', key=key + ':where')

    # grid
    time = np.ravel(p.get_val(f'traj.{name}.timeseries.time', units='s'))
    ran = f.ran and np.ptp(time) > 0
    ctx.require(time.size == c['num_segments'] * (c['order'] + 1), lambda: f'{time.size} points: {what}', key='nodes')
    # time
    guess = given['initial_guesses']
    t0, dt = float(p.get_val(f'traj.{name}.t_initial', units='min')[0]), float(p.get_val(f'traj.{name}.t_duration', units='min')[0])
    if 'time_duration' in said:
        ctx.require('t_duration' not in dvs and close(dt, said['time_duration']), lambda: f'duration is {dt} min: {what}', key='duration_fixed')
    else:
        dv('t_duration', said['time_duration_bounds'], 'time', 'duration_bounds')
        if 'time' in guess:
            ctx.require(close(dt, c['time'][1]), lambda: f'duration starts at {dt} min, guess {c["time"]}: {what}', key='duration_guess')
        elif None not in said['time_duration_bounds']:
            ctx.require(close(dt, np.mean(said['time_duration_bounds'])), lambda: f'duration starts at {dt} min, without a guess it is in the middle of its bounds {said["time_duration_bounds"]}: {what}', key='default_time:lower_bound' if close(dt, said['time_duration_bounds'][0]) else 'duration_default')
    direct = opts.get('time_initial_direct_link', True)
    if 'time_initial' in said:
        ctx.require('t_initial' not in dvs and close(t0, said['time_initial']), lambda: f'initial time is {t0} min: {what}', key='time_fixed')
    elif linked and direct:
        ctx.require('t_initial' not in dvs, lambda: f'initial time is linked and free: {what}', key='time_linked')
    else:
        dv('t_initial', said.get('time_initial_bounds'), 'time', 'time_bounds')
        if 'time' in guess:
            ctx.require(close(t0, c['time'][0]), lambda: f'initial time starts at {t0} min, guess {c["time"]}: {what}', key='time_guess')
        elif 'time_duration' not in said and None not in said.get('time_initial_bounds', (None,)):
            ctx.require(close(t0, np.mean(said['time_initial_bounds'])), lambda: f'initial time starts at {t0} min, without a guess it is in the middle of its bounds {said["time_initial_bounds"]}: {what}', key='default_time:lower_bound' if close(t0, said['time_initial_bounds'][0]) else 'time_default')
    # states
    for q in ('mass', 'distance'):
        dv(f'states:{q}', said.get(f'{q}_bounds', (0.0, None)), q, f'{q}_bounds')
        if f'{q}_final' in said:
            con(f'{q}[final]', None, None, said[f'{q}_final'], fm.BASE[q], 'final', f'{q}_final')
        if q in guess:
            v = np.ravel(p.get_val(f'traj.{name}.states:{q}', units=fm.BASE[q]))
            ctx.require(close(v[-1], c[q][1]), lambda: f'{q} starts from {v}, guess {c[q]}: {what}', key=f'{q}_guess')
            rest = v[1:] if not first else v
            ctx.require(np.all(np.diff(rest) * np.sign(c[q][1] - c[q][0]) >= -1e-9), lambda: f'{q} starts from {v}, guess {c[q]}: {what}', key=f'{q}_guess')
    # controls
    tau = (time - time[0]) / (time[-1] - time[0]) if ran else None
    for q in ('mach', 'altitude'):
        n = f'controls:{q}'
        if c[f'{q}_optimize']:
            dv(n, said.get(f'{q}_bounds'), q, f'{q}_bounds')
            for end in ('initial', 'final'):
                if f'{q}_{end}' in said and q not in user:
                    con(f'{q}[{end}]', None, None, said[f'{q}_{end}'], fm.BASE[q], end, f'{q}_{end}')
        else:
            ctx.require(n not in dvs, lambda: f'{q} is a design variable: {what}', key=f'{q}_static')
        if not ran:
            continue
        v = np.ravel(p.get_val(f'traj.{name}.timeseries.{q}', units=fm.BASE[q] if q != 'mach' else None))
        start, end = said.get(f'guess:{q}', c[q])
        want = start + tau * (end - start)
        ctx.require(np.allclose(v, want, rtol=1e-5), lambda: f'{q} starts as {v}, asked for {want}: {what}', key=f'{q}_guess')
    # throttle
    te = c['throttle_enforcement']
    residual = [n for n in cons if 'thrust_residual' in n]
    ctx.require(len(residual) == (te == 'control'), lambda: f'thrust is balanced by constraints {residual}: {what}', key='thrust_balance')
    for n in residual:
        seen_c.add(n)
        ctx.require(cons[n]['equals'] == 0 and cons[n]['size'] == time.size, lambda: f'{n} is {f.bounds(cons[n], None)} at {cons[n]["size"]} of {time.size} points: {what}', key='thrust_balance')
    if te == 'control':
        dv('controls:throttle', c['throttle_bounds'] or (0.0, 1.0), 'throttle', 'throttle_bounds')
    if 'throttle' not in user:
        if te == 'path_constraint':
            con('throttle[path]', 0.0, 1.0, None, 'unitless', 'path', 'throttle_path')
        elif te == 'boundary_constraint':
            con('throttle[initial]', 0.0, 1.0, None, 'unitless', 'initial', 'throttle_ends')
            con('throttle[final]', 0.0, 1.0, None, 'unitless', 'final', 'throttle_ends')
    # climb and descent
    if 'altitude_rate' not in user and (c['no_climb'] or c['no_descent']):
        con('altitude_rate[path]', 0.0 if c['no_descent'] else None, 0.0 if c['no_climb'] else None, None, 'ft/min', 'path', 'no_climb_or_descent')
    if 'required_available_climb_rate' in said:
        con('altitude_rate_max[path]', said['required_available_climb_rate'], None, None, 'ft/min', 'path', 'climb_rate')
    # distance flown in the phase
    tc = f'{name}_distance_constraint.distance_resid'
    ctx.require((tc in f.cons) == ('target_distance' in said), lambda: f'distance constraint: {what}', key='target_distance')
    if tc in f.cons and ran:
        d = np.ravel(p.get_val(f'traj.{name}.timeseries.distance', units='nmi'))
        got = f.value(f.cons[tc])[0]
        want = said['target_distance'] - (d[-1] - d[0])
        ctx.require(f.cons[tc]['equals'] == 0 and close(got, want), lambda: f'distance residual {got}, expected {want} nmi: {what}', key='target_distance')
    # the user's constraints
    for n, args in user.items():
        loc = args.get('loc', 'path')
        con(f'{n}[{loc}]', args.get('lower'), args.get('upper'), args.get('equals'), args['units'], loc, 'user')
        if 'target' in args and f.ran:
            got = f.value(cons[f'{n}[{loc}]'])
            want = np.ravel(p.get_val(f'traj.{name}.timeseries.{args["target"]}', units=args['units']))[:1]
            ctx.require(np.allclose(got, want, rtol=1e-6), lambda: f'{n} constrains {got}, {args["target"]} is {want}: {what}', key='user:target')
    extra = [n for n in cons if n not in seen_c and 'defect' not in n and 'continuity' not in n]
    ctx.require(not extra, lambda: f'constraints nobody asked for: {extra}: {what}', key='extra_constraint')
    extra = [n for n in dvs if n not in seen_d]
    ctx.require(not extra, lambda: f'design variables nobody asked for: {extra}: {what}', key='extra_design_var')


PARTS = [Part('energy', case_st, check, quick=200, thorough=6000, shards=8)]
