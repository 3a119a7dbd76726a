"""Generated missions, built into whole problems through the public API, and the optimization problems they state."""

import numpy as np
from hypothesis import strategies as st
from openmdao.utils.units import convert_units

import aviary.api as av
from lib import units_ref
from lib.mission import om, quiet

DECK = 'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv'
BIG = 1e20

LENGTH = ['ft', 'm', 'km']
DIST = ['nmi', 'km', 'm', 'ft']
MASS = ['lbm', 'kg']
TIME = ['min', 's', 'h']
RATE = ['ft/min', 'm/s', 'ft/s']


def maybe(s, weight=2):
    """None, or (1 in weight) a value of s."""
    return st.sampled_from(range(weight)).flatmap(lambda k: s if k == 0 else st.none())


def quant(values, units):
    return st.tuples(st.sampled_from(values), st.sampled_from(units))


phase_st = st.fixed_dictionaries(
    {
        'num_segments': st.sampled_from([1, 2, 3]),
        'order': st.sampled_from([2, 3, 4]),
        'mach': st.tuples(st.sampled_from([0.4, 0.5, 0.6, 0.7]), st.sampled_from([0.45, 0.55, 0.65, 0.75])),
        'altitude': st.tuples(st.sampled_from([2000.0, 15000.0, 30000.0]), st.sampled_from([3000.0, 20000.0, 35000.0])),
        'mass': st.tuples(st.sampled_from([150000.0, 140000.0, 160000.0]), st.sampled_from([130000.0, 135000.0, 125000.0])),
        'distance': st.tuples(st.sampled_from([0.0, 50.0, 300.0]), st.sampled_from([500.0, 1000.0, 2000.0])),
        'time': st.tuples(st.sampled_from([0.0, 10.0, 45.0]), st.sampled_from([20.0, 60.0, 150.0])),
        'mach_optimize': st.booleans(),
        'altitude_optimize': st.booleans(),
        'mach_poly': st.sampled_from([None, None, 1, 2]),
        'altitude_poly': st.sampled_from([None, None, 1, 2]),
        'pin': st.fixed_dictionaries({k: st.booleans() for k in ('mach_initial', 'mach_final', 'altitude_initial', 'altitude_final')}),
        'mach_bounds': maybe(st.sampled_from([(0.3, 0.8), (None, 0.85), (0.25, None), 'ends', 'start'])),
        'altitude_bounds': maybe(st.sampled_from([(0.0, 41000.0), (None, 40000.0), (1000.0, None), 'ends', 'start'])),
        'mass_final': maybe(st.just(True), 4),
        'distance_final': maybe(st.just(True), 4),
        'mass_bounds': maybe(st.sampled_from([(100000.0, 180000.0), (90000.0, None), (None, 200000.0)]), 3),
        'distance_bounds': maybe(st.sampled_from([(0.0, 4000.0), (None, 5000.0)]), 3),
        'time_initial': st.sampled_from([False, False, True]),
        'time_duration': st.sampled_from([False, False, True]),
        'time_initial_bounds': maybe(st.sampled_from([(0.0, 500.0), (5.0, 400.0)])),
        'time_duration_bounds': st.sampled_from([(10.0, 300.0), (5.0, 600.0)]),
        'throttle_enforcement': st.sampled_from(['path_constraint', 'boundary_constraint', 'bounded', 'control', None]),
        'throttle_bounds': maybe(st.sampled_from([(0.1, 0.9), (0.0, 1.1)])),
        'no_climb': st.sampled_from([False, False, True]),
        'no_descent': st.sampled_from([False, False, True]),
        'climb_rate': maybe(st.sampled_from([100.0, 300.0]), 4),
        'target_distance': maybe(st.sampled_from([200.0, 700.0]), 4),
        'links': st.fixed_dictionaries({k: st.sampled_from([None, None, True, False]) for k in ('mass', 'distance', 'mach', 'altitude', 'time_initial')}),
        'units': st.fixed_dictionaries(
            {
                'altitude': st.sampled_from(LENGTH), 'mass': st.sampled_from(MASS), 'distance': st.sampled_from(DIST), 'time': st.sampled_from(TIME),
                'climb_rate': st.sampled_from(RATE), 'target_distance': st.sampled_from(DIST), 'guess': st.sampled_from([0, 1]),
            }
        ),
        'guesses': st.fixed_dictionaries({k: st.sampled_from([True, True, False]) for k in ('mach', 'altitude', 'mass', 'distance', 'time')}),
        'constraints': st.lists(st.sampled_from(range(8)), max_size=2, unique=True),
    }
)

BASE = {'altitude': 'ft', 'mass': 'lbm', 'distance': 'nmi', 'time': 'min', 'mach': 'unitless', 'climb_rate': 'ft/min', 'target_distance': 'nmi'}
OWN = {'altitude': 'ft', 'mass': 'kg', 'distance': 'm', 'time': 's', 'mach': 'unitless', 'throttle': 'unitless'}

# what a user may constrain: (name in the phase, arguments, quantity)
CONSTRAINTS = [
    ('drag', {'type': 'path', 'upper': 200.0, 'units': 'kN'}),
    ('altitude_rate', {'type': 'path', 'upper': 4000.0, 'lower': -5000.0, 'units': 'ft/min'}),
    ('throttle', {'type': 'path', 'upper': 0.95, 'units': 'unitless'}),
    ('mass', {'type': 'boundary', 'loc': 'final', 'lower': 90000.0, 'units': 'lbm'}),
    ('distance', {'type': 'boundary', 'loc': 'final', 'equals': 1500.0, 'units': 'km'}),
    ('altitude', {'type': 'boundary', 'loc': 'final', 'upper': 11.0, 'units': 'km'}),
    ('mach', {'type': 'path', 'upper': 0.82, 'units': 'unitless'}),
    ('thrust_limit', {'type': 'boundary', 'loc': 'initial', 'target': 'thrust_net_total', 'upper': 60000.0, 'units': 'lbf'}),
]


def conv(x, old, new):
    if x is None:
        return None
    if isinstance(x, (tuple, list)):
        return tuple(conv(v, old, new) for v in x)
    return units_ref.convert(float(x), old, new)


def phase_info(c, first=False):
    """The phase_info entry of one generated phase, and what it states in base units."""
    u = dict(c['units'], mach='unitless')
    said = {}
    opts = {'num_segments': c['num_segments'], 'order': c['order'], 'throttle_enforcement': c['throttle_enforcement']}

    def put(name, value, kind):
        opts[name] = (conv(value, BASE[kind], u[kind]), u[kind])
        said[name] = value

    for q in ('mach', 'altitude'):
        opts[f'{q}_optimize'] = c[f'{q}_optimize']
        if c[f'{q}_poly'] is not None:
            opts[f'{q}_polynomial_order'] = c[f'{q}_poly']
        for k, end in ((0, 'initial'), (1, 'final')):
            if c['pin'][f'{q}_{end}']:
                put(f'{q}_{end}', c[q][k], q)
        b = c[f'{q}_bounds']
        if b == 'ends':
            b = tuple(sorted(c[q]))
        elif b == 'start':
            b = (c[q][0], c[q][0] * 1.25)
        if b is not None:
            put(f'{q}_bounds', b, q)
    for q in ('mass', 'distance'):
        if c[f'{q}_final']:
            put(f'{q}_final', c[q][1], q)
        if c[f'{q}_bounds'] is not None:
            put(f'{q}_bounds', c[f'{q}_bounds'], q)
    if c['time_initial']:
        put('time_initial', c['time'][0], 'time')
    elif c['time_initial_bounds'] is not None:
        put('time_initial_bounds', c['time_initial_bounds'], 'time')
    if c['time_duration']:
        put('time_duration', c['time'][1], 'time')
    else:
        put('time_duration_bounds', c['time_duration_bounds'], 'time')
    if c['throttle_enforcement'] == 'control' and c['throttle_bounds'] is not None:
        opts['throttle_bounds'] = (c['throttle_bounds'], 'unitless')
    for k in ('no_climb', 'no_descent'):
        if c[k]:
            opts[k] = True
    if c['climb_rate'] is not None:
        put('required_available_climb_rate', c['climb_rate'], 'climb_rate')
    if c['target_distance'] is not None:
        put('target_distance', c['target_distance'], 'target_distance')
    for k, v in c['links'].items():
        if v is not None:
            opts[f'{k}_direct_link'] = v
    cons = {}
    for i in c['constraints']:
        name, args = CONSTRAINTS[i]
        if f'{name}_final' in said and args['type'] == 'boundary':
            continue
        cons[name] = dict(args)
    if cons:
        opts['constraints'] = cons
    guesses = {}
    for q in ('mach', 'altitude', 'mass', 'distance', 'time'):
        if q == 'time' and not c['guesses'][q]:
            continue
        start, end = said.get(f'{q}_initial'), said.get(f'{q}_final')
        if start is None:
            # without a guess, a control starts from its lower bound
            start = (said.get(f'{q}_bounds') or (None,))[0]
        needed = q in ('mach', 'altitude') and start is None
        if not (c['guesses'][q] or needed) and q in ('mach', 'altitude'):
            said[f'guess:{q}'] = (start, start if end is None else end)
        if c['guesses'][q] or needed:
            gu = OWN[q] if c['units']['guess'] else BASE[q]
            guesses[q] = (list(conv(tuple(c[q]), BASE[q], gu)), gu)
    return {'user_options': opts, 'initial_guesses': guesses, 'subsystem_options': {'aerodynamics': {'method': 'computed'}}}, said


def settle(phases, reserve=False):
    """Drop fixed initial times that the phase before already determines."""
    res = []
    for j, c in enumerate(phases):
        free = reserve and j == len(phases) - 1
        if j and not free and c['time_initial'] and res[-1]['time_initial'] and res[-1]['time_duration']:
            c = dict(c, time_initial=False)
        if j and not free and c['time'][0] == 0:
            c = dict(c, time_initial=False)
        res.append(c)
    return res


class Formulation:
    """A problem and what it gives to its optimizer."""

    def __init__(self, prob):
        self.prob = prob
        self.dvs = prob.driver._designvars
        self.cons = prob.driver._cons
        self.objs = prob.driver._objs
        self._io = None
        self.ran = True

    def own_units(self, source):
        if self._io is None:
            self._io = self.prob.model._var_allprocs_abs2meta['output']
        return self._io[source]['units']

    def bounds(self, meta, units):
        """(lower, upper, equals) in units; None where there is no bound."""
        have = meta['units'] or self.own_units(meta['source'])
        res = []
        for k in ('lower', 'upper', 'equals'):
            v = meta.get(k)
            if v is not None:
                v = np.asarray(v, dtype=float)
                if np.all(np.abs(v) > BIG):
                    v = None
                else:
                    if have and units and have != units and units != 'unitless':
                        v = convert_units(v, have, units)
                    v = np.ravel(v)
                    v = float(v[0]) if np.ptp(v) == 0 else v
            res.append(v)
        return tuple(res)

    def value(self, meta):
        """Current value of a constraint, in its own units."""
        v = np.ravel(self.prob.get_val(meta['source']) if meta['source'].startswith('_auto') else self.prob.model._abs_get_val(meta['source']))
        idx = meta['indices']
        if idx is not None:
            v = np.atleast_1d(v[np.ravel(idx.as_array() if hasattr(idx, 'as_array') else np.asarray(idx))])
        have, want = self.own_units(meta['source']), meta['units']
        if have and want and have != want:
            v = convert_units(v, have, want)
        return np.ravel(v)


def build(info, deck=DECK, change=None, objective=None, ref=None, run=True, problem_type=None, add_objective=True):
    """Build a whole problem. info: the phase_info dictionary. change(inputs) edits the inputs after loading."""
    with quiet():
        p = av.AviaryProblem(problem_type=problem_type, verbosity=0) if problem_type is not None else av.AviaryProblem(verbosity=0)
        p.load_inputs(deck, info)
        if change is not None:
            change(p.aviary_inputs)
        p.check_and_preprocess_inputs()
        p.build_model()
        p.add_driver('SLSQP', max_iter=1, use_coloring=False)
        p.add_design_variables()
        if add_objective:
            p.add_objective(objective, ref)
        p.setup()
        p.final_setup()
        f = Formulation(p)
        if run:
            try:
                om.Problem.run_model(p)
            except om.AnalysisError:
                f.ran = False  # a solver of the flight equations gave up at this point
    return f
