from copy import deepcopy

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

import aviary.api as av
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.variable_info.variables import Aircraft
from lib import formulation as fm
from lib import units_ref
from lib.mission import quiet
from lib.pbt import Part, short

PROPERTY = 'P28'
RULE = (
    'Missions of one to three phases with one or two generated external subsystems, each with its own variables, states, controls, parameters, constraints, links, buses, masses, design variables, '
    'guesses and options per phase, are built and evaluated. Non-trivial: at least four kinds of hooks in use.'
)
ASSUMPTIONS = ['The formulas of the generated subsystems are evaluated again on the published inputs.', 'Optimization is replaced by one evaluation at the initial guesses.']
DECK = fm.DECK
ENERGY = {'kJ': 1e3, 'MJ': 1e6, 'J': 1.0}


def convert(x, old, new):
    if old in ENERGY:
        return x * ENERGY[old] / ENERGY[new]
    return units_ref.convert(x, old, new)


num = st.sampled_from([0.5, 1.0, 2.5, 7.0, 30.0])
sub_st = st.fixed_dictionaries(
    {
        'size': fm.maybe(st.tuples(num, st.sampled_from(['kg', 'lbm', 'g']))),  # given by the user
        'preprocess': fm.maybe(num, 3),  # set by preprocess_inputs if not given
        'size_default': num,
        'computed_gain': st.booleans(),
        'gain': fm.maybe(st.tuples(num, st.sampled_from(['kg', 'lbm']))),
        'bus': st.sampled_from([None, 'name', 'list', 'local', 'phases']),
        'bus_shape': st.sampled_from([1, 3]),
        'bus_index': fm.maybe(st.sampled_from([0, 1, 2]), 3),
        'state': fm.maybe(
            st.fixed_dictionaries(
                {
                    'fix': st.booleans(),
                    'linked': st.booleans(),
                    'bounds': fm.maybe(st.sampled_from([(0.0, 50.0), (None, 80.0), (-5.0, None)])),
                    'guess': st.lists(st.tuples(num, num), min_size=3, max_size=3),
                    'guess_units': st.sampled_from(['kJ', 'MJ', 'J']),
                    'ref': fm.maybe(st.sampled_from([10.0, 100.0])),
                }
            ),
            3,
        ).filter(lambda v: True),
        'control': st.sampled_from([None, 'opt', 'fixed']),
        'control_guess': st.tuples(num, num),
        'control_bounds': st.sampled_from([(0.0, 40.0), (0.1, 90.0)]),
        'param': fm.maybe(st.tuples(num, st.sampled_from(['degK', 'degR']))),
        'constraint': st.sampled_from([None, 'path', 'initial', 'final', 'state']),
        'limit': st.tuples(num, st.sampled_from(['m', 'ft'])),
        'masses': st.sampled_from([0, 1, 2]),
        'design_var': fm.maybe(st.tuples(num, st.sampled_from(['kg', 'lbm']))),
        'timeseries': st.booleans(),
        'post': st.sampled_from([None, 'first', 'last', 'both', 'all']),
        'post_phase': st.sampled_from([0, 1, 2]),
        'post_from_pre': st.booleans(),
        'options': st.lists(fm.maybe(num), min_size=5, max_size=5),
        'solver': st.booleans(),
        'narrow': st.booleans(),
    }
)
case_st = st.fixed_dictionaries(
    {
        'subs': st.lists(sub_st, min_size=1, max_size=2),
        'phases': st.lists(
            st.fixed_dictionaries({'num_segments': st.sampled_from([1, 2]), 'order': st.sampled_from([2, 3]), 'mach': st.sampled_from([0.5, 0.7])}), min_size=1, max_size=3
        ),
    }
)


def meta_for(k, s):
    meta = deepcopy(av.CoreMetaData)
    av.add_meta_data(f'aircraft:xs{k}:size', units='kg', default_value=s['size_default'], meta_data=meta, types=float, option=False)
    av.add_meta_data(f'aircraft:xs{k}:gain', units='kg', default_value=1.0, meta_data=meta, types=float, option=False)
    for j in range(2):
        av.add_meta_data(f'aircraft:xs{k}:mass_{j}', units='lbm', default_value=0.0, meta_data=meta, types=float, option=False)
    return meta


class Pre(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('k')
        self.options.declare('s')
        self.options.declare('a')

    def setup(self):
        k, s = self.options['k'], self.options['s']
        self.add_input(f'aircraft:xs{k}:size', s['size_default'], units='kg')
        self.add_output('bus', np.ones(s['bus_shape']), units='m')
        if s['computed_gain']:
            self.add_output(f'aircraft:xs{k}:gain', 1.0, units='lbm')
        for j in range(s['masses']):
            self.add_output(f'aircraft:xs{k}:mass_{j}', 0.0, units='lbm')
        self.declare_partials('*', '*', method='fd')

    def compute(self, inputs, outputs):
        k, s = self.options['k'], self.options['s']
        size = inputs[f'aircraft:xs{k}:size'][0]
        for n, v in pre(k, s, size, self.options['a']).items():
            outputs[n] = v


def pre(k, s, size, a):
    """Pre-mission outputs: bus in m, gain and masses in lbm, for a size in kg."""
    res = {'bus': 3.0 * size + a + np.arange(s['bus_shape'])}
    if s['computed_gain']:
        res[f'aircraft:xs{k}:gain'] = 2.0 * size + a
    for j in range(s['masses']):
        res[f'aircraft:xs{k}:mass_{j}'] = (j + 1) * 10.0 * size
    return res


class Miss(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('k')
        self.options.declare('s')
        self.options.declare('a')
        self.options.declare('nn')

    def setup(self):
        k, s, nn = (self.options[n] for n in ('k', 's', 'nn'))
        self.add_input('mach', np.ones(nn), units='unitless')
        self.add_input(f'aircraft:xs{k}:gain', 1.0, units='kg')
        if s['bus']:
            self.add_input(f'xs{k}_in', np.zeros(wanted(s)), units='ft')
            if s['bus'] == 'list':
                self.add_input(f'xs{k}_in2', np.zeros(wanted(s)), units='m')
        if s['state']:
            self.add_input(f'xs{k}_state', np.ones(nn), units='kJ')
        if s['control']:
            self.add_input(f'xs{k}_control', np.ones(nn), units='kW')
        if s['param']:
            self.add_input(f'xs{k}_param', 1.0, units='degK')
        self.add_output(f'xs{k}_rate', np.ones(nn), units='kW')
        self.add_output(f'xs{k}_out', np.ones(nn), units='m')
        self.declare_partials('*', '*', method='fd')

    def compute(self, inputs, outputs):
        k, s = self.options['k'], self.options['s']
        v = {n: inputs[n] for n in inputs}
        one = np.ones(self.options['nn'])
        bus = sum(np.sum(convert(np.asarray(v[n]), u, 'm')) for n, u in ((f'xs{k}_in', 'ft'), (f'xs{k}_in2', 'm')) if n in v)
        rate, out = formula(
            self.options['a'], v['mach'], v[f'aircraft:xs{k}:gain'][0], bus, v.get(f'xs{k}_state', 0 * one), v.get(f'xs{k}_control', 0 * one), v.get(f'xs{k}_param', [0.0])[0]
        )
        outputs[f'xs{k}_rate'] = rate
        outputs[f'xs{k}_out'] = out


def wanted(s):
    return 1 if s['bus_index'] is not None else s['bus_shape']


def formula(a, mach, gain, bus, state, control, param):
    return a + 0.5 * control + 0.1 * state, gain * mach + bus + a + 0.3 * state - 0.2 * control + param


class Post(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('k')
        self.options.declare('s')
        self.options.declare('a')
        self.options.declare('n')

    def setup(self):
        s = self.options['s']
        if s['post']:
            for n in ends(s):
                self.add_input(n, np.zeros(self.options['n'] if n == 'all' else 1), units='ft')
        if s['post_from_pre']:
            self.add_input('from_pre', np.zeros(wanted(s)), units='ft')
        self.add_input('own', 1.0, units='m')
        self.add_output('result', 0.0, units='m')
        self.declare_partials('*', '*', method='fd')

    def compute(self, inputs, outputs):
        outputs['result'] = self.options['a'] + sum((i + 1) * convert(np.sum(inputs[n]), 'ft', 'm') for i, n in enumerate(('first', 'last', 'all', 'from_pre')) if n in inputs)


def ends(s):
    return {'first': ['first'], 'last': ['last'], 'both': ['first', 'last'], 'all': ['all'], None: []}[s['post']]


class Ext(SubsystemBuilder):
    __slots__ = ('k', 's', 'names', 'seen')

    def __init__(self, k, s, names):
        super().__init__(f'xs{k}', meta_for(k, s))
        self.k, self.s, self.names, self.seen = k, s, names, {}

    def note(self, hook, options):
        self.seen.setdefault(hook, []).append(dict(options or {}).get('tag'))

    def a(self, options):
        return (options or {}).get('a', 0.25)

    def preprocess_inputs(self, aviary_inputs):
        n = f'aircraft:xs{self.k}:size'
        if self.s['preprocess'] is not None and n not in aviary_inputs:
            aviary_inputs.set_val(n, self.s['preprocess'], units='kg', meta_data=self.meta_data)
        return aviary_inputs

    def build_pre_mission(self, aviary_inputs=None, subsystem_options=None):
        self.note('pre', subsystem_options)
        return Pre(k=self.k, s=self.s, a=self.a(subsystem_options))

    def build_mission(self, num_nodes, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('mission', subsystem_options)
        return Miss(k=self.k, s=self.s, nn=num_nodes, a=self.a(subsystem_options))

    def build_post_mission(self, aviary_inputs=None, mission_info=None, subsystem_options=None, phase_mission_bus_lengths=None):
        self.note('post', subsystem_options)
        return Post(k=self.k, s=self.s, a=self.a(subsystem_options), n=phase_mission_bus_lengths[self.phase()])

    def phase(self):
        return self.names[self.s['post_phase'] % len(self.names)]

    def needs_mission_solver(self, aviary_inputs, user_options, subsystem_options):
        self.note('solver', subsystem_options)
        return self.s['solver']

    def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('inputs', subsystem_options)
        if self.s['bus'] == 'local':
            return ['mach', 'aircraft:*'] + [f'xs{self.k}_{n}' for n in ('state', 'control', 'param') if self.s[n]]
        return ['*']

    def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('outputs', subsystem_options)
        return [f'xs{self.k}_rate'] if self.s['narrow'] else ['*']

    def out(self):
        return f'xs{self.k}.xs{self.k}_out' if self.s['narrow'] else f'xs{self.k}_out'

    def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('states', subsystem_options)
        s = self.s['state']
        if not s:
            return {}
        d = {'rate_source': f'xs{self.k}_rate', 'units': 'kJ', 'targets': f'xs{self.k}_state', 'fix_initial': s['fix']}
        if s['bounds']:
            d['lower'], d['upper'] = s['bounds']
        if s['ref']:
            d['ref'] = s['ref']
        return {f'xs{self.k}_state': d}

    def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('controls', subsystem_options)
        if not self.s['control']:
            return {}
        opt = self.s['control'] == 'opt'
        d = {'units': 'kW', 'opt': opt, 'targets': f'xs{self.k}_control'}
        if opt:
            d['lower'], d['upper'] = self.s['control_bounds']
        return {f'xs{self.k}_control': d}

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('parameters', subsystem_options)
        d = {f'aircraft:xs{self.k}:gain': {'units': 'kg', 'static_target': True}}
        if self.s['param']:
            v, u = self.s['param']
            d[f'xs{self.k}_param'] = {'val': v, 'units': u, 'static_target': True}
        return d

    def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('constraints', subsystem_options)
        c = self.s['constraint']
        v, u = self.s['limit']
        if c == 'state':
            return {f'xs{self.k}_state': {'type': 'boundary', 'loc': 'final', 'lower': v, 'units': 'MJ'}} if self.s['state'] else {}
        if c == 'path':
            return {self.out(): {'type': 'path', 'upper': v, 'units': u}}
        if c:
            return {self.out(): {'type': 'boundary', 'loc': c, 'lower': -v, 'upper': v, 'units': u}}
        return {}

    def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('links', subsystem_options)
        return [f'xs{self.k}_state'] if self.s['state'] and self.s['state']['linked'] else []

    def get_pre_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        d = {}
        s = self.s
        if s['bus']:
            n = f'xs{self.k}_in'
            d['mission_name'] = {'name': n, 'list': [n, n + '2'], 'local': f'xs{self.k}.{n}', 'phases': n}[s['bus']]
            if s['bus'] == 'phases':
                d['phases'] = self.names[:1]
        if s['post_from_pre']:
            d['post_mission_name'] = f'xs{self.k}.from_pre'
        if not d:
            return {}
        if s['bus_index'] is not None:
            d['src_indices'] = [s['bus_index'] % s['bus_shape']]
        return {f'xs{self.k}.bus': dict(d, units='m', shape=(wanted(s),))}

    def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        if not self.s['post']:
            return {}
        place = {'first': [0], 'last': [-1], 'all': None}
        con = []
        for n in ends(self.s):
            d = {'post_mission_name': f'xs{self.k}.{n}'}
            if place[n] is not None:
                d['src_indices'] = place[n]
            con.append(d)
        return {self.phase(): {self.out(): con if len(con) > 1 else con[0]}}

    def get_design_vars(self, aviary_inputs=None):
        if self.s['design_var'] is None:
            return {}
        v, u = self.s['design_var']
        return {f'aircraft:xs{self.k}:size': {'lower': v, 'upper': 3 * v, 'units': u, 'ref': 2 * v}}

    def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('guesses', subsystem_options)
        d = {}
        s = self.s
        tag = (subsystem_options or {}).get('tag')
        if s['state'] and tag is not None:
            u = s['state']['guess_units']
            d[f'xs{self.k}_state'] = {'val': [convert(x, 'kJ', u) for x in s['state']['guess'][self.names.index(tag)]], 'units': u, 'type': 'state'}
        if s['control']:
            d[f'xs{self.k}_control'] = {'val': [x * 1000 for x in s['control_guess']], 'units': 'W', 'type': 'control'}
        return d

    def get_mass_names(self, aviary_inputs=None):
        return [f'aircraft:xs{self.k}:mass_{j}' for j in range(self.s['masses'])]

    def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self.note('timeseries', subsystem_options)
        return [self.out()] if self.s['timeseries'] else []


PER_PHASE = ['mission', 'solver', 'inputs', 'outputs', 'states', 'controls', 'parameters', 'constraints', 'links', 'guesses', 'timeseries']


def check(case, ctx):
    names = [f'p{j}' for j in range(len(case['phases']))]
    subs = case['subs']
    what = short({'subs': subs, 'phases': case['phases']}, 2500)
    info = {'pre_mission': {'include_takeoff': False, 'subsystem_options': {}}, 'post_mission': {'include_landing': False, 'subsystem_options': {}}}
    for j, (n, c) in enumerate(zip(names, case['phases'])):
        info[n] = {
            'user_options': {
                'num_segments': c['num_segments'], 'order': c['order'], 'mach_optimize': False, 'altitude_optimize': False, 'mach_initial': (c['mach'], 'unitless'), 'mach_final': (0.72, 'unitless'),
                'altitude_initial': (20000.0 + 2000 * j, 'ft'), 'altitude_final': (22000.0 + 2000 * j, 'ft'), 'time_duration_bounds': ((10.0, 300.0), 'min'),
                'time_initial_bounds': ((0.0, 500.0), 'min'), 'throttle_enforcement': 'path_constraint',
            },
            'initial_guesses': {'time': ([60.0 * j, 60.0], 'min'), 'mass': ([150000.0, 149000.0], 'lbm'), 'distance': ([400.0 * j, 400.0 * j + 400], 'nmi')},
            'subsystem_options': {'aerodynamics': {'method': 'computed'}},
        }
    options = {}
    for k, s in enumerate(subs):
        for place, a in zip(['pre_mission', 'post_mission', *names], s['options']):
            d = {'tag': place}
            if a is not None:
                d['a'] = a
            info[place]['subsystem_options'][f'xs{k}'] = d
            options[k, place] = 0.25 if a is None else a
    ext = [Ext(k, s, names) for k, s in enumerate(subs)]
    with quiet():
        p = av.AviaryProblem(verbosity=0)
        p.load_inputs(DECK, deepcopy(info))
        p.load_external_subsystems(ext)
        for k, s in enumerate(subs):
            m = ext[k].meta_data
            if s['size'] is not None:
                p.aviary_inputs.set_val(f'aircraft:xs{k}:size', s['size'][0], units=s['size'][1], meta_data=m)
            if s['gain'] is not None:
                p.aviary_inputs.set_val(f'aircraft:xs{k}:gain', s['gain'][0], units=s['gain'][1], meta_data=m)
        p.check_and_preprocess_inputs()
        p.build_model()
        p.add_driver('SLSQP', max_iter=1, use_coloring=False)
        p.add_design_variables()
        p.add_objective()
        p.setup()
        p.set_initial_guesses()
        p.final_setup()
        f = fm.Formulation(p)
        try:
            om.Problem.run_model(p)
        except om.AnalysisError:
            ctx.label('analysis_failed')
            return

    def get(var, units):
        return np.ravel(np.asarray(p.get_val(var, units=units), dtype=float))

    def same(have, want, key, tol=1e-6):
        have, want = np.ravel(have), np.ravel(want)
        ok = have.shape == want.shape and np.allclose(have, want, rtol=tol, atol=1e-8 * max(1.0, np.max(np.abs(want), initial=0)))
        ctx.require(ok, lambda: f'{key}: {have}, expected {want}: {what}', key=key)

    total = 0.0
    dvs = {m['name']: m for m in f.dvs.values()}
    cons = f.cons
    for k, s in enumerate(subs):
        e = ext[k]
        # options reach the hooks they are meant for
        for hook in PER_PHASE:
            if hook == 'links' and len(names) == 1:
                continue
            tags = e.seen.get(hook, [])
            ctx.require(set(tags) == set(names), lambda: f'{hook} of xs{k} was called with the options of {tags}: {what}', key=f'options|{hook}')
        for hook, place in (('pre', 'pre_mission'), ('post', 'post_mission')):
            tags = e.seen.get(hook, [])
            ctx.require(tags == [place], lambda: f'{hook} of xs{k} was called with the options of {tags}: {what}', key=f'options|{hook}')
        # pre-mission
        if s['size'] is not None:
            size = convert(s['size'][0], s['size'][1], 'kg')
        else:
            size = s['size_default'] if s['preprocess'] is None else s['preprocess']
        same(get(f'aircraft:xs{k}:size', 'kg'), size, 'size')
        made = pre(k, s, size, options[k, 'pre_mission'])
        bus = made['bus']
        if s['bus_index'] is not None:
            bus = bus[s['bus_index'] % s['bus_shape']]
        for j in range(s['masses']):
            m = made[f'aircraft:xs{k}:mass_{j}']
            same(get(f'aircraft:xs{k}:mass_{j}', 'lbm'), m, 'mass')
            total += m
        if s['computed_gain']:
            gain = convert(made[f'aircraft:xs{k}:gain'], 'lbm', 'kg')
        elif s['gain'] is not None:
            gain = convert(*s['gain'], 'kg')
        else:
            gain = 1.0
        same(get(f'aircraft:xs{k}:gain', 'kg'), gain, 'gain|' + ('computed' if s['computed_gain'] else 'given' if s['gain'] else 'default'))
        param = convert(*s['param'], 'degK') if s['param'] else 0.0
        if s['design_var'] is not None:
            v, u = s['design_var']
            n = f'aircraft:xs{k}:size'
            ctx.require(n in dvs, lambda: f'{n} is no design variable of {sorted(dvs)}: {what}', key='design_var')
            same([x for x in f.bounds(dvs[n], u)[:2]], [v, 3 * v], 'design_var|bounds')
        # phases
        last = None
        published = {}
        for j, n in enumerate(names):
            ts = f'traj.{n}.timeseries.'
            mach = get(ts + 'mach', 'unitless')
            zero = 0 * mach
            state = get(f'{ts}xs{k}_state', 'kJ') if s['state'] else zero
            control = get(f'{ts}xs{k}_control', 'kW') if s['control'] else zero
            here = np.sum(bus) * (2 if s['bus'] == 'list' else 1) if s['bus'] and (s['bus'] != 'phases' or j == 0) else 0.0
            rate, out = formula(options[k, n], mach, gain, here, state, control, param)
            published[n] = out
            if s['timeseries']:
                same(get(f'{ts}xs{k}_out', 'm'), out, f'output|{s["bus"]}')
            if s['control']:
                same(control[[0, -1]], s['control_guess'], 'control_guess')
                have = [m for q, m in f.dvs.items() if f'xs{k}_control' in q and f'{n}.' in q]
                ctx.require(bool(have) == (s['control'] == 'opt'), lambda: f'design variables for the control: {have}: {what}', key='control_opt')
                for m in have:
                    lo, hi, _ = f.bounds(m, 'kW')
                    same([np.max(lo), np.min(hi)], s['control_bounds'], 'control_bounds')
            if s['state']:
                t = s['state']
                g = t['guess'][j]
                same(state[-1], g[1], 'state_guess|final')
                connected = j > 0 and t['linked']
                if connected:
                    same(state[0], last, 'state_connected')
                else:
                    same(state[0], g[0], 'state_guess|initial')
                link = [q for q in cons if q.startswith('traj.linkages.') or 'linkages' in q]
                link = [q for q in link if f'xs{k}_state' in q and (f'{names[j - 1]}:' in q and f'{n}:' in q)] if j else []
                ctx.require(bool(link) == bool(j and t['linked'] and not connected), lambda: f'linkage of xs{k}_state at {n}: {link}, in {[q for q in cons if "link" in q]}: {what}', key='link')
                defects = [q for q in cons if f'{n}.' in q and f'defects:xs{k}_state' in q]
                ctx.require(len(defects) == 1, lambda: f'{len(defects)} defect constraints for xs{k}_state in {n}: {sorted(cons)}: {what}', key='defect')
                have = [m for q, m in f.dvs.items() if f'xs{k}_state' in q and f'{n}.' in q]
                ctx.require(bool(have), lambda: f'the state is no design variable: {what}', key='state_dv')
                if t['bounds']:
                    for m in have:
                        lo, hi, _ = f.bounds(m, 'kJ')
                        for x, w, side in ((lo, t['bounds'][0], 'lower'), (hi, t['bounds'][1], 'upper')):
                            ctx.require((x is None) == (w is None), lambda: f'{side} bound {x}, expected {w}: {what}', key='state_bounds')
                            if w is not None:
                                same(x, np.full(np.size(x), w), 'state_bounds')
                last = state[-1]
            # constraints
            c = s['constraint']
            v, u = s['limit']
            have = {q: m for q, m in cons.items() if f'{n}.' in q and (f'xs{k}_out' in q or (f'xs{k}_state[' in q))}
            expected = bool(c) and (c != 'state' or bool(s['state']))
            ctx.require(len(have) == expected, lambda: f'constraints {sorted(have)}, of {sorted(cons)}: {what}', key=f'constraint|{c}')
            for q, m in have.items():
                if c == 'state':
                    same(f.bounds(m, 'MJ')[0], v, 'constraint|state|lower')
                    same(convert(f.value(m), m['units'], 'MJ'), convert(state[-1], 'kJ', 'MJ'), 'constraint|state|value')
                    continue
                lo, hi, eq = f.bounds(m, u)
                same(hi, v, 'constraint|upper')
                if c != 'path':
                    same(lo, -v, 'constraint|lower')
                want = out if c == 'path' else out[[0 if c == 'initial' else -1]]
                got = convert(f.value(m), m['units'] or 'm', 'm')
                if c == 'path':
                    same([got.min(), got.max()], [want.min(), want.max()], 'constraint|path|value')
                else:
                    same(got, want, f'constraint|{c}|value')
        # post-mission
        want = options[k, 'post_mission']
        out = published[e.phase()]
        bus_nodes = None
        for n in ends(s):
            if n == 'all':
                bus_nodes = get(f'traj.{e.phase()}.mission_bus_variables.xs{k}_out', 'm')
                same(bus_nodes[[0, -1]], out[[0, -1]], 'post|bus')
                want += 3 * np.sum(bus_nodes)
            else:
                want += out[0] if n == 'first' else 2 * out[-1]
        if s['post_from_pre']:
            want += 4 * np.sum(bus)
        same(get(f'xs{k}.result', 'm'), want, 'post')
    if any(s['masses'] for s in subs):
        same(get(Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS, 'lbm'), total, 'external_mass')
    used = sum(bool(s[n]) for s in subs for n in ('bus', 'state', 'control', 'param', 'constraint', 'masses', 'design_var', 'timeseries', 'post', 'post_from_pre'))
    ctx.nontrivial(used >= 4)
    ctx.label(f'{len(subs)}_subsystems', *{n for s in subs for n in ('bus', 'state', 'control', 'param', 'constraint', 'post') if s[n]})


# ---------------------------------------------------------------------------------------------- what is refused
bad_st = st.fixed_dictionaries(
    {
        'kind': st.sampled_from(['constraint', 'loaded']),
        'type': st.sampled_from(['Path', 'final', 'bound', '', 'control']),
        'object': st.sampled_from([0, 1, 2, 3]),
        'verbosity': st.sampled_from([0, 1, 2]),
        'before': st.booleans(),
    }
)
PLAIN = {
    'size': None, 'preprocess': None, 'size_default': 1.0, 'computed_gain': False, 'gain': None, 'bus': None, 'bus_shape': 1, 'bus_index': None, 'state': None, 'control': None, 'param': None,
    'constraint': None, 'limit': (1.0, 'm'), 'masses': 0, 'design_var': None, 'timeseries': False, 'post': None, 'post_phase': 0, 'post_from_pre': False, 'solver': False, 'narrow': False,
}


class Bad(Ext):
    __slots__ = ('type',)

    def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return {'xs0_out': {'type': self.type, 'upper': 1.0}}


def check_bad(case, ctx):
    info = {
        'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False},
        'p0': {
            'user_options': {'num_segments': 1, 'order': 2, 'mach_optimize': False, 'altitude_optimize': False, 'mach_initial': (0.6, 'unitless'), 'mach_final': (0.7, 'unitless'),
                             'altitude_initial': (20000.0, 'ft'), 'altitude_final': (22000.0, 'ft'), 'time_duration_bounds': ((10.0, 300.0), 'min')},
            'subsystem_options': {'aerodynamics': {'method': 'computed'}},
        },
    }
    p = av.AviaryProblem(verbosity=0)
    with quiet():
        p.load_inputs(DECK, info)
    good = Ext(0, PLAIN, ['p0'])
    if case['kind'] == 'loaded':
        thing = [object(), 'xs0', Pre, None][case['object']]
        with quiet():
            p.load_external_subsystems([thing, good] if case['before'] else [good, thing], verbosity=case['verbosity'])
        have = p.model.external_subsystems
        ctx.require(len(have) == 1 and have[0] is good, lambda: f'{have} were loaded from {thing!r} and a builder: {case}', key='loaded')
        ctx.label('not_a_builder')
    else:
        bad = Bad(0, PLAIN, ['p0'])
        bad.type = case['type']
        with quiet():
            p.load_external_subsystems([bad])
            p.check_and_preprocess_inputs()
            try:
                p.build_model()
            except ValueError as e:
                ctx.require('xs0' in str(e) and case['type'] in str(e), lambda: f'refused as: {e}: {case}', key='bad_constraint_message')
            else:
                ctx.fail(f'a constraint of type {case["type"]!r} was accepted: {case}', key='bad_constraint')
        ctx.label('bad_constraint')
    ctx.nontrivial()


PARTS = [
    Part('energy', case_st, check, quick=120, thorough=4000, shards=8, case_limit=60, shrink_budget=30),
    Part('refused', bad_st, check_bad, quick=40, thorough=400, shards=8),
]
