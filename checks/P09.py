import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.subsystems.propulsion.engine_deck import EngineDeck
from aviary.subsystems.propulsion.engine_model import EngineModel
from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
from aviary.subsystems.propulsion.throttle_allocation import ThrottleAllocator
from aviary.subsystems.propulsion.utils import EngineModelVariables as V
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import ThrottleAllocation
from aviary.variable_info.functions import extract_options, setup_model_options
from aviary.variable_info.variables import Aircraft, Dynamic, Settings
from lib.mission import quiet
from lib.pbt import Part

PROPERTY = 'P09'
RULE = (
    'Generated propulsion systems of one to four engine types with one to four engines each: user-written engine models with a generated '
    'set of outputs, units, parameters and controls, with and without their own maximum-thrust calculation, and engine decks. '
    'Oracle: each engine type evaluated by its own formula (or on its own) with its own throttle and parameters; sums weighted by engine count. '
    'Non-trivial: two or more engine types with different counts.'
)
ASSUMPTIONS = ['Engine parameters are scalars per engine type, as the builder interface requires.']
E = Aircraft.Engine
P = Dynamic.Vehicle.Propulsion

OUT = {
    'thrust': (P.THRUST, 'lbf', [('lbf', 1.0), ('N', 4.4482216152605)]),
    'fuel': (P.FUEL_MASS_FLOW_RATE_NEGATIVE, 'lbm/h', [('lbm/h', 1.0), ('kg/s', 0.45359237 / 3600)]),
    'elec': (P.ELECTRIC_POWER_IN, 'kW', [('kW', 1.0), ('W', 1000.0)]),
    'nox': (P.NOX_RATE, 'lbm/h', [('lbm/h', 1.0), ('kg/h', 0.45359237)]),
    't4': (P.TEMPERATURE_T4, 'degR', [('degR', 1.0), ('degK', 5 / 9)]),
    'shp': (P.SHAFT_POWER, 'hp', [('hp', 1.0), ('W', 745.699871582270)]),
    'rpm': (P.RPM, 'rpm', [('rpm', 1.0)]),
    'tip': (P.PROPELLER_TIP_SPEED, 'ft/s', [('ft/s', 1.0), ('m/s', 0.3048)]),
}
MAXOF = {'thrust': ('tmax', P.THRUST_MAX, 'lbf'), 'shp': ('smax', P.SHAFT_POWER_MAX, 'hp')}
SUMS = {'thrust': P.THRUST_TOTAL, 'tmax': P.THRUST_MAX_TOTAL, 'fuel': P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL,
        'elec': P.ELECTRIC_POWER_IN_TOTAL, 'nox': P.NOX_RATE_TOTAL}
PARAMS = [(E.SCALE_FACTOR, 'unitless'), (E.Propeller.DIAMETER, 'ft'), (E.Gearbox.GEAR_RATIO, 'unitless'), (E.FIXED_RPM, 'rpm'),
          (Aircraft.Nacelle.AVG_DIAMETER, 'ft')]


def f(spec, o, mach, alt, thr, hyb, par):
    """what engine `spec` delivers for output o (an analytic stand-in for an engine)."""
    c = spec['c']
    k = sum(map(ord, o)) % 5
    v = 100.0 + 900 * c[k] + 300 * c[(k + 1) % 6] * mach + 50 * c[(k + 2) % 6] * alt / 1e4
    v = v * (0.2 + c[(k + 3) % 6] + thr)
    if spec['hybrid']:
        v = v + 40.0 * (1 + c[(k + 4) % 6]) * hyb
    for i, p in enumerate(sorted(spec['params'])):
        v = v * (1 + (0.3 + i) * par[p])
    return v if o != 'fuel' else -v


class Comp(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('nn')
        self.options.declare('spec')

    def setup(self):
        nn, s = self.options['nn'], self.options['spec']
        self.add_input(Dynamic.Atmosphere.MACH, np.ones(nn), units='unitless')
        self.add_input(Dynamic.Mission.ALTITUDE, np.ones(nn), units='ft')
        self.add_input(P.THROTTLE, np.ones(nn), units='unitless')
        if s['hybrid']:
            self.add_input(P.HYBRID_THROTTLE, np.ones(nn), units='unitless')
        for p in s['params']:
            self.add_input(PARAMS[p][0], 1.0, units=PARAMS[p][1])
        for o in s['outs']:
            self.add_output(OUT[o][0], np.ones(nn), units=OUT[o][2][s['u'] % len(OUT[o][2])][0])
            if s['own_max'] and o in MAXOF:
                self.add_output(MAXOF[o][1], np.ones(nn), units=MAXOF[o][2])

    def compute(self, inputs, outputs):
        s = self.options['spec']
        par = {p: inputs[PARAMS[p][0]][0] for p in s['params']}
        m, a, t = inputs[Dynamic.Atmosphere.MACH], inputs[Dynamic.Mission.ALTITUDE], inputs[P.THROTTLE]
        h = inputs[P.HYBRID_THROTTLE] if s['hybrid'] else 0
        for o in s['outs']:
            outputs[OUT[o][0]] = f(s, o, m, a, t, h, par) * OUT[o][2][s['u'] % len(OUT[o][2])][1]
            if s['own_max'] and o in MAXOF:
                outputs[MAXOF[o][1]] = 1.25 * f(s, o, m, a, 1.0, 1.0, par)


class Engine(EngineModel):
    def __init__(self, name, spec):
        opt = AviaryValues()
        opt.set_val(Settings.VERBOSITY, 0)
        super().__init__(name, options=opt)
        self.spec = spec
        self.use_hybrid_throttle = spec['hybrid']
        self.compute_max_values = spec['own_max']
        self.seen = []

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        self.seen.append((dict(user_options), dict(subsystem_options)))
        c = Comp(nn=num_nodes, spec=self.spec)
        if not self.spec['group'] or self.spec['own_max']:
            return c
        g = om.Group()
        g.add_subsystem('core', c, promotes=['*'])
        # an internal consumer of one of the engine's own results and an internal, unpromoted result
        first = OUT[self.spec['outs'][0]][0]
        g.add_subsystem('inner', om.ExecComp('y=2*x', x=np.ones(num_nodes), y=np.ones(num_nodes)), promotes_inputs=[('x', first)])
        return g

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        return {PARAMS[p][0]: {'units': PARAMS[p][1], 'static_target': True} for p in self.spec['params']}

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        self.seen.append(dict(subsystem_options or {}))
        s = self.spec
        if s['pre'] == 'none':
            return None
        c = om.ExecComp()
        c.add_expr('thrust = ref * scale', ref={'val': 1.0, 'units': 'lbf'}, scale={'val': 1.0}, thrust={'val': 1.0, 'units': 'lbf'})
        proms = [('ref', E.REFERENCE_SLS_THRUST), ('scale', E.SCALE_FACTOR)]
        outs = [('thrust', E.SCALED_SLS_THRUST)]
        if s['pre'] == 'more':
            c.add_expr('dia = 0.5 * nac + span', dia={'val': 1.0, 'units': 'm'}, nac={'val': 1.0, 'units': 'm'}, span={'val': 1.0, 'units': 'm'})
            proms += [('nac', Aircraft.Nacelle.AVG_DIAMETER), ('span', Aircraft.Wing.SPAN)]
            outs += [('dia', E.Propeller.DIAMETER)]
        g = om.Group()
        g.add_subsystem('size', c, promotes_inputs=proms, promotes_outputs=outs)
        return g


f01 = st.floats(0, 1).map(lambda x: round(x, 3))
spec_st = st.fixed_dictionaries(
    {
        'kind': st.sampled_from(['model', 'model', 'model', 'deck']),
        'n': st.integers(1, 4),
        'outs': st.lists(st.sampled_from(sorted(OUT)), min_size=1, max_size=8, unique=True),
        'params': st.lists(st.integers(0, len(PARAMS) - 1), max_size=3, unique=True),
        'pv': st.lists(f01, min_size=5, max_size=5),
        'hybrid': st.booleans(),
        'own_max': st.booleans(),
        'group': st.booleans(),
        'u': st.integers(0, 1),
        'c': st.lists(f01, min_size=6, max_size=6),
        'pre': st.sampled_from(['sls', 'sls', 'more', 'more', 'none']),
    }
)
mission_st = st.fixed_dictionaries(
    {
        'engines': st.lists(spec_st, min_size=1, max_size=4),
        'nn': st.integers(1, 5),
        'state': st.lists(st.tuples(f01, f01, st.tuples(f01, f01, f01, f01), st.tuples(f01, f01, f01, f01)), min_size=5, max_size=5),
        'options': st.lists(st.integers(0, 3), max_size=2, unique=True),
        'namestyle': st.integers(0, 2),
    }
)


def deck(name, s, count):
    d = NamedValues()
    rows = [(m, a, t) for m in (0.0, 0.9) for a in (0.0, 40000.0) for t in (0.0, 0.5, 1.0)]
    A = np.array(rows)
    d.set_val(V.MACH, A[:, 0], 'unitless')
    d.set_val(V.ALTITUDE, A[:, 1], 'ft')
    d.set_val(V.THROTTLE, A[:, 2], 'unitless')
    c = s['c']
    d.set_val(V.THRUST, 1000 + 4000 * c[0] + (3000 + 5000 * c[1]) * A[:, 2] * (1 - 0.3 * A[:, 0]), 'lbf')
    d.set_val(V.FUEL_FLOW, 200 + 800 * c[2] + 2000 * A[:, 2] * (1 + c[3] * A[:, 0]), 'lbm/h')
    if 'nox' in s['outs']:
        d.set_val(V.NOX_RATE, 10 + 20 * c[4] + 10 * A[:, 2], 'lbm/h')
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, 0)
    o.set_val(E.GLOBAL_THROTTLE, True)
    o.set_val(E.INTERPOLATION_METHOD, 'slinear')
    o.set_val(E.INTERPOLATION_SORT, 'mach')
    o.set_val(E.REFERENCE_SLS_THRUST, 10000.0, 'lbf')
    o.set_val(E.FUEL_FLOW_SCALER_CONSTANT_TERM, 0.0)
    o.set_val(E.FUEL_FLOW_SCALER_LINEAR_TERM, 0.0)
    o.set_val(E.CONSTANT_FUEL_MASS_CONSUMPTION, 0.0, 'lbm/h')
    o.set_val(E.SUBSONIC_FUEL_FLOW_SCALER, 1.0)
    o.set_val(E.SUPERSONIC_FUEL_FLOW_SCALER, 1.0)
    o.set_val(E.NUM_ENGINES, count)
    return EngineDeck(name=name, options=o, data=d)


def engines_of(case):
    res = []
    for i, s in enumerate(case['engines']):
        s = dict(s)
        name = ['eng_%d', 'z%d_engine', 'type%d'][case['namestyle']] % (i if case['namestyle'] != 1 else 9 - i)
        if s['kind'] == 'deck':
            s.update(hybrid=False, own_max=False, params=[0])
            res.append((deck(name, s, s['n']), s))
        else:
            res.append((Engine(name, s), s))
    return res


def av_for(specs):
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, 0)
    o.set_val(E.NUM_ENGINES, np.array([s['n'] for s in specs]))
    k = len(specs)
    o.set_val(E.SUBSONIC_FUEL_FLOW_SCALER, np.ones(k))
    o.set_val(E.SUPERSONIC_FUEL_FLOW_SCALER, np.ones(k))
    o.set_val(E.FUEL_FLOW_SCALER_CONSTANT_TERM, np.zeros(k))
    o.set_val(E.FUEL_FLOW_SCALER_LINEAR_TERM, np.zeros(k))
    o.set_val(E.CONSTANT_FUEL_MASS_CONSUMPTION, np.zeros(k), 'lbm/h')
    return o


def deck_alone(e, s, m, a, t, sf):
    """the same engine deck run on its own."""
    o = av_for([s])
    p = om.Problem()
    nn = len(m)
    ivc = p.model.add_subsystem('inputs', om.IndepVarComp(), promotes=['*'])
    ivc.add_output(Dynamic.Atmosphere.MACH, m, units='unitless')
    ivc.add_output(Dynamic.Mission.ALTITUDE, a, units='ft')
    ivc.add_output(P.THROTTLE, t, units='unitless')
    ivc.add_output('throttle_max', np.ones(nn), units='unitless')
    ivc.add_output(E.SCALE_FACTOR, sf)
    p.model.add_subsystem('d', e.build_mission(nn, o, {}, {}), promotes=['*'])
    p.model_options['*'] = extract_options(o)
    p.setup(force_alloc_complex=False)
    p.run_model()
    r = {}
    for o_ in ('thrust', 'fuel', 'nox'):
        try:
            r[o_] = np.array(p.get_val(OUT[o_][0], units=OUT[o_][1])).ravel()
        except KeyError:
            pass
    return r


def mission(case, ctx):
    es = engines_of(case)
    specs = [s for _, s in es]
    k, nn = len(es), case['nn']
    o = av_for(specs)
    sub = {es[i % k][0].name: {'flag_%d' % i: i + 1} for i in case['options']}
    b = CorePropulsionBuilder(name='core_propulsion', engine_models=[e for e, _ in es])
    with quiet():
        sys_ = b.build_mission(nn, o, {'mark': 7}, sub)
        p = om.Problem()
        m = np.array([0.9 * s[0] for s in case['state'][:nn]])
        a = np.array([40000.0 * s[1] for s in case['state'][:nn]])
        T = np.array([s[2][:k] for s in case['state'][:nn]])
        H = np.array([s[3][:k] for s in case['state'][:nn]])
        par = [{q: 0.2 + s['pv'][q] for q in range(5)} for s in specs]
        ivc = p.model.add_subsystem('inputs', om.IndepVarComp(), promotes=['*'])
        ivc.add_output(Dynamic.Atmosphere.MACH, m, units='unitless')
        ivc.add_output(Dynamic.Mission.ALTITUDE, a, units='ft')
        ivc.add_output(P.THROTTLE, T if k > 1 else T[:, 0], units='unitless')
        if any(s['hybrid'] for s in specs):
            ivc.add_output(P.HYBRID_THROTTLE, H if k > 1 else H[:, 0], units='unitless')
        for q in sorted({q for s in specs for q in s['params']}):
            ivc.add_output(PARAMS[q][0], np.array([par[i][q] for i in range(k)]), units=PARAMS[q][1])
        p.model.add_subsystem('core_propulsion', sys_, promotes=['*'])
        setup_model_options(p, o, engine_models=[e for e, _ in es])
        try:
            p.setup()
            p.final_setup()
        except Exception as ex:
            ctx.fail(f'propulsion system cannot be built: {type(ex).__name__}: {str(ex)[:900]}', key='build|' + type(ex).__name__)
        p.run_model()
        exp = {o_: np.zeros((nn, k)) for o_ in list(OUT) + ['tmax', 'smax']}
        for i, (e, s) in enumerate(es):
            if s['kind'] == 'deck':
                fresh = deck(e.name, s, s['n'])
                for o_, v in deck_alone(fresh, s, m, a, T[:, i], par[i][0]).items():
                    exp[o_][:, i] = v
                exp['tmax'][:, i] = deck_alone(fresh, s, m, a, np.ones(nn), par[i][0])['thrust']
                continue
            for o_ in s['outs']:
                exp[o_][:, i] = f(s, o_, m, a, T[:, i], H[:, i], par[i])
                if o_ in MAXOF:
                    exp[MAXOF[o_][0]][:, i] = f(s, o_, m, a, 1.0, 1.0, par[i]) * (1.25 if s['own_max'] else 1.0)
    names = {o_: (OUT[o_][0], OUT[o_][1]) for o_ in OUT}
    names['tmax'], names['smax'] = (P.THRUST_MAX, 'lbf'), (P.SHAFT_POWER_MAX, 'hp')
    kinds = 'multi' if k > 1 else 'single'
    for o_, (n_, u) in names.items():
        got = np.array(p.get_val(n_, units=u)).reshape(nn, k)
        for i in range(k):
            ctx.close(got[:, i], exp[o_][:, i], f'{n_} of engine type {i}', 1e-6, 1e-9, key=f'{kinds}|{o_}|own{specs[i]["own_max"]}|{specs[i]["kind"]}')
    n = np.array([s['n'] for s in specs], float)
    for o_, n_ in SUMS.items():
        ctx.close(np.array(p.get_val(n_, units=names[o_][1])), exp[o_] @ n, n_, 1e-6, 1e-9, key=f'sum|{o_}')
    for e, s in es:
        if s['kind'] == 'model':
            ctx.require(e.seen and all(x == ({'mark': 7}, sub.get(e.name, {})) for x in e.seen),
                        f'engine {e.name} was built with options {e.seen[:1]} instead of {({"mark": 7}, sub.get(e.name, {}))}', key='options|' + kinds)
    ctx.label('types', k)
    ctx.label('kinds', '+'.join(sorted({s['kind'] for s in specs})))
    ctx.nontrivial(k > 1 and len({s['n'] for s in specs}) > 1)


pre_st = st.fixed_dictionaries({
    'engines': st.lists(spec_st, min_size=1, max_size=4), 'namestyle': st.integers(0, 2),
    'ref': st.lists(st.floats(100, 90000).map(lambda x: round(x, 1)), min_size=4, max_size=4),
    'nac': st.lists(st.floats(0.5, 4).map(lambda x: round(x, 2)), min_size=4, max_size=4),
    'options': st.lists(st.integers(0, 3), max_size=2, unique=True),
})


def premission(case, ctx):
    es = engines_of(case)
    specs = [s for _, s in es]
    k = len(es)
    for s in specs:
        if s['kind'] == 'deck':
            s['pre'] = 'sls'
    if any(s['pre'] == 'none' for s in specs):
        ctx.label('pre', 'none')
    o = av_for(specs)
    sub = {es[i % k][0].name: {'flag_%d' % i: i + 1} for i in case['options']}
    b = CorePropulsionBuilder(name='core_propulsion', engine_models=[e for e, _ in es])
    with quiet():
        p = om.Problem()
        ref = np.array(case['ref'][:k])
        sf = np.array([0.3 + s['pv'][0] for s in specs])
        nac = np.array(case['nac'][:k])
        keep = 1234.5 + np.arange(k)
        ivc = p.model.add_subsystem('inputs', om.IndepVarComp(), promotes=['*'])
        ivc.add_output(E.REFERENCE_SLS_THRUST, ref, units='lbf')
        ivc.add_output(E.SCALE_FACTOR, sf)
        ivc.add_output(Aircraft.Nacelle.AVG_DIAMETER, nac, units='m')
        ivc.add_output(Aircraft.Wing.SPAN, 31.0, units='m')
        o.set_val(E.SCALED_SLS_THRUST, keep, 'lbf')
        o.set_val(E.Propeller.DIAMETER, keep, 'm')
        sys_ = b.build_pre_mission(o, sub)
        p.model.add_subsystem('core_propulsion', sys_, promotes=['*'])
        setup_model_options(p, o, engine_models=[e for e, _ in es])
        try:
            p.setup()
            p.final_setup()
        except Exception as ex:
            ctx.fail(f'pre-mission propulsion cannot be built: {type(ex).__name__}: {str(ex)[:300]}', key=f'build|{type(ex).__name__}|{any(s["pre"] == "none" for s in specs)}')
        if all(s['pre'] == 'none' for s in specs):
            p.set_val(E.SCALED_SLS_THRUST, keep, units='lbf')
        p.run_model()
    sls = np.where([s['pre'] == 'none' for s in specs], keep, ref * sf)
    ctx.close(np.array(p.get_val(E.SCALED_SLS_THRUST, units='lbf')).ravel(), sls, 'scaled SLS thrust per engine type', 1e-9, 1e-9, key='sls')
    ctx.close(np.array(p.get_val(Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, units='lbf')).ravel(), [float(np.dot(sls, [s['n'] for s in specs]))],
              'total scaled SLS thrust', 1e-9, 1e-9, key='total_sls')
    if any(s['pre'] == 'more' for s in specs):
        ctx.close(np.array(p.get_val(E.Propeller.DIAMETER, units='m')).ravel(),
                  np.where([s['pre'] == 'more' for s in specs], 0.5 * nac + 31.0, keep), 'per-engine sizing result', 1e-9, 1e-9, key='muxed')
    for e, s in es:
        if s['kind'] == 'model':
            ctx.require(e.seen == [sub.get(e.name, {})], f'engine {e.name} sized with options {e.seen} instead of {sub.get(e.name, {})}', key='options')
    ctx.label('types', k)
    ctx.nontrivial(k > 1 and len({s['n'] for s in specs}) > 1)


alloc_st = st.fixed_dictionaries({
    'k': st.integers(2, 5), 'nn': st.integers(1, 6), 'mode': st.sampled_from(list(ThrottleAllocation)),
    'agg': st.lists(f01, min_size=6, max_size=6), 'al': st.lists(f01, min_size=24, max_size=24), 'n': st.lists(st.integers(1, 4), min_size=5, max_size=5),
})


def allocation(case, ctx):
    k, nn = case['k'], case['nn']
    o = AviaryValues()
    o.set_val(E.NUM_ENGINES, np.array(case['n'][:k]))
    dyn = case['mode'] == ThrottleAllocation.DYNAMIC
    al = np.array(case['al'][: nn * (k - 1)]).reshape(nn, k - 1) if dyn else np.tile(case['al'][: k - 1], (nn, 1))
    al = al / max(1.0, k / 2)
    agg = np.array(case['agg'][:nn])
    p = om.Problem()
    p.model.add_subsystem('a', ThrottleAllocator(num_nodes=nn, throttle_allocation=case['mode']), promotes=['*'])
    p.model_options['*'] = extract_options(o)
    p.setup()
    p.set_val('aggregate_throttle', agg)
    p.set_val('throttle_allocations', al if dyn else al[0])
    p.run_model()
    thr = p.get_val(P.THROTTLE)
    ctx.close(thr[:, :-1], agg[:, None] * al, 'throttles of the allocated engine types', 1e-12, 1e-12, key='alloc')
    ctx.close(thr.sum(axis=1), agg, 'allocated throttles must add up to the aggregate throttle', 1e-12, 1e-12, key='alloc_sum')
    s = al.sum(axis=1)
    ctx.close(np.array(p.get_val('throttle_allocation_sum')).ravel(), s if dyn else s[:1], 'allocation sum', 1e-12, 1e-12, key='sum')
    ctx.label('mode', case['mode'].name)
    ctx.nontrivial(k > 2 and nn > 1)


PARTS = [
    Part('mission', mission_st, mission, quick=160, thorough=3000),
    Part('premission', pre_st, premission, quick=160, thorough=3000),
    Part('allocation', alloc_st, allocation, quick=200, thorough=3000),
]
