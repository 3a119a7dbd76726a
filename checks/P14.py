import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from aviary.subsystems.mass.flops_based import engine as fe
from aviary.subsystems.mass.flops_based import landing_gear as fl
from aviary.subsystems.mass.flops_based import mass_summation as fs
from aviary.subsystems.mass.flops_based import misc_engine as fm
from aviary.subsystems.mass.flops_based import payload as fp
from aviary.subsystems.mass.flops_based import thrust_reverser as ft
from aviary.subsystems.mass.gasp_based import control as gc
from aviary.subsystems.mass.gasp_based import engine as ge
from aviary.subsystems.mass.gasp_based import fixed as gf
from aviary.subsystems.mass.gasp_based import landing as gl
from aviary.subsystems.mass.gasp_based import mass_summation as gs
from aviary.subsystems.mass.gasp_based import wing as gw
from aviary.variable_info.enums import LegacyCode
from aviary.variable_info.functions import setup_model_options
from lib import vehicle as V
from lib.mission import om, quiet
from lib.pbt import Discard, Part, short
from lib.units_ref import FAMILY_UNITS, convert

PROPERTY = 'P14'
RULE = (
    'Mass summation groups of both mass methods at generated part masses, engine mixes and options, and pre-mission models of 17 shipped vehicles with generated '
    'changes of mass inputs, given part masses and external subsystems with masses. Non-trivial: at least twelve totals of non-zero parts are judged.'
)
ASSUMPTIONS = [
    'Masses are read by their public variable names. Sums are judged to 1e-9 of the largest part.',
]

A = av.Aircraft
M = av.Mission
META = av.CoreMetaData
MARK = 'AIRCRAFT_DATA_OVERRIDE:'


def flops_relations(alt):
    C = A.CrewPayload
    D = A.Design
    P = A.Propulsion
    systems = [A.AirConditioning.MASS, A.AntiIcing.MASS, A.APU.MASS, A.Avionics.MASS, A.Electrical.MASS, A.Hydraulics.MASS, A.Instruments.MASS, A.Wing.SURFACE_CONTROL_MASS]
    rel = {
        D.EMPENNAGE_MASS: lambda g: [g(A.Canard.MASS), g(A.Fins.MASS), g(A.HorizontalTail.MASS), g(A.VerticalTail.MASS)],
        D.STRUCTURE_MASS: lambda g: [
            g(A.Wing.MASS), g(D.EMPENNAGE_MASS), g(A.Fuselage.MASS), g(A.LandingGear.TOTAL_MASS), g.n(A.Nacelle.MASS), g(A.Paint.MASS),
        ],
        P.MASS: lambda g: [
            g(P.TOTAL_THRUST_REVERSERS_MASS), g(P.TOTAL_MISC_MASS), g(A.Fuel.FUEL_SYSTEM_MASS), g(P.TOTAL_ENGINE_MASS), g(A.Battery.MASS),
        ],
        A.Controls.MASS: lambda g: [g(A.Wing.SURFACE_CONTROL_MASS)],
        D.EMPTY_MASS_MARGIN: lambda g: [
            g(D.EMPTY_MASS_MARGIN_SCALER, 'unitless') * (g(P.MASS) + g(D.STRUCTURE_MASS) + g(D.SYSTEMS_AND_EQUIPMENT_MASS))
        ],
        D.EMPTY_MASS: lambda g: [
            g(D.STRUCTURE_MASS), g(P.MASS), g(D.SYSTEMS_AND_EQUIPMENT_MASS), g(D.EMPTY_MASS_MARGIN), g(D.EXTERNAL_SUBSYSTEMS_MASS),
        ],
        M.OPERATING_ITEMS_MASS: lambda g: [
            g(C.CABIN_CREW_MASS), g(C.FLIGHT_CREW_MASS), g(A.Fuel.UNUSABLE_FUEL_MASS), g(P.TOTAL_ENGINE_OIL_MASS), g(C.PASSENGER_SERVICE_MASS),
            g(C.CARGO_CONTAINER_MASS), g(M.OPERATING_ITEMS_MASS_ADDITIONAL),
        ],
        C.TOTAL_PAYLOAD_MASS: lambda g: [g(C.PASSENGER_PAYLOAD_MASS), g(C.CARGO_MASS)],
        C.CARGO_MASS: lambda g: [g(C.WING_CARGO), g(C.MISC_CARGO)],
        C.PASSENGER_MASS_TOTAL: lambda g: [g.pax * g(C.MASS_PER_PASSENGER)],
        C.BAGGAGE_MASS: lambda g: [g.pax * g(C.BAGGAGE_MASS_PER_PASSENGER)],
        C.PASSENGER_PAYLOAD_MASS: lambda g: [g(C.PASSENGER_MASS_TOTAL), g(C.BAGGAGE_MASS)],
        A.LandingGear.TOTAL_MASS: lambda g: [g(A.LandingGear.MAIN_GEAR_MASS), g(A.LandingGear.NOSE_GEAR_MASS)],
        P.TOTAL_MISC_MASS: lambda g: [
            g(P.MISC_MASS_SCALER, 'unitless') * (g(P.TOTAL_STARTER_MASS) + g.n(A.Engine.ADDITIONAL_MASS) + g(P.TOTAL_ENGINE_CONTROLS_MASS))
        ],
        P.TOTAL_ENGINE_MASS: lambda g: [g.n(A.Engine.MASS)],
        P.TOTAL_THRUST_REVERSERS_MASS: lambda g: [np.sum(g(A.Engine.THRUST_REVERSERS_MASS))],
        A.Wing.MASS: lambda g: [
            g(A.Wing.MASS_SCALER, 'unitless') * (g(A.Wing.BENDING_MATERIAL_MASS) + g(A.Wing.SHEAR_CONTROL_MASS) + g(A.Wing.MISC_MASS) + g(A.Wing.BWB_AFTBODY_MASS))
        ],
    }
    if alt:
        rel[D.SYSTEMS_AND_EQUIPMENT_MASS_BASE] = lambda g: [g(n) for n in systems] + [g(A.Furnishings.MASS_BASE)]
        rel[D.SYSTEMS_AND_EQUIPMENT_MASS] = lambda g: [
            g(D.SYSTEMS_AND_EQUIPMENT_MASS_BASE), 0.01 * (g(D.STRUCTURE_MASS) + g(P.MASS) + g(D.SYSTEMS_AND_EQUIPMENT_MASS_BASE))
        ]
        # the alternate method takes its empty mass from the base, with the same one per cent of everything
        rel[D.EMPTY_MASS] = lambda g: [
            1.01 * (g(D.STRUCTURE_MASS) + g(P.MASS) + g(D.SYSTEMS_AND_EQUIPMENT_MASS_BASE)), g(D.EMPTY_MASS_MARGIN), g(D.EXTERNAL_SUBSYSTEMS_MASS),
        ]
    else:
        rel[D.SYSTEMS_AND_EQUIPMENT_MASS] = lambda g: [g(n) for n in systems] + [g(A.Furnishings.MASS)]
    rel.update(common())
    return rel


def gasp_relations():
    C = A.CrewPayload
    D = A.Design
    P = A.Propulsion
    rel = {
        D.EMPENNAGE_MASS: lambda g: [g(A.HorizontalTail.MASS), g(A.VerticalTail.MASS)],
        D.STRUCTURE_MASS: lambda g: [
            g(A.Wing.MASS), g(D.EMPENNAGE_MASS), g(A.Fuselage.MASS), g(A.LandingGear.TOTAL_MASS), g(P.TOTAL_ENGINE_POD_MASS), g(D.STRUCTURAL_MASS_INCREMENT),
        ],
        P.MASS: lambda g: [g(A.Fuel.FUEL_SYSTEM_MASS), g('eng_comb_mass'), g('prop_mass_sum'), g(A.Battery.MASS)],
        'prop_mass_sum': lambda g: [g.n(A.Engine.Propeller.MASS)],
        D.SYSTEMS_AND_EQUIPMENT_MASS: lambda g: [
            g(n)
            for n in (
                A.AirConditioning.MASS, A.AntiIcing.MASS, A.APU.MASS, A.Avionics.MASS, A.Electrical.MASS, A.Furnishings.MASS, A.Hydraulics.MASS, A.Instruments.MASS,
                A.Controls.MASS, A.OxygenSystem.MASS,
            )
        ],
        D.EMPTY_MASS: lambda g: [g(D.STRUCTURE_MASS), g(P.MASS), g(D.SYSTEMS_AND_EQUIPMENT_MASS), g(D.EXTERNAL_SUBSYSTEMS_MASS)],
        M.OPERATING_ITEMS_MASS: lambda g: [
            g(C.CABIN_CREW_MASS), g(C.FLIGHT_CREW_MASS), g(A.Fuel.UNUSABLE_FUEL_MASS), g(P.TOTAL_ENGINE_OIL_MASS), g(C.PASSENGER_SERVICE_MASS),
            g(C.CARGO_CONTAINER_MASS), g(D.EMERGENCY_EQUIPMENT_MASS), g(M.OPERATING_ITEMS_MASS_ADDITIONAL),
        ],
        C.PASSENGER_PAYLOAD_MASS: lambda g: [g.pax * g(C.MASS_PER_PASSENGER_WITH_BAGS)],
        C.TOTAL_PAYLOAD_MASS: lambda g: [g.pax * g(C.MASS_PER_PASSENGER_WITH_BAGS), g(C.CARGO_MASS)],
        A.LandingGear.MAIN_GEAR_MASS: lambda g: [g(A.LandingGear.TOTAL_MASS), -g(A.LandingGear.NOSE_GEAR_MASS, computed=True)],
        A.Engine.POD_MASS: lambda g: [g(A.Nacelle.MASS), g('pylon_mass')],
        P.TOTAL_ENGINE_POD_MASS: lambda g: [np.sum(g.count * g(A.Engine.POD_MASS_SCALER, 'unitless') * (g(A.Nacelle.MASS) + g('pylon_mass')))],
        P.TOTAL_ENGINE_MASS: lambda g: [np.sum(g.count * g(A.Engine.MASS_SPECIFIC, 'lbm/lbf') * g(A.Engine.SCALED_SLS_THRUST, 'lbf'))],
        'eng_comb_mass': lambda g: [
            np.sum(g.count * g(A.Engine.MASS_SCALER, 'unitless') * g(A.Engine.MASS_SPECIFIC, 'lbm/lbf') * g(A.Engine.SCALED_SLS_THRUST, 'lbf')),
            g.n(A.Engine.ADDITIONAL_MASS),
            g('aug_mass') if g.has('aug_mass') else 0.0,
        ],
        A.Controls.MASS: lambda g: [
            g(A.Controls.COCKPIT_CONTROL_MASS), g(A.Wing.SURFACE_CONTROL_MASS), g(A.Controls.STABILITY_AUGMENTATION_SYSTEM_MASS), g(A.Controls.CONTROL_MASS_INCREMENT),
        ],
        A.Wing.MASS: lambda g: [
            g(A.Wing.MASS_SCALER, 'unitless') * (g('isolated_wing_mass') + g(A.Strut.MASS) + g(A.Wing.FOLD_MASS)) if g.has('isolated_wing_mass') else None
        ],
    }
    rel.update(common())
    return rel


def common():
    return {
        M.OPERATING_MASS: lambda g: [g(A.Design.EMPTY_MASS), g(M.OPERATING_ITEMS_MASS)],
        M.ZERO_FUEL_MASS: lambda g: [g(M.OPERATING_MASS), g(A.CrewPayload.TOTAL_PAYLOAD_MASS)],
        A.Design.USEFUL_LOAD_MASS: lambda g: [g(A.Design.GROSS_MASS), -g(A.Design.EMPTY_MASS)],
        M.TOTAL_FUEL_MASS: lambda g: [g(M.GROSS_MASS), -g(M.ZERO_FUEL_MASS)],
    }


class Get:
    def __init__(self, p, inputs):
        self.values = {}
        self.made, self.used, self.computed = set(), set(), False
        for stream in (p.model.list_inputs, p.model.list_outputs):
            for n, m in stream(out_stream=None, prom_name=True, units=True, val=True):
                if not n.startswith('_auto_ivc'):
                    name = V.plain(m['prom_name']) if ':' in m['prom_name'] else m['prom_name'].rpartition('.')[2]
                    self.values[name] = (np.array(m['val'], dtype=float), m['units'])
                    if stream == p.model.list_outputs:
                        self.made.add(name)
        self.inputs = inputs
        self.count = np.atleast_1d(np.asarray(inputs.get_val(A.Engine.NUM_ENGINES), dtype=float))
        self.pax = inputs.get_val(A.CrewPayload.NUM_PASSENGERS)

    def has(self, name):
        return name in self.values

    def __call__(self, name, units='lbm', computed=False):
        self.used.add(name)
        if (computed or self.computed) and MARK + name in self.values:
            name = MARK + name
        if name in self.values:
            v, u = self.values[name]
        elif name in self.inputs:
            v, u = self.inputs.get_item(name)
            v = np.asarray(v, dtype=float)
        else:
            v, u = np.asarray(META[name]['default_value'] or 0.0, dtype=float), META[name]['units']
        if units not in (u, 'unitless') and u is not None:
            v = om.convert_units(v, u, units)
        return float(v.ravel()[0]) if v.size == 1 else v.ravel()

    def n(self, name, computed=False):
        return float(np.sum(self.count * np.ones(len(self.count)) * self(name, computed=computed)))


def judge(g, relations, ctx, what):
    done = 0
    for name, parts_of in relations.items():
        left = MARK + name if g.has(MARK + name) else name
        if left not in g.made:
            continue
        g.used = set()
        terms = parts_of(g)
        user = any(MARK + n in g.made for n in g.used)
        if terms[0] is None:
            continue
        got = g(left)
        want = sum(np.asarray(t, dtype=float) for t in terms)
        scale = max(np.max(np.abs(np.asarray(t, dtype=float)), initial=0.0) for t in terms)
        if not np.all(np.isfinite(want)):
            continue
        done += bool(np.any(np.asarray(got) != 0))
        ok = np.all(np.abs(np.asarray(got) - want) <= 1e-9 * max(scale, 1.0))
        key = f'total|{name}'
        if not ok and user:
            # the listed findings: the total is made from the value the part would have had
            g.computed = True
            want_auto = sum(np.asarray(t, dtype=float) for t in parts_of(g))
            g.computed = False
            if np.all(np.abs(np.asarray(got) - want_auto) <= 1e-9 * max(scale, 1.0)):
                key += '|given parts ignored'
        ctx.require(
            ok,
            lambda: f'{what}: {name} = {short(got)} lbm, the parts {[short(t) for t in terms]} add up to {short(want)}',
            key=key,
        )
    ctx.nontrivial(done >= 12)
    return done


# ---------------------------------------------------------------------------------------- groups
groups_st = st.fixed_dictionaries(
    {
        'method': st.sampled_from(['FLOPS', 'FLOPS', 'GASP']),
        'alt': st.booleans(),
        'engines': st.lists(st.sampled_from([1, 2, 3, 4, 2]), min_size=1, max_size=3),
        'scale_mass': st.booleans(),
        'pax': st.sampled_from([0, 1, 7, 163, 400]),
        'salt': st.sampled_from(range(100000)),
        'zeros': st.sampled_from([0.0, 0.2]),
        'vec': st.lists(st.sampled_from([0.1, 0.02, 0.3]), min_size=3, max_size=3),
    }
)


def check_groups(case, ctx):
    rng = np.random.default_rng(case['salt'])
    inputs = av.AviaryValues()
    k = len(case['engines'])
    count = np.array(case['engines'])
    inputs.set_val(A.Engine.NUM_ENGINES, count)
    inputs.set_val(A.Propulsion.TOTAL_NUM_ENGINES, int(sum(count)))
    inputs.set_val(A.Engine.NUM_WING_ENGINES, count // 2 * 2)
    inputs.set_val(A.Engine.NUM_FUSELAGE_ENGINES, count % 2)
    inputs.set_val(A.Propulsion.TOTAL_NUM_WING_ENGINES, int(sum(count // 2 * 2)))
    inputs.set_val(A.Propulsion.TOTAL_NUM_FUSELAGE_ENGINES, int(sum(count % 2)))
    inputs.set_val(A.CrewPayload.NUM_PASSENGERS, case['pax'])
    inputs.set_val(A.CrewPayload.Design.NUM_PASSENGERS, case['pax'] + 3)
    inputs.set_val(A.Design.USE_ALT_MASS, case['alt'] and case['method'] == 'FLOPS')
    inputs.set_val(A.Engine.SCALE_MASS, np.array([case['scale_mass']] * k))
    inputs.set_val(A.Engine.ADDITIONAL_MASS_FRACTION, np.array(case['vec'][:k]))
    inputs.set_val('settings:verbosity', 0)
    p = om.Problem(reports=False)
    m = p.model
    flops = case['method'] == 'FLOPS'
    if flops:
        parts = [
            fe.EngineMass(), ft.ThrustReverserMass(), fm.EngineMiscMass(), fl.LandingGearTotalMass(), fp.PayloadGroup(),
            fs.MassSummation(),
        ]
        relations = flops_relations(case['alt'])
    else:
        parts = [ge.EngineMassGroup(), gc.SumControlMass(), gf.PayloadGroup(), gl.LandingGearMass(), gw.WingMassTotal(), gs.MassSummation()]
        relations = gasp_relations()
    for i, c in enumerate(parts):
        m.add_subsystem(f'c{i}', c, promotes=['*'])
    setup_model_options(p, inputs)
    with quiet():
        p.setup()
        for n, d in sorted({d['prom_name']: d for _, d in m.list_inputs(out_stream=None, prom_name=True, units=True)}.items()):
            v = rng.uniform(0.2, 2.0, np.shape(d['val'])) * (1.0 if (d['units'] in (None, 'unitless', 'lbm/lbf')) else 1000.0)
            if d['units'] in ('lbm', 'kg') and rng.random() < case['zeros']:
                v = v * 0
            if 'fraction' in n or 'location' in n:
                v = v * 0.3
            try:
                p.set_val(n, v, d['units'])
            except KeyError:
                continue
        p.run_model()
    g = Get(p, inputs)
    ctx.label(case['method'], 'alt' if case['alt'] and flops else 'standard', f'{k}_engine_types')
    judge(g, relations, ctx, f'{case}')


# ---------------------------------------------------------------------------------------- vehicles
DECKS = sorted(V.DECKS)
vehicle_st = st.fixed_dictionaries(
    {
        'deck': st.sampled_from(range(len(DECKS))),
        'dials': st.lists(st.tuples(st.sampled_from(range(997)), st.sampled_from([0.6, 0.9, 1.15, 1.5])), max_size=8),
        'parts': st.lists(st.tuples(st.sampled_from(range(997)), st.sampled_from([0.0, 0.5, 1.3, 2.0]), st.sampled_from(range(10))), max_size=3),
        'externals': st.lists(st.lists(st.tuples(st.sampled_from([0.0, 12.5, 400.0, 3100.0]), st.sampled_from(range(10))), min_size=1, max_size=3), max_size=2),
        'alt': st.booleans(),
    }
)

MASS_UNITS = FAMILY_UNITS['mass']


class Masses(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('values', types=dict)

    def setup(self):
        for n, (v, u) in self.options['values'].items():
            self.add_output(n, val=v, units=u)


class Builder(av.SubsystemBuilder):
    def __init__(self, name, values):
        self.values = values
        super().__init__(name)

    def build_pre_mission(self, aviary_inputs, **kwargs):
        return Masses(values=self.values)

    def get_mass_names(self, aviary_inputs=None, **kwargs):
        return list(self.values)


_dials = {}


def dials_of(deck):
    if deck not in _dials:
        given, out, down, core = V.base(deck)
        p = V.premission(deck)
        parts, dials = set(), set()

        class Spy(Get):
            def __call__(self, name, units='lbm', computed=False):
                parts.add(name)
                return super().__call__(name, units, computed)

        spy = Spy(p, p.aviary_inputs)
        for name, f in relations_of(deck, p.aviary_inputs).items():
            if name in spy.made:
                f(spy)
        for path, (n, v, u) in V.inputs(p).items():
            if n in META and n not in out and META[n]['types'] in (None, float) and not META[n]['option'] and ('mass' in n or 'cargo' in n):
                if 'capacity' not in n and 'reference' not in n and 'fraction' not in n:
                    dials.add(n)
        leaves = sorted(n for n in parts if n in out and n in core and n in META and n not in given)
        _dials[deck] = (sorted(dials), leaves, {n: (v, u) for n, v, u in V.inputs(p).values()})
    return _dials[deck]


def relations_of(deck, inputs):
    if inputs.get_val(av.Settings.MASS_METHOD) is LegacyCode.GASP:
        return gasp_relations()
    return flops_relations(bool(inputs.get_val(A.Design.USE_ALT_MASS)) if A.Design.USE_ALT_MASS in inputs else False)


def check_vehicle(case, ctx):
    deck = DECKS[case['deck']]
    dials, leaves, now = dials_of(deck)
    _, out, _, _ = V.base(deck)
    edits = {}
    for k, f in case['dials']:
        n = dials[k % len(dials)]
        v, u = now[n]
        if np.all(v == 0.0):
            if u == 'lbm':
                edits[n] = (np.full(v.shape, 700.0 * f), u)
        else:
            edits[n] = (v * f, u)
    given = {}
    for k, f, j in case['parts']:
        n = leaves[k % len(leaves)]
        v, u = out[n]
        w = MASS_UNITS[j % len(MASS_UNITS)]
        given[n] = (np.vectorize(lambda x: convert(float(x), u, w))(v * f), w)

    def change(inputs):
        if case['alt'] and inputs.get_val(av.Settings.MASS_METHOD) is LegacyCode.FLOPS:
            inputs.set_val(A.Design.USE_ALT_MASS, True)
        for n, (v, u) in list(edits.items()) + list(given.items()):
            inputs.set_val(n, v if v.size > 1 or META[n]['multivalue'] else float(v.ravel()[0]), u)

    builders, total = [], 0.0
    for i, b in enumerate(case['externals']):
        values = {}
        for j, (v, k) in enumerate(b):
            u = MASS_UNITS[k % len(MASS_UNITS)]
            values[f'aircraft:extra_{i}:part_{j}_mass'] = (convert(v, 'kg', u), u)
            total += v
        builders.append(Builder(f'extra{i}', values))
    what = f'{deck}' + (' alternate masses' if case['alt'] else '') + ''.join(f', {n} = {short(v, 40)} {u}' for n, (v, u) in {**edits, **given}.items())
    try:
        p = V.premission(deck, change, externals=builders)
    except UserWarning:
        raise Discard  # the preprocessor refuses more cargo than the design allows
    except ValueError as e:
        if 'wing fold' not in str(e):
            raise
        raise Discard  # the wing of a much lighter vehicle is shorter than its given fold
    g = Get(p, p.aviary_inputs)
    if not np.isfinite(g(A.Design.EMPTY_MASS)):
        raise Discard
    if builders:
        ctx.close(g(A.Design.EXTERNAL_SUBSYSTEMS_MASS, 'kg'), total, f'{what}: masses of external subsystems {case["externals"]}', rtol=1e-7, atol=1e-9, key='external')
    ctx.label(deck, f'{len(builders)}_externals', f'{len(given)}_given')
    judge(g, relations_of(deck, p.aviary_inputs), ctx, what)


PARTS = [
    Part('groups', groups_st, check_groups, quick=1200, thorough=40000, shards=8),
    Part('vehicle', vehicle_st, check_vehicle, quick=240, thorough=8000, shards=8, case_limit=60, shrink_budget=30),
]
