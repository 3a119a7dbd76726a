import gzip
import json
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from aviary.utils.aviary_values import AviaryValues
from aviary.utils.preprocessors import preprocess_options
from aviary.variable_info.enums import AircraftTypes, AtmosphereModel, LegacyCode, ProblemType
from aviary.variable_info.variables import Aircraft, Mission, Settings
from lib.mission import quiet
from lib.pbt import Discard, Part

PROPERTY = 'P05'
RULE = (
    'Generated subsets of passenger, crew, cargo, baggage, fuel-capacity, layout and environment inputs in mixed '
    'units, for both mass methods. Oracle: an independent model of the documented completion rules. Non-trivial: '
    'some but not all of the passenger or cargo inputs are given.'
)
ASSUMPTIONS = ['The completion rules are those of the documentation and of the code comments (written down in the model).']

TAB = json.load(gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'atmosphere_tables.json.gz'), 'rt'))
C = Aircraft.CrewPayload
D = Aircraft.CrewPayload.Design
F = Aircraft.Fuel
LB = {'lbm': 1.0, 'kg': 0.45359237, 't': 0.00045359237}
NMI = {'nmi': 1.0, 'km': 1.852, 'mi': 1.852 / 1.609344}

pax = st.one_of(st.none(), st.just(0), st.integers(0, 12), st.integers(0, 520), st.sampled_from([50, 51, 40, 150, 151, 250, 249, 500]))
half = st.one_of(st.none(), st.none(), st.integers(0, 3), st.integers(-1, 20))
mass = st.one_of(st.none(), st.none(), st.sampled_from([0.0, 1000.0, 2000.0, 5000.0]), st.floats(0, 60000).map(lambda v: round(v, 2)))
unit = st.sampled_from(['lbm', 'lbm', 'kg'])
case_st = st.fixed_dictionaries(
    {
        'method': st.sampled_from(['FLOPS', 'FLOPS', 'GASP']),
        'm': st.lists(pax, min_size=4, max_size=4),
        'd': st.lists(pax, min_size=4, max_size=4),
        'crew': st.lists(half, min_size=4, max_size=4),
        'cargo': st.lists(mass, min_size=3, max_size=3),
        'cargo_units': st.lists(unit, min_size=3, max_size=3),
        'paxmass': st.lists(st.one_of(st.none(), st.floats(50, 300).map(lambda v: round(v, 1))), min_size=3, max_size=3),
        'range': st.one_of(st.none(), st.sampled_from([899.0, 900.0, 901.0, 2899.5, 2900.0, 2901.0]), st.floats(200, 9000).map(lambda v: round(v, 1))),
        'range_units': st.sampled_from(['nmi', 'nmi', 'km']),
        'ptype': st.sampled_from([None, 'SIZING', 'OFF_DESIGN_MIN_FUEL', 'OFF_DESIGN_MAX_RANGE', 'MULTI_MISSION']),
        'fuel': st.lists(mass, min_size=4, max_size=4),
        'fuel_units': st.lists(unit, min_size=4, max_size=4),
        'fuel_exact': st.booleans(),
        'atm': st.sampled_from([None, None] + [m.name for m in AtmosphereModel]),
        'grav': st.one_of(st.none(), st.none(), st.floats(1, 12).map(lambda v: round(v, 3))),
        'rho': st.one_of(st.none(), st.none(), st.floats(0.01, 60).map(lambda v: round(v, 3))),
        'atype': st.sampled_from([None, 'TRANSPORT', 'TRANSPORT', 'BLENDED_WING_BODY']),
        'layout': st.sampled_from([None, None, True, False]),
        'seats': st.lists(st.one_of(st.none(), st.floats(15, 40).map(lambda v: round(v, 1))), min_size=3, max_size=3),
        'nfuse': st.sampled_from([None, 0, 1, 2, 3]),
        'nfuse_array': st.booleans(),
        'ttail': st.sampled_from([None, None, 0.0, 0.5, 1.0]),
        'ar': st.lists(st.sampled_from([None, 0.0, 9.5, 12.0]), min_size=2, max_size=2),
        'tc': st.lists(st.sampled_from([None, 0.0, 0.11, 0.13]), min_size=2, max_size=2),
        'exc': st.sampled_from([None, None, 0.02]),
        'aero': st.sampled_from([None, 'FLOPS', 'GASP']),
        'verb': st.sampled_from([0, 1, 2, 3]),
        'again': st.booleans(),
    }
)

MP = [C.NUM_PASSENGERS, C.NUM_FIRST_CLASS, C.NUM_BUSINESS_CLASS, C.NUM_ECONOMY_CLASS]
DP = [D.NUM_PASSENGERS, D.NUM_FIRST_CLASS, D.NUM_BUSINESS_CLASS, D.NUM_ECONOMY_CLASS]
CREW = [C.NUM_FLIGHT_ATTENDANTS, C.NUM_GALLEY_CREW, C.NUM_FLIGHT_CREW, C.NUM_CABIN_CREW]
CARGO = [C.CARGO_MASS, D.MAX_CARGO_MASS, D.CARGO_MASS]
FUEL = [F.MAX_CAPACITY_MASS, F.WING_FUEL_MASS_CAPACITY, F.FUSELAGE_FUEL_MASS_CAPACITY, F.AUXILIARY_FUEL_MASS_CAPACITY]
SEATS = [Aircraft.Fuselage.SEAT_WIDTH_ECONOMY, Aircraft.Fuselage.SEAT_WIDTH_BUSINESS, Aircraft.Fuselage.SEAT_WIDTH_FIRST]


def given(case):
    """name -> (value, units): what the user supplies."""
    g = {Settings.MASS_METHOD: (LegacyCode[case['method']], 'unitless')}
    flops = case['method'] == 'FLOPS'
    for keys, vals in ((MP, case['m']), (DP, case['d'])):
        for i, (k, v) in enumerate(zip(keys, vals)):
            if v is not None and (flops or i == 0):
                g[k] = (v, 'unitless')
    for i, (k, v) in enumerate(zip(CREW, case['crew'])):
        if v is not None:
            g[k] = (v if i < 2 else abs(v), 'unitless')
    if not flops:
        for k, v, u in zip(CARGO, case['cargo'], case['cargo_units']):
            if v is not None:
                g[k] = (v * LB[u], u)
    for k, v in zip([C.MASS_PER_PASSENGER_WITH_BAGS, C.MASS_PER_PASSENGER, C.BAGGAGE_MASS_PER_PASSENGER], case['paxmass']):
        if v is not None:
            g[k] = (v, 'lbm')
    if not flops and C.MASS_PER_PASSENGER_WITH_BAGS not in g:
        g.setdefault(C.MASS_PER_PASSENGER, (165.0, 'lbm'))
        g.setdefault(C.BAGGAGE_MASS_PER_PASSENGER, (44.0, 'lbm'))
    if case['range'] is not None:
        u = case['range_units']
        g[Aircraft.Design.RANGE] = (case['range'] * NMI[u], u)
    if case['ptype']:
        g[Settings.PROBLEM_TYPE] = (ProblemType[case['ptype']], 'unitless')
    fuel = list(case['fuel'])
    if case['fuel_exact'] and None not in fuel:
        fuel[0] = fuel[1] + fuel[2] + fuel[3]
    for k, v, u in zip(FUEL, fuel, case['fuel_units']):
        if v is not None:
            u = 'lbm' if case['fuel_exact'] else u
            g[k] = (v * LB[u], u)
    if case['atm']:
        g[Settings.ATMOSPHERE_MODEL] = (AtmosphereModel[case['atm']], 'unitless')
    if case['grav'] is not None:
        g[Mission.GRAVITY] = (case['grav'], 'm/s**2')
    if case['rho'] is not None:
        g[Mission.SEA_LEVEL_DENSITY] = (case['rho'], 'kg/m**3')
    if case['atype']:
        g[Aircraft.Design.TYPE] = (AircraftTypes[case['atype']], 'unitless')
    if case['layout'] is not None:
        g[Aircraft.Fuselage.SIMPLE_LAYOUT] = (case['layout'], 'unitless')
    for k, v in zip(SEATS, case['seats']):
        if v is not None:
            g[k] = (v, 'inch')
    if case['nfuse'] is not None:
        n = case['nfuse']
        g[Aircraft.Engine.NUM_FUSELAGE_ENGINES] = (np.array([n]) if case['nfuse_array'] else n, 'unitless')
    if case['ttail'] is not None:
        g[Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (case['ttail'], 'unitless')
    for keys, vals in (
        ((Aircraft.Wing.ASPECT_RATIO_REFERENCE, Aircraft.Wing.ASPECT_RATIO), case['ar']),
        ((Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE, Aircraft.Wing.THICKNESS_TO_CHORD), case['tc']),
    ):
        for k, v in zip(keys, vals):
            if v is not None:
                g[k] = (v, 'unitless')
    if case['exc'] is not None:
        g[Aircraft.Design.PERCENT_EXCRESCENCE_DRAG] = (case['exc'], 'unitless')
    if case['aero']:
        g[Settings.AERODYNAMICS_METHOD] = (LegacyCode[case['aero']], 'unitless')
    return g


def lb(g, k):
    if k not in g:
        return None
    v, u = g[k]
    return v / LB[u]


class Refused(Exception):
    pass


def near(g, a, b):
    # equal up to the round-off of a unit conversion: either verdict is right
    exact = all(g[k][1] == 'lbm' for k in CARGO + FUEL if k in g)
    if not (exact and a == b) and 0 < max(abs(a), abs(b)) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
        raise Discard()


def model(g):
    """Independent statement of the completion rules: name -> (value, units) that must be there after."""
    out = {k: v for k, v in g.items()}
    flops = g[Settings.MASS_METHOD][0] is LegacyCode.FLOPS

    def put(k, v, u='unitless'):
        out[k] = (v, u)

    n = 4 if flops else 1
    have_m = any(k in g for k in MP[:n])
    have_d = any(k in g for k in DP[:n])
    m = [g.get(k, (0,))[0] for k in MP[:n]]
    d = [g.get(k, (0,))[0] for k in DP[:n]]
    if have_m and not have_d:
        d = list(m)
    elif have_d and not have_m:
        m = list(d)
    for x in (m, d):
        if n == 4:
            s = sum(x[1:])
            if s == 0:
                x[3] = x[0]
            else:
                x[0] = s
    # GASP has no seat classes: the total is the only number
    for keys, x in ((MP, m), (DP, d)):
        for k, v in zip(keys, x):
            put(k, v)
    if not flops:
        fl, mx, de = (lb(g, k) for k in CARGO)
        sizing = g.get(Settings.PROBLEM_TYPE, (ProblemType.SIZING,))[0] is ProblemType.SIZING
        have = (fl is not None, mx is not None, de is not None)
        if have == (True, True, True):
            fl = de if sizing else fl
        elif have == (True, True, False):
            de = mx
        elif have == (True, False, True):
            mx = de
        elif have == (True, False, False):
            mx = de = fl
        elif have == (False, True, True):
            fl = 0.0
        elif have == (False, True, False):
            fl = de = 0.0
        elif have == (False, False, True):
            mx, fl = de, 0.0
        else:
            fl = mx = de = 0.0
        near(g, fl, mx)
        near(g, de, mx)
        if fl > mx or de > mx:
            raise Refused('cargo')
        put(CARGO[0], fl, 'lbm')
        put(CARGO[1], mx, 'lbm')
        put(CARGO[2], de, 'lbm')
        if C.MASS_PER_PASSENGER_WITH_BAGS not in g:
            put(C.MASS_PER_PASSENGER_WITH_BAGS, g[C.MASS_PER_PASSENGER][0] + g[C.BAGGAGE_MASS_PER_PASSENGER][0], 'lbm')
    else:
        dp = d[0]
        fa = g.get(CREW[0], (-1,))[0]
        if fa < 0:
            fa = 0 if dp <= 0 else 1 if dp <= 50 else dp // 40 + 1
        ga = g.get(CREW[1], (-1,))[0]
        if ga < 0:
            ga = 0 if dp <= 150 else dp // 250 + 1
        put(CREW[0], fa)
        put(CREW[1], ga)
        if CREW[2] not in g:
            put(CREW[2], 2 if dp <= 150 else 3)
        if CREW[3] in g:
            put(CREW[3], fa + ga)
        if C.BAGGAGE_MASS_PER_PASSENGER not in g:
            r = g.get(Aircraft.Design.RANGE)
            r = 0 if r is None else r[0] / NMI[r[1]]
            put(C.BAGGAGE_MASS_PER_PASSENGER, 35.0 if r <= 900.0 else 40.0 if r <= 2900.0 else 44.0, 'lbm')
        nf = g.get(Aircraft.Engine.NUM_FUSELAGE_ENGINES, (0,))[0]
        nf = int(np.atleast_1d(nf)[0])
        k = Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION
        if k not in g:
            transport = g.get(Aircraft.Design.TYPE, (AircraftTypes.TRANSPORT,))[0] is AircraftTypes.TRANSPORT
            put(k, 1 if nf > 1 and transport else 0)
        tot, wing, fus, aux = (lb(g, q) for q in FUEL)
        if tot is None:
            put(FUEL[2], fus or 0.0, 'lbm')
            put(FUEL[3], aux or 0.0, 'lbm')
        else:
            parts = [v for v in (wing, fus, aux) if v is not None]
            near(g, sum(parts), tot)
            if len(parts) == 3 and sum(parts) != tot:
                raise Refused('fuel')
            if len(parts) < 3 and sum(parts) > tot:
                raise Refused('fuel')
    for ref, val in (
        (Aircraft.Wing.ASPECT_RATIO_REFERENCE, Aircraft.Wing.ASPECT_RATIO),
        (Aircraft.Wing.THICKNESS_TO_CHORD_REFERENCE, Aircraft.Wing.THICKNESS_TO_CHORD),
    ):
        if ref in g and val in g and g[ref][0] == 0:
            put(ref, g[val][0])
    if Aircraft.Design.PERCENT_EXCRESCENCE_DRAG not in g:
        if g.get(Settings.AERODYNAMICS_METHOD, (None,))[0] is LegacyCode.FLOPS:
            put(Aircraft.Design.PERCENT_EXCRESCENCE_DRAG, 0.06)
    t = g.get(Aircraft.Design.TYPE, (AircraftTypes.TRANSPORT,))[0]
    bwb = t is AircraftTypes.BLENDED_WING_BODY
    if Aircraft.Fuselage.SIMPLE_LAYOUT not in g:
        put(Aircraft.Fuselage.SIMPLE_LAYOUT, True if flops else not bwb)
    simple = out[Aircraft.Fuselage.SIMPLE_LAYOUT][0]
    if not simple and (bwb if not flops else t is AircraftTypes.TRANSPORT):
        for k, v in zip(SEATS, (20.0, 22.0, 25.0 if flops else 28.0)):
            if k not in g:
                put(k, v, 'inch')
    if Settings.ATMOSPHERE_MODEL not in g:
        put(Settings.ATMOSPHERE_MODEL, AtmosphereModel.STANDARD)
    am = out[Settings.ATMOSPHERE_MODEL][0]
    planet = 'Mars' if 'MARS' in am.name else 'Venus' if 'VENUS' in am.name else 'Earth'
    if Mission.GRAVITY not in g:
        put(Mission.GRAVITY, {'Earth': 9.80665, 'Mars': 3.712, 'Venus': 8.87}[planet], 'm/s**2')
    if Mission.SEA_LEVEL_DENSITY not in g:
        put(Mission.SEA_LEVEL_DENSITY, None)
    return out


OPTIONAL = {Settings.VERBOSITY, D.NUM_ECONOMY_CLASS, C.NUM_ECONOMY_CLASS}


def build(g, order=None):
    a = AviaryValues()
    for k, (v, u) in g.items():
        a.set_val(k, v, u)
    return a


def run(g, verb):
    a = build(g)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        preprocess_options(a, verbosity=verb)
    return a


def same(ctx, got, exp, what):
    if isinstance(exp, (int, float, np.ndarray)) and not isinstance(exp, bool):
        ctx.close(np.asarray(got, dtype=float), np.asarray(exp, dtype=float), what, rtol=1e-9, atol=1e-9)
    else:
        ctx.require(got == exp, f'{what}: got {got!r} expected {exp!r}')


def check(case, ctx):
    g = given(case)
    desc = {k: v for k, v in g.items()}
    try:
        exp = model(g)
        refused = None
    except Refused as r:
        exp, refused = None, str(r)
    ctx.nontrivial(any(k in g for k in MP + DP + CARGO) and not all(k in g for k in MP + DP))
    ctx.label(case['method'], 'refused_' + refused if refused else 'accepted')
    w = 'vehicle'
    if refused:
        try:
            run(g, case['verb'])
        except UserWarning:
            ctx.sub += 1
            return
        ctx.fail(f'{w}: contradictory {refused} inputs accepted')
        return
    try:
        a = run(g, case['verb'])
    except UserWarning as exc:
        ctx.fail(f'{w}: consistent inputs refused: {exc}')
        return
    for k, (v, u) in exp.items():
        ctx.require(k in a, f'{w}: {k} missing after preprocessing')
        if k == Mission.SEA_LEVEL_DENSITY and v is None:
            tab = TAB[exp[Settings.ATMOSPHERE_MODEL][0].name]
            ref = np.interp(0.0, tab['alt'], tab['rho'])
            got = a.get_val(k, 'kg/m**3')
            ctx.close(got, ref, f'{w}: sea-level density of the atmosphere model', rtol=0.01)
            continue
        got = a.get_val(k, u)
        tol = 0.001 if k == Mission.GRAVITY and k not in g else None
        if tol:
            ctx.close(got, v, f'{w}: {k}', rtol=tol)
        else:
            same(ctx, got, v, f'{w}: {k} after preprocessing')
    extra = {k for k in a.keys()} - set(exp) - OPTIONAL
    ctx.require(not extra, lambda: f'{w}: unexpected variables set: {sorted(extra)}')
    # how much is printed does not change what is decided
    for verb in (0, 1, 2, 3):
        if verb != case['verb']:
            b = run(g, verb)
            ctx.require({k for k in b.keys()} == {k for k in a.keys()}, f'{w}: verbosity {verb} changes which variables are set')
            for k in b.keys():
                x, u = b.get_item(k)
                if k == Settings.VERBOSITY:
                    continue
                same(ctx, a.get_val(k, u), x, f'{w}: {k} at verbosity {verb}')
            break



PARTS = [Part('preprocess', case_st, check, quick=4000, thorough=60000)]
