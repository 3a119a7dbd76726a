import warnings
from enum import Enum

import numpy as np
from hypothesis import strategies as st

from aviary.subsystems.propulsion.engine_model import EngineModel
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.preprocessors import preprocess_propulsion
from aviary.variable_info.enums import GASPEngineType
from aviary.variable_info.variable_meta_data import CoreMetaData as META
from aviary.variable_info.variables import Aircraft, Mission, Settings
from lib.mission import quiet
from lib.pbt import Discard, Part

PROPERTY = 'P06'
RULE = (
    'Generated vehicles of 1-4 engine types whose engine and nacelle variables come from the engine, from the vehicle '
    '(one value, a vector, or a vector of another length), or from the default, in mixed units, with generated mounting '
    'counts. Oracle: an independent model. Non-trivial: at least two engine types with values from different sources.'
)
ASSUMPTIONS = ['Precedence of sources is the documented one: engine, then vehicle, then default.']

E = Aircraft.Engine
COUNTS = [E.NUM_ENGINES, E.NUM_WING_ENGINES, E.NUM_FUSELAGE_ENGINES]
VARS = sorted(
    k for k in META
    if (k.startswith('aircraft:engine:') or k.startswith('aircraft:nacelle:')) and META[k]['multivalue'] and k not in COUNTS
)
WL = E.WING_LOCATIONS
OTHER = {'lbm': 'kg', 'lbf': 'N', 'ft': 'm', 'ft**2': 'm**2', 'hp': 'kW', 'ft/s': 'm/s', 'rpm': 'rpm', 'lbm/h': 'kg/s',
         'lbm/lbf': 'kg/N', 'lbm/ft**2': 'kg/m**2', 'lbf*ft': 'N*m', 'lbf*ft/lbm': 'N*m/kg', 'unitless': 'unitless'}
TO = {'lbm': 0.45359237, 'lbf': 4.4482216152605, 'ft': 0.3048, 'ft**2': 0.09290304, 'hp': 0.745699871582270, 'ft/s': 0.3048,
      'rpm': 1.0, 'lbm/h': 0.45359237 / 3600, 'lbm/lbf': 0.45359237 / 4.4482216152605, 'lbm/ft**2': 0.45359237 / 0.09290304,
      'lbf*ft': 4.4482216152605 * 0.3048, 'lbf*ft/lbm': 4.4482216152605 * 0.3048 / 0.45359237, 'unitless': 1.0}

num = st.integers(1, 40)
var_st = st.fixed_dictionaries(
    {
        'v': st.integers(0, len(VARS) - 1),
        'kind': st.sampled_from(['absent', 'scalar', 'list', 'array', 'one', 'short', 'long']),
        'vals': st.lists(num, min_size=5, max_size=5),
        'eng': st.lists(st.one_of(st.none(), num), min_size=4, max_size=4),
        'alt_v': st.booleans(),
        'alt_e': st.booleans(),
        'multi': st.lists(st.integers(1, 3), min_size=4, max_size=4),
    }
)
cnt = st.one_of(st.none(), st.integers(0, 4))
case_st = st.fixed_dictionaries(
    {
        'n': st.integers(1, 4),
        'vars': st.lists(var_st, min_size=2, max_size=6, unique_by=lambda d: d['v']),
        'counts': st.lists(st.lists(st.integers(0, 4), min_size=4, max_size=4), min_size=3, max_size=3),
        'csrc': st.lists(st.sampled_from(['absent', 'vehicle', 'vehicle', 'engine', 'some']), min_size=3, max_size=3),
        'carr': st.booleans(),
        'unrelated': st.integers(1, 9),
        'verb': st.sampled_from([0, 1, 2, 3]),
        'twice': st.booleans(),
    }
)


def base_type(k):
    t = META[k]['types']
    return t[0] if isinstance(t, tuple) else t


def mk(k, i):
    t = base_type(k)
    if t is bool:
        return bool(i % 2)
    if t is int:
        return i
    if t is float:
        return i / 4
    if t is str:
        return f's{i}' if k != E.INTERPOLATION_METHOD else ['slinear', 'akima', 'lagrange2'][i % 3]
    if issubclass(t, Enum):
        return list(t)[i % len(list(t))]
    raise NotImplementedError(t)


def units_pair(k):
    return META[k]['units'], OTHER[META[k]['units']], TO[META[k]['units']]


def scale(k, v, f):
    if base_type(k) is float and f != 1.0:
        return [x * f for x in v] if isinstance(v, list) else v * f
    return v


def check(case, ctx):
    n = case['n']
    veh = AviaryValues()
    veh.set_val(Settings.VERBOSITY, 0)
    veh.set_val(Aircraft.Wing.SPAN, 10.0 * case['unrelated'], 'ft')
    veh.set_val(Mission.GROSS_MASS if hasattr(Mission, 'GROSS_MASS') else Aircraft.Design.RANGE, 1.0 * case['unrelated'], 'lbm')
    eo = [AviaryValues() for _ in range(n)]
    expect = {}
    sources = set()
    for d in case['vars']:
        k = VARS[d['v']]
        u, alt, f = units_pair(k)
        multi = k == WL
        kind = d['kind']
        given = None
        if multi and (n > 1 and kind != 'absent'):
            # one flat list for several types is ambiguous
            kind = 'absent'
        if kind == 'scalar':
            given = mk(k, d['vals'][0])
        elif kind in ('list', 'array'):
            given = [mk(k, i) for i in d['vals'][:n]]
        elif kind == 'one':
            given = [mk(k, d['vals'][0])]
        elif kind == 'short':
            given = [mk(k, i) for i in d['vals'][: max(2, n - 1)]]
        elif kind == 'long':
            given = [mk(k, i) for i in d['vals'][: n + 1]]
        if multi and isinstance(given, list):
            given = [mk(k, i) for i in d['vals'][: 1 + d['multi'][0]]]
        uu, ff = (alt, f) if d['alt_v'] else (u, 1.0)
        if given is not None:
            val = scale(k, given, ff)
            if kind == 'array' and base_type(k) in (float, int):
                val = np.array(val)
            veh.set_val(k, val, uu)
        ev = []
        for j in range(n):
            if d['eng'][j] is None:
                ev.append(None)
                continue
            x = mk(k, d['eng'][j])
            if multi:
                x = [mk(k, d['eng'][j] + q) for q in range(d['multi'][j])]
            ev.append(x)
            uu, ff = (alt, f) if d['alt_e'] else (u, 1.0)
            eo[j].set_val(k, scale(k, x, ff), uu)
        if given is None and all(x is None for x in ev):
            continue
        exp = []
        default = META[k]['default_value']
        for j in range(n):
            if ev[j] is not None:
                x = ev[j]
                sources.add('engine')
            elif given is None:
                x = default
                sources.add('default')
            elif isinstance(given, list) and len(given) > 1 and not multi:
                x = given[j] if j < len(given) else default
                sources.add('vehicle')
            elif isinstance(given, list) and not multi:
                x = given[0]
                sources.add('vehicle')
            else:
                x = given
                sources.add('vehicle')
            if multi:
                exp.extend(x if isinstance(x, (list, tuple, np.ndarray)) else [x])
            else:
                exp.append(x)
        expect[k] = exp
    # mounting counts
    cexp = []
    for c, (k, src) in enumerate(zip(COUNTS, case['csrc'])):
        vals = case['counts'][c][:n]
        if src == 'absent':
            cexp.append([0] * n)
        elif src == 'vehicle':
            veh.set_val(k, np.array(vals) if case['carr'] else list(vals))
            cexp.append(list(vals))
        else:
            got = []
            for j in range(n):
                if src == 'engine' or j == 0:
                    eo[j].set_val(k, vals[j])
                    got.append(vals[j])
                else:
                    got.append(META[k]['default_value'])
            cexp.append(got)
    total, wing, fuse = ([int(x) for x in c] for c in cexp)
    t0, w0, f0 = list(total), list(wing), list(fuse)
    for j in range(n):
        rest = total[j] - wing[j] - fuse[j]
        if rest < 0:
            total[j] = wing[j] + fuse[j]
        elif rest > 0:
            if rest == 1:
                fuse[j] += 1
            else:
                wing[j] += rest
    engines = [EngineModel(f'engine_{j}', options=eo[j]) for j in range(n)]
    before = [e.options.deepcopy() for e in engines]
    if case['twice'] and n > 1 and any(k == WL for k in expect):
        raise Discard()
    for _ in range(2 if case['twice'] else 1):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            preprocess_propulsion(veh, engines, verbosity=case['verb'])
    for k, exp in expect.items():
        got = veh.get_val(k, META[k]['units'])
        if isinstance(got, np.ndarray) or (isinstance(got, list) and all(type(x) in (int, float) for x in got)):
            ctx.close(np.asarray(got, dtype=float), np.asarray(exp, dtype=float), f'{k} for {n} engine types', rtol=1e-6, atol=1e-9, key=k)
        else:
            ctx.require(isinstance(got, list) and [str(x) for x in got] == [str(x) for x in exp], f'{k} for {n} engine types: got {got!r} expected {exp!r}', key=k)
        ctx.require(len(got) == len(exp), f'{k}: {len(got)} entries for {n} engine types', key=k)
        if base_type(k) is float and isinstance(got, np.ndarray):
            ctx.require(got.dtype.kind == 'f', f'{k} became {got.dtype}', key=k)
    gt = [int(x) for x in veh.get_val(COUNTS[0])]
    gw = [int(x) for x in veh.get_val(COUNTS[1])]
    gf = [int(x) for x in veh.get_val(COUNTS[2])]
    w = f'engines {t0}, wing {w0}, fuselage {f0} (given by {case["csrc"]})'
    for j in range(n):
        ctx.require(gt[j] == gw[j] + gf[j], f'{w}: type {j}: total {gt[j]} is not wing {gw[j]} + fuselage {gf[j]}', key='count_sum')
        ctx.require(gt[j] >= t0[j] and gw[j] >= w0[j] and gf[j] >= f0[j], f'{w}: a count given by the user was lowered', key='count_lowered')
    ctx.require((gt, gw, gf) == (total, wing, fuse), f'{w}: became {gt}, {gw}, {gf}, expected {total}, {wing}, {fuse}', key='count_rule')
    P = Aircraft.Propulsion
    for k, x in ((P.TOTAL_NUM_ENGINES, gt), (P.TOTAL_NUM_WING_ENGINES, gw), (P.TOTAL_NUM_FUSELAGE_ENGINES, gf)):
        ctx.require(veh.get_val(k) == sum(x), f'{w}: {k} is {veh.get_val(k)}, expected {sum(x)}')
    ctx.close(veh.get_val(Aircraft.Wing.SPAN, 'ft'), 10.0 * case['unrelated'], 'unrelated variable')
    for e, b in zip(engines, before):
        same = [k for k, _ in b] == [k for k, _ in e.options] and all(
            repr(b.get_item(k)) == repr(e.options.get_item(k)) for k, _ in b
        )
        ctx.require(same, f'options of engine {e.name} changed')
    extra = {k for k in veh.keys()} - set(expect) - set(COUNTS) - {P.TOTAL_NUM_ENGINES, P.TOTAL_NUM_WING_ENGINES,
        P.TOTAL_NUM_FUSELAGE_ENGINES, Aircraft.Wing.SPAN, Settings.VERBOSITY, Mission.GROSS_MASS}
    ctx.require(not extra, f'unexpected variables {sorted(extra)}')
    ctx.nontrivial(n > 1 and len(sources) > 1)
    ctx.label(f'types_{n}', *('src_' + s for s in sources))


PARTS = [Part('vectorize', case_st, check, quick=5000, thorough=80000)]
