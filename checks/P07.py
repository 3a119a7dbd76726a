import itertools
import os
import shutil
import tempfile

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.subsystems.propulsion.engine_deck import EngineDeck
from aviary.subsystems.propulsion.utils import EngineModelVariables as V
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.variables import Aircraft, Dynamic, Settings
from lib.mission import quiet
from lib.pbt import Discard, Part

PROPERTY = 'P07'
RULE = (
    'Generated engine decks (full and ragged tables of Mach, altitude, throttle and hybrid throttle, rows in any order, '
    'any units, from memory or file, thrust given directly or by parts) evaluated at every tabulated point and between '
    'points. Oracle: nested linear interpolation of the table plus the documented scaling laws. Non-trivial: shuffled rows, '
    'at least 12 rows and a scale factor other than one.'
)
ASSUMPTIONS = ['Between tabulated points only linear interpolation is judged; other methods are judged at the tabulated points.']

E = Aircraft.Engine
P = Dynamic.Vehicle.Propulsion
BASE = {'mach': 'unitless', 'alt': 'ft', 'throttle': 'unitless', 'hybrid': 'unitless', 'thrust': 'lbf', 'gross': 'lbf', 'ram': 'lbf',
        'tail': 'lbf', 'fuel': 'lbm/h', 'nox': 'lbm/h', 't4': 'degR', 'elec': 'kW', 'shp': 'hp', 'rpm': 'rpm'}
ALT = {'alt': ('m', 0.3048), 'thrust': ('N', 4.4482216152605), 'gross': ('kN', 0.0044482216152605), 'ram': ('N', 4.4482216152605),
       'tail': ('N', 4.4482216152605), 'fuel': ('kg/h', 0.45359237), 'nox': ('lbm/s', 1 / 3600.0), 't4': ('degK', 5 / 9), 'elec': ('W', 1000.0),
       'shp': ('kW', 0.745699871582270)}
NAMES = {'mach': ['mach', 'mach_number', 'mn'], 'alt': ['altitude', 'alt', 'h'], 'throttle': ['throttle', 'power_code'],
         'hybrid': ['hybrid_throttle', 'hybrid_power_code'], 'thrust': ['thrust', 'net_thrust'], 'gross': ['gross_thrust'], 'ram': ['ram_drag'],
         'tail': ['tailpipe_thrust'], 'fuel': ['fuel_flow', 'fuel_flow_rate', 'fuel'], 'nox': ['nox', 'nox_rate'], 't4': ['t4', 'temperature'],
         'elec': ['electric_power', 'electric_power_in'], 'shp': ['shaft_power', 'shp'], 'rpm': ['rpm', 'rotations_per_minute']}
ENUM = {'mach': V.MACH, 'alt': V.ALTITUDE, 'throttle': V.THROTTLE, 'hybrid': V.HYBRID_THROTTLE, 'thrust': V.THRUST, 'gross': V.GROSS_THRUST,
        'ram': V.RAM_DRAG, 'tail': V.TAILPIPE_THRUST, 'fuel': V.FUEL_FLOW, 'nox': V.NOX_RATE, 't4': V.TEMPERATURE_T4, 'elec': V.ELECTRIC_POWER_IN,
        'shp': V.SHAFT_POWER, 'rpm': V.RPM}
OUT = {'thrust': (P.THRUST, 'lbf'), 'nox': (P.NOX_RATE, 'lbm/h'), 't4': (P.TEMPERATURE_T4, 'degR'), 'elec': (P.ELECTRIC_POWER_IN, 'kW'),
       'shp': (P.SHAFT_POWER, 'hp'), 'rpm': (P.RPM, 'rpm'), 'fuel': (P.FUEL_MASS_FLOW_RATE_NEGATIVE, 'lbm/h')}

f01 = st.floats(0, 1).map(lambda x: round(x, 3))
case_st = st.fixed_dictionaries(
    {
        'mach': st.lists(st.integers(0, 15), min_size=2, max_size=4, unique=True).map(sorted),
        'alt': st.lists(st.integers(0, 20), min_size=2, max_size=4, unique=True).map(sorted),
        'thr': st.lists(st.integers(0, 12), min_size=2, max_size=5, unique=True).map(sorted),
        'thr_scale': st.sampled_from([1 / 12, 1.0, 4.0]),
        'hyb': st.sampled_from([None, None, None, [-1, 0, 1], [-2, 0, 3], [0, 1, 2], [0, 0.5, 1], [0, 2]]),
        'sls': st.booleans(),
        'ragged': st.sampled_from([None, None, 'throttle', 'altitude']),
        'rag': st.lists(st.integers(0, 5), min_size=16, max_size=16),
        'noise': st.lists(f01, min_size=12, max_size=12),
        'thrust': st.sampled_from(['net', 'net', 'gross', 'all', 'net+tail', 'gross+tail']),
        'extra': st.lists(st.sampled_from(['nox', 't4', 'elec', 'shp', 'rpm']), max_size=3, unique=True),
        'alt_units': st.integers(0, 2**12 - 1),
        'alias': st.integers(0, 5),
        'form': st.sampled_from(['enum', 'string', 'file', 'file']),
        'label': st.booleans(),
        'perm': st.integers(0, 10**6),
        'sort': st.sampled_from(['mach', 'altitude', None]),
        'method': st.sampled_from(['slinear', 'slinear', None, 'lagrange2', 'akima']),
        'global': st.booleans(),
        'global_h': st.booleans(),
        'scale': st.sampled_from([1.0, 0.7, 1.35]),
        'scale_by': st.sampled_from(['factor', 'thrust', 'both']),
        'ref': st.one_of(st.none(), st.integers(5000, 40000)),
        'ff': st.lists(st.sampled_from([0.0, 0.1, -0.05, 0.3]), min_size=2, max_size=2),
        'sub': st.sampled_from([1.0, 1.1]),
        'sup': st.sampled_from([1.0, 0.9]),
        'const': st.sampled_from([0.0, 120.0]),
        'q': st.lists(st.tuples(f01, f01, f01, f01), min_size=2, max_size=6),
        'neg': st.sampled_from([False, False, True]),
        'idle': st.sampled_from([None, None, None, 0.0, 0.05]),
        'idle_lim': st.tuples(st.sampled_from([0.0, 0.08, 0.3]), st.sampled_from([0.35, 1.0])),
    }
)


def table(case):
    """rows: list of dicts with base-unit values."""
    nz = case['noise']
    thrust = case['thrust']
    M = [m * 0.1 for m in case['mach']]
    A = [a * 2500.0 for a in case['alt']]
    if case['sls']:
        M[0], A[0] = 0.0, 0.0
    T = [t * case['thr_scale'] for t in case['thr']]
    H = case['hyb'] or [None]
    rows = []
    for i, m in enumerate(M):
        aa = list(A)
        if case['ragged'] == 'altitude' and len(A) > 2:
            aa = A[: 2 + case['rag'][i] % (len(A) - 1)]
        for j, a in enumerate(aa):
            tt = list(T)
            if case['ragged'] == 'throttle' and len(T) > 2:
                k = 2 + case['rag'][(i * 4 + j) % 16] % (len(T) - 1)
                tt = T[-k:]
            for t in tt:
                for h in H:
                    tau = (t - T[0]) / (T[-1] - T[0])
                    c = len(rows)
                    r = {'mach': m, 'alt': a, 'throttle': t}
                    if h is not None:
                        r['hybrid'] = float(h)
                    n = lambda q: nz[(c * 7 + q * 5) % 12] * (1 + ((c * 31 + q) % 17) / 17)
                    r['thrust'] = 2000 + 20000 * tau * (1 - 0.3 * m) * (1 - a / 90000) + 600 * n(0) + 100 * (h or 0)
                    if case['neg'] and tau == 0 and n(1) > 0.5:
                        r['thrust'] = 0.0 if n(1) > 1.1 and thrust == 'net' else -300 * n(1)
                    r['fuel'] = 500 + 9000 * tau + 900 * n(2)
                    for e in case['extra']:
                        r[e] = 100 + 1500 * tau + 300 * n(3 + len(e))
                    if thrust in ('gross', 'all', 'gross+tail'):
                        r['ram'] = 200 + 3000 * m + 50 * n(5)
                        r['gross'] = r['thrust'] + r['ram']
                        if thrust != 'all':
                            del r['thrust']
                    if 'tail' in thrust:
                        r['tail'] = 100 + 300 * n(6)
                    rows.append(r)
    return rows


def net(r):
    t = r['thrust'] if 'thrust' in r else r['gross'] - r['ram']
    return t + r.get('tail', 0.0)


def deck_inputs(case, rows):
    rng = np.random.RandomState(case['perm'])
    order = rng.permutation(len(rows)) if case['perm'] else np.arange(len(rows))
    cols = sorted(rows[0], key=lambda k: (hash_(k) + case['perm']) % 97)
    units = {}
    for i, c in enumerate(sorted(cols)):
        units[c] = ALT[c] if c in ALT and case['alt_units'] >> i & 1 else (BASE[c], 1.0)
    vals = {c: np.array([rows[o][c] * units[c][1] for o in order]) for c in cols}
    return cols, units, vals


def hash_(k):
    return sum(ord(ch) * (i + 3) for i, ch in enumerate(k))


def options(case, path=None):
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, 0)
    if path:
        o.set_val(E.DATA_FILE, path)
    o.set_val(E.GLOBAL_THROTTLE, case['global'])
    if case['hyb']:
        o.set_val(E.GLOBAL_HYBRID_THROTTLE, case['global_h'])
    if case['sort']:
        o.set_val(E.INTERPOLATION_SORT, case['sort'])
    if case['method']:
        o.set_val(E.INTERPOLATION_METHOD, case['method'])
    if case['neg']:
        o.set_val(E.IGNORE_NEGATIVE_THRUST, True)
    if case['idle'] is not None:
        o.set_val(E.GENERATE_FLIGHT_IDLE, True)
        o.set_val(E.FLIGHT_IDLE_THRUST_FRACTION, case['idle'])
        o.set_val(E.FLIGHT_IDLE_MIN_FRACTION, case['idle_lim'][0])
        o.set_val(E.FLIGHT_IDLE_MAX_FRACTION, case['idle_lim'][1])
    return o


def norm_h(h, lo, hi):
    return h / hi if h > 0 else -h / lo if h < 0 else 0.0


def nested(pts, x):
    """pts: list of (coords, value); nested linear interpolation (end segments extended)."""
    if len(x) == 1:
        g = sorted((c[0], v) for c, v in pts)
    else:
        keys = sorted({c[0] for c, _ in pts})
        k = bracket(keys, x[0])
        g = [(q, nested([(c[1:], v) for c, v in pts if c[0] == q], x[1:])) for q in (keys[k], keys[k + 1])]
        return lin(g[0], g[1], x[0])
    k = bracket([q for q, _ in g], x[0])
    return lin(g[k], g[k + 1], x[0])


def bracket(keys, x):
    k = 0
    while k < len(keys) - 2 and x > keys[k + 1]:
        k += 1
    return k


def lin(a, b, x):
    return a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])


def build_deck(case, rows, ctx=None):
    cols, units, vals = deck_inputs(case, rows)
    tmp = None
    try:
        if case['form'] == 'file':
            tmp = tempfile.mkdtemp(prefix='p07_')
            path = os.path.join(tmp, 'deck.csv')
            with open(path, 'w') as f:
                f.write('# generated\n\n')
                hd = []
                for i, c in enumerate(cols):
                    nm = NAMES[c][case['alias'] % len(NAMES[c])]
                    u = units[c][0]
                    parts = [u] if u != 'unitless' else []
                    if case['label']:
                        parts.append('input' if c in ('mach', 'alt', 'throttle', 'hybrid') else 'output')
                    hd.append(nm.replace('_', ' ').title() + (f' ({", ".join(parts)})' if parts else ''))
                f.write(', '.join(hd) + '\n')
                for r in range(len(rows)):
                    f.write(', '.join(repr(float(vals[c][r])) for c in cols) + '\n')
            o = options(case, path)
            data = None
        else:
            data = NamedValues()
            for c in cols:
                key = ENUM[c] if case['form'] == 'enum' else NAMES[c][case['alias'] % len(NAMES[c])]
                data.set_val(key, vals[c].copy(), units[c][0])
            o = options(case)
            before = {k: (np.array(v), u) for k, (v, u) in data}
        apply_scale(case, rows, o)
        with quiet():
            d = EngineDeck('deck', options=o, data=data)
        if data is not None and ctx is not None:
            ok = [k for k, _ in data] == list(before) and all(np.array_equal(v, before[k][0]) and u == before[k][1] for k, (v, u) in data)
            ctx.require(ok, 'the data handed to the deck was changed', key='data_mutated')
        return d
    finally:
        if tmp:
            shutil.rmtree(tmp)


def refthrust(case, rows):
    if case['ref'] is not None:
        return float(case['ref'])
    sls = [net(r) for r in rows if r['mach'] == 0 and r['alt'] == 0 and (not case['neg'] or net(r) >= 0)]
    return max(sls) if sls else None


def apply_scale(case, rows, o):
    ref = refthrust(case, rows)
    if case['ref'] is not None:
        o.set_val(E.REFERENCE_SLS_THRUST, float(case['ref']), 'lbf')
    if ref is None:
        return
    if case['scale_by'] in ('factor', 'both'):
        o.set_val(E.SCALE_FACTOR, case['scale'])
    if case['scale_by'] in ('thrust', 'both'):
        o.set_val(E.SCALED_SLS_THRUST, ref * case['scale'] * 4.4482216152605, 'N')


def evaluate(d, case, pts, sf, hyb):
    nn = len(pts)
    p = om.Problem(reports=False)
    with quiet():
        p.model.add_subsystem('e', d.build_mission(nn, AviaryValues(), {}, {}), promotes=['*'])
        p.model.set_input_defaults(Dynamic.Atmosphere.MACH, np.zeros(nn))
        p.model.set_input_defaults(Dynamic.Mission.ALTITUDE, np.zeros(nn), units='ft')
        p.model_options['*'] = {
            E.SUBSONIC_FUEL_FLOW_SCALER: case['sub'],
            E.SUPERSONIC_FUEL_FLOW_SCALER: case['sup'],
            E.FUEL_FLOW_SCALER_CONSTANT_TERM: case['ff'][0],
            E.FUEL_FLOW_SCALER_LINEAR_TERM: case['ff'][1],
            E.CONSTANT_FUEL_MASS_CONSUMPTION: (case['const'], 'lbm/h'),
        }
        p.setup()
        p.set_val(Dynamic.Atmosphere.MACH, [x[0] for x in pts])
        p.set_val(Dynamic.Mission.ALTITUDE, [x[1] for x in pts], units='ft')
        p.set_val(P.THROTTLE, [x[2] for x in pts])
        if hyb:
            p.set_val(P.HYBRID_THROTTLE, [x[3] for x in pts])
        p.set_val(E.SCALE_FACTOR, sf)
        p.run_model()
    return p


def check(case, ctx):
    case = dict(case)
    if case['hyb']:
        case['idle'] = None
        if not case['global']:
            case['global_h'] = False
    if case['neg']:
        case['ragged'] = case['hyb'] = None
    rows = table(case)
    if case['idle'] is not None and case['method'] == 'akima':
        case['method'] = 'slinear'
    kept = [r for r in rows if not case['neg'] or net(r) >= 0]
    for i, j in {(r['mach'], r['alt']) for r in rows}:
        if len({r['throttle'] for r in kept if (r['mach'], r['alt']) == (i, j)}) < 2:
            raise Discard()
    cnt = lambda k: len({r[k] for r in kept})
    if case['method'] in ('lagrange2', 'akima'):
        need = 3 if case['method'] == 'lagrange2' else 4
        if case['ragged'] or case['neg'] or min(cnt('mach'), cnt('alt'), cnt('throttle'), cnt('hybrid') if case['hyb'] else 9) < need:
            case['method'] = 'slinear'
    ref = refthrust(case, rows)
    w = f"deck of {len(rows)} rows ({case['form']}, thrust {case['thrust']}, sort {case['sort']}, ragged {case['ragged']})"
    if ref is None:
        try:
            build_deck(case, rows)
        except UserWarning:
            ctx.sub += 1
            ctx.label('no_reference_point')
            return
        ctx.fail(f'{w}: accepted although it has neither a sea-level static point nor a reference thrust')
        return
    d = build_deck(case, rows, ctx)
    sf = case['scale']
    ctx.close(d.get_val(E.SCALE_FACTOR), sf, f'{w}: scale factor', rtol=1e-6)
    ctx.close(d.get_val(E.REFERENCE_SLS_THRUST, 'lbf'), ref, f'{w}: reference thrust', rtol=1e-6)
    ctx.close(d.get_val(E.SCALED_SLS_THRUST, 'lbf'), ref * sf, f'{w}: scaled thrust', rtol=1e-6)
    # normalized controls
    if case['idle'] is not None:
        kept = add_idle(case, kept)
    tg = [r['throttle'] for r in kept]
    hg = [r.get('hybrid', 0.0) for r in kept]
    pts = []
    for r in kept:
        grp = [q for q in kept if (q['mach'], q['alt']) == (r['mach'], r['alt'])]
        ts = tg if case['global'] else [q['throttle'] for q in grp]
        t = (r['throttle'] - min(ts)) / (max(ts) - min(ts))
        hs = hg if case['global_h'] else [q.get('hybrid', 0.0) for q in grp]
        h = norm_h(r.get('hybrid', 0.0), min(hs), max(hs))
        pts.append((r['mach'], r['alt'], t, h))
    hyb = bool(case['hyb'])
    nd = 4 if hyb else 3
    # table order for interpolation
    perm = (1, 0, 2, 3) if case['sort'] == 'altitude' else (0, 1, 2, 3)
    qs = []
    if case['method'] in (None, 'slinear'):
        M, A = sorted({x[0] for x in pts}), sorted({x[1] for x in pts})
        for q in case['q']:
            qs.append((M[0] + q[0] * (M[-1] - M[0]), A[0] + q[1] * (A[-1] - A[0]), q[2], (2 * q[3] - 1) if hyb and min(hg) < 0 else q[3]))
    if case['ragged'] == 'altitude' and case['sort'] == 'altitude':
        # the innermost table then has fewer than two Mach numbers: outside the interpolator's domain
        cnts = [len({x[0] for x in pts if x[1] == a}) for a in {x[1] for x in pts}]
        if min(cnts) < 2:
            raise Discard()
    allq = pts + qs
    try:
        p = evaluate(d, case, allq, sf, hyb)
    except om.AnalysisError as exc:
        ctx.label('out_of_bounds')
        raise Discard() from exc
    key = lambda x: tuple(x[i] for i in perm)[:nd] if nd == 4 else tuple(x[i] for i in perm[:3])
    for o, (name, un) in OUT.items():
        if o not in ('thrust', 'fuel') and o not in case['extra']:
            continue
        got = p.get_val(name, units=un)

        def expected(raw):
            tab = [(key(x), v) for x, v in zip(pts, raw)]
            exp = np.array(list(raw) + [nested(tab, key(x)) for x in qs])
            if o == 'fuel':
                k = np.array([case['sup'] if x[0] >= 1.0 else case['sub'] for x in allq])
                return -(exp * sf * k * (1 + case['ff'][0] + case['ff'][1] * (1 - sf)) + case['const'])
            return exp if o in ('t4', 'rpm') else exp * sf

        exp = expected([net(r) if o == 'thrust' else r[o] for r in kept])
        if any(o + '!' in r for r in kept) and case['method'] in (None, 'slinear'):
            alt = expected([r.get(o + '!', r[o]) for r in kept])
            if not np.allclose(got, exp, rtol=2e-6, atol=1e-3) and np.allclose(got, alt, rtol=2e-6, atol=1e-3):
                ctx.fail(f'{w}: {o} at flight idle ignores the idle limits', key='idle_limits|short_condition')
                continue
        ctx.close(got, exp, f'{w}: {o}', rtol=2e-6, atol=1e-3, key=f'{o}|{case["method"]}')
    # maximum thrust: full throttle (and full positive hybrid throttle) at the same flight condition
    full = (1.0, 1.0) if max(hg) > 0 else (1.0, 0.0)
    allm = [(x[0], x[1], *full) for x in allq]
    tab = [(key(x), net(r)) for x, r in zip(pts, kept)]
    if case['method'] in (None, 'slinear'):
        ctx.close(p.get_val(P.THRUST_MAX, units='lbf'), [nested(tab, key(x)) * sf for x in allm], f'{w}: maximum thrust', rtol=2e-6, atol=1e-3, key='max')
        if 'shp' in case['extra']:
            tab = [(key(x), r['shp']) for x, r in zip(pts, kept)]
            ctx.close(p.get_val(P.SHAFT_POWER_MAX, units='hp'), [nested(tab, key(x)) * sf for x in allm], f'{w}: maximum shaft power', rtol=2e-6, atol=1e-3, key='maxshp')
    ctx.nontrivial(len(rows) >= 12 and sf != 1.0 and case['perm'] > 0)
    ctx.label(case['form'], 'thrust_' + case['thrust'], f'ragged_{case["ragged"]}', 'hybrid' if hyb else 'plain', 'global' if case['global'] else 'local',
              'idle' if case['idle'] is not None else 'noidle', f'sort_{case["sort"]}')


def add_idle(case, kept):
    """Flight idle added below the lowest tabulated point of each flight condition."""
    frac = case['idle']
    lo, hi = case['idle_lim']
    ts = [r['throttle'] for r in kept]
    out = []
    for r in kept:
        grp = [q for q in kept if (q['mach'], q['alt']) == (r['mach'], r['alt'])]
        t = ts if case['global'] else [q['throttle'] for q in grp]
        out.append({**r, 'throttle': (r['throttle'] - min(t)) / (max(t) - min(t))})
    new = []
    conds = [(r['mach'], r['alt']) for r in out]
    most = max(conds.count(c) for c in conds)
    for c in sorted({(r['mach'], r['alt']) for r in out}):
        grp = sorted((r for r in out if (r['mach'], r['alt']) == c), key=lambda r: r['throttle'])
        if net(grp[0]) <= 1.0:
            continue
        top = grp[-1]
        y = net(top) * frac
        k = (y - net(grp[0])) / (net(grp[1]) - net(grp[0]))
        q = {'mach': c[0], 'alt': c[1], 'throttle': -0.1, 'thrust': y}
        for v in ['fuel'] + case['extra']:
            if v == 'shp':
                raise Discard()
            x = grp[0][v] + (grp[1][v] - grp[0][v]) * k
            q[v] = min(max(x, top[v] * lo), top[v] * hi)
            if len(grp) < most:
                # known finding: the idle limits of such conditions are read from the padding (zero)
                q[v + '!'] = min(max(x, 0.0), 0.0)
        new.append(q)
    base = [{k: v for k, v in r.items() if k not in ('gross', 'ram', 'tail')} | {'thrust': net(r)} for r in out]
    return base + new


PARTS = [Part('decks', case_st, check, quick=1600, thorough=30000)]
