import gzip
import json
import os

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.subsystems.atmosphere.atmosphere import Atmosphere, AtmosphereComp
from aviary.subsystems.atmosphere.utils.get_atmosphere_data import get_atmosphere_data
from aviary.variable_info.enums import AtmosphereModel, SpeedType
from lib.mission import quiet
from lib.pbt import Part

PROPERTY = 'P10'
RULE = (
    'Generated altitudes, temperature offsets, atmosphere models, altitude definitions and airspeeds in all '
    'three forms. Oracles: the analytic 1976 US standard atmosphere, the published tables at their knots, '
    'the gas law, hydrostatic balance, and agreement between the three speed forms. '
    'Non-trivial: at least two distinct altitudes and a moving aircraft.'
)
ASSUMPTIONS = ['The published tables of the non-standard days and other planets (frozen in /verif/data) are right.']

TABLES = json.load(gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'atmosphere_tables.json.gz'), 'rt'))
MODELS = [m.name for m in AtmosphereModel]
RU = 8314.32
GAS = {'Earth': (28.97, 1.4, 110.4, 1.458e-6), 'Mars': (43.34, 1.36, 222, 1.503e-6), 'Venus': (43.45, 1.29, 222, 1.503e-6)}


def ussa(h):
    """1976 US standard atmosphere at geopotential altitude h (m), -5 km .. 84.852 km."""
    g0, R = 9.80665, 8314.32 / 28.9644
    hb = [0, 11000, 20000, 32000, 47000, 51000, 71000, 84852]
    L = [-0.0065, 0, 0.001, 0.0028, 0, -0.0028, -0.002]
    T, P = 288.15, 101325.0
    for i in range(7):
        top = hb[i + 1] if h > hb[i + 1] and i < 6 else h
        dh = top - hb[i]
        T1 = T + L[i] * dh
        P1 = P * np.exp(-g0 * dh / (R * T)) if L[i] == 0 else P * (T1 / T) ** (-g0 / (R * L[i]))
        T, P = T1, P1
        if top == h:
            break
    return T, P, P / (R * T)


_cache = {}


def atm(model, h_def, nn, dT):
    key = (model, h_def, nn, dT)
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        p = om.Problem(reports=False)
        p.model.add_subsystem('a', AtmosphereComp(num_nodes=nn, h_def=h_def, delta_T_Celcius=dT), promotes=['*'])
        p.model_options['*'] = {'settings:atmosphere_model': AtmosphereModel[model]}
        p.setup()
        p.final_setup()
        _cache[key] = p
    return _cache[key]


UN = {'temperature': 'degK', 'static_pressure': 'Pa', 'density': 'kg/m**3', 'speed_of_sound': 'm/s',
      'dynamic_viscosity': 'Pa*s', 'dsos_dh': '1/s'}


def evaluate(model, h_def, h, dT):
    h = np.atleast_1d(np.asarray(h, dtype=float))
    p = atm(model, h_def, len(h), dT)
    p.set_val('altitude', h, units='m')
    with np.errstate(all='ignore'):
        p.run_model()
    return {k: p.get_val(k, units=u).copy() for k, u in UN.items()}


frac = st.floats(0.0, 1.0).map(lambda x: round(x, 6))
atm_st = st.fixed_dictionaries(
    {
        'model': st.one_of(st.just('STANDARD'), st.sampled_from(MODELS)),
        'h': st.lists(frac, min_size=2, max_size=6),
        'dT': st.sampled_from([0.0, 0.0, 10.0, -15.0, 25.0, 3.5]),
    }
)


def check_atm(case, ctx):
    m = case['model']
    tab = TABLES[m]
    lo, hi = tab['alt'][0], tab['alt'][-1]
    h = np.array([lo + f * (hi - lo) for f in case['h']])
    dT = case['dT']
    planet = tab['planet']
    M, gam, S, beta = GAS[planet]
    Rg = RU / M
    f = evaluate(m, 'geopotential', h, dT)
    f0 = f if dT == 0 else evaluate(m, 'geopotential', h, 0.0)
    T, P, rho, a = f['temperature'], f['static_pressure'], f['density'], f['speed_of_sound']
    for k in f:
        ctx.require(np.all(np.isfinite(f[k])), f'{m}: {k} not finite at {h}')
    ctx.require(np.all(T > 0) and np.all(P > 0) and np.all(rho > 0), f'{m}: non-positive state at {h}')
    w = f'{m} at geopotential {h.tolist()} m, offset {dT}'
    # a temperature offset shifts the temperature and leaves the pressure alone
    ctx.close(T, f0['temperature'] + dT, f'{w}: temperature with an offset', rtol=1e-10)
    ctx.close(P, f0['static_pressure'], f'{w}: pressure with an offset', rtol=1e-10)
    ctx.close(a**2, gam * Rg * T, f'{w}: speed of sound squared', rtol=1e-8)
    ctx.close(f['dynamic_viscosity'], beta * T**1.5 / (T + S), f'{w}: viscosity', rtol=1e-8)
    rho_gas0 = f0['static_pressure'] / (Rg * f0['temperature'])
    # density follows the gas law as well as the published table does without an offset
    ctx.close(1 / rho, 1 / f0['density'] + Rg * dT / P, f'{w}: density with an offset', rtol=1e-9)
    slack = {'STANDARD': 0.001}.get(m, 0.2)
    if m != 'VENUS_REFERENCE':
        ctx.close(f0['density'], rho_gas0, f'{w}: gas law', rtol=slack)
    if m == 'STANDARD':
        for i, x in enumerate(h):
            t, p, r = ussa(x)
            ctx.close(f0['temperature'][i], t, f'standard temperature at {x} m', rtol=0, atol=0.35)
            ctx.close(f0['static_pressure'][i], p, f'standard pressure at {x} m', rtol=2e-3)
            ctx.close(f0['density'][i], r, f'standard density at {x} m', rtol=3e-3)
    # between two knots of the published table (monotone interpolation up to a small overshoot)
    alt = np.array(tab['alt'])
    if m != 'STANDARD':
        for i, x in enumerate(h):
            j = int(np.clip(np.searchsorted(alt, x, side='right') - 1, 0, len(alt) - 2))
            for k, col in (('temperature', 'T'), ('static_pressure', 'P'), ('density', 'rho')):
                win = tab[col][max(0, j - 1) : j + 3]
                u, v = min(win), max(win)
                pad = 0.5 * (v - u) + 0.01 * abs(u)
                ctx.require(
                    u - pad <= f0[k][i] <= v + pad,
                    f'{m}: {k} at {x} m is {f0[k][i]}, published neighbours {u} and {v}',
                )
    # the geometric altitude that corresponds to each geopotential one
    R0 = tab['R']
    z = R0 * h / (R0 - h)
    g = evaluate(m, 'geometric', z, dT)
    for k in UN:
        if k != 'dsos_dh':
            ctx.close(g[k], f[k], f'{w}: {k} at the corresponding geometric altitude', rtol=1e-6)
    # continuity: a metre up changes little
    e = evaluate(m, 'geopotential', np.minimum(h + 0.5, hi), dT)
    for k in ('temperature', 'static_pressure', 'density', 'speed_of_sound'):
        ctx.close(e[k], f[k], f'{w}: {k} half a metre higher', rtol=2e-3)
    # hydrostatic balance of the standard atmosphere
    if m == 'STANDARD':
        hh = np.clip(h, lo + 60, hi - 60)
        up, dn = evaluate(m, 'geopotential', hh + 50, 0.0), evaluate(m, 'geopotential', hh - 50, 0.0)
        mid = evaluate(m, 'geopotential', hh, 0.0)
        ctx.close((dn['static_pressure'] - up['static_pressure']) / 100.0, mid['density'] * 9.80665,
                  f'{w}: hydrostatic balance', rtol=6e-3)
    # slope of the speed of sound
    hh = np.clip(h, lo + 20, hi - 20)
    up, dn = evaluate(m, 'geopotential', hh + 10, dT), evaluate(m, 'geopotential', hh - 10, dT)
    mid = evaluate(m, 'geopotential', hh, dT)
    if m == 'STANDARD':
        ctx.close(mid['dsos_dh'], (up['speed_of_sound'] - dn['speed_of_sound']) / 20.0,
                  f'{w}: slope of the speed of sound', rtol=5e-2, atol=3e-3)
    ctx.nontrivial(len(set(case['h'])) > 1)
    ctx.label(m, f'dT{dT}')


def knots():
    for m in MODELS:
        n = len(TABLES[m]['alt'])
        for s in range(0, n, 8):
            yield {'model': m, 'start': s}


knot_st = st.fixed_dictionaries({'model': st.sampled_from(MODELS), 'start': st.integers(0, 250)})


def check_knots(case, ctx):
    m = case['model']
    tab = TABLES[m]
    n = len(tab['alt'])
    s = case['start'] % n
    idx = [(s + i) % n for i in range(8)]
    f = evaluate(m, 'geopotential', [tab['alt'][i] for i in idx], 0.0)
    for k, col in (('temperature', 'T'), ('static_pressure', 'P'), ('density', 'rho')):
        ctx.close(f[k], [tab[col][i] for i in idx], f'{m}: {k} at table altitudes {idx[0]}..{idx[-1]}', rtol=2e-4)
    d, planet, R, g, rho0 = get_atmosphere_data(AtmosphereModel[m])
    ctx.require(planet == tab['planet'], f'{m}: planet {planet}')
    ctx.close(R[0], tab['R'], f'{m}: radius', rtol=1e-3)
    ctx.close(g[0], tab['g'], f'{m}: gravity', rtol=1e-3)
    z = evaluate(m, 'geopotential', [0.0], 0.0)
    ctx.close(rho0[0], z['density'][0], f'{m}: sea level density', rtol=1e-9)
    ctx.nontrivial()
    ctx.label(m)


fc_st = st.fixed_dictionaries(
    {
        'model': st.sampled_from(MODELS),
        'h': st.lists(frac, min_size=1, max_size=4),
        'mach': st.lists(st.floats(0.01, 2.5).map(lambda x: round(x, 4)), min_size=4, max_size=4),
        'dT': st.sampled_from([0.0, 10.0, -10.0]),
        'h_def': st.sampled_from(['geometric', 'geopotential']),
        'rho0': st.sampled_from([0.00237689, 0.002, 0.0001]),
    }
)
SPEED = {'TAS': ('velocity', 'm/s'), 'EAS': ('EAS', 'm/s'), 'MACH': ('mach', 'unitless')}


def check_fc(case, ctx):
    """The whole atmosphere group with each speed form as the input."""
    tab = TABLES[case['model']]
    lo, hi = tab['alt'][0], min(tab['alt'][-1], 30000.0)
    h = np.array([lo + f * (hi - lo) for f in case['h']])
    nn = len(h)
    mach = np.array(case['mach'][:nn])

    def group(kind):
        p = om.Problem(reports=False)
        p.model.add_subsystem(
            'a',
            Atmosphere(num_nodes=nn, input_speed_type=SpeedType[kind], h_def=case['h_def'], delta_T_Celcius=case['dT']),
            promotes=['*'],
        )
        p.model_options['*'] = {
            'settings:atmosphere_model': AtmosphereModel[case['model']],
            'mission:sea_level_density': (case['rho0'], 'slug/ft**3'),
        }
        with quiet():
            p.setup()
        return p

    q = group('MACH')
    q.set_val('altitude', h, units='m')
    q.set_val('mach', mach)
    q.run_model()
    g = lambda p, n, u: np.array(p.get_val(n, units=u))  # noqa: E731
    rho, a = g(q, 'density', 'kg/m**3'), g(q, 'speed_of_sound', 'm/s')
    V, eas, dp = g(q, 'velocity', 'm/s'), g(q, 'EAS', 'm/s'), g(q, 'dynamic_pressure', 'Pa')
    rho0 = case['rho0'] * 515.3788184
    w = f'{case["model"]} mach {mach.tolist()} at {h.tolist()} m'
    ctx.close(V, mach * a, f'{w}: true airspeed', rtol=1e-7)
    ctx.close(dp, 0.5 * rho * V**2, f'{w}: dynamic pressure', rtol=1e-6)
    ctx.close(eas, V * np.sqrt(rho / rho0), f'{w}: equivalent airspeed', rtol=1e-6)
    f = evaluate(case['model'], case['h_def'], h, case['dT'])
    for k, u in UN.items():
        ctx.close(g(q, k, u), f[k], f'{w}: {k} of the group (offset {case["dT"]})', rtol=1e-9)
    for kind in ('TAS', 'EAS'):
        p = group(kind)
        p.set_val('altitude', h, units='m')
        n, u = SPEED[kind]
        p.set_val(n, {'TAS': V, 'EAS': eas}[kind], units=u)
        p.run_model()
        ctx.close(g(p, 'mach', 'unitless'), mach, f'{w}: Mach number from {kind}', rtol=1e-6)
        ctx.close(g(p, 'velocity', 'm/s'), V, f'{w}: true airspeed from {kind}', rtol=1e-6)
        ctx.close(g(p, 'EAS', 'm/s'), eas, f'{w}: equivalent airspeed from {kind}', rtol=1e-6)
        ctx.close(g(p, 'dynamic_pressure', 'Pa'), dp, f'{w}: dynamic pressure from {kind}', rtol=1e-6)
    ctx.nontrivial()
    ctx.label(case['model'], case['h_def'])


PARTS = [
    Part('atmosphere', atm_st, check_atm, quick=2500, thorough=60000, shards=8),
    Part('tables', knot_st, check_knots, quick=300, thorough=2000, shards=2, enumerate_cases=knots),
    Part('flight_conditions', fc_st, check_fc, quick=800, thorough=15000, shards=8),
]
