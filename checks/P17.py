"""Flight equations against independent vector mechanics."""
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.mission.energy_state.ode.landing_eom import FlareEOM, GlideSlopeForces
from aviary.mission.energy_state.ode.mission_EOM import MissionEOM
from aviary.mission.energy_state.ode.takeoff_eom import ClimbGradientForces, StallSpeed
from aviary.mission.energy_state.ode.takeoff_eom import TakeoffEOM as EnergyTakeoffEOM
from aviary.mission.solved_two_dof.ode.gamma_comp import GammaComp
from aviary.mission.solved_two_dof.ode.groundroll_eom import GroundrollEOM
from aviary.mission.solved_two_dof.ode.unsteady_solved_eom import UnsteadySolvedEOM
from aviary.mission.two_dof.ode.accel_eom import AccelerationRates
from aviary.mission.two_dof.ode.breguet_cruise_eom import ElectricRangeComp, RangeComp
from aviary.mission.two_dof.ode.constraints.flight_constraints import FlightConstraints
from aviary.mission.two_dof.ode.flight_eom import EOMRates
from aviary.mission.two_dof.ode.flight_path_eom import FlightPathEOM
from aviary.mission.two_dof.ode.landing_eom import GlideConditionComponent, LandingGroundRollComponent
from aviary.mission.two_dof.ode.simple_cruise_eom import DistanceComp
from aviary.mission.two_dof.ode.takeoff_eom import TakeoffEOM
from aviary.mission.two_dof.ode.taxi_eom import TaxiFuelComponent
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.variables import Aircraft, Dynamic, Mission
from lib import mission as M
from lib.mission import quiet
from lib.pbt import Discard, Part

PROPERTY = 'P17'
RULE = (
    'Generated masses, speeds, angles, forces, gravity, incidences and friction for every flight-equation component, and '
    'generated trajectory points for the full flight equations of whole problems. Oracle: independent vector mechanics '
    '(force vectors at their angles, acceleration resolved along and across the path), kinematics and energy balance. '
    'Non-trivial: climbing or descending with unbalanced forces.'
)
ASSUMPTIONS = [
    'Two-degree-of-freedom equations are judged with standard gravity (they are defined with Earth weight).',
    'On the ground the flight path is level and, for equations without the limit, the wheels carry load.',
]

LB, LBF, FT, KN = 0.45359237, 4.4482216152605, 0.3048, 1852 / 3600.0
G0 = 9.80665
SLUG = 14.593902937206365
T, A, D = Mission.Takeoff, Dynamic.Atmosphere, Dynamic
MASS, THR, LIFT, DRAG, AOA = D.Vehicle.MASS, D.Vehicle.Propulsion.THRUST_TOTAL, D.Vehicle.LIFT, D.Vehicle.DRAG, D.Vehicle.ANGLE_OF_ATTACK
V, VR, GAM, GAMR = D.Mission.VELOCITY, D.Mission.VELOCITY_RATE, D.Mission.FLIGHT_PATH_ANGLE, D.Mission.FLIGHT_PATH_ANGLE_RATE
H, HR, X, XR = D.Mission.ALTITUDE, D.Mission.ALTITUDE_RATE, D.Mission.DISTANCE, D.Mission.DISTANCE_RATE
TMAX = D.Vehicle.Propulsion.THRUST_MAX_TOTAL
FFN = D.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL

u = st.floats(0, 1).map(lambda x: round(x, 4))
COMPS = ['energy', 'es_takeoff', 'es_ground', 'flare', 'glide_slope', 'climb_gradient', 'stall', 'accel', 'flight', 'flight_path', 'flight_path_ground',
         'td_ascent', 'td_rotation', 'td_groundroll', 'groundroll', 'solved', 'solved_ground', 'gamma', 'taxi', 'simple_cruise', 'breguet', 'electric',
         'constraints', 'glide', 'landing_roll']
case_st = st.fixed_dictionaries(
    {
        'c': st.integers(0, len(COMPS) - 1),
        'nn': st.integers(1, 5),
        'r': st.lists(u, min_size=30, max_size=60),
        'g': st.sampled_from([9.80665, 9.80665, 3.71, 8.87]),
        'inc': st.sampled_from([0.0, 0.02, -0.03, 0.1]),
        'a0': st.sampled_from([0.0, 0.03, -0.02]),
        'mu': st.sampled_from([0.025, 0.0175, 0.3, 0.0]),
        'mu_key': st.integers(0, 1),
        'rate': st.sampled_from([3.33, 1.5, 5.0]),
        'units': st.booleans(),
    }
)


class R:
    def __init__(self, case):
        self.r, self.i, self.nn = case['r'], 0, case['nn']

    def __call__(self, lo, hi, n=None):
        n = self.nn if n is None else n
        out = []
        for _ in range(n):
            v = self.r[self.i % len(self.r)]
            v = (v + 0.618 * (self.i // len(self.r))) % 1.0
            out.append(lo + (hi - lo) * v)
            self.i += 1
        return np.array(out)


def newton(v, gam, m, forces, g):
    """forces: (magnitude, direction above the horizontal). Rates of speed and path angle."""
    ax = sum(f * np.cos(a) for f, a in forces) / m
    ay = sum(f * np.sin(a) for f, a in forces) / m - g
    c, s = np.cos(gam), np.sin(gam)
    return ax * c + ay * s, (ay * c - ax * s) / v


def run(comp, ins, opts=None, nodes=None):
    p = om.Problem(reports=False)
    p.model.add_subsystem('c', comp, promotes=['*'])
    if nodes:
        p.model_options['*'] = opts or {}
    with quiet():
        p.setup()
        for k, (v, un) in ins.items():
            p.set_val(k, v, units=un)
        p.run_model()
    return p


def quantity(case, v, si, eng):
    """A value in SI given in SI or English units."""
    return (v / eng[1], eng[0]) if case['units'] else (v, si)


def check(case, ctx):
    name = COMPS[case['c']]
    rr, nn, g = R(case), case['nn'], case['g']
    m = rr(8e3, 3e5)
    w = m * G0
    v = rr(30, 280)
    gam = rr(-0.25, 0.3)
    aoa = rr(-0.05, 0.25)
    thr = rr(0.0, 0.5) * w
    lift = rr(0.1, 1.4) * w
    drag = rr(0.01, 0.2) * w
    q = lambda x, kind: quantity(case, x, *{'m': ('kg', ('lbm', LB)), 'v': ('m/s', ('kn', KN)), 'f': ('N', ('lbf', LBF)), 'a': ('rad', ('deg', np.pi / 180)),
                                        'h': ('m/s', ('ft/min', FT / 60)), 'acc': ('m/s**2', ('ft/s**2', FT))}[kind])
    inc, a0, mu = case['inc'], case['a0'], case['mu']
    met = {Mission.GRAVITY: (g, 'm/s**2'), T.ANGLE_OF_ATTACK_RUNWAY: (a0, 'rad'), T.THRUST_INCIDENCE: (inc, 'rad')}
    base = {MASS: q(m, 'm'), V: q(v, 'v'), GAM: q(gam, 'a'), AOA: q(aoa, 'a'), THR: q(thr, 'f'), LIFT: q(lift, 'f'), DRAG: q(drag, 'f')}
    pick = lambda *k: {i: base[i] for i in k}
    up = np.pi / 2

    FLOOR = {'N': 1e-7 * w.max(), 'kg': 1e-7 * m.max(), 'm/s': 1e-6, 'm/s**2': 1e-6, 'rad/s': 1e-7}

    def same(p, var, exp, un, rtol=1e-7, atol=1e-9):
        atol = max(atol, FLOOR.get(un, 0.0))
        ctx.close(p.get_val(var, units=un), exp, f'{name}: {var}', rtol=rtol, atol=atol, key=f'{name}|{var}')

    def path(p):
        same(p, XR, v * np.cos(gam), 'm/s')
        same(p, HR, v * np.sin(gam), 'm/s')

    if name == 'energy':
        hr = v * np.sin(gam)
        acc = rr(-2, 2)
        tmax = thr * 1.5 + 100
        p = run(MissionEOM(num_nodes=nn), {**pick(MASS, V, DRAG), HR: q(hr, 'h'), VR: q(acc, 'acc'), TMAX: q(tmax, 'f')}, {Mission.GRAVITY: (g, 'm/s**2')}, True)
        # power balance: (T - D) V = d/dt (m V^2/2 + m g h)
        same(p, 'thrust_required', drag + (m * v * acc + m * g * hr) / v, 'N', atol=1e-5)
        same(p, XR, v * np.cos(gam), 'm/s')
        same(p, D.Mission.SPECIFIC_ENERGY_RATE_EXCESS, (tmax - drag) * v / (m * g), 'm/s')
        same(p, D.Mission.ALTITUDE_RATE_MAX, ((tmax - drag) * v - m * v * acc) / (m * g), 'm/s')
    elif name in ('es_takeoff', 'es_ground'):
        climbing = name == 'es_takeoff'
        ao = AviaryValues()
        key = (T.ROLLING_FRICTION_COEFFICIENT, T.BRAKING_FRICTION_COEFFICIENT)[case['mu_key']]
        ao.set_val(key, mu)
        if not climbing:
            gam = gam * 0
            base[GAM] = q(gam, 'a')
        p = run(EnergyTakeoffEOM(num_nodes=nn, climbing=climbing, friction_key=key, aviary_options=ao), base, met, True)
        if climbing:
            f = [(thr, aoa - a0 + inc + gam), (lift, gam + up), (drag, gam + 2 * up)]
            vd, gd = newton(v, gam, m, f, g)
            same(p, VR, vd, 'm/s**2')
            same(p, GAMR, gd, 'rad/s')
            path(p)
        else:
            n = m * g - lift - thr * np.sin(inc)
            same(p, VR, (thr * np.cos(inc) - drag - mu * n) / m, 'm/s**2')
            same(p, GAMR, gam * 0, 'rad/s')
            same(p, XR, v, 'm/s')
            same(p, HR, v * 0, 'm/s')
        same(p, 'climb_gradient_forces_horizontal', thr * np.cos(aoa - a0 + inc) - drag - m * g * np.sin(gam), 'N', atol=1e-5)
        same(p, 'climb_gradient_forces_vertical', thr * np.sin(aoa - a0 + inc) + lift - m * g * np.cos(gam), 'N', atol=1e-5)
    elif name == 'flare':
        fr = rr(0.1, 6, 1)
        ar = rr(-1, 4)
        p = run(FlareEOM(num_nodes=nn), {**base, Mission.Landing.FLARE_RATE: (fr, 'deg/s'), 'angle_of_attack_rate': (ar, 'deg/s')}, met, True)
        f = [(thr, aoa - a0 + inc + gam), (lift, gam + up), (drag, gam + 2 * up)]
        vd, gd = newton(v, gam, m, f, g)
        same(p, VR, vd, 'm/s**2')
        same(p, GAMR, gd, 'rad/s')
        path(p)
        same(p, 'net_alpha_rate', fr - ar, 'deg/s')
    elif name == 'glide_slope':
        ang = aoa - a0 + inc
        if np.min(np.abs(np.sin(ang))) < 1e-3:
            raise Discard()
        p = run(GlideSlopeForces(num_nodes=nn), pick(MASS, LIFT, DRAG, AOA, GAM), met, True)
        t1 = (drag + m * g * np.sin(gam)) / np.cos(ang)
        t2 = (m * g * np.cos(gam) - lift) / np.sin(ang)
        same(p, 'forces_perpendicular', t1 - t2, 'N', atol=1e-4)
        same(p, 'required_thrust', (t1 + t2) / 2, 'N', atol=1e-4)
    elif name == 'climb_gradient':
        p = run(ClimbGradientForces(num_nodes=nn), pick(MASS, LIFT, DRAG, AOA, GAM, THR), met, True)
        same(p, 'climb_gradient_forces_horizontal', thr * np.cos(aoa - a0 + inc) - drag - m * g * np.sin(gam), 'N', atol=1e-5)
        same(p, 'climb_gradient_forces_vertical', thr * np.sin(aoa - a0 + inc) + lift - m * g * np.cos(gam), 'N', atol=1e-5)
    elif name == 'stall':
        rho, s, cl = rr(0.3, 1.3), rr(10, 500, 1), rr(0.8, 3.2, 1)
        p = run(StallSpeed(num_nodes=nn), {MASS: q(m, 'm'), A.DENSITY: (rho, 'kg/m**3'), Aircraft.Wing.AREA: (s, 'm**2'), 'lift_coefficient_max': (cl, None)},
                {Mission.GRAVITY: (g, 'm/s**2')}, True)
        vs = p.get_val('stall_speed', units='m/s')
        ctx.close(0.5 * rho * vs**2 * s * cl, m * g, f'{name}: lift at the stall speed', rtol=1e-9, key='stall')
    elif name == 'accel':
        p = run(AccelerationRates(num_nodes=nn), pick(MASS, V, THR, DRAG))
        same(p, VR, (thr - drag) / m, 'm/s**2')
        same(p, XR, v, 'm/s')
    elif name == 'flight':
        p = run(EOMRates(num_nodes=nn), pick(MASS, V, THR, DRAG, AOA))
        # steady climb: power balance gives the climb rate
        gs = np.arcsin((thr - drag) / w)
        same(p, GAM, gs, 'rad')
        same(p, HR, v * (thr - drag) / w, 'm/s')
        same(p, XR, np.sqrt(v**2 - (v * (thr - drag) / w) ** 2), 'm/s')
        same(p, 'required_lift', np.sqrt(w**2 - (thr - drag) ** 2) - thr * np.sin(aoa), 'N', atol=1e-4)
    elif name in ('flight_path', 'flight_path_ground', 'td_ascent', 'td_rotation', 'td_groundroll', 'groundroll', 'solved', 'solved_ground'):
        ground = name in ('flight_path_ground', 'td_rotation', 'td_groundroll', 'groundroll', 'solved_ground')
        iw = rr(-0.02, 0.08, 1)
        if name in ('flight_path_ground', 'td_groundroll'):
            aoa = np.full(nn, iw[0])
        if ground:
            gam = gam * 0
            base[GAM] = q(gam, 'a')
        clamp = name in ('td_rotation', 'td_groundroll', 'groundroll')
        if ground and not clamp:
            lift = np.minimum(lift, 0.7 * w - np.maximum(thr * np.sin(aoa - iw), 0))
            base[LIFT] = q(lift, 'f')
        ins = {**base, Aircraft.Wing.INCIDENCE: q(iw, 'a'), T.ROLLING_FRICTION_COEFFICIENT: (mu, None)}
        if name in ('flight_path_ground', 'td_groundroll'):
            del ins[AOA]
        if name.startswith('flight_path'):
            p = run(FlightPathEOM(num_nodes=nn, ground_roll=ground), ins)
        elif name.startswith('td_'):
            p = run(TakeoffEOM(num_nodes=nn, ground_roll=name == 'td_groundroll', rotation=name == 'td_rotation', rotation_pitch_rate=case['rate']), ins)
        elif name == 'groundroll':
            p = run(GroundrollEOM(num_nodes=nn), ins)
        else:
            ins['mass'] = ins.pop(MASS)
            if ground:
                del ins[GAM]
            else:
                dh, d2 = np.tan(gam), rr(-1e-4, 1e-4)
                ins['dh_dr'], ins['d2h_dr2'] = (dh, None), (d2, None)
            p = run(UnsteadySolvedEOM(num_nodes=nn, ground_roll=ground), ins)
        th = aoa - iw
        n = w - lift - thr * np.sin(th)
        if clamp:
            n = np.maximum(n, 0.0)
        f = [(thr, gam + th), (lift, gam + up), (drag, gam + 2 * up)]
        vd, gd = newton(v, gam, m, f, G0)
        if ground:
            vd, gd = (thr * np.cos(th) - drag - mu * n) / m, np.zeros(nn)
        speed = 'dTAS_dt' if name.startswith('solved') else VR
        same(p, speed, vd, 'm/s**2', rtol=2e-8, atol=1e-7)
        if name.startswith('solved'):
            same(p, 'dt_dr', 1 / (v * np.cos(gam)), 's/m')
            if not ground:
                same(p, 'dgam_dt', gd, 'rad/s', rtol=2e-8, atol=1e-8)
                same(p, 'dgam_dt_approx', d2 / (1 + dh**2) * v * np.cos(gam), 'rad/s')
        else:
            if name != 'flight_path_ground':
                same(p, GAMR, gd, 'rad/s', rtol=2e-8, atol=1e-8)
                same(p, HR, v * np.sin(gam), 'm/s')
            same(p, XR, v * np.cos(gam), 'm/s')
        if name != 'groundroll':
            same(p, 'load_factor', (lift + thr * np.sin(th)) / (w * np.cos(gam)), 'unitless', rtol=2e-8)
        same(p, 'fuselage_pitch', gam + th, 'rad')
        if name != 'td_ascent':
            same(p, 'normal_force', n, 'N', rtol=2e-8, atol=1e-2)
        else:
            same(p, 'normal_force', np.zeros(nn), 'N')
        if name.startswith('td_'):
            same(p, 'angle_of_attack_rate', np.full(nn, case['rate'] if name == 'td_rotation' else 0.0), 'deg/s')
    elif name == 'gamma':
        sl, cv = rr(-0.4, 0.4), rr(-1e-3, 1e-3)
        p = run(GammaComp(num_nodes=nn), {'dh_dr': (sl, None), 'd2h_dr2': (cv, None)})
        same(p, GAM, np.arctan(sl), 'rad')
        e = 1e-6
        same(p, 'dgam_dr', (np.arctan(sl + e * cv * 1e3) - np.arctan(sl - e * cv * 1e3)) / (2 * e * 1e3), None, rtol=1e-5, atol=1e-12)
    elif name == 'taxi':
        ff, dur = rr(0.05, 3, 1), float(rr(10, 2000, 1)[0])
        p = run(TaxiFuelComponent(), {FFN: (-ff, 'kg/s'), Mission.GROSS_MASS: (m[:1], 'kg')}, {Mission.Taxi.DURATION: (dur, 's')}, True)
        same(p, 'taxi_fuel_consumed', ff * dur, 'kg')
        same(p, MASS, m[:1] - ff * dur, 'kg')
    elif name == 'simple_cruise':
        t = np.cumsum(rr(10, 900)) + 500
        r0, vv = rr(0, 1e6, 1), np.full(nn, v[0])
        p = run(DistanceComp(num_nodes=nn), {'time': (t, 's'), 'cruise_distance_initial': (r0, 'm'), 'TAS_cruise': (vv, 'm/s')})
        same(p, X, r0 + v[0] * (t - t[0]), 'm', rtol=1e-9, atol=1e-6)
    elif name in ('breguet', 'electric'):
        nn = max(nn, 2)
        rr.nn = nn
        vv = np.full(nn, v[0])
        r0, t0 = rr(0, 1e3, 1), rr(0, 4000, 1)
        if name == 'breguet':
            mm = np.sort(rr(3e4, 9e4))[::-1].copy()
            if np.min(-np.diff(mm), initial=1.0) <= 0:
                raise Discard()
            # constant specific range parameter k = V m / mdot: dx = -k dm/m
            k = float(rr(5e6, 4e7, 1)[0])
            ff = v[0] * mm / k
            p = run(RangeComp(num_nodes=nn), {'TAS_cruise': (vv, 'm/s'), 'mass': (mm, 'kg'), FFN: (-ff, 'kg/s'), 'cruise_distance_initial': (r0, 'NM'),
                                              'cruise_time_initial': (t0, 's')})
            d = k * np.log(mm[0] / mm)
        else:
            e = np.cumsum(rr(10, 900))
            pw = np.full(nn, rr(200, 5000, 1)[0])
            p = run(ElectricRangeComp(num_nodes=nn), {'TAS_cruise': (vv, 'm/s'), D.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED: (e, 'kW*h'),
                    D.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL: (pw, 'kW'), 'cruise_distance_initial': (r0, 'NM'), 'cruise_time_initial': (t0, 's')})
            d = v[0] * (e - e[0]) * 3600 / pw
        same(p, 'cruise_range', r0 + d / 1852, 'NM', rtol=1e-8, atol=1e-6)
        same(p, 'cruise_time', t0 + d / v[0], 's', rtol=1e-8, atol=1e-5)
    elif name == 'constraints':
        rho, s, cl, iw = rr(0.3, 1.3), rr(10, 500, 1), rr(0.8, 3.2), rr(-0.02, 0.08, 1)
        p = run(FlightConstraints(num_nodes=nn), {**pick(MASS, GAM, AOA, V), Aircraft.Wing.AREA: (s, 'm**2'), A.DENSITY: (rho, 'kg/m**3'), 'CL_max': (cl, None),
                                                  Aircraft.Wing.INCIDENCE: (iw, 'rad')})
        vmin = 1.1 * np.sqrt(2 * w / (rho * s * cl))
        same(p, 'TAS_min', vmin, 'm/s', rtol=1e-6)
        same(p, 'TAS_violation', vmin - v, 'm/s', rtol=1e-6, atol=1e-3)
        same(p, 'theta', gam + aoa - iw, 'rad')
    elif name == 'glide':
        mm, s, cl, rho, ratio = m[0], float(rr(10, 500, 1)[0]), float(rr(1, 3.2, 1)[0]), float(rr(0.7, 1.25, 1)[0]), float(rr(1.1, 1.5, 1)[0])
        hh, dt = float(rr(8, 40, 1)[0]), float(rr(0, 3, 1)[0])
        rs = float(rr(2, 8, 1)[0])
        ins = {A.DENSITY: (rho, 'kg/m**3'), Mission.Landing.MAXIMUM_SINK_RATE: (rs, 'm/s'), MASS: (mm, 'kg'), Aircraft.Wing.AREA: (s, 'm**2'),
               Mission.Landing.GLIDE_TO_STALL_RATIO: (ratio, None), 'CL_max': (cl, None), Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR: (1.15, None),
               Mission.Landing.TOUCHDOWN_SINK_RATE: (rs * 0.3, 'm/s'), Mission.Landing.INITIAL_ALTITUDE: (hh, 'm'), Mission.Landing.BRAKING_DELAY: (dt, 's')}
        p = run(GlideConditionComponent(), ins)
        vs = np.sqrt(2 * mm * G0 / (rho * s * cl))
        if rs >= 0.5 * vs * ratio:
            raise Discard()
        same(p, Mission.Landing.STALL_VELOCITY, [vs], 'm/s', rtol=1e-6)
        same(p, Mission.Landing.INITIAL_VELOCITY, [vs * ratio], 'm/s', rtol=1e-6)
        th = np.arcsin(rs / (vs * ratio))
        same(p, 'theta', [th], 'rad', rtol=1e-6)
        same(p, 'glide_distance', [hh / np.tan(th)], 'm', rtol=1e-6)
        gt = rs * 0.3 / (vs * ratio)
        rad = (vs * ratio) ** 2 / (G0 * 0.15)
        # circular pull-up from the glide angle to the touchdown angle (small angles)
        same(p, 'flare_alt', [rad * (th**2 - gt**2) / 2], 'm', rtol=1e-6)
        same(p, 'tr_distance', [rad * th / 2 * (1 - gt / th) ** 2], 'm', rtol=1e-6)
        same(p, 'TAS_touchdown', [vs * (1 + ratio) / 2], 'm/s', rtol=1e-6)
        same(p, 'delay_distance', [vs * (1 + ratio) / 2 * dt], 'm', rtol=1e-6, atol=1e-6)
        same(p, 'wing_loading_land', [mm * G0 / s], 'N/m**2', rtol=1e-6)
    elif name == 'landing_roll':
        mm, s, clm, rho, ratio = m[0], float(rr(20, 500, 1)[0]), float(rr(1, 3.2, 1)[0]), float(rr(0.7, 1.25, 1)[0]), float(rr(1.05, 1.3, 1)[0])
        vs = np.sqrt(2 * mm * G0 / (rho * s * clm))
        vt = vs * ratio
        mub, cd, cl, ti = float(rr(0.15, 0.5, 1)[0]), float(rr(0.06, 0.2, 1)[0]), float(rr(0.0, 0.25, 1)[0]), 0.03 * mm * G0
        if cd - mub * cl < 0.01:
            raise Discard()
        L = Mission.Landing
        dd = rr(100, 900, 3)
        ins = {'touchdown_CD': (cd, None), 'touchdown_CL': (cl, None), L.STALL_VELOCITY: (vs, 'm/s'), 'TAS_touchdown': (vt, 'm/s'), 'thrust_idle': (ti, 'N'),
               'density_ratio': (rho / 1.2249775, None), 'wing_loading_land': (mm * G0 / s, 'N/m**2'), 'glide_distance': (dd[0], 'm'), 'tr_distance': (dd[1], 'm'),
               'delay_distance': (dd[2], 'm'), 'CL_max': (clm, None), MASS: (mm, 'kg'), L.BRAKING_FRICTION_COEFFICIENT: (mub, None)}
        p = run(LandingGroundRollComponent(), ins)
        # integrate the braked roll: m v dv/dx = T - D - mu (W - L)
        qs = 0.5 * rho * s
        a = (mub * mm * G0 - ti) / mm
        b = qs * (cd - mub * cl) / mm
        roll = np.log((a + b * vt**2) / a) / (2 * b)
        same(p, 'ground_roll_distance', [roll], 'm', rtol=6e-3)
        r = p.get_val('ground_roll_distance', units='m')
        same(p, L.GROUND_DISTANCE, r + dd.sum(), 'm')
        same(p, 'average_acceleration', vt**2 / (2 * r * G0), 'unitless', rtol=1e-6)
    ctx.nontrivial(nn > 1 or name in ('taxi', 'glide', 'landing_roll'))
    ctx.label(name)


# --------------------------------------------------------------------------- whole flight equations
KINDS = {
    'FwFm': ['climb', 'cruise', 'descent'], 'multi': ['climb', 'cruise', 'descent'], 'GwFm': None,
    'GwGm': ['rotation', 'ascent', 'accel', 'climb1', 'climb2', 'cruise', 'desc1', 'desc2'], 'FwGm': None,
}
ode_st = st.fixed_dictionaries(
    {
        'k': st.integers(0, 30),
        'nn': st.integers(2, 4),
        'rows': st.lists(st.integers(0, 60), min_size=4, max_size=4),
        'pert': st.lists(st.floats(-0.08, 0.08).map(lambda x: round(x, 4)), min_size=8, max_size=16),
    }
)
ODES = [('FwFm', p) for p in KINDS['FwFm']] + [('multi', p) for p in KINDS['multi']] + [('GwGm', p) for p in KINDS['GwGm']]


def check_ode(case, ctx):
    kind, ph = ODES[case['k'] % len(ODES)]
    nn = case['nn']
    o = M.ode(kind, ph, nn)
    x = M.draw_states(kind, ph, nn, case['rows'], case['pert'])
    x = {k: v for k, v in x.items() if k in o.ins}
    par = {k: v for k, v in M.params(kind, ph).items() if k in o.ins and k not in x}
    try:
        M.run_ode(o, x, par)
    except M.Unconverged as exc:
        ctx.label('unconverged')
        raise Discard() from exc
    q = o.prob
    where = f'{kind} {ph} ({o.cls.__name__})'

    def val(n, un):
        return np.array(q.get_val(n, units=un), dtype=float)

    def has(*n):
        return all(i in o.outs or i in o.ins for i in n)

    def same(what, a, b, rtol=1e-6, atol=1e-6):
        ctx.close(a, b, f'{where}: {what}', rtol=rtol, atol=atol, key=f'{o.cls.__name__}|{what}')

    m, v = val(MASS, 'kg'), val(V, 'm/s')
    thr, drag, lift = val(THR, 'N'), val(DRAG, 'N'), val(LIFT, 'N')
    w = m * G0
    rho = val('density', 'kg/m**3')
    qd = val('dynamic_pressure', 'Pa')
    s = val(Aircraft.Wing.AREA, 'm**2')
    same('dynamic pressure', qd, rho * v**2 / 2, rtol=1e-5)
    same('Mach number', val('mach', None) * val('speed_of_sound', 'm/s'), v, rtol=1e-6)
    same('lift', lift, qd * s * val('lift_coefficient', None), rtol=5e-4)
    same('drag', drag, qd * s * val('drag_coefficient', None), rtol=5e-4)
    cls = o.cls.__name__
    if cls == 'EnergyStateODE':
        hr, vr = val('altitude_rate', 'm/s'), val('velocity_rate', 'm/s**2')
        same('velocity rate', vr, val('mach_rate', '1/s') * val('speed_of_sound', 'm/s'), rtol=1e-6, atol=1e-6)
        same('distance rate', val('distance_rate', 'm/s'), np.sqrt(v**2 - hr**2))
        need = drag + m * (G0 * hr / v + vr)
        same('required thrust', val('thrust_required', 'N'), need, atol=1e-2)
        same('thrust balances the required thrust', thr, need, rtol=1e-5, atol=20)
        same('lift supports the weight', lift, w, rtol=1e-4)
    elif cls == 'FlightODE':
        g = val('flight_path_angle', 'rad')
        same('climb rate', val('altitude_rate', 'm/s'), v * np.sin(g))
        same('distance rate', val('distance_rate', 'm/s'), v * np.cos(g))
        same('thrust excess holds the climb angle', thr - drag, w * np.sin(g), rtol=1e-5, atol=5)
        al = val('angle_of_attack', 'rad')
        same('normal force balance', lift + thr * np.sin(al), w * np.cos(g), rtol=1e-4)
    elif cls == 'AccelODE':
        same('acceleration', val('velocity_rate', 'm/s**2'), (thr - drag) / m)
        same('distance rate', val('distance_rate', 'm/s'), v)
        same('lift supports the weight', lift, w, rtol=1e-4)
    elif cls == 'SimpleCruiseODE':
        same('thrust equals drag', thr, drag, rtol=1e-5, atol=5)
        same('lift supports the weight', lift, w, rtol=1e-4)
    elif cls == 'TakeOffODE':
        g = val('flight_path_angle', 'rad')
        same('climb rate', val('altitude_rate', 'm/s'), v * np.sin(g))
        same('distance rate', val('distance_rate', 'm/s'), v * np.cos(g))
        th = val('angle_of_attack', 'rad') - val(Aircraft.Wing.INCIDENCE, 'rad')
        if ph == 'ascent':
            vd, gd = newton(v, g, m, [(thr, g + th), (lift, g + np.pi / 2), (drag, g + np.pi)], G0)
            same('flight path angle rate', val('flight_path_angle_rate', 'rad/s'), gd)
            same('acceleration', val('velocity_rate', 'm/s**2'), vd)
    if has('specific_energy_rate_excess'):
        tm = val(TMAX, 'N')
        vr = val('velocity_rate', 'm/s**2')
        ps = (tm - drag) * v / w
        same('excess specific power', val('specific_energy_rate_excess', 'm/s'), ps)
        same('maximum climb rate', val('altitude_rate_max', 'm/s'), ps - v * vr / G0)
    ctx.nontrivial()
    ctx.label(where)


PARTS = [
    Part('components', case_st, check, quick=2500, thorough=60000),
    Part('flight_equations', ode_st, check_ode, quick=260, thorough=6000, shards=8),
]
