import math

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.subsystems.atmosphere.atmosphere import Atmosphere
from aviary.subsystems.energy.battery_builder import BatteryBuilder
from aviary.subsystems.propulsion.motor.motor_builder import MotorBuilder
from aviary.subsystems.propulsion.propeller.propeller_map import aliases as prop_aliases
from aviary.subsystems.propulsion.propeller.propeller_performance import PropellerPerformance
from aviary.subsystems.propulsion.propeller.propeller_builder import PropellerBuilder
from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
from aviary.subsystems.propulsion.turboprop_model import TurbopropModel
from aviary.utils.csv_data_file import read_data_file
from aviary.utils.preprocessors import preprocess_propulsion
from aviary.variable_info.enums import SpeedType
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.functions import setup_model_options
from aviary.variable_info.options import get_option_defaults
from aviary.variable_info.variables import Aircraft, Dynamic, Mission, Settings
from lib import formulation as fm
from lib.mission import quiet
from lib.pbt import Discard, Part

PROPERTY = 'P24'
RULE = (
    'Generated motor maps, turboshaft decks and propeller maps (values, units, row orders) feed one or two engine types of a vehicle, with generated gear ratios, efficiencies, counts, speed sources, '
    'sizes and flight points. Non-trivial: a gear ratio and an efficiency other than one, and at least two flight points.'
)
ASSUMPTIONS = ['Generated tables are linear in each argument, so linear interpolation is exact.', "The Hamilton Standard charts themselves are not re-derived; their similarity laws are."]

E = Aircraft.Engine
P = Dynamic.Vehicle.Propulsion
RPM = {'rpm': 1.0, 'rad/s': 30.0 / math.pi}
TORQUE = {'N*m': 1.0, 'lbf*ft': 1.3558179483314, 'kN*m': 1000.0}
HP = 745.69987158227
FT = 0.3048
LBF = 4.4482216152605
SLUG = 14.593902937206364

i9 = st.sampled_from(range(10))
engine_st = st.fixed_dictionaries(
    {
        'electric': st.booleans(),
        'count': st.sampled_from([1, 2, 2, 4]),
        'rpm_design': st.sampled_from([2000.0, 4500.0, 6000.0]),
        'fixed_rpm': st.sampled_from([None, None, 1500.0, 3000.0, 5200.0]),
        'ratio': st.sampled_from([1.0, 1.5, 2.5, 4.0, 5.2]),
        'eff': st.sampled_from([1.0, 0.97, 0.9, 0.8]),
        'scale': st.sampled_from([1.0, 0.5, 1.7, 3.0]),
        'motor': st.fixed_dictionaries(
            {
                'n_rpm': st.sampled_from([2, 3, 4]),
                'n_torque': st.sampled_from([2, 3, 4]),
                'max_rpm': st.sampled_from([6000.0, 7000.0]),
                'max_torque': st.sampled_from([300.0, 1800.0]),
                'first_torque': st.sampled_from([0.0, 0.0, 10.0]),
                'coef': st.lists(i9, min_size=4, max_size=4),
                'order': st.sampled_from(['torque', 'rpm', 'shuffled', 'reversed']),
                'seed': st.sampled_from(range(6)),
                'rpm_units': st.sampled_from(['rpm', 'rpm', 'rad/s']),
                'torque_units': st.sampled_from(['N*m', 'N*m', 'lbf*ft', 'kN*m']),
                'columns': st.permutations([0, 1, 2]),
            }
        ),
        'deck': st.fixed_dictionaries(
            {
                'coef': st.lists(i9, min_size=4, max_size=4),
                'tailpipe': fm.maybe(st.lists(i9, min_size=3, max_size=3)),
                'rpm': fm.maybe(st.sampled_from([2500.0, 4000.0])),
                'max': st.sampled_from([800.0, 2500.0]),
                'machs': st.sampled_from([2, 3]),
            }
        ),
        'propeller': st.sampled_from(['hamilton', 'hamilton', 'file', 'memory']),
        'map': st.fixed_dictionaries({'helical': st.booleans(), 'coef': st.lists(i9, min_size=5, max_size=5), 'seed': st.sampled_from(range(6))}),
        'diameter': st.sampled_from([6.0, 10.5, 13.5]),
        'blades': st.sampled_from([2, 3, 4, 5, 6, 8]),
        'activity': st.sampled_from([90.0, 114.0, 150.0]),
        'cli': st.sampled_from([0.35, 0.5, 0.65]),
        'nacelle': st.sampled_from([2.0, 4.0, 7.0]),
        'install': st.sampled_from([True, True, False]),
        'specific_torque': st.sampled_from([50.0, 100.0]),
        'design_power': st.sampled_from([300.0, 1200.0]),
    }
)
NAMES = ['turboprop', 'turbo']
chain_st = st.fixed_dictionaries(
    {
        'engines': st.lists(engine_st, min_size=1, max_size=2),
        'points': st.lists(
            st.tuples(st.sampled_from([0.0, 0.1, 0.3, 0.45, 0.6]), st.sampled_from([0.0, 3000.0, 12000.0, 25000.0]), st.lists(st.sampled_from([0.02, 0.3, 0.55, 0.8, 1.0]), min_size=2, max_size=2)),
            min_size=1,
            max_size=4,
        ),
        'rpm_control': st.lists(st.sampled_from([900.0, 1400.0, 3000.0, 5000.0]), min_size=4, max_size=4),
        'battery': fm.maybe(
            st.fixed_dictionaries(
                {
                    'pack': st.sampled_from([200.0, 1500.0]),
                    'extra': st.sampled_from([0.0, 40.0]),
                    'density': st.sampled_from([500.0, 900.0]),
                    'eff': st.sampled_from([1.0, 0.9]),
                    'used': st.lists(st.sampled_from([0.0, 1e4, 2e5, 1.5e6]), min_size=4, max_size=4),
                }
            )
        ),
    }
)


def efficiency(m, rpm, torque):
    """Bilinear in the speed and the torque: linear interpolation reproduces it."""
    a = rpm / m['max_rpm']
    b = torque / m['max_torque']
    c = m['coef']
    return 0.6 + 0.01 * c[0] + 0.01 * c[1] * a + 0.01 * c[2] * b + 0.01 * c[3] * a * b


def motor_file(m, path):
    rng = np.random.RandomState(m['seed'])
    speeds = np.concatenate([[0.0], np.sort(rng.permutation(np.arange(1, 10))[: m['n_rpm'] - 2]) / 10.0, [1.0]]) * m['max_rpm']
    torques = np.concatenate([[m['first_torque']], np.sort(rng.permutation(np.arange(1, 10))[: m['n_torque'] - 2]) / 10.0 * m['max_torque'], [m['max_torque']]])
    if m['order'] == 'rpm':
        rows = [(r, t) for r in speeds for t in torques]
    else:
        rows = [(r, t) for t in torques for r in speeds]
    if m['order'] == 'reversed':
        rows = rows[::-1]
    elif m['order'] == 'shuffled':
        rows = [rows[k] for k in rng.permutation(len(rows))]
    names = [f'rotations_per_minute ({m["rpm_units"]}, input)', f'torque_unscaled ({m["torque_units"]}, input)', 'efficiency (unitless, output)']
    lines = [', '.join(names[k] for k in m['columns'])]
    for r, t in rows:
        v = [r / RPM[m['rpm_units']], t / TORQUE[m['torque_units']], efficiency(m, r, t)]
        lines.append(', '.join('%.15g' % v[k] for k in m['columns']))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def deck_power(d, mach, alt, throttle):
    c = d['coef']
    return d['max'] * (0.05 + throttle) * (1.0 + 0.03 * c[0] * mach - 0.004 * c[1] * alt / 1000.0)


def deck_fuel(d, mach, alt, throttle):
    c = d['coef']
    return 100.0 + 0.3 * d['max'] * throttle + 10.0 * c[2] * mach + c[3] * alt / 1000.0


def deck_thrust(d, mach, alt, throttle):
    if d['tailpipe'] is None:
        return 0.0
    c = d['tailpipe']
    return 10.0 + 10.0 * c[0] * throttle + 4.0 * c[1] * mach + 0.3 * c[2] * alt / 1000.0


def deck_file(d, path):
    machs = [0.0, 0.3, 0.8] if d['machs'] == 3 else [0.0, 0.8]
    lines = ['Altitude (ft), Mach_Number, Throttle, Shaft_Power (hp), Fuel_Flow (lb/h)' + (', Tailpipe_Thrust (lbf)' if d['tailpipe'] is not None else '') + (', RPM (rpm)' if d['rpm'] is not None else '')]
    for mach in machs:
        for alt in (0.0, 10000.0, 30000.0):
            for throttle in (0.0, 0.5, 1.0):
                v = [alt, mach, throttle, deck_power(d, mach, alt, throttle), deck_fuel(d, mach, alt, throttle)]
                if d['tailpipe'] is not None:
                    v.append(deck_thrust(d, mach, alt, throttle))
                if d['rpm'] is not None:
                    v.append(d['rpm'] * (0.5 + 0.5 * throttle))
                lines.append(', '.join('%.15g' % x for x in v))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def map_ct(m, mach, cp, j):
    c = m['coef']
    return 0.02 + 0.01 * c[0] + 0.3 * c[1] / 9.0 * cp - 0.01 * c[2] * j + 0.01 * c[3] * mach + 0.01 * c[4] * cp * j


def map_file(m, path):
    rng = np.random.RandomState(m['seed'])
    rows = [(a, b, c) for a in (0.0, 0.5, 1.5) for b in (0.0, 0.4, 1.0) for c in (0.0, 1.0, 6.0)]
    if m['seed'] % 2:
        rows = [rows[k] for k in rng.permutation(len(rows))]
    lines = [('Helical_Mach' if m['helical'] else 'Mach_Number') + ', CP, J, CT']
    for a, b, c in rows:
        lines.append('%.15g, %.15g, %.15g, %.15g' % (a, b, c, map_ct(m, a, b, c)))
    # column flags are part of the header of a propeller map
    lines[0] = ', '.join(f'{n.strip()} (unitless, {"output" if n.strip() == "CT" else "input"})' for n in lines[0].split(','))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def engine_options(e, i):
    o = get_option_defaults(engine=False)
    if e['scale'] != 3.0:
        o.delete(E.FIXED_RPM)  # the default means the same as none
    o.set_val(Settings.VERBOSITY, 0)
    o.set_val(E.NUM_ENGINES, e['count'])
    o.set_val(E.SUBSONIC_FUEL_FLOW_SCALER, 1.0)
    o.set_val(E.SUPERSONIC_FUEL_FLOW_SCALER, 1.0)
    o.set_val(E.FUEL_FLOW_SCALER_CONSTANT_TERM, 0.0)
    o.set_val(E.FUEL_FLOW_SCALER_LINEAR_TERM, 0.0)
    o.set_val(E.CONSTANT_FUEL_MASS_CONSUMPTION, 0.0, units='lbm/h')
    o.set_val(E.GENERATE_FLIGHT_IDLE, False)
    o.set_val(E.IGNORE_NEGATIVE_THRUST, False)
    o.set_val(E.GEOPOTENTIAL_ALT, False)
    o.set_val(E.INTERPOLATION_METHOD, 'slinear')
    o.set_val(E.SCALE_FACTOR, e['scale'])
    o.set_val(E.RPM_DESIGN, e['rpm_design'], units='rpm')
    if e['fixed_rpm'] is not None:
        o.set_val(E.FIXED_RPM, e['fixed_rpm'], units='rpm')
    o.set_val(E.Gearbox.GEAR_RATIO, e['ratio'])
    o.set_val(E.Gearbox.EFFICIENCY, e['eff'])
    o.set_val(E.Gearbox.SPECIFIC_TORQUE, e['specific_torque'], units='N*m/kg')
    o.set_val(E.Gearbox.SHAFT_POWER_DESIGN, e['design_power'], units='kW')
    o.set_val(E.Propeller.COMPUTE_INSTALLATION_LOSS, e['install'])
    o.set_val(E.Propeller.NUM_BLADES, e['blades'])
    o.set_val(E.Propeller.DIAMETER, e['diameter'], units='ft')
    o.set_val(E.Propeller.ACTIVITY_FACTOR, e['activity'])
    o.set_val(E.Propeller.INTEGRATED_LIFT_COEFFICIENT, e['cli'])
    o.set_val(E.Propeller.TIP_SPEED_MAX, 900.0, units='ft/s')
    o.set_val(E.Propeller.TIP_MACH_MAX, 1.0)
    o.set_val(Aircraft.Nacelle.AVG_DIAMETER, e['nacelle'], units='ft')
    propeller = None
    if e['electric']:
        motor_file(e['motor'], f'motor{i}.csv')
        o.set_val(E.Motor.DATA_FILE, f'motor{i}.csv')
        power = MotorBuilder(name=f'motor{i}')
    else:
        deck_file(e['deck'], f'deck{i}.csv')
        o.set_val(E.DATA_FILE, f'deck{i}.csv')
        power = None
    if e['propeller'] != 'hamilton':
        map_file(e['map'], f'map{i}.csv')
        if e['propeller'] == 'file':
            o.set_val(E.Propeller.DATA_FILE, f'map{i}.csv')
        else:
            data, _, _ = read_data_file(f'map{i}.csv', aliases=prop_aliases)
            propeller = PropellerBuilder(name='propeller', data=data)
    return TurbopropModel(name=NAMES[i], options=o, shaft_power_model=power, propeller_model=propeller)


class Vehicle(om.Group):
    """Values of the user become the defaults of the inputs, as in AviaryGroup."""

    def configure(self):
        names = set()
        for sub in self._subgroups_myproc:
            if sub.name in ('pre_mission', 'mission'):
                names |= {m['prom_name'] for m in sub.list_inputs(out_stream=None, return_format='dict', prom_name=True, units=False, val=False).values()}
        for key, (val, units) in self.user_options.items():
            if key in names:
                self.set_input_defaults(key, val=val, units=units)


def build(case):
    n = len(case['points'])
    engines = [engine_options(e, i) for i, e in enumerate(case['engines'])]
    options = get_option_defaults(engine=False)
    options.delete(E.FIXED_RPM)
    options.set_val(Settings.VERBOSITY, 0)
    options.set_val(Mission.SEA_LEVEL_DENSITY, 0.0023769, units='slug/ft**3')
    preprocess_propulsion(options, engines, verbosity=0)
    builder = CorePropulsionBuilder('propulsion', engine_models=engines)
    model = Vehicle()
    model.user_options = options
    prob = om.Problem(model, reports=False)
    ivc = om.IndepVarComp()
    ivc.add_output(Dynamic.Atmosphere.MACH, np.array([p[0] for p in case['points']]), units='unitless')
    ivc.add_output(Dynamic.Mission.ALTITUDE, np.array([p[1] for p in case['points']]), units='ft')
    throttles = np.array([p[2][: len(engines)] for p in case['points']])
    ivc.add_output(P.THROTTLE, throttles if len(engines) > 1 else throttles[:, 0], units='unitless')
    prob.model.add_subsystem('ivc', ivc, promotes=['*'])
    prob.model.add_subsystem('atmosphere', Atmosphere(num_nodes=n, input_speed_type=SpeedType.MACH), promotes=['*'])
    pre = prob.model.add_subsystem('pre_mission', om.Group(), promotes=['*'])
    pre.add_subsystem('propulsion', builder.build_pre_mission(options, {}), promotes=['*'])
    mission = prob.model.add_subsystem('mission', om.Group(), promotes=['*'])
    mission.add_subsystem('propulsion', builder.build_mission(n, options, {}, {}), promotes=['*'])
    if case['battery']:
        battery = BatteryBuilder()
        pre.add_subsystem('battery', battery.build_pre_mission(options), promotes=['*'])
        mission.add_subsystem('battery', battery.build_mission(n, options), promotes=['*'])
    setup_model_options(prob, options, engine_models=engines)
    return prob, engines, options


def atmosphere(alt_ft):
    h = alt_ft * FT
    t = 288.15 - 0.0065 * h
    rho = 1.225 * (t / 288.15) ** (9.80665 / (0.0065 * 287.05287) - 1.0)
    return rho, math.sqrt(1.4 * 287.05287 * t)


def close(ctx, got, want, tol, msg):
    ctx.require(abs(got - want) <= tol * max(abs(want), abs(got)) + 1e-9, f'{msg}: {got} instead of {want}')


def power_train(e, mach, alt, throttle, control):
    """Shaft power of the engine [W], its speed [rpm], and its electric power [W]."""
    if e['electric']:
        m = e['motor']
        rpm = e['fixed_rpm'] if e['fixed_rpm'] is not None else e['rpm_design'] * math.sqrt(throttle)
        torque = throttle * m['max_torque']
        shaft = torque * e['scale'] * rpm * math.pi / 30.0
        return shaft, rpm, shaft / efficiency(m, rpm, torque)
    d = e['deck']
    rpm = control
    if e['fixed_rpm'] is not None:
        rpm = e['fixed_rpm']
    elif d['rpm'] is not None:
        rpm = d['rpm'] * (0.5 + 0.5 * throttle)
    return deck_power(d, mach, alt, throttle) * e['scale'] * HP, rpm, 0.0


def check_chain(case, ctx):
    n = len(case['points'])
    es = case['engines']
    with quiet():
        prob, engines, options = build(case)
        prob.setup()
        prob.final_setup()
        control = f'{P.RPM}_control'
        names = {m['prom_name'] for m in prob.model.list_inputs(out_stream=None, return_format='dict', prom_name=True, units=False, val=False).values()}
        wanted = any(not e['electric'] and e['fixed_rpm'] is None and e['deck']['rpm'] is None for e in es)
        ctx.require((control in names) == wanted, f'the speed is {"a control" if control in names else "no control"} of the vehicle')
        if wanted:
            prob.set_val(control, case['rpm_control'][:n], units='rpm')
        if case['battery']:
            b = case['battery']
            prob.set_val(Aircraft.Battery.PACK_MASS, b['pack'], units='kg')
            prob.set_val(Aircraft.Battery.ADDITIONAL_MASS, b['extra'], units='kg')
            prob.set_val(Aircraft.Battery.PACK_ENERGY_DENSITY, b['density'], units='kJ/kg')
            prob.set_val(Aircraft.Battery.EFFICIENCY, b['eff'])
            prob.set_val(Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED, b['used'][:n], units='kJ')
        prob.run_model()

    def get(name, units):
        return np.array(prob.get_val(name, units=units))

    if n > 1 and any(e['ratio'] != 1.0 for e in es) and any(e['eff'] != 1.0 for e in es):
        ctx.nontrivial()
    for e in es:
        ctx.label(f'{"electric" if e["electric"] else "deck"} {e["propeller"]}')
    ctx.label(f'{len(es)} engine types')
    shape = (n, len(es))
    val = {k: get(k, u).reshape(shape) for k, u in (
        (P.SHAFT_POWER, 'kW'), (P.SHAFT_POWER_MAX, 'kW'), (P.RPM, 'rpm'), (P.THRUST, 'N'), (P.THRUST_MAX, 'N'),
        (P.ELECTRIC_POWER_IN, 'kW'), (P.FUEL_MASS_FLOW_RATE_NEGATIVE, 'lbm/h'), (P.PROPELLER_TIP_SPEED, 'm/s'))}
    for i, e in enumerate(es):
        who = f'engine {i} ({"electric" if e["electric"] else "deck"})'
        d_si = e['diameter'] * FT
        for k, (mach, alt, throttles) in enumerate(case['points']):
            at = f'at Mach {mach}, {alt} ft, throttle {throttles[i]}'
            for which, throttle in ((0, throttles[i]), (1, 1.0)):
                shaft, rpm, electric = power_train(e, mach, alt, throttle, case['rpm_control'][k])
                out = shaft * e['eff']
                prop_rpm = rpm / e['ratio']
                close(ctx, val[P.SHAFT_POWER_MAX if which else P.SHAFT_POWER][k, i], out / 1e3, 1e-6, f'{"maximum " * which}power behind the gearbox of {who} {at}')
                # thrust
                n_s = prop_rpm / 60.0
                rho, sos = atmosphere(alt)
                tip = math.pi * n_s * d_si
                tail = 0.0 if e['electric'] else deck_thrust(e['deck'], mach, alt, throttle) * e['scale'] * LBF
                thrust = val[P.THRUST_MAX if which else P.THRUST][k, i]
                prop_thrust = thrust - tail
                path = 'mission.propulsion.' + engines[i].name + '.' + ('max' if which else 'base') + '.propeller.'
                j = max(mach * sos, 1e-6) / (n_s * d_si)
                cp = out / (rho * n_s**3 * d_si**5)
                ct = float(get(path + 'thrust_coefficient_comp_loss', None)[k])
                loss = float(get(path + 'install_loss_factor', None)[k])
                close(ctx, float(get(path + 'power_coefficient', None)[k]), cp, 2e-3, f'power coefficient of {who} {at}')
                if mach > 0:
                    close(ctx, float(get(path + 'advance_ratio', None)[k]), j, 2e-3, f'advance ratio of {who} {at}')
                else:
                    ctx.require(abs(float(get(path + 'advance_ratio', None)[k])) < 1e-4, f'advance ratio of {who} at rest')
                if e['propeller'] != 'hamilton':
                    m = math.hypot(mach, tip / sos) if e['map']['helical'] else mach
                    want = map_ct(e['map'], m, cp, j)
                    ctx.require(abs(ct - want) <= 5e-3 * max(abs(want), cp, j), f'thrust coefficient of {who} {at}: {ct} instead of {want}')
                if e['install']:
                    ctx.require(-1e-6 <= loss < 0.6, f'installation loss {loss} of {who} {at}')
                else:
                    ctx.require(abs(loss) <= 1e-12, f'installation loss {loss} of {who} that has none')
                ctx.require(abs(prop_thrust - ct * rho * n_s**2 * d_si**4 * (1 - loss)) <= 3e-3 * max(abs(prop_thrust), abs(thrust)) + 1e-3, f'propeller thrust of {who} {at}: {prop_thrust} instead of {ct * rho * n_s**2 * d_si**4 * (1 - loss)}')
                if which:
                    continue
                close(ctx, val[P.RPM][k, i], prop_rpm, 1e-6, f'propeller speed of {who} {at}')
                close(ctx, val[P.PROPELLER_TIP_SPEED][k, i], tip, 1e-6, f'tip speed of {who} {at}')
                close(ctx, val[P.ELECTRIC_POWER_IN][k, i], electric / 1e3, 1e-6, f'electric power of {who} {at}')
                fuel = 0.0 if e['electric'] else -deck_fuel(e['deck'], mach, alt, throttle) * e['scale']
                close(ctx, val[P.FUEL_MASS_FLOW_RATE_NEGATIVE][k, i], fuel, 1e-6, f'fuel flow of {who} {at}')
                torque = float(get(f'mission.propulsion.{engines[i].name}.base.{P.TORQUE}', 'N*m')[k])
                close(ctx, torque, out / (prop_rpm * math.pi / 30.0), 1e-6, f'torque behind the gearbox of {who} {at}')
    counts = np.array([e['count'] for e in es], dtype=float)
    for one, total, units in (
        (P.THRUST, P.THRUST_TOTAL, 'N'),
        (P.THRUST_MAX, P.THRUST_MAX_TOTAL, 'N'),
        (P.ELECTRIC_POWER_IN, P.ELECTRIC_POWER_IN_TOTAL, 'kW'),
        (P.FUEL_MASS_FLOW_RATE_NEGATIVE, P.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL, 'lbm/h'),
    ):
        for k in range(n):
            close(ctx, float(get(total, units)[k]), float(val[one][k] @ counts), 1e-6, f'{total} of the vehicle')
    # an engine does not depend on the other one
    if len(es) > 1:
        for i in range(2):
            alone = dict(case, engines=[es[i]], points=[(p[0], p[1], [p[2][i]] * 2) for p in case['points']], battery=None)
            with quiet():
                other, _, _ = build(alone)
                other.setup()
                other.final_setup()
                if not es[i]['electric'] and es[i]['fixed_rpm'] is None and es[i]['deck']['rpm'] is None:
                    other.set_val(control, case['rpm_control'][:n], units='rpm')
                other.run_model()
            for key in (P.THRUST, P.THRUST_MAX, P.SHAFT_POWER):
                mine = np.array(other.get_val(key, units='N' if key != P.SHAFT_POWER else 'kW')).ravel()
                for k in range(n):
                    close(ctx, val[key][k, i], mine[k], 1e-9, f'{key} of engine {i} with another engine')
    # sizing
    for i, e in enumerate(es):
        prefix = f'pre_mission.propulsion.{engines[i].name}.'
        mass = e['design_power'] * 1e3 / (e['rpm_design'] / e['ratio'] * math.pi / 30.0) / e['specific_torque']
        close(ctx, float(get(Aircraft.Engine.Gearbox.MASS, 'kg').ravel()[i]), mass, 1e-6, f'gearbox mass of engine {i}')
        if e['electric']:
            torque = e['motor']['max_torque'] * e['scale']
            close(ctx, float(get(Aircraft.Engine.Motor.TORQUE_MAX, 'N*m').ravel()[i]), torque, 1e-6, f'maximum torque of motor {i}')
            close(ctx, float(get(Aircraft.Engine.Motor.MASS, 'kg').ravel()[i]), 0.3151 * torque**0.748, 1e-6, f'mass of motor {i}')
    if case['battery']:
        b = case['battery']
        close(ctx, float(get(Aircraft.Battery.MASS, 'kg')[0]), b['pack'] + b['extra'], 1e-9, 'battery mass')
        cap = b['pack'] * b['density']
        close(ctx, float(get(Aircraft.Battery.ENERGY_CAPACITY, 'kJ')[0]), cap, 1e-9, 'battery capacity')
        for k in range(n):
            close(ctx, float(get(Dynamic.Vehicle.BATTERY_STATE_OF_CHARGE, None)[k]), 1.0 - b['used'][k] / b['eff'] / cap, 1e-9, 'state of charge')


# ---------------------------------------------------------------------------------------------
# similarity laws of the propeller
prop_st = st.fixed_dictionaries(
    {
        'diameter': st.floats(4.0, 16.0),
        'nacelle': st.floats(0.05, 0.8),  # of the diameter
        'blades': st.sampled_from([2, 3, 4, 5, 6, 7, 8]),
        'activity': st.floats(80.0, 200.0),
        'cli': st.floats(0.3, 0.8),
        'install': st.booleans(),
        'points': st.lists(
            st.fixed_dictionaries(
                {'tip': st.floats(300.0, 850.0), 'j': st.floats(0.0, 3.0), 'cp': st.floats(0.01, 0.4), 'rho': st.floats(0.0007, 0.0024), 'sos': st.floats(960.0, 1120.0)}
            ),
            min_size=1,
            max_size=4,
        ),
        'scale': st.sampled_from([0.5, 1.3, 2.0]),
        'dense': st.sampled_from([0.6, 1.5]),
        'order': st.permutations([0, 1, 2, 3]),
    }
)


def propeller(case, points, size=1.0, dense=1.0):
    n = len(points)
    o = AviaryValues()
    o.set_val(E.Propeller.COMPUTE_INSTALLATION_LOSS, case['install'])
    o.set_val(E.Propeller.NUM_BLADES, case['blades'])
    o.set_val(Mission.SEA_LEVEL_DENSITY, 0.0023769, units='slug/ft**3')
    o.set_val(Settings.VERBOSITY, 0)
    prob = om.Problem(reports=False)
    prob.model.add_subsystem('p', PropellerPerformance(num_nodes=n, aviary_options=o), promotes=['*'])
    setup_model_options(prob, o)
    prob.setup()
    prob.final_setup()
    d = case['diameter'] * size
    prob.set_val(E.Propeller.DIAMETER, d, units='ft')
    if case['install']:
        prob.set_val(Aircraft.Nacelle.AVG_DIAMETER, case['nacelle'] * d, units='ft')
    prob.set_val(E.Propeller.ACTIVITY_FACTOR, case['activity'])
    prob.set_val(E.Propeller.INTEGRATED_LIFT_COEFFICIENT, case['cli'])
    prob.set_val(E.Propeller.TIP_SPEED_MAX, 1000.0, units='ft/s')
    prob.set_val(E.Propeller.TIP_MACH_MAX, 1.5)
    tip = np.array([p['tip'] for p in points])
    revs = tip / math.pi / d
    v = np.array([p['j'] for p in points]) * revs * d
    rho = np.array([p['rho'] for p in points]) * dense
    power = np.array([p['cp'] for p in points]) * rho * revs**3 * d**5
    prob.set_val(P.RPM, revs * 60.0, units='rpm')
    prob.set_val(Dynamic.Mission.VELOCITY, v, units='ft/s')
    prob.set_val(Dynamic.Atmosphere.DENSITY, rho, units='slug/ft**3')
    sos = np.array([p['sos'] for p in points])
    prob.set_val(Dynamic.Atmosphere.SPEED_OF_SOUND, sos, units='ft/s')
    prob.set_val(Dynamic.Atmosphere.MACH, v / sos)
    prob.set_val(P.SHAFT_POWER, power / 550.0, units='hp')
    try:
        prob.run_model()
    except ValueError as err:
        # the charts have no solution for some lightly loaded propellers, which is reported
        if 'Integrated design cl adjustment' in str(err) and min(p['cp'] for p in points) < 0.1:
            raise Discard('no solution of the charts')
        raise
    out = {k: np.array(prob.get_val(k)) for k in ('propeller_efficiency', 'install_efficiency', 'install_loss_factor', 'power_coefficient', 'advance_ratio', 'thrust_coefficient_comp_loss')}
    out['thrust'] = np.array(prob.get_val(P.THRUST, units='lbf'))
    out['useful'] = out['thrust'] * v
    out['power'] = power
    return out


def check_propeller(case, ctx):
    pts = case['points']
    with quiet():
        a = propeller(case, pts)
    if len(pts) > 1 and any(p['j'] > 0.1 for p in pts):
        ctx.nontrivial()
    ctx.label(f'{case["blades"]} blades')
    for k, p in enumerate(pts):
        at = f'point {k}'
        close(ctx, a['power_coefficient'][k], p['cp'], 2e-3, f'power coefficient at {at}')
        ctx.require(abs(a['advance_ratio'][k] - p['j']) <= 1e-4 + 1e-6 * p['j'], f'advance ratio at {at}: {a["advance_ratio"][k]} instead of {p["j"]}')
        # thrust times speed is the efficiency times the power
        ctx.require(abs(a['useful'][k] - a['install_efficiency'][k] * a['power'][k]) <= 4e-3 * abs(a['useful'][k]) + 1e-3 * a['power'][k] * 1e-1, f'{at}: thrust power {a["useful"][k]}, efficiency {a["install_efficiency"][k]} of {a["power"][k]}')
        close(ctx, a['install_efficiency'][k], a['propeller_efficiency'][k] * (1.0 - a['install_loss_factor'][k]), 1e-9, f'installed efficiency at {at}')
        ctx.require(-1e-9 <= a['install_loss_factor'][k] < 0.6, f'installation loss {a["install_loss_factor"][k]} at {at}')
        if not case['install']:
            ctx.require(a['install_loss_factor'][k] == 0.0, f'installation loss {a["install_loss_factor"][k]} that is not requested')
        ctx.require(np.isfinite(a['thrust'][k]), f'thrust {a["thrust"][k]} at {at}')
    with quiet():
        b = propeller(case, pts, size=case['scale'])
        c = propeller(case, pts, dense=case['dense'])
        order = [k for k in case['order'] if k < len(pts)]
        d = propeller(case, [pts[k] for k in order])
    for k in range(len(pts)):
        big = max(abs(a['thrust'][k]), 1e-3)
        ctx.require(abs(b['thrust'][k] - a['thrust'][k] * case['scale'] ** 2) <= 1e-5 * big * case['scale'] ** 2, f'thrust of a propeller {case["scale"]} times as big: {b["thrust"][k]} for {a["thrust"][k]} at point {k}')
        ctx.require(abs(c['thrust'][k] - a['thrust'][k] * case['dense']) <= 1e-5 * big * case['dense'], f'thrust in air {case["dense"]} times as dense: {c["thrust"][k]} for {a["thrust"][k]} at point {k}')
    for pos, k in enumerate(order):
        for key in ('thrust', 'install_efficiency', 'install_loss_factor'):
            close(ctx, d[key][pos], a[key][k], 1e-9, f'{key} at point {k} moved to place {pos}')


PARTS = [
    Part('chain', chain_st, check_chain, quick=160, thorough=5000, shards=8, case_limit=60, shrink_budget=30),
    Part('propeller', prop_st, check_propeller, quick=120, thorough=4000, shards=8, case_limit=60, shrink_budget=30),
]
