"""Whole Aviary problems (built with the public API) and standalone copies of their mission ODEs."""

import contextlib
import io
import os
import warnings
from copy import deepcopy

import numpy as np

warnings.simplefilter('ignore')
import openmdao.api as om  # noqa: E402

import aviary.api as av  # noqa: E402
from aviary.variable_info.functions import setup_model_options  # noqa: E402

TM = 'validation_cases/validation_data/test_models/'


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                yield


def kinds():
    return sorted(BUILDERS)


def _es():
    from aviary.models.missions.energy_state_default import phase_info

    return deepcopy(phase_info)


def _td():
    from aviary.models.missions.two_dof_default import phase_info

    return deepcopy(phase_info)


def _gwfm():
    from aviary.validation_cases.validation_data.test_models.GwFm_phase_info import phase_info

    return deepcopy(phase_info)


def _plain(csv, pi, ext=None):
    def load():
        p = av.AviaryProblem(verbosity=0)
        p.load_inputs(csv, pi())
        return p

    return load


def _multi():
    from aviary.subsystems.propulsion.utils import build_engine_deck
    from aviary.validation_cases.validation_data.test_data.multi_engine_single_aisle_data import (
        engine_1_inputs,
        engine_2_inputs,
        inputs,
    )

    pi = _es()
    for n in ('climb', 'cruise', 'descent'):
        u = pi[n]['user_options']
        u['mach_optimize'] = False
        u['mach_polynomial_order'] = 1
        u['altitude_optimize'] = False
        u['altitude_polynomial_order'] = 1
        u['throttle_enforcement'] = 'path_constraint'
    inputs = deepcopy(inputs)
    inputs.set_val(av.Aircraft.Nacelle.LAMINAR_FLOW_LOWER, np.zeros(2))
    inputs.set_val(av.Aircraft.Nacelle.LAMINAR_FLOW_UPPER, np.zeros(2))
    e1 = build_engine_deck(deepcopy(engine_1_inputs))
    e1.name = 'engine_1'
    e2 = build_engine_deck(deepcopy(engine_2_inputs))
    e2.name = 'engine_2'
    p = av.AviaryProblem(verbosity=0)
    p.load_inputs(inputs, pi)
    p.load_external_subsystems([e1, e2])
    return p


def _turboprop():
    from aviary.models.aircraft.large_turboprop_freighter.phase_info import two_dof_phase_info
    from aviary.subsystems.propulsion.turboprop_model import TurbopropModel
    from aviary.utils.process_input_decks import create_vehicle

    options, _ = create_vehicle(
        'models/aircraft/large_turboprop_freighter/large_turboprop_freighter_GASP.csv'
    )
    options.set_val(av.Settings.PROBLEM_TYPE, 'SIZING')
    options.set_val(av.Settings.VERBOSITY, 0)
    tp = TurbopropModel('turboprop', options=options)
    p = av.AviaryProblem(verbosity=0)
    p.load_inputs(options, deepcopy(two_dof_phase_info))
    p.load_external_subsystems([tp])
    return p


BUILDERS = {
    'FwFm': _plain(TM + 'aircraft_for_bench_FwFm.csv', _es),
    'GwGm': _plain(TM + 'aircraft_for_bench_GwGm.csv', _td),
    'FwGm': _plain(TM + 'aircraft_for_bench_FwGm.csv', _td),
    'GwFm': _plain(TM + 'aircraft_for_bench_GwFm.csv', _gwfm),
    'multi': _multi,
    'turboprop': _turboprop,
}


def build(kind, run=True):
    """A fresh AviaryProblem of one kind, set up (and run once)."""
    with quiet():
        p = BUILDERS[kind]()
        p.check_and_preprocess_inputs()
        p.build_model()
        p.setup()
        p.set_initial_guesses()
        if run:
            om.Problem.run_model(p)
    return p


_cache = {}


def problem(kind):
    """The shared problem of one kind in this worker process."""
    if kind not in _cache:
        _cache[kind] = build(kind)
    return _cache[kind]


AMBIG = {
    'mach': 'unitless',
    'altitude': 'ft',
    'velocity': 'ft/s',
    'mass': 'lbm',
    'throttle': 'unitless',
    'altitude_rate': 'ft/s',
    'velocity_rate': 'ft/s**2',
}


class ODE:
    """A standalone problem holding one phase's ODE with nn nodes."""

    def __init__(self, kind, phase, nn):
        p = problem(kind)
        ph = p.model.traj._phases[phase]
        self.kind, self.phase, self.nn = kind, phase, nn
        kw = dict(ph.options['ode_init_kwargs'])
        self.cls = ph.options['ode_class']
        defaults = {}
        for _ in range(6):
            q = om.Problem(reports=False)
            q.model = om.Group()
            q.model.add_subsystem('ode', self.cls(num_nodes=nn, **kw), promotes=['*'])
            for k, (v, u) in defaults.items():
                q.model.set_input_defaults(k, val=v, units=u)
            setup_model_options(q, p.aviary_inputs, p.meta_data, engine_models=p.model.engine_models)
            with quiet():
                try:
                    q.setup()
                    q.final_setup()
                    break
                except RuntimeError as exc:
                    msg = str(exc)
                    found = [k for k in AMBIG if f"'{k}' is ambiguous" in msg and k not in defaults]
                    if not found:
                        raise
                    for k in found:
                        defaults[k] = (np.ones(nn), AMBIG[k])
        self.solvers = False
        for s in q.model.system_iter(include_self=True, recurse=True, typ=om.Group):
            if s.nonlinear_solver is not None:
                opt = s.nonlinear_solver.options
                opt['iprint'] = -1
                if not isinstance(s.nonlinear_solver, om.NonlinearRunOnce):
                    # converge as far as the arithmetic allows, so that results can be compared
                    opt['rtol'] = 1e-15
                    opt['atol'] = 1e-13
                    opt['maxiter'] = max(opt['maxiter'], 25)
                    opt['err_on_non_converge'] = False
                    self.solvers = True
            if s.linear_solver is not None:
                s.linear_solver.options['iprint'] = -1
        self.prob = q
        with quiet():
            meta = q.model.list_inputs(
                out_stream=None, prom_name=True, val=False, shape=True, units=True, is_indep_var=True
            )
        self.ins = {}
        for _, m in meta:
            self.ins.setdefault(m['prom_name'], tuple(m['shape']))
        self.units = {n: _units(q, n) for n in self.ins}
        self.node = {n: (len(s) > 0 and s[0] == nn and nn > 1) for n, s in self.ins.items()}
        self.start = None

    def base(self, name):
        """Value(s) of an input in the parent problem: (array over parent nodes or parameter)."""
        p = problem(self.kind)
        u = self.units[name]
        for path in (f'traj.phases.{self.phase}.rhs_all.{name}', name):
            try:
                return np.array(p.get_val(path, units=u), dtype=float)
            except (KeyError, TypeError):
                continue
        return None


def _units(q, n):
    for m in q.model._resolver.absnames(n, 'input'):
        return q.model._var_allprocs_abs2meta['input'][m]['units']
    return None


class Unconverged(Exception):
    pass


_odes = {}


def ode(kind, phase, nn):
    key = (kind, phase, nn)
    if key not in _odes:
        o = ODE(kind, phase, nn)
        o.start = o.prob.model._outputs.asarray(copy=True)
        with quiet():
            outs = o.prob.model.list_outputs(
                out_stream=None, prom_name=True, val=False, shape=True, units=False, is_indep_var=False
            )
        o.outs = {m['prom_name']: tuple(m['shape']) for _, m in outs}
        _odes[key] = o
    return _odes[key]


def node_names(kind, phase):
    """Inputs that vary along the trajectory (judged with 3 nodes)."""
    o = ode(kind, phase, 3)
    return [n for n in o.ins if o.node[n]]


# states a generator may move, and the range (in the ODE's own units is irrelevant: relative moves)
MOVABLE = ('mach', 'altitude', 'mass', 'velocity', 'altitude_rate', 'throttle', 'EAS', 'mach_rate',
           'velocity_rate', 'flight_path_angle', 'angle_of_attack')


def draw_states(kind, phase, nn, rows, pert):
    """Node inputs for nn points: parent node `rows[i]` moved by pert (relative)."""
    o3 = ode(kind, phase, 3)
    x = {}
    j = 0
    for n in node_names(kind, phase):
        b = o3.base(n)
        b = np.atleast_1d(b)
        m = b.shape[0]
        v = b[[r % m for r in rows[:nn]]].astype(float).copy()
        if n in MOVABLE:
            for i in range(nn):
                p = pert[j % len(pert)]
                j += 1
                v[i] = v[i] * (1 + p) if np.any(v[i] != 0) else v[i]
        x[n] = v
    return x


def params(kind, phase):
    o3 = ode(kind, phase, 3)
    return {n: o3.base(n) for n in o3.ins if not o3.node[n]}


def run_ode(o, x, par):
    """Run one ODE instance from its pristine start; returns its outputs by promoted name."""
    q = o.prob
    q.model._outputs.set_val(o.start)
    for n, v in par.items():
        if v is not None:
            q.set_val(n, v, units=o.units[n])
    for n, v in x.items():
        q.set_val(n, v, units=o.units[n])
    with quiet():
        try:
            q.run_model()
        except (om.AnalysisError, ValueError, RuntimeError, np.linalg.LinAlgError) as exc:
            raise Unconverged(str(exc)[:300]) from exc
        if o.solvers:
            q.model.run_apply_nonlinear()
            r, f = q.model._residuals, q.model._outputs
            for n in r:
                a = np.max(np.abs(r[n]), initial=0.0)
                if not a <= 1e-7 * (1.0 + np.max(np.abs(f[n]), initial=0.0)):
                    raise Unconverged(f'{n} residual {a}')
    return {n: np.array(q.get_val(n), dtype=float).copy() for n in o.outs}
