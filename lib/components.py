"""Standalone instances of Aviary's analysis components, from a frozen catalogue of base points.

data/components.json.gz holds, per component class, option sets and input points observed while the
repository's own test-suite ran (captured once; see DESIGN.md).  It only supplies *starting points*
for the generators: options are mutated and inputs perturbed, and no expected output is stored.
"""

import enum
import gzip
import importlib
import json
import os
import re
import warnings

import numpy as np

warnings.simplefilter('ignore')
import openmdao.api as om  # noqa: E402

_DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


def de(v):
    if isinstance(v, list):
        return [de(x) for x in v]
    if isinstance(v, dict):
        if '__enum__' in v:
            m, c, n = v['__enum__'].split(':')
            return getattr(importlib.import_module(m), c)[n]
        if '__arr__' in v:
            if v.get('obj'):
                a = np.empty(len(v['__arr__']), dtype=object)
                for i, x in enumerate(v['__arr__']):
                    a[i] = de(x)
                return a.reshape(v['shape'])
            return np.array(v['__arr__'], dtype=v.get('dtype', 'float64'))
        if '__tuple__' in v:
            return tuple(de(x) for x in v['__tuple__'])
        if '__dict__' in v:
            return {de(k): de(x) for k, x in v['__dict__']}
        if '__av__' in v:
            from aviary.utils.aviary_values import AviaryValues

            a = AviaryValues()
            for k, x, u in v['__av__']:
                a.set_val(k, de(x), u)
            return a
    return v


_catalogue = None

# components defined over an interval need at least its two ends
MIN_NODES = {'RangeComp': 2, 'BreguetCruiseRange': 2, 'ElectricRangeComp': 2}


def catalogue():
    """List of (module, class, options(serialized), points)."""
    global _catalogue
    if _catalogue is None:
        with gzip.open(os.path.join(_DATA, 'components.json.gz')) as f:
            data = json.load(f)
        _catalogue = []
        for n in sorted(data):
            m, c = n.split(':')
            if 'external_subsystems' in m or 'examples' in m or '.utils.' in m:
                continue
            for e in data[n]:
                pts = [p for p in e['points'] if p['in']]
                if pts:
                    _catalogue.append((m, c, e['options'], pts))
    return _catalogue


_fallback = None


def find_class(module, name):
    """Return the class, also when a refactoring moved it to another module of the package."""
    global _fallback
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        pass
    if _fallback is None:
        _fallback = {}
        import pkgutil

        import aviary

        base = module.rpartition('.')[0]
        for m in pkgutil.walk_packages(aviary.__path__, 'aviary.'):
            if not m.name.startswith(base) or '.test' in m.name:
                continue
            try:
                mod = importlib.import_module(m.name)
            except Exception:
                continue
            for k, v in vars(mod).items():
                if isinstance(v, type) and issubclass(v, (om.ExplicitComponent, om.ImplicitComponent)):
                    _fallback.setdefault(k, v)
    return _fallback.get(name)


class Skip(Exception):
    pass


def options_for(entry, nn=None):
    m, c, opts, pts = entry
    o = {k: de(v) for k, v in opts.items() if k != 'settings:verbosity'}
    if 'settings:verbosity' in opts:
        from aviary.variable_info.enums import Verbosity

        o['settings:verbosity'] = Verbosity.QUIET
    if 'num_nodes' in o and nn is not None:
        o['num_nodes'] = max(nn, MIN_NODES.get(c, 1))
    return o


def make(cls, options):
    """A problem holding one standalone component, set up.  Raises Skip when it cannot be built."""
    p = om.Problem(reports=False)
    comp = cls()
    for k, v in options.items():
        if k in comp.options:
            comp.options[k] = v
    p.model.add_subsystem('c', comp, promotes=['*'])
    if isinstance(comp, om.ImplicitComponent):
        # an implicit component states residuals only: its outputs exist once a solver drives them to 0
        p.model.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=False, maxiter=60, atol=1e-13, rtol=1e-13, iprint=-1,
            err_on_non_converge=False,
        )
        p.model.nonlinear_solver.linesearch = None
        p.model.linear_solver = om.DirectSolver()
    p.setup(force_alloc_complex=False)
    p.final_setup()
    return p, comp


def io_names(comp):
    ins = [
        (n, comp._var_rel2meta[n]['shape'], comp._var_rel2meta[n].get('units'))
        for n in comp._var_rel_names['input']
        if n in comp._var_rel2meta
    ]
    outs = [
        (n, comp._var_rel2meta[n]['shape'], comp._var_rel2meta[n].get('units'))
        for n in comp._var_rel_names['output']
        if n in comp._var_rel2meta
    ]
    return ins, outs


def base_value(point, name, shape, nn, default, pick=0):
    """Captured base value broadcast/sliced onto the shape this instance declares."""
    d = point['in'].get(name)
    if d is None:
        return default
    v = np.array(d['v'], dtype=float)
    if v.shape == tuple(shape):
        return v
    if v.ndim == len(shape) and v.ndim >= 1 and v.shape[1:] == tuple(shape[1:]) and v.shape[0] > 0:
        m, k = v.shape[0], shape[0]
        if nn is not None and k == nn and k < m and pick:
            # another selection of the recorded points, in their order
            return v[np.sort(np.random.default_rng(pick).choice(m, k, replace=False))]
        return v[np.arange(k) % m]
    if v.size == 1:
        return np.full(shape, float(v.ravel()[0]))
    return default


SIGNED = re.compile(
    r'angle|gamma|alpha|rate|delta|_dot|d[A-Za-z]*_d[a-z]|forces|location|sweep|dihedral|twist|incidence'
    r'|altitude|residual|accel|slope|moment|lift|tail_boom|distance|increment|sum|thrust|y_|x_',
    re.I,
)


JUMPS = [0.1, 0.3, 0.5, 2.0, 3.0, 6.0, -1.0, 0.0]


def jumps(case, names):
    """One or two whole variables moved far away while the others stay near the base point."""
    r = np.random.default_rng(case.get('pick', 0))
    return {names[r.integers(len(names))]: JUMPS[r.integers(len(JUMPS))] for _ in range(1 + r.integers(2))}


def entries(cat):
    """Strategy for an entry: every class equally often, then every entry of the class."""
    from hypothesis import strategies as st

    by = {}
    for i, e in enumerate(cat):
        by.setdefault((e[0], e[1]), []).append(i)
    groups = [by[k] for k in sorted(by)]
    return st.tuples(st.integers(0, len(groups) - 1), st.integers(0, 59)).map(
        lambda t: groups[t[0]][t[1] % len(groups[t[0]])]
    )


ANGLE = re.compile(r'sweep|dihedral|angle|gamma|alpha|incidence|twist|deflection|Lambda|latitude', re.I)


def perturb(x, case, counter, name=''):
    """Perturb a base array using the drawn numbers of the case; deterministic in (case, counter)."""
    pert = case['pert']
    x = np.array(x, dtype=float)
    flat = x.ravel()
    out = flat.copy()
    n = len(pert)
    for i in range(flat.size):
        k = counter[0]
        counter[0] += 1
        p = pert[k % n] if n else 0.0
        mode = case['mode']
        if mode == 'sparse' and (k % 7) not in case['mask']:
            continue
        b = flat[i]
        if mode == 'near':
            f = 1 + 0.05 * p
        elif mode == 'mid':
            f = 1 + 0.4 * p
        else:
            f = 2.0 ** (2.0 * p)
        if mode == 'jump':
            j = case['jump'].get(name)
            if j is not None and ANGLE.search(name):
                j = min(j, 1.5)  # angles stay below a right angle
            f = 1 + 0.05 * p if j is None else (j if j >= 0 or SIGNED.search(name) else -j) * (1 + 0.2 * p)
        if b == 0.0:
            out[i] = (p if SIGNED.search(name) else abs(p)) * case['zero'] if case['zero'] else 0.0
        else:
            out[i] = b * f
    return out.reshape(x.shape)


ENGINE_COUNTS = (
    'aircraft:engine:num_engines',
    'aircraft:engine:num_wing_engines',
    'aircraft:engine:num_fuselage_engines',
    'aircraft:propulsion:total_num_engines',
    'aircraft:propulsion:total_num_wing_engines',
    'aircraft:propulsion:total_num_fuselage_engines',
)


def mutable_options(options):
    """Names of options a generator may change without changing the component's shapes arbitrarily."""
    out = []
    for k in sorted(options):
        v = options[k]
        if k in ('num_nodes', 'settings:verbosity'):
            continue
        x = v[0] if isinstance(v, tuple) and len(v) == 2 and (v[1] is None or isinstance(v[1], str)) else v
        if ':total_num' in k:
            continue  # derived from the per-engine counts
        if isinstance(x, (bool, np.bool_, enum.Enum, int, float, np.integer, np.floating)):
            out.append(k)
    return out


def mutate_options(options, muts):
    """Apply drawn mutations: list of [which, how] integers.  Returns the names that changed."""
    names = mutable_options(options)
    if any(k in options for k in ENGINE_COUNTS):
        names.append('engine counts')
    changed = []
    for which, how in muts:
        if not names:
            break
        k = names[which % len(names)]
        if k == 'engine counts':
            # all counts together, so that the derived totals stay consistent
            f = 2 + how % 2
            for c in ENGINE_COUNTS:
                if c in options:
                    v = options[c]
                    options[c] = [int(i) * f for i in v] if isinstance(v, list) else v * f
            changed.append(k)
            names.remove(k)
            continue
        v = options[k]
        pair = isinstance(v, tuple)
        x = v[0] if pair else v
        if isinstance(x, (bool, np.bool_)):
            y = not x
        elif isinstance(x, enum.Enum):
            members = list(type(x))
            y = members[how % len(members)]
        elif isinstance(x, (int, np.integer)):
            y = max(0, int(x) + (how % 5) - 2) if abs(x) < 8 else int(x * (0.5 + (how % 11) / 10.0))
        else:
            y = float(x) * (0.6 + (how % 9) / 10.0)
        if y != x:
            options[k] = (y, v[1]) if pair else y
            changed.append(k)
    return changed


class Instance:
    """One standalone component driven at generated points."""

    def __init__(self, entry, case, nn=None):
        m, c, _, pts = entry
        self.cls = find_class(m, c)
        if self.cls is None:
            raise Skip(f'{m}.{c} not found')
        self.name = c
        self.path = f'{m}.{c}'
        opts = options_for(entry, nn)
        self.changed = mutate_options(opts, case.get('opts', []))
        self.options = opts
        try:
            self.prob, self.comp = make(self.cls, opts)
        except Skip:
            raise
        except Exception as exc:
            if self.changed:
                raise Skip(f'option combination rejected: {exc}') from exc
            raise
        self.ins, self.outs = io_names(self.comp)
        if not self.ins or not self.outs:
            raise Skip('no inputs or no outputs')
        self.implicit = isinstance(self.comp, om.ImplicitComponent)
        self.point = pts[case.get('pt', 0) % len(pts)]
        self.nn = nn
        self.case = case

    def base(self):
        return {
            n: base_value(
                self.point, n, s, self.nn, np.array(self.prob.get_val(n), dtype=float), self.case.get('pick', 0)
            )
            for n, s, _ in self.ins
        }

    def inputs(self, case):
        counter = [0]
        b = self.base()
        if case['mode'] == 'jump':
            case = {**case, 'jump': jumps(case, [n for n, _, _ in self.ins])}
        return {n: perturb(b[n], case, counter, n) for n, _, _ in self.ins}

    def set(self, x):
        for n, v in x.items():
            self.prob.set_val(n, v)

    def run(self, x):
        self.set(x)
        if self.implicit:
            # every solve starts from the same guess, so a run is a function of its inputs
            for n, s, _ in self.outs:
                g = self.point.get('out', {}).get(n)
                v = np.ones(s) if g is None else np.resize(np.array(g, dtype=float), s)
                self.prob.set_val(n, v)
        with np.errstate(all='ignore'):
            self.prob.run_model()
            if self.implicit:
                self.prob.model.run_apply_nonlinear()
                r = self.prob.model._residuals.asarray()
                o = self.prob.model._outputs.asarray()
                if not np.all(np.abs(r) <= 1e-9 * (1 + np.max(np.abs(o)))):
                    raise om.AnalysisError('not converged')
        return {n: np.array(self.prob.get_val(n), dtype=float).copy() for n, _, _ in self.outs}

    def jac(self):
        of = [n for n, _, _ in self.outs]
        wrt = [n for n, _, _ in self.ins]
        with np.errstate(all='ignore'):
            return self.prob.compute_totals(of=of, wrt=wrt, return_format='dict')
