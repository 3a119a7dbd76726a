"""Pre-mission models of whole vehicles (geometry, propulsion, aerodynamics, mass) built from shipped decks."""

from copy import deepcopy

import numpy as np

import aviary.api as av
from aviary.utils.functions import get_path
from aviary.utils.process_input_decks import parse_inputs
from lib.mission import om, quiet

A = 'models/aircraft/'
TM = 'validation_cases/validation_data/test_models/'
DECKS = {
    'lsa1': A + 'large_single_aisle_1/large_single_aisle_1_FLOPS.csv',
    'lsa2': A + 'large_single_aisle_2/large_single_aisle_2_FLOPS.csv',
    'lsa2alt': A + 'large_single_aisle_2/large_single_aisle_2_altwt_FLOPS.csv',
    'lsa2det': A + 'large_single_aisle_2/large_single_aisle_2_detailwing_FLOPS.csv',
    'asa': A + 'advanced_single_aisle/advanced_single_aisle_FLOPS.csv',
    'bwb_simple': A + 'blended_wing_body/bwb_simple_FLOPS.csv',
    'bwb_detailed': A + 'blended_wing_body/bwb_detailed_FLOPS.csv',
    'FwFm': TM + 'aircraft_for_bench_FwFm.csv',
    'elec': TM + 'aircraft_for_bench_FwFm_with_electric.csv',
    'high': TM + 'high_wing_single_aisle.csv',
    'lsa1g': A + 'large_single_aisle_1/large_single_aisle_1_GASP.csv',
    'ssa': A + 'small_single_aisle/small_single_aisle_GASP.csv',
    'bwbg': A + 'blended_wing_body/generic_BWB_GASP.csv',
    'GwGm': TM + 'aircraft_for_bench_GwGm.csv',
    'confg': TM + 'configuration_test_GASP.csv',
    'GwFm': TM + 'aircraft_for_bench_GwFm.csv',
    'FwGm': TM + 'aircraft_for_bench_FwGm.csv',
}


def load(deck):
    """The inputs of a deck as the user would have them before building a model, and the problem."""
    p = av.AviaryProblem(verbosity=0)
    p.load_inputs(DECKS.get(deck, deck) if isinstance(deck, str) else deck, {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False}})
    return p


def premission(deck, change=None, run=True, externals=None):
    """A set up (and run) pre-mission problem; change(inputs) edits the user's inputs first."""
    with quiet():
        p = load(deck)
        if change is not None:
            change(p.aviary_inputs)
        if externals:
            p.load_external_subsystems(externals)
        p.check_and_preprocess_inputs()
        p.add_pre_mission_systems()
        p.setup()
        p.final_setup()
        if run:
            om.Problem.run_model(p)
    return p


def plain(name):
    """Promoted name without the path of the group in front of an override mark."""
    head, mark, tail = name.partition('_OVERRIDE:')
    return head.rpartition('.')[2] + mark + tail if mark else name


def outputs(p):
    """Promoted output name -> (value, units), without automatic sources."""
    out = {}
    for n, m in p.model.list_outputs(out_stream=None, prom_name=True, units=True):
        if not n.startswith('_auto_ivc'):
            name = plain(m['prom_name'])
            out[name] = (np.array(m['val'], dtype=float), m['units'])
    return out


def inputs(p):
    """Absolute input name -> (promoted name, value, units)."""
    out = {}
    for n, m in p.model.list_inputs(out_stream=None, prom_name=True, units=True):
        out[n] = (m['prom_name'], np.array(m['val'], dtype=float), m['units'])
    return out


_base = {}
_original = {}


def original(deck):
    """What the deck file itself gives: name -> (value, units)."""
    if deck not in _original:
        with quiet():
            values, guesses = parse_inputs(get_path(DECKS[deck], verbosity=0))
        d = {k: deepcopy(v) for k, v in values}
        _original[deck] = d
    return _original[deck]


def base(deck):
    """Baseline of a deck, once per process: (given inputs, outputs, downstream map, names computed in the core subsystems)."""
    if deck not in _base:
        with quiet():
            given = {k: deepcopy(v) for k, v in load(deck).aviary_inputs}
        p = premission(deck)
        core = {m['prom_name'] for n, m in p.model.list_outputs(out_stream=None, prom_name=True) if n.startswith('pre_mission.core_subsystems.')}
        _base[deck] = (given, outputs(p), downstream(p), core)
    return _base[deck]


def downstream(p):
    """Promoted name -> set of promoted output names that can depend on it."""
    m = p.model
    a2p_i, a2p_o = {}, {}
    for n, d in m.list_inputs(out_stream=None, prom_name=True):
        a2p_i[n] = d['prom_name']
    for n, d in m.list_outputs(out_stream=None, prom_name=True):
        a2p_o[n] = plain(d['prom_name'])
    conn = m._conn_global_abs_in2out
    src_of = {i: conn.get(i) for i in a2p_i}
    comp_in, comp_out = {}, {}
    for i in a2p_i:
        comp_in.setdefault(i.rpartition('.')[0], set()).add(i)
    for o in a2p_o:
        comp_out.setdefault(o.rpartition('.')[0], set()).add(o)
    users = {}
    for c, ins in comp_in.items():
        for i in ins:
            users.setdefault(src_of.get(i), set()).add(c)
            users.setdefault('P:' + a2p_i[i], set()).add(c)
    res = {}

    def closure(start):
        seen, todo = set(), list(start)
        while todo:
            c = todo.pop()
            for o in comp_out.get(c, ()):
                if o not in seen:
                    seen.add(o)
                    todo += list(users.get(o, ()))
        return {a2p_o[o] for o in seen}

    names = set(a2p_i.values()) | set(a2p_o.values())
    for n in names:
        start = set(users.get('P:' + n, ()))
        for o, q in a2p_o.items():
            if q == n:
                start |= users.get(o, set())
        res[n] = closure(start)
    return res


def prepared(p):
    """What preprocessing derived: initial guesses, configurator targets and the completed inputs."""
    g = p.model
    res = {f'guess {k}': v for k, v in g.initialization_guesses.items()}
    for k in ('target_range', 'cruise_alt', 'mass_defect', 'cruise_mass_final', 'cruise_mach'):
        if hasattr(g, k):
            res[k] = getattr(g, k)
    for n, (v, u) in p.aviary_inputs:
        if n in av.CoreMetaData and av.CoreMetaData[n]['types'] is float and v is not None:
            res[f'input {n}'] = p.aviary_inputs.get_val(n, av.CoreMetaData[n]['units'])
    return {k: np.asarray(v, dtype=float) for k, v in res.items() if v is not None}


_prepared = {}


def base_prepared(deck):
    if deck not in _prepared:
        _prepared[deck] = prepared(premission(deck, run=False))
    return _prepared[deck]


def rel_diff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    f = np.isfinite(a) & np.isfinite(b)
    if not np.all(f | (np.isnan(a) & np.isnan(b)) | (a == b)):
        return np.inf
    s = np.max(np.abs(a[f]), initial=0.0)
    return np.max(np.abs(a[f] - b[f]), initial=0.0) / max(s, 1e-12)
