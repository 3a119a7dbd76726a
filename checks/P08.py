import os
import shutil
import tempfile

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from aviary.subsystems.propulsion.engine_deck import EngineDeck
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.variables import Aircraft, Settings
from checks.P07 import ALT, BASE, ENUM, NAMES
from lib.mission import quiet
from lib.pbt import Part

PROPERTY = 'P08'
RULE = (
    'A sound engine deck (from memory or file, generated size, units and rows) and the same deck with one generated defect: a required '
    'column missing, incompatible units, net thrust that disagrees with gross thrust minus ram drag in some rows, contradictory '
    'scaling data, no reference point, too few flight conditions, text in the numbers, bad options. The sound deck must be accepted and the '
    'defective one refused. Non-trivial: every defective case.'
)
ASSUMPTIONS = ['Disagreements between net and component thrust of up to 1 lbf are within tolerance, above 1.5 lbf are not.']
E = Aircraft.Engine

f01 = st.floats(0, 1).map(lambda x: round(x, 3))
DEFECTS = ['missing_mach', 'missing_alt', 'missing_throttle', 'missing_thrust', 'only_gross', 'only_ram', 'units', 'net_mismatch', 'net_mismatch_one',
           'scale', 'no_sls_alt', 'no_sls_mach', 'one_alt', 'text', 'idle', 'sort', 'output_label', 'unknown_only', 'none', 'within_tolerance', 'extra_column',
           'custom_required', 'no_file', 'bad_units_name']
case_st = st.fixed_dictionaries(
    {
        'defect': st.sampled_from(DEFECTS),
        'form': st.sampled_from(['enum', 'string', 'file', 'file']),
        'alias': st.integers(0, 5),
        'nm': st.integers(2, 4), 'na': st.integers(2, 4), 'nt': st.integers(2, 4),
        'all': st.booleans(),
        'extra': st.lists(st.sampled_from(['fuel', 'nox', 't4', 'elec']), max_size=3, unique=True),
        'alt_units': st.integers(0, 2**12 - 1),
        'perm': st.integers(0, 10**6),
        'noise': st.lists(f01, min_size=8, max_size=8),
        'ref': st.booleans(),
        'pick': st.integers(0, 200),
        'size': st.floats(1.6, 4000.0),
        'sign': st.sampled_from([-1, 1]),
        'off': st.floats(0.02, 3.0),
        'sort': st.sampled_from(['mach', None]),
        'glob': st.booleans(),
    }
)


def make(case, bad):
    rows = []
    d = case['defect'] if bad else 'none'
    nz = case['noise']
    for i in range(case['nm']):
        for j in range(case['na']):
            if d == 'one_alt' and i == case['pick'] % (case['nm'] - 1) and j > 0:
                continue
            for k in range(case['nt']):
                c = len(rows)
                r = {'mach': 0.2 * i, 'alt': 5000.0 * j, 'throttle': 20.0 + 10 * k, 'thrust': 1000.0 + 4000 * k + 300 * nz[c % 8] - 300 * i}
                r['ram'] = 100 + 500.0 * i
                r['gross'] = r['thrust'] + r['ram']
                for e in case['extra']:
                    r[e] = 100.0 + 40 * k + nz[(c + 3) % 8]
                rows.append(r)
    if d == 'no_sls_alt':
        for r in rows:
            r['alt'] += 1000.0
    if d == 'no_sls_mach':
        for r in rows:
            r['mach'] += 0.1
    if d == 'net_mismatch':
        for r in rows:
            r['thrust'] += case['sign'] * case['size']
    if d == 'net_mismatch_one':
        rows[case['pick'] % len(rows)]['thrust'] += case['sign'] * case['size']
    if d == 'within_tolerance':
        for r in rows:
            r['thrust'] += 0.4 * case['sign']
    cols = ['mach', 'alt', 'throttle', 'thrust'] + case['extra']
    if case['defect'] in ('only_gross', 'only_ram'):
        cols += ['gross', 'ram']
        cols.remove('thrust')
    elif case['all'] or case['defect'] in ('net_mismatch', 'net_mismatch_one', 'within_tolerance'):
        cols += ['gross', 'ram']
    if d.startswith('missing_'):
        gone = d[8:]
        cols = [c for c in cols if c != gone and not (gone == 'thrust' and c in ('gross', 'ram'))]
    if d == 'only_gross':
        cols.remove('ram')
    if d == 'only_ram':
        cols.remove('gross')
    rng = np.random.RandomState(case['perm'])
    rows = [rows[i] for i in rng.permutation(len(rows))]
    return rows, cols, d


def build(case, bad):
    rows, cols, d = make(case, bad)
    o = AviaryValues()
    o.set_val(Settings.VERBOSITY, 0)
    o.set_val(E.GLOBAL_THROTTLE, case['glob'])
    if case['sort']:
        o.set_val(E.INTERPOLATION_SORT, case['sort'])
    need_ref = case['ref'] and d not in ('no_sls_alt', 'no_sls_mach')
    if need_ref or d == 'scale':
        o.set_val(E.REFERENCE_SLS_THRUST, 15000.0, 'lbf')
    if d == 'scale':
        o.set_val(E.SCALE_FACTOR, 1.2)
        o.set_val(E.SCALED_SLS_THRUST, 15000.0 * (1.2 + case['sign'] * min(case['off'], 1.0)), 'lbf')
    elif case['defect'] == 'scale' and need_ref:
        o.set_val(E.SCALE_FACTOR, 1.2)
        o.set_val(E.SCALED_SLS_THRUST, 15000.0 * 1.2, 'lbf')
    if d == 'idle':
        o.set_val(E.GENERATE_FLIGHT_IDLE, True)
        o.set_val(E.FLIGHT_IDLE_MIN_FRACTION, 0.5)
        o.set_val(E.FLIGHT_IDLE_MAX_FRACTION, 0.5 - min(0.45, case['off'] / 7))
    if d == 'sort':
        o.set_val(E.INTERPOLATION_SORT, ['throttle', 'Machs', 'alt'][case['pick'] % 3])
    units = {}
    for i, c in enumerate(sorted(cols)):
        units[c] = ALT[c] if c in ALT and case['alt_units'] >> i & 1 else (BASE[c], 1.0)
    vals = {c: np.array([r[c] for r in rows]) * units[c][1] for c in cols}
    unit = {c: units[c][0] for c in cols}
    if d == 'units':
        # a unit of another dimension for one of the columns that have a dimension
        cc = [c for c in cols if unit[c] != 'unitless']
        c = cc[case['pick'] % len(cc)]
        unit[c] = 'kg' if unit[c] != 'kg' else 'm'
    if d == 'bad_units_name':
        unit[cols[case['pick'] % len(cols)]] = 'furlongs'
    kw = {}
    if case['defect'] == 'custom_required':
        from aviary.subsystems.propulsion.utils import EngineModelVariables as V
        kw['required_variables'] = {V.MACH, V.ALTITUDE, V.THROTTLE, V.THRUST} | ({V.SHAFT_POWER} if d == 'custom_required' else set())
    names = {c: NAMES[c][case['alias'] % len(NAMES[c])] for c in cols}
    if d == 'unknown_only':
        names = {c: 'col_' + c for c in cols}
    tmp = None
    form = 'file' if case['defect'] in ('text', 'output_label', 'no_file', 'bad_units_name') else case['form']
    try:
        data = None
        if form == 'file':
            tmp = tempfile.mkdtemp(prefix='p08_')
            path = os.path.join(tmp, 'deck.csv')
            with open(path, 'w') as f:
                hd = []
                lab = cols[case['pick'] % 3] if d == 'output_label' else None
                for c in cols:
                    parts = [unit[c]] if unit[c] != 'unitless' else []
                    if case['defect'] == 'output_label':
                        parts.append('input' if c in ('mach', 'alt', 'throttle') and c != lab else 'output')
                    hd.append(names[c] + (f' ({", ".join(parts)})' if parts else ''))
                if case['defect'] == 'extra_column':
                    hd.append('remarks_code')
                f.write(','.join(hd) + '\n')
                t = case['pick'] % len(rows)
                for r in range(len(rows)):
                    line = [repr(float(vals[c][r])) for c in cols]
                    if case['defect'] == 'extra_column':
                        line.append('7')
                    if d == 'text' and r == t:
                        line[case['pick'] % len(cols)] = ['n/a', 'x', '1..2'][case['pick'] % 3]
                    f.write(','.join(line) + '\n')
            if d == 'no_file':
                path += '.missing'
            o.set_val(E.DATA_FILE, path)
        else:
            data = NamedValues()
            for c in cols:
                key = ENUM[c] if form == 'enum' and d != 'unknown_only' else names[c]
                data.set_val(key, vals[c], unit[c])
            if case['defect'] == 'extra_column':
                data.set_val('remarks_code', np.ones(len(rows)), 'unitless')
        with quiet():
            deck = EngineDeck('deck', options=o, data=data, **kw)
            if d in ('output_label',) or not bad:
                deck.build_mission(2, AviaryValues(), {}, {})
        return deck
    finally:
        if tmp:
            shutil.rmtree(tmp)


OK = ('none', 'within_tolerance', 'extra_column')
# the kind of refusal that names the problem (not a crash somewhere behind it)
KINDS = (UserWarning, ValueError, TypeError, AttributeError, KeyError, FileNotFoundError)


def check(case, ctx):
    d = case['defect']
    build(case, False)
    ctx.sub += 1
    ctx.label(d, case['form'])
    if d in OK:
        build(case, True)
        ctx.nontrivial(d != 'none')
        return
    ctx.nontrivial()
    try:
        build(case, True)
    except KINDS as exc:
        ctx.require(str(exc) != '', f'{d}: refused without a message')
        if d in ('missing_mach', 'missing_alt', 'missing_throttle', 'missing_thrust', 'only_gross', 'only_ram', 'custom_required', 'net_mismatch', 'net_mismatch_one', 'one_alt', 'no_sls_alt', 'no_sls_mach', 'unknown_only', 'idle'):
            ctx.require(isinstance(exc, UserWarning), f'{d}: ended in {type(exc).__name__}: {exc} instead of the documented refusal')
        return
    ctx.fail(f'deck with defect {d} ({case["form"]}) accepted', key=f'accepted_{d}')


PARTS = [Part('refusal', case_st, check, quick=2400, thorough=30000)]
