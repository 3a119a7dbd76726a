import os

import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.preprocessors import preprocess_fuel_capacities
from aviary.variable_info.enums import LegacyCode
from lib import vehicle as V
from lib.mission import quiet
from lib.pbt import Discard, Part, short
from lib.units_ref import BY_UNIT, FAMILY_UNITS, convert

PROPERTY = 'P15'
RULE = (
    'Pre-mission models of 17 shipped vehicles whose generated changes of inputs are written in other units, forms, orders and media. Non-trivial: at least three '
    'inputs change their unit.'
)
ASSUMPTIONS = ['Comparison tolerance 1e-6 of each result; conversion factors of the reference table are right.']

DECKS = sorted(V.DECKS)
META = av.CoreMetaData
FACTOR = av.Aircraft.Wing.BENDING_MATERIAL_FACTOR
case_st = st.fixed_dictionaries(
    {
        'deck': st.sampled_from(range(len(DECKS))),
        'units': st.lists(st.sampled_from(range(10)), min_size=11, max_size=11),
        'share': st.sampled_from([0.1, 0.3, 1.0]),
        'salt': st.sampled_from(range(1000)),
        'order': st.sampled_from([None, 'reverse', 'shuffle']),
        'form': st.sampled_from(['same', 'array', 'list', 'tuple']),
        'via': st.sampled_from(['edit', 'object', 'file']),
    }
)


def text_of(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return ','.join(text_of(x) for x in v)
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(getattr(v, 'value', v))


def check(case, ctx):
    deck = DECKS[case['deck']]
    given, out, down, core = V.base(deck)
    rng = np.random.default_rng(case['salt'])
    original = V.original(deck)
    names = sorted(original)
    changed, new = [], {}
    for i, n in enumerate(names):
        v, u = original[n]
        w, wu = v, u
        fam = BY_UNIT.get(u)
        if fam is not None and META[n]['types'] is float and rng.random() < case['share']:
            us = FAMILY_UNITS[fam]
            wu = us[case['units'][i % len(case['units'])] % len(us)]
            if wu != u:
                changed.append(f'{n} [{wu}]')
                w = np.vectorize(lambda x: convert(float(x), u, wu))(np.asarray(v, dtype=float))
                if np.ndim(v) == 0:
                    w = float(w)
                elif isinstance(v, (list, tuple)):
                    w = type(v)(w.tolist())
        if META[n]['types'] is float and META[n]['multivalue'] and case['via'] != 'file':
            if case['form'] == 'array':
                w = np.atleast_1d(np.asarray(w, dtype=float))
            elif case['form'] in ('list', 'tuple') and np.ndim(w) == 1:
                w = {'list': list, 'tuple': tuple}[case['form']](float(x) for x in w)
        new[n] = (w, wu)
    order = list(names)
    if case['order'] == 'reverse':
        order.reverse()
    elif case['order'] == 'shuffle':
        rng.shuffle(order)
    what = f'{deck} via {case["via"]}, order {case["order"]}, form {case["form"]}, units of {len(changed)} inputs changed ({short(", ".join(changed), 300)})'
    if case['via'] == 'edit':

        def change(inputs):
            for n in order:
                inputs.set_val(n, *new[n])

        p = V.premission(deck, change)
    elif case['via'] == 'object':
        values = AviaryValues()
        for n in order:
            values.set_val(n, *new[n])
        p = V.premission(values)
    else:
        with open('inputs.csv', 'w') as f:
            for n in order:
                f.write(f'{n},{text_of(new[n][0])},{new[n][1]}\n')
        p = V.premission('./inputs.csv')
        os.remove('inputs.csv')
    got = V.outputs(p)
    ctx.require(set(got) == set(out), lambda: f'{what}: computed variables differ: {sorted(set(got) ^ set(out))[:6]}', key='names')
    scale = {}
    for v, u in out.values():
        scale[u] = max(scale.get(u, 0.0), np.max(np.abs(v[np.isfinite(v)]), initial=0.0))
    # the bending factor uses a grid that jumps at rounding ties (see the known finding of P11)
    rough = {FACTOR} | down.get(FACTOR, set())
    for n, (v, u) in out.items():
        if n in rough and 'bwb_detailed' == deck:
            continue
        w, wu = got[n]
        ctx.require(wu == u, f'{what}: {n} has units {wu}, not {u}', key='units')
        d = V.rel_diff(v, w)
        ctx.require(d < 1e-6 or d * np.max(np.abs(v)) < 1e-8 * scale[u], lambda: f'{what}: {n} is {short(w, 80)} instead of {short(v, 80)} {u}', key=f'value|{n}|{deck}')
    want, have = V.base_prepared(deck), V.prepared(p)
    ctx.require(set(have) == set(want), lambda: f'{what}: derived quantities differ: {sorted(set(have) ^ set(want))[:6]}', key='derived')
    for n, v in want.items():
        d = V.rel_diff(np.ravel(v), np.ravel(have[n]))
        ctx.require(d < 1e-6, lambda: f'{what}: {n} is {short(have[n], 80)} instead of {short(v, 80)}', key=f'{n}|{deck}')
    ctx.nontrivial(len(changed) >= 3)
    ctx.label(deck, case['via'])


FUEL = [av.Aircraft.Fuel.WING_FUEL_MASS_CAPACITY, av.Aircraft.Fuel.FUSELAGE_FUEL_MASS_CAPACITY, av.Aircraft.Fuel.AUXILIARY_FUEL_MASS_CAPACITY]
MASS_UNITS = FAMILY_UNITS['mass']
fuel_st = st.fixed_dictionaries(
    {
        'caps': st.lists(st.one_of(st.floats(0.0, 9e4), st.integers(0, 9000).map(float)), min_size=3, max_size=3),
        'given': st.lists(st.sampled_from([True, True, False]), min_size=3, max_size=3),
        'excess': st.sampled_from([0.0, 0.0, 0.0, 0.02, -0.02, 0.5, -0.5]),
        'units': st.lists(st.sampled_from(range(4)), min_size=4, max_size=4),
    }
)


def check_fuel(case, ctx):
    caps = [c for c, g in zip(case['caps'], case['given']) if g]
    total = sum(caps) * (1 + case['excess']) + (100.0 if not caps else 0.0)
    values = AviaryValues()
    values.set_val(av.Settings.VERBOSITY, 0)
    values.set_val(av.Settings.MASS_METHOD, LegacyCode.FLOPS)
    us = [MASS_UNITS[u % len(MASS_UNITS)] for u in case['units']]
    text = []
    for n, c, g, u in zip(FUEL, case['caps'], case['given'], us):
        if g:
            values.set_val(n, convert(c, 'lbm', u), u)
            text.append(f'{n} {c} lbm in {u}')
    values.set_val(av.Aircraft.Fuel.MAX_CAPACITY_MASS, convert(total, 'lbm', us[3]), us[3])
    gap = total - sum(caps)
    refuse = (len(caps) == 3 and abs(gap) > 1e-3 * max(total, 1.0)) or (len(caps) < 3 and gap < -1e-3 * max(total, 1.0))
    if not refuse and abs(gap) > 1e-9 * max(total, 1.0) and (len(caps) == 3 or gap < 0):
        raise Discard
    try:
        with quiet():
            preprocess_fuel_capacities(values)
    except UserWarning as e:
        ctx.require(refuse, f'{text}, total {total} lbm in {us[3]}: refused: {e}', key='fuel|refused')
    else:
        ctx.require(not refuse, f'{text}, total {total} lbm in {us[3]}: contradiction accepted', key='fuel|accepted')
    ctx.nontrivial(len(set(us)) > 1 and len(caps) > 0)
    ctx.label('refuse' if refuse else 'accept')


PARTS = [
    Part('inputs', case_st, check, quick=300, thorough=8000, shards=8, case_limit=60, shrink_budget=30),
    Part('fuel', fuel_st, check_fuel, quick=3000, thorough=100000, shards=4),
]
