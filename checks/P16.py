import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from lib import vehicle as V
from lib.mission import om
from lib.pbt import Discard, Part, short
from lib.units_ref import BY_UNIT, FAMILY_UNITS, convert

PROPERTY = 'P16'
RULE = (
    'Pre-mission models of 17 shipped vehicles in which generated subsets of the computed variables are given by the user, with the '
    'computed value or another one, in any units. Non-trivial: at least one overridden variable is used by another component.'
)
ASSUMPTIONS = ['Variables with discrete types and variables the deck already gives are not overridden; contradictory fuel capacities that are refused are skipped.']

DECKS = sorted(V.DECKS)
case_st = st.fixed_dictionaries(
    {
        'deck': st.sampled_from(range(len(DECKS))),
        'external': st.booleans(),
        'picks': st.lists(st.tuples(st.sampled_from(range(4999)), st.sampled_from([1.0, 1.0, 0.93, 1.08, 0.0]), st.sampled_from(range(10))), min_size=1, max_size=3),
    }
)
META = av.CoreMetaData


EXT_MARK = 'EXTERNAL_SUBSYSTEM_OVERRIDE:'
USER_MARK = 'AIRCRAFT_DATA_OVERRIDE:'


def candidates(given, out, core):
    return sorted(
        n
        for n in out
        if n in META
        and n not in given
        and n in core
        and not META[n]['option']
        and META[n]['types'] in (None, float)
        and np.all(np.isfinite(out[n][0]))
    )


class Given(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('values', types=dict)

    def setup(self):
        for n, (val, units) in self.options['values'].items():
            self.add_output(n, val=val, units=units)


class Builder(av.SubsystemBuilder):
    def __init__(self, name, values):
        self.values = values
        super().__init__(name)

    def build_pre_mission(self, aviary_inputs, **kwargs):
        return Given(values=self.values)


def check(case, ctx):
    deck = DECKS[case['deck'] % len(DECKS)]
    external = case['external']
    given, out, down, core = V.base(deck)
    names = candidates(given, out, core)
    over = {}
    for k, f, u in case['picks']:
        n = names[k % len(names)]
        v, units = out[n]
        if f == 0.0 and BY_UNIT.get(units) != 'mass':
            f = 0.93  # only a mass can sensibly be given as zero
        us = FAMILY_UNITS.get(BY_UNIT.get(units), [units])
        new = us[u % len(us)]
        val = v * f
        if new != units:
            val = np.vectorize(lambda x: convert(float(x), units, new))(val) if val.size else val
        over[n] = (val, new, v * f, units, f)

    def change(inputs):
        for n, (val, u, _, _, _) in over.items():
            inputs.set_val(n, val if val.size > 1 or META[n]['multivalue'] else float(val.ravel()[0]), u)

    how = 'computed by an external subsystem as' if external else 'given as'
    what = f'{deck}: ' + ', '.join(f'{n} {how} {short(o[0], 60)} {o[1]}' for n, o in over.items())
    try:
        if external:
            values = {n: (o[0], None if o[1] == 'unitless' else o[1]) for n, o in over.items()}
            p = V.premission(deck, externals=[Builder('given', values)])
        else:
            p = V.premission(deck, change)
    except UserWarning:
        raise Discard  # the preprocessor refuses combinations of fuel capacities that contradict each other
    except ValueError as e:
        hit = [n for n in over if f"'{n}' refers to multiple outputs" in str(e)]
        if not external or not hit:
            raise
        ctx.require(False, lambda: f'{what}: {short(str(e), 300)}', key=f'override|{hit[0]}')
        return
    new = V.outputs(p)
    ins = V.inputs(p)
    for n in over:
        if not external and not ctx.require(n not in new, lambda: f'{what}: {n} is still computed as {short(new[n][0], 60)}', key=f'override|{n}'):
            return
    mark = EXT_MARK if external else USER_MARK
    if external:
        sources = p.model._conn_global_abs_in2out
        for path, (prom, val, units) in ins.items():
            if prom in over:
                ctx.require(
                    sources.get(path, '').startswith('pre_mission.given.'),
                    lambda: f'{what}: {path} is fed by {sources.get(path)}',
                    key=f'source|{prom}',
                )
    used = 0
    for path, (prom, val, units) in ins.items():
        if prom in over:
            _, _, want, bu, _ = over[prom]
            if units != bu and units and bu and units in BY_UNIT and bu in BY_UNIT:
                want = np.vectorize(lambda x: convert(float(x), bu, units))(want)
            elif units != bu:
                continue
            used += 1
            ctx.require(
                V.rel_diff(np.ravel(want), np.ravel(val)) < 1e-7 or V.rel_diff(np.resize(want, val.shape), val) < 1e-7,
                lambda: f'{what}: {path} uses {val} {units}, expected {want}',
                key=f'use|{prom}',
            )
    for n, (val, u, want, units, f) in over.items():
        ctx.require(mark + n in new, lambda: f'{what}: the computed value is not published as {mark}{n}', key=f'mark|{n}')
    affected = set()
    for n, o in over.items():
        if o[4] != 1.0:
            affected |= down.get(n, set())
    compared = 0
    for n, (v, units) in new.items():
        marked = n.startswith(mark)
        n0 = n[len(mark) :] if marked else n
        if n0 in over and not marked:
            continue
        if n0 not in out or n0 in affected:
            continue
        compared += 1
        d = V.rel_diff(out[n0][0], v)
        ctx.require(
            d < 1e-5,
            lambda: f'{what}: {n} changed from {short(out[n0][0], 80)} to {short(v, 80)} {units}',
            key=f'other|{n0}|{",".join(sorted(over))}',
        )
    ctx.nontrivial(used > 0 and compared > 20)
    ctx.label(deck, 'external' if external else 'user', 'same_value' if all(o[4] == 1.0 for o in over.values()) else 'other_value')


PARTS = [Part('override', case_st, check, quick=360, thorough=8000, shards=8, case_limit=60, shrink_budget=30)]
