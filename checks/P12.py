import numpy as np
from hypothesis import strategies as st

import aviary.api as av  # noqa: F401
from lib import mission as M
from lib.components import Instance, Skip, catalogue, entries
from lib.pbt import Discard, Part

PROPERTY = 'P12'
RULE = (
    'Components that take a number of trajectory points, evaluated at N generated points at once, are '
    'compared point by point with N separate single-point evaluations, and with the same points given in '
    'another order. Non-trivial: N>=2 and the points differ.'
)
ASSUMPTIONS = [
    'Range-over-a-segment components (marked INTERVAL) are by design functions of the whole segment.',
]

# functions of a whole segment rather than of one point
INTERVAL = ('RangeComp', 'BreguetCruiseRange', 'ElectricRangeComp', 'DistanceComp')

CAT = [
    e
    for e in catalogue()
    if 'num_nodes' in e[2] and e[1] not in INTERVAL
]

case_st = st.fixed_dictionaries(
    {
        'e': entries(CAT),
        'pick': st.integers(0, 10**6),
        'pt': st.integers(0, 2),
        'nn': st.one_of(st.integers(2, 6), st.sampled_from([11, 20])),
        'mode': st.sampled_from(['near', 'mid', 'mid', 'sparse', 'far', 'jump', 'jump']),
        'mask': st.lists(st.integers(0, 6), min_size=1, max_size=3),
        'zero': st.sampled_from([0.0, 0.1, 1.0]),
        'pert': st.lists(st.floats(-1, 1).map(lambda x: round(x, 4)), min_size=6, max_size=24),
        'opts': st.one_of(
            st.just([]), st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), max_size=3)
        ),
        'perm': st.integers(0, 1000),
    }
)


def check(case, ctx):
    entry = CAT[case['e'] % len(CAT)]
    nn = case['nn']
    try:
        many = Instance(entry, case, nn)
        one = Instance(entry, case, 1)
    except Skip:
        raise Discard()
    shp1 = {n: tuple(s) for n, s, _ in one.ins}
    x = many.inputs(case)
    node = {}
    for n, s, _ in many.ins:
        s = tuple(s)
        if n not in shp1:
            raise Discard()
        if s == shp1[n]:
            node[n] = False
        elif len(s) and s[0] == nn and shp1[n][0] == 1 and s[1:] == shp1[n][1:]:
            node[n] = True
        else:
            raise Discard()
    if not any(node.values()):
        raise Discard()
    try:
        f = many.run(x)
    except Exception as exc:
        raise Discard() from exc
    oshp1 = {n: tuple(s) for n, s, _ in one.outs}
    order = np.random.default_rng(case['perm']).permutation(nn)
    checked = 0
    rows = []
    for i in range(nn):
        y = {n: (v[i : i + 1] if node[n] else v) for n, v in x.items()}
        try:
            rows.append(one.run(y))
        except Exception:
            rows.append(None)
    if any(r is None for r in rows):
        raise Discard()
    tol = 1e-6 if many.implicit else 1e-9
    for o, s, _ in many.outs:
        s = tuple(s)
        s1 = oshp1.get(o)
        if s1 is None:
            continue
        if s != s1 and len(s) and s[0] == nn and s1[0] == 1:
            scale = np.max(np.abs(f[o][np.isfinite(f[o])]), initial=0.0)
            for i in range(nn):
                ctx.close(
                    f[o][i],
                    rows[i][o][0],
                    f'{many.path}: {o} at point {i} of {nn} evaluated together vs alone; options changed {many.changed}',
                    rtol=tol,
                    atol=1e-11 * scale + 1e-13,
                    key=f'{many.path}|{o}',
                )
            checked += 1
    # the same points in another order
    y = {n: (v[order] if node[n] else v) for n, v in x.items()}
    try:
        g = many.run(y)
    except Exception as exc:
        raise Discard() from exc
    for o, s, _ in many.outs:
        s1 = oshp1.get(o)
        if s1 is not None and tuple(s) != s1 and len(s) and s[0] == nn and s1[0] == 1:
            scale = np.max(np.abs(f[o][np.isfinite(f[o])]), initial=0.0)
            ctx.close(
                g[o],
                f[o][order],
                f'{many.path}: {o} with the points reordered by {order.tolist()}',
                rtol=tol,
                atol=1e-11 * scale + 1e-13,
                key=f'{many.path}|{o}',
            )
    differ = any(node[n] and not np.all(x[n] == x[n][:1]) for n in x)
    ctx.nontrivial(checked > 0 and differ)
    ctx.label(f'N{nn}', 'options_mutated' if many.changed else 'options_as_observed')
    ctx.label('module_' + '.'.join(entry[0].split('.')[1:4]))



# ---------------------------------------------------------------- whole equations of motion

PHASES = [
    ('FwFm', 'climb'), ('FwFm', 'cruise'), ('FwFm', 'descent'),
    ('GwGm', 'rotation'), ('GwGm', 'ascent'), ('GwGm', 'accel'), ('GwGm', 'climb1'), ('GwGm', 'desc2'),
    ('GwFm', 'climb'), ('GwFm', 'descent'),
    ('multi', 'climb'), ('multi', 'cruise'),
    ('turboprop', 'accel'), ('turboprop', 'climb1'),
]

ode_st = st.fixed_dictionaries(
    {
        'ph': st.integers(0, len(PHASES) - 1),
        'nn': st.integers(2, 5),
        'rows': st.lists(st.integers(0, 40), min_size=5, max_size=5),
        'pert': st.lists(st.floats(-0.08, 0.08).map(lambda x: round(x, 4)), min_size=4, max_size=25),
    }
)


def check_ode(case, ctx):
    kind, phase = PHASES[case['ph']]
    nn = case['nn']
    x = M.draw_states(kind, phase, nn, case['rows'], case['pert'])
    par = M.params(kind, phase)
    many, one = M.ode(kind, phase, nn), M.ode(kind, phase, 1)
    try:
        f = M.run_ode(many, x, par)
        rows = [M.run_ode(one, {n: v[i : i + 1] for n, v in x.items()}, par) for i in range(nn)]
    except M.Unconverged as exc:
        ctx.label('not_converged')
        raise Discard() from exc
    n_out = 0
    for o, s in many.outs.items():
        s1 = one.outs.get(o)
        if s1 is None or s == s1 or s[0] != nn or s1[0] != 1:
            continue
        n_out += 1
        scale = np.max(np.abs(f[o][np.isfinite(f[o])]), initial=0.0)
        for i in range(nn):
            ctx.close(
                f[o][i], rows[i][o][0],
                f'{kind}/{phase}: {o} at point {i} of {nn} evaluated together vs alone',
                rtol=1e-5, atol=1e-6 * scale + 1e-9, key=f'{kind}/{phase}|{o}',
            )
    ctx.nontrivial(n_out > 5 and any(case['pert']))
    ctx.label(f'{kind}/{phase}')


PARTS = [
    Part('components', case_st, check, quick=6000, thorough=60000, shards=16, case_limit=10),
    Part('flight_equations', ode_st, check_ode, quick=160, thorough=3000, shards=8, shrink_budget=20),
]
