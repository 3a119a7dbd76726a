import copy
import itertools
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from aviary.utils.data_interpolator_builder import build_data_interpolator
from aviary.utils.named_values import NamedValues
from lib.mission import om, quiet
from lib.pbt import Part, short
from lib.units_ref import BY_UNIT, FAMILY_UNITS, convert

PROPERTY = 'P23'
RULE = (
    'Interpolators built from generated tables of one to three inputs, in every supported form and order, evaluated at training points, between them and outside. '
    'Non-trivial: two or more inputs, or two or more outputs.'
)
ASSUMPTIONS = ['Away from training points, methods other than linear are compared with the same OpenMDAO interpolant built directly from the sorted table.']

U_IN = ['ft', 'unitless', 'deg']
U_OUT = ['lbf', 'unitless', 'lbm/h', 'kW']

case_st = st.fixed_dictionaries(
    {
        'shape': st.lists(st.integers(2, 5), min_size=1, max_size=3),
        'steps': st.lists(st.sampled_from([0.1, 0.5, 1.0, 2.5, 10.0]), min_size=15, max_size=15),
        'start': st.sampled_from([-2.0, 0.0, 3.0]),
        'n_out': st.integers(1, 3),
        'values': st.sampled_from(['linear', 'random', 'random']),
        'ragged': st.sampled_from([False, False, True]),
        'salt': st.sampled_from(range(100000)),
        'form': st.sampled_from(['rows', 'rows', 'grid', 'file', 'path']),
        'seq': st.sampled_from(['array', 'list']),
        'row_order': st.sampled_from(['sorted', 'reversed', 'shuffled', 'first_sorted', 'last_sorted']),
        'col_order': st.sampled_from(['inputs_first', 'outputs_first', 'mixed']),
        'labels': st.sampled_from(['none', 'all', 'inputs', 'outputs']),
        'outputs': st.sampled_from(['list', 'reversed', 'none', 'part']),
        'structured': st.sampled_from([None, None, True, False]),
        'method': st.sampled_from(['slinear', 'slinear', 'lagrange2', 'lagrange3', 'akima']),
        'nn': st.integers(1, 4),
        'pick': st.lists(st.tuples(st.integers(0, 999), st.integers(0, 999), st.integers(0, 999)), min_size=4, max_size=4),
        'where': st.sampled_from(['node', 'inside', 'outside']),
        'extrapolate': st.booleans(),
        'units': st.lists(st.sampled_from(range(10)), min_size=6, max_size=6),
        'connect': st.sampled_from([False, False, False, True]),
    }
)
NEED = {'slinear': 2, 'lagrange2': 3, 'lagrange3': 4, 'akima': 4}


def multilinear(axes, grid, x):
    """Reference multilinear interpolation (extending the outer cells)."""
    idx, w = [], []
    for a, xi in zip(axes, x):
        k = int(np.clip(np.searchsorted(a, xi, side='right') - 1, 0, len(a) - 2))
        idx.append(k)
        w.append((xi - a[k]) / (a[k + 1] - a[k]))
    total = 0.0
    for corner in itertools.product((0, 1), repeat=len(axes)):
        f = 1.0
        for c, wi in zip(corner, w):
            f *= wi if c else 1 - wi
        total += f * grid[tuple(k + c for k, c in zip(idx, corner))]
    return total


def run(comp, ins, units, outs, out_units):
    p = om.Problem(reports=False)
    p.model.add_subsystem('c', comp, promotes=['*'])
    p.setup()
    p.final_setup()
    for n, v in ins.items():
        p.set_val(n, v, units[n])
    p.run_model()
    return {n: np.array(p.get_val(n, out_units[n])).ravel() for n in outs}


def check(case, ctx):
    rng = np.random.default_rng(case['salt'])
    d = len(case['shape'])
    method = case['method']
    shape = tuple(max(k, NEED[method]) for k in case['shape'])
    if method != 'slinear' and d == 3:
        shape = tuple(min(k, 4) for k in shape)
    steps = itertools.cycle(case['steps'])
    axes = []
    for k in shape:
        axes.append(case['start'] + np.concatenate([[0.0], np.cumsum([next(steps) for _ in range(k - 1)])]))
    ins = [f'in_{i}' for i in range(d)]
    outs = [f'out_{j}' for j in range(case['n_out'])]
    uin = {n: U_IN[i] for i, n in enumerate(ins)}
    uout = {n: U_OUT[j] for j, n in enumerate(outs)}
    mesh = np.meshgrid(*axes, indexing='ij')
    grids = {}
    for n in outs:
        if case['values'] == 'linear':
            c = rng.uniform(-3, 3, d + 1)
            grids[n] = c[0] + sum(a * m for a, m in zip(c[1:], mesh))
        else:
            grids[n] = rng.uniform(-10, 10, shape)
    form = case['form']
    connect = case['connect']
    ragged = case['ragged'] and d > 1 and form != 'grid' and case['structured'] is not True and method == 'slinear' and not connect
    table = np.array([[m.ravel()[r] for m in mesh] + [grids[n].ravel()[r] for n in outs] for r in range(int(np.prod(shape)))])
    if ragged:
        # drop the end of some lines of the innermost input, keeping two points of each
        lines = table.reshape(-1, shape[-1], d + len(outs))
        table = np.concatenate([x[: max(2, shape[-1] - int(rng.integers(0, 3)))] for x in lines])
    clean = table
    if case['row_order'] == 'reversed':
        table = table[::-1]
    elif case['row_order'] == 'shuffled':
        table = table[rng.permutation(len(table))]
    elif case['row_order'] in ('first_sorted', 'last_sorted'):
        # in order of one input only
        table = table[rng.permutation(len(table))]
        table = table[np.argsort(table[:, 0 if case['row_order'] == 'first_sorted' else d - 1], kind='stable')]
    if connect:
        form = 'grid' if form == 'grid' else 'rows'
        table = clean
    names = ins + outs
    cols = {n: table[:, i] for i, n in enumerate(names)}
    order = list(names)
    if case['col_order'] == 'outputs_first':
        order = outs + ins
    elif case['col_order'] == 'mixed':
        order = [outs[0]] + [ins[0]] + outs[1:] + ins[1:]
    if connect:
        order = ins
    outputs = {'list': list(outs), 'reversed': list(outs)[::-1], 'none': None, 'part': outs[:1]}[case['outputs']]
    labelled = form in ('file', 'path') and case['labels'] != 'none'
    if case['outputs'] in ('none', 'part') and (not labelled or (case['outputs'] == 'part' and case['labels'] == 'inputs')):
        outputs = list(outs)
    if connect:
        outputs = {n: uout[n] for n in outs}
    structured = case['structured']
    if form == 'grid' and structured is False:
        structured = None
    kw = dict(num_nodes=case['nn'], method=method, extrapolate=case['extrapolate'], structured=structured, connect_training_data=connect)
    with tempfile.TemporaryDirectory() as tmp:
        if form in ('file', 'path'):
            path = os.path.join(tmp, 'table.csv')
            head = []
            for n in order:
                info = [] if {**uin, **uout}[n] == 'unitless' else [{**uin, **uout}[n]]
                if n in ins and case['labels'] in ('all', 'inputs'):
                    info.append('input')
                if n in outs and case['labels'] in ('all', 'outputs'):
                    info.append('output')
                head.append(n + (f' ({", ".join(info)})' if info else ''))
            with open(path, 'w') as f:
                f.write(', '.join(head) + '\n')
                for i in range(len(table)):
                    f.write(', '.join(repr(float(cols[n][i])) for n in order) + '\n')
            data = path if form == 'file' else Path(path)
        else:
            data = NamedValues()
            for n in order:
                u = uin.get(n) or uout.get(n)
                if form == 'grid':
                    v = axes[ins.index(n)] if n in ins else grids[n]
                else:
                    v = cols[n]
                if case['seq'] == 'list':
                    v = v.tolist()
                data.set_val(n, copy.deepcopy(v), u)
        asked = copy.deepcopy(outputs)
        what = f'{case}'
        with quiet():
            comp = build_data_interpolator(data, outputs, **kw)
    ctx.require(outputs == asked, lambda: f'building an interpolator changed the list of outputs of the caller: {what}', key='outputs_changed')
    is_structured = isinstance(comp, om.MetaModelStructuredComp)
    if structured is not None:
        ctx.require(is_structured == structured, lambda: f'structured={structured} gave {type(comp).__name__}: {what}', key='kind')
    # query points, in other units
    q = np.zeros((case['nn'], d))
    for r in range(case['nn']):
        t = case['pick'][r]
        if ragged and case['where'] == 'node':
            q[r] = clean[t[0] % len(clean), :d]
            continue
        for i, a in enumerate(axes):
            k = t[i % 3] % len(a)
            if case['where'] == 'node':
                q[r, i] = a[k]
            else:
                q[r, i] = a[0] + (t[i % 3] + 0.5) / 1000 * (a[-1] - a[0])
    outside = case['where'] == 'outside'
    if outside:
        q[0, case['pick'][0][0] % d] = axes[case['pick'][0][0] % d][-1] + 0.7
    qu = {}
    for i, n in enumerate(ins):
        us = FAMILY_UNITS.get(BY_UNIT.get(uin[n]), [uin[n]]) if uin[n] != 'unitless' else ['unitless']
        qu[n] = us[case['units'][i] % len(us)]
    ou = {}
    for j, n in enumerate(outs):
        us = FAMILY_UNITS.get(BY_UNIT.get(uout[n]), [uout[n]]) if uout[n] != 'unitless' else ['unitless']
        ou[n] = us[case['units'][3 + j] % len(us)]
    given = {n: np.array([convert(float(x), uin[n], qu[n]) if qu[n] != uin[n] else float(x) for x in q[:, i]]) for i, n in enumerate(ins)}
    if case['where'] == 'node' and not case['extrapolate']:
        # conversion round-off must not put an end point outside
        given = {n: q[:, i] for i, n in enumerate(ins)}
        qu = dict(uin)
    if connect:
        for n in outs:
            v = grids[n] if is_structured else table[:, names.index(n)]
            given[f'{n}_train'] = v
            qu[f'{n}_train'] = uout[n]
    units = {n: (None if u == 'unitless' else u) for n, u in {**qu, **ou}.items()}

    refused = None
    with quiet():
        try:
            got = run(comp, given, units, outs, units)
        except Exception as e:  # compared with what the reference does
            refused = e
    # the same interpolant built directly from the sorted table
    ref = (om.MetaModelStructuredComp if is_structured else om.MetaModelSemiStructuredComp)(
        method=method, extrapolate=case['extrapolate'], vec_size=case['nn'], training_data_gradients=connect
    )
    for i, n in enumerate(ins):
        ref.add_input(n, training_data=axes[i] if is_structured else clean[:, i], units=None if uin[n] == 'unitless' else uin[n])
    for n in outs:
        data = grids[n] if is_structured else clean[:, names.index(n)]
        ref.add_output(n, units=None if uout[n] == 'unitless' else uout[n], **({} if connect else {'training_data': data}))
    ref_refused = None
    with quiet():
        try:
            want = run(ref, given, units, outs, units)
        except Exception as e:
            ref_refused = e
    ctx.require(
        type(refused) is type(ref_refused),
        lambda: f'{type(refused).__name__} {short(str(refused), 300)}, but from the sorted table {type(ref_refused).__name__} {short(str(ref_refused), 300)}: {what}',
        key=f'run|{type(refused).__name__}',
    )
    if refused is not None:
        ctx.label('refused')
        return
    for n in outs:
        tol = 1e-8 * max(1.0, np.max(np.abs(want[n])), abs(convert(10.0, uout[n], ou[n])) if ou[n] != uout[n] else 10.0)
        ctx.require(
            got[n].shape == want[n].shape and np.allclose(got[n], want[n], rtol=1e-8, atol=tol, equal_nan=True),
            lambda: f'{n} at {q.tolist()} = {got[n]} {ou[n]}, from the sorted table {want[n]}: {what}',
            key='value',
        )
        if case['where'] == 'node':
            exact = []
            for r in range(case['nn']):
                hit = np.argmin(np.sum(np.abs(clean[:, :d] - q[r]), axis=1))
                exact.append(clean[hit, names.index(n)])
        elif method == 'slinear' and not ragged:
            exact = [multilinear(axes, grids[n], q[r]) for r in range(case['nn'])]
        else:
            continue
        exact = np.array([convert(float(x), uout[n], ou[n]) if ou[n] != uout[n] else x for x in exact])
        tol = 1e-6 * max(1.0, np.max(np.abs(exact)), abs(convert(10.0, uout[n], ou[n])) if ou[n] != uout[n] else 10.0)
        ctx.require(
            np.allclose(got[n], exact, rtol=1e-6, atol=tol), lambda: f'{n} at {q.tolist()} = {got[n]} {ou[n]}, the table says {exact}: {what}', key=f'table|{case["where"]}'
        )
    ctx.nontrivial(d > 1 or len(outs) > 1)
    ctx.label(form, 'structured' if is_structured else 'semistructured', method, f'{d}_inputs', case['where'], 'ragged' if ragged else 'full', 'connected' if connect else 'fixed')


PARTS = [Part('tables', case_st, check, quick=3200, thorough=100000, shards=8)]
