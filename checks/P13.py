import numpy as np
from hypothesis import strategies as st

from lib import mission as M
from lib.components import Instance, Skip, catalogue, entries
from lib.pbt import Discard, Part, short

PROPERTY = 'P13'
RULE = (
    'Histories: an analysis (component, flight-equation group or whole problem) is evaluated at point A, '
    'then at other points (some of which it refuses), then at A again, and a fresh copy at A; outputs and '
    'derivatives must repeat. Non-trivial: at least one other point differing from A was evaluated between.'
)
ASSUMPTIONS = ['Implicit groups are restarted from the same guess, so repeats are exact up to round-off.']

CAT = catalogue()

MODES = ['mid', 'jump', 'jump', 'far']
pert_st = st.lists(st.floats(-1, 1).map(lambda x: round(x, 4)), min_size=6, max_size=24)
case_st = st.fixed_dictionaries(
    {
        'e': entries(CAT),
        'pick': st.integers(0, 10**6),
        'pt': st.integers(0, 2),
        'nn': st.one_of(st.integers(1, 3), st.sampled_from([5, 8])),
        'mode': st.sampled_from(['near', 'mid', 'mid', 'sparse', 'far', 'jump', 'jump']),
        'mask': st.lists(st.integers(0, 6), min_size=1, max_size=3),
        'zero': st.sampled_from([0.0, 0.1, 1.0]),
        'pert': pert_st,
        'others': st.lists(pert_st, min_size=1, max_size=3),
        'jac_between': st.booleans(),
        'bad': st.booleans(),
        'opts': st.one_of(
            st.just([]), st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), max_size=3)
        ),
    }
)


def same(ctx, a, b, what, key):
    for n in a:
        s = np.max(np.abs(a[n][np.isfinite(a[n])]), initial=0.0)
        ctx.close(b[n], a[n], f'{what}: {n}', rtol=1e-10, atol=1e-12 * s, key=f'{key}|{n}')


def size(v):
    v = np.abs(np.asarray(v, dtype=float))
    return max(np.max(v[np.isfinite(v)], initial=0.0), 1e-3)


def same_jac(ctx, a, b, what, key, f, x):
    for o in a:
        for i in a[o]:
            s = np.max(np.abs(a[o][i][np.isfinite(a[o][i])]), initial=0.0)
            ctx.close(
                b[o][i], a[o][i], f'{what}: d {o} / d {i}', rtol=1e-9, atol=1e-11 * s + 1e-10 * size(f[o]) / size(x[i]), key=f'{key}|d{o}|{i}'
            )


def freeze_options(comp):
    out = {}
    for k in comp.options._dict:
        try:
            v = comp.options[k]
        except Exception:
            continue
        out[k] = short(repr(v), 2000) if not isinstance(v, np.ndarray) else short(v, 2000)
    return out


def check(case, ctx):
    entry = CAT[case['e'] % len(CAT)]
    try:
        inst = Instance(entry, case, case['nn'])
    except Skip:
        raise Discard()
    x = inst.inputs(case)
    try:
        f0 = inst.run(x)
    except Exception as exc:
        raise Discard() from exc
    where = f'{inst.path} (options changed {inst.changed})'
    opt0 = freeze_options(inst.comp)
    try:
        J0 = inst.jac()
    except Exception:
        J0 = None
    for n, v in x.items():
        if inst.implicit:
            continue  # the harness' own solver spans the inputs, and moves them by its round-off
        ctx.close(inst.prob.get_val(n), v, f'{where}: input {n} changed by evaluation', rtol=1e-12, atol=1e-15 + 1e-12 * np.max(np.abs(v), initial=0.0),
                  key=f'{inst.path}|input|{n}')
    moved, last = False, None
    for i, p in enumerate(case['others']):
        y = inst.inputs({**case, 'pert': p, 'pick': case['pick'] + 1 + i, 'mode': MODES[(case['pick'] + i) % 4]})
        if case['bad']:
            # a point the component may refuse half way
            k = sorted(y)[0]
            y[k] = -np.abs(y[k]) * 1e3
        try:
            last = None
            g = inst.run(y)
            last = y, {n: np.array(v) for n, v in g.items()}
            moved |= any(not np.array_equal(g[n], f0[n]) for n in g)
            if case['jac_between']:
                inst.jac()
        except Exception:
            moved = True
    try:
        f1 = inst.run(x)
    except Exception as exc:
        ctx.fail(f'{where}: refuses the first point after other points: {exc}', key=f'{inst.path}|refuse')
        return
    same(ctx, f0, f1, f'{where} evaluated again', inst.path)
    if J0 is not None:
        same_jac(ctx, J0, inst.jac(), f'{where} linearized again', inst.path, f0, x)
    ctx.require(
        freeze_options(inst.comp) == opt0, lambda: f'{where}: options changed by evaluation', key=f'{inst.path}|options'
    )
    fresh = Instance(entry, case, case['nn'])
    if last is not None:
        try:
            f3 = fresh.run(last[0])
        except Exception as exc:
            ctx.fail(f'{where}: a fresh copy refuses a point that was accepted after another one: {exc}', key=f'{inst.path}|fresh')
            return
        same(ctx, last[1], f3, f'{where} evaluated second, and first on a fresh copy', inst.path)
    try:
        f2 = fresh.run(x)
    except Exception as exc:
        ctx.fail(f'{where}: a fresh copy refuses the point: {exc}', key=f'{inst.path}|fresh')
        return
    same(ctx, f0, f2, f'{where} on a fresh copy', inst.path)
    ctx.nontrivial(moved)
    ctx.label('refused_between' if case['bad'] else 'plain', 'module_' + '.'.join(entry[0].split('.')[1:4]))


# ---------------------------------------------------------------- flight equations

PHASES = [
    ('FwFm', 'climb'), ('FwFm', 'descent'), ('GwGm', 'ascent'), ('GwGm', 'accel'), ('GwGm', 'climb1'),
    ('GwGm', 'cruise'), ('GwGm', 'desc1'), ('GwFm', 'cruise'), ('multi', 'climb'), ('turboprop', 'climb2'),
]
ode_pert = st.lists(st.floats(-0.08, 0.08).map(lambda x: round(x, 4)), min_size=4, max_size=12)
ode_st = st.fixed_dictionaries(
    {
        'ph': st.integers(0, len(PHASES) - 1),
        'nn': st.integers(1, 4),
        'rows': st.lists(st.lists(st.integers(0, 40), min_size=4, max_size=4), min_size=2, max_size=3),
        'pert': st.lists(ode_pert, min_size=3, max_size=3),
    }
)


def check_ode(case, ctx):
    kind, phase = PHASES[case['ph']]
    nn = case['nn']
    o = M.ode(kind, phase, nn)
    par = M.params(kind, phase)
    pts = [M.draw_states(kind, phase, nn, r, p) for r, p in zip(case['rows'], case['pert'])]
    try:
        f0 = M.run_ode(o, pts[0], par)
    except M.Unconverged as exc:
        raise Discard() from exc
    for x in pts[1:]:
        try:
            M.run_ode(o, x, par)
        except M.Unconverged:
            ctx.label('refused_between')
    try:
        f1 = M.run_ode(o, pts[0], par)
    except M.Unconverged as exc:
        ctx.fail(f'{kind}/{phase}: does not converge at the first point any more: {exc}', key=f'{kind}/{phase}')
        return
    for n in f0:
        s = np.max(np.abs(f0[n][np.isfinite(f0[n])]), initial=0.0)
        ctx.close(f1[n], f0[n], f'{kind}/{phase}: {n} evaluated again', rtol=1e-6, atol=1e-8 * s + 1e-9,
                  key=f'{kind}/{phase}|{n}')
    ctx.nontrivial(case['rows'][1] != case['rows'][0] or any(case['pert'][1]))
    ctx.label(f'{kind}/{phase}')


# ---------------------------------------------------------------- whole problems

KINDS = ['FwFm', 'GwGm', 'FwGm', 'multi', 'GwFm']
prob_st = st.fixed_dictionaries(
    {
        'first': st.sampled_from(KINDS),
        'between': st.lists(st.sampled_from(KINDS), min_size=1, max_size=2),
        'reruns': st.lists(st.floats(0.9, 1.1).map(lambda x: round(x, 3)), min_size=1, max_size=2),
    }
)



def snapshot(p):
    out = {}
    for n, m in p.model.list_outputs(out_stream=None, prom_name=True, val=True):
        out[m['prom_name']] = np.array(m['val'], dtype=float)
    return out


def check_problem(case, ctx):
    p = M.build(case['first'])
    a = snapshot(p)
    area = [n for n in ('aircraft:wing:area', 'aircraft:wing:aspect_ratio', 'aircraft:design:gross_mass')]
    ini = {}
    for n in area:
        try:
            ini[n] = p.get_val(n).copy()
        except KeyError:
            pass
    k0 = {n: v for n, v in ini.items()}
    # the same problem: other values, then the first ones again
    v0 = p.model._outputs.asarray(copy=True)
    with M.quiet():
        M.om.Problem.run_model(p)
    a1 = snapshot(p)
    for f in case['reruns']:
        for n, v in k0.items():
            p.set_val(n, v * f)
        with M.quiet():
            try:
                M.om.Problem.run_model(p)
            except Exception:
                ctx.label('refused_between')
    p.model._outputs.set_val(v0)
    with M.quiet():
        M.om.Problem.run_model(p)
    a2 = snapshot(p)
    for n in a1:
        s = np.max(np.abs(a1[n][np.isfinite(a1[n])]), initial=0.0)
        ctx.close(a2[n], a1[n], f'{case["first"]}: {n} after other values were tried and undone',
                  rtol=1e-7, atol=1e-9 * s + 1e-12, key=f'problem|{n}')
    for k in case['between']:
        M.build(k, run=False)
    q = M.build(case['first'])
    b = snapshot(q)
    ctx.require(set(a) == set(b), 'a second, identical problem has other variables', key='problem|names')
    for n in a:
        s = np.max(np.abs(a[n][np.isfinite(a[n])]), initial=0.0)
        ctx.close(b[n], a[n], f'{case["first"]}: {n} of an identical problem built later in the same session',
                  rtol=1e-7, atol=1e-9 * s + 1e-12, key=f'problem|{n}')
    ctx.nontrivial()
    ctx.label(case['first'])


PARTS = [
    Part('components', case_st, check, quick=9000, thorough=150000, shards=16, case_limit=10),
    Part('flight_equations', ode_st, check_ode, quick=100, thorough=2000, shards=8, shrink_budget=20),
    Part('problems', prob_st, check_problem, quick=8, thorough=60, shards=8, shrink=False, case_limit=120),
]
