import numpy as np
from hypothesis import strategies as st

import aviary.api as av  # noqa: F401
from lib.components import Instance, Skip, catalogue, entries
from lib.pbt import Discard, Part

PROPERTY = 'P11'
RULE = (
    'Every analysis component (catalogue of option sets observed in use, further mutated) at perturbed '
    'input points; each analytic Jacobian column is compared with two-step-size central differences. '
    'Non-trivial: the point differs from the base point and at least one entry was decided (not a kink).'
)
ASSUMPTIONS = [
    'At a kink the reported derivative may be anything between the one-sided slopes.',
    'Points where the component itself returns non-finite values are outside the domain.',
]

CAT = catalogue()

case_st = st.fixed_dictionaries(
    {
        'e': entries(CAT),
        'pick': st.integers(0, 10**6),
        'pt': st.integers(0, 2),
        'nn': st.integers(1, 3),
        'mode': st.sampled_from(['near', 'mid', 'mid', 'sparse', 'sparse', 'far', 'jump', 'jump']),
        'mask': st.lists(st.integers(0, 6), min_size=1, max_size=3),
        'zero': st.sampled_from([0.0, 0.0, 0.1, 1.0]),
        'pert': st.lists(st.floats(-1, 1).map(lambda x: round(x, 4)), min_size=6, max_size=24),
        'opts': st.one_of(
            st.just([]), st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), max_size=3)
        ),
        'cols': st.integers(0, 1000),
    }
)

MAXCOL = 36

# components whose integration grid is chosen by rounding station positions
GRID = ('BWBDetailedWingBendingFact',)


def check(case, ctx):
    entry = CAT[case['e'] % len(CAT)]
    try:
        inst = Instance(entry, case, case['nn'])
    except Skip:
        raise Discard()
    x = inst.inputs(case)
    try:
        f0 = inst.run(x)
    except Exception as exc:
        # the component refuses this point
        ctx.label('refused')
        raise Discard() from exc
    if not all(np.all(np.isfinite(v)) for v in f0.values()):
        ctx.label('nonfinite')
        raise Discard()
    try:
        J = inst.jac()
    except Exception:
        if inst.name in GRID:
            ctx.label('refused')
            raise Discard()
        raise
    cols = [(n, i) for n, s, _ in inst.ins for i in range(int(np.prod(s)))]
    if len(cols) > MAXCOL:
        start = case['cols'] % len(cols)
        cols = [cols[(start + j * max(1, len(cols) // MAXCOL)) % len(cols)] for j in range(MAXCOL)]
        cols = list(dict.fromkeys(cols))
    of = [n for n, _, _ in inst.outs]

    def f_at(n, i, d):
        y = {k: v for k, v in x.items()}
        a = np.array(x[n], dtype=float).copy()
        a.ravel()[i] += d
        y[n] = a
        return inst.run(y)

    decided = 0
    has_zero = any(np.any(np.asarray(v) == 0) for v in x.values())
    for n, i in cols:
        xv = float(np.ravel(x[n])[i])
        s = abs(xv) if xv != 0 else 1e-2
        if s < 1e-8:
            s = 1e-3
        h1, h2 = 2e-5 * s, 2e-6 * s
        try:
            p1, m1 = f_at(n, i, h1), f_at(n, i, -h1)
            p2, m2 = f_at(n, i, h2), f_at(n, i, -h2)
        except Exception:
            continue
        for o in of:
            fo = f0[o].ravel()
            with np.errstate(all='ignore'):
                c1 = (p1[o].ravel() - m1[o].ravel()) / (2 * h1)
                c2 = (p2[o].ravel() - m2[o].ravel()) / (2 * h2)
                fw = (p1[o].ravel() - fo) / h1
                bw = (fo - m1[o].ravel()) / h1
                fw2 = (p2[o].ravel() - fo) / h2
                bw2 = (fo - m2[o].ravel()) / h2
            an = np.asarray(J[o][n])[:, i]
            ok = np.isfinite(c1) & np.isfinite(c2) & np.isfinite(fw) & np.isfinite(bw)
            if not np.any(ok):
                continue
            mag = np.maximum(np.abs(p1[o].ravel()), np.abs(fo))
            err = (
                2.0 * np.abs(c1 - c2)
                + np.abs(fw - bw)
                + np.abs(fw2 - bw2)
                + 2e-14 * mag / h2
            )
            tol = 2e-3 * np.maximum(np.abs(an), np.abs(c1)) + err + 1e-6 * (np.max(np.abs(fo)) + 1e-6) / s
            # an estimate whose own uncertainty is of the order of the slope decides nothing
            sharp = err <= 0.1 * np.abs(c1) + 1e-9 * mag / s
            with np.errstate(invalid='ignore'):
                bad = ok & sharp & ~(np.abs(an - c1) <= tol)
            if inst.changed or has_zero:
                # an undefined derivative at a degenerate point (an option or a size of zero) is not judged
                bad &= np.isfinite(an)
            decided += int(np.sum(ok & sharp))
            ctx.sub += 1
            if np.any(bad):
                r = int(np.argmax(bad))
                ctx.fail(
                    f'{inst.path}: d {o}[{r}] / d {n}[{i}] reported {an[r]!r}, finite difference '
                    f'{c1[r]!r} (+-{err[r]:.2e}) at {n}={xv!r}; changed options {inst.changed}',
                    key=f'{inst.path}|{o}|' + ('*' if inst.name in GRID else n),
                )
    moved = any(p != 0 for p in case['pert'])
    ctx.nontrivial(decided > 0 and moved)
    ctx.label(case['mode'], 'options_mutated' if inst.changed else 'options_as_observed')
    ctx.label('module_' + '.'.join(entry[0].split('.')[1:4]))


PARTS = [Part('partials', case_st, check, quick=12000, thorough=160000, shards=16, case_limit=10)]
