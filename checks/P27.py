import warnings

import numpy as np
from hypothesis import strategies as st

from aviary.utils import math as am
from lib.pbt import Part

PROPERTY = 'P27'
RULE = (
    'The smoothing functions at generated points, centres and steepness, as numbers, arrays and complex numbers. Non-trivial: an array of two or more points, or a '
    'point more than 30 widths away from the transition.'
)
ASSUMPTIONS = ['Numbers are below 1e6 in size and the steepness is at least 1e-4 in size (sigmoid) and between 0.1 and 1000 (others).']

num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, 100.0, -3.0]), st.floats(-10, 10), st.floats(-1e6, 1e6))
case_st = st.fixed_dictionaries(
    {
        'x': st.lists(num, min_size=1, max_size=6),
        'x0': st.lists(num, min_size=6, max_size=6),
        'near': st.booleans(),
        'mu': st.sampled_from([1.0, 0.1, 0.01, 1e-4, 5.0, 100.0, -1.0, -0.3]),
        'form': st.sampled_from(['scalar', 'array', 'array', 'array_x0', 'one']),
        'cs': st.booleans(),
        'f': st.sampled_from(['sigmoid', 'min', 'max', 'sin_int', 'tanh_int']),
        'sharp': st.sampled_from([0.1, 1.0, 10.0, 100.0, 275.0, 1000.0]),
    }
)


def ref_sigmoid(x, x0, mu):
    z = (np.asarray(x, float) - x0) / mu
    e = np.exp(-np.abs(z))
    s = np.where(z >= 0, 1 / (1 + e), e / (1 + e))
    return s, e / (1 + e) ** 2 / mu


def same(ctx, got, want, what, key, scale=1.0, tol=1e-9):
    got = np.asarray(got)
    ctx.require(got.shape == np.shape(want), lambda: f'{what}: shape {got.shape}, expected {np.shape(want)}', key=key + ':shape')
    ctx.require(not np.iscomplexobj(got) or np.all(got.imag == 0) or key.endswith('cs'), lambda: f'{what}: complex {got}', key=key + ':complex')
    err = np.max(np.abs(got - want) / scale)
    ctx.require(np.isfinite(err) and err <= tol, lambda: f'{what}: {got}, expected {want}', key=key)


def check(case, ctx):
    n = len(case['x'])
    x = np.array(case['x'])
    f, form = case['f'], case['form']
    mu = case['mu'] if f == 'sigmoid' else case['sharp']
    x0 = np.array(case['x0'][:n]) if form == 'array_x0' else case['x0'][0]
    if case['near']:
        width = abs(mu) if f == 'sigmoid' else 1 / mu
        x = x0 + np.clip(x, -50, 50) * width
    if form in ('scalar', 'one'):
        x = x[:1]
        n = 1
    h = 1e-40
    what = f'{f} x={x.tolist()} centre={np.asarray(x0).tolist()} steepness={mu} {form}'
    arg = float(x[0]) if form == 'scalar' else x

    def out(v):
        return float(v[0]) if form == 'scalar' else v

    with warnings.catch_warnings():
        warnings.simplefilter('error')
        try:
            if f == 'sigmoid':
                s, d = ref_sigmoid(x, x0, mu)
                same(ctx, am.sigmoidX(arg, x0, mu), out(s), what, 'sigmoid')
                same(ctx, am.dSigmoidXdx(arg, x0, mu), out(d), what + ' derivative', 'sigmoid_d', scale=1 / abs(mu))
                if case['cs']:
                    got = am.sigmoidX(arg + 1j * h, x0, mu)
                    same(ctx, np.imag(got) / h, out(d), what + ' complex step', 'sigmoid:cs', scale=1 / abs(mu))
            elif f in ('min', 'max'):
                fn, dfn, sign = (am.smooth_min, am.d_smooth_min, -1) if f == 'min' else (am.smooth_max, am.d_smooth_max, 1)
                exact = np.minimum(x, x0) if f == 'min' else np.maximum(x, x0)
                gap = np.abs(x - x0)
                want = exact + sign * np.log1p(np.exp(-mu * gap)) / mu
                scale = 1 + np.abs(exact)
                same(ctx, fn(arg, x0, mu), out(want), what, f, scale=out(scale), tol=1e-12)
                got = np.asarray(fn(arg, x0, mu))
                slack = 1e-12 * scale
                low, high = (exact - np.log(2) / mu, exact) if f == 'min' else (exact, exact + np.log(2) / mu)
                ctx.require(np.all(got >= low - slack) and np.all(got <= high + slack), lambda: f'{what}: {got} outside [{low}, {high}]', key=f + ':bounds')
                same(ctx, fn(x0, arg, mu), out(want), what + ' swapped', f + ':swap', scale=out(scale), tol=1e-12)
                d, _ = ref_sigmoid(x, x0, (-1 if f == 'min' else 1) / mu)
                tol = 1e-9 + 4e-16 * mu * float(np.max(np.abs(x) + np.abs(x0)))
                same(ctx, dfn(arg, x0, mu), out(d), what + ' derivative', f + '_d', tol=tol)
            else:
                x = np.clip(x, -1e4, 1e4)
                arg = float(x[0]) if form == 'scalar' else x
                fn, dfn = (am.sin_int4, am.dydx_sin_int4) if f == 'sin_int' else (am.smooth_int_tanh, am.d_smooth_int_tanh)
                args = () if f == 'sin_int' else (mu,)
                got = np.asarray(fn(arg, *args))
                ctx.require(got.shape == np.shape(arg), lambda: f'{what}: shape {got.shape}', key=f + ':shape')
                lo = np.floor(x)
                real = np.real(np.atleast_1d(got))
                ctx.require(np.all(np.imag(got) == 0), lambda: f'{what}: {got}', key=f + ':complex')
                if f == 'sin_int':
                    ctx.require(np.all(np.abs(real - lo) <= 0.5 + 1e-9) or np.all(np.abs(real - lo - 1) <= 0.5 + 1e-9) or n > 1, lambda: f'{what}: {got}', key=f + ':near')
                    ctx.require(np.all(np.abs(real - (x - 0.5)) <= 0.5 + 1e-9), lambda: f'{what}: {got}', key=f + ':near')
                    mid = (x - lo > 0.3) & (x - lo < 0.7)
                    ctx.require(np.all(np.abs(real - lo)[mid] <= 1e-3), lambda: f'{what}: {got} at the middle of a step, whole part {lo}', key=f + ':plateau')
                else:
                    ctx.require(np.all(real >= lo - 1e-9) and np.all(real <= lo + 1 + 1e-9), lambda: f'{what}: {got} not between {lo} and the next', key=f + ':near')
                    want = lo + ref_sigmoid(x - lo, 0.5, 0.5 / mu)[0]
                    same(ctx, real, want, what, f)
                d = np.atleast_1d(np.asarray(dfn(arg, *args)))
                again = np.atleast_1d(np.asarray(fn(arg + 1.0, *args)))
                one = np.floor(x + 1) == lo + 1  # round-off may carry a point over the small jump at whole numbers
                ctx.require(np.all((np.abs(np.real(again) - real - 1) <= 1e-7 * (1 + mu)) | ~one), lambda: f'{what}: {got}, one further {again}', key=f + ':period')
                eps = 1e-6 / (1 if f == 'sin_int' else max(1.0, mu))
                up, dn = x + eps, x - eps
                fd = (np.real(fn(up, *args)) - np.real(fn(dn, *args))) / (up - dn)
                jump = (np.floor(up) != np.floor(dn)) & (f == 'tanh_int')
                noise = 1e-5 * (16 if f == 'sin_int' else max(1.0, mu)) + 4e-15 * (1 + np.abs(x)) / eps * (16 if f == 'sin_int' else mu + 1)
                ctx.require(np.all((np.abs(np.real(d) - fd) <= noise) | jump), lambda: f'{what}: derivative {d}, differences give {fd}', key=f + '_d')
        except Warning as exc:
            ctx.fail(f'{what}: warning {exc}', key=f + ':warning')
    z = np.abs(x - x0) / (abs(mu) if f == 'sigmoid' else 1 / mu)
    ctx.nontrivial(n > 1 or bool(np.any(z > 30)))
    ctx.label(f, form, 'far' if np.any(z > 300) else 'near')


PARTS = [Part('functions', case_st, check, quick=6000, thorough=400000, shards=8)]
