import enum
import os
import warnings

import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.process_input_decks import create_vehicle, parse_inputs
from lib.mission import quiet
from lib.pbt import Part, short
from lib.units_ref import BY_UNIT, FAMILY_UNITS

PROPERTY = 'P02'
RULE = (
    'Generated vehicle decks (any variables, values of their types, units, layout, comments, repeated and unknown names) are read and compared with what was written; '
    'generated sets of inputs are written by Aviary and read back. Non-trivial: at least three variables, one of them not a plain number in default units.'
)
ASSUMPTIONS = ['Text values contain no commas, comment signs or brackets, and do not spell a number, a truth value or a unit.']

META = av.CoreMetaData
NAMES = sorted(n for n in META if n != 'settings:verbosity')


def kinds(n):
    t = META[n]['types']
    t = t if isinstance(t, tuple) else (t,)
    e = next((x for x in t if isinstance(x, type) and issubclass(x, enum.Enum)), None)
    if e is not None:
        return e
    if float in t or None in t:
        return float
    return next(x for x in (int, bool, str) if x in t)


SPECIAL = [n for n in NAMES if kinds(n) is not float or META[n]['multivalue']]
name_st = st.one_of(st.sampled_from(NAMES), st.sampled_from(SPECIAL))
num_st = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.1, 1e5, 2.5e-7, 1e-5, 123456789.125, -3.5, 1e20, 40.0]),
    st.floats(-1e6, 1e6, allow_nan=False),
    st.floats(-1e-3, 1e-3, allow_nan=False),
    st.integers(-500, 10**6).map(float),
)
item_st = st.fixed_dictionaries(
    {
        'name': name_st,
        'vals': st.lists(num_st, min_size=1, max_size=4),
        'ints': st.lists(st.integers(-30, 400), min_size=4, max_size=4),
        'text': st.sampled_from(['plain text', 'models/engines/turbofan_28k.csv', 'slinear', 'some_name', 'x1']),
        'u': st.one_of(st.none(), st.sampled_from(range(10))),
        'form': st.sampled_from(range(6)),
        'pad': st.sampled_from(['', ' ', '  ', '\t']),
        'tail': st.sampled_from(['', ',', ',,,', ' # a comment, with, commas', '#x', ', ,']),
        'pre': st.sampled_from(['', '', '', '\n', '# note: 1,2,ft\n', ',,\n', 'aircraft:no_such:variable,5.0,ft\n', 'initialization_guesses:reserves,4998.5\n']),
    }
)
deck_st = st.fixed_dictionaries({'items': st.lists(item_st, min_size=1, max_size=12), 'eol': st.sampled_from(['\n', '\r\n'])})


def number_text(x, form):
    """The ways to write a number."""
    if form == 1 and x == int(x) and abs(x) < 1e15:
        return str(int(x))
    if form == 2:
        return f'{x:.17e}'
    if form == 3:
        return f'{x:.17E}'
    if form == 4 and abs(x) < 1e15 and abs(x) > 1e-3:
        return f'{x:.20f}'
    return repr(float(x))


def built(item):
    """(texts of the value, expected value, units)"""
    n = item['name']
    k = kinds(n)
    multi = META[n]['multivalue']
    f = item['form']
    m = len(item['vals']) if multi else 1
    fam = BY_UNIT.get(META[n]['units'])
    us = FAMILY_UNITS.get(fam, [META[n]['units']])
    units = META[n]['units'] if item['u'] is None or k is not float else us[item['u'] % len(us)]
    if k is float:
        vals = item['vals'][:m]
        texts = [number_text(v, f) for v in vals]
        want = [float(t) for t in texts]
    elif k is int:
        want = item['ints'][:m]
        texts = [str(v) for v in want]
    elif k is bool:
        want = [v % 2 == 0 for v in item['ints'][:m]]
        texts = [[str(v), str(v).lower(), str(v).upper()][f % 3] for v in want]
    elif k is str:
        want = [item['text'] + (str(i) if i else '') for i in range(m)]
        texts = list(want)
    else:
        members = list(k)
        want = [members[v % len(members)] for v in item['ints'][:m]]
        texts = [[w.name, w.name.lower(), str(w.value)][f % 3] for w in want]
    return texts, want, units


def flat(v):
    if isinstance(v, np.ndarray):
        return v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        return list(v)
    return [v]


def agree(ctx, values, want, what):
    for n, (w, units, multi) in want.items():
        ctx.require(n in values, f'{what}: {n} is missing', key=f'missing|{kinds(n).__name__}')
        got, gu = values.get_item(n)
        g = flat(got)
        ok = len(g) == len(w) and all(type(a) is type(b) and a == b if isinstance(b, (bool, str, enum.Enum)) else (not isinstance(a, (str, bool)) and a == b) for a, b in zip(g, w))
        ctx.require(ok, f'{what}: {n} written as {w}, read as {short(got, 200)}', key=f'value|{kinds(n).__name__}|{"multi" if multi else "single"}')
        ctx.require(not isinstance(got, (list, tuple, np.ndarray)) or multi, f'{what}: {n} is a sequence {got!r}', key='sequence')
        ctx.require(gu == units, f'{what}: {n} written with units {units}, read with {gu}', key='units')


def check_parse(case, ctx):
    want, lines, guess = {}, [], None
    plain = True
    for it in case['items']:
        texts, w, units = built(it)
        n, pad = it['name'], it['pad']
        multi = META[n]['multivalue']
        if multi and it['form'] % 2 and len(texts) > 1:
            texts = ['[' + texts[0]] + texts[1:-1] + [texts[-1] + ']']
        fields = [n] + texts
        if it['u'] is not None or kinds(n) is str:
            fields.append(units)
        if 'initialization_guesses' in it['pre']:
            guess = 4998.5
        lines.append(it['pre'] + (',' + pad).join(fields) + it['tail'])
        want[n] = (w, units, multi)
        plain = plain and kinds(n) is float and it['u'] is None
    text = ('\n'.join(lines) + '\n').replace('\n', case['eol'])
    with open('deck.csv', 'w', newline='') as f:
        f.write(text)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        values, guesses = parse_inputs('deck.csv')
        values2, _ = create_vehicle('deck.csv', verbosity=0)
    what = f'deck {short(text, 400)!r}'
    agree(ctx, values, want, what)
    agree(ctx, values2, want, what + ' by create_vehicle')
    ctx.require(set(values.keys()) == set(want), lambda: f'{what}: variables {set(values.keys()) ^ set(want)} differ', key='names')
    if guess is not None:
        ctx.require(guesses.get('reserves') == guess, f'{what}: initial guess read as {guesses}', key='guess')
    ctx.nontrivial(len(want) >= 3 and not plain)
    ctx.label(*{kinds(n).__name__ for n in want})


def check_round(case, ctx):
    values, want = AviaryValues(), {}
    plain = True
    for it in case['items']:
        _, w, units = built(it)
        n = it['name']
        multi = META[n]['multivalue']
        val = w[0]
        if multi and (it['form'] % 3 or len(w) > 1):
            val = [list(w), tuple(w), np.array(w) if kinds(n) in (int, float) else list(w)][it['form'] % 3]
        values.set_val(n, val, units)
        want[n] = (w, units, multi)
        plain = plain and kinds(n) is float and it['u'] is None
    before = {n: (repr(v), u) for n, (v, u) in values}
    with quiet():
        save_to_csv_file('saved.csv', values)
        ctx.require({n: (repr(v), u) for n, (v, u) in values} == before, 'saving changed the inputs', key='mutated')
        text = open('saved.csv').read()
        back, _ = parse_inputs('saved.csv')
    what = f'saved deck {short(text, 500)!r}'
    agree(ctx, back, want, what)
    ctx.require(set(back.keys()) == set(want), lambda: f'{what}: variables {set(back.keys()) ^ set(want)} differ', key='names')
    with quiet():
        save_to_csv_file('again.csv', back)
    ctx.require(text.splitlines()[1:] == open('again.csv').read().splitlines()[1:], f'{what}: writing what was read gives another file', key='stable')
    for f in ('saved.csv', 'again.csv'):
        os.remove(f)
    ctx.nontrivial(len(want) >= 3 and not plain)
    ctx.label(*{kinds(n).__name__ for n in want})


PARTS = [
    Part('parse', deck_st, check_parse, quick=3000, thorough=100000, shards=8),
    Part('roundtrip', deck_st, check_round, quick=2000, thorough=100000, shards=8),
]
