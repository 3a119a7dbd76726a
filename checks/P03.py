import copy
import os
import tempfile
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from aviary.utils.csv_data_file import read_data_file, write_data_file
from aviary.utils.named_values import NamedValues
from lib.mission import quiet
from lib.pbt import Part, short

PROPERTY = 'P03'
RULE = (
    'Generated tables are written by Aviary and read back, and generated table files in many layouts (delimiters, spaces, aliases, units, roles, comments, blank '
    'lines, extra columns, number formats) or with one mistake are read. Non-trivial: two or more columns and two or more rows.'
)
ASSUMPTIONS = ['Column names contain letters, digits, underscores, colons and spaces only. Comments are single lines.']

UNITS = ['unitless', 'unitless', 'ft', 'lbf', 'lbm/h', 'deg', 'ft**2', 'lbm/(h*lbf)', 'kW', 'm/s', 'hp/ft**2', '1/rad']
SAME = {'ft': 'm', 'lbf': 'N', 'lbm/h': 'kg/s', 'deg': 'rad', 'ft**2': 'm**2', 'kW': 'hp', 'm/s': 'kn'}
num_st = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.1, 1e5, 2.5e-7, 123456789.125, 1 / 3, -0.0, 1e22, 5e-324]),
    st.floats(-1e6, 1e6, allow_nan=False),
    st.floats(allow_nan=False, allow_infinity=False),
    st.integers(-(10**6), 10**6),
)
BASES = ['altitude', 'Mach', 'thrust', 'aircraft:wing:area', 'Fuel Flow', 'x1', 'lift_coefficient', 'E', 'Tail Thrust']


def column_names(ks):
    """Distinct also without case and with spaces for underscores."""
    seen, out = set(), []
    for k in ks:
        n = BASES[k % len(BASES)]
        while n.lower().replace(' ', '_') in seen:
            n += 'b'
        seen.add(n.lower().replace(' ', '_'))
        out.append(n)
    return out


table_st = st.integers(1, 6).flatmap(
    lambda c: st.fixed_dictionaries(
        {
            'cols': st.lists(st.sampled_from(range(len(BASES))), min_size=c, max_size=c),
            'units': st.lists(st.sampled_from(range(len(UNITS))), min_size=c, max_size=c),
            'roles': st.lists(st.booleans(), min_size=c, max_size=c),
            'rows': st.lists(st.lists(num_st, min_size=c, max_size=c), min_size=1, max_size=8),
        }
    )
)

# ---------------------------------------------------------------------------------------- round trip
trip_st = st.fixed_dictionaries(
    {
        'table': table_st,
        'label': st.booleans(),
        'comments': st.one_of(st.none(), st.just('a comment'), st.lists(st.sampled_from(['plain', '# hashed', 'with, comma', '', 'x (ft)', '  padded ', '#no space']), max_size=3)),
        'stamp': st.booleans(),
        'kind': st.sampled_from(['array', 'list', 'int']),
        'twice': st.booleans(),
        'path': st.booleans(),
    }
)


def make(t, kind='array'):
    names = [n.replace(' ', '_') for n in column_names(t['cols'])]
    data = NamedValues()
    for i, n in enumerate(names):
        v = [r[i] for r in t['rows']]
        if kind == 'array':
            v = np.array([float(x) for x in v])
        elif kind == 'int' and all(isinstance(x, int) for x in v):
            v = np.array(v)
        data.set_val(n, v, UNITS[t['units'][i]])
    return names, data


def check_trip(case, ctx):
    t = case['table']
    names, data = make(t, case['kind'])
    outs = [n for n, r in zip(names, t['roles']) if r] if case['label'] else None
    comments = copy.deepcopy(case['comments'])
    before = {n: (copy.deepcopy(data.get_item(n)[0]), data.get_item(n)[1]) for n in names}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'table.csv')
        if case['path']:
            path = Path(path)
        for _ in range(2 if case['twice'] else 1):
            if comments is None:
                write_data_file(path, data, outs, include_timestamp=case['stamp'])
            else:
                write_data_file(path, data, outs, comments, include_timestamp=case['stamp'])
        text = Path(path).read_text()
        with quiet():
            got, inputs, outputs, back = read_data_file(str(path), save_comments=True)
    ctx.require(comments == case['comments'], lambda: f'writing a table changed the comments of the caller from {case["comments"]} to {comments}', key='comments_changed')
    ctx.require(outs is None or outs == [n for n, r in zip(names, t['roles']) if r], 'writing a table changed the list of outputs', key='outputs_changed')
    ctx.require(list(got.keys()) == names, lambda: f'columns {names} read back as {list(got.keys())}:\n{text}', key='columns')
    for n in names:
        v, u = got.get_item(n)
        w, wu = before[n]
        ctx.require((u or 'unitless') == (wu or 'unitless'), lambda: f'{n}: units {wu} read back as {u}:\n{short(text, 400)}', key='units')
        w = np.array([float(x) for x in w])
        ctx.require(
            np.shape(v) == np.shape(w) and np.array_equal(np.asarray(v, dtype=float), w), lambda: f'{n}: {short(w)} read back as {short(v)}:\n{short(text, 400)}', key='values'
        )
        nv, nu = data.get_item(n)
        ctx.require(nu == wu and np.array_equal(np.asarray(nv, float), w), lambda: f'writing a table changed its data {n}', key='data_changed')
    if case['label']:
        ctx.require(outputs == outs and inputs == [n for n in names if n not in outs], lambda: f'outputs {outs} of {names} read back as inputs {inputs}, outputs {outputs}:\n{text}', key='roles')
    else:
        ctx.require(not inputs and not outputs, lambda: f'roles {inputs} {outputs} read from a file without any', key='roles')
    want = [] if comments is None else [case['comments']] if isinstance(case['comments'], str) else list(case['comments'])
    want = [c.strip()[c.strip().startswith('#'):].strip() for c in want if c.strip()]
    got_c = [c for c in back if not (case['stamp'] and c.startswith('created '))]
    ctx.require(got_c == want, lambda: f'comments {case["comments"]} read back as {back}', key='comments')
    ctx.nontrivial(len(names) >= 2 and len(t['rows']) >= 2)
    ctx.label(f'{len(names)}_columns', 'labelled' if case['label'] else 'unlabelled', 'comments' if want else 'plain')


# ---------------------------------------------------------------------------------------- layouts
col_style = st.fixed_dictionaries(
    {
        'spell': st.sampled_from(['name', 'name', 'alias0', 'alias1', 'ALIAS1', 'Alias 2']),
        'role': st.sampled_from([None, None, 'input', 'output']),
        'unit_given': st.sampled_from([True, True, False]),
        'other_unit': st.booleans(),
        'role_first': st.booleans(),
        'known': st.sampled_from([True, True, True, False]),
        'pad': st.sampled_from(['', ' ', '   ', '\t', ' \t ']),
    }
)
MISTAKES = [
    None, None, None, None, 'text', 'blank', 'short', 'bad_unit', 'incompatible', 'duplicate', 'both_roles', 'header_twice',
]
layout_st = st.integers(1, 6).flatmap(
    lambda c: st.fixed_dictionaries(
        {
            'table': st.fixed_dictionaries(
                {
                    'cols': st.lists(st.sampled_from(range(len(BASES))), min_size=c, max_size=c),
                    'units': st.lists(st.sampled_from(range(len(UNITS))), min_size=c, max_size=c),
                    'rows': st.lists(st.lists(num_st, min_size=c, max_size=c), min_size=1, max_size=6),
                }
            ),
            'styles': st.lists(col_style, min_size=c, max_size=c),
            'metadata': st.booleans(),
            'aliases': st.booleans(),
            'sep': st.sampled_from([',', ', ', ' ,', ',\t', ';', '; ', ' ;\t']),
            'eol': st.sampled_from(['\n', '\r\n']),
            'bom': st.booleans(),
            'noise': st.lists(st.tuples(st.sampled_from(range(9)), st.sampled_from(['', '# note, 1, 2', '   ', '#', ',,,', '\t'])), max_size=3),
            'tails': st.sampled_from(['', ',', ' , ,', ' # about, this 5', '  ']),
            'number': st.sampled_from(['repr', 'repr', 'exp', 'plus', 'int', 'padded']),
            'mistake': st.sampled_from(MISTAKES),
            'where': st.tuples(st.sampled_from(range(6)), st.sampled_from(range(6))),
            'verbosity': st.sampled_from([0, 1, 2]),
        }
    )
)


def num(x, how):
    x = float(x)
    if how == 'exp':
        return '%.17E' % x
    if how == 'plus' and x >= 0 and not np.signbit(x):
        return '+' + repr(x)
    if how == 'int' and x == int(x) and abs(x) < 1e15 and not (x == 0 and np.signbit(x)):
        return str(int(x))
    if how == 'padded' and 0 < abs(x) < 1e15 and 'e' not in repr(x):
        return repr(x) + '000'
    return repr(x)


def check_layout(case, ctx):
    t = case['table']
    raw = column_names(t['cols'])
    names = [n.replace(' ', '_') for n in raw]
    c = len(names)
    aliases = {}
    metadata = {}
    header, want_units, keep = [], [], []
    roles = []
    mistake = case['mistake']
    mr, mc = case['where'][0] % len(t['rows']), case['where'][1] % c
    for i, s in enumerate(case['styles']):
        unit = UNITS[t['units'][i]]
        aliases[names[i]] = [f'alias_{i}_0', f'alias {i}_1', f'ALIAS_{i}_2']
        known = s['known'] or i == 0 or (mistake not in (None, 'short', 'text') and i == mc)
        if known:
            metadata[names[i]] = {'units': unit or 'unitless'}
        spell = raw[i]
        if case['aliases'] and s['spell'] != 'name':
            spell = {'alias0': f'alias_{i}_0', 'alias1': f'alias {i}_1', 'ALIAS1': f'ALIAS {i}_1', 'Alias 2': f'alias {i} 2'}[s['spell']]
        given = unit
        if s['other_unit'] and unit in SAME:
            given = SAME[unit]
        show = s['unit_given']
        if mistake == 'bad_unit' and i == mc:
            given, show = 'furlong_per_x', True
        if mistake == 'incompatible' and i == mc:
            given, show = ('degK' if unit != 'degK' else 'ft'), True
        info = ([given] if show else [])
        role = s['role']
        if mistake == 'both_roles' and i == mc:
            info = info + ['input', 'output'] if not s['role_first'] else ['output', 'input'] + info
            role = 'input'
        elif role:
            info = [role] + info if s['role_first'] else info + [role]
        header.append(spell + (f'{s["pad"] if info else ""}({", ".join(info)})' if info else '') + s['pad'])
        kept = not case['metadata'] or known
        keep.append(kept)
        want_units.append(given if show else ((unit or 'unitless') if case['metadata'] else 'unitless'))
        roles.append(role)
    rows = [[num(x, case['number']) for x in r] for r in t['rows']]
    want_rows = np.array([[float(x) for x in r] for r in rows])
    sep = case['sep']
    refuse = False
    if mistake == 'text':
        rows[mr][mc] = 'missing'
        refuse = True
    elif mistake == 'blank' and mc < c - 1:
        rows[mr][mc] = ''
        refuse = True
    elif mistake == 'short' and keep[c - 1] and c > 1:
        rows[mr] = rows[mr][:-1]
        refuse = True
    elif mistake == 'bad_unit' and keep[mc]:
        refuse = True
    elif mistake == 'incompatible' and case['metadata'] and keep[mc]:
        refuse = True
    elif mistake == 'duplicate' and c > 1 and mc > 0 and keep[0]:
        header[mc] = header[0]
        refuse = True
    elif mistake == 'header_twice':
        rows.insert(mr + 1, list(header))
        refuse = True
    lines = [sep.join(header)] + [sep.join(r) for r in rows]
    tail = case['tails']
    lines = [x + tail for x in lines]
    for k, x in case['noise']:
        lines.insert(k % (len(lines) + 1), x)
    text = ('\ufeff' if case['bom'] else '') + case['eol'].join(lines) + case['eol']
    kw = {'verbosity': case['verbosity']}
    if case['metadata']:
        kw['metadata'] = metadata
    if case['aliases']:
        kw['aliases'] = aliases
    before = copy.deepcopy(aliases), copy.deepcopy(metadata)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 't.csv')
        with open(path, 'w', newline='', encoding='utf-8') as f:
            f.write(text)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got, inputs, outputs = read_data_file(path, **kw)
        except (ValueError, IndexError) as e:
            ctx.require(refuse, lambda: f'a valid file was refused ({type(e).__name__}: {short(str(e), 200)}):\n{short(text, 500)}', key=f'refused|{mistake}')
            ctx.label('refused', f'mistake_{mistake}')
            ctx.nontrivial(c >= 2)
            return
    ctx.require(not refuse, lambda: f'a file with a mistake ({mistake}) was read as { {k: v for k, v in got.items()} }:\n{short(text, 500)}', key=f'accepted|{mistake}')
    if refuse:
        return
    ctx.require((aliases, metadata) == before, lambda: f'reading a file changed the aliases of the caller to {aliases}', key='aliases_changed')
    want = [n for n, k in zip(names, keep) if k]
    ctx.require(list(got.keys()) == want, lambda: f'columns {want} were read as {list(got.keys())}:\n{short(text, 500)}', key='columns')
    for i, n in enumerate(names):
        if keep[i] and n in got:
            v, u = got.get_item(n)
            ctx.require((u or 'unitless') == (want_units[i] or 'unitless'), lambda: f'{n}: units read as {u}, written {want_units[i]}:\n{short(text, 500)}', key='units')
            ctx.require(np.array_equal(v, want_rows[:, i]), lambda: f'{n}: read as {short(v)}, written {want_rows[:, i]}:\n{short(text, 500)}', key='values')
    for role, have in (('input', inputs), ('output', outputs)):
        w = [n for n, r, k in zip(names, roles, keep) if r == role and k]
        ctx.require(have == w, lambda: f'{role}s {w} were read as {have}:\n{short(text, 500)}', key='roles')
    ctx.nontrivial(c >= 2 and len(rows) >= 2)
    ctx.label('read', f'mistake_{mistake}', 'metadata' if case['metadata'] else 'free')


PARTS = [
    Part('roundtrip', trip_st, check_trip, quick=3000, thorough=200000, shards=8),
    Part('layout', layout_st, check_layout, quick=6000, thorough=400000, shards=8),
]
