import copy
import re

import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from aviary.utils.develop_metadata import add_meta_data, update_meta_data
from aviary.utils.merge_hierarchies import merge_hierarchies
from aviary.utils.merge_variable_metadata import merge_meta_data
from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
from lib import units_ref
from lib.mission import om, quiet
from lib.pbt import Part, short

PROPERTY = 'P04'
RULE = (
    'Histories of adding, updating and merging variable metadata against a model, merges of generated variable hierarchies, and components that declare registered '
    'variables as inputs, outputs or options. Non-trivial: a merge of two or more definitions that overlap, or a refused operation.'
)
ASSUMPTIONS = ['Hierarchies are nested classes with text values, plain or derived from the core hierarchies.']

# ---------------------------------------------------------------------------------------- metadata
KEYS = ['aircraft:a', 'aircraft:b:c', 'mission:d', 'x']
meta_st = st.fixed_dictionaries(
    {
        'units': st.sampled_from(['ft', 'lbm', 'unitless', None]),
        'desc': st.sampled_from(['', 'some text', None]),
        'default': st.sampled_from([0.0, 1.5, 3, True, 'text', None, [1.0, 2.0], 'arr', 2.5 * (1 + 1e-12)]),
        'types': st.sampled_from([None, float, int, str, bool]),
        'multivalue': st.booleans(),
        'option': st.booleans(),
        'hist': st.sampled_from([None, {'FLOPS': 'WTIN.X'}, {'FLOPS': 'WTIN.X', 'GASP': ['A', 'B']}]),
    }
)
op_st = st.fixed_dictionaries(
    {
        'op': st.sampled_from(['add', 'add', 'add', 'update', 'merge', 'merge', 'copy', 'hand']),
        'd': st.sampled_from(range(3)),
        'd2': st.lists(st.sampled_from(range(3)), min_size=1, max_size=3),
        'key': st.sampled_from(range(len(KEYS))),
        'meta': st.sampled_from(range(3)),
    }
)
registry_st = st.fixed_dictionaries({'metas': st.lists(meta_st, min_size=3, max_size=3), 'ops': st.lists(op_st, min_size=1, max_size=14)})


def model_entry(m):
    default, types = m['default'], m['types']
    if default == 'arr':
        default = np.array([1.0, 2.0])
    if types is None and default is not None:
        try:
            default = float(default)
        except (ValueError, TypeError):
            pass
        types = type(default)
    return {
        'historical_name': m['hist'],
        'units': m['units'] or 'unitless',
        'desc': m['desc'],
        'option': m['option'],
        'default_value': default,
        'types': types,
        'multivalue': m['multivalue'],
    }


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=0)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-8, atol=0))
    return a == b


def check_registry(case, ctx):
    real = [{}, {}, {}]
    model = [{}, {}, {}]
    merges = refused = 0
    for i, op in enumerate(case['ops']):
        key, m = KEYS[op['key']], case['metas'][op['meta']]
        k = op['d']
        kw = {
            'units': m['units'], 'desc': m['desc'], 'default_value': np.array([1.0, 2.0]) if m['default'] == 'arr' else copy.deepcopy(m['default']), 'types': m['types'],
            'multivalue': m['multivalue'], 'option': m['option'], 'historical_name': copy.deepcopy(m['hist']),
        }
        what = f'{case["metas"]} {case["ops"][: i + 1]}'
        if op['op'] in ('add', 'update'):
            ok = (key in model[k]) == (op['op'] == 'update')
            try:
                (add_meta_data if op['op'] == 'add' else update_meta_data)(key, real[k], **kw)
                done = True
            except ValueError:
                done = False
            ctx.require(done == ok, lambda: f'{op["op"]} of {key} was {"accepted" if done else "refused"}: {what}', key=op['op'])
            if ok:
                model[k][key] = model_entry(m)
            else:
                refused += 1
        elif op['op'] == 'merge':
            want, clash = {}, False
            for j in op['d2']:
                for n, e in model[j].items():
                    if n in want and not eq(want[n], e):
                        clash = True
                    want.setdefault(n, e)
            try:
                got = merge_meta_data([real[j] for j in op['d2']])
                done = True
            except ValueError:
                done = False
            ctx.require(done == (not clash), lambda: f'merge of {op["d2"]} was {"accepted" if done else "refused"}: {what}', key='merge')
            if clash:
                refused += 1
                continue
            merges += len(set(op['d2'])) > 1 and len(want) > 0
            ctx.require(eq(got, want), lambda: f'merge gave {got}, expected {want}: {what}', key='merge_result')
            real[k], model[k] = got, dict(want)
        elif op['op'] == 'hand':
            # an entry written by hand, which leaves out one of the fields
            if key in model[k]:
                field = sorted(model[k][key])[op['meta']]
                real[k] = {**real[k], key: {n: v for n, v in real[k][key].items() if n != field}}
                model[k] = {**model[k], key: {n: v for n, v in model[k][key].items() if n != field}}
        else:
            real[k] = copy.deepcopy(real[op['d2'][0]])
            model[k] = copy.deepcopy(model[op['d2'][0]])
        ctx.require(all(eq(r, w) for r, w in zip(real, model)), lambda: f'registries are {real}, expected {model}: {what}', key='state')
    ctx.nontrivial(merges > 0 or refused > 0)
    ctx.label('merged' if merges else 'no_merge', 'refused' if refused else 'accepted')


# ---------------------------------------------------------------------------------------- hierarchies
VARS = ['P', 'Q', 'R', 'SPAN', 'MASS']
INNER = ['Wing', 'Body', 'Extra']
node_st = st.recursive(
    st.fixed_dictionaries({'v': st.dictionaries(st.sampled_from(VARS), st.sampled_from([0, 0, 0, 0, 1]), max_size=3), 'i': st.just({})}),
    lambda ch: st.fixed_dictionaries(
        {
            'v': st.dictionaries(st.sampled_from(VARS), st.sampled_from([0, 0, 0, 0, 0, 1]), max_size=3),
            'i': st.dictionaries(st.sampled_from(INNER), ch, max_size=2),
        }
    ),
    max_leaves=5,
)
hier_st = st.fixed_dictionaries(
    {
        'trees': st.lists(node_st, min_size=1, max_size=3),
        'core': st.lists(st.booleans(), min_size=3, max_size=3),
        'clash_kind': st.sampled_from([False, False, False, False, True]),
    }
)


def build(tree, name, base, path):
    members = {}
    for v, alt in tree['v'].items():
        members[v] = f'{path}:{v.lower()}' + ('_other' if alt else '')
    for n, sub in tree['i'].items():
        b = getattr(base, n, None) if base is not None else None
        b = b if isinstance(b, type) else None
        members[n] = build(sub, n, b, f'{path}:{n.lower()}')
    return type(name, (base,) if base is not None else (), members)


def flat(cls, prefix=''):
    """Own and inherited names: dotted name -> text."""
    res = {}
    for n in dir(cls):
        if n.startswith('__'):
            continue
        v = getattr(cls, n)
        if isinstance(v, str):
            res[prefix + n] = v
        elif isinstance(v, type):
            res.update(flat(v, prefix + n + '.'))
            res[prefix + n + '.'] = 'class'
    return res


def check_hier(case, ctx):
    trees = case['trees']
    if case['clash_kind'] and len(trees) > 1:
        trees = copy.deepcopy(trees)
        trees[0]['i']['Body'] = {'v': {'P': 0}, 'i': {}}
        trees[1]['v']['Body'] = 0
        trees[1]['i'].pop('Body', None)
    core = av.Aircraft
    classes = [build(t, f'H{j}', core if case['core'][j] else None, 'aircraft') for j, t in enumerate(trees)]
    before = [flat(c) for c in classes]
    core_before = flat(core)
    want, clash = {}, False
    for f in before:
        for n, v in f.items():
            if n in want and want[n] != v:
                clash = True
            want.setdefault(n, v)
    for f in before:
        for n in f:
            if not n.endswith('.') and n + '.' in want:
                clash = True
    if any(case['core'][: len(trees)]):
        for n, v in core_before.items():
            for j, f in enumerate(before):
                if case['core'][j] and n in f and f[n] != v:
                    clash = True
                if case['core'][j] and not n.endswith('.') and n + '.' in f:
                    clash = True
    what = f'{trees} core={case["core"][: len(trees)]}'
    try:
        got = merge_hierarchies(list(classes))
        refused = None
    except ValueError as e:
        refused = e
    ctx.require([flat(c) for c in classes] == before, lambda: f'merging hierarchies changed its inputs: {what}', key='inputs_changed')
    ctx.require(flat(core) == core_before, lambda: f'merging hierarchies changed the core hierarchy: {what}', key='core_changed')
    ctx.require((refused is not None) == clash, lambda: f'hierarchies were {"refused: " + str(refused) if refused else "merged"} although {"they" if clash else "they do not"} contradict: {what}', key='conflict')
    if refused is None:
        have = flat(got)
        ctx.require(have == want, lambda: f'merged hierarchy lacks {sorted(set(want) - set(have))[:5]}, has {sorted(set(have) - set(want))[:5]} too much: {what}', key='union')
        if any(case['core'][: len(trees)]):
            ctx.require(issubclass(got, core), lambda: f'the merge lost its core hierarchy: {what}', key='base')
    ctx.nontrivial(len(trees) > 1 and any(set(a) & set(b) for i, a in enumerate(before) for b in before[:i]))
    ctx.label('refused' if clash else 'merged', f'{len(trees)}_hierarchies')


# ---------------------------------------------------------------------------------------- declarations
META = av.CoreMetaData
NAMES = sorted(META)
FLOATS = [n for n in NAMES if META[n]['types'] is float and not META[n]['option']]
UNIT_NAMES = {'NM': 'nmi', 'knot': 'kn'}  # other spellings of the same unit
SHAPES = [None, None, None, (1,), (3,), (2, 2)]
decl_st = st.fixed_dictionaries(
    {
        'names': st.lists(st.sampled_from(range(len(NAMES))), min_size=1, max_size=8, unique=True),
        'as': st.lists(st.sampled_from(['input', 'output', 'option', 'input', 'output']), min_size=8, max_size=8),
        'units': st.lists(st.sampled_from([None, None, 0, 1, 2, 3]), min_size=8, max_size=8),
        'shape': st.lists(st.sampled_from(SHAPES), min_size=8, max_size=8),
        'desc': st.booleans(),
        'own': st.booleans(),
        'bad': st.sampled_from([None, None, None, None, 'm', 'kg', 's']),
    }
)


def registered():
    names = {}
    for h in (av.Aircraft, av.Mission, av.Dynamic, av.Settings):
        for n, v in flat(h).items():
            if not n.endswith('.'):
                names[v] = n
    return names


def unit_name(units):
    return re.sub('[A-Za-z]+', lambda m: UNIT_NAMES.get(m.group(), m.group()), units or 'unitless')


def other_units(units, pick):
    """One of the units of the same family from the reference table, or None."""
    if pick is None or units not in units_ref.BY_UNIT or units_ref.BY_UNIT[units] == 'dimensionless':
        return None
    fam = units_ref.FAMILY_UNITS[units_ref.BY_UNIT[units]]
    return fam[pick % len(fam)]


def check_decl(case, ctx):
    meta = META
    if case['own']:
        meta = {n: dict(META[n], default_value=7.0 if n in FLOATS else META[n]['default_value']) for n in META}
    picks = []
    for j, i in enumerate(case['names']):
        n = NAMES[i]
        how = case['as'][j]
        if how != 'option' and n not in FLOATS:
            how = 'option'
        u = other_units(meta[n]['units'], case['units'][j])
        if how == 'option' and not isinstance(meta[n]['default_value'], (float, int)):
            u = None
        picks.append((n, how, u, case['shape'][j] if how != 'option' and meta[n]['multivalue'] else None))
    kw = {'desc': 'my own words'} if case['desc'] else {}
    declare = {'input': add_aviary_input, 'output': add_aviary_output, 'option': add_aviary_option}

    class Comp(om.ExplicitComponent):
        def initialize(self):
            for n, how, u, shape in picks:
                if how == 'option':
                    add_aviary_option(self, n, units=u, meta_data=meta, **kw)

        def setup(self):
            for n, how, u, shape in picks:
                if how != 'option':
                    declare[how](self, n, units=u, shape=shape, meta_data=meta, **kw)
            n, how = picks[0][:2]
            if case['bad'] and how != 'option' and units_ref.BY_UNIT.get(meta[n]['units']) not in (None, 'dimensionless', units_ref.BY_UNIT[case['bad']]):
                refused = False
                try:
                    declare[how](om.ExplicitComponent(), n, units=case['bad'], meta_data=meta)
                except Exception as exc:
                    refused = True
                ctx.require(refused, lambda: f'{n} is registered in {meta[n]["units"]} and was declared in {case["bad"]}', key='bad_units')
                ctx.label('bad_units')

        def compute(self, inputs, outputs):
            pass

    p = om.Problem(reports=False)
    c = p.model.add_subsystem('c', Comp(), promotes=['*'])
    with quiet():
        p.setup()
        p.final_setup()
    names = registered()
    info = p.model.get_io_metadata(metadata_keys=['units', 'desc', 'shape'])
    for n, how, u, shape in picks:
        ctx.require(n in names, lambda: f'{n} has metadata but is in no hierarchy', key='unregistered')
        m = meta[n]
        units = u or m['units']
        want = m['default_value']
        desc = 'my own words' if case['desc'] else m['desc']
        if u and want is not None:
            want = units_ref.convert(want, m['units'], u)
        if how == 'option':
            got = c.options[n]
            if m['units'] not in (None, 'unitless'):
                ctx.require(isinstance(got, tuple) and len(got) == 2, lambda: f'option {n} is {got!r} without units', key='option_units')
                got, gunits = got
                ctx.require(gunits == units, lambda: f'option {n} has units {gunits}, declared {units}', key='option_units')
            ok = got is want
            if not ok:
                try:
                    ok = np.shape(got) == np.shape(want) and np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float), rtol=1e-6, atol=0)
                except (TypeError, ValueError):
                    ok = np.array_equal(np.atleast_1d(np.asarray(got, dtype=object)), np.atleast_1d(np.asarray(want, dtype=object)))
            ctx.require(ok, lambda: f'option {n} starts as {got!r}, expected {want!r} {units}', key='option_default')
            continue
        io = info[f'c.{n}']
        got = p.get_val(n)
        ctx.require(unit_name(io['units']) == unit_name(units), lambda: f'{how} {n} has units {io["units"]}, declared {units}', key='units')
        ctx.require(io['desc'] == desc, lambda: f'{how} {n} is described as {io["desc"]!r}, expected {desc!r}', key='desc')
        if shape is not None:
            ctx.require(tuple(io['shape']) == tuple(shape), lambda: f'{how} {n} has shape {io["shape"]}, declared {shape}', key='shape')
        ctx.require(np.allclose(np.ravel(got), np.ravel(np.asarray(want, dtype=float)), rtol=1e-6, atol=0), lambda: f'{how} {n} starts as {got}, expected {want} {units}', key='default')
    for v, n in names.items():
        ctx.require(v in META, lambda: f'{n} = {v} is in a hierarchy but has no metadata', key='no_metadata')
    ctx.nontrivial(any(u or s for _, _, u, s in picks))
    ctx.label('own' if case['own'] else 'core', *[h for _, h, _, _ in picks])


PARTS = [
    Part('registry', registry_st, check_registry, quick=3000, thorough=200000, shards=8),
    Part('hierarchies', hier_st, check_hier, quick=1200, thorough=60000, shards=8),
    Part('declarations', decl_st, check_decl, quick=800, thorough=40000, shards=8),
]
