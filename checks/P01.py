import enum

import numpy as np
from hypothesis import strategies as st

import aviary.api as av
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from lib.pbt import Part, short
from lib.units_ref import BY_UNIT, FAMILY_UNITS, convert

PROPERTY = 'P01'
RULE = (
    'Op sequences (set/get/get_item/delete/update/copy/deepcopy/clear/rejected set) on both container '
    'classes against a dict model with its own unit table; and single writes/reads of every registered '
    'variable. Non-trivial: the history reads a value in units other than the stored ones, or rejects a '
    'write, or mutates a copy after an earlier write.'
)
ASSUMPTIONS = [
    'Conversion factors of the reference table (international foot, pound, nautical mile, ...) are right.',
    'Writing a non-integral float to an integer-typed variable is not judged (the cast is lossy by design).',
]

META = av.CoreMetaData
KEYS = ['a', 'b', 'long:name with space']
FAMS = sorted(FAMILY_UNITS)

num = st.one_of(
    st.integers(-1000, 1000),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: 0.0 if abs(x) < 1e-6 else x),
)
opt_num = st.one_of(st.none(), num)
value = st.one_of(
    st.fixed_dictionaries({'k': st.just('scalar'), 'v': num}),
    st.fixed_dictionaries({'k': st.just('none'), 'v': st.none()}),
    st.fixed_dictionaries({'k': st.just('list'), 'v': st.lists(opt_num, max_size=4)}),
    st.fixed_dictionaries({'k': st.just('tuple'), 'v': st.lists(opt_num, max_size=4)}),
    st.fixed_dictionaries({'k': st.just('intarray'), 'v': st.lists(st.integers(-99, 99), max_size=4)}),
    st.fixed_dictionaries({'k': st.just('array'), 'v': st.lists(st.floats(-1e4, 1e4), max_size=4)}),
    st.fixed_dictionaries(
        {'k': st.just('array2'), 'v': st.lists(st.lists(st.floats(-9, 9), min_size=2, max_size=2), min_size=1, max_size=3)}
    ),
)


def build(v):
    k, x = v['k'], v['v']
    if k == 'tuple':
        return tuple(x)
    if k == 'intarray':
        return np.array(x, dtype=int)
    if k in ('array', 'array2'):
        return np.array(x, dtype=float)
    if k == 'list':
        return list(x)
    return x


def ref_convert(v, old, new):
    def c(x):
        if x is None:
            return None
        if isinstance(x, list):
            return [c(y) for y in x]
        return convert(x, old, new)

    return c(v['v'])


def flat(x):
    if isinstance(x, np.ndarray):
        return flat(x.tolist())
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.append(flat(y))
        return out
    return x


def same(got, want, rtol=2e-7):
    got, want = flat(got), flat(want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(
            same(g, w, rtol) for g, w in zip(got, want)
        )
    if want is None:
        return got is None
    if got is None or isinstance(got, (list, str)):
        return got == want
    return abs(got - want) <= 1e-9 + rtol * max(abs(got), abs(want))


op = st.one_of(
    st.tuples(st.just('set'), st.sampled_from(KEYS), value, st.sampled_from(FAMS), st.integers(0, 9)),
    st.tuples(st.just('get'), st.sampled_from(KEYS), st.integers(0, 9)),
    st.tuples(st.just('get'), st.sampled_from(KEYS), st.integers(0, 9)),
    st.tuples(st.just('get_item'), st.sampled_from(KEYS)),
    st.tuples(st.just('delete'), st.sampled_from(KEYS)),
    st.tuples(st.just('badunits'), st.sampled_from(KEYS), st.sampled_from(['none', 'int', 'list']), st.booleans()),
    st.tuples(
        st.just('update'),
        st.sampled_from(['named', 'dict', 'pairs', 'kwargs']),
        st.lists(st.tuples(st.sampled_from(KEYS[:3]), num, st.sampled_from(['m', 'ft', 'kg', 'unitless'])), max_size=3),
    ),
    st.tuples(st.just('copy'), st.sampled_from(['copy', 'deepcopy', 'ctor']), st.sampled_from(KEYS), num),
    st.tuples(st.just('clear')),
)
SEQ = st.fixed_dictionaries(
    {'cls': st.sampled_from(['NamedValues', 'AviaryValues']), 'ops': st.lists(op, min_size=2, max_size=20)}
)


def check_history(case, ctx):
    cls = {'NamedValues': NamedValues, 'AviaryValues': AviaryValues}[case['cls']]
    c = cls()
    model = {}  # key -> (value spec, units)

    def agree(where):
        ctx.require(len(c) == len(model), f'{where}: size {len(c)} != model {len(model)}')
        ctx.require(list(c.keys()) == list(model), f'{where}: keys {list(c.keys())} != {list(model)}')
        for (k, (v, u)), k2, (v2, u2) in zip(c, list(c.keys()), list(c.values())):
            ctx.require(k == k2 and u == u2, f'{where}: iteration views disagree')
            ctx.require(u == model[k][1], f'{where}: units of {k}: {u} != {model[k][1]}')
            ctx.require(
                same(v, model[k][0]['v'], 0), f'{where}: value of {k} is {short(v)}, was {model[k][0]}'
            )
        for k in KEYS:
            ctx.require((k in c) == (k in model), f'{where}: membership of {k}')

    for i, o in enumerate(case['ops']):
        name = o[0]
        if name == 'set':
            _, k, v, fam, ui = o
            units = FAMILY_UNITS[fam][ui % len(FAMILY_UNITS[fam])]
            arg = build(v)
            c.set_val(k, arg, units)
            model[k] = (v, units)
        elif name == 'get':
            _, k, ui = o
            if k not in model:
                try:
                    r = c.get_val(k, 'm')
                except KeyError:
                    pass
                else:
                    ctx.fail(f'get_val of a missing name returned {r!r}')
                continue
            v, old = model[k]
            us = FAMILY_UNITS[BY_UNIT[old]]
            new = us[ui % len(us)]
            got = c.get_val(k, new)
            want = ref_convert(v, old, new)
            if new != old:
                ctx.nontrivial()
                ctx.label('converted_' + v['k'])
            ctx.require(
                same(got, want), lambda: f'get_val({k!r}, {new}) of {v} {old}: got {short(got)} expected {short(want)}'
            )
            if v['k'] == 'tuple':
                ctx.require(isinstance(got, tuple), f'conversion changed the container type to {type(got)}')
            elif v['k'] in ('array', 'array2', 'intarray'):
                ctx.require(isinstance(got, np.ndarray), f'conversion changed the container type to {type(got)}')
        elif name == 'get_item':
            k = o[1]
            if k in model:
                v, u = c.get_item(k)
                ctx.require(same(v, model[k][0]['v'], 0) and u == model[k][1], f'get_item({k!r}) = {v!r},{u}')
            else:
                try:
                    c.get_item(k)
                except KeyError:
                    pass
                else:
                    ctx.fail('get_item of a missing name did not raise KeyError')
        elif name == 'delete':
            k = o[1]
            if k in model:
                c.delete(k)
                del model[k]
            else:
                try:
                    c.delete(k)
                except KeyError:
                    pass
                else:
                    ctx.fail('delete of a missing name did not raise KeyError')
        elif name == 'badunits':
            _, k, kind, on_get = o
            bad = {'none': None, 'int': 3, 'list': ['m']}[kind]
            try:
                if on_get and k in model:
                    c.get_val(k, bad)
                else:
                    c.set_val(k, 1.0, bad)
            except TypeError:
                ctx.nontrivial()
            else:
                ctx.fail(f'units of {bad!r} were accepted')
        elif name == 'update':
            _, how, items = o
            items = [tuple(x) for x in items]
            if how == 'named':
                other = cls()
                for k, v, u in items:
                    other.set_val(k, v, u)
                c.update(other)
            elif how == 'dict':
                c.update({k: (v, u) for k, v, u in items})
            elif how == 'pairs':
                c.update([(k, (v, u)) for k, v, u in items])
            else:
                c.update(**{k: (v, u) for k, v, u in items})
            for k, v, u in items:
                model[k] = ({'k': 'scalar', 'v': v}, u)
        elif name == 'copy':
            _, how, k, v = o
            if how == 'copy':
                d = c.copy()
            elif how == 'deepcopy':
                d = c.deepcopy()
            else:
                d = cls(c)
            ctx.require(type(d) is cls, f'{how} returned a {type(d)}')
            ctx.require(list(d.keys()) == list(model), f'{how} lost or gained names')
            for kk in model:
                dv, du = d.get_item(kk)
                ctx.require(du == model[kk][1] and same(dv, model[kk][0]['v'], 0), f'{how} changed {kk}')
            # the copy is independent of the original, in both directions
            d.set_val(k, v, 'unitless')
            if model:
                ctx.nontrivial()
                ctx.label('mutated_' + how)
                d.delete(next(iter(list(d.keys()))))
            agree(f'after mutating a {how}')
            if how == 'deepcopy':
                for kk in list(d.keys()):
                    dv, _ = d.get_item(kk)
                    if isinstance(dv, np.ndarray) and dv.size:
                        dv += 1
                    elif isinstance(dv, list):
                        dv.append(0.0)
        elif name == 'clear':
            c.clear()
            model.clear()
        agree(f'after op {i} {name}')


# ------------------------------------------------------------------ every registered variable
TYPED = sorted(k for k in META)


def type_kinds(key):
    t = META[key]['types']
    t = t if isinstance(t, tuple) else (t,)
    return t


def _rare(k):
    t = type_kinds(k)
    return not (float in t or int in t) or META[k]['multivalue']


RARE = [i for i, k in enumerate(TYPED) if _rare(k)]

typed_case = st.fixed_dictionaries(
    {
        'key': st.one_of(st.integers(0, len(TYPED) - 1), st.sampled_from(RARE)),
        'scalar': st.floats(-1e5, 1e5, allow_nan=False),
        'i': st.integers(-50, 50),
        'n': st.integers(1, 4),
        'form': st.sampled_from(['scalar', 'int', 'list', 'tuple', 'array', 'intarray', 'numpy_scalar']),
        'u1': st.integers(0, 9),
        'u2': st.integers(0, 9),
        'pick': st.integers(0, 50),
        'enumform': st.sampled_from(['member', 'name', 'lower', 'value', 'list_names', 'list_values']),
        'bad': st.sampled_from(['units', 'type', 'none']),
    }
)


def check_typed(case, ctx):
    key = TYPED[case['key'] % len(TYPED)]
    meta = META[key]
    kinds = type_kinds(key)
    c = AviaryValues()
    base = meta['units']
    multi = bool(meta['multivalue'])
    fam = BY_UNIT.get(base)
    us = FAMILY_UNITS[fam] if fam else [base]
    u1, u2 = us[case['u1'] % len(us)], us[case['u2'] % len(us)]

    enum_t = next((t for t in kinds if isinstance(t, type) and issubclass(t, enum.Enum)), None)
    if enum_t is not None:
        ctx.label('enum')
        members = list(enum_t)
        m = members[case['pick'] % len(members)]
        form = case['enumform']
        if form.startswith('list') and not multi:
            form = form[5:-1]
        if form == 'member':
            arg, want = m, m
        elif form == 'name':
            arg, want = m.name, m
        elif form == 'lower':
            arg, want = m.name.lower(), m
        elif form == 'value':
            arg, want = m.value, m
        else:
            ms = [members[(case['pick'] + j) % len(members)] for j in range(case['n'])]
            arg = [x.name if form == 'list_names' else x.value for x in ms]
            want = ms
        c.set_val(key, arg)
        got = c.get_val(key)
        got_cmp = list(got) if isinstance(want, list) and isinstance(got, (list, np.ndarray, tuple)) else got
        ctx.require(
            got_cmp == want or (isinstance(want, list) and len(want) == 1 and got == want[0]), f'{key}: wrote {arg!r}, stored {got!r}, expected {want!r}'
        )
        ctx.nontrivial(form != 'member')
        # a name that is no member is rejected and leaves the stored value alone
        try:
            c.set_val(key, 'no_such_member_x')
        except Exception:
            pass
        else:
            ctx.fail(f'{key}: accepted a name that is not a member of {enum_t.__name__}')
        ctx.require(c.get_val(key) is got or flat(c.get_val(key)) == flat(got), f'{key}: rejected write changed the value')
        return

    if bool in kinds and float not in kinds and int not in kinds:
        ctx.label('bool')
        b = bool(case['i'] % 2)
        c.set_val(key, b)
        ctx.require(c.get_val(key) is b, f'{key}: wrote {b}, read {c.get_val(key)!r}')
        if case['bad'] == 'type':
            ctx.nontrivial()
            try:
                c.set_val(key, 'maybe')
            except TypeError:
                pass
            else:
                ctx.fail(f'{key}: accepted a string for a true/false variable')
            ctx.require(c.get_val(key) is b, f'{key}: rejected write changed the value')
        return

    if float in kinds or int in kinds:
        ctx.label('number')
        integral = float not in kinds
        form = case['form']
        x = case['i'] if (integral or form in ('int', 'intarray')) else case['scalar']
        if form in ('list', 'tuple', 'array', 'intarray'):
            if not multi:
                form = 'int' if integral else 'scalar'
            elif form == 'intarray':
                arg = np.array([case['i'] + j for j in range(case['n'])])
            else:
                seq = [x + j for j in range(case['n'])]
                arg = {'list': seq, 'tuple': tuple(seq), 'array': np.array(seq)}[form]
        if form in ('scalar', 'int'):
            arg = x
        elif form == 'numpy_scalar':
            arg = np.float64(x) if not integral else np.int64(x)
        if float not in kinds and int in kinds and len(us) > 1:
            u1 = u2 = base
        c.set_val(key, arg, u1)
        stored, su = c.get_item(key)
        ctx.require(su == u1, f'{key}: units {su} stored for {u1}')
        ctx.require(same(stored, flat(np.asarray(arg)) if not np.isscalar(arg) else float(arg), 0) or
                    same(np.atleast_1d(stored), np.atleast_1d(arg), 0),
                    f'{key}: wrote {arg!r}, stored {stored!r}')
        got = c.get_val(key, u2)
        want = flat(np.asarray([convert(float(v), u1, u2) for v in np.atleast_1d(arg)]))
        ctx.require(
            same(np.atleast_1d(np.asarray(got, dtype=float)), want),
            f'{key}: wrote {arg!r} {u1}, read {got!r} {u2}, expected {want!r}',
        )
        ctx.nontrivial(u1 != u2)
        ctx.require(same(c.get_item(key)[0], stored, 0), f'{key}: reading changed the stored value')
        if isinstance(arg, (list, np.ndarray)):
            # what the caller does with his own list or array afterwards does not reach the container
            want0 = flat(np.asarray(arg))
            for j in range(len(arg)):
                arg[j] += 1
            ctx.label('caller_mutates')
            ctx.require(
                same(np.atleast_1d(c.get_item(key)[0]), want0, 0),
                f'{key}: changing the array that was stored changed the stored value to {c.get_item(key)[0]!r} from {want0!r}',
            )
        before = c.get_item(key)
        if case['bad'] == 'units' and base is not None:
            wrong = 'kg' if fam != 'mass' else 'ft'
            if base != 'unitless' or True:
                ctx.nontrivial()
                try:
                    c.set_val(key, arg, wrong)
                except (TypeError, ValueError):
                    pass
                else:
                    if fam is not None:
                        ctx.fail(f'{key} ({base}): accepted units {wrong}')
                ctx.require(fam is None or c.get_item(key) is before, f'{key}: rejected write changed the value')
        elif case['bad'] == 'type':
            if str not in kinds:
                ctx.nontrivial()
                try:
                    c.set_val(key, 'not a number', u1)
                except TypeError:
                    pass
                else:
                    ctx.fail(f'{key}: accepted text for a numeric variable')
                ctx.require(c.get_item(key) is before, f'{key}: rejected write changed the value')
        return
    ctx.label('other')
    if str in kinds or meta['types'] is None:
        c.set_val(key, 'text value')
        got = c.get_val(key)
        ctx.require(str(got) == 'text value' or got == ['text value'], f'{key}: wrote text, read {got!r}')


PARTS = [
    Part('history', SEQ, check_history, quick=6000, thorough=120000),
    Part('variables', typed_case, check_typed, quick=8000, thorough=120000),
]
