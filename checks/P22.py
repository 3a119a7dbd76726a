import csv
import math
import os

import numpy as np
from hypothesis import strategies as st
from openmdao.utils.units import convert_units, is_compatible as compatible_units

from aviary.utils.fortran_to_aviary import fortran_to_aviary, generate_aviary_names
from aviary.utils.legacy_code_data.flops_defaults import flops_default_values, flops_deprecated_vars
from aviary.utils.legacy_code_data.gasp_defaults import gasp_default_values, gasp_deprecated_vars
from aviary.utils.process_input_decks import create_vehicle
from aviary.variable_info.enums import LegacyCode
from aviary.variable_info.variable_meta_data import CoreMetaData
from aviary.variable_info.variables import Aircraft, Mission, Settings
from lib.mission import quiet
from lib.pbt import Part

PROPERTY = 'P22'
RULE = (
    'Generated GASP and FLOPS input decks: the required variables, a random subset of all other known variables, unknown variables and the variables with special meaning, with generated values, in two layouts '
    '(case, spaces, comments, several per line, order, closing marks). Non-trivial: at least ten known variables and one with special meaning.'
)
ASSUMPTIONS = ['The tables of legacy names and legacy default values are taken as given; the semantic rules of the legacy variables come from their documentation in the code.']

W, CP, FU, HT, VT, EN = Aircraft.Wing, Aircraft.CrewPayload, Aircraft.Fuselage, Aircraft.HorizontalTail, Aircraft.VerticalTail, Aircraft.Engine
CODES = {'GASP': (LegacyCode.GASP, gasp_default_values, gasp_deprecated_vars), 'FLOPS': (LegacyCode.FLOPS, flops_default_values, flops_deprecated_vars)}

GASP_REQUIRED = 'ALPHL0 AR ARHT ARVT CATD DELP DELTT DFLPLD DFLPTO DLMC4 EYEW PAX PS SAB SAH SLM SLMH SLMV TCHT TCR TCT TCVT UWNAC UWPAX VMLFSL WAS WS YMG YP'.split()
# variables whose meaning depends on their value or on other variables: handled by reference rules below
GASP_SPECIAL = (
    'IHWB ARNGE PCT_FC AS SAB PAX WCARGO STRUT STRUTX XSTRUT YWFOLD JFLTYP WCFLAP DELTEO DCLMTE DCDOTE FLAPN FRESF FVOL_MRG XLFMX CKW CKHT CKVT CKF CKN CKSTRT ENP NTYE KNAC DBARN ELN FCFFC FCFWC FCFHTC FCFVTC '
    'FCFNC FCFSTRTC FCKIC FCFFT FCFWT FCFHTT FCFVTT FCFNT FCFSTRTT FCKIT SF_FAC CATD FN_REF PS CK21 HPMSLS SF'
).split()
FLOPS_SPECIAL = (
    'IFITE WPMISC WPMSC FULDEN FULWMX ETAW CHD TOC SWL CLLDM SWPHT SWPVT ARHT ARVT TRHT TRVT TCHT TCVT FACT FCT NPB XL DF WF XLP SWPLE TCA SW AR THRSO THRUST TR SWEEP BPP FULRES FLAPR CLAPP FWMAX WBAGP ACABIN WLDG WMARG'
).split()
NUMBER = st.tuples(st.sampled_from(range(1, 10000)), st.sampled_from([0, 1, 2, 3]), st.sampled_from(['plain', 'plain', 'exp', 'expd', 'point', 'plus'])).map(lambda t: number(*t))


def number(k, digits, style):
    v = k / 10.0**digits
    if style == 'exp':
        return '%.6E' % v
    if style == 'expd':
        return '%de%d' % (k, -digits)
    if style == 'point':
        return '%d.' % k
    if style == 'plus' and digits:
        return '+' + repr(v)
    return repr(v) if digits else str(k)


def known(code):
    """Legacy name -> Aviary names."""
    inverse = {}
    for key, names in generate_aviary_names(code).items():
        for name in names or []:
            inverse.setdefault(name, []).append(key)
    return inverse


def plain_names(code):
    special = GASP_SPECIAL if code == 'GASP' else FLOPS_SPECIAL
    inv = known(code)
    out = []
    seen = set()
    for name in sorted(inv):
        keys = inv[name]
        parts = name.split('.')
        if len(parts) != 2 or parts[1].split('(')[0] in special or '(' in name or name != name.upper():
            continue
        if code == 'GASP' and parts[1] in GASP_REQUIRED:
            continue
        ok = True
        for key in keys:
            m = CoreMetaData[key]
            types = m['types'] if isinstance(m['types'], tuple) else (m['types'],)
            if key in seen or m['units'] is None or key.startswith('settings') or key.startswith('dynamic'):
                ok = False
            if m['option'] and float not in types:
                ok = False
            if isinstance(m['default_value'], (bool, str, list, tuple, np.ndarray)) or m['default_value'] is None:
                ok = False
            if key.endswith('_scaler'):
                ok = False
            if types and not any(t in (float, None) for t in types):
                ok = False
        if ok:
            seen.update(keys)
            out.append(name)
    return out


PLAIN = {code: plain_names(code) for code in CODES}
# the factors for which a value above 5 is a mass (or an area)
FIXED_OR_FACTOR = (
    'WAC WAI WAPU WAVONC FRCAN SWETC WCON WFLCRB WSTUAB WSRV WELEC WTHR FRFIN WFSYS WUF WFURN FRFU SWETF FRHT SWETH WHYD WIN FRLGM FRLGN FRNA SWETN FRVT SWETV FRWI FRWI2 FRSC SWETW EWMARG'
).split()
PLAIN['GASP'] += ['INGASP.' + n for n in 'CK15 CK19 CK5 CK14 CK12 SKTL CLBqCLW HGTqWID SAFTqS CLEARqDN CW(1) CW(2) CW(3) CW(4) CW(5) CW(7) CW(9) CW(10) CW(11) CW(12) CW(13) CW(14) CW(15)'.split()]
PLAIN['FLOPS'] += ['WTIN.' + n for n in 'WOIL FRWI1 FRWI3 FRWI4'.split()]
SINGLE = {'FLOPS': ['WTIN.' + n for n in 'NSTU NFLCR NGALC NEW NEF NFIN NTANK NFUSE NVERT IALTWT IFUFU CARGF'.split()], 'GASP': []}
SCALERS = sorted(n for n, keys in known('FLOPS').items() if any(k.endswith('_scaler') for k in keys) and n.split('.')[-1] in FIXED_OR_FACTOR)


def by_code(code):
    names = PLAIN[code]
    return st.lists(st.tuples(st.sampled_from(names), NUMBER), min_size=10, max_size=50, unique_by=lambda t: t[0])


layout_st = st.fixed_dictionaries(
    {
        'case': st.sampled_from(['upper', 'lower', 'mixed']),
        'per_line': st.sampled_from([1, 1, 2, 5]),
        'comment': st.sampled_from([None, ' a comment', ' of X = 3, and more', '! $END']),
        'space': st.sampled_from(['', ' ', '  ', '\t']),
        'trailing': st.booleans(),
        'close': st.sampled_from(['$END', '/', '&END', '$', 'attached']),
        'blank': st.booleans(),
        'seed': st.sampled_from(range(8)),
        'first': st.booleans(),
    }
)
FLAPS = ['plain', 'split', 'single_slotted', 'double_slotted', 'triple_slotted', 'fowler', 'double_slotted_fowler']
sc = st.sampled_from
gasp_special_st = st.fixed_dictionaries(
    {},
    optional={
        'IHWB': sc(['0', '0', '1']),
        'ARNGE(1)': sc(['3600', '1200.', '0']),
        'PCT_FC': sc(['0', '0.1', '.11']),
        'AS': sc(['1.', '2', '2.0']),
        'WCARGO': sc(['0.', '10040', '2500.']),
        'STRUT': sc(['0', '0.25', '12.', '-.4', '-15']),
        'YWFOLD': sc(['0', '0.8', '118.']),
        'JFLTYP': sc(['1', '2', '3', '4', '5', '6', '7']),
        'WCFLAP': sc(['0', '2.66', '-1']),
        'DELTEO': sc(['0', '41.5']),
        'DCLMTE': sc(['0', '1.25']),
        'DCDOTE': sc(['0', '0.17']),
        'FLAPN': sc(['2', '4.']),
        'FRESF': sc(['-0.1', '0', '4998', '-.055']),
        'FVOL_MRG': sc(['0', '0.1', '10.']),
        'XLFMX': sc(['1.15', '1.3', '50.']),
        'CKW': sc(['1.45', '-1', '-1.']),
        'CKF': sc(['1.35', '-1.']),
        'CKHT': sc(['1.45', '-1.']),
        'CKVT': sc(['1.45', '-1.']),
        'CKN': sc(['1.5', '-1.']),
        'ENP': sc(['2', '2.', '4']),
        'KNAC': sc(['0', '1', '2', '2.']),
        'DBARN': sc(['5.3', '6']),
        'ELN': sc(['9.5', '12']),
        'FCFFC': sc(['1.1', '0.95']),
        'FCFFT': sc(['0.9', '1.02']),
        'FCFWC': sc(['1.2']),
        'FCFWT': sc(['0.85']),
        'CW(8)': sc(['-0.9', '5000.']),
        'SAB': sc(['0', '6', '5.']),
        'SF_FAC': sc(['1.', '1.2', '4000.', '3.5']),
        'INPROP.GR': sc(['0.0738', '0.5', '1.', '2']),
        'INPROP.HPMSLS': sc(['4465.', '900']),
        'NTYE': sc(['7']),
    },
)
flops_special_st = st.fixed_dictionaries(
    {'IFITE': sc(['0', '0', '3']), 'CONFIN.SWEEP': sc(['25.', '31']), 'CONFIN.AR': sc(['11.2', '9']), 'CONFIN.TR': sc(['0.3', '.22']), 'CONFIN.TCA': sc(['0.12', '.1'])},
    optional={
        'FUSEIN.SWPLE': sc(['0', '45.']),
        'WTIN.HTVC': sc(['0', '1.2']),
        'WTIN.BPP': sc(['-1.', '35', '0.']),
        'WTIN.WPMISC': sc(['0.', '.5', '1500.']),
        'WTIN.WPMSC': sc(['0.5', '2200.']),
        'WTIN.FULDEN': sc(['1.', '.9']),
        'WTIN.FULWMX': sc(['23.', '5000.', '-1', '21']),
        'AERIN.CLLDM': sc(['2.8', '3']),
        'TOLIN.CLAPP': sc(['1.5', '2']),
        'WTIN.SWPHT': sc(['-100.', '28.', '0']),
        'WTIN.SWPVT': sc(['-99', '38.']),
        'WTIN.ARHT': sc(['-1.', '5.1']),
        'WTIN.ARVT': sc(['-1', '1.6']),
        'WTIN.TRHT': sc(['-1.', '.3', '0']),
        'WTIN.TRVT': sc(['-1.', '.25']),
        'WTIN.TCHT': sc(['0', '.1']),
        'WTIN.TCVT': sc(['0.', '.11']),
        'MISSIN.FACT': sc(['1.05', '.98']),
        'WTIN.XL': sc(['0', '124.5']),
        'WTIN.WF': sc(['0.', '12.3']),
        'WTIN.DF': sc(['0.', '13.']),
        'WTIN.WLDG': sc(['0.', '150000.']),
        'WTIN.THRSO': sc(['28690', '28690.5']),
        'WTIN.ETAW': sc([['0.2', '.5', '1.'], ['0.', '0.3', '0.6', '1']]),
        'CONFIN.THRUST': sc([['27000.'], ['30000', '1', '0', '2']]),
    },
)

def without_conflicts(case):
    """A variable is only given once: under its legacy name or its Aviary name."""
    inverse = known(case['code'])
    taken = set(REQUIRED_KEYS[case['code']])
    for name, _ in case['plain'] + case['scalers'] + case['ints']:
        taken.update(inverse[name])
    for name in case['special']:
        for prefix in ('', 'INGASP.', 'OPTION.'):
            taken.update(inverse.get(prefix + name, []))
    return dict(case, aviary=[e for e in case['aviary'] if e[0] not in taken])


deck_st = sc(['GASP', 'FLOPS']).flatmap(
    lambda code: st.fixed_dictionaries(
        {
            'code': st.just(code),
            'plain': by_code(code),
            'special': gasp_special_st if code == 'GASP' else flops_special_st,
            'scalers': st.lists(st.tuples(sc(SCALERS), sc(['0.8', '1.2', '3', '850.', '5.01', '0', '0.', '4.999'])), max_size=6, unique_by=lambda t: t[0]) if code == 'FLOPS' else st.just([]),
            'ints': st.lists(st.tuples(sc(SINGLE['FLOPS']), sc(['0', '1', '2', '3'])), max_size=5, unique_by=lambda t: t[0]) if code == 'FLOPS' else st.just([]),
            'unknown': st.lists(st.tuples(sc(['ZZTOP', 'QQ', 'WSPX', 'XFUT', 'LCWQ', 'FUS', 'CARB', 'N', 'FSWR']), st.lists(NUMBER, min_size=1, max_size=4)), max_size=3, unique_by=lambda t: t[0]),
            'aviary': st.lists(st.tuples(sc(['aircraft:wing:span', 'aircraft:fuselage:pressure_differential', 'aircraft:design:cruise_altitude', 'mission:landing:airport_altitude']), NUMBER, sc([None, 'other'])), max_size=2, unique_by=lambda t: t[0]),
            'layout': layout_st,
        }
    ).map(without_conflicts)
)
OTHER_UNITS = {'aircraft:wing:span': 'm', 'aircraft:fuselage:pressure_differential': 'atm', 'aircraft:design:cruise_altitude': 'km', 'mission:landing:airport_altitude': 'm'}
REQUIRED_KEYS = {'GASP': ['aircraft:fuselage:pressure_differential'], 'FLOPS': []}
GASP_BASE = dict(
    ALPHL0='-1.2', AR='11.03', ARHT='4.26', ARVT='1.84', CATD='3', DELP='7.5', DELTT='0.1677', DFLPLD='40', DFLPTO='10', DLMC4='26.34', EYEW='0', PAX='96', PS='31', SAB='4', SAH='0', SLM='.301',
    SLMH='.381', SLMV='0.267', TCHT='.107', TCR='0.1125', TCT='.12', TCVT='.13', UWNAC='2.5', UWPAX='200', VMLFSL='402.5', WAS='19', WS='24', YMG='0.199', YP='.272', KNAC='1',
)


def entries(case):
    """[(namelist, name, values)] of the deck, without the Aviary variables."""
    code = case['code']
    out = {}
    if code == 'GASP':
        for k, v in GASP_BASE.items():
            out['INGASP.' + k] = [v]
    for name, v in case['plain']:
        out[name] = [v]
    for name, v in case['special'].items():
        if '.' not in name:
            name = ('INGASP.' if code == 'GASP' else 'OPTION.') + name
        out[name] = [v] if isinstance(v, str) else list(v)
    if 'WTIN.ETAW' in out:
        n = len(out['WTIN.ETAW'])
        out['WTIN.CHD'] = ['%.3f' % (0.4 - 0.05 * k) for k in range(n)]
        out['WTIN.TOC'] = ['%.3f' % (0.14 - 0.01 * k) for k in range(n)]
        out['WTIN.SWL'] = ['%.1f' % (20.0 + k) for k in range(n)]
    for name, v in case['scalers'] + case['ints']:
        out[name] = [int_value(name, v)]
    for name, v in case['unknown']:
        out[('INGASP.' if code == 'GASP' else 'WTIN.') + name] = v
    return [(*k.split('.'), v) for k, v in out.items()]


def recase(name, layout, rng):
    if layout['case'] == 'upper':
        return name
    if layout['case'] == 'lower':
        return name.lower()
    return ''.join(c.lower() if rng.rand() < 0.5 else c for c in name)


def int_value(name, v):
    return '1' if name.split('.')[1] in ('IALTWT', 'IFUFU', 'CARGF') and v not in '01' else v


def write(path, case, layout, without=()):
    lists = {}
    for namelist, name, values in entries(case):
        if name in without:
            continue
        lists.setdefault(namelist, []).append((name, values))
    rng = np.random.RandomState(layout['seed'] if layout else 0)
    lines = ['A generated deck']
    blocks = []
    for namelist in sorted(lists):
        todo = lists[namelist]
        if layout is None:
            body = [f' {n}={",".join(v)},' for n, v in todo]
            blocks.append([f' ${namelist}'] + body + [' $END'])
            continue
        todo = [todo[k] for k in rng.permutation(len(todo))]
        body = []
        s = layout['space']
        while todo:
            group, todo = todo[: layout['per_line']], todo[layout['per_line'] :]
            text = ','.join(f'{s}{recase(n, layout, rng)}{s}={s}{("," + s).join(v)}' for n, v in group)
            if layout['trailing'] or len(group) > 1:
                text += ','
            if layout['comment'] is not None and rng.rand() < 0.5:
                text += s + '!' + layout['comment']
            body.append(text)
            if layout['blank']:
                body.append('')
        tag = '&' if layout['close'] == '&END' else '$'
        close = layout['close']
        if close == 'attached':
            body.append('ZZLAST=1 /')
            body = body[:-1]
            last = max(k for k, b in enumerate(body) if b.strip())
            if '!' in body[last]:
                body.append('/')
            else:
                body[last] = body[last].rstrip(',') + ' /'
        elif close == '$':
            body.append('$')
        else:
            body.append(close if close != '&END' else '&END')
        blocks.append([f' {tag}{recase(namelist, layout, rng)}'] + body)
    free = []
    for name, v, units in case['aviary']:
        free.append(f'{name} = {v}' + (f', {OTHER_UNITS[name]}' if units else ''))
    if layout is not None and layout['first']:
        lines += free
        free = []
    for b in blocks:
        lines += b
        lines.append('')
    lines += free
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def read(path):
    sections = {}
    current = None
    with open(path, newline='') as f:
        for row in csv.reader(f):
            if not row or row == ['']:
                continue
            if row[0].startswith('#'):
                current = row[0]
                continue
            sections.setdefault(current, {})
            assert row[0] not in sections[current], f'{row[0]} twice'
            sections[current][row[0]] = row[1:]
    return sections


def same_unit(a, b):
    a, b = (None if x in ('unitless', '', None) else x for x in (a, b))
    return a == b or (a is not None and b is not None and compatible_units(a, b) and abs(convert_units(1.0, a, b) - 1.0) < 1e-12)


def as_bool(v):
    return str(v) in ('True', '1', '1.0')


def check_deck(case, ctx):
    code = case['code']
    lc, defaults, deprecated = CODES[code]
    write('a.dat', case, None)
    write('b.dat', case, case['layout'])
    with quiet():
        fortran_to_aviary('a.dat', lc, 'a.csv', force=True, verbosity=0)
        fortran_to_aviary('b.dat', lc, 'b.csv', force=True, verbosity=0)
    a, b = read('a.csv'), read('b.csv')
    deck = {f'{n}.{v}': [float(x) for x in val] for n, v, val in entries(case)}
    ctx.label(code)
    for k in case['special']:
        ctx.label(k)
    if len(case['plain']) >= 10 and case['special']:
        ctx.nontrivial()
    # the layout of the deck does not matter
    for section in a:
        x, y = a[section], dict(b.get(section, {}))
        if section == '# Unconverted Values':
            x = {k.lower(): v for k, v in x.items()}
            y = {k.lower(): v for k, v in y.items()}
        ctx.require(set(x) == set(y), f'the layout of the deck changes which variables are in "{section}": {sorted(set(x) ^ set(y))[:5]}')
        for k in x:
            ctx.require(x[k] == y[k], f'the layout of the deck changes {k}: {x[k]} and {y[k]}')
    rows = a['# Input Values']
    loose = {k.lower(): v for k, v in a.get('# Unconverted Values', {}).items()}
    inverse = known(code)
    lower_defaults = {k.lower(): (v, u) for k, (v, u) in defaults}

    def expect(key, values, units, why):
        if key not in rows and key.endswith('_scaler') and values == [0.0]:
            ctx.require(False, f'{key} ({why}) is missing, no weight becomes the computed weight', key='zero_scaler')
            return
        ctx.require(key in rows, f'{key} ({why}) is missing')
        if key not in rows:
            return
        got, got_units = rows[key][:-1], rows[key][-1]
        ctx.require(len(got) == len(values), f'{key} ({why}) has {len(got)} values instead of {len(values)}: {got}')
        for g, w in zip(got, values):
            if isinstance(w, bool):
                ctx.require(as_bool(g) == w, f'{key} ({why}) is {g} instead of {w}')
            elif isinstance(w, str):
                ctx.require(str(g) == w, f'{key} ({why}) is {g} instead of {w}')
            else:
                ctx.require(math.isclose(float(g), w, rel_tol=2e-6, abs_tol=1e-12), f'{key} ({why}) is {g} instead of {w}')
        if units is not None:
            known_key = {(EN.Gearbox.SHAFT_POWER_DESIGN, 'unitless'): 'shaft_power_units', (Aircraft.Furnishings.MASS_SCALER, 'lbm'): 'furnishings_scaler_units'}.get((key, got_units))
            ctx.require(got_units == units or same_unit(got_units, units), f'{key} ({why}) is in {got_units} instead of {units}', key=known_key)

    def absent(key, why):
        ctx.require(key not in rows, f'{key} is {rows.get(key)} although {why}')

    for name, v in case['plain']:
        for key in inverse[name]:
            units = lower_defaults[name.lower()][1] if name.lower() in lower_defaults else CoreMetaData[key]['units']
            if any(k == key for k, _, _ in case['aviary']):
                continue
            fact = deck.get('MISSIN.FACT', [1.0])[0] if key in (EN.SUBSONIC_FUEL_FLOW_SCALER, EN.SUPERSONIC_FUEL_FLOW_SCALER) else 1.0
            expect(key, [float(v) * fact], units, f'{name}={v}')
    given = {k for n in deck for k in inverse.get(n, [])} | {k for k, _, _ in case['aviary']}
    for name in PLAIN[code]:
        if name not in deck and name.lower() in lower_defaults:
            value, units = lower_defaults[name.lower()]
            for key in inverse[name]:
                if key not in given and key not in (EN.SUBSONIC_FUEL_FLOW_SCALER, EN.SUPERSONIC_FUEL_FLOW_SCALER) and np.ndim(value) == 0:
                    expect(key, [float(value)], units, f'legacy default of {name}')
    for name, v in case['ints']:
        v = int(int_value(name, v))
        expect(inverse[name][0], [bool(v) if CoreMetaData[inverse[name][0]]['types'] is bool else v], None, f'{name}={v}')
    for name, v in case['unknown']:
        full = (('INGASP.' if code == 'GASP' else 'WTIN.') + name).lower()
        ctx.require(full in loose, f'the unknown variable {full} is lost')
        ctx.require([float(x) for x in loose[full] if x not in ('', 'unitless')] == [float(x) for x in v], f'the unknown variable {full} became {loose[full]} for {v}')
    for name, v, units in case['aviary']:
        expect(name, [float(v)], OTHER_UNITS[name] if units else CoreMetaData[name]['units'], f'{name} = {v} outside of the namelists')
    special = gasp_rules(case, deck) if code == 'GASP' else flops_rules(case, deck)
    for key, want in special.items():
        if any(k == key for k, _, _ in case['aviary']):
            continue
        if want is None:
            absent(key, 'the legacy value means that it is computed')
        else:
            values, units = want
            expect(key, values, units, 'rule')
    for name, v in case['scalers']:
        x = float(v)
        scaler = inverse[name][0]
        base = scaler[: -len('_scaler')]
        if x > 5:
            expect(base, [x], 'ft**2' if 'area' in base else 'lbm', f'{name}={v}')
            absent(scaler, f'{name}={v} is a fixed value')
        else:
            expect(scaler, [x], CoreMetaData[scaler]['units'], f'{name}={v}')
            if base not in inverse.get(name, []) and base not in [k for n, _ in case['plain'] for k in inverse[n]] and base not in special:
                absent(base, f'{name}={v} is a factor')
    # and Aviary reads the converted file as it was written
    wrong = [k for k, u in ((EN.Gearbox.SHAFT_POWER_DESIGN, 'unitless'), (Aircraft.Furnishings.MASS_SCALER, 'lbm')) if k in rows and rows[k][-1] == u]
    if wrong:
        # reported above
        with open('a.csv') as f:
            text = [line for line in f if line.split(',')[0] not in wrong]
        with open('a.csv', 'w') as f:
            f.writelines(text)
    with quiet():
        vehicle, _ = create_vehicle('a.csv', verbosity=0)
    for key, row in rows.items():
        if key in wrong:
            continue
        m = CoreMetaData[key]
        try:
            want = [float(x) for x in row[:-1]]
        except ValueError:
            continue
        if m['units'] is None or isinstance(m['default_value'], bool):
            continue
        units = row[-1]
        got = np.ravel(vehicle.get_val(key, units=units))
        ctx.require(len(got) == len(want) and all(not isinstance(g, str) for g in got), f'{key} is read as {got} from {row}')
        if any(hasattr(g, 'value') for g in got):
            continue
        ctx.require(np.allclose(got.astype(float), want, rtol=1e-9, atol=1e-12), f'{key} is read as {got} from {row}')


def gasp_rules(case, deck):
    g = lambda n, d=None: deck.get('INGASP.' + n, [d])[0]
    out = {}
    out[Aircraft.Design.TYPE] = (['BWB' if g('IHWB', 0) == 1 else 'transport'], None)
    out[Aircraft.Design.RANGE] = ([g('ARNGE(1)', 0.0)], 'NM')
    pax = int(g('PAX'))
    out[CP.Design.NUM_PASSENGERS] = ([pax], None)
    if g('PCT_FC') is not None:
        first = int(g('PCT_FC') * pax)
        out[CP.Design.NUM_FIRST_CLASS] = ([first], None)
        out[CP.Design.NUM_ECONOMY_CLASS] = ([pax - first], None)
    out[Settings.PROBLEM_TYPE] = (['off_design_max_range'], None) if g('ARNGE(1)', 0.0) == 0 else None
    out[CP.Design.NUM_SEATS_ABREAST_ECONOMY] = ([int(g('SAB')) or 6], None)
    out[FU.NUM_AISLES] = ([int(g('AS', 1))], None)
    strut, fold = g('STRUT', 0.0), g('YWFOLD', 0.0)
    out[W.HAS_STRUT] = ([strut != 0], None)
    has_fold = fold != 0 or strut < 0
    out[W.HAS_FOLD] = ([has_fold], None)
    if abs(strut) < 1:
        out[Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS] = ([abs(strut)], None)
    else:
        out[Aircraft.Strut.ATTACHMENT_LOCATION] = ([abs(strut)], 'ft')
    out[Aircraft.Strut.DIMENSIONAL_LOCATION_SPECIFIED] = ([abs(strut) >= 1], None)
    if has_fold:
        # a folding wing with a strut folds where the strut is attached
        out[W.CHOOSE_FOLD_LOCATION] = ([strut == 0], None)
        if strut == 0:
            out[W.FOLD_DIMENSIONAL_LOCATION_SPECIFIED] = ([fold > 1], None)
    else:
        out[W.FOLD_DIMENSIONAL_LOCATION_SPECIFIED] = ([False], None)
    flap = FLAPS[int(g('JFLTYP', 4)) - 1] if g('JFLTYP') is not None else None
    if flap is not None:
        i = FLAPS.index(flap)
        out[W.FLAP_TYPE] = ([flap], None)
        for name, key, table, units in (
            ('WCFLAP', W.HIGH_LIFT_MASS_COEFFICIENT, [0.62, 1.0, 0.733, 1.2, 1.32, 0.633, 0.678], None),
            ('DELTEO', W.OPTIMUM_FLAP_DEFLECTION, [60, 60, 40, 55, 55, 30, 30], 'deg'),
            ('DCLMTE', W.FLAP_LIFT_INCREMENT_OPTIMUM, [0.9, 0.8, 1.18, 1.4, 1.6, 1.67, 2.25], None),
            ('DCDOTE', W.FLAP_DRAG_INCREMENT_OPTIMUM, [0.12, 0.23, 0.13, 0.23, 0.23, 0.1, 0.15], None),
        ):
            v = g(name, 0.0)
            out[key] = ([v if v > 0 else float(table[i])], units)
    if g('FLAPN') is not None:
        out[W.NUM_FLAP_SEGMENTS] = ([int(g('FLAPN'))], None)
    if g('FRESF') is not None:
        if g('FRESF') <= 0:
            out[Mission.RESERVE_FUEL_MARGIN] = ([-100.0 * g('FRESF')], None)
            out[Mission.RESERVE_FUEL_MASS_ADDITIONAL] = ([0.0], 'lbm')
        else:
            out[Mission.RESERVE_FUEL_MASS_ADDITIONAL] = ([g('FRESF')], 'lbm')
    if g('FVOL_MRG') is not None:
        out[Aircraft.Fuel.VOLUME_MARGIN] = ([g('FVOL_MRG')], 'unitless')
    if g('XLFMX') is not None:
        out[Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR] = None if g('XLFMX') > 4 else ([g('XLFMX')], None)
    for name, key in (('CKW', W.FORM_FACTOR), ('CKF', FU.FORM_FACTOR), ('CKHT', HT.FORM_FACTOR), ('CKVT', VT.FORM_FACTOR), ('CKN', Aircraft.Nacelle.FORM_FACTOR)):
        v = g(name, -1.0)
        out[key] = None if v < 0 else ([v], None)
    out[EN.NUM_ENGINES] = ([int(g('ENP', 2))], None) if g('ENP') is not None else ([1], None)
    if g('ENP') is None and 'INGASP.ENP' in [k for k, _ in gasp_default_values]:
        del out[EN.NUM_ENGINES]
    nacelle = g('KNAC') == 2
    for name, key in (('DBARN', Aircraft.Nacelle.AVG_DIAMETER), ('ELN', Aircraft.Nacelle.AVG_LENGTH)):
        if g(name) is not None:
            out[key] = ([g(name)], 'ft') if nacelle else None
    for drag, tech, key in (('FCFFC', 'FCFFT', FU.DRAG_FACTOR), ('FCFWC', 'FCFWT', W.DRAG_FACTOR)):
        if g(drag) is not None:
            out[key] = ([round(g(drag) * g(tech, 1.0), 6)], None)
    cw8 = g('CW(8)')
    if cw8 is not None:
        if cw8 < 0:
            out[Aircraft.Furnishings.MASS_SCALER] = ([-cw8], 'unitless')
            out[Aircraft.Furnishings.MASS] = None
        else:
            out[Aircraft.Furnishings.MASS] = ([cw8], 'lbm')
    if g('SF_FAC') is not None:
        if g('SF_FAC') > 10:
            out[FU.WETTED_AREA] = ([g('SF_FAC')], 'ft**2')
            out[FU.WETTED_AREA_SCALER] = None
        else:
            out[FU.WETTED_AREA_SCALER] = ([g('SF_FAC')], None)
    if 'INPROP.GR' in deck:
        out[EN.Gearbox.GEAR_RATIO] = ([1.0 / deck['INPROP.GR'][0]], 'unitless')
    if 'INPROP.HPMSLS' in deck:
        out[EN.Gearbox.SHAFT_POWER_DESIGN] = ([deck['INPROP.HPMSLS'][0]], 'hp')
    else:
        out[EN.Gearbox.SHAFT_POWER_DESIGN] = ([0.0], 'hp')
    if g('WCARGO') is not None:
        out[CP.Design.MAX_CARGO_MASS] = ([g('WCARGO')], 'lbm')
    out[Settings.EQUATIONS_OF_MOTION] = (['2DOF'], None)
    out[Settings.MASS_METHOD] = (['GASP'], None)
    return out


def flops_rules(case, deck):
    g = lambda n, d=None: deck.get(n, [d])[0]
    out = {}
    bwb = g('OPTION.IFITE') == 3
    out[Aircraft.Design.TYPE] = (['BWB' if bwb else 'transport'], None)
    if g('WTIN.WPMISC') is not None:
        v = g('WTIN.WPMISC')
        out[EN.ADDITIONAL_MASS_FRACTION] = ([0.0 if v >= 1 else v], None)
        if v >= 1:
            out[EN.ADDITIONAL_MASS] = ([v], 'lbm')
    if g('WTIN.WPMSC') is not None:
        v = g('WTIN.WPMSC')
        out[Aircraft.Propulsion.MISC_MASS_SCALER] = ([0.0 if v >= 1 else v], None)
        if v >= 1:
            out[Aircraft.Propulsion.TOTAL_MISC_MASS] = ([v], 'lbm')
    density = 6.7
    if g('WTIN.FULDEN') is not None:
        density = 6.7 * g('WTIN.FULDEN')
        out[Aircraft.Fuel.DENSITY] = ([density], 'lbm/galUS')
    cubic = density * 1728.0 / 231.0
    v = g('WTIN.FULWMX')
    if v is not None and v >= 50:
        out[Aircraft.Fuel.WING_FUEL_MASS_CAPACITY] = ([v], 'lbm')
    elif v is not None:
        out[Aircraft.Fuel.WING_FUEL_MASS_CAPACITY] = None
        out[Aircraft.Fuel.WING_FUEL_FRACTION] = ([(23.0 if v < 0 else v) / (cubic * 2.0 / 3.0)], None)
    elif bwb:
        out[Aircraft.Fuel.WING_FUEL_FRACTION] = ([23.0 / (cubic * 2.0 / 3.0)], None)
    bags = g('WTIN.BPP')
    if bags is not None:
        out[CP.BAGGAGE_MASS_PER_PASSENGER] = None if bags < 0 else ([bags], 'lbm')
    length, edge = g('WTIN.XL', 0.0), g('FUSEIN.SWPLE', 45.0)
    # the layout of the fuselage is simple if its size is given
    out[FU.SIMPLE_LAYOUT] = ([length > 0 and (not bwb or edge > 0)], None)
    if not bwb:
        out[Aircraft.BWB.PASSENGER_LEADING_EDGE_SWEEP] = None
    ref, size = g('WTIN.THRSO'), g('CONFIN.THRUST')
    if bwb and size is not None:
        out[EN.SCALED_SLS_THRUST] = ([size], 'lbf')
        if ref is not None:
            out[EN.SCALE_FACTOR] = ([size / ref], None)
    cll = g('AERIN.CLLDM')
    out[Mission.Landing.LIFT_COEFFICIENT_MAX] = ([cll if cll is not None else 1.69 * g('TOLIN.CLAPP') if g('TOLIN.CLAPP') is not None else 3.0], None)
    ar = g('CONFIN.AR')
    sweep, tr, tc = g('CONFIN.SWEEP'), g('CONFIN.TR'), g('CONFIN.TCA')
    hs = g('WTIN.SWPHT')
    hs = sweep if hs is None or hs < -90 else hs
    out[HT.SWEEP] = ([hs], 'deg')
    vs = g('WTIN.SWPVT')
    out[VT.SWEEP] = ([hs if vs is None or vs < -90 else vs], 'deg')
    ht = g('WTIN.TRHT')
    ht = tr if ht is None or ht < 0 else ht
    out[HT.TAPER_RATIO] = ([ht], None)
    vt = g('WTIN.TRVT')
    out[VT.TAPER_RATIO] = ([ht if vt is None or vt < 0 else vt], None)
    for name, key in (('WTIN.TCHT', HT.THICKNESS_TO_CHORD), ('WTIN.TCVT', VT.THICKNESS_TO_CHORD)):
        v = g(name)
        out[key] = ([tc if not v else v], None)
    ah = g('WTIN.ARHT')
    if not bwb:
        ah = ar if ah is None or ah < 0 else ah
        out[HT.ASPECT_RATIO] = ([ah], None)
        av = g('WTIN.ARVT')
        out[VT.ASPECT_RATIO] = ([ah / 2.0 if av is None or av < 0 else av], None)
        out[W.ASPECT_RATIO] = ([ar], None)
    else:
        # the wing area and aspect ratio of a BWB are computed
        out[W.ASPECT_RATIO] = None
    for name, key, units in (('WTIN.XL', FU.LENGTH, 'ft'), ('WTIN.WF', FU.MAX_WIDTH, 'ft'), ('WTIN.DF', FU.MAX_HEIGHT, 'ft'), ('WTIN.WLDG', Aircraft.Design.TOUCHDOWN_MASS_MAX, 'lbm')):
        v = g(name)
        if v is not None:
            out[key] = None if v == 0 else ([v], units)
    if g('WTIN.THRSO') is not None:
        out[EN.REFERENCE_SLS_THRUST] = ([g('WTIN.THRSO')], 'lbf')
    eta = deck.get('WTIN.ETAW')
    if eta is not None:
        n = len(eta)
        if bwb:
            # the stations of the outboard wing follow the centerline and the side of the body
            out[W.INPUT_STATION_DISTRIBUTION] = ([0.0] + eta, None)
            out[W.CHORD_PER_SEMISPAN_DISTRIBUTION] = ([-1.0] + deck['WTIN.CHD'], None)
            out[W.THICKNESS_TO_CHORD_DISTRIBUTION] = ([-1.0] + deck['WTIN.TOC'], None)
            out[W.LOAD_PATH_SWEEP_DISTRIBUTION] = ([0.0] + deck['WTIN.SWL'][: n - 1], 'deg')
        else:
            out[W.INPUT_STATION_DISTRIBUTION] = (eta, None)
            out[W.CHORD_PER_SEMISPAN_DISTRIBUTION] = (deck['WTIN.CHD'], None)
            out[W.THICKNESS_TO_CHORD_DISTRIBUTION] = (deck['WTIN.TOC'], None)
        out[W.DETAILED_WING] = ([True], None)
    elif bwb:
        out[W.INPUT_STATION_DISTRIBUTION] = ([0.0, 0.5, 1.0], None)
        out[Aircraft.BWB.DETAILED_WING_PROVIDED] = ([False], None)
    fact = g('MISSIN.FACT')
    inv = known('FLOPS')
    if fact is not None:
        plain = {k: float(v) for n, v in case['plain'] for k in inv[n]}
        for key in (EN.SUBSONIC_FUEL_FLOW_SCALER, EN.SUPERSONIC_FUEL_FLOW_SCALER):
            out[key] = ([plain.get(key, 1.0) * fact], None)
    out[Settings.EQUATIONS_OF_MOTION] = (['energy_state'], None)
    out[Settings.MASS_METHOD] = (['FLOPS'], None)
    return out


missing_st = st.fixed_dictionaries(
    {
        'plain': by_code('GASP'),
        'drop': st.lists(sc([k for k in GASP_BASE if k != 'KNAC']), max_size=3, unique=True),
        'layout': layout_st,
    }
)


def check_missing(case, ctx):
    c = dict(code='GASP', plain=case['plain'], special={}, scalers=[], ints=[], unknown=[], aviary=[])
    write('a.dat', c, case['layout'], without=case['drop'])
    # a variable with a legacy default is not required
    missing = [k for k in case['drop'] if 'INGASP.' + k not in gasp_default_values]
    ctx.nontrivial(bool(missing))
    if os.path.exists('a.csv'):
        os.remove('a.csv')
    try:
        with quiet():
            fortran_to_aviary('a.dat', LegacyCode.GASP, 'a.csv', force=True, verbosity=0)
    except RuntimeError as err:
        named = str(err)
        ctx.require(bool(missing), f'a deck without {case["drop"]} is refused: {err}')
        for name in GASP_BASE:
            ctx.require((f"'{name}'" in named) == (name in missing), f'a deck without {case["drop"]} is refused with: {err}')
        ctx.require(not os.path.exists('a.csv'), f'a deck without {case["drop"]} is refused but a file is written')
        return
    ctx.require(not missing, f'a deck without {case["drop"]} is accepted')
    rows = read('a.csv')['# Input Values']
    for name in case['drop']:
        value, units = gasp_default_values.get_item('INGASP.' + name)
        for key in known('GASP').get('INGASP.' + name, []):
            ctx.require(key in rows and float(rows[key][0]) == float(value) and same_unit(rows[key][-1], units), f'{key} is {rows.get(key)} without {name}, whose legacy default is {value} {units}')


PARTS = [Part('deck', deck_st, check_deck, quick=1200, thorough=40000, shards=8, case_limit=60, shrink_budget=30), Part('missing', missing_st, check_missing, quick=200, thorough=3000, shards=4)]
