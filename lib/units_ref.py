"""An independent table of unit conversions (factor, offset to SI), used as the oracle."""

FAMILIES = {
    'length': {
        'm': 1.0, 'ft': 0.3048, 'inch': 0.0254, 'km': 1000.0, 'nmi': 1852.0, 'mi': 1609.344,
        'cm': 0.01,
    },
    'mass': {'kg': 1.0, 'lbm': 0.45359237, 'g': 1e-3, 'slug': 14.5939029372},
    'force': {'N': 1.0, 'lbf': 4.4482216152605, 'kN': 1000.0},
    'speed': {
        'm/s': 1.0, 'ft/s': 0.3048, 'kn': 1852.0 / 3600.0, 'km/h': 1 / 3.6, 'mi/h': 0.44704,
        'ft/min': 0.3048 / 60,
    },
    'time': {'s': 1.0, 'min': 60.0, 'h': 3600.0},
    'angle': {'rad': 1.0, 'deg': 0.017453292519943295},
    'area': {'m**2': 1.0, 'ft**2': 0.09290304, 'inch**2': 0.00064516},
    'volume': {'m**3': 1.0, 'ft**3': 0.028316846592},
    'power': {'W': 1.0, 'kW': 1000.0, 'hp': 745.6998715822702},
    'pressure': {'Pa': 1.0, 'kPa': 1000.0, 'psi': 6894.757293168361, 'lbf/ft**2': 47.88025898033584},
    'areal_density': {'lbm/ft**2': 4.882427636383050, 'kg/m**2': 1.0},
    'density': {'kg/m**3': 1.0, 'lbm/ft**3': 16.018463373960142, 'slug/ft**3': 515.378818},
    'mass_rate': {'kg/s': 1.0, 'lbm/h': 0.45359237 / 3600, 'lbm/s': 0.45359237},
    'angular_speed': {'rad/s': 1.0, 'rpm': 0.10471975511965977, 'deg/s': 0.017453292519943295},
    'dimensionless': {'unitless': 1.0},
}
TEMPS = {  # K = (x + off) * fac
    'degK': (1.0, 0.0), 'degC': (1.0, 273.15), 'degF': (5.0 / 9.0, 459.67), 'degR': (5.0 / 9.0, 0.0),
}
BY_UNIT = {u: f for f, d in FAMILIES.items() for u in d}
BY_UNIT.update({u: 'temperature' for u in TEMPS})
FAMILY_UNITS = {f: sorted(d) for f, d in FAMILIES.items()}
FAMILY_UNITS['temperature'] = sorted(TEMPS)


def convert(x, old, new):
    """Reference scalar conversion."""
    if old == new:
        return x
    f = BY_UNIT[old]
    if f == 'temperature':
        a, b = TEMPS[old]
        c, d = TEMPS[new]
        return (x + b) * a / c - d
    t = FAMILIES[f]
    return x * t[old] / t[new]
