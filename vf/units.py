"""An independent table of units: SI scale and dimension of each named unit.

Nothing here is read from the repository; the checks use it as the oracle for
what a unit expression denotes.  Electromagnetic Gaussian units are not in it
(their dimension depends on the system), so a unit that uses one is outside
the scope of the checks that need absolute scales.
"""
import fractions
import math

F = fractions.Fraction

PREFIX = {'Y': 24, 'Z': 21, 'E': 18, 'P': 15, 'T': 12, 'G': 9, 'M': 6, 'k': 3, 'h': 2, 'da': 1, '': 0,
          'd': -1, 'c': -2, 'm': -3, 'μ': -6, 'u': -6, 'n': -9, 'p': -12, 'f': -15, 'a': -18, 'z': -21, 'y': -24}
PREFIX_NAMES = {'yotta': 'Y', 'zetta': 'Z', 'exa': 'E', 'peta': 'P', 'tera': 'T', 'giga': 'G', 'mega': 'M',
                'kilo': 'k', 'hecto': 'h', 'deca': 'da', 'deci': 'd', 'centi': 'c', 'milli': 'm', 'micro': 'μ',
                'nano': 'n', 'pico': 'p', 'femto': 'f', 'atto': 'a', 'zepto': 'z', 'yocto': 'y'}


def D(**k):
    return {a: F(b) for a, b in k.items() if b}


# symbol: (scale in SI base units, dimension, full name)
BASE = {
    'm': (1.0, D(L=1), 'meter'),
    'au': (1.495978707e11, D(L=1), 'astronomical unit'),
    'Rs': (6.96e8, D(L=1), 'solar radius'),
    'g': (1e-3, D(M=1), 'gram'),
    's': (1.0, D(T=1), 'second'),
    'min': (60.0, D(T=1), 'minute'),
    'h': (3600.0, D(T=1), 'hour'),
    'd': (86400.0, D(T=1), 'day'),
    'A': (1.0, D(I=1), 'ampere'),
    'K': (1.0, D(H=1), 'kelvin'),
    'mol': (1.0, D(N=1), 'mole'),
    'cd': (1.0, D(J=1), 'candela'),
    'Hz': (1.0, D(T=-1), 'hertz'),
    'J': (1.0, D(M=1, L=2, T=-2), 'joule'),
    'erg': (1e-7, D(M=1, L=2, T=-2), 'erg'),
    'eV': (1.6022e-19, D(M=1, L=2, T=-2), 'electronvolt'),
    'N': (1.0, D(M=1, L=1, T=-2), 'newton'),
    'dyn': (1e-5, D(M=1, L=1, T=-2), 'dyne'),
    'Pa': (1.0, D(M=1, L=-1, T=-2), 'pascal'),
    'W': (1.0, D(M=1, L=2, T=-3), 'watt'),
    'C': (1.0, D(I=1, T=1), 'coulomb'),
    'V': (1.0, D(M=1, L=2, T=-3, I=-1), 'volt'),
    'Wb': (1.0, D(M=1, L=2, T=-2, I=-1), 'weber'),
    'T': (1.0, D(M=1, T=-2, I=-1), 'tesla'),
    'Gy': (1.0, D(L=2, T=-2), 'gray'),
    'Bq': (1.0, D(T=-1), 'becquerel'),
    'Ci': (3.7e10, D(T=-1), 'Curie'),
    'P': (0.1, D(M=1, L=-1, T=-1), 'poise'),
    'rad': (1.0, D(), 'radian'),
    'sr': (1.0, D(), 'steradian'),
    '#': (1.0, D(), 'count'),
    '1': (1.0, D(), 'unitless'),
}
MECHANICAL = [u for u, (s, d, n) in BASE.items() if not set(d) & {'I'} and u not in ('rad', 'sr', '#', '1')]
_split_cache = {}


def split(symbol):
    """(scale, dimension) of a named unit such as 'km', or None."""
    if symbol in _split_cache:
        return _split_cache[symbol]
    out = None
    if symbol in BASE:
        out = BASE[symbol][:2]
    else:
        for p, e in PREFIX.items():
            if p and symbol.startswith(p) and symbol[len(p):] in BASE and symbol[len(p):] != '1':
                s, d, _ = BASE[symbol[len(p):]]
                out = (s * 10.0 ** e, d)
                break
    _split_cache[symbol] = out
    return out


def spellings():
    """Every spelled symbol that denotes exactly one (prefix, base)."""
    seen = {}
    for p in PREFIX:
        for b in ALL_BASES:
            if b == '1' and p:
                continue
            seen.setdefault(p + b, []).append((p, b))
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


ALL_BASES = list(BASE) + ['nuc', 'amu', 'deg', 'statC', 'statA', 'statV', 'e', 'Ω', 'S', 'F', 'Mx', 'Oe', 'H', 'G',
                          'lm', 'lx']
UNIQUE = spellings()


def denote_terms(terms):
    """(scale, dimension) of a product of (symbol, exponent) pairs, or None."""
    log = 0.0
    dim = {}
    for sym, exp in terms:
        sd = split(sym)
        if sd is None:
            return None
        s, d = sd
        log += math.log(s) * float(exp)
        for k, v in d.items():
            dim[k] = dim.get(k, F(0)) + v * F(exp).limit_denominator(1000)
    return math.exp(log), {k: v for k, v in dim.items() if v}


def denote(unit):
    """(scale, dimension) of a `metric.Unit`, read through its public terms."""
    return denote_terms([(t.base, t.exponent) for t in unit])


def factor(u, v):
    """The factor from unit `u` to unit `v` by the table, or None."""
    a, b = denote(u), denote(v)
    if a is None or b is None or a[1] != b[1]:
        return None
    return a[0] / b[0]


def spell(terms):
    """A unit string for (symbol, exponent) pairs."""
    out = []
    for s, e in terms:
        e = F(e)
        out.append(s if e == 1 else f"{s}^{e.numerator}" if e.denominator == 1 else f"{s}^{e.numerator}/{e.denominator}")
    return ' * '.join(out) if out else '1'
