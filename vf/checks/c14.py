"""C14: metric systems, quantities, dimensions and units agree with each other."""
import math

from ..core import contract, attempt, need, Skip, Unsupported, close
from .. import units as U

F, D = U.F, U.D
M = 'eprempy.metric._'
FUNCS = [M + n for n in ('defined._Property', 'defined.NamedUnit', 'defined.identify', 'defined.get_quantity',
                         'systems.System', 'systems.Quantity', 'systems.Properties', 'systems.quantity_factory',
                         'systems.system_factory', 'dimensions.Dimension', 'units.Unit', 'units.normalize',
                         'conversions.conversion_factory', 'reference.CONVERSIONS')]
SYSTEMS = ('mks', 'cgs')
h = F(1, 2)
# dimension of the named units whose dimension depends on the metric system
EM = {
    'mks': {'Ω': D(M=1, L=2, T=-3, I=-2), 'S': D(M=-1, L=-2, T=3, I=2), 'F': D(M=-1, L=-2, T=4, I=2),
            'H': D(M=1, L=2, T=-2, I=-2), 'e': D(I=1, T=1)},
    'cgs': {'statC': D(M=h, L=3 * h, T=-1), 'statA': D(M=h, L=3 * h, T=-2), 'statV': D(M=h, L=h, T=-1),
            'G': D(M=h, L=-h, T=-1), 'Oe': D(M=h, L=-h, T=-1), 'Mx': D(M=h, L=3 * h, T=-1), 'e': D(M=h, L=3 * h, T=-1)},
}
FREE = {'lm': D(J=1), 'lx': D(J=1, L=-2), 'nuc': {}, 'amu': {}, 'deg': {}}
NAMES = {'Ω': 'ohm', 'S': 'siemens', 'F': 'farad', 'H': 'henry', 'e': 'fundamental charge', 'statC': 'statcoulomb',
         'statA': 'statampere', 'statV': 'statvolt', 'G': 'gauss', 'Oe': 'Oersted', 'Mx': 'maxwell', 'lm': 'lumen',
         'lx': 'lux', 'nuc': 'nucleon', 'amu': 'atomic mass unit', 'deg': 'degree'}
ALONE = set(U.ALL_BASES)
# the units that belong to one system only
ONLY = {**{u: 'mks' for u in ('A', 'C', 'V', 'Wb', 'T', 'Ω', 'S', 'F', 'H')},
        **{u: 'cgs' for u in ('statC', 'statA', 'statV', 'G', 'Oe', 'Mx')}}


def base_dimension(base, system):
    if base in EM[system]:
        return EM[system][base]
    if base in FREE:
        return FREE[base]
    if ONLY.get(base, system) != system:
        return None
    return U.BASE[base][1] if base in U.BASE else None


def dimension_of(terms, system):
    """The dimension of (symbol, exponent) pairs in a system by the tables above, or None."""
    out = {}
    for sym, exp in terms:
        if sym == '1':
            continue
        if sym not in U.UNIQUE and sym not in U.ALL_BASES:
            return None
        d = base_dimension(sym if sym in U.ALL_BASES else U.UNIQUE[sym][1], system)
        if d is None:
            return None
        for k, v in d.items():
            out[k] = out.get(k, F(0)) + v * F(exp).limit_denominator(1000)
    return {k: v for k, v in out.items() if v}


def terms_of(unit):
    return [(t.base, t.exponent) for t in unit]


def parse(x):
    """An expression of dimension symbols as a mapping from symbol to exponent."""
    out = {}
    for t in need('eprempy.symbolic', 'expression')(x):
        if t.base != '1' and t.exponent:
            out[t.base] = out.get(t.base, F(0)) + F(t.exponent).limit_denominator(1000)
    return {k: v for k, v in out.items() if v}


def metric(name):
    return need('eprempy.metric', name)


def unit(x):
    return metric('unit')(x)


# what each quantity is, in SI dimensions
QUANTITY = {
    'acceleration': D(L=1, T=-2), 'amount': D(N=1), 'area': D(L=2), 'capacitance': D(T=4, I=2, M=-1, L=-2),
    'charge': D(I=1, T=1), 'charge density': D(I=1, T=1, L=-3), 'conductance': D(T=3, I=2, M=-1, L=-2),
    'conductivity': D(T=3, I=2, M=-1, L=-3), 'current': D(I=1), 'current density': D(I=1, L=-2),
    'displacement': D(I=1, T=1, L=-2), 'dosage': D(L=2, T=-2), 'electric charge': D(I=1, T=1),
    'electric field': D(M=1, L=1, T=-3, I=-1), 'electromotance': D(M=1, L=2, T=-3, I=-1), 'energy': D(M=1, L=2, T=-2),
    'energy density': D(M=1, L=-1, T=-2), 'fluence': D(M=-1, L=-4, T=2), 'flux': D(M=-1, L=-4, T=1),
    'force': D(M=1, L=1, T=-2), 'frequency': D(T=-1), 'identity': {}, 'illuminance': D(J=1, L=-2),
    'impedance': D(M=1, L=2, T=-3, I=-2), 'inductance': D(M=1, L=2, T=-2, I=-2), 'induction': D(M=1, T=-2, I=-1),
    'integral flux': D(L=-2, T=-1), 'length': D(L=1), 'luminous flux': D(J=1), 'luminous intensity': D(J=1),
    'magnetic field': D(M=1, T=-2, I=-1), 'magnetic flux': D(M=1, L=2, T=-2, I=-1),
    'magnetic induction': D(M=1, T=-2, I=-1), 'magnetic intensity': D(I=1, L=-1), 'magnetic moment': D(I=1, L=2),
    'magnetization': D(I=1, L=-1), 'magnetomotance': D(I=1), 'mass': D(M=1), 'mass density': D(M=1, L=-3),
    'mass number': {}, 'momentum': D(M=1, L=1, T=-1), 'momentum density': D(M=1, L=-2, T=-1), 'number': {},
    'number density': D(L=-3), 'particle distribution': D(L=-6, T=3), 'particle fluence': D(M=-1, L=-4, T=2),
    'particle flux': D(M=-1, L=-4, T=1), 'permeability': D(M=1, L=1, T=-2, I=-2),
    'permittivity': D(T=4, I=2, M=-1, L=-3), 'plane angle': {}, 'polarization': D(I=1, T=1, L=-2),
    'potential': D(M=1, L=2, T=-3, I=-1), 'power': D(M=1, L=2, T=-3), 'power density': D(M=1, L=-1, T=-3),
    'pressure': D(M=1, L=-1, T=-2), 'radioactivity': D(T=-1), 'rate': D(T=-1), 'ratio': {},
    'reluctance': D(I=2, T=2, M=-1, L=-2), 'resistance': D(M=1, L=2, T=-3, I=-2),
    'resistivity': D(M=1, L=3, T=-3, I=-2), 'temperature': D(H=1), 'thermal conductivity': D(M=1, L=1, T=-3, H=-1),
    'time': D(T=1), 'solid angle': {}, 'speed': D(L=1, T=-1), 'vector potential': D(M=1, L=1, T=-2, I=-1),
    'velocity': D(L=1, T=-1), 'viscosity': D(M=1, L=-1, T=-1), 'volume': D(L=3), 'vorticity': D(T=-1),
    'wavenumber': D(L=-1), 'work': D(M=1, L=2, T=-2),
}


def coherent(dim, system):
    """The SI scale of the coherent unit of a mechanical dimension."""
    s = {'L': 1.0, 'M': 1.0} if system == 'mks' else {'L': 1e-2, 'M': 1e-3}
    return math.prod(s[k] ** float(v) for k, v in dim.items() if k in s)


def quantity_cases(tier):
    names = list(metric('system')('mks'))
    return [(s, q) for s in SYSTEMS for q in names]


@contract('C14', 'quantities', cases=quantity_cases, functions=FUNCS, bound='all quantities of both systems')
def quantities(S, case):
    """The unit prescribed for a quantity has the dimension prescribed for it; every way of asking agrees."""
    s, q = case
    system = metric('system')(s)
    tag = f'{s} {q}'
    u = unit(system.units[q])
    true = dimension_of(terms_of(u), s)
    if true is None:
        raise Unsupported(f'no independent dimension for {u}')
    given = parse(system.dimensions[q])
    S.ensure(given == true, f'{tag}: the prescribed dimension is that of the prescribed unit', lambda: (str(u), given, true))
    if q in QUANTITY and s == 'mks':
        S.ensure(true == QUANTITY[q], f'{tag}: the unit measures the quantity', lambda: (str(u), true, QUANTITY[q]))
    if q in QUANTITY and not set(QUANTITY[q]) & {'I'} and q != 'radioactivity':
        S.ensure(true == QUANTITY[q], f'{tag}: the unit measures the quantity ', lambda: (str(u), true))
    si = U.denote(u)
    if si is not None and not set(QUANTITY.get(q, {'I': 1})) & {'I'} and (q, s) != ('radioactivity', 'cgs'):
        S.ensure(close(si[0], coherent(si[1], s)), f'{tag}: the unit is the coherent one', lambda: (str(u), si))
    p = system[q]
    S.ensure(p.unit == u, f'{tag}: the system and its table prescribe one unit', lambda: (str(p.unit), str(u)))
    S.ensure(parse(p.dimension) == true, f'{tag}: the dimension of the metric', lambda: (str(p.dimension), true))
    w = metric('quantity')(q)
    S.ensure(unit(w.units[s]) == u and unit(w[s].unit) == u, f'{tag}: the quantity prescribes the same unit')
    S.ensure(parse(w.dimensions[s]) == given, f'{tag}: the quantity prescribes the same dimension')
    d = system.get_dimension(u)
    S.ensure(parse(d) == true, f'{tag}: the dimension computed from the unit', lambda: (str(d), true))
    S.ensure(parse(system.get_dimension(str(u))) == true, f'{tag}: the dimension computed from the string')
    S.ensure(system.get_unit(quantity=q) == u, f'{tag}: the unit asked for by quantity')
    x = system.get_unit(dimension=metric('dimension')(system.dimensions[q]))
    S.ensure(dimension_of(terms_of(x), s) == true, f'{tag}: a unit asked for by dimension has it',
             lambda: (str(x), true))
    found = metric('dimension')(system.dimensions[q]).quantities(s)
    S.ensure(q in found, f'{tag}: the quantity is among those of its dimension', lambda: found)
    S.ensure(all(parse(system.dimensions[k]) == given for k in found), f'{tag}: all of those have its dimension')
    missed = [k for k in system if parse(system.dimensions[k]) == given and k not in found]
    S.ensure(not missed, f'{tag}: no other quantity has that dimension', lambda: missed)
    S.ensure(metric('system')(s.upper())[q.upper()].unit == u, f'{tag}: case does not matter')
    S.ensure((metric('quantity')(q) | metric('quantity')(q.upper())) is True, f'{tag}: equivalent to itself')


@contract('C14', 'prescribed', cases=quantity_cases, functions=FUNCS, bound='all quantities of both systems')
def prescribed(S, case):
    """A unit that one system prescribes converts, with a positive factor, to the unit each system prescribes instead."""
    s, q = case
    u = unit(metric('system')(s).units[q])
    for t in SYSTEMS:
        system = metric('system')(t)
        n, e = attempt(lambda: system.get_unit(unit=u))
        S.ensure(e is None, f'{s} -> {t} {q}: a unit is prescribed', lambda: repr(e))
        if e is not None:
            continue
        r, e = attempt(lambda: u >> n)
        S.ensure(e is None, f'{s} -> {t} {q}: the conversion is defined', lambda: (str(u), str(n), repr(e)))
        if e is not None:
            continue
        S.ensure(r > 0, f'{s} -> {t} {q}: the factor is positive', lambda: (str(u), str(n), r))
        want = U.factor(u, n)
        if want is not None:
            S.ensure(close(r, want), f'{s} -> {t} {q}: the factor', lambda: (str(u), str(n), r, want))
        if s == t:
            S.ensure(dimension_of(terms_of(n), t) == dimension_of(terms_of(u), t), f'{s} -> {t} {q}: same dimension',
                     lambda: (str(u), str(n)))


@contract('C14', 'converting', cases=quantity_cases, functions=FUNCS + [M + 'conversions.Converter', M + 'conversions.converter_factory'], bound='all quantities of both systems')
def converting(S, case):
    """A quantity converts its units to the unit of a system, or to a given unit, by the ratio of their scales."""
    s, q = case
    quantity, tag = metric('quantity')(q), f'{s} {q}'
    # mass numbers are, by design, masses when they convert
    means = 'mass' if q == 'mass number' else q
    own = metric('system')(s).units[means]
    for given in (own, s):
        c = quantity.convert(given)
        for t in SYSTEMS:
            target = metric('system')(t).units[means]
            want = U.factor(unit(own), unit(target))
            for asked in (t, target):
                r, e = attempt(lambda: c.to(asked))
                if e is None:
                    S.ensure(float(r) > 0, f'{tag}: the factor is positive', lambda: (given, asked, float(r)))
                if want is not None and not (set(QUANTITY.get(q, {'I': 1})) & {'I'}):
                    S.ensure(e is None, f'{tag}: units of one quantity convert', lambda: (given, asked, repr(e)))
                if want is not None and e is None:
                    S.ensure(close(float(r), want), f'{tag}: the factor', lambda: (given, asked, float(r), want))
                f, e2 = attempt(lambda: unit(own) >> unit(target))
                if e is None and e2 is None:
                    S.ensure(close(float(r), float(f)), f'{tag}: the quantity and the unit convert alike', lambda: (given, asked, float(r), f))
    wrong = 'K'
    r, e = attempt(lambda: quantity.convert(own).to(wrong))
    if U.factor(unit(own), unit(wrong)) is None and q in QUANTITY and 'H' not in QUANTITY[q]:
        S.ensure(e is not None, f'{tag}: a unit of another quantity is refused', lambda: (own, wrong, float(r)))


@contract('C14', 'systems', cases=quantity_cases, functions=FUNCS, bound='all quantities of both systems')
def systems(S, case):
    """A system is a mapping from its quantities to their metrics; names stand for what they name."""
    s, q = case
    system, quantity = metric('system')(s), metric('quantity')(q)
    other = SYSTEMS[1 - SYSTEMS.index(s)]
    tag = f'{s} {q}'
    names = list(system)
    S.ensure(len(system) == len(names) == len(set(names)) and q in names and q in system, f'{tag}: the quantities of a system', lambda: (len(system), len(names)))
    S.ensure(list(system.keys()) == names and len(system.values()) == len(system.items()) == len(names), f'{tag}: the names of the quantities of a system')
    found = [p for k, p in system.items() if k == q]
    S.ensure(len(found) == 1 and found[0] == system[q] and system.get(q) == system[q] == system[quantity] == quantity[s.upper()], f'{tag}: one metric by every way of asking', lambda: [str(p) for p in found])
    S.ensure(any(p == system[q] for p in system.values()), f'{tag}: the metric is among those of the system')
    S.ensure(system == s and system == s.upper() and system == metric('system')(s.upper()) and system == metric('system')(system), f'{tag}: a system equals its name')
    S.ensure(not system == other and not system == metric('system')(other) and system != other, f'{tag}: distinct systems are not equal')
    S.ensure(str(system) == system.name == s and bool(system), f'{tag}: the name of the system')
    S.ensure(quantity == q and quantity == q.upper() and quantity == metric('quantity')(q.title()) and metric('quantity')(quantity) == quantity and str(quantity) == quantity.name == q,
             f'{tag}: a quantity equals its name')
    for k in names:
        there = metric('quantity')(k)
        S.ensure((quantity == there) == (k == q) and (quantity == k) == (k == q), f'{tag}: distinct quantities are not equal', lambda: k)
        alike = all(parse(metric('system')(t).dimensions[q]) == parse(metric('system')(t).dimensions[k]) for t in SYSTEMS)
        S.ensure((quantity | there) is alike, f'{tag}: equivalent quantities have one dimension', lambda: (k, alike))
        same = system[k] == system[q]
        S.ensure(same == (system[k].unit == system[q].unit and parse(system[k].dimension) == parse(system[q].dimension)), f'{tag}: metrics are equal if their units and dimensions are', lambda: k)
    for p in (q, None, 1, system[q].unit):
        S.ensure(not system[q] == p, f'{tag}: a metric is not its name or unit')
    for bad in ('spam', 'mksa', ''):
        _, e = attempt(lambda: quantity[bad])
        S.ensure(e is not None, f'{tag}: no metric in an unknown system', lambda: bad)
        _, e = attempt(lambda: system[q + ' spam'])
        S.ensure(e is not None and system.get(q + ' spam') is None and q + ' spam' not in system, f'{tag}: no metric of an unknown quantity')


def base_cases(tier):
    return [b for b in U.ALL_BASES]


@contract('C14', 'named-units', cases=base_cases, functions=FUNCS, bound='all prefixes of all named units')
def named_units(S, base):
    """A prefix and a unit, by symbol or by full name, denote one unit with the prefix's power of ten and one dimension."""
    full = U.BASE[base][2] if base in U.BASE else NAMES[base]
    bare = metric('NamedUnit')(base)
    for name, p in [('', '')] + (list(U.PREFIX_NAMES.items()) if base != '1' else []):
        if p and p + base in ALONE:
            r, e = attempt(lambda: metric('NamedUnit')(name + full).base.symbol)
            S.ensure(r in (None, base), f'{name + full}: not another unit', lambda: r)
            continue
        sym, long = p + base, name + full
        tag = f'{sym}'
        if sym in U.UNIQUE or sym == base:
            n = metric('NamedUnit')(sym)
            S.ensure(close(n.scale, 10.0 ** U.PREFIX[p]), f'{tag}: scale', lambda: n.scale)
            S.ensure((n.symbol, n.base.symbol) == (sym, base), f'{tag}: symbol', lambda: (n.symbol, n.base.symbol))
            S.ensure(n.name == long, f'{tag}: full name', lambda: n.name)
            S.ensure(n == metric('NamedUnit')(long), f'{tag}: the name is the same unit', lambda: long)
            S.ensure(n.quantity == bare.quantity, f'{tag}: quantity', lambda: n.quantity)
            S.ensure(unit(sym) == unit(long), f'{tag}: equal units')
            S.ensure(close(n >> base, 10.0 ** U.PREFIX[p]), f'{tag}: relative to the base')
            ds = n.dimensions
            for s in SYSTEMS:
                d = base_dimension(base, s)
                if d is None:
                    S.ensure(ds[s] is None, f'{tag}: not a unit of {s}', lambda: str(ds[s]))
                elif ds[s] is not None:
                    S.ensure(parse(ds[s]) == d, f'{s} {tag}: dimension', lambda: (str(ds[s]), d))
            S.ensure(any(d is not None for d in ds.values()), f'{tag}: has a dimension')
        w = metric('NamedUnit')(long)
        S.ensure(close(w.scale, 10.0 ** U.PREFIX[p]) and w.base.symbol == base, f'{long}: scale', lambda: w.scale)


@contract('C14', 'named-operators', cases=base_cases, bound='all pairs of prefixes of all named units',
          functions=[M + 'defined.NamedUnit.' + n for n in ('__eq__', '__hash__', '__rshift__', '__rrshift__', '__lshift__', '__rlshift__', 'reduce', '_reduce', '_resolve_system', 'norm')] + [
              M + 'defined.ratio', M + 'defined.Reduction.__mul__', M + 'defined.Reduction.__truediv__', M + 'defined.Reduction.__pow__'])
def named_operators(S, base):
    """Prefixed forms of one unit compare by the ratio of their prefixes; a reduction has the scale of its unit."""
    Named = metric('NamedUnit')
    forms = {}
    for name, p in [('', '')] + (list(U.PREFIX_NAMES.items()) if base != '1' else []):
        if p + base in U.UNIQUE and U.UNIQUE[p + base][1] == base or not p:
            forms[p + base] = (p, name + (U.BASE[base][2] if base in U.BASE else NAMES[base]))
    for a, (p, long) in forms.items():
        x = Named(a)
        for b, (q, other) in forms.items():
            y, want = Named(b), 10.0 ** (U.PREFIX[p] - U.PREFIX[q])
            for r in (x >> y, x >> b, a >> y, y << x, y << a, b << x, x >> other, metric('ratio')(a, b), metric('ratio')(x, y), metric('ratio')(long, b)):
                S.ensure(close(r, want), f'{a} to {b}: the ratio of the prefixes', lambda: (r, want))
            S.ensure((x == y) == (x == b) == (x == other) == (a == b) and (hash(x) == hash(y) or a != b), f'{a}, {b}: equal only if they are the same')
        S.ensure(hash(x) == hash(Named(long)), f'{a}: the name and the symbol are one key')
        foreign = 's' if base != 's' else 'm'
        for g in (lambda: x >> foreign, lambda: x << foreign, lambda: foreign >> x, lambda: x >> Named(foreign), lambda: metric('ratio')(a, foreign), lambda: x >> 1, lambda: 1 << x):
            r, e = attempt(g)
            S.ensure(e is not None, f'{a}: no ratio to another unit', lambda: r)
        for s in SYSTEMS:
            R, e = attempt(x.reduce, s)
            S.ensure(e is None, f'{s} {a}: reducing a unit', lambda: repr(e))
            if R is None:
                S.ensure(not x.is_defined_in(s), f'{s} {a}: units of a system have a reduction')
                continue
            S.ensure(x.is_defined_in(s) and R.system == s, f'{s} {a}: only units of a system have a reduction')
            S.ensure(attempt(x.reduce, s.upper())[0] is R and Named(long).reduce(s) is R, f'{s} {a}: one reduction')
            terms = [(t.base, t.exponent) for t in R.units]
            d = dimension_of(terms, s)
            if base_dimension(base, s) is not None and d is not None and base != 'Ω':
                S.ensure(d == base_dimension(base, s), f'{s} {a}: the dimension of a reduction', lambda: (terms, d))
            den, own = U.denote_terms(terms), U.split(a) if base in U.BASE else None
            if den and own:
                S.ensure(close(R.scale * den[0], own[0]), f'{s} {a}: the scale of a reduction', lambda: (terms, R.scale, den, own))
            for made, scale, power in ((R * 4.0, R.scale * 4, 1), (2 * R, R.scale * 2, 1), (R / 4.0, R.scale / 4, 1), (R ** 2, R.scale ** 2, 2), ((R * 3.0) ** -1, 1 / (3 * R.scale), -1), (R * 1.0 * 2.0, R.scale * 2, 1)):
                S.ensure(close(made.scale, scale) and made.system == s, f'{s} {a}: the scale of a multiple or power', lambda: (made.scale, scale))
                S.ensure(sorted((t.base, t.exponent) for t in made.units) == sorted((k, n * power) for k, n in terms), f'{s} {a}: the units of a multiple or power', lambda: [str(t) for t in made.units])
        n, e = attempt(lambda: x.norm)
        if e is None:
            S.ensure(set(n) == set(SYSTEMS) and all(n[s] == metric('system')(s).units[x.quantity] for s in SYSTEMS), f'{a}: the unit prescribed in each system', lambda: n)


@contract('C14', 'normalize', cases=base_cases, functions=FUNCS, bound='all prefixes of all named units')
def normalize(S, base):
    """The unit prescribed for the quantity of a named unit is one it converts to, by the ratio of the scales."""
    for p in U.PREFIX:
        sym = p + base
        if sym not in U.UNIQUE:
            continue
        u = unit(sym)
        for s in SYSTEMS:
            system = metric('system')(s)
            n = system.get_unit(unit=u)
            tag = f'{sym} in {s}'
            S.ensure(u.normalize(s) == n, f'{tag}: normalize and get_unit agree')
            q = metric('NamedUnit')(sym).quantity
            S.ensure(n == system[q].unit, f'{tag}: the unit of its quantity', lambda: (str(n), q))
            r, e = attempt(lambda: u >> n)
            S.ensure(e is None, f'{tag}: the conversion is defined', lambda: (str(n), repr(e)))
            if e is not None:
                continue
            S.ensure(r > 0, f'{tag}: the factor is positive', lambda: r)
            w = U.factor(u, n)
            if w is not None:
                S.ensure(close(r, w), f'{tag}: the factor', lambda: (str(n), r, w))


MECH = [q for q, d in QUANTITY.items() if not set(d) & {'I'} and q not in ('radioactivity',)]


def draw(S, tag, pool, n):
    out = []
    for i in range(n):
        out.append((S.choice(f'{tag}{i}', pool), S.choice(f'{tag}e{i}', [1, 1, -1, 2, -2, 3, F(1, 2), F(-3, 2)])))
    return out


def write(terms, S, join='_'):
    """A quantity expression, in one of the accepted notations."""
    style = S.choice('style', ['product', 'ratio', 'group'])
    names = [(q.replace(' ', join), F(e)) for q, e in terms]

    def power(q, e):
        return q if e == 1 else f'{q}^{e}'
    if style == 'product' or len(names) < 2:
        return ' * '.join(power(q, e) for q, e in names)
    head, *rest = names
    if style == 'group':
        return power(*head) + ' / (' + ' * '.join(power(q, -e) for q, e in rest) + ')'
    return power(*head) + ''.join(' / ' + power(q, -e) for q, e in rest)


def total(terms, table):
    out = {}
    for q, e in terms:
        for k, v in table[q].items():
            out[k] = out.get(k, F(0)) + v * F(e)
    return {k: v for k, v in out.items() if v}


@contract('C14', 'composites', rand=(600, 6000), functions=FUNCS, bound='sampled products of one to four powers of quantities')
def composites(S):
    """A product of powers of quantities is prescribed the matching product of units and of dimensions."""
    terms = draw(S, 'q', MECH if S.choice('em', [0, 0, 1]) == 0 else [q for q in QUANTITY if q not in RESISTIVE],
                 S.choice('n', [1, 2, 3, 4]))
    s = S.choice('system', SYSTEMS)
    system = metric('system')(s)
    text = write(terms, S, S.choice('join', ['_', ' ']))
    p, e = attempt(lambda: system[text])
    S.ensure(e is None, 'a product of known quantities is a quantity', lambda: (text, repr(e)))
    if e is not None:
        return
    want = {}
    for q, x in terms:
        d = dimension_of(terms_of(unit(system.units[q])), s)
        if d is None:
            raise Unsupported(f'{q} in {s}')
        for k, v in d.items():
            want[k] = want.get(k, F(0)) + v * F(x)
    want = {k: v for k, v in want.items() if v}
    u = p.unit
    S.ensure(dimension_of(terms_of(u), s) == want, 'dimension of the unit', lambda: (text, str(u), want))
    S.ensure(parse(metric('quantity')(text).dimensions[s]) == want, 'prescribed dimension', lambda: (text, want))
    S.ensure(parse(p.dimension) == want, 'dimension of the metric', lambda: (text, str(p.dimension), want))
    S.ensure(parse(system.get_dimension(u)) == want, 'dimension computed from the unit', lambda: (text, str(u), want))
    si = U.denote(u)
    if si is not None and all(q in MECH for q, x in terms):
        S.ensure(close(si[0], coherent(si[1], s)), 'the unit is the coherent one', lambda: (text, str(u), si))
    S.ensure(p.unit == system.get_unit(quantity=text), 'get_unit agrees')


def foreign(terms, system):
    """True if a unit in the product is not defined in the system."""
    def alien(sym):
        b = sym if sym in U.ALL_BASES else U.UNIQUE[sym][1]
        return metric('NamedUnit')(b).dimensions[system] is None
    return any(alien(b) for b, e in terms)


RESISTIVE = ('impedance', 'resistance', 'resistivity')
POOL = [b for b in U.MECHANICAL] + ['rad', 'sr', 'deg', 'nuc', '#']


@contract('C14', 'composite-units', rand=(800, 8000), functions=FUNCS, bound='sampled products of one to four prefixed named units')
def composite_units(S):
    """The unit a system prescribes for the quantity of a composite unit is coherent and the composite converts to it."""
    terms = []
    for i in range(S.choice('n', [1, 2, 3, 4])):
        b = S.choice(f'b{i}', POOL)
        p = S.choice(f'p{i}', ['', '', 'k', 'm', 'c', 'M'])
        terms.append((p + b if p + b in U.UNIQUE else b, S.choice(f'e{i}', [1, 1, -1, -1, 2, -2, F(1, 2)])))
    text = U.spell(terms)
    u, e = attempt(unit, text)
    if e is not None:
        raise Skip()
    s = S.choice('system', SYSTEMS)
    system = metric('system')(s)
    given = text if S.coin('text') else u
    n, e = attempt(lambda: system.get_unit(unit=given))
    S.ensure(e is None, 'a unit is prescribed', lambda: (text, repr(e)))
    if e is not None:
        return
    want = dimension_of(terms, s)
    S.ensure(dimension_of(terms_of(n), s) == want, 'it has the dimension of the given unit', lambda: (text, str(n), want))
    for d, label in [(u.dimensions[s], 'dimension of the unit'),
                     (attempt(lambda: system.get_dimension(given))[0], 'dimension computed by the system')]:
        # a unit of another system, such as the erg in mks, has no dimension in this one
        S.ensure(d is None and foreign(terms, s) or d is not None and parse(d) == want, label, lambda: (text, str(d), want))
    si = U.denote(n)
    if si is not None and not any(b in ('Bq', 'Ci') for b, x in terms_of(n)):
        S.ensure(close(si[0], coherent(si[1], s)), 'it is coherent', lambda: (text, str(n), si))
    r, e = attempt(lambda: u >> n)
    S.ensure(e is None, 'the conversion is defined', lambda: (text, str(n), repr(e)))
    if e is None:
        S.ensure(r > 0, 'the factor is positive', lambda: (text, str(n), r))
        a, b = U.denote_terms(terms), U.denote(n)
        if a is not None and b is not None:
            S.ensure(close(r, a[0] / b[0]), 'the factor', lambda: (text, str(n), r, a[0] / b[0]))


@contract('C14', 'unknown', cases=lambda tier: ['furlong', 'spam', 'kkm', 'length spam', 'spam * length'], functions=FUNCS,
          finite_is_proof=False, bound='five unknown names')
def unknown(S, name):
    """A name that is no unit and no quantity is refused, not given some metric."""
    for s in SYSTEMS:
        r, e = attempt(lambda: metric('system')(s)[name].unit)
        S.ensure(e is not None, f'{name} is no quantity of {s}', lambda: str(r))
    r, e = attempt(lambda: metric('NamedUnit')(name))
    S.ensure(e is not None, f'{name} is no unit', lambda: str(r))
