"""C01: unit conversion is coherent."""
import functools
import itertools
import math

from .. import units as U
from ..core import contract, SymbolicOnly, attempt, need, Skip, Unsupported

FUNCS = ['eprempy.metric.conversion', 'eprempy.metric._conversions.conversion_factory',
         'eprempy.metric._conversions._convert', 'eprempy.metric._conversions._standard_conversion',
         'eprempy.metric._conversions._convert_as_expressions', 'eprempy.metric._conversions._resolve_terms',
         'eprempy.metric._conversions._convert_by_dimensions', 'eprempy.metric._defined.ratio']
TOL = 1e-9


def conv(u, v):
    from eprempy import metric
    return float(metric.conversion(u, v))


@functools.lru_cache(None)
def ask(u, v):
    """The factor, or None when the request is refused."""
    r, e = attempt(conv, u, v)
    return r


def same(a, b, tol=TOL):
    return abs(a - b) <= tol * max(abs(a), abs(b))


# -- the conversion object -----------------------------------------------------

@contract('C01', 'inverse-object', sym='proof', rand=(200, 2000),
          functions=['eprempy.metric._conversions.Conversion.__rtruediv__',
                     'eprempy.metric._conversions.Conversion.__float__'])
def inverse_object(S):
    """The inverse of a conversion by f converts the other way round by 1/f, for every factor f > 0."""
    Conversion = need('eprempy.metric._conversions', 'Conversion')
    f = S.real('f', positive=True)
    c = Conversion('a', 'b', f)
    d = 1 / c
    x = S.real('x')
    F = c.__float__() if S.symbolic else float(c)
    G = d.__float__() if S.symbolic else float(d)
    S.ensure(S.eq(F, f), 'the factor is kept')
    S.ensure(S.eq(F * (G * x), x), 'converting there and back is the identity')
    S.ensure(d.u0 == 'b' and d.u1 == 'a', 'the inverse swaps the units')


# -- composites, for every assignment of scales to the parts --------------------

SHAPES = [
    ('a * b^2 / c', 'd * e^2 / f', 'ad be cf'),
    ('a^2 / b', 'c^2 / d', 'ac bd'),
    ('a / b^3', 'd / c^3', 'ad bc'),
    ('a^1/2 * b', 'c^1/2 * d', 'ac bd'),
    ('a * b', 'c * d', 'ac bd'),
    ('a^-2 * b^3', 'c^-2 * d^3', 'ac bd'),
    ('a * b^2 * c^-1/2', 'd * e^2 * f^-1/2', 'ad be cf'),
    ('a^3', 'b^3', 'ab'),
    ('a^-1', 'b^-1', 'ab'),
    ('a / (b * c^2 * d^3)', 'e / (f * g^2 * h^3)', 'ae bf cg dh'),
]
NAMES = dict(a='J', b='au', c='d', d='erg', e='km', f='min', g='V', h='nT')


@contract('C01', 'composite', sym='shape', bound='10 composite shapes of up to 4 parts, exponents -3..3 and halves',
          functions=['eprempy.metric._conversions._convert_as_expressions', 'eprempy.metric._conversions._resolve_terms',
                     'eprempy.metric._conversions._match_exponents', 'eprempy.metric._conversions.conversion_factory'],
          trusted=['callee contract assumed there: a conversion between two named units multiplies by s(u)/s(v) '
                   '(checked by table-pairs, table-chains)'])
def composite(S):
    """Whatever the factors of the parts are, a composite's factor is their product raised to the parts' exponents."""
    from eprempy import symbolic
    mod = need('eprempy.metric._conversions', '_convert_as_strings') and __import__(
        'eprempy.metric._conversions', fromlist=['x'])
    u, v, pairs = S.choice('shape', SHAPES)
    letters = sorted({x for x in u + v if x.isalpha()})
    names = {'a': 'J', 'b': 'au', 'c': 'd', 'd': 'erg', 'e': 'Rs', 'f': 'min', 'g': 'V', 'h': 'T'}
    partner = {p[0]: p[1] for p in pairs.split()}
    kinds = {}
    # one fresh kind of unit per pair, so that only partners convert
    pool = [('J', 'erg'), ('au', 'Rs'), ('d', 'min'), ('N', 'dyn')]
    sub = {}
    for (x, y), (p, q) in zip(partner.items(), pool):
        sub[x], sub[y] = p, q
    scale = {sub[x]: S.pos('s_' + sub[x]) for x in letters}
    spell = lambda t: ''.join(sub.get(ch, ch) for ch in t)
    kind = {}
    for p, q in pool:
        kind[p] = kind[q] = p
    called = []

    def stub(u0, u1):
        called.append((u0, u1))
        if u0 in scale and u1 in scale and kind[u0] == kind[u1]:
            return scale[u0] / scale[u1]
        return None
    if not S.symbolic:
        raise SymbolicOnly()
    S.patch(mod, '_convert_as_strings', stub)
    S.patch(mod, '_conversions', {})
    c, err = attempt(mod.conversion_factory, spell(u), spell(v))
    if err is not None:
        raise Unsupported(f'the stated decomposition is not used: {err}')
    if not called:
        raise Unsupported('the callee contract is not used')
    f = c.__float__()
    want = None
    for t in symbolic.expression(spell(u)):
        want = (scale[t.base] ** t.exponent) if want is None else want * scale[t.base] ** t.exponent
    for t in symbolic.expression(spell(v)):
        want = want / scale[t.base] ** t.exponent
    S.ensure(S.eq(f, want), 'the factor is the product of the factors of the parts')
    back = mod.conversion_factory(spell(v), spell(u)).__float__()
    S.ensure(S.eq(f * back, 1), 'the opposite direction has the reciprocal factor')


# -- the finite table of named units ---------------------------------------------

def table_units():
    out = []
    for s in U.UNIQUE:
        p, b = U.UNIQUE[s]
        if p in ('', 'k', 'm', 'M', 'μ'):
            out.append(s)
    return out


def base_units():
    return [b for b in U.ALL_BASES if b not in ('lx',)]


def prefix_cases(tier):
    out = []
    for b in U.ALL_BASES:
        if b in ('1', 'lx'):
            continue
        ps = [p for p in U.PREFIX if (p + b) in U.UNIQUE]
        out.append((b, ps))
    return out


@contract('C01', 'prefixes', cases=prefix_cases, functions=FUNCS)
def prefixes(S, case):
    """A prefixed unit differs from its base unit, and from every other prefixed form, by exactly the power of ten."""
    from eprempy import metric
    b, ps = case
    for p, q in itertools.product(ps, ps):
        want = 10.0 ** (U.PREFIX[p] - U.PREFIX[q])
        got = conv(p + b, q + b)
        S.ensure(same(got, want, 1e-12), f'{p + b} -> {q + b} is {want}', lambda: got)
        S.ensure(same(metric.ratio(p + b, q + b), want, 1e-12), f'ratio {p + b} {q + b}')


def pair_cases(tier):
    us = base_units()
    if tier == 'thorough':
        us = [s for s in U.UNIQUE if U.UNIQUE[s][0] in ('', 'k', 'm') and U.UNIQUE[s][1] != 'lx']
    return [(u, us) for u in us]


@contract('C01', 'table-pairs', cases=pair_cases, functions=FUNCS,
          bound='all ordered pairs of named units (thorough: also with prefixes k, m)')
def table_pairs(S, case):
    """Every ordered pair of named units: identity, reciprocal, positivity, and the absolute factor of SI."""
    from eprempy import metric
    u, us = case
    S.ensure(conv(u, u) == 1.0, f'{u} -> {u} is 1')
    for v in us:
        f = ask(u, v)
        g = ask(v, u)
        S.ensure((f is None) == (g is None), f'{u} -> {v} and back are both defined or both refused')
        a, b = U.split(u), U.split(v)
        if f is None:
            if a and b and a[1] == b[1] and a[1] and not Hzlike(u, v):
                S.ensure(False, f'{u} -> {v} is defined (same dimension)')
            continue
        S.ensure(f > 0, f'{u} -> {v} is positive')
        S.ensure(same(f * g, 1.0, 1e-12), f'{u} -> {v} -> {u} is 1')
        if a and b:
            S.ensure(a[1] == b[1], f'{u} -> {v}: units of different dimension are refused', lambda: f)
            S.ensure(same(f, a[0] / b[0]), f'{u} -> {v} by the SI scales', lambda: (f, a[0] / b[0]))
        S.ensure(same(metric.unit(u) >> v, f, 1e-12), f'unit({u}) >> {v}')
        S.ensure(same(metric.unit(v) << u, f, 1e-12), f'unit({v}) << {u}')


def Hzlike(u, v):
    """Frequencies of different kind (Hz, Bq, Ci) are not interchangeable in this code."""
    k = {U.UNIQUE[u][1], U.UNIQUE[v][1]}
    return 'Hz' in k and k & {'Bq', 'Ci'}


def triple_cases(tier):
    us = base_units()
    return [(u, us) for u in us]


@contract('C01', 'table-chains', cases=triple_cases, functions=FUNCS)
def table_chains(S, case):
    """Along every chain of three named units the factors multiply."""
    u, us = case
    for v in us:
        f = ask(u, v)
        if f is None:
            continue
        for w in us:
            g, h = ask(v, w), ask(u, w)
            if g is None or h is None:
                continue
            S.ensure(same(f * g, h), f'{u} -> {v} -> {w}', lambda: (f, g, h))


DERIVED = [
    ('N', 'kg * m / s^2'), ('J', 'kg * m^2 / s^2'), ('W', 'kg * m^2 / s^3'), ('Pa', 'kg / (m * s^2)'),
    ('erg', 'g * cm^2 / s^2'), ('dyn', 'g * cm / s^2'), ('J', 'N * m'), ('W', 'J / s'), ('Pa', 'N / m^2'),
    ('Pa', 'J / m^3'), ('C', 'A * s'), ('Wb', 'V * s'), ('T', 'Wb / m^2'), ('V', 'W / A'), ('V', 'J / C'),
    ('Gy', 'J / kg'), ('kg / (m * s)', 'Pa * s'), ('P', 'dyn * s / cm^2'), ('erg', 'dyn * cm'),
    ('T', 'N / (A * m)'), ('J / m^3', 'Pa'), ('km / s', 'm / s'), ('km / h', 'm / s'),
    ('kg * m / s', 'N * s'), ('eV / au^2', 'J / m^2'), ('MeV / cm^3', 'J / m^3'), ('nT^2', 'T^2'),
    ('cm^-3', 'm^-3'), ('g / cm^3', 'kg / m^3'), ('au / d', 'km / s'), ('Rs^3', 'm^3'), ('h^-1', 's^-1'),
    ('mrad / s', 'rad / s'), ('rad / min', 'rad / s'), ('m^2 * sr', 'cm^2 * sr'), ('m^2 * sr', 'cm^2'),
    ('mGy', 'cm^2 / s^2'), ('mCi', 'kBq'), ('cdyn', 'mN'), ('ms^3', 'kd^3'), ('N / kPa', 'cm^2'),
    ('deg / s', 'rad / s'), ('# / cm^3', '1 / m^3'),
]


def derived_cases(tier):
    return DERIVED


def si(u):
    """SI scale and dimension of a string, through the repository's own term reading and our table."""
    from eprempy import symbolic
    terms = [(t.base, t.exponent) for t in symbolic.expression(u)]
    if any(U.split(b) is None for b, e in terms):
        if u.startswith('deg'):
            s, d = U.denote_terms([(b, e) for b, e in terms if b != 'deg'])
            return s * math.pi / 180, d
        return None
    return U.denote_terms(terms)


@contract('C01', 'derived-units', cases=derived_cases, functions=FUNCS, finite_is_proof=False,
          bound='43 derived units and composites')
def derived(S, case):
    """A derived unit converts to the product of base units that defines it by the ratio of the scales, both ways."""
    u, v = case
    a, b = si(u), si(v)
    f, e = attempt(conv, u, v)
    if e is not None:
        return   # a refusal gives no factor
    g = conv(v, u)
    S.ensure(same(f, a[0] / b[0]), f'{u} -> {v}', lambda: (f, a[0] / b[0]))
    S.ensure(same(f * g, 1.0), f'{v} -> {u} is the reciprocal', lambda: (f, g))


@contract('C01', 'accepted', cases=lambda tier: [d for d in DERIVED if d[0] not in ('C', 'Wb', 'T', 'V', 'kg / (m * s)', 'P')
                                                 and d not in (('T', 'Wb / m^2'), ('V', 'W / A'))],
          functions=FUNCS, finite_is_proof=False, bound='the mechanical ones of the list above')
def accepted(S, case):
    """Conversions between a mechanical derived unit and its definition are not refused."""
    u, v = case
    f, e = attempt(conv, u, v)
    S.ensure(e is None, f'{u} -> {v} is defined', lambda: repr(e))


POOL = [b for b in U.MECHANICAL]


def draw_terms(S, n, tag):
    out = []
    for i in range(n):
        b = S.choice(f'{tag}b{i}', POOL)
        p = S.choice(f'{tag}p{i}', ['', '', '', 'k', 'm', 'c', 'M', 'n'])
        e = S.choice(f'{tag}e{i}', [1, 1, -1, 2, -2, 3, -3, U.F(1, 2), U.F(-1, 2), U.F(3, 2)])
        out.append((p + b if (p + b) in U.UNIQUE else b, e))
    return out


def commensurate(S, terms, tag):
    out = []
    for i, (s, e) in enumerate(terms):
        d = U.split(s)[1]
        c = [x for x in POOL if U.BASE[x][1] == d]
        b = S.choice(f'{tag}b{i}', c)
        p = S.choice(f'{tag}p{i}', ['', '', 'k', 'm', 'c', 'G'])
        out.append((p + b if (p + b) in U.UNIQUE else b, e))
    return out


@contract('C01', 'histories', rand=(500, 8000), bound='sampled request histories over 2-4 composites of 1-3 named units',
          functions=FUNCS)
def histories(S):
    """In any order of requests, composites convert by the ratio of their scales; other dimensions are refused."""
    n = S.choice('n', [1, 2, 2, 3])
    base = draw_terms(S, n, 'u')
    # the same symbol twice in one product is a legal spelling too
    us = [base] + [commensurate(S, base, f'v{k}') for k in range(S.choice('k', [1, 2, 3]))]
    odd = draw_terms(S, S.choice('m', [1, 2]), 'w')
    order = [S.choice(f'q{i}', list(range(len(us) + 1))) for i in range(8)]
    prev = order[0]
    for j in order[1:]:
        a = us[prev] if prev < len(us) else odd
        b = us[j] if j < len(us) else odd
        da, db = U.denote_terms(a), U.denote_terms(b)
        su, sv = U.spell(a), U.spell(b)
        f, e = attempt(conv, su, sv)
        if e is None:
            S.ensure(da[1] == db[1], f'{su} -> {sv}: units of different dimension are refused', lambda: f)
            S.ensure(f > 0 and same(f, da[0] / db[0]), f'{su} -> {sv}', lambda: (f, da[0] / db[0]))
            S.ensure(same(conv(sv, su) * f, 1.0), f'{sv} -> {su} is the reciprocal')
        else:
            S.ensure(isinstance(e, Exception), 'refused')
        prev = j
    s = U.spell(base)
    S.ensure(conv(s, s) == 1.0, f'{s} -> {s} is 1')
    # parts
    parts = us[1]
    if len({x for x, _ in base}) == n and len({x for x, _ in parts}) == n:
        f, e = attempt(conv, U.spell(base), U.spell(parts))
        if e is None:
            want = 1.0
            for (x, p), (y, _) in zip(base, parts):
                g = ask(x, y)
                if g is None:
                    raise Skip()
                want *= g ** float(p)
            S.ensure(same(f, want), f'{U.spell(base)} -> {U.spell(parts)} is the product of its parts', lambda: (f, want))
        elif len(base) == 1:
            S.ensure(ask(base[0][0], parts[0][0]) is None, f'{base} -> {parts} is not refused when its parts convert')


@contract('C01', 'relations', rand=(250, 5000), bound='sampled pairs of composites of 1-3 named units',
          functions=['eprempy.metric._units.Unit.' + n for n in ('__and__', '__or__', '__eq__', '__rshift__', '__rrshift__', '__lshift__', '__rlshift__')] + ['eprempy.metric._units._equivalent_quantities'])
def relations(S):
    """Two units are consistent exactly if they have one dimension; equivalent ones have a factor of 1; every operator gives the one factor."""
    from eprempy import metric
    a = draw_terms(S, S.choice('n', [1, 2, 2, 3]), 'u')
    b = commensurate(S, a, 'v') if S.choice('alike', [True, True, False]) else draw_terms(S, S.choice('m', [1, 2]), 'w')
    da, db = U.denote_terms(a), U.denote_terms(b)
    s, t = U.spell(a), U.spell(b)
    u, v = metric.unit(s), metric.unit(t)
    alike = da[1] == db[1]
    if S.choice('first', [True, False]):
        attempt(conv, s, t)
    for x, y in ((u, v), (v, u), (u, t), (s, v)):
        S.ensure((x | y) is alike, 'units are consistent exactly if they have the same dimension', lambda: (s, t, x | y))
        if x & y:
            S.ensure(alike and same(da[0], db[0]), 'equivalent units have a factor of 1', lambda: (s, t))
    S.ensure(bool(u & v) == bool(v & u) == bool(u & t) == bool(s & v), 'equivalence has no direction', lambda: (s, t))
    S.ensure(not u == v or (u & v and u | v), 'equal units are equivalent', lambda: (s, t))
    S.ensure(u == s and u & s and u | s and s & u and s | u, 'a unit is equivalent to itself', lambda: s)
    f, e = attempt(conv, s, t)
    for label, g, way in (('u >> v', lambda: u >> v, 1), ('u >> "v"', lambda: u >> t, 1), ('"u" >> v', lambda: s >> v, 1), ('v << u', lambda: v << u, 1), ('v << "u"', lambda: v << s, 1),
                          ('"v" << u', lambda: t << u, 1), ('u << v', lambda: u << v, -1), ('"u" << v', lambda: s << v, -1), ('v >> u', lambda: v >> u, -1)):
        r, e2 = attempt(g)
        S.ensure((e is None) == (e2 is None), f'{label}: conversions are defined or refused alike', lambda: (s, t, repr(e), repr(e2)))
        if e is None and e2 is None:
            S.ensure(same(float(r), f ** way), f'{label}: the factor', lambda: (s, t, r, f))
    for bad in (1, 1.0, None, ('m',)):
        for g in (lambda: u >> bad, lambda: bad << u, lambda: bad >> u, lambda: u << bad):
            r, e = attempt(g)
            S.ensure(e is not None, 'there is no conversion to what is not a unit', lambda: (s, bad, r))


def refuse_cases(tier):
    kinds = {}
    for u in U.MECHANICAL + ['A', 'C', 'V', 'Wb', 'T']:
        kinds.setdefault(tuple(sorted(U.BASE[u][1].items())), []).append(u)
    reps = [v for vs in kinds.values() for v in vs]
    return [(u, v) for u in reps for v in reps if U.BASE[u][1] != U.BASE[v][1]]


@contract('C01', 'refused', cases=refuse_cases, functions=FUNCS)
def refused(S, case):
    """Units of different dimension are refused, alone and next to a common factor."""
    u, v = case
    f, e = attempt(conv, u, v)
    S.ensure(e is not None, f'{u} -> {v} is refused', lambda: f)
    f, e = attempt(conv, f'{u} * K^2', f'{v} * K^2')
    S.ensure(e is not None, f'{u} K^2 -> {v} K^2 is refused', lambda: f)
    if u not in ('K', 'mol', 'cd') and v not in ('K', 'mol', 'cd'):
        f, e = attempt(conv, f'{u} / mol', f'{v} / kmol')
        S.ensure(e is not None, f'{u}/mol -> {v}/kmol is refused', lambda: f)
    # (no power of a quotient of different units but itself has its dimension)
    for p, q in ((f'{u} {v}^-1', f'{v} {u}^-1'), (f'{u} {v}^-1', f'{u}^2 {v}^-2'), (f'{u}^2 {v}^-2', f'{v} {u}^-1')):
        f, e = attempt(conv, p, q)
        S.ensure(e is not None, f'{p} -> {q} is refused', lambda: f)
    if any(U.BASE[u][1].values()):
        for p, q in ((u, f'{u}^-1'), (f'{u}^-1', u), (u, f'{u}^2'), (f'{u}^3', f'{u}^2'), (f'{u}^1/2', u), (f'{u}^-1', f'{u}^-3')):
            f, e = attempt(conv, p, q)
            S.ensure(e is not None, f'{p} -> {q} is refused', lambda: f)
