"""C09: looking up a point on an axis returns the index of that point."""
import itertools

import math

import numpy

from .. import units as U
from ..core import contract, attempt, need, Skip, Unsupported
from .c05 import Scales

AXIS = 'eprempy.physical._axis.'
COORDS = [AXIS + 'Coordinates.index', AXIS + 'Coordinates._compute_index', AXIS + 'Coordinates._measure',
          'eprempy.numeric._data.isclose', 'eprempy.container.nearest']
RTOL = 1e-5


class NumpyShim:
    """numpy whose closeness test (documented as |a - b| <= atol + rtol*|b|) accepts symbolic numbers."""

    def __getattr__(self, name):
        return getattr(numpy, name)

    @staticmethod
    def isclose(a, b, rtol=RTOL, atol=1e-8, **kw):
        b = numpy.asarray(b)
        if b.dtype != object:
            return numpy.isclose(a, b, rtol=rtol, atol=atol, **kw)
        return numpy.array([bool(abs(a - x) <= atol + rtol * abs(x)) for x in b.ravel()]).reshape(b.shape)


def shim(S):
    if S.symbolic:
        need('eprempy.numeric._data', 'numpy')
        import eprempy.numeric._data as data
        S.patch(data, 'numpy', NumpyShim())


def ints(r):
    """The integers of an index value or sequence."""
    d = getattr(r, 'data', r)
    return [int(i) for i in d.ravel()] if isinstance(d, numpy.ndarray) else [int(d)]


def objects(xs):
    a = numpy.empty(len(xs), dtype=object)
    a[:] = xs
    return a


@contract('C09', 'points', sym='shape', rand=(300, 3000), max_paths=(4000, 20000), bound='1-4 distinct points, 1-2 targets; all integers',
          functions=[AXIS + 'Points.index'])
def points(S):
    """An integer point is found at the position that holds it, and refused when no position does."""
    Points = need('eprempy.physical._axis', 'Points')
    n, k = S.choice('n', [1, 2, 3, 4]), S.choice('k', [1, 2])
    ps = [S.int(f'p{i}', lo=0) for i in range(n)]
    for a, b in itertools.combinations(ps, 2):
        S.assume(a != b)
    ts = [S.int(f't{i}') for i in range(k)] if S.symbolic else [S.choice(f't{i}', ps + [max(ps) + 1, 10**6]) for i in range(k)]
    axis = Points(objects(ps) if S.symbolic else numpy.array(ps))
    grouped = S.coin('in a list')
    r, e = attempt(lambda: axis.index(list(ts)) if grouped else axis.index(*ts))
    held = [S.either(*[p == t for p in ps]) for t in ts]
    if e is not None:
        S.ensure(S.either(*[~h if S.symbolic else not h for h in held]), 'only points that are not there are refused', (lambda: (ps, ts, repr(e))) if not S.symbolic else None)
        return
    got = ints(r)
    S.ensure(len(got) == k, 'one index per target', (lambda: got) if not S.symbolic else None)
    for i, t in zip(got, ts):
        S.ensure(0 <= i < n and ps[i] == t, 'the index at which the axis holds the point', (lambda: (ps, ts, got)) if not S.symbolic else None)


def close_to(S, x, t, RTOL=RTOL):
    d, m = x - t, x if S.symbolic else abs(x)
    if S.symbolic:
        m, d = abs(x), abs(d)
        return d <= RTOL * m
    return abs(d) <= RTOL * m


@contract('C09', 'coordinates', sym='shape', rand=(600, 5000), max_paths=(20000, 60000), sym_time=(60, 300),
          bound='1-3 coordinates, 1-2 targets; all real values and unit scales', functions=COORDS)
def coordinates(S):
    """A coordinate in any compatible unit is found where the axis holds it, resolved to the closest permitted value, or refused."""
    from eprempy import physical, measured
    shim(S)
    sc = Scales(S)
    n, k = S.choice('n', [1, 2, 3]), S.choice('k', [1, 2] if not S.symbolic else [1])
    xs = [S.real(f'x{i}', simple=True) for i in range(n)]
    u, v = S.choice('units', [('m', 'm'), ('m', 'km'), ('km', 'cm'), ('au', 'm'), ('m', None)])
    f = 1 if v is None else sc.factor(v, u)
    if S.symbolic:
        ts = [S.real(f't{i}', simple=True) for i in range(k)]
    else:
        ts = [S.choice(f't{i}', xs + [x + d for x in xs for d in (-0.25, 0.25)] + [1e3, -1e3]) / f for i in range(k)]
    closest = S.choice('closest', [None, 'lower', 'upper'])
    axis = physical.coordinates(measured.sequence(objects(xs) if S.symbolic else xs, unit=u))
    form = S.choice('form', ['flat', 'list', 'measured'])
    if form == 'measured':
        q = measured.sequence(objects(ts) if S.symbolic else ts, unit=v or u)
        call = lambda: axis.index(q, closest=closest)
    elif v is None:
        call = (lambda: axis.index(*ts, closest=closest)) if form == 'flat' else lambda: axis.index(ts, closest=closest)
    else:
        call = (lambda: axis.index(*ts, v, closest=closest)) if form == 'flat' else lambda: axis.index(ts, v, closest=closest)
    r, e = attempt(call)
    want = [f * t for t in ts]
    exact = [S.either(*[S.eq(x, w) if not S.symbolic else x == w for x in xs]) for w in want]
    near = [S.either(*[close_to(S, x, w) for x in xs]) for w in want]
    show = (lambda: (xs, u, ts, v, closest, repr(r), repr(e))) if not S.symbolic else None
    label = f'{closest or "exact"} lookup'
    if e is not None:
        S.ensure(closest is None, f'{label}: resolves to some value', show)
        S.ensure(S.either(*[~c if S.symbolic else not c for c in exact]), f'{label}: a held value is not refused', show)
        return
    got = ints(r)
    S.ensure(len(got) == k and all(0 <= i < n for i in got), f'{label}: one index per target', show)
    for i, w, here, close in zip(got, want, exact, near):
        g = xs[i]
        if closest is None:
            S.ensure(close_to(S, g, w, 1.001 * RTOL), f'{label}: the axis holds the value there', show)
            S.ensure(S.implies(here, S.eq(g, w)), f'{label}: the very value when it is there', show)
            continue
        S.ensure(S.implies(here, S.eq(g, w)), f'{label}: the very value when it is there', show)
        for x in xs:
            if closest == 'lower':
                ok = S.implies(x <= w, S.both(g <= w, x <= g))
            else:
                ok = S.implies(x >= w, S.both(g >= w, x >= g))
            S.ensure(S.either(close, ok), f'{label}: the closest value on that side', show)
    got = list(axis.data.data)
    S.ensure(len(got) == n and S.both(*[a == b for a, b in zip(got, xs)]) and str(axis.unit) == u, 'the axis is left as it was')
    if v and v != u:
        sc.used()


VALUES = [0.0, 1e-9, 0.1, 0.25, 1.0, 1.1, 2.0, 3.3, 7.0, 8.9, 1e3, 2.5e7, -0.7, -4.4]
FAMILIES = [['m', 'km', 'cm', 'au', 'mm'], ['s', 'day', 'hour', 'ms', 'min'], ['eV', 'MeV', 'keV', 'J', 'erg'], ['1'], ['rad', 'deg'], ['km / s', 'm / s', 'cm / s']]
ANGLES = {('rad', 'deg'): 180 / math.pi, ('deg', 'rad'): math.pi / 180}
WRONG = {0: 's', 1: 'm', 2: 'kg', 3: 'm', 4: 'm', 5: 'm'}


@contract('C09', 'lookup-and-subscript', rand=(900, 9000), bound='sampled axes of up to 6 values in 20 units',
          functions=COORDS + [AXIS + 'Axis.__getitem__', AXIS + 'Symbols.index', AXIS + 'Points.index', AXIS + 'Symbols.__getitem__'])
def lookup(S):
    """Looking references up in real units and subscripting with the indices gives the references back."""
    from eprempy import physical, measured, quantity
    kind = S.choice('kind', ['points', 'symbols', 'coordinates', 'coordinates', 'coordinates'])
    n, k = S.choice('n', [1, 2, 3, 6]), S.choice('k', [1, 1, 2, 3])
    pick = [S.choice(f'i{j}', range(n)) for j in range(k)]
    f, v = 1.0, None
    if kind == 'points':
        data = S.shuffled('points', [0, 1, 2, 4, 7, 9, 30])[:n]
        axis = physical.points(S.choice('as', [list, tuple, numpy.array])(data))
        target = [data[i] for i in pick]
        bad = [(3,), (target[0], 3), (-1,), (100,)]
    elif kind == 'symbols':
        data = S.shuffled('symbols', ['H+', 'He++', 'C', 'o6', 'z z', ''])[:n]
        axis = physical.symbols(data)
        target = [data[i] for i in pick]
        bad = [('X',), (target[0], 'X'), ('h+',)] + [(x,) for x in (1, None)]
    else:
        fam = S.choice('family', range(len(FAMILIES)))
        u, v = S.choice('u', FAMILIES[fam]), S.choice('v', FAMILIES[fam])
        data = [float(x) for x in S.shuffled('values', VALUES)[:n]]
        if S.coin('sorted'):
            data.sort()
        axis = physical.coordinates(measured.sequence(data, unit=u))
        f = ANGLES.get((u, v)) or U.factor(_unit(u), _unit(v))
        if f is None:
            raise Skip
        target = [data[i] * f for i in pick]
        other = min(abs(a - b) for a in data + [1e9] for b in data + [1e9] if a != b)
        miss = S.choice('between', data) * f + 0.45 * other * f
        if any(abs(x * f - miss) <= 3 * RTOL * abs(x * f) for x in data):
            raise Skip
        bad = [(miss, v), (target[0], miss, v), (target[0], WRONG[fam]), (target[0], 'gibberish'), ('a',)]
    if kind == 'coordinates':
        forms = {'flat': (*target, v), 'list': (list(target), v), 'tuple': (tuple(target), v), 'measured sequence': (measured.sequence(target, unit=v),),
                 'measurement': (quantity.measurement(target, unit=v),), 'pair': ((list(target), v),), 'unit object': (*target, _unit(v))}
        if k == 1:
            forms['measured value'] = (measured.value(target[0], unit=v),)
        if v == u:
            forms['bare'] = tuple(target)
        for w in ['1'] * (u == v and f == 1.0):
            forms |= {'measurement without unit': (quantity.measurement(target, unit=w),), 'sequence without unit': (measured.sequence(target, unit=w),),
                      'measure without unit': (quantity.measure(*target),)}
    elif kind == 'points':
        forms = {'flat': tuple(target), 'list': (list(target),), 'array': (numpy.array(target),)}
    else:
        forms = {'flat': tuple(target)}
    form = S.choice('form', list(forms))
    show = lambda: (data, forms[form])
    r, e = attempt(axis.index, *forms[form])
    S.ensure(e is None, f'{kind}: looking up held values ({form})', lambda: (repr(e), show()))
    S.ensure(ints(r) == pick, f'{kind}: the index of each value ({form})', lambda: (ints(r), pick, show()))
    sub = axis[r] if S.coin('direct') else axis[ints(r)] if k > 1 else axis[ints(r)[0]]
    S.ensure(type(sub) is type(axis), 'subscripting keeps the kind of axis')
    S.ensure(plain(sub) == [data[i] for i in pick] and len(sub) == k, f'{kind}: subscripting with the indices gives the references back', lambda: (plain(sub), show()))
    S.ensure(ints(sub.indices) == pick or [list(range(n))[i] for i in ints(sub.indices)] == pick, f'{kind}: the subscripted axis knows the indices', lambda: ints(sub.indices))
    if kind == 'coordinates':
        S.ensure(str(sub.unit) == str(_unit(u)), 'subscripting keeps the unit')
        S.ensure(ints(axis.withunit(v).index(*target)) == pick, 'the same indices on the converted axis')
        c = S.choice('closest', ['lower', 'upper'])
        w, below = miss / f, [x for x in data if x <= miss / f]
        above = [x for x in data if x >= w]
        if (below if c == 'lower' else above):
            i = ints(axis.index(miss, v, closest=c))[0]
            S.ensure(data[i] == (max(below) if c == 'lower' else min(above)), f'closest={c!r} resolves to that side', lambda: (data, w, i))
    for b in bad:
        r, e = attempt(axis.index, *b)
        S.ensure(e is not None, f'{kind}: {b} is refused', lambda: (data, repr(r)))
    if kind != 'points' or data == list(range(n)):
        S.ensure(ints(axis.index()) == list(range(n)), 'no target: every index')
    S.ensure(plain(axis) == list(data), 'the axis is left as it was')


def _unit(u):
    from eprempy import metric
    return metric.unit(u)


def plain(axis):
    d = axis.data
    d = getattr(d, 'data', d) if not isinstance(d, (list, numpy.ndarray)) else d
    return [x.item() if hasattr(x, 'item') else x for x in d]


def subscripts():
    out = [-2, -1, 0, 1, slice(None)]
    out += [slice(a, b, c) for a in (None, 0, 1, -2) for b in (None, 1, 3, -1) for c in (None, 1, 2, -1) if (a, b, c) != (None, None, None)]
    out += [[0], [1, 0], [0, 0, 1], [-1, 0]]
    return out


@contract('C09', 'subscript', cases=lambda tier: [(k, n, s) for k in ('points', 'symbols', 'coordinates') for n in (2, 3, 4) for s in subscripts()],
          bound='axes of 2-4 values, 57 subscripts', functions=[AXIS + 'Axis.__getitem__', AXIS + 'Axis.normalize', AXIS + 'Symbols.__getitem__', AXIS + 'Axis.indices'])
def subscript(S, case):
    """A subscripted axis holds the selected references, at the indices it reports."""
    from eprempy import physical, measured
    kind, n, s = case
    data = {'points': list(range(n)), 'symbols': list('abcd')[:n], 'coordinates': [5.0, 6.5, 8.0, 11.0][:n]}[kind]
    axis = {'points': physical.points, 'symbols': physical.symbols, 'coordinates': lambda d: physical.coordinates(measured.sequence(d, unit='s'))}[kind](data)
    a = numpy.array(data, dtype=object)
    want = numpy.atleast_1d(a[s]).tolist()
    if not want:
        return
    sub, e = attempt(lambda: axis[s])
    S.ensure(e is None, f'{kind}[{s}]', lambda: repr(e))
    S.ensure(plain(sub) == want and sub.length == len(sub) == len(want), f'{kind}[{s}] holds the selected references', lambda: (plain(sub), want))
    S.ensure(numpy.atleast_1d(a[ints(sub.indices)]).tolist() == want, f'{kind}[{s}] reports the indices it took', lambda: ints(sub.indices))
    for i, x in enumerate(want):
        t = (x, 's') if kind == 'coordinates' else (x,)
        j = ints(sub.index(*t))[0]
        S.ensure(plain(sub)[j] == x, f'{kind}[{s}]: looking up in the subscripted axis', lambda: (j, x))
