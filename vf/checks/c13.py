"""C13: parsing measurements keeps every number and the right unit."""
import itertools
import math
import numbers

import numpy

from ..core import contract, attempt, need, Skip, Unsupported

Q = 'eprempy.quantity.'
FUN = [Q + 'measure', Q + '_functions.parse', Q + '_functions._recursive_parse', Q + '_functions._wrap_measurable', Q + '_measurement.measurement_factory', Q + '_measurement.measurement_args']

UNITS = ['m', 'm / s', 'kg m^2', 'km', '1', 'J', 'rad', 'nucleon', 'cm^-3']


def say(S, *a):
    return (lambda: a) if not S.symbolic else None


def accept_reals(S):
    """The stand-in for numpy's number-type test on arrays of arbitrary reals."""
    if not S.symbolic:
        return
    mod = need('eprempy.numeric', 'data')
    real = mod.hasdtype

    def hasdtype(x, t):
        flat = list(numpy.array(x, dtype=object).ravel())
        if any(type(i).__name__ in ('SymReal', 'SymInt') for i in flat):
            return all(isinstance(i, numbers.Real) for i in flat)
        return real(x, t)
    S.patch(mod, 'hasdtype', hasdtype)


def same(S, got, want):
    got = list(got)
    return len(got) == len(want) and S.both(*[a == b for a, b in zip(got, want)])


def drawn(S, n):
    return [S.real(f'x{i}', simple=True) for i in range(n)]


# The accepted groupings: name -> (how to build the arguments, number of unit occurrences).
SEQ = {'list': list, 'tuple': tuple}


def group(S, xs, unit, how, typ):
    """The arguments of `measure` that state numbers `xs` and `unit` in the grouping `how`."""
    seq = SEQ[typ]
    u = [] if unit is None else [unit]
    if how == 'arguments':
        return (*xs, *u)
    if how == 'one sequence':
        return (seq([*xs, *u]),)
    if how == 'values and unit':
        return (seq(xs), *u) if u else (seq(xs),)
    if how == 'nested values and unit':
        return (seq([seq(xs), *u]),) if u else (seq([seq(xs)]),)
    if how == 'wrapped':
        return (seq([seq([seq([*xs, *u])])]),)
    if how == 'one by one':
        return tuple(seq([x, *u]) for x in xs) if len(xs) > 1 or u else (seq([xs[0]]),)
    if how == 'list of pairs':
        return (seq([seq([x, *u]) for x in xs]),)
    if how == 'split':
        k = max(1, len(xs) // 2)
        parts = [p for p in (xs[:k], xs[k:]) if p]
        return tuple(seq([*p, *u]) for p in parts)
    if how == 'split values':
        k = max(1, len(xs) // 2)
        parts = [p for p in (xs[:k], xs[k:]) if p]
        return tuple(seq([seq(p), *u]) if u else seq(p) for p in parts)
    if how == 'iterator':
        return (iter([*xs, *u]),)
    raise AssertionError(how)


HOWS = ['arguments', 'one sequence', 'values and unit', 'nested values and unit', 'wrapped', 'one by one', 'list of pairs', 'split', 'split values', 'iterator']


def as_unit(kind, unit):
    if unit is None:
        return None
    return unit if kind == 'text' else need('eprempy.metric', 'unit')(unit)


GROUPINGS = 'one to four numbers (all real values) in each accepted grouping'


@contract('C13', 'parse', sym='shape', rand=(300, 2000), bound=GROUPINGS, functions=FUN[1:4])
def parse(S):
    """Parsing any accepted grouping gives all numbers in order and then the unit, '1' if there is none; distributing pairs each with the unit."""
    n = S.choice('n', [1, 2, 3, 4])
    xs = drawn(S, n)
    how, typ = S.choice('how', HOWS), S.choice('type', sorted(SEQ))
    unit = S.choice('unit', [None, 'm', 'm / s']) if S.symbolic else S.choice('unit', [None] + UNITS)
    kind = S.choice('kind', ['text', 'object'])
    if unit is None and kind == 'object':
        raise Skip
    u = as_unit(kind, unit)
    args = group(S, xs, u, how, typ)
    dist = S.coin('distribute')
    want = '1' if unit is None else str(u)
    r, e = attempt(need('eprempy.quantity', 'parse'), args, distribute=dist)
    S.ensure(e is None, 'an accepted grouping is parsed', say(S, args, e))
    if dist:
        S.ensure(isinstance(r, tuple) and len(r) == n and all(isinstance(i, tuple) and len(i) == 2 for i in r), 'one pair per number', say(S, args, r))
        S.ensure(same(S, [i[0] for i in r], xs), 'each number in order', say(S, args, r))
        S.ensure(all(type(i[1]) is str and i[1] == want for i in r), 'the unit with each number', say(S, args, r))
    else:
        S.ensure(isinstance(r, tuple) and len(r) == n + 1, 'the numbers and the unit', say(S, args, r))
        S.ensure(same(S, r[:-1], xs), 'each number in order', say(S, args, r))
        S.ensure(type(r[-1]) is str and r[-1] == want, 'the unit at the end', say(S, args, r))


def readings(S, m, xs, unit, label):
    """`m` is the measurement of numbers `xs` in `unit`, however it is read."""
    U = need('eprempy.metric', 'unit')
    Measurement = need('eprempy.quantity', 'Measurement')
    S.ensure(isinstance(m, Measurement), f'{label}: a measurement', say(S, m))
    S.ensure(m.unit == U(unit or '1'), f'{label}: the unit given, or unitless', say(S, m, unit))
    S.ensure(len(m) == m.size == len(xs) and same(S, numpy.ravel(m.data), xs), f'{label}: all numbers in order', say(S, m, xs))
    vals = list(m)
    S.ensure(len(vals) == len(xs) and same(S, [v.data for v in vals], xs) and all(v.unit == m.unit for v in vals), f'{label}: iteration gives every value with the unit', say(S, m, xs))
    for i in range(-len(xs), len(xs)):
        S.ensure(S.both(m[i].data == xs[i]) and m[i].unit == m.unit, f'{label}: indexing gives the value', say(S, m, xs, i))
    S.ensure(isinstance(attempt(lambda: m[len(xs)])[1], IndexError), f'{label}: an index beyond the end is refused', say(S, m))
    if len(xs) > 1:
        part = m[1:]
        S.ensure(same(S, numpy.ravel(part.data), xs[1:]) and part.unit == m.unit, f'{label}: a slice', say(S, m))
    S.ensure(same(S, numpy.asarray(m), xs), f'{label}: as an array', say(S, m))


@contract('C13', 'measure', sym='shape', rand=(400, 2500), bound=GROUPINGS, functions=FUN, trusted=['the test for number types of arrays is replaced in symbolic runs'])
def measure(S):
    """Measuring any accepted grouping keeps all numbers in order and the unit; reading back and measuring again change nothing."""
    accept_reals(S)
    n = S.choice('n', [1, 2, 3] if S.symbolic else [1, 2, 3, 5])
    xs = drawn(S, n)
    how, typ = S.choice('how', HOWS), S.choice('type', ['list'] if S.symbolic else sorted(SEQ))
    unit = S.choice('unit', [None, 'm / s']) if S.symbolic else S.choice('unit', [None] + UNITS)
    u = as_unit(S.choice('kind', ['text'] if S.symbolic else ['text', 'object']), unit)
    args = group(S, xs, u, how, typ)
    q = need('eprempy', 'quantity')
    m, e = attempt(q.measure, *args)
    S.ensure(e is None, 'an accepted grouping is measured', say(S, args, e))
    readings(S, m, xs, unit, 'measurement')
    again = q.measure(m)
    readings(S, again, xs, unit, 'measured again')
    if not S.symbolic:
        for other in (q.measurement(m), need('eprempy', 'measured').sequence(m)):
            S.ensure(numpy.array_equal(numpy.ravel(other.data), xs) and other.unit == m.unit, 'created from the measurement', say(S, m, other))
        if n == 1:
            S.ensure(float(m) == xs[0] and int(m) == int(xs[0]) and complex(m) == complex(xs[0]), 'as a built-in number', say(S, m))
            S.ensure(need('eprempy', 'measured').value(m).data == xs[0], 'as a value', say(S, m))
        else:
            S.ensure(all(isinstance(attempt(t, m)[1], TypeError) for t in (float, int, complex)), 'several numbers are not one', say(S, m))
        data = q.getdata(group(S, xs, u, how, typ)[0] if how in ('one sequence', 'nested values and unit', 'wrapped') else m)
        S.ensure(numpy.array_equal(numpy.ravel(data), xs) and q.hasdata(m), 'the data are the numbers', say(S, args, data))


@contract('C13', 'existing quantities', sym='shape', rand=(200, 1500), bound='one to three numbers (all real values)', functions=FUN + ['eprempy.measured._factories.' + f for f in ('value_factory', 'sequence_factory', 'value_args', 'sequence_args')], trusted=['the test for number types of arrays is replaced in symbolic runs'])
def existing(S):
    """Measuring an existing quantity keeps its numbers and unit; a further argument with it is refused."""
    accept_reals(S)
    measured, q, p = need('eprempy', 'measured'), need('eprempy', 'quantity'), need('eprempy', 'physical')
    kind = S.choice('kind', ['value', 'sequence'] if S.symbolic else ['value', 'sequence', 'scalar', 'vector', 'tensor', 'array', 'coordinates', 'measurement', 'measurable'])
    n = 1 if kind in ('value', 'scalar') else S.choice('n', [1, 2, 3])
    xs = drawn(S, n)
    unit = S.choice('unit', [None, 'm / s']) if S.symbolic else S.choice('unit', [None] + UNITS)
    kw = {} if unit is None else {'unit': unit}
    arr = numpy.array(xs, dtype=object) if S.symbolic else xs
    if kind == 'value':
        x = measured.value(xs[0], **kw)
    elif kind == 'sequence':
        x = measured.sequence(arr, **kw)
    elif kind == 'measurement':
        x = q.measurement(xs, **kw)
    elif kind == 'scalar':
        x = p.scalar(xs[0], **kw)
    elif kind == 'vector':
        x = p.vector(xs, **kw)
    elif kind == 'tensor':
        x = p.tensor(xs, **kw)
    elif kind == 'array':
        x = p.array(xs, **kw)
    elif kind == 'coordinates':
        x = p.coordinates(measured.sequence(xs, **kw))
    else:
        class Own:
            def __measure__(self):
                return q.measurement(xs, **kw)
        x = Own()
    before = repr(x) if not S.symbolic and kind != 'measurable' else None
    m = q.measure(x)
    readings(S, m, xs, unit, kind)
    if before is not None:
        S.ensure(repr(x) == before, 'the quantity is unchanged')
    extra = S.choice('extra', ['cm', 's', 1.5] if S.symbolic else ['cm', 's', 1.5, x, [2, 'm'], None])
    r, e = attempt(q.measure, x, extra)
    S.ensure(e is not None, 'a further argument is refused rather than ignored', say(S, x, extra, r))


KINDS = {'value': 'measured', 'sequence': 'measured', 'scalar': 'physical', 'vector': 'physical', 'tensor': 'physical', 'array': 'physical'}


def source(S, kind, xs, kw):
    """The quantity of the given kind with the numbers `xs`."""
    measured, q, p = need('eprempy', 'measured'), need('eprempy', 'quantity'), need('eprempy', 'physical')
    arr = numpy.array(xs, dtype=object) if S.symbolic else numpy.array(xs)
    if kind in ('value', 'scalar'):
        return (measured.value if kind == 'value' else p.scalar)(xs[0], **kw)
    if kind == 'measurement':
        return q.measurement(xs, **kw)
    if kind == 'coordinates':
        return p.coordinates(measured.sequence(xs, **kw))
    if kind == 'grid':
        return p.tensor(arr.reshape(1, -1), **kw)
    if kind == 'grid array':
        return p.array(arr.reshape(-1, 1), **kw)
    return getattr(need('eprempy', KINDS[kind]), kind)(arr, **kw)


@contract('C13', 'conversions', sym='shape', rand=(400, 3000), bound='one to three numbers (all real values), every pair of kinds', functions=['eprempy.physical._object_factories.' + f for f in ('scalar_factory', 'scalar_args', 'vector_factory', 'vector_args', 'tensor_factory', 'tensor_args', 'array_factory', 'array_args', 'array_data')] + ['eprempy.measured._factories.' + f for f in ('value_factory', 'sequence_factory', 'value_args', 'sequence_args')], trusted=['the test for number types of arrays is replaced in symbolic runs'])
def conversions(S):
    """A quantity of one kind made from a quantity of another keeps the numbers, their order and the unit; a unit given with it is refused."""
    accept_reals(S)
    kinds = ['value', 'sequence', 'scalar', 'vector', 'tensor'] if S.symbolic else ['value', 'sequence', 'scalar', 'vector', 'tensor', 'array', 'measurement', 'coordinates', 'grid', 'grid array']
    kind = S.choice('from', kinds)
    to = S.choice('to', ['scalar', 'vector', 'tensor', 'sequence'] if S.symbolic else ['scalar', 'vector', 'tensor', 'array', 'sequence', 'value'])
    n = 1 if kind in ('value', 'scalar') else S.choice('n', [1, 2, 3])
    xs = drawn(S, n)
    unit = S.choice('unit', [None, 'm / s']) if S.symbolic else S.choice('unit', [None] + UNITS)
    kw = {} if unit is None else {'unit': unit}
    x = source(S, kind, xs, kw)
    make = getattr(need('eprempy', KINDS[to]), to)
    before = None if S.symbolic else repr(x)
    if to == 'sequence' and kind == 'coordinates' or to == 'value' and kind not in ('value', 'sequence', 'measurement'):
        raise Skip('not offered')
    r, e = attempt(make, x)
    if n > 1 and to in ('scalar', 'value') or kind in ('grid', 'grid array') and to == 'vector':
        S.ensure(isinstance(e, TypeError), 'what does not fit is refused', say(S, kind, to, xs, r))
        return
    if kind in ('grid', 'grid array') and to == 'scalar' and isinstance(e, TypeError):
        return
    S.ensure(e is None, 'a quantity can be made from a quantity', say(S, kind, to, xs, e))
    if e is not None:
        return
    S.ensure(type(r).__name__.lower() == to, 'of the kind asked for', say(S, kind, to, r))
    S.ensure(r.unit == need('eprempy.metric', 'unit')(unit or '1'), 'with the same unit', say(S, kind, to, x, r))
    data = r.data if to != 'array' else r.data.array
    got = [data] if to in ('scalar', 'value') else list(numpy.asarray(data, dtype=object if S.symbolic else None).ravel())
    S.ensure(len(got) == len(xs), 'as many numbers', say(S, kind, to, xs, got))
    S.ensure(S.alleq(got, xs), 'the same numbers in the same order', say(S, kind, to, xs, got))
    if not S.symbolic:
        if to in ('tensor', 'array') and kind in ('grid', 'grid array'):
            S.ensure(tuple(r.shape) == tuple(x.shape), 'the same shape', say(S, kind, to, x, r))
        S.ensure(repr(x) == before, 'the original is unchanged')
        y, e = attempt(make, x, unit=S.choice('other', UNITS))
        if kind != 'coordinates':
            S.ensure(isinstance(e, ValueError), 'a unit for a quantity that has one is refused', say(S, kind, to, x, y))


BAD = [
    ('different units', lambda xs, u, v: ([xs[0], u], [xs[1], v])),
    ('different units, nested', lambda xs, u, v: ([[xs[0], u], [xs[1], v]],)),
    ('one of three units different', lambda xs, u, v: ([xs[0], u], [xs[1], u], [xs[0], v])),
    ('the first of three units different', lambda xs, u, v: ([[xs[0], v], [xs[1], u], [xs[0], xs[1], u]],)),
    ('different units in pairs', lambda xs, u, v: ([(xs[0], u), (xs[1], xs[0], v)],)),
    ('a unit on some numbers only', lambda xs, u, v: ([xs[0], u], [xs[1]])),
    ('a unit on the first only', lambda xs, u, v: ([(xs[0], u), (xs[1],)],)),
    ('two units at the end', lambda xs, u, v: (*xs, u, v)),
    ('the unit twice', lambda xs, u, v: (*xs, u, u)),
    ('units in between', lambda xs, u, v: (xs[0], u, xs[1], v)),
    ('the same unit in between', lambda xs, u, v: (xs[0], u, xs[1], u)),
    ('values and two units', lambda xs, u, v: (xs, u, v)),
    ('an inner and an outer unit', lambda xs, u, v: ([*xs, u], v)),
    ('an inner and an outer unit, nested', lambda xs, u, v: ([[*xs, u], v],)),
    ('the unit first', lambda xs, u, v: (u, *xs)),
    ('the unit in the middle', lambda xs, u, v: (xs[0], u, xs[1])),
    ('a list among numbers', lambda xs, u, v: (xs[0], [xs[1], u])),
    ('a number after the values', lambda xs, u, v: (xs, xs[0], u)),
    ('two lists and a unit', lambda xs, u, v: (xs, xs, u)),
    ('two lists and a unit, nested', lambda xs, u, v: ([tuple(xs), tuple(xs), u],)),
    ('only a unit', lambda xs, u, v: (u,)),
    ('only units', lambda xs, u, v: (u, v)),
    ('nothing', lambda xs, u, v: ()),
    ('no numbers', lambda xs, u, v: ([],)),
    ('an empty group', lambda xs, u, v: ([*xs, u], [])),
    ('None', lambda xs, u, v: (None,)),
    ('None among numbers', lambda xs, u, v: (xs[0], None, u)),
    ('an object', lambda xs, u, v: (xs[0], object(), u)),
    ('a complex number', lambda xs, u, v: (xs[0], 1j)),
    ('a slice', lambda xs, u, v: (slice(1),)),
    ('words', lambda xs, u, v: ('one', 'two', u)),
    ('a word among numbers', lambda xs, u, v: (xs[0], 'two words', u)),
    ('a dictionary among numbers', lambda xs, u, v: (xs[0], {1: 2}, u)),
]


@contract('C13', 'refused', sym='shape', cases=None, rand=(300, 2000), bound='the listed kinds of ill-formed arguments with two numbers (all real values)', functions=FUN)
def refused(S):
    """Arguments with repeated, partial or different units, misplaced units, or non-numbers are refused by measuring and parsing, with or without distributing."""
    accept_reals(S)
    xs = drawn(S, 2)
    name, make = S.choice('kind', BAD)
    typ = S.choice('type', ['text', 'object', 'mixed'])
    u, v = S.choice('units', [('m', 's'), ('m / s', 'km')]) if S.symbolic else S.choice('units', [(a, b) for a in UNITS for b in UNITS if a != b and '1' not in (a, b)])
    if typ != 'text':
        u = as_unit('object', u)
    if typ == 'object':
        v = as_unit('object', v)
    q = need('eprempy', 'quantity')
    args = make(xs, u, v)
    r, e = attempt(q.measure, *args)
    S.ensure(e is not None, f'measuring refuses: {name}', say(S, args, r))
    if name in ('nothing', 'a complex number', 'the unit in the middle') or 'inner and an outer unit' in name:
        return
    for dist in (False, True):
        r, e = attempt(q.parse, make(xs, u, v), distribute=dist)
        S.ensure(e is not None, f'parsing refuses: {name}', say(S, args, dist, r))


@contract('C13', 'texts', rand=(300, 2000), bound='one to four numbers as texts', functions=FUN)
def texts(S):
    """Numbers given as texts are the numbers they spell, with the unit that follows them."""
    n = S.choice('n', [1, 2, 3, 4])
    xs = [S.choice('x', [0.0, 1.0, -2.5, 3e-7, 1e22, 12.0, float('inf')]) for _ in range(n)]
    ts = [S.choice('form', [repr, str, lambda v: f' {v!r} ', lambda v: f'{v:+}'])(x) for x in xs]
    unit = S.choice('unit', [None] + [u for u in UNITS if u != '1'])
    if n == 1 and unit is None:
        args = S.choice('how', [(ts[0],), ([ts[0]],)])
    else:
        args = group(S, ts, unit, S.choice('how', ['arguments', 'one sequence', 'wrapped']), 'list')
    q = need('eprempy', 'quantity')
    readings(S, q.measure(*args), xs, unit, 'texts')
    pairs = q.parse(args, distribute=True)
    S.ensure(list(pairs) == [(x, unit or '1') for x in xs], 'distributed', lambda: (args, pairs))


@contract('C13', 'numbers', rand=(300, 2000), bound='random numbers of every real type of Python and numpy', functions=FUN)
def number_types(S):
    """Integers, floats and numpy numbers of any width, and one-dimensional numpy arrays and ranges, keep their values; nothing is shared with the input."""
    n = S.choice('n', [1, 2, 3])
    types = [int, float, numpy.int64, numpy.int16, numpy.uint8, numpy.float64, numpy.float32]
    xs = [S.choice('type', types)(S.int('x', 0, 100)) for _ in range(n)]
    unit = S.choice('unit', [None] + UNITS)
    q = need('eprempy', 'quantity')
    how = S.choice('how', ['mixed', 'array', 'range', 'sequence array', 'measurement'])
    if how == 'mixed':
        readings(S, q.measure(*group(S, xs, unit, S.choice('group', HOWS), 'list')), [float(x) for x in xs], unit, 'mixed types')
    elif how == 'array':
        a = numpy.array([float(x) for x in xs]).astype(S.choice('dtype', ['f8', 'f4', 'i8', 'i2', 'u1']))
        want = a.tolist()
        m = q.measure(a)
        readings(S, m, want, None, 'array')
        a[0] = 77
        readings(S, m, want, None, 'array, changed later')
    elif how == 'range':
        r = range(int(xs[0]), int(xs[0]) + n)
        readings(S, q.measure(*((r, unit) if unit else (r,))), list(r), unit, 'range')
    elif how == 'sequence array':
        a = numpy.array([float(x) for x in xs])
        s = need('eprempy', 'measured').sequence(a, unit=unit)
        m = q.measure(s)
        a[0] = 77
        readings(S, m, [float(x) for x in xs], unit, 'sequence')
    else:
        a = numpy.array([float(x) for x in xs])
        m = q.measurement(a, unit=unit) if unit else q.measurement(a)
        a[0] = 77
        readings(S, m, [float(x) for x in xs], unit, 'measurement')
        S.ensure(attempt(q.measurement, S.choice('bad', ['1', None, ['a', 1], [1j], object(), [None]]))[1] is not None, 'a measurement of non-numbers is refused')


@contract('C13', 'membership', sym='shape', rand=(200, 1500), bound='one to three numbers (all real values)', functions=['eprempy.base.mixins.Sequence.__contains__', 'eprempy.base.mixins.Sequence.__iter__', 'eprempy.measured._sequence.Sequence.__getitem__'], trusted=['the test for number types of arrays is replaced in symbolic runs'])
def membership(S):
    """A value is a member of a measurement exactly if one of its numbers and its unit are those of the value; iteration gives the values in order."""
    accept_reals(S)
    measured, q = need('eprempy', 'measured'), need('eprempy', 'quantity')
    n = S.choice('n', [1, 2, 3])
    xs = drawn(S, n)
    unit = S.choice('unit', ['m / s'] if S.symbolic else UNITS)
    m = q.measure([*xs, unit]) if S.coin('measured') else measured.sequence(numpy.array(xs, dtype=object) if S.symbolic else xs, unit=unit)
    x = S.real('x', simple=True) if S.symbolic or S.coin('other') else S.choice('member', xs)
    got = measured.value(x, unit=unit) in m
    want = S.either(*[x == y for y in xs])
    S.ensure(S.both(S.implies(got, want), S.implies(want, got)), 'a member exactly if its number is there', say(S, m, x, got))
    S.ensure((measured.value(x, unit='kg^5') in m) is False, 'no member has another unit', say(S, m, x))
    items = list(m)
    S.ensure(len(items) == n and S.both(*[float(i) == y if not S.symbolic else i.data == y for i, y in zip(items, xs)]), 'iteration gives the numbers in order', say(S, m, xs))
    S.ensure(all(i.unit == m.unit for i in items), 'iteration keeps the unit', say(S, m, xs))
