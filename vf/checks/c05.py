"""C05: changing units preserves the physical value through any history."""
import itertools

import numpy

from .. import units as U
from ..core import contract, attempt, need, Skip, Unsupported
from ..phys import build, nums, flat, kind_of, KINDS, nest, points
from .c04 import same_unit

FUNCS = ['eprempy.measured._object.Object.withunit', 'eprempy.measured._context.Context.convert',
         'eprempy.measured._convert.singular', 'eprempy.measured._convert.arraylike',
         'eprempy.physical._array.converter', 'eprempy.physical._array.Array.data',
         'eprempy.physical._array.Array.__getitem__', 'eprempy.physical._array.Array.transpose',
         'eprempy.physical._object_factories', 'eprempy.physical._operations',
         'eprempy.physical._axis.Coordinates.withunit']
OTHERS = ('value', 'sequence', 'measurement', 'coordinates')
SHAPES = {'scalar': [()], 'value': [()], 'vector': [(1,), (2,)], 'sequence': [(1,), (2,)], 'measurement': [(1,), (2,)],
          'coordinates': [(1,), (2,)], 'tensor': [(2,), (2, 2)], 'array': [(1,), (2,), (2, 2)]}
LENGTHS = ['m', 'km', 'cm', 'au']


def make(kind, xs, shape, unit):
    from eprempy import measured, physical, quantity
    if kind in KINDS:
        return build(kind, xs, shape, unit)
    if kind == 'value':
        return measured.value(xs[0], unit=unit)
    if kind == 'sequence':
        return measured.sequence(list(xs), unit=unit)
    if kind == 'measurement':
        return quantity.measurement(list(xs), unit=unit)
    return physical.coordinates(measured.sequence(list(xs), unit=unit))


def numbers(x):
    if hasattr(x, 'data') and hasattr(x.data, 'data') and hasattr(x.data, 'unit'):
        x = x.data
    return flat(x)


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Scales:
    """metric.conversion under its contract (C01): the factor is the ratio of the two units' scales."""

    def __init__(self, S):
        from eprempy import metric
        import eprempy.measured._context as ctx
        self.S, self.hits = S, 0
        if S.symbolic:
            self.scale = {}
            Conversion = metric.Conversion
            if getattr(ctx, 'metric', None) is not metric:
                raise Unsupported('measured._context does not convert through metric')

            def stub(u, v):
                self.hits += 1
                return Conversion(metric.unit(u), metric.unit(v), self.factor(str(metric.unit(u)), str(metric.unit(v))))
            S.patch(metric, 'conversion', stub)

    def of(self, u):
        if u not in self.scale:
            self.scale[u] = self.S.real('scale of ' + u, positive=True)
        return self.scale[u]

    def factor(self, u, v):
        if not self.S.symbolic:
            return U.factor(_unit(u), _unit(v))
        return 1 if u == v else self.of(u) / self.of(v)

    def used(self):
        if self.S.symbolic and not self.hits:
            raise Unsupported('the conversion was not requested from metric.conversion')


def _unit(u):
    from eprempy import metric
    return metric.unit(u)


def check(S, x, xs, u, label):
    S.ensure(str(x.unit) == str(_unit(u)), f'{label}: the unit is the one asked for',
             (lambda: (str(x.unit), u)) if not S.symbolic else None)
    got = numbers(x)
    S.ensure(len(got) == len(xs), f'{label}: as many numbers as before')
    S.ensure(S.both(*[S.eq(a, b) for a, b in zip(got, xs)]), f'{label}: the numbers are the originals times the factor',
             (lambda: (got, xs)) if not S.symbolic else None)


def chain(S, kind):
    """u -> v -> w, u -> w and back to u."""
    shape = S.choice('shape', SHAPES[kind])
    sc = Scales(S)
    xs = [S.real(f'x{i}', simple=True) for i in range(size(shape))]
    u, v, w = LENGTHS[:3] if S.symbolic else [S.choice(n, LENGTHS) for n in 'uvw']
    read = S.coin('read first')
    x = make(kind, xs, shape, u)
    if read:
        numbers(x)
    y = x.withunit(v)
    check(S, y, [sc.factor(u, v) * a for a in xs], v, f'{kind} {u} -> {v}')
    S.ensure(type(y) is type(x), 'the conversion keeps the kind of quantity')
    z = y.withunit(w)
    direct = x.withunit(w)
    check(S, z, [sc.factor(u, w) * a for a in xs], w, f'{kind} {u} -> {v} -> {w}')
    check(S, direct, [sc.factor(u, w) * a for a in xs], w, f'{kind} {u} -> {w}')
    check(S, z.withunit(u), xs, u, f'{kind} {u} -> {v} -> {w} -> {u}')
    check(S, x, xs, u, f'the original {kind}')
    check(S, y, [sc.factor(u, v) * a for a in xs], v, f'the first result')
    check(S, x.withunit(u), xs, u, f'{kind} {u} -> {u}')
    if kind == 'array':
        S.ensure(tuple(z.dimensions) == tuple(x.dimensions) and tuple(z.shape) == tuple(x.shape), 'the shape is kept')
    sc.used()


@contract('C05', 'single-chain', sym='proof', rand=(200, 2000), functions=FUNCS[:4] + ['eprempy.physical._object_factories.scalar_factory'])
def single_chain(S):
    """For every real number and every positive scale of the units: scalars and values convert by the factor alone, through any chain."""
    chain(S, S.choice('kind', ['scalar', 'value']))


@contract('C05', 'many-chain', sym='shape', rand=(300, 3000), bound='1-2 elements per dimension, up to 2 dimensions; all real elements and scales',
          functions=FUNCS)
def many_chain(S):
    """The same for vectors, tensors, arrays, sequences, measurements and coordinates."""
    chain(S, S.choice('kind', ['vector', 'tensor', 'array', 'sequence', 'measurement', 'coordinates']))


def converted(S, sc, x, xs, u, v):
    return x.withunit(v), [sc.factor(u, v) * a for a in xs]


def step(S, sc, i, x, n, u, ops, targets):
    """One step of a history: the object, the same on a plain ndarray, and the unit."""
    op = S.choice(f'op{i}', ops)
    if op == 'convert':
        v = S.choice(f'to{i}', targets)
        f = sc.factor(u, v)
        return x.withunit(v), _times(f, n), v, op
    if op == 'transpose':
        p = S.choice(f'perm{i}', list(itertools.permutations(range(n.ndim)))) if not S.symbolic else tuple(range(n.ndim))[::-1]
        dims = tuple(x.dimensions)
        how = S.choice(f'by{i}', ['names', 'integers']) if not S.symbolic else 'names'
        args = [dims[j] for j in p] if how == 'names' else list(p)
        return x.transpose(*args if n.ndim > 1 else [args]), n.transpose(p), u, op
    if op == 'select':
        idx, ref = [], n
        for d in range(n.ndim):
            if S.symbolic:
                s = S.choice(f'sel{i}{d}', [slice(None), slice(None, None, -1)])
            else:
                s = S.choice(f'sel{i}{d}', [slice(None), slice(1, None), [0], list(range(n.shape[d]))[::-1], -1, 0])
                if isinstance(s, slice) and len(range(n.shape[d])[s]) == 0:
                    s = slice(None)
            idx.append(s)
            t = [s % n.shape[d]] if isinstance(s, int) else range(n.shape[d])[s] if isinstance(s, slice) else s
            ref = numpy.take(ref, list(t), axis=d)
        return x[tuple(idx)], ref, u, op
    if op == 'negate':
        return -x, -n, u, op
    if op == 'scale':
        k = S.choice(f'k{i}', [2, 3.0]) if S.symbolic else S.choice(f'k{i}', [2, -3.0, 0.5])
        return x * k, _times(k, n), u, op
    if op == 'divide':
        return x / 4, n / 4, u, op
    if op == 'double':
        return x + x, n + n, u, op
    if op == 'mean-shift':
        return x - x.withunit(u), n - n, u, op
    if op == 'respawn':
        return type(x).spawn(x), n, u, op
    raise KeyError(op)


def _times(f, n):
    out = numpy.empty(n.shape, dtype=object)
    for i in numpy.ndindex(*n.shape):
        out[i] = f * n[i]
    return out


def history(S, kinds, shapes, ops, steps, units):
    kind = S.choice('kind', kinds)
    shape = S.choice('shape', shapes[kind])
    sc = Scales(S)
    xs = [S.real(f'x{i}', simple=True) for i in range(size(shape))]
    u = S.choice('unit', units[:1] if S.symbolic else units)
    x = make(kind, xs, shape, u)
    n = numpy.array(nest(xs, shape), dtype=object)
    made = [(x, n, u)]
    allowed = [o for o in ops if kind == 'array' or o not in ('transpose', 'select')]
    trace = []
    for i in range(steps):
        if S.coin(f'read{i}') if not S.symbolic else (i % 2 == 0):
            numbers(x)
        x, n, u, op = step(S, sc, i, x, n, u, allowed, units[1:] if S.symbolic else units)
        n = numpy.asarray(n, dtype=object)
        trace.append(op)
        made.append((x, n, u))
    for j, (y, m, w) in enumerate(made):
        check(S, y, list(m.ravel()), w, f'{kind} after ' + ', '.join(trace[:j]))
        S.ensure(tuple(nums(y).shape) == tuple(m.shape), 'the shape follows the history')
        if not S.symbolic and kind in ('array', 'tensor', 'vector'):
            S.ensure(numpy.allclose(numpy.asarray(y).astype(float), m.astype(float), rtol=1e-9, atol=0), 'numpy reads the same numbers')
            if kind == 'array':
                S.ensure(numpy.allclose(y.squeezed.astype(float), m.astype(float).squeeze(), rtol=1e-9, atol=0), 'squeezed')
                if y.size == 1:
                    S.ensure(S.eq(float(y), float(m.ravel()[0])), 'float')


@contract('C05', 'array-history', sym='shape', rand=(0, 0), max_paths=(3000, 20000),
          bound='arrays (2,) and (2, 2), all programs of 3 steps out of 5 operations; all real elements and scales', functions=FUNCS)
def array_history(S):
    """Converting, selecting, transposing and scaling an array in any order gives the same numbers as on a plain array."""
    history(S, ['array'], {'array': [(2,), (2, 2)]}, ['convert', 'transpose', 'select', 'scale', 'double'], 3, LENGTHS[:2])


FAMILIES = [['m', 'km', 'cm', 'au', 'mm'], ['s', 'h', 'd', 'ms', 'min'], ['J', 'erg', 'MeV', 'kg m^2 / s^2', 'g cm^2 s^-2', 'eV'],
            ['m / s', 'km / s', 'cm s^-1', 'au / d'], ['cm^-2 s^-1 sr^-1 (MeV / nuc)^-1', 'm^-2 s^-1 sr^-1 (J / nuc)^-1'],
            ['deg', 'rad'], ['K', 'mK'], ['m^1/2', 'cm^1/2'], ['1'], ['kg m^-3', 'g cm^-3'], ['Hz', 'kHz']]


@contract('C05', 'histories', rand=(900, 15000), bound='sampled histories of up to 8 steps on every kind of quantity', functions=FUNCS)
def histories(S):
    """Any history of conversions, selections, transpositions and arithmetic keeps the physical value of every object in it."""
    fam = [u for u in S.choice('family', FAMILIES) if U.denote(_unit(u)) is not None]
    if not fam:
        raise Skip()
    shapes = {'scalar': [()], 'vector': [(1,), (3,)], 'tensor': [(3,), (2, 3), (2, 1, 2)],
              'array': [(1,), (3,), (2, 3), (3, 1), (2, 2, 2), (1, 1)]}
    history(S, ['scalar', 'vector', 'tensor', 'array', 'array', 'array'], shapes,
            ['convert', 'convert', 'convert', 'transpose', 'select', 'negate', 'scale', 'divide', 'double', 'mean-shift', 'respawn'],
            S.choice('steps', [1, 3, 5, 8]), fam)


@contract('C05', 'mixed-units', rand=(400, 5000), bound='sampled products of two converted arrays or scalars', functions=FUNCS)
def mixed_units(S):
    """Products, quotients and powers of converted quantities denote the same quantity as those of the originals."""
    fa, fb = S.choice('fa', FAMILIES[:4]), S.choice('fb', FAMILIES[:4])
    shape = S.choice('shape', [(2,), (2, 2), (1, 3)])
    ka, kb = S.choice('kinds', [('array', 'array'), ('array', 'scalar'), ('scalar', 'array'), ('scalar', 'scalar'), ('tensor', 'scalar')])
    out = []
    for k, f, t in ((ka, fa, 'a'), (kb, fb, 'b')):
        sh = () if k == 'scalar' else shape
        xs = [S.real(f'{t}{i}', simple=True, nonzero=True) for i in range(size(sh))]
        u, v = S.choice('u' + t, f), S.choice('v' + t, f)
        x = make(k, xs, sh, u)
        y = x.withunit(v)
        if S.coin('again' + t):
            y = y.withunit(S.choice('w' + t, f))
        out.append((x, y))
    (a, a2), (b, b2) = out
    op = S.choice('op', ['*', '/', '**2', '**-1'])
    f = {'*': lambda p, q: p * q, '/': lambda p, q: p / q, '**2': lambda p, q: p ** 2, '**-1': lambda p, q: p ** -1}[op]
    r, s = f(a, b), f(a2, b2)
    k = U.factor(s.unit, r.unit)
    if k is None:
        S.ensure(U.denote(s.unit) is None or U.denote(r.unit) is None, f'{op}: the units have one dimension', lambda: (str(r.unit), str(s.unit)))
        raise Skip()
    S.ensure(S.alleq([float(z) * k for z in flat(s)], [float(z) for z in flat(r)]), f'{ka} {op} {kb} of converted operands',
             lambda: (flat(s), str(s.unit), flat(r), str(r.unit)))
    t, e = attempt(s.withunit, str(r.unit))
    S.ensure(e is None, f'[{s.unit}] converts to [{r.unit}]', lambda: repr(e))
    S.ensure(S.alleq([float(z) for z in flat(t)], [float(z) for z in flat(r)]), f'{ka} {op} {kb}: converted back')


WRONG = [('m', 's'), ('km', 'kg'), ('J', 'm / s'), ('1', 'm'), ('s', '1'), ('deg', 'm'), ('m^2', 'm'), ('nT', 'K'), ('cm^-2 s^-1', 'cm^-2'),
         ('MeV / nuc', 's')]


@contract('C05', 'refused', cases=lambda tier: [(k, u, v) for k in KINDS + OTHERS for u, v in WRONG], functions=FUNCS,
          bound='every kind of quantity with ten pairs of units of different dimension')
def refused(S, case):
    """A unit of another dimension is refused and leaves the object as it was."""
    kind, u, v = case
    shape = SHAPES[kind][-1]
    xs = [1.5 + i for i in range(size(shape))]
    x = make(kind, xs, shape, u)
    r, e = attempt(x.withunit, v)
    S.ensure(e is not None, f'{kind} [{u}] in [{v}] is refused', lambda: str(r))
    check(S, x, xs, u, f'the {kind} after the refusal')
    for bad in (None, 3, 'not a unit', ['m']):
        r, e = attempt(x.withunit, bad)
        S.ensure(e is not None, f'{kind} in {bad!r} is refused')
    check(S, x, xs, u, f'the {kind} after the refusal')


AXES = ['points', 'coordinates', 'symbols']


@contract('C05', 'axes-kept', rand=(200, 2000), bound='sampled arrays with axes of each type', functions=FUNCS)
def axes_kept(S):
    """Converting an array keeps its axes; converting a coordinate axis keeps what it measures and leaves the original."""
    from eprempy import physical, measured
    n, m = S.choice('n', [1, 2, 3]), S.choice('m', [1, 2])
    ts = sorted(S.real(f't{i}', lo=0, hi=50, simple=True) + i for i in range(n))
    axes = {'time': physical.coordinates(measured.sequence(ts, unit='s')), 'species': physical.symbols(['H+', 'He++'][:m])}
    xs = [S.real(f'x{i}', simple=True) for i in range(n * m)]
    a = physical.array(nest(xs, (n, m)), unit='km', axes=axes)
    b = a.withunit(S.choice('v', ['m', 'cm', 'au', 'km']))
    S.ensure(tuple(b.dimensions) == ('time', 'species') and tuple(b.axes) == ('time', 'species'), 'dimensions')
    S.ensure(numpy.allclose(numpy.array(b.axes['time'].data), ts) and str(b.axes['time'].unit) == 's', 'coordinates')
    S.ensure(list(b.axes['species'].data) == ['H+', 'He++'][:m], 'symbols')
    t = a.axes['time']
    h = t.withunit('min')
    S.ensure(S.alleq([float(z) for z in numpy.array(h.data)], [z / 60 for z in ts]) and str(h.unit) == 'min', 'converted coordinates')
    S.ensure(S.alleq([float(z) for z in numpy.array(t.data)], ts) and str(t.unit) == 's', 'original coordinates')
    S.ensure(S.alleq([float(z) for z in numpy.array(a.axes['time'].data)], ts) and str(a.axes['time'].unit) == 's', 'array axes')
    if n > 1:
        g = h[1:]
        S.ensure(S.alleq([float(z) for z in numpy.array(g.withunit('s').data)], ts[1:]), 'selected and converted coordinates')


@contract('C05', 'contexts', rand=(150, 2000), bound='every form of the arguments of a context, with sampled units and numbers',
          functions=['eprempy.measured._context.' + n for n in ('context_factory', 'context_args', '_default_converter', 'Context.convert', 'Context.apply')])
def contexts(S):
    """A context has the unit it is given, or none, in every form of its arguments, and converts a number or an object by the factor between the units."""
    context, value = need('eprempy.measured', 'context'), need('eprempy.measured', 'value')
    f = S.choice('family', FAMILIES[:4])
    u, v = S.choice('u', f), S.choice('v', f)
    metric = need('eprempy.metric', 'unit')
    factor = lambda a, b: U.factor(metric(a), metric(b))
    unit = {'text': u, 'unit': metric(u), 'none': None}[S.choice('unit', ['text', 'unit', 'none'])]
    calls = []

    def custom(c, x):
        calls.append((str(c.old), str(c.new)))
        return float(c) * x
    converter = S.choice('converter', [None, custom])
    form = S.choice('form', ['positional', 'keyword', 'mixed', 'alone', 'alone by name', 'empty'])
    if form == 'empty':
        unit = None
    if form.startswith('alone') or form == 'empty':
        converter = None
    c, e = attempt({'positional': lambda: context(unit, converter), 'keyword': lambda: context(unit=unit, converter=converter),
                    'mixed': lambda: context(unit, converter=converter), 'alone': lambda: context(unit),
                    'alone by name': lambda: context(unit=unit), 'empty': lambda: context()}[form])
    S.ensure(e is None, f'a context by {form} arguments', lambda: (unit, converter, repr(e)))
    S.ensure(bool(c.unit == ('1' if unit is None else u)), 'the unit of a context', lambda: (unit, str(c.unit)))
    if unit is None:
        S.ensure(attempt(c.convert, 1.0, v)[1] is not None or factor('1', v) is not None, 'a conversion from no unit is refused')
        return
    x = S.real('x', simple=True, nonzero=True)
    y, e = attempt(c.convert, x, v)
    S.ensure(e is None and S.eq(y, x * factor(u, v)), f'a number in [{v}]', lambda: (x, u, v, y, repr(e)))
    S.ensure(len(calls) == (converter is custom), 'the given converter is used', lambda: calls)
    for bad in (None, 3, 'not a unit', ['m'], next(w for _, w in WRONG if factor(u, w) is None)):
        S.ensure(attempt(c.convert, x, bad)[1] is not None, f'a conversion to {bad!r} is refused')
    n = S.choice('extra', ['two units', 'three', 'name'])
    S.ensure(attempt({'two units': lambda: context(u, unit=v), 'three': lambda: context(u, None, v), 'name': lambda: context(u, system=v)}[n])[1] is not None,
             'further arguments of a context are refused', lambda: n)
