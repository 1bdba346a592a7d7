"""C20: numerical library functions act on labelled and physical arrays as on plain ones."""
import itertools
import math
import operator

import numpy

from .. import units as U
from ..core import contract, attempt, need, Skip, Unsupported
from ..phys import nums, kind_of, nest, points
from .c04 import same_unit
from .c05 import Scales

OPS = 'eprempy.physical._operations.'
REAL = 'eprempy.real._array.'
MIX = ['eprempy.numeric._mixins.Functions.' + n for n in ('__array_ufunc__', '__array_function__', '_apply_ufunc', '_apply_function', '_get_numpy_args', '_get_arg_data', '_implements')]
KINDS = ['real', 'scalar', 'vector', 'tensor', 'array']
SMALL = {'scalar': [()], 'vector': [(1,), (3,)], 'real': [(2,), (1, 1), (2, 2), (1, 2, 1)], 'tensor': [(2,), (1, 1), (2, 2), (1, 2, 1)], 'array': [(2,), (1, 1), (2, 2), (1, 2, 1)]}
LARGE = {'scalar': [()], 'vector': [(1,), (2,), (5,), (40,)], **{k: [(1,), (4,), (3, 5), (1, 4), (4, 1), (2, 3, 4), (3, 1, 2), (1, 1, 3), (2, 2, 1, 3)] for k in ('real', 'tensor', 'array')}}
NAMES = 'tsxy'
RELATED = {'m': 'km', 'J': 'erg', '1': None, 's': 'h', 'rad': 'deg', 'deg': 'rad', 'cm s^-1': 'm s^-1', 'm s^-1': 'cm s^-1'}


def axis_of(d, n, k):
    """One axis of each type, none starting at zero."""
    from eprempy import physical, measured
    if k == 0:
        return physical.points(range(3, 3 + 2 * n, 2))
    if k == 1:
        return physical.symbols([d + c for c in 'abcdefgh'[:n]]) if n <= 8 else physical.points(range(5, 5 + n))
    return physical.coordinates(measured.sequence([1.5 * i + 1 for i in range(n)], unit='s'))


class Thing:
    """A labelled or physical object, and the plain array, unit, dimensions and axes it must have."""

    def __init__(self, S, tag, kind, shape, unit, before='none', scales=None, nonneg=False, positive=False):
        from eprempy import metric, real, physical
        self.kind, self.unit, self.before = kind, unit, before
        n = math.prod(shape)
        self.xs = [S.real(f'{tag}{i}', simple=True, positive=positive) for i in range(n)]
        self.base = numpy.array(self.xs, dtype=object if S.symbolic else float).reshape(shape)
        self.dims = tuple(NAMES[:len(shape)]) if kind in ('real', 'array') else None
        data = nest(self.xs, shape)
        if kind == 'real':
            self.x, self.unit = real.array(data, *self.dims), None
        elif kind == 'array':
            self.axes = {d: axis_of(d, m, i % 3) for i, (d, m) in enumerate(zip(self.dims, shape))}
            self.x = physical.array(data, unit=unit, axes=dict(self.axes))
        else:
            self.x = getattr(physical, kind)(data, unit=unit)
        if before == 'converted' and self.unit and RELATED.get(unit):
            to = RELATED[unit]
            f = scales.factor(str(self.x.unit), to) if scales else {'deg': 180 / math.pi, 'rad': math.pi / 180}.get(to) or U.factor(metric.unit(str(self.x.unit)), metric.unit(to))
            self.x, self.unit, self.base = self.x.withunit(to), to, numpy.asarray(self.base * f, dtype=self.base.dtype)
        if before == 'sliced' and len(shape) and shape[0] > 1 and kind != 'scalar':
            self.x, self.base = self.x[1:], self.base[1:]
            if kind == 'array':
                d = self.dims[0]
                self.axes[d] = self.axes[d][1:]
        if before == 'transposed' and kind in ('real', 'array') and len(shape) > 1:
            self.x, self.base, self.dims = self.x.transpose(*self.dims[::-1]), self.base.transpose(), self.dims[::-1]
        self.again = str(self.unit)

    def unchanged(self, S, label):
        S.ensure(S.alleq(list(nums(self.x).ravel()), list(self.base.ravel())), f'{label}: the operand keeps its numbers')
        if self.unit is not None:
            S.ensure(same_unit(self.x, self.unit), f'{label}: the operand keeps its unit')
        if self.dims:
            S.ensure(tuple(self.x.dimensions) == self.dims and tuple(self.x.shape) == self.base.shape, f'{label}: the operand keeps its dimensions')


def things(S, tag='a', kinds=KINDS, units=('m', 'cm s^-1', '1'), before=('none', 'converted', 'sliced', 'transposed'), shapes=None, **kw):
    kind = S.choice('kind ' + tag, list(kinds))
    shape = S.choice('shape ' + tag, (shapes or (SMALL if S.symbolic else LARGE))[kind])
    unit = S.choice('unit ' + tag, list(units)) if kind != 'real' else None
    hist = S.choice('before ' + tag, list(before))
    if hist == 'converted' and (kind == 'real' or unit == '1') or hist in ('sliced', 'transposed') and (kind == 'scalar' or not shape):
        raise Skip()
    if S.symbolic and hist != 'none' and len(shape) > 2:
        raise Skip()
    if kind in ('vector', 'tensor') and len(shape) == 1 and hist == 'sliced' and shape[0] < 3:
        raise Skip()        # one value of a sequence is a scalar
    scales = Scales(S) if S.symbolic and hist == 'converted' else None
    return Thing(S, tag, kind, shape, unit, hist, scales, **kw)


def show(S, f):
    return f if not S.symbolic else None


def same(got, want, size=0.):
    """Numbers agree to rounding, including that of sums which cancel."""
    tol = 1e-5 if 'float32' in (str(got.dtype), str(want.dtype)) else 1e-9
    got, want = (numpy.asarray(a, dtype=float) for a in (got, want))
    finite = want[numpy.isfinite(want)]
    return got.shape == want.shape and numpy.allclose(got, want, rtol=tol, atol=1e-3 * tol * max(size, float(numpy.max(numpy.abs(finite), initial=0.))), equal_nan=True)


def numbers(S, r, want, label, size=0.):
    """The numbers of the result are those of the plain result, in the same arrangement."""
    got = nums(r)
    want = numpy.asarray(want, dtype=object if S.symbolic else None)
    S.ensure(tuple(got.shape) == tuple(want.shape), f'{label}: the shape of the plain result', show(S, lambda: (got.shape, want.shape)))
    ok = S.alleq(list(got.ravel()), list(want.ravel())) if S.symbolic else same(got, want, size)
    S.ensure(ok, f'{label}: the numbers of the plain result', show(S, lambda: (got, want)))


def plain(r):
    """A result without labels or units."""
    return not hasattr(r, 'unit') and not hasattr(r, 'dimensions')


def verify(S, t, r, want, label, unit=None, dims=None, axes=None, kind=None):
    """The result `r` has the numbers `want`, the type of the operand, and the given unit, dimensions, and axes."""
    numbers(S, r, want, label, 0. if S.symbolic else float(numpy.max(numpy.abs(t.base), initial=0.)))
    nd = numpy.ndim(want)
    if t.kind == 'real':
        if nd == 0:
            S.ensure(plain(r), f'{label}: a number')
            return
        S.ensure(type(r) is type(t.x), f'{label}: a labelled array', show(S, lambda: type(r)))
        S.ensure(tuple(r.dimensions) == tuple(dims), f'{label}: the dimensions it keeps', show(S, lambda: (r.dimensions, dims)))
        S.ensure(tuple(r.shape) == numpy.shape(want) and dict(r.shapemap) == dict(zip(dims, numpy.shape(want))), f'{label}: the lengths of the dimensions')
        return
    kind = kind or ('scalar' if nd == 0 else t.kind)
    S.ensure(kind_of(r) == kind, f'{label}: gives a {kind}', show(S, lambda: type(r)))
    S.ensure(same_unit(r, unit), f'{label}: the unit follows the function', show(S, lambda: (r.unit, unit)))
    if kind == 'array':
        S.ensure(tuple(r.dimensions) == tuple(dims), f'{label}: the dimensions it keeps', show(S, lambda: (r.dimensions, dims)))
        S.ensure(tuple(r.axes) == tuple(dims) and tuple(r.shape) == numpy.shape(want), f'{label}: an axis for each dimension', show(S, lambda: (r.axes, r.shape)))
        for d, n in zip(dims, numpy.shape(want)):
            S.ensure(len(r.axes[d]) == n, f'{label}: axes as long as the data', show(S, lambda: (d, r.axes[d], n)))
            if axes.get(d) is not None:
                S.ensure(r.axes[d] == axes[d], f'{label}: keeps its axes', show(S, lambda: (d, r.axes[d], axes[d])))


def forms(S, nd, empty=False):
    """An axis argument: (how it is passed, value)."""
    ints = list(range(-nd, nd))
    options = ['omitted', 'None'] + ints + ([(0, nd - 1), tuple(range(nd)), (-1, 0)] if nd > 1 else []) + ([()] if empty else [])
    axis = S.choice('axis', options)
    if axis == 'omitted':
        return [], {}, None
    axis = None if axis == 'None' else axis
    if S.coin('positional'):
        return [axis], {}, axis
    return [], {'axis': axis}, axis


REDUCE = ['mean', 'sum', 'min', 'max', 'amin', 'amax']


@contract('C20', 'reductions', sym='shape', bound='up to four numbers in up to three dimensions', rand=(500, 6000), max_paths=(9000, 20000),
          functions=MIX + [REAL + n for n in ('mean', 'sum', 'npmin', 'npmax', '_apply_reduction')] + [OPS + n for n in ('mean', 'sum', 'npmin', 'npmax', '_apply_reduction', '_get_reduced', 'from_numpy')],
          clause='mean, sum, min and max over any axes give the numbers of the plain function, the unit of the operand, and the dimensions and axes that remain.')
def reductions(S):
    name = S.choice('function', REDUCE[:4] if S.symbolic else REDUCE)
    t = things(S)
    nd = t.base.ndim
    args, kw, axis = forms(S, nd)
    if S.symbolic and name != 'sum' and (isinstance(axis, tuple) or args):
        raise Skip()
    if S.symbolic and t.unit == 'cm s^-1':
        raise Skip()
    keep = S.coin('keepdims')
    if keep:
        kw['keepdims'] = True
    elif not S.symbolic and S.coin('spelled'):
        kw['keepdims'] = False
    f = getattr(numpy, name)
    label = f'numpy.{name}({t.kind}{t.base.shape}, axis={axis}{", keepdims" if keep else ""})'
    r, e = attempt(lambda: f(t.x, *args, **kw))
    want, p = attempt(lambda: f(t.base, axis=axis, keepdims=keep))
    if p is not None:
        S.ensure(e is not None, f'{label}: refused like for plain arrays')
        return
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    if t.kind == 'scalar':
        verify(S, t, r, numpy.asarray(want, dtype=object if S.symbolic else None).reshape(()), label, t.unit)
        return
    gone = set(range(nd)) if axis is None else {a % nd for a in (axis if isinstance(axis, tuple) else (axis,))}
    dims = [d for i, d in enumerate(t.dims) if keep or i not in gone] if t.dims else None
    axes = {d: None if i in gone else t.axes[d] for i, d in enumerate(t.dims)} if t.kind == 'array' else None
    verify(S, t, r, want, label, t.unit, dims, axes)
    t.unchanged(S, label)


@contract('C20', 'running-totals', sym='shape', bound='up to four numbers in up to three dimensions', rand=(150, 2000), max_paths=(3000, 9000),
          functions=MIX + [REAL + 'cumsum', OPS + 'cumsum', OPS + 'from_numpy'],
          clause='cumsum gives the numbers of the plain function in the unit of the operand, with all dimensions and axes if there is an axis argument.')
def running(S):
    t = things(S)
    args, kw, axis = forms(S, t.base.ndim)
    label = f'numpy.cumsum({t.kind}{t.base.shape}, axis={axis})'
    r, e = attempt(lambda: numpy.cumsum(t.x, *args, **kw))
    want, p = attempt(lambda: numpy.cumsum(t.base, axis=axis))
    if p is not None:
        S.ensure(e is not None, f'{label}: refused like for plain arrays')
        return
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    if axis is None:
        numbers(S, r, want, label)
        if t.kind != 'real':
            S.ensure(kind_of(r) == 'vector' and same_unit(r, t.unit), f'{label}: a vector of totals in the same unit', show(S, lambda: r))
    else:
        verify(S, t, r, want, label, t.unit, t.dims, getattr(t, 'axes', None), kind='vector' if t.kind == 'scalar' else t.kind)
    t.unchanged(S, label)


@contract('C20', 'squeezing', sym='shape', bound='up to four numbers in up to three dimensions', rand=(150, 2000), max_paths=(3000, 9000),
          functions=MIX + [REAL + 'squeeze', REAL + '_apply_reduction', OPS + 'squeeze', OPS + '_apply_reduction', OPS + '_get_reduced'],
          clause='squeeze drops exactly the singular dimensions that it is asked to drop.')
def squeezing(S):
    t = things(S, shapes=None if not S.symbolic else dict(SMALL, real=[(2,), (1, 1), (1, 2, 1), (2, 1), (1,)], tensor=[(2,), (1, 1), (1, 2, 1), (2, 1), (1,)], array=[(2,), (1, 1), (1, 2, 1), (2, 1), (1,)]))
    nd = t.base.ndim
    args, kw, axis = forms(S, nd)
    if t.kind == 'scalar':
        args, kw, axis = [], {}, None
    label = f'numpy.squeeze({t.kind}{t.base.shape}, axis={axis})'
    r, e = attempt(lambda: numpy.squeeze(t.x, *args, **kw))
    want, p = attempt(lambda: numpy.squeeze(t.base, axis=axis))
    if p is not None:
        S.ensure(e is not None, f'{label}: refused like for plain arrays', show(S, lambda: r))
        return
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    gone = {i for i, n in enumerate(t.base.shape) if n == 1} if axis is None else {a % nd for a in (axis if isinstance(axis, tuple) else (axis,))}
    dims = [d for i, d in enumerate(t.dims) if i not in gone] if t.dims else None
    verify(S, t, r, want, label, t.unit, dims, getattr(t, 'axes', None))
    t.unchanged(S, label)


@contract('C20', 'transposing', sym='shape', bound='up to four numbers in up to three dimensions', rand=(150, 2000), max_paths=(3000, 9000),
          functions=MIX + [REAL + 'transpose', OPS + 'transpose'],
          clause='transpose rearranges numbers, dimensions and axes together.')
def transposing(S):
    t = things(S, before=('none', 'converted', 'sliced'))
    nd = t.base.ndim
    axes = S.choice('axes', [None, 'spelled', 'reversed'] + list(itertools.permutations(range(nd))) if t.kind == 'tensor' else [None, 'spelled', 'reversed'])
    kw = {} if axes is None else {'axes': None if axes == 'spelled' else tuple(range(nd))[::-1] if axes == 'reversed' else axes}
    label = f'numpy.transpose({t.kind}{t.base.shape}, {kw})'
    r, e = attempt(lambda: numpy.transpose(t.x, **kw))
    want = numpy.transpose(t.base, **kw)
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    verify(S, t, r, want, label, t.unit, t.dims[::-1] if t.dims else None, getattr(t, 'axes', None))
    t.unchanged(S, label)


@contract('C20', 'arranging', cases=lambda tier: [(k, s, p) for k in ('real', 'array') for s in ((2, 2), (2, 3), (1, 2, 3), (3, 2, 2)) for p in itertools.permutations(range(len(s)))],
          functions=MIX + [REAL + 'transpose', OPS + 'transpose'],
          clause='transposing a labelled array to given axes names the given dimensions and arranges the numbers along them.')
def arranging(S, case):
    kind, shape, axes = case
    base = 1. + numpy.arange(math.prod(shape)).reshape(shape)
    t = Thing.__new__(Thing)
    from eprempy import real, physical
    t.kind, t.base, t.dims, t.unit = kind, base, tuple(NAMES[:len(shape)]), 'm'
    t.axes = {d: points(n, 2) for d, n in zip(t.dims, shape)}
    t.x = real.array(base, *t.dims) if kind == 'real' else physical.array(base, unit='m', axes=t.axes)
    r, e = attempt(lambda: numpy.transpose(t.x, axes=axes))
    label = f'numpy.transpose({kind}{shape}, axes={axes})'
    S.ensure(e is None, f'{label} is defined', lambda: repr(e))
    got = nums(r)
    S.ensure(tuple(r.dimensions) == tuple(t.dims[i] for i in axes), f'{label}: the dimensions in the given order', lambda: r.dimensions)
    right = got.shape == tuple(shape[i] for i in axes) and bool((got == base.transpose(axes)).all())
    back = got.shape == shape[::-1] and bool((got == base.transpose()).all())
    S.ensure(right or back, f'{label}: the numbers are those of the operand', lambda: got)
    known = axes != tuple(range(len(shape)))[::-1]
    S.ensure(right, f'{label}: ' + ('numbers arranged along explicit axes' if known else 'numbers arranged along reversed axes'), lambda: (got.shape, base.transpose(axes).shape))


ANGLES = ['rad', 'deg']
OTHER = ['1', 'm', 'm s^-1', 's']
TRIG = ['sin', 'cos', 'tan']
LOGS = ['log', 'log10', 'log2', 'log1p']


@contract('C20', 'elementwise', sym='shape', bound='up to four numbers in up to three dimensions', rand=(500, 6000), max_paths=(6000, 20000),
          functions=MIX + [OPS + n for n in ('sin', 'cos', 'tan', '_apply_trig', 'sqrt', 'log', 'log10', 'log2', 'log1p', '_apply_log', 'from_numpy', '_get_factory')],
          clause='sqrt, sin, cos, tan and logarithms give the numbers of the plain function on every element with all dimensions and axes: the root of the unit, or no unit; functions of angles and logarithms refuse other units.')
def elementwise(S):
    name = S.choice('function', TRIG + LOGS + ['sqrt'])
    t = things(S, units=ANGLES + OTHER, positive=name not in TRIG and (S.symbolic or not S.coin('outside the domain')))
    if S.symbolic and (t.base.size > 2 and t.unit in OTHER[1:3] and name != 'sqrt' or t.base.ndim > 2 and name not in ('sin', 'sqrt', 'log')):
        raise Skip()
    f = getattr(numpy, name)
    label = f'numpy.{name}({t.kind}{t.base.shape} in {t.unit})'
    with numpy.errstate(all='ignore'):
        r, e = attempt(lambda: f(t.x))
    if t.kind == 'real':
        S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
        with numpy.errstate(all='ignore'):
            want = f(t.base)
        numbers(S, r, want, label)
        return
    if name == 'sqrt':
        unit = U_power(t.unit, 0.5)
    elif name in TRIG:
        if t.unit not in ANGLES and t.unit != '1':
            S.ensure(e is not None, f'{label} is refused: not an angle', show(S, lambda: r))
            return
        if t.unit == '1' and e is not None:
            return      # a plain number may be taken for an angle or be refused
        unit = '1'
    else:
        if t.unit != '1':
            S.ensure(e is not None, f'{label} is refused: the unit of the result would be meaningless', show(S, lambda: r))
            return
        unit = '1'
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    with numpy.errstate(all='ignore'):
        want = f(t.base)
    verify(S, t, r, want, label, unit, t.dims, getattr(t, 'axes', None))
    t.unchanged(S, label)


def U_power(u, p):
    from eprempy import metric
    return metric.unit(u) ** p


def U_ratio(u, v):
    from eprempy import metric
    return metric.unit(u) / metric.unit(v)


def U_product(u, v):
    from eprempy import metric
    return metric.unit(u) * metric.unit(v)


def gradients(S):
    """numpy.gradient on arrays of objects must not store its results as floats."""
    if S.symbolic:
        original = numpy.empty_like
        S.patch(numpy, 'empty_like', lambda x, dtype=None, **k: original(x, dtype=object if getattr(x, 'dtype', None) == object else dtype, **k))


def spacing(S, n, tag='h', kinds=('number', 'list', 'ndarray', 'real', 'scalar', 'vector', 'tensor', 'array', 'measurement', 'sequence', 'value', 'coordinates'), units=('s', 'm', '1')):
    """An argument that spaces n samples, its plain counterpart, and its unit; one number, or one position for each sample."""
    from eprempy import real, physical, measured, quantity
    kind = S.choice('spacing ' + tag, list(kinds))
    unit = S.choice('spacing unit ' + tag, list(units)) if kind not in ('number', 'list', 'ndarray', 'real') else None
    if kind in ('number', 'scalar', 'value'):
        h = S.real(tag, simple=True, positive=True)
        x = {'number': lambda: h, 'scalar': lambda: physical.scalar(h, unit=unit), 'value': lambda: measured.value(h, unit=unit)}[kind]()
        return kind, x, h, unit or '1'
    steps = [S.real(f'{tag}{i}', simple=True, positive=True) for i in range(n)]
    hs = [sum(steps[:i + 1]) for i in range(n)]
    plain = numpy.array(hs, dtype=object if S.symbolic else float)
    x = {'list': lambda: list(hs), 'ndarray': lambda: plain.copy(), 'real': lambda: real.array(list(hs), 'q'), 'vector': lambda: physical.vector(list(hs), unit=unit),
         'tensor': lambda: physical.tensor(list(hs), unit=unit), 'array': lambda: physical.array(list(hs), unit=unit, axes=['q']),
         'measurement': lambda: quantity.measurement(list(hs), unit=unit), 'sequence': lambda: measured.sequence(list(hs), unit=unit),
         'coordinates': lambda: physical.coordinates(measured.sequence(list(hs), unit=unit))}[kind]()
    return kind, x, plain, unit or '1'


GSHAPES = {'scalar': [()], 'vector': [(3,), (2,)], 'tensor': [(2,), (2, 2)], 'array': [(3,), (2, 2)], 'real': [(3,), (2, 2)]}
GLARGE = {'scalar': [()], 'vector': [(2,), (3,), (7,)], **{k: [(2,), (5,), (2, 3), (4, 4), (3, 2, 4)] for k in ('tensor', 'array', 'real')}}


@contract('C20', 'gradients', sym='shape', bound='up to four numbers in up to two dimensions', rand=(600, 8000), max_paths=(6000, 20000),
          functions=MIX + [REAL + 'gradient', REAL + '_apply_gradient', OPS + 'gradient', OPS + '_get_spacing', OPS + '_apply_gradient', OPS + 'from_numpy'],
          clause='gradients give the numbers of the plain function with all dimensions and axes, in the unit of the operand divided by that of the spacing.')
def gradient(S):
    gradients(S)
    t = things(S, units=('m', '1'), shapes=GSHAPES if S.symbolic else GLARGE, before=('none', 'converted', 'transposed'))
    nd = t.base.ndim
    if t.kind == 'scalar':
        r, e = attempt(lambda: numpy.gradient(t.x))
        S.ensure(e is not None or r == [], 'a single number has no gradient')
        return
    axis = S.choice('axis', ['omitted', 'None'] + list(range(-nd, nd)) + ([(0, 1), (1, 0)] if nd > 1 else []))
    over = list(range(nd)) if axis in ('omitted', 'None') else [a % nd for a in (axis if isinstance(axis, tuple) else (axis,))]
    kw = {} if axis == 'omitted' else {'axis': None if axis == 'None' else axis}
    if S.choice('edges', [1, 1, 2] if not S.symbolic else [1]) == 2:
        if min(t.base.shape) < 3:
            raise Skip()
        kw['edge_order'] = 2
    many = S.choice('spacings', ['none', 'one', 'each'])
    args, plains, units = [], [], []
    if many == 'each' and len(over) == 1:
        raise Skip()
    if many == 'one':
        kinds = ('number', 'scalar', 'value') if len(over) > 1 else ('number', 'list', 'ndarray', 'real', 'scalar', 'vector', 'tensor', 'array', 'measurement', 'sequence', 'value', 'coordinates')
        if t.kind == 'real':
            kinds = tuple(k for k in kinds if k in ('number', 'list', 'ndarray', 'real'))
        _, x, p, u = spacing(S, t.base.shape[over[0]], kinds=kinds)
        args, plains, units = [x], [p], [u]
    if many == 'each':
        kinds = ('number', 'list', 'real') if t.kind == 'real' else ('number', 'scalar', 'vector', 'array') if not S.symbolic else ('scalar', 'vector')
        for i, a in enumerate(over):
            _, x, p, u = spacing(S, t.base.shape[a], f'h{i}', kinds=kinds, units=('s', 'm', 's') if S.symbolic else ('s', 'm', 'h', 'km'))
            args.append(x), plains.append(p), units.append(u)
    label = f'numpy.gradient({t.kind}{t.base.shape} in {t.unit}, {[type(a).__name__ for a in args]} in {units}, {kw})'
    r, e = attempt(lambda: numpy.gradient(t.x, *args, **kw))
    want = numpy.gradient(t.base, *plains, **kw)
    if len(set(units)) > 1:
        if e is not None:
            return      # spacings of different units may be refused as a whole
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    several = isinstance(want, (list, tuple))
    S.ensure(isinstance(r, (list, tuple)) == several and (not several or len(r) == len(want)), f'{label}: as many gradients', show(S, lambda: r))
    for i, (g, w) in enumerate(zip(r, want) if several else [(r, want)]):
        u = None if t.unit is None else t.unit if not units else U_ratio(t.unit, units[i] if len(units) > 1 else units[0])
        verify(S, t, g, w, label, u, t.dims, getattr(t, 'axes', None))
    t.unchanged(S, label)


@contract('C20', 'integrals', sym='shape', bound='up to four numbers in up to two dimensions', rand=(400, 6000), max_paths=(6000, 20000),
          functions=MIX + [REAL + 'trapz', REAL + '_apply_reduction', OPS + 'trapz', OPS + '_get_spacing', OPS + '_get_reduced'],
          clause='trapz gives the numbers of the plain function with the remaining dimensions and axes, in the unit of the operand times that of the spacing.')
def integral(S):
    from eprempy import physical
    t = things(S, units=('m', '1'), shapes=GSHAPES if S.symbolic else GLARGE, before=('none', 'converted', 'transposed'))
    nd = t.base.ndim
    if t.kind == 'scalar':
        S.ensure(attempt(lambda: numpy.trapz(t.x))[1] is not None, 'a single number has no integral')
        return
    axis = S.choice('axis', ['omitted'] + list(range(-nd, nd)))
    a = -1 if axis == 'omitted' else axis
    form = S.choice('form', ['none', 'x', 'x=', 'dx', 'None, dx', 'x=None'])
    unit, args, kw, plain, pkw = '1', [], {}, [], {}
    if form in ('x', 'x=') and not S.symbolic and nd > 1 and S.coin('a position for each number'):
        unit = S.choice('unit of positions', ['s', '1']) if t.kind != 'real' else '1'
        p = numpy.cumsum(numpy.array([S.real(f'h{i}', simple=True, positive=True) for i in range(t.base.size)]).reshape(t.base.shape), axis=a)
        x = p.copy() if t.kind == 'real' or unit == '1' and S.coin('bare') else physical.tensor(p.copy(), unit=unit)
        plain = [p]
        args, kw = ([x], {}) if form == 'x' else ([], {'x': x})
    elif form in ('x', 'x='):
        kinds = ('list', 'ndarray', 'real') if t.kind == 'real' else ('list', 'ndarray', 'vector', 'tensor', 'array', 'measurement', 'sequence', 'coordinates')
        _, x, p, unit = spacing(S, t.base.shape[a], kinds=kinds, units=('s', '1'))
        plain = [p]
        if form == 'x':
            args = [x]
        else:
            kw['x'] = x
    if form in ('dx', 'None, dx'):
        _, x, p, unit = spacing(S, 1, kinds=('number',) if t.kind == 'real' else ('number', 'scalar', 'value'), units=('s', '1'))
        pkw['dx'] = p
        if form == 'dx':
            kw['dx'] = x
        else:
            args = [None, x]
    if form == 'x=None':
        kw['x'] = None
    if axis != 'omitted':
        if len(args) == 2 and S.coin('positional'):
            args.append(axis)
        else:
            kw['axis'] = axis
    label = f'numpy.trapz({t.kind}{t.base.shape} in {t.unit}, {form} in {unit}, axis={axis})'
    r, e = attempt(lambda: numpy.trapz(t.x, *args, **kw))
    want = numpy.trapz(t.base, *plain, axis=a, **pkw)
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    dims = [d for i, d in enumerate(t.dims) if i != a % nd] if t.dims else None
    verify(S, t, r, want, label, None if t.unit is None else U_product(t.unit, unit), dims, getattr(t, 'axes', None))
    t.unchanged(S, label)


ARITH = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv, 'true_divide': operator.truediv, 'floor_divide': operator.floordiv, 'power': operator.pow}


@contract('C20', 'arithmetic', sym='shape', bound='up to four numbers in up to two dimensions', rand=(600, 8000), max_paths=(6000, 20000),
          functions=MIX + [OPS + n for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'power', 'pow', 'additive', 'multiplicative', 'exponential', '_measure')] + [REAL + n for n in ('mul', 'truediv', 'floordiv', 'pow', 'multiplicative')],
          clause='arithmetic functions of the library, called or reached through operators with a plain operand on either side, give the numbers of the plain function, the labels of the labelled operand, and the unit of the operation; sums of unlike units and powers to quantities with a unit are refused.')
def arithmetic(S):
    name = S.choice('function', ['add', 'subtract', 'multiply', 'divide', 'power'] if S.symbolic else list(ARITH))
    t = things(S, units=('m', '1'), before=('none', 'converted'), shapes=dict(SMALL, real=[(2,), (2, 2)], tensor=[(2,), (2, 2)], array=[(2,), (2, 2)]) if S.symbolic else None, positive=True)
    if name == 'floor_divide' and t.before == 'converted':
        raise Skip()        # floating-point rounding of the factor may pass an integer
    other = S.choice('other', ['self', 'number', 'numpy number', 'plain array', 'like'])
    left = S.coin('plain on the left')
    if other == 'number' and S.symbolic and name == 'power':
        raise Skip()        # numbers to symbolic powers: the plain power below covers them
    n = t.base.shape
    if other == 'self':
        y, py, uy = t.x, t.base, t.unit
    elif other == 'number':
        y = py = S.real('y', positive=True, simple=True) if name != 'power' else S.choice('power', [2, 3, 0.5])
        uy = '1'
    elif other == 'numpy number':
        y = S.choice('numpy y', [numpy.float64(2.5), numpy.float64(2.), numpy.int64(3)] + ([numpy.float32(0.5)] if not S.symbolic and name != 'power' else []))
        py, uy = y, '1'
        if S.symbolic:
            y = numpy.int64(3) if y == 3 else numpy.float64(2.)
            py = 3 if y == 3 else 2
    elif other == 'plain array':
        if t.kind == 'scalar':
            raise Skip()
        ys = [S.real(f'y{i}', positive=True, simple=True) for i in range(t.base.size)]
        py = numpy.array(ys, dtype=object if S.symbolic else float).reshape(n)
        y, uy = py.copy(), '1'
    else:
        o = Thing(S, 'b', t.kind, n, S.choice('unit b', ['m', 's', '1']) if t.unit else None, positive=True)
        if t.kind == 'array':
            from eprempy import physical
            o.x = physical.array(o.base, unit=o.unit, axes=dict(t.axes))
        y, py, uy = o.x, o.base, o.unit
    if t.kind == 'real' and name in ('add', 'subtract'):
        raise Skip()        # see C06: sums with plain operands give plain arrays
    if S.symbolic and name == 'power':
        if other not in ('number', 'numpy number') or left:
            raise Skip()
        if not (isinstance(py, int)):
            raise Skip()
    f, op = getattr(numpy, name), ARITH[name]
    a, b, pa, pb, ua, ub = (y, t.x, py, t.base, uy, t.unit) if left else (t.x, y, t.base, py, t.unit, uy)
    how = S.choice('how', ['function', 'operator'])
    label = f'{name}({type(a).__name__} in {ua}, {type(b).__name__} in {ub}) by {how}'
    r, e = attempt((lambda: f(a, b)) if how == 'function' else (lambda: op(a, b)))
    want, p = attempt(lambda: op(pa, pb))
    if p is not None:
        raise Skip()
    if t.kind == 'real':
        S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
        if name == 'power' and left and other != 'like':
            numbers(S, r, want, label)      # a plain array: see C06
        else:
            verify(S, t, r, want, label, None, t.dims)
        return
    bare = lambda u: u in (None, '1')
    plain_a, plain_b = not hasattr(a, 'unit'), not hasattr(b, 'unit')
    if name in ('add', 'subtract'):
        if str(ua) != str(ub) and not (bare(ua) and bare(ub)):
            S.ensure(e is not None, f'{label}: unlike units are refused', show(S, lambda: r))
            return
        if e is not None and (plain_a or plain_b) and t.kind != 'array':
            return      # sums of unitless quantities and plain arrays may be refused
        unit = ua if not plain_a else ub
    elif name == 'power':
        if not bare(ub) or not bare(ua) and numpy.ndim(pb):
            S.ensure(e is not None, f'{label}: a meaningless unit is refused', show(S, lambda: r))
            return
        if plain_a:
            S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
            numbers(S, r, want, label)
            return
        if e is not None and plain_b and numpy.ndim(pb):
            return      # powers to plain arrays may be refused
        if plain_b and numpy.ndim(pb):
            numbers(S, r, want, label)
            return
        if not isinstance(pb, (int, float, numpy.number)):
            pb = 1 if bare(ua) else float(numpy.ravel(pb)[0])
        if other == 'numpy number' and pb == 2.5 and not bare(ua):
            return
        unit = U_power(ua, pb if not bare(ua) else 1)
    else:
        unit = U_product(ua, ub) if name == 'multiply' else U_ratio(ua, ub)
    S.ensure(e is None, f'{label} is defined', show(S, lambda: repr(e)))
    verify(S, t, r, want, label, unit, t.dims, getattr(t, 'axes', None), kind=t.kind)
    t.unchanged(S, label)


UFUNCS = ['absolute', 'negative', 'positive', 'square', 'reciprocal', 'exp', 'expm1', 'cbrt', 'floor', 'ceil', 'trunc', 'rint', 'sign', 'isfinite', 'isnan', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'exp2', 'signbit', 'fabs', 'deg2rad', 'rad2deg']
BINARY = ['maximum', 'minimum', 'fmax', 'hypot', 'arctan2', 'greater', 'less', 'less_equal', 'greater_equal', 'copysign', 'logaddexp']
FUNCTIONS = ['std', 'var', 'median', 'prod', 'argmin', 'argmax', 'any', 'all', 'ptp', 'cumprod', 'diff', 'sort', 'ravel', 'nansum', 'nanmean', 'count_nonzero', 'flip', 'around', 'array_equal', 'size', 'ndim', 'shape', 'isclose', 'allclose', 'interp', 'searchsorted', 'average']


@contract('C20', 'other-functions', rand=(600, 8000), bound='sampled arrays; functions without an implementation of their own',
          functions=MIX + ['eprempy.numeric._array.Array.__array__', 'eprempy.physical._tensor.Tensor._get_numpy_array', 'eprempy.physical._vector.Vector._get_numpy_array', 'eprempy.physical._scalar.Scalar._get_numpy_array'],
          clause='Every other function of the library gives its plain numbers or is refused; it never changes its operands, and methods of elementwise functions are never taken for calls.')
def others(S):
    t = things(S, units=('m', '1', 'cm s^-1'), positive=True)
    t.base = numpy.array(nums(t.x))     # exactly: a conversion may have rounded the numbers
    what = S.choice('what', ['unary', 'binary', 'function', 'method', 'array', 'equal'])
    with numpy.errstate(all='ignore'):
        if what == 'array':
            dtype = S.choice('dtype', [None, float, 'float32'])
            for f in (numpy.array, numpy.asarray):
                r, e = attempt(lambda: f(t.x, dtype=dtype) if dtype else f(t.x))
                want = numpy.array(t.base, dtype=dtype)
                if t.kind == 'scalar':
                    r, e = attempt(lambda: float(t.x))
                    want = float(t.base)
                S.ensure(e is None, f'{f.__name__}({t.kind}) is defined', lambda: repr(e))
                numbers(S, r, want, f'numpy.{f.__name__}({t.kind})')
            t.unchanged(S, 'conversion to a plain array')
            return
        if what == 'equal':
            o = Thing(S, 'o', t.kind, t.base.shape, t.unit) if S.coin('differ') else t
            for a, b, pa, pb in ((t.x, o.x, t.base, o.base), (t.x, o.base, t.base, o.base), (t.base, o.x, t.base, o.base)):
                r, e = attempt(lambda: numpy.array_equal(a, b))
                if t.kind == 'scalar':
                    continue
                S.ensure(e is None and bool(r) == bool(numpy.array_equal(pa, pb)), f'numpy.array_equal({type(a).__name__}, {type(b).__name__})', lambda: (r, e))
            return
        if what == 'unary':
            name = S.choice('name', UFUNCS)
            f = getattr(numpy, name)
            args, plain = (t.x,), (t.base,)
        elif what == 'binary':
            name = S.choice('name', BINARY)
            f = getattr(numpy, name)
            y = S.choice('with', ['self', 'number', 'numpy', 'array'])
            o = {'self': (t.x, t.base), 'number': (2.5, 2.5), 'numpy': (numpy.float64(2.5), 2.5), 'array': (t.base + 1, t.base + 1)}[y]
            args, plain = (t.x, o[0]), (t.base, o[1])
            if S.coin('swap'):
                args, plain = args[::-1], plain[::-1]
        elif what == 'function':
            name = S.choice('name', FUNCTIONS)
            f = getattr(numpy, name)
            args, plain = (t.x,), (t.base,)
            if name in ('isclose', 'allclose', 'array_equal'):
                args, plain = (t.x, t.x), (t.base, t.base)
            if name == 'interp':
                args, plain = (numpy.array([1.5]), numpy.arange(3.), t.x), (numpy.array([1.5]), numpy.arange(3.), t.base)
            if name == 'searchsorted':
                args, plain = (numpy.arange(3.), t.x), (numpy.arange(3.), t.base)
        else:
            name = S.choice('name', ['multiply', 'divide', 'power', 'add', 'floor_divide'])
            how = S.choice('method', ['outer', 'reduce', 'accumulate'])
            f = getattr(getattr(numpy, name), how)
            name = f'{name}.{how}'
            args, plain = ((t.x, t.x), (t.base, t.base)) if how == 'outer' else ((t.x,), (t.base,))
        label = f'numpy.{name}({t.kind}{t.base.shape})'
        r, e = attempt(lambda: f(*args))
        want, p = attempt(lambda: f(*plain))
        if e is None:
            S.ensure(p is None, f'{label}: refused like for plain arrays', lambda: r)
            if isinstance(want, tuple) and not hasattr(r, 'unit'):
                S.ensure(r == want, f'{label}: the plain result', lambda: (r, want))
            elif p is None:
                S.ensure(numpy.array_equal(numpy.asarray(nums(r)), numpy.asarray(want), equal_nan=numpy.asarray(want).dtype.kind == 'f'), f'{label}: the numbers of the plain result', lambda: (nums(r), want))
        elif what in ('unary', 'binary') and p is None:
            S.ensure(False, f'{label} is defined', lambda: repr(e))
        t.unchanged(S, label)
