"""Physical objects built from plain numbers, and the plain numbers behind them."""
import itertools
import operator

import numpy

from . import units as U

KINDS = ('scalar', 'vector', 'tensor', 'array')


def nest(xs, shape):
    xs = list(xs)
    if not shape:
        return xs[0]
    n = len(xs) // shape[0]
    return [nest(xs[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def points(n, start=0):
    from eprempy import physical
    return physical.points(range(start, start + n))


def build(kind, flat, shape, unit, dims='xyzw'):
    """A physical object of the given kind; `unit` None leaves it out."""
    from eprempy import physical
    kw = {} if unit is None else {'unit': unit}
    if kind == 'scalar':
        return physical.scalar(flat[0], **kw)
    if kind == 'vector':
        return physical.vector(list(flat), **kw)
    if kind == 'tensor':
        return physical.tensor(nest(flat, shape), **kw)
    axes = {d: points(n) for d, n in zip(dims, shape)}
    return physical.array(nest(flat, shape), axes=axes, **kw)


def nums(x):
    """The numbers of a physical, real or plain object as an ndarray (0-d for scalars)."""
    d = getattr(x, 'data', x)
    if isinstance(x, (int, float, complex, numpy.ndarray, numpy.generic)):
        d = x
    if hasattr(d, 'array'):
        d = d.array
    if isinstance(d, numpy.ndarray):
        return d
    return numpy.array(d, dtype=object if not isinstance(d, (int, float, numpy.number, list, tuple)) else None)


def flat(x):
    return list(nums(x).ravel())


def kind_of(x):
    return type(x).__name__.lower()


def is_unit(x, text):
    """True if the unit of `x` denotes what `text` spells, to scale and dimension."""
    from eprempy import metric
    u = x.unit
    if u == metric.unit(text):
        return True
    a, b = U.denote(u), U.denote(metric.unit(text))
    return a is not None and b is not None and a[1] == b[1] and abs(a[0] / b[0] - 1) < 1e-12


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '**': operator.pow, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
       '==': operator.eq, '!=': operator.ne}
