"""C07: subscripting a labelled array selects per dimension and keeps its axes in step."""
import itertools

import numpy

from ..core import contract, attempt, need, Skip, Unsupported
from ..phys import nest

FUNCS = ['eprempy.numeric._array.Array.__getitem__', 'eprempy.numeric._array.Array._getitem',
         'eprempy.numeric._array.Array._get_axis_size', 'eprempy.numeric._array.Array._load_array',
         'eprempy.numeric._array.Array._read_array', 'eprempy.numeric._index.resolve', 'eprempy.numeric._index.expand',
         'eprempy.numeric._index.expand_ellipsis', 'eprempy.physical._array.Array.__getitem__',
         'eprempy.physical._axis.Axis.__getitem__', 'eprempy.physical._axis.Symbols.__getitem__', 'eprempy.container.unwrap']
NAMES = ['time', 'shell', 'species', 'energy']
COORD = [[1.5, 2.5, 4.0, 8.0, 9.0], 's']
SYMB = ['H+', 'He++', 'O6+', 'Fe', 'C']


def axes_for(shape, order=0):
    from eprempy import physical, measured
    out, vals = {}, []
    for i, n in enumerate(shape):
        k = (i + order) % 3
        if k == 0:
            v = COORD[0][:n]
            out[NAMES[i]] = physical.coordinates(measured.sequence(v, unit='s'))
        elif k == 1:
            v = list(range(n))
            out[NAMES[i]] = physical.points(range(n))
        else:
            v = SYMB[:n]
            out[NAMES[i]] = physical.symbols(v)
        vals.append(list(v))
    return out, vals


class Lazy:
    """An array-like store that, like a NetCDF variable, selects only when subscripted and per dimension."""

    def __init__(self, a):
        self._a = a
        self.shape, self.ndim, self.size, self.dtype = a.shape, a.ndim, a.size, a.dtype

    def __array__(self, *args, **kw):
        return numpy.array(self._a)

    def __len__(self):
        return len(self._a)

    def __getitem__(self, i):
        return self._a[i]


def make(what, xs, shape, order=0):
    from eprempy import real, physical
    data = nest(xs, shape)
    axes, vals = axes_for(shape, order)
    if what == 'real':
        return real.array(data, *NAMES[:len(shape)]), vals
    if what == 'lazy':
        return real.array(Lazy(numpy.array(data)), *NAMES[:len(shape)]), vals
    return physical.array(data, unit='km', axes=axes), vals


def places(sel, n):
    """The positions a selector names in a dimension of length n, or None if out of range."""
    if isinstance(sel, slice):
        return list(range(n)[sel])
    if isinstance(sel, (list, tuple)):
        if any(not -n <= i < n for i in sel):
            return None
        return [i % n for i in sel]
    return [sel % n] if -n <= sel < n else None


def fill(ndim, sels):
    """Selectors with an ellipsis replaced by full slices, or None if there are too many."""
    if Ellipsis in [s for s in sels if not isinstance(s, list)]:
        i = [s is Ellipsis for s in sels].index(True)
        k = ndim - len(sels) + 1
        if k == 0 and i < len(sels) - 1:
            raise Skip()    # only a final ellipsis may stand for no dimension
        if k < 0:
            return None
        return list(sels[:i]) + [slice(None)] * k + list(sels[i + 1:])
    return list(sels) if len(sels) == ndim else None


def subscript(S, x, ref, vals, sels, how, label):
    """Check x[sels]; returns the result, the same of the model, and its axis values."""
    full = fill(ref.ndim, sels)
    key = sels[0] if how == 'bare' and len(sels) == 1 else tuple(sels)
    r, e = attempt(lambda: x[key])
    idx = None if full is None else [places(s, n) for s, n in zip(full, ref.shape)]
    label = f'{label}[{", ".join(map(show, sels))}] of shape {ref.shape}'
    if idx is not None and any(i is None for i in idx) and any(i == [] for i in idx):
        raise Skip()    # nothing is selected either way
    if idx is None or any(i is None for i in idx):
        S.ensure(e is not None, f'{label} is refused', (lambda: str(r)) if not S.symbolic else None)
        return None
    S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
    want = ref
    for d, i in enumerate(idx):
        want = numpy.take(want, numpy.array(i, dtype=int), axis=d)
    names = tuple(x.dimensions)
    S.ensure(tuple(r.dimensions) == names, f'{label}: every dimension keeps its name', (lambda: r.dimensions) if not S.symbolic else None)
    got = r.data.array if hasattr(r, 'axes') else r.array
    S.ensure(tuple(got.shape) == want.shape and tuple(r.shape) == want.shape, f'{label}: the shape of the selections',
             (lambda: (r.shape, want.shape)) if not S.symbolic else None)
    S.ensure(S.both(*[S.eq(a, b) for a, b in zip(got.ravel(), want.ravel())]), f'{label}: the selected elements in order',
             (lambda: (got, want)) if not S.symbolic else None)
    new = [[v[j] for j in i] for v, i in zip(vals, idx)]
    if hasattr(r, 'axes'):
        S.ensure(str(r.unit) == str(x.unit), f'{label}: the unit')
        S.ensure(tuple(r.axes) == names, f'{label}: the axes keep their names')
        for k, (n, v) in enumerate(zip(names, new)):
            a = r.axes[n]
            S.ensure(type(a) is type(x.axes[n]) and len(a) == len(v) and
                     [z if isinstance(z, str) else float(z) for z in numpy.array(a.data)] == v,
                     f'{label}: the axis {n} is subscripted identically', (lambda: (list(numpy.array(a.data)), v)) if not S.symbolic else None)
            if hasattr(x.axes[n], 'unit'):
                S.ensure(str(a.unit) == str(x.axes[n].unit), f'{label}: the unit of the axis {n}')
    return r, want, new


def show(s):
    if isinstance(s, slice):
        return ':'.join('' if v is None else str(v) for v in (s.start, s.stop, s.step))
    return '...' if s is Ellipsis else str(s)


def ints(n):
    return list(range(-n - 1, n + 1))


def slices(n, step=(None, 2, -1, -2)):
    ends = [None] + list(range(-n - 1, n + 2))
    return [slice(a, b, c) for a in ends for b in ends for c in step]


def lists(n, k):
    return [list(t) for m in range(k + 1) for t in itertools.product(range(-n, n), repeat=m)]


ONE = [(n, s) for n in (1, 2, 3) for s in ints(n) + slices(n) + [Ellipsis] + lists(n, 2)]
KINDS = ['real', 'lazy', 'physical', 'physical 1', 'physical 2']


def unpack(what):
    return what.split()[0], int((what.split() + ['0'])[1])


def run(S, what, shape, sels, how='tuple'):
    w, order = unpack(what)
    n = 1
    for s in shape:
        n *= s
    xs = [S.real(f'x{i}', simple=True) for i in range(n)]
    x, vals = make(w, xs, shape, order)
    ref = numpy.array(nest(xs, shape), dtype=object)
    if not S.symbolic and S.coin('read first'):
        x.data if w == 'physical' else x.array
    subscript(S, x, ref, vals, sels, how, w)
    again = x.data.array if w == 'physical' else x.array
    S.ensure(S.both(*[S.eq(a, b) for a, b in zip(again.ravel(), xs)]), 'the array keeps its numbers')
    if w == 'physical':
        S.ensure([[z if isinstance(z, str) else float(z) for z in numpy.array(a.data)] for a in x.axes.values()] == vals, 'the array keeps its axes')


@contract('C07', 'one-dimension', sym='shape', rand=(0, 0), max_paths=(20000, 20000),
          bound='lengths 1-3, every integer, slice and list of up to two indices in range, and just out of range; all real elements', functions=FUNCS)
def one_dimension(S):
    """Along one dimension every integer, slice, list of indices and ellipsis selects as on a sequence."""
    what = S.choice('what', KINDS)
    n, s = S.choice('selector', ONE)
    if isinstance(s, list) and not s:
        raise Skip()
    run(S, what, (n,), [s], S.choice('how', ['tuple', 'bare']) if what in ('real', 'physical') and not isinstance(s, list) else 'tuple')


def few(n):
    return [0, -1, n, -n - 1, slice(None), slice(1, None), slice(None, None, -1), slice(0, 0), [0], list(range(n))[::-1] + [-1], [n]]


TWO = [(a, b) for a in few(2) for b in few(3)]


@contract('C07', 'two-dimensions', sym='shape', rand=(0, 0), max_paths=(20000, 20000),
          bound='shape (2, 3), every pair of eleven kinds of selector, and ellipses; all real elements', functions=FUNCS)
def two_dimensions(S):
    """Along two dimensions the selections are independent and the axes stay in step."""
    a, b = S.choice('selectors', TWO + [(Ellipsis, s) for s in few(3)] + [(s, Ellipsis) for s in few(2)])
    run(S, S.choice('what', KINDS), (2, 3), [a, b])


THREE = [t for t in itertools.product([0, -1, slice(None), slice(None, None, -1), [1, 0], [0]], repeat=3)]


@contract('C07', 'three-dimensions', sym='shape', rand=(0, 0), max_paths=(20000, 20000),
          bound='shape (2, 2, 2), every triple of six kinds of selector and every place of an ellipsis; all real elements', functions=FUNCS)
def three_dimensions(S):
    """The same along three dimensions."""
    t = S.choice('selectors', THREE)
    e = S.choice('ellipsis', [None, 0, 1, 2])
    sels = list(t)
    if e is not None:
        sels = [s for i, s in enumerate(t) if i != e]
        sels.insert(e, Ellipsis)
    run(S, S.choice('what', ['real', 'physical']), (2, 2, 2), sels)


@contract('C07', 'too-many', cases=lambda tier: [(w, n, k, e) for w in KINDS for n in (1, 2, 3) for k in (1, 2, 3) for e in (None, 'first', 'middle')],
          functions=FUNCS, bound='up to three dimensions and three selectors too many')
def too_many(S, case):
    """More selectors than dimensions are refused."""
    what, n, k, e = case
    shape = (2, 3, 2)[:n]
    sels = [0] * (n + k)
    if e == 'first':
        sels = [Ellipsis] + sels
    elif e == 'middle':
        sels = sels[:n] + [Ellipsis] + sels[n:]
    w, order = unpack(what)
    x, _ = make(w, [float(i) for i in range(int(numpy.prod(shape)))], shape, order)
    r, err = attempt(lambda: x[tuple(sels)])
    S.ensure(err is not None, f'{w} of {n} dimensions with {len(sels)} selectors is refused', lambda: str(r))


@contract('C07', 'chains', rand=(1500, 25000), bound='sampled chains of up to three subscriptions on up to four dimensions of length 1-5', functions=FUNCS)
def chains(S):
    """Repeated subscription of arrays, stored or derived, selects repeatedly."""
    shape = tuple(S.choice(f'n{i}', [1, 2, 3, 4, 5]) for i in range(S.choice('ndim', [1, 2, 3, 4])))
    n = int(numpy.prod(shape))
    if n > 60:
        raise Skip()
    xs = [S.real(f'x{i}', simple=True) for i in range(n)]
    what = S.choice('what', ['real', 'lazy', 'physical', 'netcdf'])
    ref = numpy.array(nest(xs, shape))
    if what == 'netcdf':
        import netCDF4
        from eprempy import real
        ds = netCDF4.Dataset('in-memory.nc', 'w', memory=4096)
        for d, k in zip(NAMES, shape):
            ds.createDimension(d, k)
        v = ds.createVariable('v', 'f8', tuple(NAMES[:len(shape)]))
        v[:] = ref
        x, vals = real.array(v, *NAMES[:len(shape)]), axes_for(shape)[1]
    else:
        x, vals = make(what, xs, shape, S.choice('order', [0, 1, 2]))
    orig = x
    if S.coin('convert') and what == 'physical':
        x, ref = x.withunit('m'), ref * 1000.0
    if S.coin('read'):
        x.data if what == 'physical' else x.array
    for step in range(S.choice('steps', [1, 2, 3])):
        sels = []
        for d, k in enumerate(ref.shape):
            c = S.choice(f'c{step}{d}', ['int', 'slice', 'slice', 'list', 'full'])
            if c == 'int':
                sels.append(S.choice(f'i{step}{d}', range(-k, k)))
            elif c == 'slice':
                ends = [None, None] + list(range(-k, k + 2))
                s = slice(S.choice(f'a{step}{d}', ends), S.choice(f'b{step}{d}', ends), S.choice(f's{step}{d}', [None, 1, 2, -1, -2]))
                sels.append(s if len(range(k)[s]) else slice(None))
            elif c == 'list':
                sels.append([S.choice(f'l{step}{d}{j}', range(-k, k)) for j in range(S.choice(f'm{step}{d}', [1, 2, 3]))])
            else:
                sels.append(slice(None))
        bad = S.choice(f'bad{step}', [None] * 8 + ['range', 'list', 'many'])
        if bad == 'range':
            d = S.choice('where', range(ref.ndim))
            sels[d] = ref.shape[d] + S.choice('off', [0, 1, 7])
        elif bad == 'list':
            d = S.choice('where', range(ref.ndim))
            sels[d] = [0, -ref.shape[d] - 1]
        elif bad == 'many':
            sels = sels + [0]
        elif S.coin(f'dots{step}'):
            i = S.choice(f'from{step}', range(len(sels) + 1))
            j = S.choice(f'to{step}', range(i, len(sels) + 1))
            sels = sels[:i] + [Ellipsis] + sels[j:]
        if what == 'netcdf' and step == 0 and any(isinstance(s, list) and (len(set(s)) != len(s)) for s in sels):
            pass
        out = subscript(S, x, ref, vals, sels, 'tuple', what)
        if out is None:
            break
        x, ref, vals = out
        S.ensure(tuple(x.shapemap.items()) == tuple(zip(NAMES, ref.shape)), 'shapemap', lambda: x.shapemap)
    if what == 'physical':
        S.ensure([float(z) for z in orig.data.array.ravel()] == [float(z) for z in xs], 'the first array is unchanged')


@contract('C07', 'repeated reads', rand=(150, 1500), bound='sampled sequences of up to 6 subscripts of one array', functions=FUNCS)
def reads(S):
    """Each subscript of one array selects from its own elements, whatever was read before."""
    shape = tuple(S.choice(f'n{i}', [1, 2, 3, 4]) for i in range(S.choice('ndim', [1, 2, 3])))
    xs = [S.real(f'x{i}', simple=True) for i in range(int(numpy.prod(shape)))]
    what = S.choice('what', ['real', 'lazy', 'lazy', 'physical', 'netcdf'])
    ref = numpy.array(nest(xs, shape))
    if what == 'netcdf':
        import netCDF4
        from eprempy import real
        ds = netCDF4.Dataset('in-memory.nc', 'w', memory=4096)
        for d, k in zip(NAMES, shape):
            ds.createDimension(d, k)
        v = ds.createVariable('v', 'f8', tuple(NAMES[:len(shape)]))
        v[:] = ref
        x, vals = real.array(v, *NAMES[:len(shape)]), axes_for(shape)[1]
    else:
        x, vals = make(what, xs, shape, S.choice('order', [0, 1, 2]))
    for step in range(S.choice('steps', [2, 4, 6])):
        sels = []
        for d, k in enumerate(shape):
            c = S.choice(f'c{step}{d}', ['int', 'slice', 'list', 'all', 'reverse', 'shuffle', 'full', 'full'])
            sels.append(S.choice(f'i{step}{d}', range(-k, k)) if c == 'int' else
                        slice(S.choice(f'a{step}{d}', range(k)), None) if c == 'slice' else
                        [S.choice(f'l{step}{d}{j}', range(-k, k)) for j in range(2)] if c == 'list' else
                        list(range(k)) if c == 'all' else slice(None, None, -1) if c == 'reverse' else
                        S.shuffled(f'o{step}{d}', range(k)) if c == 'shuffle' else slice(None))
        subscript(S, x, ref, vals, sels, 'tuple', what)
        again = S.choice(f'then{step}', [None, None, 'array', 'numpy', 'dtype'])
        if again:
            r = numpy.array(x if again == 'numpy' or what == 'physical' else x.array)
            S.ensure(numpy.array_equal(r, ref), 'all elements', lambda: (sels, r, ref))


@contract('C07', 'iterates', rand=(100, 1000), bound='sampled arrays', functions=FUNCS)
def iterates(S):
    """A single integer, slice or ellipsis on an array of several dimensions selects along the first."""
    shape = S.choice('shape', [(2, 3), (3, 1, 2), (4, 2)])
    xs = [S.real(f'x{i}', simple=True) for i in range(int(numpy.prod(shape)))]
    ref = numpy.array(nest(xs, shape))
    what = S.choice('what', ['real', 'physical'])
    x, vals = make(what, xs, shape)
    s = S.choice('s', [0, -1, 1, slice(None), slice(1, None), slice(None, None, -1), Ellipsis])
    r = x[s]
    want = ref if s is Ellipsis else ref[[s]] if isinstance(s, int) else ref[s]
    got = r.data.array if what == 'physical' else r.array
    S.ensure(got.shape == want.shape and numpy.array_equal(got, want), f'{what}[{show(s)}]', lambda: (got, want))
