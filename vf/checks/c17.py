"""C17: restricting an observable selects or interpolates without distorting values."""
import os
import shutil

import numpy

from ..core import contract, attempt, need, Skip
from .. import dataset as D
from . import c16
from .c16 import SYSTEMS, Values

T, S_, P, E, M = 'time', 'shell', 'species', 'energy', 'mu'
OBJ = 'eprempy.observable._objects.'
SELECT = [OBJ + 'Quantity.__getitem__', OBJ + 'Quantity._normalize', OBJ + 'Quantity._shell_or_radius', OBJ + 'Context.implement',
          OBJ + 'Context._parse_user_arg', 'eprempy.observable._interfaces.Implementations._observe',
          'eprempy.observable._interfaces.Implementations._subscript', 'eprempy.observable._interfaces._normalize_indices']
INTERP = ['eprempy.observable._interfaces.' + n for n in (
    'Implementations._interpolate', 'Implementations._compute_interpolants', 'Implementations._get_axis_interpolant',
    'Implementations._get_grid_interpolant', 'interpolate', '_update_interpolation', '_apply_interpolation', '_apply_interp1d',
    '_check_interpolation_bounds')] + ['eprempy.numeric._index.restrict']
DIMS = {**{n: (T, S_) for n in ('r', 'theta', 'phi', 'br', 'btheta', 'bphi', 'ur', 'utheta', 'uphi', 'rho')},
        'time': (T,), 'energy': (E,), 'mu': (M,), 'v': (E,), 'mass': (P,), 'charge': (P,), 'f': (T, S_, P, E, M),
        **{n: t[0] for n, t in c16.TABLE.items()}}
STORED = ('r', 'theta', 'phi', 'br', 'btheta', 'bphi', 'ur', 'utheta', 'uphi', 'rho', 'f')
AXES = (T, E, M)
# compatible units of each axis, and how many of them make one coherent unit of each system
OTHER = {T: [('day', 1 / 86400), ('s', 1.0), ('h', 1 / 3600), ('min', 1 / 60)],
         E: [('MeV', (1 / 1.602177e-13, 1 / 1.602177e-6)), ('J', (1.0, 1e-7)), ('erg', (1e7, 1.0)), ('keV', (1 / 1.602177e-16, 1 / 1.602177e-9))],
         M: [('1', 1.0)],
         'radius': [('au', (1 / 1.495978707e11, 1 / 1.495978707e13)), ('m', (1.0, 1e-2)), ('cm', (1e2, 1.0)), ('km', (1e-3, 1e-5))]}


def other(S, axis, system):
    name, factor = S.rng.choice(OTHER[axis])
    return name, factor if isinstance(factor, float) else factor[SYSTEMS.index(system)]


class Data:
    """A dataset on disk, its quantities and the numbers that are presented."""

    def __init__(self, S, **more):
        text, self.parameters = c16.settings(S)
        pick = S.rng.choice
        species = pick([((1.0,), (1.0,)), ((1.0, 4.0), (1.0, 2.0)), ((4.0, 1.0, 16.0), (2.0, 1.0, 6.0))])
        options = dict(nt=pick([1, 2, 3, 5, 11]), ns=pick([1, 2, 3, 6, 11]), ne=pick([1, 2, 3, 5]), nm=pick([2, 3]), mass=species[0], charge=species[1],
                       flux=pick([False, False, True]))
        options.update(more)
        self.recipe = D.recipe(numpy.random.default_rng(S.rng.randrange(2 ** 31)), **options)
        if S.rng.random() < .25:  # radii that do not move
            self.recipe['R'][2][:] = self.recipe['R'][2][0]
        self.path, self.cfg = D.place(self.recipe, config=text)
        self.system = pick(SYSTEMS)
        self.q = self.fresh()
        self.size = {T: options['nt'], S_: options['ns'], P: len(species[0]), E: options['ne'], M: options['nm']}
        self.symbols = [{1.0: 'H+', 4.0: 'He++', 16.0: 'O++++++'}[m] for m in species[0]]
        self.v = Values(self.path, self.system, self.parameters, self.recipe)
        # (a derivative, or a sum over widths, needs two places)
        absent = {'f'} if options['flux'] else set()
        absent |= ({'divu'} if options['nt'] < 2 else set()) | ({'energy density', 'average energy'} if options['ne'] < 2 else set())
        self.names = [n for n in DIMS if n not in absent]
        self.axis = {T: self.v.time, E: self.v.energy, M: self.v.mu}

    def fresh(self): return need('eprempy.observable', 'quantities')(self.path, self.cfg, self.system)
    def between(self, a): return self.size[S_ if a == 'radius' else a] > 1
    def close(self): shutil.rmtree(os.path.dirname(self.path))


def selector(S, data, dim, values=True):
    """A selector along one dimension and the positions it selects."""
    n = data.size[dim]
    kind = S.rng.choice(['index', 'slice', 'list', 'full', 'value' if values else 'index'])
    if kind == 'index':
        i = S.rng.randrange(n)
        return (i - n if dim != S_ and S.rng.random() < .3 else i), [i]
    if kind == 'slice':
        a = S.rng.randrange(n)
        b = S.rng.randrange(a + 1, n + 1)
        s = S.rng.choice([slice(a, b), slice(a - n, b), slice(a, b, 2), slice(None, b), slice(a, None)])
        return s, list(range(n))[s]
    if kind == 'list':
        found = sorted(S.rng.sample(range(n), S.rng.randrange(1, n + 1)))
        return S.rng.choice([list, tuple])(found), found
    if kind == 'value' and dim == P:
        i = S.rng.randrange(n)
        return data.symbols[i], [i]
    if kind == 'value' and dim in AXES:
        found = sorted(S.rng.sample(range(n), S.rng.randrange(1, min(n, 3) + 1)))
        name, factor = other(S, dim, data.system)
        if dim == E and name not in ('J', 'erg'):  # in the unit of the file, as a user has it
            name, numbers = S.rng.choice([('MeV', 1.0), ('keV', 1e3)]), data.recipe['egrid'][2][0]
            name, factor = name
        elif dim == T and name == 'day':
            numbers, factor = data.recipe['time'][2], 1.0
        else:
            numbers = data.axis[dim]
        return tuple(float(numbers[i] * factor) for i in found) + (name,), found
    return slice(None), list(range(n))


def shorten(S, sel):
    """The same request with an ellipsis, if its ends are full slices."""
    sel = list(sel)
    if len(sel) > 1 and S.rng.random() < .4:
        if sel[-1] == slice(None):
            while len(sel) > 1 and sel[-1] == slice(None):
                sel.pop()
            return tuple(sel) + (Ellipsis,)
        if sel[0] == slice(None):
            while len(sel) > 1 and sel[0] == slice(None):
                sel.pop(0)
            return (Ellipsis,) + tuple(sel)
    return tuple(sel)


def ask(Q, sel): return Q[sel if len(sel) > 1 else sel[0]]


def equal(got, expected, size, tol=1e-6):
    g, w = numpy.asarray(got, dtype=float), numpy.asarray(expected, dtype=float)
    return g.shape == w.shape and bool(numpy.all(abs(g - w) <= tol * abs(w) + 1e-9 * size))


@contract('C17', 'selection', rand=(36, 400), functions=SELECT, bound='datasets of up to 5x6x2x5x3 random values')
def selection(S):
    """Observing with indices or stored values gives what observing everything and then selecting gives."""
    data = Data(S)
    try:
        names = S.rng.sample(data.names, 8)
        if S.rng.random() < .5:
            names.append(S.rng.choice(['ar', 'intflux']))
        for name in names:
            Q = data.q[name]
            full = Q[...]
            whole = numpy.array(full)
            for _ in range(3):
                dims = DIMS.get(name) or (T, S_, P, E)
                pairs = [selector(S, data, d, values=not (name == 'intflux' and d == E)) for d in dims]
                if name == 'intflux' and not isinstance(pairs[-1][0], slice):
                    pairs[-1] = slice(None), list(range(data.size[E]))
                sel, found = shorten(S, [p[0] for p in pairs]), [p[1] for p in pairs]
                got = ask(Q, sel)
                expected = whole[numpy.ix_(*found)]
                S.ensure(equal(got, expected, abs(whole).max()), f'{name}: the selected numbers',
                         lambda: (sel, numpy.shape(numpy.array(got)), expected.shape, numpy.array(got).ravel()[:4], expected.ravel()[:4]))
                S.ensure(bool(got.unit & full.unit), f'{name}: the unit')
                S.ensure(tuple(got.dimensions) == tuple(full.dimensions), f'{name}: the dimensions')
                for d, places in zip(tuple(full.dimensions), found):
                    if d in AXES:
                        a, b = numpy.array(got.axes[d].data, dtype=float), numpy.array(full.axes[d].data, dtype=float)[places]
                        S.ensure(numpy.allclose(a, b, rtol=2e-5, atol=0), f'{name}: the coordinates of {d}', lambda: (sel, a, b))
                    elif d == P:
                        S.ensure([str(x) for x in got.axes[d].data] == [data.symbols[i] for i in places], f'{name}: the species')
                    elif d == S_:
                        S.ensure([int(x) for x in got.axes[d].data] == places, f'{name}: the shells',
                                 lambda: (sel, [int(x) for x in got.axes[d].data], places))
    finally:
        data.close()


# ---- interpolation

class At:
    """The stored arrays interpolated to radii, then to coordinates of other axes."""

    def __init__(self, v, radius=None, **axes):
        self.__dict__.update({k: getattr(v, k) for k in ('c', 'AU', 'mev', 'parameters', 'system')})
        self.formulas, self.radius, self.axes, self.grid = v, radius, axes, {T: v.time, E: v.energy, M: v.mu}

    def stored(self, name): return self.apply(getattr(self.formulas, name), DIMS[name])

    def apply(self, x, dims):
        """Linear interpolation of an array along its dimensions."""
        if self.radius is not None and S_ in dims:
            r = self.formulas.r
            x = numpy.stack([numpy.stack([line(r[i], x[i], target) for target in self.radius]) for i in range(len(r))])
        for axis, targets in self.axes.items():
            if axis in dims:
                d = dims.index(axis)
                y = numpy.moveaxis(x, d, 0)
                x = numpy.moveaxis(numpy.stack([line(self.grid[axis], y, target) for target in targets]), 0, d)
        return x


def line(x, y, target):
    if x[-1] < x[0]:
        x, y = x[::-1], y[::-1]
    k = min(max(int(numpy.searchsorted(x, target)) - 1, 0), len(x) - 2)
    w = (target - x[k]) / (x[k + 1] - x[k])
    return (1 - w) * y[k] + w * y[k + 1]


class Formula(Values):
    """The formulas of the stream evaluated on interpolated stored arrays."""

    def __init__(self, at):
        v = at.formulas
        self.__dict__.update({k: getattr(v, k) for k in ('c', 'AU', 'mev', 'parameters', 'system', 'time', 'v', 'mass', 'charge', 'energy')})
        for name in STORED:
            if hasattr(v, name):
                setattr(self, name, at.stored(name))
        self.at = at

    def rg(self, energy):
        found = Values.rg(self, energy)
        return self.at.apply(found, (P, E)) if len(energy) == len(self.energy) else found


def meanings(v, name, at):
    """The admitted values of a quantity at places between those stored."""
    dims = DIMS[name]
    whole = v.axis[name] if name in AXES else getattr(v, v[name] if name not in STORED else name)
    yield at.apply(whole, dims)
    if name in ('x', 'y', 'z', 'bmag', 'umag', 'ubmag', 'udotb', 'upara', 'uperp', 'angle', 'mfp'):
        f = Formula(at)
        yield getattr(f, v[name])


def targets(S, data, axis, count, stored=True):
    """Coordinates strictly between those stored, with now and then one that is stored."""
    if axis == 'radius':
        r = data.v.r
        lo, hi = r[:, 0].max(), r[:, -1].min()
        found = [lo + (hi - lo) * (0.02 + 0.96 * S.rng.random()) for _ in range(count)]
        inside = [x for x in r.ravel() if lo < x < hi]
        if stored and inside and S.rng.random() < .3:
            found[S.rng.randrange(count)] = S.rng.choice(inside)
        return found
    g = data.axis[axis]
    found = []
    for _ in range(count):
        k, w = S.rng.randrange(len(g) - 1), 0.05 + 0.9 * S.rng.random()
        found.append(g[k] * (1 - w) + g[k + 1] * w)
    if stored and count > 1 and S.rng.random() < .3:
        found[S.rng.randrange(count)] = S.rng.choice(list(g))
    return found


@contract('C17', 'interpolation', rand=(40, 500), functions=SELECT + INTERP, bound='datasets of up to 5x6x2x5x3 random values')
def interpolation(S):
    """Between stored times, energies, cosines or radii, the numbers are linear interpolations of their neighbours."""
    data = Data(S)
    v = data.v
    v.axis = data.axis
    try:
        for name in S.rng.sample(data.names, 10):
            dims = DIMS[name]
            able = [a for a in (T, E, M, 'radius') if (S_ if a == 'radius' else a) in dims and data.between(a)]
            if not able:
                continue
            use = S.rng.sample(able, min(len(able), S.rng.choice([1, 1, 2, 3])))
            at, sel, keep = {}, [], []
            for d in dims:
                a = 'radius' if d == S_ else d
                if a in use:
                    found = targets(S, data, a, S.rng.choice([1, 1, 2, 3, 4]))
                    unit, factor = other(S, a, data.system)
                    # (units agree to five digits: use the coherent one where the numbers decide)
                    if a in (E, 'radius'):
                        unit, factor = {E: ('J', 'erg'), 'radius': ('m', 'cm')}[a][SYSTEMS.index(data.system)], 1.0
                    asked = tuple(float(x * factor) for x in found) + (unit,)
                    if len(found) == 1 and a != 'radius' and not asked[0].is_integer() and S.rng.random() < .3:
                        asked = need('eprempy.measured', 'value')(asked[0], unit=unit)
                    sel.append(asked)
                    at[a], where = found, list(range(len(found)))
                else:
                    chosen, where = selector(S, data, d)
                    sel.append(chosen)
                keep.append(where)
            got = ask(data.q[name], shorten(S, sel))
            at = At(v, **at)
            options = [w[numpy.ix_(*keep)] for w in meanings(v, name, at)]
            size = abs(options[0]).max() + v.scale(name)
            S.ensure(any(equal(got, w, size, 1e-5) for w in options), f'{name}: linear between neighbours',
                     lambda: (sel, numpy.array(got).shape, options[0].shape, numpy.array(got).ravel()[:4], [w.ravel()[:4] for w in options]))
            for d, s in zip(dims, sel):
                a = 'radius' if d == S_ else d
                if a in use:
                    S.ensure(a in got.dimensions and numpy.allclose(numpy.array(got.axes[a].data, dtype=float),
                                                                    at.radius if a == 'radius' else at.axes[a], rtol=1e-5),
                             f'{name}: the requested coordinates of {a}', lambda: (sel, dict(got.axes)))
    finally:
        data.close()


@contract('C17', 'units', rand=(30, 300), functions=SELECT + INTERP, bound='datasets of up to 5x6x2x5x3 random values')
def units(S):
    """A request in another compatible unit is the same request."""
    data = Data(S)
    try:
        for name in S.rng.sample(data.names, 8):
            dims = DIMS[name]
            able = [a for a in (T, E, M, 'radius') if (S_ if a == 'radius' else a) in dims and data.between(a)]
            if not able:
                continue
            a = S.rng.choice(able)
            found = targets(S, data, a, S.rng.choice([1, 2, 3]), stored=False)  # (units agree to five digits)
            asked = []
            for unit, factor in OTHER[a]:
                f = factor if isinstance(factor, float) else factor[SYSTEMS.index(data.system)]
                sel = [slice(None)] * len(dims)
                sel[dims.index(S_ if a == 'radius' else a)] = tuple(float(x * f) for x in found) + (unit,)
                asked.append((unit, numpy.array(ask(data.q[name], tuple(sel)), dtype=float)))
            size = abs(asked[0][1]).max() + abs(numpy.array(data.q[name][...])).max()
            for unit, x in asked[1:]:
                S.ensure(x.shape == asked[0][1].shape and bool(numpy.all(abs(x - asked[0][1]) <= 2e-3 * size)),
                         f'{name}: {a} in {unit}', lambda: (found, asked[0][1].ravel()[:4], x.ravel()[:4]))
    finally:
        data.close()


@contract('C17', 'composites', rand=(30, 400), functions=SELECT + INTERP + ['eprempy.observable._objects.Quantity._apply'],
          bound='datasets of up to 5x6x2x5x3 random values, two factors')
def composites(S):
    """A product, ratio, sum, difference or power, restricted, is that of its restricted members, at the same coordinates."""
    data = Data(S)
    try:
        for _ in range(6):
            a, b = S.rng.choice(data.names), S.rng.choice(data.names)
            kind = S.rng.choice(['*', '/', '+', '-', '**', 'named'])
            if kind in '+-':
                alike = [n for n in data.names if DIMS[n] == DIMS[a] and bool(data.q[n].unit | data.q[a].unit)]
                b = S.rng.choice(alike)
            if kind == '**':
                b = a
            if kind == 'named' and (' ' in a + b or a == b) or kind == '/' and b in ('mu', 'fluence', 'time', 'udotb'):
                continue
            order = tuple(dict.fromkeys(DIMS[a] + DIMS[b]))
            if any([d for d in order if d in DIMS[x]] != list(DIMS[x]) for x in (a, b)):
                continue
            one, two = data.q[a], data.q[b]
            if kind in '+-':
                two = two.withunit(one.unit)
            whole = {'*': lambda: one * two, '/': lambda: one / two, '+': lambda: one + two, '-': lambda: one - two,
                     '**': lambda: one ** 2, 'named': lambda: data.q[f'{a} * {b}']}[kind]()
            found = tuple(whole.dimensions)
            S.ensure(sorted(found) == sorted(order), f'{kind}: the dimensions', lambda: (a, b, found))
            use = {}
            for d in order:
                x = 'radius' if d == S_ else d
                if (x in AXES or x == 'radius' and {T, S_} <= set(DIMS[a]) & set(DIMS[b])) and data.between(x) and S.rng.random() < .4:
                    unit, factor = other(S, x, data.system)
                    use[d] = tuple(float(t * factor) for t in targets(S, data, x, S.rng.choice([1, 2, 3]), stored=False)) + (unit,)
                else:
                    use[d] = selector(S, data, d)[0]
            pick = lambda dims: tuple(use[d] for d in dims)
            got = ask(whole, pick(found))
            x, y = ask(one, pick(DIMS[a])), ask(two, pick(DIMS[b]))
            radial = 'radius' in tuple(x.dimensions) + tuple(y.dimensions)
            shown = ['radius' if d == S_ and radial else d for d in found]
            S.ensure(list(got.dimensions) == shown, f'{kind}: the dimensions found', lambda: (a, b, tuple(got.dimensions), shown))

            def spread(z): return numpy.array(z)[tuple(slice(None) if d in z.dimensions else None for d in shown)]
            if any([d for d in shown if d in z.dimensions] != list(z.dimensions) for z in (x, y)):
                continue
            nx, ny = spread(x), spread(y)
            expected = nx * ny if kind in ('*', 'named') else nx / ny if kind == '/' else nx + ny if kind == '+' else nx - ny if kind == '-' else nx ** 2
            size = abs(nx).max() if kind in '+-' else abs(expected).max()
            S.ensure(equal(got, expected, size, 1e-9), f'{a} {kind} {b}: the numbers',
                     lambda: (use, numpy.array(got).ravel()[:4], expected.ravel()[:4]))
            for d in shown:
                source = next(z for z in (x, y) if d in z.dimensions)
                S.ensure(len(got.axes[d]) == got.shape[shown.index(d)] and [str(t) for t in got.axes[d].data] == [str(t) for t in source.axes[d].data],
                         f'{a} {kind} {b}: the coordinates of {d}', lambda: (use, dict(got.axes), dict(source.axes)))
    finally:
        data.close()


@contract('C17', 'refusals', rand=(30, 300), functions=SELECT + INTERP, bound='datasets of up to 5x6x2x5x3 random values')
def refusals(S):
    """Requests outside the coordinates, of unknown names or in inconsistent units are refused."""
    data = Data(S, **({'nt': 1} if S.rng.random() < .4 else {}))
    try:
        for name in S.rng.sample(data.names, 8):
            dims, Q = DIMS[name], data.q[name]
            sel = [selector(S, data, d)[0] for d in dims]
            d = S.rng.choice(dims)
            i = dims.index(d)
            kind = S.rng.choice(['outside', 'index', 'unit', 'count', 'mixed'])
            if kind in ('outside', 'mixed'):
                a = 'radius' if d == S_ and S.rng.random() < .8 else d
                if a in AXES or a == 'radius':
                    g = data.v.r if a == 'radius' else data.axis[a]
                    if a == 'radius' and T in dims and S.rng.random() < .6:
                        sel[dims.index(T)] = j = S.rng.randrange(data.size[T])
                        g = g[j]
                    unit, factor = other(S, a, data.system)
                    span = g.max() - g.min()
                    # (units agree to five digits)
                    by = lambda bound: S.rng.choice([(span or abs(bound)) * (0.01 + S.rng.random()), max(span, abs(bound)) * S.rng.choice([3e-4, 3e-3])])
                    x = S.rng.choice([g.max() + by(g.max()), g.min() - by(g.min())])
                    asked = [g.min() + span * S.rng.random() for _ in range(S.rng.choice([1, 2, 3]) if kind == 'mixed' else 0)]
                    asked.insert(S.rng.randrange(len(asked) + 1), x)
                    sel[i] = tuple(float(y * factor) for y in asked) + (unit,)
                elif d == P:
                    sel[i] = S.rng.choice(['C+6', 'Zz', 'O+', ('H+', 'Fe+')])
                else:
                    sel[i] = data.size[d] + S.rng.randrange(3)
            elif kind == 'index':
                sel[i] = S.rng.choice([data.size[d] + S.rng.randrange(3), -data.size[d] - 1 - S.rng.randrange(3), [0, data.size[d]]])
            elif kind == 'unit':
                sel[i] = (1.0, {T: 'm', E: 's', M: 'kg', S_: 'kg', P: 'm'}[d])
            else:
                sel = sel + [0] if S.rng.random() < .5 and len(dims) > 1 else sel + [slice(None)] * 2
            got, exc = attempt(lambda: ask(Q, tuple(sel)))
            S.ensure(exc is not None, f'{name}: refused ({kind})', lambda: (sel, numpy.array(got).ravel()[:4]))
        for bad in ('no such thing', 'Q', 'brr', 'time travel'):
            S.ensure(attempt(lambda: data.q[bad])[1] is not None, 'an unknown quantity is refused', bad)
        name = S.rng.choice(data.names)
        S.ensure(attempt(lambda: data.q[name].withunit('kg A'))[1] is not None, 'an inconsistent unit is refused')
    finally:
        data.close()


def request(S, data):
    """A random valid request: a quantity, a selector and perhaps a unit."""
    name = S.rng.choice(data.names)
    dims = DIMS[name]
    sel = []
    for d in dims:
        a = 'radius' if d == S_ else d
        if (a in AXES or a == 'radius') and data.between(a) and S.rng.random() < .3:
            unit, factor = other(S, a, data.system)
            sel.append(tuple(float(x * factor) for x in targets(S, data, a, S.rng.choice([1, 2, 3]), stored=False)) + (unit,))
        else:
            sel.append(selector(S, data, d)[0])
    unit = S.rng.choice([None, {'br': 'nT', 'ur': 'km / s', 'r': 'au', 'mfp': 'au', 'umag': 'km / s', 'bmag': 'nT', 'energy': 'MeV'}.get(name)])
    return name, tuple(sel), unit


def perform(q, made):
    name, sel, unit = made
    Q = q[name]
    x = ask(Q if unit is None else Q.withunit(unit), sel)
    return x, str(x.unit), tuple(x.dimensions)


@contract('C17', 'histories', rand=(30, 350), functions=SELECT + INTERP + ['eprempy.observable._interfaces.Quantities.__getitem__'],
          bound='histories of up to eight requests on random datasets')
def histories(S):
    """What was asked before, of the same or other quantities, does not change an answer, nor does writing to answers."""
    data = Data(S)
    try:
        made = [request(S, data) for _ in range(5)]
        made += [S.rng.choice(made) for _ in range(3)]
        stale = data.q['br']
        first = numpy.array(stale[...])
        for m in made:
            x, u, d = perform(data.q, m)
            alone, u0, d0 = perform(data.fresh(), m)
            a, b = numpy.array(x, dtype=float), numpy.array(alone, dtype=float)
            S.ensure(numpy.array_equal(a, b) and u == u0 and d == d0, 'as if it were the first request',
                     lambda: (m, a.ravel()[:4], b.ravel()[:4], u, u0))
            y = numpy.array(x)
            y[...] = -1.0
            if S.rng.random() < .5:
                attempt(lambda: x.data.__setitem__(Ellipsis, 7.0))  # refused, or only this answer changes
        S.ensure(numpy.array_equal(numpy.array(stale[...]), first), 'a quantity obtained earlier gives what it gave')
    finally:
        data.close()


# ---- discharged for every number

class Linear:
    """Stands for scipy's linear interpolation: what it documents, for any numbers."""

    def __init__(self, x, y, axis=0, **k):
        self.x, self.y = numpy.asarray(x, dtype=float), numpy.moveaxis(numpy.asarray(y), axis, 0)

    def __call__(self, v):
        v = float(v)
        if not self.x[0] <= v <= self.x[-1]:
            raise ValueError("A value in x_new is outside the interpolation range.")
        k = min(max(int(numpy.searchsorted(self.x, v)), 1), len(self.x) - 1)
        return self.y[k - 1] + (v - self.x[k - 1]) / (self.x[k] - self.x[k - 1]) * (self.y[k] - self.y[k - 1])


GROUPS = {'stream': (['Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho'], ('br', 'uphi', 'rho', 'bmag', 'upara', 'udotb')),
          'places': (['T', 'P'], ('theta', 'phi', 'x', 'z')),
          'distribution': (['Dist'], ('f', 'flux', 'fluence', 'energy density')),
          'flux': (['flux'], ('flux', 'fluence', 'energy density', 'intflux'))}


def prepare(S, group, positive=False):
    variables, names = GROUPS[group]
    system = S.choice('system', SYSTEMS)
    recipe = D.symbolic(S, variables, nt=3, ns=2, ne=3, nm=2, flux=group == 'flux', units=c16.BASE)
    path, cfg = D.pretend(S, recipe)
    for v in variables:  # (a linear form that is small on positive numbers has small coefficients)
        for x in recipe[v][2].flat if positive or v == 'Br' else ():
            S.assume(x > 0)
    q = need('eprempy.observable', 'quantities')(path, cfg, system)
    return system, recipe, path, q, names


def elements(S, got, expected, label, detail):
    g, w = numpy.array(got), numpy.asarray(expected)
    S.ensure(g.shape == w.shape, f'{label}: shape', lambda: (detail, g.shape, w.shape))
    S.ensure(S.both(*[(x == y) if S.symbolic else abs(x - y) <= 1e-9 * abs(y) for x, y in zip(g.ravel(), w.ravel())]), label, detail)


SELECTORS = {T: [1, -1, [0, 2], slice(1, None), slice(None, None, 2), [2]], S_: [1, 0, [1], slice(0, 1)], P: [0, [0], 'H+'],
             E: [2, -3, [1, 2], slice(0, 2)], M: [1, [0], slice(1, 2)]}


@contract('C17', 'every-number', sym='shape', functions=SELECT, rand=(0, 0), timeout_ms=(10000, 30000),
          bound='3 times, 2 shells, 1 species, 3 energies, 2 cosines; stated selectors along each dimension; every real number')
def every_number(S):
    """Selecting along any dimension by index, slice, list, symbol or stored value yields the elements at those places."""
    system, recipe, path, q, names = prepare(S, S.choice('group', list(GROUPS)))
    e, t = recipe['egrid'][2][0], recipe['time'][2]
    name = S.choice('name', names)
    Q = q[name]
    dims = {'intflux': (T, S_, P, E)}.get(name) or DIMS[name]
    whole = numpy.array(Q[...])
    values = {T: [((float(t[1]), 'day'), [1]), ((float(t[0] * 24), float(t[2] * 24), 'h'), [0, 2])],
              E: [((float(e[2]), 'MeV'), [2]), ((float(e[0] * 1e3), float(e[1] * 1e3), 'keV'), [0, 1])]}
    for i, d in enumerate(dims):
        if name == 'intflux' and d == E:
            options = [(s, s) for s in SELECTORS[E] if isinstance(s, slice)]
        else:
            options = [(s, s) for s in SELECTORS[d]] + values.get(d, [])
        for s, places in options:
            sel = [slice(None)] * len(dims)
            sel[i] = s
            n = whole.shape[i]
            places = [places % n] if isinstance(places, int) else [0] if isinstance(places, str) else places
            found = whole[tuple([slice(None)] * i + [places])]
            elements(S, Q[tuple(sel)], found, f'{name} along {d}', f'{s}')
    corner = tuple(0 if d in (P, M) else 1 for d in dims) if name != 'intflux' else None
    if corner:
        elements(S, Q[corner], whole[tuple(slice(i, i + 1) for i in corner)], f'{name} at one place', f'{corner}')


@contract('C17', 'between', sym='shape', functions=SELECT + INTERP, rand=(0, 0), timeout_ms=(10000, 30000),
          bound='3 times, 2 shells, 1 species, 3 energies, 2 cosines; stated targets; every real number')
def between(S):
    """Between stored coordinates, stored quantities (and linear forms of them) are the linear interpolation of their neighbours."""
    module = need('eprempy.observable', '_interfaces')
    if hasattr(module, 'interp1d'):
        S.patch(module, 'interp1d', Linear)
    group = S.choice('group', ['stream', 'places', 'distribution', 'flux'])
    system, recipe, path, q, names = prepare(S, group, positive=True)
    arrays = need('eprempy.datafile', 'arrays')(path, system)
    grid = {T: numpy.array(arrays.time, dtype=float), E: numpy.array(arrays.energy, dtype=float).reshape(-1),
            M: numpy.array(arrays.mu, dtype=float)}
    r = numpy.array(arrays.r, dtype=float)
    i = SYSTEMS.index(system)
    names = [n for n in names if n in STORED + ('flux', 'fluence', 'energy density')]
    name = S.choice('name', names)
    dims, Q = DIMS[name], q[name]
    whole = numpy.array(Q[...])
    able = [a for a in (T, E, M, 'radius') if (S_ if a == 'radius' else a) in dims]
    for axis in able + [T + '+radius']:
        at, x = [], whole
        sel = [slice(None)] * len(dims)
        if 'radius' in axis:
            target = max(r[:, 0]) * 0.25 + min(r[:, 1]) * 0.75
            sel[dims.index(S_)] = (float(target), ('m', 'cm')[i])
            w = [(target - r[k, 0]) / (r[k, 1] - r[k, 0]) for k in range(3)]
            x = numpy.stack([(1 - w[k]) * x[k, 0:1] + w[k] * x[k, 1:2] for k in range(3)])
        a = axis.split('+')[0]
        if a != 'radius':
            g, d = grid[a], dims.index(a)
            k = len(g) - 2
            target = g[k] * 0.7 + g[k + 1] * 0.3
            w = (target - g[k]) / (g[k + 1] - g[k])
            unit = {T: 's', E: ('J', 'erg')[i], M: '1'}[a]
            sel[d] = (float(target), unit)
            one, two = (numpy.take(x, [j], axis=d) for j in (k, k + 1))
            x = (1 - w) * one + w * two
        got = numpy.array(Q[tuple(sel)])
        S.ensure(got.shape == x.shape, f'{name} along {axis}: shape', lambda: (got.shape, x.shape))
        size = sum(whole.ravel()[1:], whole.ravel()[0])
        for g, y in zip(got.ravel(), x.ravel()):
            S.ensure(c16.within(S, g, y, size, 1e-5), f'{name} along {axis}')
