"""C16: derived observables equal their physical definitions."""
import fractions
import os
import shutil

import numpy
from scipy import integrate

from ..core import contract, attempt, need, Skip, Unsupported, close
from .. import dataset as D

F = fractions.Fraction
SYSTEMS = ('mks', 'cgs')
IMPL = 'eprempy.observable._interfaces.Implementations.'


def impl(*names): return [IMPL + n for n in names]


def unit(x): return need('eprempy.metric', 'unit')(x)
def dims(*names): return tuple(names)


T, S_, P, E = 'time', 'shell', 'species', 'energy'
# name: (dimensions, unit in each system, number in cgs of one unit of mks, aliases)
TABLE = {
    'x': ((T, S_), ('m', 'cm'), 1e2, ('X',)),
    'y': ((T, S_), ('m', 'cm'), 1e2, ('Y',)),
    'z': ((T, S_), ('m', 'cm'), 1e2, ('Z',)),
    'bmag': ((T, S_), ('T', 'G'), 1e4, ('B', '|B|', 'b mag')),
    'umag': ((T, S_), ('m s^-1', 'cm s^-1'), 1e2, ('U', '|u|', 'u_mag')),
    'angle': ((T, S_), ('rad', 'rad'), 1.0, ('flow angle',)),
    'upara': ((T, S_), ('m s^-1', 'cm s^-1'), 1e2, ('u_para',)),
    'uperp': ((T, S_), ('m s^-1', 'cm s^-1'), 1e2, ('Uperp',)),
    'ubmag': ((T, S_), ('m s^-1 T', 'cm s^-1 G'), 1e6, ()),
    'udotb': ((T, S_), ('m s^-1 T', 'cm s^-1 G'), 1e6, ()),
    'divu': ((T, S_), ('s^-1', 's^-1'), 1.0, ('div(U)',)),
    'rigidity': ((P, E), ('kg m s^-1 C^-1', 'g cm s^-1 statC^-1'), 1e5 / 2.99792458e9, ('Rg',)),
    'mfp': ((T, S_, P, E), ('m', 'cm'), 1e2, ('mean free path',)),
    'ar': ((T, S_, P, E), ('s^-1', 's^-1'), 1.0, ('acceleration rate',)),
    'energy density': ((T, S_, P), ('J m^-3', 'erg cm^-3'), 10.0, ('energy_density',)),
    'average energy': ((T, S_, P), ('J', 'erg'), 1e7, ('average_energy',)),
    'flux': ((T, S_, P, E), ('m^-2 s^-1 sr^-1 J^-1', 'cm^-2 s^-1 sr^-1 erg^-1'), 1e-11, ('J(E)', 'Flux')),
    'fluence': ((T, S_, P, E), ('m^-2 sr^-1 J^-1', 'cm^-2 sr^-1 erg^-1'), 1e-11, ()),
}
# accepted values, to the digits of the constants of the package
LIGHT = (2.99792458e8, 2.99792458e10)
AU = (1.495978707e11, 1.495978707e13)


class Values:
    """The definitions, evaluated on what the reader of the file presents."""

    def __init__(self, path, system, parameters, recipe):
        arrays = need('eprempy.datafile', 'arrays')(path, system)
        for name, var in D.NAMES.items():
            if var in recipe:
                setattr(self, name, numpy.array(getattr(arrays, name)))
        constants = need('eprempy.universal', 'Constants')(system)
        self.system = SYSTEMS.index(system)
        self.c, self.AU, self.mev = (float(constants[k].data) for k in ('c', 'au', 'MeV'))
        assert close(self.c, LIGHT[self.system], 1e-4) and close(self.AU, AU[self.system], 1e-4)
        self.parameters = parameters

    # ---- the stream
    @property
    def x(self): return self.r * numpy.sin(self.theta) * numpy.cos(self.phi)
    @property
    def y(self): return self.r * numpy.sin(self.theta) * numpy.sin(self.phi)
    @property
    def z(self): return self.r * numpy.cos(self.theta)
    @property
    def b2(self): return self.br ** 2 + self.btheta ** 2 + self.bphi ** 2
    @property
    def u2(self): return self.ur ** 2 + self.utheta ** 2 + self.uphi ** 2
    @property
    def ub(self): return self.ur * self.br + self.utheta * self.btheta + self.uphi * self.bphi
    @property
    def udotb(self): return self.ub
    @property
    def ubmag(self): return self.umag * self.bmag
    @property
    def bmag(self): return numpy.sqrt(self.b2)
    @property
    def umag(self): return numpy.sqrt(self.u2)
    @property
    def upara(self): return self.ub / self.bmag
    @property
    def uperp(self):
        cross = numpy.cross(numpy.stack([self.ur, self.utheta, self.uphi], -1),
                            numpy.stack([self.br, self.btheta, self.bphi], -1))
        return numpy.sqrt((cross ** 2).sum(-1)) / self.bmag
    @property
    def angle(self): return numpy.arctan2(self.uperp, self.upara)

    @property
    def divu(self):
        t, n = self.time, self.rho
        out = numpy.empty_like(n)
        out[0] = (n[1] - n[0]) / (t[1] - t[0])
        out[-1] = (n[-1] - n[-2]) / (t[-1] - t[-2])
        for i in range(1, len(t) - 1):  # second order on uneven times
            a, b = t[i] - t[i - 1], t[i + 1] - t[i]
            out[i] = (a * a * n[i + 1] - b * b * n[i - 1] + (b * b - a * a) * n[i]) / (a * b * (a + b))
        return -out / n

    # ---- the particles
    def rg(self, energy):
        m = self.mass[:, None]
        rest = m * self.c ** 2
        return numpy.sqrt(energy[None, :] * (energy[None, :] + 2 * rest)) / self.c / self.charge[:, None]

    @property
    def rigidity(self): return self.rg(self.energy)

    @property
    def mfp(self):
        p = self.parameters
        radial = (self.r / self.AU) ** p['mfpRadialPower']
        return p['lambda0'] * self.AU * radial[:, :, None, None] * \
            ((self.rigidity / self.rg(numpy.array([self.mev]))) ** p['rigidityPower'])[None, None]

    @property
    def ar(self):
        n = self.r.shape[1]
        up = numpy.minimum(numpy.arange(n) + 1, n - 1)
        down = numpy.maximum(numpy.arange(n) - 1, 0)
        dot = self.ur[:, up] * self.ur[:, down] + self.utheta[:, up] * self.utheta[:, down] \
            + self.uphi[:, up] * self.uphi[:, down]
        u = self.umag[:, up]
        du = u * abs(1 - dot / u ** 2)
        along = numpy.cos(self.angle) ** 2 + self.parameters['kper'] * numpy.sin(self.angle) ** 2
        k = self.mfp * (along / self.umag)[:, :, None, None] * self.v / 3
        return du[:, :, None, None] / (k[:, up] + k[:, down])

    @property
    def fiso(self):
        if hasattr(self, 'f'):
            return self.f.sum(-1) / self.f.shape[-1]
        return 0.5 * self.flux * self.mass[:, None] ** 2 / self.energy

    @property
    def J(self):
        if hasattr(self, 'f'):
            return 2 * self.fiso * self.energy / self.mass[:, None] ** 2
        return self.flux

    def moment(self, n): return (self.fiso * (self.v ** n * numpy.gradient(self.v))).sum(-1)

    @property
    def density(self): return self.mass * self.moment(4)
    @property
    def average(self): return self.mass * self.moment(4) / self.moment(2) / 2

    @property
    def fluence(self):
        dt = numpy.diff(self.time, prepend=self.time[0])
        return numpy.cumsum(self.J * dt[:, None, None, None], axis=0)

    def integral(self, e):
        """The integral of the flux above energy `e`, which a power law joins to the stored energies."""
        x, y = self.energy, self.J
        k = numpy.searchsorted(x, e, side='right') - 1
        if k < 0:
            return integrate.simpson(y, x=x)
        gamma = numpy.log(y[..., k + 1] / y[..., k]) / numpy.log(x[k + 1] / x[k])
        first = y[..., k] * (e / x[k]) ** gamma
        return integrate.simpson(numpy.concatenate([first[..., None], y[..., k + 1:]], -1),
                                 x=numpy.concatenate([[e], x[k + 1:]]))

    def scale(self, name):
        """The size of the members of a sum or difference, to which rounding errors are proportional."""
        if name in ('x', 'y', 'z'):
            return self.r.max()
        if name in ('upara', 'uperp'):
            return self.umag.max()
        if name == 'udotb':
            return self.ubmag.max()
        if name == 'ar':
            k = self.mfp * self.v / 3 / self.umag[:, :, None, None]
            return (self.umag[:, :, None, None] / k).max()
        if name == 'divu':
            return (self.rho.max() / self.rho.min()) / numpy.diff(self.time).min()
        return 1.0 if name == 'angle' else 0.0

    def __getitem__(self, name):
        return {'energy density': 'density', 'average energy': 'average', 'flux': 'J'}.get(name, name)


def want(values, name): return getattr(values, values[name])


def draw(S, **more):
    rng = numpy.random.default_rng(S.rng.randrange(2 ** 31))
    pick = S.rng.choice
    species = pick([((1.0,), (1.0,)), ((4.0,), (2.0,)), ((1.0, 4.0), (1.0, 2.0)), ((4.0, 1.0, 16.0), (2.0, 1.0, 6.0))])
    options = dict(nt=pick([2, 3, 5, 11]), ns=pick([1, 2, 4, 11]), ne=pick([2, 3, 6]), nm=pick([1, 2, 5]), mass=species[0],
                   charge=species[1], flux=pick([False, False, True]))
    options.update(more)
    return D.recipe(rng, **options)


def settings(S):
    """A configuration and its values."""
    pick = S.rng.choice
    lam, radial, rigid, kper = pick([0.1, 1.0, 0.75]), pick([2.0, 0.5, 0.0, 1.0]), pick([1 / 3, 0.5, 1.0, 0.0]), pick([0.01, 0.0, 0.3])
    text = f'lamo={lam!r}\nmfpRadialPower={radial!r}\nrigidityPower={rigid!r}\nkperxkpar={kper!r}\n'
    return text, {'lambda0': lam, 'mfpRadialPower': radial, 'rigidityPower': rigid, 'kper': kper}


def same(got, expected, scale=0.0, tol=1e-8):
    """Equal up to rounding; differences may lose digits to their members, of the stated scale."""
    g, w = numpy.asarray(got, dtype=float), numpy.asarray(expected, dtype=float)
    return g.shape == w.shape and bool(numpy.all(abs(g - w) <= tol * abs(w) + 1e-7 * scale))


@contract('C16', 'definitions', rand=(36, 450), functions=impl(*[k.replace(' ', '_') for k in TABLE], 'udotb', 'ubmag', '_fiso'),
          bound='datasets of up to 5x4x2x6x5 random values')
def definitions(S):
    """Every derived quantity equals its definition on the stored arrays, in the unit of the formula, in both systems."""
    text, parameters = settings(S)
    nt, ne = S.rng.choice([1, 2, 3, 5]), S.rng.choice([1, 2, 3, 6])
    recipe = draw(S, nt=nt, ne=ne)
    path, cfg = D.place(recipe, config=text)
    try:
        opened = {s: need('eprempy.observable', 'quantities')(path, cfg, s) for s in SYSTEMS}
        values = {s: Values(path, s, parameters, recipe) for s in SYSTEMS}
        # (a derivative, or a sum over widths, needs two places)
        absent = ({'divu'} if nt < 2 else set()) | ({'energy density', 'average energy'} if ne < 2 else set())
        names = [n for n in TABLE if n not in absent]
        S.rng.shuffle(names)
        for name in names:
            axes, units, ratio, aliases = TABLE[name]
            found = {}
            for i, s in enumerate(SYSTEMS):
                q = opened[s][S.rng.choice((name,) + aliases)]
                S.ensure(tuple(q.dimensions) == axes, f'{name}: its dimensions', lambda: tuple(q.dimensions))
                S.ensure(bool(q.unit & units[i]), f'{name} in {s}: the unit', lambda: str(q.unit))
                x = q[...] if S.rng.random() < .5 else q[tuple(slice(None) for _ in axes)]
                S.ensure(bool(x.unit & units[i]), f'{name} in {s}: the unit of the array', lambda: str(x.unit))
                S.ensure(tuple(x.dimensions) == axes, f'{name} in {s}: the dimensions of the array')
                found[s] = numpy.array(x)
                expected = want(values[s], name)
                S.ensure(same(found[s], expected, values[s].scale(name)), f'{name} in {s}: its definition',
                         lambda: (found[s].shape, expected.shape, found[s].ravel()[:6], expected.ravel()[:6]))
                S.ensure(numpy.array_equal(numpy.array(q), found[s]), f'{name} in {s}: as an array of numbers')
            S.ensure(same(found['cgs'], found['mks'] * ratio, values['cgs'].scale(name), 2e-3), f'{name}: one value in both systems',
                     lambda: (found['cgs'].ravel()[:4], found['mks'].ravel()[:4] * ratio))
    finally:
        shutil.rmtree(os.path.dirname(path))


@contract('C16', 'listed', rand=(6, 40), functions=['eprempy.observable._interfaces.Quantities.defined'],
          bound='random datasets')
def listed(S):
    """Every quantity that the collection lists can be observed, under each of its names, with its stated unit and dimensions."""
    recipe = draw(S, flux=False)
    path, cfg = D.place(recipe)
    try:
        q = need('eprempy.observable', 'quantities')(path, cfg, S.rng.choice(SYSTEMS))
        S.ensure(len(list(q)) == len(q), 'its length')
        for name in q:
            x, exc = attempt(lambda: q[name][...])
            S.ensure(exc is None, f'{name}: can be observed', lambda: repr(exc))
            S.ensure(bool(x.unit & q[name].unit), f'{name}: its unit')
            if q[name] is not None and 'minimum energy' not in q[name].dimensions:
                S.ensure(sorted(x.dimensions) == sorted(q[name].dimensions), f'{name}: its dimensions')
        S.ensure(attempt(lambda: q['no such quantity'])[1] is not None, 'unknown names are refused')
    finally:
        shutil.rmtree(os.path.dirname(path))


@contract('C16', 'integral', rand=(40, 600), functions=impl('intflux', '_integrate_flux', '_integrate_flux_slice', '_check_interp'),
          bound='datasets of up to 5x4x2x6x5 random values, up to 3 minimum energies')
def integral(S):
    """The integral flux above any energy up to the grid's end is the integral of flux; it accumulates bin by bin otherwise."""
    recipe = draw(S, ne=S.rng.choice([2, 3, 6]))
    path, cfg = D.place(recipe)
    i = S.rng.randrange(2)
    system = SYSTEMS[i]
    try:
        opened = need('eprempy.observable', 'quantities')(path, cfg, system)
        v = Values(path, system, {}, recipe)
        q = opened[S.rng.choice(['intflux', 'integral flux', 'integral_flux'])]
        target = ('m^-2 s^-1 sr^-1', 'cm^-2 s^-1 sr^-1')[i]
        S.ensure(tuple(q.dimensions) == (T, S_, P, 'minimum energy'), 'dimensions', lambda: tuple(q.dimensions))
        S.ensure(bool(q.unit & target), 'the unit', lambda: str(q.unit))
        e = recipe['egrid'][2][0]
        name, scale = S.rng.choice([('MeV', 1.0), ('keV', 1e3), ('J', 1.602177e-13), ('erg', 1.602177e-6), ('eV', 1e6)])
        own = (1.602177e-13, 1.602177e-6)[i]

        def bound():
            k = S.rng.randrange(len(e) - 1)
            inside = e[k] + (0.01 + 0.98 * S.rng.random()) * (e[k + 1] - e[k])
            # (Simpson's rule loses digits when the first interval is tiny: not just below or above a stored energy)
            return S.rng.choice([inside, inside, inside, e[0] * 0.99 * S.rng.random()])
        bounds = [bound() for _ in range(S.rng.randrange(1, 4))]
        user = (float(bounds[0] * scale), name) if len(bounds) == 1 and S.rng.random() < .5 else \
            tuple(float(b * scale) for b in bounds) + (name,)
        got = q[..., user]
        S.ensure(bool(got.unit & target), 'the unit of the array', lambda: str(got.unit))
        S.ensure(tuple(got.dimensions) == (T, S_, P, 'minimum energy'), 'the dimensions of the array', lambda: tuple(got.dimensions))
        S.ensure(near(got, v, [b * own for b in bounds]), 'the integral above an energy',
                 lambda: (user, numpy.array(got).ravel()[:4], v.integral(bounds[0] * own).ravel()[:4]))
        full = q[...]
        de = numpy.diff(v.energy, prepend=v.energy[0])
        S.ensure(same(full, numpy.cumsum(v.J * de, -1)), 'the integral accumulated over the bins',
                 lambda: (numpy.array(full).ravel()[:4], numpy.cumsum(v.J * de, -1).ravel()[:4]))
        n = len(e)
        bins = S.rng.choice([slice(0, 1), slice(n - 1, None), slice(1, None), slice(None, None, 2), slice(0, n - 1)])
        part = q[..., bins]
        S.ensure(same(part, numpy.array(full)[..., bins]), 'selected bins of the accumulated integral', lambda: bins)
        S.ensure(bool(full.unit & target), 'the unit of the accumulated integral', lambda: str(full.unit))
        above = float(e[-1] * scale * (1.001 + S.rng.random()))
        _, exc = attempt(lambda: q[..., (above, name)])
        S.ensure(exc is not None, 'refused above the energies', lambda: above)
    finally:
        shutil.rmtree(os.path.dirname(path))


def near(got, v, bounds):
    """Equal to the integral above each energy within the rounding of the unit's factor (five digits)."""
    g = numpy.array(got)
    if g.shape != v.J.shape[:-1] + (len(bounds),):
        return False
    for j, b in enumerate(bounds):
        found = [v.integral(b * (1 + d)) for d in (-5e-5, 0.0, 5e-5)]
        low, high = numpy.minimum.reduce(found), numpy.maximum.reduce(found)
        slack = 1e-4 * abs(high)
        if not (numpy.all(g[..., j] >= low - slack) and numpy.all(g[..., j] <= high + slack)):
            return False
    return True


PAIRS = ('x', 'bmag', 'umag', 'angle', 'divu', 'rho', 'br', 'ur', 'r', 'flux', 'fluence', 'mfp', 'energy', 'energy density', 'rigidity')


@contract('C16', 'composites', rand=(40, 600), functions=[
    'eprempy.observable._interfaces.Quantities._build_observable', 'eprempy.observable._objects.Quantity.__mul__',
    'eprempy.observable._objects.Quantity.__truediv__', 'eprempy.observable._objects.Quantity.__add__',
    'eprempy.observable._objects.Quantity.__sub__', 'eprempy.observable._objects.Quantity.__pow__',
    'eprempy.observable._objects.Quantity._apply', 'eprempy.observable._objects.Quantity.withunit'],
          bound='datasets of up to 5x4x2x6x5 random values, one or two operations')
def composites(S):
    """A product, ratio, power, sum or difference of quantities is that of their numbers and units."""
    text, parameters = settings(S)
    recipe = draw(S, flux=False)
    path, cfg = D.place(recipe, config=text)
    system = S.rng.choice(SYSTEMS)
    try:
        q = need('eprempy.observable', 'quantities')(path, cfg, system)
        for _ in range(3):
            a, b = S.rng.choice(PAIRS), S.rng.choice(PAIRS)
            kind = S.rng.choice(['mul', 'div', 'pow', 'add', 'sub', 'unit', 'named mul', 'named div', 'named pow', 'chain'])
            if kind in ('add', 'sub') and S.rng.random() < .8:
                b = S.rng.choice([n for n in PAIRS + ('y', 'z', 'uperp', 'upara') if n != 'fluence'
                                  and bool(q[n].unit | q[a].unit) and tuple(q[n].dimensions) == tuple(q[a].dimensions)] or [b])
            if S.coin('first') and ' ' not in a + b:
                attempt(lambda: q[S.choice('name', [f'{a} / {b}', f'{a} * {b}', f'{a}**2', f'{b} / {a}'])])
            one, two = q[a], q[b]
            x, y = one[...], two[...]
            order = tuple(dict.fromkeys(tuple(x.dimensions) + tuple(y.dimensions)))

            def spread(z): return numpy.array(z)[tuple(slice(None) if d in z.dimensions else None for d in order)] \
                if list(z.dimensions) == [d for d in order if d in z.dimensions] else Skip()
            nx, ny = spread(x), spread(y)
            if b == 'fluence' or (a == 'fluence' and 'pow' in kind):
                continue  # zero at the first time
            if isinstance(nx, Skip) or isinstance(ny, Skip):
                continue
            if kind == 'pow' or kind == 'named pow':
                n = S.rng.choice([2, 3, -1, F(1, 2), F(-3, 2), 0.5, F(1, 3), F(-1, 4), 0.25] if (numpy.array(x) > 0).all() else [2, 3, -1])
                if kind == 'named pow':
                    if ' ' in a:
                        continue
                    got, u = q[f'{a}**{n}'], x.unit ** n
                else:
                    got, u = one ** n, x.unit ** n
                expected, order = numpy.array(x, dtype=float) ** float(n), tuple(x.dimensions)
            elif kind in ('add', 'sub'):
                two = two.withunit(one.unit) if one.unit | two.unit else two
                got, exc = attempt(lambda: one + two if kind == 'add' else one - two)
                if not one.unit | two.unit or tuple(one.dimensions) != tuple(two.dimensions):
                    S.ensure(exc is not None, 'unlike quantities are not added', lambda: (a, b))
                    continue
                if exc is not None:
                    S.ensure(False, 'like quantities are added', lambda: (a, b, exc))
                    continue
                ny = numpy.array(y.withunit(x.unit))
                u, expected = x.unit, nx + ny if kind == 'add' else nx - ny
            elif kind == 'unit':
                new = {'m': 'km', 'cm': 'km', 'm s^-1': 'km s^-1', 'cm s^-1': 'km s^-1'}.get(str(x.unit))
                if new is None:
                    continue
                got, u = one.withunit(new), unit(new)
                factor = {'m': 1e-3, 'cm': 1e-5}[str(x.unit).split()[0]]
                expected, order = numpy.array(x) * factor, tuple(x.dimensions)
            elif kind == 'chain':
                n = S.rng.choice([2, -1])
                got, u, expected = one * two ** n, x.unit * y.unit ** n, nx * ny ** float(n)
            else:
                named = kind.startswith('named')
                if named and (' ' in a or ' ' in b or a == b):
                    continue
                op = kind.split()[-1]
                if named:
                    got = q[f'{a} * {b}' if op == 'mul' else f'{a} / {b}']
                else:
                    got = one * two if op == 'mul' else one / two
                u = x.unit * y.unit if op == 'mul' else x.unit / y.unit
                expected = nx * ny if op == 'mul' else nx / ny
                if named:  # the order of the factors is not fixed
                    found = tuple(got.dimensions)
                    S.ensure(sorted(found) == sorted(order), f'{kind}: the dimensions named', lambda: (a, b, found, order))
                    expected, order = expected.transpose([order.index(d) for d in found]), found
            z = got[...]
            S.ensure(tuple(z.dimensions) == order, f'{kind}: dimensions', lambda: (a, b, tuple(z.dimensions), order))
            S.ensure(tuple(got.dimensions) == order, f'{kind}: stated dimensions', lambda: (a, b, tuple(got.dimensions), order))
            S.ensure(bool(z.unit & u) and bool(got.unit & u), f'{kind}: unit', lambda: (a, b, str(z.unit), str(got.unit), str(u)))
            S.ensure(same(z, expected, scale=abs(nx).max() if kind == 'sub' else 0.0), f'{kind}: values',
                     lambda: (a, b, numpy.array(z).ravel()[:4], expected.ravel()[:4]))
            for name, old in ((a, x), (b, y)):
                new = q[name][...]
                S.ensure(new.unit == old.unit and tuple(new.dimensions) == tuple(old.dimensions) and numpy.array_equal(numpy.array(new), numpy.array(old)),
                         f'{kind}: the parts remain what they were', lambda: (a, b, name, str(old), str(new)))
    finally:
        shutil.rmtree(os.path.dirname(path))


BASE = {'R': 'm', 'Vr': 'm/s', 'Vt': 'm/s', 'Vp': 'm/s', 'Br': 'T', 'Bt': 'T', 'Bp': 'T', 'Dist': 's^3/m^6', 'Rho': 'm^-3'}


def present(S, names, config=None, system=None, **k):
    """A dataset with arbitrary numbers in the named variables, as presented, and its quantities."""
    system = system or S.choice('system', SYSTEMS)
    recipe = D.symbolic(S, names, units=BASE, **k)
    path, cfg = D.pretend(S, recipe, config) if config else D.pretend(S, recipe)
    arrays = need('eprempy.datafile', 'arrays')(path, system)
    opened = need('eprempy.observable', 'quantities')(path, cfg, system)
    return system, recipe, opened, {n: numpy.array(getattr(arrays, n)) for n, v in D.NAMES.items() if v in recipe}


def trig(S, angle):
    """Sine and cosine of an angle, with the identity that relates them."""
    s, c = numpy.sin(numpy.array([angle], dtype=object if S.symbolic else float))[0], \
        numpy.cos(numpy.array([angle], dtype=object if S.symbolic else float))[0]
    if S.symbolic:
        S.assume(s * s + c * c == 1)
    return s, c


def sums(S, a, b, tol=1e-9):
    """Equal in exact arithmetic; up to rounding otherwise."""
    return (a == b) if S.symbolic else close(float(a), float(b), tol)


@contract('C16', 'coordinates', sym='shape', functions=impl('x', 'y', 'z', 'r', 'theta', 'phi'), rand=(0, 0),
          bound='one time, two shells; every real number')
def coordinates(S):
    """x, y and z are the Cartesian coordinates of r, theta and phi, and x^2 + y^2 + z^2 = r^2."""
    system, recipe, q, a = present(S, ['R', 'T', 'P'], nt=1, ns=2)
    x, y, z = (numpy.array(q[n][...]) for n in 'xyz')
    for i in range(2):
        r, t, p = (a[n][0, i] for n in ('r', 'theta', 'phi'))
        (st, ct), (sp, cp) = trig(S, t), trig(S, p)
        S.ensure(sums(S, x[0, i], r * st * cp), 'x')
        S.ensure(sums(S, y[0, i], r * st * sp), 'y')
        S.ensure(sums(S, z[0, i], r * ct), 'z')
        S.ensure(sums(S, r * r * st * st * cp * cp + r * r * st * st * sp * sp + r * r * ct * ct, r * r), 'x^2 + y^2 + z^2 = r^2')


VECTORS = ['Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp']


class Vectors:
    """Field and flow at one place, and facts about them."""

    def __init__(self, S):
        self.system, self.recipe, self.q, a = present(S, VECTORS, nt=1, ns=1)
        b = self.b = [a[n][0, 0] for n in ('br', 'btheta', 'bphi')]
        u = self.u = [a[n][0, 0] for n in ('ur', 'utheta', 'uphi')]
        self.bb, self.uu, self.ub = (sum(p * q for p, q in zip(m, n)) for m, n in ((b, b), (u, u), (u, b)))
        cross = [u[1] * b[2] - u[2] * b[1], u[2] * b[0] - u[0] * b[2], u[0] * b[1] - u[1] * b[0]]
        self.cc = sum(c * c for c in cross)
        S.assume(self.bb > 0)
        S.assume(self.uu > 0)

    def get(self, name): return numpy.array(self.q[name][...])[0, 0]


def magnitude(S, v, name, square):
    """The root of a sum of squares."""
    x = v.get(name)
    S.lemma(x * x == square, f'{name}^2')
    S.lemma(x >= 0, f'{name} >= 0')
    S.ensure(S.both(x >= 0, sums(S, x * x, square)), name)
    S.lemma(square > 0, f'{name}^2 > 0')
    S.lemma(x > 0, f'{name} > 0', by=[x >= 0, x * x == square, square > 0], over=[x, square] if S.symbolic else ())
    return x


def parallel(S, v, bmag):
    """The component of the flow along the field."""
    x = v.get('upara')
    S.ensure(sums(S, x * bmag, v.ub), 'upara bmag = u.b')
    S.lemma(x * bmag == v.ub, 'upara bmag = u.b')
    S.lemma(v.uu * v.bb - v.ub * v.ub == v.cc, 'the square of the cross product')
    S.lemma(v.cc >= 0, 'a sum of squares')
    S.lemma(x * x <= v.uu, 'upara^2 <= u^2', over=[x, bmag, v.uu, v.bb, v.ub, v.cc] if S.symbolic else (),
            by=[x * bmag == v.ub, bmag * bmag == v.bb, v.bb > 0, v.uu * v.bb - v.ub * v.ub == v.cc, v.cc >= 0])
    return x


SHAPE = 'one time, one place; every real number'


@contract('C16', 'parts', sym='shape', functions=impl('bmag', 'umag', 'upara', 'uperp', 'udotb'), rand=(0, 0), bound=SHAPE)
def parts(S):
    """Magnitudes are root sums of squares; the parallel and perpendicular parts of the flow recombine to the whole."""
    v = Vectors(S)
    bmag, umag = magnitude(S, v, 'bmag', v.bb), magnitude(S, v, 'umag', v.uu)
    para = parallel(S, v, bmag)
    S.lemma(umag * umag - para * para >= 0, 'umag^2 >= upara^2', over=[umag, para, v.uu] if S.symbolic else (),
            by=[umag * umag == v.uu, para * para <= v.uu])
    perp = v.get('uperp')
    S.ensure(perp >= 0, 'uperp >= 0')
    S.ensure(sums(S, perp * perp, umag * umag - para * para, 1e-6), 'uperp^2 = umag^2 - upara^2')


@contract('C16', 'direction', sym='shape', functions=impl('angle', 'ubmag', 'udotb'), rand=(0, 0), bound=SHAPE)
def direction(S):
    """The angle between flow and field is between 0 and pi, and its cosine is their product over their magnitudes."""
    v = Vectors(S)
    bmag, umag = magnitude(S, v, 'bmag', v.bb), magnitude(S, v, 'umag', v.uu)
    over = [bmag, umag, v.bb, v.uu, v.ub, v.cc] if S.symbolic else ()
    S.lemma(v.uu * v.bb - v.ub * v.ub == v.cc, 'the square of the cross product')
    S.lemma(v.cc >= 0, 'a sum of squares')
    by = [bmag * bmag == v.bb, umag * umag == v.uu, bmag > 0, umag > 0, v.uu * v.bb - v.ub * v.ub == v.cc, v.cc >= 0]
    S.lemma(v.ub <= bmag * umag, 'u.b <= u b', by=by, over=over)
    S.lemma(v.ub >= -(bmag * umag), 'u.b >= - u b', by=by, over=over)
    if S.symbolic:
        S.lemma(v.ub / (bmag * umag) <= 1, 'ratio <= 1', by=[v.ub <= bmag * umag, bmag > 0, umag > 0], over=[bmag, umag, v.ub])
        S.lemma(v.ub / (bmag * umag) >= -1, 'ratio >= -1', by=[v.ub >= -(bmag * umag), bmag > 0, umag > 0], over=[bmag, umag, v.ub])
    angle = v.get('angle')
    s, c = trig(S, angle)
    S.ensure(S.both(angle >= 0, angle <= 3.1416), 'a plane angle')
    S.ensure(sums(S, c * bmag * umag, v.ub, 1e-6), 'its cosine')


def within(S, got, expected, size, tol=1e-6):
    """Equal up to the rounding of floating constants, relative to a size."""
    if not S.symbolic:
        return abs(float(got) - float(expected)) <= tol * abs(float(size))
    d = got - expected
    return S.both(d <= tol * size, -d <= tol * size)


@contract('C16', 'distribution', sym='shape', rand=(0, 0), timeout_ms=(20000, 60000),
          functions=impl('_fiso', 'flux', 'fluence', 'energy_density', 'average_energy', 'intflux', '_integrate_flux_slice'),
          bound='two times, one shell, two energies, two pitch angles; every positive number of the distribution')
def distribution(S):
    """Averages, flux, fluence, accumulated flux and energy density are the stated linear forms of the distribution."""
    flux, species = S.choice('flux', [False, True]), S.choice('species', [((1.0,), (1.0,)), ((4.0,), (2.0,))])
    var = 'flux' if flux else 'Dist'
    system, recipe, q, a = present(S, [var], nt=2, ns=1, ne=2, nm=2, flux=flux, mass=species[0], charge=species[1])
    stored = recipe[var][2]
    for x in stored.flat:
        S.assume(x > 0)
    v, e, m, t = (numpy.array(a[n], dtype=float) for n in ('v', 'energy', 'mass', 'time'))
    v = v.reshape(-1)
    j = a['flux'] if flux else None
    fiso = 0.5 * j * m[0] ** 2 / e if flux else (a['f'][..., 0] + a['f'][..., 1]) / 2
    if not flux:
        j = 2 * fiso * e / m[0] ** 2
    dv = v[1] - v[0]
    got = {n: numpy.array(q[n][...]) for n in ('flux', 'fluence', 'energy density', 'average energy', 'intflux')}
    S.ensure(got['flux'].shape == (2, 1, 1, 2) and got['energy density'].shape == (2, 1, 1), 'shapes')
    for k in range(2):
        for i in range(2):
            want = j[k, 0, 0, i]
            S.ensure(within(S, got['flux'][k, 0, 0, i], want, want), 'flux')
            total = j[1, 0, 0, i] * (t[1] - t[0]) if k else 0.0
            S.ensure(within(S, got['fluence'][k, 0, 0, i], total, total), 'fluence')
        bins = j[k, 0, 0, 1] * (e[1] - e[0])
        S.ensure(within(S, got['intflux'][k, 0, 0, 1], bins, bins), 'integral flux')
        four = sum(fiso[k, 0, 0, i] * v[i] ** 4 * dv for i in range(2))
        two = sum(fiso[k, 0, 0, i] * v[i] ** 2 * dv for i in range(2))
        density = m[0] * four
        S.ensure(within(S, got['energy density'][k, 0, 0], density, density), 'energy density')
        S.ensure(within(S, got['average energy'][k, 0, 0] * two, density / 2, density), 'average energy')


@contract('C16', 'divergence', sym='shape', rand=(0, 0), functions=impl('divu'), timeout_ms=(20000, 60000),
          bound='two or three times, one shell; every positive density')
def divergence(S):
    """The divergence of the flow is minus the relative rate of change of the density."""
    nt = S.choice('nt', [2, 3])
    original = numpy.empty_like  # numpy.gradient stores its results as floats even if its arguments are objects
    S.patch(numpy, 'empty_like', lambda x, dtype=None, **k: original(
        x, dtype=object if getattr(x, 'dtype', None) == object else dtype, **k))
    system, recipe, q, a = present(S, ['Rho'], nt=nt, ns=1)
    for x in recipe['Rho'][2].flat:
        S.assume(x > 0)
    n, t = a['rho'][:, 0], numpy.array(a['time'], dtype=float)
    got = numpy.array(q['divu'][...])[:, 0]
    rate = [(n[1] - n[0]) / (t[1] - t[0])] + [None] * (nt - 2) + [(n[-1] - n[-2]) / (t[-1] - t[-2])]
    if nt == 3:
        p, r = t[1] - t[0], t[2] - t[1]
        rate[1] = (n[2] * (p * p) - n[0] * (r * r) + n[1] * (r * r - p * p)) / (p * r * (p + r))
    size = sum(n) / min(numpy.diff(t)) * max(numpy.diff(t)) / min(numpy.diff(t))
    for i in range(nt):
        S.ensure(within(S, got[i] * n[i], -rate[i], size), f'divu at time {i}')


POWERS = 'lamo=0.5\nmfpRadialPower={}\nrigidityPower={}\nkperxkpar=0.25\n'


@contract('C16', 'path', sym='shape', rand=(0, 0), functions=impl('mfp', 'rigidity', '_compute_rigidity'), timeout_ms=(20000, 60000),
          bound='one time, one shell, two energies, three powers of radius, two species; every positive radius')
def path(S):
    """The mean free path is lambda0 (r / au)^a (R / R0)^b for every radius."""
    system = S.choice('system', SYSTEMS)
    power = S.choice('power', [0.0, 1.0, 2.0])
    species = S.choice('species', [((1.0,), (1.0,)), ((4.0,), (2.0,))])
    system, recipe, q, a = present(S, ['R'], POWERS.format(power, 0.5), system=system, nt=1, ns=1, ne=2, nm=2,
                                   mass=species[0], charge=species[1])
    r = a['r'][0, 0]
    S.assume(r > 0)
    c, au = LIGHT[SYSTEMS.index(system)], AU[SYSTEMS.index(system)]
    e, rest = numpy.array(a['energy'], dtype=float), float(a['mass'][0]) * c * c
    mev = 1.602176634e-13 * (1.0, 1e7)[SYSTEMS.index(system)]
    p = numpy.sqrt(e * (e + 2 * rest)) / c
    p0 = numpy.sqrt(mev * (mev + 2 * rest)) / c
    rigidity = numpy.array(q['rigidity'][...])
    got = numpy.array(q['mfp'][...])
    for i in range(2):
        want = float(p[i] / float(a['charge'][0]))
        S.ensure(within(S, float(rigidity[0, i]), want, want, 1e-3), 'rigidity')
        want = 0.5 * au * float(p[i] / p0) ** 0.5 * (r / au) ** int(power)
        S.ensure(within(S, got[0, 0, 0, i], want, want, 1e-3), 'mean free path')
