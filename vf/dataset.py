"""Small EPREM-like datasets: recipes, NetCDF files in a scratch directory, and their meaning.

A recipe maps each variable to (dimensions, stored unit, numbers).  The files
hold what EPREM writes: the same variable names, dimensions and unit spellings.
"""
import atexit
import itertools
import os
import shutil
import tempfile

import numpy

STREAM = ('time', 'shell')
FULL = ('time', 'shell', 'species', 'energy', 'mu')
_root = None
_count = itertools.count()


def scratch():
    """A new directory of our own, removed when the process ends."""
    global _root
    if _root is None or not os.path.isdir(_root):
        _root = tempfile.mkdtemp(prefix='vf-data-')
        atexit.register(shutil.rmtree, _root, True)
    path = os.path.join(_root, f'd{next(_count)}')
    os.mkdir(path)
    return path


def recipe(rng, nt=4, ns=5, ne=4, nm=3, flux=False, units=None, mass=(1.0,), charge=(1.0,)):
    """A dataset with plausible, pairwise distinct numbers."""
    units = {'time': 'julian date', 'shell': 'shell', 'mu': 'cos(mu)', 'mass': 'nuc', 'charge': 'e-',
             'egrid': 'MeV', 'vgrid': 'km/s', 'R': 'au', 'T': 'rad', 'P': 'rad', 'Br': 'G', 'Bt': 'G', 'Bp': 'G',
             'Vr': 'km/s', 'Vt': 'km/s', 'Vp': 'km/s', 'Rho': 'cm^-3', 'Dist': 's^3/km^6',
             'flux': '# / cm^2 s sr MeV', **(units or {})}
    uniform = rng.uniform
    np_ = len(mass)
    grid = lambda lo, hi: uniform(lo, hi, (nt, ns))
    rising = lambda n, lo, hi: numpy.sort(lo + (hi - lo) * (numpy.arange(n) + uniform(0.1, 0.9, n)) / n)
    e = rising(ne, 0.1, 100.0)
    v = 1.3e4 * numpy.sqrt(e)
    drift = min(0.02, 0.08 / nt)  # radii that every time has are between the others
    r = numpy.stack([rising(ns, 0.1 + drift * i, 1.1 + drift * i) for i in range(nt)])
    out = {
        'time': (('time',), rising(nt, 0.1, 2.0)),
        'shell': (('shell',), numpy.arange(ns)),
        'mu': (('mu',), numpy.linspace(-1.0, 1.0, nm)),
        'mass': (('species',), numpy.array(mass)),
        'charge': (('species',), numpy.array(charge)),
        'egrid': (('species', 'energy'), numpy.stack([e] * np_)),
        'vgrid': (('species', 'energy'), numpy.stack([v] * np_)),
        'R': (STREAM, r), 'T': (STREAM, grid(0.2, 2.9)), 'P': (STREAM, grid(0.0, 6.2)),
        'Br': (STREAM, grid(-5e-5, 5e-5)), 'Bt': (STREAM, grid(-5e-5, 5e-5)), 'Bp': (STREAM, grid(-5e-5, 5e-5)),
        'Vr': (STREAM, grid(200.0, 900.0)), 'Vt': (STREAM, grid(-200.0, 200.0)), 'Vp': (STREAM, grid(-200.0, 200.0)),
        'Rho': (STREAM, grid(1.0, 900.0)),
    }
    if flux:
        out['flux'] = (FULL[:4], uniform(1.0, 1e4, (nt, ns, np_, ne)))
    else:
        out['Dist'] = (FULL, uniform(1e-3, 1e2, (nt, ns, np_, ne, nm)))
    if uniform() < 0.5:  # cosines which are neither evenly spaced nor rising
        mu = rising(nm, -1.0, 1.0)
        out['mu'] = (('mu',), mu if uniform() < 0.5 else mu[::-1].copy())
    return {k: (d, units[k], x) for k, (d, x) in out.items()}


def store(recipe, path, attr='units'):
    """Write a recipe as a NetCDF file."""
    import netCDF4
    with netCDF4.Dataset(path, 'w') as f:
        for dims, _, x in recipe.values():
            for d, n in zip(dims, numpy.shape(x)):
                if d not in f.dimensions:
                    f.createDimension(d, n)
        for name, (dims, unit, x) in recipe.items():
            v = f.createVariable(name, 'i4' if numpy.asarray(x).dtype.kind == 'i' else 'f8', dims)
            if unit is not None:
                setattr(v, attr, unit)
            v[...] = x
    return path


CONFIG = """# run parameters
lamo=0.8
mfpRadialPower=0.7
kperxkpar=0.02
rigidityPower=0.4
"""


def place(recipe, directory=None, name='obs000000.nc', config=CONFIG, attr='units'):
    """A directory with one observer file and a configuration file."""
    directory = directory or scratch()
    path = store(recipe, os.path.join(directory, name), attr)
    cfg = os.path.join(directory, 'eprem.cfg')
    if not os.path.exists(cfg):
        with open(cfg, 'w') as f:
            f.write(config)
    return path, cfg


class Variable:
    """What netCDF4 documents of a variable: numbers, dimensions and attributes."""

    def __init__(self, dims, unit, x, attr='units'):
        self._x = numpy.asarray(x)
        self.dimensions, self.shape, self.dtype, self.ndim = tuple(dims), self._x.shape, self._x.dtype, self._x.ndim
        self.size = self._x.size
        if unit is not None:
            setattr(self, attr, unit)

    def __getitem__(self, i): return self._x[i]
    def __len__(self): return len(self._x)
    def __array__(self, *a, **k): return numpy.array(self._x, *a, **k)


class Dimension:
    def __init__(self, name, size):
        self.name, self.size = name, size

    def __len__(self): return self.size


class File:
    """Stands for an open NetCDF file holding a recipe."""

    def __init__(self, recipe, attr='units'):
        self.variables = {k: Variable(d, u, x, attr) for k, (d, u, x) in recipe.items()}
        sizes = {d: n for dims, _, x in recipe.values() for d, n in zip(dims, numpy.shape(x))}
        self.dimensions = {d: Dimension(d, n) for d, n in sizes.items()}

    def close(self): pass


def pretend(S, recipe, config=CONFIG):
    """A path to a dataset whose file is in memory, so that its numbers may be symbolic."""
    if not S.symbolic:
        return place(recipe, config=config)
    import netCDF4
    directory = scratch()
    path, cfg = os.path.join(directory, 'obs000000.nc'), os.path.join(directory, 'eprem.cfg')
    open(path, 'w').close()
    with open(cfg, 'w') as f:
        f.write(config)
    original = netCDF4.Dataset
    S.patch(netCDF4, 'Dataset', lambda p, *a, **k: File(recipe) if os.path.realpath(str(p)) == os.path.realpath(path)
            else original(p, *a, **k))
    return path, cfg


def symbolic(S, names, rng=None, **k):
    """A recipe in which the named variables hold arbitrary real numbers."""
    out = recipe(rng or numpy.random.default_rng(7), **k)
    for name in names:
        dims, unit, x = out[name]
        y = numpy.empty(x.shape, dtype=object)
        for i, index in enumerate(numpy.ndindex(*x.shape)):
            y[index] = S.real(f'{name}{i}', simple=True)
        out[name] = dims, unit, y if S.symbolic else y.astype(float)
    return out


# numbers stored in a unit, in the units of each system (not read from the repository)
NUC = 1.66053907e-27
EV = 1.602176634e-19
FACTOR = {
    'julian date': 86400.0, 'day': 86400.0, 'd': 86400.0, 's': 1.0, 'h': 3600.0, 'min': 60.0, 'minute': 60.0,
    'cos(mu)': 1.0, 'shell': 1.0, '1': 1.0, 'rad': 1.0, 'radian': 1.0,
    'nuc': (NUC, 1e3 * NUC), 'e-': (EV, 4.80320427e-10), 'e': (EV, 4.80320427e-10),
    'kg': (1.0, 1e3), 'g': (1e-3, 1.0), 'C': (1.0, 2.99792458e9),
    'MeV': (1e6 * EV, 1e13 * EV), 'keV': (1e3 * EV, 1e10 * EV), 'GeV': (1e9 * EV, 1e16 * EV), 'J': (1.0, 1e7),
    'erg': (1e-7, 1.0),
    'km/s': (1e3, 1e5), 'km / s': (1e3, 1e5), 'm/s': (1.0, 100.0), 'km/h': (1e3 / 3600, 1e5 / 3600),
    'au': (1.495978707e11, 1.495978707e13), 'km': (1e3, 1e5), 'm': (1.0, 100.0),
    'G': (1e-4, 1.0), 'nT': (1e-9, 1e-5), 'T': (1.0, 1e4), 'mG': (1e-7, 1e-3),
    'cm^-3': (1e6, 1.0), 'm^-3': (1.0, 1e-6),
    's^3/km^6': (1e-18, 1e-30), 's^3/cm^6': (1e12, 1.0), 's^3/m^6': (1.0, 1e-12),
    '# / cm^2 s sr MeV': (1e-2 / EV, 1e-13 / EV),
}
ALTERNATIVES = {
    'time': ('julian date', 'day', 'h', 'min'), 'egrid': ('MeV', 'keV', 'GeV', 'J', 'erg'),
    'vgrid': ('km/s', 'm/s', 'km / s'), 'R': ('au', 'km', 'm'), 'T': ('rad', 'radian'), 'P': ('rad', 'radian'),
    'Br': ('G', 'nT', 'T', 'mG'), 'Vr': ('km/s', 'm/s', 'km/h'), 'Rho': ('cm^-3', 'm^-3'),
    'Dist': ('s^3/km^6', 's^3/cm^6', 's^3/m^6'), 'charge': ('e-', 'e'),
}
SAME = {'Bt': 'Br', 'Bp': 'Br', 'Vt': 'Vr', 'Vp': 'Vr'}
# attribute of the interface: stored variable
NAMES = {'time': 'time', 'energy': 'egrid', 'v': 'vgrid', 'mu': 'mu', 'mass': 'mass', 'charge': 'charge', 'r': 'R',
         'theta': 'T', 'phi': 'P', 'br': 'Br', 'btheta': 'Bt', 'bphi': 'Bp', 'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp',
         'rho': 'Rho', 'f': 'Dist', 'flux': 'flux'}
UNITS = {  # coherent units of each system
    'time': ('s', 's'), 'energy': ('J', 'erg'), 'v': ('m s^-1', 'cm s^-1'), 'mu': ('1', '1'), 'mass': ('kg', 'g'),
    'charge': ('C', 'statC'), 'r': ('m', 'cm'), 'theta': ('rad', 'rad'), 'phi': ('rad', 'rad'), 'br': ('T', 'G'),
    'rho': ('m^-3', 'cm^-3'), 'f': ('s^3 m^-6', 's^3 cm^-6'), 'ur': ('m s^-1', 'cm s^-1'),
    'flux': ('m^-2 s^-1 sr^-1 J^-1', 'cm^-2 s^-1 sr^-1 erg^-1'),
}
UNITS.update(btheta=UNITS['br'], bphi=UNITS['br'], utheta=UNITS['ur'], uphi=UNITS['ur'])


def scale(unit, system):
    """The factor from a stored unit to the coherent unit of the same dimension."""
    f = FACTOR[unit]
    return f if isinstance(f, float) else f[('mks', 'cgs').index(system)]
