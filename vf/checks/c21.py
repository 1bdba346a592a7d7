"""C21: reading a dataset presents the stored arrays in the requested system."""
import os
import pathlib
import shutil

import numpy

from ..core import contract, attempt, need, Skip, Unsupported, close
from .. import dataset as D

SYSTEMS = ('mks', 'cgs')
FILE = ['eprempy.datafile.' + n for n in
        ('_interfaces.Arrays', '_interfaces.Axes', '_interfaces.Grid', '_viewers.View', '_viewers.NetCDFViewer',
         '_core.Array')] + ['eprempy.metric._reference.standardize']
OBS = ['eprempy.eprem.' + n for n in ('stream', 'point', 'observer', 'dataset', 'Dataset', 'Stream', 'Point',
                                     '_create_observer', '_build_datapath', '_build_confpath', '_get_observer_id')]
RTOL = 1e-3  # the package's constants for eV and e carry five digits
DIMS = ('time', 'shell', 'species', 'energy', 'mu')


def datafile(name): return need('eprempy.datafile', name)
class Eprem:
    def __getattr__(self, name): return need('eprempy.eprem', name)


def unit(x): return need('eprempy.metric', 'unit')(x)


def near(S, got, want, label, tol=RTOL):
    """Equal numbers, up to the digits of the constants; for every value when they are symbolic."""
    g, w = numpy.asarray(got, dtype=object), numpy.asarray(want, dtype=object)
    S.ensure(g.shape == w.shape, f'{label}: the shape', lambda: (g.shape, w.shape))
    terms = []
    for a, b in zip(g.ravel(), w.ravel()):
        if S.symbolic:
            terms.append((a - b) * (a - b) <= (tol * b) * (tol * b))
        else:
            terms.append(abs(float(a) - float(b)) <= tol * abs(float(b)) + 1e-300)
    S.ensure(S.both(*terms), f'{label}: the stored numbers times the factor', lambda: (got, want))


def stored(recipe, name, system):
    """What the interface is to present for one name: dimensions and numbers."""
    dims, u, x = recipe[D.NAMES[name]]
    k = D.scale(u, system)
    if name in ('energy', 'v'):
        return ('energy',), numpy.asarray(x)[0] * k
    return dims, numpy.asarray(x) * k


def check(S, arrays, recipe, name, system):
    dims, want = stored(recipe, name, system)
    x = getattr(arrays, name)
    S.ensure(tuple(x.dimensions) == tuple(dims), f'{name} in {system}: the stored dimensions',
             lambda: (tuple(x.dimensions), dims))
    S.ensure(x.unit == unit(D.UNITS[name][SYSTEMS.index(system)]) or bool(x.unit & D.UNITS[name][SYSTEMS.index(system)]),
             f'{name} in {system}: the unit of the system', lambda: str(x.unit))
    near(S, numpy.array(x), want, f'{name} in {system}')
    return x


@contract('C21', 'values', sym='shape', functions=FILE, rand=(0, 0),
          bound='2 times, 2 shells, 1 species, 2 energies, 2 pitch angles; every real number')
def values(S):
    """Every element presented is the stored element times the factor of its unit, at its own place."""
    system, flux = S.choice('system', SYSTEMS), S.choice('flux', [False, True])
    names = ['R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho', 'flux' if flux else 'Dist']
    recipe = D.symbolic(S, names, nt=2, ns=2, ne=2, nm=2, flux=flux)
    path, _ = D.pretend(S, recipe)
    arrays = datafile('arrays')(path, system)
    for name, var in D.NAMES.items():
        if var in names:
            check(S, arrays, recipe, name, system)
    grid = datafile('grid')(path, system)
    for name in ('r', 'theta', 'phi'):
        near(S, numpy.array(getattr(grid, name)), stored(recipe, name, system)[1], f'grid {name}')


def ints(index):
    return [int(i) for i in numpy.atleast_1d(numpy.asarray(index))]


def draw(S, **more):
    rng = numpy.random.default_rng(S.rng.randrange(2 ** 31))
    sizes = dict(nt=S.rng.choice([1, 2, 3, 5, 11]), ns=S.rng.choice([1, 2, 4, 7, 12]), ne=S.rng.choice([1, 2, 3, 6]), nm=S.rng.choice([1, 2, 5]))
    units = {k: S.rng.choice(v) for k, v in D.ALTERNATIVES.items()}
    units.update({k: units[v] for k, v in D.SAME.items()})
    species = S.rng.choice([((1.0,), (1.0,)), ((4.0,), (2.0,)), ((1.0, 4.0), (1.0, 2.0)), ((4.0, 16.0, 1.0), (2.0, 6.0, 1.0))])
    options = dict(sizes, units=units, mass=species[0], charge=species[1], flux=(S.rng.random() < .5))
    options.update(more)
    recipe = D.recipe(rng, **options)
    for name, unit, scale in (('charge', 'C', D.EV), ('mass', 'kg', D.NUC), ('mass', 'g', 1e3 * D.NUC)):
        if S.rng.random() < .2 and recipe[name][1] in ('nuc', 'e', 'e-'):
            dims, _, numbers = recipe[name]
            recipe[name] = dims, unit, numpy.array(numbers) * scale
    return recipe


def states(recipe):
    """The species that the stored masses and charges denote."""
    (_, u, m), (_, v, q) = recipe['mass'], recipe['charge']
    m = numpy.array(m) / {'nuc': 1.0, 'kg': D.NUC, 'g': 1e3 * D.NUC}[u]
    q = numpy.array(q) / {'e': 1.0, 'e-': 1.0, 'C': D.EV}[v]
    return [NAMED[round(float(a)), round(float(b))] for a, b in zip(m, q)]


@contract('C21', 'files', rand=(60, 800), functions=FILE, bound='up to 5x7x3x6x5 values, random')
def files(S):
    """Each array of a file has its dimensions, its unit and its numbers, in whichever order they are asked for."""
    recipe = draw(S)
    path, _ = D.place(recipe, attr=S.rng.choice(['units', 'unit']))
    try:
        opened = {s: datafile('arrays')(path, s.upper() if (S.rng.random() < .5) else s) for s in SYSTEMS}
        names = [n for n, v in D.NAMES.items() if v in recipe]
        S.rng.shuffle(names)
        first = {}
        for system in S.rng.choice([SYSTEMS, SYSTEMS[::-1], ('mks',), SYSTEMS * 2]):
            for name in names:
                x = check(S, opened[system], recipe, name, system)
                y = first.setdefault((system, name), numpy.array(x))
                S.ensure(numpy.array_equal(numpy.array(x), y), f'{name}: unchanged by other requests')
                for d in x.dimensions:
                    S.ensure(len(x.axes[d]) == x.shape[x.dimensions.index(d)], f'{name}: the axis of {d}')
        S.ensure(opened['mks'].hasflux == ('flux' in recipe) and opened['mks'].hasdist == ('Dist' in recipe),
                 'which of flux and distribution there is')
        other = opened['mks'].f if 'flux' in recipe else opened['mks'].flux
        S.ensure(other is None, 'the quantity that is not there')
        for x in opened.values():
            S.ensure([list(x.shell), list(x.shell)] == [list(recipe['shell'][2])] * 2, 'the shells, as stored')
        default = datafile('arrays')(path)
        S.ensure(numpy.array_equal(numpy.array(default.br), numpy.array(opened['mks'].br)), 'mks unless asked')
    finally:
        shutil.rmtree(os.path.dirname(path))


@contract('C21', 'differing grids', rand=(30, 300), functions=['eprempy.datafile._interfaces._by_energy'], bound='two or three species, up to 6 energies')
def differing(S):
    """Energies (or speeds) that differ between species anywhere are refused, not presented as those of one of them."""
    recipe = draw(S, ne=S.rng.choice([2, 3, 6]), mass=(4.0, 16.0, 1.0)[:S.rng.choice([2, 3])], charge=(2.0, 6.0, 1.0))
    recipe['charge'] = (*recipe['charge'][:2], recipe['charge'][2][:len(recipe['mass'][2])])
    which = S.rng.choice(['egrid', 'vgrid'])
    x = recipe[which][2]
    x[S.rng.randrange(len(x)), S.rng.randrange(x.shape[1])] *= S.rng.choice([1.01, 0.9, 3.0])
    path, _ = D.place(recipe)
    try:
        system = S.rng.choice(SYSTEMS)
        if which == 'egrid':
            r, e = attempt(lambda: datafile('axes')(path, system)['energy'])
            S.ensure(e is not None, 'an axis of differing energies is refused', lambda: (list(r), x))
        r, e = attempt(lambda: getattr(datafile('arrays')(path, system), {'egrid': 'energy', 'vgrid': 'v'}[which]))
        S.ensure(e is not None, f'differing {which} are refused', lambda: (numpy.array(r), x))
    finally:
        shutil.rmtree(os.path.dirname(path))


NAMED = {(1.0, 1.0): 'H+', (4.0, 2.0): 'He++', (16.0, 6.0): 'O++++++'}


@contract('C21', 'axes', rand=(60, 800), functions=FILE, bound='up to 5x7x3x6x5 values, random')
def axes(S):
    """The axes have the stored lengths, coordinates and species; a value on an axis leads to its index."""
    recipe = draw(S)
    if S.rng.random() < .3:
        recipe['shell'][2][...] += S.rng.choice([1, 5])
    path, _ = D.place(recipe)
    try:
        system = S.rng.choice(SYSTEMS)
        found = datafile('axes')(path, system)
        sizes = {d: n for dims, _, x in recipe.values() for d, n in zip(dims, numpy.shape(x))}
        S.ensure(sorted(found) == sorted(DIMS), 'the names of the axes')
        view = datafile('view')(path)
        arrays = datafile('arrays')(path, system)
        for d in DIMS:
            S.ensure(len(found[d]) == sizes[d], f'the length of {d}', lambda: (len(found[d]), sizes[d]))
            S.ensure(view.sizes[d] == sizes[d] and view.axes[d].size == sizes[d], f'the size of {d} in the file')
            S.ensure(len(arrays.axes[d]) == sizes[d], f'the axis {d} of the arrays')
        for d, name in (('time', 'time'), ('energy', 'energy'), ('mu', 'mu')):
            owner = next(n for n in ('flux', 'f') if D.NAMES[n] in recipe) if d == 'energy' or d == 'mu' and 'Dist' in recipe else 'br'
            whole = getattr(arrays, owner)
            for where, axis in (('', found[d]), (' of the arrays', arrays.axes[d]), (f' of {owner}', whole.axes.get(d))):
                if axis is not None:
                    near(S, numpy.array(axis), stored(recipe, name, system)[1], f'coordinates of {d}{where}')
                    S.ensure(bool(axis.unit & D.UNITS[name][SYSTEMS.index(system)]), f'unit of {d}{where}')
            i = S.rng.randrange(sizes[d])
            x = float(numpy.array(found[d])[i])
            index = found[d].index(x, str(found[d].unit))
            S.ensure(ints(index) == [i], f'the index of a coordinate of {d}', lambda: (x, ints(index)))
        S.ensure([int(x) for x in found['shell']] == [int(x) for x in recipe['shell'][2]], 'the shells', lambda: list(found['shell']))
        species = states(recipe)
        S.ensure([str(x) for x in found['species']] == species, 'the species', lambda: (list(found['species']), species))
        S.ensure([str(x) for x in arrays.species] == species, 'the species of the arrays')
        i = S.rng.randrange(len(species))
        S.ensure(ints(found['species'].index(species[i])) == [i], 'the index of a species')
    finally:
        shutil.rmtree(os.path.dirname(path))


@contract('C21', 'view', rand=(40, 800), functions=FILE, bound='random')
def raw(S):
    """The view of a file shows each stored array and scalar as it is stored."""
    recipe = draw(S)
    path, _ = D.place(recipe)
    try:
        flag = S.rng.randrange(5)
        import netCDF4
        if (S.rng.random() < .5):
            with netCDF4.Dataset(path, 'a') as f:
                kind = S.rng.choice(['i4', 'i4', 'u1', 'i8', 'u4', 'f4', 'f8'])
                if kind[0] == 'f':
                    flag += S.rng.choice([0.0, 0.5])
                v = f.createVariable('preEruption', kind, ())
                v[...] = flag
                g = f.createVariable('extra', 'f8', ('time',))
                g[...] = 3.0
        else:
            flag = None
        view = datafile('view')(path)
        S.ensure(set(view.arrays) == set(recipe), 'the names of the arrays', lambda: sorted(view.arrays))
        for name, (dims, u, x) in recipe.items():
            a = view.arrays[name]
            S.ensure(numpy.array_equal(numpy.array(a), x), f'{name}: the stored numbers')
            S.ensure(tuple(a.dimensions) == tuple(dims) and a.unit == u, f'{name}: dimensions and unit')
            S.ensure(view.units[name] == u, f'{name}: the unit')
            S.ensure(numpy.array_equal(numpy.array(a[0]), numpy.asarray(x)[0]), f'{name}: part of it')
        for name in ('arrays', 'scalars', 'axes', 'units'):
            S.ensure(view[name] is getattr(view, name), f'the {name} of a view by name')
        S.ensure(isinstance(attempt(lambda: view['unknown'])[1], KeyError), 'a view has no such property')
        lengths = {d: n for dims, _, x in recipe.values() for d, n in zip(dims, numpy.shape(x))}
        got = {d: a.size for d, a in view.axes.items()}
        S.ensure(all(got.get(d) == n for d, n in lengths.items()), 'the axes of a view have the stored lengths', lambda: (got, lengths))
        S.ensure(str(view.source) == os.path.realpath(path), 'the source of a view')
        other = path + S.rng.choice(['.dat', '.out', '.cdf'])
        shutil.copy(path, other)
        for hint in S.rng.sample([None, 'netcdf', 'NetCDF', 'NETCDF', '.nc', 'unknown'], 3):
            r, e = attempt(lambda: datafile('view')(other, hint=hint).arrays)
            if hint in (None, 'unknown'):
                S.ensure(e is not None, 'a file of an unknown type is refused', lambda: hint)
            else:
                S.ensure(e is None and set(r) == set(recipe) and all(numpy.array_equal(numpy.array(r[n]), x) for n, (_, _, x) in recipe.items()),
                         'a file is viewed as the type that the hint names', lambda: (hint, repr(e)))
        if flag is None:
            S.ensure('preEruption' not in view.scalars, 'no scalar')
        else:
            a = view.scalars['preEruption']
            S.ensure(int(a) == int(flag) and float(a) == flag and a.value == flag, 'the scalar', lambda: (flag, kind, a))
            S.ensure(isinstance(a.value, (int, numpy.integer)) is (kind[0] != 'f'), 'a whole scalar stays whole', lambda: (flag, kind, a))
    finally:
        shutil.rmtree(os.path.dirname(path))


def mark(recipe, k):
    """The same recipe with numbers that tell the file."""
    dims, u, x = recipe['Rho']
    return {**recipe, 'Rho': (dims, u, numpy.full(numpy.shape(x), float(k)))}


def tell(observer):
    """The mark of the file that an observer reads."""
    return float(numpy.asarray(numpy.array(observer['rho'][0, 0])).ravel()[0])


def same(a, b):
    a, b = ([str(getattr(x, 'unit', '')), numpy.array(x).tolist()] for x in (a, b))
    return a == b


@contract('C21', 'observers', rand=(30, 350), functions=OBS, bound='up to 8 files in up to 2 directories, 12 openings')
def observers(S):
    """Each observer number or name refers to exactly its own file, whichever observers were opened before."""
    eprem = Eprem()
    rng = numpy.random.default_rng(S.rng.randrange(2 ** 31))
    base = D.recipe(rng, nt=2, ns=2, ne=2, nm=2, flux=(S.rng.random() < .5))
    directories = [D.scratch() for _ in range(S.rng.choice([1, 2]))]
    here = os.getcwd()
    try:
        known, k = {}, 0
        for directory in directories:
            prefix = S.rng.choice(['obs', 'flux', 'stream'])
            for n in S.rng.sample([0, 1, 2, 3, 10, 11, 12, 100, 101, 1000, 20, 123456], S.rng.choice([1, 2, 4])):
                k += 1
                D.place(mark(base, k), directory, f'{prefix}{n:06}.nc')
                known[directory, 'stream', n, prefix] = k
            for n in S.rng.sample([0, 1, 2, 9, 10, 19, 100], S.rng.choice([0, 1, 2])):
                k += 1
                D.place(mark(base, k), directory, f'p_obs{n:03}.nc')
                known[directory, 'point', n, 'p_obs'] = k
            for name in S.rng.sample(['earth', 'mars', 'stereo-a', 'psp'], S.rng.choice([0, 1])):
                k += 1
                D.place(mark(base, k), directory, f'{name}.nc')
                known[directory, 'named', name, None] = k
        for _ in range(S.rng.choice([3, 12])):
            (directory, kind, key, prefix), want = S.rng.choice(sorted(known.items(), key=str))
            system = S.rng.choice([None, 'mks', 'cgs'])
            config = S.rng.choice([None, 'eprem.cfg', os.path.join(directory, 'eprem.cfg')])
            if config and S.rng.random() < .5:
                config = pathlib.Path(config)
            source = directory
            if (S.rng.random() < .5):
                os.chdir(directory)
                source = S.rng.choice([None, '.', os.path.join('..', os.path.basename(directory))])
            if kind == 'stream':
                ways = [lambda: eprem.stream(key, config, source, system)]
                if prefix != 'stream':
                    ways.append(lambda: eprem.observer(key, config, source, system))
            elif kind == 'point':
                ways = [lambda: eprem.point(key, config, source, system),
                        lambda: eprem.point(str(key), config, source, system),
                        lambda: eprem.point(f'{key:03}', config, source, system),
                        lambda: eprem.observer(str(key), config, source, system)]
            else:
                ways = [lambda: eprem.point(key, config, source, system),
                        lambda: eprem.observer(key, config, source, system)]
            observer = S.rng.choice(ways)()
            factor = 1.0 if system == 'cgs' else 1e6
            S.ensure(close(tell(observer), want * factor), f'the file of {kind} {key!r}', lambda: (tell(observer), want * factor))
            if kind != 'stream':
                for _ in range(2):
                    for name in ('r', 'theta', 'phi'):
                        x = getattr(observer, name)
                        S.ensure(close(float(x.data), stored(base, name, system or 'mks')[1][0, 0], RTOL), f'its first {name}',
                                 lambda: (str(x), stored(base, name, system or 'mks')[1][0, 0]))
                        S.ensure(x.unit == observer[name].unit, f'the unit of its {name}')
            S.ensure(os.path.dirname(str(observer.source)) == os.path.realpath(directory), 'its directory')
            S.ensure(str(observer.system) == (system or 'mks'), 'the system')
            names = list(observer)
            S.ensure(len(names) == len(set(names)) == len(observer) and set(names) == set(observer.keys()) and all(n in observer for n in names),
                     'an observer holds its quantities, each once', lambda: names)
            S.ensure({'rho', 'r', 'br'} <= set(names) and 'venus' not in observer and isinstance(attempt(lambda: observer['venus'])[1], KeyError), 'the quantities of an observer', lambda: names)
            if kind == 'stream':
                S.ensure([int(i) for i in observer.shells] == [int(i) for i in base['shell'][2]] if 'shell' in base else len(observer.shells) == 2, 'its shells', lambda: observer.shells)
            near(S, numpy.array(observer.times), stored(base, 'time', 'mks')[1], 'its times')
            u = D.UNITS['energy'][SYSTEMS.index(system or 'mks')]
            S.ensure(observer.energies.unit == unit(u) or bool(observer.energies.unit & u), 'its energies are in its system', lambda: str(observer.energies.unit))
            near(S, numpy.array(observer.energies.data, dtype=float), stored(base, 'energy', system or 'mks')[1], 'its energies')
            near(S, numpy.array(observer.mus.data, dtype=float), stored(base, 'mu', system or 'mks')[1], 'its cosines')
            S.ensure(len(observer.energies) == 2 and len(observer.mus) == 2 and [str(x) for x in observer.species] == ['H+'],
                     'its axes')
            os.chdir(here)
        directory = S.rng.choice(directories)
        numbers = {n for d, kind, n, _ in known if d == directory and kind == 'stream'}
        absent = S.rng.choice([n for n in (4, 5, 111, 99999) if n not in numbers])
        result, exc = attempt(eprem.stream, absent, None, directory)
        S.ensure(exc is not None, f'there is no stream {absent}', lambda: result)
        if numbers:
            n = min(numbers)
            mine = next(p for d, kind, m, p in known if (d, kind, m) == (directory, 'stream', n))
            second = {'obs': 'flux', 'flux': 'obs', 'stream': 'obs'}[mine]
            twin, _ = D.place(mark(base, 77), directory, f'{second}{n:06}.nc')
            result, exc = attempt(eprem.stream, n, None, directory)
            S.ensure(exc is not None, 'a number that two files share')
            os.remove(twin)
        result, exc = attempt(eprem.point, 'venus', None, directory)
        S.ensure(exc is not None, 'there is no such point')
        whole = eprem.dataset(directory, system=S.rng.choice(SYSTEMS))
        factor = 1.0 if str(whole.system) == 'cgs' else 1e6
        S.ensure(str(whole.directory) == os.path.realpath(directory) and os.path.realpath(str(whole.config.source)) == os.path.realpath(os.path.join(directory, 'eprem.cfg')), 'the directory and configuration of a dataset', lambda: (whole.directory, whole.config.source))
        written = need('eprempy.parameter', 'interface')(os.path.join(directory, 'eprem.cfg'))
        S.ensure(set(whole.parameters) == set(written) and all(same(whole.parameters[k], written[k]) for k in S.rng.sample(sorted(written), 8)), 'the parameters of a dataset')
        streams = {n: w for (d, kind, n, _), w in known.items() if d == directory and kind == 'stream'}
        named = {n for d, kind, n, _ in known if kind == 'named'}
        points = {n: w for (d, kind, n, _), w in known.items() if d == directory and kind == 'point'}
        S.ensure({n: round(tell(o) / factor) for n, o in whole.streams.items()} == streams, 'the streams of a dataset',
                 lambda: ({n: tell(o) for n, o in whole.streams.items()}, streams))
        S.ensure({int(n): round(tell(o) / factor) for n, o in whole.points.items()} == points, 'the points of a dataset',
                 lambda: ({n: tell(o) for n, o in whole.points.items()}, points))
        for way in S.rng.sample(['streams', 'points', 'observers'], 3) + ['observers']:
            want = {'streams': streams, 'points': {f'{n:03}': w for n, w in points.items()}}
            want['observers'] = {**want['streams'], **want['points']}
            got = {n: round(tell(o) / factor) for n, o in getattr(whole, way).items() if n not in named}
            S.ensure(got == want[way], f'the {way} of a dataset, asked for again', lambda: (got, want[way]))
    finally:
        os.chdir(here)
        for directory in directories:
            shutil.rmtree(directory)


@contract('C21', 'identifiers', functions=OBS[-1:], sym_time=60, bound='every number up to 20 000 (2 000 in quick), 6 digits at most',
          cases=lambda tier: [(0, 2000)] if tier == 'quick' else [(i, i + 5000) for i in range(0, 20000, 5000)])
def identifiers(S, case):
    """The number of an observer is the number in the name of its file."""
    import pathlib
    identify = need('eprempy.eprem', '_get_observer_id')
    for n in range(*case):
        for prefix in ('obs', 'flux', 'stream'):
            S.ensure(identify(pathlib.Path(f'/a/{prefix}{n:06}.nc')) == n, f'{prefix}{n:06}')
        for prefix in ('p_obs', 'point'):
            got = identify(pathlib.Path(f'/a/{prefix}{n:03}.nc'))
            S.ensure(int(got) == n, f'{prefix}{n:03}', lambda: got)
    for prefix, name in [('p_obs', 'bos'), ('p_obs', '_sp'), ('point', 'north'), ('point', 'ipt'), ('p_obs', 'psp'), ('point', '')]:
        S.ensure(identify(pathlib.Path(f'/a/{prefix}{name}.nc')) == name, f'{prefix}{name}')


@contract('C21', 'refusals', rand=(20, 300), functions=FILE + OBS, bound='random')
def refusals(S):
    """A quantity that is not stored, an unknown axis or a missing directory is refused."""
    recipe = draw(S)
    gone = S.rng.choice(['Br', 'R', 'Rho', 'time'])
    cut = {k: v for k, v in recipe.items() if k != gone}
    path, _ = D.place(cut)
    try:
        arrays = datafile('arrays')(path, 'mks')
        name = next(n for n, v in D.NAMES.items() if v == gone)
        result, exc = attempt(getattr, arrays, name)
        S.ensure(exc is not None, f'{name} is not stored', lambda: result)
        result, exc = attempt(lambda: datafile('axes')(path, 'mks')['colour'])
        S.ensure(isinstance(exc, KeyError), 'an unknown axis')
        result, exc = attempt(need('eprempy.eprem', 'stream'), 0, None, os.path.join(os.path.dirname(path), 'nowhere'))
        S.ensure(exc is not None, 'a directory that does not exist')
        result, exc = attempt(need('eprempy.eprem', 'stream'), 0, 'none.cfg', os.path.dirname(path))
        S.ensure(exc is not None, 'a configuration that does not exist')
    finally:
        shutil.rmtree(os.path.dirname(path))
