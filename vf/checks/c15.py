"""C15: physical constants and particle species are the same in every unit system."""
import math
import warnings

import numpy

from ..core import contract, attempt, need, Skip, Unsupported, close
from .. import units as U
from .c14 import dimension_of, terms_of, total, QUANTITY, write

F, D = U.F, U.D
CONST = ['eprempy.universal.' + n for n in ('_constants', '_normalize', 'Constants', 'Constant')]
ATOM = ['eprempy.atomic.' + n for n in ('_elements', '_nucleons', 'elements', 'get_mass_indices', 'Species', 'species')]
SYSTEMS = ('mks', 'cgs')


def constants(system):
    return need('eprempy.universal', 'Constants')(system)


def number(x):
    return float(numpy.asarray(x).reshape(()))


# an independent table: accepted SI value (to the stated relative accuracy) and dimension
TRUE = {
    'pi': (3.14159265358979, {}), 'k': (1.380649e-23, D(M=1, L=2, T=-2, H=-1)), 'e': (1.602176634e-19, D(I=1, T=1)),
    'me': (9.1093837e-31, D(M=1)), 'mp': (1.67262192e-27, D(M=1)), 'G': (6.6743e-11, D(L=3, T=-2, M=-1)),
    'g': (9.80665, D(L=1, T=-2)), 'h': (6.62607015e-34, D(M=1, L=2, T=-1)), 'c': (2.99792458e8, D(L=1, T=-1)),
    'epsilon0': (8.8541878e-12, D(T=4, I=2, M=-1, L=-3)), 'mu0': (1.25663706e-6, D(M=1, L=1, T=-2, I=-2)),
    'Rinfinity': (1.0973731568e7, D(L=-1)), 'a0': (5.29177211e-11, D(L=1)), 're': (2.8179403e-15, D(L=1)),
    'alpha': (7.2973525693e-3, {}), 'c1': (3.741771852e-16, D(M=1, L=4, T=-3)), 'c2': (1.438776877e-2, D(L=1, H=1)),
    'sigma': (5.670374419e-8, D(M=1, T=-3, H=-4)), 'eV': (1.602176634e-19, D(M=1, L=2, T=-2)),
    'amu': (1.66053907e-27, D(M=1)), 'au': (1.495978707e11, D(L=1)), 'H+': (2.1787e-18, D(M=1, L=2, T=-2)),
    'MeV': (1.602176634e-13, D(M=1, L=2, T=-2)),
}
GAUSS = {'e': ('statC', 4.80320427e-10), 'epsilon0': ('1', 1.0), 'mu0': ('1', 1.0)}


def const_cases(tier):
    return [str(k) for k in constants('mks')]


@contract('C15', 'constants', cases=const_cases, functions=CONST, bound='every constant')
def each(S, name):
    """A constant has one physical value in both systems, in a unit of the dimension of its quantity."""
    values = {}
    for s in SYSTEMS:
        x = constants(s)[name]
        values[s] = x
        dim = dimension_of(terms_of(x.unit), s)
        S.ensure(dim is not None, f'{name} in {s}: a unit of that system', lambda: str(x.unit))
        q = need('eprempy.metric', 'system')(s)[x.quantity]
        want = dimension_of(terms_of(q.unit), s)
        S.ensure(dim == want, f'{name} in {s}: the unit has the dimension of the quantity',
                 lambda: (str(x.unit), x.quantity, dim, want))
        S.ensure(not set(want) & {'I'} or s == 'mks', f'{name} in {s}: no current in this system')
        y = constants(s.upper())[name]
        S.ensure(number(y.data) == number(x.data) and y.unit == x.unit, f'{name} in {s}: the system in any case')
        z = x.asscalar
        S.ensure(number(z.data) == number(x.data) and z.unit == x.unit, f'{name} in {s}: as a scalar')
        S.ensure(number(x.data) > 0 and math.isfinite(number(x.data)), f'{name} in {s}: positive')
    a, b = values['mks'], values['cgs']
    S.ensure(a.quantity == b.quantity, f'{name}: one quantity')
    r = U.factor(a.unit, b.unit)
    if r is not None:
        S.ensure(abs(number(a.data) * r / number(b.data) - 1) < 1e-9, f'{name}: the same value in both systems',
                 lambda: (number(a.data), str(a.unit), number(b.data), str(b.unit)))
        w = a.asscalar.withunit(b.unit)
        S.ensure(abs(number(w.data) / number(b.data) - 1) < 1e-9, f'{name}: converting one gives the other',
                 lambda: (number(w.data), number(b.data)))
    elif name in GAUSS:
        u, v = GAUSS[name]
        S.ensure(str(b.unit) == u, f'{name}: Gaussian unit', lambda: str(b.unit))
        S.ensure(abs(number(b.data) / v - 1) < 1e-4, f'{name}: Gaussian value', lambda: number(b.data))
    else:
        S.ensure(False, f'{name}: comparable units', lambda: (str(a.unit), str(b.unit)))
    if name in TRUE:
        v, d = TRUE[name]
        S.ensure(dimension_of(terms_of(a.unit), 'mks') == d, f'{name}: dimension', lambda: str(a.unit))
        si = U.denote(a.unit)
        x = number(a.data) * (si[0] if si else 1.0)
        S.ensure(abs(x / v - 1) < 5e-4, f'{name}: accepted value', lambda: (x, v))


@contract('C15', 'charge', cases=lambda tier: ['e'], functions=CONST + ['eprempy.metric._reference._CONVERSIONS'],
          bound='the elementary charge')
def charge(S, name):
    """The elementary charge converts from one system to the other."""
    a, b = constants('mks')[name], constants('cgs')[name]
    r = a.unit >> b.unit
    S.ensure(abs(number(a.data) * r / number(b.data) - 1) < 1e-4, 'converting one gives the other', lambda: r)
    S.ensure(abs(r * (b.unit >> a.unit) - 1) < 1e-9, 'and back')


def relations(s):
    """Known relations: name -> (left, right, tolerance)."""
    K = {k: number(constants(s)[k].data) for k in constants(s)}
    hbar = K['h'] / (2 * K['pi'])
    coulomb = K['e'] ** 2 / (4 * K['pi'] * K['epsilon0']) if s == 'mks' else K['e'] ** 2
    out = {
        'c2 = h c / k': (K['c2'], K['h'] * K['c'] / K['k']),
        'c1 = 2 pi h c^2': (K['c1'], 2 * K['pi'] * K['h'] * K['c'] ** 2),
        'sigma = 2 pi^5 k^4 / (15 h^3 c^2)': (K['sigma'], 2 * K['pi'] ** 5 * K['k'] ** 4 / (15 * K['h'] ** 3 * K['c'] ** 2)),
        're = alpha^2 a0': (K['re'], K['alpha'] ** 2 * K['a0']),
        'a0 = hbar / (alpha me c)': (K['a0'], hbar / (K['alpha'] * K['me'] * K['c'])),
        'alpha = coulomb / (hbar c)': (K['alpha'], coulomb / (hbar * K['c'])),
        'Rinfinity = alpha / (4 pi a0)': (K['Rinfinity'], K['alpha'] / (4 * K['pi'] * K['a0'])),
        'MeV = 1e6 eV': (K['MeV'], 1e6 * K['eV']),
        'H+ = 13.6 eV': (K['H+'], 13.6 * K['eV']),
        'amu and mp': (K['mp'], 1.00728 * K['amu']),
        'mp and me': (K['mp'], 1836.15 * K['me']),
    }
    if s == 'mks':
        out['eV = e V'] = (K['eV'], K['e'])
        out['c^2 = 1 / (epsilon0 mu0)'] = (K['c'] ** 2, 1 / (K['epsilon0'] * K['mu0']))
    return out


@contract('C15', 'relations', cases=lambda tier: [(s, r) for s in SYSTEMS for r in relations(s)], functions=CONST,
          bound='13 relations, to four digits')
def known(S, case):
    """Known relations between constants hold in each system."""
    s, r = case
    a, b = relations(s)[r]
    S.ensure(abs(a / b - 1) < 1e-3, f'{s}: {r}', lambda: (a, b))


@contract('C15', 'access', rand=(60, 400), functions=CONST, bound='sampled orders of access')
def access(S):
    """What a constant is does not depend on which were used before, nor on arithmetic with them."""
    names = const_cases(None)
    want = {(s, n): (TRUE.get(n), s) for s in SYSTEMS for n in names}
    first = {}
    tables = {s: constants(s) for s in SYSTEMS}
    for i in range(6):
        s = S.choice(f's{i}', SYSTEMS)
        n = S.choice(f'n{i}', names)
        x = tables[s][n] if S.coin(f't{i}') else constants(s)[n]
        got = (number(x.data), str(x.unit), x.quantity)
        y = x.asscalar * 2.0
        S.ensure(close(number(y.data), 2 * got[0]) and y.unit == x.unit, 'arithmetic with a constant', lambda: (n, str(y)))
        S.ensure(first.setdefault((s, n), got) == got, 'the same at every access', lambda: (s, n, got, first[(s, n)]))
        a = number(constants('mks')[n].data)
        if n in TRUE and s == 'mks' and n not in ('epsilon0', 'mu0'):
            S.ensure(abs(a / TRUE[n][0] - 1) < 5e-4 or U.denote(x.unit)[0] != 1, 'accepted value', lambda: (n, a))
    r, e = attempt(lambda: constants('mks')['no such constant'])
    S.ensure(e is not None, 'unknown constants are refused')
    S.ensure(len(constants('mks')) == len(names) and set(map(str, constants('cgs'))) == set(names), 'the same names in both')


# -- species ------------------------------------------------------------------------

# symbol: rounded atomic weight, of the elements whose accepted value is beyond doubt
WEIGHT = dict(H=1.008, He=4.0026, Li=6.94, Be=9.0122, B=10.81, C=12.011, N=14.007, O=15.999, F=18.998, Ne=20.180, Na=22.990,
              Mg=24.305, Al=26.982, Si=28.085, P=30.974, S=32.06, Cl=35.45, K=39.098, Ar=39.948, Ca=40.078, Sc=44.956,
              Ti=47.867, V=50.942, Cr=51.996, Mn=54.938, Fe=55.845, Ni=58.693, Co=58.933, Cu=63.546, Zn=65.38, Ga=69.723,
              Ge=72.63, As=74.922, Se=78.971, Br=79.904, Kr=83.798, Rb=85.468, Sr=87.62, Y=88.906, Zr=91.224, Nb=92.906,
              Mo=95.95, Tc=98, Ru=101.07, Rh=102.91, Pd=106.42, Ag=107.87, Cd=112.41, In=114.82, Sn=118.71, Sb=121.76,
              I=126.90, Te=127.60, Xe=131.29, Cs=132.91, Ba=137.33, La=138.91, Ce=140.12, Pr=140.91, Nd=144.24, Pm=145,
              Sm=150.36, Eu=151.96, Gd=157.25, Tb=158.93, Dy=162.50, Ho=164.93, Er=167.26, Tm=168.93, Yb=173.05, Lu=174.97,
              Hf=178.49, Ta=180.95, W=183.84, Re=186.21, Os=190.23, Ir=192.22, Pt=195.08, Au=196.97, Hg=200.59, Tl=204.38,
              Pb=207.2, Bi=208.98, Po=209, At=210, Rn=222, Fr=223, Ra=226, Ac=227, Pa=231.04, Th=232.04, Np=237, U=238.03)
NAME = dict(H='Hydrogen', He='Helium', C='Carbon', N='Nitrogen', O='Oxygen', Ne='Neon', Mg='Magnesium', Si='Silicon',
            S='Sulfur', Fe='Iron', Ca='Calcium', Ar='Argon', Na='Sodium', Al='Aluminum', Cl='Chlorine', K='Potassium')


def species(*a, **k):
    return need('eprempy.atomic', 'species')(*a, **k)


def table():
    return [dict(symbol=r['symbol'], name=r['name'], mass=r['mass']) for r in need('eprempy.atomic', 'ELEMENTS')]


def element_cases(tier):
    return [r['symbol'] for r in table()]


CHARGES = range(-4, 27)


def state(symbol, charge):
    return symbol + ('+' if charge > 0 else '-') * abs(charge)


@contract('C15', 'elements', cases=element_cases, functions=ATOM, bound='every element, 31 charge states')
def each_element(S, symbol):
    """A species named by element and charge state has its mass and charge, and is what they denote."""
    row, = [r for r in table() if r['symbol'] == symbol]
    if symbol in WEIGHT:
        S.ensure(abs(row['mass'] - WEIGHT[symbol]) < 0.75, f'{symbol}: accepted mass', lambda: row['mass'])
    if symbol in NAME:
        S.ensure(row['name'] == NAME[symbol], f'{symbol}: name', lambda: row['name'])
    same = [r['symbol'] for r in table() if round(r['mass']) == round(row['mass'])]
    for q in CHARGES:
        s = species(state(symbol, q))
        tag = s.symbol
        S.ensure(s.m == row['mass'] and number(s.mass.data) == row['mass'], f'{tag}: mass', lambda: s.m)
        S.ensure(s.q == q and number(s.charge.data) == q, f'{tag}: charge', lambda: s.q)
        S.ensure(s.mass.unit == 'nuc' and s.charge.unit == 'e', f'{tag}: units', lambda: (str(s.mass.unit), str(s.charge.unit)))
        for m in (round(row['mass']), row['mass'], float(round(row['mass'])), numpy.int64(round(row['mass']))):
            t = species(mass=m, charge=q)
            S.ensure(t.symbol == state(same[0], q), f'{tag}: the species that mass and charge denote', lambda: (m, q, t.symbol))
            S.ensure(round(t.m) == round(row['mass']) and t.q == q, f'{tag}: mass and charge come back', lambda: (t.m, t.q))
            S.ensure(species(t.symbol).m == t.m and species(t.symbol).q == t.q, f'{tag}: the name gives the same back')


@contract('C15', 'species', rand=(400, 4000), functions=ATOM, bound='sampled lists of one to five species')
def many(S):
    """Lists of masses and charges name the species one by one; what denotes no element is refused."""
    rows = table()
    n = S.choice('n', [1, 2, 3, 5])
    picked = [S.choice(f'r{i}', rows) for i in range(n)]
    masses = [round(r['mass']) + S.choice(f'd{i}', [0, 0, 0.3, -0.4]) for i, r in enumerate(picked)]
    charges = [S.choice(f'q{i}', list(range(-3, 10))) for i in range(n)]
    how = S.choice('how', ['list', 'tuple', 'array', 'float'])
    wrap = {'list': list, 'tuple': tuple, 'array': numpy.array, 'float': lambda x: numpy.array(x, dtype=float)}[how]
    near = [q * S.choice('rounding', [1, 1 - 1e-4, 1 + 1e-4, 1 - 1e-15]) for q in charges] if how == 'float' else charges
    got = need('eprempy.atomic', 'elements')(mass=wrap(masses), charge=wrap(near))
    want = [state([r['symbol'] for r in rows if round(r['mass']) == round(m)][0], q) for m, q in zip(masses, charges)]
    S.ensure(list(got) == want, 'species one by one', lambda: (masses, charges, got, want))
    for m, q, s in zip(masses, charges, got):
        x = species(s)
        S.ensure(round(x.m) == round(m) and x.q == q, 'mass and charge come back', lambda: (m, q, s, x.m, x.q))
    r, e = attempt(lambda: need('eprempy.atomic', 'elements')(mass=wrap(masses), charge=wrap(charges + [1])))
    S.ensure(e is not None, 'lists of different lengths are refused', lambda: r)
    gaps = [k for k in range(1, 300) if k not in {round(r['mass']) for r in rows}]
    m = S.choice('gap', gaps)
    r, e = attempt(lambda: species(mass=m, charge=1))
    S.ensure(e is not None, 'a mass of no element is refused', lambda: (m, r.symbol))
    r, e = attempt(lambda: species(S.choice('bad', ['Xx', 'h', 'He2+', '', '+', 'HHe', 'h+'])).m)
    S.ensure(e is not None, 'a name of no element has no mass', lambda: r)


@contract('C15', 'arguments', cases=lambda tier: [0], functions=ATOM, bound='seven ill-formed calls')
def arguments(S, case):
    """A species is defined by its symbol or by its mass and charge, and by nothing else."""
    for a, k in [((), {}), (('H', 'He'), {}), (('H',), dict(mass=1, charge=1)), ((), dict(mass=1)), ((), dict(charge=1)),
                 ((), dict(mass=1, charge=1, name='H')), (('H',), dict(charge=1))]:
        r, e = attempt(lambda: species(*a, **k))
        S.ensure(e is not None, 'refused', lambda: (a, k))


@contract('C15', 'mass-index', sym='proof', rand=(100, 500), max_paths=(400, 400), functions=ATOM[3:4])
def mass_index(S):
    """For every integer mass, the first element with that rounded mass, or a refusal if there is none."""
    get, nucleons = need('eprempy.atomic', 'get_mass_indices'), need('eprempy.atomic', '_nucleons')
    values = list(nucleons.values())
    m = S.int('m', -5, 400)
    r, e = attempt(lambda: get(nucleons, [m]))
    if e is not None:
        for v in set(values):
            S.ensure(S.implies(S.eq(m, v), False), 'refused only if no element has the mass')
        return
    S.ensure(len(r) == 1 and S.eq(values[r[0]], m), 'an element with that mass')
    for v in set(values[:r[0]]):
        S.ensure(S.implies(S.eq(m, v), False), 'the first one')
