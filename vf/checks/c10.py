"""C10: axis collections behave as ordered maps from dimension to axis."""
import itertools

import numpy

from ..core import contract, attempt, need, Skip, Unsupported

AX = 'eprempy.physical._axes.Axes.'
OPS = [AX + n for n in ('__len__', '__iter__', '__getitem__', '__or__', 'copy', 'replace', 'insert', 'without', 'extract', 'permute', '__lt__', '__le__', '__gt__', '__ge__')]


class Opaque:
    """Builds axes of which nothing is known but their identity and length."""

    def __init__(self):
        from eprempy import physical
        Axis = need('eprempy.physical._axis', 'Axis')

        class Token(Axis):
            def __init__(self, tag, n):
                self.tag, self.n = tag, n
                self._indices = self._length = None
                self._object = self._data = [tag] * n
            def __len__(self): return self.n
            def __iter__(self): return iter([(self.tag, i) for i in range(self.n)])
            def __eq__(self, o): return isinstance(o, Token) and (self.tag, self.n) == (o.tag, o.n)
            def __hash__(self): return hash(self.tag)
            def __repr__(self): return f'axis {self.tag}'
        self.Axes = need('eprempy.physical._axes', 'Axes')
        self.make = Token


def same(xs, ys):
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


def names_of(S, tag, n):
    out = [S.name(f'{tag}{i}') for i in range(n)]
    for a, b in itertools.combinations(out, 2):
        S.assume(a != b)
    return out


def holds(S, r, names, axes, label):
    """`r` is the ordered map from `names` to `axes`."""
    keys = list(r)
    S.ensure(type(r).__name__ == 'Axes' and len(keys) == len(r) == len(names), f'{label}: one entry per dimension', (lambda: (keys, names)) if not S.symbolic else None)
    S.ensure(S.both(*[a == b for a, b in zip(keys, names)]), f'{label}: the dimensions in order', (lambda: (keys, names)) if not S.symbolic else None)
    S.ensure(same([r[k] for k in keys], axes) and same(list(r.values()), axes), f'{label}: each dimension has its axis')
    S.ensure(len(tuple(r.names)) == len(names) and S.both(*[a == b for a, b in zip(r.names, names)], *[a == b for a, b in zip(r.dimensions, names)]), f'{label}: names and dimensions')
    S.ensure(same([r[i] for i in range(len(names))], axes) and same([r[i - len(names)] for i in range(len(names))], axes), f'{label}: lookup by position agrees')


def collection(S, o, tag='n', lo=1, hi=3):
    n = S.choice(f'size {tag}', range(lo, hi + 1))
    names = names_of(S, tag, n)
    axes = [o.make(f'{tag}{i}', i + 2) for i in range(n)]
    return o.Axes(dict(zip(names, axes))), names, axes


def index_of(S, names, d):
    """The position of `d` among distinct `names`, or None (branches on it in symbolic mode)."""
    for i, n in enumerate(names):
        if bool(n == d):
            return i
    return None


BOUND = 'collections of 1-3 dimensions; all names, any axes'


@contract('C10', 'lookup', sym='shape', rand=(60, 300), bound=BOUND, functions=OPS[:3] + [AX + 'copy'])
def lookup(S):
    """Lookup by name and by position agree, membership is that of the names, and unknown names and positions are refused."""
    o = Opaque()
    c, names, axes = collection(S, o)
    d = S.name('d')
    i = index_of(S, names, d)
    r, e = attempt(lambda: c[d])
    if i is None:
        S.ensure(isinstance(e, KeyError), 'an unknown name is refused')
        S.ensure(d not in c and c.get(d, 5) == 5, 'an unknown name is not there')
    else:
        S.ensure(e is None and r is axes[i] and d in c, 'the axis of that name')
    for k in (len(names), -len(names) - 1):
        r, e = attempt(lambda: c[k])
        S.ensure(isinstance(e, (KeyError, IndexError)), 'a position beyond the end is refused')
    holds(S, c.copy(), names, axes, 'copy')
    S.ensure(c.copy() is not c, 'a copy is another collection')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'union', sym='shape', rand=(300, 1500), max_paths=(6000, 20000), bound='collections of 1-3 and 1-2 dimensions; all names, any axes', functions=[AX + '__or__', AX + '_merge', AX + '_select', 'eprempy.container.merge'])
def union(S):
    """Union keeps the order of each operand, holds each dimension once, with its axis; conflicting orders are refused."""
    o = Opaque()
    a, an, ax = collection(S, o, 'n')
    b, bn, bx = collection(S, o, 'm', 1, 2 if S.symbolic else 4)
    where = [index_of(S, an, d) for d in bn]
    shared = [i for i in where if i is not None]
    r, e = attempt(lambda: a | b)
    if shared != sorted(shared):
        S.ensure(e is not None, 'conflicting orders are refused')
    else:
        S.ensure(e is None, 'agreeing orders are merged', (lambda: (an, bn, repr(e))) if not S.symbolic else None)
        keys = list(r)
        ia = [index_of(S, keys, d) for d in an]
        ib = [index_of(S, keys, d) for d in bn]
        S.ensure(None not in ia + ib and ia == sorted(ia) and ib == sorted(ib), 'the order of each operand is kept', (lambda: (an, bn, keys)) if not S.symbolic else None)
        S.ensure(len(keys) == len(r) == len(set(ia + ib)), 'each dimension once', (lambda: (an, bn, keys)) if not S.symbolic else None)
        for i, x in zip(ia, ax):
            j = ib.index(i) if i in ib else None
            S.ensure(r[keys[i]] is x if j is None else (r[keys[i]] is x or r[keys[i]] is bx[j]), 'a dimension keeps its axis')
        for i, x in zip(ib, bx):
            if i not in ia:
                S.ensure(r[keys[i]] is x, 'a dimension of the right operand keeps its axis')
        if not shared:
            S.ensure(ia == list(range(len(an))), 'new dimensions are appended')
    holds(S, a, an, ax, 'the left operand')
    holds(S, b, bn, bx, 'the right operand')


@contract('C10', 'permute', sym='shape', rand=(300, 1500), max_paths=(9000, 30000), bound=BOUND + '; orders of up to 4 entries', functions=[AX + 'permute', AX + '_permute', AX + '_permute_dimensions', 'eprempy.numeric._array.Dimensions.permute', 'eprempy.numeric._array.Dimensions.mismatch'])
def permute(S):
    """Permuting by names or positions reorders all axes; anything that is not a reordering is refused."""
    o = Opaque()
    c, names, axes = collection(S, o)
    n = len(names)
    k = S.choice('k', range(1, min(n + 1, 3) + 1) if S.symbolic else range(1, n + 2))
    by = S.choice('by', ['names', 'positions'])
    if by == 'names':
        order = [S.name(f'o{i}') if S.symbolic else S.choice(f'o{i}', names + ['zz']) for i in range(k)]
        at = [index_of(S, names, d) for d in order]
    else:
        order = [S.choice(f'o{i}', range(-n, n + 1)) for i in range(k)]
        at = [i % n if i < n else None for i in order]
    form = S.choice('form', ['list', 'keyword'] + (['flat'] if k > 1 else []))
    r, e = attempt(lambda: c.permute(order) if form == 'list' else c.permute(order=order) if form == 'keyword' else c.permute(*order))
    if None in at or sorted(at) != list(range(n)):
        S.ensure(e is not None, 'what is not a reordering is refused', (lambda: (names, order, r)) if not S.symbolic else None)
    else:
        S.ensure(e is None, 'a reordering is carried out', (lambda: (names, order, repr(e))) if not S.symbolic else None)
        holds(S, r, [names[i] for i in at], [axes[i] for i in at], f'permute by {by}')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'extract-without', sym='shape', rand=(300, 1500), max_paths=(6000, 20000), bound=BOUND, functions=[AX + 'extract', AX + 'without'])
def extract(S):
    """Extracting keeps exactly the chosen dimensions, in the order chosen; removing drops exactly the named one."""
    o = Opaque()
    c, names, axes = collection(S, o)
    n = len(names)
    d = [S.name(f'd{i}') if S.symbolic else S.choice(f'd{i}', names + ['zz']) for i in range(S.choice('k', [1, 2]))]
    at = [index_of(S, names, x) for x in d]
    r, e = attempt(lambda: c.extract(*d))
    if None in at or (len(d) == 2 and at[0] == at[1]):
        S.ensure(e is not None, 'unknown or repeated names are refused by extract')
    else:
        S.ensure(e is None, 'known names are extracted')
        holds(S, r, [names[i] for i in at], [axes[i] for i in at], 'extract')
    S.ensure(attempt(lambda: c.extract())[1] is not None, 'nothing to extract is refused')
    i = at[0]
    rest = [j for j in range(n) if j != i]
    for strict in (False, True):
        r, e = attempt(lambda: c.without(d[0], strict=strict) if strict else c.without(d[0]))
        if i is None and strict:
            S.ensure(isinstance(e, KeyError), 'strictly removing an unknown name is refused')
        else:
            S.ensure(e is None, 'a known name is removed')
            if rest:
                holds(S, r, [names[j] for j in rest], [axes[j] for j in rest], 'without')
            else:
                S.ensure(len(r) == 0 and list(r) == [], 'removing the only dimension leaves none')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'replace', sym='shape', rand=(300, 1500), max_paths=(6000, 20000), bound=BOUND, functions=[AX + 'replace'])
def replace(S):
    """Replacing changes only the named dimension, in place, its axis or its axis and name."""
    o = Opaque()
    c, names, axes = collection(S, o)
    d = S.name('d') if S.symbolic else S.choice('d', names + ['zz'])
    i = index_of(S, names, d)
    new = o.make('new', 7)
    put = lambda xs, x: [x if j == i else v for j, v in enumerate(xs)]
    r, e = attempt(lambda: c.replace(d, new))
    if i is None:
        S.ensure(isinstance(e, KeyError), 'replacing an unknown dimension is refused')
    else:
        S.ensure(e is None, 'a known dimension is replaced')
        holds(S, r, names, put(axes, new), 'replace axis')
    S.ensure(attempt(lambda: c.replace(d))[1] is not None, 'replacing by nothing is refused')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'rename', cases=lambda tier: [(n, i, j) for n in range(1, 5) for i in range(n + 1) for j in range(n + 1)],
          bound='collections of 1-4 dimensions, every pair of old and new name up to renaming', functions=[AX + 'replace'])
def rename(S, case):
    """Replacing a dimension under another name keeps its place; a name that is taken is refused."""
    o = Opaque()
    n, i, j = case
    names = ['alpha', 'b', 'c_2', 'x'][:n]
    axes = [o.make(k, 2) for k in names]
    c = o.Axes(dict(zip(names, axes)))
    old, key, new = (names + ['zz'])[i], (names + ['fresh'])[j], o.make('new', 3)
    r, e = attempt(lambda: c.replace(old, **{key: new}))
    if i == n or (j < n and j != i):
        S.ensure(e is not None, 'an unknown old name or a taken new name is refused', lambda: (names, old, key, r))
    else:
        S.ensure(e is None, 'renaming', lambda: repr(e))
        holds(S, r, [key if k == i else v for k, v in enumerate(names)], [new if k == i else v for k, v in enumerate(axes)], 'replace name and axis')
    S.ensure(attempt(lambda: c.replace(old, o.make('q', 1), **{key: new}))[1] is not None, 'both an axis and a pair are refused')
    S.ensure(attempt(lambda: c.replace(old, fresh=new, other=new))[1] is not None, 'two pairs are refused')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'insert', sym='shape', rand=(400, 2000), max_paths=(9000, 30000), bound=BOUND, functions=[AX + 'insert'])
def insert(S):
    """Inserting adds exactly the named dimension - at the end, at a position, or next to a dimension - and keeps the others in order."""
    o = Opaque()
    c, names, axes = collection(S, o)
    n = len(names)
    d = S.name('d') if S.symbolic else S.choice('d', names + ['zz'])
    new = o.make('new', 7)
    mode = S.choice('mode', ['end', 'index', 'before', 'after', 'both', 'unknown keyword'])
    if mode == 'index':
        loc = S.choice('loc', range(n + 2))
        kw = {'index': loc}
    elif mode in ('before', 'after'):
        loc = S.name('loc') if S.symbolic else S.choice('loc', names + ['yy'])
        loc_at = index_of(S, names, loc)
        kw = {mode: loc}
    elif mode == 'both':
        kw = {'index': 0, 'before': names[0]}
    else:
        kw = {} if mode == 'end' else {'at': 0}
    i = index_of(S, names, d)
    r, e = attempt(lambda: c.insert(d, new, **kw))
    bad = i is not None or mode in ('both', 'unknown keyword') or (mode == 'index' and loc > n) or (mode in ('before', 'after') and loc_at is None)
    if bad:
        S.ensure(e is not None, f'{mode}: a taken name or an unknown location is refused', (lambda: (names, d, kw, r)) if not S.symbolic else None)
    else:
        S.ensure(e is None, f'{mode}: a new dimension is inserted', (lambda: (names, d, kw, repr(e))) if not S.symbolic else None)
        at = [p for p, k in enumerate(r) if r[k] is new]
        S.ensure(len(at) == 1, f'{mode}: the new dimension is there once')
        p = at[0]
        holds(S, r, names[:p] + [d] + names[p:], axes[:p] + [new] + axes[p:], f'insert {mode}')
        if mode == 'end':
            S.ensure(p == n, 'without a location it is appended')
        elif mode == 'index':
            S.ensure(p == loc, 'at the given position')
        else:
            S.ensure(p in (loc_at, loc_at + 1), 'next to the given dimension')
    holds(S, c, names, axes, 'the original')


@contract('C10', 'history', rand=(300, 3000), bound='sampled histories of 8 operations on collections of real axes',
          functions=OPS + ['eprempy.physical._axes.axes_factory', AX + '__eq__'])
def history(S):
    """Any history of operations agrees with an ordered list of pairs, and earlier collections stay as they were."""
    from eprempy import physical, measured
    pool = {'p': physical.points(range(3)), 'q': physical.points([1, 4]), 's': physical.symbols(['H', 'He']), 'c': physical.coordinates(measured.sequence([1.0, 2.5], unit='m')),
            'd': physical.coordinates(measured.sequence([1.0, 2.5], unit='s')), 'e': physical.points([0, 1, 2, 3])}
    letters = ['x', 'y', 'radius', 'species', 'w']
    def draw(tag, k):
        return [(n, pool[S.choice(f'{tag}{i}', list(pool))]) for i, n in enumerate(S.shuffled(tag, letters)[:k])]
    model = draw('start', S.choice('k', [1, 2, 3]))
    c = physical.axes(dict(model)) if S.coin('mapping') else physical.axes(**dict(model))
    past = []
    for step in range(8):
        past.append((c, list(model)))
        S.ensure([(k, c[k]) for k in c] == model and all(c[k] is v for k, v in model), f'step {step}: the collection is the ordered list of pairs', lambda: (str(c), model))
        names = [k for k, _ in model]
        free = [n for n in letters if n not in names]
        op = S.choice(f'op{step}', ['permute', 'extract', 'without', 'replace', 'rename', 'insert', 'or', 'copy'])
        if op == 'permute':
            order = S.shuffled(f'o{step}', names)
            c = c.permute(order)
            model = [(k, dict(model)[k]) for k in order]
        elif op == 'extract':
            order = S.shuffled(f'o{step}', names)[:S.choice(f'k{step}', range(1, len(names) + 1))]
            c = c.extract(*order)
            model = [(k, dict(model)[k]) for k in order]
        elif op == 'without' and len(names) > 1:
            d = S.choice(f'd{step}', letters)
            c = c.without(d)
            model = [(k, v) for k, v in model if k != d]
        elif op in ('replace', 'rename'):
            d, v = S.choice(f'd{step}', names), pool[S.choice(f'v{step}', list(pool))]
            k = S.choice(f'k{step}', [d] + free) if op == 'rename' else d
            c = c.replace(d, **{k: v}) if op == 'rename' else c.replace(d, v)
            model = [(k, v) if a == d else (a, b) for a, b in model]
        elif op == 'insert' and free:
            d, v, i = S.choice(f'd{step}', free), pool[S.choice(f'v{step}', list(pool))], S.choice(f'i{step}', range(len(names) + 1))
            c = c.insert(d, v, index=i) if S.coin(f'at{step}') else c.insert(d, v)
            j = i if len(c) and list(c)[i] == d else len(names)
            S.ensure(list(c)[j] == d, 'the inserted dimension')
            model = model[:j] + [(d, v)] + model[j:]
        elif op == 'or':
            other = draw(f'other{step}', S.choice(f'k{step}', [1, 2]))
            common = [k for k, _ in other if k in names]
            if [k for k in names if k in common] != common or any(not eq(dict(other)[k], dict(model)[k]) for k in common):
                continue
            c = c | physical.axes(dict(other))
            S.ensure([k for k in c if k in names] == names and [k for k in c if k in dict(other)] == [k for k, _ in other], 'union keeps both orders')
            both = {**dict(model), **dict(other)}
            S.ensure(set(c) == set(both) and all(eq(c[k], both[k]) for k in c), 'union holds every dimension')
            model = [(k, c[k]) for k in c]
        else:
            c = c.copy()
        fresh = physical.axes(dict(model))
        S.ensure(c == fresh and not (c != fresh) and c <= fresh and c >= fresh and not c < fresh, 'equal to a collection built directly')
    for c, model in past:
        S.ensure([(k, c[k]) for k in c] == model and list(c.names) == [k for k, _ in model], 'earlier collections stay as they were')


def eq(a, b):
    return type(a) is type(b) and bool(a == b)


@contract('C10', 'creation', cases=lambda tier: [d for n in range(1, 5) for d in itertools.product(['x', 'y', 'z'], repeat=n)], bound='every list of 1-4 names out of three',
          functions=['eprempy.physical._axes.axes_factory', 'eprempy.physical._axes._map_axes', 'eprempy.physical._axes.convert_to_axis'])
def creation(S, dims):
    """A collection is created with one axis per name, in order; repeated names and mismatched lengths are refused."""
    from eprempy import physical, measured
    n = len(dims)
    shape = tuple(range(2, 2 + n))
    axes = [physical.points(range(3)), physical.symbols(['a', 'b']), physical.coordinates(measured.sequence([1.0, 2.0], unit='m')), physical.points([5])][:n]
    for kw in ({'shape': shape, 'dimensions': dims}, {'axes': axes, 'dimensions': dims}):
        r, e = attempt(lambda: physical.axes(**kw))
        if len(set(dims)) < n:
            S.ensure(e is not None, f'repeated names {dims} are refused', lambda: str(r))
            continue
        S.ensure(e is None and tuple(r) == dims == tuple(r.names), f'names {dims} in order', lambda: repr(e))
        S.ensure([len(a) for a in r.values()] == (list(shape) if 'shape' in kw else [len(a) for a in axes]), 'the lengths given')
        if 'axes' in kw:
            S.ensure(all(r[d] is a for d, a in zip(dims, axes)), 'the axes given')
        for bad in ({**kw, 'dimensions': dims + ('w',)}, {**kw, 'dimensions': dims[:-1]}):
            if bad['dimensions']:
                S.ensure(attempt(lambda: physical.axes(**bad))[1] is not None, 'as many names as axes')
    for r in (physical.axes(shape=shape), physical.axes(*shape) if n > 1 else physical.axes(shape=shape)):
        S.ensure(len(r) == n and [len(a) for a in r.values()] == list(shape), 'default names')
    r = physical.axes({d: a for d, a in zip(dims, axes)}) if len(set(dims)) == n else None
    if r is not None:
        S.ensure(tuple(r) == dims and all(r[d] is a for d, a in zip(dims, axes)), 'from a mapping')


KINDS = [([0, 5, 2], 'Points', None), ([1.5, 2.5], 'Coordinates', '1'), (([1.5, 2.5], 'm'), 'Coordinates', 'm'),
         (([1, 2, 3], 's'), 'Coordinates', 's'), (['a', 'b'], 'Symbols', None), ([1, 2.5], 'Coordinates', '1')]


@contract('C10', 'conversion', cases=lambda tier: list(itertools.product(range(len(KINDS)), repeat=2)),
          bound='every pair of six spellings of an axis',
          functions=['eprempy.physical._axes.axes_factory', 'eprempy.physical._axes._convert_to_axis', 'eprempy.physical._axes.convert_to_axis'])
def conversion(S, case):
    """Integers become points, strings symbols, other numbers and numbers with a unit coordinates with that unit."""
    import numpy
    from eprempy import physical
    given = [KINDS[i] for i in case]
    for r in (physical.axes({d: x for d, (x, _, _) in zip('xy', given)}), physical.axes(axes=[x for x, _, _ in given], dimensions=('x', 'y'))):
        for d, (x, kind, unit) in zip('xy', given):
            S.ensure(type(r[d]) is getattr(physical, kind), f'{x} gives {kind}', lambda: r[d])
            want = x[0] if isinstance(x, tuple) else x
            got = list(r[d].data) if unit is None else list(numpy.array(r[d]))
            S.ensure(len(r[d]) == len(want) and all(str(a) == b if kind == 'Symbols' else float(a) == b for a, b in zip(got, want)), f'the coordinates {x}', lambda: r[d])
            if unit is not None:
                S.ensure(str(r[d].unit) == unit, f'the unit of {x}', lambda: r[d].unit)


@contract('C10', 'compare', cases=lambda tier: [(a, b, m) for n in range(0, 4) for a in itertools.permutations('xyz', n) for k in range(0, 4) for b in itertools.permutations('xyz', k) for m in range(2) if a and b],
          bound='every pair of collections over three names, equal or differing in one axis', functions=[AX + n for n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__')])
def compare(S, case):
    """Collections are equal exactly with equal names in equal order and equal axes; the order is inclusion."""
    from eprempy import physical
    a, b, differ = case
    ax = {d: physical.points(range(2)) for d in 'xyz'}
    bx = {d: physical.points(range(2)) for d in 'xyz'}
    if differ:
        bx[b[0]] = physical.points([3, 4])
    p, q = physical.axes({d: ax[d] for d in a}), physical.axes({d: bx[d] for d in b})
    clash = differ and b[0] in a
    S.ensure((p == q) == (a == b and not clash) and (p != q) == (not (a == b and not clash)), 'equality')
    A, B = set(a), set(b)
    for name, want in (('__lt__', A < B), ('__le__', A <= B), ('__gt__', A > B), ('__ge__', A >= B)):
        r, e = attempt(lambda: getattr(p, name)(q))
        if clash:
            S.ensure(e is not None, 'collections with differing axes are not ordered')
        else:
            S.ensure(e is None and r is want, f'{name} is inclusion', lambda: (a, b, r))


DIM = 'eprempy.numeric._array.Dimensions.'


@contract('C10', 'dimension names', cases=lambda tier: [(a, b) for n in range(4) for a in itertools.permutations('wxyz', n) for k in range(4) for b in itertools.permutations('wxyz', k)],
          bound='every pair of collections of up to three names, up to renaming; each type of operand',
          functions=[DIM + '__%s__' % n for n in ('and', 'rand', 'or', 'ror', 'sub', 'rsub', 'xor', 'rxor', 'lt', 'le', 'gt', 'ge', 'eq', 'hash')] + [DIM + n for n in ('_get_operand', 'permute', 'insert', 'replace', 'copy', 'mismatch')])
def dimension_names(S, case):
    """Set operations on dimension names keep the order of their operands; the order is inclusion and equality is that of ordered names."""
    from eprempy import numeric
    a, b = case
    long = dict(zip('wxyz', ('time', 'shell', 'mu', 'm')))
    a, b = [tuple(long[n] for n in x) for x in (a, b)]
    x, y = numeric.dimensions(*a), numeric.dimensions(*b)
    say = lambda: (a, b)

    def kept(r, whole, label):
        r = tuple(r)
        S.ensure(len(r) == len(set(r)) and set(r) == whole, f'{label}: the names', lambda: (a, b, r))
        for o in (a, b):
            S.ensure([n for n in o if n in r] == [n for n in r if n in o], f'{label}: the order of each operand', lambda: (a, b, r))
    A, B = set(a), set(b)
    clash = [n for n in a if n in B] != [n for n in b if n in A]
    operands = [(x, y), (x, b), (x, list(b)), (a, y), (list(a), y)]
    if len(b) == 1:
        operands.append((x, b[0]))
    if len(a) == 1:
        operands.append((a[0], y))
    for p, q in operands:
        r, e = attempt(lambda: p | q)
        if clash:
            S.ensure(isinstance(e, ValueError), 'union: conflicting orders are refused', say)
        else:
            S.ensure(e is None, 'union of consistent orders', say)
            kept(r, A | B, 'union')
        r = p & q
        S.ensure(tuple(r) == tuple(n for n in a if n in B), 'intersection: the common names, as in the first', lambda: (p, q, r))
        if p is x:
            r = p - q
            S.ensure(tuple(r) == tuple(n for n in a if n not in B), 'difference: the names of the first that the second lacks', lambda: (p, q, r))
        kept(p ^ q, A ^ B, 'symmetric difference')
    for other in (y, b, list(b)):
        S.ensure((x == other) is (a == b) and (x != other) is (a != b), 'equality is that of the ordered names', say)
        S.ensure((x < other, x <= other, x > other, x >= other) == (A < B, A <= B, A > B, A >= B), 'the order is inclusion', say)
    if a == b:
        S.ensure(hash(x) == hash(y), 'equal names, equal hashes', say)
    r, e = attempt(lambda: x.mismatch(b))
    S.ensure((e is not None) == (A < B or A > B), 'missing or additional names are reported', say)
    r, e = attempt(lambda: tuple(x.permute([a.index(n) if n in a else 7 for n in b])))
    S.ensure(r == b if A == B and a else e is not None or A == B, 'reordering takes every name once', say)
    if a:
        r, e = attempt(lambda: tuple(x.permute(range(len(a))[::-1])))
        S.ensure(r == a[::-1], 'reversing the names', say)
        for i in range(-len(a), len(a) + 1):
            want = list(a)
            want.insert(i, 'new')
            S.ensure(tuple(x.insert('new', i)) == tuple(want), 'inserting at a position', say)
        S.ensure(tuple(x.replace(a[-1], 'new')) == a[:-1] + ('new',), 'replacing a name', say)
    S.ensure(tuple(x.insert('new')) == a + ('new',) and tuple(x.copy()) == a, 'adding at the end', say)
    S.ensure(tuple(x) == a and tuple(y) == b and len(x) == len(a) and all(x[i] == n and n in x for i, n in enumerate(a)), 'the operands stay as they were', say)
