"""C06: array arithmetic lines operands up by dimension name."""
import itertools

import numpy

from ..core import contract, attempt, need, Skip, Unsupported
from ..phys import flat, nest, points, OPS

FUNCS = ['eprempy.numeric._array.remesh', 'eprempy.numeric._array.Array._load_array', 'eprempy.numeric._array.Dimensions.__or__',
         'eprempy.container.merge', 'eprempy.real._array.multiplicative', 'eprempy.real._array.additive', 'eprempy.real._array.pow',
         'eprempy.real._array.comparative', 'eprempy.physical._operations.multiplicative',
         'eprempy.physical._operations.additive', 'eprempy.physical._operations.exponential',
         'eprempy.physical._axes.Axes.__or__', 'eprempy.physical._axes.Axes._merge']
ORDERED = [p for n in (1, 2, 3) for p in itertools.permutations('xyz', n)]
REPS = [('x', 'y', 'z'), ('x', 'y'), ('x',)]


def conflict(p, q):
    """True if two dimensions shared by p and q come in different orders."""
    s = [d for d in p if d in q]
    return s != [d for d in q if d in p]


def cells(dims, lens):
    for c in itertools.product(*[range(lens[d]) for d in dims]):
        yield dict(zip(dims, c))


def oracle(op, p, la, xs, q, lb, ys):
    """{coordinates: value} of the operation over named coordinates, or None if lengths do not fit."""
    lens = {}
    for d in list(p) + [d for d in q if d not in p]:
        a, b = la.get(d, 1), lb.get(d, 1)
        if a != b and 1 not in (a, b):
            return None, None
        lens[d] = max(a, b)
    A = {tuple(c[d] for d in p): x for c, x in zip(cells(p, la), xs)}
    B = {tuple(c[d] for d in q): y for c, y in zip(cells(q, lb), ys)}
    out = {}
    for c in cells(list(lens), lens):
        i = tuple(c[d] if la[d] > 1 else 0 for d in p)
        j = tuple(c[d] if lb[d] > 1 else 0 for d in q)
        out[frozenset(c.items())] = op(A[i], B[j])
    return lens, out


def size(dims, lens):
    n = 1
    for d in dims:
        n *= lens[d]
    return n


def make(S, what, dims, lens, xs, unit='1'):
    from eprempy import real, physical
    data = nest(xs, [lens[d] for d in dims])
    if what == 'real':
        return real.array(data, *dims)
    return physical.array(data, unit=unit, axes={d: points(lens[d]) for d in dims})


def array_of(r):
    """The ndarray of a labelled array."""
    return r.data.array if hasattr(r, 'axes') else r.array


def check_result(S, r, p, q, lens, want, label, physical):
    dims = tuple(r.dimensions)
    S.ensure(sorted(dims) == sorted(lens) and len(set(dims)) == len(dims), f'{label}: each dimension of either operand once',
             (lambda: dims) if not S.symbolic else None)
    S.ensure([d for d in dims if d in p] == list(p) and [d for d in dims if d in q] == list(q), f'{label}: in the order of the operands',
             (lambda: dims) if not S.symbolic else None)
    a = array_of(r)
    S.ensure(tuple(a.shape) == tuple(lens[d] for d in dims) and tuple(r.shape) == tuple(a.shape), f'{label}: the lengths of the dimensions',
             (lambda: a.shape) if not S.symbolic else None)
    S.ensure(dict(r.shapemap) == {d: lens[d] for d in dims}, f'{label}: shapemap')
    if physical:
        S.ensure({d: len(r.axes[d]) for d in r.axes} == {d: lens[d] for d in dims} and tuple(r.axes) == dims, f'{label}: an axis of the right length for each dimension',
                 (lambda: {d: len(r.axes[d]) for d in r.axes}) if not S.symbolic else None)
    S.ensure(S.both(*[S.eq(a[c], want[frozenset(zip(dims, c))]) for c in itertools.product(*[range(lens[d]) for d in dims])]),
             f'{label}: each element combines the operand elements with its coordinates', (lambda: (a, want)) if not S.symbolic else None)


def binary(S, what, p, q, la, lb, op, **kw):
    la, lb = {d: la[d] for d in p}, {d: lb[d] for d in q}
    xs = [S.real(f'a{i}', simple=True, **kw) for i in range(size(p, la))]
    ys = [S.real(f'b{i}', simple=True, **dict(kw, nonzero=op in ('/', '//', '%'))) for i in range(size(q, lb))]
    a, b = make(S, what, p, la, xs), make(S, what, q, lb, ys)
    label = f"{what} ({', '.join(p)}) {op} ({', '.join(q)})"
    f = OPS[op] if op in OPS else (lambda x, y: x % y)
    if not S.symbolic and S.coin('read'):
        array_of(a), array_of(b)
    r, e = attempt(f, a, b)
    lens, want = oracle(f, p, la, xs, q, lb, ys)
    if op in ('+', '-', '**', '<', '<=', '>', '>=') and tuple(p) != tuple(q):
        S.ensure(e is not None, f'{label} between different dimensions is refused', (lambda: str(r)) if not S.symbolic else None)
        return
    if conflict(p, q) or want is None:
        S.ensure(e is not None, f'{label} with conflicting orders or lengths {la} {lb} is refused', (lambda: str(r)) if not S.symbolic else None)
        return
    if op in ('<', '<=', '>', '>='):
        S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
        g = numpy.asarray(r)
        S.ensure(g.shape == tuple(lens[d] for d in p), f'{label}: one truth value per element')
        for c in itertools.product(*[range(lens[d]) for d in p]):
            w = want[frozenset(zip(p, c))]
            S.ensure(S.both(S.implies(g[c], w), S.implies(w, g[c])), f'{label}: the order of the elements')
        return
    S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
    check_result(S, r, p, q, lens, want, label, what == 'physical')
    S.ensure(S.both(*[S.eq(u, v) for u, v in zip(list(array_of(a).ravel()) + list(array_of(b).ravel()), xs + ys)]), f'{label}: the operands keep their numbers')
    S.ensure(tuple(a.dimensions) == tuple(p) and tuple(b.dimensions) == tuple(q), f'{label}: the operands keep their dimensions')


def pairs(tier):
    return [(w, p, q) for w in ('real', 'physical') for p in REPS for q in ORDERED]


L1 = {'x': 2, 'y': 2, 'z': 1}


@contract('C06', 'products', sym='shape', rand=(0, 0), max_paths=(20000, 40000),
          bound='every pair of ordered dimension lists over three names (up to renaming), one assignment of lengths per pair with and without a length-one operand; all real elements',
          functions=FUNCS)
def products(S):
    """Products and quotients match dimensions by name, keep both orders and refuse conflicting orders."""
    what, p, q = S.choice('case', pairs(''))
    la = {'x': 2, 'y': 2, 'z': 1}
    lb = dict(la)
    if S.coin('singular'):
        (la if S.coin('left') else lb)['x'] = 1
    elif S.coin('mismatch') and 'x' in q:
        lb['x'] = 3
    binary(S, what, p, q, la, lb, S.choice('op', ['*', '/']))


@contract('C06', 'sums', sym='shape', rand=(0, 0), max_paths=(20000, 40000), bound='the same pairs; all real elements',
          functions=FUNCS)
def sums(S):
    """Sums, differences and comparisons of arrays are elementwise for equal dimensions and refused for others."""
    what, p, q = S.choice('case', pairs(''))
    if what == 'physical' and S.coin('compare'):
        op = S.choice('cmp', ['<'])
    else:
        op = S.choice('op', ['+', '-'])
    la = {'x': 2, 'y': 2, 'z': 1} if op in '+-' else {'x': 2, 'y': 1, 'z': 1}
    lb = dict(la)
    if op in '+-' and S.coin('mismatch'):
        lb['x'] = 3
    binary(S, what, p, q, la, lb, op)

SIDES = [('x',), ('x', 'y'), ('y', 'x'), ('x', 'y', 'z')]


@contract('C06', 'numbers', sym='shape', rand=(400, 4000), max_paths=(20000, 40000), bound='four ordered dimension lists; all real elements and numbers',
          functions=['eprempy.real._array.multiplicative', 'eprempy.real._array.additive', 'eprempy.real._array.comparative',
                     'eprempy.real._array.pow', 'eprempy.physical._operations.multiplicative'])
def numbers(S):
    """A number on either side acts on every element, and a product keeps the dimensions of the array."""
    what, p = S.choice('what', ['real', 'physical']), S.choice('dims', SIDES)
    la = {'x': 2, 'y': S.choice('ly', [1, 2]), 'z': 1}
    la = {d: la[d] for d in p}
    op, left = S.choice('op', ['*', '/', '+', '-', '**', '<', '>='] + ['//', '%'] * (not S.symbolic)), S.coin('left')
    if what == 'physical' and op in ('+', '-', '<', '>='):
        op = '*'
    if op == '**' and (left or S.symbolic):
        raise Skip()
    if not S.symbolic:
        la = {d: S.choice('l' + d, [1, 2, 3, 4]) for d in p}
    xs = [S.real(f'a{i}', simple=True, **({'nonzero': True} if op in ('/', '//', '%') and left else {'positive': True} if op == '**' else {})) for i in range(size(p, la))]
    k = S.choice('k', [2, 3, -1]) if op == '**' else S.real('k', simple=True, **({'nonzero': True} if op in ('/', '//', '%') and not left else {}))
    a = make(S, what, p, la, xs)
    f = OPS[op] if op in OPS else (lambda x, y: x % y)
    g = (lambda x, y: f(y, x)) if left else f
    if not S.symbolic and S.coin('read'):
        array_of(a)
    label = f"{what} ({', '.join(p)}) {op} number" if not left else f"number {op} {what} ({', '.join(p)})"
    r, e = attempt(g, a, k)
    S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
    if op in ('*', '/', '**', '//', '%'):
        want = {frozenset(c.items()): g(x, k) for c, x in zip(cells(p, la), xs)}
        check_result(S, r, p, p, la, want, label, what == 'physical')
    else:
        got = numpy.asarray(r)
        S.ensure(got.shape == tuple(la[d] for d in p), f'{label}: one value per element')
        for u, x in zip(got.ravel(), xs):
            w = g(x, k)
            S.ensure(S.both(S.implies(u, w), S.implies(w, u)) if op in ('<', '>=') else S.eq(u, w), f'{label}: acts on each element')
    S.ensure(S.both(*[S.eq(u, v) for u, v in zip(list(array_of(a).ravel()), xs)]), f'{label}: the array keeps its numbers')
    S.ensure(tuple(a.dimensions) == tuple(p), f'{label}: the array keeps its dimensions')


@contract('C06', 'equality', sym='shape', rand=(400, 4000), max_paths=(20000, 40000), bound='every pair of ordered dimension lists over two names, lengths 1 and 2; all real elements',
          functions=['eprempy.numeric._array.Array.__eq__', 'eprempy.numeric._array.Array.__ne__', 'eprempy.real._array.eq', 'eprempy.real._array.ne',
                     'eprempy.numeric._array.Dimensions.__eq__', 'eprempy.real._array.array_equal'])
def equality(S):
    """Two labelled arrays are equal exactly if they have the same dimensions and the same numbers."""
    p = S.choice('p', [('x',), ('x', 'y')])
    q = S.choice('q', [('x',), ('y',), ('x', 'y'), ('y', 'x')])
    la, lb = {d: S.choice('la' + d, [1, 2]) for d in p}, {d: S.choice('lb' + d, [1, 2]) for d in q}
    if size(p, la) > 2 and S.symbolic and size(q, lb) > 2 and p != q:
        raise Skip()
    xs = [S.real(f'a{i}', simple=True) for i in range(size(p, la))]
    ys = [S.real(f'b{i}', simple=True) if S.symbolic or S.coin(f'new{i}') else (xs + xs * 4)[i] for i in range(size(q, lb))]
    a, b = make(S, 'real', p, la, xs), make(S, 'real', q, lb, ys)
    shape = tuple(la[d] for d in p) == tuple(lb[d] for d in q)
    n = S.both(*[S.eq(x, y) for x, y in zip(xs, ys)]) if shape else False
    want = n if p == q else False
    for label, u, w in (('a == b', a == b, want), ('b == a', b == a, want), ('numpy.array_equal', numpy.array_equal(a, b), n)):
        S.ensure(bool(u) == bool(w), f'{label}: exactly for equal dimensions and numbers', (lambda: (a, b)) if not S.symbolic else None)
    S.ensure((a != b) == (not (a == b)), '!= is the opposite')
    S.ensure(a == a and not (a != a) and not (a == nest(xs, [la[d] for d in p])) and a != None, 'itself, and nothing without dimensions')
    if not S.symbolic:
        x = xs[S.choice('i', range(len(xs)))]
        S.ensure(x in a and a.contains(x) and a.contains(x * (1 + 1e-12)), 'holds each of its numbers')
        y = 2 * max(map(abs, xs)) + 1
        S.ensure(not a.contains(y) and y not in a, 'holds no other number')
        tiny = 1e-15
        t = make(S, 'real', p, la, [tiny * (1 + u) for u in range(len(xs))])
        S.ensure(t.contains(tiny * len(xs)) and not t.contains(tiny * (len(xs) + 0.5)), 'finds a number of any magnitude')



@contract('C06', 'sampled', rand=(1500, 25000), bound='sampled arrays of up to 4 named dimensions and lengths 1-4', functions=FUNCS)
def sampled(S):
    """All operations on arrays of any dimensions and lengths."""
    names = S.shuffled('names', ['x', 'y', 'z', 'time', 'species'])
    p = names[:S.choice('np', [1, 2, 3, 4])]
    base = list(p) if S.coin('related') else S.shuffled('more', names)
    keep = [d for d in base if S.coin('keep' + d)]
    extra = [d for d in names if d not in p and S.coin('extra' + d)]
    q = list(keep)
    for d in extra:
        q.insert(S.choice('at' + d, range(len(q) + 1)), d)
    q = q[:4] or [names[0]]
    if len(set(q)) != len(q):
        raise Skip()
    la = {d: S.choice('la' + d, [1, 2, 2, 3, 4]) for d in p}
    lb = {d: la.get(d, S.choice('lb' + d, [1, 2, 3])) for d in q}
    for d in q:
        if d in p:
            c = S.choice('change' + d, ['', '', '', 'one', 'left one', 'other'])
            if c == 'one':
                lb[d] = 1
            elif c == 'left one':
                la[d] = 1
            elif c == 'other':
                lb[d] = la[d] + 1
    if size(p, la) > 40 or size(q, lb) > 40:
        raise Skip()
    op = S.choice('op', ['*', '/', '+', '-', '//', '%', '**', '<', '>='])
    what = S.choice('what', ['real', 'physical'])
    if op == '%' and what == 'physical':
        op = '*'
    if op in ('+', '-', '<', '>=', '**') and S.coin('same'):
        q, lb = list(p), {d: (1 if 1 in (la[d], lb.get(d)) and what == 'real' else la[d]) for d in p}
    if what == 'physical' and op in '+-<>=' and la != lb and tuple(p) == tuple(q):
        op = '*'
    binary(S, what, p, q, la, lb, op, **({'positive': True} if op == '**' else {}))


@contract('C06', 'order-of-sources', rand=(300, 4000), bound='sampled arrays over slices and transpositions of one store', functions=FUNCS)
def derived(S):
    """Operands obtained by subscripting and transposing other arrays line up the same way."""
    from eprempy import real
    dims = ['x', 'y', 'z'][:S.choice('n', [2, 3])]
    la = {d: S.choice('l' + d, [2, 3, 4]) for d in dims}
    xs = [S.real(f'a{i}', simple=True) for i in range(size(dims, la))]
    what = S.choice('what', ['real', 'physical', 'default'])
    if what == 'default':
        la = {f'x{i}': la[d] for i, d in enumerate(dims)}
        dims = list(la)
        a = real.array(nest(xs, [la[d] for d in dims]))
        S.ensure(tuple(a.dimensions) == tuple(dims), 'default names', lambda: a.dimensions)
    else:
        a = make(S, what, dims, la, xs)
    n = numpy.array(nest(xs, [la[d] for d in dims]))
    idx, m, lb = [], n, dict(la)
    for i, d in enumerate(dims):
        s = S.choice('s' + d, [slice(None), slice(None), [0], slice(None, None, -1)])
        idx.append(s)
        m = numpy.take(m, range(la[d])[s] if isinstance(s, slice) else s, axis=i)
        lb[d] = m.shape[i]
    b = a[tuple(idx)]
    op = S.choice('op', ['*', '/'])
    ys = list(m.ravel())
    if op == '/' and 0 in ys:
        raise Skip()
    if S.coin('swap'):
        a, b, n, m, la, lb, xs, ys = b, a, m, n, lb, la, ys, xs
        if op == '/' and 0 in ys:
            raise Skip()
    r = OPS[op](a, b)
    lens, want = oracle(OPS[op], dims, la, xs, dims, lb, ys)
    check_result(S, r, dims, dims, lens, want, f'array {op} its selection', hasattr(r, 'axes'))
    t = list(dims)[::-1]
    u, e = attempt(lambda: a * b.transpose(*t))
    S.ensure(e is not None, 'a product with the transposed array is refused', lambda: str(u))
    c = a.transpose(*t) * b.transpose(*t)
    xs2, ys2 = list(n.transpose().ravel()), list(m.transpose().ravel())
    lens, want = oracle(OPS['*'], t, la, xs2, t, lb, ys2)
    check_result(S, c, t, t, lens, want, 'product of transposed arrays', hasattr(c, 'axes'))


@contract('C06', 'merged-dimensions', cases=lambda tier: [(p, q) for p in ORDERED + [()] for q in ORDERED + [()]], finite_is_proof=True,
          functions=['eprempy.numeric._array.Dimensions.__or__', 'eprempy.container.merge'])
def merged_dimensions(S, case):
    """For every two ordered dimension lists over three names, the merger has each name once in both orders, or the conflict is refused."""
    from eprempy import numeric
    p, q = case
    a, b = numeric.dimensions(p), numeric.dimensions(q)
    for other in (b, list(q)):
        r, e = attempt(lambda: a | other)
        if conflict(p, q):
            S.ensure(e is not None, f'{p} | {q} is refused', lambda: str(r))
            continue
        S.ensure(e is None, f'{p} | {q} is defined', lambda: repr(e))
        r = tuple(r)
        S.ensure(sorted(r) == sorted(set(p) | set(q)), f'{p} | {q}: each once', lambda: r)
        S.ensure([d for d in r if d in p] == list(p) and [d for d in r if d in q] == list(q), f'{p} | {q}: both orders', lambda: r)
    S.ensure(tuple(a) == tuple(p) and tuple(b) == tuple(q), 'the operands are unchanged')


@contract('C06', 'selected-dimensions', cases=lambda tier: [(p, q) for p in ORDERED + [()] for q in ORDERED + [()]], finite_is_proof=True,
          functions=['eprempy.numeric._array.Dimensions.' + n for n in ('__and__', '__rand__', '__sub__', '__rsub__', '__xor__', '__rxor__', '__lt__', '__le__', '__gt__', '__ge__', 'permute', '_permute', 'mismatch')])
def selected_dimensions(S, case):
    """Shared, removed and unshared dimensions keep their order; order operators compare sets; only a rearrangement of all names permutes."""
    from eprempy import numeric
    p, q = case
    a, b = numeric.dimensions(p), numeric.dimensions(q)
    both, left, right = [d for d in p if d in q], [d for d in p if d not in q], [d for d in q if d not in p]
    for label, r, want in (('&', lambda: a & b, both), ('& list', lambda: a & list(q), both), ('list &', lambda: list(p) & b, both),
                           ('-', lambda: a - b, left), ('- list', lambda: a - list(q), left),
                           ('^', lambda: a ^ b, left + right), ('^ list', lambda: a ^ list(q), left + right), ('list ^', lambda: list(p) ^ b, left + right)):
        u, e = attempt(r)
        S.ensure(e is None and tuple(u) == tuple(want), f'{p} {label} {q}', lambda: (u, repr(e)))
    for label, u, w in (('<', a < b, set(p) < set(q)), ('<=', a <= b, set(p) <= set(q)), ('>', a > b, set(p) > set(q)), ('>=', a >= b, set(p) >= set(q)),
                        ('<= list', a <= list(q), set(p) <= set(q)), ('==', a == b, p == q), ('== list', a == list(q), p == q)):
        S.ensure(bool(u) == bool(w), f'{p} {label} {q}', lambda: u)
    for order in itertools.product(range(len(p)), repeat=len(p)) if p else ():
        for more in ([], [0]):
            o = list(order) + more
            u, e = attempt(a.permute, o)
            if len(set(o)) == len(o) == len(p):
                S.ensure(e is None and tuple(u) == tuple(p[i] for i in o), f'{p} permuted by {o}', lambda: (u, repr(e)))
            elif len(o) > len(p) or set(o) != set(range(len(p))):
                S.ensure(e is not None, f'{p} permuted by {o} is refused', lambda: u)
    S.ensure(tuple(a) == tuple(p) and tuple(b) == tuple(q), 'the operands are unchanged')


AXIS = ['points', 'symbols', 'coordinates', 'coordinates']
SWAP = {'s': 'hour', 'hour': 's', 'MeV': 'eV', '1': 's'}


def axis(kind, values, unit):
    from eprempy import physical
    if kind == 'coordinates':
        return physical.coordinates(physical.tensor([float(v) for v in values], unit=unit))
    return physical.points([int(v) for v in values]) if kind == 'points' else physical.symbols([f's{v}' for v in values])


@contract('C06', 'coordinates', rand=(400, 6000), bound='sampled arrays of up to 3 dimensions and lengths 1-4',
          functions=['eprempy.physical._operations.additive', 'eprempy.physical._axes.Axes.__add__', 'eprempy.physical._axes.Axes.__eq__',
                     'eprempy.physical._axis.Axis.__eq__', 'eprempy.physical._axis.Coordinates.__eq__'])
def coordinates(S):
    """Sums and differences keep equal coordinates, take those of the longer axis for one value on it, and refuse others."""
    from eprempy import physical
    dims = S.shuffled('names', ['x', 'y', 'time'])[:S.choice('n', [1, 2, 3])]
    A, B, want, fits, open_ = {}, {}, {}, True, False
    for d in dims:
        kind, n, unit = S.choice('kind' + d, AXIS), S.choice('l' + d, [1, 2, 3, 4]), S.choice('u' + d, ['s', 'hour', 'MeV', '1'])
        values = S.shuffled('v' + d, range(1, 8))[:n]
        other, u = list(values), unit
        how = S.choice('how' + d, ['same', 'same', 'same', 'same', 'on', 'off', 'value', 'order', 'unit'])
        if how == 'on':
            other = [S.choice('which' + d, values)]
            open_ = open_ or kind != 'coordinates' and n > 1  # Axes.__add__ promises no more than 'if possible'
        elif how == 'off':
            other, fits = [9], False
        elif how == 'value':
            other[S.choice('where' + d, range(n))] = 9
            fits = False
        elif how == 'order' and n > 1:
            other, fits = other[::-1], False
        elif how == 'unit' and kind == 'coordinates' and (n > 1 or unit != '1'):
            u, fits = SWAP[unit], False
        pair = [(values, unit), (other, u)]
        if S.coin('swap' + d):
            pair.reverse()
        A[d], B[d] = (axis(kind, *x) for x in pair)
        want[d] = axis(kind, values, unit)
    xs = numpy.array([S.rng.uniform(-9, 9) for _ in range(size(dims, {d: len(A[d]) for d in dims}))]).reshape([len(A[d]) for d in dims])
    ys = numpy.array([S.rng.uniform(-9, 9) for _ in range(size(dims, {d: len(B[d]) for d in dims}))]).reshape([len(B[d]) for d in dims])
    unit = S.choice('unit', ['m', '1', 'nT'])
    a, b = physical.array(xs, unit=unit, axes=A), physical.array(ys, unit=unit, axes=B)
    if xs.shape == ys.shape:
        twin = physical.array(xs.copy(), unit=unit, axes=B)
        exact = fits and not open_ and all(len(A[d]) == len(B[d]) for d in dims)
        S.ensure(open_ or (a == twin) == exact and (twin != a) == (not exact), 'arrays with the same numbers are equal exactly if their coordinates are', lambda: (str(a.axes), str(twin.axes)))
    op = S.choice('op', ['+', '-'])
    r, e = attempt(OPS[op], a, b)
    said = lambda: (str(a.axes), str(b.axes), str(r), repr(e))
    if not fits:
        S.ensure(e is not None, 'different coordinates are refused', said)
        return
    if open_ and e is not None:
        return
    S.ensure(e is None, 'equal coordinates, or one value that is among them, are accepted', said)
    S.ensure(tuple(r.dimensions) == tuple(dims) and tuple(r.axes) == tuple(dims), 'the dimensions', said)
    for d in dims:
        S.ensure(r.axes[d] == want[d] and type(r.axes[d]) is type(want[d]), f'the coordinates of {d}', said)
    S.ensure(numpy.array_equal(numpy.array(r), OPS[op](xs, ys)), 'the numbers', said)
