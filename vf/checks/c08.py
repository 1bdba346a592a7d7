"""C08: index values behave as integers and shifts stay within bounds."""
import itertools
import operator

import numpy

from ..core import contract, attempt, need, Skip, Unsupported, SymbolicOnly

FUNCS = ['eprempy.numeric._index.Value', 'eprempy.numeric._index.Sequence', 'eprempy.numeric._index.arithmetic',
         'eprempy.numeric._index.comparative', 'eprempy.numeric._index.binary', 'eprempy.numeric._index.unary',
         'eprempy.numeric._index.pow', 'eprempy.numeric._index.value', 'eprempy.numeric._index.sequence',
         'eprempy.numeric._index.value_args', 'eprempy.numeric._index.sequence_args']
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '%': operator.mod}
COMPARE = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


class NumpyShim:
    """numpy for the module under contract, whose `array(..., dtype=int)` keeps symbolic integers."""

    def __getattr__(self, name):
        return getattr(numpy, name)

    @staticmethod
    def array(x, *args, **kw):
        from ..sym import issym
        if isinstance(x, (list, tuple)) and any(issym(i) for i in x):
            out = numpy.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                out[i] = v
            return out
        if issym(x):
            return x
        return numpy.array(x, *args, **kw)


def setup(S):
    from eprempy.numeric import index
    if S.symbolic:
        mod = need('eprempy.numeric._index', 'numpy') and __import__('eprempy.numeric._index', fromlist=['x'])
        S.patch(mod, 'numpy', NumpyShim())
    return index


def items(x):
    """The integers of an index value or sequence."""
    d = getattr(x, 'data', x)
    if isinstance(d, memoryview):
        d = x
    if isinstance(d, numpy.ndarray):
        return list(d.ravel())
    return list(d) if isinstance(d, (list, tuple, range)) else [d]


def integer(S, name, nonzero=False, **kw):
    v = S.int(name, **kw)
    if nonzero:
        S.assume(v != 0)
    return v


def operand(S, index, what, tag, n, **kw):
    if what == 'sequence':
        v = [integer(S, f'{tag}{i}', **kw) for i in range(n)]
        return index.sequence(v), v
    v = integer(S, tag, **kw)
    return (v if what == 'int' else index.value(v)), [v]


def pairs():
    return [(a, b) for a in ('value', 'sequence', 'int') for b in ('value', 'sequence', 'int') if (a, b) != ('int', 'int')]


def combine(S, n, single):
    index = setup(S)
    a, b = S.choice('operands', [p for p in pairs() if ('sequence' in p) != single])
    op = S.choice('op', list(ARITH) + list(COMPARE) + ['**'])
    kw = {'nonzero': True} if op in ('//', '%') else {}
    x, xs = operand(S, index, a, 'a', n)
    if op == '**':
        e = [S.choice(f'e{i}', [0, 1, 2, 3]) for i in range(n if b == 'sequence' else 1)]
        y, ys = (index.sequence(e) if b == 'sequence' else index.value(e[0]) if b == 'value' else e[0]), e
    else:
        y, ys = operand(S, index, b, 'b', n, **kw)
    f = ARITH.get(op) or COMPARE.get(op) or operator.pow
    r = f(x, y)
    m = max(len(xs), len(ys))
    X, Y = xs * (m // len(xs)), ys * (m // len(ys))
    want = [power(p, q) if op == '**' else f(p, q) for p, q in zip(X, Y)]
    label = f'{a} {op} {b}'
    if op in COMPARE:
        got = list(numpy.ravel(numpy.asarray(r)))
        S.ensure(len(got) == len(want), f'{label}: one truth value per pair')
        for g, w in zip(got, want):
            S.ensure(S.both(S.implies(bool(g), w), S.implies(w, bool(g))), f'{label}: the comparison of the integers')
    else:
        got = items(r)
        S.ensure(isinstance(r, (index.Value if single else index.Sequence)), f'{label}: an index {"value" if single else "sequence"}',
                 (lambda: type(r)) if not S.symbolic else None)
        S.ensure(len(got) == len(want), f'{label}: one integer per pair')
        for g, w in zip(got, want):
            S.ensure(g == w, f'{label}: exactly the integer result, in the order written', (lambda: (got, want)) if not S.symbolic else None)
    for z, zs, w in ((x, xs, a), (y, ys, b)):
        if w != 'int':
            S.ensure(S.both(*[p == q for p, q in zip(items(z), zs)]), f'{label}: the operands keep their integers')


def power(x, n):
    r = 1
    for _ in range(int(n)):
        r = r * x
    return r


@contract('C08', 'values', sym='proof', rand=(400, 4000), functions=FUNCS)
def values(S):
    """For all integers: arithmetic and comparison of index values with each other and with integers is that of the integers."""
    combine(S, 1, True)


@contract('C08', 'sequences', sym='shape', rand=(500, 5000), max_paths=(20000, 60000),
          bound='sequences of 1-2 indices (sampled up to 6); all integers', functions=FUNCS)
def sequences(S):
    """The same, element by element, for index sequences."""
    combine(S, S.choice('n', [1, 2] if S.symbolic else [1, 2, 3, 6]), False)


@contract('C08', 'signs', sym='proof', rand=(100, 1000), functions=FUNCS)
def signs(S):
    """Negation, identity and absolute value of index values and sequences are those of the integers."""
    index = setup(S)
    what = S.choice('what', ['value', 'sequence'])
    x, xs = operand(S, index, what, 'a', 2)
    for name, f, g in (('-', operator.neg, lambda v: -v), ('+', operator.pos, lambda v: v)):
        S.ensure(S.both(*[p == g(q) for p, q in zip(items(f(x)), xs)]) and len(items(f(x))) == len(xs), f'{name}{what}')
    r = items(abs(x))
    for p, q in zip(r, xs):
        S.ensure(S.either(S.both(q >= 0, p == q), S.both(q < 0, p == -q)), f'abs({what})')


@contract('C08', 'power-refused', rand=(200, 1000), bound='sampled negative exponents', functions=['eprempy.numeric._index.pow'])
def power_refused(S):
    """A negative exponent, alone or among others, is refused."""
    index = setup(S)
    base = S.choice('base', [index.value(2), index.sequence([2, 3, 5]), 2])
    e = [S.choice(f'e{i}', [0, 1, 2, -1, -2]) for i in range(3)]
    if S.coin('single'):
        e = e[:1]
        y = index.value(e[0]) if isinstance(base, int) or S.coin('wrapped') else e[0]
    else:
        y = index.sequence(e)
    r, err = attempt(lambda: base ** y)
    if any(i < 0 for i in e):
        S.ensure(err is not None, f'{base!r} ** {e} is refused', lambda: str(r))
    else:
        S.ensure(err is None, f'{base!r} ** {e}', lambda: repr(err))


@contract('C08', 'shift-value', sym='proof', rand=(300, 3000), functions=['eprempy.numeric._index.Value.shift'])
def shift_value(S):
    """For all integers x, k and bounds: the shift adds k unless that leaves the bounds, and then gives the bound it passed."""
    index = setup(S)
    shift(S, index, 'value', 1)


@contract('C08', 'shift-sequence', sym='shape', rand=(300, 3000), max_paths=(6000, 30000), bound='sequences of 1-2 indices (sampled up to 5); all integers',
          functions=['eprempy.numeric._index.Sequence.shift'])
def shift_sequence(S):
    """The same for each index of a sequence."""
    index = setup(S)
    shift(S, index, 'sequence', S.choice('n', [1, 2] if S.symbolic else [1, 3, 5]))


def shift(S, index, what, n):
    x, xs = operand(S, index, what, 'x', n)
    k = integer(S, 'k')
    lo = integer(S, 'floor') if S.coin('has floor') else None
    hi = integer(S, 'ceil') if S.coin('has ceil') else None
    if lo is not None and hi is not None:
        S.assume(lo <= hi)
    form = S.choice('form', ['keyword', 'positional', 'index offset'])
    if form == 'keyword':
        r = x.shift(k, **{a: b for a, b in (('floor', lo), ('ceil', hi)) if b is not None})
    elif form == 'positional':
        r = x.shift(k, lo, hi)
    else:
        r = x.shift(index.value(k) if not S.symbolic else k, floor=lo, ceil=hi)
    got = items(r)
    S.ensure(len(got) == len(xs), f'shift of a {what}: as many indices')
    for g, v in zip(got, xs):
        t = v + k
        below = False if lo is None else t < lo
        above = False if hi is None else t > hi
        S.ensure(S.implies(S.either(below, above) == False if not S.symbolic else S.both(*[~c if c is not False else True for c in (below, above)]), g == t),
                 f'shift of a {what}: inside the bounds it moves by exactly the offset', (lambda: (g, v, k, lo, hi)) if not S.symbolic else None)
        if lo is not None:
            S.ensure(g >= lo, f'shift of a {what}: never below the floor')
            S.ensure(S.implies(below, g == lo), f'shift of a {what}: stops at the floor')
        if hi is not None:
            S.ensure(g <= hi, f'shift of a {what}: never above the ceiling')
            S.ensure(S.implies(above, g == hi), f'shift of a {what}: stops at the ceiling')
    S.ensure(S.both(*[p == q for p, q in zip(items(x), xs)]), f'shift leaves the original {what}')


TOK = {'i': 3, 's': slice(1, None), 'f': slice(None), 'l': [0, 1], '.': Ellipsis}


@contract('C08', 'expand', cases=lambda tier: [(n, t) for n in range(1, 5) for m in range(0, n + 3) for t in itertools.product('isl.' if m > 3 else TOK, repeat=m)],
          finite_is_proof=True, functions=['eprempy.numeric._index.expand', 'eprempy.numeric._index.expand_ellipsis'])
def expand(S, case):
    """For 1-4 dimensions and every arrangement of selectors: an ellipsis becomes exactly the missing full slices, in place."""
    from eprempy.numeric import index
    n, toks = case
    args = tuple(TOK[t] for t in toks)
    dots = toks.count('.')
    r, e = attempt(index.expand, n, args)
    if dots == 0:
        if len(args) > n:
            S.ensure(e is not None, f'{len(args)} selectors for {n} dimensions are refused', lambda: r)
        else:
            S.ensure(e is None and tuple(r) == args, 'selectors without ellipsis are kept', lambda: r)
    elif dots > 1:
        S.ensure(e is not None, 'two ellipses are refused', lambda: r)
    elif len(args) <= n:
        i = toks.index('.')
        want = args[:i] + (slice(None),) * (n - len(args) + 1) + args[i + 1:]
        S.ensure(e is None and tuple(r) == want and len(r) == n, 'every dimension exactly once', lambda: (r, want))
    elif len(args) == n + 1 and toks[-1] == '.':
        S.ensure(e is None and tuple(r) == args[:-1], 'a final ellipsis may stand for nothing', lambda: r)
    elif len(args) == n + 1:
        S.ensure(e is not None or tuple(r) == tuple(a for a in args if a is not Ellipsis), 'an ellipsis for nothing', lambda: r)
    elif toks[-1] != '.':
        S.ensure(e is not None, 'too many selectors are refused', lambda: r)
    if len(args) == 1:
        a = args[0]
        if not isinstance(a, list):
            r, e = attempt(index.expand, n, a)
            want = (slice(None),) * n if a is Ellipsis or a == slice(None) else (a,) + (slice(None),) * (n - 1)
            S.ensure(e is None and tuple(r) == want, f'a single selector for {n} dimensions', lambda: r)


@contract('C08', 'bounds', sym='shape', rand=(0, 0), max_paths=(4000, 20000), bound='1-4 increasing values; all real values and targets',
          functions=['eprempy.numeric._index._find_1d_indices'])
def bounds(S):
    """In increasing values the index range around a target is the tightest one, and the nearest end for a target outside."""
    f = need('eprempy.numeric._index', '_find_1d_indices')
    n = S.choice('n', [1, 2, 3, 4])
    a = numpy.empty(n, dtype=object)
    for i in range(n):
        a[i] = S.real(f'a{i}', simple=True)
        if i:
            S.assume(a[i - 1] < a[i])
    t = S.real('target', simple=True)
    if not S.symbolic:
        a = a.astype(float)
    r, e = attempt(f, a, t)
    S.ensure(e is None, 'a range exists', (lambda: repr(e)) if not S.symbolic else None)
    tight(S, a, t, int(r[0]), int(r[1]))


def tight(S, a, t, lo, hi):
    n = len(a)
    S.ensure(0 <= lo <= hi < n, 'the range lies within the values', (lambda: (lo, hi)) if not S.symbolic else None)
    inside = S.both(a[0] <= t, t <= a[n - 1])
    S.ensure(S.implies(inside, S.both(a[lo] <= t, t <= a[hi])), 'the range surrounds the target', (lambda: (list(a), t, lo, hi)) if not S.symbolic else None)
    S.ensure(hi - lo <= 1, 'the range is the smallest', (lambda: (list(a), t, lo, hi)) if not S.symbolic else None)
    if hi > lo:
        S.ensure(S.both(a[lo] < t, t < a[hi]), 'a value that is there is its own range', (lambda: (list(a), t, lo, hi)) if not S.symbolic else None)
    S.ensure(S.implies(t < a[0], S.both(lo == 0, hi == 0)), 'a target before all values')
    S.ensure(S.implies(t > a[n - 1], S.both(lo == n - 1, hi == n - 1)), 'a target after all values')


@contract('C08', 'restrict', rand=(600, 6000), bound='sampled increasing arrays of one and two dimensions, repeated values, up to 3 targets',
          functions=['eprempy.numeric._index.restrict', 'eprempy.numeric._index._compute_bounds', 'eprempy.numeric._index._get_index_bounds'])
def restrict(S):
    """Restricting to targets gives the smallest index range around all of them in every row."""
    from eprempy.numeric import index
    rows, n = S.choice('rows', [0, 1, 2, 3]), S.choice('n', [1, 2, 3, 5])
    a = numpy.cumsum([[S.choice(f'd{i}{j}', [0.5, 1.0, 1.0, 2.0]) for j in range(n)] for i in range(max(rows, 1))], axis=1)
    if S.coin('plateau') and n > 1:
        j = S.choice('where', range(n - 1))
        a[0, j + 1:] -= a[0, j + 1] - a[0, j]
        plateau = True
    else:
        plateau = False
    axis = -1
    arr = a[0] if rows == 0 else a
    if rows and S.coin('transpose'):
        arr, axis = a.T, 0
    elif rows:
        axis = S.choice('axis', [1, -1])
    else:
        axis = S.choice('axis', [0, -1])
    ts = [S.choice(f't{i}', [0.0, 0.5, 1.0, 1.25, 2.0, 2.5, 3.0, 4.75, 50.0]) for i in range(S.choice('k', [1, 2, 3]))]
    r = index.restrict(list(map(float, arr)) if rows == 0 and S.coin('list') else arr, *ts, axis=axis)
    S.ensure(isinstance(r, range) and r.step == 1 and 0 <= r.start < r.stop <= n, 'a nonempty range of indices', lambda: r)
    los, his = [], []
    for row in a[:max(rows, 1)]:
        for t in ts:
            c = min(max(t, row[0]), row[-1])
            eq = [i for i in range(n) if row[i] == c]
            if eq:
                los.append(eq[0]); his.append(eq[-1])
            else:
                los.append(max(i for i in range(n) if row[i] < c)); his.append(min(i for i in range(n) if row[i] > c))
    if not plateau:
        S.ensure((r.start, r.stop) == (min(los), max(his) + 1), f'the smallest range around {ts}', lambda: (a, r))
    else:
        for row in a[:max(rows, 1)]:
            for t in ts:
                c = min(max(t, row[0]), row[-1])
                S.ensure(row[r.start] <= c <= row[r.stop - 1], 'the range surrounds every target', lambda: (a, r, ts))
    e = attempt(lambda: index.restrict(arr, axis=axis))[1]
    S.ensure(e is not None, 'no target is refused')


@contract('C08', 'creation', rand=(300, 2000), bound='sampled integers, texts, ranges, lists, arrays and measurables', functions=FUNCS[-4:])
def creation(S):
    """Every accepted spelling of integers gives those integers; anything else is refused."""
    from eprempy.numeric import index
    from eprempy import measured, physical
    n = S.choice('n', [1, 2, 4])
    v = [S.choice(f'v{i}', range(-9, 10)) for i in range(n)]
    forms = {'list': v, 'tuple': tuple(v), 'array': numpy.array(v), 'texts': [str(i) for i in v], 'numpy integers': [numpy.int64(i) for i in v],
             'sequence': index.sequence(v), 'column': numpy.array(v).reshape(-1, 1)}
    k = S.choice('form', list(forms))
    q = index.sequence(forms[k])
    S.ensure([int(i) for i in q.data] == v and len(q) == n, f'index.sequence from {k}', lambda: q.data)
    S.ensure([int(i) for i in q] == v and [int(q[i].data) for i in range(n)] == v, f'reading an index sequence from {k}')
    r = range(S.choice('a', range(-3, 4)), S.choice('b', range(4, 9)), S.choice('c', [1, 2, 3]))
    S.ensure([int(i) for i in index.sequence(r).data] == list(r), 'index.sequence from a range')
    i = v[0]
    one = {'int': i, 'text': str(i), 'numpy integer': numpy.int64(i), 'array': numpy.array([i]), 'list': [i], 'value': index.value(i).data, 'measured': measured.value(i)}
    for k, x in one.items():
        w = index.value(x)
        S.ensure(int(w.data) == i and operator.index(w) == i, f'index.value from {k}', lambda: w.data)
        S.ensure(list(range(20))[w] == list(range(20))[i], 'an index value subscripts a list')
    for bad in (1.5, [1.5], 'a', None, ['a'], numpy.array([[1, 2], [3, 4]]), numpy.array([1.5]), measured.value(2, unit='m'), {},
                measured.value(i + 0.5), measured.value(0.3 - i), measured.sequence([i + 0.25, 2.0]), physical.scalar(i + 0.9), physical.vector([1.5 - i])):
        for f in (index.value, index.sequence):
            r, e = attempt(f, bad)
            S.ensure(e is not None, f'{f.__name__}({bad!r}) is refused', lambda: r)
    if n > 1:
        a, b = sorted([S.choice('i', range(n)), S.choice('j', range(n))])
        S.ensure([int(z) for z in q[a:b + 1].data] == v[a:b + 1], 'slice of an index sequence')
