"""C04: arithmetic on physical quantities is dimensionally sound."""
import math

import numpy

from .. import units as U
from ..core import contract, attempt, need, Skip, Unsupported, close
from ..phys import build, nums, flat, is_unit, kind_of, OPS, KINDS, nest

F = U.F
FUNCS = ['eprempy.physical._operations.additive', 'eprempy.physical._operations.multiplicative',
         'eprempy.physical._operations.comparative', 'eprempy.physical._operations.exponential',
         'eprempy.physical._operations.unary', 'eprempy.physical._operations.from_builtin',
         'eprempy.numeric._implementation']
PAIRS = [('m', 'm'), ('m', 's'), ('m', 'km'), ('1', '1'), ('1', 'm'), ('m / s', 'm s^-1'), ('kg', 'J'), ('deg', 'rad'), ('J', 'erg')]


def quo(u, v):
    from eprempy import metric
    return metric.unit(u) / metric.unit(v)


def same_unit(x, want):
    from eprempy import metric
    want = metric.unit(want)
    if x.unit == want:
        return True
    a, b = U.denote(x.unit), U.denote(want)
    return a is not None and b is not None and a[1] == b[1] and abs(a[0] / b[0] - 1) < 1e-12


def equal_units(u, v):
    from eprempy import metric
    return bool(metric.unit(u) == metric.unit(v))


SHAPES = {'scalar': [()], 'vector': [(1,), (2,), (3,)], 'tensor': [(1, 2), (2, 2)], 'array': [(2,), (1, 2), (2, 2)]}


def draw(S, kind, tag, unit, shape, **kw):
    n = 1
    for s in shape:
        n *= s
    xs = [S.real(f'{tag}{i}', simple=True, **kw) for i in range(n)]
    return build(kind, xs, shape, unit), xs


def unchanged(S, x, xs, unit, what):
    S.ensure(S.alleq(flat(x), xs) if not S.symbolic else all(a is b or same(S, a, b) for a, b in zip(flat(x), xs)),
             f'{what} keeps its numbers')
    S.ensure(str(x.unit) == unit, f'{what} keeps its unit')


def same(S, a, b):
    return bool(S.eq(a, b))


def check_numbers(S, r, want, label):
    got = flat(r)
    S.ensure(len(got) == len(want), f'{label}: as many numbers as the operation gives')
    S.ensure(S.both(*[S.eq(g, w) for g, w in zip(got, want)]), f'{label}: the numbers are those of the operation',
             (lambda: (got, want)) if not S.symbolic else None)


def binary(S, ka, kb, symbolic_ops, shapes=None):
    op = S.choice('op', symbolic_ops)
    shape = S.choice('shape', shapes or SHAPES[ka if ka != 'scalar' else kb])
    sa = () if ka == 'scalar' else shape
    sb = () if kb == 'scalar' else shape
    u, v = S.choice('units', PAIRS)
    a, xs = draw(S, ka, 'a', u, sa)
    b, ys = draw(S, kb, 'b', v, sb, nonzero=op in ('/', '//'))
    su, sv = str(a.unit), str(b.unit)
    X = xs if ka != 'scalar' or kb == 'scalar' else xs * len(ys)
    Y = ys if kb != 'scalar' or ka == 'scalar' else ys * len(xs)
    f = OPS[op]
    r, e = attempt(f, a, b)
    label = f'{ka} [{u}] {op} {kb} [{v}]'
    if op in '+-' or op in ('<', '<=', '>', '>='):
        if not equal_units(u, v):
            S.ensure(e is not None, f'{label} is refused')
            return
    S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
    want = [f(x, y) for x, y in zip(X, Y)]
    if op in ('<', '<=', '>', '>='):
        got = list(numpy.array(r, dtype=object).ravel()) if not isinstance(r, (bool,)) and not S.symbolic else \
            (list(r.ravel()) if isinstance(r, numpy.ndarray) else [r])
        S.ensure(len(got) == len(want), f'{label}: one truth value per pair')
        for g, w in zip(got, want):
            S.ensure(S.both(S.implies(g, w), S.implies(w, g)), f'{label}: the order of the numbers')
    elif op in ('==', '!='):
        truth = S.both(*[S.eq(x, y) for x, y in zip(X, Y)])
        if not equal_units(u, v):
            truth = False
        if op == '!=':
            r = not r
        S.ensure(S.both(S.implies(bool(r), truth), S.implies(truth, bool(r))), f'{label}: equal numbers and equal unit')
    else:
        check_numbers(S, r, want, label)
        if op in '+-':
            S.ensure(same_unit(r, u), f'{label}: the unit is kept')
        elif op == '*':
            from eprempy import metric
            S.ensure(same_unit(r, metric.unit(u) * metric.unit(v)), f'{label}: the units multiply')
        else:
            S.ensure(same_unit(r, quo(u, v)), f'{label}: the units divide')
        top = kb if KINDS.index(kb) > KINDS.index(ka) else ka
        S.ensure(kind_of(r) == top, f'{label}: the result is a {top}')
    unchanged(S, a, xs, su, 'the left operand')
    unchanged(S, b, ys, sv, 'the right operand')


ARITH = ['+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '//']


@contract('C04', 'scalar-scalar', sym='proof', rand=(400, 4000), functions=FUNCS)
def scalar_scalar(S):
    """For all real a, b: sums, differences and orderings of scalars need equal units, products and quotients combine both."""
    binary(S, 'scalar', 'scalar', ARITH)


@contract('C04', 'scalar-others', sym='shape', rand=(400, 4000), max_paths=(4000, 20000),
          bound='vectors of 1-3, tensors up to 2x2, arrays up to 2x2; all real elements', functions=FUNCS)
def scalar_others(S):
    """The same between a scalar and a vector, tensor or array, in either order, element by element."""
    k = S.choice('kind', KINDS[1:])
    ops = ['+', '-', '*', '/', '<', '>=', '//']
    if S.coin('left'):
        binary(S, 'scalar', k, ops)
    else:
        binary(S, k, 'scalar', ops)


@contract('C04', 'same-kind', sym='shape', rand=(600, 6000), max_paths=(6000, 20000),
          bound='vectors of 1-3, tensors up to 2x2, arrays up to 2x2; all real elements', functions=FUNCS)
def same_kind(S):
    """The same between two vectors, tensors or arrays, element by element."""
    k = S.choice('kind', KINDS[1:])
    binary(S, k, k, ['+', '-', '*', '/', '<', '>=', '//'])


@contract('C04', 'mixed-kinds', sym='shape', rand=(400, 4000), max_paths=(6000, 20000),
          bound='vectors and tensors of 1-2, tensors and arrays up to 2x2; all real elements', functions=FUNCS)
def mixed_kinds(S):
    """The same between a tensor and a vector or an array of its shape, in either order; the result is of the more general kind."""
    k, shapes = S.choice('kind', [('vector', [(1,), (2,)]), ('array', [(2,), (1, 2), (2, 2)])])
    ops = ['+', '-', '*', '/', '//', '<', '>=', '==', '!=']
    a, b = ('tensor', k) if S.coin('left') else (k, 'tensor')
    binary(S, a, b, ops, shapes)


@contract('C04', 'numbers', sym='shape', max_paths=(9000, 20000), rand=(600, 6000), bound='scalars (every real), vectors, tensors and arrays up to 4 elements',
          functions=FUNCS)
def with_numbers(S):
    """A bare number is unitless: it adds only to unitless quantities, scales any, divides into the inverse unit."""
    from eprempy import metric
    k = S.choice('kind', KINDS)
    shape = S.choice('shape', SHAPES[k])
    u = S.choice('unit', ['m', '1', 'kg m / s', None])
    op = S.choice('op', ['+', '-', '*', '/', '<', '>=', '//'])
    left = S.coin('left')
    a, xs = draw(S, k, 'a', u, shape, nonzero=left and op in ('/', '//'))
    n = S.real('n', simple=True, nonzero=op in ('/', '//')) if S.coin('real') else S.choice('int', [1, 2, -3, 7])
    f = OPS[op] if not left else (lambda p, q: OPS[op](q, p))
    su = str(a.unit)
    r, e = attempt(f, a, n)
    uu = u or '1'
    label = f'{k} [{uu}] and a number: {"number" if left else ""} {op}'
    if op in '+-' and uu != '1':
        S.ensure(e is not None, f'{label} is refused')
        return
    S.ensure(e is None, f'{label} is defined', (lambda: repr(e)) if not S.symbolic else None)
    want = [f(x, n) for x in xs]
    if op in ('<', '>='):
        got = list(r.ravel()) if isinstance(r, numpy.ndarray) else [r]
        S.ensure(len(got) == len(want), f'{label}: one truth value per number')
        for g, w in zip(got, want):
            S.ensure(S.both(S.implies(g, w), S.implies(w, g)), f'{label}: the order of the numbers')
    else:
        check_numbers(S, r, want, label)
        w = metric.unit(uu)
        S.ensure(same_unit(r, w ** -1 if (left and op in ('/', '//')) else w), f'{label}: the unit follows')
    unchanged(S, a, xs, su, 'the operand')


@contract('C04', 'unary', sym='shape', rand=(200, 2000), bound='scalars (every real), vectors, tensors and arrays up to 4 elements',
          functions=FUNCS)
def unary(S):
    """Negation, identity and magnitude act on the numbers and keep the unit."""
    k = S.choice('kind', KINDS)
    shape = S.choice('shape', SHAPES[k])
    u = S.choice('unit', ['m', '1', 'kg m / s'])
    a, xs = draw(S, k, 'a', u, shape)
    op, f = S.choice('op', [('neg', lambda x: -x), ('pos', lambda x: +x), ('abs', abs)])
    su = str(a.unit)
    r, e = attempt(f, a)
    S.ensure(e is None, f'{op} is defined')
    check_numbers(S, r, [f(x) for x in xs], f'{op} of {k}')
    S.ensure(same_unit(r, u) and kind_of(r) == k, f'{op} of {k} keeps kind and unit')
    unchanged(S, a, xs, su, 'the operand')


POWERS = [0, 1, 2, 3, -1, -2, 4]


@contract('C04', 'powers', sym='shape', rand=(400, 4000), bound='integer powers -2..4, every real base; up to 4 elements',
          functions=FUNCS)
def powers(S):
    """A power raises both the numbers and the unit."""
    from eprempy import metric, physical
    k = S.choice('kind', KINDS)
    shape = S.choice('shape', SHAPES[k])
    u = S.choice('unit', ['m', '1', 'kg m / s^2', 'km'])
    p = S.choice('p', POWERS)
    a, xs = draw(S, k, 'a', u, shape, nonzero=p <= 0)
    su = str(a.unit)
    form = S.choice('form', ['number', 'scalar', 'float'])
    q = p if form == 'number' else physical.scalar(p) if form == 'scalar' else float(p)
    r, e = attempt(lambda: a ** q)
    if form != 'number' and S.symbolic:
        q = p
    S.ensure(e is None, f'{k} ** {p} is defined', (lambda: repr(e)) if not S.symbolic else None)
    want = []
    for x in xs:
        w = 1
        for _ in range(abs(p)):
            w = w * x
        want.append(1 / w if p < 0 else w)
    check_numbers(S, r, want, f'{k} ** {p}')
    S.ensure(same_unit(r, metric.unit(u) ** p), f'{k} ** {p}: the unit is raised', (lambda: str(r.unit)) if not S.symbolic else None)
    unchanged(S, a, xs, su, 'the operand')


@contract('C04', 'real-powers', rand=(300, 3000), bound='sampled positive bases and fractional powers', functions=FUNCS)
def real_powers(S):
    """A fractional power raises both; an exponent with a unit is refused; array exponents need unitless operands."""
    from eprempy import metric, physical
    k = S.choice('kind', KINDS)
    shape = S.choice('shape', SHAPES[k])
    u = S.choice('unit', ['m', '1', 'kg m / s^2', 'km', 'J'])
    a, xs = draw(S, k, 'a', u, shape, positive=True)
    p = S.choice('p', [F(1, 2), F(-1, 2), F(3, 2), 0.5, 1.5, F(1, 4), -0.25])
    r, e = attempt(lambda: a ** float(p))
    S.ensure(e is None, f'{k} ** {p} is defined', lambda: repr(e))
    check_numbers(S, r, [x ** float(p) for x in xs], f'{k} ** {p}')
    S.ensure(same_unit(r, metric.unit(u) ** F(p)), f'{k} [{u}] ** {p}: the unit is raised', lambda: str(r.unit))
    for kb in KINDS:
        sb = () if kb == 'scalar' else shape if k == kb else S.choice(f's{kb}', SHAPES[kb])
        b, ys = draw(S, kb, f'b{kb}', S.choice(f'u{kb}', ['s', 'm', 'km^2', 'rad s']), sb)
        r, e = attempt(lambda: a ** b)
        S.ensure(e is not None, f'{k} ** {kb} with a unit is refused', lambda: str(r))
        r, e = attempt(lambda: 2.0 ** b)
        S.ensure(e is not None, f'number ** {kb} with a unit is refused', lambda: str(r))
    kb = S.choice('kb', KINDS[1:])
    sb = shape if k == kb else S.choice('sb', SHAPES[kb])
    b, ys = draw(S, kb, 'c', '1', sb)
    if u != '1':
        r, e = attempt(lambda: a ** b)
        S.ensure(e is not None, f'{k} [{u}] ** unitless {kb} is refused', lambda: str(r))
    elif k == kb and shape == sb:
        r, e = attempt(lambda: a ** b)
        S.ensure(e is None, f'unitless {k} ** unitless {kb} is defined', lambda: repr(e))
        check_numbers(S, r, [x ** y for x, y in zip(xs, ys)], f'{k} ** {kb}')
        S.ensure(same_unit(r, '1'), 'the result is unitless')


UNITS = ['m', 's', 'kg', 'km', 'cm', 'J', 'erg', 'm / s', 'kg m^2 / s^2', '1', 'MeV / nuc', 'cm^-2 s^-1', 'nT', 'au', 'deg', 'K^1/2']


@contract('C04', 'programs', rand=(700, 10000), bound='sampled programs of up to 6 operations over quantities of mixed kinds',
          functions=FUNCS)
def programs(S):
    """Any program of operations gives the numbers and units of the same program on plain numbers and units, or is refused."""
    from eprempy import metric
    live = []
    shape = S.choice('shape', [(2,), (3,), (2, 2), (1, 3), (2, 1, 2)])
    kinds = ['scalar', 'array', 'tensor'] if len(shape) > 1 else ['scalar', 'array', 'vector', 'tensor']
    group = S.choice('group', [['scalar', 'array'], ['scalar', 'tensor'], ['scalar'] + (['vector'] if len(shape) == 1 else [])])
    for i in range(4):
        k = S.choice(f'k{i}', group)
        u = S.choice(f'u{i}', UNITS)
        x, xs = draw(S, k, f'x{i}_', u, () if k == 'scalar' else shape)
        live.append((x, numpy.array(xs).reshape(() if k == 'scalar' else shape), metric.unit(u), k))
    for i in range(S.choice('steps', [2, 4, 6])):
        op = S.choice(f'op{i}', ['+', '-', '*', '/', '//', 'neg', 'abs', '**', '*n', 'n/', 'same+'])
        (a, na, ua, ka), (b, nb, ub, kb) = live[S.choice(f'j{i}', range(len(live)))], live[S.choice(f'l{i}', range(len(live)))]
        before = (nums(a).copy(), str(a.unit), nums(b).copy(), str(b.unit))
        k = kb if KINDS.index(kb) > KINDS.index(ka) else ka
        if op in ('+', '-', '*', '/', '//'):
            if op in ('/', '//') and numpy.any(nb == 0):
                continue
            r, e = attempt(OPS[op], a, b)
            if op in '+-':
                if ua != ub:
                    S.ensure(e is not None, f'[{ua}] {op} [{ub}] is refused', lambda: str(r))
                    continue
                u = ua
            else:
                u = ua * ub if op == '*' else ua / ub
            n = OPS[op](na, nb)
        elif op == 'same+':
            r, e = attempt(lambda: a + a)
            n, u, k = na + na, ua, ka
        elif op == '*n':
            c = S.choice(f'c{i}', [2, 0.5, -3.0, 1])
            r, e = attempt(lambda: a * c)
            n, u, k = na * c, ua, ka
        elif op == 'n/':
            if numpy.any(na == 0):
                continue
            r, e = attempt(lambda: 2.0 / a)
            n, u, k = 2.0 / na, ua ** -1, ka
        elif op == '**':
            p = S.choice(f'p{i}', [0, 1, 2, 3, -1])
            if p < 0 and numpy.any(na == 0):
                continue
            r, e = attempt(lambda: a ** p)
            n, u, k = na ** float(p), ua ** p, ka
        else:
            f = abs if op == 'abs' else (lambda z: -z)
            r, e = attempt(f, a)
            n, u, k = f(na), ua, ka
        S.ensure(e is None, f'{ka} [{ua}] {op} {kb} [{ub}] is defined', lambda: repr(e))
        S.ensure(S.alleq(flat(r), list(n.ravel()), 1e-9), f'{ka} {op} {kb}: numbers', lambda: (flat(r), n))
        S.ensure(nums(r).shape == n.shape and kind_of(r) == k, f'{ka} {op} {kb}: shape and kind')
        S.ensure(same_unit(r, u), f'[{ua}] {op} [{ub}]: unit', lambda: (str(r.unit), str(u)))
        S.ensure(numpy.array_equal(before[0], nums(a)) and numpy.array_equal(before[2], nums(b)) and
                 (str(a.unit), str(b.unit)) == (before[1], before[3]), 'the operands are unchanged')
        if numpy.all(numpy.isfinite(n)) and numpy.all(abs(n) < 1e12) and len(live) < 9 and U.denote(r.unit) is not None and \
                all(abs(t.exponent) < 9 for t in r.unit):
            live.append((r, n, r.unit, k))


@contract('C04', 'measurables', rand=(300, 3000), bound='sampled pairs of numbers and unit', functions=FUNCS)
def measurables(S):
    """A measurable operand, numbers with a unit, acts as the quantity it names."""
    k = S.choice('kind', KINDS[:3])
    shape = S.choice('shape', SHAPES[k])
    u, v = S.choice('units', PAIRS + [('cm^-2 s^-1', 's')])
    a, xs = draw(S, k, 'a', u, shape)
    y = S.real('y', simple=True, nonzero=True)
    op = S.choice('op', ['+', '-', '*', '/', '//'])
    r, e = attempt(OPS[op], a, (y, v))
    if op in '+-' and not equal_units(u, v):
        S.ensure(e is not None, f'[{u}] {op} (number, {v}) is refused', lambda: str(r))
        return
    S.ensure(e is None, f'{k} [{u}] {op} (number, {v}) is defined', lambda: repr(e))
    from eprempy import metric
    check_numbers(S, r, [OPS[op](x, y) for x in xs], f'{k} {op} measurable')
    w = metric.unit(u)
    S.ensure(same_unit(r, w if op in '+-' else w * v if op == '*' else w / v), 'the unit follows')


@contract('C04', 'scalar-casts', rand=(200, 2000), bound='sampled scalars', functions=['eprempy.physical._operations.cast'])
def scalar_casts(S):
    """Rounding and casting a scalar act on its number; rounding keeps the unit."""
    from eprempy import physical
    x = S.real('x')
    u = S.choice('unit', ['m', '1', 'kg m / s'])
    s = physical.scalar(x, unit=u)
    for f in (round, math.floor, math.ceil, math.trunc):
        r = f(s)
        S.ensure(S.eq(flat(r)[0], f(x)) and same_unit(r, u), f'{f.__name__} of a scalar')
    S.ensure(float(s) == x and int(s) == int(x), 'casts give the number')


@contract('C04', 'value-types', rand=(200, 2000), bound='sampled measured values, sequences and coordinates',
          functions=['eprempy.measured._object', 'eprempy.measured._types'])
def value_types(S):
    """Equality of measured values and sequences needs equal numbers and equal units."""
    from eprempy import measured
    n = S.choice('n', [1, 2, 3])
    xs = [S.real(f'x{i}', simple=True) for i in range(n)]
    ys = list(xs)
    if S.coin('diff'):
        i = S.choice('i', range(n))
        ys[i] += 1.0
    u, v = S.choice('units', PAIRS)
    a, b = measured.sequence(xs, unit=u), measured.sequence(ys, unit=v)
    S.ensure((a == b) == (xs == ys and equal_units(u, v)), 'sequences')
    S.ensure((a != b) == (not (a == b)), 'sequences: !=')
    a, b = measured.value(xs[0], unit=u), measured.value(ys[0], unit=v)
    S.ensure((a == b) == (xs[0] == ys[0] and equal_units(u, v)), 'values')


@contract('C04', 'membership', sym='shape', rand=(300, 2000), max_paths=(4000, 12000), bound='vectors, tensors and arrays of up to 4 elements; all real elements',
          functions=['eprempy.physical._vector.Vector.__contains__', 'eprempy.physical._tensor.Tensor.__contains__', 'eprempy.physical._vector.Vector.__iter__', 'eprempy.physical._tensor.Tensor.__iter__'])
def membership(S):
    """A scalar is a member of a quantity exactly if an element has its number and its unit; iterating a vector or tensor gives its elements with the unit."""
    from eprempy import physical
    kind = S.choice('kind', ['vector', 'tensor', 'array'])
    u, v = S.choice('units', PAIRS)
    shape = S.choice('shape', SHAPES[kind])
    x, xs = draw(S, kind, 'x', u, shape)
    before = str(x.unit)
    if S.coin('member'):
        y = xs[S.choice('which', list(range(len(xs))))]
    else:
        y = S.real('y', simple=True)
    s = physical.scalar(y, unit=v)
    got, e = attempt(lambda: s in x)
    S.ensure(e is None, f'membership of a {kind}', lambda: repr(e))
    if equal_units(u, v):
        equal = S.either(*[S.eq(a, y) for a in xs])
        S.ensure(S.both(S.implies(equal, got), S.implies(got, equal)), f'a member of a {kind} has the number of an element', lambda: (xs, y, got))
    else:
        S.ensure(not got, f'a member of a {kind} has its unit', lambda: (xs, u, y, v, got))
    if kind != 'array':
        items = list(x)
        S.ensure(len(items) == len(xs) and all(kind_of(i) == 'scalar' for i in items) and all(str(i.unit) == str(x.unit) for i in items), f'the elements of a {kind}', lambda: items)
        S.ensure(S.alleq([i.data for i in items], xs), f'the numbers of the elements of a {kind}', lambda: (xs, items))
        S.ensure(S.both(*[bool(i in x) for i in items]), f'the elements are members of the {kind}')
    unchanged(S, x, xs, before, kind)
