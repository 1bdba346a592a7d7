"""C12: collection helpers meet their mathematical definitions for all inputs."""
import itertools
from fractions import Fraction

import numpy

from ..core import contract, attempt, need, Skip, Unsupported, close

MOD = 'eprempy.container.'


def f(name):
    return need('eprempy.container', name)


def say(S, *a):
    return (lambda: a) if not S.symbolic else None


def names_of(S, tag, n):
    return [S.name(f'{tag}{i}') for i in range(n)]


def same_list(S, xs, ys):
    return len(xs) == len(ys) and S.both(*[a == b for a, b in zip(xs, ys)])


def has(items, x):
    return any(bool(x == i) for i in items)


@contract('C12', 'unique', sym='shape', rand=(100, 1000), bound='up to four items (all patterns of equality); sampled up to thirty', functions=[MOD + 'unique'])
def unique(S):
    """Removing duplicates keeps the first occurrence of every item, in order, and leaves the input."""
    n = S.choice('n', range(5) if S.symbolic else [*range(13), 20, 30])
    items = names_of(S, 'x', n)
    if not S.symbolic and n > 12 and S.coin('wide'):
        items = S.shuffled('mix', [*range(n - 4), 3, 0, False, ''])
    given = list(items)
    how = S.choice('how', ['one', 'tuple', 'iterator', 'several', 'strict'])
    if how in ('several', 'strict') and n == 1:
        r = f('unique')(*given, strict=True)
    elif how in ('several', 'strict'):
        r = f('unique')(*given) if how == 'several' and n != 1 else f('unique')(*given, strict=True)
    else:
        r = f('unique')({'one': lambda: given, 'tuple': lambda: tuple(given), 'iterator': lambda: iter(given)}[how]())
    want = []
    for x in items:
        if not has(want, x):
            want.append(x)
    S.ensure(isinstance(r, list) and same_list(S, r, want), 'first occurrences in order', say(S, items, r))
    S.ensure(all(a is b for a, b in zip(given, items)) and len(given) == n, 'the input is unchanged')


def pick(items, others):
    return [i for i in items if has(others, i)]


def is_sub(xs, ys):
    """True if `xs` is a subsequence of `ys`."""
    k = 0
    for y in ys:
        if k < len(xs) and bool(xs[k] == y):
            k += 1
    return k == len(xs)


@contract('C12', 'merge', sym='shape', rand=(400, 4000), max_paths=(12000, 40000), bound='up to three and three items (all patterns of equality and repetition); sampled up to eight', functions=[MOD + 'merge'])
def merge(S):
    """Merging keeps the order of each operand and holds each shared item once; shared items in different orders are refused."""
    top = 4 if S.symbolic else 9
    x = names_of(S, 'x', S.choice('n', range(top)))
    y = names_of(S, 'y', S.choice('m', range(top)))
    a, b = list(x), list(y)
    r, e = attempt(f('merge'), *S.choice('types', [(a, b), (tuple(a), iter(b)), (iter(a), tuple(b))] if not S.symbolic else [(a, b)]))
    ab, ba = pick(x, y), pick(y, x)
    if not same_list(S, ab, ba):
        S.ensure(isinstance(e, f('MergeError')), 'conflicting orders are refused', say(S, x, y, r, e))
    else:
        S.ensure(e is None, 'agreeing orders are merged', say(S, x, y, e))
        S.ensure(isinstance(r, list) and len(r) == len(x) + len(y) - len(ab), 'shared items are held once, and nothing else is lost or added', say(S, x, y, r))
        S.ensure(is_sub(x, r) and is_sub(y, r), 'the order of each operand is kept', say(S, x, y, r))
    S.ensure(len(a) == len(x) and len(b) == len(y) and all(p is q for p, q in zip(a + b, x + y)), 'the operands are unchanged')


def nested(S, depth=0):
    k = S.choice('node', ['item', 'item', 'list', 'tuple', 'one', 'one']) if depth < 4 else 'item'
    if k == 'item':
        return S.choice('item', [0, 1, 'a', 'string', '', 2.5, ('x', 'y'), [], (), (3,), {'k': 1}, {4}, [None], b'ab', b'', False, 0.0])
    n = 1 if k == 'one' else S.choice('n', [0, 1, 2, 3])
    return S.choice('type', [list, tuple])(nested(S, depth + 1) for _ in range(n))


def strip(x):
    while isinstance(x, (list, tuple)) and len(x) == 1:
        x = x[0]
    return x


@contract('C12', 'wrap', rand=(500, 4000), bound='random nestings of lists and tuples up to depth five', functions=[MOD + n for n in ('wrap', 'unwrap', 'Wrapper', 'isseparable', 'isiterable', 'size')])
def wrap(S):
    """Unwrapping removes only redundant outer layers, wrapping adds at most one, and neither loses or invents members."""
    x = nested(S)
    before = repr(x)
    core = strip(x)
    r = f('unwrap')(x)
    S.ensure(r is core or r == core and type(r) is type(core), 'unwrapping gives the inner object', lambda: (x, r))
    S.ensure(f('unwrap')(r) == r, 'unwrapping twice is unwrapping once', lambda: (x, r))
    kind = S.choice('newtype', [list, tuple])
    members = [] if core is None else [core] if isinstance(core, str) or not hasattr(core, '__iter__') else list(core)
    r = f('unwrap')(x, newtype=kind)
    S.ensure(type(r) is kind and list(r) == members, 'unwrapping to a type keeps the members', lambda: (x, r))
    w = f('wrap')(x)
    members = [x] if isinstance(x, str) or not hasattr(x, '__iter__') else list(x)
    S.ensure(type(w) is list and w == members and [*map(type, w)] == [*map(type, members)] and f('wrap')(w) == w, 'wrapping keeps the members', lambda: (x, w))
    W = f('Wrapper')(x)
    S.ensure(list(W) == members and len(W) == len(members) and all(m in W for m in members), 'a wrapper holds the members', lambda: (x, W._wrapped))
    S.ensure(str(W) == str(x), 'a wrapper prints as its argument', lambda: (x, attempt(str, W)))
    other = list(members)
    change = S.choice('change', ['none', 'order', 'drop', 'repeat', 'replace'])
    if change == 'order':
        other = S.shuffled('order', other)
    elif change == 'drop':
        other = other[1:]
    elif change == 'repeat':
        other = other[:1] + other
    elif change == 'replace':
        other = other[1:] + ['another']
    V = f('Wrapper')(other)

    def multiset(a, b):
        b = list(b)
        return len(a) == len(b) and all(m in b and (b.remove(m) or True) for m in a)
    r, e = attempt(lambda: (W == V, V == W, W != V))
    same = multiset(members, other)
    S.ensure(e is None and r == (same, same, not same), 'two wrappers are equal exactly if they hold the same members', lambda: (members, other, r, repr(e)))
    S.ensure((W == members) is False, 'a wrapper is not its members', lambda: members)
    sep = hasattr(x, '__iter__') and not isinstance(x, (str, bytes))
    S.ensure(f('isseparable')(x) is sep and f('isiterable')(x) is hasattr(x, '__iter__'), 'separable', lambda: x)

    def count(v):
        return sum(count(i) if hasattr(i, '__iter__') else 1 for i in v)

    def texts(v):
        return any(isinstance(i, (str, bytes)) or (hasattr(i, '__iter__') and texts(i)) for i in v)
    if sep and not texts(x):
        S.ensure(f('size')(x) == count(x), 'the size counts every member', lambda: x)
    S.ensure(repr(x) == before, 'the input is unchanged')


@contract('C12', 'distribute', rand=(200, 2000), bound='sequences of up to five members', functions=[MOD + 'distribute'])
def distribute(S):
    """Distributing gives every pair of members once, in order; a whole argument is paired with every member of the other."""
    def one(tag):
        return S.choice(tag, [1, 'ab', 2.5]) if S.coin('whole ' + tag) else S.choice('type', [list, tuple])(S.choice('m', [1, 2, 'x', None]) for _ in range(S.choice('n', range(6))))
    a, b = one('a'), one('b')
    sa, sb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    r, e = attempt(lambda: list(f('distribute')(a, b)))
    if not (sa or sb):
        S.ensure(isinstance(e, TypeError), 'two whole arguments are refused', lambda: (a, b, r))
    else:
        S.ensure(e is None and r == [(i, j) for i in (a if sa else [a]) for j in (b if sb else [b])], 'every pair once', lambda: (a, b, r, e))


BOUNDS = [None, 'lower', 'upper']


def check_nearest(S, values, target, bound, r, label, exact=True):
    ok = [v for v in values if bound is None or bool(v >= target if bound == 'lower' else v <= target)]
    pool = ok or values
    S.ensure(0 <= r.index < len(values), f'{label}: the index is one of the collection', say(S, values, target, bound, r))
    S.ensure(values[r.index] == r.value, f'{label}: the value is the one at the index', say(S, values, target, bound, r))
    got = values[r.index]
    if ok and bound is not None:
        S.ensure(got >= target if bound == 'lower' else got <= target, f'{label}: the value is permitted', say(S, values, target, bound, r))
    for v in pool:
        S.ensure(abs(got - target) <= abs(v - target), f'{label}: no permitted value is closer', say(S, values, target, bound, r))


@contract('C12', 'nearest', sym='shape', rand=(200, 1000), max_paths=(4000, 12000), bound='up to three values in any order; sampled up to eight', functions=[MOD + 'nearest'])
def nearest(S):
    """The nearest-value search gives a permitted value than which none is closer, and its index."""
    n = S.choice('n', [1, 2, 3] if S.symbolic else range(1, 9))
    values = [S.real(f'v{i}') for i in range(n)]
    target = S.choice('target', values) if not S.symbolic and S.coin('held') else S.real('t')
    bound = S.choice('bound', BOUNDS)
    given = numpy.array(values, dtype=object) if S.symbolic else list(values)
    r = f('nearest')(given, target, bound=bound) if bound else f('nearest')(given, target)
    check_nearest(S, values, target, bound, r, 'reals')
    S.ensure(len(given) == n and all(a is b for a, b in zip(given, values)), 'the input is unchanged')


@contract('C12', 'nearest of arrays', rand=(300, 3000), bound='random arrays of up to three dimensions and five number types', functions=[MOD + 'nearest'])
def nearest_arrays(S):
    """In arrays of any number type and shape the index locates a closest permitted value."""
    dt = S.choice('dtype', ['f8', 'f4', 'i8', 'i2', 'u1', 'u8'])
    shape = S.choice('shape', [(1,), (5,), (2, 3), (3, 1), (2, 2, 2)])
    size = int(numpy.prod(shape))
    lo = 0 if dt[0] == 'u' else -40
    data = numpy.array([S.int('v', lo, 120) / (4 if dt[0] == 'f' else 1) for _ in range(size)]).astype(dt).reshape(shape)
    target = S.choice('t', [S.int('ti', max(lo, 0) if dt[0] == 'u' else -50, 125), float(S.choice('held', data.ravel().tolist())), S.int('tq', 0, 400) / 4])
    bound = S.choice('bound', BOUNDS)
    before = data.copy()
    given = data.tolist() if S.coin('list') else data
    r = f('nearest')(given, target, bound=bound)
    idx = int(numpy.ravel_multi_index(r.index, shape)) if len(shape) > 1 else int(r.index)
    S.ensure(numpy.asarray(given)[r.index] == r.value, 'the value at the index', lambda: (data, target, bound, r))
    r2 = type(r)(index=idx, value=r.value)
    flat = data.ravel().tolist()
    check_nearest(S, flat, target, bound, r2, dt)
    S.ensure(numpy.array_equal(data, before), 'the input is unchanged')


@contract('C12', 'bijection', sym='shape', rand=(200, 1500), bound='up to four pairs (all patterns of equality)', functions=[MOD + 'Bijection.' + n for n in ('__init__', '__getitem__', 'invert', 'find', '__len__', '__iter__')])
def bijection(S):
    """A bijection looks up both ways; a mapping with repeated values is refused."""
    n = S.choice('n', range(4) if S.symbolic else range(7))
    keys, values = names_of(S, 'k', n), names_of(S, 'v', n)
    for a, b in itertools.combinations(keys, 2):
        S.assume(a != b)
    d = dict(zip(keys, values))
    repeated = any(bool(a == b) for a, b in itertools.combinations(values, 2))
    r, e = attempt(f('Bijection'), d)
    if repeated:
        S.ensure(isinstance(e, TypeError), 'a mapping with repeated values is refused', say(S, d))
        return
    S.ensure(e is None, 'a one-to-one mapping is accepted', say(S, d))
    i = r.invert()
    S.ensure(len(r) == len(i) == n == len(list(r)), 'length', say(S, d))
    for k, v in zip(keys, values):
        S.ensure(S.both(r[k] == v, i[v] == k, r.find(v) == k, i.find(k) == v, r.find(v, None) == k), 'both ways', say(S, d))
    b = i.invert()
    S.ensure(len(b) == n and S.both(*[b[k] == v for k, v in zip(keys, values)]), 'inverting twice')
    u = S.name('u')
    known = has(values, u)
    S.ensure(isinstance(attempt(r.find, u)[1], KeyError) != known, 'an unknown value is refused unless a default is given', say(S, d, u))
    if not known:
        S.ensure(r.find(u, 17) == 17, 'the default', say(S, d, u))
    S.ensure(len(d) == n, 'the input is unchanged')
    d.clear()
    S.ensure(len(r) == n, 'later changes of the input do not matter')
    if S.symbolic:
        return
    objects = S.shuffled('objects', [0, 1, '', '1', '0', 'a', None, (), 2.5, (1, 2)])
    n = S.choice('pairs', [2, 4, 7, 10])
    d = dict(zip(objects[:n], S.shuffled('values', objects)[:n]))
    r, e = attempt(f('Bijection'), d)
    S.ensure(e is None, 'a one-to-one mapping is accepted', lambda: (d, e))
    S.ensure(all(r[k] == v and r.invert()[v] == k and r.find(v) == k and r.find(v, 'other') == k for k, v in d.items()), 'both ways, whatever the keys and values', lambda: d)
    S.ensure(r.find('unknown', 'other') == 'other' and isinstance(attempt(r.find, 'unknown')[1], KeyError), 'unknown values', lambda: d)
    S.ensure(len({attempt(f('Bijection'), {**d, 'extra': v})[0] for v in d.values()} - {None}) == 0, 'repeated values are refused', lambda: d)


@contract('C12', 'graph', sym='shape', rand=(150, 1000), max_paths=(6000, 20000), bound='two or three connections between any nodes (all patterns of equality), all weights', functions=[MOD + 'Graph.' + n for n in ('__init__', 'add_connection', 'get_weight', 'get_adjacencies', 'nodes', '__contains__', '__len__', '__iter__')])
def graph(S):
    """Every connection has a reverse of inverse weight; a new connection gets the weight given; nodes and adjacencies are those of the connections."""
    n = S.choice('n', [1, 2] if S.symbolic else range(1, 9))
    g = f('Graph')()
    edges = []
    for i in range(n):
        a, b = S.name(f'a{i}'), S.name(f'b{i}')
        S.assume(a != b)
        w = S.real(f'w{i}', nonzero=True)
        S.assume(w != 0)
        known = [(x, y) for x, y, _ in edges if bool(x == a) and bool(y == b) or bool(x == b) and bool(y == a)]
        if i == 0 and S.coin('from mapping'):
            g = f('Graph')({(a, b): w})
        else:
            g.add_connection(a, b, w)
        if not known:
            edges.append((a, b, w))
    if not S.symbolic and S.coin('weightless'):
        g.add_connection('weight', 'less')
        g.add_connection(*S.choice('again', [('weight', 'less'), ('less', 'weight')]), None)
        S.ensure(('weight', 'less') in g and ('less', 'weight') in g and g.get_weight('weight', 'less') is None and g.get_weight('less', 'weight') is None, 'the first connection counts, with a weight or without', lambda: g.connections)
        return
    for a, b, w in edges:
        S.ensure((a, b) in g and (b, a) in g, 'both directions are there')
        S.ensure(g.get_weight(a, b) == w, 'the weight given')
        S.ensure(close(g.get_weight(b, a) * w, 1) if not S.symbolic else g.get_weight(b, a) * w == 1, 'the reverse is the inverse', say(S, edges))
        adj = g.get_adjacencies(a)
        S.ensure(has(list(adj), b) and adj[b] == w, 'adjacencies have the weights')
    S.ensure(len(g) == 2 * len(edges) == len(list(g)), 'one connection per direction', say(S, edges))
    nodes = []
    for a, b, _ in edges:
        for x in (a, b):
            if not has(nodes, x):
                nodes.append(x)
    S.ensure(len(g.nodes) == len(nodes) and all(has(g.nodes, x) for x in nodes), 'the nodes of the connections')
    u, v = S.name('u'), S.name('v')
    there = any(bool(x == u) and bool(y == v) or bool(x == v) and bool(y == u) for x, y, _ in edges)
    r, e = attempt(g.get_weight, u, v)
    S.ensure(isinstance(e, KeyError) != there, 'an unknown connection is refused', say(S, edges, u, v))


@contract('C12', 'table', sym='shape', rand=(600, 4000), max_paths=(12000, 40000), bound='up to three entries with two keys (all patterns of equal values); sampled up to five entries with three', functions=[MOD + 'Table.' + n for n in ('__call__', '__getitem__', 'find', 'get', 'keys')])
def table(S):
    """A strict search gives the only entry that has all pairs; an iterative search gives the entry that the first pairs single out; otherwise they fail."""
    n = S.choice('n', [1, 2, 3] if S.symbolic else range(1, 6))
    cols = ['p', 'q'] if S.symbolic else ['p', 'q', 'r']
    entries = [{c: S.name(f'{c}{i}') for c in cols} for i in range(n)]
    if not S.symbolic and S.coin('extra key'):
        entries[S.choice('where', range(n))]['extra'] = 'x'
    t = f('Table')(entries)
    order = S.choice('request', [('p',), ('p', 'q'), ('q', 'p')] if S.symbolic else [('p',), ('r', 'p'), ('p', 'q'), ('q', 'r', 'p'), ('p', 'q', 'r')])
    request = {k: S.name('v' + k) for k in order}
    strict = S.coin('strict')
    r, e = attempt(lambda: t(strict=strict, **request) if strict else t(**request))
    left, single = list(entries), None
    for k, v in request.items():
        left = [x for x in left if bool(x[k] == v)]
        if single is None and len(left) == 1:
            single = left[0]
    if strict:
        single = left[0] if len(left) == 1 else None
    if single is not None:
        S.ensure(e is None and r is single, 'the entry that the pairs single out', say(S, entries, request, strict, r, e))
    else:
        S.ensure(isinstance(e, f('TableRequestError')), 'no single entry', say(S, entries, request, strict, r, e))
        if not strict:
            S.ensure(isinstance(e, f('AmbiguousRequestError')) == (len(left) > 1), 'ambiguous requests are told from failing ones', say(S, entries, request, strict, e))
    S.ensure(len(t) == n and all(a is b for a, b in zip(t, entries)), 'the entries in order')
    col = t[cols[0]]
    S.ensure(same_list(S, list(col), [x[cols[0]] for x in entries]), 'the values of a key')
    S.ensure(isinstance(attempt(lambda: t['nokey'])[1], f('TableKeyError')) and isinstance(attempt(lambda: t(nokey=1))[1], f('TableKeyError')), 'unknown keys are refused')
    if S.symbolic and n > 2:
        return
    v = S.name('w')
    hits = [x for x in entries if has(list(x.values()), v)]
    got, e = attempt(t.find, v)
    S.ensure((isinstance(e, f('MissingValueError')) if not hits else e is None and len(got) == len(hits) and all(a is b for a, b in zip(got, hits))), 'the entries with a value', say(S, entries, v, got, e))
    got, e = attempt(t.find, v, unique=True)
    S.ensure(got is hits[0] if len(hits) == 1 else isinstance(e, f('TableValueError')), 'the only entry with a value', say(S, entries, v, got, e))


@contract('C12', 'registry', rand=(200, 2000), bound='histories of up to twelve registrations under five names', functions=[MOD + 'ObjectRegistry.' + n for n in ('register', '_get_default_key', '_get_mapping_key', 'reset', 'copy')])
def registry(S):
    """Registering an object never replaces another unless asked, returns the object, and resetting restores the start."""
    names = ['f', 'f_1', 'f_2', 'g', 'g_1']

    def make(name):
        def it():
            pass
        it.__name__ = it.__qualname__ = name
        return it
    base = {k: make(k) for k in names if S.coin('base ' + k)}
    key = S.choice('object key', ['object', 'object', 'this'])
    r = f('ObjectRegistry')(base) if key == 'object' else f('ObjectRegistry')(base, object_key=key)
    start = {k: r[k][key] for k in r}
    S.ensure(start == base, 'the base is registered')
    model = dict(base)
    for t in range(S.choice('steps', [1, 4, 12])):
        obj = make(S.choice('name', names))
        user = S.choice('user', [None, None] + names)
        over = S.coin('overwrite') if user else False
        if user is None and S.coin('bare'):
            got = r.register(obj)
            meta = {}
        else:
            meta = {'n': t}
            got = r.register(name=user, overwrite=over, **meta)(obj)
        S.ensure(got is obj, 'the object is returned')
        keys = [k for k in r if r[k][key] is obj]
        S.ensure(len(keys) == 1, 'the object is registered once', lambda: (model, user, over))
        k = keys[0]
        if user and (over or user not in model):
            S.ensure(k == user, 'the name asked for', lambda: (k, user))
        else:
            S.ensure(k not in model, 'no other object is replaced', lambda: (k, sorted(model)))
        S.ensure({x: y for x, y in r[k].items() if x != key} == meta, 'the metadata are kept')
        model[k] = obj
        S.ensure({x: r[x][key] for x in r} == model and len(r) == len(model), 'everything else stays', lambda: (k, sorted(model), sorted(r)))
    c = r.copy()
    r.reset()
    S.ensure({k: r[k][key] for k in r} == base, 'resetting restores the start')
    S.ensure({k: c[k][key] for k in c} == model, 'a copy is independent')
    for name in names:
        r.register(name=name, overwrite=True)(make('again'))
    S.ensure(set(r) == {*base, *names} and all(r[k][key].__name__ == 'again' for k in names), 'registering after a reset', lambda: sorted(r))
    r.reset()
    S.ensure({k: r[k][key] for k in r} == base, 'resetting again restores the start', lambda: sorted(r))
    obj = c.register(make('later'))
    S.ensure(c['later'][key] is obj and 'later' not in r, 'a copy registers on its own')


@contract('C12', 'slices', rand=(200, 1500), bound='random slices and stops', functions=[MOD + 'slice2range'])
def slices(S):
    """The range of a slice with given bounds holds the indices that the slice selects of a long enough sequence."""
    start, stop, step = S.choice('start', [None, 0, 1, 3, 7]), S.choice('stop', [None, 0, 1, 5, 9]), S.choice('step', [None, 1, 2, 3])
    given = S.choice('given', [None, 0, 4, 9])
    r, e = attempt(lambda: f('slice2range')(slice(start, stop, step), stop=given))
    if stop is None and given is None:
        S.ensure(isinstance(e, TypeError), 'a slice without end is refused')
    else:
        want = list(range(20))[slice(start, given if stop is None else stop, step)]
        S.ensure(e is None and isinstance(r, range) and list(r) == want, 'the indices of the slice', lambda: (start, stop, step, given, r))


@contract('C12', 'ragged tables', rand=(300, 2000), bound='up to seven entries of up to eight keys each, in any order, with values that include 0, the empty string and None', functions=[MOD + 'Table.' + n for n in ('__getitem__', 'find', 'get', 'keys')])
def ragged(S):
    """The keys of a table are those of every entry; a lookup of another key needs a default, which stands for missing values only."""
    names = ['p', 'q', 'r', 's', 't', 'u', 'v', 'w']
    values = [0, '', None, False, 1, 'a', 'b', 2.5, (), 'x']
    n = S.choice('n', [1, 2, 3, 4, 7])
    entries = []
    for i in range(n):
        own = [k for k in S.shuffled(f'order{i}', names) if S.rng.random() < 0.8]
        entries.append({k: S.choice(f'{k}{i}', values) for k in own})
    t = f('Table')(entries)
    common = [k for k in names if all(k in x for x in entries)]
    S.ensure(set(t.keys) == set(common), 'the common keys', lambda: (entries, t.keys))
    for k in names + ['none']:
        r, e = attempt(lambda: t[k])
        if k in common:
            S.ensure(e is None and tuple(r) == tuple(x[k] for x in entries) and all(a is x[k] for a, x in zip(r, entries)), 'the values of a key', lambda: (entries, k, r))
        else:
            S.ensure(isinstance(e, f('TableKeyError')), 'a key that an entry lacks is refused', lambda: (entries, k, r))
            S.ensure(isinstance(attempt(lambda: t(**{k: 1}))[1], f('TableKeyError')), 'a request for it too', lambda: (entries, k))
        other = S.choice('default', [None, 'other', 7])
        got = t.get(k) if other is None else t.get(k, other)
        S.ensure(len(got) == n and all(g is (x[k] if k in x else other) for g, x in zip(got, entries)), 'the default stands for missing values', lambda: (entries, k, other, got))
    for v in values + ['absent']:
        hits = [x for x in entries if any(v == y for y in x.values())]
        got, e = attempt(t.find, v)
        S.ensure(isinstance(e, f('MissingValueError')) if not hits else e is None and len(got) == len(hits) and all(a is b for a, b in zip(got, hits)), 'the entries with a value', lambda: (entries, v, got, e))
        got, e = attempt(t.find, v, unique=True)
        S.ensure(got is hits[0] if len(hits) == 1 else isinstance(e, f('MissingValueError' if not hits else 'AmbiguousValueError')), 'the only entry with a value', lambda: (entries, v, got, e))


@contract('C12', 'types of members', rand=(300, 2000), bound='collections of up to twelve members of six types', functions=[MOD + n for n in ('hastype', 'find_first', 'length', 'isshapelike')])
def types(S):
    """An object has a type if it is of it, or if a declared collection has some member (strictly: only members) of it; the first of a type is the earliest."""
    pool = [0, 1, -3, '', 'a', 2.5, 0.0, None, (), [], (1,)]
    xs = [S.choice(f'x{i}', pool) for i in range(S.choice('n', [0, 1, 2, 3, 9, 12]))]
    if xs and S.coin('alike'):
        xs = [xs[0]] * (len(xs) - 1) + [S.choice('last', pool)]
    kind = S.choice('kind', [list, tuple, set]) if all(not isinstance(x, list) for x in xs) else S.choice('kind', [list, tuple])
    obj = kind(xs)
    want = S.choice('types', [int, str, float, (int, float), (str, tuple), list, (list, int)])
    wrappers = S.choice('wrappers', [(), (list,), (tuple,), (list, tuple), (set, list, tuple)])
    strict = S.choice('strict', [None, False, True])
    r = f('hastype')(obj, want, *wrappers) if strict is None else f('hastype')(obj, want, *wrappers, strict=strict)
    hits = [isinstance(x, want) for x in obj]
    if isinstance(obj, want):
        known = True
    elif kind in wrappers:
        known = all(hits) if strict else any(hits)
    else:
        known = False
    S.ensure(r is known, 'the type of an object or its members', lambda: (obj, want, wrappers, strict, r))
    first = [x for x in xs if isinstance(x, want)]
    r = f('find_first')(want, *xs)
    S.ensure(r is (first[0] if first else None), 'the first of a type', lambda: (xs, want, r))
    S.ensure(f('length')(obj) == len(obj) and all(f('length')(x) == (len(x) if hasattr(x, '__len__') else 0) for x in xs), 'the length', lambda: obj)
    S.ensure(bool(f('isshapelike')(xs)) == (len(xs) > 0 and all(isinstance(x, int) for x in xs)), 'a shape is a non-empty collection of integers', lambda: xs)
