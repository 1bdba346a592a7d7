"""C11: all aliases of a key always see the same value."""
import itertools

from ..core import contract, attempt, need, Skip, Unsupported

MOD = 'eprempy.aliased.'
MAP = [MOD + 'Mapping.' + n for n in ('__getitem__', '__contains__', '__len__', '__iter__', 'keys', 'values', 'items', 'flat', 'alias', 'copy', '__or__')]
MUT = [MOD + 'MutableMapping.' + n for n in ('__getitem__', '__setitem__', '__delitem__', 'alias')]


class Value:
    """A stored value of which nothing is known but its identity."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'value {self.tag}'


def distinct(S, names):
    for a, b in itertools.combinations(names, 2):
        S.assume(a != b)
    return names


def where(model, key):
    """The position in `model` of the group holding `key`, or None (branches in symbolic mode)."""
    for i, (names, _) in enumerate(model):
        for n in names:
            if bool(n == key):
                return i
    return None


def put(model, keys, value):
    """The model after storing `value` under the names in `keys`: groups that share a name become one."""
    keys = list(keys)
    hits = []
    for k in keys:
        i = where(model, k)
        if i is not None and i not in hits:
            hits.append(i)
    if not hits:
        return model + [(uniq(keys), value)]
    names = uniq([n for i in sorted(hits) for n in model[i][0]] + keys)
    first = min(hits)
    out = [(g if i != first else (names, value)) for i, g in enumerate(model) if i not in hits or i == first]
    return out


def uniq(keys):
    out = []
    for k in keys:
        if not any(bool(k == o) for o in out):
            out.append(k)
    return out


def drop(model, key):
    i = where(model, key)
    return [g for k, g in enumerate(model) if k != i]


def holds(S, m, model, unknown, label):
    """`m` relates exactly the names in `model` to their values."""
    say = (lambda: (dict(m.items()), model)) if not S.symbolic else None
    flat = [(n, v) for names, v in model for n in names]
    for n, v in flat:
        r, e = attempt(lambda: m[n])
        S.ensure(e is None and r is v, f'{label}: every alias reads the value last stored', say)
        S.ensure(n in m, f'{label}: every alias is a member', say)
    S.ensure(len(m) == len(flat) == len(m.keys()) == len(m.values()) == len(m.items()), f'{label}: the length counts every alias once', say)
    keys = list(m)
    S.ensure(len(keys) == len(flat) and all(any(bool(k == n) for k in keys) for n, _ in flat), f'{label}: iteration gives every alias once', say)
    vals, ids = list(m.values()), lambda vs: sorted(id(v) for v in vs)
    S.ensure(ids(vals) == ids(v for _, v in flat), f'{label}: values, once per alias', say)
    S.ensure(all(m[k] is v for k, v in m.items()) and all(f is m[k] for k, f in m.flat.items()) and len(m.flat) == len(flat), f'{label}: items agree with lookup', say)
    S.ensure(ids(m.values(aliased=True)) == ids(v for _, v in model) and len(m.keys(aliased=True)) == len(m.items(aliased=True)) == len(model), f'{label}: aliased views hold each value once', say)
    for names, v in model:
        own = [k for k in m.keys(aliased=True) if names[0] in k]
        S.ensure(len(own) == 1 and len(own[0]) == len(names) and all(n in own[0] for n in names), f'{label}: a group of aliases has all its names', say)
        with_it, without = m.alias(names[0], include=True), m.alias(names[0])if len(names) > 1 else None
        S.ensure(len(with_it) == len(names) and all(n in with_it for n in names), f'{label}: the aliases of a name', say)
        if without is not None:
            S.ensure(len(without) == len(names) - 1 and all(n in without for n in names[1:]) and names[0] not in without, f'{label}: the other aliases of a name', say)
    if unknown is not None:
        r, e = attempt(lambda: m[unknown])
        S.ensure(isinstance(e, KeyError) and unknown not in m and m.get(unknown, 3) == 3, f'{label}: an unknown name is refused', say)


SHAPES = [(1,), (2,), (1, 1), (2, 1), (1, 2), (3,), (2, 2)]
BOUND = 'mappings of up to two groups and four names; all names, any values'


def start(S, tag='a', shapes=SHAPES, cls='MutableMapping'):
    shape = S.choice(f'shape {tag}', shapes)
    names = distinct(S, [S.name(f'{tag}{i}') for i in range(sum(shape))])
    return build(S, names, shape, tag, cls)


def build(S, names, shape, tag, cls):
    Group = need('eprempy.aliased', 'Group')
    model, k = [], 0
    for i, n in enumerate(shape):
        model.append((names[k:k + n], Value(f'{tag}{i}')))
        k += n
    m = need('eprempy.aliased', cls)({(tuple(g) if len(g) > 1 else g[0]): v for g, v in model})
    return m, model


def fresh(S, model, name):
    """A name that is not in the model, or None where the draw hit one."""
    u = S.name(name)
    return None if where(model, u) is not None else u


@contract('C11', 'construct', sym='shape', rand=(60, 300), bound=BOUND, functions=MAP)
def construct(S):
    """A mapping built from groups of names relates each name to its group's value."""
    m, model = start(S, cls=S.choice('class', ['Mapping', 'MutableMapping']))
    holds(S, m, model, fresh(S, model, 'u'), 'construction')


@contract('C11', 'overlap', sym='shape', rand=(150, 600), max_paths=(4000, 12000), bound='two or three keys of one or two names each; every pattern of shared names, any values', functions=MAP)
def overlap(S):
    """Constructing from keys that share names leaves each name with one value: the last one given for any of its aliases."""
    Mapping = need('eprempy.aliased', S.choice('class', ['Mapping', 'MutableMapping']))
    n = S.choice('keys', [2, 3]) if S.symbolic else S.choice('keys', [2, 3, 4, 5])
    model, keys = [], []
    for i in range(n):
        size = S.choice(f'size {i}', [1, 2]) if n < 3 or not S.symbolic else (1 if i == 1 else 2)
        names = [S.name(f'n{i}{j}') for j in range(size)]
        if size == 2:
            S.assume(names[0] != names[1])
        keys.append((tuple(names) if size > 1 else names[0], Value(i)))
    for (a, _), (b, _) in itertools.combinations(keys, 2):
        S.assume(a != b)
    for k, v in keys:
        model = put(model, k if isinstance(k, tuple) else [k], v)
    holds(S, Mapping(dict(keys)), model, None, 'overlapping keys')


@contract('C11', 'store', sym='shape', rand=(200, 1000), bound=BOUND, functions=MUT)
def store(S):
    """Storing through any name changes the value for all its aliases and for nothing else."""
    m, model = start(S)
    key, v = S.name('key'), Value('new')
    how = S.choice('how', ['item', 'update', 'update mapping', 'setdefault'])
    if how == 'setdefault':
        i = where(model, key)
        r = m.setdefault(key, v)
        S.ensure(r is (v if i is None else model[i][1]), 'setdefault keeps what is there')
        model = put(model, [key], v) if i is None else model
    else:
        if how == 'item':
            m[key] = v
        elif how == 'update':
            m.update({key: v})
        else:
            m.update(need('eprempy.aliased', 'Mapping')({key: v}))
        model = put(model, [key], v)
    holds(S, m, model, None, 'storing')


@contract('C11', 'store together', sym='shape', rand=(200, 1000), max_paths=(4000, 12000), bound=BOUND, functions=MUT)
def store_together(S):
    """Storing under several names at once never leaves a name with two values."""
    m, model = start(S, shapes=SHAPES[:5])
    a, b = distinct(S, [S.name('key1'), S.name('key2')])
    v = Value('new')
    r, e = attempt(m.__setitem__, (a, b), v)
    holds(S, m, model if e is not None else put(model, [a, b], v), None, 'storing under two names')


@contract('C11', 'remove', sym='shape', rand=(200, 1000), bound=BOUND, functions=MUT)
def remove(S):
    """Removing through any name removes all its aliases and nothing else; an unknown name is refused."""
    m, model = start(S)
    key = S.name('key')
    i = where(model, key)
    how = S.choice('how', ['del', 'pop', 'pop default'])
    d = Value('default')
    if how == 'del':
        r, e = attempt(m.__delitem__, key)
    elif how == 'pop':
        r, e = attempt(m.pop, key)
    else:
        r, e = attempt(m.pop, key, d)
    if i is None:
        S.ensure(isinstance(e, KeyError) if how != 'pop default' else e is None and r is d, 'an unknown name is refused')
    else:
        S.ensure(e is None and (how == 'del' or r is model[i][1]), 'a known name is removed')
    holds(S, m, drop(model, key) if i is not None else model, key, 'removing')


@contract('C11', 'add alias', sym='shape', rand=(300, 1500), max_paths=(4000, 12000), bound=BOUND, functions=MUT)
def add_alias(S):
    """Adding an alias changes no value; a name in use for another value is refused, leaving everything as it was."""
    m, model = start(S)
    key, new = S.name('key'), S.name('new')
    i, j = where(model, key), where(model, new)
    r, e = attempt(m.alias, key, new)
    if i is None:
        S.ensure(e is not None or bool(key == new), 'an alias for an unknown name is refused')
    elif j is not None and j != i:
        S.ensure(isinstance(e, KeyError), 'an alias of another key is refused')
    elif j is None:
        S.ensure(e is None, 'a new alias is accepted', (lambda: repr(e)) if not S.symbolic else None)
        model = [(g + [new] if k == i else g, v) for k, (g, v) in enumerate(model)]
    holds(S, m, model, None, 'adding an alias')


@contract('C11', 'add aliases', sym='shape', rand=(200, 1000), max_paths=(3000, 9000), bound=BOUND + '; two new names', functions=MUT)
def add_aliases(S):
    """Adding several aliases at once relates all of them to the same value, and later stores reach all of them."""
    m, model = start(S, shapes=SHAPES[:5])
    i = S.choice('group', range(len(model)))
    key = S.choice('name', model[i][0])
    n1, n2 = S.name('n1'), S.name('n2')
    for n in (n1, n2):
        for g, _ in model:
            for o in g:
                S.assume(n != o)
    S.assume(n1 != n2)
    m.alias(key, n1, n2)
    model = [(g + [n1, n2] if k == i else g, v) for k, (g, v) in enumerate(model)]
    holds(S, m, model, None, 'two aliases')
    v = Value('later')
    m[S.choice('through', [n1, n2, key])] = v
    model = [(g, v if k == i else w) for k, (g, w) in enumerate(model)]
    holds(S, m, model, None, 'storing through a new alias')


@contract('C11', 'copy', sym='shape', rand=(200, 1000), bound=BOUND, functions=[MOD + 'Mapping.copy', MOD + 'Mapping.__init__', MOD + 'MutableMapping.freeze'])
def copies(S):
    """Copies and frozen mappings keep the aliases and values, and later changes of either do not reach the other."""
    m, model = start(S)
    Mapping, Mutable = need('eprempy.aliased', 'Mapping'), need('eprempy.aliased', 'MutableMapping')
    how = S.choice('how', ['copy', 'Mapping', 'MutableMapping', 'freeze'])
    c = {'copy': lambda: m.copy(), 'Mapping': lambda: Mapping(m), 'MutableMapping': lambda: Mutable(m), 'freeze': lambda: m.freeze()}[how]()
    holds(S, c, model, None, how)
    S.ensure(c is not m and (c == m), 'a copy is another, equal mapping')
    key, v = S.name('key'), Value('new')
    act = S.choice('act', ['store', 'remove', 'alias'])
    first = S.choice('first', ['original', 'copy']) if how in ('copy', 'MutableMapping') else 'original'
    a, b = (m, c) if first == 'original' else (c, m)
    i = where(model, key)
    if act == 'store':
        a[key] = v
    elif act == 'remove':
        if i is None:
            raise Skip
        del a[key]
    else:
        if i is not None:
            raise Skip
        a.alias(model[0][0][0], key)
    holds(S, b, model, None, f'{how} after a change of the other')


@contract('C11', 'merge', sym='shape', rand=(300, 1500), max_paths=(8000, 20000), bound='merging mappings of up to three and two names; every pattern of shared names, any values', functions=[MOD + 'Mapping.__or__'])
def merge(S):
    """Merging keeps the aliases of both mappings, lets the later value win for all of them, and changes neither."""
    cls = S.choice('class', ['Mapping', 'MutableMapping'])
    m, model = start(S, 'a', SHAPES[:4] if S.symbolic else SHAPES, cls=cls)
    o, other = start(S, 'b', [(1,), (2,), (1, 1)] if S.symbolic else SHAPES, cls='Mapping')
    plain = S.coin('plain') if not S.symbolic else False
    if plain:
        o2 = {(tuple(g) if len(g) > 1 else g[0]): v for g, v in other}
    else:
        o2 = o
    r = m | o2
    expect = [(list(g), v) for g, v in model]
    for g, v in other:
        expect = put(expect, g, v)
    holds(S, r, expect, None, 'merging')
    S.ensure(type(r) is type(m), 'merging gives the same kind of mapping')
    holds(S, m, model, None, 'the first operand')
    holds(S, o, other, None, 'the second operand')
    if cls == 'MutableMapping':
        v = Value('later')
        r[model[0][0][0]] = v
        holds(S, m, model, None, 'the first operand after a change of the result')


@contract('C11', 'groups', sym='shape', rand=(300, 1500), max_paths=(6000, 20000), bound='collections of up to two groups and four names merged with one or two groups of up to two names; every pattern of shared names', functions=[MOD + 'Groups.' + n for n in ('update', 'merge', '_merge', 'get', '__getitem__', '__contains__', '__len__', 'flat')])
def groups(S):
    """Merging groups of aliases gives the smallest disjoint groups that hold all of them; each name finds its own group."""
    Groups, Group = need('eprempy.aliased', 'Groups'), need('eprempy.aliased', 'Group')
    _, model = start(S, 'a', SHAPES[:5] if S.symbolic else SHAPES)
    _, other = start(S, 'b', [(1,), (2,)] if S.symbolic else SHAPES)
    gs = Groups(*[tuple(g) for g, _ in model])
    os_ = [tuple(g) for g, _ in other]
    how = S.choice('how', ['update', 'update groups', 'merge', 'merge groups'])
    args = [Groups(*os_)] if 'groups' in how else os_
    if how.startswith('update'):
        gs.update(*args)
        r = gs
    else:
        r = gs.merge(*args)
        S.ensure(r is not gs and len(gs) == len(model) and len(gs.flat) == sum(len(g) for g, _ in model), 'merging leaves the original')
    expect = model
    for g, v in other:
        expect = put(expect, g, v)
    got = [list(g) for g in r]
    say = (lambda: (got, expect)) if not S.symbolic else None
    S.ensure(len(got) == len(expect) == len(r), 'disjoint groups', say)
    for g, _ in expect:
        own = [k for k in r if g[0] in k]
        S.ensure(len(own) == 1 and len(own[0]) == len(g) and all(n in own[0] for n in g), 'each group holds all its names', say)
    S.ensure(len(r.flat) == sum(len(g) for g, _ in expect), 'all names, once', say)


LETTERS = list('abcdefgh') + ['ab', 'long name', 'A']


@contract('C11', 'groups of texts', rand=(400, 3000), bound='random collections of groups over eleven names', functions=[MOD + 'Groups.' + n for n in ('get', '__getitem__', '__contains__', 'add', 'discard', 'without', 'merge')])
def groups_texts(S):
    """Lookup, adding, discarding and excluding act on exactly the group that holds the name."""
    Groups, Group = need('eprempy.aliased', 'Groups'), need('eprempy.aliased', 'Group')
    names = S.shuffled('names', LETTERS)
    model, k = [], 0
    while k < 8:
        n = S.choice('size', [1, 1, 2, 3])
        model.append((names[k:k + n], None))
        k += n
    gs = Groups(*[g[0] if len(g) == 1 else S.choice('type', [tuple, list])(g) for g, _ in model])
    for _ in range(S.choice('steps', [1, 2, 4])):
        key = S.choice('key', LETTERS)
        i = where(model, key)
        op = S.choice('op', ['get', 'add', 'discard', 'without', 'merge'])
        if op == 'get':
            S.ensure((key in gs) == (i is not None), 'membership', lambda: (key, gs))
            S.ensure((gs.get(key) is None) == (i is None), 'lookup', lambda: (key, gs))
            if i is not None:
                S.ensure(set(gs[key]) == set(gs.get(key)) == set(model[i][0]), 'the group of the name', lambda: (key, gs))
            else:
                S.ensure(isinstance(attempt(lambda: gs[key])[1], KeyError), 'unknown names are refused', lambda: (key, gs))
        elif op == 'add':
            new = [key] + ([S.choice('key2', LETTERS)] if S.coin('two') else [])
            clash = any(where(model, n) is not None for n in new)
            e = attempt(gs.add, tuple(new) if len(new) > 1 else S.choice('as', [key, (key,), [key]]))[1]
            S.ensure(isinstance(e, ValueError) if clash else e is None, 'a group is added unless a name of it is in use', lambda: (new, gs))
            if not clash:
                model = model + [(uniq(new), None)]
        elif op == 'discard':
            gs.discard(key)
            model = drop(model, key) if i is not None else model
        elif op == 'without':
            r = gs.without(key)
            S.ensure(sorted(map(sorted, r)) == sorted(sorted(g) for k, (g, _) in enumerate(model) if k != i), 'excluding the group of a name', lambda: (key, gs, r))
        else:
            new = [key] + ([S.choice('key2', LETTERS)] if S.coin('two') else [])
            gs = gs.merge(tuple(new) if len(new) > 1 else key)
            model = put(model, new, None)
        S.ensure(sorted(map(sorted, gs)) == sorted(sorted(g) for g, _ in model), f'groups after {op}', lambda: (gs, model))


@contract('C11', 'histories', rand=(300, 4000), bound='histories of up to 25 operations on mappings of texts', functions=MAP + MUT)
def histories(S):
    """After any history of storing, removing, aliasing, grouping, copying and merging, every alias reads the value last stored."""
    Mapping, Mutable = need('eprempy.aliased', 'Mapping'), need('eprempy.aliased', 'MutableMapping')
    m, model, kept = Mutable(), [], []
    names = LETTERS
    n = S.choice('steps', [3, 8, 25])
    for t in range(n):
        op = S.choice('op', ['store', 'store', 'several', 'remove', 'alias', 'copy', 'merge', 'or', 'ior', 'pop', 'popitem', 'freeze', 'dict value', 'clear' if t > 10 else 'store'])
        key = S.choice('key', names)
        i = where(model, key)
        v = Value(t)
        if op == 'store':
            m[key] = v
            model = put(model, [key], v)
        elif op == 'several':
            ks = [key, S.choice('k2', names), S.choice('k3', names)]
            m[tuple(ks)] = v
            model = put(model, uniq(ks), v)
        elif op == 'dict value':
            v = {'aliases': S.choice('k2', names), 'n': Value(t)}
            m[key] = v
            model = put(model, [key], v)
        elif op in ('remove', 'pop'):
            e = attempt(m.__delitem__ if op == 'remove' else m.pop, key)[1]
            S.ensure((e is None) == (i is not None), 'removing a known name only', lambda: (key, model))
            model = drop(model, key) if i is not None else model
        elif op == 'popitem':
            r, e = attempt(m.popitem)
            S.ensure((e is None) == bool(model), 'popitem', lambda: model)
            if e is None:
                j = where(model, r[0])
                S.ensure(j is not None and model[j][1] is r[1], 'popitem gives an item', lambda: (r, model))
                model = drop(model, r[0])
        elif op == 'clear':
            m.clear()
            model = []
        elif op == 'alias':
            new = S.choice('k2', names)
            j = where(model, new)
            e = attempt(m.alias, key, new)[1]
            if i is not None and j is None:
                S.ensure(e is None, 'a new alias', lambda: (key, new, model))
                model = put(model, [model[i][0][0], new], model[i][1])
            elif i is not None and j != i:
                S.ensure(isinstance(e, KeyError), 'an alias in use', lambda: (key, new, model))
        elif op in ('copy', 'freeze'):
            c = m.copy() if op == 'copy' else m.freeze()
            kept.append((c, list(model), op))
            if op == 'copy' and S.coin('switch'):
                kept.append((m, list(model), 'the original of a copy'))
                kept = [k for k in kept if k[0] is not c]
                m = c
        else:
            ks = uniq([key, S.choice('k2', names), S.choice('k3', names)])
            o = {tuple(ks[:2]): Value((t, 0))}
            if len(ks) > 2:
                o[ks[2]] = Value((t, 1))
            src = o if S.coin('plain') or op == 'ior' else Mapping(o)
            if op == 'merge' and kept:
                other, om, _ = kept[-1]
                src, o = other, {tuple(g): v for k in other.keys(aliased=True) for g, v in om if g[0] in k}  # in the order it reports
            kept.append((m, list(model), 'the operand of a merge'))
            m = m | src
            for k, w in o.items():
                model = put(model, k if isinstance(k, tuple) else [k], w)
        holds(S, m, model, None, op)
        for c, was, label in kept:
            holds(S, c, was, None, f'{label}, later')
        kept = kept[-3:]
        m2 = {k: v for k, v in m.items()}
        S.ensure(m == m2 and not (m != m2), 'equality with the plain dictionary')


@contract('C11', 'groups of items', rand=(200, 1500), bound='random groups of items of mappings of texts', functions=[MOD + 'MutableMapping.' + n for n in ('group', 'freeze', '__getitem__', '__setitem__', 'alias')])
def item_groups(S):
    """The name of a group of items reads the current values of those items, is never also a key, and freezing keeps the aliases."""
    Mutable = need('eprempy.aliased', 'MutableMapping')
    names = S.shuffled('names', LETTERS)
    model = [(names[:2], Value(0)), (names[2:3], Value(1)), (names[3:6], Value(2))]
    m = Mutable({(tuple(g) if len(g) > 1 else g[0]): v for g, v in model})
    flat = names[:6]
    members = [S.choice('member', flat) for _ in range(S.choice('n', [1, 2, 3]))]
    m.group('G', *members)
    S.ensure(m.group('G') == tuple(members), 'the members of the group')
    S.ensure(isinstance(attempt(m.group, flat[0], 'G')[1], ValueError), 'a key is not the name of a group')
    S.ensure(isinstance(attempt(m.group, 'H')[1], KeyError), 'an unknown group is refused')
    for _ in range(3):
        op = S.choice('op', ['store', 'assign', 'alias', 'together'])
        v = Value('new')
        if op == 'store':
            k = S.choice('key', flat)
            m[k] = v
            model = put(model, [k], v)
        elif op == 'assign':
            S.ensure(attempt(m.__setitem__, 'G', v)[1] is not None, 'the name of a group is not a key')
        elif op == 'together':
            S.ensure(attempt(m.__setitem__, ('G', flat[0]), v)[1] is not None, 'the name of a group is not a key')
        else:
            S.ensure(attempt(m.alias, flat[0], 'G')[1] is not None, 'the name of a group is not an alias')
        want = tuple(model[where(model, k)][1] for k in members)
        S.ensure(tuple(m['G']) == want, 'the group reads the current values', lambda: (m['G'], want))
        holds(S, m, model, None, op)
    f = m.freeze(groups=True)
    holds(S, f, model + [(['G'], f['G'])], None, 'frozen with groups')
    S.ensure(tuple(f['G']) == want, 'a frozen group holds the values')
    holds(S, m.freeze(), model, 'G', 'frozen without groups')
    m[members[0]] = Value('after')
    S.ensure(tuple(f['G']) == want, 'a frozen group does not change')


@contract('C11', 'declared aliases', rand=(300, 2000), bound='random definitions over eleven names', functions=[MOD + n for n in ('keysfrom', '_build_mapping', '_build_from_key', 'Mapping.__init__', 'Mapping.fromkeys', 'Mapping.squeeze')])
def declared(S):
    """Aliases declared inside the values, by groups, by another mapping or by a plain mapping relate the same names; squeezing keeps them."""
    a = need('eprempy', 'aliased')
    names = S.shuffled('names', LETTERS)
    n = S.choice('n', [1, 2, 3])
    keys = names[:n]
    pool = names[n:] if S.coin('disjoint') else names
    extra, k = [], 0
    for i in range(n):
        size = S.choice('size', [0, 1, 1, 2])
        if pool is names:
            extra.append([S.choice('extra', names) for _ in range(size)])
        else:
            extra.append(pool[k:k + size])
            k += size
    vals = [Value(i) for i in range(n)]
    model = []
    for key, more, v in zip(keys, extra, vals):
        model = put(model, uniq([key] + more), v)
    how = S.choice('how', ['inside', 'other key', 'mapping', 'tuple keys', 'fromkeys', 'fromkeys groups'] + (['groups', 'aliased'] if pool is not names else []))
    shape = lambda more, i: (more[0] if len(more) == 1 and S.coin(f'bare {i}') else S.choice(f'type {i}', [tuple, list])(more))
    cls = S.choice('class', [a.Mapping, a.MutableMapping])
    if how in ('inside', 'other key'):
        word = 'aliases' if how == 'inside' else 'foo'
        d = {k: ({word: shape(more, i)} if more or S.coin('empty') else {}) | {'n': v} for i, (k, more, v) in enumerate(zip(keys, extra, vals))}
        m = cls(d) if how == 'inside' and S.coin('implied') and any(word in x for x in d.values()) else cls(d, aliases=word)
        flat = {k: m[k] for k in m}
        S.ensure(all(set(x) == {'n'} for x in flat.values()), 'the declaration is not part of the value', lambda: (d, m))
        for g, v in model:
            for nm in g:
                S.ensure(nm in m and m[nm]['n'] is v, 'declared aliases read the value', lambda: (d, nm, m))
        S.ensure(len(m) == sum(len(g) for g, _ in model) and len(m.keys(aliased=True)) == len(model), 'declared aliases and no more', lambda: (d, m))
        c = m.copy().squeeze()
        holds(S, c, model, None, 'squeezed')
        S.ensure(all(m[nm]['n'] is v for g, v in model for nm in g), 'squeezing a copy leaves the original')
        f = cls.fromkeys(d, key=word, value=7)
        S.ensure(sorted(f) == sorted(m) and all(x == 7 for x in f.values()) and len(f.keys(aliased=True)) == len(model), 'fromkeys keeps the names', lambda: (d, f))
        return
    base = dict(zip(keys, vals))
    if how == 'mapping':
        if pool is names:
            raise Skip
        m = cls(base, aliases={k: shape(more, i) if more else [] for i, (k, more) in enumerate(zip(keys, extra))})
    elif how == 'groups':
        m = cls(base, aliases=a.Groups(*[[k] + more for k, more in zip(keys, extra)]))
    elif how == 'aliased':
        m = cls(base, aliases=a.Mapping({tuple([k] + more): None for k, more in zip(keys, extra)}))
    elif how == 'tuple keys':
        m = cls({tuple([k] + more) if more else k: v for k, more, v in zip(keys, extra, vals)})
    else:
        gs = [tuple([k] + more) for k, more in zip(keys, extra)]
        if how == 'fromkeys groups':
            if pool is names:
                raise Skip
            gs = a.Groups(*gs)
        m = cls.fromkeys(gs, value=vals[0])
        holds(S, m, [(g, vals[0]) for g, _ in model], None, how)
        return
    holds(S, m, model, None, how)


@contract('C11', 'names', rand=(200, 1500), bound='random alias definitions over eleven names', functions=[MOD + 'NameMap.' + n for n in ('__init__', '__getitem__', '__contains__', '__len__', '__iter__', 'copy')])
def namemap(S):
    """A name map gives every alias its canonical name and refuses unknown names."""
    a = need('eprempy', 'aliased')
    names = S.shuffled('names', LETTERS)
    n = S.choice('n', [1, 2, 3])
    keys, rest = names[:n], names[n:]
    extra, k = [], 0
    for i in range(n):
        size = S.choice('size', [0, 1, 2])
        extra.append(rest[k:k + size])
        k += size
    how = S.choice('how', ['mapping', 'interior', 'iterable', 'other key'])
    if how == 'mapping':
        m = a.NameMap({k: tuple(more) if S.coin('own') else tuple([k] + more) for k, more in zip(keys, extra)})
    elif how in ('interior', 'other key'):
        word = 'aliases' if how == 'interior' else 'foo'
        d = {k: {word: tuple(more), 'n': 1} for k, more in zip(keys, extra)}
        m = a.NameMap(d) if how == 'interior' else a.NameMap(d, key=word)
    else:
        m = a.NameMap([S.shuffled('order', [k] + more) for k, more in zip(keys, extra)], refs=keys if S.coin('list') else {k: 1 for k in keys})
    c = m.copy()
    for x in (m, c):
        S.ensure(sorted(x) == sorted(nm for k, more in zip(keys, extra) for nm in [k] + more) and len(x) == len(list(x)), 'all names, once', lambda: (keys, extra, list(x)))
        own = {nm: k for k, more in zip(keys, extra) for nm in [k] + more}
        S.ensure(sorted(x.keys()) == sorted(own) and dict(x.items()) == own and dict(zip(x.keys(), x.values())) == own and x == own, 'the views hold every alias with its name', lambda: (own, x))
        S.ensure(len(x.keys()) == len(x.values()) == len(x.items()) == len(own), 'the views count every alias')
        S.ensure(sorted(sorted(g) for g in x.keys(aliased=True)) == sorted(sorted([k] + more) for k, more in zip(keys, extra)) and sorted(x.values(aliased=True)) == sorted(keys), 'the views of groups', lambda: x)
        S.ensure(all(k in g for g, k in x.items(aliased=True)), 'each group holds its name', lambda: x)
        for k, more in zip(keys, extra):
            for nm in [k] + more:
                S.ensure(nm in x and x[nm] == k, 'every alias has its canonical name', lambda: (nm, k, x))
        for nm in rest:
            if not any(nm in more for more in extra):
                S.ensure(isinstance(attempt(lambda: x[nm])[1], KeyError) and nm not in x, 'unknown names are refused', lambda: (nm, x))


@contract('C11', 'squeeze', rand=(300, 2000), bound='random definitions over eleven names', functions=[MOD + 'Mapping.squeeze'])
def squeeze(S):
    """Squeezing replaces interior mappings of one item by their values for every alias; asked to be strict, it refuses differing interior names."""
    a = need('eprempy', 'aliased')
    names = S.shuffled('names', LETTERS)
    model, k = [], 0
    for i in range(S.choice('n', [1, 2, 3])):
        size = S.choice('size', [1, 2, 3])
        model.append((names[k:k + size], Value(i)))
        k += size
    inner = [S.choice('inner', ['u', 'v'] if i else ['u']) for i in range(len(model))]
    more = [S.choice('more', [0, 0, 0, 0, 1]) for _ in model]
    strict = S.coin('strict')
    cls = S.choice('class', [a.Mapping, a.MutableMapping])
    d = {(tuple(g) if len(g) > 1 else g[0]): {x: v} | ({'w': 3} if m else {}) for (g, v), x, m in zip(model, inner, more)}
    m = cls(d)
    before = [(g, m[g[0]]) for g, _ in model]
    r, e = attempt(lambda: m.squeeze(strict=strict) if strict or S.coin('say') else m.squeeze())
    say = lambda: (d, strict, r, e)
    if any(more):
        S.ensure(e is None and len(r) == len(m), 'interior mappings of more than one item', say)
        holds(S, r, before, None, 'not squeezed')
    elif strict and len(set(inner)) > 1:
        S.ensure(isinstance(e, TypeError), 'differing interior names are refused', say)
        holds(S, m, before, None, 'refused')
    else:
        S.ensure(e is None, 'squeezed', say)
        holds(S, r, model, None, 'squeezed')


@contract('C11', 'group sets', rand=(400, 3000), bound='random groups of up to five of eleven names', functions=[MOD + 'Group.' + n for n in ('__init__', 'supports', '_from_iterable', '__iter__', '__len__', '__contains__', '__hash__', '__bool__', '__eq__', '__and__', '__or__', '__sub__', '__xor__', 'isdisjoint')])
def group_sets(S):
    """A group is the set of its names: equal groups are one key of a dictionary, and operators combine the names of groups, names and collections of names."""
    Group = need('eprempy.aliased', 'Group')
    draw = lambda tag: [n for n in S.shuffled(tag, LETTERS)[:S.choice('n ' + tag, [1, 1, 2, 3, 5])]]
    x, y = draw('x'), draw('y')
    if S.coin('same'):
        y = S.shuffled('again', x)
    form = S.choice('form', ['members', 'list', 'tuple', 'set', 'repeated'])
    g = {'members': lambda: Group(*x), 'list': lambda: Group(list(x)), 'tuple': lambda: Group(tuple(x)), 'set': lambda: Group(set(x)), 'repeated': lambda: Group(*(x + x[:1]))}[form]()
    h = Group(y)
    a, b = set(x), set(y)
    S.ensure(sorted(g) == sorted(a) and len(g) == len(a) and bool(g) and all((n in g) == (n in a) for n in LETTERS), 'a group holds its names', lambda: (x, g))
    S.ensure((g == h) == (a == b) and (g != h) == (a != b), 'groups are equal exactly if they hold the same names', lambda: (x, y))
    if a == b:
        S.ensure(hash(g) == hash(h) and {g: 1}[h] == 1 and len({g, h}) == 1, 'equal groups are one key', lambda: (x, y, hash(g), hash(h)))
    else:
        S.ensure(len({g, h}) == 2 and h not in {g: 1}, 'different groups are different keys', lambda: (x, y))
    S.ensure((g <= h, g < h, g >= h, g > h) == (a <= b, a < b, a >= b, a > b), 'orders of groups', lambda: (x, y))
    other = S.choice('other', ['group', 'list', 'tuple', 'name'])
    if other == 'name':
        y = y[:1]
        b = set(y)
    o = {'group': Group(y), 'list': list(y), 'tuple': tuple(y), 'name': y[0]}[other]
    S.ensure((g == o) == (a == b), 'a group compared with its names', lambda: (x, o))
    S.ensure(g.isdisjoint(o) == a.isdisjoint(b), 'disjoint groups', lambda: (x, o))
    import operator as op
    for f in (op.and_, op.or_, op.sub, op.xor):
        want = f(a, b)
        r, e = attempt(f, g, o)
        if want:
            S.ensure(e is None and isinstance(r, Group) and set(r) == want, f'{f.__name__} of groups', lambda: (x, o, r, repr(e)))
        else:
            S.ensure(e is not None or not list(r), f'{f.__name__} of groups leaves nothing', lambda: (x, o, r))
    S.ensure(sorted(g) == sorted(a), 'the group is unchanged')
    S.ensure(attempt(Group)[1] is not None, 'a group has a name')
    S.ensure(all(Group.supports(k) for k in (x[0], list(x), tuple(x), set(x), g)) and not Group.supports([[x[0]], [x[0]]]), 'names and collections of names make a group')
