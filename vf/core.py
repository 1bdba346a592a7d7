"""Contracts, the concrete interpretation of a contract, and the registry."""
import fractions
import hashlib
import json
import math
import numbers
import os
import random
import sys
import traceback


class Violated(Exception):
    """A postcondition is false on concrete inputs."""


class Skip(Exception):
    """The concrete inputs do not satisfy the precondition."""


class SymbolicOnly(Skip):
    """The contract replaces a callee by its contract, so there is nothing to run on concrete inputs."""


class Unsupported(Exception):
    """The contract cannot be stated on this tree (e.g. a private name moved)."""


REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, **kw):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.clause = kw.get('clause') or (fn.__doc__ or '').strip()
        self.functions = kw.get('functions', [])
        # how the contract is decided symbolically:
        #  'proof'  for all inputs, no bound
        #  'shape'  for all numeric values, on the stated finite set of shapes
        #  None     not run symbolically
        self.sym = kw.get('sym')
        self.bound = kw.get('bound')
        # exhaustive enumeration of a finite domain
        self.cases = kw.get('cases')
        # sampled contract evaluation on the uninstrumented code
        self.rand = kw.get('rand', (0, 0))
        self.max_paths = kw.get('max_paths', (3000, 20000))
        self.timeout_ms = kw.get('timeout_ms', (4000, 20000))
        self.trusted = kw.get('trusted', [])
        self.finite_is_proof = kw.get('finite_is_proof', True)
        self.sym_time = kw.get('sym_time', (200, 700))
        self.rand_time = kw.get('rand_time', (120, 600))


def contract(prop, name, **kw):
    def wrap(fn):
        c = Contract(prop, name, fn, **kw)
        REGISTRY.setdefault(prop, {})[name] = c
        return fn
    return wrap


def load(prop):
    import importlib
    importlib.import_module(f'vf.checks.{prop.lower()}')
    return REGISTRY[prop]


def close(a, b, tol=1e-9):
    """Equality of numbers up to rounding."""
    import numpy
    try:
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a == b)
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return bool(numpy.all(a == b))
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b))


class Concrete:
    """A contract run on concrete values: sampled, replayed or enumerated."""

    symbolic = False

    def __init__(self, rng=None, script=None, model=None, choices=None, big=False):
        self.rng = rng
        self.script = list(script) if script is not None else None
        self.model = model
        self.choices_in = choices or {}
        self.drawn = []
        self.labels = 0
        self.big = big
        self._undo = []

    # drawing -------------------------------------------------------------
    def _draw(self, kind, name, make):
        if self.script is not None:
            k, n, v = self.script.pop(0)
            if k == 'real':
                v = float(v)
            self.drawn.append((k, n, v))
            return v
        v = make()
        self.drawn.append((kind, name, v))
        return v

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False, simple=False, **kw):
        def make():
            if self.model is not None and name in self.model:
                return float(self.model[name])
            r = self.rng
            for _ in range(100):
                k = r.random()
                if lo is not None and hi is not None:
                    v = r.uniform(float(lo), float(hi)) if k < .8 else r.choice([float(lo), float(hi)])
                elif k < .35:
                    v = float(r.randint(-9, 9))
                elif k < .7 or simple:
                    v = round(r.uniform(-10, 10), 3)
                elif k < .9:
                    v = r.uniform(-1, 1) * 10 ** r.randint(-6, 6)
                else:
                    v = r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
                if positive:
                    v = abs(v)
                if lo is not None and v < lo:
                    v = float(lo) + abs(v)
                if hi is not None and v > hi:
                    v = float(hi) - abs(v)
                if (nonzero or positive) and v == 0:
                    continue
                return v
            return 1.0
        return self._draw('real', name, make)

    def int(self, name, lo=None, hi=None, **kw):
        def make():
            if self.model is not None and name in self.model:
                return int(self.model[name])
            a = -12 if lo is None else int(lo)
            b = (a + 24) if hi is None else int(hi)
            return self.rng.randint(a, b)
        return self._draw('int', name, make)

    def pos(self, name, **kw):
        def make():
            if self.model is not None and name in self.model:
                return float(self.model[name])
            return math.exp(self.rng.uniform(-5, 5))
        return self._draw('real', name, make)

    def key(self, name):
        def make():
            if self.model is not None and name in self.model:
                return self.model[name]
            return self.rng.choice(['a', 'b', 'c', 'ab', 'ba', 'abc'])
        return self._draw('key', name, make)

    name = key

    def choice(self, name, options, **kw):
        options = list(options)

        def make():
            if self.model is not None and name in self.choices_in:
                return self.choices_in[name]
            return self.rng.randrange(len(options))
        return options[self._draw('choice', name, make)]

    def coin(self, name):
        return self.choice(name, [False, True])

    def shuffled(self, name, xs):
        xs = list(xs)

        def make():
            p = list(range(len(xs)))
            self.rng.shuffle(p)
            return p
        return [xs[i] for i in self._draw('perm', name, make)]

    # clauses ---------------------------------------------------------------
    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def ensure(self, cond, label='', detail=None):
        self.labels += 1
        if not bool(cond):
            raise Violated(f"{label}" + (f": {detail()}" if callable(detail) else f": {detail}" if detail else ''))
        return True

    def eq(self, a, b, tol=1e-9):
        return close(a, b, tol)

    def alleq(self, xs, ys, tol=1e-9):
        from .sym import flat
        xs, ys = flat(xs), flat(ys)
        if len(xs) != len(ys):
            return False
        m = max([abs(float(x)) for x in list(xs) + list(ys)
                 if isinstance(x, numbers.Real) and not math.isnan(float(x)) and not math.isinf(float(x))] or [0.0])
        return all(close(x, y, tol) for x, y in zip(xs, ys))

    def both(self, *conds):
        return all(bool(c) for c in conds)

    def either(self, *conds):
        return any(bool(c) for c in conds)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def patch(self, obj, name, value):
        pass

    def lemma(self, cond, label, by=None, over=()):
        pass

    def close(self):
        pass


def attempt(f, *a, **k):
    """(result, None) or (None, exception)."""
    sym = sys.modules.get('vf.sym')
    cur = sym.CUR if sym else None
    try:
        return f(*a, **k), None
    except Exception as e:  # noqa
        if cur is not None:
            if isinstance(e, sym.Unsupported):
                raise
            if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
                cur.caught.append(type(e).__name__)
        return None, e


def need(module, path):
    """Resolve a non-public name; Unsupported if the tree does not have it."""
    import importlib
    obj = importlib.import_module(module)
    for part in path.split('.'):
        try:
            obj = getattr(obj, part)
        except AttributeError:
            raise Unsupported(f"{module}.{path} does not exist")
    return obj


def seed_of(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)
