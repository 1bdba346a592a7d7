"""Symbolic values for generating verification conditions from real Python code.

The code under contract is executed by CPython itself, on proxies whose
operations build z3 terms.  Every use of a symbolic truth value is a branch
point: the driver (`explore`) re-runs the contract once per feasible path, so
the set of obligations collected over all paths is the set of verification
conditions of the function for *all* values of its symbolic inputs.

Numbers are mathematical reals and integers (not IEEE doubles / machine ints).
"""
import builtins
import fractions
import math
import numbers
import time

import z3


class Unsupported(Exception):
    """The code did something the proxies cannot represent: no verdict."""

    def __init__(self, *args):
        super().__init__(*args)
        if CUR is not None:
            CUR.tainted = True  # even if the code under contract swallows this


class PathEnd(BaseException):
    """A postcondition that is plainly false ends its path."""


class Infeasible(BaseException):
    """The current path condition is unsatisfiable."""


class PathLimit(Exception):
    """Too many paths: the obligation is left undecided."""


CUR = None  # the session that owns the path being executed


def _cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside a symbolic session")
    return CUR


def toz3(x):
    """z3 arithmetic term for a number or proxy (None if not a number)."""
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, numbers.Real):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return None
        r = fractions.Fraction(f)
        return z3.RealVal(f"{r.numerator}/{r.denominator}")
    return None


def _real(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def _wrap(z):
    z = z3.simplify(z)
    return SymInt(z) if z.sort() == z3.IntSort() else SymReal(z)


def concrete(z):
    """The Python value of a constant z3 arithmetic term, else None."""
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return fractions.Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return _cur().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return SymBool(self.z == tobool(o))

    def __ne__(self, o):
        return SymBool(self.z != tobool(o))

    def __hash__(self):
        return 0

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return f"<{self.z}>"


def tobool(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
UF = {}


def uf(name, n=1):
    key = (name, n)
    if key not in UF:
        UF[key] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return UF[key]


class SymNum:
    """Base of the numeric proxies."""
    ndim = 0  # as numpy numbers have

    __slots__ = ('z',)
    __array_priority__ = -1000.0

    def __init__(self, z):
        self.z = z

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f):
        t = toz3(o)
        if t is None:
            return NotImplemented
        a, b = self.z, t
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return _wrap(f(a, b))

    def _rbin(self, o, f):
        t = toz3(o)
        if t is None:
            return NotImplemented
        a, b = t, self.z
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return _wrap(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)

    def __truediv__(self, o): return _div(self, o)
    def __rtruediv__(self, o): return _div(o, self)

    def __floordiv__(self, o): return _floordiv(self, o)
    def __rfloordiv__(self, o): return _floordiv(o, self)
    def __mod__(self, o): return _mod(self, o)
    def __rmod__(self, o): return _mod(o, self)
    def __pow__(self, o): return _pow(self, o)
    def __rpow__(self, o): return 1 if (not issym(o) and o == 1) else _pow(o, self)
    def __neg__(self): return _wrap(-self.z)
    def __pos__(self): return self
    def __abs__(self): return _wrap(z3.If(self.z >= 0, self.z, -self.z))

    def conjugate(self): return self

    # comparison -----------------------------------------------------------
    def _cmp(self, o, f):
        t = toz3(o)
        if t is None:
            return NotImplemented
        a, b = self.z, t
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return SymBool(f(a, b))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return _cur().branch(self.z != 0)

    # conversions ----------------------------------------------------------
    def __float__(self):
        c = concrete(self.z)
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic number by C code")

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return f"<{self.z}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # what numpy calls on elements of object arrays ---------------------------
    def sqrt(self):
        cur = _cur()
        x = z3.simplify(_real(self.z), som=True)
        if x.get_id() in cur.roots:  # one root of one number
            return SymReal(cur.roots[x.get_id()][1])
        r = cur.fresh_real('sqrt')
        cur.roots[x.get_id()] = x, r
        cur.assume_z(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return SymReal(r)

    def _fn(self, name): return SymReal(uf(name)(_real(self.z)))
    def sin(self): return self._fn('sin')
    def cos(self): return self._fn('cos')
    def tan(self): return self._fn('tan')
    def arcsin(self): return self._fn('arcsin')

    def arccos(self):
        x, r = _real(self.z), uf('arccos')(_real(self.z))
        # what makes it the inverse of the cosine on [-1, 1]
        _cur().assume_z(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= z3.Q(355, 113), uf('cos')(r) == x)))
        return SymReal(r)
    def arctan(self): return self._fn('arctan')
    def log(self): return self._fn('log')
    def log10(self): return self._fn('log10')
    def log2(self): return self._fn('log2')
    def log1p(self): return self._fn('log1p')
    def exp(self): return self._fn('exp')
    def arctan2(self, o): return SymReal(uf('arctan2', 2)(_real(self.z), _real(toz3(o))))

    @property
    def real(self): return self

    @property
    def imag(self): return 0


class SymReal(SymNum):
    __slots__ = ()

    def __init__(self, z):
        super().__init__(_real(z))

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    def __int__(self):
        raise Unsupported("int() of a symbolic real by C code")

    def __trunc__(self):
        z = self.z
        return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))

    def __round__(self, nd=None):
        if nd is None:
            return SymInt(z3.ToInt(uf('round')(self.z)))
        return SymReal(uf('roundn', 2)(self.z, _real(toz3(nd))))

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return _cur().concretize(self.z)

    def __int__(self):
        return _cur().concretize(self.z)

    def __trunc__(self): return self
    def __round__(self, nd=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def _div(a, b):
    x, y = toz3(a), toz3(b)
    if x is None or y is None:
        return NotImplemented
    x, y = _real(x), _real(y)
    if _cur().branch(y == 0):
        raise ZeroDivisionError("division by zero")
    return SymReal(z3.simplify(x / y))


def _floordiv(a, b):
    x, y = toz3(a), toz3(b)
    if x is None or y is None:
        return NotImplemented
    if _cur().branch(y == 0):
        raise ZeroDivisionError("division by zero")
    if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
        # Python floors; z3's div rounds toward -inf for y>0, else ceil
        q = z3.ToInt(_real(x) / _real(y))
        return SymInt(q)
    return SymReal(z3.ToReal(z3.ToInt(_real(x) / _real(y))))


def _mod(a, b):
    q = _floordiv(a, b)
    if q is NotImplemented:
        return q
    return a - b * q


def _pow(a, b):
    x, y = toz3(a), toz3(b)
    if x is None or y is None:
        return NotImplemented
    e = concrete(y)
    if e is not None and fractions.Fraction(e).denominator == 1 and abs(e) <= 12:
        n = int(e)
        isint = x.sort() == z3.IntSort() and n >= 0 and isinstance(b, numbers.Integral)
        base = x if isint else _real(x)
        r = z3.IntVal(1) if isint else z3.RealVal(1)
        for _ in range(abs(n)):
            r = r * base
        if n < 0:
            if _cur().branch(base == 0):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            r = 1 / r
        return _wrap(r)
    x, y = _real(x), _real(y)
    if e is not None:
        f = fractions.Fraction(e).limit_denominator(12)
        if abs(float(f) - float(e)) < 1e-12:
            # r = x**(p/q), x > 0:  r > 0 and r**q == x**p
            s = _cur()
            r = s.fresh_real('pow')
            lhs, rhs = z3.RealVal(1), z3.RealVal(1)
            for _ in range(f.denominator):
                lhs = lhs * r
            for _ in range(abs(f.numerator)):
                rhs = rhs * x
            if f.numerator < 0:
                s.assume_z(z3.Implies(x > 0, z3.And(r > 0, lhs * rhs == 1)))
            else:
                s.assume_z(z3.Implies(x > 0, z3.And(r > 0, lhs == rhs)))
            return SymReal(r)
    return SymReal(POW(x, y))


class SymPos:
    """A positive real held by its logarithm.

    (R>0, x, **) is isomorphic to (R, +, *): products become sums and powers
    become multiples, so laws with *symbolic exponents* become polynomial.
    """
    __slots__ = ('l',)


    def __init__(self, l):
        self.l = z3.simplify(l)

    @staticmethod
    def _log(o):
        if isinstance(o, SymPos):
            return o.l
        if isinstance(o, numbers.Real) and not isinstance(o, SymNum):
            if o == 1:
                return z3.RealVal(0)
            if o > 0:
                return uf('ln')(_real(toz3(o)))
        return None

    def _op(self, o, f):
        l = self._log(o)
        if l is None:
            return NotImplemented
        return SymPos(f(self.l, l))

    def __mul__(self, o): return self._op(o, lambda a, b: a + b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._op(o, lambda a, b: a - b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: b - a)

    def __pow__(self, e):
        t = toz3(e)
        if t is None:
            return NotImplemented
        return SymPos(self.l * _real(t))

    def __eq__(self, o):
        l = self._log(o)
        if l is None:
            if isinstance(o, numbers.Real) and not isinstance(o, SymNum):
                return False
            return NotImplemented
        return SymBool(self.l == l)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def _cmp(self, o, f):
        l = self._log(o)
        if l is not None:
            return SymBool(f(self.l, l))
        return NotImplemented

    def __gt__(self, o):
        if not isinstance(o, (SymPos, SymNum)) and isinstance(o, numbers.Real) and o <= 0:
            return True
        return self._cmp(o, lambda a, b: a > b)

    def __lt__(self, o):
        if not isinstance(o, (SymPos, SymNum)) and isinstance(o, numbers.Real) and o <= 0:
            return False
        return self._cmp(o, lambda a, b: a < b)

    def __ge__(self, o):
        if not isinstance(o, (SymPos, SymNum)) and isinstance(o, numbers.Real) and o <= 0:
            return True
        return self._cmp(o, lambda a, b: a >= b)

    def __le__(self, o):
        if not isinstance(o, (SymPos, SymNum)) and isinstance(o, numbers.Real) and o <= 0:
            return False
        return self._cmp(o, lambda a, b: a <= b)

    def __hash__(self): return 0
    def __bool__(self): return True
    def __abs__(self): return self
    def __pos__(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def __float__(self): raise Unsupported("float() of a symbolic factor by C code")
    def __repr__(self): return f"<exp {self.l}>"
    __str__ = __repr__
    def __format__(self, spec): return repr(self)


numbers.Real.register(SymPos)


class SymKey:
    """An arbitrary hashable key: only (in)equality is observable."""
    SORT = z3.DeclareSort('Key')
    __slots__ = ('z', 'name')

    def __init__(self, z, name):
        self.z = z
        self.name = name

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.z == o.z)
        return False

    def __ne__(self, o):
        if isinstance(o, SymKey):
            return SymBool(self.z != o.z)
        return True

    def __repr__(self):
        return f"<key {self.name}>"


class SymStr(str):
    """An arbitrary name: a text of which only (in)equality with other arbitrary names is observable."""

    def __new__(cls, z, name):
        self = str.__new__(cls, f'<name {name}>')
        self.z, self.name = z, name
        return self

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(self.z == o.z)
        return False

    def __ne__(self, o):
        if isinstance(o, SymStr):
            return SymBool(self.z != o.z)
        return True

    def __str__(self):
        return self     # also for `str(name)`

    def _no(self, *a, **k):
        raise Unsupported('the characters of an arbitrary name')

    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __mod__ = __getitem__ = __contains__ = __iter__ = _no
    startswith = endswith = lower = upper = strip = lstrip = rstrip = split = replace = join = encode = find = index = _no


class Session:
    """One run of a contract along one path (symbolic mode)."""

    symbolic = True

    def __init__(self, prefix, timeout_ms):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.pending = []
        self.inputs = {}
        self.choices = {}
        self.obligations = []
        self.tainted = False
        self.caught = []
        self.counter = 0
        self.roots = {}
        self.known = {}
        self.solver_s = 0.0
        self._undo = []

    # path machinery ---------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self.decide([(True, z), (False, z3.Not(z))])

    def decide(self, options):
        """Choose one of `options` = [(value, condition)], exploring all."""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            live = [
                k for k, (_, c) in enumerate(options)
                if self._check(c) != z3.unsat
            ]
            if not live:
                raise Infeasible
            k = live[0]
            for alt in live[1:]:
                self.pending.append(tuple(self.trace) + (alt,))
        self.trace.append(k)
        value, cond = options[k]
        self.solver.add(cond)
        return value

    def concretize(self, z, limit=64):
        c = concrete(z)
        if c is not None:
            return int(c)
        # enumerate feasible values (deterministic for a given path)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.solver.add(z == v)
            return v
        values = []
        self.solver.push()
        while len(values) <= limit:
            r = self._check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                self.solver.pop()
                raise Unsupported("cannot enumerate values of a symbolic index")
            v = self.solver.model().eval(z, model_completion=True).as_long()
            values.append(v)
            self.solver.add(z != v)
        self.solver.pop()
        if len(values) > limit:
            raise Unsupported("symbolic integer used as a concrete index is unbounded")
        if not values:
            raise Infeasible
        values.sort()
        for alt in values[1:]:
            self.pending.append(tuple(self.trace) + (alt,))
        self.trace.append(values[0])
        self.solver.add(z == values[0])
        return values[0]

    def assume_z(self, z):
        self.solver.add(z)

    def fresh_real(self, hint):
        self.counter += 1
        return z3.Real(f"{hint}!{self.counter}")

    # inputs -------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, nonzero=False, positive=False, **kw):
        z = z3.Real(name)
        self.inputs[name] = ('real', z)
        if lo is not None:
            self.solver.add(z >= toz3(lo))
        if hi is not None:
            self.solver.add(z <= toz3(hi))
        if positive:
            self.solver.add(z > 0)
        if nonzero:
            self.solver.add(z != 0)
        return SymReal(z)

    def int(self, name, lo=None, hi=None, **kw):
        z = z3.Int(name)
        self.inputs[name] = ('int', z)
        if lo is not None:
            self.solver.add(z >= toz3(lo))
        if hi is not None:
            self.solver.add(z <= toz3(hi))
        return SymInt(z)

    def pos(self, name, **kw):
        z = z3.Real('ln_' + name)
        self.inputs[name] = ('pos', z)
        return SymPos(z)

    def key(self, name):
        z = z3.Const(name, SymKey.SORT)
        self.inputs[name] = ('key', z)
        return SymKey(z, name)

    def name(self, name):
        z = z3.Const(name, SymKey.SORT)
        self.inputs[name] = ('key', z)
        return SymStr(z, name)

    def choice(self, name, options, **kw):
        options = list(options)
        v = self.decide([(k, z3.BoolVal(True)) for k in range(len(options))])
        self.choices[name] = v
        return options[v]

    def coin(self, name):
        return self.choice(name, [False, True])

    # contract clauses -----------------------------------------------------------
    def assume(self, cond):
        """A precondition."""
        z = tobool(cond)
        self.solver.add(z)
        if self._check() == z3.unsat:
            raise Infeasible

    def ensure(self, cond, label="", detail=None):
        """A postcondition: one verification condition on this path."""
        z = z3.simplify(tobool(cond))
        t0 = time.time()
        status, model, backend = 'discharged', None, 'z3'
        if z3.is_true(z):
            backend = 'simplifier'
        else:
            r = self.solver.check(z3.Not(z))
            if r == z3.sat:
                status = 'refuted'
                model = self._model(self.solver.model())
            elif r == z3.unknown:
                r, m = self._second(z)
                backend = 'z3-nlsat'
                if r == z3.sat:
                    status, model = 'refuted', self._model(m)
                elif r == z3.unknown:
                    status = 'undecided'
        dt = time.time() - t0
        self.solver_s += dt
        if status == 'refuted' and self.tainted:
            status = 'undecided'
        self.obligations.append(dict(
            label=label, status=status, backend=backend, model=model, suspect=bool(self.caught),
            choices=dict(self.choices), path=list(self.trace), time=dt,
            vc=str(z)[:400] if status != 'discharged' else None,
        ))
        if z3.is_false(z):
            raise PathEnd()
        return status == 'discharged'

    def _second(self, z):
        try:
            s = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat').solver()
            s.set('timeout', self.timeout_ms)
            s.add(*self.solver.assertions())
            s.add(z3.Not(z))
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None

    def _model(self, m):
        out = {}
        keyids = {}
        for name, (kind, z) in self.inputs.items():
            v = m.eval(z, model_completion=True)
            if kind == 'int':
                out[name] = v.as_long()
            elif kind == 'key':
                out[name] = keyids.setdefault(str(v), f"k{len(keyids)}")
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                x = float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
                out[name] = math.exp(max(-30, min(30, x))) if kind == 'pos' else x
        return out

    def path_model(self):
        """Inputs that drive execution down the current path."""
        if self.solver.check() == z3.sat:
            return self._model(self.solver.model())
        return None

    def lemma(self, cond, label, by=None, over=()):
        """A fact that is proved here and then used.

        With `by`, it is proved from those facts alone, for all values of the
        terms in `over` (which then stand for variables).
        """
        z = tobool(cond)
        if by is None:
            done = self.ensure(cond, f'lemma: {label}')
        else:
            t0 = time.time()
            done = all(tobool(h).get_id() in self.known for h in by) or all(
                [tobool(h).get_id() in self.known or self.lemma(h, f'{label}: premise {i}') for i, h in enumerate(by)])
            names = [(t.z, z3.Const(f'over!{i}', t.z.sort())) for i, t in enumerate(over)]
            goal = z3.substitute(z3.Implies(z3.And(*[tobool(h) for h in by]), z), *names)
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(z3.Not(goal))
            r = s.check()
            dt = time.time() - t0
            self.solver_s += dt
            done = done and r == z3.unsat
            if not done and r == z3.unsat:
                return False
            if r != z3.unsat:  # perhaps true for another reason
                done = self.ensure(cond, f'lemma: {label}')
            else:
                self.obligations.append(dict(label=f'lemma: {label}', status='discharged', backend='z3', model=None,
                                             suspect=bool(self.caught), choices=dict(self.choices), path=list(self.trace),
                                             time=dt, vc=None))
        if done:
            self.solver.add(z)
            self.known[z.get_id()] = z
        return done

    def eq(self, a, b, tol=None):
        """Equality of numbers in either mode (as a condition)."""
        r = (a == b)
        return r if isinstance(r, SymBool) else bool(r)

    def alleq(self, xs, ys, tol=None):
        xs, ys = flat(xs), flat(ys)
        if len(xs) != len(ys):
            return False
        conds = [self.eq(x, y) for x, y in zip(xs, ys)]
        return SymBool(z3.And(*[tobool(c) for c in conds])) if conds else True

    def both(self, *conds):
        return SymBool(z3.And(*[tobool(c) for c in conds]))

    def either(self, *conds):
        return SymBool(z3.Or(*[tobool(c) for c in conds]))

    def implies(self, a, b):
        return SymBool(z3.Implies(tobool(a), tobool(b)))

    def patch(self, obj, name, value):
        """Replace a callee by its contract for the rest of this path."""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def close(self):
        for obj, name, old, missing in reversed(self._undo):
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo.clear()


def flat(xs):
    import numpy
    if isinstance(xs, numpy.ndarray):
        return list(xs.ravel())
    if isinstance(xs, (list, tuple)):
        return [y for x in xs for y in flat(x)]
    return [xs]


def explore(fn, max_paths=2000, timeout_ms=5000, deadline=None):
    """Run contract `fn(session)` down every feasible path.

    Returns (obligations, stats).
    """
    global CUR
    from . import core
    todo = [()]
    obligations = []
    stats = dict(paths=0, infeasible=0, solver_s=0.0, errors=[], complete=True,
                 unsupported=[], reached=0)
    while todo:
        if stats['paths'] >= max_paths or (deadline and time.time() > deadline):
            stats['complete'] = False
            break
        prefix = todo.pop()
        s = Session(prefix, timeout_ms)
        CUR = s
        try:
            try:
                fn(s)
            except PathEnd:
                pass
            except core.Skip:
                raise Infeasible()
            stats['paths'] += 1
            if s.obligations:
                # vacuity: the path on which the obligations were raised is real
                if s._check() != z3.unsat:
                    stats['reached'] += 1
        except Infeasible:
            stats['infeasible'] += 1
        except (Unsupported, core.Unsupported) as e:
            stats['paths'] += 1
            stats['unsupported'].append(str(e))
        except RecursionError as e:
            stats['paths'] += 1
            stats['unsupported'].append('recursion')
        except Exception as e:  # the code raised: model of the path, to replay
            import traceback
            stats['paths'] += 1
            stats['errors'].append(dict(
                error=f"{type(e).__name__}: {e}"[:300], model=s.path_model(),
                choices=dict(s.choices), tb=traceback.format_exc()[-1500:]))
        finally:
            s.close()
            CUR = None
        obligations += s.obligations
        stats['solver_s'] += s.solver_s
        todo += s.pending
    return obligations, stats


# shadow builtins ----------------------------------------------------------------
# Names that C code would otherwise evaluate on concrete values only.  They are
# injected in the globals of the modules under contract and are the identity
# on ordinary values.

def issym(x):
    return isinstance(x, (SymNum, SymPos))


class _FloatMeta(type):
    def __call__(cls, *a):
        return _float(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _IntMeta(_FloatMeta):
    def __call__(cls, *a):
        return _int(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class float_(builtins.float, metaclass=_FloatMeta):
    pass    # numpy reads the class attribute `dtype` (set in `instrument`)


class int_(builtins.int, metaclass=_IntMeta):
    pass


def _float(x=0.0, /):
    if isinstance(x, SymPos):
        return x
    if isinstance(x, SymNum):
        return SymReal(x.z)
    if not isinstance(x, (builtins.int, builtins.float, str, bytes)):
        import numpy
        if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
            return _float(x.item())
        f = getattr(type(x), '__float__', None)
        if f is not None and not isinstance(x, (numpy.ndarray, numpy.generic)):
            return f(x)
    return builtins.float(x)


def _int(x=0, /, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.__trunc__()
    if not a and not isinstance(x, (builtins.int, builtins.float, str, bytes)):
        import numpy
        if isinstance(x, numpy.ndarray) and x.dtype == object and x.size == 1:
            return _int(x.item())
        f = getattr(type(x), '__int__', None)
        if f is not None and not isinstance(x, (numpy.ndarray, numpy.generic)):
            return f(x)
    return builtins.int(x, *a)


class _SliceShadow:
    pass


def _abs(x, /):
    return builtins.abs(x)


class _FractionMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and issym(a[0]):
            return SymReal(a[0].z) if isinstance(a[0], SymNum) else a[0]
        return fractions.Fraction(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, fractions.Fraction)

    def __subclasscheck__(cls, c):
        return issubclass(c, fractions.Fraction)

    def __getattr__(cls, name):
        return getattr(fractions.Fraction, name)


class Fraction_(metaclass=_FractionMeta):
    """Stands for `fractions.Fraction` in the modules under contract."""


class _Fractions:
    """Stands for the module `fractions` in the modules under contract."""
    Fraction = Fraction_

    def __getattr__(self, name):
        return getattr(fractions, name)


FRACTIONS = _Fractions()


def _hasdtype(original):
    """Symbolic reals have the data type of floats, symbolic integers of integers."""
    import numpy

    def hasdtype(a, t, /):
        x = getattr(a, 'data', a) if not isinstance(a, numpy.ndarray) else a
        y = x if isinstance(x, numpy.ndarray) else numpy.array(x)
        if y.dtype == object and any(issym(e) for e in y.ravel()) and all(
                isinstance(e, numbers.Real) for e in y.ravel()):
            whole = all(isinstance(e, (SymInt, builtins.int)) for e in y.ravel())
            return original(numpy.zeros(1, dtype='int64' if whole else 'float64'), t)
        return original(a, t)
    hasdtype._shadow = True
    return hasdtype


def instrument(*modules):
    """Inject the shadow builtins in the globals of the modules under contract."""
    import numpy
    float_.dtype, int_.dtype = numpy.dtype('float64'), numpy.dtype('int64')
    for m in modules:
        h = m.__dict__.get('hasdtype')
        if h is not None and not hasattr(h, '_shadow'):
            m.__dict__['hasdtype'] = _hasdtype(h)
        for name, new in (('float', float_), ('int', int_)):
            m.__dict__.setdefault(name, new)
        if m.__dict__.get('fractions') is fractions:
            m.__dict__['fractions'] = FRACTIONS
        if m.__dict__.get('Fraction') is fractions.Fraction:
            m.__dict__['Fraction'] = Fraction_
