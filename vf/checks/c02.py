"""C02: symbolic and unit expressions obey the laws of commutative monomials."""
import fractions
import functools

from .. import units as U
from ..core import contract, SymbolicOnly, attempt, need, Skip, Unsupported, close

F = fractions.Fraction
PROVED_TERM = ['eprempy.symbolic._operand.Operand.__pow__', 'eprempy.symbolic._operand.Operand.__mul__',
               'eprempy.symbolic._operand.Operand.__eq__', 'eprempy.symbolic._operand.Operand.__init__',
               'eprempy.symbolic._operand.term_factory']


def term(c, b, e):
    from eprempy import symbolic
    return symbolic.term(coefficient=c, base=b, exponent=e)


# -- terms, for all coefficients and exponents -----------------------------------

@contract('C02', 'term-power', sym='proof', functions=PROVED_TERM)
def term_power(S):
    """(c x^e)^p is c^p x^(e p), and one for p = 0, for every c > 0 and real e, p; the operand is unchanged."""
    if not S.symbolic:
        raise SymbolicOnly()
    c, e, p = S.pos('c'), S.real('e'), S.real('p')
    b = S.choice('base', ['x', 'long_name', '1'])
    if b == '1':
        e = 1
    t = term(c, b, e)
    r = t ** p
    if p == 0:
        S.ensure(S.eq(r.coefficient, 1), 'power zero has coefficient one')
        S.ensure(S.either(r.base == '1', S.eq(r.exponent, 0)), 'power zero has no symbol')
    else:
        S.ensure(S.eq(r.coefficient, c ** p), 'the coefficient is raised')
        S.ensure(S.both(r.base == b, S.implies(b != '1', S.eq(r.exponent, e * p))), 'the exponent is multiplied')
    S.ensure(S.both(S.eq(t.coefficient, c), t.base == b, S.eq(t.exponent, e)), 'the operand is unchanged')


@contract('C02', 'term-power-signed', sym='shape', bound='integer powers -4..4, any nonzero real coefficient',
          rand=(200, 2000), functions=PROVED_TERM)
def term_power_signed(S):
    """The same for negative coefficients and integer powers."""
    c = S.real('c', nonzero=True, simple=True)
    e = S.real('e', simple=True)
    p = S.choice('p', [-4, -3, -2, -1, 1, 2, 3, 4])
    t = term(c, 'x', e)
    r = t ** p
    want = 1
    for _ in range(abs(p)):
        want = want * c
    if p < 0:
        want = 1 / want
    S.ensure(S.eq(r.coefficient, want), 'the coefficient is raised')
    S.ensure(S.eq(r.exponent, e * p), 'the exponent is multiplied')


@contract('C02', 'term-multiple', sym='proof', rand=(200, 2000), functions=PROVED_TERM)
def term_multiple(S):
    """k (c x^e) = (c x^e) k = (k c) x^e for all real k, c, e."""
    c, e, k = S.real('c', simple=True), S.real('e', simple=True), S.real('k', simple=True)
    t = term(c, 'x', e)
    for r in (t * k, k * t):
        S.ensure(S.eq(r.coefficient, c * k), 'the coefficient is multiplied')
        S.ensure(S.both(r.base == 'x', S.eq(r.exponent, e)), 'the symbol is kept')
    S.ensure(S.both(S.eq(t.coefficient, c), S.eq(t.exponent, e)), 'the operand is unchanged')


@contract('C02', 'term-equality', sym='proof', rand=(200, 2000),
          functions=['eprempy.symbolic._operand.Operand.__eq__', 'eprempy.symbolic._operand.Term.__eq__'])
def term_equality(S):
    """Two terms are equal exactly when coefficient, symbol and exponent are, for all real values."""
    c, d = S.real('c', simple=True), S.real('d', simple=True)
    e, f = S.real('e', simple=True), S.real('f', simple=True)
    b1, b2 = S.choice('b1', 'xy'), S.choice('b2', 'xy')
    if not S.symbolic:
        d = S.choice('dd', [c, d])
        f = S.choice('ff', [e, f])
    r = bool(term(c, b1, e) == term(d, b2, f))
    want = S.both(b1 == b2, S.eq(c, d), S.eq(e, f))
    S.ensure(want if r else S.implies(want, False), 'equal iff same coefficient, symbol and exponent')
    if not S.symbolic:
        for k in (c, d):
            for n in (k, float(k), int(k)):
                S.ensure((term(c, '1', 1) == n) == (float(c) == float(n)), 'a constant equals the same number', lambda: (c, n))
    if r and not S.symbolic:
        S.ensure(hash(term(c, b1, e)) == hash(term(d, b2, f)), 'equal terms hash equally')


# -- reduction to normal form, for all coefficients and exponents ------------------

def denote(S, terms):
    """(coefficient, {symbol: exponent}) of a list of terms."""
    c, m = 1, {}
    for t in terms:
        c = c * t.coefficient
        if t.base != '1':
            m[t.base] = m[t.base] + t.exponent if t.base in m else t.exponent
    return c, m


PATTERNS = [p for n in (1, 2, 3) for p in __import__('itertools').product('xyz1', repeat=n)] + [
    tuple('xyxy'), tuple('xyyx'), tuple('xxyy'), tuple('1x1y'), tuple('xyzx')]


def check_normal(S, terms, result, what):
    c, m = denote(S, terms)
    bases = [t.base for t in result]
    S.ensure(len(set(bases)) == len(bases), f'{what}: each symbol appears once')
    rc, rm = denote(S, result)
    S.ensure(S.eq(rc, c), f'{what}: coefficients multiply')
    for b in set(m) | set(rm):
        if b in rm:
            S.ensure(S.eq(rm[b], m.get(b, 0)), f'{what}: exponents of equal symbols add')
            S.ensure(S.implies(S.eq(rm[b], 0), False), f'{what}: cancelled symbols disappear')
        else:
            S.ensure(S.eq(m[b], 0), f'{what}: only cancelled symbols disappear')
    consts = [t for t in result if t.base == '1']
    if consts and len(result) > 1:
        S.ensure(S.implies(S.eq(consts[0].coefficient, 1), False), f'{what}: no factor of one is kept')
    S.ensure(len(result) > 0, f'{what}: never empty')


@contract('C02', 'reduce', sym='shape', bound='every pattern of up to 3 terms over 3 symbols and constants, 5 of 4 terms; '
          'all coefficients > 0 and all real exponents',
          functions=['eprempy.symbolic._expression.reduce'], max_paths=(6000, 20000))
def reduce_(S):
    """Reducing a list of terms keeps the monomial it denotes and brings it to normal form."""
    if not S.symbolic:
        raise SymbolicOnly()
    from eprempy import symbolic
    pat = S.choice('pattern', PATTERNS)
    ts = []
    for i, b in enumerate(pat):
        ts.append(term(S.pos(f'c{i}'), b, 1 if b == '1' else S.real(f'e{i}')))
    before = [(t.coefficient, t.base, t.exponent) for t in ts]
    r = symbolic.reduce(ts)
    check_normal(S, ts, r, 'reduce')
    S.ensure(all(t.coefficient is x and t.base == y and t.exponent is z for t, (x, y, z) in zip(ts, before)),
             'the operands are unchanged')


# -- expressions, the text round trip replaced by its contract (C03) ----------------

def stub_factory(S):
    import importlib
    mod = importlib.import_module('eprempy.symbolic._expression')
    real = need('eprempy.symbolic._expression', 'expression_factory')
    need('eprempy.symbolic._expression', 'reduce')
    hits = []

    def factory(this, **options):
        if isinstance(this, mod.Expression):
            return this
        if isinstance(this, (list, tuple)) and all(hasattr(t, 'coefficient') for t in this):
            hits.append(1)
            return mod.Expression(mod.reduce(list(this)))
        return real(this, **options)
    S.patch(mod, 'expression_factory', factory)
    return mod, factory, hits


EXPRS = [('x',), ('1', 'x'), ('x', 'y'), ('1', 'x', 'y')]


def draw_expr(S, mod, tag, shapes=EXPRS):
    pat = S.choice(f'{tag}shape', shapes)
    ts = []
    for i, b in enumerate(pat):
        c = S.pos(f'{tag}c{i}') if b == '1' else 1
        e = 1 if b == '1' else S.real(f'{tag}e{i}', nonzero=True)
        ts.append(term(c, b, e))
    return mod.Expression(mod.reduce(ts))


@contract('C02', 'expression-laws', sym='shape', max_paths=(6000, 20000),
          bound='expressions of up to two symbols and a coefficient; all coefficients > 0, all real exponents',
          functions=['eprempy.symbolic._expression.Expression.__mul__', 'eprempy.symbolic._expression.Expression.__truediv__',
                     'eprempy.symbolic._expression.Expression.__pow__', 'eprempy.symbolic._expression.reduce'],
          trusted=['callee contract assumed there: writing a list of terms as text and parsing it gives their reduction (checked by C03)'])
def expression_laws(S):
    """Products, quotients and powers of expressions denote the product, quotient and power of the monomials."""
    if not S.symbolic:
        raise SymbolicOnly()
    mod, factory, hits = stub_factory(S)
    op = S.choice('op', ['mul', 'div', 'pow'])
    a = draw_expr(S, mod, 'a')
    ta = list(a)
    if op == 'pow':
        p = S.real('p')
        r = a ** p
        c, m = denote(S, ta)
        rc, rm = denote(S, list(r))
        S.ensure(S.eq(rc, c ** p if isinstance(c, type(S.pos('unused'))) else 1), 'a power raises the coefficient')
        for b in m:
            S.ensure(S.eq(rm.get(b, 0), m[b] * p), 'a power multiplies every exponent')
        S.ensure(set(rm) <= set(m), 'no symbol is invented')
    else:
        b = draw_expr(S, mod, 'b', [('x',), ('1', 'x'), ('y',), ('1', 'z')])
        tb = list(b)
        r = a * b if op == 'mul' else a / b
        k = 1 if op == 'mul' else -1
        check_normal(S, ta + [term(t.coefficient ** k if t.base == '1' else 1, t.base, 1 if t.base == '1' else t.exponent * k)
                              for t in tb], list(r), op)
        S.ensure(all(x is y for x, y in zip(b, tb)), 'the right operand is unchanged')
    if not hits:
        raise Unsupported('the stated decomposition is not used')
    S.ensure(len(a) == len(ta) and all(x is y for x, y in zip(a, ta)), 'the left operand is unchanged')


@contract('C02', 'expression-equality', sym='shape', max_paths=(6000, 20000),
          bound='expressions of up to two symbols and a coefficient; all coefficients > 0, all real exponents',
          functions=['eprempy.symbolic._expression.Expression.__eq__', 'eprempy.symbolic._operand.Operand.__eq__'])
def expression_equality(S):
    """Two expressions are equal exactly when they denote the same coefficient and symbol-to-exponent map."""
    if not S.symbolic:
        raise SymbolicOnly()
    mod, factory, hits = stub_factory(S)
    a, b = draw_expr(S, mod, 'a'), draw_expr(S, mod, 'b')
    r = bool(a == b)
    ca, ma = denote(S, list(a))
    cb, mb = denote(S, list(b))
    same = S.both(S.eq(ca, cb), *[S.eq(ma.get(k, 0), mb.get(k, 0)) for k in set(ma) | set(mb)])
    S.ensure(same if r else S.implies(same, False), 'equality is equality of the monomials')


# -- real expressions, bounded ---------------------------------------------------

SYMS = ['a', 'b', 'x', 'y', 'abc', 'm2', 'alpha_1', 'Z']
COEFS = ['', '', '2', '3', '1/2', '2/3', '10', '0.5', '2.5', '11/12', '1.25e2', '7']
EXPS = [None, None, 1, 2, -1, -2, 3, F(1, 2), F(-1, 2), F(3, 2), F(2, 3), F(5, 4), -3, F(5, 256), F(-11, 300)]


def show(e):
    return f'{e.numerator}' if F(e).denominator == 1 else f'{F(e).numerator}/{F(e).denominator}'


def atom(S, tag):
    """(text, coefficient, exponents)"""
    c = S.choice(tag + 'c', COEFS)
    b = S.choice(tag + 'b', SYMS + ['1'])
    e = S.choice(tag + 'e', EXPS)
    if b == '1':
        return (c or '1'), F(c or '1'), {}
    cc = c if '/' not in c else f'({c})'
    if '/' in c or 'e' in c:
        text = f'({c}) * {b}'
    else:
        text = f'{c}{b}'
    if e is not None:
        text += f'^{show(F(e))}'
    return text, F(c or '1'), {b: F(1 if e is None else e)}


def mono_mul(p, q, k=1):
    m = dict(p[1])
    for s, e in q[1].items():
        m[s] = m.get(s, F(0)) + k * e
    return (p[0] * q[0] ** k, {s: e for s, e in m.items() if e})


def read(expr):
    c, m = F(1), {}
    for t in expr:
        c *= t.coefficient
        if t.base != '1':
            m[t.base] = m.get(t.base, 0) + t.exponent
    return c, m


def same(p, q):
    return close(float(p[0]), float(q[0]), 1e-12) and set(p[1]) == set(q[1]) and all(
        close(float(p[1][k]), float(q[1][k]), 1e-12) for k in p[1])


@contract('C02', 'programs', rand=(700, 10000), bound='sampled programs of up to 8 operations over expressions of up to 4 factors',
          functions=['eprempy.symbolic.expression', 'eprempy.symbolic._expression.Expression'])
def programs(S):
    """Any program of *, /, ** over expressions denotes the same program over monomials, and == and hash follow."""
    from eprempy import symbolic
    live = []

    def make(tag):
        n = S.choice(tag + 'n', [1, 1, 2, 3, 4])
        parts = [atom(S, f'{tag}{i}') for i in range(n)]
        mono = (F(1), {})
        for p in parts:
            mono = mono_mul(mono, (p[1], p[2]))
        order = S.shuffled(tag + 'o', parts)
        kind = S.choice(tag + 'k', ['text', 'list', 'expr', 'juxt'])
        if kind == 'text':
            e = symbolic.expression(' * '.join(p[0] for p in order))
        elif kind == 'juxt':
            e = symbolic.expression(' '.join(p[0] if '*' not in p[0] else f'({p[0]})' for p in order))
        elif kind == 'list':
            e = symbolic.expression([p[0] for p in order])
        else:
            e = symbolic.expression(order[0][0])
            for p in order[1:]:
                e = e * p[0]
        return e, mono

    for i in range(S.choice('start', [2, 3])):
        live.append(make(f'e{i}'))
    for i in range(S.choice('steps', [2, 4, 6])):
        op = S.choice(f'op{i}', ['*', '*', '/', '/', '**', 'r*', 'r/', '*num', '/num'])
        j, k = S.choice(f'j{i}', range(len(live))), S.choice(f'k{i}', range(len(live)))
        (a, ma), (b, mb) = live[j], live[k]
        sa, sb = str(a), str(b)
        if op == '*':
            r, m = a * b, mono_mul(ma, mb)
        elif op == '/':
            r, m = a / b, mono_mul(ma, mb, -1)
        elif op == 'r*':
            r, m = str(a) * b if S.coin(f't{i}') else a * str(b), mono_mul(ma, mb)
        elif op == 'r/':
            r, m = (str(a) / b) if S.coin(f't{i}') else (a / str(b)), mono_mul(ma, mb, -1)
        elif op == '*num':
            n = S.choice(f'n{i}', [2, 3, 5, 10])
            r, m = (n * a if S.coin(f't{i}') else a * n), (ma[0] * n, ma[1])
        elif op == '/num':
            n = S.choice(f'n{i}', [2, 4, 5, 10])
            r, m = a / n, (ma[0] / n, ma[1])
        else:
            p = S.choice(f'p{i}', [0, 1, 2, -1, 3, -2, F(1, 2), F(1, 3), F(-2, 7), 0.5, F(1, 128), F(3, 250), F(-7, 1024), 0.1, 0.375, -0.0625])
            if F(p).denominator != 1 and ma[0] != 1:
                p = 2
            r = a ** p
            m = (ma[0] ** p if F(p).denominator == 1 else F(1), {s: e * F(p) for s, e in ma[1].items() if p != 0})
        got = read(r)
        S.ensure(same(got, m), f'{sa} {op} {sb}', lambda: (str(r), str(m)))
        S.ensure(got[1] == m[1], f'{sa} {op} {sb}: no exponent is rounded', lambda: (got[1], m[1]))
        S.ensure(str(a) == sa and str(b) == sb, 'operands are unchanged')
        bases = [t.base for t in r]
        S.ensure(len(set(bases)) == len(bases), 'each symbol appears once', lambda: str(r))
        if m[0] != 0 and abs(m[0].numerator) < 10 ** 12 and m[0].denominator < 10 ** 9 and len(live) < 7 and all(
                abs(e.numerator) < 10 ** 5 and e.denominator < 10 ** 5 for e in m[1].values()):
            live.append((r, m))
    for x, mx in live:
        for y, my in live:
            eq = same(mx, my)
            S.ensure((x == y) == eq and (x != y) == (not eq), f'{x} == {y} is {eq}')
            if eq and mx == my:
                S.ensure(hash(x) == hash(y), f'hash of {x} and {y}')
        if x[0].base != '1':
            S.ensure(x.apply(symbolic.expression) == x and x.apply(lambda b: symbolic.expression(b) ** 2) == x ** 2, f'{x}: replacing each symbol by its image')
        S.ensure(symbolic.expression(x) == x, 'an expression equals itself')


NAMES = ['a', 'b', 'km', 'x1', 'x10', 'y123', 'm_p', '_q', 'Ω', 'μm', '#', 'H_12', 'sr']


def written_number(S, x):
    """One of the spellings of a fraction as text."""
    x = F(x)
    sign = '-' if x < 0 else S.rng.choice(['', '', '', '+'])
    n, d = abs(x.numerator), x.denominator
    ways = [f'{n}/{d}'] if d != 1 else [f'{n}', f'{n}', f'{n}.', f'{n}.0', f'{n}.000', f'{n}e0', f'{n}E+0', f'{n * 10}e-1', f'{n * 1000}E-03']
    if d == 1 and n % 10 == 0 and n:
        ways += [f'{n // 10}e1', f'{n // 10}e+1', f'{n // 10}.E1', f'{n // 10}E+01']
    k = next((k for k in range(1, 7) if 10 ** k % d == 0), None)
    if d != 1 and k:
        digits = n * 10 ** k // d
        whole, part = divmod(digits, 10 ** k)
        ways += [f'{whole}.{part:0{k}}', f'{whole}.{part:0{k}}00', f'{digits}e-{k}', f'{digits}E-{k:02}', f'{digits}.0e-{k}']
        if not whole:
            ways.append(f'.{part:0{k}}')
    return sign + S.rng.choice(ways)


def written(S, depth=0):
    """(text, monomial) of a random expression: products and quotients from left to right, with groups, powers and numbers."""
    r = S.rng
    gap = lambda: r.choice(['', '', ' ', ' ', '  ', '\t', '\n'])
    text, mono = gap() if not depth else '', (F(1), {})
    count = r.choice([1, 1, 2, 2, 3, 4]) if depth < 3 else 1
    for i in range(count):
        kind = r.choice(['name', 'name', 'name', 'group', 'number', 'scaled']) if depth < 2 else r.choice(['name', 'name', 'number', 'scaled'])
        coefficient = F(1)
        power = F(r.choice([1, 1, 1, 2, 3, -1, -2, 10, 12, F(1, 2), F(-3, 2), F(1, 3), F(5, 12), F(1, 8), F(-7, 25), F(9, 4)]))
        if kind == 'number':
            c = F(r.choice([1, 2, 3, 10, 250, F(1, 2), F(3, 4), F(1, 8), F(22, 7), F(1, 1000)]))
            part, factor = written_number(S, c), (c, {})
            if part[0] in '+-' and i:
                part = part[1:]
        else:
            if kind == 'scaled' or kind == 'group' and r.random() < .3:
                coefficient = F(r.choice([2, 5, 100, F(1, 2), F(7, 5), F(2, 3)]))
            if kind == 'group':
                inner, m = written(S, depth + 1)
                power = power if m[0] == 1 else F(r.choice([1, 2, -1, 3]))
                body = '(' + r.choice(['', ' ']) + inner.strip() + r.choice(['', ' ']) + ')'
            else:
                b = r.choice(NAMES)
                body, m = b, (F(1), {b: F(1)})
            part = (written_number(S, coefficient).lstrip('+') if coefficient != 1 else '') + body + ('' if power == 1 and r.random() < .8 else '^' + written_number(S, power))
            factor = (coefficient * m[0] ** (power if power.denominator == 1 else 1), {k: e * power for k, e in m[1].items() if e * power})
        if i == 0:
            text, mono = text + part, mono_mul(mono, factor)
            continue
        join = r.choice(['*', '*', '/', ' '])
        if join == ' ' and (kind == 'number' or part[0].isdigit() or part[0] == '.'):
            join = '*'      # (two numbers side by side)
        if join == '/' and (kind == 'number' or part[0].isdigit() or part[0] == '.' or text.rstrip()[-1].isdigit()):
            text += ' / ' + part if kind == 'name' else f' / ({part})'
        elif join == ' ':
            text += r.choice([' ', '  ', '\t', '\n']) + part
        else:
            text += gap() + join + gap() + part
        mono = mono_mul(mono, factor, -1 if join == '/' else 1)
    return text + (gap() if not depth else ''), mono


@contract('C02', 'spellings', rand=(1500, 20000), bound='sampled texts of up to 4 factors nested up to 2 deep',
          functions=['eprempy.symbolic.expression', 'eprempy.symbolic._parser.Parser', 'eprempy.symbolic._operand.OperandFactory', 'eprempy.symbolic._operator.OperatorFactory'])
def spellings(S):
    """A text denotes the product, quotient and powers it spells, however its numbers, names, groups and gaps are written."""
    from eprempy import symbolic
    text, want = written(S)
    r, e = attempt(symbolic.expression, text)
    S.ensure(e is None, 'a well-formed text is read', lambda: (text, e))
    got = read(r)
    S.ensure(got[1] == want[1], 'the symbols and exponents as spelled', lambda: (text, str(r), want))
    S.ensure(close(float(got[0]), float(want[0]), 1e-12), 'the coefficient as spelled', lambda: (text, str(r), want))


@contract('C02', 'terms', rand=(1500, 15000), bound='sampled terms, and pairs of products of up to 4 factors',
          functions=['eprempy.symbolic._operand.' + n for n in ('term_factory', 'OperandFactory.create', 'OperandFactory.normalize', 'OperandFactory._length_1', 'OperandFactory._length_2',
                     'OperandFactory._length_3', 'OperandFactory.parse', 'Term.__eq__', 'Term.__hash__', 'Term.__call__', 'Term._cast_to', 'asterms')] + [
                     'eprempy.symbolic.' + n for n in ('product', 'ratio', 'power', 'equality', 'composition')])
def terms(S):
    """A term is one term however it is made, equals exactly its texts and, if constant, its number; functions of expressions are their operators."""
    from eprempy import symbolic
    make = symbolic.OperandFactory()
    c = S.choice('c', [F(1), F(2), F(-3), F(5, 2), F(7, 4), F(12)])
    b = S.choice('b', ['a', 'x', 'ab', 'm2', '1', 'p_1'])
    e = S.choice('e', [F(1), F(2), F(-1), F(3), F(1, 2), F(-3, 2)]) if b != '1' else F(1)
    number = S.choice('n', [c, float(c)])
    t = symbolic.term(coefficient=c, base=b, exponent=e)
    # a coefficient that is a fraction is grouped in the text of an expression, which is not that of one operand
    text = str(t).replace('(', '').replace(')', '')
    ways = [symbolic.term(c, b, e), symbolic.term(number, b, str(e)), symbolic.term(coefficient=float(c), base=b, exponent=float(e)), make.create(number, b, e), make.create(float(c), b, str(e)),
            make.create(text), make.create(f'({text})'), make.create(text, 1), make.create(text, '1'), c * symbolic.term(b) ** e, symbolic.term(b) ** e * c, symbolic.asterms([text])[0], make.parse(text + ' * y').result, make.parse('  ' + text).result]
    if b != '1':
        ways.append(make.create(c, b) if e == 1 else make.create(c, f'{b}^{e}'))
        if c == 1:
            ways += [make.create(b, e), make.create(b, str(e))] + ([make.create(b), symbolic.term(b), symbolic.term(base=b)] if e == 1 else [])
        ways += [make.create(1, text), make.create(c * 2, f'1/2{b}^{e}'), make.create(2, f'{c / 2}{b}^{e}', 1)]
        if c > 0 and e.denominator == 1:
            ways.append(make.create(c ** (1 - int(e)), f'{c}{b}', e))
    else:
        ways += [make.create(number), symbolic.term(coefficient=c), c * symbolic.term()]
    for i, w in enumerate(ways):
        S.ensure(isinstance(w, symbolic.Term) and w == t and t == w and not w != t and hash(w) == hash(t), f'{text}: one term, however it is made', lambda: (i, str(w)))
        S.ensure((float(w.coefficient), w.base, float(w.exponent)) == (float(c), b, float(e)), f'{text}: the parts of a term', lambda: (i, str(w)))
    for given in (text, f'({text})', f' {text}'.strip()):
        S.ensure(t == given and given == t, f'{text}: a term equals its text', lambda: given)
    other = symbolic.term(coefficient=S.choice('d', [c, c + 1]), base=S.choice('g', [b, 'q']), exponent=S.choice('f', [e, e + 1]))
    if other.base != '1':
        alike = (other.coefficient, other.base, other.exponent) == (c, b, e)
        S.ensure((t == other) is alike and (t == str(other).replace('(', '').replace(')', '')) is alike and (t != other) is not alike, f'{text}: terms are equal only if all of their parts are', lambda: str(other))
    for n in (c, float(c), 1, 3.5):
        S.ensure((t == n) is (b == '1' and float(c) == float(n)) and (n == t) is (t == n), f'{text}: only a constant equals a number', lambda: n)
    S.ensure(not t == None and not t == () and t != object(), f'{text}: a term is not something else')
    for kind in (float, int):
        r, ex = attempt(kind, t)
        S.ensure(r == kind(c) if b == '1' else isinstance(ex, TypeError), f'{text}: only a constant is a number', lambda: (kind, r, ex))
    v = S.choice('v', [1, 2, 4, 0.25, F(9, 4)])
    r, ex = attempt(t, v)
    S.ensure(isinstance(ex, TypeError) if b == '1' else ex is None and close(float(r), float(c) * float(v) ** float(e)), f'{text}: the value of a term', lambda: (v, str(r), ex))
    for bad in ('2', None, t):
        S.ensure(isinstance(attempt(t, bad)[1], TypeError), f'{text}: the value at something that is not a number', lambda: bad)
    S.ensure((t.coefficient, t.base, t.exponent) == (c, b, e), 'a term is never changed')
    # functions
    monos, given = [], []
    for k in 'xy':
        parts = [atom(S, f'{k}{i}') for i in range(S.choice(k + 'n', [1, 2, 3, 4]))]
        mono = (F(1), {})
        for q in parts:
            mono = mono_mul(mono, (q[1], q[2]))
        monos.append(mono)
        how, whole = S.choice(k + 'h', ['text', 'list', 'expression']), ' * '.join(q[0] for q in parts)
        given.append(whole if how == 'text' else [q[0] for q in parts] if how == 'list' else symbolic.expression(whole))
    x, y = given
    S.ensure(same(read(symbolic.product(x, y)), mono_mul(*monos)), 'the product of two expressions', lambda: (x, y))
    S.ensure(same(read(symbolic.ratio(x, y)), mono_mul(*monos, -1)), 'the ratio of two expressions', lambda: (x, y))
    S.ensure(symbolic.equality(x, y) is same(*monos) and symbolic.equality(x, x) is True, 'equality of two expressions', lambda: (x, y))
    n = S.choice('p', [0, 1, 2, -1, 3])
    want = (monos[0][0] ** n, {k: p * n for k, p in monos[0][1].items() if n})
    S.ensure(same(read(symbolic.power(x, n)), want), 'the power of an expression', lambda: (x, n))
    S.ensure(symbolic.composition(symbolic.expression(x)) is True and symbolic.composition(f'{text} * y') is True and symbolic.composition(f'y / {text}') is True and not symbolic.composition(b) and not symbolic.composition(3), 'what is a composition of terms')


@contract('C02', 'near-misses', rand=(300, 4000), bound='sampled pairs that differ in one coefficient, exponent or symbol',
          functions=['eprempy.symbolic._expression.Expression.__eq__'])
def near_misses(S):
    """Expressions that differ in one coefficient, symbol or exponent are unequal; reordered ones are equal with equal hash."""
    from eprempy import symbolic
    n = S.choice('n', [1, 2, 3])
    names = S.shuffled('names', SYMS)[:n]
    exps = [F(S.choice(f'e{i}', [e for e in EXPS if e])) for i in range(n)]
    c = S.choice('c', [1, 2, 3, 7])
    spell = lambda c, ns, es: ' * '.join([str(c)] + [f'{x}^{show(e)}' for x, e in zip(ns, es)])
    a = symbolic.expression(spell(c, names, exps))
    perm = S.shuffled('perm', range(n))
    b = symbolic.expression(' * '.join([f'{names[i]}^{show(exps[i])}' for i in perm] + [str(c)]))
    S.ensure(a == b and hash(a) == hash(b), f'{a} equals its reordering {b}, with the same hash')
    i = S.choice('i', range(n))
    kind = S.choice('kind', ['coef', 'small coef', 'exp', 'name', 'drop', 'add', 'swap'])
    if kind == 'coef':
        d = spell(c + 1, names, exps)
    elif kind == 'small coef':
        k = S.choice('scale', ['1e-7', '1e-12', '1e-30'])
        a, d = symbolic.expression(spell(f'{c}{k[1:]}', names, exps)), spell(f'{c + 1}{k[1:]}', names, exps)
    elif kind == 'exp':
        es = list(exps)
        es[i] = es[i] + S.choice('d', [1, -1, F(1, 2), F(1, 3), F(1, 240), F(-3, 1000), F(1, 10 ** 8)])
        d = spell(c, names, es)
    elif kind == 'name':
        ns = list(names)
        ns[i] = ns[i] + 'q'
        d = spell(c, ns, exps)
    elif kind == 'drop':
        d = spell(c, [x for k, x in enumerate(names) if k != i], [x for k, x in enumerate(exps) if k != i])
    elif kind == 'add':
        d = spell(c, names + ['w'], exps + [F(1)])
    else:
        es = [-e for e in exps]
        d = spell(c, names, es)
    d = symbolic.expression(d)
    S.ensure(not (a == d) and a != d and not (d == a), f'{a} differs from {d}')


# -- units ------------------------------------------------------------------------

BASES = ['m', 's', 'kg', 'K', 'mol', 'cd', 'A', 'au', 'min', 'cm', 'eV', 'MeV', 'nuc', 'sr', '#', 'd', 'km']
DERIV = ['N', 'J', 'W', 'Pa', 'erg', 'dyn', 'T', 'V', 'C', 'Wb']


@contract('C02', 'unit-programs', rand=(500, 5000),
          bound='sampled programs of up to 6 operations over 17 base-like and 10 derived units',
          functions=['eprempy.metric._units.Unit.__mul__', 'eprempy.metric._units.Unit.__truediv__',
                     'eprempy.metric._units.Unit.__pow__', 'eprempy.metric._units.unit_factory'])
def unit_programs(S):
    """Unit products, quotients and powers are those of the monomials, derived units standing for their base units."""
    from eprempy import metric
    derived = S.coin('derived')
    pool = BASES + (DERIV if derived else [])
    live = []
    for i in range(3):
        n = S.choice(f'n{i}', [1, 2, 3])
        names = S.shuffled(f'b{i}', pool)[:n]
        if len({x for x in names if x in ('m', 'cm', 'km')}) > 1 or len({x for x in names if x in ('eV', 'MeV')}) > 1:
            raise Skip()
        es = [S.choice(f'e{i}{k}', [1, 1, -1, 2, -2, 3, F(1, 2), F(-3, 2)]) for k in range(n)]
        m = {x: F(e) for x, e in zip(names, es)}
        live.append((metric.unit(U.spell(S.shuffled(f's{i}', list(m.items())))), (F(1), m)))
    for i in range(S.choice('steps', [2, 4, 6])):
        op = S.choice(f'op{i}', ['*', '/', '**', '*s', 's*', '/s', '1/', '*1', '2*'])
        j, k = S.choice(f'j{i}', range(len(live))), S.choice(f'k{i}', range(len(live)))
        (a, ma), (b, mb) = live[j], live[k]
        sa, sb = str(a), str(b)
        if op == '2*':
            k = S.choice(f'k{i}', [2, 0.5, 1e3, 0, -1])
            for n, f in enumerate((lambda: k * a, lambda: a * k, lambda: a / k, lambda: k / a)):
                r, e = attempt(f)
                S.ensure(e is not None, f'{sa} has no multiple by {k} (way {n})', lambda: str(r))
            continue
        if op in ('*', '*s', 's*'):
            r = a * b if op == '*' else a * sb if op == '*s' else sa * b
            m = mono_mul(ma, mb)
        elif op in ('/', '/s'):
            r, m = (a / b if op == '/' else a / sb), mono_mul(ma, mb, -1)
        elif op == '1/':
            r, m = 1 / a, mono_mul((F(1), {}), ma, -1)
        elif op == '*1':
            r, m = S.choice(f'w{i}', [lambda: a * 1, lambda: 1 * a, lambda: a / 1])(), ma
        else:
            p = S.choice(f'p{i}', [0, 1, 2, -1, 3, F(1, 2), -2, F(1, 128), F(3, 250), 0.375])
            r, m = a ** p, (F(1), {s: e * F(p) for s, e in ma[1].items() if p})
        S.ensure(isinstance(r, metric.Unit), 'the result is a unit')
        S.ensure(str(a) == sa and str(b) == sb, 'operands are unchanged')
        if derived:
            got, want = expand([(t.base, t.exponent) for t in r]), expand(m[1].items())
        else:
            got, want = dict(drop1((t.base, t.exponent) for t in r)), dict(drop1(m[1].items()))
        S.ensure(set(got) == set(want) and all(close(float(got[x]), float(want[x]), 1e-12) for x in got),
                 f'{sa} {op} {sb}', lambda: (str(r), str(m)))
        S.ensure(metric.unit(str(r)) == r, f'the text of {r} denotes it')
        if len(live) < 6 and all(abs(e) < 50 and e.denominator < 5000 for e in m[1].values()):
            live.append((r, m))
    if not derived:
        for x, mx in live:
            for y, my in live:
                eq = dict(drop1(mx[1].items())) == dict(drop1(my[1].items()))
                S.ensure((x == y) == eq, f'{x} == {y} is {eq}')
                h, e = attempt(hash, x)
                if eq and e is None:
                    S.ensure(h == hash(y), f'hash of {x} and {y}')


def drop1(items):
    return [(b, F(e)) for b, e in items if b != '1' and e]


EXPAND = {
    'N': {'kg': 1, 'm': 1, 's': -2}, 'J': {'kg': 1, 'm': 2, 's': -2}, 'W': {'kg': 1, 'm': 2, 's': -3},
    'Pa': {'kg': 1, 'm': -1, 's': -2}, 'erg': {'g': 1, 'cm': 2, 's': -2}, 'dyn': {'g': 1, 'cm': 1, 's': -2},
    'T': {'kg': 1, 's': -2, 'A': -1}, 'V': {'kg': 1, 'm': 2, 's': -3, 'A': -1}, 'C': {'A': 1, 's': 1},
    'Wb': {'kg': 1, 'm': 2, 's': -2, 'A': -1},
}


def expand(items):
    out = {}
    for b, e in drop1(items):
        for x, k in EXPAND.get(b, {b: 1}).items():
            out[x] = out.get(x, F(0)) + e * k
    return {x: e for x, e in out.items() if e}
