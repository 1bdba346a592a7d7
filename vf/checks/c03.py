"""C03: parsing and formatting of expressions and units are inverse."""
import fractions
import functools
import itertools
import re

from .. import units as U
from ..core import contract, SymbolicOnly, attempt, need, Skip, Unsupported, close

F = fractions.Fraction

# -- the ordinary rules, written down independently --------------------------------

RAT = re.compile(r'[-+]?(?=\d|\.\d)\d*(?:(?:/\d+)|(?:\.\d*)?(?:[eE][-+]?\d+)?)')
BASE = re.compile(r'[a-zA-ZμΩ#_]+\d*')


class Ill(Exception):
    """The text is ill-formed."""


class Unclaimed(Exception):
    """The statement does not say what the text means."""


def mul(p, q, k=1):
    m = dict(p[1])
    for s, e in q[1].items():
        m[s] = m.get(s, F(0)) + k * e
    return p[0] * q[0] ** k, {s: e for s, e in m.items() if e}


def power(p, e):
    e = F(e)
    if e.denominator != 1 and p[0] != 1:
        raise Unclaimed()
    return (p[0] ** int(e) if e.denominator == 1 else F(1)), {s: x * e for s, x in p[1].items() if x * e}


def reference(s):
    """(coefficient, exponents) that the text spells."""
    v, i = _expr(s, 0, 0)
    return v


def _ws(s, i):
    while i < len(s) and s[i] == ' ':
        i += 1
    return i


def _expr(s, i, depth):
    acc, n, unclaimed = (F(1), {}), 0, False
    while True:
        i = _ws(s, i)
        if i == len(s) or s[i] == ')':
            if (i == len(s)) != (depth == 0):
                raise Ill()
            if n == 0:
                if depth == 0:
                    raise Ill()
                unclaimed = True            # '()'
            if unclaimed:
                acc = None
            return acc, i
        op = 1
        if s[i] in '*/':
            op = 1 if s[i] == '*' else -1
            unclaimed |= n == 0             # a leading operator
            i = _ws(s, i + 1)
            if i == len(s) or s[i] in '*/)':
                raise Ill()
            if op == -1:
                m = RAT.match(s, i)
                if m and m.end() < len(s) and s[m.end()] == '(':
                    unclaimed = True        # 'a/2(b)'
        v, i = _operand(s, i, depth)
        if v is None:
            unclaimed = True
        else:
            acc = mul(acc, v, op)
        n += 1


def _exponent(s, i):
    if i < len(s) and s[i] == '^':
        m = RAT.match(s, i + 1)
        if not m:
            raise Ill()
        if re.search(r'/0+$', m[0]):
            raise Ill()
        return F(m[0]), m.end()
    return F(1), i


def _operand(s, i, depth):
    c, m = F(1), RAT.match(s, i)
    had = False
    if m:
        if re.search(r'/0+$', m[0]):
            raise Ill()
        c, i, had = F(m[0]), m.end(), True
    b = BASE.match(s, i)
    if b:
        e, i = _exponent(s, b.end())
        return (c, {b[0]: e} if e else {}), i
    if i < len(s) and s[i] == '(':
        v, j = _expr(s, i + 1, depth + 1)
        e, j = _exponent(s, j + 1)
        if v is None:
            return None, j
        try:
            v = power(v, e)
        except Unclaimed:
            return None, j
        return (c * v[0], v[1]), j
    if had:
        e, i = _exponent(s, i)
        if e.denominator != 1 and c != 1:
            return None, i
        return (c ** int(e) if e.denominator == 1 else F(1), {}), i
    raise Ill()


def read(expr):
    c, m = F(1), {}
    for t in expr:
        c *= t.coefficient
        if t.base != '1':
            m[t.base] = m.get(t.base, 0) + t.exponent
    return c, m


def same(p, q, tol=1e-12):
    return close(float(p[0]), float(q[0]), tol) and set(p[1]) == set(q[1]) and all(
        close(float(p[1][k]), float(q[1][k]), tol) for k in p[1])


FUNCS = ['eprempy.symbolic._parser.Parser.parse', 'eprempy.symbolic._operand.OperandFactory.parse',
         'eprempy.symbolic._operand.OperandFactory.find_bounds', 'eprempy.symbolic._operator.OperatorFactory.parse',
         'eprempy.symbolic.expression']


# -- every short text -------------------------------------------------------------

TOKENS = ['a', 'b', '2', '*', '/', '(', ')', '^', ' ']
TOKENS2 = ['x', '(', ')', '^', '/', '*', '-1', '1/2', '3', '.5', ' ', 'y2']


def texts(tier):
    k = 4 if tier == 'quick' else 5
    for toks, n in ((TOKENS, k + (tier != 'quick')), (TOKENS2, k)):
        for first in itertools.product(toks, repeat=2):
            yield (0 if toks is TOKENS else 1, ''.join(first[:1]), ''.join(first[1:]), n)


@contract('C03', 'every-short-text', cases=texts, finite_is_proof=False, rand=(0, 0),
          bound='every string of up to 4 tokens (thorough: 6 and 5) over two alphabets of 9 and 12 tokens', functions=FUNCS)
def every_short_text(S, case):
    """Well-formed text denotes the product it spells and ill-formed text is rejected."""
    from eprempy import symbolic
    which, a, b, n = case
    toks = (TOKENS, TOKENS2)[which]
    seqs = [a] if b == toks[0] else []
    seqs += [a + b]
    seqs += [a + b + ''.join(t) for k in range(1, n - 1) for t in itertools.product(toks, repeat=k)]
    for s in seqs:
        try:
            want = reference(s)
        except Ill:
            r, e = attempt(symbolic.expression, s)
            S.ensure(e is not None, f'ill-formed {s!r} is rejected', lambda: str(r))
            continue
        except (Unclaimed, ZeroDivisionError):
            continue
        if want is None or not 1e-300 < abs(want[0]) < 1e300:
            continue
        r, e = attempt(symbolic.expression, s)
        S.ensure(e is None, f'{s!r} is accepted', lambda: repr(e))
        got = read(r)
        S.ensure(same(got, want), f'{s!r} denotes {want}', lambda: str(r))


# -- long texts with random spacing and grouping ------------------------------------

NAMES = ['a', 'b', 'x', 'm2', 'abc', 'Omega', 'p_1', 'μ', 'Ω', '#', 'e', 'E3', 'Z9']
NUMS = ['1', '2', '10', '3.5', '.5', '1/2', '22/7', '11/12', '1e3', '2.5E-2', '0.125', '5.', '3/16']
POWS = ['2', '3', '-1', '-2', '1/2', '-1/2', '3/2', '0', '+2', '-3/4', '11/13', '.5', '-1.5', '1']


def gen(S, tag, depth):
    """(text, monomial, kind) of one expression; kind is 'atom' when it may follow '/' unambiguously."""
    n = S.choice(tag + 'n', [1, 2, 2, 3, 4] if depth else [1, 2, 3])
    text, value = '', (F(1), {})
    prev = None
    for i in range(n):
        t, v = gen_operand(S, f'{tag}{i}', depth)
        if i == 0:
            text, value = t, v
            continue
        op = S.choice(f'{tag}o{i}', ['*', ' ', '/', '*', ' '])
        if op == '/' and (re.match(r'[-+]?[\d.][^(]*\(', t) and not t.startswith('(')):
            op = '*'
        sp = S.choice(f'{tag}s{i}', ['', ' ', '  '])
        sq = S.choice(f'{tag}q{i}', ['', ' ', '  '])
        if op == ' ':
            sep = S.choice(f'{tag}w{i}', [' ', '  '])
            if t[:1] in '(' or text.endswith(')'):
                sep = S.choice(f'{tag}ww{i}', ['', ' '])
                if sep == '' and not (text.endswith(')') or re.search(r'[a-z]$', text)):
                    sep = ' '
                if sep == '' and text.endswith(')') and not t[:1].isalpha() and t[:1] != '(':
                    sep = ' '
        else:
            sep = sp + op + sq
            if op == '/' and t[:1] in '0123456789.' and text[-1:] in '0123456789.':
                sep = ' / '
        text, value = text + sep + t, mul(value, v, -1 if op == '/' else 1)
    return text, value


def gen_operand(S, tag, depth):
    kinds = ['var', 'var', 'cvar', 'const'] + (['group', 'group', 'cgroup'] if depth else [])
    k = S.choice(tag + 'k', kinds)
    p = S.choice(tag + 'p', ['', '', '^']) and S.choice(tag + 'e', POWS)
    if k in ('var', 'cvar'):
        b = S.choice(tag + 'b', NAMES)
        c = ''
        if k == 'cvar':
            c = S.choice(tag + 'c', NUMS)
            if b[0] in 'eE':
                b = 'a'
        e = F(p) if p else F(1)
        return c + b + (f'^{p}' if p else ''), (F(c or '1'), {b: e} if e else {})
    if k == 'const':
        c = S.choice(tag + 'c', NUMS)
        if p and F(p).denominator != 1:
            p = '2'
        return c + (f'^{p}' if p else ''), (F(c) ** int(F(p)) if p else F(c), {})
    t, v = gen(S, tag + 'g', depth - 1)
    if p and F(p).denominator != 1 and v[0] != 1:
        p = S.choice(tag + 'pi', ['2', '-1', '3'])
    a, b = S.choice(tag + 'l', ['', ' ']), S.choice(tag + 'r', ['', ' '])
    text = f'({a}{t}{b})'
    if S.choice(tag + 'x', [0, 0, 1]):
        text = f'({text})'
    if p:
        text += f'^{p}'
        v = power(v, F(p))
    if k == 'cgroup':
        c = S.choice(tag + 'cc', NUMS)
        return c + text, (F(c) * v[0], v[1])
    return text, v


@contract('C03', 'long-texts', rand=(2500, 30000), functions=FUNCS,
          bound='sampled texts with up to 3 levels of grouping and 4 factors per level')
def long_texts(S):
    """Any accepted text denotes the product it spells, whatever the spacing and redundant parentheses; its text form parses back."""
    from eprempy import symbolic
    text, value = gen(S, 't', S.choice('depth', [0, 1, 2, 3]))
    if reference_or_none(text) != value or not 1e-200 < abs(value[0]) < 1e200:
        raise Skip()
    pad = S.choice('pad', ['', ' '])
    r, e = attempt(symbolic.expression, pad + text + pad)
    S.ensure(e is None, f'{text!r} is accepted', lambda: repr(e))
    S.ensure(same(read(r), value), f'{text!r} denotes {value}', lambda: str(r))
    back, e = attempt(symbolic.expression, str(r))
    S.ensure(e is None and same(read(back), read(r)), f'{str(r)!r} parses back to an equal expression',
             lambda: f'{e!r} {back}')
    if read(r)[0] == value[0]:
        S.ensure(back == r and r == back, f'{str(r)!r} parses back to an equal expression')
    listed, e = attempt(symbolic.expression, list(r))
    S.ensure(e is None and same(read(listed), read(r)), 'the terms of the expression denote it')
    h = symbolic.expression(f'({text})')
    S.ensure(h == r and hash(h) == hash(r), 'redundant parentheses do not matter')


def reference_or_none(text):
    try:
        return reference(text)
    except (Ill, Unclaimed, ZeroDivisionError):
        return None


@contract('C03', 'broken-texts', rand=(1500, 20000), functions=FUNCS,
          bound='sampled texts with one character deleted, inserted or replaced')
def broken_texts(S):
    """Damaging a text either yields another text, read by the rules, or is rejected."""
    from eprempy import symbolic
    text, value = gen(S, 't', S.choice('depth', [0, 1, 2]))
    i = S.choice('i', range(len(text)))
    kind = S.choice('kind', ['del', 'ins', 'rep', 'dup'])
    c = S.choice('c', ['(', ')', '^', '*', '/', '+', '-', '&', '!', '[', ','])
    bad = {'del': text[:i] + text[i + 1:], 'ins': text[:i] + c + text[i:], 'rep': text[:i] + c + text[i + 1:],
           'dup': text[:i] + text[i] + text[i:]}[kind]
    if not bad.strip():
        raise Skip()
    try:
        want = reference(bad)
    except Ill:
        r, e = attempt(symbolic.expression, bad)
        S.ensure(e is not None, f'ill-formed {bad!r} is rejected', lambda: str(r))
        return
    except (Unclaimed, ZeroDivisionError):
        raise Skip()
    if want is None or max(map(abs, want[1].values()), default=0) > 10 ** 6 or not (1e-200 < abs(want[0]) < 1e200):
        raise Skip()
    r, e = attempt(symbolic.expression, bad)
    S.ensure(e is None, f'{bad!r} is accepted', lambda: repr(e))
    S.ensure(same(read(r), want), f'{bad!r} denotes {want}', lambda: str(r))


# -- groups, for all exponents --------------------------------------------------------

GROUPS = ['a', 'a b', 'a * b', 'a / b', 'a^2 b', 'a^-1/2 / b^3', '(a b)^2 c', 'a / (b c)', 'a / (b / c)', '((a))',
          'a (b (c d)^2)^3', '(a / b)^-1 c', 'a b a', 'a / a', 'a^1/2 a^3/2']


@contract('C03', 'groups', sym='shape', bound=f'{len(GROUPS)} stated texts, every real exponent and every coefficient > 0',
          functions=['eprempy.symbolic._parser.Parser._resolve_operations', 'eprempy.symbolic._parser.Parser._parse_operand',
                     'eprempy.symbolic._parser.Parser._evaluate', 'eprempy.symbolic._parser.Parser._update_terms',
                     'eprempy.symbolic._operand.Operand.__pow__'])
def groups(S):
    """A group raised to a power raises every member, and its coefficient multiplies, for every real exponent."""
    if not S.symbolic:
        raise SymbolicOnly()
    from eprempy import symbolic
    text = S.choice('text', GROUPS)
    operand = need('eprempy.symbolic._operand', 'Operand')
    p = need('eprempy.symbolic._parser', 'Parser')()
    if not hasattr(p, '_resolve_operations'):
        raise Unsupported('the parser does not resolve groups in _resolve_operations')
    c, e = S.pos('c'), S.real('e', nonzero=True)
    terms = p._resolve_operations(operand(c, text, e))
    want = reference(text)
    got, gc = {}, 1
    for t in terms:
        gc = gc * t.coefficient
        if t.base != '1':
            got[t.base] = got[t.base] + t.exponent if t.base in got else t.exponent
    S.ensure(S.eq(gc, c), f'{text}: the coefficient multiplies')
    for b in set(got) | set(want[1]):
        S.ensure(S.eq(got.get(b, 0), want[1].get(b, F(0)) * e), f'{text}: the exponent of {b} is multiplied')


# -- text forms ---------------------------------------------------------------------

VALS = sorted({F(n, d) * s for n in (0, 1, 2, 3, 7, 10, 11, 12, 123, 10 ** 6) for d in (1, 2, 3, 7, 10, 12, 100)
               for s in (1, -1)} | {F(1e-3), F(0.1), F(2.5), F(1, 3), F(10 ** 9)})


def term_cases(tier):
    return [(c, b) for c in VALS for b in ('a', 'm2', '1', '#', 'abc_d')]


@contract('C03', 'term-text', cases=term_cases, finite_is_proof=False,
          bound=f'{len(VALS)} coefficients and exponents (all pairs), 5 symbols',
          functions=['eprempy.symbolic._operand.Term.format', 'eprempy.symbolic._operand.OperandFactory.create'])
def term_text(S, case):
    """The text of a term, and of an expression of one term, denotes it."""
    from eprempy import symbolic
    c, b = case
    for e in VALS:
        t = symbolic.term(coefficient=c, base=b, exponent=e)
        want = (c, {} if b == '1' or e == 0 or c == 0 and False else {b: e})
        r, ex = attempt(symbolic.expression, str(t))
        S.ensure(ex is None, f'{str(t)!r} is accepted', lambda: repr(ex))
        S.ensure(same(read(r), want), f'{str(t)!r} denotes {c} {b}^{e}', lambda: str(r))
        r2 = symbolic.expression([t])
        S.ensure(r2 == r, 'the list form agrees')
        r3 = symbolic.expression(str(r))
        S.ensure(r3 == r, f'{str(r)!r} parses back')


@contract('C03', 'factor-texts', rand=(600, 8000), bound='sampled lists of up to 5 terms',
          functions=['eprempy.symbolic.expression', 'eprempy.symbolic._expression.standard',
                     'eprempy.symbolic._expression.Expression.__str__'])
def factor_texts(S):
    """Writing any list of terms and parsing the text gives the expression they denote; so does its text form."""
    from eprempy import symbolic
    n = S.choice('n', [1, 2, 3, 4, 5])
    ts, want = [], (F(1), {})
    for i in range(n):
        c, b, e = S.choice(f'c{i}', VALS), S.choice(f'b{i}', ['a', 'b', 'xy', 'm2', '1']), S.choice(f'e{i}', VALS)
        if c == 0:
            c = F(1)
        ts.append(symbolic.term(coefficient=c, base=b, exponent=e))
        want = mul(want, (c, {b: e} if b != '1' and e else {}))
    r, ex = attempt(symbolic.expression, ts)
    S.ensure(ex is None and same(read(r), want), f'{[str(t) for t in ts]} denotes {want}', lambda: f'{ex!r} {r}')
    back = symbolic.expression(str(r))
    S.ensure(same(read(back), want), f'{str(r)!r} parses back', lambda: str(back))
    if want[0] == 1 or abs(float(want[0]) - 1) > 1e-9:
        S.ensure(back == r and r == back, 'to an equal expression')
    joined = symbolic.expression(' * '.join(f'({t})' for t in ts))
    S.ensure(joined == r, 'the product of the texts denotes the product')


# -- separators ------------------------------------------------------------------------

@contract('C03', 'custom-tokens', rand=(300, 3000), bound='sampled texts, 4 sets of operator and separator tokens', functions=FUNCS)
def custom_tokens(S):
    """The same texts written with other operator and separator tokens denote the same products."""
    from eprempy import symbolic
    text, value = gen(S, 't', S.choice('depth', [0, 1, 2]))
    if reference_or_none(text) != value or re.search(r'\d/\d', text):
        raise Skip()
    kw, table = S.choice('tokens', [
        ({'opening': '[', 'closing': ']'}, {'(': '[', ')': ']'}),
        ({'opening': '{', 'closing': '}', 'raising': '@'}, {'(': '{', ')': '}', '^': '@'}),
        ({'multiply': '.'}, None), ({'multiply': '&', 'divide': '|'}, {'*': '&', '/': '|'})])
    if table is None:
        kw, table = {'multiply': ';'}, {'*': ';'}
    if 'μ' in text or 'Ω' in text:
        raise Skip()
    t = ''.join(table.get(c, c) for c in text)
    r, e = attempt(lambda: symbolic.expression(t, **kw))
    S.ensure(e is None, f'{t!r} is accepted with {kw}', lambda: repr(e))
    S.ensure(same(read(r), value), f'{t!r} denotes {value}', lambda: str(r))


def _swap(text, table):
    """What a text written with other tokens says in the ordinary ones; a token left without a meaning becomes '!'."""
    back = {v: k for k, v in table.items()}
    lost = set(table) - set(table.values())
    out, i = '', 0
    while i < len(text):
        for tok in sorted(back, key=len, reverse=True):
            if text.startswith(tok, i):
                out += back[tok]
                i += len(tok)
                break
        else:
            out += '!' if text[i] in lost else text[i]
            i += 1
    return out


READERS = [({}, {}), ({'raising': '@'}, {'^': '@'}), ({'multiply': '/', 'divide': '*'}, {'*': '/', '/': '*'}),
           ({'multiply': ';'}, {'*': ';'}), ({'divide': '|'}, {'/': '|'}), ({'opening': '[', 'closing': ']'}, {'(': '[', ')': ']'}),
           ({'operator_order': 'ignore'}, {})]


@contract('C03', 'repeated readings', rand=(400, 4000), bound='sampled texts, up to 6 readings with 7 sets of tokens',
          functions=FUNCS + ['eprempy.symbolic._expression._init_terms'])
def repeated_readings(S):
    """What a text denotes follows from the text and the tokens of this reading, whatever was read before."""
    from eprempy import symbolic
    text, value = gen(S, 't', S.choice('depth', [0, 1, 1, 2]))
    if reference_or_none(text) != value or re.search(r'\d/\d', text):
        raise Skip()
    _, table = S.choice('written', READERS)
    t = ''.join(table.get(c, c) for c in text)
    for i in range(S.choice('n', [2, 3, 6])):
        kw, table = S.choice(f'read{i}', READERS)
        plain = _swap(t, table)
        if re.search(r'\d/\.?\d', plain):
            continue                        # a number or a division, depending on the token
        r, e = attempt(lambda: symbolic.expression(t, **kw))
        try:
            want = reference(plain)
        except Ill:
            S.ensure(e is not None, f'{t!r} is ill-formed with {kw}', lambda: str(r))
            continue
        except (Unclaimed, ZeroDivisionError):
            continue
        if want is None or not (1e-200 < abs(want[0]) < 1e200):
            continue
        S.ensure(e is None, f'{t!r} is accepted with {kw}', lambda: repr(e))
        S.ensure(same(read(r), want), f'{t!r} denotes {want} with {kw}', lambda: str(r))


ORDERS = ['a / b / c', 'a/b/c', 'a / b * c', 'a / (b c) / d', 'a (b / c / d)', '(a / b * c)^2', 'a b / c / d', 'x * y / z * w']
ORDERED = ['a / b', '(a / b) / c', 'a / (b / c)', '(a / b) * c', 'a / (b * c)', 'a * b * c', 'a * b / c', 'a b c', '(a * b) / (c * d)',
           'a^2 / b^3', '2a / (3b)']


@contract('C03', 'ambiguous order', cases=lambda tier: [(t, True) for t in ORDERS] + [(t, False) for t in ORDERED], finite_is_proof=False,
          bound=f'{len(ORDERS) + len(ORDERED)} stated texts', functions=['eprempy.symbolic._parser.Parser._operator_error'])
def ambiguous_order(S, case):
    """A reading that is to refuse an ambiguous order of operators refuses exactly that."""
    from eprempy import symbolic
    text, bad = case
    for _ in range(2):
        r, e = attempt(lambda: symbolic.expression(text, operator_order='error'))
        if bad:
            S.ensure(e is not None, f'{text!r} is refused when the order counts', lambda: str(r))
        else:
            S.ensure(e is None and same(read(r), reference(text)), f'{text!r} is read as usual when the order counts', lambda: f'{e!r} {r}')
        r, e = attempt(lambda: symbolic.expression(text))
        S.ensure(e is None and same(read(r), reference(text)), f'{text!r} is read by the ordinary rules', lambda: f'{e!r} {r}')


# -- units ------------------------------------------------------------------------------

def unit_chunks(tier):
    names = sorted(U.UNIQUE)
    k = 12
    return [tuple(names[i:i + k]) for i in range(0, len(names), k)]


UEXP = [1, 2, 3, -1, -2, F(1, 2), F(-1, 2), F(3, 2), F(-7, 3)]


@contract('C03', 'every-unit-text', cases=unit_chunks, bound='every unambiguous unit spelling with 9 exponents',
          functions=['eprempy.metric._units.unit_factory', 'eprempy.metric._units.Unit.__str__', 'eprempy.metric._units.unitlike'])
def every_unit_text(S, names):
    """The text of a unit parses back to an equal unit."""
    from eprempy import metric
    for n in names:
        for e in UEXP:
            t = U.spell([(n, e)])
            u, ex = attempt(metric.unit, t)
            S.ensure(ex is None, f'{t!r} is a unit', lambda: repr(ex))
            v, ex = attempt(metric.unit, str(u))
            S.ensure(ex is None and v == u, f'{str(u)!r}, the text of {t!r}, parses back', lambda: f'{ex!r} {v}')


@contract('C03', 'unit-texts', rand=(800, 10000), bound='sampled products of up to 4 units',
          functions=['eprempy.metric._units.unit_factory'])
def unit_texts(S):
    """Unit text denotes the product it spells, independently of spacing and grouping, and its text form parses back."""
    from eprempy import metric
    pool = ['m', 's', 'kg', 'cm', 'km', 'au', 'MeV', 'erg', 'J', 'nT', 'nuc', 'sr', '#', 'K', 'A', 'μs', 'Ω', 'day', 'C', 'G']
    n = S.choice('n', [1, 2, 3, 4])
    parts, want = [], {}
    for i, b in enumerate(S.shuffled('b', pool)[:n]):
        e = F(S.choice(f'e{i}', UEXP))
        parts.append((b, e))
    style = S.choice('style', ['*', ' ', '/', '(', 'names'])
    if style == '/' and n > 1:
        (b0, e0), rest = parts[0], parts[1:]
        text = U.spell([parts[0]]) + S.choice('s', [' / ', '/']) + '(' + U.spell(rest) + ')'
        want = {b0: e0, **{b: -e for b, e in rest}}
    elif style == '(':
        k = F(S.choice('k', [2, -1, F(1, 2)]))
        text = '(' + U.spell(parts) + f')^{k}'
        want = {b: e * k for b, e in parts}
    else:
        text = (' * ' if style == '*' else ' ').join(U.spell([p]) for p in parts)
        want = dict(parts)
    u, ex = attempt(metric.unit, text)
    S.ensure(ex is None, f'{text!r} is a unit', lambda: repr(ex))
    got = {t.base: t.exponent for t in u if t.base != '1' and t.exponent}
    ref = {b: e for b, e in want.items() if e}
    sym = {str(next(iter(metric.unit(b))).base): e for b, e in ref.items()}
    S.ensure(same((1, got), (1, sym)), f'{text!r} denotes {want}', lambda: str(u))
    v, ex = attempt(metric.unit, str(u))
    S.ensure(ex is None and v == u, f'{str(u)!r} parses back')


def bad_units(tier):
    return ['m *', '/ / s', 'm ** s', '(m', 'm)', 'm^', '^2', 'm^^2', 'm+s', 'foo', 'qqm', 'm / (s', 'm^s', '2 m', 'm 3', '',
            'kkm', 'meterr', 'm * foo', 'mm m^x', '((m)', ' ', 'm & s', 'm^2^2']


@contract('C03', 'ill-formed-units', cases=bad_units, finite_is_proof=False, bound='24 stated texts', functions=['eprempy.metric._units.unit_factory'])
def ill_formed_units(S, text):
    """Ill-formed unit text and names of no unit are rejected."""
    from eprempy import metric
    r, e = attempt(metric.unit, text)
    S.ensure(e is not None, f'{text!r} is rejected', lambda: str(r))
