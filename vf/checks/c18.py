"""C18: run parameters take the value, type and default the configuration implies."""
import contextlib
import io
import math
import os
import pathlib
import re
import shutil

import numpy

from ..core import contract, attempt, need, close
from .. import dataset as D
from .. import sym
from ..parameters import TABLE, CONSTANTS

CFG = 'eprempy.parameter._config.'
RUN = 'eprempy.parameter._runtime.'
SRC = 'eprempy.parameter._src.'
PARSE = [CFG + n for n in ('_parse_config', 'configfile_factory', 'ConfigFile.parsed', 'ConfigFile.__getitem__', 'ConfigFile.__iter__', 'ConfigFile.__len__')] + ['eprempy.paths.strip_inline_comments']
VALUE = [RUN + n for n in ('interface_factory', '_init_interface', 'Interface.__getitem__', 'variable_factory', 'variable_args')] + [
    CFG + n for n in ('_convert', 'soft_convert', 'stringlist', 'cast')]
DEFAULT = [CFG + 'Defaults.' + n for n in ('__init__', '__getitem__', '_evaluate', '_resolve', '_compute_sum', '_get_argument')] + [
    SRC + n for n in ('BaseTypesH.__getitem__', 'BaseTypesH._compute', 'BaseTypesH._evaluate', 'ConfigurationC.__getitem__', 'SourceFile.load_from_package')]
MARKS = ['#', '!', ';', '%']
KIND = {k: t[0] for k, t in TABLE.items()}
DEGREES = [k for k, t in TABLE.items() if t[2] == 'rad']
COMPUTED = {k: t[1] for k, t in TABLE.items() if 'config.' in t[1]}
SOURCES = sorted({m for t in COMPUTED.values() for m in re.findall(r'config\.(\w+)', t)})


# the oracle: the documented defaults, evaluated by Python's own arithmetic -------------
def constants(defined=CONSTANTS):
    out = {}

    class Names(dict):
        def __missing__(self, k):
            if k == 'sqrt':
                return math.sqrt
            kind, text = defined[k]
            out[k] = self[k] = (int if kind == 'int' else float)(eval(text, {'__builtins__': {}}, self))
            return self[k]
    names = Names()
    for k in defined:
        out.setdefault(k, names[k])
    return out


VALUES = constants()


class Member:
    def __init__(self, value): self.__dict__['value'] = value
    def __getattr__(self, k): return self.__dict__['value'](k)


def implied(written, table=TABLE, values=VALUES):
    """The value of each parameter, given the written ones (already of their types)."""
    names = {**values, 'N_PROCS': None, 'third': 1 / 3}

    def value(k):
        if k in written:
            return written[k]
        kind, text = table[k][:2]
        if kind == 'str':
            return text
        x = eval(text, {'__builtins__': {}}, {**names, 'config': Member(value)})
        return x if x is None or kind == 'list' else (int(x) if kind == 'int' else x)
    return {k: value(k) for k in table}


# generated configurations ---------------------------------------------------------------
def number(S, kind):
    r = S.rng
    if kind == 'int':
        n = r.choice([0, 1, 2, r.randint(-9, 9), r.randint(-10**6, 10**6)])
        return r.choice([str(n), f'{n:+d}', f'{n:03d}' if n >= 0 else str(n)]), n
    x = r.choice([float(r.randint(-9, 9)), round(r.uniform(-10, 10), 3), r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20), 0.0, 1.0])
    text = r.choice([repr(x), f'{x:e}', f'{x:.17E}', repr(x).removesuffix('.0'), repr(x).removesuffix('0') if repr(x).endswith('.0') else repr(x),
                     repr(x).replace('0.', '.', 1) if repr(x).startswith('0.') else repr(x)])
    return text, float(text)


WORDS = ['a', '/data/run', 'x=y', '"quoted"', "'single'", 'two words', 'warnings.txt', '../up', 'a-b_c.d', '1.5', 'config.eMin', 'None', '[a]', 'a = b = c']


def written(S, name, more=()):
    """Text for the value of a parameter, and the value."""
    kind, r = KIND[name], S.rng
    if kind == 'str':
        w = r.choice(WORDS + ['', *more, *more])
        return w, w
    if kind == 'list':
        items = [number(S, r.choice(['int', 'float'])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        gap = lambda: r.choice(['', '', ' ', '  ', '\t'])
        if len(items) == 1 and r.random() < .3:
            return items[0][0], [items[0][1]]
        return '[' + ','.join(gap() + t + gap() for t, _ in items) + (gap() if not items else '') + ']', [v for _, v in items]
    text, value = number(S, kind)
    if name == 'idealShockScaleLength' and value == 0:
        return '2.5', 2.5
    return text, value


class File:
    """A random configuration file and the values written in it."""

    def __init__(self, S, marks=None, strange=True, names=None):
        r = S.rng
        self.marks = marks if marks is not None else r.sample(MARKS, r.randint(1, 3))
        mark = lambda: r.choice(self.marks)
        pool = list(TABLE)
        k = r.choice([0, 1, 3, 8, 20, len(pool)])
        chosen = r.sample(pool, k) if names is None else list(names)
        r.shuffle(chosen)
        if chosen and r.random() < .4:
            chosen += r.choices(chosen, k=r.randint(1, 3))        # written again: the last one counts
        if r.random() < .5:
            chosen += r.sample(COMPUTED_SOURCES, r.randint(1, 3))
        other = [f'a{m}b' for m in MARKS if m not in self.marks]     # (no comments in this file)
        self.text, self.values, lines = {}, {}, []
        gap = lambda: r.choice(['', '', ' ', '   ', '\t', ' \t '])
        noise = ['just text', 'eMin = 7', 'a = b = c', '=', '', '-----', '[x]']
        for name in chosen:
            t, v = written(S, name, other)
            self.text[name], self.values[name] = t, v
            lines.append(f"{gap()}{name}{gap()}={gap()}{t}{gap()}" + (f'{mark()}{gap()}{r.choice(noise)}' if r.random() < .3 else ''))
        if strange:
            for _ in range(r.choice([0, 0, 1, 2])):
                key = r.choice(['unknown', 'EMIN', 'lam0', 'R0', 'name_1'])
                t = r.choice(WORDS + other)
                self.text[key] = t
                lines.append(f'{key}{gap()}={gap()}{t}')
        for _ in range(r.choice([0, 1, 3, 6])):
            junk = r.choice([gap(), gap() + mark() + gap() + r.choice(noise), mark(), '', mark() + mark() + ' x = 1'])
            lines.insert(r.randint(0, len(lines)), junk)
        end = r.choice(['\n', '\n', '\n', '\r\n'])
        body = end.join(lines) + r.choice([end, '', end + end])
        self.path = os.path.join(D.scratch(), r.choice(['eprem.cfg', 'config.ini', 'run']))
        with open(self.path, 'w', newline='') as fp:
            fp.write(body)
        self.body = body

    def options(self, S):
        if self.marks == ['#'] and S.rng.random() < .5:
            return {}
        return {'comments': S.rng.choice([list, tuple, ''.join])(self.marks)}

    def expected(self):
        return implied(self.values)

    def close(self): shutil.rmtree(os.path.dirname(self.path))


COMPUTED_SOURCES = [k for k in SOURCES if k in TABLE]


def where(S, path):
    r = S.rng.random()
    if r < .3:
        return pathlib.Path(path)
    return os.path.relpath(path) if r < .5 else path


@contract('C18', 'parsing', functions=PARSE, rand=(150, 3000),
          clause='The parsed file has exactly the written parameters, each with the text of its last occurrence, whatever the spacing, comments and order.')
def parsing(S):
    f = File(S)
    try:
        got, e = attempt(need('eprempy.parameter', 'configfile'), where(S, f.path), **f.options(S))
        S.ensure(e is None, 'a configuration file is accepted', lambda: e)
        d, e = attempt(dict, got)
        S.ensure(e is None, 'a configuration file is read', lambda: (e, f.body))
        S.ensure(d == f.text, 'the written parameters and their texts', lambda: (f.body, {k: (d.get(k), f.text.get(k)) for k in set(d) | set(f.text) if d.get(k) != f.text.get(k)}))
        S.ensure(len(got) == len(f.text) and list(got) == list(d), 'one entry for each written parameter', lambda: (list(got), list(f.text)))
        absent = S.rng.choice([k for k in list(TABLE) + ['zz'] if k not in f.text] or ['zz'])
        value, e = attempt(lambda: got[absent])
        S.ensure(isinstance(e, KeyError), 'a parameter that is not written has no value', lambda: (absent, value, e))
        S.ensure(absent not in got and got.get(absent, 7) == 7, 'a parameter that is not written is absent', lambda: absent)
    finally:
        f.close()


def unit_of(name, degrees):
    u = TABLE[name][2]
    return 'deg' if u == 'rad' and degrees else u


def numbers_of(x):
    return [float(i) for i in (x if isinstance(x, list) else [x])]


def check(S, i, name, lookup, want, degrees, label):
    """The interface gives the value, type and unit of a parameter."""
    v, e = attempt(lambda: i[lookup])
    S.ensure(e is None, f'{label} exists', lambda: (lookup, e))
    unit = unit_of(name, degrees)
    if unit is None:
        kind = type(None) if want is None else {'int': int, 'float': float, 'str': str, 'list': list}[KIND[name]]
        S.ensure(type(v) is kind, f'{label} has its type', lambda: (lookup, v, type(v), kind))
        S.ensure(v == want or kind is float and close(v, want, 1e-12), f'{label} has its value', lambda: (lookup, v, want))
        return
    S.ensure(type(v).__name__ == 'Variable', f'{label} is a variable', lambda: (lookup, v))
    S.ensure(v.unit == need('eprempy.metric', 'unit')(unit), f'{label} has its unit', lambda: (lookup, v.unit, unit))
    data = numpy.asarray(v.data)
    xs = numbers_of(want)
    S.ensure(data.dtype.kind in 'iuf' and data.shape == (len(xs),), f'{label} is numeric', lambda: (lookup, data, want))
    S.ensure(all(close(a, b, 1e-12) for a, b in zip(data, xs)), f'{label} has its value', lambda: (lookup, data, want))
    if KIND[name] != 'list':
        S.ensure(KIND[name] != 'int' or data.dtype.kind in 'iu', f'{label} has its type', lambda: (lookup, data.dtype))
        S.ensure(close(float(v), xs[0], 1e-12), f'{label} converts to a number', lambda: (lookup, float(v), xs))


@contract('C18', 'values', functions=VALUE + DEFAULT + PARSE, rand=(40, 900),
          clause='Each parameter has the written value in its type, otherwise its documented default, by every alias, with the documented unit.')
def values(S):
    interface = need('eprempy.parameter', 'interface')
    f = File(S)
    try:
        p, o = where(S, f.path), f.options(S)
        style = S.rng.randrange(3)
        i, e = attempt(lambda: interface(p, **o) if style == 0 else interface(config=p, **o) if style == 1 else interface(p, None, **o))
        S.ensure(e is None, 'an interface to the configuration', lambda: (f.body, e))
        want = f.expected()
        degrees = bool(want['useDegrees'])
        for name in TABLE:
            label = 'a written parameter' if name in f.values else 'a computed default' if name in COMPUTED else 'a default'
            check(S, i, name, name, want[name], degrees, label)
            for alias in TABLE[name][3]:
                check(S, i, name, alias, want[name], degrees, 'an alias')
                S.ensure(alias in i, 'an alias is present', lambda: alias)
        for bad in ('unknown', 'EMIN', 'eMinn', ''):
            v, e = attempt(lambda: i[bad])
            S.ensure(isinstance(e, KeyError), 'an unknown parameter is refused', lambda: (bad, v, e))
        missing, e = attempt(interface, f.path + 'x')
        S.ensure(e is not None, 'a missing configuration file is refused')
    finally:
        f.close()


@contract('C18', 'defaults', functions=DEFAULT + VALUE, rand=(1, 1),
          clause='Without a configuration every parameter has its documented default, and every constant its documented value.')
def defaults(S):
    i = need('eprempy.parameter', 'interface')()
    want = implied({})
    presented(S, i, TABLE, CONSTANTS, VALUES)
    for name in TABLE:
        check(S, i, name, name, want[name], False, 'a default')
        for alias in TABLE[name][3]:
            check(S, i, name, alias, want[name], False, 'an alias')
    d = need('eprempy.parameter', 'defaults')()
    S.ensure(set(d) == set(TABLE), 'every parameter has a default', lambda: set(d) ^ set(TABLE))
    for name in TABLE:
        got = d[name]
        pairs = zip(got, want[name]) if isinstance(got, list) and isinstance(want[name], list) and len(got) == len(want[name]) else [(got, want[name])]
        S.ensure(all(a == b or close(a, b, 1e-12) for a, b in pairs), 'the default of a parameter', lambda: (name, got, want[name]))
    for b in (i.basetypes, need('eprempy.parameter', 'BaseTypesH')()):
        S.ensure(set(b) == set(CONSTANTS), 'every constant is defined', lambda: set(b) ^ set(CONSTANTS))
        for k in CONSTANTS:
            S.ensure(type(b[k]).__name__ == CONSTANTS[k][0] and close(b[k], VALUES[k], 1e-12), 'the value of a constant', lambda: (k, b[k], VALUES[k]))


# source files ------------------------------------------------------------------------------
def c_source(S, directory):
    """Write EPREM source files with other defaults; return the table and constants they define."""
    r = S.rng
    gap = lambda: r.choice(['', ' ', '  ', '\t'])
    simple = [k for k, t in TABLE.items() if t[0] in ('int', 'float') and re.fullmatch(r'[-+.\deE]+', t[1])]
    table = {k: list(t) for k, t in TABLE.items()}
    for k in r.sample(simple, r.randint(1, 12)):
        if k == 'idealShockScaleLength':
            table[k][1] = '0.25'
        else:
            table[k][1] = repr(r.randint(0, 9)) if table[k][0] == 'int' else repr(round(r.uniform(0.001, 99), 4))
    reals = [k for k in simple if table[k][0] == 'float' and k not in ('idealShockScaleLength', 'idealShockSharpness')]
    r.shuffle(reals)
    for n, k in enumerate(reals[2:8], 2):                  # defaults that follow other defaults, which follow others
        a, b = r.choice(reals[max(0, n - 2):n]), r.choice(reals[:n])
        d = next((k for k in reals[:n] if re.fullmatch(r'[.\d]*[1-9][.\d]*', table[k][1])), None)  # not zero
        table[k][1] = r.choice([f'config.{a}', f'config.{a}', f'config.{a} + config.{b}', f'config.{a} - config.{b}', f'config.{a} * config.{b}']
                               + [f'config.{a} / config.{d}', f'config.{a}/config.{d}'] * (d is not None))
    for k in ('mass', 'charge', 'obsTheta'):
        table[k][1] = f'[{round(r.uniform(1, 9), 2)}]'
    known = {k: list(t) for k, t in CONSTANTS.items()}
    for k in r.sample(['AU', 'C', 'MP', 'Q', 'RSUN', 'GEV', 'LARGEFLOAT', 'MHD_DENSITY_NORM'], 3):
        known[k][1] = f'{r.uniform(0.5, 5):.4f}e{r.randint(-8, 8)}'
    lines = ['/* base types */', '#ifndef BASETYPES_H', '#define BASETYPES_H', '']
    lines += [f'#define {k}  {gap()}{t}{gap()}' for k, (_, t) in known.items()]
    lines += ['typedef double Scalar_t;', '#endif']
    with open(os.path.join(directory, 'baseTypes.h'), 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    mode = {'int': 'readInt', 'float': 'readDouble', 'str': 'readString', 'list': 'readDoubleArray'}
    lines = ['#include "baseTypes.h"', 'void initGlobalParameters( char* path ) {', '']
    order = list(table)
    r.shuffle(order)
    for k in order:
        kind, text = table[k][:2]
        if kind == 'list':
            lines.append(f"  Scalar_t default{k}[1]{gap()}={gap()}{{{text.strip('[]')}}};")
            lines.append(f'  config.{k}{gap()}={gap()}readDoubleArray("{k}"{gap()}, 1, &config.num{k}, default{k}, 0.0, LARGEFLOAT);')
        elif kind == 'str':
            lines.append(f'  config.{k} = (char*)readString("{k}", "{text}");')
        else:
            lines.append(f'{gap()}config.{k}{gap()}={gap()}{mode[kind]}("{k}"{gap()},{gap()}{text},{gap()}0,{gap()}LARGEFLOAT);')
        if r.random() < .2:
            lines.append(f'  // config.{k} is documented elsewhere')
    lines.append('}')
    with open(os.path.join(directory, 'configuration.c'), 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    return {k: tuple(t) for k, t in table.items()}, {k: tuple(t) for k, t in known.items()}


def presented(S, i, table, known, numbers):
    """The definitions can be had as written, as values and with their documentation, as mappings and as text."""
    b, c = i.basetypes, i.reference
    order = bool(S.rng.randrange(2))
    written = lambda t: ' '.join(str(t).split())
    for name, obj, keys in (('constants', b, list(known)), ('parameters', c, list(c))):
        S.ensure(set(obj) == set(known if obj is b else table) and len(obj) == len(keys), f'exactly the defined {name}', lambda: set(obj) ^ set(keys))
        for mode in (None, 'raw', 'full'):
            d, e = attempt(obj.todict, mode, sort=order)
            S.ensure(e is None and list(d) == (sorted(keys) if order else list(obj)), f'the order of the {name}', lambda: e or list(d)[:5])
            if e is None:
                S.ensure(all(d[k] == obj.get(k, format=mode) for k in keys), f'the {name} as a dictionary', lambda: mode)
        S.ensure(attempt(obj.get, keys[0], format='unknown')[1] is not None, 'an unknown format is refused')
        S.ensure(obj.get('undefined') is None and obj.get('undefined', 3) == 3, 'an undefined name')
        text, e = attempt(obj.tostring, mode='full', sort=order, indent=S.rng.randint(0, 4))
        scope = {}
        S.ensure(e is None and attempt(exec, text, scope)[1] is None, f'the text of the {name}', lambda: e or text[:300])
        read = next((v for k, v in scope.items() if k in ('BASETYPES_H', 'CONFIGURATION_C')), {})
        spelled = {k: {**v, **({'type': v['type'].__name__} if 'type' in v else {})} for k, v in read.items()}
        S.ensure(spelled == obj.todict('full'), f'the text of the {name} is the definitions', lambda: [(k, spelled.get(k), obj.get(k, format='full')) for k in keys if spelled.get(k) != obj.get(k, format='full')][:2])
    for k in known:
        S.ensure(written(b.get(k, format='raw')) == written(known[k][1]), 'a constant as written', lambda: (k, b.get(k, format='raw'), known[k]))
        full = b.get(k, format='full')
        S.ensure(close(full['value'], numbers[k], 1e-12) and full['type'] == known[k][0], 'a documented constant', lambda: (k, full))
    mode = {'int': 'readInt', 'float': 'readDouble', 'str': 'readString', 'list': 'readDoubleArray'}
    for k in table:
        raw, full = c.get(k, format='raw'), c.get(k, format='full')
        S.ensure(raw['mode'] == mode[table[k][0]] and 'type' not in raw and raw['defaultVal'] == c[k]['defaultVal'] == full['defaultVal'], 'a parameter as written', lambda: (k, raw, full))
        S.ensure(written(raw['defaultVal']) == written(table[k][1]), 'the default of a parameter as written', lambda: (k, raw, table[k]))
        S.ensure(full['type'] == table[k][0], 'a documented parameter', lambda: (k, full))


@contract('C18', 'sources', functions=DEFAULT + VALUE + [SRC + n for n in ('SourceFile.get', 'SourceFile.todict', 'SourceFile.tolines', 'SourceFile.tostring', 'BaseTypesH.get', 'BaseTypesH.tostring', 'ConfigurationC.get', 'ConfigurationC.tostring')] + [SRC + n for n in ('SourceFile.__init__', 'SourceFile.build_path', 'BaseTypesH.load_from_source', 'ConfigurationC.load_from_source', 'FunctionCall.parse', 'VariableDefinition.parse', 'BaseTypeDef.match', 'ConfigurationC._replace')] + ['eprempy.paths.TextFile.extract'],
          rand=(15, 300), clause='Defaults read from given source files are the ones those files define.')
def sources(S):
    directory = D.scratch()
    f = File(S)
    try:
        table, known = c_source(S, directory)
        given = bool(S.rng.randrange(2))
        o = f.options(S)
        i, e = attempt(lambda: need('eprempy.parameter', 'interface')(f.path, directory, **o) if given else need('eprempy.parameter', 'interface')(srcdir=directory))
        S.ensure(e is None, 'an interface to other sources', lambda: e)
        numbers = constants(known)
        want = implied(f.values if given else {}, table, numbers)
        degrees = bool(want['useDegrees'])
        presented(S, i, table, known, numbers)
        for kind, filename in (('BaseTypesH', 'baseTypes.h'), ('ConfigurationC', 'configuration.c')):
            make = need('eprempy.parameter', kind)
            x, y = attempt(make, directory)[0], attempt(make, os.path.join(directory, filename))[0]
            S.ensure(x is not None and y is not None and x.todict('full') == y.todict('full'), 'the directory or the file itself', lambda: filename)
        for name in TABLE:
            check(S, i, name, name, want[name], degrees, 'a parameter of other sources')
        for k in known:
            S.ensure(close(i.basetypes[k], numbers[k], 1e-12), 'a constant of other sources', lambda: (k, i.basetypes[k], numbers[k], known[k]))
    finally:
        f.close()
        shutil.rmtree(directory)


# arbitrary numbers ----------------------------------------------------------------------------
class Tokens:
    """Writes arbitrary numbers in a file: `float(text)` is the number that `text` denotes."""

    def __init__(self, S):
        self.S, self.known = S, {}
        if not S.symbolic:
            return
        known = self.known

        class Meta(type(sym.float_)):
            def __call__(cls, *a):
                return known[a[0]] if a and isinstance(a[0], str) and a[0] in known else sym.float_(*a)

            def __eq__(cls, o): return o is cls or o in (float, sym.float_)
            def __hash__(cls): return hash(float)

        class Number(sym.float_, metaclass=Meta):
            pass
        config, source = need('eprempy.parameter', '_config'), need('eprempy.parameter', '_src')
        S.patch(config, 'float', Number)
        C = need('eprempy.parameter', 'ConfigurationC')
        S.patch(C, '_types', type(C._types)({**dict(C._types), 'readDouble': Number}))

    def text(self, x):
        if not self.S.symbolic:
            return repr(float(x))
        t = f'@{len(self.known)}@'
        self.known[t] = x
        return t


REALS = [k for k, t in TABLE.items() if t[0] == 'float' and k not in COMPUTED]


@contract('C18', 'any-numbers', functions=VALUE + DEFAULT + PARSE, sym='proof', max_paths=(4000, 4000),
          clause='Whatever numbers are written for the real-valued and array parameters, each has that number with its unit by every alias, and the computed defaults are the formulas on the written numbers.')
def any_numbers(S):
    tokens = Tokens(S)
    batch = S.choice('parameters', list(range(6)) + ['arrays', 'sources', 'computed'])
    lines, want = [], {}
    if batch == 'arrays':
        for k in (k for k, t in TABLE.items() if t[0] == 'list'):
            xs = [S.real(f'{k}{j}') for j in range(S.choice('length', [1, 2]))]
            want[k] = xs
            lines.append(f"{k} = [{', '.join(tokens.text(x) for x in xs)}]")
    else:
        names = {'sources': [k for k in SOURCES if k in REALS], 'computed': [k for k in COMPUTED if KIND[k] == 'float']}.get(batch) or REALS[batch::6]
        for k in names:
            want[k] = S.real(k, nonzero=k == 'idealShockScaleLength')
            lines.append(f'{k}={tokens.text(want[k])}')
    degrees = S.coin('degrees')
    lines.append(f'useDegrees={int(degrees)}')
    if S.coin('reversed'):
        lines.reverse()
    path = os.path.join(D.scratch(), 'eprem.cfg')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    try:
        i, e = attempt(need('eprempy.parameter', 'interface'), path)
        S.ensure(e is None, 'an interface to the configuration', lambda: e)
        base = implied({'useDegrees': int(degrees)})

        def value(k):
            if k in want:
                return want[k]
            if k in COMPUTED:
                x = eval(COMPUTED[k], {'__builtins__': {}}, {**VALUES, 'config': Member(value)})
                return x
            return base[k]
        for k in list(want) + [c for c in COMPUTED if c not in want]:
            for lookup in [k, *TABLE[k][3]]:
                v, e = attempt(lambda: i[lookup])
                label = 'a written number' if k in want else 'a computed default'
                S.ensure(e is None, f'{label} exists', lambda: (lookup, e))
                unit, w = unit_of(k, degrees), value(k)
                if unit is None:
                    S.ensure(S.eq(v, w), f'{label}: {k}', lambda: (lookup, v, w))
                    continue
                ws, data = w if isinstance(w, list) else [w], list(v.data)
                S.ensure(v.unit == need('eprempy.metric', 'unit')(unit) and len(data) == len(ws), f'{label} has its unit', lambda: (lookup, v.unit, unit))
                if k in want or all(m in want for m in re.findall(r'config\.(\w+)', COMPUTED[k])):
                    S.ensure(S.alleq(data, ws), f'{label}: {k}', lambda: (lookup, data, ws))
                else:       # the formula on a written and a documented number: equal up to the rounding of the latter
                    S.ensure(S.both(*[abs(a - b) <= abs(b) * 1e-12 for a, b in zip(data, ws)]), f'{label}: {k}', lambda: (lookup, data, ws))
    finally:
        shutil.rmtree(os.path.dirname(path))


# comparisons ------------------------------------------------------------------------------------
def pair(S, marks):
    """Two files that have some parameters in common."""
    r = S.rng
    a = File(S, marks)
    if r.random() < .15:
        b = File(S, marks, names=[])
    else:
        b = File(S, marks)
    if r.random() < .7:
        keep = {k: t for k, t in a.text.items() if r.random() < .8}
        values = {k: a.values[k] for k in keep if k in a.values}
        if r.random() < .7:
            for k in r.sample(list(TABLE), r.choice([0, 1, 3])):
                keep[k], values[k] = written(S, k)
        b.text, b.values = keep, values
        lines = [f'{k} = {t}' for k, t in keep.items()]
        r.shuffle(lines)
        with open(b.path, 'w') as fp:
            fp.write('\n'.join(lines) + '\n')
    return a, b


@contract('C18', 'comparing', functions=[CFG + 'ConfigFile.compare', CFG + 'ConfigFile.diff'] + PARSE, rand=(100, 2000),
          clause='Comparing two configurations gives exactly the parameters whose written values differ, with both values.')
def comparing(S):
    marks = S.rng.sample(MARKS, S.rng.randint(1, 3))
    a, b = pair(S, marks)
    try:
        configfile = need('eprempy.parameter', 'configfile')
        c0, c1 = configfile(a.path, comments=marks), configfile(b.path, comments=marks)
        style = S.rng.randrange(3)
        other, o = (c1, {}) if style == 0 else ((b.path if style == 1 else pathlib.Path(b.path)), {'comments': marks})
        want = {k: (a.text.get(k), b.text.get(k)) for k in set(a.text) | set(b.text) if a.text.get(k) != b.text.get(k)}
        got, e = attempt(c0.compare, other, **o)
        S.ensure(e is None, 'a configuration compares to another', lambda: e)
        S.ensure(got == want, 'exactly the differing parameters', lambda: (got, want))
        S.ensure(c1.compare(c0) == {k: (v, u) for k, (u, v) in want.items()}, 'the comparison is symmetric')
        d, e = attempt(c0.diff, other, **o)
        S.ensure(e is None, 'the difference of two configurations', lambda: e)
        S.ensure(d.keys == {0: set(a.text) - set(b.text), 1: set(b.text) - set(a.text)}, 'the parameters in only one of them', lambda: d.keys)
        S.ensure(d.full == {0: {k: u for k, (u, _) in want.items() if k in a.text}, 1: {k: v for k, (_, v) in want.items() if k in b.text}}, 'the values in each of them', lambda: (d.full, want))
        S.ensure(c0.compare(c0) == {}, 'a configuration does not differ from itself', lambda: c0.compare(c0))
        got, e = attempt(c0.compare, 7)
        S.ensure(isinstance(e, TypeError), 'other objects are refused', lambda: (got, e))
    finally:
        a.close(); b.close()


def reported(text, n):
    """The parameters in the printed comparison: name -> printed values in the order of the files."""
    out = {}
    lines = [l for l in text.splitlines()]
    for j, line in enumerate(lines):
        m = re.match(r'\s*(\S+) \(default: .*\)\s*$', line)
        if m and j + 1 < len(lines) and lines[j + 1] and not lines[j + 1].strip('-'):
            out[m.group(1)] = [l for l in lines[j + 2:j + 2 + n]]
    return out


@contract('C18', 'printed', functions=['eprempy.cli.' + n for n in ('run', 'compare_config_files', '_build_arg_dict', '_map_parameter', '_normalize_paths', 'generate_config_file')] + VALUE + PARSE,
          rand=(8, 200), clause='The printed comparison shows exactly the parameters that differ; a generated configuration file implies the defaults.')
def printed(S):
    run = need('eprempy.cli', 'run')
    a, b = pair(S, ['#'])
    generated = os.path.join(D.scratch(), 'default.cfg')
    try:
        def call(**o):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                _, e = attempt(run, 'configfile', {'generate': None, 'files': None, 'source': None, 'verbose': False, 'diff': False, 'names': False, **o})
            return out.getvalue(), e
        files = [a, b] + ([a] if S.rng.random() < 0 else [])
        text, e = call(files=[f.path for f in files], diff=True)
        S.ensure(e is None, 'two configurations are compared', lambda: (e, a.body))
        shown = []
        for f in files:
            w = f.expected()
            degrees = bool(w['useDegrees'])
            given = {k for k in f.values if f.text[k] != ''}
            shown.append({k: (repr(numbers_of(w[k]) if KIND[k] == 'list' or unit_of(k, degrees) else w[k]), unit_of(k, degrees)) if k in given else None for k in TABLE})
        want = {k for k in TABLE if any(s[k] != shown[0][k] for s in shown)}
        got = reported(text, len(files))
        S.ensure(set(got) == want, 'exactly the differing parameters are printed', lambda: {k: [s[k] for s in shown] for k in set(got) ^ want})
        for k in got:
            S.ensure(all(('(default)' in line) == (s[k] is None) for line, s in zip(got[k], shown)), 'written and default values are told apart', lambda: (k, got[k]))
        text, e = call(files=[a.path, b.path])
        got = reported(text, 2)
        S.ensure(e is None and set(got) == set(TABLE), 'the full comparison has every parameter', lambda: (e, set(got) ^ set(TABLE)))
        text, e = call(generate=generated)
        S.ensure(e is None, 'a default configuration is written', lambda: e)
        i = need('eprempy.parameter', 'interface')(generated)
        want = implied({})
        for k in TABLE:
            check(S, i, k, k, want[k], False, 'a generated parameter')
    finally:
        a.close(); b.close(); shutil.rmtree(os.path.dirname(generated))


# variables ----------------------------------------------------------------------------------------
@contract('C18', 'variables', functions=[RUN + 'Variable.' + n for n in ('__int__', '__float__', '__complex__', '__round__', '__floor__', '__ceil__', '__trunc__', '_as_scalar', '_as_builtin', '_singular', '__getitem__')] + [RUN + 'variable_factory', RUN + 'variable_args'],
          sym='proof', rand=(40, 400),
          clause='A single-valued parameter converts to the number it holds; one with several values is refused.')
def variables(S):
    variable = need('eprempy.parameter', 'variable')
    n = S.choice('size', [1, 2, 3])
    xs = [S.real(f'x{j}', simple=True) for j in range(n)]
    unit = S.choice('unit', ['1', 'MeV', 'rad', 'cm/s'])
    v = variable(xs if n > 1 or S.coin('listed') else xs[0], unit=unit)
    S.ensure(v.unit == unit and S.alleq(list(v.data), xs), 'a variable holds its values')
    for j in range(n):
        item = numpy.array(v[j].data, dtype=object, ndmin=1)
        S.ensure(S.alleq(list(item), [xs[j]]) and v[j].unit == unit, 'an item of a variable')
    vector, scalar = need('eprempy.physical', 'vector'), need('eprempy.physical', 'scalar')
    S.ensure(len(v) == n and v.size == n, 'the number of values of a variable')
    for kind, x, made in (('variable', v, variable), ('vector', vector(xs, unit=unit), variable), ('variable as a vector', v, vector)):
        again, e = attempt(made, x)
        S.ensure(e is None and S.both(again.unit == unit, S.alleq(list(again.data), xs)), f'a variable of a {kind}', lambda: (xs, again, e))
        again, e = attempt(made, x, unit='s')
        S.ensure(e is not None, f'another unit for a {kind} is refused', lambda: (xs, unit, again))
    again, e = attempt(variable, scalar(xs[0], unit=unit))
    S.ensure(e is None and S.both(again.unit == unit, S.alleq(list(again.data), xs[:1])), 'a variable of a scalar', lambda: (xs, again, e))
    for bad in ([xs, xs], vector(xs, unit=unit).data.reshape(1, -1)):
        S.ensure(attempt(variable, bad, unit=unit)[1] is not None, 'a variable is a row of numbers', lambda: bad)
    if S.symbolic:
        convert = need('eprempy.parameter._runtime', 'Variable')._as_builtin
        got, e = attempt(convert, v, sym.float_)
    else:
        got, e = attempt(float, v)
        whole, f = attempt(int, v)
        S.ensure((f is not None) if n > 1 else whole == int(xs[0]), 'a variable as an integer', lambda: (xs, whole, f))
    if n > 1:
        S.ensure(isinstance(e, TypeError), 'several values are not one number', lambda: (xs, got, e))
        for op in (round, math.floor, math.ceil, math.trunc):
            got, e = attempt(op, v)
            S.ensure(isinstance(e, TypeError), 'several values do not round to one number', lambda: (xs, op, got, e))
        return
    S.ensure(e is None and S.eq(got, xs[0]), 'a variable as a number', lambda: (xs, got, e))
    for op in (round, math.floor, math.ceil, math.trunc):
        got, e = attempt(op, v)
        S.ensure(e is None and S.both(got.unit == unit, S.eq(got.data, op(xs[0]))), f'a variable rounds: {op.__name__}', lambda: (xs, got, e))
