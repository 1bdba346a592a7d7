"""C19: project run records match the run directories after any history."""
import contextlib
import fnmatch
import io
import itertools
import json
import os
import pathlib
import shutil
import subprocess
import sys

from ..core import contract, attempt, need
from .. import dataset as D

PRJ = 'eprempy.project.'
LOG = [PRJ + 'RunLog.' + n for n in ('__init__', '__len__', '__iter__', '__getitem__', 'create', 'mv', 'rm', 'append', 'dump', 'update_directory')]
PATHS = [PRJ + 'RunPaths.' + n for n in ('__init__', 'update', 'mkdir', '_mkdir', 'mv', '_mv', 'rm', '_rm', 'define', 'runs', 'branches', '_get_rundirs', 'listing')] + [
    PRJ + '_PathOperation.' + n for n in ('__init__', '__iter__', 'apply', 'errors')] + ['eprempy.paths.normalize', 'eprempy.paths.localize', 'eprempy.paths.locate']
FACE = [PRJ + 'Interface.' + n for n in ('__init__', '_init_project', '_get_attrs', '_create_project', '_restore_project', '_get_log', '_setup_cli', 'reset', 'rename',
                                         '_update_metadata', 'remove', 'run', '_create_run', 'mv', 'rm', 'runs', 'branches', 'root', 'name', '__eq__')] + [PRJ + 'Attrs.__init__', PRJ + 'Attrs.serial']

MPIRUN = '#!/bin/sh\nwhile [ "$1" != "-n" ]; do shift; done\nshift 2\nexec "$@"\n'
EPREM = '#!/bin/sh\necho "reading $1"\n[ -f "$1" ] || exit 3\nread -r line < "$1"\ncase "$line" in fail*) exit 2;; esac\nprintf "%s" "$line" > done\nexit 0\n'


class Escaped(BaseException):
    """The code tried to change something outside of the scratch directory."""


@contextlib.contextmanager
def guarded(top):
    """Changes to the file system outside of `top` are refused and reported, not made."""
    top = os.path.realpath(top)
    saved = {}

    def inside(p):
        try:
            path = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(os.path.abspath(p)))
        except TypeError:
            return True         # a file descriptor
        return path.startswith(top + os.sep)

    def wrap(module, name, count):
        real = saved[module, name] = getattr(module, name)

        def guard(*a, **k):
            if k.get('dir_fd') is None and k.get('src_dir_fd') is None and not all(inside(p) for p in a[:count]):
                raise Escaped(f'{name}{a}')
            return real(*a, **k)
        guard.__dict__.update(getattr(real, '__dict__', {}))
        setattr(module, name, guard)
    for name, count in (('rename', 2), ('replace', 2), ('renames', 2), ('remove', 1), ('unlink', 1), ('rmdir', 1), ('removedirs', 1), ('mkdir', 1), ('makedirs', 1), ('truncate', 1)):
        wrap(os, name, count)
    for name, count in (('rmtree', 1), ('move', 2)):
        wrap(shutil, name, count)
    try:
        yield
    finally:
        for (module, name), real in saved.items():
            setattr(module, name, real)


def tree(top):
    """Everything below a directory."""
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), top)] = None
        for n in fs:
            p = os.path.join(d, n)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, top)] = fp.read()
    return out


class World:
    """A project in a scratch directory, and what is around it."""

    def __init__(self, S, branches=(), options=None, where='deep/er'):
        self.S, self.count = S, itertools.count()
        self.scratch = D.scratch()
        self.top = os.path.join(self.scratch, where)
        os.makedirs(self.top)
        self.write(os.path.join(self.scratch, 'sentinel'), 'do not touch')
        self.write(os.path.join(self.top, 'sentinel'), 'do not touch')
        self.write(os.path.join(self.top, 'other', 'runs', 'a', 'keep'), 'another project')
        self.tools = os.path.join(self.scratch, 'tools')
        for n, t in (('mpirun', MPIRUN), ('eprem', EPREM)):
            self.write(os.path.join(self.tools, n), t)
            os.chmod(os.path.join(self.tools, n), 0o755)
        self.environment = {n: os.path.join(self.tools, n) for n in ('mpirun', 'eprem')}
        self.branches = tuple(branches)
        o = options or {}
        self.config, self.inputs = o.get('config') or 'eprem.cfg', o.get('inputs') or 'inputs'
        self.output, self.rundir = o.get('output') or 'eprem.log', o.get('rundir') or 'runs'
        self.logname = str(pathlib.Path(o.get('logname') or 'runs').with_suffix('.json'))
        self.root = os.path.join(self.top, 'project')
        self.options = o
        self.Interface = need('eprempy.project', 'Interface')

    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fp:
            fp.write(text)

    def close(self): shutil.rmtree(self.scratch, ignore_errors=True)

    def call(self, f, *a, **k):
        """Call with the file system guarded and the terminal captured."""
        with guarded(self.scratch), contextlib.redirect_stdout(io.StringIO()):
            try:
                r, e = f(*a, **k), None
            except Escaped as err:
                r, e = None, err
            except (Exception, SystemExit) as err:
                r, e = None, err
        self.S.ensure(not isinstance(e, Escaped), 'nothing outside of the project changes', lambda: e)
        return r, e

    def operate(self, name, *args, **given):
        """Do an operation on a whole project: by its interface, the function of the module or the command."""
        how = self.S.rng.choice(['interface', 'function', 'command']) if self.S.rng else 'interface'
        if how == 'interface':
            if name == 'create':
                return self.call(self.Interface, self.root, **given)
            return self.P, self.call(getattr(self.P, name), *args, **given)[1]
        if 'silent' in given:
            given['verbose'] = not given.pop('silent')
        elif name == 'create':
            given['verbose'] = self.S.rng.random() < .5
        if how == 'function':
            _, e = self.call(need('eprempy.project', name), self.root, *args, **given)
        else:
            flags = []
            for k, v in given.items():
                short = k if k == 'copy' or self.S.rng.random() < .5 else {'rundir': 'd'}.get(k, k[0])
                values = [] if v is True else [str(v)] if isinstance(v, (str, pathlib.Path)) else list(v or [])
                if v is not False and v is not None:
                    flags += [('-' if len(short) == 1 else '--') + short, *values]
            argv = ['project', name, self.root, *args, *flags]
            command, keep = need('eprempy.project', 'cli').run, sys.argv
            sys.argv = argv
            try:
                _, e = self.call(command)
            finally:
                sys.argv = keep
        if name == 'remove' or e is not None:
            return None, e
        return self.call(self.Interface, args[0] if name == 'rename' else self.root)

    def create(self):
        given = dict(self.options)
        if self.branches:
            given['branches'] = self.branches[0] if len(self.branches) == 1 and self.options.get('lone') else self.S.rng.choice([list, tuple])(self.branches) if self.S.rng else self.branches
        given.pop('lone', None)
        self.P, e = self.operate('create', **given)
        self.S.ensure(e is None, 'a new project is created', lambda: e)
        self.check(self.P)

    # what is on the disk
    def rundirs(self, root=None):
        root = root or self.root
        return {b: os.path.join(root, b, self.rundir) for b in self.branches} if self.branches else {None: os.path.join(root, self.rundir)}

    def runs(self, root=None):
        """(branch, name) -> contents of each run directory."""
        return {(b, n): tree(os.path.join(d, n)) for b, d in self.rundirs(root).items() for n in os.listdir(d) if os.path.isdir(os.path.join(d, n))}

    def path(self, key, root=None): return os.path.join(self.rundirs(root)[key[0]], key[1])

    def outside(self, root=None):
        """Everything that is not in a run directory, a log or the settings of the project."""
        root = os.path.relpath(root or self.root, self.scratch)
        rundirs = [os.path.relpath(d, self.scratch) for d in self.rundirs(os.path.join(self.scratch, root)).values()]
        rest = {}
        for p, c in tree(self.scratch).items():
            runs = [d for d in rundirs if p.startswith(d + os.sep)]
            if runs and '__file__' not in p:
                first = os.path.relpath(p, runs[0]).split(os.sep)[0]
                if os.path.isdir(os.path.join(self.scratch, runs[0], first)):
                    continue
            if p in (os.path.join(root, self.logname), os.path.join(root, '.eprem.conf')):
                continue
            rest[p] = c
        return rest

    def log(self, root=None):
        with open(os.path.join(root or self.root, self.logname)) as fp:
            return json.load(fp)

    def check(self, P, label=''):
        """The invariant: the project and its log tell what is on the disk."""
        S, disk = self.S, self.runs()
        names = {n for _, n in disk}
        S.ensure(str(P.root) == self.root and P.name == os.path.basename(self.root) and bool(P), 'the project knows its directory', lambda: (P.root, self.root))
        S.ensure(set(P.runs) == names, 'the reported runs are the run directories', lambda: (P.runs, sorted(disk, key=str)))
        for n in names:
            S.ensure(set(P.runs[n]) == {b for b, m in disk if m == n and b}, 'each run is reported with its branches', lambda: (n, P.runs, sorted(disk, key=str)))
        S.ensure({b: set(r) for b, r in P.branches.items()} == {b: {n for c, n in disk if c == b} for b in self.branches}, 'each branch is reported with its runs', lambda: (P.branches, sorted(disk, key=str)))
        want = {self.path(k) for k, c in disk.items() if 'done' in c}
        for kept in (set(P.log), set(self.log())):
            got = {k for k in kept if os.path.isabs(k)}
            S.ensure(got == want, 'the log has exactly the successful runs', lambda: (sorted(got ^ want), sorted(want)))
            S.ensure({k for k in kept if not os.path.isabs(k)} <= {'config', 'output'}, 'the log has nothing else', lambda: kept)
        S.ensure(all(P.log[k] for k in want), 'each log entry has contents')

    # operations
    def selected(self, branches):
        if not branches:
            return list(self.rundirs())
        given = {branches} if isinstance(branches, str) else set(branches)
        return [b for b in self.branches if b in given]

    def entries(self):
        """The log by run."""
        log = self.log()
        return {k: log.get(self.path(k)) for k in self.runs()}

    def run(self, name, kind='ok', branches=None, errors=False, silent=True, stored=False, nproc=None):
        S, token = self.S, f'{next(self.count)}'
        text = ('fail ' if kind == 'fail' else 'run ') + token + '\n'
        given = 'given.cfg' if stored else os.path.join(self.top, 'given.cfg')
        file = os.path.join(self.root, self.inputs, 'given.cfg') if stored else given
        if kind == 'missing':
            given = 'absent.cfg'
        else:
            self.write(file, text)
        before, entries, outside = self.runs(), self.entries(), self.outside()
        _, e = self.call(self.P.run, given, name, branches=branches, nproc=nproc, environment=self.environment, errors=errors, silent=silent)
        after = self.runs()
        chosen = self.selected(branches)
        if name is None:
            new = {n for _, n in set(after) - set(before)}
            S.ensure(len(new) == (1 if chosen and e is None else len(new)), 'an unnamed run has one new name', lambda: new)
            name = next(iter(new), '')
        named = {(b, name) for b in chosen}
        clash = [k for k in named if k in before or k not in after and os.path.lexists(self.path(k))]
        for k in before:
            S.ensure(after.get(k) == before[k], 'creating runs leaves every existing run alone', lambda: (k, name, branches))
        S.ensure(set(after) - set(before) <= named, 'only the named runs are created', lambda: (set(after) - set(before), named))
        S.ensure(self.outside() == outside, 'creating runs changes nothing else', lambda: difference(outside, self.outside()))
        if kind == 'missing':
            S.ensure(e is not None or all(k in clash for k in named), 'a missing configuration is refused')
            S.ensure(all('done' not in after[k] for k in set(after) - set(before)), 'nothing runs without a configuration')
        elif errors and clash:
            S.ensure(e is not None, 'an existing run is not created again silently', lambda: (clash, e))
        else:
            S.ensure(e is None, 'runs are created', lambda: (name, branches, e))
            for k in named - set(clash):
                c = after.get(k)
                S.ensure(c is not None and c.get(self.config) == text.encode(), 'the run has the given configuration', lambda: (k, c, text))
                S.ensure(c.get(self.output, b'').startswith(b'reading ' + self.config.encode()), 'the run keeps the output of the program', lambda: (k, c))
                S.ensure((c.get('done') == text.strip().encode()) == (kind == 'ok'), 'the program runs with the given configuration', lambda: (k, c))
        S.ensure(all(self.entries()[k] == entries[k] for k in before), 'log entries of other runs are kept')
        self.check(self.P)

    def mv(self, source, target, branches=None, errors=False, silent=True):
        S = self.S
        before, entries, outside = self.runs(), self.entries(), self.outside()
        _, e = self.call(self.P.mv, source, target, branches=branches, errors=errors, silent=silent)
        after, now = self.runs(), self.entries()
        able = {b for b in self.selected(branches) if (b, source) in before and (b, target) not in before and ((b, target) in after or not os.path.lexists(self.path((b, target))))}
        want, logged = dict(before), dict(entries)
        moved = []
        stuck = [b for b in self.selected(branches) if b not in able]
        for b in self.selected(branches):
            done = (b, target) in after and (b, source) not in after
            if b in able and (done or not (errors and stuck)):
                want[b, target], logged[b, target] = want.pop((b, source)), logged.pop((b, source))
                moved.append(b)
        S.ensure((e is not None) == bool(errors and stuck), 'renaming runs fails only if asked to', lambda: (e, stuck))
        S.ensure(after == want, 'renaming changes the name of the named runs and nothing else', lambda: (source, target, branches, difference(want, after)))
        S.ensure(now == logged, 'log entries follow the runs', lambda: (now, logged))
        S.ensure(self.outside() == outside, 'renaming runs changes nothing else', lambda: difference(outside, self.outside()))
        self.check(self.P)

    def rm(self, name, branches=None, errors=False, silent=True, reset=False):
        S = self.S
        before, entries, outside = self.runs(), self.entries(), self.outside()
        if reset:
            P, e = self.operate('reset', force=not errors, silent=silent)
            self.P = P or self.P
        else:
            _, e = self.call(self.P.rm, name, branches=branches, errors=errors, silent=silent)
        after = self.runs()
        chosen = self.selected(branches)
        exact = any(os.path.lexists(os.path.join(self.rundirs()[b], name)) for b in chosen) or any((b, name) in before for b in chosen)
        gone = {k for k in before if k[0] in chosen and (k[1] == name if exact else fnmatch.fnmatchcase(k[1], name))}
        files = [n for b in chosen for n in os.listdir(self.rundirs()[b]) if (b, n) not in after and (n == name if exact else fnmatch.fnmatchcase(n, name))]
        if errors and files:
            gone = {k for k in gone if k not in after}
        else:
            S.ensure(e is None, 'runs are removed', lambda: (name, branches, e))
        S.ensure(after == {k: c for k, c in before.items() if k not in gone}, 'exactly the named runs are removed', lambda: (name, branches, set(before) - set(after), gone))
        S.ensure(self.outside() == outside, 'removing runs changes nothing else', lambda: difference(outside, self.outside()))
        S.ensure(all(v == entries[k] for k, v in self.entries().items()), 'log entries of other runs are kept')
        self.check(self.P)

    def rename(self, target, force=False, silent=True):
        S = self.S
        before, entries, outside = self.runs(), self.entries(), self.outside()
        new = os.path.normpath(os.path.join(os.getcwd(), target))
        taken = os.path.lexists(new)
        keep = tree(self.scratch)
        P, e = self.operate('rename', target, force=force, silent=silent)
        if taken or not os.path.isdir(os.path.dirname(new)):
            S.ensure(e is not None and tree(self.scratch) == keep, 'a project is never renamed over something else', lambda: (target, e, difference(keep, tree(self.scratch))))
            return
        S.ensure(e is None and not os.path.lexists(self.root), 'a project is renamed', lambda: (target, e))
        old, self.root, self.P = self.root, new, P or self.P
        S.ensure(self.runs() == before, 'a renamed project keeps its runs', lambda: difference(before, self.runs()))
        S.ensure(self.entries() == entries, 'a renamed project keeps its log', lambda: (entries, self.entries()))
        a, b = os.path.relpath(old, self.scratch), os.path.relpath(new, self.scratch)
        S.ensure({p if not (p + os.sep).startswith(a + os.sep) else b + p[len(a):]: c for p, c in outside.items()} == self.outside(), 'renaming a project changes nothing else', lambda: difference(outside, self.outside()))
        self.check(self.P)

    def reopen(self, switch=True):
        S = self.S
        keep = tree(self.scratch)
        Q, e = self.call(self.Interface, self.root if switch else pathlib.Path(self.root))
        S.ensure(e is None, 'an existing project is opened', lambda: e)
        S.ensure(tree(self.scratch) == keep, 'opening a project changes nothing', lambda: difference(keep, tree(self.scratch)))
        S.ensure(Q.runs == self.P.runs and Q.branches == self.P.branches and dict(Q.log) == dict(self.P.log) and Q.root == self.P.root and Q == self.P and str(Q) == str(self.P), 'a re-opened project gives the same view', lambda: (Q.runs, self.P.runs))
        self.check(Q)
        if switch:
            self.P = Q

    def copy(self, target, switch=False, **override):
        S = self.S
        keep, taken = tree(self.scratch), os.path.lexists(target)
        C, e = self.call(self.Interface, target, copy=self.root, **override)
        if taken:
            S.ensure(e is not None and tree(self.scratch) == keep, 'a project is never copied over something else', lambda: (target, e))
            return
        S.ensure(e is None, 'a project is copied', lambda: e)
        now, there = tree(self.scratch), os.path.relpath(target, self.scratch)
        S.ensure({p: c for p, c in now.items() if not (p + os.sep).startswith(there + os.sep)} == keep, 'copying changes nothing else', lambda: difference(keep, now))
        mine, names = dict(self.__dict__), {'branches': 'branches', 'config': 'config', 'output': 'output', 'rundir': 'rundir'}
        source = os.path.join(self.root, self.inputs)
        self.root, self.P = target, C
        for k, v in override.items():
            setattr(self, names[k], v)
        S.ensure(self.runs() == {}, 'a copied project has no runs', lambda: self.runs())
        S.ensure(tree(os.path.join(target, self.inputs)) == tree(source), 'a copied project has the input files')
        self.check(C)
        D_, e = self.call(self.Interface, target)
        S.ensure(e is None and D_ == C and D_.branches == C.branches, 'a copied project opens again', lambda: (e, D_))
        if not switch:
            self.__dict__.update(mine)
            self.check(self.P)

    def refused(self, f, *a, **k):
        keep = tree(self.scratch)
        _, e = self.call(f, *a, **k)
        self.S.ensure(e is not None, 'something that is not the name of a run is refused', lambda: (f, a))
        self.S.ensure(tree(self.scratch) == keep, 'a refused operation changes nothing', lambda: (f, a, difference(keep, tree(self.scratch))))
        self.check(self.P)


def difference(a, b):
    return {k: (a.get(k, '-'), b.get(k, '-')) for k in set(a) | set(b) if a.get(k, '-') != b.get(k, '-')}


BRANCHES = [(), ('A',), ('A', 'B'), ('A', 'B', 'C'), ('x/A', 'y/A'), ('runs', 'project'), ('A', 'AB', 'B')]
NAMES = ['a', 'ab', 'c', 'run1', 'run10', 'run[1]', 'two words', 'a.b', '.hidden', 'A', 'runs', 'é', 'a*']


@contract('C19', 'histories', functions=LOG + PATHS + FACE, rand=(30, 900),
          clause='After any sequence of creating, running, renaming and removing runs, and renaming, copying and re-opening projects, the reported runs are the run directories and the log has exactly the successful ones; no operation affects anything that is not named.')
def histories(S):
    r = S.rng
    options = {}
    if r.random() < .5:
        options = {k: v for k, v in dict(config=r.choice(['eprem.cfg', 'run.ini']), inputs=r.choice(['inputs', 'cfg']), output=r.choice(['eprem.log', 'out']),
                                         rundir=r.choice(['runs', 'sims']), logname=r.choice(['runs', 'log', 'log.json'])).items() if r.random() < .6}
    branches = r.choice(BRANCHES)
    options['lone'] = r.random() < .5
    w = World(S, branches, options)
    try:
        w.create()
        names = r.sample(NAMES, r.choice([2, 3, 4, 6]))
        if r.random() < .2:
            w.write(os.path.join(next(iter(w.rundirs().values())), r.choice(['notes', names[0]])), 'a file')
            w.check(w.P)
        fresh = itertools.count()

        def some():
            if not branches or r.random() < .4:
                return None
            k = r.sample(branches, r.randint(1, len(branches)))
            return k[0] if len(k) == 1 and r.random() < .5 else r.choice([list, tuple, set])(k)
        for _ in range(r.choice([3, 6, 10])):
            op, quiet = r.random(), dict(errors=r.random() < .3, silent=r.random() < .7)
            if op < .35:
                w.run(r.choice(names) if r.random() < .9 else None, r.choice(['ok', 'ok', 'ok', 'fail', 'missing']), some(), stored=r.random() < .3, nproc=r.choice([None, 1, 4]), **quiet)
            elif op < .55:
                w.mv(r.choice(names), r.choice(names), some(), **quiet)
            elif op < .68:
                w.rm(r.choice(names + ['*', 'a*', 'run?']), some(), **quiet)
            elif op < .71:
                w.rm('*', reset=True, **quiet)
            elif op < .78:
                new = os.path.join(w.top, r.choice([f'project{next(fresh)}', f'new {next(fresh)}', 'other', os.path.join('sub', 'p'), os.path.join('other', f'p{next(fresh)}')]))
                w.rename(os.path.relpath(new) if r.random() < .4 else new, force=r.random() < .3, silent=quiet['silent'])
            elif op < .87:
                w.reopen(r.random() < .7)
            elif op < .93:
                over = {}
                if r.random() < .3:
                    over = r.choice([dict(config='other.cfg'), dict(output='o.log'), dict(branches=('Q', 'R')), dict(branches=())])
                w.copy(os.path.join(w.top, r.choice([f'copy{next(fresh)}', 'other'])), switch=r.random() < .5 and 'branches' not in over, **over)
            elif op < .97:
                bad = r.choice(['..', '../x', 'a/b', os.path.join(w.top, 'x'), '.', '../../other/runs/a', 'a/..', '/'])
                ok = r.choice(names)
                g = os.path.join(w.top, 'given.cfg')
                w.write(g, 'run x\n')
                how = r.randrange(4)
                if how == 0: w.refused(w.P.run, g, bad, environment=w.environment, errors=True)
                if how == 1: w.refused(w.P.mv, bad, ok, branches=some(), errors=True)
                if how == 2: w.refused(w.P.mv, ok, bad, branches=some(), errors=True)
                if how == 3: w.refused(w.P.rm, r.choice([bad, '']), branches=some(), errors=True)
            else:
                keep = tree(w.scratch)
                _, e = w.call(w.Interface, w.root, config='again.cfg')
                S.ensure(e is not None and tree(w.scratch) == keep, 'an existing project is not created again', lambda: e)
        if r.random() < .3:
            w.copy(os.path.join(w.top, 'elsewhere'), branches=r.choice([(), (), ('Q',)]))
        if r.random() < .4:
            name, f = r.choice([('..', w.P.rm), ('', w.P.rm), ('..', w.P.rm), ('..', w.P.mv), ('', w.P.mv), ('..', w.P.run)])
            w.refused(f, *((name,) if f == w.P.rm else (name, 'fresh') if f == w.P.mv else (os.path.join(w.root, w.inputs), name)), errors=True)
        if r.random() < .3:
            root = os.path.relpath(w.root, w.scratch)
            rest = {p: c for p, c in tree(w.scratch).items() if not (p + os.sep).startswith(root + os.sep)}
            P, e = w.operate('remove', silent=True)
            S.ensure(e is None and not P and tree(w.scratch) == rest, 'removing a project removes nothing else', lambda: (e, difference(rest, tree(w.scratch))))
    finally:
        w.close()


# every short history ----------------------------------------------------------------------
# names and branches of which one is a part of another: they are not to be confused
BRANCHED = [('run', 'a'), ('run', 'a', 'ok', 'A'), ('run', 'ab', 'ok', ['AB']), ('run', 'a', 'fail', 'AB'), ('run', 'ab', 'fail'), ('run', 'a', 'missing'),
            ('mv', 'a', 'ab'), ('mv', 'ab', 'a', 'A'), ('mv', 'a', 'c', ['AB']), ('mv', 'ab', 'c'), ('rm', 'a'), ('rm', 'ab', 'AB'), ('rm', '*', 'A'), ('rm', '*'),
            ('rename',), ('reopen',), ('copy',)]
PLAIN = [('run', 'a'), ('run', 'ab'), ('run', 'a', 'fail'), ('run', 'ab', 'missing'), ('mv', 'a', 'ab'), ('mv', 'ab', 'a'), ('rm', 'a'), ('rm', 'ab'), ('rm', '*'),
         ('rename',), ('reopen',), ('copy',)]
SHARDS = 4


def sequences(shard):
    def cases(tier):
        depth = 2 if tier == 'quick' else 3
        all_ = [(b, h) for b, ops in ((('A', 'AB'), BRANCHED), ((), PLAIN)) for n in range(1, depth + 1) for h in itertools.product(ops, repeat=n)
                if h[0][0] in ('run', 'rename', 'copy')]
        return all_[shard::SHARDS]
    return cases


def history(S, case):
    branches, steps = case
    w = World(S, branches)
    try:
        w.create()
        for i, (op, *a) in enumerate(steps):
            if op == 'rename':
                w.rename(os.path.join(w.top, f'project{i}'))
            elif op == 'copy':
                w.copy(os.path.join(w.top, f'copy{i}'), switch=True)
            else:
                getattr(w, op)(*a)
        w.reopen()
    finally:
        w.close()


for _k in range(SHARDS):
    contract('C19', f'short-histories-{_k}', functions=LOG + PATHS + FACE, cases=sequences(_k), finite_is_proof=False,
             bound='every history of at most 2 operations (quick) or 3 (thorough) over two or three run names, two branches or none',
             clause='Every short history keeps the runs, the log and the directories consistent.')(history)


# the log, for arbitrary names -----------------------------------------------------------------
class Stored:
    """Stands for the json module: reading gives what was written (contract of the dependency)."""

    def __init__(self): self.files, self.texts = {}, {}
    def dump(self, payload, fp, **k): self.files[fp.name] = dict(payload)
    def load(self, fp, **k): return dict(self.files[fp.name])

    def dumps(self, payload, **k):
        t = f'payload {len(self.texts)}'
        self.texts[t] = dict(payload)
        return t

    def loads(self, t, **k): return dict(self.texts[t])


@contract('C19', 'log', functions=LOG, sym='shape', bound='logs of at most 3 entries, histories of 2 operations; all run names', rand=(40, 400),
          clause='The log is a map from run to record: creating adds or replaces exactly one record, renaming moves exactly one, removing drops exactly one.')
def log(S):
    RunLog = need('eprempy.project', 'RunLog')
    n = S.choice('entries', range(4))
    model = [('config', 'eprem.cfg')]
    if S.symbolic:
        S.patch(need('eprempy', 'project'), 'json', Stored())
    directory = D.scratch()

    def put(key, value):
        for i, (k, _) in enumerate(model):
            if k == key:
                model[i] = (key, value)
                return
        model.append((key, value))

    def take(key):
        for i, (k, v) in enumerate(model):
            if k == key:
                del model[i]
                return True, v
        return False, None

    def agree(label):
        items = list(L.items())
        S.ensure(len(L) == len(items) == len(model), f'{label}: one record for each run', (lambda: (items, model)) if not S.symbolic else None)
        for k, v in model:
            S.ensure(k in L and L[k] == v, f'{label}: the record of each run', (lambda: (k, v, items)) if not S.symbolic else None)
    try:
        L = RunLog(os.path.join(directory, 'runs.json'), config='eprem.cfg')
        for i in range(n):
            k = S.name(f'k{i}')
            L.create(k, {'time': f't{i}'})
            put(k, {'time': f't{i}'})
        agree('creating')
        for step in range(2):
            op = S.choice(f'op{step}', ['mv', 'rm', 'create', 'append', 'reopen', 'same'] + (['load'] if not S.symbolic else []))
            if op == 'same':
                break
            k = S.name(f'a{step}')
            if op == 'mv':
                new = S.name(f'b{step}')
                found = any(k == m for m, _ in model)
                _, e = attempt(L.mv, k, new)
                S.ensure((e is None) == found, 'only a known run is renamed')
                if found:
                    _, v = take(k)
                    put(new, v)
            elif op == 'rm':
                _, e = attempt(L.rm, k)
                S.ensure(e is None, 'removing a record')
                take(k)
            elif op == 'create':
                L.create(k, {'time': 'later'})
                put(k, {'time': 'later'})
            elif op == 'append':
                found = [v for m, v in model if k == m]
                name, note = 'note' if S.symbolic else S.choice(f'entry{step}', ['note', 'time']), f'x{step}'
                _, e = attempt(L.append, k, name, note)
                S.ensure((e is None) == bool(found), 'only a known run is amended')
                if found:
                    put(k, {**found[0], name: note})
            elif op == 'load':
                record = {'time': f'read{step}', 'directory': 'x'} if S.rng.random() < .8 else {}
                kind, given = S.rng.choice(['.json', '.yaml', '.JSON']), S.rng.random() < .3
                file = os.path.join(directory, 'record' + ('.txt' if given else kind))
                with open(file, 'w') as fp:
                    json.dump(record, fp)
                have = kind != '.yaml' or need('eprempy.project', '_HAVE_YAML')
                _, e = attempt(L.load, k, file, *([kind.lstrip(S.rng.choice('.x'))] if given else []))
                S.ensure((e is None) == have, 'a record is read from a file', lambda: e)
                if have:
                    put(k, record)
                _, e = attempt(L.load, k, os.path.join(directory, 'record.conf'))
                S.ensure(e is not None, 'a record is not read from an unknown kind of file')
            elif op == 'reopen':
                L = RunLog(os.path.join(directory, 'runs.json'))
            agree(op)
        k = S.name('absent')
        for m, _ in model:
            S.assume(k != m)
        got, e = attempt(lambda: L[k])
        S.ensure(isinstance(e, KeyError) and k not in L, 'an unknown run has no record')
    finally:
        shutil.rmtree(directory)


# the script ---------------------------------------------------------------------------------------
@contract('C19', 'script', functions=[PRJ + n for n in ('Interface._setup_cli',)] + ['eprempy._project_main.run', 'eprempy._project_main.mv', 'eprempy._project_main.rm'], rand=(1, 12),
          clause='The script of a project performs the same operations.')
def script(S):
    r = S.rng
    w = World(S, r.choice([(), ('A', 'B')]))
    try:
        w.create()
        P = w.P

        class Script:
            """The operations of the project, by its script."""
            def call(self, *a, branches=None, errors=False, silent=True):
                source = os.path.dirname(os.path.dirname(need('eprempy', 'project').__file__))
                b = [] if not branches else ['-b', *([branches] if isinstance(branches, str) else branches)]
                p = subprocess.run([sys.executable, w.root, *a, *b, *([] if errors else ['-f']), *([] if silent else ['-v'])], capture_output=True, text=True,
                                   env={**os.environ, 'PYTHONPATH': source, 'PYTHONDONTWRITEBYTECODE': '1'})
                if p.returncode:
                    raise RuntimeError(p.stderr[-500:])
            def run(self, config, name, nproc=None, environment=None, **k):
                self.call('run', config, '-t', name, '-m', environment['mpirun'], '-e', environment['eprem'], **k)
            def mv(self, a, b, **k): self.call('mv', a, b, **k)
            def rm(self, a, **k): self.call('rm', a, **k)
            def __getattr__(self, k): return getattr(P, k)
            def __bool__(self): return bool(P)
        w.P = Script()
        w.run('a')
        w.run('b', r.choice(['ok', 'fail']), branches=w.branches[:1])
        w.mv('a', r.choice(['b', 'c']), branches=r.choice([None, w.branches[-1:]]), errors=r.random() < .5)
        w.rm(r.choice(['a', 'b', '*']), branches=w.branches[:1])
    finally:
        w.close()
