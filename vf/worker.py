"""Runs one contract in one mode and prints a JSON report (last line)."""
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from . import core


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_concrete(c, session, *args, limit=60):
    """None if it holds / is skipped, else a dict describing the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        c.fn(session, *args)
        return None
    except core.SymbolicOnly:
        return 'symbolic only'
    except core.Skip:
        return 'skip'
    except core.Unsupported as e:
        return f'unsupported: {e}'
    except core.Violated as e:
        return dict(label=str(e)[:1500], tb=None)
    except CaseTimeout:
        return dict(label=f'no result within {limit} s', tb=traceback.format_exc()[-1500:])
    except Exception as e:
        if type(e).__name__ == 'Unsupported':
            return f'unsupported: {e}'
        return dict(label=f'unexpected {type(e).__name__}: {e}'[:800], tb=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        session.close()


def do_sym(c, tier, k):
    from . import sym
    import importlib
    import pkgutil
    import eprempy
    for m in pkgutil.walk_packages(eprempy.__path__, 'eprempy.'):
        if m.name.endswith(('__main__', '_project_main', '.cli', '.project')):
            continue
        importlib.import_module(m.name)
    sym.instrument(*[m for n, m in list(sys.modules.items()) if n.startswith('eprempy') and m])
    t = time.time()
    obs, st = sym.explore(c.fn, max_paths=c.max_paths[k], timeout_ms=c.timeout_ms[k],
                          deadline=t + c.sym_time[k])
    # vacuity probe: an assertion that must fail behind the preconditions
    def probe(S):
        c.fn(S)
    return dict(obligations=obs, stats=st, wall=time.time() - t)


def do_replay_models(c, items):
    out = []
    for it in items:
        s = core.Concrete(rng=random.Random(0), model=it['model'] or {}, choices=it['choices'])
        r = run_concrete(c, s)
        out.append(dict(result=r, drawn=core.jsonable(s.drawn)))
    return out


def do_rand(c, tier, k, seed):
    n = c.rand[k]
    t0 = time.time()
    done = skipped = clauses = 0
    distinct = set()
    unsupported = []
    samples = []
    for i in range(n):
        if time.time() - t0 > c.rand_time[k]:
            break
        s = core.Concrete(rng=random.Random(core.seed_of(seed, c.prop, c.name, i)), big=k > 0)
        r = run_concrete(c, s)
        done += 1
        if r in ('skip', 'symbolic only'):
            skipped += 1
            continue
        if isinstance(r, str):
            unsupported.append(r)
            if len(unsupported) > 20:
                break
            continue
        clauses += s.labels
        distinct.add(repr(s.drawn))
        if len(samples) < 2:
            samples.append(core.jsonable([list(d) for d in s.drawn][:40]))
        if r is not None:
            return dict(evaluations=done, skipped=skipped, clauses=clauses, distinct=len(distinct),
                        samples=samples, violation=dict(r, drawn=core.jsonable([list(d) for d in s.drawn]), case=i),
                        unsupported=unsupported, wall=time.time() - t0)
    return dict(evaluations=done, skipped=skipped, clauses=clauses, distinct=len(distinct),
                samples=samples, violation=None, unsupported=unsupported[:3], wall=time.time() - t0)


def do_cases(c, tier, k):
    t0 = time.time()
    n = 0
    bad = []
    samples = []
    unsupported = []
    clauses = 0
    try:
        cases = list(c.cases(tier))
    except core.Unsupported as e:
        return dict(cases=0, clauses=0, violations=[], samples=[], unsupported=[str(e)], wall=0.0)
    for case in cases:
        n += 1
        s = core.Concrete(rng=random.Random(0))
        r = run_concrete(c, s, case)
        clauses += s.labels
        if len(samples) < 2:
            samples.append(repr(case)[:300])
        if isinstance(r, dict):
            bad.append(dict(r, case=repr(case)[:500]))
            if len(bad) > 200:
                break
        elif isinstance(r, str):
            unsupported.append(r)
    return dict(cases=n, clauses=clauses, violations=bad, samples=samples,
                unsupported=unsupported[:5], wall=time.time() - t0)


def main():
    prop, name, mode, tier, seed = sys.argv[1:6]
    k = 1 if tier == 'thorough' else 0
    os.environ['VF_MODE'] = mode
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    import warnings
    warnings.simplefilter('ignore')
    try:
        if mode == 'sym':
            c = core.load(prop)[name]
            rep = do_sym(c, tier, k)
        else:
            c = core.load(prop)[name]
            if mode == 'replay':
                rep = do_replay_models(c, json.loads(sys.stdin.read()))
            elif mode == 'rand':
                rep = do_rand(c, tier, k, seed)
            elif mode == 'cases':
                rep = do_cases(c, tier, k)
            elif mode == 'script':
                spec = json.loads(sys.stdin.read())
                s = core.Concrete(script=spec)
                rep = dict(result=run_concrete(c, s))
        rep = dict(ok=True, report=rep)
    except BaseException as e:  # engine failure: never a verdict
        rep = dict(ok=False, error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-3000:])
    out.write('\n@@REPORT@@' + json.dumps(rep, default=repr) + '\n')
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
