"""Decides one property: runs its contracts, replays refutations, writes evidence."""
import concurrent.futures
import hashlib
import json
import os
import pathlib
import re
import subprocess
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from . import core

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = sys.executable


def worker(prop, name, mode, tier, seed, stdin=None, timeout=800):
    t = time.time()
    try:
        p = subprocess.run(
            [PY, '-m', 'vf.worker', prop, name, mode, tier, str(seed)],
            cwd=ROOT, input=stdin, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(ok=False, error='timeout', tb='')
    i = p.stdout.rfind('@@REPORT@@')
    if i < 0:
        return dict(ok=False, error='no report', tb=(p.stderr or '')[-2000:])
    return json.loads(p.stdout[i + len('@@REPORT@@'):])


def known_findings(prop):
    """Lines 'property=<id> <contract> :: <regex on case and failure>' of the committed file."""
    out = []
    f = ROOT / 'known-findings.jsonl'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def write_replay(prop, name, body):
    d = ROOT / 'evidence' / 'replays'
    d.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha256(json.dumps(body, sort_keys=True, default=repr).encode()).hexdigest()[:10]
    path = d / f'{prop}-{name}-{h}.json'
    path.write_text(json.dumps(body, indent=1, default=repr))
    return path


def run(prop, tier, seed, only=None):
    t0 = time.time()
    contracts = core.load(prop)
    if only:
        contracts = {k: v for k, v in contracts.items() if k in only}
    jobs = []
    for name, c in contracts.items():
        if c.sym:
            jobs.append((name, 'sym'))
        if c.cases:
            jobs.append((name, 'cases'))
        if c.rand[1 if tier == 'thorough' else 0]:
            jobs.append((name, 'rand'))
    results = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex:
        futs = {ex.submit(worker, prop, n, m, tier, seed): (n, m) for n, m in jobs}
        for f in concurrent.futures.as_completed(futs):
            results[futs[f]] = f.result()
    findings = known_findings(prop)
    seen_known = set()
    violations = []   # (contract, replay path, with_input, text)
    errors = []
    cov = dict(obligations=0, discharged=0, bounded_shape_obligations=0, bounded_shape_discharged=0,
               undecided=[], backends={}, solver_s=0.0, paths=0, sampled_evaluations=0,
               sampled_distinct=0, sampled_clauses=0, finite_cases=0, contracts=[], functions=[],
               unsupported=[])
    samples = []

    def excused(name, text):
        for d in findings:
            if d['contract'] == name and re.search(d['match'], text, re.S):
                seen_known.add(d['id'])
                return True
        return False

    for (name, mode) in jobs:
        c = contracts[name]
        r = results[(name, mode)]
        info = dict(contract=name, mode=mode, clause=c.clause[:300], functions=c.functions)
        if not r['ok']:
            errors.append(f"{name}/{mode}: {r['error']}")
            info['status'] = 'undecided (engine): ' + r['error']
            cov['contracts'].append(info)
            if os.environ.get('VF_DEBUG'):
                print(name, mode, r['error'], r.get('tb'))
            continue
        rep = r['report']
        if mode == 'sym':
            st = rep['stats']
            obs = rep['obligations']
            cov['paths'] += st['paths']
            cov['solver_s'] += st['solver_s']
            good = [o for o in obs if o['status'] == 'discharged']
            for o in good:
                cov['backends'][o['backend']] = cov['backends'].get(o['backend'], 0) + 1
            bad = [o for o in obs if o['status'] == 'refuted']
            todo = [dict(model=o['model'], choices=o['choices'], label=o['label'], vc=o['vc'], suspect=o['suspect']) for o in bad]
            nob = len(todo)
            todo += [dict(model=e['model'], choices=e['choices'], label=e['error'], vc=None, tb=e['tb'])
                     for e in st['errors']]
            confirmed = 0
            if todo:
                todo = todo[:60]
                rr = worker(prop, name, 'replay', tier, seed, stdin=json.dumps(todo))
                reps = rr['report'] if rr['ok'] else [dict(result=None, drawn=None)] * len(todo)
                for i, (it, x) in enumerate(zip(todo, reps)):
                    res = x['result']
                    if isinstance(res, dict):
                        text = f"{it['choices']} {res['label']}"
                        if excused(name, text):
                            continue
                        confirmed += 1
                        path = write_replay(prop, name, dict(
                            property=prop, contract=name, kind='counterexample of a failed obligation, replayed',
                            obligation=it['label'], vc=it['vc'], model=it['model'], choices=it['choices'],
                            failure=res, drawn=x['drawn'], clause=c.clause,
                            command=f'sh run.sh --replay {prop} {name} <this file>'))
                        violations.append((name, path, True, res['label']))
                        break
                    elif i < nob and (res in ('symbolic only', 'skip') or res is None) and it['suspect']:
                        cov['undecided'].append(f"{name}: {it['label']} (the failure does not occur on the real code)")
                    elif i < nob and (res in ('symbolic only', 'skip') or res is None):
                        path = write_replay(prop, name, dict(
                            property=prop, contract=name, kind='failed obligation, counterexample did not replay',
                            obligation=it['label'], vc=it['vc'], model=it['model'], choices=it['choices'],
                            clause=c.clause))
                        violations.append((name, path, False, it['label']))
            if st['unsupported'] or not st['complete'] or st['errors']:
                cov['unsupported'] += [f"{name}: {u}" for u in
                    (st['unsupported'] or [e['error'] for e in st['errors']] or ['path limit'])[:3]]
            n = len(obs)
            complete = st['complete'] and not st['unsupported'] and not st['errors']
            if n == 0 or st['reached'] == 0:
                errors.append(f'{name}: vacuous (no obligation reached)')
            if not complete:
                n += 1      # the unexplored rest of the function is one undischarged obligation
            key = 'obligations' if c.sym == 'proof' else 'bounded_shape_obligations'
            dk = 'discharged' if c.sym == 'proof' else 'bounded_shape_discharged'
            cov[key] += n
            cov[dk] += len(good)
            und = [o['label'] for o in obs if o['status'] == 'undecided']
            cov['undecided'] += [f'{name}: {u}' for u in und[:5]]
            info.update(kind=c.sym, bound=c.bound, obligations=n, discharged=len(good), paths=st['paths'],
                        reached=st['reached'], wall=round(rep['wall'], 2),
                        status='discharged' if len(good) == n else 'not fully discharged')
            if complete and len(good) == n and n:
                cov['functions'] += c.functions
        elif mode == 'cases':
            cov['finite_cases'] += rep['cases']
            ok = rep['cases'] - len(rep['violations'])
            if c.finite_is_proof:
                cov['obligations'] += rep['cases']
                cov['discharged'] += ok
                cov['backends']['exhaustive evaluation of a finite domain'] = \
                    cov['backends'].get('exhaustive evaluation of a finite domain', 0) + ok
            info.update(kind='finite domain, enumerated completely' if c.finite_is_proof else 'enumerated up to a bound',
                        bound=c.bound, cases=rep['cases'], clauses=rep['clauses'], wall=round(rep['wall'], 2),
                        status='holds' if not rep['violations'] else 'fails')
            samples += rep['samples'][:1]
            if rep['unsupported']:
                cov['unsupported'] += [f'{name}: {u}' for u in rep['unsupported']]
            if rep['cases'] == 0:
                errors.append(f'{name}: no cases')
            excused_n = 0
            for v in rep['violations']:
                if excused(name, f"{v['case']} {v['label']}"):
                    excused_n += 1
                    continue
                path = write_replay(prop, name, dict(property=prop, contract=name, kind='finite case', failure=v,
                                                     clause=c.clause))
                violations.append((name, path, True, f"{v['case']}: {v['label']}"))
                break
            if excused_n:
                info['status'] = f'holds except {excused_n} known findings'
        else:
            cov['sampled_evaluations'] += rep['evaluations']
            cov['sampled_distinct'] += rep['distinct']
            cov['sampled_clauses'] += rep['clauses']
            info.update(kind='bounded: sampled contract evaluation', bound=c.bound, evaluations=rep['evaluations'],
                        skipped=rep['skipped'], clauses=rep['clauses'], distinct=rep['distinct'],
                        wall=round(rep['wall'], 2), status='fails' if rep['violation'] else 'holds')
            samples += rep['samples'][:1]
            if rep['unsupported']:
                cov['unsupported'] += [f'{name}: {u}' for u in rep['unsupported']]
            v = rep['violation']
            if v and not excused(name, f"{v['drawn']} {v['label']}"):
                path = write_replay(prop, name, dict(
                    property=prop, contract=name, kind='concrete inputs', failure=v, drawn=v['drawn'], seed=seed,
                    case=v['case'], clause=c.clause, command=f'sh run.sh --replay {prop} {name} <this file>'))
                violations.append((name, path, True, v['label']))
        cov['contracts'].append(info)
    from . import meta
    m = meta.META[prop]
    cov['functions'] = sorted(set(cov['functions']))
    cov['solver_s'] = round(cov['solver_s'], 3)
    cov['checker_cmd'] = f'sh run.sh {prop} {tier}'
    cov['trusted_base'] = meta.TRUSTED + m.get('trusted', []) + sorted({t for c in contracts.values() for t in c.trusted})
    cov['evaluations'] = cov['sampled_evaluations'] + cov['finite_cases'] + cov['paths']
    cov['distinct_nontrivial'] = cov['sampled_distinct'] + cov['finite_cases']
    cov['rule'] = ('obligations: one per postcondition per feasible path of the real function executed on symbolic values; '
                   'sampled cases: drawn from VERIF_SEED, distinct by all drawn values, a case failing the precondition is not counted')
    cov['explanation'] = m['explanation']
    cov['samples'] = samples[:8]
    cov['engine_errors'] = errors
    ev = dict(property=prop, tier=tier, seed=int(seed), level=m['level'], coverage=cov,
              assumptions=meta.ASSUMPTIONS + m.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    (ROOT / 'evidence').mkdir(exist_ok=True)
    (ROOT / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=repr))
    for d in findings:
        if d['id'] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {d['id']} {d['what']}")
    for e in errors:
        print('note (no verdict):', e)
    for u in cov['unsupported'][:10]:
        print('note (outside the verifier):', str(u)[:200])
    for u in cov['undecided'][:10] if os.environ.get('VF_DEBUG') else []:
        print('note (undecided):', str(u)[:300])
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{cov['bounded_shape_discharged']}/{cov['bounded_shape_obligations']} shape-bounded, "
          f"{cov['sampled_evaluations']} sampled evaluations, {cov['finite_cases']} finite cases, {ev['wall_s']} s")
    if violations:
        violations.sort(key=lambda v: not v[2])
        replayed = [v for v in violations if v[2]]
        for name, path, with_input, text in (replayed or violations)[:5]:
            print(f"  {name}: {text[:300]}")
            print(f"VIOLATION property={prop} replay={path}" + ('' if with_input else ' no-failing-input-found'))
        return 1
    if not (cov['obligations'] + cov['sampled_evaluations'] + cov['finite_cases']):
        print('nothing was checked')
        return 3
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        prop, name, path = a[1:4]
        d = json.loads(pathlib.Path(path).read_text())
        if d.get('drawn') is None:
            print('the replay file carries no input')
            return 3
        r = worker(prop, name, 'script', 'quick', 0, stdin=json.dumps(d['drawn']))
        print(json.dumps(r, indent=1))
        return 1 if isinstance(r.get('report', {}).get('result'), dict) else 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run(prop, tier, seed, only=a[2:] or None)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
