"""Writes MANIFEST.json from the registered checks (run after adding one)."""
import importlib.util
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent
import sys
sys.path.insert(0, str(ROOT))
from vf import meta

checks, na = [], []
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)['id']
    if (ROOT / 'vf' / 'checks' / f'{p.lower()}.py').exists() and p in meta.META:
        m = meta.META[p]
        checks.append(dict(
            property=p, quick_cmd=f'sh run.sh {p} quick', thorough_cmd=f'sh run.sh {p} thorough',
            technique=m.get('technique', 'contract-based deductive verification: contracts on the real functions, obligations '
                            'generated by executing them on symbolic values and discharged by z3; sampled contract '
                            'evaluation (bounded) where the functions are outside its reach'),
            level=m['level'], level_note=m['explanation'], evidence_file=f'evidence/{p}.json'))
    else:
        na.append(dict(property=p, reason=meta.NOT_APPLICABLE.get(p, 'no check is built for it yet')))
d = dict(version=1, setup_cmd="sh -c '. ./env.sh; python -c \"import eprempy, vf.main, z3\"'", checks=checks, not_applicable=na)
(ROOT / 'MANIFEST.json').write_text(json.dumps(d, indent=1) + '\n')
print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')
