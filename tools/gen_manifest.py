#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
ids = [p['id'] for p in props]
m = dict(version=1, setup_cmd='python3 check.py build',
         checks=[dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                      evidence_file='evidence/%s.json' % i, technique=CHECKS[i]['technique'], level='exploration', level_note=CHECKS[i]['note'])
                 for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in CHECKS],
         notes='No hooks: the checks drive the public interface. VERIF_SEED selects every random choice. Known findings: KNOWN_FINDINGS.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
