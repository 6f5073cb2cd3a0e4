#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from table import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
assert set(CHECKS) == set(props), set(CHECKS) ^ set(props)
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='Every check builds its harness from /repo\'s working tree under sanitizers (clang ASan+UBSan), as an '
               'optimised gcc build, and for concurrent suites under ThreadSanitizer; see DESIGN.md. No hooks are needed '
               'in /repo: the library is header-only and the monitors wrap its public interface.')
for p in props:
    c = CHECKS[p]
    m['checks'].append(dict(property=p, quick_cmd='python3 check.py ' + p,
                            thorough_cmd='python3 check.py %s --tier thorough' % p,
                            evidence_file='evidence/%s.json' % p,
                            technique=c['technique'], level=c['level'], level_note=c['note']))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    pass
