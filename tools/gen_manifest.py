#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in check.py and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, notes
props = [json.loads(l) for l in open(os.path.join(check.vlib.VERIF, 'properties.jsonl'))]
ids = [p['id'] for p in props]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
if notes.HOOKS:
    m['hooks'] = notes.HOOKS
for i in ids:
    if i in check.REG and i in notes.NOTES:
        t, n = notes.NOTES[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py ' + i,
                                thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                                technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=notes.NA.get(i, 'not built yet')))
m['notes'] = 'One entry point: python3 check.py <property>. Specifications in spec/, drivers of the real code in harness/ and sut/. See DESIGN.md.'
with open(os.path.join(check.vlib.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
