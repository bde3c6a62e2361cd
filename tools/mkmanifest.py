#!/usr/bin/env python3-vt
"""writes MANIFEST.json from properties.jsonl and the properties that have a check"""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in os.listdir(V + '/sx/props'):
    if f.endswith('.py'):
        have |= set(re.findall(r'^def ([A-Z]\d\d)\(', open(V + '/sx/props/' + f).read(), re.M))
NOTE = {
    'N': 'Text fields are symbolic characters/digits in fixed record layouts (1-4 records, 1-2 files); pandas, datetime and file access are modelled; every path is replayed on the real code.',
    'R': 'Text fields are symbolic characters/digits or symbolic numbers in fixed record layouts (1-3 records, 1-2 files); pandas, datetime and file access are modelled; every path is replayed on the real code.',
    'K': 'Arrays of fixed small sizes with symbolic elements; real arithmetic for floats; sin/cos/sqrt/atan2 by their algebraic laws; every path is replayed on the real code.',
    'C': 'Scalars or arrays of fixed small sizes with symbolic elements; real arithmetic for floats; every path is replayed on the real code.',
    'T': 'Fixed short series with symbolic elements; filter design runs concretely, filtering symbolically; real arithmetic for floats.',
    'X': 'Fixed short series with symbolic elements; least squares through its normal equations; real arithmetic for floats.',
    'M': 'Fixed small grids with symbolic elements; discrete Fourier transforms are expanded exactly; real arithmetic for floats.',
    'H': 'Fixed small grids with symbolic elements; exp/erf by their laws and interval bounds; real arithmetic for floats.',
    'U': 'Fixed sizes with symbolic elements or characters; every path is replayed on the real code.',
    'P': 'Fixed sizes with symbolic elements (of long series only a few are symbolic); two or three calls; real arithmetic for floats.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
                           thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the real Python source with Z3 deciding every path (bounded), counterexamples replayed on the real code',
                           level='model_checking', level_note=NOTE[i[0]]))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks,', len(na), 'not applicable')
