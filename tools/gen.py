#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/*.py."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
props, checks = [], []
for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if not re.match(r'^[A-Z][0-9]{2,3}\.py$', f):
        continue
    i = f[:-3]
    m = importlib.import_module('checks.' + i)
    p = dict(id=i)
    p.update(m.PROP)
    assert len(p['title']) <= 80, (i, len(p['title']))
    props.append(p)
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=getattr(m, 'TECHNIQUE', 'TLA+ specification: TLC model checking and TLC trace validation of the real code'),
                       level=getattr(m, 'LEVEL', 'model_checking'), level_note=m.LEVEL_NOTE))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
    for p in props:
        fp.write(json.dumps(p) + '\n')
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
for p in NA:
    pass
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=NA,
           notes='No hooks: the checks use the public functions of the package. checks/*.py hold the property records; tools/gen.py writes this file.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
sch = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(man, sch)
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, sch)
print(len(props), 'properties')
