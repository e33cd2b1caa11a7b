"""Writes MANIFEST.json: every property with a checks/<id>.py is claimed, the others are listed as not built."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(V, 'checks', p.lower() + '.py')
    if os.path.exists(f):
        ns = {}
        src = open(f).read()
        m = re.search(r'^MANIFEST = (\{.*?^\})', src, re.S | re.M)
        meta = eval(m.group(1))
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, **meta))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
