"""Freeze the registry facts (reviewed against the RFCs/IANA registries) that reference models use.

Run once at the pinned commit; the checks only read mc/data/tables.json.
"""
import csv, json, os
D = '/repo/httpolice/known'
out = {}
for f in sorted(os.listdir(D)):
    if f.endswith('.csv'):
        rows = {}
        for r in csv.DictReader(open(os.path.join(D, f))):
            key = r.pop('key')
            rows[key] = {k: (v == 'True' if v in ('True', 'False') else v) for k, v in r.items()
                         if v and k not in ('comment', 'no_sync', 'cite_title')}
        out[f[:-4]] = rows
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc/data/tables.json')
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
# notices
import lxml.etree
root = lxml.etree.parse('/repo/httpolice/notices.xml').getroot()
n = {}
for e in root:
    if isinstance(e.tag, str):
        n[e.get('id')] = e.tag
json.dump(n, open(p.replace('tables', 'notices'), 'w'), sort_keys=True)
print(len(n))
