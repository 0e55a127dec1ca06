"""Freeze what each notice refers to (mc/data/refs.json), as the specification for C29."""
import json
import os
import xml.etree.ElementTree as ET

out = {}
root = ET.parse('/repo/httpolice/notices.xml').getroot()


def walk(elem, refs):
    for c in elem:
        if c.tag == 'var' and c.get('ref'):
            refs.append(['var', c.get('ref')])
        elif c.tag == 'ref':
            refs.append(['var', c.get('to')])
        elif c.tag in ('h', 'm', 'st') and c.get('ref') != 'no':
            refs.append([c.tag, c.text.strip()])
        walk(c, refs)


for n in root:
    if n.tag in ('error', 'comment', 'debug'):
        refs = []
        walk(n, refs)
        out[n.get('id')] = refs
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'data', 'refs.json')
with open(path, 'w') as f:
    f.write('{\n' + ',\n'.join('"%s": %s' % (k, json.dumps(v)) for k, v in sorted(out.items())) + '\n}\n')
