"""
Writes data/layer_spec.json: what Synfig itself wrote for one new layer of each kind
(data/pick-and-mix.sif, made in Synfig Studio).  This is our oracle for which kinds of
layer there are, which params each has, of which kinds, and with which defaults.
Run by hand.
"""
import json, os
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def value(e):
    k = e.tag
    if k in ('real', 'angle'):
        return k, float(e.get('value'))
    if k=='integer':
        return k, int(e.get('value'))
    if k=='bool':
        return k, e.get('value')=='true'
    if k=='time':
        return k, e.get('value')
    if k=='string':
        return k, e.text or ''
    if k=='color':
        return k, [float(e.find(c).text) for c in 'rgba']
    if k=='vector':
        return k, [float(e.find(c).text) for c in 'xy']
    if k=='gradient':
        return k, [[float(c.get('pos')), value(c)[1]] for c in e.findall('color')]
    if k=='composite':
        return k, {p.tag: value(list(p)[0])[1] for p in e}
    return k, None

spec = {}
root = ET.parse(os.path.join(HERE, 'data', 'pick-and-mix.sif')).getroot()
for layer in root.iter('layer'):
    t = layer.get('type')
    if t in spec:
        continue
    params = []
    for p in layer.findall('param'):
        kids = list(p)
        if len(kids)!=1:
            params.append(dict(name=p.get('name'), kind='opaque', default=None))
            continue
        kind, default = value(kids[0])
        params.append(dict(name=p.get('name'), kind=kind, default=default))
    spec[t] = dict(version=layer.get('version'), params=params)

with open(os.path.join(HERE, 'data', 'layer_spec.json'), 'w') as f:
    f.write('{\n' + ',\n'.join(f'{json.dumps(k)}: {json.dumps(v)}' for k, v in sorted(spec.items())) + '\n}\n')
print(len(spec))
import collections
print(collections.Counter(p['kind'] for s in spec.values() for p in s['params']))
