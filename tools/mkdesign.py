"""Writes DESIGN.md from tools/design.md (the prose), properties.jsonl, the rules in sfmon/, MANIFEST.json,
data/costs.json (what was explored on the unchanged tree) and data/caught.json (which planted bugs are caught)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(HERE, *p)
props = [json.loads(l) for l in open(J('properties.jsonl'))]
manifest = {c['property']: c for c in json.load(open(J('MANIFEST.json')))['checks']}
costs = json.load(open(J('data', 'costs.json')))
caught = json.load(open(J('data', 'caught.json')))

def rule(i):
    s = open(J('sfmon', i.lower()+'.py')).read()
    m = re.search(r"^rule\('%s',\s*(?:'''|\"\"\")(.*?)(?:'''|\"\"\")" % i, s, re.M|re.S)
    return ' '.join(m.group(1).split())

out = []
for p in props:
    i = p['id']
    out.append(f"### {i}: {p['title']}\n")
    out.append(f"*Technique.* {manifest[i]['technique'][0].upper()+manifest[i]['technique'][1:]}. Level: `{manifest[i]['level']}`.\n")
    out.append(f"*What is run and judged.* {rule(i)}\n")
    c = costs[i]
    t = ', '.join(f"`{k}` {v}" for k, v in c['cases'].items())
    out.append(f"*Bounds and cost.* Quick: {c['evaluations']} executions ({t}), {c['distinct']} distinct and non-trivial, "
               f"{c['judged']} observations judged, about {c['seconds']:.0f} s on 8 cores. "
               f"Thorough: {c['thorough']}.\n")
    b = [k for k, v in caught.items() if v['property']==i]
    if b:
        out.append("*Planted bugs.* " + '; '.join(f"`{k}` ({'caught' if caught[k]['caught'] else 'NOT CAUGHT'})" for k in sorted(b)) + '.\n')
table = ['| Planted bug | What it breaks | Caught by | First report |', '|---|---|---|---|']
for k in sorted(caught):
    v = caught[k]
    table.append('| `%s` | %s | %s | %s |' % (k, v['what'].replace('|', '\\|'), v['property'] if v['caught'] else '(missed)', v['report'].replace('|', '\\|')))
s = open(J('tools', 'design.md')).read()
s = s.replace('@PROPERTIES@', '\n'.join(out)).replace('@BUGS@', '\n'.join(table)).replace('@NBUGS@', str(len(caught))).replace('@NCAUGHT@', str(sum(v['caught'] for v in caught.values())))
open(J('DESIGN.md'), 'w').write(s)
