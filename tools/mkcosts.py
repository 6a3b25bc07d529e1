"""Writes data/costs.json from evidence/*.json (a quick sweep of the unchanged tree) and, if a log of a thorough
sweep is given, its figures."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(HERE, 'data', 'costs.json')
out = json.load(open(fn)) if os.path.exists(fn) else {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    e = json.load(open(os.path.join(HERE, 'evidence', i+'.json')))
    assert e['tier']=='quick' and not e.get('violations'), i
    c = e['coverage']
    old = out.get(i, {})
    out[i] = dict(cases=c['cases_by_workload'], evaluations=c['evaluations'], distinct=c['distinct_nontrivial'],
                  judged=sum(c['observations_judged'].values()), seconds=e['wall_s'],
                  thorough=old.get('thorough', 'the same workloads, until they are done or about 240 s have passed'))
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r'(C\d\d) rc=0 C\d\d: (\d+) executions, (\d+) distinct and non-trivial, (\d+) observations judged, 0 violations, ([\d.]+) s', l)
        if m:
            i, n, d, j, s = m.groups()
            out[i]['thorough'] = f'up to {n} executions and {j} observations judged in {float(s):.0f} s when last run'
json.dump(out, open(fn, 'w'), indent=1, sort_keys=True)
open(fn, 'a').write('\n')
