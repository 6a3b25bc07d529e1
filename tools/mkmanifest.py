"""Writes MANIFEST.json from the properties which have a check in sfmon/."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'C01': 'runtime monitoring: random and real documents through real saves; offline oracle (expat canonical form) over the files',
    'C02': 'runtime monitoring: random edit/save/reopen histories; online read-out oracle and tree sanitizer',
    'C03': 'runtime monitoring with fault injection: LD_PRELOAD shim kills or fails every system call of a save in turn; oracle over the directory left behind',
    'C04': 'runtime monitoring: open/save/save-as histories against an online model of the directory',
    'C05': 'runtime monitoring: random reads found by introspection, with a full-document snapshot monitor',
    'C06': 'runtime monitoring: snapshot monitor with a hole at the edited place, around every edit; alias monitor for copies',
    'C07': 'runtime monitoring: assignments by every route, judged against what was assigned',
    'C08': 'runtime monitoring with fault injection (bad edits): snapshot monitor on every exception',
    'C09': 'runtime monitoring: every read judged against an independent account of the file',
    'C10': 'runtime monitoring: new layers judged against a specification taken from a Synfig-written file',
    'C11': 'runtime monitoring: histories of adding and moving layers against an online list model; tree sanitizer',
    'C12': 'runtime monitoring: searches judged by an independent matcher over the file',
    'C13': 'runtime monitoring: random specifications judged by an exact-arithmetic interpreter and a grammar',
    'C14': 'runtime monitoring: random times printed and re-read, judged by exact arithmetic and a grammar',
    'C15': 'runtime monitoring: random pairs and triples of times, judged against numbers; law checker',
    'C16': 'runtime monitoring: timeline histories against an online sorted-map model; stored-order monitor',
    'C17': 'runtime monitoring: toggling histories through several handles against an online model',
    'C18': 'runtime monitoring: interpolation histories against an online model; stored-form monitor',
    'C19': 'runtime monitoring: random groups and subtitles judged by an independent scheduler',
    'C20': 'runtime monitoring: snapshot monitor with holes around whole runs, in process and by command line',
    'C21': 'runtime monitoring: random and exhaustive colours judged by an independent converter',
    'C22': 'runtime monitoring: all views of compound values compared with each other and a model around each edit',
    'C23': 'runtime monitoring: settings and keyframes judged against an independent account of the file, around edits',
    'C24': 'runtime monitoring: random source files judged by an independent rewriter; directory monitor',
    'C26': 'runtime monitoring: comparisons and conversions of values in both orders, judged by the plain things they hold',
    'C27': 'runtime monitoring: the command run as a process in scratch directories; directory monitor, and the library as reference',
    'C28': 'runtime monitoring: histories run alone, interleaved at random and in threads with forced switching; differential oracle, bystander monitor, tree sanitizer',
    'C29': 'runtime monitoring: coherence monitor reading every handle after every edit of a random history',
    'C25': 'runtime monitoring: names in random spellings judged by an independent table; registry histories',
}
NOTE = ('Held on every execution explored: seeded random cases, in numbers given in the evidence file, with line coverage of the code. '
        'No claim beyond those executions. ')
EXTRA = {
    'C01': 'Trusts expat, and the canonical form in sfmon/obs.py.',
    'C03': 'Every system call a save makes (on this libc and file system) is failed and killed in turn, for each scenario; durability '
           'after power loss is not modelled. Trusts expat and the preloaded shim.',
    'C10': 'Trusts data/layer_spec.json, made from a file Synfig wrote (tools/mkspec.py).',
    'C13': 'Trusts fractions.Fraction.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    fn = os.path.join(HERE, 'sfmon', i.lower()+'.py')
    if os.path.exists(fn):
        level = 'fault_enumeration' if "level='fault_enumeration'" in open(fn).read() else 'exploration'
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
                           technique=TECHNIQUE[i], level=level, level_note=NOTE+EXTRA.get(i, '')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
