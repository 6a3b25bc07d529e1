"""C20: by-words touches only the text it animates."""
import gzip
import hashlib
import os
from fractions import Fraction as Fr
import sangfroid
from . import core, model, obs, ops, words
from .core import workload, rule
from .common import *

rule('C20', '''
Whole runs of by-words, in process and by the command-line tool, on random animations and subtitles (matching, nearly matching, repeated, overlapping, empty, none at all; groups without descriptions, texts, or matches): the document before and
after are compared, but for the text params of the text layers of the groups whose text is a subtitle's; the subtitles before and after; and the results of one run, two, and two with saving between. The directory is watched. Non-trivial: the rest of the document was compared. Distinct
by document and subtitles.''',
     required=['the rest compared', 'matched', 'unmatched groups', 'unmatched subtitles', 'no subtitles', 'no groups', 'run twice', 'run twice with saving', 'subtitles compared',
               'by command', 'by command twice', 'directories compared', 'failed commands', 'letter by letter', 'word by word', 'matched texts judged', 'groups not called by-words with the words of a subtitle'])


def holes(animation, doc, subs):
    """The element paths of what may change, and whether each should have."""
    texts = {words.tidy(s[2]) for s in subs}
    layers = [l for _, l, _ in doc.walk(reachable=False)]
    groups = [words.Group(p, l) for p, l, _ in doc.walk(reachable=False) if l.type=='group']
    matched = set()
    for g in groups:
        if g.is_ours and g.texts and g.text in texts:
            matched |= {id(t) for t in g.texts}
    tags = []
    def walk(t):
        for k in obs.elements(t):
            if k.name=='layer':
                tags.append(k)
            walk(k)
    walk(animation.tag)
    assert len(tags)==len(layers)
    paths = []
    for tag, l in zip(tags, layers):
        if id(l) in matched:
            [param] = [p for p in obs.elements(tag) if p.name=='param' and p['name']=='text']
            [value] = obs.elements(param)
            paths.append(obs.epath(animation.tag, value))
    return paths


def any_subtitles(rng, groups, ours):
    """Subtitles of any sort, perhaps overlapping."""
    r = rng.random()
    if r<0.08:
        return []
    subs = words.subtitles(rng, [g for g in groups if g.is_ours], words.independent(rng, ours))
    if rng.random()<0.3 and ours:
        # nested groups, and the same at once
        g = rng.choice(ours)
        subs.append((rng.randrange(0, 20000), rng.randrange(0, 5000), words.disguise(rng, g), g))
    others = [g for g in groups if not g.is_ours and g.texts and g.text.strip() and g.text not in {o.text for o in ours}]
    if others and rng.random()<0.6:
        # the words of a group which is not called by-words
        g = rng.choice(others)
        subs.append((rng.randrange(0, 20000), rng.randrange(0, 5000), words.disguise(rng, g), None))
    if rng.random()<0.2:
        subs.append((rng.randrange(0, 20000), rng.randrange(0, 5000), rng.choice(['', ' ', '!!!', '\n', 'bywords']), None))
    return subs


def snapshot(srt):
    return [(i.index, i.start.ordinal, i.end.ordinal, i.text, i.position) for i in srt]


@workload('C20', 1300, 32000)
def in_process(case):
    rng = case.rng
    doc, groups, ours = words.document(rng)
    if rng.random()<0.2:
        doc = model.Doc(rng, size=6)      # any document at all
        for _, l, _ in doc.walk(reachable=False):
            if l.type=='text' and 'text' not in dict(l.params):
                l.params.append(('text', model.value(rng, 'string', doc.fps)))
        groups = [words.Group(p, l) for p, l, _ in doc.walk(reachable=False) if l.type=='group']
        ours = [g for g in groups if g.is_ours and g.texts]
    subs = any_subtitles(rng, groups, ours)
    letters = rng.random()<0.4
    animation = load(case, doc)
    srt = words.srt(subs)
    may = holes(animation, doc, subs)
    before = obs.tree_dropping(animation.tag, may)
    whole = obs.tree_of_tag(animation.tag)
    said = snapshot(srt)
    case.did(f'{"letters" if letters else "words"}; {len(ours)} groups; {len(may)} to animate', str([s[:3] for s in subs]))
    words.run(srt, animation, letters)
    after = obs.tree_dropping(animation.tag, may)
    case.check(after==before, 'by-words changed something else', str(obs.diff(before, after)), case.log[-1])
    for p in may:
        value = obs.eat(animation.tag, p)
        case.check(value.name=='animated', 'a matched text was not animated')
        case.saw('matched texts judged')
    case.check(snapshot(srt)==said, 'by-words changed the subtitles')
    case.saw('subtitles compared')
    case.saw('the rest compared')
    intact(case, animation, 'after by-words')
    if may:
        case.saw('matched')
    else:
        case.check(obs.tree_of_tag(animation.tag)==whole, 'by-words changed something, though nothing matched')
    once = obs.tree_of_tag(animation.tag)
    if rng.random()<0.5:
        fn = case.path('b.sif')
        animation.save(fn)
        animation = sangfroid.open(fn)
        case.saw('run twice with saving')
    words.run(srt if rng.random()<0.5 else words.srt(subs), animation, letters)
    twice = obs.tree_of_tag(animation.tag)
    case.check(once==twice, 'running it again gives something else', str(obs.diff(once, twice)), case.log[-1])
    case.saw('run twice')
    case.saw('letter by letter' if letters else 'word by word')
    if not subs:
        case.saw('no subtitles')
    if not [g for g in groups if g.is_ours]:
        case.saw('no groups')
    texts = {words.tidy(s[2]) for s in subs}
    if any(g.is_ours and g.text not in texts for g in groups):
        case.saw('unmatched groups')
    if any(not g.is_ours and g.texts and g.text in texts for g in groups):
        case.saw('groups not called by-words with the words of a subtitle')
    if any(words.tidy(s[2]) not in {g.text for g in ours} for s in subs):
        case.saw('unmatched subtitles')
    case.distinct(case.log)


def listing(directory):
    out = {}
    for f in sorted(os.listdir(directory)):
        with open(os.path.join(directory, f), 'rb') as h:
            out[f] = hashlib.sha256(h.read()).hexdigest()
    return out


@workload('C20', 40, 1000)
def by_command(case):
    rng = case.rng
    doc, groups, ours = words.document(rng)
    subs = [s for s in any_subtitles(rng, groups, ours) if '\n' not in s[2] and words.tidy(s[2]).strip() and s[2]==s[2].strip()]
    letters = rng.random()<0.4
    ext = rng.choice(['.sif', '.sif', '.sifz'])
    data = doc.xml()
    write(case, gzip.compress(data) if ext=='.sifz' else data, 'a'+ext)
    write(case, words.srt_text(subs).encode('utf-8'), 'a.srt')
    write(case, b'something else', 'bystander.txt')
    args = ['a'+ext] + (['a.srt'] if rng.random()<0.5 else []) + (['--letter'] if letters else [])
    was = listing(case.scratch)
    animation = sangfroid.open(case.path('a'+ext))
    may = holes(animation, doc, subs)
    before = obs.tree_dropping(animation.tag, may)
    case.did(' '.join(args), str([s[:3] for s in subs]))
    r = words.command(*args, cwd=case.scratch)
    case.check(r.returncode==0, f'{args} failed', r.stdout.decode('utf-8', 'replace')[-1500:])
    now = listing(case.scratch)
    case.equal({k: v for k, v in now.items() if k!='a'+ext}, {k: v for k, v in was.items() if k!='a'+ext}, 'other files changed')
    case.saw('directories compared')
    animation = sangfroid.open(case.path('a'+ext))
    after = obs.tree_dropping(animation.tag, may)
    case.check(after==before, 'by-words changed something else', str(obs.diff(before, after)), case.log[-1])
    case.saw('the rest compared')
    case.saw('by command')
    if rng.random()<0.4:
        once = obs.tree_of_tag(animation.tag)
        r = words.command(*args, cwd=case.scratch)
        case.check(r.returncode==0, f'{args} failed the second time', r.stdout.decode('utf-8', 'replace')[-1500:])
        twice = obs.tree_of_tag(sangfroid.open(case.path('a'+ext)).tag)
        case.check(once==twice, 'running it again gives something else', str(obs.diff(once, twice)))
        case.equal(sorted(listing(case.scratch)), sorted(was), 'there are other files')
        case.saw('by command twice')
    if rng.random()<0.4:
        was = listing(case.scratch)
        args = rng.choice([['a'+ext, 'missing.srt'], ['missing.sif', 'a.srt'], ['a'+ext, 'a.srt', '--wombat'], [], ['bystander.txt', 'a.srt']])
        r = words.command(*args, cwd=case.scratch)
        case.check(r.returncode!=0, f'{args} did not fail')
        case.equal(listing(case.scratch), was, f'{args} failed but changed files')
        case.saw('failed commands')
    case.distinct(case.log)
