"""C19: by-words timing follows the subtitles."""
from fractions import Fraction as Fr
import sangfroid
from . import core, model, obs, ops, words
from .core import workload, rule
from .common import *

rule('C19', '''
Random animations with by-words groups (nested, of several text layers, with odd spacing, punctuation and scripts, static and animated before) and random subtitles, some matching (in other case and
punctuation), some nearly, some twice; adjusted word by word and letter by letter, in process and by the command-line tool. The timeline of every text layer of every matched group is judged, instant by instant, by an independent scheduler in
exact arithmetic. Non-trivial: at least one group matched. Distinct by document and subtitles.''',
     required=['timelines judged', 'words judged', 'letter by letter', 'word by word', 'several layers in a group', 'said twice', 'word at time zero', 'nothing at time zero', 'text animated before',
               'by command', 'reopened', 'nested texts', 'near misses left alone', 'odd frame rates'])


def judge(case, animation, doc, subs, letters):
    """The animation should show what the subtitles say."""
    fps = doc.fps
    expected = {}
    layers = {id(l): (l, i) for i, (_, l, _) in enumerate(doc.walk(reachable=False))}
    for start, d, text, g in subs:
        if g is None:
            continue
        for k, w in words.schedule(g, start, d, letters).items():
            expected.setdefault(k, []).extend(w)
            if any(len(p)>len(g.path)+1 and p[:len(g.path)]==g.path for p, l, _ in doc.walk(reachable=False) if id(l)==k):
                case.saw('nested texts')
        if len(g.texts)>1:
            case.saw('several layers in a group')
    found = animation.find_all(True)
    for k, w in expected.items():
        l, i = layers[k]
        value = found[i]['text']
        what = f'the text layer {l.attrs["desc"]!r}'
        want = sorted(dict(sorted(w, key=lambda x: x[0])).items())      # of several at once, the last
        if want[0][0]!=0:
            want.insert(0, (Fr(0), ''))
            case.saw('nothing at time zero')
        else:
            case.saw('word at time zero')
        case.check(value.is_animated, f'{what} was not animated')
        got = [(p.time.frames, p.value.value, p.before, p.after) for p in value.timeline]
        tolerance = fps/10**6+Fr(3, 10**6)
        show = [f'got  {[x[:2] for x in got]}', f'want {[(float(t*fps), s) for t, s in want]}', f'at {float(fps)} fps, {"letters" if letters else "words"}, subtitles {[s[:3] for s in subs]}']
        case.check(len(got)==len(want), f'{what}: {len(got)} waypoints, not {len(want)}', *show)
        for (t, s, b, a), (wt, ws) in zip(got, want):
            case.check(abs(Fr(t)-wt*fps)<=tolerance, f'{what}: {s!r} at the wrong time', *show)
            case.check(s==ws, f'{what}: the wrong words', *show)
            case.equal((b, a), ('constant', 'constant'), f'{what}: does not step')
            case.saw('words judged')
        case.saw('timelines judged')
        if dict(l.params)['text'].animated:
            case.saw('text animated before')
    said = [id(s[3]) for s in subs if s[3] is not None]
    if len(set(said))<len(said):
        case.saw('said twice')
    if any(s[3] is None for s in subs):
        case.saw('near misses left alone')
    if fps.denominator!=1:
        case.saw('odd frame rates')
    case.saw('letter by letter' if letters else 'word by word')
    # the others aren't animated
    for k, (l, i) in layers.items():
        if l.type=='text' and k not in expected:
            v = dict(l.params)['text']
            case.check(obs.same(obs.read(found[i]['text']), v.meaning(fps)), f'an unmatched text layer {l.attrs.get("desc")!r} was changed')
            case.saw('other texts judged')
    return bool(expected)


@workload('C19', 1300, 32000)
def in_process(case):
    rng = case.rng
    doc, groups, ours = words.document(rng)
    matched = words.independent(rng, ours)
    subs = words.subtitles(rng, [g for g in groups if g.is_ours], matched)
    letters = rng.random()<0.4
    animation = load(case, doc)
    case.did(f'{"letters" if letters else "words"} at {float(doc.fps)} fps', str([s[:3] for s in subs]))
    words.run(words.srt(subs), animation, letters)
    any_ = judge(case, animation, doc, subs, letters)
    intact(case, animation, 'after by-words')
    if rng.random()<0.3:
        fn = case.path(rng.choice(['b.sif', 'b.sifz']))
        animation.save(fn)
        judge(case, sangfroid.open(fn), doc, subs, letters)
        case.saw('reopened')
    if any_:
        case.distinct(case.log)


@workload('C19', 48, 1200)
def by_command(case):
    rng = case.rng
    doc, groups, ours = words.document(rng)
    matched = words.independent(rng, ours)
    subs = [s for s in words.subtitles(rng, [g for g in groups if g.is_ours], matched) if '\n' not in s[2] and words.tidy(s[2]).strip()]
    # files of subtitles may not keep blank space at the ends, or look like other things
    if any(s[2]!=s[2].strip() for s in subs):
        return
    letters = rng.random()<0.4
    ext = rng.choice(['.sif', '.sif', '.sifz'])
    data = doc.xml()
    if ext=='.sifz':
        import gzip
        data = gzip.compress(data)
    write(case, data, 'a'+ext)
    name = rng.choice(['a.srt', 'other.srt'])
    write(case, words.srt_text(subs).encode('utf-8'), name)
    args = ['a'+ext] + ([name] if name!='a.srt' or rng.random()<0.3 else []) + ([rng.choice(['--letter', '-l'])] if letters else [])
    if rng.random()<0.2:
        args.append(rng.choice(['-v', '-vv', '--verbose']))
    case.did(' '.join(args), str([s[:3] for s in subs]))
    r = words.command(*args, cwd=case.scratch)
    case.check(r.returncode==0, f'{args} failed', r.stdout.decode('utf-8', 'replace')[-1500:])
    if judge(case, sangfroid.open(case.path('a'+ext)), doc, subs, letters):
        case.saw('by command')
        case.distinct(case.log)
