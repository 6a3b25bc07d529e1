"""C27: the by-words command works on the named file, or leaves it alone."""
import gzip
import os
import shutil
import sangfroid
from . import core, model, obs, ops, words
from .core import workload, rule
from .common import *

rule('C27', '''
The by-words command is run, as a process of its own, in directories with random animations, subtitles and other files; with the subtitles named or found by name, word by word or letter by letter, silent or verbose, from the directory
itself or another. Afterwards the animation must hold just what the library gives for the same arguments, in the format it had, and nothing else in the directory may have changed. Runs
which can't work (no such file, not an animation, no subtitles, wrong arguments) must end with an error status and leave every file as it was. Non-trivial: a run judged. Distinct by files and arguments.''',
     required=['runs that worked', 'runs refused', 'subtitles found by name', 'subtitles named', 'letters', 'words', 'verbose', 'gzipped', 'plain', 'from another directory', 'nothing else touched', 'animations changed', 'run again',
               'no such animation', 'no such subtitles', 'not an animation', 'broken animation', 'wrong arguments', 'dots in the name',
               'subtitles with Windows line ends', 'subtitles marked as utf-8-sig', 'subtitles marked as utf-16'])


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)+'/'] = None
    return out


def material(case):
    rng = case.rng
    while True:
        doc, groups, ours = words.document(rng)
        matched = words.independent(rng, ours)
        subs = [s for s in words.subtitles(rng, [g for g in groups if g.is_ours], matched) if '\n' not in s[2] and words.tidy(s[2]).strip()]
        # files of subtitles may not keep blank space at the ends
        if subs and not any(s[2]!=s[2].strip() for s in subs):
            return doc, subs


def setting_up(case):
    """A directory with an animation, its subtitles, and others."""
    rng = case.rng
    doc, subs = material(case)
    ext = rng.choice(['.sif', '.sif', '.sif', '.sifz', '.sifz', '.SIF', '.Sifz'])
    stem = rng.choice(['song', 'my song', 'Ünï', 'a.b', 'song.sif', 'x'])
    if '.' in stem:
        case.saw('dots in the name')
    data = doc.xml()
    if ext.lower()=='.sifz':
        data = gzip.compress(data)
        case.saw('gzipped')
    else:
        case.saw('plain')
    d = case.path('work')
    os.mkdir(d)
    sif = stem+ext
    with open(os.path.join(d, sif), 'wb') as f:
        f.write(data)
    # others, which nobody asks about
    for name in ('other.sif', 'sif.srt', 'notes.txt', 'bywords', stem+'.bak'):
        if rng.random()<0.5:
            with open(os.path.join(d, name), 'wb') as f:
                f.write(doc.xml() if name.endswith('.sif') else b'1\n00:00:00,000 --> 00:00:01,000\nnothing\n\n')
    named = rng.random()<0.5
    srt = stem+'.srt'
    if named:
        # the one with the same name is a decoy
        if rng.random()<0.5:
            with open(os.path.join(d, srt), 'wb') as f:
                f.write(words.srt_text([(s[0]+777, s[1], s[2], s[3]) for s in subs]).encode())
        srt = rng.choice(['lyrics.srt', 'the words.txt', 'sub.title.srt'])
    text = words.srt_text(subs)
    if rng.random()<0.3:
        text = text.replace('\n', '\r\n')
        case.saw('subtitles with Windows line ends')
    encoding = 'utf-8'
    if rng.random()<0.3:
        encoding = rng.choice(['utf-8-sig', 'utf-16', 'utf-32'])
        case.saw('subtitles marked as '+encoding)
    with open(os.path.join(d, srt), 'wb') as f:
        f.write(text.encode(encoding))
    return doc, subs, d, sif, srt, named


def arguments(case, sif, srt, named, letters):
    rng = case.rng
    where = rng.random()<0.4
    d = case.path('work')
    prefix = ''
    cwd = d
    if where:
        cwd = case.path('elsewhere')
        os.makedirs(cwd, exist_ok=True)
        prefix = rng.choice([d+'/', '../work/'])
        case.saw('from another directory')
    args = [prefix+sif] + ([prefix+srt] if named else [])
    case.saw('subtitles named' if named else 'subtitles found by name')
    extra = []
    if letters:
        extra.append(rng.choice(['--letter', '-l']))
        case.saw('letters')
    else:
        case.saw('words')
    if rng.random()<0.4:
        extra.append(rng.choice(['-v', '-vv', '--verbose', '-vvv']))
        case.saw('verbose')
    for e in extra:
        # not between the names; argparse doesn't like that
        args = [e]+args if rng.random()<0.5 else args+[e]
    return args, cwd


@workload('C27', 90, 2500)
def working(case):
    rng = case.rng
    doc, subs, d, sif, srt, named = setting_up(case)
    letters = rng.random()<0.4
    before = snapshot(d)
    # what the library makes of it
    ref = case.path('reference'+os.path.splitext(sif)[1])
    shutil.copy(os.path.join(d, sif), ref)
    import pysrt
    animation = sangfroid.open(ref)
    words.run(pysrt.from_string(words.srt_text(subs)), animation, letters)
    want = obs.tree_of_tag(animation.tag)
    original = obs.tree_of_file(os.path.join(d, sif))
    for again in range(1 if rng.random()<0.8 else 2):
        args, cwd = arguments(case, sif, srt, named, letters)
        case.did(' '.join(args))
        r = words.command(*args, cwd=cwd)
        case.check(r.returncode==0, f'{args} failed', r.stdout.decode('utf-8', 'replace')[-1500:])
        after = snapshot(d)
        others = lambda s: {k: v for k, v in s.items() if k!=sif}
        case.check(others(after)==others(before), f'{args} touched something else', f'files before {sorted(before)}', f'files after {sorted(after)}')
        case.check(cwd==d or not os.listdir(cwd), f'{args} left something in the current directory', os.listdir(cwd))
        case.saw('nothing else touched')
        data = after[sif]
        case.equal(data[:2]==b'\x1f\x8b', before[sif][:2]==b'\x1f\x8b', f'{args} changed the format of the file')
        tree = obs.tree_of_bytes(data)
        [got] = [k for k in tree[2] if k[0]==want[0]]
        case.check(got==want, f'{args} did not give what the library gives', str(obs.diff(want, got)))
        if tree!=original:
            case.saw('animations changed')
        if again:
            case.saw('run again')
    case.saw('runs that worked')
    case.distinct([before[sif], case.log])


@workload('C27', 60, 1500)
def refused(case):
    rng = case.rng
    doc, subs, d, sif, srt, named = setting_up(case)
    letters = rng.random()<0.4
    args, cwd = arguments(case, sif, srt, named, letters)
    path, spath = os.path.join(d, sif), os.path.join(d, srt)
    what = rng.choice(['no such animation', 'no such subtitles', 'not an animation', 'broken animation', 'wrong arguments'])
    if what=='no such animation':
        os.unlink(path)
    elif what=='no such subtitles':
        os.unlink(spath)
    elif what=='not an animation':
        with open(path, 'wb') as f:
            f.write(rng.choice([b'', b'hello', b'\x89PNG\r\n\x1a\n'+b'\0'*40, b'PK\x03\x04'+b'\0'*40]))
    elif what=='broken animation':
        data = doc.xml()
        if rng.random()<0.5:
            return unknown_layers(case, d, sif, args, cwd, path, doc)
        data = gzip.compress(data)
        data = data[:rng.randrange(12, len(data)-10)]
        with open(path, 'wb') as f:
            f.write(data)
    else:
        args = rng.choice([[], args+['one', 'two', 'three'], args+['--wombat'], ['--letter'], args+['-q']])
    before = snapshot(d)
    case.did(what, ' '.join(args))
    r = words.command(*args, cwd=cwd)
    case.check(r.returncode!=0, f'{what}: {args} did not fail', r.stdout.decode('utf-8', 'replace')[-1500:])
    after = snapshot(d)
    case.check(after==before, f'{what}: {args} failed, but changed something', f'files before {sorted(before)}', f'files after {sorted(after)}')
    case.check(cwd==d or not os.listdir(cwd), f'{what}: {args} left something in the current directory', os.listdir(cwd))
    case.saw(what)
    case.saw('runs refused')
    case.distinct([what, case.log, before.get(sif)])


def unknown_layers(case, d, sif, args, cwd, path, doc):
    """The animation opens, but can't be worked on."""
    data = doc.xml()
    text = data.replace(b'type="group"', b'type="wombat"').replace(b'type="text"', b'type="wombat"')
    if text==data:
        return
    with open(path, 'wb') as f:
        f.write(text if sif.lower().endswith('.sif') else gzip.compress(text))
    before = snapshot(d)
    r = words.command(*args, cwd=cwd)
    after = snapshot(d)
    if r.returncode!=0:
        case.check(after==before, f'an animation with unknown layers: {args} failed, but changed something')
        case.saw('runs refused')
    else:
        case.check(obs.tree_of_bytes(after[sif])==obs.tree_of_bytes(before[sif]), f'an animation with no groups: {args} changed it')
    case.saw('broken animation')
    case.distinct([before[sif], ' '.join(args)])
