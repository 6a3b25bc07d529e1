"""Documents and subtitles for by-words, and an independent scheduler."""
import os
import re
import subprocess
import sys
from fractions import Fraction as Fr
import pysrt
import sangfroid
from . import core, model, obs, ops

WORDS = ['How', 'can', 'I', 'sing', 'like', 'a', 'girl', "don't", 'rock-n-roll', 'Stigmatised,', 'world?', 'x', '42', '1st', 'naïve', 'été', '"quoted"', 'AND', 'the', 'well...', '日本',
         'Ω', 'b4', '&', '<i>', "'", 'supercalifragilistic', 'we', 'O.K.', '—', 'ok']


def tidy(s):
    return ''.join(c for c in s.lower() if c in 'abcdefghijklmnopqrstuvwxyz0123456789 ')


def description(rng):
    n = rng.choice([1, 1, 2, 3, 5])
    out = rng.choice(['', '', '', ' ', '  ']) if rng.random()<0.2 else ''
    for i in range(n):
        if i:
            out += rng.choice([' ', ' ', ' ', ' ', '  ', '\n', '\t', ' \n '])
        out += rng.choice(WORDS)
    if rng.random()<0.1:
        out += rng.choice([' ', '\n', '   '])
    return out


class Group:
    """What by-words should know of a group."""
    def __init__(self, path, layer):
        self.path, self.layer = path, layer
        found = []
        def walk(l):
            for c in l.children:
                if c.type=='text':
                    found.append(c)
                walk(c)
        walk(layer)
        found.reverse()      # layer order
        self.texts = [t for t in found if t.attrs.get('desc')]
        self.text = ' '.join(tidy(t.attrs['desc']) for t in self.texts)
        self.is_ours = layer.attrs.get('desc', '').lower().startswith('bywords')


def words_of(desc, letters):
    """[(the text up to and including it, its length)]"""
    if letters:
        return [(desc[:i+1], 1) for i, c in enumerate(desc) if c.strip()]
    return [(desc[:m.end()], m.end()-m.start()) for m in re.finditer(r'[^ \t\n]+', desc)]


def schedule(group, start, duration, letters):
    """{id of text layer: [(seconds, text)]}, exactly."""
    all_words = [(t, text, n) for t in group.texts for text, n in words_of(t.attrs['desc'], letters)]
    total = sum(n for _, _, n in all_words)
    result = {}
    so_far = 0
    for t, text, n in all_words:
        result.setdefault(id(t), []).append(((start+Fr(duration*so_far, total))/1000, text))
        so_far += n
    return result


def document(rng, nested=True, size=8):
    """A document with by-words groups in it, each of different text."""
    for _ in range(20):
        fps = Fr(rng.choice(model.FPS))
        layers = []
        def text_layer():
            l = model.layer(rng, fps, 3, [0], types=['text'])
            l.params = [(n, v) for n, v in l.params if n!='text']
            l.params.insert(rng.randrange(len(l.params)+1), ('text', model.value(rng, 'string', fps, 0.4)))
            r = rng.random()
            l.attrs.pop('desc', None)
            if r<0.8:
                l.attrs['desc'] = description(rng)
            elif r<0.87:
                l.attrs['desc'] = ''
            return l
        def group(depth):
            g = model.layer(rng, fps, 4, [0], types=['group'])
            kids = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                r = rng.random()
                if r<0.7:
                    kids.append(text_layer())
                elif r<0.85 or depth>=2 or not nested:
                    kids.append(model.layer(rng, fps, 4, [0], types=['circle', 'star', 'rectangle']))
                else:
                    kids.append(group(depth+1))
            g.canvas.layers = kids
            r = rng.random()
            g.attrs.pop('desc', None)
            if r<0.7:
                g.attrs['desc'] = rng.choice(['bywords', 'bywords-1', 'bywords can I', 'bywords x', 'Bywords', 'BYWORDS!'])
            elif r<0.8:
                g.attrs['desc'] = rng.choice(['byword', 'my bywords', ' bywords', 'by-words', 'group', ''])
            return g
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            layers.append(group(0) if r<0.75 else text_layer() if r<0.85 else model.layer(rng, fps, 4, [0], types=['circle', 'star']))
        doc = model.Doc(rng, layers=layers, fps=str(float(fps)))
        doc.fps = Fr(doc.attrs['fps'])
        groups = [Group(p, l) for p, l, _ in doc.walk(reachable=False) if l.type=='group']
        ours = [g for g in groups if g.is_ours and g.texts]
        texts = [g.text for g in ours]
        if len(set(texts))==len(texts) and (ours or rng.random()<0.2) and all(t.strip() for t in texts):
            return doc, groups, ours
    return document(rng, nested, size)


def disguise(rng, group):
    """The text of a subtitle which matches a group."""
    s = ' '.join(t.attrs['desc'] for t in group.texts)
    # what's ignored may differ
    s = re.sub(r'[\n\t]', '', s)
    out = ''
    for c in s:
        if rng.random()<0.1 and c.lower() in 'abcdefghijklmnopqrstuvwxyz':
            c = c.swapcase()
        if rng.random()<0.05:
            out += rng.choice([',', '!', '-', '?', "'", '…', '♪'])
        if tidy(c)=='' and rng.random()<0.3:
            continue
        out += c
    assert tidy(out)==group.text, (out, group.text)
    return out


def near_miss(rng, groups):
    """Text which nearly matches."""
    texts = {g.text for g in groups}
    for _ in range(20):
        t = rng.choice([g.text for g in groups] or ['hello'])
        r = rng.random()
        if r<0.2:
            t = t+' more'
        elif r<0.4:
            t = t[:-1]
        elif r<0.6:
            i = rng.randrange(len(t)+1)
            t = t[:i]+rng.choice('qz7')+t[i:]
        elif r<0.7:
            t = t.replace(' ', '')
        elif r<0.8:
            t = 'x '+t
        else:
            t = rng.choice(['la la la', 'something else', '♪'])
        if tidy(t) not in texts:
            return t
    return 'something quite different'


def subtitles(rng, groups, matched):
    """[(start ms, duration ms, text, group or None)], not overlapping, in random order."""
    out = []
    now = rng.choice([0, 0, rng.randrange(0, 5000), rng.randrange(0, 5*3600*1000)])
    plan = list(matched)
    if plan and rng.random()<0.2:
        plan.append(rng.choice(plan))      # said twice
    rng.shuffle(plan)
    for g in plan:
        while rng.random()<0.25:
            d = rng.randrange(1, 3000)
            out.append((now, d, near_miss(rng, groups), None))
            now += d
        d = rng.choice([1, 40, 1000, 2600, rng.randrange(100, 10000), rng.randrange(100, 10000), 60000])
        n = sum(len(words_of(t.attrs['desc'], True)) for t in g.texts)
        d = max(d, n)
        if rng.random()<0.03:
            d = 0
        out.append((now, d, disguise(rng, g), g))
        now += d + rng.choice([0, 0, 1, 100, rng.randrange(0, 5000)])
    if rng.random()<0.3:
        out.append((now, rng.randrange(1, 1000), near_miss(rng, groups), None))
    if rng.random()<0.2:
        rng.shuffle(out)
    return out


def srt(subs):
    f = pysrt.SubRipFile()
    for i, (start, d, text, _) in enumerate(subs):
        f.append(pysrt.SubRipItem(index=i+1, start=pysrt.SubRipTime.from_ordinal(start), end=pysrt.SubRipTime.from_ordinal(start+d), text=text))
    return f


def srt_text(subs):
    def stamp(ms):
        return f'{ms//3600000:02}:{ms//60000%60:02}:{ms//1000%60:02},{ms%1000:03}'
    return ''.join(f'{i+1}\n{stamp(s)} --> {stamp(s+d)}\n{text}\n\n' for i, (s, d, text, _) in enumerate(subs))


def independent(rng, ours):
    """Some of the groups, none inside another."""
    def inside(a, b):
        return a.path[:len(b.path)]==b.path and a is not b
    chosen = []
    for g in rng.sample(ours, len(ours)):
        if rng.random()<0.85 and not any(inside(g, c) or inside(c, g) for c in chosen):
            chosen.append(g)
    return chosen


def run(subs_file, animation, letters):
    from bywords.adjust import adjust
    if letters:
        adjust(subs_file, animation, letter_at_a_time=letters)
    else:
        adjust(subs_file, animation)


def command(*args, cwd=None):
    """Runs the command-line tool."""
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run([sys.executable, '-W', 'ignore', '-m', 'bywords', *args], cwd=cwd, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
