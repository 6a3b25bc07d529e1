"""C23: animation-wide settings and keyframes reflect the file."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C23', '''
Random headers, with settings present, absent, in any order and in every notation, unknown ones, keyframes of all kinds, and other canvases inside with settings of their own: everything readable is judged against the header as it was generated.
Then random histories of setting them, each judged against a model of all of them and against a comparison of the whole document before and after (only that entry may differ), then saved in either format, parsed independently and reopened.
Refused settings must change nothing. Non-trivial: at least one setting judged. Distinct by header and history.''',
     required=['headers judged', 'defaults judged', 'keyframes judged', 'inactive keyframes', 'settings set', 'only that entry', 'entries added', 'reopened', 'times set', 'frame rates set', 'names set', 'refused', 'lengths judged', 'blank animations', 'headers without keyframes',
               'independently parsed', 'nested canvases'])

# name: (attribute, how to read it, default)
SETTINGS = {
        'version': ('version', float, 1.2),
        'width': ('width', int, 480),
        'height': ('height', int, 270),
        'xres': ('xres', float, 2834.645669),
        'yres': ('yres', float, 2834.645669),
        'gamma_r': ('gamma-r', float, 1.0),
        'gamma_g': ('gamma-g', float, 1.0),
        'gamma_b': ('gamma-b', float, 1.0),
        'view_box': ('view-box', str, '-4.0 2.25 4.0 -2.25'),
        'antialias': ('antialias', int, 1),
        'fps': ('fps', float, None),
        'bgcolor': ('bgcolor', str, '0.5 0.5 0.5 1.0'),
        }
TIMES = {'begin_time': 'begin-time', 'end_time': 'end-time'}


class HeaderDoc(model.Doc):
    nested = None
    def element(self, rng):
        e = super().element(rng)
        if self.nested is not None:
            i, inner = self.nested
            e.kids.insert(min(i, len(e.kids)), inner)
        return e


class Header:
    """What the settings should be."""
    def __init__(self, attrs, name, desc, keyframes):
        """Attrs, and the times of the keyframes, as text."""
        self.attrs = dict(attrs)
        self.name, self.desc, self.keyframes = name, desc, keyframes

    @property
    def fps(self):
        return Fr(self.attrs['fps'])

    def frames(self, which):
        return model.frames_of(self.attrs[TIMES[which]], self.fps)

    def judge(self, case, animation, what):
        for s, (attr, kind, default) in SETTINGS.items():
            got = getattr(animation, s)
            if attr in self.attrs:
                want = kind(self.attrs[attr])
            else:
                want = default
                case.saw('defaults judged')
            case.check(type(got) is kind and got==want, f'{what}: wrong {s}', f'got {got!r}', f'want {want!r}')
        case.equal(animation.size, (animation.width, animation.height), f'{what}: wrong size')
        box = tuple(float(x) for x in self.attrs.get('view-box', '-4.0 2.25 4.0 -2.25').split())
        case.check(animation.viewbox==box, f'{what}: wrong viewbox', f'got {animation.viewbox}', f'want {box}')
        colour = tuple(float(x) for x in self.attrs.get('bgcolor', '0.5 0.5 0.5 1.0').split())
        case.check(isinstance(animation.background, sv.Color) and obs.near(animation.background.as_tuple(), colour, 1.01e-6), f'{what}: wrong background', f'got {animation.background}', f'want {colour}')
        for s in TIMES:
            got, want = getattr(animation, s), self.frames(s)
            case.check(isinstance(got, sangfroid.T) and abs(Fr(got.frames)-want)<=Fr(1, 10**6), f'{what}: wrong {s}', f'got {got!r}', f'want {float(want)}')
            case.check(got.fps==float(self.attrs['fps']), f'{what}: wrong fps of {s}', f'got {got.fps!r}', f'want {self.attrs["fps"]}')
            case.check(abs(Fr(got.seconds)-want/self.fps)<=Fr(1, 10**6), f'{what}: wrong seconds of {s}', f'got {got.seconds!r}', f'want {float(want/self.fps)}')
        length = self.frames('end_time')-self.frames('begin_time')
        if length>=0:
            got = animation.framecount
            case.check(type(got) is int and got in {int(length+d)+1 for d in (Fr(-1, 10**6), 0, Fr(1, 10**6))}, f'{what}: wrong framecount', f'got {got}', f'want one more than {float(length)}')
            case.saw('lengths judged')
        case.equal((animation.name, animation.desc), (self.name or '', self.desc or ''), f'{what}: wrong name or desc')
        for how, ks in (('iteration', list(animation.keyframes)), ('again', [k for k in animation.keyframes])):
            case.equal(len(ks), len(self.keyframes), f'{what}: wrong number of keyframes, by {how}')
            for k, (t, active, name) in zip(ks, self.keyframes):
                want = model.frames_of(t, self.fps)
                case.check(abs(Fr(k.time.frames)-want)<=Fr(1, 10**6), f'{what}: wrong time of a keyframe', f'got {k.time!r}', f'want {float(want)}')
                case.check(k.time.fps==float(self.attrs['fps']), f'{what}: wrong fps of a keyframe', k.time.fps)
                case.equal(k.name, name, f'{what}: wrong name of a keyframe')
                case.equal(k.active, active!='false', f'{what}: whether a keyframe is active')
                case.saw('keyframes judged')
                if active=='false':
                    case.saw('inactive keyframes')
        case.equal(len(animation.keyframes), len(self.keyframes), f'{what}: wrong number of keyframes')
        if not self.keyframes:
            case.saw('headers without keyframes')
        case.saw('headers judged')


def generate(case):
    rng = case.rng
    doc = HeaderDoc(rng, size=rng.choice([0, 1, 2]))
    if rng.random()<0.5:
        n = rng.randrange(0, 6) if rng.random()<0.97 else rng.randrange(30, 300)
        if n>100:
            case.saw('a hundred keyframes')
        doc.keyframes = [(model.time_text(rng, doc.fps), rng.choice(['true', 'false', None]), model.text(rng)) for _ in range(n)]
    for k in list(doc.attrs):
        if k not in ('fps', 'begin-time', 'end-time') and rng.random()<0.1:
            del doc.attrs[k]
    if rng.random()<0.3:
        doc.attrs['fps'] = rng.choice(['24.0', '24.000000', '2.5e1', '50', '0.5', '59.94', '15.000'])
        doc.fps = Fr(doc.attrs['fps'])
    if rng.random()<0.4:
        doc.attrs['end-time'] = '%df' % rng.randrange(150, 4000)
    for k in ('view-box', 'bgcolor'):
        if k in doc.attrs and rng.random()<0.1:
            doc.attrs[k] = rng.choice([' ', '', '  '])+doc.attrs[k].replace(' ', rng.choice(['  ', '   ']))+rng.choice(['', ' '])
    if rng.random()<0.3:
        # before or after our own
        E = model.E
        doc.nested = (rng.randrange(0, 4), E('defs', (), [E('canvas', {'id': 'x', 'width': '7', 'height': '8', 'fps': '99', 'begin-time': '0f', 'end-time': '1f', 'bgcolor': '1 1 1 1'}, [
            E('name', (), ['inside'], text=True), E('desc', (), ['also inside'], text=True)])]))
        case.saw('nested canvases')
    return doc


def good(rng, s, header, animation):
    """(what to set, as what it should be stored, more or less)"""
    if s in ('width', 'height', 'antialias'):
        x = rng.choice([rng.randrange(1, 5000), 1, 0, 10**6])
        return x
    if s in ('xres', 'yres'):
        return rng.choice([rng.uniform(1, 5000), 72, 300.0, 2834.645669, 1e-3])
    if s.startswith('gamma'):
        return rng.choice([1, 1.0, 2.2, 0.45, rng.random(), 1/3])
    if s=='version':
        return rng.choice([1.0, 1.1, 1.2, 1, 0.1])
    if s=='fps':
        return rng.choice([24, 24.0, 25, 30, 29.97, 23.976, 60, 12.5, 1, 100.0])
    if s=='view_box':
        return ' '.join(rng.choice(['%.6f' % rng.uniform(-9, 9), str(rng.randrange(-9, 9))]) for _ in range(4))
    if s=='bgcolor':
        return ' '.join(model.unit(rng) for _ in 'rgba')
    if s in ('name', 'desc'):
        return model.text(rng)
    # times
    r = rng.random()
    if r<0.2:
        return rng.randrange(0, 1000)
    if r<0.3:
        return rng.randrange(0, 8000)/8
    if r<0.6:
        return model.time_text(rng, header.fps)
    if r<0.7:
        return sangfroid.T(rng.randrange(0, 1000))
    if r<0.8:
        return sangfroid.T(rng.choice([model.time_text(rng, header.fps), '-2s', '-3f', '-1m 30s', '-1s']), ref=animation)
    return rng.choice(['-2s', '-3f', '-1m', '0f', '0s', '3s', '1s 5f', '2m', '1h 2m 3s 4f', ' 7f ', '0.5s'])


def frames_wanted(x, fps):
    if isinstance(x, str):
        return model.frames_of(x, fps)
    if isinstance(x, sangfroid.T):
        return Fr(x.frames)
    return Fr(x)


BAD = {
        'width': ['abc', '', None, '1.5', [], {}, '10px'], 'height': ['abc', '', None, '1.5', [], object()], 'antialias': ['abc', None, [], ''],
        'xres': ['abc', '', None, [], '1,5'], 'yres': ['abc', '', None, {}], 'gamma_r': ['abc', None, []], 'gamma_g': ['abc', None, []], 'gamma_b': ['', None, []],
        'fps': ['abc', None, [], ''], 'version': ['abc', None, []],
        'begin_time': ['abc', '', 'f', '1x', '5', None, [], {}, '1s 2s', 'soon'], 'end_time': ['abc', '', 'f', '1x', '5', None, [], {}, '1s 2s', 'later'],
        'name': [5, None, [], b'x', 1.5], 'desc': [5, None, [], b'x', 1.5],
        }


def without(tag, s):
    """The document, but for one entry."""
    if s in ('name', 'desc'):
        return obs.tree_dropping(tag, drop=[(i,) for i, e in enumerate(obs.elements(tag)) if e.name==s])
    attr = TIMES.get(s) or SETTINGS[s][0]
    return obs.tree_dropping(tag, attrs=[((), attr)])


def history(case, animation, header, n):
    rng = case.rng
    everything = list(SETTINGS)+list(TIMES)*2+['name', 'desc']
    for _ in range(n):
        s = rng.choice(everything)
        before = obs.tree_of_tag(animation.tag)
        if s in BAD and rng.random()<0.2:
            x = rng.choice(BAD[s])
            case.raises(lambda: setattr(animation, s, x), Exception, f'{s} = {x!r} was not refused')
            case.equal(obs.tree_of_tag(animation.tag), before, f'{s} = {x!r} was refused, but changed the document')
            header.judge(case, animation, f'after {s} = {x!r} was refused')
            case.saw('refused')
            continue
        x = good(rng, s, header, animation)
        what = f'after {s} = {x!r}'
        case.did(f'{s} = {x!r}')
        rest = without(animation.tag, s)
        setattr(animation, s, x)
        if s in TIMES:
            want = frames_wanted(x, header.fps)
            text = animation.tag[TIMES[s]]
            stored = model.frames_of(text, header.fps)
            case.check(abs(stored-want)<=Fr(1, 10**6), f'{what}: the wrong time was stored', f'got {text!r}', f'want {float(want)} frames')
            header.attrs[TIMES[s]] = text
            case.saw('times set')
        elif s in ('name', 'desc'):
            if getattr(header, s) is None:
                case.saw('entries added')
            setattr(header, s, x)
            found = [e for e in obs.elements(animation.tag) if e.name==s]
            case.check(len(found)==1, f'{what}: there are {len(found)} of them')
            case.saw('names set')
        else:
            attr, kind, _ = SETTINGS[s]
            if attr not in header.attrs:
                case.saw('entries added')
            got = animation.tag.get(attr)
            case.check(isinstance(got, str) and kind(got)==kind(x), f'{what}: the wrong text was stored', f'got {got!r}', f'want {x!r}')
            header.attrs[attr] = got
            if s=='fps':
                case.saw('frame rates set')
        case.equal(without(animation.tag, s), rest, f'{what}: something else changed')
        case.saw('only that entry')
        header.judge(case, animation, what)
        case.saw('settings set')
    problem = obs.links(animation.tag)
    case.check(not problem, 'the document tree is damaged', str(problem))


def reopened(case, animation, header):
    fn = case.path(case.rng.choice(['b.sif', 'b.sifz']))
    animation.save(fn)
    tree = obs.tree_of_file(fn)
    [root] = [k for k in tree[2] if k[0]=='canvas']
    attrs = dict(root[1])
    for a, want in header.attrs.items():
        case.equal(attrs.get(a), want, f'wrong {a} in the saved file')
    texts = {s: [''.join(x for x in k[2] if isinstance(x, str)) for k in root[2] if isinstance(k, tuple) and k[0]==s] for s in ('name', 'desc')}
    for s in ('name', 'desc'):
        want = getattr(header, s)
        case.equal(texts[s], [] if want is None else [want], f'wrong {s} in the saved file')
    case.equal(len([k for k in root[2] if isinstance(k, tuple) and k[0]=='keyframe']), len(header.keyframes), 'wrong number of keyframes in the saved file')
    case.saw('independently parsed')
    header.judge(case, sangfroid.open(fn), 'reopened')
    case.saw('reopened')


@workload('C23', 2500, 60000)
def headers(case):
    doc = generate(case)
    animation = load(case, doc)
    header = Header(doc.attrs, doc.name, doc.desc, doc.keyframes)
    case.did(str(doc.attrs), f'{doc.name!r} {doc.desc!r} {doc.keyframes!r}')
    header.judge(case, animation, 'as read')
    history(case, animation, header, case.rng.randrange(0, 8))
    header.judge(case, animation, 'at the end')
    if case.rng.random()<0.6:
        reopened(case, animation, header)
    case.distinct(case.log)


@workload('C23', 150, 3000)
def blank(case):
    animation = sangfroid.Animation()
    header = Header({'version': '1.2', 'width': '480', 'height': '270', 'xres': '2834.645669', 'yres': '2834.645669', 'gamma-r': '1', 'gamma-g': '1', 'gamma-b': '1',
                     'view-box': animation.tag['view-box'], 'antialias': '1', 'fps': '24', 'begin-time': '0f', 'end-time': '5s', 'bgcolor': animation.tag['bgcolor']}, animation.name, None, [])
    case.equal(animation.viewbox, (-4.0, 2.25, 4.0, -2.25), 'view box of a blank animation')
    case.check(obs.near(animation.background.as_tuple(), (0.5, 0.5, 0.5, 1.0), 1e-6), 'background of a blank animation')
    if obs.elements(animation.tag) and any(e.name=='desc' for e in obs.elements(animation.tag)):
        header.desc = animation.desc
    header.keyframes = [(e['time'], e.get('active'), e.text) for e in obs.elements(animation.tag) if e.name=='keyframe']
    header.judge(case, animation, 'a blank animation')
    # from now on, as the document has them
    header.attrs = {k: str(v) for k, v in animation.tag.attrs.items()}
    history(case, animation, header, case.rng.randrange(1, 6))
    reopened(case, animation, header)
    case.saw('blank animations')
    case.distinct(case.log)
    # and the next isn't affected
    fresh = sangfroid.Animation()
    case.check((fresh.width, fresh.height, fresh.fps, fresh.end_time.frames)==(480, 270, 24.0, 120.0), 'a second blank animation was affected by the first')
