"""C14: printed times read back as the same instant."""
import math
import re
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C14', '''
Random times of all sizes, signs, fractions and frame rates (known and unknown), many of them just beside whole frames, seconds, minutes and hours, printed, read back and printed again;
and times set in params, waypoints, and start and end of animations, read from the file by expat. Judged by exact arithmetic and an independent grammar. Non-trivial: every time judged. Distinct by time and frame rate.''',
     required=['printed', 'printed without a frame rate', 'negative', 'beside a whole second', 'hours', 'fractions of a frame', 'huge', 'odd frame rates',
               'stored by param', 'stored by waypoint', 'stored by start or end', 'zero'])

GRAMMAR = re.compile(r'(-?)(?:(\d+)h)?(?: ?(\d+)m)?(?: ?(\d+)s)?(?: ?(\d+(?:\.\d+)?)f)?')
FPS = ['24', '25', '30', '12', '60', '1', '100', '1000', '23.976', '29.97', '59.94', '12.5', '0.5', '7', '23.976023976', '119.88', '3.333333', '15', '8', '48']


def parse(case, text, what):
    """Judges the form of a text; returns its parts."""
    m = GRAMMAR.fullmatch(text)
    case.check(m is not None and text.strip('-')!='' and not text.startswith((' ', '- ')), f'{what}: {text!r} is not hours, minutes, seconds and frames')
    sign, h, m_, s, f = m.groups()
    return sign=='-', [Fr(x) if x is not None else None for x in (h, m_, s, f)]


def meaning(parts, fps):
    negative, (h, m, s, f) = parts
    total = Fr(f or 0)
    if h is not None or m is not None or s is not None:
        total += ((h or 0)*3600+(m or 0)*60+(s or 0))*fps
    return -total if negative else total


def judge_text(case, text, want, fps, what, slack=Fr(0)):
    """text should be the time want, in frames, at fps (None if unknown)."""
    parts = parse(case, text, what)
    negative, (h, m, s, f) = parts
    if fps is None:
        case.check(h is None and m is None and s is None, f'{what}: {text!r} has seconds, without a frame rate')
    else:
        case.check(m is None or m<60, f'{what}: too many minutes in {text!r}')
        case.check(s is None or s<60, f'{what}: too many seconds in {text!r}')
        # (a fraction of a frame may round up)
        case.check(f is None or f<=fps+Fr(1, 10**6), f'{what}: too many frames in {text!r} at {float(fps)} fps')
    got = meaning(parts, fps)
    tolerance = Fr(1001, 10**9) + 8*Fr(math.ulp(float(abs(want)))) + slack
    case.check(abs(got-want)<=tolerance, f'{what}: {text!r} is another time', f'it means {float(got)!r} frames', f'it should mean {float(want)!r} frames')


def instant(rng, fps):
    """A number of frames."""
    rate = float(fps) if fps is not None else 24.0
    r = rng.random()
    if r<0.05:
        return 0.0, 'zero'
    if r<0.2:
        return float(rng.randrange(0, 100000)), 'whole'
    if r<0.3:
        return rng.uniform(0, 10**rng.randrange(-7, 6)), 'fraction'
    if r<0.65:
        n = rng.choice([1, 59, 60, 61, 119, 3599, 3600, 3601, 7200, 86399, 86400, rng.randrange(0, 200000), rng.randrange(0, 100)])
        d = rng.choice([0, 0, 1, -1, 1e-7, -1e-7, 4e-7, -4e-7, 5e-7, -5e-7, 6e-7, -6e-7, 1e-6, -1e-6, -2e-6, -3e-6, 3e-6, -4e-6, 1e-9, -1e-9, 0.5, -0.5, 1e-5, -1e-5, 0.999999, 0.9999999, 1e-12])
        return abs(n*rate+d), 'beside'
    if r<0.75:
        return float(rng.randrange(0, 10**rng.randrange(6, 16))), 'huge'
    if r<0.85:
        return rng.randrange(0, 10**9)/10**rng.randrange(0, 9), 'fraction'
    return rng.randrange(0, 10**6)+rng.choice([0.999999, 0.9999995, 0.9999999, 0.0000005, 0.0000004, 1e-6]), 'fraction'


@workload('C14', 2500, 60000)
def printing(case):
    rng = case.rng
    for _ in range(1):
        known = rng.random()<0.85
        f = rng.choice(FPS) if rng.random()<0.8 else '%.*f' % (rng.randrange(0, 9), rng.uniform(0.2, 300))
        if Fr(f)<=0:
            f = '24'
        fps = Fr(float(f)) if known else None
        doc = model.Doc(rng, size=1, fps=f)
        animation = load(case, doc)
        ref = rng.choice([animation, animation.tag]+list(animation.children)) if known else None
        if known and Fr(f)!=int(float(f)):
            case.saw('odd frame rates')
        for _ in range(60):
            frames, sort = instant(rng, fps)
            negative = rng.random()<0.25
            if negative:
                if frames==0 or 'e' in repr(frames):
                    continue
                t = sangfroid.T(f'-{frames!r}f', ref=ref)
                case.saw('negative')
            else:
                t = sangfroid.T(frames, ref=ref)
            x = Fr(t.frames)
            what = f'{t.frames!r} frames at {f if known else "unknown"} fps'
            if not known:
                case.saw('printed without a frame rate')
            for text in (str(t), repr(t), f'{t}'):
                judge_text(case, text, x, fps, what)
            text = str(t)
            again = sangfroid.T(text, ref=ref)
            tolerance = Fr(1001, 10**9)+8*Fr(math.ulp(abs(t.frames)))
            case.check(abs(Fr(again.frames)-x)<=tolerance, f'{what}: {text!r} reads back as another time', f'{again.frames!r} frames')
            if abs(x)<10**8:
                case.equal(str(again), text, f'{what}: printed again, {text!r} is different')
                case.saw('printed')
            else:
                case.saw('huge')
            if 'h' in text:
                case.saw('hours')
            if sort=='beside':
                case.saw('beside a whole second')
            if sort=='fraction':
                case.saw('fractions of a frame')
            if frames==0:
                case.equal(text, '0f', what)
                case.saw('zero')
            case.distinct((t.frames, f, known))
        case.did(what, text)


@workload('C14', 1200, 30000)
def storing(case):
    rng = case.rng
    doc = model.Doc(rng, types=['timeloop', 'group', 'circle', 'stroboscope'], size=4, fps=rng.choice([f for f in FPS]))
    animation = load(case, doc)
    fps = Fr(float(doc.attrs['fps']))
    expected = {}
    sites = list(ops.editable(doc, ('time', 'real')))
    for _ in range(rng.randrange(1, 5)):
        frames, _ = instant(rng, fps)
        if frames>10**8:
            continue
        x = rng.choice([frames, frames, sangfroid.T(frames, ref=animation)])
        r = rng.random()
        if r<0.3 or not sites:
            s = rng.choice(['begin_time', 'end_time'])
            setattr(animation, s, x)
            expected[s] = Fr(frames)
            case.did(f'{s} = {frames!r}')
            continue
        path, l, n, v = rng.choice(sites)
        layer = obs.at(animation, path)
        if v.kind=='time' and rng.random()<0.7:
            ops.assign(layer, n, x, rng.choice(ops.ROUTES))
            expected[path, n] = Fr(frames)
            case.did(f'{path} {n} = {frames!r}')
        elif v.kind=='time':
            layer[n].timeline = [sv.Waypoint(time=0, value=sv.Time(frames))]
            expected[path, n] = [('first', Fr(frames))]
            case.did(f'{path} {n} timeline of {frames!r}')
            # the value was made outside the document, so its text needn't suit its frame rate
            expected.pop((path, n))
        else:
            if rng.random()<0.5:
                layer[n].timeline = [sv.Waypoint(time=x, value=sv.Real(1.0))]
            else:
                layer[n].value = 0.0
                layer[n].timeline[x] = 1.0
            expected[path, n] = ('waypoint', Fr(frames))
            case.did(f'{path} {n} waypoint at {frames!r}')
    fn = case.path('out.sif')
    animation.save(fn)
    [tree] = [k for k in obs.tree_of_file(fn)[2] if k[0]=='canvas']
    # everything in the file which we set
    slack = Fr(1, 10**6)
    for k, want in expected.items():
        if k in ('begin_time', 'end_time'):
            text = dict(tree[1])[k.replace('_', '-')]
            judge_text(case, text, want, fps, f'{k} in the file')
            case.saw('stored by start or end')
            continue
        path, n = k
        e = element_at(tree, path)
        [param] = [p for p in e[2] if isinstance(p, tuple) and p[0]=='param' and dict(p[1])['name']==n]
        [value] = [p for p in param[2] if isinstance(p, tuple) and p[0]!='#comment' and p[0]!='#pi']
        if isinstance(want, tuple):
            waypoints = [w for w in value[2] if isinstance(w, tuple) and w[0]=='waypoint']
            case.equal(len(waypoints), 1, f'waypoints of {n} in the file')
            judge_text(case, dict(waypoints[0][1])['time'], want[1], fps, f'a waypoint of {n} in the file', slack)
            case.saw('stored by waypoint')
        else:
            judge_text(case, dict(value[1])['value'], want, fps, f'{n} in the file')
            case.saw('stored by param')
    case.distinct(case.log)


def element_at(tree, path):
    """The layer at a path of indexes, in a canonical form."""
    cursor = tree
    for i in path:
        if cursor[0]=='layer':
            [p] = [p for p in cursor[2] if isinstance(p, tuple) and p[0]=='param' and dict(p[1])['name']=='canvas']
            [cursor] = [c for c in p[2] if isinstance(c, tuple) and c[0]=='canvas']
        layers = [k for k in cursor[2] if isinstance(k, tuple) and k[0]=='layer']
        cursor = layers[len(layers)-1-i]
    return cursor
