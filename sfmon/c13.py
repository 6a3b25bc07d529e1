"""C13: time specifications mean what they say."""
import re
from fractions import Fraction as Fr
import bs4
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C13', '''
Random time specifications, well formed and malformed, given to T with every sort of reference (none, an animation, anything inside one, something detached, at many frame rates,
before and after the frame rate and length are changed), and through every place in the API which takes a time (params, waypoints, timelines, start and end). Meanings are judged by an
interpreter in exact arithmetic, to max(1e-6, 1e-12 of it) frames; malformed ones must be errors at all of them. Non-trivial: every specification judged. Distinct by
specification and reference.''',
     required=['times of times', 'places given times', 'times given a frame rate', 'numbers', 'negative numbers', 'words', 'negative words', 'refused', 'refused for lack of a frame rate', 'refused for lack of a length',
               'zero without a frame rate', 'after the settings changed', 'by param', 'by waypoint', 'by timeline', 'by start or end', 'refused by param',
               'refused by timeline', 'refused by start or end', 'refused by waypoint', 'all four units', 'seconds'])


def close(a, b):
    return abs(Fr(a)-Fr(b)) <= max(Fr(1, 10**6), abs(Fr(b))/10**12)


def digits(rng, whole, fraction=True):
    if fraction and rng.random()<0.3:
        return f'{whole}.{rng.choice(["5", "25", "125", "0", "000001", "999999", str(rng.randrange(10**rng.randrange(1, 7)))])}'
    if rng.random()<0.03:
        return rng.choice([f'.{rng.randrange(1, 10**4):04d}', f'{whole:09d}', f'{whole}.', f'{rng.randrange(10**12, 10**16)}', f'{whole}.{rng.randrange(10**15, 10**18)}',
                           '0'*20+str(whole)])
    return str(whole)


def words(rng):
    """(text, {unit: number}, negative)"""
    units = [u for u in 'hmsf' if rng.random()<0.5] or [rng.choice('hmsf')]
    parts = {}
    for u in units:
        whole = rng.choice([0, 1, 2, rng.randrange(0, 60), rng.randrange(0, 60), rng.randrange(0, 5000)])
        parts[u] = digits(rng, whole)
    negative = rng.random()<0.3
    if negative and all(Fr(x)==0 for x in parts.values()):
        negative = False
    order = list(parts)
    if not negative and rng.random()<0.1:
        rng.shuffle(order)
    text = ('-' if negative else '') + rng.choice([' ', ' ', '  ', '\t']).join(parts[u]+u for u in order)
    if rng.random()<0.1:
        text = rng.choice([' ', '\n', '  '])+text
    if rng.random()<0.1:
        text = text+rng.choice([' ', '\n', '\t'])
    return text, parts, negative


def meaning(parts, negative, fps):
    """Frames, exactly. None if the frame rate is needed and unknown."""
    total = Fr(0)
    for u, x in parts.items():
        if u=='f':
            total += Fr(x)
        else:
            if fps is None:
                continue
            total += Fr(x)*{'h': 3600, 'm': 60, 's': 1}[u]*fps
    if fps is None and set(parts)-{'f'} and any(Fr(x)!=0 for x in parts.values()):
        return None
    return -total if negative else total


def malformed(rng):
    """Text which is no time at all."""
    r = rng.random()
    good, parts, negative = words(rng)
    good = good.strip()
    if r<0.15:
        return rng.choice(['', ' ', 'f', 's', '5', '12.5', '-', '.', '-5', 'now', 'None', 'true', '5 6', 'inf', 'nan', 'nanf', 'inff', '-inf', '1e3', '0', '00:00:05',
                           '\n', 'hms', '5ff', '5sf', 's5', 'f5'])
    if r<0.3:
        return good+rng.choice(['x', ' x', 'junk', ' junk', ';', ',', '!', ' 5', ' .', '-', ' -', 'é', '\0', ' 1d', ' 3', '1', '#', ' and', ' f', 'f', '0'])
    if r<0.45:
        return rng.choice(['x', 'x ', 'T', '@', '5 ', '. ', '- ', ', ', 'at ', '--', '+', '1d ', 'f ', '3;'])+rng.choice(['1f', '2s', '1s 5f', '3h', '0.5f']) \
            if rng.random()<0.8 else rng.choice(['--1f', '+1f', '+5s', '1-s', '1f-', '−5f'])
    if r<0.6:
        n = rng.choice(['1..5', '1.5.5', '.', '..', '--1', '-', '-.', '1.-5', '5-', '1e3', '1E3', '0x10', '1_0', '1,5', '٣', '1 000', '½', '²', '1.2.3', '1-2', '5-5'])
        return n+rng.choice('hmsf')
    if r<0.75:
        u = rng.choice('hmsf')
        mid = ''.join(f'{rng.randrange(1, 9)}{v} ' for v in 'hmsf' if v!=u and rng.random()<0.4)
        return f'{rng.randrange(0, 9)}{u} {mid}{rng.randrange(0, 9)}{u}'
    if r<0.85:
        return f'{rng.choice(["", "-"])}{rng.randrange(1, 9)}{rng.choice("hms")} -{rng.randrange(1, 9)}f'
    u = rng.choice(['x', 'd', 'F', 'S', 'H', 'M', 'ms', 'min', 'sec', 'hours', 'frames', 'w', '%', 'fs', 'ſ'])
    return rng.choice(['', '1s ', '2m '])+f'{rng.randrange(0, 99)}{u}'


JUNK = [None, [], {}, object(), (), [5], (1, 2), {'f': 5}, float('nan'), float('inf'), float('-inf'), b'junk', lambda: 5, 5j]


def references(case, doc, animation):
    """(what, ref, whether it's in the animation)"""
    rng = case.rng
    options = [('the animation', animation, True), ('its tag', animation.tag, True), ('nothing', None, False),
               ('a detached layer', sangfroid.layer.Circle(), False), ('a detached tag', bs4.Tag(name='real'), False),
               ('a detached value', sv.Real(5.0), False)]
    paths = list(doc.walk())
    if paths:
        for _ in range(3):
            layer = obs.at(animation, rng.choice(paths)[0])
            options.append(('a layer', layer, True))
            options.append(('the tag of a layer', layer.tag, True))
            values = list(layer.values())
            if values:
                v = rng.choice(values)
                options.append(('a value', v, True))
                inner = [t for t in v.tag.find_all()]
                if inner:
                    options.append(('something deep', rng.choice(inner), True))
    return options


def span(doc_attrs, fps):
    return model.frames_of(doc_attrs['end-time'], fps)-model.frames_of(doc_attrs['begin-time'], fps)


def judge_T(case, x, want, ref, what):
    """want is in frames, or None for an error."""
    if want is None:
        case.raises(lambda: sangfroid.T(x, ref=ref) if ref is not None or case.rng.random()<0.5 else sangfroid.T(x),
                    Exception, f'{what} should be refused')
        return None
    t = sangfroid.T(x, ref=ref)
    case.check(close(t.frames, want), f'{what} is the wrong time', f'got {t.frames}', f'want {float(want)}')
    case.check(isinstance(t.frames, float), f'{what}: frames is not a float')
    case.check(close(float(t), want), f'{what}: float() is wrong')
    if abs(want)<2**30 and abs(want-round(want))>Fr(1, 1000) or want.denominator==1 and abs(want)<2**40 and t.frames==want:
        case.equal(int(t), int(want), f'{what}: int() is wrong')
    return t


@workload('C13', 5000, 120000)
def specifications(case):
    rng = case.rng
    doc, animation = document(case, size=3)
    attrs = dict(doc.attrs)
    fps = doc.fps
    if rng.random()<0.3:
        # the settings may change
        if rng.random()<0.6:
            f = rng.choice([24, 30, 12.5, 60, 29.97, 1, 1000])
            animation.fps = f
            fps = Fr(str(f))
        if rng.random()<0.5:
            begin = rng.choice(['7f', '-7f', '0f', '-1s', '2s'])
            animation.begin_time = begin
            attrs['begin-time'] = str(animation.begin_time)
            case.check(model.frames_of(attrs['begin-time'], fps)==model.frames_of(begin, fps), 'the start is not as set')
        if rng.random()<0.5:
            attrs['end-time'] = rng.choice(['200f', '0f', '5f'])
            animation.end_time = attrs['end-time']
        case.saw('after the settings changed')
    length = span(attrs, fps)
    refs = references(case, doc, animation)
    for _ in range(8):
        where, ref, known = rng.choice(refs)
        r = rng.random()
        rate = fps if known else None
        if r<0.2:
            x = rng.choice([0, 0.0, rng.randrange(0, 10000), rng.uniform(0, 5000), 10**9, 0.1, rng.randrange(0, 4000)/8])
            what = f'T({x!r}) in {where}'
            t = judge_T(case, x, Fr(x), ref, what)
            case.saw('numbers')
        elif r<0.35:
            x = -rng.choice([1, 2, rng.randrange(1, 200), rng.uniform(0.1, 300), rng.randrange(1, 10**6), 0.5])
            what = f'T({x!r}) in {where}, whose length is {float(length)}'
            if known:
                t = judge_T(case, x, length+1+Fr(x), ref, what)
                case.saw('negative numbers')
            else:
                t = judge_T(case, x, None, ref, what)
                case.saw('refused for lack of a length')
        elif r<0.75:
            x, parts, negative = words(rng)
            want = meaning(parts, negative, rate)
            what = f'T({x!r}) in {where} at {float(fps)} fps'
            t = judge_T(case, x, want, ref, what)
            if want is None:
                case.saw('refused for lack of a frame rate')
            else:
                case.saw('negative words' if negative else 'words')
                if not known and want==0 and set(parts)-{'f'}:
                    case.saw('zero without a frame rate')
                if len(parts)==4:
                    case.saw('all four units')
        else:
            x = malformed(rng) if rng.random()<0.85 else rng.choice(JUNK)
            what = f'T({x!r:.60}) in {where}'
            t = judge_T(case, x, None, ref, what)
            case.saw('refused')
        if t is not None:
            if known:
                case.check(close(Fr(t.seconds)*fps, t.frames), f'{what}: seconds are wrong', t.seconds)
                case.equal(t.fps, float(fps), f'{what}: fps')
                case.saw('seconds')
            else:
                case.check(t.fps is None, f'{what}: fps should be unknown')
                if t.frames!=0:
                    case.raises(lambda: t.seconds, Exception, f'{what}: seconds are unknown')
                else:
                    case.equal(t.seconds, 0.0, f'{what}: seconds')
            # a time given as another time is that time
            again = sangfroid.T(t)
            case.check(again.frames==t.frames and again.fps==t.fps and again==t and str(again)==str(t), f'{what}: T() of it is {again!r} ({again.fps})')
            if known:
                _, there, _ = rng.choice([r for r in refs if r[2]])
                again = sangfroid.T(t, ref=there)
                case.check(again.frames==t.frames and again.fps==t.fps and str(again)==str(t), f'{what}: T() of it, in the same animation, is {again!r} ({again.fps})')
            else:
                # it takes up the frame rate
                _, there, _ = rng.choice([r for r in refs if r[2]])
                again = sangfroid.T(t, ref=there)
                case.check(again.frames==t.frames and again.fps==float(fps) and close(Fr(again.seconds)*fps, t.frames), f'{what}: T() of it, in an animation, is {again!r} ({again.fps})')
                case.saw('times given a frame rate')
            case.saw('times of times')
        case.did(what)
        case.distinct(what if not callable(x) else 'junk')


@workload('C13', 1500, 36000)
def places(case):
    """The same, everywhere a time can be given."""
    rng = case.rng
    doc = model.Doc(rng, types=['timeloop', 'group', 'circle', 'stroboscope', 'freetime' if 'freetime' in model.SPEC else 'circle'], size=5)
    animation = load(case, doc)
    fps = doc.fps
    attrs = dict(doc.attrs)
    times = [(p, n) for p, l, n, v in ops.editable(doc, ('time',))]
    reals = [(p, n) for p, l, n, v in ops.editable(doc, ('real',))]
    for _ in range(4):
        length = span(attrs, fps)
        r = rng.random()
        if r<0.5:
            x, parts, negative = words(rng)
            want = meaning(parts, negative, fps)
        elif r<0.6:
            x = rng.choice([rng.randrange(0, 500), rng.randrange(0, 500)/4])
            want = Fr(x)
        elif r<0.7:
            x = -rng.randrange(1, 100)
            want = length+1+x
        else:
            x, want = malformed(rng), None
        if want is not None and rng.random()<0.2:
            x = sangfroid.T(x, ref=animation)
            case.saw('places given times')
        route = rng.choice(['param', 'waypoint', 'timeline', 'start or end'])
        what = f'{x!r} by {route} at {float(fps)} fps'
        if route=='param':
            if not times:
                continue
            p, n = rng.choice(times)
            layer = obs.at(animation, p)
            how = rng.choice(ops.ROUTES)
            fn = lambda: ops.assign(layer, n, x, how)
            read = lambda: layer[n].value
        elif route=='start or end':
            s = rng.choice(['begin_time', 'end_time'])
            fn = lambda: setattr(animation, s, x)
            read = lambda: getattr(animation, s)
        else:
            if not reals:
                continue
            p, n = rng.choice(reals)
            v = obs.at(animation, p)[n]
            if route=='waypoint':
                fn = lambda: v.timeline.__setitem__(0, 1.0) or v.timeline.add(
                    sv.Waypoint(time=x, value=sv.Real(2.5), ref=animation.tag), overwrite=True)
            else:
                fn = lambda: v.timeline.__setitem__(x, 2.5)
            def read():
                case.check(any(w.value==2.5 for w in v.timeline), f'{what}: no such waypoint')
                return min((w.time for w in v.timeline if w.value==2.5), key=lambda t: abs(t.frames-float(want)))
        case.did(what)
        if want is None:
            case.raises(fn, Exception, f'{what} should be refused')
            case.saw(f'refused by {route}')
        else:
            fn()
            t = read()
            case.check(abs(Fr(t.frames)-want)<=Fr(21, 10**7)+abs(want)/10**12, f'{what} is the wrong time', f'got {t.frames}', f'want {float(want)}')
            case.saw(f'by {route}')
            if route=='start or end':
                attrs['begin-time' if s=='begin_time' else 'end-time'] = '%.6ff' % want
        case.distinct(what)
