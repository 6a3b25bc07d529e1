"""C15: times compare, sort and hash consistently."""
import math
import operator
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C15', '''
Random sets of times of one animation, made in every way (numbers, words, from the end, copies, read from the file), with numbers and times of unknown frame rate among them,
compared in all pairs by all six operators both ways round, hashed, sorted, and used as dictionary keys, judged against their frame counts; times of different known frame rates must refuse
unless one is zero; and things which are neither never equal them. Non-trivial: every pair compared. Distinct by the set of times.''',
     required=['pairs of times', 'pairs with numbers', 'equal pairs', 'equal to a number', 'unequal pairs', 'sorted', 'dictionaries', 'other frame rates refused',
               'zero at other frame rates', 'unknown frame rates', 'not times', 'equal but made otherwise', 'only just different'])

OPERATORS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]


def times(case, animation, doc, n):
    """(time, frames)"""
    rng = case.rng
    T = sangfroid.T
    fps = doc.fps
    pool = [rng.choice([0, 1, 5, 24, rng.randrange(0, 300), rng.randrange(0, 300)/8]) for _ in range(max(2, n//2))]
    # and some which are only just different
    for f in list(pool):
        if rng.random()<0.5:
            near = rng.choice([math.nextafter(f, math.inf), f+1e-9, f+1e-7, f+4e-8, f+1e-5, f+1e-4, f+1e-3, f*(1+1e-12), max(0, f-1e-6)])
            pool.append(near)
            case.saw('only just different', int(near!=f))
    out = []
    for _ in range(n):
        f = rng.choice(pool)
        r = rng.random()
        if r<0.2:
            t = T(f, ref=animation)
        elif r<0.35:
            t = T(f'{f:.17f}f', ref=animation.tag)
        elif r<0.5:
            t = T(model.time_text(rng, fps), ref=animation)
        elif r<0.6:
            t = T(-rng.randrange(1, 50), ref=animation)
        elif r<0.7:
            t = T(T(f, ref=animation), ref=rng.choice([animation, None]))
        elif r<0.8:
            t = T(f)                      # an unknown frame rate
            case.saw('unknown frame rates')
        elif r<0.9:
            t = T(f'-{rng.randrange(1, 50)}f', ref=animation)
        else:
            t = rng.choice([animation.begin_time, animation.end_time]+[k.time for k in animation.keyframes])
        out.append(t)
    return out


def compare(case, a, b, x, y, what):
    """a and b should compare as x and y do."""
    for op in OPERATORS:
        case.equal(op(a, b), op(x, y), f'{op.__name__}({what})')
        case.equal(op(b, a), op(y, x), f'{op.__name__} the other way round, of ({what})')
    if x==y:
        case.equal(hash(a), hash(b), f'hashes of equal ({what})')
        case.saw('equal pairs')
        case.check({a: 1}.get(b)==1 and {b: 1}.get(a)==1, f'({what}) are equal but not the same key')
    else:
        case.saw('unequal pairs')


@workload('C15', 2500, 60000)
def one_animation(case):
    rng = case.rng
    doc = model.Doc(rng, size=1)
    animation = load(case, doc)
    ts = times(case, animation, doc, rng.randrange(3, 9))
    case.did(str([t.frames for t in ts]))
    for i, a in enumerate(ts):
        for b in ts[i:]:
            compare(case, a, b, a.frames, b.frames, f'{a!r}, {b!r}')
            case.saw('pairs of times')
            if a is not b and a.frames==b.frames:
                case.saw('equal but made otherwise')
    for a in ts:
        for x in [a.frames, math.nextafter(a.frames, math.inf), a.frames+1e-7, a.frames-1e-5, a.frames+1, a.frames-0.5, rng.randrange(-10, 300), rng.uniform(-10, 300), 0, float('inf'), -float('inf'), 10**30] + (
                [int(a.frames)] if a.frames==int(a.frames) else []):
            compare(case, a, x, a.frames, x, f'{a!r}, {x!r}')
            case.saw('pairs with numbers')
            if x==a.frames:
                case.saw('equal to a number')
    mixed = ts + [rng.choice([0, 5, 7.5, 24]) for _ in range(2)]
    rng.shuffle(mixed)
    value = lambda t: t.frames if isinstance(t, sangfroid.T) else t
    got = [value(t) for t in sorted(mixed)]
    case.equal(got, sorted(map(value, mixed)), 'sorted wrongly')
    case.equal(value(max(mixed)), max(map(value, mixed)), 'max')
    case.equal(value(min(mixed)), min(map(value, mixed)), 'min')
    case.saw('sorted')
    # as keys
    d, m = {}, {}
    for _ in range(12):
        t = rng.choice(mixed)
        x = rng.randrange(100)
        if rng.random()<0.3:
            case.equal(d.pop(t, None), m.pop(value(t), None), f'popping {t!r} from a dictionary')
        else:
            d[t] = x
            m[value(t)] = x
        probe = rng.choice(mixed+[value(rng.choice(mixed))])
        case.equal(d.get(probe), m.get(value(probe)), f'looking {probe!r} up in a dictionary')
        case.equal(len(d), len(m), 'the size of a dictionary')
    case.equal(len(set(mixed)), len(set(map(value, mixed))), 'the size of a set')
    case.saw('dictionaries')
    # other things
    for a in rng.sample(ts, 2):
        for x in [None, 'x', str(a), f'{a.frames}f', '', [], [a.frames], (a.frames,), {}, {a.frames: a}, object(), b'0', len, sangfroid.T, animation, complex]:
            case.check(not a==x and not x==a, f'{a!r} equals {core.safe_repr(x)}')
            case.check(a!=x and x!=a, f'not ({a!r} != {core.safe_repr(x)})')
            case.check(a not in [x] and x not in [a], f'{a!r} is taken for {core.safe_repr(x)}')
            case.saw('not times')
    case.distinct(case.log)


@workload('C15', 1000, 24000)
def two_animations(case):
    rng = case.rng
    rates = rng.sample(['24', '25', '30', '12', '23.976', '29.97', '60', '1'], 2)
    if rng.random()<0.3:
        # nearly the same
        rates = list(rng.choice([('24', '24.5'), ('24', '24.001'), ('29.97', '29'), ('29.97', '30'), ('23.976', '23.976024'), ('23.976', '24'), ('59.94', '60'), ('1', '1.000001'), ('24', '24.0000001')]))
        rng.shuffle(rates)
    animations = []
    for i, r in enumerate(rates):
        doc = model.Doc(rng, size=1, fps=r)
        animations.append(load(case, doc, f'{i}.sif'))
    for _ in range(10):
        f, g = [rng.choice([0, 0.0, 1, 5, rng.randrange(1, 300), rng.randrange(1, 300)/8]) for _ in range(2)]
        if rng.random()<0.3:
            g = f
        a = sangfroid.T(f, ref=animations[0])
        b = sangfroid.T(g, ref=animations[1])
        what = f'{a!r} at {rates[0]} fps, {b!r} at {rates[1]} fps'
        if f==0 or g==0:
            compare(case, a, b, a.frames, b.frames, what)
            case.saw('zero at other frame rates')
        else:
            for op in OPERATORS:
                case.raises(lambda: op(a, b), Exception, f'{op.__name__}({what})')
                case.raises(lambda: op(b, a), Exception, f'{op.__name__} the other way round, of ({what})')
            case.saw('other frame rates refused')
        # a copy out of an animation still knows its frame rate
        c = sangfroid.T(a)
        compare(case, a, c, a.frames, c.frames, f'{a!r} and its copy')
        u = sangfroid.T(g)
        compare(case, a, u, a.frames, u.frames, f'{a!r}, {u!r} at no particular rate')
        case.saw('unknown frame rates')
        case.did(what)
    case.distinct(case.log)
