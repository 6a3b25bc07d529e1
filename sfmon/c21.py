"""C21: colours convert faithfully between their notations."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C21', '''
Colours made from every byte value of every channel (exhaustively), from random hex strings of six and eight digits with and without # in either case, from tuples of three and four numbers,
and copied from other colours; on their own, in layers, in waypoints, in gradients, read from files, and reopened: the hex and tuple forms are judged against an independent conversion in exact arithmetic, and equality is
judged against every notation of the same colour and of its neighbours one step away in one channel. Malformed notations must be errors, and leave the colour as it was.
Non-trivial: at least one colour judged in both notations. Distinct by the colours.''',
     required=['every byte', 'hex to hex', 'hex to numbers', 'numbers to hex', 'numbers to numbers', 'copies', 'copies are independent', 'opacity omitted', 'opacity kept', 'opacity defaulted',
               'equal to a notation', 'unequal to a neighbour', 'malformed refused', 'in layers', 'in waypoints', 'in gradients', 'from files', 'reopened', 'not colours'])


def hex_of(t):
    """The possible hex forms of a tuple which has been rounded to a millionth: usually there's only one."""
    def digits(x):
        x = Fr(x)*255
        out = set()
        for d in (Fr(-3, 10000), 0, Fr(3, 10000)):
            y = x+d
            out.add(int(y+Fr(1, 2)))
        # exact halves may go either way
        return {min(255, max(0, n)) for n in out}
    options = ['#']
    for x in t:
        options = [o+'%02x' % n for o in options for n in sorted(digits(x))]
    return {o[:7] if o.endswith('ff') and len(o)==9 else o for o in options}


def notations(rng, h):
    """h is 'rrggbbaa': everything else which stands for that."""
    out = [h, '#'+h, h.upper(), '#'+h.upper(), ''.join(rng.choice([c, c.upper()]) for c in h)]
    t = tuple(int(h[i:i+2], 16)/255 for i in range(0, 8, 2))
    out += [t, tuple(round(x, 6) for x in t)]
    if h.endswith('ff'):
        out += [h[:6], '#'+h[:6], h[:6].upper(), '#'+h[:6].upper(), t[:3]]
    return out


def judge(case, c, want, what):
    """want is a tuple of four numbers."""
    got = c.as_tuple()
    case.check(type(got) is tuple and len(got)==4 and obs.near(got, want, 1.0001e-6), f'{what}: wrong numbers', f'got {got}', f'want {want}')
    hexes = hex_of(want)
    case.check(c.value in hexes, f'{what}: wrong hex', f'got {c.value!r}', f'want {sorted(hexes)}')
    case.check(str(c)==c.value, f'{what}: str() is different', str(c), c.value)
    if len(c.value)==7:
        case.saw('opacity omitted')
    else:
        case.check(len(c.value)==9 and not c.value.endswith('ff'), f'{what}: opacity not omitted when full', c.value)
        case.saw('opacity kept')


def judge_hex(case, c, h, what, rng):
    """h is 'rrggbbaa', in lower case."""
    want = '#'+(h[:6] if h.endswith('ff') else h)
    case.equal(c.value, want, f'{what}: wrong hex')
    case.saw('hex to hex')
    judge(case, c, tuple(int(h[i:i+2], 16)/255 for i in range(0, 8, 2)), what)
    case.saw('hex to numbers')
    for n in notations(rng, h):
        other = sv.Color(n)
        case.check(c==n and not c!=n, f'{what} is not equal to {n!r}')
        case.check(n==c and not n!=c, f'{n!r} is not equal to {what}')
        case.check(c==other and other==c and not c!=other, f'{what} is not equal to Color({n!r})')
        case.equal(other.value, want, f'Color({n!r}): wrong hex')
        case.saw('equal to a notation')
    for _ in range(3):
        i = rng.randrange(4)
        b = [int(h[j:j+2], 16) for j in range(0, 8, 2)]
        b[i] = rng.choice([x for x in (b[i]-1, b[i]+1, 255-b[i]) if 0<=x<=255])
        g = ''.join('%02x' % x for x in b)
        for n in notations(rng, g):
            case.check(c!=n and not c==n, f'{what} is equal to {n!r}')
            case.check(n!=c and not n==c, f'{n!r} is equal to {what}')
            case.check(c!=sv.Color(n) and not c==sv.Color(n), f'{what} is equal to Color({n!r})')
        case.saw('unequal to a neighbour')
    for n in ('', '#', 5, None, [1.0, 1.0, 1.0], {}, object(), c.as_tuple()+(1.0,), c.as_tuple()[:2], (), c.value+'0', 'red', ('a', 'b', 'c'), b'ffffff', '#'+c.value):
        case.check(not c==n and c!=n, f'{what} is equal to {n!r}')
    case.saw('not colours')


@workload('C21', 64, 64)
def every_byte(case):
    """All 256 values of each channel: sixteen of them per case."""
    rng = case.rng
    channel, part = case.index%4, case.index//4
    for x in range(part*16, part*16+16):
        b = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(4)]
        b[channel] = x
        h = ''.join('%02x' % n for n in b)
        for n in notations(rng, h):
            judge_hex(case, sv.Color(n), h, f'Color({n!r})', rng)
            if isinstance(n, str) and len(n)<8:
                case.saw('opacity defaulted')
        case.saw('every byte')
        case.distinct(h)
    case.did(f'channel {channel}, from {part*16}')


BAD = ['', '#', 'zzz', '#12345', '#1234567', '12345', '1234567', '#123', 'fff', '#123456789', 'ff', '#gggggg', '#fffffg', '#fffffff', '##ffffff', '#ffffff ', ' #ffffff', '#ffffff\n', 'ffffff\n', '# ffffff', '#+fffff',
       '0xffff', '#-12345', 'ff ff ff', '#fffff_', '1_2_3_', 'red', 'white', '#ｆｆｆｆｆｆ', '#١٢٣٤٥٦', '#ffffffff0', '#fffffff ', '#ff ffff', 'rgb(1,1,1)',
       (1.0,), (1.0, 1.0), (1.0,)*5, (0.5,)*6, ('a', 'b', 'c'), (None, 1, 2), (0, 0, 'red'), (0.0, 0.0, 0.0, None), ((1,), 0, 0), (0, [1], 0),
       5, 0.5, None, True, [1.0, 1.0, 1.0], {}, {'r': 1}, object(), b'ffffff', {1.0, 0.5, 0.2}, range(3), 1j, ('#ffffff',), (0, 0, 1j)]


@workload('C21', 2500, 60000)
def random_colours(case):
    rng = case.rng
    for _ in range(4):
        r = rng.random()
        if r<0.35:
            s = ops.hexcolour(rng)
            if rng.random()<0.3:
                s = ''.join(rng.choice([x, x.upper(), x.lower()]) for x in s)
            h = s.lstrip('#').lower()
            if len(h)==6:
                h += 'ff'
                case.saw('opacity defaulted')
            c = sv.Color(s)
            judge_hex(case, c, h, f'Color({s!r})', rng)
            case.distinct(s)
            want = tuple(int(h[i:i+2], 16)/255 for i in range(0, 8, 2))
        else:
            n = rng.choice([3, 4])
            t = tuple(rng.choice([0, 1, 0.5, rng.random(), rng.randrange(256)/255, (rng.randrange(255)+0.5)/255, rng.random()**6, 1-rng.random()**6, 1e-7, 0.9999999]) for _ in range(n))
            want = tuple(float(x) for x in (t+(1.0,))[:4])
            if n==3:
                case.saw('opacity defaulted')
            c = sv.Color(t) if rng.random()<0.7 else sv.Color(*t)
            judge(case, c, want, f'Color({t})')
            case.check(c==t and t==c and not c!=t, f'Color({t}) is not equal to it')
            case.check(c==c.value and c==c.value.upper() and c==c.value[1:] and c==c.as_tuple(), f'Color({t}) is not equal to its own notations')
            case.saw('numbers to numbers')
            case.saw('numbers to hex')
            case.distinct(t)
            i = rng.randrange(4)
            u = list(want)
            u[i] = u[i]-0.004 if u[i]>0.5 else u[i]+0.004     # a bit more than a 255th
            other = sv.Color(tuple(u))
            if not hex_of(u) & hex_of(want):
                for n in (tuple(u), other, other.value):
                    case.check(c!=n and not c==n and n!=c, f'Color({t}) is equal to {n!r}')
                case.saw('unequal to a neighbour')
        case.did(f'{c.value} {c.as_tuple()}')
        copy = sv.Color(c)
        judge(case, copy, want, 'a copy')
        case.check(copy==c and copy.value==c.value and copy.as_tuple()==c.as_tuple(), 'a copy is not equal', c.value, copy.value)
        case.saw('copies')
        before = c.value, c.as_tuple()
        if rng.random()<0.6:
            x, w = ops.colour(rng)
            copy.value = x
            judge(case, copy, w, f'a copy which was set to {x!r}')
            case.equal((c.value, c.as_tuple()), before, 'changing a copy changed the original')
            case.saw('copies are independent')
            y, w = ops.colour(rng)
            copy.value = sv.Color(y)
            judge(case, copy, w, f'a copy which was set to Color({y!r})')
        for _ in range(3):
            bad = rng.choice(BAD)
            case.raises(lambda: sv.Color(bad), Exception, f'Color({bad!r:.60}) was not refused')
            case.raises(lambda: setattr(c, 'value', bad), Exception, f'.value = {bad!r:.60} was not refused')
            case.equal((c.value, c.as_tuple()), before, f'.value = {bad!r:.60} was refused, but changed the colour')
            case.saw('malformed refused')


@workload('C21', 1500, 36000)
def in_documents(case):
    rng = case.rng
    doc, animation = document(case, size=3, types=['circle', 'linear_gradient', 'rectangle', 'radial_gradient', 'text', 'group', 'solid_color'])
    fps = doc.fps
    todo = []
    for path, l, name, mvalue in ops.editable(doc, ('color', 'gradient')):
        layer = obs.at(animation, path)
        v = layer[name]
        what = f'{l.type}{path}.{name}'
        kind, *m = mvalue.meaning(fps)
        if kind=='color':
            if mvalue.animated:
                for w, (_, _, _, want) in zip(v.timeline, m[1]):
                    judge(case, w.value, want, f'{what} at {w.time}')
                    case.saw('in waypoints')
            else:
                judge(case, v, m[0], what)
            case.saw('from files')
        elif not mvalue.animated:
            for (p, c), (_, want) in zip(v.items(), m[0]):
                judge(case, c, want, f'{what} at {p}')
            case.saw('from files')
        if rng.random()<0.5:
            continue
        x, want = ops.colour(rng)
        if rng.random()<0.3:
            x = sv.Color(x)
        if kind=='gradient':
            if mvalue.animated:
                continue
            stops = list(v.keys())
            p = rng.choice(stops+[0.123, 0.75])
            if rng.random()<0.5:
                v[p] = x
            else:
                v.value = {**v.value, p: x}
            todo.append((path, name, ('stop', p), want))
            judge(case, layer[name][p], want, f'{what} after setting {p}')
            case.saw('in gradients')
        elif rng.random()<0.5:
            t = rng.randrange(0, 50)
            v.timeline[t] = x
            todo.append((path, name, ('time', t), want))
            judge(case, layer[name].timeline[t].value, want, f'{what} after setting {t}')
            case.saw('in waypoints')
        else:
            ops.assign(layer, name, x, rng.choice(ops.routes(l.type, name)))
            todo.append((path, name, None, want))
            judge(case, layer[name], want, f'{what} after setting it')
            case.saw('in layers')
        case.did(f'{what} = {x!r}')
    if not todo:
        return
    fn = case.path(rng.choice(['b.sif', 'b.sifz']))
    animation.save(fn)
    again = sangfroid.open(fn)
    for path, name, where, want in todo:
        v = obs.at(again, path)[name]
        if where is None:
            judge(case, v, want, f'{path}.{name}, reopened')
        elif where[0]=='stop':
            judge(case, v[where[1]], want, f'{path}.{name}, reopened, at {where[1]}')
        else:
            judge(case, v.timeline[where[1]].value, want, f'{path}.{name}, reopened, at {where[1]}')
        case.saw('reopened')
    case.distinct(case.log)
