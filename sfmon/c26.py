"""C26: plain values act as the plain things they hold."""
import math
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C26', '''
Static values of every plain kind, made directly, read from files, in new layers, through attributes and brackets, and after edits of all sorts; each compared, in both orders and with == and !=, with
plain things equal to it, near it and far from it, with other values holding the same and different things, and with things of other sorts; and converted to plain types. What it should be
equal to is worked out from the plain thing alone. Non-trivial: at least one comparison judged. Distinct by the values compared.''',
     required=['values judged', 'equal', 'unequal', 'other sorts', 'between values', 'conversions', 'blend methods', 'in documents', 'after edits', 'near misses', 'texts with digits'] +
     [f'{k} judged' for k in ('real', 'integer', 'bool', 'angle', 'time', 'string')])

METHODS = ['COMPOSITE', 'STRAIGHT', 'BRIGHTEN', 'DARKEN', 'ADD', 'SUBTRACT', 'MULTIPLY', 'DIVIDE', 'COLOR', 'HUE', 'SATURATION', 'LUMINANCE', 'BEHIND', 'ONTO', 'ALPHA_BRIGHTEN', 'ALPHA_DARKEN',
           'SCREEN', 'HARD_LIGHT', 'DIFFERENCE', 'ALPHA_OVER', 'OVERLAY', 'STRAIGHT_ONTO', 'ADD_COMPOSITE', 'ALPHA']

KINDS = ['real', 'integer', 'bool', 'angle', 'time', 'string']


class Plain:
    """Nothing like any value."""


def judge_pair(case, v, other, equal, what):
    how = 'equal' if equal else 'unequal'
    show = f'{type(v).__name__} {v.value!r} and {other!r}, {what}'
    for x, y, order in ((v, other, 'on the left'), (other, v, 'on the right')):
        if isinstance(x, sangfroid.T):
            # a T doesn't know about values
            continue
        case.check(bool(x==y)==equal, f'should be {how}, with the value {order}: {show}')
        case.check(bool(x!=y)==(not equal), f'!= disagrees with ==, with the value {order}: {show}')
    case.saw(how)


def plain_partners(rng, kind, x):
    """[(plain thing, whether it's equal)]"""
    out = []
    if kind=='real':
        out += [(x, True), (x+rng.uniform(-9e-5, 9e-5), True), (x+rng.choice([-1, 1])*rng.choice([1.2e-4, 1e-3, 0.1, 1, 1e5]), False), (x*1.0, True), (-x, abs(2*x)<=0.9e-4) if not 0.9e-4<abs(2*x)<1.2e-4 else (x, True)]
        if x==int(x):
            out.append((int(x), True))
        out.append((int(x)+7, False))
    elif kind=='angle':
        out += [(x, True), (x+rng.choice([-1, 1])*rng.choice([1e-3, 0.5, 1, 360, 180]), False), (x+1000, False)]
        if x==int(x):
            out.append((int(x), True))
    elif kind=='integer':
        out += [(x, True), (float(x), True), (x+1, False), (x-1, False), (x+0.5, False), (x+rng.choice([0.25, 0.9, -0.1, 0.999]), False), (-x, x==0)]
        if abs(x)<1000:
            out.append((x+rng.choice([-1, 1])*rng.choice([1e-3, 1e-6, 1e-10]), False))
    elif kind=='bool':
        out += [(x, True), (not x, False), (int(x), True), (1-int(x), False)]
    elif kind=='string':
        out += [(x, True), (x+' ', False), (x+'x', False), ('x'+x, False)]
        for other in (x.swapcase(), x.strip(), x[:-1], x[1:], x.upper(), ' '.join(x.split())):
            out.append((other, other==x))
    return out


SORTS = {
        'real': [None, [], {}, 'wombat', '', Plain(), (1, 2), [1.0], set()],
        'integer': [None, [], {}, 'wombat', '', Plain(), (1, 2), [1], set()],
        'angle': [None, [], {}, 'wombat', '', Plain(), (1, 2), [1.0], set()],
        'time': [None, [], {}, 'wombat', '', Plain(), (1, 2), [1], set(), '5', 'f'],
        'string': [None, [], {}, 5, 1.5, True, Plain(), (1, 2), b'x', set()],
        'bool': [],
        }


def judge(case, v, kind, x, what, animation=None):
    rng = case.rng
    if kind=='time':
        # a number of frames
        T = sangfroid.T
        partners = [(v.value, True), (T(v.value.frames), True), (v.value.frames, True), (x+1, False), (x+0.5, False), (T(x+2), False)]
        if animation is not None:
            partners += [('%df' % (x+3), False)]
        if x==int(x) and (animation is None or animation.fps==int(animation.fps)):
            # nothing is lost in writing it
            partners += [(x, True), (int(x), True), (T(x), True), (f'{int(x)}f', True)]
        for other, equal in partners:
            judge_pair(case, v, other, equal, what)
        case.check(isinstance(v.value, T) and abs(v.value.frames-x)<=1.01e-6, f'{what}: wrong time', repr(v.value), x)
    else:
        for other, equal in plain_partners(rng, kind, x):
            judge_pair(case, v, other, equal, what)
            case.saw('near misses')
        got = v.value
        if kind in ('real', 'angle'):
            case.check(type(got) is float and obs.near(got, x, 1e-9), f'{what}: wrong value', repr(got), repr(x))
        else:
            case.check(type(got) is type(x) and got==x, f'{what}: wrong value', repr(got), repr(x))
    for other in SORTS[kind]:
        judge_pair(case, v, other, False, what)
        case.saw('other sorts')
    # conversions
    if kind in ('real', 'integer', 'angle'):
        f = float(v)
        case.check(type(f) is float and (f==float(x) if kind!='real' else obs.near(f, float(x), 1e-9)), f'{what}: float() is {f!r}, not {x!r}')
    if kind in ('real', 'integer'):
        i = int(v)
        case.check(type(i) is int and (i==int(v.value)), f'{what}: int() is {i!r}, not {int(v.value)!r}')
    if kind=='bool':
        case.check(bool(v) is x, f'{what}: bool() is {bool(v)!r}')
        case.check((not v) is (not x), f'{what}: not v is {not v!r}')
    if kind=='string':
        case.equal(str(v), x, f'{what}: str()')
        if any(c.isdigit() for c in x):
            case.saw('texts with digits')
    elif kind in ('real', 'integer', 'bool'):
        got = str(v)
        back = {'real': float, 'integer': int, 'bool': lambda s: {'True': True, 'False': False}[s]}[kind](got)
        case.check(back==v.value, f'{what}: printed as {got!r}')
    elif kind=='time':
        case.equal(str(v), str(v.value), f'{what}: str()')
    case.saw('conversions')
    case.saw(f'{kind} judged')
    case.saw('values judged')


def thing(rng, kind):
    """(what to assign, the plain thing)"""
    if kind=='string':
        s = rng.choice([model.text(rng), str(rng.randrange(1000)), rng.choice(['', ' ', 'True', '1.5', '5f', 'None', 'x\ny', '  two  '])])
        return s, s
    if kind=='time':
        f = rng.choice([0, 1, rng.randrange(0, 500), rng.randrange(0, 4000)/8])
        return f, f
    if kind=='real':
        x = rng.choice([rng.uniform(-100, 100), rng.randrange(-10, 11), 0, 0.0, 1, 0.5, rng.uniform(-1, 1), 12345.678])
        return x, float(x)
    if kind=='angle':
        x = rng.choice([rng.uniform(-720, 720), 0, 90, 180.0, -45.5, 359.999])
        return x, float(x)
    x, want = ops.good(rng, kind, 24)
    return x, want


def pairs(case, a, ka, xa, b, kb, xb, what):
    """Two values."""
    if ka!=kb:
        return
    if ka=='real':
        d = abs(xa-xb)
        if 0.9e-4<d<1.1e-4:
            return
        equal = d<=1e-4
    elif ka=='time':
        equal = abs(xa-xb)<1e-7
    else:
        equal = xa==xb
    judge_pair(case, a, b, equal, what)
    case.saw('between values')


@workload('C26', 3000, 70000)
def alone(case):
    rng = case.rng
    kind = rng.choice(KINDS)
    vs = []
    x, want = thing(rng, kind)
    for _ in range(3):
        if rng.random()<0.5:
            x, want = thing(rng, kind)
        v = ops.V[kind](x)
        judge(case, v, kind, want, f'made from {x!r}')
        if rng.random()<0.5:
            y, want = thing(rng, kind)
            v.value = y
            judge(case, v, kind, want, f'made from {x!r}, then set to {y!r}')
            case.saw('after edits')
        vs.append((v, want))
        x = want
    for a, xa in vs:
        for b, xb in vs:
            pairs(case, a, kind, xa, b, kind, xb, 'values alone')
    if rng.random()<0.3:
        n = METHODS.index(rng.choice(METHODS))
        m = sv.BlendMethod(getattr(sv.BlendMethod, METHODS[n]))
        for i, name in enumerate(METHODS):
            judge_pair(case, m, getattr(sv.BlendMethod, name), i==n, f'blend methods {METHODS[n]} and {name}')
            case.equal(getattr(sv.BlendMethod, name), i, f'BlendMethod.{name}')
        judge(case, m, 'integer', n, f'blend method {METHODS[n]}')
        case.saw('blend methods')
    case.distinct([kind]+[repr(x) for _, x in vs])


@workload('C26', 1200, 30000)
def in_documents(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([1, 3]))
    sites = [s for s in ops.editable(doc, KINDS)]
    if not sites:
        return
    seen = []
    for path, l, name, mvalue in rng.sample(sites, min(6, len(sites))):
        layer = obs.at(animation, path)
        routes = ['brackets', 'items']+(['attribute'] if ops.attribute_name(name) else [])
        v = ops.fetch(layer, name, rng.choice(routes))
        kind = mvalue.kind
        what = f'{l.type}{path}.{name}'
        if not mvalue.animated:
            x = mvalue.meaning(doc.fps)[1]
            if kind!='time' or x>=0:
                judge(case, v, kind, x, what, animation)
        if rng.random()<0.7 or mvalue.animated:
            y, x = thing(rng, kind)
            ops.assign(layer, name, y, rng.choice(ops.routes(l.type, name)))
            v = ops.fetch(layer, name, rng.choice(routes))
            judge(case, v, kind, x, f'{what} set to {y!r}', animation)
            case.saw('after edits')
        if not (kind=='time' and x<0):
            seen.append((v, kind, x))
        case.saw('in documents')
    for a, ka, xa in seen:
        for b, kb, xb in seen:
            pairs(case, a, ka, xa, b, kb, xb, 'in a document')
    case.distinct([(k, repr(x)) for _, k, x in seen])
