"""C05: reading never changes the document."""
import copy
import operator
import sangfroid
import sangfroid.value as sv
from . import core, model, obs
from .core import workload, rule
from .common import *

rule('C05', '''
Random documents are opened and read in random order through every public attribute and reading method of animations, layers, values, timelines,
waypoints, times and keyframes (found by introspection of the objects met on the way, so reads chain to any depth), including reads which must
fail, and of documents with parts which make no sense. After each batch of reads the whole document, down to layout and the order of attributes, must be what it was, and each read repeated
must give an equal result or the same error. Non-trivial: a case which made at least 30 reads; distinct by the reads made.''',
     required=['reads', 'reads which raised', 'reads repeated', 'documents compared', 'reads of Timeline', 'reads of Waypoint',
               'reads of Keyframe', 'reads of Transformation', 'reads of Gradient', 'reads of Color', 'reads of X_Y', 'reads of T',
               'reads of Group', 'searches', 'membership tests', 'comparisons', 'copies', 'documents which make no sense'])

# methods which need no arguments and only read
CALLS = {'items', 'keys', 'values', 'as_tuple', 'as_python_expression', '__len__', '__iter__', '__str__', '__repr__',
         '__bool__', '__float__', '__int__', '__hash__'}
SKIP = {'save', 'append', 'insert', 'add', 'find', 'find_all', 'get', 'from_tag', 'all_in_animation', 'handles_type',
        'get_name_for_tag', 'tag'}


def plain(x, depth=0):
    """A result in a form which can be compared."""
    if isinstance(x, sangfroid.layer.Layer):
        return ('layer', type(x).__name__, id(x.tag))
    if isinstance(x, sv.Value):
        return ('value', type(x).__name__, obs.attempt(lambda: obs.read(x)), repr(obs.tree_of_tag(x.tag)))
    if isinstance(x, sv.Waypoint):
        return ('waypoint', x.time.frames, x.before, x.after, plain(x.value))
    if isinstance(x, sangfroid.T):
        return ('T', x.frames, x.fps)
    if isinstance(x, sangfroid.Keyframe):
        return ('keyframe', x.time.frames, x.name, x.active)
    if isinstance(x, (str, int, float, bool, type(None), bytes)):
        return x
    if isinstance(x, dict):
        return ('dict', [(plain(k), plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__') and not isinstance(x, type):
        if depth>3:
            return '...'
        return (type(x).__name__, [plain(v, depth+1) for v in list(x)[:40]])
    return type(x).__name__


def objects(x):
    """Things inside a result which could be read in their turn."""
    kinds = (sangfroid.layer.Layer, sv.Value, sv.Waypoint, sangfroid.T, sangfroid.Keyframe)
    if isinstance(x, kinds) or type(x).__name__ in ('Timeline', 'Keyframes'):
        return [x]
    if isinstance(x, dict):
        return [y for v in x.items() for y in objects(v)]
    if isinstance(x, (list, tuple, set)) or type(x).__name__ in ('generator', 'dict_values', 'dict_items', 'dict_keys', 'list_iterator'):
        return [y for v in list(x)[:30] for y in objects(v)]
    return []


def reader(rng, x, others):
    """One way of reading x, as (description, function)."""
    cls = type(x).__name__
    r = rng.random()
    names = [n for n in dir(type(x)) if not n.startswith('_') and n not in SKIP]
    attributes = [n for n in names if not callable(getattr_static(type(x), n))]
    if attributes and r<0.5:
        n = rng.choice(attributes)
        return f'{cls}.{n}', lambda: getattr(x, n)
    if r<0.7:
        n = rng.choice(sorted(CALLS))
        def call():
            result = getattr(x, n)()
            if n in ('__iter__',):
                result = list(result)
            return result
        return f'{cls}.{n}()', call
    if r<0.76:
        o = rng.choice(others+[5, 'x', None, (1, 2), 0.0])
        op = rng.choice([operator.eq, operator.ne, operator.lt])
        return f'{cls} {op.__name__} ...', lambda: op(x, o)
    if r<0.8:
        how = rng.choice(['str', 'repr', 'bool', 'format', 'hash', 'list'])
        return f'{how}({cls})', {
                'str': lambda: str(x), 'repr': lambda: repr(x), 'bool': lambda: bool(x),
                'format': lambda: f'{x}', 'hash': lambda: hash(x)==hash(x), 'list': lambda: list(x)}[how]
    if isinstance(x, sangfroid.layer.Layer):
        p = rng.choice(['radius', 'amount', 'text', 'origin', 'transformation', 'wombat', 'canvas', 'gradient', 'color', '', 'type'])
        c = rng.choice([
            lambda: (f'{p!r} in {cls}', lambda: p in x),
            lambda: (f'{cls}[{p!r}]', lambda: x[p]),
            lambda: (f'{cls}[0]', lambda: x[0]),
            lambda: (f'{cls}[-1]', lambda: x[-1]),
            lambda: (f'{cls}.find_all(type)', lambda: x.find_all(rng_type)),
            lambda: (f'{cls}.find_all(True)', lambda: x.find_all(True, recursive=False)),
            lambda: (f'{cls}.find_all(attr)', lambda: x.find_all(active=True)),
            lambda: (f'{cls}.find_all(param)', lambda: x.find_all(amount=1.0)),
            lambda: (f'{cls}.find_all(predicate)', lambda: x.find_all(lambda t: t.get('type')==rng_type)),
            lambda: (f'{cls}.find_all(both)', lambda: x.find_all(rng_type, type='circle')),
            lambda: (f'{cls}.find', lambda: x.find(desc='Hello world')),
            lambda: (f'{cls}()', lambda: x(rng_type)),
            lambda: (f'{cls}.tag', lambda: str(x.tag)),
            ])
        rng_type = rng.choice(['circle', 'Text', 'group', 'nothing'])
        return c()
    if isinstance(x, sv.Value):
        k = rng.choice(['x', 'y', 0, 1, -1, 5, 'offset', 'angle', 'scale', 0.5, 'wombat'])
        return rng.choice([
            (f'{cls}[{k!r}]', lambda: x[k]),
            (f'{cls}.get({k!r})', lambda: x.get(k)),
            (f'{cls}(value)', lambda: type(x)(x.value) if cls!='Canvas' else None),
            (f'Waypoint of {cls}', lambda: sv.Waypoint(0, x).tag is not None),
            (f'{cls}.timeline', lambda: x.timeline),
            (f'copy of {cls}', lambda: type(x)(copy.copy(x.tag)).is_animated),
            (f'{cls}.{k}', lambda: getattr(x, str(k))),
            ])
    if type(x).__name__=='Timeline':
        t = rng.choice([0, 1, '0f', '1s', 10, -1, 'junk', 0.5, None, 999999])
        return rng.choice([
            (f'Timeline[{t!r}]', lambda: x[t]),
            (f'{t!r} in Timeline', lambda: t in x),
            ('Timeline.keys', lambda: x.keys()),
            ('Timeline==list', lambda: x==list(x)),
            ])
    if isinstance(x, sangfroid.T):
        return rng.choice([
            ('T(T)', lambda: sangfroid.T(x)), ('float(T)', lambda: float(x)), ('int(T)', lambda: int(x)),
            ('T<1', lambda: x<1), ('T>=T', lambda: x>=sangfroid.T(3)), ('T.seconds', lambda: x.seconds)])
    if isinstance(x, sv.Waypoint):
        return 'Waypoint.tag', lambda: str(x.tag)
    return f'str({cls})', lambda: str(x)


def getattr_static(cls, name):
    import inspect
    try:
        x = inspect.getattr_static(cls, name)
    except AttributeError:
        return None
    return x.__func__ if isinstance(x, (classmethod, staticmethod)) else x


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__


@workload('C05', 900, 24000)
def random_reads(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4, 8]))
    reads(case, animation, [animation] + [obs.at(animation, p) for p, _, _ in doc.walk()][:6])


def damage(rng, root):
    """Makes something in a document wrong; says what."""
    def some(*names):
        found = root.find_all(list(names))
        return rng.choice(found) if found else None
    how = rng.choice(['no value', 'two values', 'unnamed', 'bad bool', 'bad number', 'no number', 'no waypoints', 'no interpolation', 'no position', 'no channel', 'other member', 'no part',
                      'no type', 'unknown type', 'mixed waypoints', 'bad time', 'one stop', 'same time', 'twice'])
    try:
        if how=='no value':
            some('param').clear()
        elif how=='two values':
            p = some('param')
            p.append(copy.copy(p.find(True)))
        elif how=='unnamed':
            del some('param')['name']
        elif how=='bad bool':
            some('bool')['value'] = rng.choice(['maybe', '', '1', 'yes'])
        elif how=='bad number':
            some('real', 'integer', 'angle')['value'] = rng.choice(['wombat', '', '1,5', '0x10'])
        elif how=='no number':
            del some('real', 'integer', 'angle', 'bool', 'time')['value']
        elif how=='no waypoints':
            some('animated').clear()
        elif how=='no interpolation':
            del some('waypoint')[rng.choice(['before', 'after', 'time'])]
        elif how=='no position':
            del some('gradient').find('color')['pos']
        elif how=='no channel':
            some('color').find('g').extract()
        elif how=='other member':
            some('vector').find('x').name = 'z'
        elif how=='no part':
            some('composite').find('offset').extract()
        elif how=='no type':
            del some('layer', 'animated', 'composite')['type']
        elif how=='unknown type':
            some('layer', 'animated', 'composite')['type'] = 'wombat'
        elif how=='mixed waypoints':
            some('waypoint').find(True).name = rng.choice(['bool', 'integer', 'wombat'])
        elif how=='bad time':
            some('waypoint', 'keyframe')['time'] = rng.choice(['soon', '', '1x', '3f 3f'])
        elif how=='one stop':
            g = some('gradient')
            for c in g.find_all('color')[1:]:
                c.extract()
        elif how=='same time':
            w = some('waypoint')
            w.insert_after(copy.copy(w))
        elif how=='twice':
            p = some('param')
            p.insert_after(copy.copy(p))
    except (AttributeError, TypeError, KeyError, ValueError):
        return None
    return how


@workload('C05', 500, 12000)
def oddities(case):
    """Documents which don't quite make sense."""
    rng = case.rng
    doc, animation = document(case, size=rng.choice([1, 2, 4]))
    pool = [animation] + [obs.at(animation, p) for p, _, _ in doc.walk()][:6]
    for l in pool[1:3]:
        pool += [v for _, v in l.items()][:8]
    for _ in range(rng.choice([1, 2, 4])):
        how = damage(rng, animation.tag)
        case.did(f'damage: {how}')
        case.saw('documents which make no sense', int(how is not None))
    reads(case, animation, pool)


def reads(case, animation, pool):
    rng = case.rng
    top = obs.exact(animation.tag)
    done = []
    n = rng.choice([40, 80])
    for i in range(n):
        x = rng.choice(pool)
        what, fn = reader(rng, x, pool[-5:])
        done.append(what)
        result, error = outcome(fn)
        # turn iterators into lists at once: they're the same read
        got = ('#error', error) if error else outcome(lambda: plain(materialise(result)))
        cls = type(x).__name__
        case.saw('reads')
        case.saw('reads of '+('Group' if cls=='Animation' else cls))
        if 'find' in what:
            case.saw('searches')
        if ' in ' in what:
            case.saw('membership tests')
        if ' eq ' in what or ' lt ' in what or ' ne ' in what:
            case.saw('comparisons')
        if 'copy' in what or 'value)' in what:
            case.saw('copies')
        if error:
            case.saw('reads which raised')
        if rng.random()<0.6:
            if rng.random()<0.5:
                # with another in between
                w2, f2 = reader(rng, rng.choice(pool), pool[-5:])
                done.append(w2)
                outcome(lambda: materialise(f2()))
                case.saw('reads')
            r2, e2 = outcome(fn)
            again = ('#error', e2) if e2 else outcome(lambda: plain(materialise(r2)))
            case.equal(again, got, f'reading twice gave different results: {what}', str(done[-4:]))
            case.saw('reads repeated')
        if not error:
            pool += objects(outcome(lambda: materialise(result))[0])[:6]
            if len(pool)>60:
                pool = [animation] + rng.sample(pool, 40)
        if i%10==9 or i==n-1:
            now = obs.exact(animation.tag)
            if now!=top:
                case.fail('reading changed the document', str(done[-25:]), where(top, now) or '')
            case.saw('documents compared')
    for d in done[:12]:
        case.did(d)
    intact(case, animation, 'after reading')
    case.distinct(done)


def materialise(x):
    if type(x).__name__ in ('generator', 'list_iterator', 'dict_keyiterator'):
        return list(x)
    return x


def where(a, b, path=''):
    if a==b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a)==3==len(b)) or a[:2]!=b[:2]:
        return f'{path}: {a!r:.300} -> {b!r:.300}'
    if len(a[2])!=len(b[2]):
        return f'{path}/{a[0]}: {len(a[2])} -> {len(b[2])} children'
    for x, y in zip(a[2], b[2]):
        if x!=y:
            return where(x, y, f'{path}/{a[0]}')


@workload('C05', 300, 8000)
def everything_twice(case):
    """The whole animation is read twice, in different orders, by all the usual ways."""
    rng = case.rng
    doc, animation = document(case, size=rng.choice([4, 10, 20]))
    top = obs.exact(animation.tag)
    first = obs.readout(animation)
    case.saw('reads', len(first['layers']))
    paths = [p for p, _, _ in doc.walk()]
    rng.shuffle(paths)
    names = ['z_depth', 'amount', 'color', 'origin', 'transformation', 'gradient', 'offset', 'scale', 'text', 'time_offset',
             'blend_method', 'radius', 'duration', 'antialias', 'angle']
    for p in paths:
        layer = obs.at(animation, p)
        for n in names:
            a = plain_outcome(lambda: getattr(layer, n))
            b = plain_outcome(lambda: layer[n])
            c = plain_outcome(lambda: getattr(layer, n))
            case.equal(c, a, f'reading {n} of a {type(layer).__name__} twice gave different results')
            case.saw('reads repeated')
            case.saw('reads', 3)
            case.saw('membership tests')
            n in layer
        for fn in (str, repr, lambda l: l.parent, lambda l: l.tag_depth):
            plain_outcome(lambda: fn(layer))
        for n, v in layer.items():
            plain_outcome(lambda: str(v))
            plain_outcome(lambda: repr(v))
            w = list(v.timeline) if v.is_animated else []
            for x in w:
                x.tag, str(x), x==w[0], x<w[0]
    second = obs.readout(animation)
    d = obs.compare_readouts(first, second)
    case.check(d is None, 'reading everything again gave something else', d or '')
    now = obs.exact(animation.tag)
    case.check(now==top, 'reading changed the document', where(top, now) or '')
    case.saw('documents compared')
    case.did(f'{len(paths)} layers')
    case.distinct((paths, len(str(top))))


def plain_outcome(fn):
    try:
        return plain(fn())
    except Exception as e:
        return ('#error', type(e).__name__)
