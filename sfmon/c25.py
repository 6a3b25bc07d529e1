"""C25: layer and value kinds are recognised by name."""
import bs4
import sangfroid
import sangfroid.value as sv
from sangfroid.registry import Registry
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C25', '''
Every known layer type and value kind, in random spellings (case and underscores), looked up by name, by tag, in whole files, and by search; static and animated forms of every kind; random, near-miss and empty names,
which must be errors; and registries filled in random orders under explicit, defaulted and colliding names, with all earlier entries looked up again after each registration, in fresh registries and in the real ones.
Non-trivial: at least one name looked up. Distinct by the names and spellings.''',
     required=[f'layer {t}' for t in model.TYPES] + [f'{form} {k}' for k in model.EDITABLE if k!='composite' for form in ('static', 'animated')] + [
         'static composite', 'composites of a type in capitals', 'unknown layers refused', 'unknown values refused', 'unknown animated values refused', 'layers in files', 'layers searched for', 'registered by name', 'registered by class name', 'replaced', 'earlier ones again',
         'registered for real', 'no type', 'new kinds in files'])

normal = lambda s: s.lower().replace('_', '')


def spelling(rng, s):
    r = rng.random()
    if r<0.15:
        return s
    out = ''
    for c in s:
        if c=='_' and rng.random()<0.5:
            continue
        out += rng.choice([c, c.upper(), c.lower()])
        if rng.random()<0.1:
            out += '_'*rng.randrange(1, 4)
    return out+('_' if rng.random()<0.1 else '')


def nonsense(rng, known, xml=False):
    """A name which stands for nothing."""
    while True:
        s = rng.choice(sorted(known))
        r = rng.random()
        i = rng.randrange(len(s)+1)
        if r<0.2:
            s = s[:i]+rng.choice('abcdefghijklmnopqrstuvwxyz0123456789')+s[i:]
        elif r<0.4:
            s = s[:i]+s[i+1:]
        elif r<0.5:
            s = s[:i]+rng.choice('qxz9')+s[i+1:]
        elif r<0.6:
            s = s+rng.choice(sorted(known))
        elif r<0.7:
            s = rng.choice(['wombat', 'layer', 'param', 'canvasx', 'animatedx', 'tbd', 'value', 'none', 'object', 'x_y', 'transformation', 'blendmethod', 'simple', 'numeric', 'waypoint', 'handlers', '__class__'])
        elif r<0.8 and not xml:
            s = rng.choice(['', ' ', '_', '__', s+' ', ' '+s, s+'\n', s.replace('_', ' ')+' ', s.replace('_', '-')+'-', '.'+s, s+'\0', s+'é', s[::-1]])
        else:
            s = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz_') for _ in range(rng.randrange(1, 9)))
        if s and not xml or s.strip('_') and s[0].isalpha():
            s = spelling(rng, s) if rng.random()<0.3 else s
        if normal(s) in {normal(k) for k in known} or normal(s)=='animated':
            continue
        if xml and not (s and s[0].isalpha()):
            continue
        return s


LAYERS = model.TYPES
# all names the library says it has classes for
KNOWN_LAYERS = set(LAYERS) | {normal(c) for c in dir(sangfroid.layer) if isinstance(getattr(sangfroid.layer, c), type)}
KNOWN_VALUES = {'real', 'integer', 'bool', 'angle', 'time', 'string', 'color', 'vector', 'gradient', 'composite', 'canvas', 'bline', 'dynamic_list', 'static_list', 'wplist', 'dilist', 'tone'}


def is_layer(case, c, t, what):
    case.check(isinstance(c, type) and issubclass(c, sangfroid.layer.Layer) and normal(c.__name__)==normal(t), f'{what} is a {c}')


@workload('C25', 2000, 40000)
def layers(case):
    rng = case.rng
    Layer = sangfroid.layer.Layer
    for k in range(4):
        t = LAYERS[(case.index*4+k)%len(LAYERS)]
        s = spelling(rng, t)
        case.did(s)
        c = Layer.handles_type.from_name(s)
        is_layer(case, c, t, f'{s!r}')
        tag = bs4.Tag(name='layer', attrs={'type': s})
        layer = Layer.from_tag(tag)
        is_layer(case, type(layer), t, f'<layer type={s!r}>')
        case.check(type(layer) is c is Layer.handles_type.from_name(t), f'{s!r} is not always the same class')
        case.check(layer.tag is tag, f'{s!r}: the layer is not of that tag')
        case.saw(f'layer {t}')
        case.distinct(s)
    for _ in range(3):
        bad = nonsense(rng, KNOWN_LAYERS)
        case.raises(lambda: Layer.handles_type.from_name(bad), KeyError, f'{bad!r} was taken for a layer')
        case.raises(lambda: Layer.from_tag(bs4.Tag(name='layer', attrs={'type': bad})), Exception, f'<layer type={bad!r}> was taken for a layer')
        case.saw('unknown layers refused')
        case.distinct(bad)
    case.raises(lambda: Layer.from_tag(bs4.Tag(name='layer', attrs={'name': 'circle'})), Exception, 'a layer with no type was taken for something')
    case.saw('no type')


@workload('C25', 2500, 60000)
def values(case):
    rng = case.rng
    V = sv.Value
    for k in range(3):
        kind = model.EDITABLE[(case.index*3+k)%len(model.EDITABLE)]
        s = spelling(rng, kind)
        if not s[0].isalpha():
            continue
        m = model.static_value(rng, kind, 24)
        e = m.element(rng)
        e.name = s
        if kind=='composite' and rng.random()<0.5:
            e.attrs = [(a, ''.join(rng.choice([c, c.upper()]) for c in x) if a=='type' else x) for a, x in e.attrs]
            case.saw('composites of a type in capitals')
        soup = parse(e)
        v = V.from_tag(soup)
        case.equal(obs.kind_of(v), kind, f'<{s}>: wrong kind')
        case.check(type(v) is type(V.from_tag(parse(m.element(rng)))), f'<{s}> and <{kind}> are of different kinds')
        case.check(not v.is_animated, f'<{s}> is animated')
        case.saw(f'static {kind}')
        case.distinct(('static', s))
        if kind=='composite':
            continue
        m = model.Value(kind, None, {}, [(f'{i}f', 'clamped', 'linear', {}, model.static_value(rng, kind, 24)) for i in range(rng.randrange(1, 4))])
        e = m.element(rng)
        e.attrs = [(a, s if a=='type' else x) for a, x in e.attrs]
        w = V.from_tag(parse(e))
        case.equal(obs.kind_of(w), kind, f'<animated type={s!r}>: wrong kind')
        case.check(type(w) is type(v), f'<animated type={s!r}> is {type(w)}, but static ones are {type(v)}')
        case.check(w.is_animated, f'<animated type={s!r}> is not animated')
        case.saw(f'animated {kind}')
        case.did(f'{s} {type(v).__name__} {type(w).__name__}')
        case.distinct(('animated', s))
    for _ in range(3):
        bad = nonsense(rng, KNOWN_VALUES)
        case.raises(lambda: V.handles_type.from_name(bad), KeyError, f'{bad!r} was taken for a value')
        case.raises(lambda: V.from_tag(bs4.Tag(name='animated', attrs={'type': bad})), Exception, f'<animated type={bad!r}> was taken for a value')
        case.saw('unknown animated values refused')
        bad = nonsense(rng, KNOWN_VALUES, xml=True)
        case.raises(lambda: V.from_tag(bs4.Tag(name=bad, attrs={'value': '1'})), Exception, f'<{bad}> was taken for a value')
        case.saw('unknown values refused')
        case.distinct(bad)
    case.raises(lambda: V.from_tag(bs4.Tag(name='animated')), Exception, 'an animated value with no type was taken for something')
    case.saw('no type')
    for opaque in ('bline', 'dynamic_list', 'static_list', 'wplist', 'dilist'):
        s = spelling(rng, opaque)
        case.equal(normal(type(V.from_tag(bs4.Tag(name=s))).__name__), normal(opaque), f'<{s}>: wrong kind')


def parse(e):
    import random
    w = []
    e.out(w, 0, random.Random(1))
    soup = bs4.BeautifulSoup(''.join(w), 'xml')
    [tag] = [t for t in soup.contents if isinstance(t, bs4.Tag)]
    return tag


@workload('C25', 800, 20000)
def files(case):
    rng = case.rng
    doc = model.Doc(rng, size=8)
    for _, l, _ in doc.walk(reachable=False):
        l.attrs['type'] = spelling(rng, l.type)
    bad = None
    ls = list(doc.walk())
    if ls and rng.random()<0.3:
        _, l, parent = rng.choice(ls)
        bad = nonsense(rng, KNOWN_LAYERS, xml=True)
        l.attrs['type'] = bad
        where = parent
    animation = load(case, doc)
    if bad is not None:
        case.did(f'unknown {bad!r}')
        def everything():
            def inner(x):
                for c in x.children:
                    if isinstance(c, sangfroid.layer.Group):
                        inner(c)
            inner(animation)
        case.raises(everything, Exception, f'a layer of type {bad!r} was taken for something')
        case.saw('unknown layers refused')
        case.distinct(('bad', bad, len(ls)))
        return
    for path, l, _ in ls:
        layer = obs.at(animation, path)
        is_layer(case, type(layer), l.type, f'{l.attrs["type"]!r} at {path}')
        case.saw('layers in files')
        case.saw(f'layer {l.type}')
        for name, m in l.params:
            kind = m.kind
            if kind in model.EDITABLE+('canvas',):
                case.equal(obs.kind_of(layer[name]), kind, f'{l.type}{path}[{name!r}]: wrong kind')
                case.saw(f'{"animated" if m.animated else "static"} {kind}')
    if ls:
        t = rng.choice(ls)[1].type
        want = sum(1 for _, l, _ in doc.walk(reachable=False) if l.type==t)
        s = spelling(rng, t)
        got = list(animation.find_all(Layer_class(t)))
        case.check(len(list(got))>=1 and all(isinstance(x, Layer_class(t)) for x in got), f'find_all({t}) found {[type(x).__name__ for x in got]}')
        exact = [x for x in got if normal(type(x).__name__)==normal(t)]
        case.equal(len(exact), want, f'find_all({t})')
        case.saw('layers searched for')
    case.did(str([l.attrs['type'] for _, l, _ in ls]))
    case.distinct([l.attrs['type'] for _, l, _ in ls])


def Layer_class(t):
    return sangfroid.layer.Layer.handles_type.from_name(t)


@workload('C25', 1500, 36000)
def registries(case):
    rng = case.rng
    r = Registry()
    other = Registry()
    want = {}
    pool = ['Wombat', 'Tra_La_La', 'barney', 'x', 'A_b_C', 'Circle', 'real', 'Zz9', 'tralala', 'Wom_bat', 'é', '_x_']
    for _ in range(rng.randrange(1, 10)):
        cname = rng.choice(pool)
        c = type(cname, (), {})
        if rng.random()<0.5:
            name = rng.choice(pool)
            got = r(name=name)(c) if rng.random()<0.5 else r(name)(c)
            case.saw('registered by name')
        else:
            name = cname
            got = rng.choice([lambda: r()(c), lambda: r(None)(c), lambda: r(name=None)(c)])()
            case.saw('registered by class name')
        case.check(got is c, f'registering {cname} gave {got}')
        if normal(name) in want:
            case.saw('replaced')
        want[normal(name)] = c
        case.did(f'{cname} as {name}')
        for n, c in want.items():
            s = spelling(rng, n)
            case.check(r.from_name(s) is c, f'after registering {name!r}, {s!r} is {r.from_name(s)} and not {c}')
            case.saw('earlier ones again')
        for s in pool+['wombat2', 'nothing', '']:
            if normal(s) not in want:
                case.raises(lambda: r.from_name(s), KeyError, f'{s!r} was found')
            case.raises(lambda: other.from_name(s), KeyError, f'{s!r} was found in another registry')
    case.distinct(case.log)


@workload('C25', 300, 6000)
def real_registries(case):
    """New kinds among the existing ones. They stay, but so they should disturb nothing."""
    rng = case.rng
    Layer, V = sangfroid.layer.Layer, sv.Value
    n = f'{case.seed}_{case.index}_{rng.randrange(10**6)}'
    before = {t: Layer.handles_type.from_name(t) for t in LAYERS}
    vbefore = {k: V.handles_type.from_name(k) for k in sorted(KNOWN_VALUES)}
    base = rng.choice([Layer, sangfroid.layer.Circle, sangfroid.layer.Group])
    cname = f'Zzlayer_{n}'
    C = type(cname, (base,), {})
    name = f'zz_new_{n}' if rng.random()<0.5 else None
    Layer.handles_type(name=name)(C)
    vname = f'zz_value_{n}' if rng.random()<0.5 else None
    X = type(f'Zzvalue_{n}', (sv.Real,), {})
    V.handles_type(name=vname)(X)
    case.did(f'{cname} as {name}, {X.__name__} as {vname}')
    s = spelling(rng, name or cname)
    case.check(type(Layer.from_tag(bs4.Tag(name='layer', attrs={'type': s}))) is C, f'<layer type={s!r}> is not {C}')
    vs = spelling(rng, vname or X.__name__)
    case.check(type(V.from_tag(bs4.Tag(name=vs))) is X, f'<{vs}> is not {X}')
    case.check(type(V.from_tag(bs4.Tag(name='animated', attrs={'type': vs}))) is X, f'<animated type={vs!r}> is not {X}')
    if name is not None:
        case.raises(lambda: Layer.handles_type.from_name(cname), KeyError, f'{cname} was found, although it was registered as {name}')
    case.raises(lambda: V.handles_type.from_name(name or cname), KeyError, 'a layer was found among values')
    for t, c in before.items():
        case.check(Layer.handles_type.from_name(spelling(rng, t)) is c, f'{t} was disturbed by {cname}')
    for k, c in vbefore.items():
        case.check(V.handles_type.from_name(spelling(rng, k)) is c, f'{k} was disturbed by {X.__name__}')
    case.saw('registered for real')
    doc = model.Doc(rng, size=4)
    animation = load(case, doc)
    for path, l, _ in doc.walk():
        is_layer(case, type(obs.at(animation, path)), l.type, f'{l.type}{path}, after {cname} was registered')
    doc.layers.append(model.Layer('circle', {'type': s}, []))
    animation = load(case, doc)
    case.check(type(obs.at(animation, (0,))) is C, f'in a file, {s!r} is not {C}')
    case.saw('new kinds in files')
    case.distinct(case.log)
