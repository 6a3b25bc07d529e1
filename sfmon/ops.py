"""
Edits through the public API: what can be assigned to a value of each kind, what it should
then read as, and what can't be.
"""
import sangfroid
import sangfroid.value as sv
from . import model, obs

V = {
        'real': sv.Real, 'integer': sv.Integer, 'bool': sv.Bool, 'angle': sv.Angle,
        'time': sv.Time, 'string': sv.String, 'color': sv.Color, 'vector': sv.X_Y,
        'gradient': sv.Gradient, 'composite': sv.Transformation,
        }

def number(rng):
    r = rng.random()
    if r<0.3:
        return rng.uniform(-100, 100)
    if r<0.5:
        return rng.randrange(-10, 11)
    if r<0.6:
        return rng.choice([0, 0.0, -0.0, 1, 1.0, -1, 1e-9, 123456789.123, -1e6, 0.1+0.2,
                           1234567, -98765432, 1048577, 20000001])
    if r<0.7:
        return float('%.6f' % rng.uniform(-1, 1))
    return rng.choice([-1, 1])*rng.random()*10**rng.randrange(-6, 7)

def hexcolour(rng):
    digits = rng.choice([6, 6, 8])
    s = ''.join(rng.choice('0123456789abcdef') for _ in range(digits))
    if rng.random()<0.1:
        s = rng.choice(['000000', 'ffffff', 'ffffffff', '00000000', 'ff00ff', 'abcdef80', '0000ff', '1234567f'])
    if rng.random()<0.3:
        s = s.upper()
    return rng.choice(['#', ''])+s

def hex_tuple(s):
    s = s.lstrip('#').lower()
    if len(s)==6:
        s += 'ff'
    return tuple(int(s[i:i+2], 16)/255 for i in range(0, 8, 2))

def colour(rng, plain=False):
    """(what to assign, as a tuple)"""
    r = rng.random()
    if r<0.4:
        s = hexcolour(rng)
        return s, hex_tuple(s)
    n = rng.choice([3, 4])
    t = tuple(rng.choice([0, 1, 0.5, rng.random(), rng.randrange(256)/255]) for _ in range(n))
    return t, tuple(float(x) for x in (t+(1.0,))[:4])

def good(rng, kind, fps, fps_known=True):
    """
    Something which can be assigned to a value of this kind,
    and what static_of() should read afterwards.
    """
    if kind in ('real', 'angle'):
        x = number(rng)
        return x, float(x)
    if kind=='integer':
        x = rng.choice([rng.randrange(-100, 100), 0, 1, 2**31, -2**40])
        return x, x
    if kind=='bool':
        x = rng.choice([True, False])
        return x, x
    if kind=='time':
        r = rng.random()
        if r<0.3:
            x = rng.choice([0, 1, rng.randrange(0, 500), rng.randrange(0, 4000)/8])
            return x, float(x)
        if r<0.5:
            x = f'{rng.randrange(0, 500)}f'
            return x, float(model.frames_of(x, fps))
        if not fps_known:
            return 7, 7.0
        x = model.time_text(rng, fps)
        return x, float(model.frames_of(x, fps))
    if kind=='string':
        x = model.text(rng)
        return x, x
    if kind=='color':
        return colour(rng)
    if kind=='vector':
        a, b = number(rng), number(rng)
        x = (a, b)
        r = rng.random()
        if r<0.3:
            x = {'x': a, 'y': b}
        elif r<0.4:
            x = {'y': b, 'x': a}
        return x, (float(a), float(b))
    if kind=='gradient':
        n = rng.randrange(2, 6) if rng.random()<0.96 else rng.choice([9, 17, 40])
        ps = set()
        while len(ps)<n:
            ps.add(rng.choice([0, 1, 0.5, 0.25, round(rng.random(), 5)]))
        ps = list(ps)
        rng.shuffle(ps)
        x, want = {}, []
        for p in ps:
            c, t = colour(rng)
            x[p] = c
            want.append((float(p), t))
        return x, sorted(want)
    if kind=='composite':
        parts = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}
        x, want = {}, {}
        keys = list(parts)
        rng.shuffle(keys)
        for k in keys:
            x[k], w = good(rng, parts[k], fps)
            want[k] = (parts[k], w)
        return x, want
    raise ValueError(kind)

def bad(rng, kind):
    """Something which must be refused by a value of this kind, or None
    if anything goes."""
    junk = [object(), [1, 2], {'wombat': 1}, lambda: 1, b'bytes', ('a', 'b', 'c')]
    if kind in ('real', 'angle', 'integer', 'time', 'color', 'vector', 'gradient', 'composite') and rng.random()<0.1:
        # values, but of another kind
        other = rng.choice([k for k in ('string', 'color', 'vector', 'gradient') if k!=kind])
        x = {'string': lambda: sv.String('abc'), 'color': lambda: sv.Color('#123456'), 'vector': lambda: sv.X_Y(1.0, 2.0),
             'gradient': lambda: sv.Gradient({0: '#000000', 1: '#ffffff'})}[other]()
        if kind=='composite' and rng.random()<0.7:
            return rng.choice([{'angle': x}, {'angle': 1.0, 'skew_angle': x}, {'offset': sv.Real(1.0)}, {'scale': sv.Angle(1.0)}, {'angle': 5.0, 'offset': sv.Color('#123456')},
                               {'scale': sv.String('(1, 1)')}])
        return x
    if kind in ('real', 'angle'):
        return rng.choice(['abc', '', '1.0.0', 'true', '1,5', '#ffffff'] + junk)
    if kind=='integer':
        return rng.choice(['abc', '', '1.5', 'true'] + junk[:4])
    if kind=='time':
        return rng.choice(['abc', '', '1x', '1s 2s', '5', 'f', '1s junk', '--1f', '1..5f', '1s -2f',
                           'now', '1f 1f', float('nan'), float('inf')] + junk[:4])
    if kind=='color':
        return rng.choice(['zzz', '#12345', '#1234567', 'ff', '', '#gggggg', 'red', (1, 2), (1, 2, 3, 4, 5),
                           ('a', 'b', 'c'), (None, 1, 2), 5, None, [1.0, 1.0, 1.0], {}, object(), (1,), '##ffffff', '#ffffff '])
    if kind=='vector':
        return rng.choice([(1,), (1, 2, 3), ('a', 'b'), 5, 'ab', {'x': 1}, {'x': 1, 'z': 2}, {'x': 1, 'y': 2, 'z': 3},
                           {'x': 'q', 'y': 1}, {'x': 1, 'y': None}, [1, 2], (1, None), object(), {'x': 1, 'y': [2]}, ('1', '2')])
    if kind=='gradient':
        return rng.choice([{}, {0: '#000000'}, 5, 'abc', None, [(0, '#000000'), (1, '#ffffff')],
                           {0: 'bad', 1: '#ffffff'}, {0: '#ffffff', 1: 'bad'}, {0: '#ffffff', 0.5: (1, 2), 1: '#000000'},
                           {'a': '#000000', 'b': '#ffffff'}, {0.5: '#ffffff', 0.5000000001: '#000000'}, object()])
    if kind=='composite':
        return rng.choice([5, 'abc', (1, 2), {'wombat': 1}, {'angle': 'abc'}, {'offset': (1,)}, {'scale': 5},
                           {'angle': 5, 'scale': 'bad'}, {'offset': (1, 2), 'wombat': 3},
                           {'angle': 10.0, 'offset': (3, 4), 'skew_angle': 'no', 'scale': (1, 1)},
                           {'scale': (9, 9), 'angle': [1]}, [('angle', 5)], object()])
    return None

# ---------------------------------------------------------------- locating

def attribute_name(param):
    """The Python attribute for a param, or None if it doesn't have one."""
    if '[' in param or '.' in param:
        return None
    return {'type': 'type_'}.get(param, param)

NO_ATTRIBUTE = {('halftone3', 'color')}

def editable(doc, kinds=model.EDITABLE):
    """Every (path, layer, param name, model value) that can be edited."""
    for path, layer, _ in doc.walk():
        for name, value in layer.params:
            if value.kind in kinds:
                yield path, layer, name, value

ROUTES = ['attribute', 'brackets', 'value']

def assign(layer, name, x, route):
    if route=='attribute':
        setattr(layer, attribute_name(name), x)
    elif route=='brackets':
        layer[name] = x
    elif route=='value':
        layer[name].value = x
    else:
        raise ValueError(route)

def fetch(layer, name, route):
    if route=='attribute':
        return getattr(layer, attribute_name(name))
    elif route=='brackets':
        return layer[name]
    elif route=='items':
        return dict(layer.items())[name]
    raise ValueError(route)

def routes(layer_type, name):
    if attribute_name(name) is None:
        return ROUTES[1:]
    return ROUTES

# -------------------------------------------------------------- random edits

def when(frames):
    """How to say that many frames: negative numbers would count from the end."""
    return frames if frames>=0 else '%.6ff' % frames

def waypoint(rng, animation, kind, fps, frames=None):
    """A new waypoint: (waypoint, (frames, before, after, value))."""
    x, want = good(rng, kind, fps, fps_known=False)
    f = frames if frames is not None else rng.choice([rng.randrange(0, 100), rng.randrange(0, 800)/8])
    b, a = rng.choice(list(model.SPELLINGS)), rng.choice(list(model.SPELLINGS))
    w = sv.Waypoint(time=when(f), value=V[kind](x), before=b, after=a)
    return w, (float(f), model.SPELLINGS[b], model.SPELLINGS[a], want)

def random_edit(case, animation, fps, doc=None):
    """
    Makes one legitimate edit at random, found by walking the animation itself.
    Returns a description.
    """
    rng = case.rng
    layers = []
    def walk(x):
        for c in x.children:
            layers.append(c)
            walk(c)
    walk(animation)
    groups = [animation] + [l for l in layers if isinstance(l, sangfroid.layer.Group)]
    r = rng.random()

    if r<0.12 or not layers:
        g = rng.choice(groups)
        t = rng.choice(['Circle', 'Text', 'Group', 'Rectangle', 'Star', 'Blur'])
        new = getattr(sangfroid.layer, t)()
        if len(g) and rng.random()<0.5:
            i = rng.randrange(-len(g), len(g))
            g.insert(i, new)
            return f'insert {t} at {i}'
        g.append(new)
        return f'append {t}'
    if r<0.2:
        l = rng.choice(layers)
        g = rng.choice(groups)
        cursor = g.tag
        while cursor is not None and cursor is not l.tag:
            cursor = cursor.parent
        if cursor is None:
            g.append(l)
            return 'move a layer'
    if r<0.3:
        l = rng.choice(layers)
        a = rng.choice(['active', 'exclude_from_rendering', 'desc'])
        x = rng.choice([True, False]) if a!='desc' else rng.choice([None, model.text(rng)])
        setattr(l, a, x)
        return f'{type(l).__name__}.{a} = {x!r}'
    if r<0.42:
        s = rng.choice(['width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'antialias',
                        'begin_time', 'end_time', 'bgcolor', 'name', 'desc', 'view_box'])
        if s in ('width', 'height', 'antialias'):
            x = rng.randrange(1, 2000)
        elif s in ('begin_time', 'end_time'):
            x = model.time_text(rng, fps)
        elif s=='bgcolor':
            x = ' '.join(model.unit(rng) for _ in 'rgba')
        elif s=='view_box':
            x = ' '.join('%.6f' % rng.uniform(-5, 5) for _ in range(4))
        elif s in ('name', 'desc'):
            x = model.text(rng)
        else:
            x = rng.choice([1.0, 2.2, rng.uniform(0.1, 5000)])
        setattr(animation, s, x)
        return f'animation.{s} = {x!r}'

    for _ in range(10):
        l = rng.choice(layers)
        params = [(k, v) for k, v in l.items() if obs.kind_of(v) in model.EDITABLE]
        if params:
            break
    else:
        return 'nothing'
    name, v = rng.choice(params)
    kind = obs.kind_of(v)
    if kind=='composite' and rng.random()<0.6:
        part = rng.choice(['offset', 'angle', 'skew_angle', 'scale'])
        x, _ = good(rng, 'vector' if part in ('offset', 'scale') else 'angle', fps)
        l[name] = {part: x}
        return f'{type(l).__name__}[{name!r}] = {{{part!r}: {x!r}}}'
    if kind!='composite' and rng.random()<0.4:
        r = rng.random()
        if r<0.2:
            v.is_animated = not v.is_animated
            return f'{type(l).__name__}[{name!r}].is_animated flipped'
        if r<0.6:
            w, _ = waypoint(rng, animation, kind, fps)
            v.timeline.add(w, overwrite=True)
            return f'{type(l).__name__}[{name!r}].timeline.add'
        if r<0.8 and v.is_animated:
            t = rng.choice(list(v.timeline.keys()))
            del v.timeline[t]
            return f'{type(l).__name__}[{name!r}] del timeline[{t}]'
        x, _ = good(rng, kind, fps)
        t = rng.randrange(0, 200)
        v.timeline[t] = x
        return f'{type(l).__name__}[{name!r}].timeline[{t}] = {x!r}'
    x, _ = good(rng, kind, fps)
    if rng.random()<0.5:
        l[name] = x
    else:
        v.value = x
    return f'{type(l).__name__}[{name!r}] = {x!r}'
