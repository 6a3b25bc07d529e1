"""
Random Synfig documents, with an independent account of what they mean.

Nothing here uses the code under test.
"""
import json
import os
from fractions import Fraction as Fr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(HERE, 'data', 'layer_spec.json')) as f:
    SPEC = json.load(f)

TYPES = sorted(SPEC)
SIMPLE = ('real', 'integer', 'bool', 'angle', 'time', 'string', 'color', 'vector', 'gradient')
EDITABLE = SIMPLE + ('composite',)

# ---------------------------------------------------------------- XML output

class Raw(str):
    """Markup, such as a comment."""

def esc_text(s, rng=None):
    out = []
    for c in s:
        if c=='&':
            out.append('&amp;')
        elif c=='<':
            out.append('&lt;')
        elif c=='>':
            out.append('&gt;')
        elif c=='\r':
            out.append('&#13;')
        elif rng is not None and rng.random()<0.02:
            out.append(f'&#x{ord(c):x};')
        else:
            out.append(c)
    return ''.join(out)

def esc_attr(s, q='"'):
    out = []
    for c in s:
        if c=='&':
            out.append('&amp;')
        elif c=='<':
            out.append('&lt;')
        elif c==q:
            out.append('&quot;' if q=='"' else '&apos;')
        elif c in '\r\n\t':
            out.append(f'&#{ord(c)};')
        else:
            out.append(c)
    return ''.join(out)

class E:
    """An XML element. Children are Es, strs and Raws."""
    __slots__ = ('name', 'attrs', 'kids', 'text')
    def __init__(self, name, attrs=(), kids=(), text=False):
        self.name, self.attrs, self.kids = name, list(dict(attrs).items()), list(kids)
        self.text = text     # contents are data: no layout may be added

    def out(self, w, depth, rng):
        w.append('<'+self.name)
        for k, v in self.attrs:
            q = "'" if rng.random()<0.05 else '"'
            w.append(f' {k}={q}{esc_attr(v, q)}{q}')
        if not self.kids:
            w.append('/>' if rng.random()<0.8 else f'></{self.name}>')
            return
        w.append('>')
        layout = not self.text
        for k in self.kids:
            if layout:
                w.append('\n'+'  '*(depth+1) if rng.random()<0.9 else '')
            if isinstance(k, Raw):
                w.append(k)
            elif isinstance(k, str):
                if rng.random()<0.03 and ']]>' not in k and '\r' not in k and k:
                    w.append(f'<![CDATA[{k}]]>')
                else:
                    w.append(esc_text(k, rng))
            else:
                k.out(w, depth+1, rng)
        if layout:
            w.append('\n'+'  '*depth)
        w.append(f'</{self.name}>')

# --------------------------------------------------------------------- times

def frames_of(spec, fps):
    """What a (well-formed) time specification means, in frames: exactly."""
    s = spec.strip()
    total, neg, first = Fr(0), False, True
    i = 0
    while i<len(s):
        while i<len(s) and s[i].isspace():
            i += 1
        j = i
        while s[j] in '-0123456789.':
            j += 1
        number = s[i:j]
        while s[j].isspace():
            j += 1
        unit = s[j]
        value = Fr(number)
        if first and number.startswith('-') and unit!='f':
            neg = True
        first = False
        size = {'h': 3600, 'm': 60, 's': 1}.get(unit)
        if neg:
            value = abs(value)
        total += value if size is None else value*size*Fr(fps)
        i = j+1
        while i<len(s) and s[i].isspace():
            i += 1
    return -total if neg else total

INTERPOLATIONS = ['tcb', 'clamped', 'constant', 'linear', 'ease']
SPELLINGS = {'auto': 'tcb', 'halt': 'ease', 'tcb': 'tcb', 'clamped': 'clamped',
             'constant': 'constant', 'linear': 'linear', 'ease': 'ease'}

def time_text(rng, fps, small=False):
    r = rng.random()
    if r<0.15:
        return rng.choice(['0f', '0s', '0s 0f'])
    if r<0.45:
        return f'{rng.randrange(0, 60 if small else 2000)}f'
    if r<0.6:
        return f'{rng.randrange(0, 9)}s'
    if r<0.85:
        return f'{rng.randrange(1, 9)}s {rng.randrange(0, max(1, int(fps)))}f'
    if r<0.92:
        return f'{rng.randrange(1, 4)}m {rng.randrange(0, 60)}s {rng.randrange(0, max(1, int(fps)))}f'
    if r<0.96:
        return f'{rng.randrange(0, 50)}.{rng.choice(["5", "25", "125"])}f'
    if r<0.98:
        return f'{rng.randrange(0, 9)}.5s'
    if r<0.99:
        return f'{rng.randrange(1, 30)}h {rng.randrange(0, 60)}m {rng.randrange(0, 60)}s {rng.randrange(0, max(1, int(fps)))}f'
    return rng.choice([f'{rng.randrange(10**5, 10**7)}f', f'{rng.randrange(1, 5)}h', f'{rng.randrange(1, 100)}m', f'{rng.randrange(0, 99)}.{rng.randrange(10**4, 10**5)}f',
                       f'{rng.randrange(1, 9)}h {rng.randrange(1, 60)}s'])

# ------------------------------------------------------------- hostile text

UNICODE = ['é', 'ß', 'Ω', '日本語', '🐨', '\u00a0', '\u2028', '\u0085', 'ı', 'İ', '\u200b', '\ufeff', '𝕋']
def text(rng, lines=True):
    """Legal XML text, of awkward kinds."""
    r = rng.random()
    if r<0.08:
        return ''
    if r<0.16:
        return ' '*rng.randrange(1, 4)
    if r<0.17:
        # long ones
        n = rng.choice([70, 200, 300, 1100, 5000])
        bits = ['word ', 'é', 'abc', '<', ' ', '&', '"', 'x'*20]
        if lines:
            bits += ['\t', '\n', 'a  b']
        return ''.join(rng.choice(bits) for _ in range(n))[:n]
    if r<0.4:
        return rng.choice(['circle', 'Hello world', 'bywords', 'x', '0', 'true', 'None', '-1', 'real'])
    alphabet = list('abcXYZ 019') + list('&<>"\'#;%{}[]()=/\\!?-_.,:') + UNICODE
    if lines:
        alphabet += ['\n', '\t', '\r', '\r\n', '  ', ']]>', '--', '<!--', '&amp;', '&#13;']
    return ''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, 14)))

def comment(rng):
    if rng.random()<0.1:
        return Raw('<?'+rng.choice(['pi some data', 'php echo "<layer>" ', 'x'])+'?>')
    return Raw('<!--' + rng.choice([' a comment ', 'x', ' <layer type="circle"/> ', ' é 🐨 ',
                                    ' param name="radius" ', 'multi\n line ']) + '-->')

def broken(rng, s):
    """Text, perhaps with a comment in the middle of it."""
    if s and rng.random()<0.015:
        i = rng.randrange(len(s)+1)
        # white space alone beside a comment is layout
        if s[i-1:i+1]!='\r\n' and all(x.strip() or not x for x in (s[:i], s[i:])):
            return [x for x in (s[:i], comment(rng), s[i:]) if x]
    return [s] if s else []

# -------------------------------------------------------------------- values

def num(rng):
    r = rng.random()
    if r<0.3:
        return '%.10f' % rng.uniform(-10, 10)
    if r<0.5:
        return str(rng.randrange(-5, 6))
    if r<0.52:
        return rng.choice(['123456789.125', '-98765432.1', '1e9', '100000', '0.3333333333', '-2.5E-4', '65536.0000000001', '.5', '-.25', '3.'])
    if r<0.6:
        return rng.choice(['0', '-0.0000000000', '1e-3', '1.5e3', '0.0000000001', '+2.5'])
    return '%.6f' % (rng.randrange(-4000, 4000)/rng.choice([7, 8, 100, 1000]))

def unit(rng):
    return '%.6f' % rng.choice([0, 1, 0.5, rng.random(), rng.randrange(256)/255])

class Value:
    """One value in a file, static or animated."""
    def __init__(self, kind, content=None, attrs=(), waypoints=None, children=None):
        self.kind = kind
        self.content = content        # as text
        self.attrs = dict(attrs)
        self.waypoints = waypoints    # [(time text, before, after, attrs, Value)]
        self.layers = children        # for canvases, in file order

    @property
    def animated(self):
        return self.waypoints is not None

    def element(self, rng):
        result = self._element(rng)
        if rng.random()<0.015 and (self.animated or self.kind in ('color', 'vector', 'gradient', 'composite')):
            target = result
            within = [k for k in result.kids if isinstance(k, E) and k.name in ('waypoint', 'offset', 'angle', 'skew_angle', 'scale')]
            if within and rng.random()<0.5:
                target = rng.choice(within)
            target.kids.insert(rng.randrange(len(target.kids)+1), comment(rng))
        return result

    def _element(self, rng):
        k = self.kind
        if self.animated:
            return E('animated', dict({'type': k}, **self.attrs), [
                E('waypoint', dict({'time': t, 'before': b, 'after': a}, **x), [v.element(rng)])
                for t, b, a, x, v in self.waypoints])
        c = self.content
        if k in ('real', 'integer', 'bool', 'angle', 'time'):
            return E(k, dict({'value': c}, **self.attrs))
        if k=='string':
            return E(k, self.attrs, broken(rng, c), text=True)
        if k=='color':
            return E(k, self.attrs, [E(d, (), [x], text=True) for d, x in zip('rgba', c)])
        if k=='vector':
            parts = list(zip('xy', c))
            if c[2:]:
                parts.reverse()
            return E(k, self.attrs, [E(d, (), [x], text=True) for d, x in parts])
        if k=='gradient':
            return E(k, self.attrs, [
                E('color', {'pos': p}, [E(d, (), [x], text=True) for d, x in zip('rgba', rgba)])
                for p, rgba in c])
        if k=='composite':
            return E(k, dict({'type': 'transformation'}, **self.attrs), [
                E(name, (), [v.element(rng)]) for name, v in c])
        if k=='canvas':
            kids = []
            for layer in self.layers:
                if rng.random()<0.05:
                    kids.append(comment(rng))
                kids.append(layer.element(rng))
            return E(k, self.attrs, kids)
        return c     # opaque: an element

    # what it means

    def meaning(self, fps):
        """
        As (kind, value) or (kind, 'animated', [(frames, before, after, value), ...] by time).
        """
        if self.animated:
            return (self.kind, 'animated', sorted(
                [(float(frames_of(t, fps)), SPELLINGS[b], SPELLINGS[a], v.meaning(fps)[1])
                 for t, b, a, x, v in self.waypoints], key=lambda w: w[0]))
        k, c = self.kind, self.content
        if k in ('real', 'angle'):
            return k, float(c)
        if k=='integer':
            return k, int(c)
        if k=='bool':
            return k, c.lower()=='true'
        if k=='time':
            return k, float(frames_of(c, fps))
        if k=='string':
            return k, c
        if k=='color':
            return k, tuple(float(x) for x in c)
        if k=='vector':
            return k, (float(c[0]), float(c[1]))
        if k=='gradient':
            return k, sorted([(float(p), tuple(float(x) for x in rgba)) for p, rgba in c])
        if k=='composite':
            return k, {name: v.meaning(fps) for name, v in c}
        if k=='canvas':
            return k, len(self.layers)
        return k, None


def static_value(rng, kind, fps):
    attrs = {}
    if rng.random()<0.1:
        attrs['guid'] = ''.join(rng.choice('0123456789ABCDEF') for _ in range(16))
    if rng.random()<0.1:
        attrs['static'] = 'true'
    if kind=='real':
        c = num(rng)
    elif kind=='angle':
        c = num(rng)
    elif kind=='integer':
        c = str(rng.randrange(-3, 25)) if rng.random()<0.95 else rng.choice(['2147483647', '-40000', '1000000', '4294967297'])
    elif kind=='bool':
        c = truth(rng)
    elif kind=='time':
        c = time_text(rng, fps)
    elif kind=='string':
        c = text(rng)
    elif kind=='color':
        c = tuple(unit(rng) for _ in 'rgba')
    elif kind=='vector':
        c = (num(rng), num(rng))
        if rng.random()<0.1:
            c = c + ('yx',)
    elif kind=='gradient':
        n = rng.randrange(2, 6) if rng.random()<0.95 else rng.choice([9, 16, 30])
        ps = set()
        while len(ps)<n:
            ps.add('%.6f' % rng.choice([0, 1, 0.5, rng.random()]))
        ps = sorted(ps)
        if rng.random()<0.4:
            rng.shuffle(ps)
        c = [(p, tuple(unit(rng) for _ in 'rgba')) for p in ps]
    elif kind=='composite':
        c = [('offset', value(rng, 'vector', fps, 0.15)),
             ('angle', value(rng, 'angle', fps, 0.15)),
             ('skew_angle', value(rng, 'angle', fps, 0.1)),
             ('scale', value(rng, 'vector', fps, 0.15))]
    else:
        raise ValueError(kind)
    return Value(kind, c, attrs)


def waypoints(rng, kind, fps, n=None):
    n = n or (rng.choice([1, 1, 2, 2, 3, 4, 6]) if rng.random()<0.96 else rng.choice([11, 20]))
    times = {}
    for _ in range(80):
        if len(times)>=n:
            break
        t = time_text(rng, fps, small=True)
        f = float(frames_of(t, fps))
        if all(abs(f-g)>0.01 for g in times):
            times[f] = t
    if rng.random()<0.06:
        # before the start
        t = rng.choice(['-1s', '-5f', '-2s 3f', '-12.5f', '-1m', '-30f', '-1f'])
        f = float(frames_of(t, fps))
        if all(abs(f-g)>0.01 for g in times):
            times[f] = t
    if rng.random()<0.06:
        # and one close to another
        f = rng.choice(list(times))
        g = Fr(times[f][:-1])+Fr(rng.choice([1, 2, 7]), 10**rng.choice([2, 3])) if times[f].endswith('f') and times[f].count('f')==1 and ' ' not in times[f] else None
        if g is not None and all(abs(float(g)-h)>0.0005 for h in times):
            times[float(g)] = ('%.6f' % float(g)).rstrip('0').rstrip('.')+'f'
    order = sorted(times)
    if rng.random()<0.3:
        rng.shuffle(order)
    result = []
    for f in order:
        x = {}
        if rng.random()<0.15:
            x['tension'] = '0.500000'
        if rng.random()<0.1:
            x['guid'] = 'ABCDEF'
        v = static_value(rng, kind, fps)
        if rng.random()<0.7:
            v.attrs = {}
        result.append((times[f], rng.choice(list(SPELLINGS)), rng.choice(list(SPELLINGS)), x, v))
    return result


def value(rng, kind, fps, animate=0.25):
    if kind in SIMPLE and rng.random()<animate:
        attrs = {}
        if rng.random()<0.1:
            attrs['guid'] = '0123456789ABCDEF'
        return Value(kind, None, attrs, waypoints(rng, kind, fps))
    return static_value(rng, kind, fps)


def opaque(rng, name):
    """A value of a kind nobody here understands."""
    def deep(d):
        if d==0:
            return E('real', {'value': num(rng)})
        return E(rng.choice(['entry', 'composite', 'vertex', 'width']),
                 {'type': 'bline_point', 'x': text(rng)} if rng.random()<0.5 else {},
                 [deep(d-1) for _ in range(rng.randrange(1, 3))])
    return Value(name, E(name, {'type': 'bline_point', 'loop': 'true'},
                         [deep(2) for _ in range(rng.randrange(0, 3))]))

# -------------------------------------------------------------------- layers

class Layer:
    def __init__(self, type_, attrs, params):
        self.type = type_
        self.attrs = attrs            # dict
        self.params = params          # [(name, Value)]
        self.notes = []               # extra things inside

    @property
    def canvas(self):
        for name, v in self.params:
            if name=='canvas' and v.kind=='canvas':
                return v
        return None

    @property
    def children(self):
        """In file order."""
        c = self.canvas
        return c.layers if c is not None else []

    def element(self, rng):
        kids = []
        for name, v in self.params:
            if rng.random()<0.03:
                kids.append(comment(rng))
            inner = [v.element(rng)]
            if rng.random()<0.02:
                inner.insert(rng.randrange(2), comment(rng))
            kids.append(E('param', {'name': name}, inner))
        kids += self.notes
        items = list(self.attrs.items())
        return E('layer', items, kids)


def spell(rng, t):
    """Another spelling of the name of a type."""
    r = rng.random()
    if r<0.85:
        return t
    if r<0.9:
        return t.upper()
    if r<0.95:
        return t.title()
    return t.replace('_', '') if '_' in t else t[:2]+'_'+t[2:]


NEARLY = ['desc2', 'description', 'desc_', 'DESC', 'inactive', 'active_', 'is_active', 'exclude', 'exclude_from_rendering_', 'type_', 'subtype', 'Version', 'version2', 'name', 'x-desc', 'value']

COMMON = ['circle', 'text', 'group', 'rectangle', 'star', 'blur', 'outline', 'polygon', 'linear_gradient',
          'radial_gradient', 'timeloop', 'solid_color', 'region', 'halftone2']
COMMON = [t for t in COMMON if t in SPEC]


def truth(rng, plain=False):
    """A boolean attribute. The case doesn't matter."""
    s = rng.choice(['true', 'false'])
    if not plain and rng.random()<0.08:
        s = rng.choice([s.upper(), s.title(), s[0]+s[1:].upper()])
    return s


def layer(rng, fps, depth=0, budget=None, plain=False, descs=True, types=None):
    budget = budget if budget is not None else [12]
    r = rng.random()
    if types is not None:
        t = rng.choice(types)
    elif r<0.3 and depth<4:
        t = 'group'
    elif r<0.7:
        t = rng.choice(COMMON)
    else:
        t = rng.choice(TYPES)
    spec = SPEC[t]

    attrs = {'type': t if plain else spell(rng, t)}
    if rng.random()<0.9:
        attrs['active'] = truth(rng, plain)
    if rng.random()<0.8:
        attrs['exclude_from_rendering'] = truth(rng, plain)
    if rng.random()<0.95:
        attrs['version'] = spec['version']
    if descs and rng.random()<0.6:
        attrs['desc'] = text(rng)
    if not plain and rng.random()<0.1:
        attrs['optimized'] = rng.choice(['true', 'véry'])
    if not plain and rng.random()<0.06:
        # nearly like others
        attrs[rng.choice(NEARLY)] = text(rng)
    if rng.random()<0.2:
        items = list(attrs.items())
        rng.shuffle(items)
        attrs = dict(items)

    few = rng.random()<0.4
    params = []
    for p in spec['params']:
        kind = p['kind']
        if kind=='canvas':
            if t=='group' or rng.random()<0.7:
                kids = []
                many = 5 if rng.random()<0.95 else 14
                while budget[0]>0 and depth<(4 if many==5 else 8) and rng.random()<(0.9 if many==14 else 0.75 if depth<2 else 0.5) and len(kids)<many:
                    budget[0] -= 1
                    kids.append(layer(rng, fps, depth+1, budget, plain, descs, types))
                params.append((p['name'], Value('canvas', attrs={} if rng.random()<0.5 else {'guid': 'F00D'},
                                                children=kids)))
            continue
        if few and rng.random()<0.6:
            continue
        if kind in EDITABLE:
            params.append((p['name'], value(rng, kind, fps)))
        elif kind!='opaque':
            params.append((p['name'], opaque(rng, kind)))
    if rng.random()<0.15:
        rng.shuffle(params)
    return Layer(t, attrs, params)

# ----------------------------------------------------------------- documents

FPS = ['24.000', '24', '25', '30.0', '12.000', '29.97', '60', '8', '1', '100', '23.976', '15', '50', '23.976024', '59.94', '120.000']

class Doc:
    def __init__(self, rng, layers=None, plain=False, size=12, types=None, fps=None, metas=True):
        self.rng = rng
        a = {}
        a['version'] = rng.choice(['1.2', '1.0', '1.1'])
        a['width'], a['height'] = str(rng.randrange(1, 4000)), str(rng.randrange(1, 4000))
        a['xres'], a['yres'] = '%.6f' % rng.uniform(1, 4000), rng.choice(['2834.645669', '2835'])
        for g in 'rgb':
            a['gamma-'+g] = rng.choice(['1.000000', '2.2', '0.45'])
        a['view-box'] = ' '.join('%.6f' % rng.uniform(-5, 5) for _ in range(4))
        a['antialias'] = str(rng.randrange(0, 4))
        a['fps'] = fps or rng.choice(FPS)
        a['begin-time'] = rng.choice(['0f', '0s', '0f', '10f', '1s', '1s 1f', '0f', '-1s', '-7f', '-1s 3f'])
        a['end-time'] = rng.choice(['5s', '100f', '12s 3f', '1m 5s', '2.5s'])
        a['bgcolor'] = ' '.join(unit(rng) for _ in 'rgba')
        if not plain:
            for k in list(a):
                if k not in ('fps', 'begin-time', 'end-time') and rng.random()<0.08:
                    del a[k]
            if rng.random()<0.1:
                a['mystery'] = text(rng)
            if rng.random()<0.05:
                # nearly like others
                a[rng.choice(['width2', 'view_box', 'viewbox', 'gamma', 'gamma_r', 'FPS', 'begin_time', 'start-time', 'end_time', 'end', 'name', 'desc', 'background', 'type', 'active', 'res'])] = text(rng)
        items = list(a.items())
        if rng.random()<0.3:
            rng.shuffle(items)
        self.attrs = dict(items)
        self.fps = Fr(self.attrs['fps'])
        self.name = text(rng, lines=not plain) if rng.random()<0.9 or plain else None
        self.desc = text(rng) if rng.random()<0.7 else None
        self.keyframes = []
        for _ in range(rng.randrange(0, 4) if rng.random()<0.95 else 12):
            self.keyframes.append((time_text(rng, self.fps),
                                   rng.choice(['true', 'true', 'false', None]),
                                   text(rng)))
        self.metas = [(f'meta{i}', text(rng)) for i in range(rng.randrange(0, 4))] if metas else []
        self.junk = not plain
        if layers is None:
            budget = [size if rng.random()<0.97 else size*3]
            layers = []
            while budget[0]>0 and (rng.random()<0.8 or not layers):
                budget[0] -= 1
                layers.append(layer(rng, self.fps, 0, budget, plain, types=types))
            if rng.random()<0.02 and (types is None or 'group' in types):
                # a long way down
                for _ in range(rng.randrange(5, 12)):
                    g = layer(rng, self.fps, 99, [0], plain, types=['group'])
                    g.canvas.layers = layers
                    layers = [g]
                    if rng.random()<0.2:
                        layers.insert(rng.randrange(2), layer(rng, self.fps, 99, [0], plain, types=types))
        self.layers = layers           # file order

    def element(self, rng):
        kids = []
        if self.name is not None:
            kids.append(E('name', (), broken(rng, self.name), text=True))
        if self.desc is not None:
            kids.append(E('desc', (), broken(rng, self.desc), text=True))
        for k, v in self.metas:
            kids.append(E('meta', {'name': k, 'content': v}))
        for t, active, name in self.keyframes:
            a = {'time': t}
            if active is not None:
                a['active'] = active
            kids.append(E('keyframe', a, broken(rng, name), text=True))
        if self.junk and rng.random()<0.3:
            kids.append(E('defs', (), [E('real', {'value': '1', 'id': text(rng)})]))
        if self.junk and rng.random()<0.2:
            kids.append(E(rng.choice(['bones', 'wombat', 'Mystery-Element', 'x.y']),
                          {'a': text(rng)}, [text(rng)] if rng.random()<0.5 else [E('inner')], text=True))
        for layer in self.layers:
            if self.junk and rng.random()<0.1:
                kids.append(comment(rng))
            kids.append(layer.element(rng))
        return E('canvas', self.attrs, kids)

    def xml(self, seed=None):
        """The file, as bytes. The same every time."""
        import random
        rng = random.Random(seed if seed is not None else 12345)
        w = []
        declaration = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>', '<?xml version="1.0"?>',
                                  "<?xml version='1.0' encoding='utf-8'?>"])
        w.append(declaration+'\n')
        if self.junk and rng.random()<0.2:
            w.append(comment(rng)+'\n')
        self.element(rng).out(w, 0, rng)
        w.append('\n')
        if self.junk and rng.random()<0.2:
            w.append(comment(rng)+'\n')
        return ''.join(w).encode('utf-8')

    def walk(self, reachable=True):
        """Every layer, in file order, as (path, Layer, parent), where path is
        the indexes of the layer and its parents among their siblings, as the API
        counts them (that is, from the end of the file).  Unless reachable is False,
        leaves out those inside layers which aren't groups: they can only be searched for."""
        def inner(layers, path, parent):
            n = len(layers)
            for i, l in enumerate(layers):
                p = path+(n-1-i,)
                yield p, l, parent
                if l.type=='group' or not reachable:
                    yield from inner(l.children, p, l)
        yield from inner(self.layers, (), None)
