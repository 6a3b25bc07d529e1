"""
Observers.

- tree_of_bytes: what a file says, according to expat (nothing of the code under test,
  nor of the libraries it uses).
- tree_of_tag: the same, of the document in memory.
- readout: everything which can be read from an animation through its public API.
- links: a sanitizer for the document tree in memory.
"""
import gzip
import math
from xml.parsers import expat
import bs4
import sangfroid
import sangfroid.value as sv

# elements whose text is data, even if it's blank
TEXTUAL = {'string', 'name', 'desc', 'keyframe'}

# ---------------------------------------------------------------- documents

class Node:
    __slots__ = ('name', 'attrs', 'kids')
    def __init__(self, name, attrs):
        self.name, self.attrs, self.kids = name, attrs, []

def freeze(name, attrs, kids, keep_comments=True):
    """
    A canonical form: (name, sorted attributes, contents), where the contents are
    elements, non-blank text, and comments; blank text counts only in elements
    which hold nothing but text, of the kinds whose text is data.
    """
    out = []
    pending = []
    def flush():
        if pending:
            s = ''.join(pending)
            pending.clear()
            out.append(s)
    for k in kids:
        if isinstance(k, str):
            pending.append(k)
        else:
            flush()
            out.append(k)
    flush()
    if not (name in TEXTUAL and all(isinstance(k, str) for k in out)):
        out = [k for k in out if not isinstance(k, str) or k.strip(' \t\r\n')!='']
    elif out==['']:
        out = []
    return (name, tuple(sorted(attrs.items())), tuple(out))

def tree_of_bytes(data):
    """Parses the contents of a .sif or .sifz file. May raise expat.ExpatError."""
    if data[:2]==b'\x1f\x8b':
        data = gzip.decompress(data)
    root = Node('#document', {})
    stack = [root]

    p = expat.ParserCreate()
    p.buffer_text = True

    def start(name, attrs):
        stack.append(Node(name, attrs))
    def end(name):
        n = stack.pop()
        stack[-1].kids.append(freeze(n.name, n.attrs, n.kids))
    def chars(s):
        stack[-1].kids.append(s)
    def comment(s):
        stack[-1].kids.append(('#comment', s))
    def pi(target, s):
        stack[-1].kids.append(('#pi', target, s))
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler, p.CommentHandler = chars, comment
    p.ProcessingInstructionHandler = pi
    p.Parse(data, True)
    return freeze('#document', {}, root.kids)

def tree_of_file(filename):
    with open(filename, 'rb') as f:
        return tree_of_bytes(f.read())

def tree_of_tag(tag, hole=None):
    """
    The same canonical form, of an element in memory.  If hole is a tuple of
    indexes, the element at that path is left out.
    """
    kids = []
    i = 0
    for k in tag.contents:
        if isinstance(k, bs4.Tag):
            if hole is not None and hole[0]==i:
                if len(hole)==1:
                    kids.append(('#hole',))
                else:
                    kids.append(tree_of_tag(k, hole[1:]))
            else:
                kids.append(tree_of_tag(k))
            i += 1
        elif isinstance(k, bs4.Comment):
            kids.append(('#comment', str(k)))
        elif isinstance(k, bs4.ProcessingInstruction):
            target, _, data = str(k).partition(' ')
            kids.append(('#pi', target, data))
        elif isinstance(k, (bs4.Doctype, bs4.Declaration)):
            kids.append(('#'+type(k).__name__, str(k)))
        else:
            kids.append(str(k))
    return freeze(tag.name, {k: v if isinstance(v, str) else f'({type(v).__name__}){v}'
                             for k, v in tag.attrs.items()}, kids)

def elements(tag):
    return [k for k in tag.contents if isinstance(k, bs4.Tag)]

def diff(a, b, path=''):
    """Where two canonical forms first differ, in words."""
    if a==b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a)==3 and len(b)==3
            and not a[0].startswith('#') or (isinstance(a, tuple) and isinstance(b, tuple)
                                             and a[0]==b[0]=='#document')):
        return f'{path}: {a!r:.300} -> {b!r:.300}'
    if a[0]!=b[0]:
        return f'{path}: <{a[0]}> -> <{b[0]}>'
    here = f'{path}/{a[0]}'
    name = dict(a[1]).get('name') or dict(a[1]).get('type')
    if name:
        here += f'[{name}]'
    if a[1]!=b[1]:
        x, y = dict(a[1]), dict(b[1])
        return f'{here}: attributes ' + '; '.join(
                f'{k}: {x.get(k)!r} -> {y.get(k)!r}' for k in sorted(set(x)|set(y))
                if x.get(k)!=y.get(k))
    if len(a[2])!=len(b[2]):
        for i, (p, q) in enumerate(zip(a[2], b[2])):
            if p!=q:
                return (f'{here}: {len(a[2])} -> {len(b[2])} contents; first at {i}: '
                        f'{p!r:.300} -> {q!r:.300}')
        return (f'{here}: {len(a[2])} -> {len(b[2])} contents: extra '
                f'{(a[2]+b[2])[min(len(a[2]), len(b[2]))]!r:.300} / {a[2][len(b[2]):]!r:.300} -> {b[2][len(a[2]):]!r:.300}')
    for i, (p, q) in enumerate(zip(a[2], b[2])):
        if p!=q:
            return diff(p, q, f'{here}')
    return f'{here}: differ'

def links(root):
    """
    Sanitizer for the tree in memory: checks that everything in it
    is linked up consistently. Returns None or a description of the damage.
    """
    top = root
    while top.parent is not None:
        top = top.parent
    order = []
    def walk(t):
        order.append(t)
        if not isinstance(t, bs4.Tag):
            return None
        previous = None
        for k in t.contents:
            if k.parent is not t:
                return f'a child of <{t.name}> has another parent: {k!r:.200}'
            if k.previous_sibling is not previous:
                return f'previous_sibling is wrong inside <{t.name}>: {k!r:.200}'
            if previous is not None and previous.next_sibling is not k:
                return f'next_sibling is wrong inside <{t.name}>: {previous!r:.200}'
            previous = k
            problem = walk(k)
            if problem:
                return problem
        if previous is not None and previous.next_sibling is not None:
            return f'the last child of <{t.name}> has a sibling'
        return None
    problem = walk(top)
    if problem:
        return problem
    seen = set()
    for x in order:
        if id(x) in seen:
            return f'something is in the tree twice: {x!r:.200}'
        seen.add(id(x))
    if isinstance(top, bs4.BeautifulSoup):
        order = order[1:]     # the library doesn't link this one up
    if not order:
        return None
    cursor, previous = order[0], None
    for x in order:
        if cursor is not x:
            return f'next_element is wrong after {previous!r:.200}'
        previous, cursor = cursor, cursor.next_element
    if cursor is not None:
        return 'the chain of elements goes on past the end of the tree'
    return None

# ------------------------------------------------------------------ readout

KIND = [
        (sv.BlendMethod, 'integer'), (sv.Real, 'real'), (sv.Integer, 'integer'),
        (sv.Bool, 'bool'), (sv.Angle, 'angle'), (sv.Time, 'time'), (sv.String, 'string'),
        (sv.Color, 'color'), (sv.Vector, 'vector'), (sv.Gradient, 'gradient'),
        (sv.Transformation, 'composite'), (sv.Canvas, 'canvas'),
        (sv.Bline, 'bline'), (sv.Dynamic_List, 'dynamic_list'), (sv.Static_List, 'static_list'),
        (sv.Wplist, 'wplist'), (sv.Dilist, 'dilist'),
        ]

def kind_of(v):
    for cls, kind in KIND:
        if isinstance(v, cls):
            return kind
    return type(v).__name__

def static_of(v):
    """The value of a static Value, as a plain Python object."""
    kind = kind_of(v)
    if kind in ('real', 'angle', 'integer', 'bool', 'string'):
        return v.value
    if kind=='time':
        return v.value.frames
    if kind=='color':
        return v.as_tuple()
    if kind=='vector':
        return v.as_tuple()
    if kind=='gradient':
        return [(p, c.as_tuple()) for p, c in v.value.items()]
    if kind=='composite':
        return {k: read(x) for k, x in v.value.items()}
    if kind=='canvas':
        return len(v.value)
    return None

def read(v):
    """A Value, in the same form as model.Value.meaning()."""
    kind = kind_of(v)
    if v.is_animated:
        return (kind, 'animated', [
            (w.time.frames, w.before, w.after, static_of(w.value)) for w in v.timeline])
    return kind, static_of(v)

def attempt(fn):
    """The result of reading something, or the kind of error it raised."""
    try:
        return fn()
    except Exception as e:
        return ('#error', type(e).__name__)

SETTINGS = ['version', 'width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b',
            'view_box', 'antialias', 'fps', 'begin_time', 'end_time', 'bgcolor', 'name', 'desc',
            'size', 'viewbox', 'framecount', 'background']

def setting(animation, name):
    x = getattr(animation, name)
    if isinstance(x, sangfroid.T):
        return ('T', x.frames)
    if isinstance(x, sv.Color):
        return x.as_tuple()
    return x

def settings(animation):
    result = {s: attempt(lambda: setting(animation, s)) for s in SETTINGS}
    result['keyframes'] = attempt(
            lambda: [(k.time.frames, k.name, k.active) for k in animation.keyframes])
    return result

def layer_head(layer):
    return {a: attempt(lambda: getattr(layer, a)) for a in
            ('version', 'active', 'exclude_from_rendering', 'desc')} | {
            'class': type(layer).__name__,
            'type': attempt(lambda: layer.tag['type'])}

def layer_params(layer):
    """By name, as they are in items()."""
    return {name: attempt(lambda: read(value)) for name, value in layer.items()}

def layer_readout(layer):
    return dict(
            head=layer_head(layer),
            params=attempt(lambda: layer_params(layer)),
            children=attempt(lambda: [layer_readout(c) for c in layer.children]),
            )

def readout(animation):
    return dict(
            settings=settings(animation),
            layers=[layer_readout(c) for c in animation.children],
            )

def at(animation, path):
    """The layer at a path of indexes."""
    cursor = animation
    for i in path:
        cursor = list(cursor.children)[i]
    return cursor

# --------------------------------------------------------------- comparison

TOLERANCE = {'real': 1e-9, 'vector': 1e-9, 'angle': 1e-9, 'color': 1.01e-6,
             'time': 1.01e-6, 'gradient': 1.01e-6, 'frames': 1.01e-6}

def near(a, b, tolerance):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a)==len(b) and all(near(x, y, tolerance) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a)==type(b) and a==b
    if a is None or b is None:
        return a is b
    if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    return abs(a-b)<=tolerance+1e-11*max(abs(a), abs(b))

def same_static(kind, a, b):
    if kind=='composite':
        return (isinstance(a, dict) and isinstance(b, dict) and set(a)==set(b)
                and all(same(a[k], b[k]) for k in a))
    if kind in ('string', 'bool', 'integer', 'canvas'):
        return a==b and type(a)==type(b)
    return near(a, b, TOLERANCE.get(kind, 0))

def same(a, b):
    """Whether two readings are of equal values, to the precision files keep."""
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a)!=len(b) or a[0]!=b[0]:
        return False
    if a[0]=='#error':
        return a==b
    if len(a)==3:
        return len(a[2])==len(b[2]) and all(
                near(x[0], y[0], TOLERANCE['frames']) and x[1:3]==y[1:3]
                and same_static(a[0], x[3], y[3])
                for x, y in zip(a[2], b[2]))
    return same_static(a[0], a[1], b[1])

def compare_readouts(a, b, path=''):
    """None if they're equal, or else what differs."""
    if type(a)!=type(b):
        return f'{path}: {a!r:.300} -> {b!r:.300}'
    if isinstance(a, dict):
        if list(a)!=list(b):
            return f'{path}: keys {list(a)!r:.300} -> {list(b)!r:.300}'
        for k in a:
            d = compare_readouts(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a)!=len(b):
            return f'{path}: {len(a)} -> {len(b)}: {a!r:.300} -> {b!r:.300}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = compare_readouts(x, y, f'{path}/{i}')
            if d:
                return d
        return None
    if isinstance(a, tuple) and len(a)==3 and a[1]=='animated':
        if not same(a, b):
            return f'{path}: {a!r:.300} -> {b!r:.300}'
        return None
    if isinstance(a, float) and math.isnan(a) and math.isnan(b):
        return None
    if a!=b:
        if isinstance(a, tuple) and (same(a, b) or near(a, b, 1e-9)):
            return None
        if isinstance(a, float) and near(a, b, 1e-9):
            return None
        return f'{path}: {a!r:.300} -> {b!r:.300}'
    return None

# ---------------------------------------------------------------- locations

def epath(root, tag):
    """Where an element is below another, as the indexes of elements."""
    path = []
    while tag is not root:
        parent = tag.parent
        if parent is None:
            return None
        for i, k in enumerate(elements(parent)):
            if k is tag:
                path.append(i)
        tag = parent
    return tuple(reversed(path))

def eat(root, path):
    """The element at such a path."""
    for i in path:
        root = elements(root)[i]
    return root

def tree_dropping(tag, drop=(), attrs=()):
    """
    The canonical form of an element, without some of the elements below it,
    and without some attributes: drop and attrs hold element paths, and pairs of an element path
    and the name of an attribute.
    """
    drop, attrs = set(drop), set(attrs)
    def inner(t, path):
        kids = []
        i = 0
        for k in t.contents:
            if isinstance(k, bs4.Tag):
                if path+(i,) not in drop:
                    kids.append(inner(k, path+(i,)))
                i += 1
            elif isinstance(k, bs4.Comment):
                kids.append(('#comment', str(k)))
            elif isinstance(k, bs4.ProcessingInstruction):
                target, _, data = str(k).partition(' ')
                kids.append(('#pi', target, data))
            else:
                kids.append(str(k))
        return freeze(t.name, {a: v if isinstance(v, str) else f'({type(v).__name__}){v}'
                               for a, v in t.attrs.items() if (path, a) not in attrs}, kids)
    return inner(tag, ())

def exact(tag):
    """Everything about an element: not only what's in it, but how it's laid out."""
    top = tag
    while top.parent is not None:
        top = top.parent
    def inner(t):
        return (t.name, tuple((k, str(v)) for k, v in t.attrs.items()),
                tuple(inner(k) if isinstance(k, bs4.Tag) else (type(k).__name__, str(k)) for k in t.contents))
    return inner(top)
