"""C10: a new layer is complete, with its documented defaults."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule, probe
from .common import *

rule('C10', '''
Every kind of layer is made from nothing, in fresh and in well-used processes, and judged against a specification taken from a file which Synfig itself
wrote (type name, version, params, each once, kinds, defaults); then put somewhere in a random animation, saved, reopened, and judged again.
Pairs and triples of new layers, of the same and other kinds: one is edited at random, in every way, while the
others, and layers made afterwards, are watched for change. Non-trivial: every case; distinct by kind of layer and edits.''',
     required=['new layers judged', 'params judged', 'reopened layers judged', 'edits with bystanders', 'layers made after edits'] +
     [f'made {t}' for t in model.TYPES],
     assumptions=['data/layer_spec.json, from a file written by Synfig, is what the layers should be'])

# Params of kinds which are not implemented, which new layers don't have;
# and those which are in the known findings.
WITHOUT = {'bline', 'dynamic_list', 'static_list', 'wplist', 'dilist', 'opaque'}
EXCEPT = {('switch', 'canvas')}
ARRAYS = {('outline', 'round_tip'), ('halftone3', 'color')}


def class_name(t):
    return '_'.join(w.capitalize() for w in t.split('_'))


def make(case, t):
    rng = case.rng
    cls = sangfroid.layer.Layer.handles_type.from_name(t)
    r = rng.random()
    if r<0.4:
        by_name = [c for c in vars(sangfroid.layer).values() if isinstance(c, type) and c.__name__.lower()==t]
        if by_name:
            case.check(by_name==[cls], f'{t} is made by {cls}, but found by name as {by_name}')
    return cls()


def wanted(t):
    """name -> (kind, default)"""
    return {p['name']: (p['kind'], p['default']) for p in model.SPEC[t]['params']
            if p['kind'] not in WITHOUT and (t, p['name']) not in EXCEPT and '[' not in p['name']}


def default_meaning(kind, d, fps):
    if kind=='time':
        return kind, float(model.frames_of(d, fps or 24))
    if kind in ('color', 'vector'):
        return kind, tuple(d)
    if kind=='gradient':
        return kind, sorted((p, tuple(c)) for p, c in d)
    if kind=='composite':
        return kind, {k: ('vector', tuple(v)) if isinstance(v, list) else ('angle', v) for k, v in d.items()}
    if kind=='canvas':
        return kind, 0
    return kind, d


def judge(case, layer, t, fps, what, attached):
    names = [p.get('name') for p in obs.elements(layer.tag) if p.name=='param']
    case.check(len(names)==len(set(names)), f'{what} has a param twice', names)
    want = wanted(t)
    extra = set(names)-set(want)-{n for tt, n in ARRAYS if tt==t}
    case.check(set(want)<=set(names) and not extra, f'{what} has the wrong params',
               f'missing: {sorted(set(want)-set(names))}', f'extra: {sorted(extra)}')
    case.check(all(k.name=='param' for k in obs.elements(layer.tag)), f'{what} holds something else than params')
    case.equal(layer.tag.name, 'layer', what)
    case.equal(layer.tag.get('type'), t, f'{what} has another type name')
    case.equal(layer.tag.get('version'), model.SPEC[t]['version'], f'{what} has another version')
    case.equal(layer.version, float(model.SPEC[t]['version']), f'{what} reads as another version')
    case.equal(layer.active, True, f'{what} is not active')
    case.equal(layer.exclude_from_rendering, False, f'{what} is not rendered')
    case.equal(layer.desc, None, f'{what} has a description')
    case.equal(type(layer).__name__, type(sangfroid.layer.Layer.handles_type.from_name(t)()).__name__, f'{what} is another kind')
    for n, (kind, d) in want.items():
        v = layer[n]
        case.equal(obs.kind_of(v), kind, f'{what}[{n!r}] has another kind')
        case.check(not v.is_animated, f'{what}[{n!r}] is animated')
        if kind=='time' and not attached and not d.startswith('0'):
            # it can't be read without knowing the frame rate
            case.equal(model.frames_of(v.tag.get('value'), 24), model.frames_of(d, 24), f'{what}[{n!r}] has another default')
            continue
        w = default_meaning(kind, d, fps)
        got = obs.read(v)
        case.check(obs.same(got, w), f'{what}[{n!r}] has another default', f'got {got}', f'want {w}')
        a = ops.attribute_name(n)
        got = obs.read(getattr(layer, a))
        case.check(obs.same(got, w), f'{what}.{a} has another default', f'got {got}', f'want {w}')
        case.saw('params judged')
    case.saw('new layers judged')


@workload('C10', 4*len(model.TYPES), 60*len(model.TYPES))
def defaults(case):
    rng = case.rng
    t = model.TYPES[case.index%len(model.TYPES)]
    what = f'a new {t}'
    layer = make(case, t)
    case.saw(f'made {t}')
    case.check(layer.tag.parent is None and layer.parent is None, f'{what} is already somewhere')
    judge(case, layer, t, None, what, attached=False)

    if rng.random()<0.5:
        animation, fps = sangfroid.Animation(), model.Fr(24)
    else:
        doc, animation = document(case, size=4, types=['group', 'circle', t])
        fps = doc.fps
    groups = [animation]+animation.find_all('group', recursive=True)
    groups = [g for g in groups if g is animation or reachable(animation, g)]
    g = rng.choice(groups)
    if len(g) and rng.random()<0.5:
        g.insert(rng.randrange(len(g)), layer)
    else:
        g.append(layer)
    judge(case, layer, t, fps, f'{what}, in an animation', attached=True)
    where = obs.epath(animation.tag, layer.tag)
    fn = case.path(rng.choice(['a.sif', 'b.sifz']))
    animation.save(fn)
    again = sangfroid.open(fn)
    tag = obs.eat(again.tag, where)
    found = [l for l in again.find_all(True) if l.tag is tag]
    case.equal(len(found), 1, f'{what} can not be found after reopening')
    judge(case, found[0], t, fps, f'{what}, reopened', attached=True)
    case.saw('reopened layers judged')
    case.did(t, 'in', type(g).__name__, str(where))
    case.distinct((t, where))


def reachable(animation, g):
    cursor = g.tag.parent
    while cursor is not None and cursor is not animation.tag:
        if cursor.name=='layer' and cursor.get('type', '').lower().replace('_', '')!='group':
            return False
        cursor = cursor.parent
    return True


def mutate(case, layer, t, attached):
    """Edits a layer somehow. Returns a description."""
    rng = case.rng
    r = rng.random()
    if r<0.15:
        a = rng.choice(['active', 'exclude_from_rendering', 'desc'])
        x = {'active': False, 'exclude_from_rendering': True, 'desc': 'edited'}[a]
        setattr(layer, a, x)
        return f'{a} = {x!r}'
    want = {n: k for n, (k, d) in wanted(t).items()}
    if not want:
        layer.desc = 'edited'
        return 'desc'
    n = rng.choice(list(want))
    kind = want[n]
    v = rng.choice([lambda: layer[n], lambda: getattr(layer, ops.attribute_name(n))])()
    if kind=='canvas':
        if isinstance(layer, sangfroid.layer.Group):
            layer.append(sangfroid.layer.Circle())
            return 'append a circle'
        layer.desc = 'x'
        return 'desc'
    if kind=='composite':
        part = rng.choice(['offset', 'scale', 'angle'])
        x, _ = ops.good(rng, 'angle' if part=='angle' else 'vector', 24)
        if rng.random()<0.5:
            v[part].value = x
        elif rng.random()<0.5:
            v[part].is_animated = True
        else:
            layer[n] = {part: x}
        return f'{n}.{part} = {x!r}'
    if kind=='gradient' and rng.random()<0.5:
        list(v.values())[0].value = '#123456'
        return f'{n}: first colour'
    if kind!='time' and rng.random()<0.4:
        if rng.random()<0.5:
            v.is_animated = True
            return f'{n}.is_animated'
        w, _ = ops.waypoint(rng, None, kind, 24)
        v.timeline.add(w, overwrite=True)
        return f'{n}.timeline.add'
    x, _ = ops.good(rng, kind, 24, fps_known=attached)
    ops.assign(layer, n, x, rng.choice(ops.ROUTES))
    return f'{n} = {x!r}'


@workload('C10', 700, 16000)
def sharing(case):
    rng = case.rng
    t = rng.choice(model.TYPES)
    u = rng.choice([t, t, rng.choice(model.TYPES)])
    layers = [(make(case, x), x) for x in [t, u] + rng.choice([[], [t]])]
    pristine = {x: obs.tree_of_tag(make(case, x).tag) for x in (t, u)}
    for l, x in layers:
        case.check(obs.tree_of_tag(l.tag)==pristine[x], f'two new layers of kind {x} differ')
    animation = sangfroid.Animation()
    attached = rng.random()<0.5
    if attached:
        for l, x in layers:
            animation.append(l)
    trees = [obs.tree_of_tag(l.tag) for l, x in layers]
    for _ in range(rng.choice([2, 5, 9])):
        i = rng.randrange(len(layers))
        l, x = layers[i]
        e = mutate(case, l, x, attached)
        case.did(f'{x} #{i}: {e}')
        for j, (m, y) in enumerate(layers):
            if j!=i:
                now = obs.tree_of_tag(m.tag)
                case.check(now==trees[j], f'editing {x} #{i} ({e}) changed {y} #{j}', obs.diff(trees[j], now) or '')
        trees[i] = obs.tree_of_tag(l.tag)
        case.saw('edits with bystanders')
    for x in {t, u}:
        now = obs.tree_of_tag(make(case, x).tag)
        case.check(now==pristine[x], f'a {x} made after those edits is different', obs.diff(pristine[x], now) or '')
        judge(case, make(case, x), x, None, f'a {x} made after those edits', attached=False)
        case.saw('layers made after edits')
    case.distinct(case.log)


@workload('C10', 60, 600)
def text_layers(case):
    """Text layers can be made with their text."""
    rng = case.rng
    s = model.text(rng)
    l = sangfroid.layer.Text(s)
    case.equal(l.text.value, s, 'Text(...) has another text')
    case.equal(l['text'].value, s, 'Text(...) has another text')
    other = sangfroid.layer.Text()
    judge(case, other, 'text', None, 'a new text layer', False)
    a = obs.tree_dropping(l.tag, drop=[obs.epath(l.tag, l['text'].tag)])
    b = obs.tree_dropping(other.tag, drop=[obs.epath(other.tag, other['text'].tag)])
    case.check(a==b, 'Text(...) differs from Text() in something else', obs.diff(b, a) or '')
    case.distinct(s)


@probe('array-params-new')
def array_params_new():
    """A new Outline has the param round_tip, where Synfig has round_tip[0] and round_tip[1]."""
    return 'round_tip[0]' not in sangfroid.layer.Outline() or 'color[0]' not in sangfroid.layer.Halftone3()
