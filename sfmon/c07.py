"""C07: what you assign is what you read back."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

REQUIRED = ['blend_method by constant', 'read back after reopening', 'layer attributes', 'values outside documents',
            'new layers', 'times as T', 'times from the end', 'shortcuts', 'Values assigned'] + [
        f'{kind} by {route} when {state}' for kind in model.EDITABLE for route in ops.ROUTES
        for state in (('static', 'animated') if kind!='composite' else ('static',))]

rule('C07', '''
Assignments of random acceptable values of every kind, by every route, to random static and animated params of random documents and of
new layers; then read back by every route (attribute, brackets, items, comparison), before and after saving and reopening,
against what the assigned thing itself says. Non-trivial: every assignment; distinct by place, route and value.''',
     required=REQUIRED)


def hand_over(case, rng, kind, x, want, animation, fps):
    """Sometimes, another way of giving the same thing."""
    r = rng.random()
    if kind=='time':
        if r<0.2 and want>=0:
            case.saw('times as T')
            return sangfroid.T(x, ref=animation.tag), want
        if r<0.3:
            begin = model.frames_of(animation.tag['begin-time'], fps)
            end = model.frames_of(animation.tag['end-time'], fps)
            k = rng.choice([1, 2, 10, rng.randrange(1, 50)])
            case.saw('times from the end')
            return -k, float(end-begin+1-k)
        if r<0.4 and isinstance(x, (int, float)):
            case.saw('Values assigned')
            return sv.Time(x), want
        return x, want
    if r<0.2:
        case.saw('Values assigned')
        return ops.V[kind](x), want
    return x, want


def read_back(case, layer, type_, name, kind, want, what):
    for route in ['brackets', 'items'] + (['attribute'] if ops.attribute_name(name) else []):
        v = ops.fetch(layer, name, route)
        case.check(not v.is_animated, f'{what}: still animated, by {route}')
        got = obs.kind_of(v), obs.static_of(v)
        case.check(obs.same(got, (kind, want)), f'{what}: reads back otherwise, by {route}', f'got {got}', f'want {(kind, want)}')
        case.equal(len(v.timeline), 0, f'{what}: there are still waypoints')


def compare_value(case, layer, name, kind, x, want, what):
    """The value should also compare equal to what was assigned."""
    v = layer[name]
    if isinstance(x, sv.Value):
        return
    if kind in ('real', 'integer', 'bool', 'string', 'color'):
        case.check(v==x, f'{what}: does not compare equal', v)
    elif kind=='angle':
        case.check(v==float(x), f'{what}: does not compare equal', v)
    case.saw('compared with ==')


@workload('C07', 2200, 50000)
def params(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5, 8]))
    fps = doc.fps
    sites = list(ops.editable(doc))
    if not sites:
        return
    kinds = {}
    for s in sites:
        kinds.setdefault((s[3].kind, s[3].animated), []).append(s)
    assigned = {}
    for _ in range(rng.choice([1, 3, 6])):
        path, mlayer, name, mvalue = rng.choice(kinds[rng.choice(list(kinds))])
        layer = obs.at(animation, path)
        kind = mvalue.kind
        x, want = ops.good(rng, kind, fps)
        x, want = hand_over(case, rng, kind, x, want, animation, fps)
        route = rng.choice(ops.routes(mlayer.type, name))
        state = 'animated' if layer[name].is_animated else 'static'
        if kind=='composite':
            state = 'static'
        if route=='value' and isinstance(x, sv.Value) and kind=='composite':
            x = x.value
        what = f'{mlayer.type}{path}.{name} ({state}) = {x!r} by {route}'
        case.did(what)
        if name=='blend_method' and not isinstance(x, sv.Value) and rng.random()<0.7:
            x = want = rng.choice([sv.BlendMethod.ADD, sv.BlendMethod.SCREEN, sv.BlendMethod.ONTO, sv.BlendMethod.COMPOSITE])
            case.saw('blend_method by constant')
        held = ops.fetch(layer, name, 'brackets')      # an earlier handle
        ops.assign(layer, name, x, route)
        read_back(case, layer, mlayer.type, name, kind, want, what)
        compare_value(case, layer, name, kind, x, want, what)
        if route!='brackets' or not isinstance(x, sv.Value):
            case.check(obs.same(obs.read(held), (kind, want)), f'{what}: an earlier handle reads otherwise',
                       obs.read(held), (kind, want))
        assigned[path, name] = (mlayer.type, kind, want, what)
        case.saw(f'{kind} by {route} when {state}')
        case.distinct(what)
    if rng.random()<0.5:
        fn = case.path(rng.choice(['out.sif', 'out.sifz']))
        animation.save(fn)
        again = sangfroid.open(fn)
        for (path, name), (t, kind, want, what) in assigned.items():
            read_back(case, obs.at(again, path), t, name, kind, want, what+', after reopening')
            case.saw('read back after reopening')


@workload('C07', 500, 10000)
def attributes(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5]))
    done = {}
    for _ in range(rng.choice([2, 5])):
        path, mlayer, _ = rng.choice(list(doc.walk()))
        layer = obs.at(animation, path)
        a = rng.choice(['active', 'exclude_from_rendering', 'desc', 'desc'])
        if a=='desc':
            given = x = rng.choice([None, '', model.text(rng), model.text(rng)])
        else:
            x = rng.choice([True, False])
            given = rng.choice([x, x, x, int(x), float(x), sv.Bool(x)])
        what = f'{mlayer.type}{path}.{a} = {given!r}'
        case.did(what)
        setattr(layer, a, given)
        for l in (layer, obs.at(animation, path)):
            case.equal(getattr(l, a), x, what)
            case.check(type(getattr(l, a))==type(x), f'{what}: another type')
        done[path, a] = (x, what)
        case.saw('layer attributes')
        case.distinct(what)
    fn = case.path(rng.choice(['out.sif', 'out.sifz']))
    animation.save(fn)
    again = sangfroid.open(fn)
    for (path, a), (x, what) in done.items():
        case.equal(getattr(obs.at(again, path), a), x, what+', after reopening')
        case.saw('read back after reopening')


@workload('C07', 500, 10000)
def shortcuts(case):
    rng = case.rng
    doc, animation = document(case, types=['group', 'group', 'circle'], size=5)
    parts = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}
    groups = [(p, l) for p, l, _ in doc.walk() if l.type=='group' and any(n=='transformation' for n, _ in l.params)]
    done = {}
    if not groups:
        return
    for _ in range(4):
        path, mlayer = rng.choice(groups)
        layer = obs.at(animation, path)
        part = rng.choice(list(parts))
        x, want = ops.good(rng, parts[part], doc.fps)
        how = rng.choice(['shortcut', 'brackets', 'attribute', 'handle'])
        what = f'{path}.{part} = {x!r} by {how}'
        case.did(what)
        if how=='shortcut':
            setattr(layer, part, x)
        elif how=='brackets':
            layer['transformation'] = {part: x}
        elif how=='attribute':
            layer.transformation = {part: x}
        else:
            layer.transformation[part].value = x
        done[path, part] = want
        case.saw('shortcuts')
        case.distinct(what)
        for (p, k), w in done.items():
            l = obs.at(animation, p)
            for v in (getattr(l, k), l.transformation[k], l['transformation'][k], getattr(l.transformation, k)):
                case.check(obs.same(obs.read(v), (parts[k], w)), f'{what}: {p}.{k} reads otherwise', obs.read(v), w)
    fn = case.path('out.sif')
    animation.save(fn)
    again = sangfroid.open(fn)
    for (p, k), w in done.items():
        case.check(obs.same(obs.read(getattr(obs.at(again, p), k)), (parts[k], w)), f'{p}.{k} reads otherwise after reopening')
        case.saw('read back after reopening')


@workload('C07', 600, 12000)
def values(case):
    """Values which aren't in any document."""
    rng = case.rng
    kind = rng.choice(model.EDITABLE)
    x, want = ops.good(rng, kind, 24, fps_known=False)
    v = ops.V[kind](x)
    case.check(obs.same(obs.read(v), (kind, want)), f'{ops.V[kind].__name__}({x!r}) reads otherwise', obs.read(v), want)
    if kind in ('vector', 'color') and isinstance(x, tuple):
        v = ops.V[kind](*x)
        case.check(obs.same(obs.read(v), (kind, want)), f'{ops.V[kind].__name__}(*{x!r}) reads otherwise', obs.read(v), want)
    for _ in range(rng.randrange(1, 5)):
        if kind!='composite' and rng.random()<0.4:
            w, _ = ops.waypoint(rng, None, kind, 24)
            v.timeline.add(w, overwrite=True)
        x, want = ops.good(rng, kind, 24, fps_known=False)
        what = f'{ops.V[kind].__name__}().value = {x!r}'
        case.did(what)
        v.value = ops.V[kind](x) if rng.random()<0.2 and kind!='composite' else x
        case.check(obs.same(obs.read(v), (kind, want)), f'{what} reads otherwise', obs.read(v), want)
        case.saw('values outside documents')
        case.distinct(what)


@workload('C07', 400, 10000)
def new_layers(case):
    rng = case.rng
    t = rng.choice(model.TYPES)
    spec = model.SPEC[t]
    try:
        layer = sangfroid.layer.Layer.handles_type.from_name(t)()
    except NotImplementedError:
        return
    animation = sangfroid.Animation()
    inside = rng.random()<0.5
    if inside:
        animation.append(layer)
    kinds = {p['name']: p['kind'] for p in spec['params'] if p['kind'] in model.EDITABLE and '[' not in p['name']}
    kinds = {n: k for n, k in kinds.items() if n in layer}
    done = {}
    for _ in range(4):
        if not kinds:
            return
        name = rng.choice(list(kinds))
        kind = kinds[name]
        x, want = ops.good(rng, kind, 24, fps_known=inside)
        route = rng.choice(ops.routes(t, name))
        what = f'new {t}.{name} = {x!r} by {route}'
        case.did(what)
        ops.assign(layer, name, x, route)
        read_back(case, layer, t, name, kind, want, what)
        done[name] = (kind, want, what)
        case.saw('new layers')
        case.distinct(what)
    if not inside:
        animation.append(layer)
    for name, (kind, want, what) in done.items():
        read_back(case, layer, t, name, kind, want, what+', once in a document')
    fn = case.path('out.sifz')
    animation.save(fn)
    again = sangfroid.open(fn)[0]
    for name, (kind, want, what) in done.items():
        read_back(case, again, t, name, kind, want, what+', after reopening')
        case.saw('read back after reopening')
