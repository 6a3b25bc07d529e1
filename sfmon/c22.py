"""C22: compound values are consistent with their parts."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C22', '''
Random histories of whole and partial edits of vectors, transformations and gradients, in documents (static, in waypoints, or with animated parts) and on their own, through every route (the layer's attribute, brackets, the value,
its parts, shortcuts on the layer; animating parts and putting them back): after each, every way of looking at the value is judged against a plain dictionary of its parts, through handles fetched before and after the edit.
Non-trivial: at least one edit of a part or the whole. Distinct by history.''',
     required=['positions repeated in the file', 'vectors', 'transformations', 'gradients', 'vectors in waypoints', 'gradients in waypoints', 'whole edits', 'part edits', 'part edits through shortcuts', 'parts animated', 'parts made static', 'animated parts edited',
               'several parts at once', 'stops added', 'stops changed', 'old handles', 'compared equal', 'compared unequal', 'on their own', 'reopened', 'unknown parts'])


def near(a, b, tolerance=1e-9):
    return obs.near(a, b, tolerance)


def vector(case, v, want, what):
    """Every way of looking at a static vector."""
    x, y = want
    views = {
            'as_tuple()': lambda: v.as_tuple(), 'tuple()': lambda: tuple(v), 'iteration': lambda: tuple([n for n in v]), 'values()': lambda: tuple(v.values()), '[name]': lambda: (v['x'], v['y']),
            '[index]': lambda: (v[0], v[1]), '[-index]': lambda: (v[-2], v[-1]), 'attributes': lambda: (v.x, v.y), 'get()': lambda: (v.get('x'), v.get('y')), 'get(index)': lambda: (v.get(0), v.get(1)),
            'value': lambda: tuple(float(v.value[k]) for k in ('x', 'y')), 'items()': lambda: tuple(dict(v.items())[k] for k in ('x', 'y')),
            'value.values()': lambda: tuple(float(n) for n in v.value.values()),
            }
    for how, fn in views.items():
        got = fn()
        case.check(near(got, (x, y)), f'{what}, by {how}: wrong parts', f'got {got}', f'want {want}')
    case.equal(list(v.keys()), ['x', 'y'], f'{what}: keys')
    case.equal([k for k, _ in v.items()], ['x', 'y'], f'{what}: keys of items()')
    case.equal(set(v.value), {'x', 'y'}, f'{what}: keys of value')
    case.equal(len(v), 2, f'{what}: length')
    t = v.as_tuple()
    for same in (t, list(t), sv.X_Y(v.value), v):
        case.check(v==same and not v!=same, f'{what} is not equal to {same!r}')
    case.check(t==v, f'{t} is not equal to {what}')
    case.saw('compared equal')
    for other in ((t[0]+1, t[1]), (t[0], t[1]-1), t[:1], t+(0.0,), (), sv.X_Y((t[0]+2, t[1])), sv.X_Y((t[0], t[1]+2)), 5, None, [t[0], t[1]+1]) + (((t[1], t[0]),) if abs(t[0]-t[1])>0.01 else ()):
        case.check(v!=other and not v==other, f'{what} is equal to {other!r}')
    case.saw('compared unequal')
    for fn in (lambda: v['z'], lambda: v.z, lambda: v[2]):
        case.raises(fn, (KeyError, AttributeError, IndexError), f'{what} has a third part')
    case.equal(v.get('z'), None, f"{what}: get('z')")
    case.equal(v.get('z', 7), 7, f"{what}: get('z', 7)")
    case.saw('unknown parts')
    case.saw('vectors')


PARTS = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}


def same(case, got, want, what):
    case.check(obs.same(obs.read(got), want), f'{what}: wrong', f'got {obs.read(got)}', f'want {want}')


def transformation(case, t, want, what, layer=None):
    """want is a dict from names of parts to readings."""
    views = [('value', lambda k: t.value[k]), ('[name]', lambda k: t[k]), ('attributes', lambda k: getattr(t, k)), ('get()', lambda k: t.get(k)), ('items()', lambda k: dict(t.items())[k]),
             ('values()', lambda k: dict(zip(t.keys(), t.values()))[k])]
    if layer is not None:
        views += [('shortcut', lambda k: getattr(layer, k)), ('layer.transformation', lambda k: layer.transformation[k]), ("layer['transformation']", lambda k: layer['transformation'][k])]
    for how, fn in views:
        for k in PARTS:
            part = fn(k)
            case.equal(obs.kind_of(part), PARTS[k], f'{what}.{k}, by {how}: wrong kind')
            same(case, part, want[k], f'{what}.{k}, by {how}')
            if PARTS[k]=='vector' and len(want[k])==2:
                vector(case, part, want[k][1], f'{what}.{k}, by {how}')
    keys = list(t.keys())
    case.equal(sorted(keys), sorted(PARTS), f'{what}: keys')
    case.equal(sorted(t.value), sorted(PARTS), f'{what}: keys of value')
    case.equal([k for k, _ in t.items()], keys, f'{what}: keys of items()')
    case.equal(len(t), 4, f'{what}: length')
    case.equal(len(list(t.values())), 4, f'{what}: number of values')
    if all(len(w)==2 for w in want.values()):
        plain = {k: t[k].as_tuple() if PARTS[k]=='vector' else t[k].value for k in PARTS}
        for x in (plain, t, sv.Transformation(plain), t.value):
            case.check(t==x and not t!=x, f'{what} is not equal to {x!r:.200}')
        case.saw('compared equal')
        k = case.rng.choice(sorted(PARTS))
        x = dict(plain)
        x[k] = (x[k][0], x[k][1]+1) if PARTS[k]=='vector' else x[k]+1.0
        less = {j: p for j, p in plain.items() if j!=k}
        for y in (x, sv.Transformation(x), less, {**less, 'wombat': 1}, {**plain, 'wombat': 1}, 5, None, {}):
            case.check(t!=y and not t==y, f'{what} is equal to {y!r:.200}')
        case.saw('compared unequal')
    name = case.rng.choice(['wombat', 'off', 'scal', 'skew', 'ang', 'Angle', 'offset2', 'scale_', 'x', 'set', ''])
    for fn in (lambda: t[name], lambda: getattr(t, name)):
        case.raises(fn, (KeyError, AttributeError), f'{what} has an unknown part, {name!r}')
    case.equal(t.get(name), None, f"{what}: get({name!r})")
    case.equal(t.get(name, 7), 7, f"{what}: get({name!r}, 7)")
    case.saw('unknown parts')
    case.saw('transformations')


def gradient(case, g, want, what):
    """want is a list of (position, tuple), in order."""
    ps = [p for p, _ in want]
    for how, got in (('keys()', g.keys()), ('iteration', g), ('value', g.value), ('items()', [k for k, _ in g.items()]), ('value.items()', [k for k, _ in g.value.items()])):
        got = list(got)
        case.check(near(got, ps, 1e-12), f'{what}, by {how}: wrong positions', f'got {got}', f'want {ps}')
    for how, got in (('values()', g.values()), ('[position]', [g[p] for p in ps]), ('items()', [c for _, c in g.items()]), ('value', [g.value[p] for p in ps]), ('value.values()', g.value.values())):
        got = [c.as_tuple() for c in got]
        case.check(near(got, [c for _, c in want], 1.01e-6), f'{what}, by {how}: wrong colours', f'got {got}', f'want {want}')
    case.equal(len(g), len(ps), f'{what}: length')
    for p in ps:
        case.check(p in g, f'{what}: {p} is not in it')
    case.check(0.987654 in ps or 0.987654 not in g, f'{what}: 0.987654 is in it')
    case.raises(lambda: g[0.987654] if 0.987654 not in ps else {}[0], (KeyError, IndexError), f'{what} has an unknown stop')
    plain = {p: c.as_tuple() for p, c in g.items()}
    for x in (plain, g, sv.Gradient(plain), g.value, {p: c.value for p, c in g.items()}):
        case.check(g==x and not g!=x, f'{what} is not equal to {x!r:.200}')
    case.saw('compared equal')
    p = case.rng.choice(ps)
    c = plain[p]
    x = {**plain, p: (c[0]+0.25 if c[0]<0.5 else c[0]-0.25,)+c[1:]}
    ys = [x, sv.Gradient(x), {**plain, 0.987654: c}, sv.Gradient({**plain, 0.987654: c}), {}, 5, None]
    less = {q: c for q, c in plain.items() if q!=p}
    ys.append(less)
    if len(less)>=2:
        ys.append(sv.Gradient(less))
    for y in ys if 0.987654 not in ps else ys[:2]:
        case.check(g!=y and not g==y, f'{what} is equal to {y!r:.200}')
    case.saw('compared unequal')
    case.saw('gradients')


@workload('C22', 200, 5000)
def repeated_positions(case):
    """Files may have the same position twice."""
    rng = case.rng
    x, want = ops.good(rng, 'gradient', 24)
    g = sv.Gradient(x)
    stops = list(obs.elements(g.tag))
    for _ in range(rng.choice([1, 1, 2, 5])):
        twin = sv.Color(ops.colour(rng)[0]).tag
        twin['pos'] = rng.choice([rng.choice(stops)['pos'], rng.choice(stops)['pos']+('0' if '.' in rng.choice(stops)['pos'] else '.0')])
        try:
            float(twin['pos'])
        except ValueError:
            continue
        rng.choice(list(obs.elements(g.tag))).insert_before(twin) if rng.random()<0.5 else g.tag.append(twin)
    if rng.random()<0.5:
        g = sv.Value.from_tag(g.tag)
    what = f'a gradient at {[s["pos"] for s in obs.elements(g.tag)]}'
    ps = sorted({float(s['pos']) for s in obs.elements(g.tag)})
    if len(ps)<2:
        return
    given = {}
    for s in obs.elements(g.tag):
        given.setdefault(float(s['pos']), []).append(sv.Color(s).as_tuple())
    colours = {p: g[p].as_tuple() for p in ps}
    for p in ps:
        case.check(colours[p] in given[p], f'{what}: none of the stops at {p} has the colour at {p}')
    gradient(case, g, sorted(colours.items()), what)
    case.saw('positions repeated in the file')
    p = rng.choice(ps)
    c, w = ops.colour(rng)
    g[p] = c
    colours[p] = w
    gradient(case, g, sorted(colours.items()), f'{what} after [{p}] = {c!r}')
    case.did(what, f'[{p}] = {c!r}')
    case.distinct(case.log)


@workload('C22', 900, 22000)
def vectors(case):
    rng = case.rng
    doc, animation = document(case, size=3)
    fps = doc.fps
    sites = list(ops.editable(doc, ('vector',)))
    v, done = sv.X_Y(1, 2), 0
    vector(case, v, (1.0, 2.0), 'X_Y(1, 2)')
    for _ in range(3):
        x, want = ops.good(rng, 'vector', fps)
        if rng.random()<0.5:
            v.value = x
        else:
            v = sv.X_Y(x)
        vector(case, v, want, f'X_Y({x!r})')
        case.saw('on their own')
    rng.shuffle(sites)
    for path, l, name, mvalue in sites[:4]:
        layer = obs.at(animation, path)
        what = f'{l.type}{path}.{name}'
        old = layer[name]
        m = mvalue.meaning(fps)
        if mvalue.animated:
            for w, x in zip(old.timeline, m[2]):
                vector(case, w.value, x[3], f'{what} at {w.time}')
                case.saw('vectors in waypoints')
        else:
            vector(case, old, m[1], what)
        for _ in range(rng.randrange(1, 4)):
            x, want = ops.good(rng, 'vector', fps)
            if rng.random()<0.2:
                x = sv.X_Y(x)
            if rng.random()<0.3:
                t = rng.randrange(60)
                old.timeline[t] = x
                vector(case, layer[name].timeline[t].value, want, f'{what} at {t} after setting it')
                case.saw('vectors in waypoints')
            else:
                if isinstance(x, sv.Value):
                    layer[name].value = x if rng.random()<0.5 else x.value
                else:
                    ops.assign(layer, name, x, rng.choice(ops.routes(l.type, name)))
                vector(case, layer[name], want, f'{what} after setting it')
                vector(case, old, want, f'{what} after setting it, as fetched before')
                case.saw('old handles')
            case.saw('whole edits')
            case.did(f'{what} = {x!r}')
            done += 1
    if done:
        case.distinct(case.log)


@workload('C22', 1000, 24000)
def gradients(case):
    rng = case.rng
    doc, animation = document(case, size=2, types=['linear_gradient', 'radial_gradient', 'conical_gradient', 'spiral_gradient', 'group'] if 'conical_gradient' in model.SPEC else ['linear_gradient', 'radial_gradient'])
    fps = doc.fps
    x, want = ops.good(rng, 'gradient', fps)
    subjects = [(sv.Gradient(x), want, 'on its own', None)]
    case.saw('on their own')
    for path, l, name, mvalue in ops.editable(doc, ('gradient',)):
        layer = obs.at(animation, path)
        v = layer[name]
        m = mvalue.meaning(fps)
        what = f'{l.type}{path}.{name}'
        if mvalue.animated:
            for w, x in zip(v.timeline, m[2]):
                gradient(case, w.value, x[3], f'{what} at {w.time}')
                case.saw('gradients in waypoints')
            w = rng.choice(v.timeline.values())
            want = m[2][[u.time for u in v.timeline].index(w.time)][3]
            subjects.append((w.value, want, f'{what} at {w.time}', None))
        else:
            subjects.append((v, m[1], what, (layer, l.type, name, path)))
    finals = []
    for g, want, what, where in subjects:
        want = dict(want)
        gradient(case, g, sorted(want.items()), what)
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r<0.35:
                p = rng.choice(sorted(want))
                c, w = ops.colour(rng)
                g[p] = c if rng.random()<0.7 else sv.Color(c)
                want[p] = w
                case.saw('stops changed')
                case.saw('part edits')
                edit = f'[{p}] = {c!r}'
            elif r<0.7:
                p = rng.choice([round(rng.random(), rng.choice([1, 2, 5])), 0, 1, 0.0, 1.0, -0.5, 1.5, round(rng.uniform(-2, 3), 3), 1e-05])
                c, w = ops.colour(rng)
                g[p] = c if rng.random()<0.7 else sv.Color(c)
                want[float(p)] = w
                case.saw('stops added')
                case.saw('part edits')
                edit = f'[{p}] = {c!r}'
            elif r<0.8 and len(want)>2:
                p = rng.choice(sorted(want))
                x = g.value
                del x[p]
                g.value = x
                del want[p]
                case.saw('whole edits')
                edit = f'without {p}'
            elif r<0.88:
                p = rng.choice(sorted(want))
                c, w = ops.colour(rng)
                g[p].value = c
                want[p] = w
                case.saw('part edits')
                case.saw('stops changed')
                edit = f'[{p}].value = {c!r}'
            else:
                x, w = ops.good(rng, 'gradient', fps)
                if rng.random()<0.3:
                    x = sv.Gradient(x)
                if where is None:
                    g.value = x
                elif isinstance(x, sv.Value):
                    layer, ltype, name, _ = where
                    layer[name].value = x
                else:
                    layer, ltype, name, _ = where
                    ops.assign(layer, name, x, rng.choice(ops.routes(ltype, name)))
                want = dict(w)
                case.saw('whole edits')
                edit = f'= {x!r:.80}'
            case.did(what+edit)
            gradient(case, g, sorted(want.items()), f'{what} after {edit}')
            if where is not None:
                gradient(case, where[0][where[2]], sorted(want.items()), f'{what} after {edit}, fetched again')
                case.saw('old handles')
        if where is not None:
            finals.append((where[3], where[2], sorted(want.items()), what))
    reopen(case, animation, finals, gradient)
    case.distinct(case.log)


def reopen(case, animation, finals, fn):
    if not finals or case.rng.random()<0.5:
        return
    name = case.path(case.rng.choice(['b.sif', 'b.sifz']))
    animation.save(name)
    again = sangfroid.open(name)
    for path, param, want, what in finals:
        fn(case, obs.at(again, path)[param], want, f'{what}, reopened')
    case.saw('reopened')


def edit_transformation(case, t, want, layer, fps, what):
    """One random edit. Changes want. Layer may be None."""
    rng = case.rng
    k = rng.choice(sorted(PARTS))
    kind = PARTS[k]
    r = rng.random()
    get = rng.choice([lambda: t[k], lambda: getattr(t, k), lambda: t.value[k], lambda: t.get(k)] + ([lambda: getattr(layer, k), lambda: layer.transformation[k], lambda: layer['transformation'].value[k]] if layer is not None else []))
    if r<0.3:
        x, w = ops.good(rng, kind, fps)
        y = ops.V[kind](x) if rng.random()<0.3 else x
        way = rng.choice(['value', 'part'] + ['shortcut', 'shortcut', 'attribute', 'brackets']*(layer is not None))
        if way=='value':
            t.value = {k: y}
        elif way=='part':
            get().value = x
        elif way=='shortcut':
            setattr(layer, k, y)
            case.saw('part edits through shortcuts')
        elif way=='attribute':
            layer.transformation = {k: y}
        else:
            layer['transformation'] = {k: y}
        want[k] = (kind, w)
        case.saw('part edits')
        return f'{k} = {y!r} ({way})'
    if r<0.5:
        n = rng.randrange(2, 4)
        keys = rng.sample(sorted(PARTS), n)
        x = {}
        for j in keys:
            y, w = ops.good(rng, PARTS[j], fps)
            x[j] = ops.V[PARTS[j]](y) if rng.random()<0.2 else y
            want[j] = (PARTS[j], w)
        if layer is None or rng.random()<0.4:
            t.value = x
        elif rng.random()<0.5:
            layer.transformation = x
        else:
            layer['transformation'] = x
        case.saw('several parts at once')
        return f'= {x!r}'
    if r<0.6:
        x, w = ops.good(rng, 'composite', fps)
        y = x
        if rng.random()<0.3:
            y = sv.Transformation(x)
        if layer is None or rng.random()<0.4:
            t.value = y
        elif rng.random()<0.5:
            layer.transformation = y
        else:
            layer['transformation'] = x
        want.update(w)
        case.saw('whole edits')
        return f'= {y!r}'
    part = get()
    animated = len(want[k])==3
    if animated and r<0.75:
        part.is_animated = False
        want[k] = (kind, want[k][2][0][3])
        case.saw('parts made static')
        return f'{k} is static'
    if animated and r<0.85 and len(want[k][2])>1:
        i = rng.randrange(len(want[k][2]))
        del part.timeline[part.timeline.keys()[i]]
        want[k] = (kind, 'animated', want[k][2][:i]+want[k][2][i+1:])
        case.saw('animated parts edited')
        return f'{k}: deleted waypoint {i}'
    if not animated and r<0.75:
        part.is_animated = True
        want[k] = (kind, 'animated', [(0.0, 'clamped', 'clamped', want[k][1])])
        case.saw('parts animated')
        return f'{k} is animated'
    if not animated and r<0.85:
        # give it an animated value of its own
        x, w = ops.good(rng, kind, fps)
        y = ops.V[kind](x)
        f = rng.randrange(0, 60)
        y.timeline[f] = ops.V[kind](x)
        if layer is not None and rng.random()<0.6:
            setattr(layer, k, y)
            case.saw('part edits through shortcuts')
        else:
            t.value = {k: y}
        want[k] = (kind, 'animated', [(float(f), 'clamped', 'clamped', w)])
        case.saw('parts animated')
        return f'{k} = animated'
    f = rng.randrange(0, 60)
    x, w = ops.good(rng, kind, fps)
    if animated and any(0<abs(e[0]-f)<0.01 for e in want[k][2]):
        return 'nothing'
    part.timeline[f] = x
    existing = want[k][2] if animated else []
    want[k] = (kind, 'animated', sorted([e for e in existing if abs(e[0]-f)>0.01]+[(float(f), 'clamped', 'clamped', w)], key=lambda e: e[0]))
    case.saw('animated parts edited' if animated else 'parts animated')
    return f'{k} at {f} = {x!r}'


@workload('C22', 900, 22000)
def transformations(case):
    rng = case.rng
    doc, animation = document(case, size=3, types=['group', 'group']+[t for t in model.TYPES if any(p['name']=='transformation' for p in model.SPEC[t]['params'])])
    fps = doc.fps
    x, want = ops.good(rng, 'composite', fps)
    subjects = [(sv.Transformation(x), want, 'on its own', None, None)]
    case.saw('on their own')
    for path, l, name, mvalue in ops.editable(doc, ('composite',)):
        layer = obs.at(animation, path)
        subjects.append((layer[name], mvalue.meaning(fps)[1], f'{l.type}{path}.{name}', layer if l.type=='group' else None, (path, name)))
    finals = []
    for t, want, what, layer, where in rng.sample(subjects, min(3, len(subjects))):
        want = dict(want)
        transformation(case, t, want, what, layer)
        for _ in range(rng.randrange(1, 6)):
            edit = edit_transformation(case, t, want, layer, fps, what)
            case.did(f'{what}: {edit}')
            transformation(case, t if layer is None else layer.transformation, want, f'{what} after {edit}', layer)
            same_parts = {k: obs.read(v) for k, v in t.items()}
            case.check(all(obs.same(same_parts[k], want[k]) for k in PARTS), f'{what} after {edit}, as fetched before: wrong', f'got {same_parts}', f'want {want}')
            case.saw('old handles')
        if where is not None:
            finals.append((where[0], where[1], want, what))
    reopen(case, animation, finals, transformation)
    case.distinct(case.log)
