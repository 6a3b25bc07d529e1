"""C06: an edit changes only the thing it names."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C06', '''
Single edits of every sort, by every route, at random places in random documents. Around each edit the whole document in memory is
canonicalised with just the named thing left out (a value element, one part of a compound, one attribute of one element, one layer) and must be
identical; inside the named thing, other waypoints, parts, gradient stops and XML attributes must be as they were; other handles onto
everything else must read the same. Copies: a value assigned from one place to another, then either end edited, with both ends read after each.
Non-trivial: the edit succeeded and changed something. Distinct by document, place and edit.''',
     required=['param edits', 'part edits', 'waypoint edits', 'waypoints put back', 'attribute edits', 'setting edits', 'layer moves', 'copies made',
               'edits after a copy', 'documents compared', 'is_animated edits', 'gradient stop edits', 'copies between unlike places', 'copies of new things', 'compounds made of values'])


def value_path(animation, layer, name):
    return obs.epath(animation.tag, layer[name].tag)


def param_tree(tag):
    """The contents of a <param>, without its value."""
    return obs.tree_dropping(tag, drop=[(0,)])


def same_outside(case, animation, before, path, what):
    after = obs.tree_of_tag(animation.tag, hole=path)
    if before!=after:
        case.fail(f'{what} changed something else', obs.diff(before, after) or '')
    case.saw('documents compared')


def attrs_of(tag, without=('value',)):
    return {k: v for k, v in tag.attrs.items() if k not in without}


def other_readings(animation, skip):
    """Everything readable, except one param, as {(path, name): reading}."""
    out = {}
    def inner(x, path):
        for i, l in enumerate(x.children):
            p = path+(i,)
            out[p, '#head'] = obs.layer_head(l)
            for n, r in obs.layer_params(l).items():
                if (p, n)!=skip:
                    out[p, n] = r
            inner(l, p)
    inner(animation, ())
    out['settings'] = obs.settings(animation)
    return out


def compare_readings(case, a, b, what):
    case.equal(list(b), list(a), f'{what} changed which things can be read')
    for k in a:
        d = obs.compare_readouts(a[k], b[k], str(k))
        case.check(d is None, f'{what} changed how something else reads', d or '')


@workload('C06', 1000, 24000)
def params(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5, 9]))
    sites = list(ops.editable(doc))
    if not sites:
        return
    for _ in range(rng.choice([1, 2, 4])):
        path, mlayer, name, mvalue = rng.choice(sites)
        layer = obs.at(animation, path)
        kind = obs.kind_of(layer[name])
        x, want = ops.good(rng, kind, doc.fps)
        route = rng.choice(ops.routes(mlayer.type, name))
        as_value = rng.random()<0.2
        if as_value:
            x = ops.V[kind](x) if kind!='time' else sv.Time(want if want>=0 else 0)
        what = f'{mlayer.type}{path}.{name} = {x!r} ({route})'
        case.did(what)
        vp = value_path(animation, layer, name)
        before = obs.tree_of_tag(animation.tag, hole=vp)
        readings = other_readings(animation, (path, name))
        value_tag = layer[name].tag
        was_static = not layer[name].is_animated
        old_attrs = attrs_of(value_tag)
        ops.assign(layer, name, x, route)
        same_outside(case, animation, before, vp, what)
        compare_readings(case, readings, other_readings(animation, (path, name)), what)
        if was_static and not as_value:
            case.equal(attrs_of(obs.eat(animation.tag, vp)), old_attrs, f'{what} changed other attributes of the value')
        case.saw('param edits')
        case.distinct(what)
    intact(case, animation, 'after editing')


PARTS = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}

@workload('C06', 700, 16000)
def parts(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5]))
    sites = list(ops.editable(doc, ('composite',)))
    if not sites:
        doc = model.Doc(rng, types=['group', 'circle'], size=4)
        animation = load(case, doc, 'b.sif')
        sites = list(ops.editable(doc, ('composite',)))
        if not sites:
            return
    for _ in range(rng.choice([1, 2, 3])):
        path, mlayer, name, mvalue = rng.choice(sites)
        layer = obs.at(animation, path)
        n = rng.choice([1, 1, 1, 2, 3])
        chosen = rng.sample(sorted(PARTS), n)
        new = {}
        for part in chosen:
            new[part] = ops.good(rng, PARTS[part], doc.fps)[0]
            if rng.random()<0.2:
                new[part] = ops.V[PARTS[part]](new[part])
        route = rng.choice(['attribute', 'brackets', 'value', 'shortcut'] if mlayer.type=='group' else ['attribute', 'brackets', 'value'])
        if route=='shortcut':
            chosen = chosen[:1]
            new = {chosen[0]: new[chosen[0]]}
        what = f'{mlayer.type}{path}.{name} {new!r} ({route})'
        case.did(what)
        t = layer[name].tag
        vp = obs.epath(animation.tag, t)
        names = [k.name for k in obs.elements(t)]
        drop = [vp+(names.index(part),) for part in chosen]
        before = obs.tree_dropping(animation.tag, drop=drop)
        if route=='shortcut':
            setattr(layer, chosen[0], new[chosen[0]])
        else:
            ops.assign(layer, name, new, route)
        t = obs.eat(animation.tag, vp)
        case.equal(sorted(k.name for k in obs.elements(t)), sorted(names), f'{what} changed which parts there are')
        names = [k.name for k in obs.elements(t)]
        drop = [vp+(names.index(part),) for part in chosen]
        after = obs.tree_dropping(animation.tag, drop=drop)
        if before!=after:
            case.fail(f'{what} changed something else', obs.diff(before, after) or '')
        case.saw('documents compared')
        case.saw('part edits')
        case.distinct(what)


def waypoint_records(fps, tag):
    """The waypoints in an element, by time: what they say, whatever the spelling of their times."""
    result = {}
    for w in obs.elements(tag):
        a = dict(w.attrs)
        frames = round(float(model.frames_of(a.pop("time"), fps)), 6)
        before, after = model.SPELLINGS[a.pop('before')], model.SPELLINGS[a.pop('after')]
        result[frames] = (before, after, tuple(sorted(a.items())), tuple(obs.tree_of_tag(k) for k in obs.elements(w)))
    return result


@workload('C06', 900, 20000)
def waypoints(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5]))
    sites = [s for s in ops.editable(doc, model.SIMPLE)]
    sites = [s for s in sites if s[3].animated] or sites
    if not sites:
        return
    path, mlayer, name, mvalue = rng.choice(sites)
    layer = obs.at(animation, path)
    for _ in range(rng.choice([1, 2, 4])):
        v = layer[name]
        kind = obs.kind_of(v)
        vp = obs.epath(animation.tag, v.tag)
        before = obs.tree_of_tag(animation.tag, hole=vp)
        readings = other_readings(animation, (path, name))
        old = waypoint_records(doc.fps, v.tag) if v.is_animated else {}
        old_attrs = attrs_of(v.tag)
        r = rng.random()
        if old and r<0.3:
            frames = rng.choice(list(old))
            what = f'del timeline[{frames}]'
            del v.timeline[ops.when(frames)]
            gone = {frames}
        elif old and r<0.42:
            # take one, change one thing about it, and put it back
            frames = rng.choice(list(old))
            w = v.timeline[ops.when(frames)]
            b, a, attrs, kids = old[frames]
            thing = rng.choice(['before', 'after', 'nothing'])
            if thing!='nothing':
                new_kind = rng.choice(['tcb', 'clamped', 'constant', 'linear', 'ease'])
                setattr(w, thing, new_kind)
                b, a = (new_kind, a) if thing=='before' else (b, new_kind)
            what = f'{thing} of timeline[{frames}], put back'
            how = rng.choice(['brackets', 'add', '+='])
            if how=='brackets':
                v.timeline[ops.when(frames)] = w
            elif how=='add':
                v.timeline.add(w, overwrite=True)
            else:
                v.timeline += [w]
            old[frames] = (b, a, attrs, kids)
            case.saw('waypoints put back')
            gone = set()
        elif r<0.65:
            frames = rng.choice(list(old)+[rng.randrange(0, 80), rng.randrange(0, 640)/8])
            x, _ = ops.good(rng, kind, doc.fps)
            what = f'timeline[{frames}] = {x!r}'
            v.timeline[ops.when(frames)] = x
            gone = {round(float(frames), 6)}
        else:
            frames = rng.choice(list(old)+[rng.randrange(0, 80)])
            w, _ = ops.waypoint(rng, animation, kind, doc.fps, frames)
            what = f'timeline.add({w})'
            if rng.random()<0.5:
                v.timeline.add(w, overwrite=True)
            else:
                v.timeline += w
            gone = {round(float(frames), 6)}
        what = f'{mlayer.type}{path}.{name}: {what}'
        case.did(what)
        same_outside(case, animation, before, vp, what)
        compare_readings(case, readings, other_readings(animation, (path, name)), what)
        v = layer[name]
        if v.is_animated:
            new = waypoint_records(doc.fps, v.tag)
            for f, record in old.items():
                if f not in gone:
                    case.check(f in new, f'{what} lost the waypoint at {f}')
                    case.equal(new[f], record, f'{what} changed the waypoint at {f}')
            case.check(set(new)-set(old)<=gone, f'{what} made other waypoints', f'{sorted(old)} -> {sorted(new)}')
            if old:
                case.equal(attrs_of(v.tag), old_attrs, f'{what} changed attributes of the value')
        else:
            case.check(set(old)<=gone, f'{what} lost the other waypoints')
        case.saw('waypoint edits')
        case.distinct(what)
    intact(case, animation, 'after editing')


@workload('C06', 500, 12000)
def attributes(case):
    rng = case.rng
    doc = model.Doc(rng, size=rng.choice([2, 5, 9]))
    for _, l, _ in doc.walk():
        if rng.random()<0.3:
            # nearly like the ones we're going to set
            for n in rng.sample(model.NEARLY, 3):
                l.attrs[n] = model.text(rng)
    animation = load(case, doc)
    for _ in range(rng.choice([1, 3])):
        if rng.random()<0.6:
            path, mlayer, _ = rng.choice(list(doc.walk()))
            layer = obs.at(animation, path)
            a = rng.choice(['active', 'exclude_from_rendering', 'desc', 'version'])
            if a=='desc':
                x = rng.choice([None, '', model.text(rng)])
            elif a=='version':
                x = rng.choice([0.1, 0.5, 1.0])
            else:
                x = rng.choice([True, False, 0, 1])
            ep = obs.epath(animation.tag, layer.tag)
            what = f'{mlayer.type}{path}.{a} = {x!r}'
            key = [(ep, a)]
            before = obs.tree_dropping(animation.tag, attrs=key)
            setattr(layer, a, x)
            case.saw('attribute edits')
            after = obs.tree_dropping(animation.tag, attrs=key)
        else:
            a = rng.choice(['width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'antialias', 'fps_', 'begin_time',
                            'end_time', 'bgcolor', 'view_box', 'name', 'desc', 'version'])
            if a in ('name', 'desc'):
                x = model.text(rng)
                drop = [(i,) for i, k in enumerate(obs.elements(animation.tag)) if k.name==a]
                case.check(len(drop)<=1, 'the model made two names')
                before = obs.tree_dropping(animation.tag, drop=drop)
                what = f'animation.{a} = {x!r}'
                setattr(animation, a, x)
                drop = [(i,) for i, k in enumerate(obs.elements(animation.tag)) if k.name==a]
                case.equal(len(drop), 1, f'{what} made more than one <{a}>, or none')
                after = obs.tree_dropping(animation.tag, drop=drop)
            else:
                if a=='fps_':
                    a, x = 'fps', float(doc.attrs['fps'])
                elif a in ('width', 'height', 'antialias'):
                    x = rng.randrange(1, 999)
                elif a.endswith('time'):
                    x = model.time_text(rng, doc.fps)
                elif a=='bgcolor':
                    x = '1.0 0.5 0.25 1.0'
                elif a=='view_box':
                    x = '-1.0 1.0 1.0 -1.0'
                else:
                    x = rng.uniform(0.5, 3)
                key = [((), a.replace('_', '-'))]
                before = obs.tree_dropping(animation.tag, attrs=key)
                what = f'animation.{a} = {x!r}'
                setattr(animation, a, x)
                after = obs.tree_dropping(animation.tag, attrs=key)
            case.saw('setting edits')
        case.did(what)
        if before!=after:
            case.fail(f'{what} changed something else', obs.diff(before, after) or '')
        case.saw('documents compared')
        case.distinct(what)
    intact(case, animation, 'after editing')


def order_without(animation, tags):
    """Every layer in file order, by identity, and its parent, without some."""
    skip = {id(t) for t in tags}
    out = []
    def inner(t, parent):
        for k in obs.elements(t):
            if id(k) in skip:
                continue
            if k.name=='layer':
                out.append((id(k), parent))
                inner(k, id(k))
            else:
                inner(k, parent)
    inner(animation.tag, None)
    return out


@workload('C06', 500, 10000)
def moves(case):
    """Adding, inserting and moving layers leaves every other layer, and the layer itself, as they were."""
    rng = case.rng
    doc, animation = document(case, size=rng.choice([3, 6, 12]))
    for _ in range(rng.choice([1, 2, 4])):
        layers = []
        def walk(x):
            for c in x.children:
                layers.append(c)
                walk(c)
        walk(animation)
        groups = [animation] + [l for l in layers if isinstance(l, sangfroid.layer.Group)]
        g = rng.choice(groups)
        if rng.random()<0.4 or not layers:
            l = rng.choice([sangfroid.layer.Circle, sangfroid.layer.Group, sangfroid.layer.Text])()
        else:
            l = rng.choice(layers)
        cursor = g.tag
        while cursor is not None and cursor is not l.tag:
            cursor = cursor.parent
        if cursor is not None:
            continue
        moved = obs.tree_of_tag(l.tag)
        if l.tag.parent is not None:
            p = obs.epath(animation.tag, l.tag)
            before = obs.tree_dropping(animation.tag, drop=[p])
        else:
            before = obs.tree_of_tag(animation.tag)
        order = order_without(animation, [l.tag])
        if len(g) and rng.random()<0.5:
            i = rng.randrange(len(g))
            what = f'insert at {i}'
            g.insert(i, l)
        else:
            what = 'append'
            g.append(l)
        case.did(what, type(l).__name__)
        p = obs.epath(animation.tag, l.tag)
        case.check(p is not None, f'{what}: the layer is not in the document')
        after = obs.tree_dropping(animation.tag, drop=[p])
        if before!=after:
            case.fail(f'{what} changed something else', obs.diff(before, after) or '')
        case.check(order==order_without(animation, [l.tag]), f'{what} re-arranged other layers')
        case.check(obs.tree_of_tag(l.tag)==moved, f'{what} changed the layer itself',
                   obs.diff(moved, obs.tree_of_tag(l.tag)) or '')
        case.saw('documents compared')
        case.saw('layer moves')
        case.distinct((what, p, len(order)))
    intact(case, animation, 'after moving layers')


@workload('C06', 400, 8000)
def animating(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 5]))
    sites = list(ops.editable(doc, model.SIMPLE))
    if not sites:
        return
    for _ in range(3):
        path, mlayer, name, mvalue = rng.choice(sites)
        layer = obs.at(animation, path)
        vp = value_path(animation, layer, name)
        before = obs.tree_of_tag(animation.tag, hole=vp)
        readings = other_readings(animation, (path, name))
        flag = rng.choice([True, False])
        what = f'{mlayer.type}{path}.{name}.is_animated = {flag}'
        case.did(what)
        layer[name].is_animated = flag
        same_outside(case, animation, before, vp, what)
        compare_readings(case, readings, other_readings(animation, (path, name)), what)
        case.saw('is_animated edits')
        case.distinct(what)


@workload('C06', 300, 6000)
def gradient_stops(case):
    rng = case.rng
    doc, animation = document(case, types=['linear_gradient', 'radial_gradient', 'conical_gradient', 'group'], size=4)
    sites = [s for s in ops.editable(doc, ('gradient',)) if not s[3].animated]
    if not sites:
        return
    path, mlayer, name, mvalue = rng.choice(sites)
    layer = obs.at(animation, path)
    for _ in range(3):
        g = layer[name]
        vp = value_path(animation, layer, name)
        before = obs.tree_of_tag(animation.tag, hole=vp)
        old = dict(obs.static_of(g))
        pos = rng.choice(list(old)+[round(rng.random(), 4)])
        c, want = ops.colour(rng)
        if rng.random()<0.2:
            c = sv.Color(c)
        what = f'{mlayer.type}{path}.{name}[{pos}] = {c!r}'
        case.did(what)
        g[pos] = c
        same_outside(case, animation, before, vp, what)
        new = obs.static_of(layer[name])
        wanted = sorted((dict(old) | {pos: want}).items())
        case.check(obs.near(new, wanted, 1.01e-6), f'{what} gave the wrong gradient', new, wanted)
        case.saw('gradient stop edits')
        case.distinct(what)


@workload('C06', 900, 20000)
def copies(case):
    """Assigning a value taken from one place to another place copies it."""
    rng = case.rng
    doc, animation = document(case, size=rng.choice([4, 8]))
    if rng.random()<0.3:
        # from another document, perhaps of another frame rate
        doc2 = model.Doc(rng, size=4, fps=rng.choice([None, doc.attrs['fps']]))
        animation2 = load(case, doc2, 'b.sif')
    else:
        doc2, animation2 = doc, animation
    kind = rng.choice(model.EDITABLE)
    into = list(ops.editable(doc, (kind,)))
    outof = list(ops.editable(doc2, (kind,)))
    if not into or not outof:
        kind = 'real'
        into, outof = list(ops.editable(doc, (kind,))), list(ops.editable(doc2, (kind,)))
        if not into or not outof:
            return
    p1, l1, n1, m1 = rng.choice(into)
    p2, l2, n2, m2 = rng.choice(outof)
    if doc2 is doc and (p1, n1)==(p2, n2):
        return
    if doc2 is not doc and kind=='time' and doc.fps!=doc2.fps:
        return
    if doc2 is not doc and doc.fps!=doc2.fps and m2.animated:
        return
    if doc2 is not doc and doc.fps!=doc2.fps and kind=='composite':
        return
    target, source = obs.at(animation, p1), obs.at(animation2, p2)
    s_path = value_path(animation2, source, n2)
    s_tree = obs.tree_of_tag(source[n2].tag)
    s_read = obs.read(source[n2])

    route = rng.choice(ops.routes(l1.type, n1))
    if route=='value' and m2.animated:
        route = 'brackets'
    how = rng.choice(ops.routes(l2.type, n2)[:-1])
    taken = ops.fetch(source, n2, how)
    if kind in ('gradient', 'composite') and rng.random()<0.3 and not m2.animated:
        taken = taken.value
    if m2.animated and rng.random()<0.4:
        route = 'timeline'
    what = f'{l1.type}{p1}.{n1} = {l2.type}{p2}.{n2} {"(animated) " if m2.animated else ""}({route}, {how})'
    case.did(what)
    t_path = value_path(animation, target, n1)
    before = obs.tree_of_tag(animation.tag, hole=t_path)
    before2 = obs.tree_of_tag(animation2.tag)
    if route=='timeline':
        if rng.random()<0.5:
            target[n1].timeline = taken.timeline
        else:
            target[n1].timeline = rng.choice([list, lambda t: dict(t.items())])(taken.timeline)
    else:
        ops.assign(target, n1, taken, route)
    same_outside(case, animation, before, t_path, what)
    if animation2 is not animation:
        case.check(obs.tree_of_tag(animation2.tag)==before2, f'{what} changed the document it was taken from')
    case.check(obs.tree_of_tag(source[n2].tag)==s_tree and obs.epath(animation2.tag, source[n2].tag)==s_path,
               f'{what} changed the source')
    t_read = obs.read(target[n1])
    case.check(obs.same(t_read, s_read), f'{what} did not copy the value', t_read, s_read)
    case.saw('copies made')
    t_tree = obs.tree_of_tag(target[n1].tag)

    for _ in range(rng.choice([1, 2])):
        a, n, b, m, tree, label = rng.choice([
            (target, n1, source, n2, lambda: s_tree, 'the copy'), (source, n2, target, n1, lambda: t_tree, 'the original')])
        v = a[n]
        r = rng.random()
        if kind=='composite' and r<0.7:
            part = rng.choice(list(PARTS))
            x, _ = ops.good(rng, PARTS[part], doc.fps)
            if r<0.35:
                a[n] = {part: x}
            else:
                v[part].value = x
        elif kind=='gradient' and not v.is_animated and r<0.5:
            c, _ = ops.colour(rng)
            v[rng.choice(list(v.keys()))].value = c
        elif kind!='composite' and r<0.6:
            w, _ = ops.waypoint(rng, None, kind, doc.fps)
            v.timeline.add(w, overwrite=True)
        elif kind!='composite' and v.is_animated and r<0.8:
            v.is_animated = False
        else:
            x, _ = ops.good(rng, kind, doc.fps, fps_known=False)
            ops.assign(a, n, x, rng.choice(['brackets', 'value']))
        case.check(obs.tree_of_tag(b[m].tag)==tree(), f'{what}: editing {label} afterwards changed the other')
        case.saw('edits after a copy')
        if a is target:
            t_tree = obs.tree_of_tag(target[n1].tag)
        else:
            s_tree = obs.tree_of_tag(source[n2].tag)
    intact(case, animation, 'after copying')
    intact(case, animation2, 'after copying from it')
    case.distinct(what)


@workload('C06', 300, 6000)
def one_value_in_several_places(case):
    """The same new Value, Waypoint or timeline, assigned to several places."""
    rng = case.rng
    doc, animation = document(case, size=8)
    kind = rng.choice(model.SIMPLE)
    sites = list(ops.editable(doc, (kind,)))
    if len(sites)<2:
        return
    chosen = rng.sample(sites, min(len(sites), rng.choice([2, 3])))
    x, want = ops.good(rng, kind, doc.fps, fps_known=False)
    r = rng.random()
    layers = [(obs.at(animation, p), n, l.type) for p, l, n, m in chosen]
    if r<0.5:
        v = ops.V[kind](x)
        for l, n, t in layers:
            ops.assign(l, n, v, rng.choice(ops.routes(t, n)))
        what = f'{v!r} in {len(layers)} places'
    else:
        w, _ = ops.waypoint(rng, animation, kind, doc.fps)
        for l, n, t in layers:
            if rng.random()<0.5:
                l[n].timeline.add(w, overwrite=True)
            else:
                l[n].timeline = [w]
        what = f'{w!r} in {len(layers)} timelines'
    case.did(what)
    case.saw('copies made')
    trees = [obs.tree_of_tag(l[n].tag) for l, n, t in layers]
    readings = [obs.read(l[n]) for l, n, t in layers]
    for i, (l, n, t) in enumerate(layers):
        y, _ = ops.good(rng, kind, doc.fps, fps_known=False)
        if rng.random()<0.5 and l[n].is_animated:
            list(l[n].timeline)[0].value.value = y
        else:
            l[n] = y
        for j, (l2, n2, t2) in enumerate(layers):
            if j!=i:
                case.check(obs.tree_of_tag(l2[n2].tag)==trees[j], f'{what}: editing one changed another',
                           str(trees[j])[:300], str(obs.tree_of_tag(l2[n2].tag))[:300])
        trees[i] = obs.tree_of_tag(l[n].tag)
        case.saw('edits after a copy')
    intact(case, animation, 'after copying')
    case.distinct(what)


@workload('C06', 900, 20000)
def copies_across(case):
    """Values taken from any sort of place (a param, a part of a transformation, a stop of a gradient, a waypoint) and assigned
    to any other sort of place which holds that kind of value."""
    rng = case.rng
    kind = rng.choice(['vector', 'angle', 'color', 'vector', 'angle', 'color', 'real', 'string', 'time', 'integer', 'bool', 'gradient'])
    types = {'vector': ['group', 'circle', 'text', 'translate', 'rectangle'], 'angle': ['group', 'rotate', 'conical_gradient'],
             'color': ['linear_gradient', 'radial_gradient', 'circle', 'text', 'star', 'group'],
             'gradient': ['linear_gradient', 'radial_gradient', 'conical_gradient', 'group']}.get(kind)
    doc, animation = document(case, size=7, types=types)
    places = []
    for path, mlayer, name, mvalue in ops.editable(doc):
        layer = obs.at(animation, path)
        if mvalue.kind==kind:
            places.append((layer, name, 'param', None, mlayer.type))
            if mvalue.animated:
                for t in list(layer[name].timeline.keys())[:2]:
                    places.append((layer, name, 'waypoint', t, mlayer.type))
        elif mvalue.kind=='composite' and kind in ('vector', 'angle'):
            for part, k in PARTS.items():
                if k==kind:
                    places.append((layer, name, 'part', part, mlayer.type))
        elif mvalue.kind=='gradient' and kind=='color' and not mvalue.animated:
            for p in list(layer[name].keys())[:2]:
                places.append((layer, name, 'stop', p, mlayer.type))

    def fetch(place):
        layer, name, sort, key, _ = place
        v = layer[name]
        if sort=='param':
            return v
        if sort=='part':
            return v[key]
        if sort=='stop':
            return v[key]
        return v.timeline[key].value

    sources = list(places)
    if len(places)<2:
        return
    source = rng.choice(sources)
    target = rng.choice([p for p in places if p[0] is not source[0] or p[1]!=source[1]] or places)
    if target[0] is source[0] and target[1]==source[1]:
        return
    taken = fetch(source)
    animated = taken.is_animated
    layer, name, sort, key, ltype = target
    if sort in ('waypoint', 'stop') and animated:
        return
    s_read, s_tree = obs.read(taken), obs.tree_of_tag(taken.tag)
    s_path = obs.epath(animation.tag, taken.tag)
    if sort=='param' and not animated and kind!='gradient' and rng.random()<0.5:
        sort, key = 'waypoint', rng.randrange(0, 90)
    t_path = value_path(animation, layer, name)
    before = obs.tree_of_tag(animation.tag, hole=t_path)
    what = f'{source[4]}.{source[1]} {source[2]} {source[3]} -> {ltype}.{name} {sort} {key}'
    case.did(what, str(s_read)[:200])
    if sort=='param':
        ops.assign(layer, name, taken, rng.choice(ops.routes(ltype, name)) if not animated else 'brackets')
    elif sort=='part':
        route = rng.choice(['dict', 'whole', 'shortcut'] if ltype=='group' else ['dict'])
        if route=='dict':
            layer[name] = {key: taken}
        elif route=='whole':
            layer[name].value = dict(layer[name].items()) | {key: taken}
        else:
            setattr(layer, key, taken)
    elif sort=='stop':
        layer[name][key] = taken
    else:
        how = rng.choice(['item', 'add', 'list', 'waypoint'])
        v = layer[name]
        if how=='item':
            v.timeline[key] = taken
        elif how=='waypoint':
            v.timeline[key] = sv.Waypoint(0, taken)
        elif how=='add':
            w = sv.Waypoint(key, taken, before='linear')
            str(w.tag)
            v.timeline.add(w, overwrite=True)
        else:
            w = sv.Waypoint(key, taken)
            v.timeline = [w]
    target = (layer, name, sort, key, ltype)
    same_outside(case, animation, before, t_path, what)
    case.check(obs.epath(animation.tag, taken.tag)==s_path, f'{what} moved the source')
    case.check(obs.tree_of_tag(fetch(source).tag)==s_tree, f'{what} changed the source')
    t_read = obs.read(fetch(target))
    case.check(obs.same(t_read, s_read), f'{what} did not copy the value', t_read, s_read)
    case.check(fetch(target).tag is not taken.tag, f'{what}: both places are the same element')
    case.saw('copies made')
    case.saw('copies between unlike places', int(sort!=source[2]))
    for _ in range(2):
        a, b = rng.choice([(source, target), (target, source)])
        tree = obs.tree_of_tag(fetch(b).tag)
        x, _w = ops.good(rng, kind, doc.fps, fps_known=False)
        handle = taken if a is source and rng.random()<0.5 else fetch(a)
        handle.value = x
        case.check(obs.tree_of_tag(fetch(b).tag)==tree, f'{what}: editing one end afterwards changed the other')
        case.saw('edits after a copy')
    intact(case, animation, 'after copying')
    case.distinct(what)


@workload('C06', 500, 10000)
def copies_of_new_things(case):
    """Values of layers, waypoints and values which are not (yet) in any document are copied too."""
    rng = case.rng
    doc, animation = document(case, size=2)
    layers = []
    for _ in range(rng.choice([2, 3, 4])):
        l = getattr(sangfroid.layer, rng.choice(['Circle', 'Circle', 'Text', 'Group', 'Rectangle', 'Rotate', 'Linear_Gradient', 'Translate', 'Timeloop']))()
        if rng.random()<0.3:
            animation.append(l)
        layers.append(l)
    def places():
        for i, l in enumerate(layers):
            for name, v in l.items():
                # (times in seconds mean nothing outside a document)
                if obs.kind_of(v) in model.EDITABLE and obs.kind_of(v)!='time':
                    yield i, name, obs.kind_of(v)
    def everything():
        return [obs.tree_of_tag(l.tag) for l in layers]
    for _ in range(rng.choice([2, 4, 7])):
        ps = list(places())
        a = rng.choice(ps)
        bs = [p for p in ps if p[2]==a[2] and p[:2]!=a[:2]]
        if not bs:
            continue
        b = rng.choice(bs)
        source, target = layers[a[0]], layers[b[0]]
        kind = a[2]
        # something particular to copy
        if rng.random()<0.6:
            x, want = ops.good(rng, kind, doc.fps, fps_known=False)
            source[a[1]] = x
        if kind not in ('composite', 'time') and rng.random()<0.3:
            w, _ = ops.waypoint(rng, None, kind, doc.fps, frames=rng.randrange(0, 50))
            source[a[1]].timeline.add(w, overwrite=True)
        taken = source[a[1]]
        if taken.is_animated and source.tag.parent is not None and target.tag.parent is None:
            continue
        read = obs.read(taken)
        trees = everything()
        parts = [param_tree(p) for p in obs.elements(target.tag)]
        what = f'new {type(target).__name__}.{b[1]} = new {type(source).__name__}.{a[1]}'
        how = rng.choice(['brackets', 'attribute', 'waypoint', 'timeline'])
        if how=='attribute' and ops.attribute_name(b[1]) and not taken.is_animated:
            try:
                has = isinstance(getattr(target, ops.attribute_name(b[1])), sv.Value)
            except Exception:
                has = False
            if not has:
                how = 'brackets'
        else:
            how = 'brackets' if how=='attribute' else how
        if kind in ('composite', 'time') or (how=='waypoint' and taken.is_animated) or (how=='timeline' and not taken.is_animated):
            how = 'brackets'
        case.did(what, how, read)
        if how=='brackets':
            target[b[1]] = taken
        elif how=='attribute':
            setattr(target, ops.attribute_name(b[1]), taken)
        elif how=='waypoint':
            target[b[1]].timeline[7] = taken
        else:
            target[b[1]].timeline = taken.timeline
        got = obs.read(target[b[1]]) if how!='waypoint' else obs.read(target[b[1]].timeline[7].value)
        case.check(obs.same(got, read), f'{what} ({how}) did not copy the value', got, read)
        after = everything()
        for i in range(len(layers)):
            if i!=b[0]:
                case.check(after[i]==trees[i], f'{what} ({how}) changed another layer', str(obs.diff(trees[i], after[i])))
        case.check(a[1] in source and obs.same(obs.read(source[a[1]]), read), f'{what} ({how}) changed the source')
        names = [e.get('name') for e in obs.elements(target.tag)]
        for e, old in zip(obs.elements(target.tag), parts):
            if e.get('name')!=b[1]:
                continue
            case.equal(param_tree(e), old, f'{what} changed the parameter element')
        case.saw('copies of new things')
        # now each end is edited, and the other looked at
        for _ in range(2):
            x, _w = ops.good(rng, kind, doc.fps, fps_known=False)
            one, other = rng.choice([(a, b), (b, a)])
            was = obs.tree_of_tag(layers[other[0]][other[1]].tag)
            handle = taken if one is a and rng.random()<0.5 else layers[one[0]][one[1]]
            handle.value = x
            case.check(obs.tree_of_tag(layers[other[0]][other[1]].tag)==was, f'{what} ({how}): editing one end afterwards changed the other')
            case.saw('edits after a copy')
        case.distinct((what, how, read))


@workload('C06', 400, 8000)
def compounds_of_values(case):
    """Gradients and transformations made out of free-standing values copy them."""
    rng = case.rng
    doc, animation = document(case, size=4, types=['linear_gradient', 'group', 'circle', 'conical_gradient'])
    if rng.random()<0.5:
        kind, partkinds = 'gradient', {p: 'color' for p in rng.sample([0, 0.25, 0.5, 0.8, 1], rng.choice([2, 3, 4]))}
    else:
        kind, partkinds = 'composite', {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}
    sites = [s for s in ops.editable(doc, (kind,))]
    parts, want = {}, {}
    shared = None
    for k, pk in partkinds.items():
        if shared is not None and pk=='color' and rng.random()<0.3:
            # the same colour twice
            parts[k], want[k] = shared
            continue
        x, w = ops.good(rng, pk, doc.fps)
        parts[k] = ops.V[pk](x)
        want[k] = w
        shared = (parts[k], w) if pk=='color' else None
    def readings():
        return {k: obs.read(v) for k, v in parts.items()}
    def trees():
        return {k: obs.tree_of_tag(v.tag) for k, v in parts.items()}
    r0, t0 = readings(), trees()
    targets = []
    for _ in range(rng.choice([1, 2])):
        if sites and rng.random()<0.7:
            path, mlayer, name, mvalue = rng.choice(sites)
            layer = obs.at(animation, path)
            if rng.random()<0.5:
                layer[name] = dict(parts)
            else:
                v = layer[name]
                v.value = dict(parts)
            targets.append((f'{mlayer.type}{path}.{name}', (lambda layer=layer, name=name: layer[name])))
        else:
            v = ops.V[kind](dict(parts))
            targets.append((f'a new {kind}', (lambda v=v: v)))
    what = ', '.join(t[0] for t in targets)+f' = {list(parts)}'
    case.did(what, str(want))
    case.check(trees()==t0, f'{what}: this changed the values it was made of', str(trees())[:400], str(t0)[:400])
    def part(v, k):
        return v[k]
    whole = [obs.read(fetch()) for _, fetch in targets]
    for (name, fetch), r in zip(targets, whole):
        case.check(obs.same(r, whole[0]), f'{what}: {name} was made differently', r, whole[0])
        for k in parts:
            case.check(obs.same(obs.read(part(fetch(), k)), r0[k]), f'{what}: {name}[{k!r}] reads back otherwise', obs.read(part(fetch(), k)), r0[k])
    # editing the values it was made of
    k = rng.choice(list(parts))
    x, _ = ops.good(rng, partkinds[k], doc.fps)
    parts[k].value = x
    for (name, fetch), r in zip(targets, whole):
        case.check(obs.same(obs.read(fetch()), r), f'{what}: editing a value it was made of changed {name}', obs.read(fetch()), r)
    # editing the compound
    r1, t1 = readings(), trees()
    for i, (name, fetch) in enumerate(targets):
        k = rng.choice(list(parts))
        x, _ = ops.good(rng, partkinds[k], doc.fps)
        v = fetch()
        if kind=='composite' or rng.random()<0.5:
            part(v, k).value = x
        else:
            v[k] = x
        case.check(trees()==t1, f'{what}: editing [{k!r}] of {name} changed a value it was made of', str(trees())[:400], str(t1)[:400])
        for j, (n2, f2) in enumerate(targets):
            if j>i and n2!=name:
                case.check(obs.same(obs.read(f2()), whole[j]), f'{what}: editing {name} changed {n2}', obs.read(f2()), whole[j])
        case.saw('edits after a copy')
    case.saw('compounds made of values')
    intact(case, animation, 'after copying')
    case.distinct(what+str(want))
