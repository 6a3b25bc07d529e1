"""C08: a refused edit leaves the document untouched."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C08', '''
Edits which must be refused - bad values of every kind by every route, values and waypoints of the wrong kind, bad or clashing waypoints alone and in
the middle of lists, bad times, interpolations, indexes, settings, params which are not there, things which are not layers, groups into
themselves - at random places in random documents; and edits with arbitrary junk, which need not be refused. Each must raise where it must, and
whenever one raises, the whole document (canonical form of the tree in memory, its links) and everything readable must be as it was.
Non-trivial: the edit raised. Distinct by document, place and edit.''',
     required=['refused', 'documents compared', 'junk tried', 'junk refused', 'good edits after a refusal'] +
     [f'bad {k} by {r}' for k in model.EDITABLE if k not in ('string', 'bool') for r in ops.ROUTES] +
     ['timeline edits refused', 'group edits refused', 'settings refused', 'waypoints refused', 'wrong kind refused',
      'missing params refused'])


class Watch:
    """Watches documents for change."""
    def __init__(self, case, *animations):
        self.case = case
        self.animations = animations
        self.before = [(obs.tree_of_tag(a.tag), obs.readout(a)) for a in animations]

    def check(self, what):
        for a, (tree, readout) in zip(self.animations, self.before):
            now = obs.tree_of_tag(a.tag)
            if now!=tree:
                self.case.fail(f'the document changed although this was refused: {what}', obs.diff(tree, now) or '')
            d = obs.compare_readouts(readout, obs.readout(a))
            self.case.check(d is None, f'something reads differently although this was refused: {what}', d or '')
            intact(self.case, a, f'after this was refused: {what}')
            self.case.saw('documents compared')

    def refused(self, fn, what):
        self.case.did(what)
        self.case.raises(fn, Exception, f'this was not refused: {what}')
        self.case.saw('refused')
        self.check(what)
        self.case.distinct(what)


def afterwards(case, animation, doc):
    """The document still works."""
    e = ops.random_edit(case, animation, doc.fps)
    case.did('then', e)
    intact(case, animation, 'after a good edit after a refusal')
    case.saw('good edits after a refusal')


@workload('C08', 1600, 40000)
def bad_values(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    sites = [s for s in ops.editable(doc) if s[3].kind not in ('string', 'bool')]
    if not sites:
        return
    kinds = {}
    for s in sites:
        kinds.setdefault(s[3].kind, []).append(s)
    watch = Watch(case, animation)
    for _ in range(3):
        path, mlayer, name, mvalue = rng.choice(kinds[rng.choice(list(kinds))])
        layer = obs.at(animation, path)
        kind = mvalue.kind
        x = ops.bad(rng, kind)
        route = rng.choice(ops.routes(mlayer.type, name))
        what = f'{mlayer.type}{path}.{name} ({"animated" if mvalue.animated else "static"} {kind}) = {x!r} by {route}'
        watch.refused(lambda: ops.assign(layer, name, x, route), what)
        case.saw(f'bad {kind} by {route}')
    afterwards(case, animation, doc)


def wrong_value(rng, kind, fps):
    """A Value of a kind which can't go where this kind belongs."""
    fits = {'real': {'real', 'angle', 'integer', 'bool', 'string', 'time'}, 'angle': {'real', 'angle', 'integer', 'bool', 'string', 'time'},
            'integer': {'real', 'integer', 'bool', 'angle', 'string', 'time'}, 'time': {'real', 'integer', 'angle', 'bool', 'string'}}
    others = [k for k in model.EDITABLE if k!=kind and k not in fits.get(kind, ())]
    k = rng.choice(others)
    return k, ops.V[k](ops.good(rng, k, fps, fps_known=False)[0])


@workload('C08', 700, 16000)
def wrong_kinds(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    sites = [s for s in ops.editable(doc)]
    if not sites:
        return
    watch = Watch(case, animation)
    for _ in range(3):
        path, mlayer, name, mvalue = rng.choice(sites)
        layer = obs.at(animation, path)
        kind = mvalue.kind
        k, x = wrong_value(rng, kind, doc.fps)
        animated = k!='composite' and rng.random()<0.4
        if animated:
            x.is_animated = True
        if kind in ('string', 'bool') and not animated:
            route = 'brackets'
        elif animated:
            route = rng.choice(['attribute', 'brackets', 'timeline'])
            if route=='attribute' and ops.attribute_name(name) is None:
                route = 'brackets'
        else:
            route = rng.choice(ops.routes(mlayer.type, name))
        if kind=='composite' and route=='timeline':
            route = 'brackets'
        what = f'{mlayer.type}{path}.{name} ({kind}) = {"animated " if animated else ""}{k} {x!r} by {route}'
        if route=='timeline':
            def fn():
                layer[name].timeline = x.timeline
        else:
            def fn():
                ops.assign(layer, name, x, route)
        watch.refused(fn, what)
        case.saw('wrong kind refused')
    afterwards(case, animation, doc)


def absent_time(v):
    times = [w.time.frames for w in v.timeline]
    t = 1234.5
    while any(abs(t-u)<1 for u in times):
        t += 7
    return t


@workload('C08', 1200, 30000)
def timelines(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    sites = [s for s in ops.editable(doc, model.SIMPLE)]
    sites = [s for s in sites if s[3].animated] or sites
    if not sites:
        return
    watch = Watch(case, animation)
    for _ in range(3):
        path, mlayer, name, mvalue = rng.choice(sites)
        layer = obs.at(animation, path)
        v = layer[name]
        kind = mvalue.kind
        times = [w.time.frames for w in v.timeline]
        good = [ops.waypoint(rng, animation, kind, doc.fps, frames=2000+10*i)[0] for i in range(2)]
        others = [k for k in model.SIMPLE if k!=kind]
        wrong = ops.waypoint(rng, animation, rng.choice(others), doc.fps, frames=3000)[0]
        junk = rng.choice([5, 'x', None, object(), [5], sv.Real(1), {}, (good[0],), [None]])
        bad_time = rng.choice(['junk', '', '1x', '1s 1s', None, [], object(), float('nan'), float('inf'), '1..2f', (1,)])
        choices = [
            ('add wrong kind', lambda: v.timeline.add(wrong)),
            ('add good, wrong', lambda: v.timeline.add(good+[wrong])),
            ('add wrong, good', lambda: v.timeline.add([wrong]+good, overwrite=True)),
            ('add good, junk', lambda: v.timeline.add(good+[5])),
            (f'add {junk!r}', lambda: v.timeline.add(junk)),
            ('add a dict', lambda: v.timeline.add({0: good[0]})),
            ('+= wrong', lambda: v.timeline.__iadd__(wrong)),
            ('timeline = good, wrong', lambda: setattr(v, 'timeline', good+[wrong])),
            ('timeline = wrong', lambda: setattr(v, 'timeline', [wrong])),
            ('timeline = good, junk', lambda: setattr(v, 'timeline', good+['junk'])),
            (f'timeline = junk', lambda: setattr(v, 'timeline', rng.choice([5, 'abc', None, (good[0],), good[0], object()]))),
            ('timeline = dict of junk', lambda: setattr(v, 'timeline', {0: 'x'})),
            ('[t] = wrong waypoint', lambda: v.timeline.__setitem__(5, wrong)),
            (f'[{bad_time!r}] = waypoint', lambda: v.timeline.__setitem__(bad_time, good[0])),
            (f'del [{bad_time!r}]', lambda: v.timeline.__delitem__(bad_time)),
            ('del absent', lambda: v.timeline.__delitem__(absent_time(v))),
            (f'[{bad_time!r}] = value', lambda: v.timeline.__setitem__(bad_time, ops.good(rng, kind, doc.fps)[0])),
            ]
        if kind not in ('string', 'bool'):
            x = ops.bad(rng, kind)
            choices += [(f'[7] = {x!r}', lambda: v.timeline.__setitem__(7, x))]*3
        if times:
            t = rng.choice(times)
            clash = ops.waypoint(rng, animation, kind, doc.fps, frames=t)[0]
            choices += [
                (f'add clashing at {t}', lambda: v.timeline.add(clash)),
                (f'add good then clashing at {t}', lambda: v.timeline.add(good+[clash])),
                (f'add clashing at {t} then good', lambda: v.timeline.add([clash]+good)),
                (f'[{t}] = wrong waypoint', lambda: v.timeline.__setitem__(t, wrong)),
                (f'add overwriting at {t}, and wrong', lambda: v.timeline.add([clash, wrong], overwrite=True)),
                ]*2
        label, fn = rng.choice(choices)
        watch.refused(fn, f'{mlayer.type}{path}.{name} ({"animated" if mvalue.animated else "static"} {kind}): {label}')
        case.saw('timeline edits refused')
    afterwards(case, animation, doc)


@workload('C08', 400, 8000)
def waypoints(case):
    """Bad waypoints can't be made, and good ones can't be made bad."""
    rng = case.rng
    doc, animation = document(case, size=3)
    kind = rng.choice(model.SIMPLE)
    x, _ = ops.good(rng, kind, doc.fps, fps_known=False)
    v = ops.V[kind](x)
    watch = Watch(case, animation)
    bad = rng.choice(['undefined', 'wombat', '', None, 5, 'CLAMPED', 'Linear', ' linear', 'aut', True, 'autohalt'])
    side = rng.choice(['before', 'after'])
    watch.refused(lambda: sv.Waypoint(0, v, **{side: bad}), f'Waypoint({side}={bad!r})')
    case.raises(lambda: sv.Waypoint(0, rng.choice([5, 'x', None, animation])), Exception, 'a waypoint holds a plain object')
    case.raises(lambda: sv.Waypoint(rng.choice([None, [], v, 'junk', '1s', object()]), v), Exception, 'a waypoint has a bad time')
    if kind!='color':
        a = ops.V[kind](x)
        a.is_animated = True
        case.raises(lambda: sv.Waypoint(0, a), Exception, 'a waypoint holds an animated value')
    case.saw('waypoints refused', 3)
    # one which is in a document
    sites = [s for s in ops.editable(doc, model.SIMPLE) if s[3].animated]
    if sites:
        path, mlayer, name, _ = rng.choice(sites)
        w = rng.choice(list(obs.at(animation, path)[name].timeline))
        was = w.before, w.after
        watch.refused(lambda: setattr(w, side, bad), f'waypoint.{side} = {bad!r}')
        case.equal((w.before, w.after), was, f'a waypoint changed although this was refused: {side} = {bad!r}')
        case.saw('waypoints refused')


@workload('C08', 500, 12000)
def groups(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([4, 8]))
    other = sangfroid.Animation()
    spare = sangfroid.layer.Circle()
    other.append(spare)
    layers = [obs.at(animation, p) for p, _, _ in doc.walk()]
    groups = [animation] + [l for l in layers if isinstance(l, sangfroid.layer.Group)]
    leaves = [l for l in layers if not isinstance(l, sangfroid.layer.Group)]
    watch = Watch(case, animation, other)
    fresh = sangfroid.layer.Text('x')
    for _ in range(4):
        g = rng.choice(groups)
        n = len(g)
        junk = rng.choice([5, 'circle', None, spare.tag, [spare], sv.Real(1), sangfroid.layer.Circle, object()])
        inside = [l for l in layers if l is not g and inside_of(l, g)]
        choices = [
            (f'append {junk!r:.50}', lambda: g.append(junk)),
            (f'insert {junk!r:.50}', lambda: g.insert(0, junk)),
            (f'insert at {n}', lambda: g.insert(n, spare)),
            (f'insert at {-n-1}', lambda: g.insert(-n-1, spare)),
            (f'insert new at {n+5}', lambda: g.insert(n+5, fresh)),
            ('append to itself', lambda: g.append(g)),
            ]
        if n:
            choices += [('insert into itself', lambda: g.insert(0, g))]
        if inside:
            sub = [l for l in inside if isinstance(l, sangfroid.layer.Group)]
            if sub and g is not animation:
                s = rng.choice(sub)
                choices += [('append to its descendant', lambda: s.append(g))]*3
                if len(s):
                    choices += [('insert in its descendant', lambda: s.insert(rng.randrange(len(s)), g))]*3
        if leaves:
            leaf = rng.choice(leaves)
            choices += [('append to a leaf', lambda: leaf.append(spare)), ('insert in a leaf', lambda: leaf.insert(0, spare))]
        if g is not animation:
            choices += [('canvas of junk', lambda: setattr(g, 'canvas', [junk])),
                        ('canvas of layers and junk', lambda: setattr(g, 'canvas', [fresh, 'junk'])),
                        ('canvas = 5', lambda: setattr(g['canvas'], 'value', 5))]
        label, fn = rng.choice(choices)
        watch.refused(fn, label)
        case.saw('group edits refused')
    case.check(spare.tag.parent is not None and other[0].tag is spare.tag, 'the layer to be added left its place')
    afterwards(case, animation, doc)


def inside_of(l, g):
    cursor = l.tag.parent
    while cursor is not None:
        if cursor is g.tag:
            return True
        cursor = cursor.parent
    return False


@workload('C08', 600, 12000)
def settings(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    watch = Watch(case, animation)
    path, mlayer, _ = rng.choice(list(doc.walk()))
    layer = obs.at(animation, path)
    for _ in range(4):
        r = rng.random()
        if r<0.4:
            a = rng.choice(['width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'antialias', 'fps', 'version'])
            x = rng.choice(['abc', '', None, object(), [], '1.2.3', b'\xff', (1, 2)])
            watch.refused(lambda: setattr(animation, a, x), f'animation.{a} = {x!r}')
        elif r<0.55:
            a = rng.choice(['begin_time', 'end_time'])
            x = rng.choice(['abc', '', None, object(), '1x', '1s 1s', '5', '1s junk', float('nan'), [], 'f', '--1f', '1.2.3f'])
            watch.refused(lambda: setattr(animation, a, x), f'animation.{a} = {x!r}')
        elif r<0.7:
            a = rng.choice(['name', 'desc'])
            x = rng.choice([5, None, object(), [], b'x', 1.5])
            watch.refused(lambda: setattr(animation, a, x), f'animation.{a} = {x!r}')
        elif r<0.8:
            a = rng.choice(['size', 'viewbox', 'framecount', 'background', 'keyframes', 'canvas_tag', 'tag'])
            watch.refused(lambda: setattr(animation, a, 5), f'animation.{a} = 5')
        elif r<0.9:
            a, x = rng.choice([('tag', layer.tag), ('tag', 5), ('parent', animation), ('version', 'abc'), ('version', None), ('children', []),
                               ('version', [])])
            watch.refused(lambda: setattr(layer, a, x), f'{mlayer.type}.{a} = {x!r:.100}')
        else:
            a = 'type_'
            if any(n=='type' for n, _ in mlayer.params) or 'type_' in type(layer).__dict__:
                continue
            x = rng.choice(['circle', 'group', mlayer.type, 5])
            watch.refused(lambda: setattr(layer, a, x), f'{mlayer.type}.{a} = {x!r}')
        case.saw('settings refused')
    afterwards(case, animation, doc)


def names_below(layer):
    return {n for n, _ in layer.params} | {n for c in layer.children for n in names_below(c)}


@workload('C08', 500, 10000)
def missing_params(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    watch = Watch(case, animation)
    for _ in range(3):
        path, mlayer, _ = rng.choice(list(doc.walk()))
        layer = obs.at(animation, path)
        there = names_below(mlayer)
        absent = sorted(({'wombat', 'Radius', 'radius ', '', 'text', 'amount', 'color', 'origin', 'transformation', 'points', 'x.y', 'param',
                          'desc', 'active'} | {p['name'] for p in model.SPEC[mlayer.type]['params']}) - there)
        name = rng.choice(absent)
        x = rng.choice([5, 'x', True, None, (1, 2), '#ffffff', sv.Real(1), sv.String('x'), {}])
        watch.refused(lambda: layer.__setitem__(name, x), f'{mlayer.type}{path}[{name!r}] = {x!r}')
        case.saw('missing params refused')
        fields = [p['name'] for p in model.SPEC[mlayer.type]['params'] if p['name'] in absent
                  and '[' not in p['name'] and p['name']!='type' and p['kind'] in model.EDITABLE]
        if fields:
            name = rng.choice(fields)
            x = rng.choice([5, 'x', True, None, (1, 2), '#ffffff'])
            watch.refused(lambda: setattr(layer, name, x), f'{mlayer.type}{path}.{name} = {x!r}, which it has not got')
            case.saw('missing params refused')
    afterwards(case, animation, doc)


JUNK = [None, 0, -1, 5, 2.5, -7.25, float('nan'), float('inf'), 1e300, '', ' ', 'x', '#ffffff', '#fff', '12', '1s', '-1s', '1f', 'true', True, False,
        (), (1,), (1, 2), (1, 2, 3), (1, 2, 3, 4), ('1', '2'), (1, 'x'), [], [1, 2], {}, {'x': 1}, {'x': 1, 'y': 2}, {'x': 1, 'y': 'z'}, {0: '#000000', 1: '#ffffff'},
        {0: '#000000', 1: 'x'}, {'angle': 5}, {'angle': 'x', 'scale': (1, 1)}, {'scale': (1, 1), 'offset': 'x'}, b'x', 2**70, set(), object,
        len, 1j, range(2), {'offset': (1, 2), 'angle': 3, 'scale': (1,)}, {0: (1, 1, 1), 0.5: (1, 1), 1: (0, 0, 0)}, '1e5', '0x10', '٣', 'NaN']

@workload('C08', 1200, 30000)
def junk(case):
    """Arbitrary objects assigned anywhere: they may be accepted, but if not, nothing has happened."""
    rng = case.rng
    doc, animation = document(case, size=rng.choice([1, 3]))
    sites = list(ops.editable(doc))
    for _ in range(6):
        watch = Watch(case, animation)
        pick = rng.random()
        x = rng.choice(JUNK)
        if rng.random()<0.25:
            k = rng.choice(model.EDITABLE)
            x = ops.V[k](ops.good(rng, k, doc.fps, fps_known=False)[0])
            if rng.random()<0.4 and k!='composite':
                x.is_animated = True
        if pick<0.6 and sites:
            path, mlayer, name, mvalue = rng.choice(sites)
            layer = obs.at(animation, path)
            route = rng.choice(ops.routes(mlayer.type, name)+['timeline', 'item', 'add', 'animated', 'part'])
            what = f'{mlayer.type}.{name} = {x!r} by {route}'
            v = layer[name]
            fn = {'timeline': lambda: setattr(v, 'timeline', x), 'item': lambda: v.timeline.__setitem__(rng.choice([0, 5, '1s']), x),
                  'add': lambda: v.timeline.add(rng.choice([x, [x]])), 'animated': lambda: setattr(v, 'is_animated', x),
                  'part': lambda: v.__setitem__(rng.choice([0.5, 'x', 'offset', 0]), x)}.get(
                          route, lambda: ops.assign(layer, name, x, route))
        elif pick<0.8:
            path, mlayer, _ = rng.choice(list(doc.walk()))
            layer = obs.at(animation, path)
            a = rng.choice(['active', 'exclude_from_rendering', 'desc', 'version', 'type_'])
            what = f'{mlayer.type}.{a} = {x!r}'
            fn = lambda: setattr(layer, a, x)
        else:
            a = rng.choice(['width', 'height', 'xres', 'gamma_r', 'antialias', 'begin_time', 'end_time', 'bgcolor', 'name', 'desc',
                            'view_box', 'version'])
            what = f'animation.{a} = {x!r}'
            fn = lambda: setattr(animation, a, x)
        case.saw('junk tried')
        try:
            fn()
        except Exception as e:
            case.did(what, 'raised', type(e).__name__)
            watch.check(f'{what} ({type(e).__name__})')
            case.saw('junk refused')
            case.distinct(what)
        else:
            case.did(what, 'accepted')
            intact(case, animation, f'after {what}')
            doc2 = [(p, l) for p, l, _ in doc.walk()]
            return
