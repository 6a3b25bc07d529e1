"""C17: turning animation on and off keeps the value."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops, timelines
from .core import workload, rule
from .common import *

rule('C17', '''
Histories of marking values of every kind as animated and not, with other edits between, in documents (from files, with waypoints in any order, and in new layers) and out of them, through several
handles to the same value; run against a model. After every step the value is read through every handle, and everything else in the document is compared with a snapshot; marking a value as it already is must change
nothing at all. Non-trivial: at least one marking. Distinct by history.''',
     required=['turned on', 'turned off', 'already on', 'already off', 'several waypoints turned off', 'out of order turned off', 'outside documents', 'new layers',
               'other handles', 'the rest compared', 'reopened', 'other edits between', 'parts of transformations'] +
     [f'{k} turned {s}' for k in model.SIMPLE for s in ('on', 'off')])


def rest(animation, tag):
    """Everything in the document but the value."""
    path = obs.epath(animation.tag, tag)
    return obs.tree_of_tag(animation.tag, hole=path)


def history(case, handles, m, steps, animation=None, clock=None, fps=None):
    rng = case.rng
    hs = [handles() for _ in range(3)]
    kind = m.kind
    for h in hs:
        timelines.judge(case, h, m, 'at first', stored=False)
    for _ in range(steps):
        h = rng.choice(hs)
        tag = h.tag
        before = rest(animation, tag) if animation is not None else None
        r = rng.random()
        if r<0.75:
            on = rng.random()<0.5
            given = rng.choice([True, 1, 'yes'] if on else [False, 0, '']) if rng.random()<0.2 else on
            what = f'is_animated = {given!r}'
            already = m.animated==on
            snapshot = obs.exact(tag) if already else None
            first = obs.read(h)
            h.is_animated = given
            if already:
                case.check(obs.exact(tag)==snapshot, f'{what}, when it was so already, changed something')
                case.saw(f'already {"on" if on else "off"}')
            else:
                case.saw(f'turned {"on" if on else "off"}')
                case.saw(f'{kind} turned {"on" if on else "off"}')
                case.check(h.tag.get('value' if on else 'type') is None, f'{what} left the {"value" if on else "type"} it no longer has in the tag', h.tag.attrs)
                if not on and len(m.map)>1:
                    case.saw('several waypoints turned off')
                    if case.sorted is False:
                        case.saw('out of order turned off')
                case.sorted = True
            m.turn(on)
        elif r<0.88:
            x, want = ops.good(rng, kind, fps or 24, fps_known=False)
            h.value = x
            m.map, m.static = {}, want
            what = f'value = {x!r}'
            case.saw('other edits between')
            case.sorted = True
        else:
            t = Fr(rng.randrange(0, 50))
            x, want = ops.good(rng, kind, fps or 24, fps_known=False)
            h.timeline[int(t)] = x
            m.put(t, ('clamped', 'clamped', want))
            what = f'timeline[{t}] = {x!r}'
            case.saw('other edits between')
            case.sorted = True
        case.did(what)
        for i, other in enumerate(hs):
            timelines.judge(case, other, m, f'after {what}, through {"the same" if other is h else "another"} handle', stored=case.sorted is not False)
            if other is not h:
                case.saw('other handles')
        timelines.judge(case, handles(), m, f'after {what}, through a new handle', stored=case.sorted is not False)
        if animation is not None:
            case.check(h.tag is not None and obs.epath(animation.tag, h.tag) is not None, f'after {what} the value is no longer in the document')
            now = rest(animation, h.tag)
            case.check(now==before, f'{what} changed something else', str(obs.diff(before, now)))
            case.saw('the rest compared')
            intact(case, animation, f'after {what}')


@workload('C17', 1500, 36000)
def in_documents(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([1, 3]))
    fps = doc.fps
    sites = list(ops.editable(doc, model.SIMPLE))
    if not sites:
        return
    kinds = {}
    for s in sites:
        kinds.setdefault((s[3].kind, s[3].animated), []).append(s)
    path, l, name, mvalue = rng.choice(kinds[rng.choice(sorted(kinds))])
    m = timelines.model_of(mvalue, fps)
    layer = obs.at(animation, path)
    names = ['brackets', 'items'] + (['attribute'] if ops.attribute_name(name) else [])
    handles = lambda: ops.fetch(obs.at(animation, path) if rng.random()<0.5 else layer, name, rng.choice(names))
    order = [model.frames_of(w[0], fps) for w in mvalue.waypoints or []]
    case.sorted = order==sorted(order)
    case.did(f'{l.type}{path}.{name}, {"animated" if mvalue.animated else "static"}')
    history(case, handles, m, rng.choice([1, 3, 6]), animation, fps=fps)
    if rng.random()<0.3:
        fn = case.path('b.sif')
        animation.save(fn)
        timelines.judge(case, obs.at(sangfroid.open(fn), path)[name], m, 'after reopening', stored=False)
        case.saw('reopened')
    case.distinct(case.log)


@workload('C17', 700, 16000)
def out_of_documents(case):
    rng = case.rng
    kind = rng.choice(model.SIMPLE)
    case.sorted = True
    if rng.random()<0.5:
        x, static = ops.good(rng, kind, 24, fps_known=False)
        v = ops.V[kind](x)
        m = timelines.Timeline(kind, None, static)
        handles = lambda: rng.choice([v, sv.Value.from_tag(v.tag)])
        case.did(f'a new {kind}: {x!r}')
        case.saw('outside documents')
        history(case, handles, m, rng.choice([1, 3, 6]))
    else:
        t = rng.choice(['Circle', 'Text', 'Star', 'Group', 'Linear_Gradient', 'Timeloop'])
        l = getattr(sangfroid.layer, t)()
        names = [n for n, v in l.items() if obs.kind_of(v) in model.SIMPLE and obs.kind_of(v)!='time']
        n = rng.choice(names)
        animation = None
        if rng.random()<0.5:
            animation = sangfroid.Animation()
            animation.append(l)
        kind = obs.kind_of(l[n])
        m = timelines.Timeline(kind, None, obs.static_of(l[n]))
        case.did(f'{n} of a new {t}')
        case.saw('new layers')
        history(case, lambda: l[n], m, rng.choice([1, 3, 6]), animation, fps=24)
    case.distinct(case.log)


@workload('C17', 300, 7000)
def parts(case):
    """Parts of transformations."""
    rng = case.rng
    doc, animation = document(case, size=4, types=['group', 'group', 'circle'])
    fps = doc.fps
    sites = [(p, v) for p, l, n, v in ops.editable(doc, ('composite',))]
    if not sites:
        return
    path, mv = rng.choice(sites)
    part = rng.choice(['offset', 'angle', 'skew_angle', 'scale'])
    mvalue = dict(mv.content)[part]
    m = timelines.model_of(mvalue, fps)
    layer = obs.at(animation, path)
    def handles():
        r = rng.random()
        if r<0.25:
            return layer.transformation[part]
        if r<0.5:
            return getattr(layer, part)
        if r<0.75:
            return getattr(layer.transformation, part)
        return layer['transformation'].value[part]
    order = [model.frames_of(w[0], fps) for w in mvalue.waypoints or []]
    case.sorted = order==sorted(order)
    case.did(f'{part} of group{path}')
    history(case, handles, m, rng.choice([1, 3, 6]), animation, fps=fps)
    case.saw('parts of transformations')
    case.distinct(case.log)
