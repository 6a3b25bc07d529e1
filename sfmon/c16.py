"""C16: a timeline is a sorted map from times to waypoints."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops, timelines
from .core import workload, rule
from .common import *

STEPS = ['set to a value', 'set to a Value', 'set to a Waypoint', 'add', 'add several', 'add overwriting', 'iadd', 'add refused', 'delete', 'delete the last',
         'delete absent', 'look up', 'look up absent', 'assign a list', 'assign a dict', 'assign a timeline', 'assign nothing', 'assign itself', 'restore an edited waypoint', 'fresh handle', 'compare']

rule('C16', '''
Histories of setting, adding, overwriting, deleting, replacing and looking up waypoints, with times in every spelling (numbers, frames, seconds, minutes, T with and without a
frame rate, from the end), on values of every kind, in documents (where the waypoints may be out of order) and out of them, through several handles; run against a model which is a
map from exact instants. After every step every view of the timeline, and the stored order, is compared with the model; some histories are saved and reopened. Non-trivial: at least one
step. Distinct by history.''',
     required=[f'steps: {s}' for s in STEPS] + ['timelines judged', 'stored orders judged', 'reopened', 'outside documents', 'file out of order', 'close to another', 'one overwriting another', 'waypoints left as they were'] +
              [f'kind {k}' for k in model.SIMPLE])


def waypoint(case, clock, kind, t, fps):
    """(Waypoint, (before, after, value))"""
    rng = case.rng
    x, want = ops.good(rng, kind, fps or 24, fps_known=False)
    spelled = clock.spell(t)
    b, a = rng.choice(list(model.SPELLINGS)), rng.choice(list(model.SPELLINGS))
    kw = {}
    if not isinstance(spelled, sangfroid.T):
        # in words, or from the end: it needs to know of what
        if clock.animation is not None:
            kw['ref'] = clock.animation.tag
    r = rng.random()
    if r<0.2:
        kw['before'], a = b, 'clamped'
    elif r<0.3:
        a = b = 'clamped'
    else:
        kw['before'], kw['after'] = b, a
    w = sv.Waypoint(time=spelled, value=ops.V[kind](x), **kw)
    return w, (model.SPELLINGS[b], model.SPELLINGS[a], want)


def history(case, handles, m, clock, fps, steps):
    """handles is a function returning a Value."""
    rng = case.rng
    kind = m.kind
    v = handles()
    others = [handles(), handles()]
    for _ in range(steps):
        step = rng.choice(STEPS)
        if step=='compare':
            # with the same, and with ones whose times are others
            tl, again = v.timeline, rng.choice(others).timeline
            case.check(tl==again and again==tl and not tl!=again, f'{tl}: not equal to itself, through another handle')
            case.check(tl==list(tl.values()), f'{tl}: not equal to a list of its waypoints')
            ts = sorted(m.map)
            r = rng.random()
            if ts and r<0.4:
                ts.remove(rng.choice(ts))
            elif ts and r<0.8:
                ts = ts[:rng.randrange(len(ts))]
            else:
                ts.append(max(ts+[Fr(0)])+7)
            other = ops.V[kind](ops.good(rng, kind, 24, fps_known=False)[0])
            other.timeline = [sv.Waypoint(time=sangfroid.T(timelines.decimal(x)+'f'), value=ops.V[kind](ops.good(rng, kind, 24, fps_known=False)[0])) for x in ts]
            for x, y in ((tl, other.timeline), (other.timeline, tl), (tl, list(other.timeline))):
                case.check(not x==y and x!=y, f'timelines with other times are equal: {x} and {y}')
            case.saw(f'steps: {step}')
            continue
        if step=='fresh handle':
            v = handles()
            case.saw(f'steps: {step}')
            continue
        tl = v.timeline
        t = clock.some()
        present = [x for x in m.map]
        if present and rng.random()<0.1:
            # close to one which is there
            t = rng.choice(present)+Fr(rng.choice([1, 2, 7]), 10**rng.choice([2, 3, 4, 5]))
            if (t*10**6).denominator!=1 or any(x!=t and abs(x-t)<Fr(9, 10**6) for x in m.map):
                t = clock.some()
            else:
                case.saw('close to another')
        if step in ('set to a value', 'set to a Value', 'set to a Waypoint'):
            spelled = clock.spell(t)
            what = f'{step} at {float(t)} ({spelled!r})'
            if step=='set to a Waypoint':
                w, want = waypoint(case, clock, kind, clock.some(), fps)
                time = w.time.frames
                tl[spelled] = w
                case.check(w.time.frames==time and obs.same_static(kind, obs.static_of(w.value), want[2]) and (w.before, w.after)==want[:2], f'{what} changed the waypoint it was given', w)
                case.saw('waypoints left as they were')
            else:
                x, value = ops.good(rng, kind, fps or 24, fps_known=fps is not None and step=='set to a value')
                want = ('clamped', 'clamped', value)
                tl[spelled] = ops.V[kind](x) if step=='set to a Value' else x
            m.put(t, want)
        elif step in ('add', 'add several', 'add overwriting', 'iadd', 'add refused'):
            ts = {t}
            if step!='add':
                while rng.random()<0.5:
                    ts.add(clock.some())
                if rng.random()<0.1:
                    # many
                    for _ in range(rng.randrange(9, 30)):
                        ts.add(clock.fresh())
                    many = sorted(set(ts) | set(m.map))
                    if any(b-a<Fr(9, 10**6) for a, b in zip(many, many[1:])):
                        continue
            if step in ('add', 'add several'):
                ts = {x for x in ts if x not in m.map}
            elif step=='add refused':
                if not present:
                    continue
                ts.add(rng.choice(present))
            if not ts:
                continue
            ts = list(ts)
            rng.shuffle(ts)
            made = {x: waypoint(case, clock, kind, x, fps) for x in ts}
            arg = [made[x][0] for x in ts]
            if step in ('add overwriting', 'iadd') and rng.random()<0.15:
                # two at one time: the later one overwrites the earlier
                x = rng.choice(ts)
                made[x] = waypoint(case, clock, kind, x, fps)
                arg.append(made[x][0])
                case.saw('one overwriting another')
            if len(arg)==1 and rng.random()<0.7:
                arg = arg[0]
            what = f'{step} at {[float(x) for x in ts]}'
            if step=='add refused':
                case.raises(lambda: tl.add(arg), Exception, f'{what} was not refused')
            else:
                if step=='iadd':
                    tl += arg
                elif step=='add overwriting':
                    tl.add(arg, overwrite=True)
                else:
                    tl.add(arg)
                for x in ts:
                    m.put(x, made[x][1])
        elif step in ('delete', 'delete the last'):
            if not present or step=='delete the last' and len(present)!=1:
                if step=='delete the last' and present and rng.random()<0.5:
                    for x in present[1:]:
                        del tl[clock.spell(x)]
                        m.remove(x)
                    present = present[:1]
                else:
                    continue
            t = rng.choice(present)
            spelled = clock.spell(t)
            what = f'{step} at {float(t)} ({spelled!r})'
            del tl[spelled]
            m.remove(t)
            if not m.map:
                case.saw('steps: delete the last')
        elif step in ('delete absent', 'look up absent'):
            if t in m.map:
                continue
            if any(abs(t-x)<Fr(1, 10**5) for x in m.map):
                continue
            spelled = clock.spell(t)
            what = f'{step} at {float(t)} ({spelled!r})'
            if step=='delete absent':
                case.raises(lambda: tl.__delitem__(spelled), Exception, f'{what} was not refused')
            else:
                case.raises(lambda: tl[spelled], Exception, f'{what} was not refused')
        elif step=='look up':
            if not present:
                continue
            for t in rng.sample(present, min(2, len(present))):
                spelled = clock.spell(t)
                what = f'{step} at {float(t)} ({spelled!r})'
                w = tl[spelled]
                want = m.map[t]
                case.check(abs(Fr(w.time.frames)-t)<=Fr(2, 10**6), f'{what}: wrong time', w.time.frames)
                case.equal((w.before, w.after), want[:2], f'{what}: wrong interpolation')
                case.check(obs.same_static(kind, obs.static_of(w.value), want[2]), f'{what}: wrong value', obs.static_of(w.value), want[2])
        elif step in ('assign a list', 'assign a dict', 'assign a timeline'):
            ts = {clock.some() for _ in range(rng.randrange(1, 6))}
            ts = list(ts)
            rng.shuffle(ts)
            made = {x: waypoint(case, clock, kind, x, fps) for x in ts}
            what = f'{step} of {[float(x) for x in ts]}'
            if step=='assign a list':
                v.timeline = [made[x][0] for x in ts]
            elif step=='assign a dict':
                v.timeline = {clock.spell(x): made[x][0] for x in ts}
            else:
                other = ops.V[kind](ops.good(rng, kind, 24, fps_known=False)[0])
                other.timeline = [sv.Waypoint(time=sangfroid.T(timelines.decimal(x)+'f'), value=made[x][0].value, before=made[x][1][0], after=made[x][1][1]) for x in ts]
                v.timeline = other.timeline
            m.replace({x: made[x][1] for x in ts})
        elif step=='assign nothing':
            what = step
            static = ops.V[kind](ops.good(rng, kind, 24, fps_known=False)[0])
            v.timeline = rng.choice([[], {}, static.timeline])
            m.replace({})
        elif step=='assign itself':
            what = step
            r = rng.random()
            if r<0.3:
                v.timeline = tl
            elif r<0.6:
                v.timeline = rng.choice(others).timeline
            else:
                v.timeline = tl.values()
        elif step=='restore an edited waypoint':
            if not present:
                continue
            t = rng.choice(present)
            w = tl[clock.spell(t)]
            old = m.map[t]
            b, a = rng.choice(list(model.SPELLINGS)), rng.choice(list(model.SPELLINGS))
            which = rng.choice(['before', 'after', 'both', 'value'])
            value = old[2]
            if which in ('before', 'both'):
                w.before = b
                old = (model.SPELLINGS[b],)+old[1:]
            if which in ('after', 'both'):
                w.after = a
                old = old[:1]+(model.SPELLINGS[a],)+old[2:]
            if which=='value':
                x, value = ops.good(rng, kind, 24, fps_known=False)
                w.value = ops.V[kind](x)
            t2 = t if rng.random()<0.7 else clock.some()
            what = f'{step}: {which} at {float(t)}, to {float(t2)}'
            if t2==t and rng.random()<0.5:
                tl.add(w, overwrite=True)
            else:
                tl[clock.spell(t2)] = w
            m.put(t2, old[:2]+(value,))
        else:
            raise core.HarnessError(step)
        case.saw(f'steps: {step}')
        case.did(what)
        m_what = f'after {what}'
        timelines.judge(case, v, m, m_what, stored=True if step not in ('look up', 'look up absent', 'add refused', 'delete absent', 'assign itself') else case.sorted)
        if step not in ('look up', 'look up absent', 'add refused', 'delete absent', 'assign itself'):
            case.sorted = True
        timelines.judge(case, rng.choice(others), m, f'{m_what}, through another handle', stored=case.sorted)
    return v


@workload('C16', 1300, 32000)
def in_documents(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4]))
    fps = doc.fps
    sites = list(ops.editable(doc, model.SIMPLE))
    if not sites:
        return
    kinds = {}
    for s in sites:
        kinds.setdefault((s[3].kind, s[3].animated), []).append(s)
    path, l, name, mvalue = rng.choice(kinds[rng.choice(sorted(kinds))])
    m = timelines.model_of(mvalue, fps)
    clock = timelines.Clock(rng, fps, animation, doc.attrs)
    clock.pool += list(m.map)
    clock.pool = [x for x in clock.pool if (x*10**6).denominator==1]
    for x in m.map:
        if (x*10**6).denominator!=1:
            return
    # instants of the pool mustn't be nearly the same
    pool = sorted(set(clock.pool))
    if any(b-a<Fr(1, 10**4) for a, b in zip(pool, pool[1:])):
        return
    layer = obs.at(animation, path)
    route = rng.choice(['brackets', 'items'] + (['attribute'] if ops.attribute_name(name) else []))
    handles = lambda: ops.fetch(obs.at(animation, path) if rng.random()<0.5 else layer, name, route)
    case.did(f'{l.type}{path}.{name} at {float(fps)} fps: {sorted(float(x) for x in m.map)}')
    in_order = [model.frames_of(w[0], fps) for w in mvalue.waypoints or []]
    case.sorted = in_order==sorted(in_order)
    if not case.sorted:
        case.saw('file out of order')
    timelines.judge(case, handles(), m, 'as opened', stored=case.sorted)
    history(case, handles, m, clock, fps, rng.choice([3, 8, 15]))
    case.saw(f'kind {mvalue.kind}')
    intact(case, animation, 'after the history')
    if rng.random()<0.5:
        fn = case.path(rng.choice(['b.sif', 'b.sifz']))
        animation.save(fn)
        timelines.judge(case, obs.at(sangfroid.open(fn), path)[name], m, 'after reopening', stored=case.sorted)
        case.saw('reopened')
    case.distinct(case.log)


@workload('C16', 700, 16000)
def out_of_documents(case):
    rng = case.rng
    kind = rng.choice(model.SIMPLE)
    x, static = ops.good(rng, kind, 24, fps_known=False)
    v = ops.V[kind](x)
    m = timelines.Timeline(kind, None, static)
    clock = timelines.Clock(rng, None)
    case.sorted = True
    case.did(f'a new {kind}')
    r = rng.random()
    if r<0.5:
        handles = lambda: v
    else:
        handles = lambda: sv.Value.from_tag(v.tag)
    history(case, handles, m, clock, None, rng.choice([3, 8, 15]))
    case.saw('outside documents')
    case.saw(f'kind {kind}')
    case.distinct(case.log)
