"""C18: interpolation kinds are kept, normalised and checked."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops, timelines
from .core import workload, rule
from .common import *

rule('C18', '''
Waypoints made with every pair of interpolations in every spelling, by keyword and position, defaulted, changed, stored in timelines in and out of documents, saved, reopened, and left alone while
their neighbours are edited; and waypoints read from files in every spelling: judged against a model which keeps the two apart. Bad ones (undefined, other names, cases and types, in constructors, assignments and files) must
be errors, and change neither the waypoint nor the document. Non-trivial: at least one interpolation judged. Distinct by history.''',
     required=['made', 'defaults', 'changed', 'refused when made', 'refused when changed', 'refused in a file', 'stored', 'reopened', 'neighbours edited', 'read from a file',
               'stored as given by the caller'] + [f'given {k} {w}' for k in model.SPELLINGS for w in ('before', 'after')])

BAD = ['undefined', 'UNDEFINED', 'Undefined', '', ' ', 'tcb ', ' linear', 'TCB', 'Linear', 'CLAMPED', 'hold', 'step', 'manual', 'none', 'None', None, 0, 1, 5.0, True, False, 'auto,halt', 'lin', 'linear\n',
       b'linear', ('linear',), ['linear'], {'linear': 1}, object(), 'eased', 'constant_', '🟢', 'undefinéd']


def judge(case, w, want, what):
    case.equal((w.before, w.after), want, f'{what}: wrong interpolation')


@workload('C18', 1500, 36000)
def made(case):
    rng = case.rng
    kind = rng.choice(model.SIMPLE)
    for _ in range(6):
        x, _ = ops.good(rng, kind, 24, fps_known=False)
        value = ops.V[kind](x)
        b, a = rng.choice(list(model.SPELLINGS)), rng.choice(list(model.SPELLINGS))
        t = rng.randrange(0, 100)
        r = rng.random()
        if r<0.4:
            w = sv.Waypoint(time=t, value=value, before=b, after=a)
        elif r<0.55:
            w = sv.Waypoint(t, value, b, a)
        elif r<0.65:
            w, a = sv.Waypoint(t, value, before=b), 'clamped'
        elif r<0.75:
            w, b = sv.Waypoint(t, value, after=a), 'clamped'
        elif r<0.85:
            w, a, b = sv.Waypoint(time=t, value=value), 'clamped', 'clamped'
            case.saw('defaults')
        else:
            bad = rng.choice(BAD)
            kw = {'before': bad} if rng.random()<0.4 else {'after': bad} if rng.random()<0.6 else {'before': bad, 'after': bad}
            if len(kw)==1 and rng.random()<0.5:
                kw['after' if 'before' in kw else 'before'] = 'linear'
            case.raises(lambda: sv.Waypoint(time=t, value=value, **kw), Exception, f'a Waypoint with {kw!r:.100} was not refused')
            case.saw('refused when made')
            case.distinct(('bad', repr(kw)[:60]))
            continue
        case.saw(f'given {b} before')
        case.saw(f'given {a} after')
        want = (model.SPELLINGS[b], model.SPELLINGS[a])
        judge(case, w, want, f'made with {b!r}, {a!r}')
        case.saw('made')
        for _ in range(rng.randrange(0, 4)):
            side = rng.choice(['before', 'after'])
            if rng.random()<0.4:
                bad = rng.choice(BAD)
                case.raises(lambda: setattr(w, side, bad), Exception, f'{side} = {bad!r:.60} was not refused')
                judge(case, w, want, f'after {side} = {bad!r:.60} was refused')
                case.saw('refused when changed')
            else:
                s = rng.choice(list(model.SPELLINGS))
                setattr(w, side, s)
                want = (model.SPELLINGS[s], want[1]) if side=='before' else (want[0], model.SPELLINGS[s])
                judge(case, w, want, f'after {side} = {s!r}')
                case.saw(f'given {s} {side}')
                case.saw('changed')
        case.did(f'{b} {a} -> {want}')
        case.distinct((b, a, want))


@workload('C18', 1500, 36000)
def kept(case):
    rng = case.rng
    doc, animation = document(case, size=3)
    fps = doc.fps
    sites = list(ops.editable(doc, model.SIMPLE))
    if not sites:
        return
    animated = [s for s in sites if s[3].animated]
    path, l, name, mvalue = rng.choice(animated if animated and rng.random()<0.6 else sites)
    kind = mvalue.kind
    m = {t: w[:2] for t, w in timelines.model_of(mvalue, fps).map.items()}
    layer = obs.at(animation, path)
    case.did(f'{l.type}{path}.{name}')

    def check(v, what):
        got = [(w.time.frames, w.before, w.after) for w in v.timeline]
        want = [(float(t),)+w for t, w in sorted(m.items())]
        case.check(len(got)==len(want) and all(abs(g[0]-w[0])<1e-3 and g[1:]==w[1:] for g, w in zip(got, want)), f'{what}: wrong interpolations', f'got  {got}', f'want {want}')

    check(layer[name], 'as read from the file')
    if m:
        case.saw('read from a file')
    for _ in range(rng.randrange(1, 6)):
        v = layer[name]
        r = rng.random()
        t = Fr(rng.randrange(0, 50))
        while any(0<abs(t-x)<Fr(1, 2) for x in m):
            t += 1
        if r<0.35:
            x, _ = ops.good(rng, kind, fps, fps_known=False)
            b, a = rng.choice(list(model.SPELLINGS)), rng.choice(list(model.SPELLINGS))
            w = sv.Waypoint(time=int(t), value=ops.V[kind](x), before=b, after=a)
            if rng.random()<0.5:
                v.timeline.add(w, overwrite=True)
            else:
                v.timeline[int(t)] = w
            judge(case, w, (model.SPELLINGS[b], model.SPELLINGS[a]), 'the waypoint which was stored')
            m[t] = (model.SPELLINGS[b], model.SPELLINGS[a])
            what = f'storing {b!r}, {a!r} at {t}'
            case.saw('stored')
            case.saw('stored as given by the caller')
        elif r<0.5:
            x, _ = ops.good(rng, kind, fps, fps_known=False)
            v.timeline[int(t)] = x
            m[t] = ('clamped', 'clamped')
            what = f'storing a value at {t}'
            case.saw('defaults')
        elif r<0.65 and len(m)>1:
            t = rng.choice(sorted(m))
            del v.timeline[v.timeline.keys()[sorted(m).index(t)]]
            del m[t]
            what = f'deleting at {float(t)}'
            case.saw('neighbours edited')
        elif m:
            ts = sorted(m)
            i = rng.randrange(len(ts))
            w = v.timeline.values()[i]
            side = rng.choice(['before', 'after'])
            if rng.random()<0.3:
                bad = rng.choice(BAD)
                before = obs.tree_of_tag(animation.tag)
                case.raises(lambda: setattr(w, side, bad), Exception, f'{side} = {bad!r:.60} was not refused')
                case.equal(obs.tree_of_tag(animation.tag), before, f'a refused {side} = {bad!r:.60} changed the document')
                what = f'{side} = {bad!r:.60}'
                case.saw('refused when changed')
            else:
                s = rng.choice(list(model.SPELLINGS))
                setattr(w, side, s)
                v.timeline[w.time] = w
                old = m[ts[i]]
                m[ts[i]] = (model.SPELLINGS[s], old[1]) if side=='before' else (old[0], model.SPELLINGS[s])
                what = f'{side} = {s!r} at {float(ts[i])}'
                case.saw('neighbours edited')
        else:
            continue
        case.did(what)
        check(layer[name], f'after {what}')
        check(v, f'after {what}')
    if rng.random()<0.5:
        fn = case.path(rng.choice(['b.sif', 'b.sifz']))
        animation.save(fn)
        check(obs.at(sangfroid.open(fn), path)[name], 'after reopening')
        case.saw('reopened')
    case.distinct(case.log)


@workload('C18', 500, 12000)
def bad_files(case):
    rng = case.rng
    doc = model.Doc(rng, size=4)
    sites = [s for s in ops.editable(doc, model.SIMPLE) if s[3].animated]
    if not sites:
        return
    path, l, name, mvalue = rng.choice(sites)
    i = rng.randrange(len(mvalue.waypoints))
    bad = rng.choice([b for b in BAD if isinstance(b, str) and '\n' not in b])
    t, b, a, x, v = mvalue.waypoints[i]
    side = rng.choice(['before', 'after'])
    mvalue.waypoints[i] = (t, bad, a, x, v) if side=='before' else (t, b, bad, x, v)
    animation = load(case, doc)
    value = obs.at(animation, path)[name]
    before = obs.tree_of_tag(animation.tag)
    what = f'{l.type}{path}.{name}: {side}={bad!r}'
    case.did(what)
    for fn in (lambda: value.timeline.values(), lambda: list(value.timeline), lambda: value.timeline.items(), lambda: value.timeline.__setitem__(5, value)):
        case.raises(fn, Exception, f'{what} was not refused')
    case.equal(obs.tree_of_tag(animation.tag), before, f'{what}: a refused read changed the document')
    case.saw('refused in a file')
    case.distinct(what)
