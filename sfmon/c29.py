"""C29: every handle on the same thing sees the same thing."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C29', '''
Several handles are taken on the same layers, groups, values and timelines of a random document, by every route and at different moments of a history of edits made through handles picked at random. After every
edit, everything is read through every handle taken so far and through newly made ones, and all must agree with one another and with what was set; at the end, the file is saved and reopened, and must agree with the oldest handles.
Non-trivial: at least one edit seen through another handle. Distinct by history.''',
     required=['handles on values read', 'handles on layers read', 'handles on timelines read', 'edits through values', 'edits through layers', 'edits through timelines', 'edits through attributes of layers', 'edits through groups', 'edits of attributes', 'values made animated',
               'values made static', 'layers moved', 'handles from before a move', 'handles from before the first edit', 'reopened', 'edits seen elsewhere', 'settings seen', 'compound values', 'handles by search', 'handles by parent',
               'handles by index', 'values read by layers', 'values replaced', 'waypoints changed in place', 'handles by attribute', 'handles by listing', 'canvases set', 'canvases replaced'])


class Site:
    """One value, with all the handles on it."""
    def __init__(self, ltag, name, kind):
        self.ltag, self.name, self.kind = ltag, name, kind
        self.handles, self.timelines = [], []
        self.expected = None


def all_layers(animation):
    out = []
    def walk(g):
        for c in g.children:
            out.append(c)
            walk(c)
    walk(animation)
    return out


def layer_handle(case, animation, tag):
    """A new handle on a layer, by any route."""
    rng = case.rng
    route = rng.choice(['walk', 'search', 'parent', 'index'])
    if route=='search':
        for l in animation.find_all(True):
            if l.tag is tag:
                case.saw('handles by search')
                return l
    if route=='parent':
        for l in all_layers(animation):
            p = l.parent
            if p is not None and p.tag is tag:
                case.saw('handles by parent')
                return p
    if route=='index':
        def walk(g):
            for i in range(len(g)):
                x = g[i]
                if x.tag is tag:
                    return x
                if isinstance(x, sangfroid.layer.Group):
                    y = walk(x)
                    if y is not None:
                        return y
        x = walk(animation)
        if x is not None:
            case.saw('handles by index')
            return x
    for l in all_layers(animation):
        if l.tag is tag:
            return l
    case.fail('a layer can no longer be found', tag.get('type'), tag.get('desc'))


def value_handle(case, layer, name):
    route = case.rng.choice(['brackets', 'items', 'values', 'attribute'])
    if route=='attribute' and ops.attribute_name(name):
        try:
            x = getattr(layer, ops.attribute_name(name))
        except AttributeError:
            x = None
        if isinstance(x, sv.Value):
            case.saw('handles by attribute')
            return x
    if route=='items':
        case.saw('handles by listing')
        return dict(layer.items())[name]
    if route=='values':
        case.saw('handles by listing')
        return list(layer.values())[list(layer.keys()).index(name)]
    return layer[name]


def read_timeline(tl):
    def of(ws):
        return [(w.time.frames, w.before, w.after, obs.static_of(w.value)) for w in ws]
    return of(tl), of(tl.values()), of(w for _, w in tl.items()), of(tl[t] for t in tl.keys()), [t.frames for t in tl.keys()], [t.frames for t, _ in tl.items()], len(tl), bool(tl)


class World:
    def __init__(self, case, doc, animation):
        self.case, self.animation, self.fps = case, animation, doc.fps
        self.layers = {}           # id of tag: [(handle, step)]
        self.sites = {}
        self.step = 0
        self.moved = {}
        for l in all_layers(animation):
            self.layers[id(l.tag)] = [(l, 0)]
            for name, v in l.items():
                kind = obs.kind_of(v)
                if kind in model.EDITABLE:
                    self.sites[id(l.tag), name] = Site(l.tag, name, kind)
        for _ in range(8):
            self.more()

    def more(self):
        """Takes some more handles."""
        rng = self.case.rng
        tags = [hs[0][0].tag for hs in self.layers.values()]
        if tags:
            tag = rng.choice(tags)
            self.layers[id(tag)].append((layer_handle(self.case, self.animation, tag), self.step))
        if self.sites:
            for _ in range(3):
                s = rng.choice(list(self.sites.values()))
                hs = self.layers[id(s.ltag)]
                if s.handles and rng.random()<0.3:
                    self.take(s, hs)
                    continue
                self.take(s, hs)

    def take(self, s, hs):
        v = value_handle(self.case, self.case.rng.choice(hs)[0], s.name)
        s.handles.append((v, self.step))
        if s.kind!='composite' and self.case.rng.random()<0.6:
            s.timelines.append((v.timeline, self.step))

    def judge(self, what):
        case, animation = self.case, self.animation
        fresh = {id(l.tag): l for l in all_layers(animation)}
        case.check(set(fresh)==set(self.layers), f'{what}: the layers are not those there should be')
        for i, hs in self.layers.items():
            want = obs.layer_head(fresh[i])
            kids = [c.tag for c in fresh[i].children]
            parent = fresh[i].parent
            for h, step in hs:
                case.equal(obs.layer_head(h), want, f'{what}: a handle on a layer taken at step {step} disagrees')
                got = [c.tag for c in h.children]
                case.check(len(got)==len(kids)==len(h) and all(a is b for a, b in zip(got, kids)), f'{what}: a handle on a group taken at step {step} has other layers in it')
                p = h.parent
                case.check((p is None)==(parent is None) and (p is None or p.tag is parent.tag), f'{what}: a handle on a layer taken at step {step} has another parent')
                case.saw('handles on layers read')
                if i in self.moved and step<self.moved[i]:
                    case.saw('handles from before a move')
        for (i, name), s in self.sites.items():
            if not s.handles:
                continue
            want = obs.read(fresh[i][name])
            if s.expected is not None:
                case.check(obs.same(want, s.expected), f'{what}: {name} does not read as it was set', f'got {want}', f'want {s.expected}')
            for h, step in s.handles:
                got = obs.read(h)
                case.check(got==want or obs.same(got, want), f'{what}: a handle on {name} taken at step {step} disagrees with a new one', f'got {got}', f'new {want}')
                case.check(h.is_animated==(len(want)==3), f'{what}: a handle on {name} taken at step {step} disagrees on whether it is animated')
                case.saw('handles on values read')
                if step==0 and self.step>0:
                    case.saw('handles from before the first edit')
                if s.kind in ('vector', 'gradient', 'composite'):
                    case.saw('compound values')
            for h, step in case.rng.sample(self.layers[i], min(2, len(self.layers[i]))):
                got = obs.read(value_handle(case, h, name))
                case.check(obs.same(got, want), f'{what}: a handle on a layer taken at step {step} gives another {name}', f'got {got}', f'new {want}')
                case.saw('values read by layers')
            for tl, step in s.timelines:
                got = read_timeline(tl)
                ws = want[2] if len(want)==3 else []
                times = [w[0] for w in ws]
                case.check(got[6:]==(len(ws), len(ws)>0) and all(obs.near(x, times, 1e-5) for x in got[4:6]) and all(obs.same((s.kind, 'animated', x), (s.kind, 'animated', ws)) for x in got[:4]), f'{what}: a timeline of {name} taken at step {step} disagrees', f'got {got}', f'new {want}')
                case.saw('handles on timelines read')

    def new_canvas(self, g):
        """The same layers in another order, set all at once."""
        case, rng = self.case, self.case.rng
        inside = list(g.children)
        rng.shuffle(inside)
        how = rng.choice(['attribute', 'brackets', 'value', 'object', 'object'])
        case.did(f'{len(inside)} layers, by {how}')
        if how=='attribute':
            g.canvas = inside
        elif how=='brackets':
            g['canvas'] = inside
        elif how=='value':
            g.canvas.value = inside
        else:
            g['canvas'] = sv.Canvas(inside)
            case.saw('canvases replaced')
        got = [c.tag for c in g.children]
        case.check(len(got)==len(inside) and all(a is b.tag for a, b in zip(got, reversed(inside))), f'a canvas set by {how}: other layers in the group')
        case.saw('canvases set')
        return f'the canvas of a group set by {how}'

    def edit(self):
        case, rng, fps = self.case, self.case.rng, self.fps
        self.step += 1
        held = [s for s in self.sites.values() if s.handles]
        r = rng.random()
        if r<0.12:
            i = rng.choice(list(self.layers))
            h, _ = rng.choice(self.layers[i])
            a = rng.choice(['active', 'exclude_from_rendering', 'desc'])
            x = rng.choice([True, False]) if a!='desc' else model.text(rng)
            setattr(h, a, x)
            for other, step in self.layers[i]:
                case.equal(getattr(other, a), x, f'{a} = {x!r} does not show in a handle taken at step {step}')
            case.saw('edits of attributes')
            case.saw('edits seen elsewhere')
            return f'{a} = {x!r}'
        if r<0.24:
            groups = [(i, hs) for i, hs in self.layers.items() if isinstance(hs[0][0], sangfroid.layer.Group)]
            g = self.animation if not groups or rng.random()<0.3 else rng.choice(rng.choice(groups)[1])[0]
            if groups and rng.random()<0.25:
                return self.new_canvas(rng.choice(rng.choice(groups)[1])[0])
            if rng.random()<0.5:
                l = rng.choice([sangfroid.layer.Circle, sangfroid.layer.Text, sangfroid.layer.Group])()
                self.layers[id(l.tag)] = [(l, self.step)]
                for name, v in l.items():
                    if obs.kind_of(v) in model.EDITABLE:
                        self.sites[id(l.tag), name] = Site(l.tag, name, obs.kind_of(v))
                what = 'a new layer'
            else:
                i = rng.choice(list(self.layers))
                l = rng.choice(self.layers[i])[0]
                cursor = g.tag
                while cursor is not None:
                    if cursor is l.tag:
                        return 'nothing'
                    cursor = cursor.parent
                self.moved[i] = self.step
                case.saw('layers moved')
                what = 'a layer'
            others = [x for x in g.children if x.tag is not l.tag]
            if others and rng.random()<0.5:
                k = rng.randrange(len(list(g.children)))
                if list(g.children)[k].tag is l.tag:
                    g.append(l)
                else:
                    g.insert(k, l)
            else:
                g.append(l)
            case.saw('edits through groups')
            return f'{what} put into a group'
        if r<0.3:
            a, x = rng.choice([('width', rng.randrange(1, 2000)), ('name', model.text(rng)), ('gamma_r', 2.5), ('view_box', '-1 2 %d -4' % rng.randrange(9)), ('bgcolor', '0.5 0.25 %.6f 1' % (rng.randrange(3)/2)),
                               ('height', rng.randrange(1, 2000))])
            setattr(self.animation, a, x)
            case.equal(self.animation.size, (self.animation.width, self.animation.height), f'animation.{a} = {x!r}: the size')
            case.equal(self.animation.viewbox, tuple(float(n) for n in self.animation.view_box.split()), f'animation.{a} = {x!r}: the viewbox')
            case.check(obs.near(self.animation.background.as_tuple(), tuple(float(n) for n in self.animation.bgcolor.split()), 1.01e-6), f'animation.{a} = {x!r}: the background')
            case.equal(getattr(self.animation, a), x, f'{a} does not show')
            case.saw('settings seen')
            return f'animation.{a} = {x!r}'
        if not held:
            return 'nothing'
        s = rng.choice(held)
        h, _ = rng.choice(s.handles)
        hs = self.layers[id(s.ltag)]
        x, want = ops.good(rng, s.kind, fps, fps_known=False)
        before = obs.read(h)
        if len(s.handles)>1:
            case.saw('edits seen elsewhere')
        if r<0.4 and rng.random()<0.3:
            # another value object: handles on the one before are no more use
            l = rng.choice(hs)[0]
            x = rng.choice([x, h.value]) if s.kind not in ('time', 'composite') and not h.is_animated else x
            others = [o for o in held if o.kind==s.kind and o is not s and o.kind!='time']
            if others and rng.random()<0.4:
                v = rng.choice(rng.choice(others).handles)[0]
                s.expected = obs.read(v)
            else:
                v = ops.V[s.kind](x) if s.kind!='time' else sv.Time(5)
                s.expected = None
            if rng.random()<0.5 and has_attribute(l, s.name) and not v.is_animated:
                setattr(l, ops.attribute_name(s.name), v)
                what = f'layer.{s.name} = {v!r}'
            else:
                l[s.name] = v
                what = f'layer[{s.name!r}] = {v!r}'
            if s.expected is None:
                s.expected = obs.read(v)
            case.saw('values replaced')
            s.handles, s.timelines = [], []
            self.take(s, hs)
            return what
        if r<0.5 or s.kind=='composite':
            if rng.random()<0.5:
                h.value = x
                case.saw('edits through values')
                what = f'{s.name}.value = {x!r}'
            else:
                l = rng.choice(hs)[0]
                if rng.random()<0.5 and has_attribute(l, s.name):
                    setattr(l, ops.attribute_name(s.name), x)
                    what = f'layer.{s.name} = {x!r}'
                    case.saw('edits through attributes of layers')
                else:
                    l[s.name] = x
                    what = f'layer[{s.name!r}] = {x!r}'
                case.saw('edits through layers')
            s.expected = (s.kind, want)
            return what
        if r<0.65:
            on = not h.is_animated
            h.is_animated = on
            case.saw('values made animated' if on else 'values made static')
            s.expected = None
            if not on:
                s.expected = (s.kind, before[2][0][3])
            else:
                s.expected = (s.kind, 'animated', [(0.0, 'clamped', 'clamped', before[1])])
            return f'{s.name}.is_animated = {on}'
        tl = rng.choice(s.timelines)[0] if s.timelines and rng.random()<0.7 else h.timeline
        ws = list(before[2]) if len(before)==3 else []
        if ws and r<0.75:
            w = rng.choice(ws)
            del tl[ops.when(w[0])]
            ws.remove(w)
            what = f'del {s.name}.timeline[{w[0]}]'
            if not ws:
                s.expected = (s.kind, before[2][0][3])
                case.saw('edits through timelines')
                return what
        else:
            t = rng.randrange(0, 60)
            if ws and rng.random()<0.6:
                t = rng.choice(ws)[0]
                case.saw('waypoints changed in place')
            ws = [w for w in ws if abs(w[0]-t)>1e-5]+[(float(t), 'clamped', 'clamped', want)]
            if rng.random()<0.7:
                tl[ops.when(t)] = x
                what = f'{s.name}.timeline[{t}] = {x!r}'
            else:
                tl.add(sv.Waypoint(ops.when(t), ops.V[s.kind](x) if s.kind!='time' else sv.Time(5)), overwrite=True)
                what = f'{s.name}.timeline.add({t}, {x!r})'
                if s.kind=='time':
                    ws[-1] = ws[-1][:3]+(5.0,)
        s.expected = (s.kind, 'animated', sorted(ws, key=lambda w: w[0]))
        case.saw('edits through timelines')
        return what


def has_attribute(layer, name):
    """Whether a param can be reached as an attribute."""
    a = ops.attribute_name(name)
    if a is None:
        return False
    try:
        return isinstance(getattr(layer, a), sv.Value)
    except Exception:
        return False


@workload('C29', 800, 20000)
def handles(case):
    rng = case.rng
    doc, animation = document(case, size=rng.choice([2, 4, 6]))
    if not all_layers(animation):
        return
    world = World(case, doc, animation)
    world.judge('at first')
    for _ in range(rng.choice([3, 6, 12])):
        what = world.edit()
        case.did(what)
        world.judge(f'after {what}')
        world.more()
        if rng.random()<0.2:
            world.judge('after more handles')
    intact(case, animation, 'at the end')
    fn = case.path(rng.choice(['b.sif', 'b.sifz']))
    order = [id(l.tag) for l in all_layers(animation)]
    animation.save(fn)
    again = all_layers(sangfroid.open(fn))
    case.equal(len(again), len(order), 'the number of layers in the saved file')
    for i, l in zip(order, again):
        case.equal(obs.layer_head(world.layers[i][0][0]), obs.layer_head(l), 'a layer in the saved file')
    for (i, name), s in world.sites.items():
        if s.handles:
            got = obs.read(again[order.index(i)][name])
            want = obs.read(s.handles[0][0])
            case.check(obs.same(got, want), f'{name} in the saved file disagrees with the first handle on it', f'file {got}', f'handle {want}')
    case.saw('reopened')
    case.distinct(case.log)
