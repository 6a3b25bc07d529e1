"""C11: groups behave as ordered lists of their immediate layers."""
import re
import sangfroid
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C11', '''
Histories of appending, inserting (at every index, from either end), moving new and existing layers and assigning whole lists of them within and between groups, animations and levels,
in random documents with other things between the layers, run against a model made of Python lists. After every step, every group is compared with its list by
iteration, length, indexes from both ends and beyond, and file order; every layer with its parent; and the tree is sanitized.
Some histories go through saving and reopening. Non-trivial: at least one layer was added or moved. Distinct by the sequence of steps.''',
     required=['groups compared', 'appends of new layers', 'inserts of new layers', 'moves by append', 'moves by insert', 'moves within a group',
               'appends where it already was', 'moves between animations', 'moves of whole groups', 'put inside itself', 'put inside itself in no document', 'layers in no document compared', 'reopened',
               'indexes out of range', 'leaves', 'parents compared', 'layers elsewhere', 'canvases set', 'canvases refused'])


class Node:
    """A layer, or an animation, in the model."""
    def __init__(self, handle, label, kind):
        self.handle, self.label, self.kind = handle, label, kind
        self.kids = []           # in the order of the API
        self.parent = None

    def inside(self, other):
        n = self
        while n is not None:
            if n is other:
                return True
            n = n.parent
        return False

    def everything(self):
        yield self
        for k in self.kids:
            yield from k.everything()


def build(animation, doc, name):
    root = Node(animation, name, 'group')
    nodes = {(): root}
    for path, l, _ in doc.walk():
        pass
    def inner(node, layers, path):
        n = len(layers)
        for i in range(n-1, -1, -1):
            l = layers[i]
            p = path+(n-1-i,)
            k = Node(obs.at(animation, p), f'{name}{p}', l.type)
            k.parent = node
            node.kids.append(k)
            if l.type=='group':
                inner(k, l.children, p)
    inner(root, doc.layers, ())
    return root


def load_with_definitions(case, doc, name):
    """With layers in other places than among the layers of a group."""
    rng = case.rng
    def more(m):
        if m.group(0).endswith('/>') or rng.random()<0.4:
            return m.group(0)
        return m.group(0) + rng.choice([
            '<defs><canvas id="D"><layer type="circle" desc="hidden"/></canvas></defs>',
            '<wombat><layer type="group" desc="hidden"><param name="canvas"><canvas><layer type="star" desc="hidden"/></canvas></param></layer></wombat>',
            '<!-- <layer type="star"/> -->',
            ])
    data = re.sub('<canvas(?:"[^"]*"|\'[^\']*\'|[^>"\'])*>', more, doc.xml(rng.randrange(1000)).decode('utf-8'))
    case.saw('layers elsewhere')
    return sangfroid.open(write(case, data.encode('utf-8'), name))


def is_tag(x, node, case, what):
    case.check(x is not None and x.tag is node.handle.tag, f'{what} is not {node.label}', f'it is a {type(x).__name__}')


def layers_in_file(tag):
    """The immediate layers of a group or animation, in file order, found without the code under test."""
    if tag.name=='layer':
        [param] = [p for p in obs.elements(tag) if p.name=='param' and p.get('name')=='canvas']
        [tag] = [c for c in obs.elements(param) if c.name=='canvas']
    return [k for k in obs.elements(tag) if k.name=='layer']


def compare(case, roots, spare, step):
    rng = case.rng
    for root in roots+spare:
        for node in root.everything():
            g, kids = node.handle, node.kids
            if node.kind!='group':
                case.equal((len(g), list(g), list(g.children)), (0, [], []), f'{node.label}, not being a group, is not empty after {step}')
                case.saw('leaves')
            else:
                what = f'{node.label} after {step}'
                want = [k.handle.tag for k in kids]
                labels = [k.label for k in kids]
                for how, got in [('iteration', list(g)), ('children', list(g.children))]:
                    case.check(len(got)==len(want) and all(a.tag is b for a, b in zip(got, want)),
                               f'{what}: wrong by {how}', f'got {[type(x).__name__ for x in got]}', f'want {labels}')
                case.equal(len(g), len(want), f'{what}: wrong length')
                n = len(want)
                for i in range(n):
                    is_tag(g[i], kids[i], case, f'{what}[{i}]')
                    is_tag(g[i-n], kids[i], case, f'{what}[{i-n}]')
                for i in (n, -n-1, n+rng.randrange(5)):
                    case.raises(lambda: g[i], IndexError, f'{what}[{i}] is out of range')
                    case.saw('indexes out of range')
                in_file = layers_in_file(g.tag)
                case.check(len(in_file)==n and all(a is b for a, b in zip(reversed(in_file), want)),
                           f'{what}: the file has them in another order')
                for k in kids:
                    top = any(node is x for x in roots)
                    if top:
                        case.check(k.handle.parent is None, f'{what}: {k.label} has a parent')
                    else:
                        is_tag(k.handle.parent, node, case, f'{what}: the parent of {k.label}')
                    case.equal(type(k.handle.parent).__name__ if k.handle.parent is not None else 'NoneType',
                               'NoneType' if top else type(node.handle).__name__, f'{what}: the parent of {k.label}')
                    case.saw('parents compared')
                case.saw('groups compared')
        if any(root is x for x in roots):
            intact(case, root.handle, f'after {step}')
        else:
            case.saw('layers in no document compared')
    for s in spare:
        case.check(s.handle.parent is None, f'{s.label} has a parent after {step}')


@workload('C11', 900, 22000)
def histories(case):
    rng = case.rng
    roots = []
    for i in range(rng.choice([1, 1, 2])):
        types = rng.choice([['group', 'circle', 'text'], ['group', 'group', 'circle'], None])
        doc = model.Doc(rng, size=rng.choice([2, 5, 8]), types=types)
        if rng.random()<0.3:
            animation = load_with_definitions(case, doc, f'{i}.sif')
        else:
            animation = load(case, doc, f'{i}.sif')
        roots.append(build(animation, doc, f'animation{i}'))
    if rng.random()<0.2:
        roots.append(Node(sangfroid.Animation(), 'blank', 'group'))
    spare = []
    compare(case, roots, spare, 'opening')
    made = 0
    for _ in range(rng.choice([2, 5, 10])):
        everything = [n for r in roots for n in r.everything()]
        if rng.random()<0.3:
            everything += [n for r in spare for n in r.everything()]
        groups = [n for n in everything if n.kind=='group']
        layers = [n for n in everything if n.parent is not None]
        r = rng.random()
        g = rng.choice(groups)
        if r<0.1:
            t = rng.choice(['Circle', 'Group', 'Text'])
            s = Node(getattr(sangfroid.layer, t)(), f'spare{made}', t.lower())
            made += 1
            if s.kind=='group' and rng.random()<0.6:
                k = Node(sangfroid.layer.Star(), f'spare{made}', 'star')
                made += 1
                s.handle.append(k.handle)
                k.parent = s
                s.kids.append(k)
            spare.append(s)
            continue
        if r<0.2 and g not in roots:
            below = [n for n in g.everything() if n.kind=='group']
            target = rng.choice(below)
            step = f'put {g.label} into {target.label}'
            case.did(step)
            if target.kids and rng.random()<0.5:
                fn = lambda: target.handle.insert(rng.randrange(len(target.kids)), g.handle)
            else:
                fn = lambda: target.handle.append(g.handle)
            case.raises(fn, Exception, f'{step} was not refused')
            compare(case, roots, spare, step)
            case.saw('put inside itself')
            if g.parent is None:
                case.saw('put inside itself in no document')
            continue
        if r<0.27 and g not in roots:
            # the whole list at once, in file order
            others = [n for n in layers if n.parent is not g and not g.inside(n)]
            new = rng.sample(g.kids, rng.randrange(len(g.kids)+1)) + rng.sample(others, min(len(others), rng.choice([0, 0, 1, 2])))
            new = [n for n in new if not any(n is not m and n.inside(m) for m in new)]
            free = [n for n in spare if not g.inside(n)]
            if free and rng.random()<0.5:
                n = rng.choice(free)
                spare.remove(n)
                new.append(n)
            rng.shuffle(new)
            step = f'set the canvas of {g.label} to {[n.label for n in new]}'
            bad = None
            if rng.random()<0.25:
                bad = g
                while bad.parent is not None and bad.parent not in roots and rng.random()<0.5:
                    bad = bad.parent
                step += f' and {bad.label}, which it is in'
            case.did(step)
            how = rng.choice(['attribute', 'brackets', 'value'])
            def assign():
                x = [n.handle for n in new]
                if bad is not None:
                    x.insert(rng.randrange(len(x)+1), bad.handle)
                if how=='attribute':
                    g.handle.canvas = x
                elif how=='brackets':
                    g.handle['canvas'] = x
                else:
                    g.handle.canvas.value = x
            if bad is not None:
                spare += [n for n in new if n.parent is None]
                case.raises(assign, Exception, f'{step} was not refused')
                case.saw('canvases refused')
            else:
                assign()
                for n in g.kids:
                    if n not in new:
                        n.parent = None
                        spare.append(n)
                for n in new:
                    if n.parent is not None and n.parent is not g:
                        n.parent.kids.remove(n)
                    n.parent = g
                g.kids = new[::-1]
                case.saw('canvases set')
            compare(case, roots, spare, step)
            continue
        # what to add
        if r<0.5 or not layers:
            free = [n for n in spare if not g.inside(n)]
            if free and rng.random()<0.5:
                l = rng.choice(free)
                spare.remove(l)
            else:
                t = rng.choice(['Circle', 'Group', 'Text', 'Star'])
                l = Node(getattr(sangfroid.layer, t)(), f'new{made}', t.lower())
                made += 1
            new = True
        else:
            l = rng.choice(layers)
            new = False
            if g.inside(l) or any(l is x for x in spare):
                continue
        if rng.random()<0.3:
            # another handle to the same layer
            handle = type(l.handle)(l.handle.tag)
        else:
            handle = l.handle
        old = l.parent
        root_of = lambda n: n if n.parent is None else root_of(n.parent)
        if not new:
            case.saw('moves within a group' if old is g else 'moves to another group')
            if root_of(l) is not root_of(g):
                case.saw('moves between animations')
            if l.kids:
                case.saw('moves of whole groups')
        if g.kids and rng.random()<0.55:
            i = rng.randrange(-len(g.kids), len(g.kids))
            before = g.kids[i]
            step = f'insert {l.label} into {g.label} at {i} of {len(g.kids)}'
            case.did(step)
            g.handle.insert(i, handle)
            if before is not l:
                if old is not None:
                    old.kids.remove(l)
                g.kids.insert(g.kids.index(before), l)
            case.saw('inserts of new layers' if new else 'moves by insert')
        else:
            step = f'append {l.label} to {g.label}'
            case.did(step)
            if g.kids and g.kids[-1] is l:
                case.saw('appends where it already was')
            g.handle.append(handle)
            if old is not None:
                old.kids.remove(l)
            g.kids.append(l)
            case.saw('appends of new layers' if new else 'moves by append')
        l.parent = g
        compare(case, roots, spare, step)
    if rng.random()<0.3:
        root = rng.choice(roots)
        before = shape(root)
        fn = case.path('out.sif')
        root.handle.save(fn)
        again = sangfroid.open(fn)
        case.equal(actual_shape(again), before, 'the layers are in another order after reopening')
        case.saw('reopened')
    case.distinct(case.log)


def shape(node):
    return [(type(k.handle).__name__, k.handle.desc, shape(k)) for k in node.kids]

def actual_shape(x):
    return [(type(k).__name__, k.desc, actual_shape(k)) for k in x.children]


@workload('C11', 300, 6000)
def building(case):
    """Animations built from nothing, with each layer labelled."""
    rng = case.rng
    animation = sangfroid.Animation()
    model_list = []
    for i in range(rng.choice([1, 4, 12]) if case.index%12 else rng.choice([35, 70])):
        l = sangfroid.layer.Circle()
        l.desc = f'#{i}'
        if model_list and rng.random()<0.6:
            k = rng.randrange(-len(model_list), len(model_list))
            animation.insert(k, l)
            model_list.insert(k, l.desc)
            case.saw('inserts of new layers')
        else:
            animation.append(l)
            model_list.append(l.desc)
            case.saw('appends of new layers')
        case.equal([x.desc for x in animation], model_list, 'wrong order')
        case.saw('groups compared')
    fn = case.path('a.sifz')
    animation.save(fn)
    case.equal([x.desc for x in sangfroid.open(fn)], model_list, 'wrong order after reopening')
    tree = [k for k in obs.tree_of_file(fn)[2] if k[0]=='canvas'][0]
    case.equal([dict(k[1])['desc'] for k in tree[2] if isinstance(k, tuple) and k[0]=='layer'], model_list[::-1], 'wrong order in the file')
    case.saw('reopened')
    case.did(str(model_list))
    case.distinct(model_list)
