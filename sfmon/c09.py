"""C09: parameter reads report the layer's own entry in the file."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule, probe
from .common import *

rule('C09', '''
Random documents, nested, with params of the same names at all levels, before and after the layers inside, shuffled, some missing; and files
Synfig wrote. Every param of every layer is read by attribute, brackets, membership and listing (in random order, from the
animation or by parents or searches), and judged against the generator's own account of what it wrote, or expat's of the real files: kind, value, waypoints.
Attributes against their text or documented default; absent params must be errors. Non-trivial: at least one param was judged.
Distinct by document.''',
     required=['params judged by brackets', 'params judged by attribute', 'params judged by listing', 'own param where a nested one has the name',
               'own param after nested ones of its name', 'defaults judged', 'absent params judged', 'attributes judged', 'animated params judged'] +
     [f'{k} judged' for k in model.EDITABLE] + ['opaque kinds judged', 'real files judged'])

OPAQUE = {'bline', 'dynamic_list', 'static_list', 'wplist', 'dilist'}

CLASS_OF = {'real': sv.Real, 'integer': sv.Integer, 'bool': sv.Bool, 'angle': sv.Angle, 'time': sv.Time, 'string': sv.String,
            'color': sv.Color, 'vector': sv.Vector, 'gradient': sv.Gradient, 'composite': sv.Transformation, 'canvas': sv.Canvas}


def names_below(layer):
    return {n for c in layer.children for n in {n for n, _ in c.params} | names_below(c)}


def judge(case, got, mvalue, fps, what):
    """got is a Value."""
    kind = mvalue.kind
    if kind in OPAQUE:
        case.equal(obs.kind_of(got), kind, f'{what}: wrong kind')
        case.saw('opaque kinds judged')
        return
    want = mvalue.meaning(fps)
    case.check(isinstance(got, CLASS_OF[kind]), f'{what}: wrong kind', type(got).__name__, kind)
    reading = obs.read(got)
    case.check(obs.same(reading, want), f'{what} reads wrongly', f'got  {reading}', f'want {want}')
    case.saw(f'{kind} judged')
    if mvalue.animated:
        case.saw('animated params judged')


def judge_layer(case, layer, mlayer, fps, what):
    rng = case.rng
    below = names_below(mlayer)
    own = [n for n, _ in mlayer.params]
    canvas_at = own.index('canvas') if 'canvas' in own else len(own)
    spec = {p['name']: p['kind'] for p in model.SPEC[mlayer.type]['params']}

    # listing
    listed = list(layer.items())
    case.equal([n for n, _ in listed], own, f'{what} lists the wrong params')
    case.equal(list(layer.keys()), own, f'{what}.keys()')
    for (n, v), (_, m), v2 in zip(listed, mlayer.params, layer.values()):
        judge(case, v, m, fps, f'{what}.items() {n!r}')
        judge(case, v2, m, fps, f'{what}.values() {n!r}')
        case.saw('params judged by listing')

    order = list(enumerate(mlayer.params))
    rng.shuffle(order)
    for i, (n, m) in order:
        judge(case, layer[n], m, fps, f'{what}[{n!r}]')
        case.saw('params judged by brackets')
        case.check(n in layer, f'{n!r} should be in {what}')
        a = ops.attribute_name(n)
        if a is not None:
            if spec[n] in model.EDITABLE or n=='canvas' and mlayer.type!='switch':
                judge(case, getattr(layer, a), m, fps, f'{what}.{a}')
                case.saw('params judged by attribute')
        if n in below:
            case.saw('own param where a nested one has the name')
            if i>canvas_at:
                case.saw('own param after nested ones of its name')

    # absent
    everywhere = set(own) | below
    for n in sorted((set(spec) | {'wombat', 'radius', 'Amount', 'amount ', ''}) - everywhere):
        case.check(n not in layer, f'{n!r} should not be in {what}')
        case.raises(lambda: layer[n], Exception, f'{what}[{n!r}] is nowhere in the file')
        if n in spec and n!='type' and '[' not in n and spec[n] in model.EDITABLE:
            case.raises(lambda: getattr(layer, n), Exception, f'{what}.{n} is nowhere in the file')
        case.saw('absent params judged')

    # attributes
    for a, default in [('active', True), ('exclude_from_rendering', False), ('desc', None),
                       ('version', float(model.SPEC[mlayer.type]['version']))]:
        got = getattr(layer, a)
        if a in mlayer.attrs:
            s = mlayer.attrs[a]
            want = s if a=='desc' else float(s) if a=='version' else s.lower()=='true'
            case.saw('attributes judged')
        else:
            want = default
            case.saw('defaults judged')
        case.check(got==want and type(got)==type(want), f'{what}.{a} reads wrongly', got, want)
    if 'type' not in spec:
        case.equal(layer.type_, mlayer.attrs['type'], f'{what}.type_')


@workload('C09', 1300, 36000)
def generated(case):
    rng = case.rng
    types = rng.choice([None, None, ['group', 'group', 'circle', 'text', 'star'], ['group', 'switch', 'filter_group', 'circle', 'timeloop']])
    doc = model.Doc(rng, size=rng.choice([3, 6, 12]), types=types)
    if rng.random()<0.5:
        # params after the layers inside
        for _, l, _ in doc.walk(reachable=False):
            if l.children:
                rng.shuffle(l.params)
    animation = load(case, doc)
    paths = list(doc.walk())
    rng.shuffle(paths)
    for path, mlayer, mparent in paths[:8]:
        layer = obs.at(animation, path)
        what = f'{mlayer.type}{path}'
        if rng.random()<0.2 and mparent is not None:
            layer = list(layer.parent.children)[path[-1]]
        judge_layer(case, layer, mlayer, doc.fps, what)
    # those inside layers which aren't groups can be found too
    every = [(l, p) for _, l, p in doc.walk(reachable=False)]
    found = animation.find_all(True)
    case.equal(len(found), len(every), 'how many layers there are')
    for _ in range(3):
        i = rng.randrange(len(every))
        judge_layer(case, found[i], every[i][0], doc.fps, f'{every[i][0].type} (#{i} found)')
    case.did(f'{len(every)} layers:', ' '.join(l.type for l, _ in every))
    case.distinct(doc.xml())


# ------------------------------------------------- files that Synfig wrote

def meaning_of(e, fps):
    """What an element, as found by expat, means."""
    name, attrs, kids = e[0], dict(e[1]), [k for k in e[2] if not isinstance(k, str)]
    text = ''.join(k for k in e[2] if isinstance(k, str))
    def number(tag):
        [k] = [k for k in kids if k[0]==tag]
        return float(''.join(k[2]))
    if name=='animated':
        kind = attrs['type']
        return (kind, 'animated', sorted([
            (float(model.frames_of(dict(w[1])['time'], fps)), model.SPELLINGS[dict(w[1])['before']], model.SPELLINGS[dict(w[1])['after']],
             meaning_of(w[2][0], fps)[1]) for w in kids], key=lambda w: w[0]))
    if name in ('real', 'angle'):
        return name, float(attrs['value'])
    if name=='integer':
        return name, int(attrs['value'])
    if name=='bool':
        return name, attrs['value']=='true'
    if name=='time':
        return name, float(model.frames_of(attrs['value'], fps))
    if name=='string':
        return name, text
    if name=='color':
        return name, tuple(number(c) for c in 'rgba')
    if name=='vector':
        return name, (number('x'), number('y'))
    if name=='gradient':
        return name, sorted((float(dict(k[1])['pos']), meaning_of(k, fps)[1]) for k in kids)
    if name=='composite':
        return name, {k[0]: meaning_of(k[2][0], fps) for k in kids}
    if name=='canvas':
        return name, len(kids)
    return name, None


@workload('C09', 10, 20)
def real_files(case):
    import os
    names = ['circles.sif', 'bouncing.sif', 'pick-and-mix.sif', 'wombats.sifz', 'sing-like-a-girl.sif']
    fn = os.path.join(core.HERE, 'data', names[case.index%len(names)])
    tree = [k for k in obs.tree_of_file(fn)[2] if k[0]=='canvas'][0]
    fps = model.Fr(dict(tree[1])['fps'])
    animation = sangfroid.open(fn)
    found = animation.find_all(True)
    layers = []
    def walk(e):
        for k in e[2]:
            if isinstance(k, tuple) and len(k)==3:
                if k[0]=='layer':
                    layers.append(k)
                walk(k)
    walk(tree)
    case.equal(len(found), len(layers), 'how many layers')
    for layer, e in zip(found, layers):
        for p in e[2]:
            if not isinstance(p, tuple) or p[0]!='param':
                continue
            n = dict(p[1])['name']
            kids = [k for k in p[2] if not isinstance(k, str)]
            if len(kids)!=1:
                continue
            want = meaning_of(kids[0], fps)
            v = obs.attempt(lambda: layer[n])
            if isinstance(v, tuple):
                case.check(want[1] is None, f'{n} of {type(layer).__name__} can not be read: {v}')
                continue
            if want[1] is None:
                continue
            got = obs.read(v)
            case.check(obs.same(got, want), f'{n} of {type(layer).__name__} in {names[case.index%len(names)]} reads wrongly', got, want)
            case.saw('params judged by brackets')
            a = ops.attribute_name(n)
            if a and not isinstance(obs.attempt(lambda: getattr(layer, a)), tuple):
                got = obs.read(getattr(layer, a))
                case.check(obs.same(got, want), f'{type(layer).__name__}.{n} in {names[case.index%len(names)]} reads wrongly', got, want)
                case.saw('params judged by attribute')
    case.saw('real files judged')
    case.did(fn.split('/')[-1], f'{len(layers)} layers')
    case.distinct(fn)


@probe('array-params')
def array_params():
    """Outline's round_tip[0] and Halftone3's color[0] can't be read by attribute."""
    import os
    animation = sangfroid.open(os.path.join(core.HERE, 'data', 'pick-and-mix.sif'))
    for t, a in (('outline', 'round_tip'), ('halftone3', 'color')):
        try:
            getattr(animation.find(t), a)
        except AttributeError:
            return True
    return False
