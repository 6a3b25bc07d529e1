"""C12: searching finds exactly the layers that match."""
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

CRITERIA = ['type name', 'class', 'active', 'exclude_from_rendering', 'desc', 'version', 'param', 'predicate', 'everything', 'nothing', 'no such name']

rule('C12', '''
Random searches (by type name in several spellings, class, attributes, static params of every kind, predicate, everything, nothing, and conjunctions of these, as keywords
or attrs=) of random animations and the groups in them, at any depth or immediately, some after edits. The result is judged, by identity and in order, against an independent matcher
over the generator's own account of the file; find() and calling against its first. Conflicting criteria must be errors.
Non-trivial: the search got an answer which was judged. Distinct by document, root and criteria.''',
     required=[f'searches by {c}' for c in CRITERIA] + ['found some but not all', 'found none', 'immediate only', 'at any depth',
               'searches of nested groups', 'conjunctions', 'conflicts refused', 'find judged', 'call judged', 'searches after edits',
               'criteria in attrs', 'predicate calls', 'searches of leaves'] + [f'params of kind {k} found' for k in model.SIMPLE])

SHORTCUTS = {'offset', 'angle', 'skew_angle', 'scale'}


def matching_value(rng, kind, mvalue, fps):
    """Something equal to a static value, in one of its notations; or None if we can't say."""
    want = mvalue.meaning(fps)[1]
    if kind=='color':
        if rng.random()<0.5:
            return want
        s = '#'+''.join('%02x' % int(round(x*255)) for x in want)
        # rounding near a half is nobody's business
        if any(abs(x*255-int(x*255)-0.5)<0.001 for x in want):
            return want
        if s.endswith('ff') and rng.random()<0.5:
            s = s[:-2]
        return s.upper() if rng.random()<0.2 else s
    if kind=='time':
        if fps.denominator!=1 or '.' in mvalue.content or rng.random()<0.3:
            return mvalue.content        # the very same words
        return want
    if kind=='gradient':
        return {p: c for p, c in want}
    return want


def equal(kind, m, want, fps):
    """Whether a static model value is equal to what's wanted. None if it's too near to call."""
    got = m.meaning(fps)[1]
    if kind=='real':
        d = abs(got-want)
        return True if d<=1e-12*max(1, abs(want)) else None if d<0.01 else False
    if kind=='color':
        if isinstance(want, str):
            if any(abs(x*255-int(x*255)-0.5)<0.001 for x in got):
                return None
            s = '#'+''.join('%02x' % int(round(x*255)) for x in got)
            w = want.lower()
            return s==(w if len(w)==9 else w+'ff')
        d = max(abs(a-b) for a, b in zip(got, want))
        return True if d<1e-9 else None if d<1e-4 else False
    if kind in ('angle', 'time', 'vector'):
        if isinstance(want, str):
            if m.content==want:
                return True
            want = float(model.frames_of(want, fps))
            if got==want:
                # perhaps only nearly the same, as floats
                return True if fps.denominator==1 and '.' not in m.content else None
        a, b = (got, want) if kind=='vector' else ((got,), (want,))
        d = max(abs(x-y) for x, y in zip(a, b))
        return True if d==0 else None if d<1e-3 else False
    if kind=='gradient':
        w = list(want.items())
        if [p for p, _ in got]!=[p for p, _ in w]:
            return False
        ds = [max(abs(a-b) for a, b in zip(c, d)) for (_, c), (_, d) in zip(got, w)]
        return True if max(ds)<1e-9 else None if max(ds)<1e-4 else False
    return got==want and type(got)==type(want)


class TooClose(Exception):
    """Nobody can say whether this layer should match."""


def below(l):
    for c in l.children:
        yield c
        yield from below(c)


def norm(s):
    return s.lower().replace('_', '')


def spelling(rng, t):
    s = t
    r = rng.random()
    if r<0.3:
        s = s.upper()
    elif r<0.5:
        s = s.title()
    r = rng.random()
    if r<0.2:
        s = s.replace('_', '')
    elif r<0.4:
        i = rng.randrange(len(s)+1)
        s = s[:i]+'_'+s[i:]
    return s


class Search:
    """One set of criteria: the arguments to give, and the independent matcher."""
    def __init__(self, case, doc, every):
        self.case, self.fps = case, doc.fps
        self.positional, self.named, self.tests, self.labels = [], {}, [], []
        rng = case.rng
        n = rng.choice([1, 1, 1, 2, 2, 3])
        pool = list(CRITERIA)
        while len(self.labels)<max(n, 1):
            c = rng.choice(pool)
            if rng.random()<0.3:
                c = 'param'
            if (c in ('type name', 'class') and {'type name', 'class'} & set(self.labels)
                or c in ('predicate', 'everything', 'nothing') and self.positional
                or c in self.labels):
                n -= 1
                continue
            if c=='param' and not self.sites(every):
                n -= 1
                continue
            getattr(self, 'add_'+c.replace(' ', '_'))(every, rng)
            self.labels.append(c)

    def add_type(self, x, rng):
        if not self.positional and rng.random()<0.5:
            self.positional.append(x)
        else:
            self.named['type'] = x

    def add_type_name(self, every, rng):
        t = rng.choice([rng.choice(every).type, rng.choice(every).type, rng.choice(model.TYPES), 'wombat', ''])
        self.add_type(spelling(rng, t), rng)
        self.tests.append(lambda l, tag: norm(l.type)==norm(t))

    def add_class(self, every, rng):
        t = rng.choice([rng.choice(every).type, rng.choice(every).type, rng.choice(model.TYPES)])
        cls = CLASSES[t]
        self.add_type(cls, rng)
        def test(l, tag):
            if norm(l.type)==norm(t):
                return True
            if issubclass(CLASSES[l.type], cls):
                raise TooClose()     # a kind of it, under another name
            return False
        self.tests.append(test)

    def add_active(self, every, rng):
        x = rng.choice([True, False])
        self.named['active'] = x
        self.tests.append(lambda l, tag: (l.attrs.get('active', 'true').lower()=='true')==x)

    def add_exclude_from_rendering(self, every, rng):
        x = rng.choice([True, False])
        self.named['exclude_from_rendering'] = x
        self.tests.append(lambda l, tag: (l.attrs.get('exclude_from_rendering', 'false').lower()=='true')==x)

    def add_desc(self, every, rng):
        x = rng.choice([rng.choice(every).attrs.get('desc'), rng.choice(every).attrs.get('desc'), None, '', 'wombat', 'circle', 'Circle'])
        self.named['desc'] = x
        self.tests.append(lambda l, tag: l.attrs.get('desc')==x)

    def add_version(self, every, rng):
        l = rng.choice(every)
        x = rng.choice([float(l.attrs.get('version', model.SPEC[l.type]['version'])), 0.3, 99.0])
        self.named['version'] = x
        self.tests.append(lambda l, tag: float(l.attrs.get('version', model.SPEC[l.type]['version']))==x)

    def sites(self, every):
        return [(n, v) for l in every for n, v in l.params
                if v.kind in model.SIMPLE and not v.animated and ops.attribute_name(n)==n and n not in SHORTCUTS]

    def add_param(self, every, rng):
        sites = self.sites(every)
        kinds = {}
        for n, v in sites:
            kinds.setdefault(v.kind, []).append((n, v))
        n, v = rng.choice(kinds[rng.choice(sorted(kinds))])
        x = matching_value(rng, v.kind, v, self.fps)
        self.named[n] = x
        kind = v.kind
        fps = self.fps
        def test(l, tag):
            spec = {p['name']: p['kind'] for p in model.SPEC[l.type]['params']}
            own = dict(l.params)
            if spec.get(n, kind)!=kind:
                raise TooClose()
            if n not in own:
                if any(n in dict(c.params) for c in below(l)):
                    raise TooClose()        # reads as one of those
                return False
            if own[n].kind!=kind:
                raise TooClose()
            if own[n].animated:
                return False
            result = equal(kind, own[n], x, fps)
            if result is None:
                raise TooClose()
            return result
        self.tests.append(test)
        self.param_kind = kind

    def add_predicate(self, every, rng):
        case = self.case
        which = rng.randrange(4)
        d = rng.choice(every).attrs.get('desc')
        fns = [lambda l, tag: tag.get('desc')==d,
               lambda l, tag: len(tag.get('type'))%2==0,
               lambda l, tag: tag.find('layer') is not None,
               lambda l, tag: tag.parent.name=='canvas' and tag.parent.parent.name!='param']
        fn = fns[which]
        def predicate(tag):
            case.saw('predicate calls')
            case.check(tag.name=='layer', 'a predicate was asked about something which is not a layer', tag.name)
            return fn(None, tag)
        self.positional.append(predicate)
        self.tests.append(fn)

    def add_everything(self, every, rng):
        self.positional.append(True)
        self.tests.append(lambda l, tag: True)

    def add_nothing(self, every, rng):
        self.positional.append(False)
        self.tests.append(lambda l, tag: False)

    def add_no_such_name(self, every, rng):
        n = rng.choice(['wombat', 'radius_of_wombat', 'x'])
        self.named[n] = rng.choice([1, 'a', None])
        self.tests.append(lambda l, tag: False)

    def arguments(self, rng):
        named = dict(self.named)
        if named and rng.random()<0.4:
            attrs = {k: named.pop(k) for k in list(named) if rng.random()<0.7}
            if attrs:
                self.case.saw('criteria in attrs')
                named['attrs'] = attrs
        return list(self.positional), named

    def describe(self):
        return f'{self.labels} {self.positional if not callable(self.positional[0] if self.positional else 0) else "..."} {self.named}'


CLASSES = {}
for _t in model.TYPES:
    CLASSES[_t] = sangfroid.layer.Layer.handles_type.from_name(_t)


def layer_tags(tag):
    """Every layer element below this one, in file order."""
    out = []
    def walk(t):
        for k in obs.elements(t):
            if k.name=='layer':
                out.append(k)
            walk(k)
    walk(tag)
    return out


def judge(case, root, scope, search, recursive, what):
    """scope is [(model layer, tag)], in file order."""
    rng = case.rng
    try:
        want = []
        for l, tag in scope:
            results = []
            for t in search.tests:
                results.append(t(l, tag))
            if all(results):
                want.append(tag)
    except TooClose:
        case.saw('too close to call')
        return
    positional, named = search.arguments(rng)
    keywords = {} if recursive and rng.random()<0.7 else {'recursive': recursive}
    got = root.find_all(*positional, **named, **keywords)
    case.check(isinstance(got, list), f'{what}: not a list')
    case.check(len(got)==len(want) and all(g.tag is w for g, w in zip(got, want)), f'{what}: wrong layers',
               f'got  {[(g.tag.get("type"), g.tag.get("desc")) for g in got]}', f'want {[(w.get("type"), w.get("desc")) for w in want]}')
    kinds = {id(tag): l.type for l, tag in scope}
    for g in got:
        case.check(type(g) is CLASSES[kinds[id(g.tag)]], f'{what}: a layer of the wrong class')
    for how, fn in (('find', root.find), ('call', root)):
        if rng.random()<0.6:
            one = fn(*positional, **named, **keywords)
            if want:
                case.check(one is not None and one.tag is want[0], f'{what}: {how} did not give the first')
            else:
                case.check(one is None, f'{what}: {how} found something')
            case.saw(f'{how} judged')
    for c in search.labels:
        case.saw(f'searches by {c}')
    if len(search.labels)>1:
        case.saw('conjunctions')
    case.saw('immediate only' if not recursive else 'at any depth')
    case.saw('found none' if not want else 'found all' if len(want)==len(scope) else 'found some but not all')
    if want and hasattr(search, 'param_kind'):
        case.saw(f'params of kind {search.param_kind} found')


@workload('C12', 4000, 80000)
def searches(case):
    rng = case.rng
    types = rng.choice([None, None, ['group', 'circle', 'text', 'star'], ['group', 'group', 'circle'], ['group', 'switch', 'filter_group', 'text'],
                        ['group', 'circle', 'solid_color', 'linear_gradient', 'timeloop', 'text'], ['plant', 'star', 'circle', 'conical_gradient', 'advanced_outline', 'group']])
    doc = model.Doc(rng, size=rng.choice([3, 8, 14]), types=types)
    # make some of them alike
    mlayers = [l for _, l, _ in doc.walk(reachable=False)]
    for l in mlayers:
        if rng.random()<0.5:
            l.attrs['desc'] = rng.choice(['', 'a', 'b', 'A'])
        if rng.random()<0.4:
            o = rng.choice(mlayers)
            mine = dict(l.params)
            for n, v in o.params:
                if n in mine and v.kind==mine[n].kind and v.kind in model.SIMPLE and rng.random()<0.5:
                    l.params = [(m, v if m==n else w) for m, w in l.params]
    animation = load(case, doc)
    tags = layer_tags(animation.tag)
    case.equal(len(tags), len(mlayers), 'how many layers are in the document')
    model_of = {id(t): l for t, l in zip(tags, mlayers)}

    if rng.random()<0.4:
        for _ in range(rng.randrange(1, 4)):
            path, l, _ = rng.choice(list(doc.walk()))
            layer = obs.at(animation, path)
            a = rng.choice(['desc', 'active', 'exclude_from_rendering'])
            if a=='desc':
                x = rng.choice([None, '', 'a', 'new'])
                layer.desc = x
                if x is None:
                    l.attrs.pop('desc', None)
                else:
                    l.attrs['desc'] = x
            else:
                x = rng.choice([True, False])
                setattr(layer, a, x)
                l.attrs[a] = str(x).lower()
        edited = True
    else:
        edited = False

    paths = [(p, l) for p, l, _ in doc.walk()]
    for _ in range(rng.choice([2, 4, 6])):
        r = rng.random()
        groups = [(p, l) for p, l in paths if l.type=='group']
        leaves = [(p, l) for p, l in paths if l.type!='group' and not l.children]
        if r<0.35 and groups:
            p, l = rng.choice(groups)
            root = obs.at(animation, p)
            [canvas] = [c for q in obs.elements(root.tag) if q.get('name')=='canvas' for c in obs.elements(q)]
            where = canvas
            case.saw('searches of nested groups')
            name = f'group{p}'
        elif r<0.42 and leaves:
            p, l = rng.choice(leaves)
            root = obs.at(animation, p)
            where = None
            case.saw('searches of leaves')
            name = f'{l.type}{p}'
        else:
            root, where, name = animation, animation.tag, 'the animation'
        recursive = rng.random()<0.7
        if where is None:
            in_scope = []
        elif recursive:
            in_scope = layer_tags(where)
        else:
            in_scope = [t for t in obs.elements(where) if t.name=='layer']
        scope = [(model_of[id(t)], t) for t in in_scope]
        search = Search(case, doc, [l for l, _ in scope] or mlayers)
        what = f'{name}, {"any depth" if recursive else "immediate"}, {search.describe()}'
        case.did(what)
        judge(case, root, scope, search, recursive, what)
        if edited:
            case.saw('searches after edits')
        case.distinct((what, case.index))


@workload('C12', 200, 3000)
def conflicts(case):
    rng = case.rng
    doc = model.Doc(rng, size=6, types=['group', 'circle', 'text'])
    animation = load(case, doc)
    roots = [animation] + [obs.at(animation, p) for p, l, _ in doc.walk() if l.type=='group']
    root = rng.choice(roots)
    C, T = sangfroid.layer.Circle, sangfroid.layer.Text
    tries = [
            (('circle', 'text'), {}), ((True, 'circle'), {}), ((C, T), {}), (('circle', 'circle'), {}), ((True, False), {}),
            (('circle',), {'type': 'text'}), (('circle',), {'type': 'circle'}), ((C,), {'type': T}), ((C,), {'type': 'circle'}),
            (('circle',), {'attrs': {'type': 'text'}}), ((C,), {'attrs': {'type': 'circle'}}),
            ((), {'desc': 'a', 'attrs': {'desc': 'b'}}), ((), {'desc': 'a', 'attrs': {'desc': 'a'}}),
            ((), {'type': 'circle', 'attrs': {'type': 'circle'}}), ((), {'active': True, 'attrs': {'active': False, 'desc': 'a'}}),
            ((True,), {'desc': 'a', 'attrs': {'desc': 'a'}}),
            ((5,), {}), ((3.5,), {}), ((['circle'],), {}), (({'type': 'circle'},), {}), ((object(),), {}), ((5,), {'type': 'circle'}),
            ((lambda t: True, 'circle'), {}), ((lambda t: True, True), {'desc': 'a'}),
            ]
    before = obs.tree_of_tag(animation.tag)
    for positional, named in rng.sample(tries, 8):
        what = f'find_all{positional} {named}'
        case.did(what)
        for fn in rng.sample([root.find_all, root.find, root], 2):
            if rng.random()<0.3:
                named = dict(named, recursive=rng.choice([True, False]))
            case.raises(lambda: fn(*positional, **{k: dict(v) if isinstance(v, dict) else v for k, v in named.items()}), (ValueError, TypeError), what)
            case.saw('conflicts refused')
        case.distinct(what)
    case.equal(obs.tree_of_tag(animation.tag), before, 'the document changed')
