"""A model of timelines, and instants in all their spellings."""
from fractions import Fraction as Fr
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops


def decimal(x):
    """An exact number, in words."""
    s = '%.6f' % float(x)
    assert Fr(s)==x, x
    return s.rstrip('0').rstrip('.')


class Clock:
    """Makes instants, and spells them in various ways."""
    def __init__(self, rng, fps, animation=None, attrs=None):
        """fps is None outside documents. Attrs are the settings of the animation."""
        self.rng, self.fps, self.animation = rng, fps, animation
        self.attrs = attrs
        self.pool = []
        for _ in range(rng.choice([3, 6, 12])):
            self.pool.append(self.fresh())

    def fresh(self):
        rng = self.rng
        r = rng.random()
        if r<0.06:
            # before the start
            return -Fr(rng.choice([1, 5, 24, 100, 12.5, 0.125]))
        if r<0.1:
            # long after
            return Fr(rng.randrange(0, 10**8), rng.choice([1, 8, 100]))
        if r<0.17:
            return Fr(0)
        if r<0.5:
            return Fr(rng.randrange(0, 200))
        if r<0.7:
            return Fr(rng.randrange(0, 1600), 8)
        if r<0.9 and self.fps is not None and (self.fps*1000).denominator==1:
            return rng.randrange(0, 70)*self.fps
        return Fr(rng.randrange(0, 200000), 1000)

    def some(self):
        return self.rng.choice(self.pool) if self.rng.random()<0.85 else self.fresh()

    def spell(self, x):
        rng = self.rng
        r = rng.random()
        if x<0:
            # as a number, it would count from the end
            text = decimal(x)+'f'
            if self.fps is not None and r<0.5:
                s, f = divmod(-x, self.fps)
                if s and (f*10**6).denominator==1:
                    text = f'-{s}s' + (f' {decimal(f)}f' if f else '')
            if r<0.3 or 0.5<r<0.7:
                return text
            return sangfroid.T(text, ref=self.animation)
        if r<0.2:
            return int(x) if x.denominator==1 else float(x)
        if r<0.3:
            return float(x)
        if r<0.45:
            return decimal(x)+'f'
        if r<0.55:
            return sangfroid.T(float(x))
        if self.fps is None:
            return sangfroid.T(decimal(x)+'f')
        if r<0.7:
            return sangfroid.T(float(x), ref=self.animation)
        if r<0.8:
            n = model.frames_of(self.attrs['end-time'], self.fps)-model.frames_of(self.attrs['begin-time'], self.fps)+1
            if x<n:
                k = x-n
                # only if it can be said exactly
                if k.denominator in (1, 2, 4, 8):
                    return float(k) if k.denominator!=1 else int(k)
        s, f = divmod(x, self.fps)
        if (f*10**6).denominator!=1:
            return decimal(x)+'f'
        words = []
        if s>=60 and rng.random()<0.5:
            words.append(f'{s//60}m')
            s = s%60
        if s or rng.random()<0.5:
            words.append(f'{s}s')
        if f or not words or rng.random()<0.3:
            words.append(decimal(f)+'f')
        text = ' '.join(words)
        return text if rng.random()<0.7 else sangfroid.T(text, ref=self.animation)


class Timeline:
    """What a timeline should be: a map from exact instants to (before, after, value)."""
    def __init__(self, kind, waypoints=None, static=None):
        self.kind = kind
        self.map = dict(waypoints or {})
        self.static = static

    @property
    def animated(self):
        return bool(self.map)

    def put(self, t, w):
        self.map[t] = w

    def remove(self, t):
        w = self.map.pop(t)
        if not self.map:
            self.static = w[2]

    def replace(self, new):
        if not new and self.map:
            self.static = self.map[min(self.map)][2]
        self.map = dict(new)

    def turn(self, on):
        if on and not self.map:
            self.map = {Fr(0): ('clamped', 'clamped', self.static)}
        elif not on and self.map:
            self.static = self.map[min(self.map)][2]
            self.map = {}


def value_of(v, kind):
    return obs.static_of(v)


def judge(case, v, m, what, stored=True):
    """v is a Value; m is the Timeline it should have."""
    kind = m.kind
    items = sorted(m.map.items())
    case.equal(v.is_animated, bool(items), f'{what}: is_animated')
    tl = v.timeline
    got = tl.values()
    case.check(len(got)==len(items), f'{what}: {len(got)} waypoints, not {len(items)}', f'got  {got}', f'want {[(float(t), w) for t, w in items]}')
    case.equal(len(tl), len(items), f'{what}: length')
    case.equal(bool(tl), bool(items), f'{what}: bool')
    ways = [('values', got), ('iteration', list(tl)), ('items', [w for _, w in tl.items()])]
    for how, ws in ways:
        case.equal(len(ws), len(items), f'{what}: length by {how}')
        for w, (t, (before, after, value)) in zip(ws, items):
            case.check(abs(Fr(w.time.frames)-t)<=Fr(2, 10**6), f'{what}, by {how}: wrong time', f'got {w.time.frames}', f'want {float(t)}')
            case.equal((w.before, w.after), (before, after), f'{what}, by {how}: wrong interpolation at {float(t)}')
            case.check(obs.same_static(kind, obs.static_of(w.value), value), f'{what}, by {how}: wrong value at {float(t)}',
                       f'got {obs.static_of(w.value)}', f'want {value}')
            case.equal(obs.kind_of(w.value), kind, f'{what}, by {how}: wrong kind at {float(t)}')
    for how, ts in [('keys', tl.keys()), ('items', [t for t, _ in tl.items()])]:
        case.check(len(ts)==len(items) and all(abs(Fr(g.frames)-t)<=Fr(2, 10**6) for g, (t, _) in zip(ts, items)), f'{what}: wrong times by {how}',
                   f'got {ts}', f'want {[float(t) for t, _ in items]}')
        case.check(all(a.frames<b.frames for a, b in zip(ts, ts[1:])), f'{what}: {how} not in order', ts)
    if not items:
        case.check(obs.same((kind, obs.static_of(v)), (kind, m.static)), f'{what}: wrong static value', f'got {obs.static_of(v)}', f'want {m.static}')
    elif stored:
        stored_order(case, v, m, what)
    case.saw('timelines judged')


def stored_order(case, v, m, what):
    """Once edited, they're stored in order."""
    fps = None
    texts = [w['time'] for w in obs.elements(v.tag)]
    root = v.tag
    while root.parent is not None and root.parent.parent is not None:
        root = root.parent
    if root.name=='canvas' and root.get('fps'):
        fps = Fr(root['fps'])
    times = [model.frames_of(t, fps or 1) for t in texts]
    case.check(times==sorted(times) and len(set(times))==len(times), f'{what}: not stored in order', texts)
    case.saw('stored orders judged')


def model_of(mvalue, fps):
    """The model of a value as it is in a file."""
    if not mvalue.animated:
        return Timeline(mvalue.kind, None, mvalue.meaning(fps)[1])
    return Timeline(mvalue.kind, {model.frames_of(t, fps): (model.SPELLINGS[b], model.SPELLINGS[a], v.meaning(fps)[1])
                                  for t, b, a, x, v in mvalue.waypoints})
