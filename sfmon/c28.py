"""C28: animations don't affect one another."""
import copy
import os
import random
import sys
import threading
import sangfroid
import sangfroid.value as sv
from . import core, model, obs, ops, pristine, words
from .core import workload, rule
from .common import *

rule('C28', '''
Several scripts, each of edits, searches, reads, saves and reopenings of an animation of its own (from a file, blank, or the same file as another script's), chosen by a generator of its own. Each is run
alone, in a process which has done nothing else; then all are run at once, their steps interleaved at random; in threads, switching as often as the interpreter can; and in threads which pass a baton among themselves at lines of the code chosen at random. Every script must report the same reads, and end with
the same document and the same file, as it did alone, and an animation nobody touches must stay as it was. Non-trivial: at least two scripts with an edit each. Distinct by the scripts and the interleaving.''',
     required=['scripts interleaved', 'scripts in threads', 'switches between scripts', 'edits', 'saves', 'reopenings', 'reads compared', 'documents compared', 'files compared', 'same file', 'blank animations', 'bystanders compared',
               'saves at once', 'new layers', 'searches', 'times', 'by-words runs', 'refused edits', 'nearly the same file', 'scripts switched within steps', 'switches within steps', 'handles kept'])

core.START.append(pristine.start)


class Scribe:
    """What the functions in ops need of a case."""
    def __init__(self, rng):
        self.rng = rng
        self.edits = 0

    def saw(self, *a):
        pass


class Script:
    """A deterministic history of one animation: the same seed, the same history."""
    def __init__(self, seed, source, fps, scratch, tag, steps):
        self.seed, self.source, self.fps, self.tag, self.scratch, self.steps = seed, source, fps, tag, scratch, steps

    def start(self):
        rng = random.Random(self.seed)
        self.case = Scribe(rng)
        self.animation = sangfroid.Animation() if self.source is None else sangfroid.open(self.source)
        self.log = []
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0)+1

    def run(self, where):
        """A generator, which stops after each step."""
        self.start()
        rng = self.case.rng
        for n in range(self.steps):
            r = rng.random()
            if r<0.5:
                self.log.append(ops.random_edit(self.case, self.animation, self.fps))
                self.count('edits')
            elif r<0.6:
                kind = rng.choice(['Circle', 'Text', 'Group', 'Rectangle', 'Import', 'Stretch', 'Timeloop', 'Linear_Gradient'])
                new = getattr(sangfroid.layer, kind)()
                yield
                self.animation.append(new)
                self.log.append(obs.layer_readout(new))
                self.count('new layers')
            elif r<0.7:
                what = rng.choice(['text', 'circle', 'group', True])
                found = self.animation.find_all(what)
                yield
                self.log.append([obs.layer_head(l) for l in found])
                self.count('searches')
            elif r<0.78:
                ts = []
                for spec in rng.sample([5, '1s', '2m 3f', -1, '1h', 7.5, -2, -30, '-1s', 0], 4):
                    ts.append(sangfroid.T(spec, ref=self.animation))
                    yield
                for t in ts:
                    self.log.append(obs.attempt(lambda: (t.frames, t.fps, str(t), t.seconds)))
                    self.count('times')
            elif r<0.86:
                self.log.append((obs.settings(self.animation), self.animation.type_))
            elif r<0.92:
                name = f'{where}/{self.tag}.{rng.choice(["sif", "sifz"])}'
                self.animation.save(name)
                yield
                self.log.append(obs.tree_of_file(name))
                self.count('saves')
                if rng.random()<0.5:
                    yield
                    self.animation = sangfroid.open(name)
                    self.count('reopenings')
            elif r<0.94:
                # handles, kept while others do things
                a = self.animation
                layers = list(a)
                layer = rng.choice(layers) if layers else None
                param = rng.choice([v for _, v in layer.items()]) if layer is not None and len(list(layer.items())) else None
                kept = [a.keyframes, layer, param, getattr(param, 'timeline', None) if isinstance(param, sv.Value) else None, list(a.keyframes)[:1]]
                yield
                self.log.append([(k.name, k.time.frames, k.active) for k in kept[0]])
                yield
                if layer is not None:
                    self.log.append(obs.layer_readout(kept[1]))
                if isinstance(kept[2], sv.Value):
                    self.log.append(obs.attempt(lambda: obs.read(kept[2])))
                    self.log.append(obs.attempt(lambda: [(w.time.frames, w.before, w.after, obs.read(w.value)) for w in kept[3]]))
                self.log.append([(k.name, k.time.frames, k.active) for k in kept[4]])
                self.count('handles kept')
            elif r<0.97:
                bad, x = rng.choice([('width', 'abc'), ('begin_time', 'soon'), ('fps', None), ('name', 5)])
                self.log.append(obs.attempt(lambda: setattr(self.animation, bad, x)))
                self.count('refused edits')
            else:
                g = sangfroid.layer.Group()
                g.desc = 'bywords'
                t = sangfroid.layer.Text()
                t.desc = f'some words {n}'
                self.animation.append(g)
                g.append(t)
                yield
                words.run(words.srt([(1000, 500, f'Some words {n}!', None)]), self.animation, rng.random()<0.5)
                self.log.append(obs.read(t['text']))
                self.count('by-words runs')
            yield
        name = f'{where}/{self.tag}-end.sif'
        yield
        self.animation.save(name)
        self.log.append(oct(os.stat(name).st_mode))
        self.log.append(obs.readout(self.animation))
        self.result = (self.log, obs.tree_of_tag(self.animation.tag), obs.tree_of_file(name))


def compare(case, script, alone, how):
    log, tree, file = script.result
    case.equal(len(log), len(alone[0]), f'{how}: a script went otherwise than alone')
    for i, (a, b) in enumerate(zip(alone[0], log)):
        if a!=b:
            case.fail(f'{how}: step {i} of script {script.tag} gave something else than alone', f'alone {a!r:.600}', f'now   {b!r:.600}')
        case.saw('reads compared')
    case.check(tree==alone[1], f'{how}: the document of script {script.tag} is not as when it was alone', str(obs.diff(alone[1], tree)))
    case.saw('documents compared')
    case.check(file==alone[2], f'{how}: the file of script {script.tag} is not as when it was alone', str(obs.diff(alone[2], file)))
    case.saw('files compared')
    case.check(not obs.links(script.animation.tag), f'{how}: the document of script {script.tag} is damaged')


def scripts(case):
    rng = case.rng
    out = []
    source, fps, doc, seed = None, model.Fr(24), None, rng.randrange(1000)
    for i in range(rng.choice([2, 2, 3, 4])):
        if out and rng.random()<0.3 and source is not None:
            case.saw('same file')
        elif out and rng.random()<0.45 and doc is not None:
            # a file almost the same as the one before
            doc = copy.deepcopy(doc)
            for k in rng.sample(['begin-time', 'end-time', 'fps', 'width', 'bgcolor', 'name'], rng.choice([1, 1, 2])):
                if k=='fps':
                    doc.attrs['fps'] = rng.choice(['24.000', '25.000', '30', '12.5'])
                    doc.fps = model.Fr(doc.attrs['fps'])
                elif k.endswith('time'):
                    doc.attrs[k] = rng.choice(['0f', '1s', '7f', '-7f', '2s 5f', '10s'])
                elif k=='width':
                    doc.attrs[k] = str(rng.randrange(1, 999))
                elif k=='bgcolor':
                    doc.attrs[k] = '0.5 0.25 0.125 1.0'
                else:
                    doc.name = f'another {i}'
            source = write(case, doc.xml(seed), f'source{i}.sif')
            fps = doc.fps
            case.saw('nearly the same file')
        elif rng.random()<0.25:
            source, fps = None, model.Fr(24)
            case.saw('blank animations')
        else:
            doc = model.Doc(rng, size=rng.choice([1, 3]))
            source = write(case, doc.xml(seed), f'source{i}.sif')
            fps = doc.fps
        out.append(Script(rng.randrange(10**9), source, fps, case.scratch, f's{i}', rng.choice([3, 6, 10])))
    return out


def bystander(case):
    doc, animation = document(case, size=2)
    return animation, obs.tree_of_tag(animation.tag), obs.readout(animation)


def unaffected(case, b, how):
    animation, tree, readout = b
    case.check(obs.tree_of_tag(animation.tag)==tree, f'{how}: an animation nobody touched was changed', str(obs.diff(tree, obs.tree_of_tag(animation.tag))))
    d = obs.compare_readouts(readout, obs.readout(animation))
    case.check(d is None, f'{how}: an animation nobody touched reads otherwise', str(d))
    case.saw('bystanders compared')


def run_alone(s, where):
    for _ in s.run(where):
        pass
    return s.result, s.counts


def alone(case, ss):
    results = []
    where = case.path('alone')
    os.mkdir(where)
    for s in ss:
        status, x = pristine.run(run_alone, s, where)
        if status=='error':
            case.fail('a script failed when alone', x)
        result, counts = x
        results.append(result)
        for k, n in counts.items():
            case.saw(k, n)
    return results


@workload('C28', 60, 1500)
def saving(case):
    """Nothing but saves, of several animations, all at once."""
    rng = case.rng
    n = rng.choice([2, 4, 8])
    animations = []
    for i in range(n):
        doc = model.Doc(rng, size=1)
        animations.append(load(case, doc, f'source{i}.sif'))
    trees = [obs.tree_of_tag(a.tag) for a in animations]
    exts = [rng.choice(['sif', 'sifz']) for _ in range(n)]
    animations[0].save(case.path('mode.sif'))
    want_mode = os.stat(case.path('mode.sif')).st_mode
    gate = threading.Barrier(n)
    problems = []
    mask = umask()
    rounds = rng.choice([1, 3, 6])
    def work(i):
        try:
            gate.wait()
            for k in range(rounds):
                animations[i].save(case.path(f'out{i}-{k}.{exts[i]}'))
                animations[i].save()
        except Exception as e:
            problems.append(f'{type(e).__name__}: {e}')
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
    finally:
        sys.setswitchinterval(old)
    now = umask()
    if now!=mask:
        os.umask(mask)
        case.fail('saving in threads: the process creates files with other permissions than before', oct(mask), oct(now))
    case.check(not problems, 'saving in threads: a save failed', *problems[:1])
    for i in range(n):
        for k in range(rounds):
            name = case.path(f'out{i}-{k}.{exts[i]}')
            tree = obs.tree_of_file(name)
            [got] = [x for x in tree[2] if x[0]=='canvas']
            want = obs.tree_of_tag(animations[i].tag)
            case.check(got==want, 'saving in threads: wrong contents', str(obs.diff(want, got)))
            case.check(os.stat(name).st_mode==want_mode, 'saving in threads: a file has other permissions than one saved alone', oct(os.stat(name).st_mode), oct(want_mode))
            case.saw('saves at once')
    left = [f for f in os.listdir(case.scratch) if not f.startswith(('source', 'out', 'mode'))]
    case.check(not left, 'saving in threads: files were left behind', left)
    case.distinct([n, rounds, exts, trees])


@workload('C28', 420, 10000)
def interleaved(case):
    rng = case.rng
    ss = scripts(case)
    b = bystander(case)
    results = alone(case, ss)
    where = case.path('together')
    os.mkdir(where)
    running = [(s, s.run(where)) for s in ss]
    last = None
    order = []
    while running:
        s, g = rng.choice(running)
        if last is not None and s is not last:
            case.saw('switches between scripts')
        last = s
        order.append(s.tag)
        try:
            next(g)
        except StopIteration:
            running.remove((s, g))
        if rng.random()<0.1:
            unaffected(case, b, 'interleaved')
    for s, r in zip(ss, results):
        compare(case, s, r, 'interleaved')
        case.saw('scripts interleaved')
    unaffected(case, b, 'interleaved')
    case.distinct([s.seed for s in ss]+order)


def umask():
    # (nobody else is running)
    m = os.umask(0o022)
    os.umask(m)
    return m


@workload('C28', 160, 4000)
def threads(case):
    ss = scripts(case)
    b = bystander(case)
    results = alone(case, ss)
    where = case.path('together')
    os.mkdir(where)
    problems = []
    mask = umask()
    gate = threading.Barrier(len(ss))
    def work(s):
        try:
            gate.wait()
            for _ in s.run(where):
                pass
        except Exception as e:
            import traceback
            problems.append(f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}')
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(s,), daemon=True) for s in ss]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
    finally:
        sys.setswitchinterval(old)
    if problems:
        case.fail('in threads: a script failed, as it did not when alone', problems[0])
    if any(t.is_alive() for t in ts):
        case.fail('in threads: a script did not end')
    now = umask()
    if now!=mask:
        os.umask(mask)
        case.fail('in threads: the process creates files with other permissions than before', oct(mask), oct(now))
    for s, r in zip(ss, results):
        compare(case, s, r, 'in threads')
        case.saw('scripts in threads')
    unaffected(case, b, 'in threads')
    case.distinct([s.seed for s in ss])


class Baton:
    """Passed among threads, at lines of the code under test chosen at random: only the thread which holds it runs."""
    def __init__(self, rng, n, chance):
        self.rng, self.chance = rng, chance
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.broken = False
        self.switches = 0
        self.places = set()

    def wait(self, i):
        if not self.broken and not self.turns[i].acquire(timeout=5):
            # whoever has it is waiting for something one of us holds; carry on without
            self.broken = True
            for t in self.turns:
                t.release()

    def passed_on(self, i, place):
        if self.broken or len(self.live)<2:
            return
        j = self.rng.choice(self.live)
        if j==i:
            return
        self.switches += 1
        self.places.add(place)
        self.turns[j].release()
        self.wait(i)

    def finished(self, i):
        self.live.remove(i)
        if self.live and not self.broken:
            self.turns[self.rng.choice(self.live)].release()

    def trace(self, i):
        root = core.REPO+os.sep
        chance, random = self.chance, self.rng.random
        def line(frame, event, arg):
            if event=='line' and random()<chance:
                self.passed_on(i, (frame.f_code.co_filename, frame.f_lineno))
            return line
        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(root) else None
        return call


@workload('C28', 80, 2500)
def switched(case):
    rng = case.rng
    ss = scripts(case)[:3]
    for s in ss:
        s.steps = min(s.steps, 4)
    b = bystander(case)
    results = alone(case, ss)
    where = case.path('together')
    os.mkdir(where)
    # (not while the baton is passed round: imports take locks)
    import bywords.adjust
    baton = Baton(random.Random(rng.randrange(10**9)), len(ss), rng.choice([0.3, 0.1, 0.03]))
    problems = []
    def work(i, s):
        baton.wait(i)
        sys.settrace(baton.trace(i))
        try:
            for _ in s.run(where):
                pass
        except Exception as e:
            sys.settrace(None)
            import traceback
            problems.append(f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}')
        finally:
            sys.settrace(None)
            baton.finished(i)
    ts = [threading.Thread(target=work, args=(i, s), daemon=True) for i, s in enumerate(ss)]
    for t in ts:
        t.start()
    baton.turns[rng.randrange(len(ss))].release()
    for t in ts:
        t.join(200)
    case.saw('switches within steps', baton.switches)
    case.saw('lines switched at', len(baton.places))
    if baton.broken:
        case.saw('batons dropped')
    if problems:
        case.fail('switched within steps: a script failed, as it did not when alone', problems[0])
    if any(t.is_alive() for t in ts):
        case.fail('switched within steps: a script did not end')
    for s, r in zip(ss, results):
        compare(case, s, r, 'switched within steps')
        case.saw('scripts switched within steps')
    unaffected(case, b, 'switched within steps')
    case.distinct([s.seed for s in ss]+sorted(baton.places)[:50])
