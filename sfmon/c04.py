"""C04: format is told by content on opening and by extension on saving."""
import gzip
import os
import zipfile
import io
import sangfroid
from . import core, model, obs
from .core import workload, rule
from .common import *

rule('C04', '''
Histories of opening, editing, saving, saving under other names, and attempts which must be refused, in a scratch directory whose whole
contents are compared with a model after every step: which file holds which document, in which format, and where the next plain save will go.
Every document carries a number in its description, changed before each save, so that the document found in a file is the one saved
by that very step. Non-trivial: a history with at least one save under a name. Distinct by the sequence of steps.''',
     required=['opened by content against the extension', 'saved under a name', 'plain saves', 'plain saves after a refused one',
               'refused opens', 'refused saves', 'unnamed saves refused', 'files found intact'])

GOOD = ['.sif', '.sifz', '.SIF', '.SifZ', '.Sif', '.SIFZ', '.sIf', '.sifZ']
BAD = ['.txt', '', '.xml', '.sif.bak', '.sfg', '.SFG', '.sifzz', '.si', '.gz', '.sif~', '.sif.gz', '.', '.sif ', '.svg', '.siff', '.z', '.sif.']
STEMS = ['a', 'b', 'c.d', 'wombat 1', 'é日', 'x.sif', 'y.sifz', '-n', 'UPPER']


def format_of(name):
    return 'sifz' if name.lower().endswith('z') else 'sif'


def decode(case, data, fmt, what):
    if fmt=='sifz':
        case.check(data[:2]==b'\x1f\x8b', f'{what} is not gzipped', data[:60])
        data = gzip.decompress(data)
    case.check(data[:5]==b'<?xml', f'{what} is not XML', data[:60])
    head = data[:100].split(b'?>')[0]
    if b'encoding' in head:
        case.check(b'utf-8' in head.lower(), f'{what} claims another encoding', head)
    data.decode('utf-8')
    return obs.tree_of_bytes(data)


class World:
    """What should be in the directory, and where the next plain save goes."""
    def __init__(self, case):
        self.case = case
        self.files = {}     # name -> (bytes, tree, format)
        self.dir = case.scratch

    def put(self, name, data, tree=None, fmt=None):
        with open(os.path.join(self.dir, name), 'wb') as f:
            f.write(data)
        self.files[name] = (data, tree, fmt)

    def check(self, step, changed=None):
        found = sorted(os.path.join(os.path.relpath(d, self.dir), f)
                       for d, _, fs in os.walk(self.dir) for f in fs)
        want = sorted(os.path.join('.', f) for f in set(self.files) | ({changed} - {None}))
        self.case.check(sorted(os.path.normpath(f) for f in found)==sorted(os.path.normpath(f) for f in want),
                        f'wrong files after {step}', f'found {found}', f'want {want}')
        for name, (data, _, _) in self.files.items():
            if name!=changed:
                with open(os.path.join(self.dir, name), 'rb') as f:
                    self.case.check(f.read()==data, f'{name} was changed by {step}')
                self.case.saw('files found intact')

    def saved(self, step, name, tree, fmt):
        """name should now hold this document"""
        self.check(step, name)
        with open(os.path.join(self.dir, name), 'rb') as f:
            data = f.read()
        got = [k for k in decode(self.case, data, fmt, f'{name} after {step}')[2] if k[0]=='canvas']
        d = obs.diff(tree, got[0]) if len(got)==1 else 'no root'
        self.case.check(d is None, f'{name} does not hold what was saved by {step}', d or '')
        self.files[name] = (data, tree, fmt)


def junk(rng):
    z = io.BytesIO()
    with zipfile.ZipFile(z, 'w') as f:
        f.writestr('project.sifproject', '<?xml version="1.0"?><canvas/>')
    return rng.choice([
        ('empty', b''),
        ('one byte', rng.choice([b'<', b'\x1f', b'x'])),
        ('a zip file', z.getvalue()),
        ('a GIF', b'GIF89a' + bytes(40)),
        ('text', b'hello, world\n'),
        ('SVG', b'<svg xmlns="http://www.w3.org/2000/svg"></svg>'),
        ('bzip', b'BZh91AY&SY' + bytes(20)),
        ('compress', b'\x1f\x9d\x90' + bytes(20)),
        ('backwards gzip', b'\x8b\x1f' + bytes(20)),
        ('declaration-ish', b'<!DOCTYPE canvas><canvas/>'),
        ('truncated gzip', gzip.compress(b'<?xml version="1.0"?><canvas fps="24"></canvas>'*20)[:rng.randrange(2, 40)]),
        ('gzipped text', gzip.compress(b'hello, world')),
        ('gzip of nothing', gzip.compress(b'')),
        ('spaces', b'   \n'),
        ('spaces before XML', rng.choice([b' ', b'\n', b'\t  '])+b'<?xml version="1.0"?><canvas fps="24"></canvas>'),
        ('NULs', bytes(64)),
        ])


@workload('C04', 900, 20000)
def histories(case):
    rng = case.rng
    world = World(case)
    counter = 0
    steps = []

    # some files to start with, under all kinds of names
    for _ in range(rng.randrange(1, 4)):
        doc = model.Doc(rng, size=rng.choice([1, 2]))
        data = doc.xml(rng.randrange(1000))
        fmt = rng.choice(['sif', 'sifz'])
        if fmt=='sifz':
            data = gzipped(rng, data)
        world.put(rng.choice(STEMS)+str(len(world.files))+rng.choice(GOOD+BAD[:8]), data, None, fmt)

    name = None          # where a plain save goes
    fmt = None
    refused = False
    animation = sangfroid.Animation()
    case.did('blank animation')

    for _ in range(rng.randrange(3, 14)):
        r = rng.random()
        if r<0.2:
            openable = [n for n, f in world.files.items() if f[2] is not None]
            n = rng.choice(openable)
            step = f'open {n!r} ({world.files[n][2]})'
            case.did(step)
            animation = rng.choice([sangfroid.open, sangfroid.Animation])(case.path(n))
            name, fmt = n, world.files[n][2]
            if not n.lower().endswith('.'+fmt):
                case.saw('opened by content against the extension')
            got = obs.tree_of_tag(animation.tag)
            want = [k for k in decode(case, world.files[n][0], fmt, n)[2] if k[0]=='canvas'][0]
            d = obs.diff(want, got)
            case.check(d is None, f'{step} gave another document', d or '')
            world.check(step)
            refused = False
        elif r<0.3:
            kind, data = junk(rng)
            n = f'junk{counter}'+rng.choice(GOOD+BAD[:3])
            if rng.random()<0.2:
                step = f'open {n!r} (missing)'
            else:
                world.put(n, data)
                step = f'open {n!r} ({kind})'
            case.did(step)
            case.raises(lambda: sangfroid.open(case.path(n)), Exception, f'{step} was not refused')
            world.check(step)
            case.saw('refused opens')
        elif r<0.37:
            animation = sangfroid.Animation()
            name = fmt = None
            step = 'new'
            case.did(step)
            world.check(step)
        elif r<0.55:
            # refused saves
            n = rng.choice(STEMS)+rng.choice(BAD)
            if n.lower().endswith(('.sif', '.sifz')):
                n += '_'
            if rng.random()<0.1:
                n = rng.choice(['.sif', '.SIFZ', 'sif', 'SIF', 'sifz'])
            if rng.random()<0.15:
                os.makedirs(case.path('dir.sif'), exist_ok=True)
                n = os.path.join('dir.sif', rng.choice(['a', 'sif', 'asif', 'sifz']))
            counter += 1
            animation.desc = f'#{counter}'
            memory = obs.tree_of_tag(animation.tag)
            step = f'save as {n!r}'
            case.did(step)
            case.raises(lambda: animation.save(case.path(n)), Exception, f'{step} was not refused')
            world.check(step)
            case.check(obs.tree_of_tag(animation.tag)==memory, f'{step} changed the document')
            case.saw('refused saves')
            refused = True
        else:
            counter += 1
            animation.desc = f'#{counter}'
            memory = obs.tree_of_tag(animation.tag)
            if r<0.78:
                n = rng.choice(STEMS)+rng.choice(GOOD)
                if rng.random()<0.4:
                    n = rng.choice([x for x in world.files if x.lower().endswith(('.sif', '.sifz'))] or [n])
                step = f'save as {n!r}'
                case.did(step)
                animation.save(case.path(n))
                name, fmt = n, format_of(n)
                world.saved(step, n, memory, fmt)
                case.saw('saved under a name')
                steps.append(step)
            elif name is None:
                step = 'save, never having had a name'
                case.did(step)
                case.raises(lambda: animation.save(), Exception, f'{step} was not refused')
                world.check(step)
                case.saw('unnamed saves refused')
            else:
                step = f'save (to {name!r}, {fmt})'
                case.did(step)
                animation.save()
                world.saved(step, name, memory, fmt)
                case.saw('plain saves')
                if refused:
                    case.saw('plain saves after a refused one')
                refused = False
            d = obs.diff(memory, obs.tree_of_tag(animation.tag))
            case.check(d is None, f'{step} changed the document in memory', d or '')
    if steps:
        case.distinct(case.log)


@workload('C04', 200, 3000)
def relative_names(case):
    """The same by relative names, including bare ones."""
    rng = case.rng
    world = World(case)
    os.makedirs(case.path('sub'))
    here = os.getcwd()
    os.chdir(case.scratch)
    try:
        animation = sangfroid.Animation()
        for i in range(rng.randrange(1, 5)):
            n = rng.choice(['', './', 'sub/', 'sub/../', 'sub/.', '.', '..', './/sub/./', f'../{os.path.basename(case.scratch)}/'])+rng.choice('ab')+rng.choice(GOOD)
            animation.desc = f'#{i}'
            if rng.random()<0.5:
                case.raises(lambda: animation.save(rng.choice([n+'x', n+'.bak', n+'_', 'sif', 'sifz', 'SIF', 'sub/sif'])), Exception, 'a bad name was not refused')
                case.saw('refused saves')
            animation.save(n)
            case.did('save as', n)
            world.saved(f'save as {n}', os.path.relpath(os.path.realpath(n), os.path.realpath(case.scratch)), obs.tree_of_tag(animation.tag), format_of(n))
            animation.desc = f'#{i} again'
            animation.save()
            world.saved(f'plain save to {n}', os.path.relpath(os.path.realpath(n), os.path.realpath(case.scratch)), obs.tree_of_tag(animation.tag), format_of(n))
            case.saw('plain saves')
            if rng.random()<0.5:
                animation = sangfroid.open(n)
                case.equal(animation.desc, f'#{i} again', 'reopening gave another document')
        case.distinct(case.log)
    finally:
        os.chdir(here)
