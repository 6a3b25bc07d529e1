"""C01: opening and saving a file preserves the whole document."""
import gzip, os, subprocess, sys
import sangfroid
from . import core, model, obs
from .core import workload, rule, probe
from .common import *

rule('C01', '''
Random documents (all 55 kinds of layer, nesting, animated values, unknown elements, comments, hostile text) and
re-formatted real files are written by our own serialiser, opened and saved by the real code along random chains of
.sif/.sifz saves, and each file on disk is compared with the input by an expat-based canonicaliser.
Non-trivial: the document has at least one layer; distinct by canonical document and chain.''',
     required=['files compared', 'chains of two or more saves', 'gzipped files read', 'locales tried'],
     assumptions=['expat reads XML correctly'])

FIXTURES = ['circles.sif', 'bouncing.sif', 'pick-and-mix.sif', 'wombats.sifz', 'sing-like-a-girl.sif']


def chain(case, data, tree):
    rng = case.rng
    name = 'a.sif'
    if rng.random()<0.4:
        data = gzipped(rng, data)
        name = rng.choice(['a.sifz', 'a.sif', 'anything'])
        case.saw('gzipped files read')
    fn = write(case, data, name)
    animation = sangfroid.open(fn)
    steps = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 5])):
        if i>0 and rng.random()<0.7:
            animation = sangfroid.open(fn)
            steps.append('reopen')
        if rng.random()<0.4 and name!='anything':
            animation.save()
            steps.append('save')
        else:
            suffix = rng.choice(['.sif', '.sifz'])
            name = rng.choice(['a', 'b', 'c'])+suffix
            fn = case.path(name)
            animation.save(fn)
            steps.append('save '+name)
        try:
            got = obs.tree_of_file(fn)
        except Exception as e:
            case.fail(f'what was saved is not well-formed: {e}', *steps)
        case.saw('files compared')
        if got!=tree:
            case.fail('the document changed in '+' / '.join(steps), obs.diff(tree, got))
    if len(steps)>1:
        case.saw('chains of two or more saves')
    case.did('chain:', ', '.join(steps))
    return steps


@workload('C01', 1600, 40000)
def generated(case):
    doc = model.Doc(case.rng, size=case.rng.choice([1, 3, 8, 20]))
    data = doc.xml(case.rng.randrange(10**6))
    tree = obs.tree_of_bytes(data)
    case.did(f'{len(data)} bytes, {sum(1 for _ in doc.walk(reachable=False))} layers')
    steps = chain(case, data, tree)
    if doc.layers:
        case.distinct((tree, steps))


@workload('C01', 300, 8000)
def texts(case):
    """Small documents which are mostly awkward text."""
    rng = case.rng
    doc = model.Doc(rng, layers=[], plain=True)
    strings = [model.text(rng) + ''.join(
        chr(rng.choice([9, 10, 13, 32, rng.randrange(32, 127), rng.randrange(160, 0xd7ff), rng.randrange(0xe000, 0xfffd),
                        rng.randrange(0x10000, 0x10ffff)])) for _ in range(rng.randrange(0, 12)))
        for _ in range(10)]
    doc.layers = [model.Layer('text', {'type': 'text', 'desc': s, 'active': 'true', 'version': '0.5'},
                              [('text', model.Value('string', rng.choice(strings))),
                               ('family', model.Value('string', None, {}, [
                                   (f'{i}f', 'auto', 'halt', {'note': rng.choice(strings)}, model.Value('string', t))
                                   for i, t in enumerate(strings[:3])]))])
                  for s in strings]
    doc.keyframes = [('0f', 'true', s) for s in strings[:4]]
    doc.name, doc.desc = strings[0], strings[1]
    doc.metas = [('m', s) for s in strings[5:]]
    data = doc.xml(rng.randrange(10**6))
    encoding = rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'us-ascii', 'windows-1252'])
    if encoding!='utf-8':
        s = data.decode()
        s = '<?xml version="1.0" encoding="%s"?>' % encoding + s[s.index('?>')+2:]
        # comments can't have character references in them; there are none here
        data = s.encode(encoding, 'xmlcharrefreplace')
        case.saw('encodings other than UTF-8')
        if encoding=='windows-1252':
            tree = obs.tree_of_bytes(data.decode(encoding).replace(encoding, 'utf-8', 1).encode('utf-8'))
        else:
            tree = obs.tree_of_bytes(data)
    else:
        tree = obs.tree_of_bytes(data)
    case.did('strings:', strings)
    steps = chain(case, data, tree)
    case.distinct((tree, encoding))


@workload('C01', 60, 600)
def fixtures(case):
    """Real files, as Synfig wrote them, and re-serialised with other layout."""
    fn = os.path.join(core.HERE, 'data', FIXTURES[case.index % len(FIXTURES)])
    with open(fn, 'rb') as f:
        data = f.read()
    if data[:2]==b'\x1f\x8b':
        data = gzip.decompress(data)
    r = case.rng.random()
    if r<0.3:
        data = data.replace(b'\n', b'\r\n')
    elif r<0.5:
        data = b'\n'.join(l.strip() for l in data.split(b'\n'))
    case.did(os.path.basename(fn))
    steps = chain(case, data, obs.tree_of_bytes(data))
    case.distinct((fn, r<0.3, r<0.5, steps))


@workload('C01', 16, 96)
def locales(case):
    """A whole process under another locale opens and saves a file with non-ASCII text."""
    rng = case.rng
    doc = model.Doc(rng, size=3)
    doc.name = 'Wömbat 日本 🐨'
    data = doc.xml(rng.randrange(1000))
    zipped = rng.random()<0.5
    a = write(case, gzip.compress(data) if zipped else data, 'in.sifz' if zipped else 'in.sif')
    b = case.path(rng.choice(['out.sif', 'out.sifz']))
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('LC_') or k in ('LANG', 'PYTHONUTF8', 'PYTHONIOENCODING'):
            del env[k]
    which = [dict(LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0'), dict(LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0'),
             dict(LC_ALL='C.UTF-8'), dict(PYTHONUTF8='1', LC_ALL='C')][case.index % 4]
    env.update(which)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'import sys, sangfroid; a = sangfroid.open(sys.argv[1]); a.save(sys.argv[2]);'
                        'assert a.name==chr(87)+chr(246)+chr(109)+"bat "+chr(0x65e5)+chr(0x672c)+" "+chr(0x1f428), ascii(a.name)',
                        a, b], env=env, capture_output=True, text=True, errors='replace')
    case.did('environment:', which)
    case.saw('locales tried')
    case.check(r.returncode==0, f'failed under {which}', r.stderr[-1500:])
    case.equal(obs.tree_of_file(b), obs.tree_of_bytes(data), f'the document changed under {which}')
    case.saw('files compared')
    case.distinct((which, a, zipped, data))
