"""C03: a failed or interrupted save never damages the file on disk."""
import ast, atexit, errno, gzip, json, os, shutil, subprocess, sys, tempfile
import sangfroid
from . import core, model, obs, ops
from .core import workload, rule
from .common import *

rule('C03', '''
A preloaded shim counts every libc call by which a save changes anything in a scratch directory (open for writing, write, close, fsync, chmod, rename,
unlink...). For each random document, target (new, existing, plain save, save-as, through a symbolic link) and format, every such call in turn is made the moment
the process is killed (also half-way through a write), or fails with ENOSPC or EIO (also after a short write), or is the moment from which the disk is full; the directory and the animation are examined after each.
Further faults (file size limit, text which can't be encoded, missing directory, target which is a directory, unsupported format) are made in process.
Non-trivial: the fault fired. Distinct by target, format, fault and the call it hit.''',
     required=['crashes judged', 'failed saves judged', 'later saves judged', 'unfaulted saves judged', 'in-process failures judged'],
     assumptions=['rename is atomic, and a crash of the process loses nothing that was written (no power failures)'],
     level='fault_enumeration')

BUILD = tempfile.mkdtemp(prefix='sfmon-shim-')
_main = os.getpid()
SHIM = os.path.join(BUILD, 'shim.so')
r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', SHIM,
                    os.path.join(os.path.dirname(__file__), 'shim.c'), '-ldl'],
                   capture_output=True, text=True)
if r.returncode!=0:
    print(r.stderr, file=sys.stderr)
    shutil.rmtree(BUILD, ignore_errors=True)
    os._exit(2)

core.CLEANUP.append(lambda: shutil.rmtree(BUILD, ignore_errors=True))


def saver(job):
    env = dict(os.environ, LD_PRELOAD=SHIM)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sfmon.saver'],
                       input=json.dumps(job)+'\n', env=env, cwd=core.HERE,
                       capture_output=True, text=True)
    if p.returncode!=0:
        if 'sangfroid' in p.stderr:
            raise core.Violation('the saving process failed: '+p.stderr[-2000:])
        raise core.HarnessError(p.stderr[-2000:])
    return json.loads(p.stdout)


def root_of(data):
    try:
        roots = [k for k in obs.tree_of_bytes(data)[2] if isinstance(k, tuple) and k[0]=='canvas']
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    return roots[0] if len(roots)==1 else f'{len(roots)} roots'


FAULTS = [['kill', 0], ['tear_kill', 0], ['err', errno.ENOSPC], ['err', errno.EIO], ['short_err', 0], ['full', 0]]


@workload('C03', 48, 900)
def faults(case):
    rng = case.rng
    where = os.path.realpath(case.path('d'))
    os.mkdir(where)
    doc = model.Doc(rng, size=rng.choice([0, 1, 4, 30]))
    old = model.Doc(rng, size=rng.choice([0, 2, 10]))
    zipped = rng.random()<0.5
    source = os.path.join(where, 'source.sifz' if zipped else 'source.sif')
    with open(source, 'wb') as f:
        data = doc.xml()
        f.write(gzip.compress(data) if zipped else data)

    kind = ['plain', 'new', 'existing', 'symlink', 'same'][case.index % 5]
    suffix = ['.sif', '.sifz'][(case.index//5) % 2]
    target = os.path.join(where, 'target'+suffix)
    save_as = target
    real_target = target
    if kind=='plain':
        save_as, real_target = None, source
    elif kind=='same':
        save_as = real_target = source
    elif kind=='existing':
        with open(target, 'wb') as f:
            f.write(old.xml())
    elif kind=='symlink':
        real_target = os.path.join(where, 'elsewhere'+suffix)
        with open(real_target, 'wb') as f:
            f.write(old.xml())
        os.symlink(rng.choice([real_target, os.path.basename(real_target)]), target)

    result = saver(dict(dir=where, open=source, save_as=save_as, name='edited', faults=FAULTS))
    expected = ast.literal_eval(result['memory'])
    before = result['snapshot']
    tname = os.path.basename(real_target)
    old_bytes = before.get(tname)
    gz = real_target.endswith('z')

    def is_new(entry):
        if entry is None or entry[0]!='file':
            return False
        b = bytes.fromhex(entry[1])
        return root_of(b)==expected and (b[:2]==b'\x1f\x8b')==gz

    case.did(f'{kind} save to {suffix} from {"gzip" if zipped else "plain"}; calls: {result["reports"][0].get("ops")}')
    for r in result['reports']:
        what = f'{kind} {suffix}, {r["mode"]} {errno.errorcode.get(r["err"], "")} at call {r["n"]} of: {result["reports"][0].get("ops")}'
        after = r['after']
        others = {k: v for k, v in after.items() if k!=tname}
        others_before = {k: v for k, v in before.items() if k!=tname}
        if r['mode']=='count':
            case.check(r['raised'] is None, 'the save failed without a fault: '+str(r['raised']))
            case.check(is_new(after.get(tname)), 'the save did not write the document', what,
                       safe(after.get(tname)))
            case.equal(sorted(others), sorted(others_before), 'a save left something else in the directory', what)
            case.check(others==others_before, 'a save changed another file', what)
            case.saw('unfaulted saves judged')
            continue

        if r['status']==137:
            entry = after.get(tname)
            case.check(entry==old_bytes or is_new(entry),
                       'after a crash, the target is neither the old file nor the new one', what, safe(entry))
            for k, v in others_before.items():
                case.check(others.get(k)==v, f'a crash during a save changed {k}', what)
            case.saw('crashes judged')
            case.distinct((kind, suffix, r['mode'], r['n']))
            continue

        case.check(r['status']==0, f'the saving process ended with status {r["status"]}', what)
        if r['raised'] is None:
            case.check(is_new(after.get(tname)), 'the save seemed to succeed, but the document is not there',
                       what, safe(after.get(tname)))
            if not r['fired']:
                case.equal(sorted(others), sorted(others_before), 'a save left something else in the directory', what)
            continue
        case.check(r['fired'], 'a save failed without a fault', what, r['raised'])
        case.check(after.get(tname)==old_bytes, 'a failed save changed the target', what, r['raised'],
                   safe(after.get(tname)))
        case.check(after==before, 'a failed save left something behind', what, r['raised'],
                   f'{sorted(after)} was {sorted(before)}')
        case.check(r['unchanged'], 'a failed save changed the animation in memory', what)
        case.saw('failed saves judged')
        case.distinct((kind, suffix, r['mode'], r['err'], r['n']))

        # the next plain save goes to the source
        case.check(r['again'] is None, 'a plain save fails after a failed save', what, str(r['again']))
        again = r['after_again']
        sname = os.path.basename(source)
        b = bytes.fromhex(again[sname][1])
        case.check(root_of(b)==expected and (b[:2]==b'\x1f\x8b')==zipped,
                   'after a failed save, a plain save did not write the source file', what)
        case.check({k: v for k, v in again.items() if k!=sname}=={k: v for k, v in before.items() if k!=sname},
                   'after a failed save, a plain save changed something else', what)
        case.saw('later saves judged')


def safe(entry):
    if entry is None:
        return 'the target is not there'
    b = bytes.fromhex(entry[1])
    return f'{entry[0]} of {len(b)} bytes: {b[:60]!r}...{b[-40:]!r}'


@workload('C03', 400, 6000)
def refusals(case):
    """Saves which fail without help from the shim."""
    rng = case.rng
    where = case.path('d')
    os.mkdir(where)
    doc = model.Doc(rng, size=rng.choice([1, 3]))
    blank = rng.random()<0.15
    source = None
    if blank:
        animation = sangfroid.Animation()
    else:
        source = os.path.join(where, 'source.sif')
        with open(source, 'wb') as f:
            f.write(doc.xml())
        animation = sangfroid.open(source)
    suffix = rng.choice(['.sif', '.sifz'])
    target = os.path.join(where, 'target'+suffix)
    if rng.random()<0.5:
        with open(target, 'wb') as f:
            f.write(model.Doc(rng, size=2).xml())

    fault = rng.choice(['surrogate', 'control', 'missing', 'file as directory', 'directory', '.sfg', '.txt', 'none', ''])
    bad = None
    if fault in ('surrogate', 'control'):
        bad = rng.choice(['\ud800', 'abc\udfff']) if fault=='surrogate' else rng.choice(['\x00', 'a\x0bb', '\ufffe', '\x1f'])
        place = rng.choice(['name', 'desc', 'text'])
        if place=='text':
            t = sangfroid.layer.Text()
            t.text = bad
            animation.append(t)
        else:
            setattr(animation, place, bad)
        if rng.random()<0.3:
            target = source or target
    elif fault=='missing':
        target = os.path.join(where, 'nowhere', 'target'+suffix)
    elif fault=='file as directory':
        with open(os.path.join(where, 'plainfile'), 'wb') as f:
            f.write(b'x')
        target = os.path.join(where, 'plainfile', 'target'+suffix)
    elif fault=='directory':
        target = os.path.join(where, 'dir'+suffix)
        os.mkdir(target)
    else:
        target = os.path.join(where, 'target'+(fault if fault!='none' else ''))
        if fault and rng.random()<0.5:
            with open(target, 'wb') as f:
                f.write(b'precious')

    def snap():
        result = {}
        for base, dirs, files in os.walk(where):
            for d in dirs:
                result[os.path.join(base, d)] = None
            for fn in files:
                with open(os.path.join(base, fn), 'rb') as f:
                    result[os.path.join(base, fn)] = f.read()
        return result

    before, memory = snap(), obs.tree_of_tag(animation.tag)
    read = obs.readout(animation)
    case.did(f'{fault}: save to {target[len(where)+1:]!r}')
    e = case.raises(lambda: animation.save(target), Exception, f'a save which cannot work ({fault}) raised no error')
    after = snap()
    case.check(after==before, f'a failed save ({fault}, {type(e).__name__}) changed the directory',
               f'{sorted(before)} -> {sorted(after)}; changed: {[k for k in before if after.get(k)!=before[k]]}')
    d = obs.diff(memory, obs.tree_of_tag(animation.tag))
    case.check(d is None, 'a failed save changed the document in memory', d or '')
    d = obs.compare_readouts(read, obs.readout(animation))
    case.check(d is None, 'a failed save changed what can be read', d or '')
    case.saw('in-process failures judged')
    case.distinct((fault, bad, blank, os.path.basename(target), len(before)))

    if bad is not None:
        # put it right, and it can be saved
        if place=='text':
            t.text = 'fine'
        else:
            setattr(animation, place, 'fine')
    if blank:
        case.raises(lambda: animation.save(), Exception, 'a failed save named a blank animation')
        case.check(snap()==before, 'saving a blank animation under no name wrote something')
    else:
        animation.save()
        after = snap()
        case.equal([k for k in after if after[k]!=before.get(k)]+[k for k in before if k not in after],
                   [source], 'after a failed save, a plain save did not go to the source')
        root = [k for k in obs.tree_of_file(source)[2] if k[0]=='canvas'][0]
        d = obs.diff(obs.tree_of_tag(animation.tag), root)
        case.check(d is None, 'after a failed save, a plain save wrote something else', d or '')
        case.saw('later saves judged')


@workload('C03', 24, 240)
def limits(case):
    """The disk fills up, as the file size limit has it."""
    rng = case.rng
    where = os.path.realpath(case.path('d'))
    os.mkdir(where)
    doc = model.Doc(rng, size=20)
    source = os.path.join(where, 'source.sif')
    data = doc.xml()
    with open(source, 'wb') as f:
        f.write(data)
    target = os.path.join(where, rng.choice(['t.sif', 't.sifz', 'source.sif']))
    limit = rng.choice([1, 10, 500, len(data)//20, len(data)//2])
    result = saver(dict(dir=where, open=source, save_as=target, name='x', faults=[], rlimit=max(1, limit)))
    [r] = result['reports']
    case.did(f'limit {limit} of about {len(data)} bytes: {r.get("raised")}')
    if r['raised'] is None:
        return     # it fitted, once compressed
    case.check(r['after']==result['snapshot'], 'a save which ran out of space changed the directory',
               f'{sorted(r["after"])} was {sorted(result["snapshot"])}')
    case.check(r['unchanged'], 'a save which ran out of space changed the animation')
    case.saw('failed saves judged')
    case.distinct((limit, os.path.basename(target), len(data)))
