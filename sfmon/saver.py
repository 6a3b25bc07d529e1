"""
The process which saves, with shim.c preloaded.  It reads one job per line from standard
input: it opens an animation, edits it, and then, in one forked child for each fault, saves it
with that fault armed, and says what became of it.
"""
import ctypes, json, os, shutil, sys
import sangfroid
from sfmon import obs

MODES = dict(count=1, kill=2, err=3, tear_kill=4, short_err=5, full=6)
lib = ctypes.CDLL(None)
lib.sfmon_ops.restype = ctypes.c_char_p


def child(job, mode, n, err, out):
    where = job['dir']
    # from here on, the animation is a copy, as it was in the parent
    animation = job['animation']
    if job.get('rlimit'):
        import resource, signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (job['rlimit'], job['rlimit']))
    before = obs.tree_of_tag(animation.tag)
    raised = None
    lib.sfmon_arm(where.encode(), MODES[mode], n, err)
    try:
        if job['save_as'] is None:
            animation.save()
        else:
            animation.save(job['save_as'])
    except Exception as e:
        raised = f'{type(e).__name__}: {e}'[:300]
    count = lib.sfmon_disarm()
    report = dict(raised=raised, count=count, fired=lib.sfmon_fired(),
                  ops=lib.sfmon_ops().decode(),
                  unchanged=obs.tree_of_tag(animation.tag)==before)
    # what's there now, before anything else is done
    report['after'] = snapshot(where)
    if raised is not None and not job.get('rlimit'):
        try:
            animation.save()
            report['again'] = None
        except Exception as e:
            report['again'] = f'{type(e).__name__}: {e}'[:300]
        report['after_again'] = snapshot(where)
    os.write(out, json.dumps(report).encode())


def snapshot(where):
    result = {}
    for name in sorted(os.listdir(where)):
        fn = os.path.join(where, name)
        if os.path.islink(fn):
            result[name] = ['link', os.readlink(fn)]
        elif os.path.isdir(fn):
            result[name] = ['dir', '']
        else:
            with open(fn, 'rb') as f:
                result[name] = ['file', f.read().hex()]
    return result


def restore(where, snap):
    for name in os.listdir(where):
        fn = os.path.join(where, name)
        if os.path.isdir(fn) and not os.path.islink(fn):
            os.rmdir(fn)
        else:
            os.unlink(fn)
    for name, (kind, content) in snap.items():
        fn = os.path.join(where, name)
        if kind=='link':
            os.symlink(content, fn)
        elif kind=='dir':
            os.mkdir(fn)
        else:
            with open(fn, 'wb') as f:
                f.write(bytes.fromhex(content))


def one(job, mode, n, err):
    restore(job['dir'], job['snapshot'])
    r, w = os.pipe()
    pid = os.fork()
    if pid==0:
        status = 99
        try:
            os.close(r)
            child(job, mode, n, err, w)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    report = json.loads(data) if data else {}
    report['status'] = os.waitstatus_to_exitcode(status)
    if not data:
        report['after'] = snapshot(job['dir'])
    report.update(mode=mode, n=n, err=err)
    return report


def main():
    for line in sys.stdin:
        job = json.loads(line)
        job['animation'] = sangfroid.open(job['open'])
        if job.get('name'):
            job['animation'].tag['mark'] = job['name']
        job['snapshot'] = snapshot(job['dir'])
        reports = []
        clean = one(job, 'count', 0, 0)
        reports.append(clean)
        for mode, err in job['faults']:
            n = 0
            while True:
                n += 1
                report = one(job, mode, n, err)
                reports.append(report)
                if report['status']==0 and not report.get('fired') or n>60:
                    break
        restore(job['dir'], job['snapshot'])
        json.dump(dict(reports=reports, snapshot=job['snapshot'],
                       memory=repr(obs.tree_of_tag(job['animation'].tag))), sys.stdout)
        sys.stdout.write('\n')
        sys.stdout.flush()


main()
