"""
The runner: executes workloads in worker processes, with monitors watching,
and turns what they saw into an exit status and an evidence file.

A workload is a function of one argument, a Case, which makes one execution of
the real code (from /repo) out of the case's own random generator and reports
what it observed.  A case's generator depends only on VERIF_SEED, the property,
the workload and the case's number, so that any case can be run again by itself.
"""
import collections
import errno
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('REPO', '/repo'))
CPU_LIMIT = 30.0        # seconds of CPU in one case before we call it a hang


# how many times its number of cases each quick check runs
SCALE = dict(C01=2, C02=2, C03=1.5, C04=3, C05=2, C07=2, C09=1.5, C10=5, C11=3, C12=2, C13=2, C14=2,
             C15=4, C16=2, C17=3, C18=3, C19=1.5, C23=2, C24=5, C25=3, C26=4, C27=2, C28=1.5)


class Violation(Exception):
    """The property does not hold in this execution."""


class Hang(BaseException):
    """One case used far more CPU time than any case needs."""


class HarnessError(Exception):
    """The harness can't do its job here (says nothing about the property)."""


WORKLOADS = collections.OrderedDict()     # property -> [Workload]
RULES = {}
REQUIRED = {}
ASSUMPTIONS = {}
LEVELS = {}
CLEANUP = []
START = []                                # called in each worker before anything else
PROBES = {}                               # finding key -> function


class Workload:
    def __init__(self, fn, name, quick, thorough, serial=False):
        self.fn, self.name, self.quick, self.thorough, self.serial = (
                fn, name, quick, thorough, serial)


def workload(prop, quick, thorough, name=None):
    def inner(fn):
        WORKLOADS.setdefault(prop, []).append(
                Workload(fn, name or fn.__name__, quick, thorough))
        return fn
    return inner


def rule(prop, text, required=(), assumptions=(), level='exploration'):
    RULES[prop] = ' '.join(text.split())
    REQUIRED[prop] = tuple(required)
    ASSUMPTIONS[prop] = list(assumptions)
    LEVELS[prop] = level


def probe(key):
    """Registers a function which says whether a known finding is still there."""
    def inner(fn):
        PROBES[key] = fn
        return fn
    return inner


def digest(x):
    return hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'),
                           digest_size=8).hexdigest()


class Case:
    """One execution."""
    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        self.rng = random.Random(f'{seed}/{prop}/{workload}/{index}')
        self.events = collections.Counter()
        self.signatures = set()
        self.log = []
        self._scratch = None

    # -- what the workload reports

    def saw(self, event, n=1):
        """A monitor observed something, and judged it."""
        self.events[event] += n

    def did(self, *what):
        """Goes into the trace of this case."""
        self.log.append(' '.join(
            w if isinstance(w, str) else short(w) for w in what))

    def distinct(self, x):
        """This case is non-trivial, and this is what makes it different."""
        self.signatures.add(digest(x))

    def check(self, ok, message, *details):
        if not ok:
            self.fail(message, *details)

    def fail(self, message, *details):
        raise Violation(message + ''.join(
            '\n    ' + (d if isinstance(d, str) else short(d, 1500)) for d in details))

    def equal(self, got, want, message, *details):
        if got!=want or type(got) is bool and type(want) is not bool:
            self.fail(message, 'got:  '+short(got, 1500), 'want: '+short(want, 1500), *details)

    def raises(self, fn, kinds, message, *details):
        try:
            result = fn()
        except kinds as e:
            return e
        except Exception as e:
            self.fail(message+f' (raised {type(e).__name__}: {e})', *details)
        self.fail(message+' (no error was raised)',
                  'result: '+safe_repr(result), *details)

    # -- helpers

    @property
    def scratch(self):
        """A scratch directory, for this case alone."""
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='sfmon-')
        return self._scratch

    def path(self, name):
        return os.path.join(self.scratch, name)

    def close(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def safe_repr(x):
    try:
        return short(x, 300)
    except Exception as e:
        return f'<{type(x).__name__}: repr raised {type(e).__name__}>'


def short(x, n=200):
    s = x if isinstance(x, str) else repr(x)
    if len(s)>n:
        s = s[:n*2//3] + ' ... ' + s[-n//3:]
    return s


def _is_environment(e):
    """Things which go wrong in the sandbox and not in the code."""
    if isinstance(e, MemoryError):
        return True
    if isinstance(e, OSError) and e.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT):
        return True
    return isinstance(e, HarnessError)


def run_case(prop, w, index, seed, tier):
    """Runs one case. Returns (case, problem), where problem is None
    or (kind, text), and kind is 'violation' or 'error'."""
    case = Case(prop, w.name, index, seed, tier)
    problem = None

    def on_timer(*_):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        w.fn(case)
    except Violation as e:
        problem = ('violation', str(e))
    except Hang:
        problem = ('violation', f'no result after {CPU_LIMIT} s of CPU time:\n'
                   + traceback.format_exc(limit=-12))
    except Exception as e:
        if _is_environment(e):
            problem = ('error', traceback.format_exc())
        else:
            # Nothing raises unexpectedly on the tree this was written for;
            # so the behaviour of the code has changed under the workload.
            problem = ('violation', f'unexpected {type(e).__name__}: '
                       f'{short(str(e), 500)}\n' + traceback.format_exc(limit=-14))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        case.close()
    return case, problem


class LineMonitor:
    """Records which lines of the code under test are executed."""
    def __init__(self):
        self.lines = set()
        self.tool = None

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        for tool in (3, 4, 1):
            try:
                mon.use_tool_id(tool, 'sfmon')
            except ValueError:
                continue
            self.tool = tool
            break
        else:
            return

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(REPO+'/'):
                self.lines.add((fn[len(REPO)+1:], line))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)


def _worker(prop, seed, tier, queue, results, deadline, stop):
    os.environ.setdefault('SFMON_WORKER', '1')
    for fn in START:
        fn()
    monitor = LineMonitor()
    monitor.start()
    events = collections.Counter()
    counts = collections.Counter()
    signatures = collections.defaultdict(set)
    steps = set()
    samples = {}
    problems = []
    skipped = 0

    while True:
        item = queue.get()
        if item is None:
            break
        wi, first, last = item
        w = WORKLOADS[prop][wi]
        for index in range(first, last):
            if time.time()>deadline or stop.is_set():
                skipped += 1
                continue
            case, problem = run_case(prop, w, index, seed, tier)
            counts[w.name] += 1
            events.update(case.events)
            if case.signatures:
                signatures[w.name].add(digest(sorted(case.signatures)))
                steps |= case.signatures
            if case.log and (w.name not in samples or index==0):
                samples[w.name] = (index, case.log[:25])
            if problem is not None:
                problems.append((w.name, index, problem[0], problem[1], case.log[-60:]))
                if len(problems)>=3:
                    stop.set()

    results.put((counts, events, dict(signatures), steps, samples, problems, skipped,
                 sorted(monitor.lines)))


def findings():
    """Reads the known findings. Returns [(property, key, text)].
    Lines which say "fixed:" are only a record, and suppress nothing."""
    result = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:'):
                _, prop, key, text = line.split(None, 3)
                result.append((prop.split('=')[1], key.split('=')[1], text))
    return result


def main(prop, seed, tier, replay=None):
    started = time.time()

    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        [w] = [w for w in WORKLOADS[prop] if w.name==r['workload']]
        for fn in START:
            fn()
        case, problem = run_case(prop, w, r['index'], r['seed'], r['tier'])
        print('\n'.join(case.log))
        if problem is None:
            print('held')
            return 0
        print(problem[1])
        print(f'VIOLATION property={prop} replay={replay}')
        return 1

    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier=='quick' else '3000'))
    workers = int(os.environ.get('VERIF_JOBS', '8'))
    # fork, so that /repo's code is imported once
    mp = multiprocessing.get_context('fork')
    queue, results, stop = mp.Queue(), mp.SimpleQueue(), mp.Event()

    planned = 0
    items = []
    for wi, w in enumerate(WORKLOADS[prop]):
        n = int(w.quick*SCALE.get(prop, 1)) if tier=='quick' else w.thorough
        planned += n
        step = max(1, n//100)
        items += [(k/max(1, n), (wi, k, min(n, k+step))) for k in range(0, n, step)]
    items.sort(key=lambda x: x[0])     # all workloads advance together
    for _, item in items:
        queue.put(item)
    for _ in range(workers):
        queue.put(None)

    procs = [mp.Process(target=_worker, args=(
        prop, seed, tier, queue, results, started+budget, stop))
        for _ in range(workers)]
    for p in procs:
        p.start()

    counts, events = collections.Counter(), collections.Counter()
    signatures, samples, problems, skipped = collections.defaultdict(set), {}, [], 0
    lines, steps = set(), set()
    got = 0
    while got<len(procs):
        if results.empty():
            # a worker which was killed will never report
            dead = [p for p in procs if not p.is_alive() and p.exitcode!=0]
            if dead and all(not p.is_alive() for p in procs) and results.empty():
                print(f'{len(dead)} worker(s) died: exit codes '
                      f'{[p.exitcode for p in dead]}', file=sys.stderr)
                break
            time.sleep(0.01)
            continue
        c, e, s, st, sa, pr, sk, ln = results.get()
        steps |= st
        got += 1
        counts.update(c)
        events.update(e)
        for k, x in s.items():
            signatures[k] |= x
        for k, x in sa.items():
            if k not in samples or x[0]<samples[k][0]:
                samples[k] = x
        problems += pr
        skipped += sk
        lines |= set(ln)
    for p in procs:
        p.join(5)

    violations = sorted([p for p in problems if p[2]=='violation'])
    errors = sorted([p for p in problems if p[2]=='error'])
    missing = [r for r in REQUIRED[prop] if not events[r]]

    # known findings

    known = []
    for fprop, key, text in findings():
        if fprop!=prop:
            continue
        try:
            still = PROBES[key]()
        except Exception as e:
            still = True
        if still:
            known.append(text)
            print(f'KNOWN-FINDING: property={prop} {text}')

    replays = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    for name, index, _, text, log in violations[:5]:
        fn = os.path.join(HERE, 'evidence', 'replays', f'{prop}-{name}-{index}.json')
        with open(fn, 'w') as f:
            json.dump(dict(property=prop, workload=name, index=index, seed=seed,
                           tier=tier, problem=text, trace=log), f, indent=1)
        replays.append(fn)
        print(f'--- {prop}/{name}#{index}: {short(text, 3000)}')
        print(f'VIOLATION property={prop} replay={fn}')

    by_file = collections.Counter(fn for fn, _ in lines)

    evidence = dict(
            property=prop, tier=tier, seed=seed, level=LEVELS[prop],
            coverage=dict(
                evaluations=sum(counts.values()),
                distinct_nontrivial=sum(len(s) for s in signatures.values()),
                rule=RULES[prop],
                samples=[dict(workload=k, case=i, trace=log)
                         for k, (i, log) in sorted(samples.items())],
                cases_by_workload=dict(counts),
                distinct_steps=len(steps),
                distinct_by_workload={k: len(s) for k, s in signatures.items()},
                observations_judged=dict(sorted(events.items())),
                lines_of_the_code_executed=dict(sorted(by_file.items())),
                planned=planned,
                skipped_for_lack_of_time=skipped,
                ),
            assumptions=ASSUMPTIONS[prop],
            known_findings=known,
            replays=replays,
            wall_s=round(time.time()-started, 2),
            violations=len(violations),
            )
    with open(os.path.join(HERE, 'evidence', prop+'.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)

    print(f'{prop}: {sum(counts.values())} executions, '
          f'{evidence["coverage"]["distinct_nontrivial"]} distinct and non-trivial, '
          f'{sum(events.values())} observations judged, '
          f'{len(violations)} violations, {evidence["wall_s"]} s')

    if violations:
        return 1
    for name, index, _, text, log in errors[:3]:
        print(f'{prop}/{name}#{index}: harness error:\n{text}', file=sys.stderr)
    if errors or got<len(procs):
        return 2
    if missing:
        print(f'{prop}: the monitors never saw: {missing}', file=sys.stderr)
        return 2
    if tier=='quick' and skipped>planned*0.9:
        print(f'{prop}: no time', file=sys.stderr)
        return 2
    return 0
