"""
The runner: executes cases of a property's workloads against the real pilo in
/repo, in several processes, and turns what the monitors observed into a
verdict, an evidence file and replay files.

A case is a function of (seed, property, workload, index) alone, so a replay
file only needs those four values.

Verdicts:

    0  held on everything explored, and every required kind of event was seen
    1  violated: a line "VIOLATION property=<id> replay=<path>"
    2  inconclusive (a monitor was never reached, or a worker died)
"""
import collections
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PILO_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '6'))

#: A case normally takes milliseconds.  The wall clock only triggers a re-run
#: whose verdict is taken on logical steps (traced lines of pilo).
CASE_ALARM = 40
STEP_LIMIT = 20000000

#: Soft wall limit for all workloads of one check.
WALL = {'quick': 420, 'thorough': 840}


class Violation(Exception):
    """The monitor saw the property broken."""

    def __init__(self, mechanism, message, **witness):
        super(Violation, self).__init__(message)
        self.mechanism = mechanism
        self.message = message
        self.witness = witness


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


def short(obj, limit=1500):
    try:
        text = repr(obj)
    except Exception as ex:  # a repr of a half-built object
        text = '<unprintable {0}: {1}>'.format(type(obj).__name__, type(ex).__name__)
    if len(text) > limit:
        text = text[:limit] + '...'
    return text


class Case(object):
    """
    What a workload function gets: a PRNG, and the sinks for what its monitors
    observe.
    """

    def __init__(self, prop, workload, index, seed, stats):
        self.prop = prop
        self.workload = workload
        self.index = index
        self.seed = seed
        self.rng = random.Random('{0}/{1}/{2}/{3}'.format(seed, prop, workload, index))
        self.stats = stats
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.evaluated = 0

    def event(self, *kind):
        """An observation the deciding monitor made."""
        self.stats.events['.'.join(str(k) for k in kind)] += 1

    def distinct(self, *key):
        """A non-trivial situation that was judged; counted once."""
        if len(self.stats.keys) < 3000000:
            self.stats.keys.add(hash((self.workload,) + key))

    def sample(self, obj):
        if self.index < 3 or (self.index % 997 == 0 and len(self.stats.samples) < 20):
            self.stats.samples.append((self.workload, self.index, short(obj, 600)))

    def fail(self, mechanism, message, **witness):
        raise Violation(mechanism, message, **witness)

    def expect(self, cond, mechanism, message, **witness):
        self.stats.events['judged'] += 1
        if not cond:
            raise Violation(mechanism, message, **witness)

    def equal(self, got, want, mechanism, message, **witness):
        self.stats.events['judged'] += 1
        if got != want:
            raise Violation(mechanism, message, got=got, expected=want, **witness)


class Stats(object):

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.samples = []
        self.cases = collections.Counter()
        self.violations = []
        self.inconclusive = []
        self.truncated = []

    def merge(self, other):
        self.events.update(other.events)
        self.keys |= other.keys
        self.samples.extend(other.samples)
        self.cases.update(other.cases)
        self.violations.extend(other.violations)
        self.inconclusive.extend(other.inconclusive)
        self.truncated.extend(other.truncated)


def import_pilo():
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import pilo
    where = os.path.realpath(pilo.__file__)
    want = os.path.realpath(os.path.join(REPO, 'pilo')) + os.sep
    if not where.startswith(want):
        raise RuntimeError('pilo is imported from {0}, not from {1}'.format(where, want))
    return pilo


def reset_context():
    """
    Each case starts from a fresh context, so that a leak in one case is
    reported by the monitor of C10 and does not disturb the next case.
    """
    import pilo
    stack = getattr(pilo.ctx, 'stack', None)
    if isinstance(stack, list) and len(stack) != 1:
        pilo.ctx.__init__()


def _alarm(signum, frame):
    raise CaseTimeout()


def _with_step_limit(fn, case):
    prefix = os.path.join(REPO, 'pilo')
    count = [0]

    def tracer(frame, event, arg):
        if event == 'call' and not frame.f_code.co_filename.startswith(prefix):
            return None
        count[0] += 1
        if count[0] > STEP_LIMIT:
            raise StepLimit()
        return tracer

    sys.settrace(tracer)
    try:
        fn(case)
    finally:
        sys.settrace(None)
    return count[0]


def run_case(module, name, fn, index, seed, stats):
    case = Case(module.ID, name, index, seed, stats)
    signal.setitimer(signal.ITIMER_REAL, CASE_ALARM)
    try:
        try:
            fn(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as ex:
        return record(module, case, ex.mechanism, ex.message, ex.witness, stats)
    except CaseTimeout:
        # decide on logical steps, not on the clock
        case = Case(module.ID, name, index, seed, stats)
        signal.setitimer(signal.ITIMER_REAL, 8 * CASE_ALARM)
        try:
            try:
                _with_step_limit(fn, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except StepLimit:
            return record(module, case, 'no-termination',
                          'more than {0} steps without an answer'.format(STEP_LIMIT), {}, stats)
        except Violation as ex:
            return record(module, case, ex.mechanism, ex.message, ex.witness, stats)
        except CaseTimeout:
            stats.inconclusive.append('{0}/{1}: wall clock'.format(name, index))
        except Exception:
            return record(module, case, 'unexpected-exception', traceback.format_exc(limit=-8), {}, stats)
    except Exception:
        # The unchanged tree never gets here: whatever the code under test did,
        # no oracle has it among the behaviours the property allows.
        return record(module, case, 'unexpected-exception', traceback.format_exc(limit=-8), {}, stats)
    finally:
        reset_context()


def record(module, case, mechanism, message, witness, stats):
    stats.violations.append({
        'property': module.ID,
        'workload': case.workload,
        'index': case.index,
        'seed': case.seed,
        'tier': case.tier,
        'mechanism': mechanism,
        'message': message,
        'witness': dict((k, short(v)) for k, v in witness.items()),
    })


def workload_sizes(module, tier):
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for name, fn, quick, thorough in module.WORKLOADS:
        n = quick if tier == 'quick' else thorough
        yield name, fn, max(1, int(n * scale))


def worker(module, tier, seed, me, workers, deadline):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    stats = Stats()
    known = known_findings(module.ID)
    for name, fn, n in workload_sizes(module, tier):
        for index in range(me, n, workers):
            if time.time() > deadline:
                stats.truncated.append((name, index))
                break
            stats.cases[name] += 1
            run_case(module, name, fn, index, seed, stats)
            if len([v for v in stats.violations if v['mechanism'] not in known]) >= 3:
                return stats
    return stats


def run_workers(module, tier, seed):
    deadline = time.time() + WALL[tier]
    total = Stats()
    scratch = tempfile.mkdtemp(prefix='pv-')
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for me in range(WORKERS):
        path = os.path.join(scratch, 'w{0}'.format(me))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.chdir(scratch)
                stats = worker(module, tier, seed, me, WORKERS, deadline)
                with open(path, 'wb') as fo:
                    pickle.dump(stats, fo)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = path
    for _ in range(len(pids)):
        pid, status = os.wait()
        path = pids[pid]
        if status != 0 or not os.path.exists(path):
            total.inconclusive.append('worker ended with status {0}'.format(status))
            continue
        with open(path, 'rb') as fo:
            total.merge(pickle.load(fo))
    for root, dirs, files in os.walk(scratch, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        for d in dirs:
            os.rmdir(os.path.join(root, d))
    os.rmdir(scratch)
    return total


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as fo:
        entries = json.load(fo)['findings']
    return dict((e['mechanism'], e) for e in entries if e['property'] == prop)


def write_replay(v):
    folder = os.path.join(HERE, 'replays')
    if not os.path.isdir(folder):
        os.makedirs(folder)
    path = os.path.join(folder, '{property}-{workload}-{seed}-{index}.json'.format(**v))
    with open(path, 'w') as fo:
        json.dump(v, fo, indent=1, sort_keys=True)
    return path


def write_evidence(module, tier, seed, stats, wall, violations):
    folder = os.path.join(HERE, 'evidence')
    if not os.path.isdir(folder):
        os.makedirs(folder)
    samples = []
    seen = set()
    for workload, index, text in sorted(stats.samples):
        if text in seen or len([s for s in samples if s['workload'] == workload]) >= 4:
            continue
        seen.add(text)
        samples.append({'workload': workload, 'index': index, 'case': text})
    doc = {
        'property': module.ID,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(stats.cases.values()),
            'distinct_nontrivial': len(stats.keys),
            'rule': module.RULE,
            'samples': samples[:30],
            'cases_per_workload': dict(stats.cases),
            'monitor_observations': dict(sorted(stats.events.items())),
            'truncated_by_wall_clock': stats.truncated,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) + [
            'decides the executions it produced, on the Python interpreter of /opt/venv',
        ],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    path = os.path.join(folder, module.ID + '.json')
    with open(path + '.tmp', 'w') as fo:
        json.dump(doc, fo, indent=1, sort_keys=True)
    os.rename(path + '.tmp', path)


def main(argv):
    args = list(argv)
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        with open(args[i + 1]) as fo:
            replay = json.load(fo)
        del args[i:i + 2]
        args = args or [replay['property']]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    started = time.time()
    import_pilo()
    module = importlib.import_module('pv.props.' + prop.lower())
    if replay is not None:
        signal.signal(signal.SIGALRM, _alarm)
        os.environ['VERIF_TIER'] = replay.get('tier', tier)
        stats = Stats()
        fn = dict((w[0], w[1]) for w in module.WORKLOADS)[replay['workload']]
        run_case(module, replay['workload'], fn, replay['index'], replay['seed'], stats)
        for v in stats.violations:
            print(json.dumps(v, indent=1, sort_keys=True))
        print('reproduced' if stats.violations else 'not reproduced')
        return 1 if stats.violations else 0

    stats = run_workers(module, tier, seed)
    known = known_findings(prop)
    fresh, listed = [], collections.Counter()
    for v in stats.violations:
        if v['mechanism'] in known:
            listed[v['mechanism']] += 1
        else:
            fresh.append(v)
    for mechanism in sorted(listed):
        print('KNOWN-FINDING: property={0} {1}'.format(prop, known[mechanism]['what']))
    wall = time.time() - started
    write_evidence(module, tier, seed, stats, wall, len(fresh))
    if fresh:
        fresh.sort(key=lambda v: len(v['message']) + sum(len(x) for x in v['witness'].values()))
        by_mechanism = collections.OrderedDict()
        for v in fresh:
            by_mechanism.setdefault(v['mechanism'], v)
        for v in list(by_mechanism.values())[:5]:
            path = write_replay(v)
            print('VIOLATION property={0} replay={1}'.format(prop, path))
            print('  [{0}] {1} #{2}: {3}'.format(v['mechanism'], v['workload'], v['index'], v['message']))
            for key in sorted(v['witness']):
                print('    {0} = {1}'.format(key, v['witness'][key]))
        return 1
    missing = [k for k in getattr(module, 'REQUIRED', ['judged']) if not stats.events.get(k)]
    if missing:
        stats.inconclusive.append('never observed: {0}'.format(', '.join(missing)))
    if not stats.events.get('judged'):
        stats.inconclusive.append('no monitor judged anything')
    if stats.inconclusive:
        print('INCONCLUSIVE property={0} {1}'.format(prop, '; '.join(stats.inconclusive[:5])))
        return 2
    print('held: property={0} tier={1} seed={2} cases={3} judged={4} distinct={5} wall={6:.1f}s'.format(
        prop, tier, seed, sum(stats.cases.values()), stats.events['judged'], len(stats.keys), wall))
    return 0
