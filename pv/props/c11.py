"""C11: threads mapping concurrently do not affect each other."""
import json
import random
import re
import sys
import threading
import types as types_
import warnings

from .. import sched
from ..gen import Gen
from ..spec import Builder, canon, outcome_errors, real_root
from . import c09

ID = 'C11'
RULE = 'distinct schedules: sequences of (from thread, to thread, function, line) hand-overs'
REQUIRED = ['judged', 'switch', 'schedule.random', 'schedule.points', 'granularity.line', 'granularity.bytecode', 'granularity.store', 'made', 'kinds', 'alone', 'together', 'free', 'declared', 'probed', 'filters']
ASSUMPTIONS = ['schedules are explored at source-line and bytecode granularity of pilo; free-running threads add the interpreter\'s own switches']


class PerThread(object):
    """A log with one list per thread."""

    def __init__(self):
        self.local = threading.local()

    def list(self):
        if not hasattr(self.local, 'items'):
            self.local.items = []
        return self.local.items

    def append(self, item):
        self.list().append(item)

    def take(self):
        out = list(self.list())
        del self.list()[:]
        return out

    def __setitem__(self, i, v):
        self.list()[i] = v


class LocalMonitor(threading.local, c09.Monitor):

    def __init__(self):
        threading.local.__init__(self)
        c09.Monitor.__init__(self)


def outcome(form, got, trace):
    if got[0] == 'ok':
        errors = got[1]
        return ('ok', canon(form), outcome_errors(errors), [str(e.path) for e in errors], trace)
    return ('raises', got[1], trace)


# Each world is a function of a seed; it returns a list of functions, one per
# thread, that map and return what there is to compare.

def world_forms(seed, n):
    import pilo
    rng = random.Random(seed)
    g = Gen(rng, depth=2, hooks=0.15, width=3, native=False)
    form = g.form().number()
    b = Builder()
    b.trace = PerThread()
    b.default_calls = PerThread()
    cls = form.build(b)
    shared = g.form_data(form)
    shared_src = [pilo.source.JsonSource(json.dumps(shared)), pilo.DefaultSource(shared, location='s'),
                  pilo.source.union([shared, {}], merge='combine'), pilo.source.mount(m=shared)]
    wrapper = type('W', (pilo.Form,), {'m': pilo.fields.SubForm(cls, default=None)})

    def task(datas, which):
        def fn():
            out = []
            for data, w in zip(datas, which):
                target = cls
                if w < 4:
                    src = shared_src[w]
                    if w == 3:
                        target = wrapper
                elif w == 4:
                    src = pilo.source.JsonSource(json.dumps(data), strict=True)
                else:
                    src = data
                b.trace.take()
                b.default_calls.take()
                obj, got = real_root(target, src, unmapped='capture' if w == 5 else 'ignore')
                out.append(outcome(obj, got, b.trace.take() + b.default_calls.take()))
            return out
        return fn

    fns = []
    for _ in range(n):
        k = rng.randrange(1, 3)
        fns.append(task([g.form_data(form) for _ in range(k)], [rng.randrange(7) for _ in range(k)]))
    return fns


def world_reads(seed, n):
    rng = random.Random(seed)
    fspec = c09.make_form(rng, 0, [])
    mon = LocalMonitor()
    cls = c09.build(fspec, fspec.name, mon, {})

    def task(datas):
        def fn():
            out = []
            for data in datas:
                mon.counter = 0
                del mon.runs[:], mon.reads[:]
                form = cls()
                errors = form.map(data)
                out.append((c09.plain(form), outcome_errors(errors), list(mon.runs),
                            [(name, canon(seen)) for _, name, seen, _ in mon.reads]))
            return out
        return fn

    return [task([c09.form_data(rng, fspec)]) for _ in range(n)]


def world_types(seed, n):
    """First uses of polymorphic types."""
    import pilo
    F = pilo.fields
    rng = random.Random(seed)

    class Base(pilo.Form):
        kind = F.Type.abstract()
        v = F.Integer()

    leaves = {}
    for i in range(rng.randrange(2, 5)):
        parent = rng.choice([Base] + list(leaves.values()))
        name = 'k{0}'.format(i)
        leaves[name] = type('Leaf' + name, (parent,), {
            'kind': F.Type.constant(name) if rng.random() < 0.5 else F.Type.instance(name), 'own_' + name: F.Integer(default=i)})

    class Holder(pilo.Form):
        one = F.PolymorphicSubForm(Base.kind)
        many = F.List(F.PolymorphicSubForm(Base.kind), default=[])

    def task(ops):
        def fn():
            out = [sorted(leaves)]  # which also keeps the leaf types alive
            for op, value, probe in ops:
                if op == 'probe':
                    try:
                        out.append(Base.kind.probe(probe))
                    except Exception as ex:
                        out.append(type(ex).__name__)
                elif op == 'cast':
                    try:
                        out.append(Base.kind.cast(probe).__name__)
                    except ValueError:
                        out.append('ValueError')
                else:
                    form = Holder()
                    errors = form.map({'one': probe, 'many': [probe, value]})
                    out.append((canon(form), outcome_errors(errors)))
            return out
        return fn

    fns = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randrange(1, 3)):
            value = {'kind': rng.choice(sorted(leaves)), 'v': rng.randrange(9)}
            probe = dict(value) if rng.random() < 0.7 else {'kind': 'other', 'v': 1}
            ops.append((rng.choice(['probe', 'cast', 'map']), value, probe))
        fns.append(task(ops))
    return fns


def world_kinds(seed, n):
    """One form with every kind of field and shorthand, mapped by all."""
    import pilo
    F = pilo.fields
    rng = random.Random(seed)

    class Kind(pilo.Form):
        kind = F.Type.abstract()

    class One(Kind):
        kind = F.Type.constant('one')
        v = F.Integer(default=1)

    class Two(Kind):
        kind = F.Type.constant('two')
        v = F.String(default='v')

    class Sub(pilo.Form):
        v = F.Integer().range(0, 50)

    makers = {
        'cap': lambda: F.String(default=None).capture('a(?P<cap>.*)'),
        'cap2': lambda: F.String(default=None).capture('[a-z]([0-9]*)'),
        'ints': lambda: F.Integer(default=None).pattern('[0-9]+'),
        'floats': lambda: F.Float(default=None).pattern('[0-9.]+'),
        'text': lambda: F.String(default=None, choices=['a', 'b', 'a1', 'a2']).translate({'a': 'A', 'b': 'B'}),
        'joined': lambda: F.String().format('{x}-{y}', x='cap', y='ints'),
        'word': lambda: F.String(default=None, alphabet='abc0123', min_length=1, max_length=4),
        'day': lambda: F.Date(default=None, format=['iso8601', '%d.%m.%Y']),
        'hour': lambda: F.Time(default=None, format='%H:%M'),
        'moment': lambda: F.Datetime(default=None, format='iso8601'),
        'uid': lambda: F.UUID(default=None),
        'code': lambda: F.Code(default=None),
        'block': lambda: F.Code(default=None),
        'group': lambda: F.Group((re.compile('g([0-9]+)'), F.Integer()), ('named', F.String())),
        'table': lambda: F.Dict(F.String(), F.List(F.Integer()), default=None),
        'pair': lambda: F.Tuple((F.Integer(), F.String()), default=None),
        'many': lambda: F.List(F.SubForm(Sub), default=None),
        'poly': lambda: F.PolymorphicSubForm(Kind.kind, default=None),
        'const': lambda: F.Integer().constant(7),
        'owned': lambda: F.SubForm(Sub, default=None).options(attach_parent=True),
        'number': lambda: F.Decimal(default=None),
        'flag': lambda: F.Boolean(default=None),
        'seen': lambda: F.Integer(default=None).from_context(),
        'loose': lambda: F.Field(default=None).ignore('x'),
    }
    names = rng.sample(sorted(makers), rng.randrange(3, 9))
    if 'joined' in names:
        names = sorted(set(names) | {'cap', 'ints'})
        rng.shuffle(names)
    cls = type('Kinds', (pilo.Form,), dict((name, makers[name]()) for name in names))

    def data():
        k = rng.randrange(1, 60)
        given = {
            'cap': 'a{0}'.format(k), 'cap2': 'z{0}'.format(k), 'ints': '{0}px'.format(k), 'floats': '{0}.5'.format(k),
            'text': rng.choice(['a', 'b', 'a1', 'q{0}'.format(k)]), 'word': rng.choice(['a', 'ab{0}'.format(k), 'xyz']),
            'day': rng.choice(['2001-01-{0:02}'.format(k % 28 + 1), '{0:02}.02.2002'.format(k % 28 + 1), 'no day']),
            'hour': '{0:02}:{1:02}'.format(k % 24, k), 'moment': '2001-01-01T{0:02}:{1:02}:00Z'.format(k % 24, k),
            'uid': '12345678-1234-5678-1234-5678123456{0:02}'.format(k), 'code': rng.choice(['os:sep', 'json:dumps', 'nope:x']),
            'block': 'x = {0}\ny = x + 1\n'.format(k), 'g1': k, 'g{0}'.format(k): k + 1, 'named': 'n{0}'.format(k),
            'table': {'t': [k, k + 1], 'u{0}'.format(k): [k]}, 'pair': [k, 'p'], 'many': [{'v': k}, {'v': k + 10}],
            'poly': rng.choice([{'kind': 'one', 'v': k}, {'kind': 'two', 'v': 'v{0}'.format(k)}, {'kind': 'three'}]),
            'owned': {'v': k}, 'number': '{0}.25'.format(k), 'flag': rng.choice(['true', '0', 'maybe']), 'loose': rng.choice(['x', k]),
        }
        return dict((name, v) for name, v in given.items() if rng.random() < 0.85), k

    def shown(v):
        if isinstance(v, types_.ModuleType):
            return sorted((k, repr(x)) for k, x in vars(v).items() if k in ('x', 'y'))
        if callable(v):
            return v.__name__
        if isinstance(v, pilo.Form):
            parent = getattr(v, 'parent', None)
            return (type(v).__name__, dict(v), None if parent is None else sorted(parent))
        return v

    def task(given):
        def fn():
            out = [[One.__name__, Two.__name__]]  # which also keeps the leaf types alive
            for data, k in given:
                form = cls()
                with pilo.ctx(seen=k):
                    errors = form.map(data)
                out.append((sorted((name, repr(shown(v))) for name, v in form.items()), outcome_errors(errors), [str(e) for e in errors]))
                out.append([type(v).__name__ for v in form.get('many') or []])
            return out
        return fn

    return [task([data() for _ in range(rng.randrange(1, 3))]) for _ in range(n)]


def world_context(seed, n):
    """Context variables, locations and rewinds."""
    import pilo
    rng = random.Random(seed)

    def task(seed2):
        def fn():
            r = random.Random(seed2)
            ctx, out = pilo.ctx, []

            def go(depth):
                out.append((getattr(ctx, 'tv', None), ctx.values_for('tv'), str(ctx.src_path), ctx.ignore_default))
                if depth == 0:
                    return
                roll = r.randrange(4)
                if roll == 0 or ctx.src_path is None:
                    with ctx(src=pilo.DefaultSource({'a': {'a': depth}}), tv=r.random()):
                        go(depth - 1)
                elif roll == 1:
                    with ctx(src='a'):
                        out.append(repr(ctx.src_path.value))
                        go(depth - 1)
                elif roll == 2:
                    with ctx(tv=depth, ignore_default=r.random() < 0.5):
                        go(depth - 1)
                        with ctx.rewind(lambda frame: True):
                            go(0)
                else:
                    with ctx.reset():
                        go(depth - 1)
                out.append((getattr(ctx, 'tv', None), ctx.values_for('tv'), str(ctx.src_path)))

            go(5)
            return out
        return fn

    return [task(rng.random()) for _ in range(n)]


def world_declare(seed, n):
    """Forms declared at the same time, and mapped."""
    import pilo
    F = pilo.fields
    rng = random.Random(seed)

    class Shared(pilo.Form):
        s1 = F.Integer(default=1)
        s2 = F.Integer(default=2)

    def task(names, base):
        def fn():
            body = {}
            for name in names:
                body[name] = F.List(F.Integer()) if name < 'd' else F.Integer(default=0)
            cls = type('D', (Shared,) if base else (pilo.Form,), body)
            order = [f.name for f in cls.fields]
            errors = cls().map({})
            more = type('E', (cls,), {'more': F.String(default='m'), names[0]: F.Integer(default=9)})
            return (order, outcome_errors(errors), [f.name for f in more.fields], sorted(more({
                n_: ([] if n_ < 'd' else 5) for n_ in names[1:]}).items(), key=repr))
        return fn

    fns = []
    for _ in range(n):
        names = ['a', 'b', 'c', 'd', 'e', 'f']
        rng.shuffle(names)
        fns.append(task(names[:rng.randrange(2, 7)], rng.random() < 0.4))
    return fns


def compare(case, world, n, opcodes=0.3):
    seed = case.rng.random()
    want = []
    for i in range(n):
        want.append(sched.alone(world(seed, n)[i]))
        case.event('alone')
    fns = world(seed, n)
    filters = list(warnings.filters)
    rng = case.rng
    fine = rng.random() < opcodes
    case.event('granularity', 'bytecode' if fine else 'line')
    if rng.random() < 0.5:
        s = sched.Scheduler(rng, n, chance=rng.choice([0.02, 0.1, 0.3, 1.0]), opcodes=fine)
        case.event('schedule', 'random')
    else:
        # few hand-overs at random points
        scale = 6 if fine else 1
        s = sched.Scheduler(rng, n, opcodes=fine, points=set(
            rng.randrange(1, scale * rng.choice([60, 400, 2500])) for _ in range(rng.randrange(1, 8))))
        case.event('schedule', 'points')
    s.run(fns)
    case.event('together')
    for _ in s.switches:
        case.event('switch')
    where = s.switches[-6:]
    for i in range(n):
        if i in s.failures:
            case.fail('thread-raised', 'a thread raised: {0!r}'.format(s.failures[i]), switches=where, thread=i, alone=want[i])
        case.equal(s.results[i], want[i], 'thread-differs', 'a thread got something else than alone', switches=where, thread=i)
    case.event('filters')
    case.equal(list(warnings.filters), filters, 'warning-filters', 'the warning filters of the process changed')
    if s.free:
        case.event('stalled')
    if s.switches:
        case.distinct(tuple(s.switches))
    case.sample((world.__name__, n, s.steps, len(s.switches)))


def forms(case):
    compare(case, world_forms, case.rng.choice([2, 2, 3]))


def reads(case):
    compare(case, world_reads, 2)


def types(case):
    compare(case, world_types, case.rng.choice([2, 3]))
    case.event('probed')


def kinds(case):
    compare(case, world_kinds, case.rng.choice([2, 2, 3]))
    case.event('kinds')


def context(case):
    compare(case, world_context, case.rng.choice([2, 3]))


def declare(case):
    compare(case, world_declare, 2, opcodes=0.6)
    case.event('declared')


def creating(case):
    """Fields made by several threads at once, handed over between the read and the write of what they share."""
    import pilo
    F = pilo.fields
    rng = case.rng
    kinds = [rng.choice([F.Integer, F.String, F.Boolean, F.Field]) for _ in range(20)]

    def fn():
        return [kind() for kind in kinds]

    n = rng.choice([2, 2, 3])
    s = sched.Scheduler(rng, n, chance=rng.choice([0.005, 0.005, 0.02]), stores=True)
    s.run([fn] * n)
    case.event('granularity', 'store')
    for i in range(n):
        if i in s.failures:
            case.fail('thread-raised', 'a thread raised: {0!r}'.format(s.failures[i]), switches=s.switches[-6:], thread=i)
        names = ['f{0}'.format(j) for j in range(len(kinds))]
        body = dict(zip(names, s.results[i]))
        if rng.random() < 0.5:
            body = dict(sorted(body.items(), reverse=True))
        cls = type('D', (pilo.Form,), body)
        case.equal([f.name for f in cls.fields], names, 'creation-order', 'fields are not in the order their thread made them',
                   switches=s.switches[-6:], thread=i)
        case.event('made')
    if s.switches:
        case.distinct(tuple(s.switches))


def free(case):
    """Threads left to the interpreter's own switching."""
    world = case.rng.choice([world_forms, world_kinds, world_reads, world_types, world_context, world_declare])
    n = 6
    seed = case.rng.random()
    want = [sched.alone(world(seed, n)[i]) for i in range(n)]
    fns = world(seed, n)
    filters = list(warnings.filters)
    barrier = threading.Barrier(n)
    results, failures = {}, {}

    def body(i):
        try:
            barrier.wait()
            for _ in range(3):
                results.setdefault(i, []).append(fns[i]())
        except BaseException as ex:
            failures[i] = ex

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=body, args=(i,)) for i in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    case.event('free')
    for i in range(n):
        if i in failures:
            case.fail('thread-raised', 'a thread raised: {0!r}'.format(failures[i]), world=world.__name__)
        for got in results[i]:
            case.equal(got, want[i], 'thread-differs', 'a thread got something else than alone', world=world.__name__)
    case.equal(list(warnings.filters), filters, 'warning-filters', 'the warning filters of the process changed')
    case.event('filters')


WORKLOADS = [
    ('forms', forms, 150, 6000),
    ('reads', reads, 250, 6000),
    ('types', types, 250, 6000),
    ('kinds', kinds, 250, 8000),
    ('context', context, 150, 6000),
    ('declare', declare, 250, 6000),
    ('creating', creating, 120, 4000),
    ('free', free, 40, 1500),
]
