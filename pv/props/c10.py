"""C10: the mapping context is always restored."""
import json

from .. import many, engine, spec
from ..gen import Gen
from ..spec import ABSENT, Builder, canon, real_root
from . import c09

ID = 'C10'
RULE = ('distinct programs (shape of the scopes entered, point where an exception left) and distinct (form shape, hook call that raised, '
        'exception type)')
REQUIRED = ['judged', 'flag.True', 'flag.False', 'scope.vars', 'scope.source', 'scope.key', 'scope.reset', 'scope.rewind', 'scope.rewind-missed', 'left.normally',
            'left.exception', 'rewound.below-key', 'rewound.below-source', 'fault.hook', 'fault.escaped', 'observed.inside-hook']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


#: What ends a mapping without being an Exception.
STOPS = (Stop, KeyboardInterrupt, SystemExit, GeneratorExit)


VARS = ['alpha', 'field', 'gamma', 'mark', 'ignore_default', 'ignore_missing']
DATA = {
    'a': {'b': {'c': [1, {'d': 'deep'}, [2, 3]], 'e': None}, 'x.y': 'dotted', 'l': [[1, 2], {'z': 0}]},
    'b': ['p', 'q', {'a': 5}],
    'n': None,
    's': 'text',
    'x': {'y': {'a': 'xya'}},
}
KEYS = ['a', 'b', 'c', 'd', 'e', 'l', 'n', 's', 'x', 'x.y', 'z', 'nope', '', 0, 1, 2, 5, None]


# ---- reference model: a stack of immutable frames

class ModelSource(object):

    def __init__(self, data, text):
        self.data, self.text = data, text     # text: parts -> str


def dig_dotted(data, parts):
    """As native and JSON sources do: the key itself, else its dotted chain."""
    for p in parts:
        if data is ABSENT:
            return ABSENT
        nxt = spec.lookup(data, p)
        if isinstance(data, str) and isinstance(p, int) and p < len(data):
            nxt = data[p]       # text can be indexed
        if nxt is ABSENT and isinstance(p, str) and '.' in p:
            nxt = data
            for atom in p.split('.'):
                nxt = spec.lookup(nxt, atom)
        data = nxt
    return data


class Model(object):

    def __init__(self):
        self.frames = [({'ignore_default': False, 'ignore_missing': False}, 'none', None)]

    def push(self, variables, kind=None, src=None):
        self.frames = self.frames + [(variables, kind, src)]

    def var(self, k):
        for variables, _, _ in reversed(self.frames):
            if k in variables:
                return variables[k]
        return ABSENT

    def values(self, k):
        return [v[k] for v, _, _ in self.frames if k in v]

    def location(self):
        source, parts = None, []
        for _, kind, src in self.frames:
            if kind == 'source':
                source, parts = src, []
            elif kind == 'none':
                source, parts = None, []
            elif kind == 'key':
                parts = parts + [src]
        return source, tuple(parts)

    def snapshot(self):
        source, parts = self.location()
        out = {'vars': tuple(repr(self.var(k)) for k in VARS), 'all': tuple(repr(self.values(k)) for k in VARS)}
        if source is None:
            out['where'] = out['value'] = None
        else:
            out['where'] = source.text(parts)
            out['value'] = canon(dig_dotted(source.data, parts))
        return out


def real_snapshot(ctx):
    out = {}
    values = []
    for k in VARS:
        try:
            values.append(repr(getattr(ctx, k)))
        except AttributeError:
            values.append(repr(ABSENT))
    out['vars'] = tuple(values)
    out['all'] = tuple(repr(ctx.values_for(k)) for k in VARS)
    path = ctx.src_path
    if path is None:
        out['where'] = out['value'] = None
    else:
        out['where'] = str(path)
        out['value'] = canon(at(path))
    return out


def at(path):
    """The whole value at a location, whatever kind of source it is in."""
    import pilo
    if not path.exists:
        return ABSENT
    if path.is_null:
        return None
    try:
        keys = list(path.mapping())
    except pilo.SourceError:
        pass
    else:
        out = {}
        for k in keys:
            path.append(k)
            try:
                out[k] = at(path)
            finally:
                path.pop()
        return out
    if isinstance(path.src, pilo.source.ConfigSource) and isinstance(path.primitive(), str):
        return path.primitive()      # text is also the sequence of its words
    try:
        n = path.sequence()
    except pilo.SourceError:
        return path.primitive()
    out = []
    for i in range(n):
        path.append(i)
        try:
            out.append(at(path))
        finally:
            path.pop()
    return out


def sources(pilo):
    def text(prefix):
        def fn(parts):
            t = spec.path_text(parts)
            return prefix + t
        return fn
    return [
        (lambda: pilo.DefaultSource(DATA), ModelSource(DATA, text(''))),
        (lambda: pilo.DefaultSource(DATA['a'], location='loc'), ModelSource(DATA['a'], text('loc:'))),
        (lambda: pilo.source.JsonSource(json.dumps(DATA)), ModelSource(DATA, text(''))),
        (lambda: pilo.source.JsonSource(json.dumps(DATA), location='f'), ModelSource(DATA, text('f:'))),
    ]


class Program(object):

    def __init__(self, case, ctx):
        self.case, self.ctx, self.rng = case, ctx, case.rng
        self.model = Model()
        self.marks = 0
        self.log = []
        self.budget = case.rng.randrange(5, 30)
        self.fault_at = case.rng.randrange(1, 40)
        self.ops = 0
        self.maxdepth = 0

    def judge(self, where):
        got, want = real_snapshot(self.ctx), self.model.snapshot()
        self.case.equal(got, want, 'context', 'what is visible through the context {0}'.format(where), program=self.log)

    def body(self, depth):
        self.maxdepth = max(depth, self.maxdepth)
        for _ in range(self.rng.randrange(1, 4)):
            if self.budget <= 0:
                return
            if self.rng.random() < 0.5:
                self.judge('inside')
            self.step(depth)
            self.ops += 1
            if self.ops == self.fault_at:
                self.log.append('raise')
                raise self.rng.choice([Boom, Stop, ValueError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit])('fault')

    def step(self, depth):
        import pilo
        rng, ctx = self.rng, self.ctx
        self.budget -= 1
        kind = rng.choice(['vars', 'vars', 'source', 'key', 'key', 'key', 'reset', 'rewind', 'rewind', 'rewind', 'missed', 'catch'])
        source, parts = self.model.location()
        saved = self.model.frames
        mark = None
        variables = {}
        if kind == 'catch':
            frames = saved
            try:
                self.body(depth + 1)
            except (Exception,) + STOPS:
                self.model.frames = frames
                self.log.append('caught')
                self.judge('after an exception was caught')
            return
        if kind == 'missed':
            self.case.event('scope', 'rewind-missed')
            try:
                with ctx.rewind(lambda frame: False):
                    self.case.fail('missed', 'entered a rewind that found no frame')
            except ctx.RewindDidNotStop:
                pass
            self.judge('after a rewind that found no frame')
            if rng.random() < 0.5:
                # to the outermost frame, below which nothing was pushed
                seen = []
                try:
                    with ctx.rewind(seen.append):
                        pass
                except ctx.RewindDidNotStop:
                    pass
                total = len(seen)
                del seen[:]
                with ctx.rewind(lambda frame: seen.append(frame) or len(seen) == total):
                    found = [k for k in VARS[:4] if hasattr(ctx, k)]
                    self.case.equal((found, ctx.src_path, [ctx.values_for(k) for k in VARS[:4]]), ([], None, [[]] * 4), 'outermost', 'something is seen in the outermost frame')
                    with ctx(alpha='here'):
                        self.case.equal(ctx.alpha, 'here', 'outermost', 'a variable pushed in the outermost frame')
                self.judge('after a rewind to the outermost frame')
                self.case.event('scope', 'outermost')
            return
        if kind == 'key' and source is None:
            kind = 'source'
        if rng.random() < 0.7:
            self.marks += 1
            variables['mark'] = self.marks
        for k in VARS[:3]:
            if rng.random() < 0.3:
                variables[k] = rng.choice([1, None, 'v', [2], self.marks])
        for k in VARS[4:]:
            if rng.random() < 0.15:
                variables[k] = rng.choice([True, False])
                self.case.event('flag', variables[k])
        if kind == 'vars':
            scope = lambda: ctx(**variables)
            self.model.push(variables)
        elif kind == 'source':
            make, msource = rng.choice(sources(pilo))
            scope = lambda: ctx(src=make(), **variables)
            self.model.push(variables, 'source', msource)
        elif kind == 'key':
            key = rng.choice(KEYS)
            value = dig_dotted(source.data, parts)
            if isinstance(value, dict) and rng.random() < 0.6:
                key = rng.choice(list(value))
            if isinstance(value, list) and value and rng.random() < 0.6:
                key = rng.randrange(len(value))
            scope = lambda: ctx.push(src=key, **variables)
            self.model.push(variables, 'key', key)
            self.log.append(('key', key))
        elif kind == 'reset':
            variables = {}
            scope = ctx.reset
            self.model.push({}, 'none')
        else:
            marked = [i for i, (v, _, _) in enumerate(saved) if 'mark' in v]
            if not marked:
                return
            i = rng.choice(marked)
            target = saved[i][0]['mark']
            # the innermost frame the condition holds for
            i = max(j for j in marked if saved[j][0]['mark'] == target)
            scope = lambda: ctx.rewind(lambda frame: getattr(frame, 'mark', None) == target)
            self.model.frames = saved[:i + 1]
            for _, k, _ in saved[i + 1:]:
                if k == 'key':
                    self.case.event('rewound', 'below-key')
                if k == 'source':
                    self.case.event('rewound', 'below-source')
        self.log.append((kind, tuple(sorted(variables))))
        self.case.event('scope', kind)
        entered = self.model.frames
        try:
            with scope():
                self.judge('on entering a {0} scope'.format(kind))
                self.body(depth + 1)
                self.case.expect(self.model.frames is entered, 'harness', 'model frames')
        except BaseException:
            self.model.frames = saved
            self.case.event('left', 'exception')
            raise
        self.model.frames = saved
        self.log.append('end')
        self.case.event('left', 'normally')
        self.judge('after a {0} scope'.format(kind))


def programs(case):
    """Random nestings of scopes with faults, judged against a stack of frames."""
    import pilo
    from ..core import Violation
    p = Program(case, pilo.ctx)
    base = real_snapshot(pilo.ctx)
    try:
        while p.budget > 0:
            p.body(0)
    except Violation:
        raise
    except (Exception,) + STOPS as ex:
        if p.ops != p.fault_at:
            raise
    p.model.frames = p.model.frames[:1]
    case.equal(real_snapshot(pilo.ctx), base, 'context-end', 'the context after everything', program=p.log)
    case.distinct(repr(p.log))
    case.sample(p.log)


def union_programs(case):
    """The same over unions, mounts and configuration: before and after each rewind the same is visible."""
    import pilo
    rng, ctx = case.rng, pilo.ctx
    made = rng.choice(['union', 'mount', 'config', 'union-json'])
    if made == 'union':
        src = pilo.source.union([DATA, {'a': {'l': [9, {'k': 1}]}, 'b': ['r', {'a': 6}], 'q': {'w': 1}}],
                                merge=rng.choice(['combine', 'first', 'last']))
    elif made == 'union-json':
        src = pilo.source.union([pilo.source.JsonSource(json.dumps(DATA)), {'b': ['r'], 'a': {'b': {'c': [7]}}}], merge='combine')
    elif made == 'mount':
        src = pilo.source.mount(m=DATA, u=pilo.source.union([DATA, {'b': ['z']}], merge='combine'))
    else:
        src = pilo.source.ConfigSource('[a]\nb=1 2 3\nm[x]=1\nm[y]=2 3\n[b]\nz=\n  one\n  two\n')
    path = []

    def snap():
        return (str(ctx.src_path), canon_any(ctx.src_path), len(ctx.src_path))

    def descend(depth):
        before = snap() if rng.random() < 0.7 else None
        with_mark = ctx(level=depth)
        with with_mark:
            key = step_key(ctx.src_path, rng)
            path.append(key)
            with ctx(src=key):
                inside = snap() if rng.random() < 0.7 else None
                if depth < 4 and rng.random() < 0.8 and ctx.src_path.exists:
                    descend(depth + 1)
                    if inside is not None:
                        case.equal(snap(), inside, 'union-inside', 'after a nested scope', source=made, path=path)
                target = rng.randrange(depth + 1)
                inside = snap()
                with ctx.rewind(lambda frame: getattr(frame, 'level', None) == target):
                    case.event('scope', 'rewind')
                    case.event('rewound', 'below-key')
                    at_target = snap()
                    case.equal(ctx.level, target, 'union-level', 'rewound to another frame')
                    if rng.random() < 0.5:
                        with ctx(src=step_key(ctx.src_path, rng)):
                            snap()
                    case.equal(snap(), at_target, 'union-rewound', 'inside a rewind', source=made, path=path)
                case.equal(snap(), inside, 'union-restored', 'after a rewind', source=made, path=path)
            path.pop()
        if before is not None:
            case.equal(snap(), before, 'union-after', 'after a scope', source=made, path=path)
        case.distinct(made, depth, repr(path))

    with ctx(src=src):
        for _ in range(3):
            descend(0)


def canon_any(path):
    import pilo
    if str(path) == '' and isinstance(path.src, pilo.source.MountSource):
        return sorted(path.mapping())
    v = at(path)
    return canon(sort_dicts(v))


def sort_dicts(v):
    if isinstance(v, dict):
        return dict((k, sort_dicts(v[k])) for k in sorted(v, key=repr))
    if isinstance(v, list):
        return [sort_dicts(x) for x in v]
    return v


def step_key(path, rng):
    import pilo
    try:
        keys = sorted(path.mapping(), key=repr)
    except pilo.SourceError:
        try:
            n = path.sequence()
        except pilo.SourceError:
            n = 0
        keys = list(range(n))
    keys = keys + ['nope']
    if rng.random() < 0.85 and len(keys) > 1:
        keys = keys[:-1]
    return rng.choice(keys)


def outer_scope(case, ctx, pilo):
    """Something to be restored: variables and a location inside another source."""
    rng = case.rng
    stack = []
    for _ in range(rng.randrange(4)):
        roll = rng.randrange(3)
        if roll == 0:
            stack.append(lambda: ctx(alpha=rng.random()))
        elif roll == 1:
            stack.append(lambda: ctx(src=pilo.DefaultSource(DATA), beta=1))
        else:
            stack.append(lambda: ctx(src='a', mark=2) if ctx.src_path is not None else ctx(mark=3))
    return stack


def enter(stack, fn):
    if not stack:
        return fn()
    with stack[0]():
        return enter(stack[1:], fn)


class Nth(object):
    """Raises at the nth hook call."""

    def __init__(self):
        self.calls, self.at, self.failure = 0, None, None

    def tick(self):
        self.calls += 1
        if self.calls == self.at:
            raise self.failure


class FaultyBuilder(Builder):

    def __init__(self, nth):
        super(FaultyBuilder, self).__init__()
        self.nth = nth

    def attach_hook(self, field, fspec, step):
        nth = self.nth
        trace = self.trace

        class Ticking(list):

            def append(self, item):
                list.append(self, item)
                nth.tick()

        if not isinstance(trace, Ticking):
            self.trace = Ticking()
        super(FaultyBuilder, self).attach_hook(field, fspec, step)


def mapping_faults(case):
    """A form mapping with an exception thrown by each of its hook calls in turn."""
    import pilo
    rng = case.rng
    g = Gen(rng, depth=2, hooks=0.3, width=3)
    form = g.form().number()
    nth = Nth()
    b = FaultyBuilder(nth)
    cls = form.build(b)
    data = g.form_data(form)
    clean = real_root(cls, data)
    total = nth.calls
    error = rng.choice(['collect', 'collect', 'raise'])
    points = list(range(0, total + 1))
    if len(points) > 12:
        points = [0] + sorted(rng.sample(points[1:], 11))
    failures = [Boom, Stop, ValueError, pilo.SourceError, AttributeError, KeyError]
    for at_call in points:
        nth.calls, nth.at = 0, at_call
        kind = rng.choice(failures)
        nth.failure = kind(None, 'fault') if kind is pilo.SourceError else kind('fault')
        stack = outer_scope(case, pilo.ctx, pilo)

        def go():
            before = frame_view(pilo.ctx)
            try:
                cls().map(data, error=error)
            except (Exception,) + STOPS:
                case.event('fault', 'escaped')
            case.equal(frame_view(pilo.ctx), before, 'mapping', 'the context after a mapping', form=form, data=data,
                       call=at_call, failure=kind.__name__, error=error)

        before = frame_view(pilo.ctx)
        enter(stack, go)
        case.equal(frame_view(pilo.ctx), before, 'mapping-outer', 'the context after everything', form=form, data=data)
        if at_call:
            case.event('fault', 'hook')
        case.distinct(form.shape(), at_call, kind.__name__, len(stack))
    nth.at = None
    again = real_root(cls, data)
    case.equal((canon(again[0]), again[1][0]), (canon(clean[0]), clean[1][0]), 'mapping-again', 'the same mapping after faults', form=form,
               data=data)
    case.sample((form, data, total))


def frame_view(ctx):
    view = real_snapshot(ctx)
    view['src'] = repr(type(ctx.src)) if ctx.src is None or not isinstance(ctx.src, (str, int)) else ctx.src
    for name in ('form', 'field', 'errors', 'parent', 'tags'):
        view[name] = [id(v) for v in ctx.values_for(name)]
    stack = getattr(ctx, 'stack', None)
    view['depth'] = len(stack) if isinstance(stack, list) else None
    return view


def reads_faults(case):
    """The same with hooks that read other fields, so that rewinds are open when the exception is thrown."""
    import pilo
    rng = case.rng
    fspec = c09.make_form(rng, 0, [])
    mon = c09.Monitor()
    cls = c09.build(fspec, fspec.name, mon, {})

    def around(before):
        now = (str(pilo.ctx.src_path), c_value(pilo.ctx.src_path), tuple(id(f) for f in pilo.ctx.values_for('form')),
               tuple(id(f) for f in pilo.ctx.values_for('field')))
        if before is not None:
            case.event('observed', 'inside-hook')
            case.equal(now, before, 'read', 'a read changed the context of the hook that made it', form=fspec, data=data)
        return now

    mon.around = around
    data = c09.form_data(rng, fspec)
    kind = rng.choice(['native', 'json', 'union'])

    def source():
        if kind == 'json':
            return pilo.source.JsonSource(json.dumps(data))
        if kind == 'union':
            return pilo.source.union([data, {}], merge='combine')
        return data

    first = cls()
    first.map(source())
    mon.counter = 0
    total = mon.calls
    points = list(range(1, total + 1))
    if len(points) > 10:
        points = sorted(rng.sample(points, 10))
    failures = [Boom, Stop, KeyError, ValueError]
    for at_call in points:
        mon.calls, mon.fail_at, mon.counter = 0, at_call, 0
        kind_ = rng.choice(failures)
        mon.failure = kind_('fault')
        before = frame_view(pilo.ctx)
        try:
            cls().map(source())
        except (Exception,) + STOPS as ex:
            from ..core import Violation
            if isinstance(ex, Violation):
                raise
            case.event('fault', 'escaped')
        case.event('fault', 'hook')
        case.equal(frame_view(pilo.ctx), before, 'read-fault', 'the context after a mapping left by an exception', form=fspec, data=data,
                   call=at_call, failure=kind_.__name__)
        case.distinct(repr(fspec), at_call, kind_.__name__)
    mon.fail_at, mon.counter = None, 0
    last = cls()
    last.map(source())
    case.equal(c09.plain(last), c09.plain(first), 'read-again', 'the same mapping after faults', form=fspec, data=data)


def c_value(path):
    try:
        return canon(sort_dicts(at(path)))
    except Exception as ex:
        return type(ex).__name__


def nested_use(case):
    """Hooks that construct and map other forms, with or without resetting the context."""
    import pilo
    F, rng = pilo.fields, case.rng
    seen = []

    class Other(pilo.Form):
        n = F.Integer()
        w = F.String(default='w').from_context()

    class Main(pilo.Form):
        a = F.Integer()
        l = F.List(F.Integer())
        z = F.String('zz')

        @a.munge
        def a(self, value):
            return value + use('a')

        @l.field.munge
        def l(self, value):
            return value + use('l')

        @z.munge
        def z(self, value):
            use('z')
            return value

    modes = {}

    def use(name):
        before = frame_view(pilo.ctx)
        mode = modes[name]
        got = 0
        try:
            if mode == 'construct':
                got = Other({'n': 5}).n
            elif mode == 'reset':
                with pilo.ctx.reset():
                    got = Other(n=7).n
            elif mode == 'failing':
                errors = Other().map({'n': 'x'})
                got = len(errors)
            elif mode == 'raising':
                try:
                    Other({'n': 'x'})
                except ValueError:
                    got = 3
            elif mode == 'pushed':
                with pilo.ctx(w='deep'):
                    o = Other({'n': 1})
                    got = len(o.w)
        finally:
            case.equal(frame_view(pilo.ctx), before, 'nested-use', 'mapping another form in a hook', mode=mode)
        seen.append(mode)
        return got

    gains = {'construct': 5, 'reset': 7, 'failing': 1, 'raising': 3, 'pushed': 4, 'none': 0}
    for _ in range(6):
        for name in ('a', 'l', 'z'):
            modes[name] = rng.choice(sorted(gains))
        form = Main({'a': 1, 'l': [10, 20], 'zz': 'end'})
        case.equal(dict(form.items()), {'a': 1 + gains[modes['a']], 'l': [10 + gains[modes['l']], 20 + gains[modes['l']]], 'z': 'end'},
                   'nested-values', 'values around nested mappings', modes=modes)
        case.distinct('nested', tuple(sorted(modes.items())))


WORKLOADS = [
    ('programs', programs, 2500, 60000),
    ('union-programs', union_programs, 800, 20000),
    ('mapping-faults', mapping_faults, 700, 20000),
    ('reads-faults', reads_faults, 500, 15000),
    ('nested-use', nested_use, 100, 2000),
    ('many', many.contexts, 150, 3000),
]
