"""C09: a field read early has the value it ends up with, evaluated once."""
import collections
import json
import uuid

from .. import many
from ..spec import ABSENT, canon

ID = 'C09'
RULE = 'distinct (reads made: reader kind, target kind, nesting of both, declared before or after, present or absent)'
REQUIRED = ['judged', 'read.value', 'read.absent', 'read.forward', 'read.backward', 'read.outer', 'read.nested', 'read.item', 'source.native',
            'source.json', 'source.union', 'source.mount', 'outside.computed', 'outside.failed']

KINDS = ['plain', 'plain', 'plain', 'calc', 'calc', 'munged', 'defaulted', 'filtered', 'validated', 'stateful', 'listed', 'dicted']


class FieldSpec(object):

    def __init__(self, kind, name, rank, reads):
        self.kind, self.name, self.rank, self.reads = kind, name, rank, reads
        self.src = name
        self.default = None
        self.sub = None

    def __repr__(self):
        return '{0}:{1}{2}'.format(self.name, self.kind, self.reads or '') + (repr(self.sub) if self.sub else '')


class FormSpec(object):

    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # in declaration order

    def __repr__(self):
        return '{0}{1}'.format(self.name, self.fields)


def make_form(rng, level, outer):
    """
    :param outer: reads a nested field may make of the root form.
    """
    n = rng.randrange(2, 7)
    ranked = []
    for rank in range(n):
        kind = rng.choice(KINDS + (['sub', 'subs', 'sub'] if level == 0 else []))
        name = 'f{0}{1}'.format(rank, 'ab'[level])
        reads = []
        for f in ranked:
            if rng.random() < 0.4:
                reads.append(('self', f.name))
            if f.sub is not None and f.kind == 'sub' and rng.random() < 0.4:
                reads.append(('in', f.name, rng.choice(f.sub.fields).name))
        for name_ in outer:
            if rng.random() < 0.3:
                reads.append(('outer', name_))
        f = FieldSpec(kind, name, rank, reads)
        if kind in ('plain', 'stateful'):
            f.reads = []
        if kind in ('sub', 'subs'):
            f.sub = make_form(rng, level + 1, [g.name for g in ranked])
            f.reads = []
        f.default = rng.choice([None, None, ABSENT, 11])
        ranked.append(f)
    order = list(ranked)
    rng.shuffle(order)
    return FormSpec('AB'[level] + str(rng.randrange(10 ** 6)), order)


def num(v):
    if v is ABSENT:
        return -7
    if v is None:
        return 3
    if isinstance(v, int):
        return v
    if isinstance(v, uuid.UUID):
        return 17
    if isinstance(v, (list, tuple)):
        return sum(num(x) for x in v) + 1
    if isinstance(v, dict):
        return sum(num(x) for x in dict.values(v)) + 2
    return len(str(v))


# ---- real forms

class Monitor(object):

    def __init__(self):
        self.runs = []        # (form class, field, step, location)
        self.reads = []       # (form object, name, seen or ABSENT, info)
        self.counter = 0
        self.calls = 0
        self.fail_at = None       # raise at that hook call
        self.failure = None
        self.around = None        # called before and after each read


def build(spec, root_name, mon, classes):
    import pilo
    F = pilo.fields
    body = {}
    for f in spec.fields:
        body[f.name] = make_field(f, spec, root_name, mon, classes)
    cls = type(spec.name, (pilo.Form,), body)
    classes[spec.name] = cls
    return cls


def make_field(f, spec, root_name, mon, classes):
    import pilo
    F = pilo.fields
    position = dict((g.name, i) for i, g in enumerate(spec.fields))

    def total(form, step, extra=None):
        mon.runs.append((type(form).__name__, f.name, step, str(pilo.ctx.src_path)))
        mon.calls += 1
        if mon.calls == mon.fail_at:
            raise mon.failure
        root = [x for x in pilo.ctx.values_for('form') if type(x).__name__ == root_name]
        acc = 0
        for read in f.reads:
            target = form if read[0] != 'outer' else root[-1]
            seen = look(mon, target, read[1])
            direction = 'outer'
            if read[0] == 'self':
                direction = 'forward' if position[read[1]] > position[f.name] else 'backward'
            mon.reads.append((target, read[1], seen, (f.kind, step, direction)))
            if read[0] == 'in':
                if not isinstance(seen, pilo.Form):
                    acc = acc * 3 + 1
                    continue
                inner = look(mon, seen, read[2])
                mon.reads.append((seen, read[2], inner, (f.kind, step, 'nested')))
                seen = inner
            acc = acc * 3 + num(seen)
        return acc % 1000

    options = {}
    if f.default is not ABSENT and f.kind not in ('defaulted', 'stateful'):
        options['default'] = f.default
        if f.default is None:
            options['default'] = None
    elif f.kind not in ('defaulted', 'stateful'):
        options['default'] = pilo.NONE
    if f.kind == 'plain' and f.rank % 3 == 0:
        options.pop('default')
    if f.kind == 'calc':
        field = F.Integer(**options)
        field.compute(lambda self: total(self, 'compute'))
        return field
    if f.kind == 'munged':
        field = F.Integer(**options)
        field.munge(lambda self, value: None if value is None else value + total(self, 'munge'))
        return field
    if f.kind == 'defaulted':
        field = F.Integer(**options)
        field.default(lambda self: total(self, 'default'))
        return field
    if f.kind == 'filtered':
        field = F.Integer(**options)
        field.filter(lambda self, value: total(self, 'filter') % 2 == 0)
        return field
    if f.kind == 'validated':
        field = F.Integer(**options)

        def validate(self, value):
            if total(self, 'validate') % 2 == 0:
                return True
            pilo.ctx.errors.invalid('odd')
            return False

        field.validate(validate)
        return field
    if f.kind == 'stateful':

        def count():
            mon.counter += 1
            return 100 + mon.counter

        return F.Field(default=count)
    if f.kind in ('listed', 'dicted'):
        item = F.Integer(nullable=False)
        item.munge(lambda self, value: value + total(self, 'item'))
        if f.kind == 'listed':
            return F.List(item, **options)
        return F.Dict(F.String(), item, **options)
    if f.kind in ('sub', 'subs'):
        cls = build(f.sub, root_name, mon, classes)
        if f.kind == 'sub':
            return F.SubForm(cls, **options)
        return F.List(F.SubForm(cls), **options)
    return F.Integer(**options)


def look(mon, form, name):
    before = mon.around and mon.around(None)
    try:
        return getattr(form, name)
    except AttributeError:
        return ABSENT
    finally:
        if mon.around:
            mon.around(before)


# ---- model

class Inst(object):

    def __init__(self, spec, data, root, M, where):
        self.spec, self.data, self.root, self.M, self.where = spec, data, root or self, M, where
        self.by_name = dict((f.name, f) for f in spec.fields)
        self.memo = {}
        self.failed = False

    def path(self, key):
        return self.where + '.' + key if self.where else key

    def get(self, name):
        if name not in self.memo:
            self.memo[name] = self.evaluate(self.by_name[name])
        return self.memo[name]

    def error(self, kind, where):
        self.M['errors'].append((kind, where))
        self.failed = True
        return ABSENT

    def default(self, f, where):
        if f.kind == 'plain' and f.rank % 3 == 0:
            return self.error('Missing', where)
        return ABSENT if f.default is ABSENT else f.default

    def total(self, f, step, where):
        self.M['runs'][(self.spec.name, f.name, step, where)] += 1
        acc = 0
        for read in f.reads:
            inst = self.root if read[0] == 'outer' else self
            seen = inst.get(read[1])
            if read[0] == 'in':
                if not isinstance(seen, Inst):
                    acc = acc * 3 + 1
                    continue
                seen = seen.get(read[2])
            acc = acc * 3 + model_num(seen)
        return acc % 1000

    def evaluate(self, f):
        where = self.path(f.src)
        v = self.data.get(f.src, ABSENT)
        if f.kind == 'calc':
            return self.total(f, 'compute', where)
        if f.kind == 'defaulted' and v is ABSENT:
            return self.total(f, 'default', where)
        if f.kind == 'stateful':
            if v is ABSENT:
                self.M['counter'] += 1
                return 100 + self.M['counter']
            return v
        if v is ABSENT:
            return self.default(f, where)
        if f.kind in ('plain', 'munged', 'defaulted', 'filtered', 'validated'):
            if v is not None and not isinstance(v, int):
                return self.error('Invalid', where)
            if f.kind == 'munged' and v is not None:
                return v + self.total(f, 'munge', where)
            if f.kind == 'filtered' and self.total(f, 'filter', where) % 2:
                return self.default(f, where)
            if f.kind == 'validated' and self.total(f, 'validate', where) % 2:
                return self.error('Invalid', where)
            return v
        if v is None:
            return None
        if f.kind in ('listed', 'dicted'):
            items = enumerate(v) if f.kind == 'listed' else v.items()
            out = []
            for k, x in items:
                at = where + ('[{0}]'.format(k) if f.kind == 'listed' else '.' + k)
                if not isinstance(x, int):
                    self.error('Invalid', at)
                    continue
                out.append((k, x + self.total(f, 'item', at)))
            return [x for _, x in out] if f.kind == 'listed' else dict(out)
        if f.kind == 'sub':
            return self.sub(f, v, where)
        out = []
        for i, x in enumerate(v):
            got = self.sub(f, x, '{0}[{1}]'.format(where, i))
            if got is not ABSENT:
                out.append(got)
        return out

    def sub(self, f, v, where):
        if not isinstance(v, dict):
            return self.error('Invalid', where)
        inst = Inst(f.sub, v, self.root, self.M, where)
        inst.run()
        if inst.failed:
            self.failed = True
            return ABSENT
        return inst

    def run(self):
        for f in self.spec.fields:
            self.get(f.name)
        return self

    def plain(self):
        return dict((f.name, plain(self.memo[f.name])) for f in self.spec.fields if self.memo[f.name] is not ABSENT)


def model_num(v):
    if isinstance(v, Inst):
        return num(dict((k, model_num(x)) for k, x in v.memo.items() if x is not ABSENT))
    if isinstance(v, list):
        return sum(model_num(x) for x in v) + 1
    if isinstance(v, dict):
        return sum(model_num(x) for x in v.values()) + 2
    return num(v)


def plain(v):
    import pilo
    if isinstance(v, Inst):
        return v.plain()
    if isinstance(v, (pilo.Form, dict)):
        return dict((k, plain(x)) for k, x in dict.items(v))
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


# ---- data

def form_data(rng, spec):
    out = {}
    for f in spec.fields:
        if rng.random() < 0.15 or f.kind == 'stateful':
            continue
        out[f.src] = field_data(rng, f)
    return out


def field_data(rng, f):
    if f.kind == 'listed':
        return [leaf(rng) for _ in range(rng.randrange(4))]
    if f.kind == 'dicted':
        return dict((rng.choice('xyz'), leaf(rng)) for _ in range(rng.randrange(4)))
    if f.kind == 'sub':
        return form_data(rng, f.sub)
    if f.kind == 'subs':
        return [form_data(rng, f.sub) for _ in range(rng.randrange(4))]
    v = leaf(rng)
    return None if rng.random() < 0.05 else v


def leaf(rng):
    return rng.randrange(1000) if rng.random() > 0.06 else 'bad'


def split(rng, data):
    """Two sources whose combination is `data`; lists stay whole."""
    one, two = {}, {}
    for k, v in data.items():
        where = rng.randrange(3)
        if isinstance(v, dict) and v and rng.random() < 0.5:
            one[k], two[k] = split(rng, v)
            continue
        if where == 0 or (where == 2 and isinstance(v, (list, dict))):
            one[k] = v
        elif where == 1:
            two[k] = v
        else:
            one[k] = v
            two[k] = v
    return one, two


def reads(case):
    import pilo
    rng = case.rng
    spec = make_form(rng, 0, [])
    mon = Monitor()
    cls = build(spec, spec.name, mon, {})
    for _ in range(2):
        del mon.runs[:], mon.reads[:]
        mon.counter = 0
        data = form_data(rng, spec)
        kind = rng.choice(['native', 'native', 'json', 'union', 'mount'])
        case.event('source', kind)
        M = {'errors': [], 'runs': collections.Counter(), 'counter': 0}
        prefix = ''
        if kind == 'native':
            src = data
        elif kind == 'json':
            src = pilo.source.JsonSource(json.dumps(data), strict=True)
        elif kind == 'union':
            src = pilo.source.union(list(split(rng, data)), merge='combine')
        else:
            src = pilo.source.mount(m=data)
            prefix = '@m:'
        inst = Inst(spec, data, None, M, '').run()
        if kind == 'mount':
            outer = type('Outer', (pilo.Form,), {'m': pilo.fields.SubForm(cls)})()
            errors = outer.map(src)
            form = dict.get(outer, 'm')
        else:
            form = cls()
            errors = form.map(src)
        witness = dict(form=spec, data=data, source=kind)
        got_errors = collections.Counter((type(e).__name__, str(e.path)) for e in errors)
        want_errors = collections.Counter((k, prefix + w) for k, w in M['errors'])
        case.equal(got_errors, want_errors, 'errors', 'errors are duplicated, lost or displaced', **witness)
        got_runs = collections.Counter(mon.runs)
        want_runs = collections.Counter(dict(((c, n, s, prefix + w), k) for (c, n, s, w), k in M['runs'].items()))
        case.equal(got_runs, want_runs, 'evaluations', 'a field was not evaluated exactly once', **witness)
        case.equal(mon.counter, M['counter'], 'stateful', 'a stateful default was called more or less than once', **witness)
        if form is not None and not (kind == 'mount' and M['errors']):
            got, want = plain(form), inst.plain()
            case.equal(got, want, 'values', 'the finished form differs', **witness)
        for target, name, seen, info in mon.reads:
            final = dict.get(target, name, ABSENT)
            case.event('read', 'absent' if seen is ABSENT else 'value')
            case.event('read', 'item' if info[1] == 'item' else info[2])
            case.event('read', info[2])
            case.expect(not isinstance(seen, pilo._Constant), 'marker', 'a hook was given an internal marker', name=name, **witness)
            case.expect(seen is final or canon(seen) == canon(final), 'early-value', 'a hook saw another value than the finished form has',
                        field=name, reader=info, seen=seen, final=final, **witness)
            case.distinct(info, type(seen).__name__, kind, seen is ABSENT)
    case.sample((spec, data, kind, len(mon.reads)))


def once(case):
    """Random and stateful values stay what they were when first read."""
    import pilo
    F = pilo.fields
    rng = case.rng
    made = []

    def fresh():
        made.append(uuid.uuid4())
        return made[-1]

    order = ['id', 'link', 'sub', 'tail']
    rng.shuffle(order)

    class Inner(pilo.Form):
        up = F.String()
        many = F.List(F.String())

        @up.compute
        def up(self):
            root = [x for x in pilo.ctx.values_for('form') if type(x).__name__ == 'Root']
            return str(root[-1].id) + root[-1].link

        @many.field.munge
        def many(self, value):
            root = [x for x in pilo.ctx.values_for('form') if type(x).__name__ == 'Root']
            return value + self.up + str(root[-1].id)

    def tail():
        field = F.String()
        field.compute(lambda self: '{0}|{1}'.format(self.link, self.id))
        return field

    make = {'id': lambda: F.Field(default=fresh), 'link': lambda: F.String().format('/x/{id}', id='id'), 'tail': tail,
            'sub': lambda: F.List(Inner)}
    body = collections.OrderedDict((k, make[k]()) for k in order)     # declaration order is creation order
    cls = type('Root', (pilo.Form,), dict(body))
    for _ in range(3):
        del made[:]
        data = {'sub': [{'many': ['p', 'q']}, {'many': []}]}
        form = cls(rng.choice([data, pilo.source.JsonSource(json.dumps(data)), pilo.source.union([data, {}])]))
        case.equal(len(made), 1, 'stateful-once', 'a fresh identifier was made more than once', order=order)
        i = made[0]
        case.equal(dict.get(form, 'id'), i, 'stateful-kept', 'the identifier is not the one made', order=order)
        case.equal(dict.get(form, 'link'), '/x/{0}'.format(i), 'stateful-link', 'a hook saw another identifier', order=order)
        case.equal(dict.get(form, 'tail'), '/x/{0}|{0}'.format(i), 'stateful-tail', 'a hook saw another identifier', order=order)
        subs = dict.get(form, 'sub')
        up = '{0}/x/{0}'.format(i)
        case.equal([dict.get(s, 'up') for s in subs], [up, up], 'stateful-up', 'a nested hook saw another identifier', order=order)
        case.equal([dict.get(s, 'many') for s in subs], [['p' + up + str(i), 'q' + up + str(i)], []], 'stateful-many',
                   'a hook in a list saw another identifier', order=order)
        case.event('read', 'nested')
        case.distinct(tuple(order))


#: Names that mean something to pilo or to Python, but may be used for fields.
CALLED = ['src', 'name', 'parent', 'field', 'mapped', 'form', 'errors', 'tags', 'unmapped', 'value', 'path', 'key', 'default', 'type', 'id', 'data',
          'source', 'location', 'self', 'options', 'choices', 'reset', 'items', 'keys', 'values', 'pop', 'filter', 'func', 'target', 'stack']


def outside(case):
    """Reads of a form object when nothing is being mapped."""
    import pilo
    F = pilo.fields
    rng = case.rng
    calls = collections.Counter()

    class A(pilo.Form):
        plain = F.Integer(default=4)
        made = F.Field(default=lambda: made())
        calc = F.Integer()
        chain = F.String().format('{calc}-{plain}', calc='calc', plain='plain')
        null = F.Integer(default=None)
        nulled = F.Integer(nullable=True)
        gone = F.Integer(default=pilo.NONE)
        required = F.Integer()
        bad = F.Integer().max(1)

        @calc.compute
        def calc(self):
            calls['calc'] += 1
            return self.plain + 1

        @nulled.compute
        def nulled(self):
            calls['nulled'] += 1
            return None

        @bad.compute
        def bad(self):
            return 5

    def made():
        calls['made'] += 1
        return [calls['made']]

    a, other = A(), A()
    names = ['plain', 'made', 'calc', 'chain', 'null', 'nulled', 'gone', 'required', 'bad']
    seen = {}
    set_to = rng.choice([None, 9])
    if set_to is not None:
        a.plain = set_to
    base = 4 if set_to is None else set_to
    want = {'plain': base, 'made': [1], 'calc': base + 1, 'chain': '{0}-{1}'.format(base + 1, base), 'null': None, 'nulled': None}
    for _ in range(rng.randrange(4, 14)):
        name = rng.choice(names)
        if name in want:
            got = getattr(a, name)
            case.equal(got, want[name], 'outside-value', 'reading {0} of an unmapped form'.format(name), history=seen)
            case.expect(name in a and a[name] == got, 'outside-kept', 'the value read is not kept', name=name)
            case.event('outside', 'computed')
        elif name == 'gone':
            try:
                got = a.gone
            except AttributeError:
                case.expect('gone' not in a, 'outside-gone', 'a field without value got stored')
            else:
                case.fail('outside-gone', 'a field without value was read', got=got)
        else:
            try:
                got = getattr(a, name)
            except pilo.fields.FormError as ex:
                case.event('outside', 'failed')
                case.equal([type(e).__name__ for e in ex.field_errors], ['Missing' if name == 'required' else 'Invalid'],
                           'outside-failed', 'error of reading {0}'.format(name))
                case.expect(name not in a, 'outside-failed-kept', 'a failing field was stored')
            else:
                case.fail('outside-failed', 'reading a failing field gave a value', got=got, name=name)
        seen[name] = seen.get(name, 0) + 1
        case.distinct('outside', name, tuple(sorted(seen)))
    case.expect(calls['calc'] <= 1 and calls['made'] <= 1 and calls['nulled'] <= 1, 'outside-once', 'a kept value was computed again', calls=dict(calls))
    case.equal(dict(other.items()), {}, 'outside-other', 'another form of the type was touched')

    # what a field is called makes no difference
    name = rng.choice(CALLED)
    b = type('B', (pilo.Form,), {name: F.Integer(), 'other': F.Integer(default=3), 'calc': F.Integer().compute(lambda self: self.other + 1)})()
    for at in range(2):
        if at or rng.random() < 0.5:
            reads = ['other', 'calc']
            rng.shuffle(reads)
            case.equal([(n, getattr(b, n)) for n in reads], [(n, {'other': 3, 'calc': 4}[n]) for n in reads], 'outside-called', 'reading beside a field called ' + name, name=name)
        if not at:
            if rng.random() < 0.5:
                b[name] = rng.choice([5, 'text', None])
                case.equal(getattr(b, name), dict.get(b, name), 'outside-called', 'reading a field called ' + name, name=name)
            else:
                try:
                    getattr(b, name)
                    case.fail('outside-called', 'reading a failing field gave a value', name=name)
                except pilo.fields.FormError as ex:
                    case.equal([type(e).__name__ for e in ex.field_errors], ['Missing'], 'outside-called', 'error of reading a field called ' + name, name=name)
    case.event('outside', 'called')


WORKLOADS = [
    ('reads', reads, 2500, 80000),
    ('once', once, 60, 1500),
    ('outside', outside, 400, 5000),
    ('many', many.early, 150, 3000),
]
