"""C21: mapping a mapped form reproduces it."""
import datetime
import decimal
import json
import time
import uuid

from .. import many
from ..spec import outcome_errors

ID = 'C21'
RULE = 'distinct (form type shapes, values, way of giving the form back)'
REQUIRED = ['judged'] + ['kind.' + k for k in (
    'String', 'Integer', 'Float', 'Boolean', 'Decimal', 'Date', 'Datetime', 'Time', 'UUID', 'Field', 'List', 'Tuple', 'Dict', 'SubForm', 'Poly',
    'Constant', 'Format', 'Bare', 'Flat')] + [
    'null', 'defaulted', 'left-out', 'item-left-out', 'inherited', 'munged', 'filtered', 'validated', 'translated', 'poly.listed', 'poly.deep', 'poly.keyed',
    'way.form', 'way.dict', 'way.kwargs', 'way.source', 'way.union', 'way.mount', 'way.json', 'way.strict', 'way.copy', 'way.twice', 'way.own', 'way.positional',
    'untouched', 'captured']

NAMES = ['a', 'b', 'c', 'd', 'e', 'zed', 'x1', 'keys', 'items', 'values', 'update', 'pop', 'count', 'index']
WORDS = ['', 'a', 'ab', 'abc', 'é', '5', 'true', ' x ', 'A b', '2015-03-09', 'null', 'x' * 30, 'line\nline', '\u2028', 'a.b', 'x()']


def same(a, b):
    """Equal, of the same types, all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if list(map(str, sorted(a, key=str))) != list(map(str, sorted(b, key=str))):
            return False
        return all(k in b and same(dict.get(a, k), dict.get(b, k)) for k in dict.keys(a))
    if isinstance(a, (list, tuple)) and not isinstance(a, time.struct_time):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, decimal.Decimal):
        return a.as_tuple() == b.as_tuple()
    return a == b


class World(object):
    """Form types, and inputs that they accept."""

    def __init__(self, case):
        import pilo
        self.case, self.rng, self.pilo, self.F = case, case.rng, pilo, pilo.fields
        self.forms = []       # (cls, {name: input maker}, {name: renderer})
        self.polys = []
        self.count = 0
        self.shapes = []

    def hit(self, chance):
        return self.rng.random() < chance

    # each returns (field, maker of inputs, renderer for JSON or None)

    def leaf(self):
        kind = self.rng.choice(['String', 'Integer', 'Float', 'Boolean', 'Decimal', 'Date', 'Datetime', 'Time', 'UUID', 'Field'])
        return self.of(kind)

    def of(self, kind, **options):
        F, rng = self.F, self.rng
        self.case.event('kind', kind)
        plain = lambda v: v
        if kind == 'String':
            how = rng.choice(['any', 'any', 'choices', 'length', 'pattern', 'translate', 'strip', 'alphabet'])
            if how == 'choices':
                words = rng.sample(WORDS, 3)
                return F.String(choices=words, **options), lambda: rng.choice(words), plain
            if how == 'length':
                return F.String(length=(0, 4), **options), lambda: rng.choice([w for w in WORDS if len(w) < 5]), plain
            if how == 'pattern':
                return F.String(pattern='a', **options), lambda: rng.choice(['a', 'ab', 'abc']), plain
            if how == 'alphabet':
                return F.String(alphabet='abcé', **options), lambda: rng.choice(['a', 'ab', 'abc', '', 'é']), plain
            if how == 'translate':
                self.case.event('translated')
                return (F.String(choices=['a', 'b', 'c'], **options).translate({'a': 'AAA', 'b': 'BBB'}), lambda: rng.choice(['a', 'b', 'c', 'AAA']), plain)
            f = F.String(**options)
            if how == 'strip' and not options.get('item'):
                self.case.event('munged')
                f.munge(lambda self, value: value if value is None else value.strip().lower())
            return f, lambda: rng.choice(WORDS), plain
        if kind == 'Integer':
            f = F.Integer(**options)
            pool = [0, 1, -7, 5, 42, 2 ** 70, '12', 3.0, ' 9 ', '-4']
            if self.hit(0.3):
                f = f.range(-10, 50)
                pool = [0, 1, -7, 5, 42, '12', 3.0, -10, 50]
            return f, lambda: rng.choice(pool), plain
        if kind == 'Float':
            return (F.Float(**options), lambda: rng.choice([0.0, -0.0, 1.5, 3, '2.25', 1e300, 5e-324, 0.1, '1e2', -7, 1 / 3.0]), plain)
        if kind == 'Boolean':
            return rng.choice([F.Boolean, F.Bool])(**options), lambda: rng.choice([True, False, 1, 0, 't', 'FALSE', '1', 7]), plain
        if kind == 'Decimal':
            return (F.Decimal(**options), lambda: rng.choice(['1.50', 3, 2.5, decimal.Decimal('-0.0'), decimal.Decimal('1E+3'), '1e-30', '-7',
                                                              12345678901234567890, '0.1']), str)
        if kind == 'Date':
            fmt = rng.choice(['%Y-%m-%d', 'iso8601', '%d/%m/%Y'])
            f = F.Date(format=fmt, **options)
            return (f, lambda: self.date() if self.hit(0.5) or fmt != '%d/%m/%Y' and self.hit(0.5) else
                    self.date().isoformat() if fmt != '%d/%m/%Y' else self.date().strftime(fmt), f.format)
        if kind == 'Datetime':
            fmt = rng.choice(['%Y-%m-%d %H:%M:%S', 'iso8601'])
            f = F.Datetime(format=fmt, **options)

            def make():
                v = datetime.datetime(2000 + rng.randrange(30), 1 + rng.randrange(12), 1 + rng.randrange(28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
                if fmt == 'iso8601':
                    v = v.replace(tzinfo=datetime.timezone.utc)
                    return v if self.hit(0.5) else v.isoformat()
                return v if self.hit(0.5) else v.strftime(fmt)
            return f, make, f.format
        if kind == 'Time':
            f = F.Time(format='%H:%M:%S', **options)
            return (f, lambda: rng.choice([datetime.time(3, 4, 5), '10:11:12', '00:00:00', time.struct_time((1900, 1, 1, 10, 11, 12, 0, 1, -1))]),
                    None)
        if kind == 'UUID':
            def make():
                u = uuid.UUID(int=rng.getrandbits(128))
                return rng.choice([u, str(u), u.hex])
            return F.UUID(**options), make, str
        return (F.Field(**options), lambda: rng.choice(WORDS + [0, 5, 1.5, True, False, [], [1, 'a', None], {'k': [1, {}]}, {}, {'x()': 1, 'a.b': 2}]), plain)

    def date(self):
        rng = self.rng
        return datetime.date(1970 + rng.randrange(60), 1 + rng.randrange(12), 1 + rng.randrange(28))

    def element(self, depth, **options):
        rng, F = self.rng, self.F
        roll = rng.random()
        if depth <= 0 or roll < 0.5:
            return self.leaf()
        if roll < 0.62:
            f, make, render = self.element(depth - 1)
            self.case.event('kind.List')
            return F.List(f), lambda: [make() for _ in range(rng.randrange(4))], render and (lambda v: [None if x is None else render(x) for x in v])
        if roll < 0.7:
            items = [self.element(depth - 1) for _ in range(rng.randrange(1, 4))]
            self.case.event('kind.Tuple')
            renders = [r for _, _, r in items]
            return (F.Tuple([f for f, _, _ in items]), lambda: rng.choice([list, tuple])([m() for _, m, _ in items]),
                    all(renders) and (lambda v: [r(x) for r, x in zip(renders, v)]))
        if roll < 0.8:
            f, make, render = self.element(depth - 1)
            self.case.event('kind.Dict')
            keys = ['k', 'a.b', 'x()', '', 'é', 'keys', '0', 'K']
            return (F.Dict(F.String(), f), lambda: dict((k, make()) for k in rng.sample(keys, rng.randrange(4))),
                    render and (lambda v: dict((k, render(x)) for k, x in v.items())))
        if roll < 0.9 and self.polys:
            return self.polymorphic(rng.choice(self.polys))
        if self.forms:
            return self.sub(rng.choice(self.forms))
        return self.leaf()

    def sub(self, form):
        cls, make, render = form
        self.case.event('kind.SubForm')
        return self.F.SubForm(cls), make, render

    def polymorphic(self, poly):
        base, kinds, render = poly
        self.case.event('kind.Poly')
        return self.F.PolymorphicSubForm(base.kind), lambda: self.rng.choice(kinds)[1](), render

    def members(self, depth, taken=()):
        """body, makers, renderers"""
        rng, F = self.rng, self.F
        body, makers, renders = {}, {}, {}
        free = [n for n in NAMES if n not in taken]
        for name in rng.sample(free, min(len(free), rng.randrange(1, 6))):
            roll = rng.random()
            if roll < 0.08:
                self.case.event('kind.Constant')
                value = rng.choice([5, 'c', None])
                body[name] = F.Field().constant(value)
                makers[name], renders[name] = (lambda: rng.choice([1, 'other', None])), (lambda v: v)
                continue
            if roll < 0.14:
                self.case.event('kind.Bare')
                f, make, render = self.leaf()
                if isinstance(f, F.Field) and type(f) is not F.Field and not isinstance(f, (F.List, F.Dict, F.Time)):
                    body[name] = F.List(f, allow_field=True)
                    makers[name] = lambda make=make: make() if rng.random() < 0.5 else [make(), make()]
                    renders[name] = render and (lambda v, r=render: [r(x) for x in v])
                    continue
                body[name], makers[name], renders[name] = f, make, render
                continue
            if roll < 0.22:
                # items that are left out
                self.case.event('item-left-out')
                body[name] = F.List(F.Integer(default=self.pilo.NONE).ignore(3, 4))
                makers[name] = lambda: [rng.randrange(6) for _ in range(rng.randrange(5))]
                renders[name] = lambda v: v
                continue
            f, make, render = self.element(depth)
            if self.hit(0.15):
                f.filter(lambda self, value: True)
                self.case.event('filtered')
            if self.hit(0.15):
                f.validate(lambda self, value: True)
                self.case.event('validated')
            how = rng.random()
            maker = make
            if how < 0.15:
                f.options(optional=True)
                maker = lambda make=make: 'ABSENT' if rng.random() < 0.5 else make()
            elif how < 0.3:
                f.options(default=None)
                maker = lambda make=make: 'ABSENT' if rng.random() < 0.5 else make()
                self.case.event('defaulted')
            elif how < 0.45:
                maker = lambda make=make: None if rng.random() < 0.3 else make()
                self.case.event('null')
            body[name], makers[name], renders[name] = f, maker, render
        if self.hit(0.15):
            # text computed from others
            words = [n for n, f in body.items() if type(f) is F.String]
            free = [n for n in NAMES if n not in body and n not in taken]
            if words and free:
                body[free[0]] = F.String().format('<{w}>', w=words[0])
                if not any(w for w in words[:1] if body[w].default is self.pilo.NONE):
                    makers[free[0]], renders[free[0]] = (lambda: 'ABSENT'), (lambda v: v)
                    self.case.event('kind.Format')
                else:
                    del body[free[0]]
        return body, makers, renders

    def make_form(self, depth):
        self.count += 1
        base, makers, renders = self.pilo.Form, {}, {}
        if self.forms and self.hit(0.3):
            base, m, r = self.rng.choice(self.forms)
            makers.update(m.parts)
            renders.update(r.parts)
            self.case.event('inherited')
        body, m, r = self.members(depth, taken=makers)
        makers.update(m)
        renders.update(r)
        cls = type('T{0}'.format(self.count), (base,), body)
        self.shapes.append((cls.__name__, [(f.name, type(f).__name__) for f in cls.fields]))
        out = (cls, Maker(makers, self.rng), Renderer(renders))
        self.forms.append(out)
        return out

    def make_poly(self, depth):
        F, rng, pilo = self.F, self.rng, self.pilo
        self.count += 1
        body, makers, renders = self.members(0, taken=())
        abstract = type('P{0}'.format(self.count), (pilo.Form,), dict(body, kind=F.Type.abstract()))
        kinds, by_type = [], {}
        bases = [(abstract, makers, renders)]
        for i in range(rng.randrange(1, 4)):
            parent, pm, pr = rng.choice(bases)
            if parent is not abstract:
                self.case.event('poly.deep')
            identity = rng.choice(['one', 'two', 'é', '1', 'x y']) + str(i)
            b, m, r = self.members(depth - 1, taken=pm)
            mine = dict(pm, **m)
            show = dict(pr, **r)
            cls = type('P{0}_{1}'.format(self.count, i), (parent,), dict(b, kind=rng.choice([F.Type.instance, F.Type.constant])(identity)))
            bases.append((cls, mine, show))
            full = dict(mine, kind=lambda identity=identity: identity)
            kinds.append((cls, Maker(full, rng)))
            by_type[cls] = Renderer(dict(show, kind=lambda v: v))
            self.shapes.append((cls.__name__, parent.__name__, [(f.name, type(f).__name__) for f in cls.fields]))

        def render(v):
            return by_type[type(v)](v)

        self.polys.append((abstract, kinds, render))


class Maker(object):

    def __init__(self, parts, rng):
        self.parts, self.rng = parts, rng

    def __call__(self):
        out = {}
        names = list(self.parts)
        self.rng.shuffle(names)
        for name in names:
            v = self.parts[name]()
            if not isinstance(v, str) or v != 'ABSENT':
                out[name] = v
        return out


class Unrendered(Exception):
    pass


class Renderer(object):

    def __init__(self, parts):
        self.parts = parts

    def __call__(self, form):
        out = {}
        for name, v in dict.items(form):
            render = self.parts[name]
            if v is None:
                out[name] = None
                continue
            if not render:
                raise Unrendered
            out[name] = render(v)
        return out


def snapshot(v):
    if isinstance(v, dict):
        return (type(v), [(k, snapshot(x)) for k, x in dict.items(v)])
    if isinstance(v, (list, tuple)) and not isinstance(v, time.struct_time):
        return (type(v), [snapshot(x) for x in v])
    return repr(v)


def judge(case, world, cls, make, render):
    import pilo
    rng, F = case.rng, pilo.fields
    data = make()
    form = cls()
    errors = form.map(data)
    w = dict(shapes=world.shapes, form=cls.__name__, data=data)
    if errors:
        # only forms that mapped without error are of interest: these inputs are meant to
        case.fail('first', 'an acceptable input was refused', errors=outcome_errors(errors), **w)
    if len(form) < len(cls.fields):
        case.event('left-out')
    was = snapshot(form)
    ways = ['form', 'dict', 'kwargs', 'source', 'union', 'mount', 'copy', 'twice', 'own', 'positional']
    full = len(form) == len(cls.fields)
    rendered = None
    try:
        rendered = json.dumps(render(form))
        ways += ['json', 'strict']
    except Unrendered:
        pass
    for way in ways:
        got = cls()
        if way == 'form':
            errors = got.map(form)
        elif way == 'dict':
            errors = got.map(dict(form))
        elif way == 'kwargs':
            if not form:
                continue
            got, errors = cls(**form), []
        elif way == 'source':
            errors = got.map(pilo.DefaultSource(form))
        elif way == 'union':
            if any(isinstance(f, F.Field) and type(f) is F.Field for f in every_field(cls, F)):
                # a container passed through as it is would be the union's own
                continue
            errors = got.map(pilo.source.union([form]))
        elif way == 'mount':
            wrapper = type('W', (pilo.Form,), {'inside': F.SubForm(cls, 'm')})
            holder = wrapper()
            errors = holder.map(pilo.source.mount(m=form, n={'a': 1}))
            if not errors:
                got = holder.inside
        elif way == 'copy':
            errors = got.map(form.copy())
        elif way == 'twice':
            first = cls()
            errors = first.map(form) or got.map(first)
        elif way == 'own':
            got = form.copy()
            errors = got.map(form, reset=rng.random() < 0.5)
        elif way == 'positional':
            if not full:
                continue
            errors = got.map([form[f.name] for f in cls.fields])
        elif way == 'json':
            errors = got.map(pilo.source.JsonSource(rendered))
        elif way == 'strict':
            errors = got.map(pilo.source.JsonSource(rendered, strict=True))
        case.event('way', way)
        case.equal(outcome_errors(errors), [], 'errors', 'a mapped form given back is refused', way=way, mapped=form, **w)
        case.expect(same(got, form), 'differs', 'a mapped form given back maps to another', way=way, mapped=form, again=got, **w)
        case.expect(snapshot(form) == was, 'touched', 'giving a form back changed it', way=way, mapped=form, **w)
        case.event('untouched')
    case.distinct(tuple(map(repr, world.shapes)), repr(was))
    return form


def every_field(cls, F, seen=None):
    seen = set() if seen is None else seen
    if cls in seen:
        return
    seen.add(cls)

    def walk(f):
        yield f
        for name in ('field', 'value_field', 'key_field'):
            g = getattr(f, name, None)
            if isinstance(g, F.Field):
                for x in walk(g):
                    yield x
        if isinstance(f, F.Tuple):
            for g in f.fields:
                for x in walk(g):
                    yield x
        if isinstance(f, F.SubForm):
            for x in every_field(f.form_type, F, seen):
                yield x
        if isinstance(f, F.PolymorphicSubForm):
            todo = [f.type_field.parent]
            while todo:
                c = todo.pop()
                todo.extend(c.__subclasses__())
                for x in every_field(c, F, seen):
                    yield x

    for f in cls.fields:
        for x in walk(f):
            yield x


def forms(case):
    world = World(case)
    rng = case.rng
    for i in range(rng.randrange(1, 4)):
        if rng.random() < 0.4:
            world.make_poly(1)
        world.make_form(min(i, 2))
    cls, make, render = world.forms[-1]
    for _ in range(3):
        form = judge(case, world, cls, make, render)
    case.sample((world.shapes[-1], dict(form)))


def typed(case):
    """Polymorphic forms, alone, listed and under keys."""
    import pilo
    F, rng = pilo.fields, case.rng
    world = World(case)
    world.make_form(0)
    world.make_poly(2)
    base, kinds, render = world.polys[-1]
    any_kind = lambda: rng.choice(kinds)[1]()
    holder = type('Holder', (pilo.Form,), {
        'one': F.PolymorphicSubForm(base.kind),
        'many': F.List(F.PolymorphicSubForm(base.kind)),
        'keyed': F.Dict(F.String(), F.PolymorphicSubForm(base.kind)),
    })
    make = lambda: {'one': any_kind(), 'many': [any_kind() for _ in range(rng.randrange(4))],
                    'keyed': dict((k, any_kind()) for k in rng.sample(['a', 'b.c', '', 'kind'], rng.randrange(3)))}
    case.event('poly.listed')
    case.event('poly.keyed')

    def show(v):
        return {'one': render(v['one']), 'many': [render(x) for x in v['many']], 'keyed': dict((k, render(x)) for k, x in v['keyed'].items())}

    form = judge(case, world, holder, make, show)
    # each by itself, cast back to its own type
    for item in [form.one] + form.many + list(form.keyed.values()):
        case.expect(base.kind.cast(item) is type(item), 'cast', 'a form given back is cast to another type',
                    got_type=base.kind.cast(item).__name__, want_type=type(item).__name__)
        judge(case, world, type(item), dict(kinds)[type(item)], render)


def flat(case):
    """Nested forms that read from the same mapping as the form that has them, given back by what they read; captured extras."""
    import pilo
    F, rng = pilo.fields, case.rng
    world = World(case)
    world.make_form(0)
    cls, make, render = world.forms[-1]
    if 'own' not in make.parts:
        outer = type('Flat', (pilo.Form,), {'own': F.Integer(), 'rest': F.SubForm(cls, flat=True)})
        data = dict(make(), own=rng.randrange(10))
        form = outer()
        errors = form.map(data)
        case.equal(outcome_errors(errors), [], 'first', 'an acceptable input was refused', data=data)
        again = outer()
        errors = again.map(dict(form.rest, own=form.own))
        case.equal(outcome_errors(errors), [], 'errors', 'a mapped form given back is refused', mapped=form)
        case.expect(same(again, form), 'differs', 'a mapped form given back maps to another', mapped=form, again=again)
        case.event('kind.Flat')
    # captured
    data = make()
    extras = dict((k, rng.choice([1, 'x', [1], {'k': 2}, None])) for k in rng.sample(['k 1', 'x()', 'm.n', 'é', '0'], rng.randrange(1, 4)))
    form = cls()
    errors = form.map(dict(data, **extras), unmapped='capture')
    case.equal(outcome_errors(errors), [], 'first', 'an acceptable input was refused', data=data)
    again = cls()
    errors = again.map(form, unmapped='capture')
    case.equal(outcome_errors(errors), [], 'errors', 'a mapped form given back is refused', mapped=form)
    case.expect(same(again, form), 'differs', 'a mapped form given back maps to another', mapped=form, again=again)
    case.event('captured')
    case.distinct('flat', repr(world.shapes), repr(snapshot(form)))


WORKLOADS = [
    ('forms', forms, 900, 25000),
    ('typed', typed, 300, 8000),
    ('flat', flat, 400, 8000),
    ('many', many.remapped, 150, 3000),
]
