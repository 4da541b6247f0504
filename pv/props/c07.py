"""C07: containers map every element once, in order, and under its own key."""
import re

from .. import many, engine, spec
from ..gen import Gen
from ..spec import canon

ID = 'C07'
RULE = 'distinct (form shape, error list) for random forms; distinct (container shape, data) for labelled elements'
REQUIRED = ['judged', 'labelled', 'dropped', 'group.match', 'shape.rejected']


class Labelled(Gen):
    """Every leaf value is different from every other."""

    label = 0

    def next_label(self):
        self.label += 1
        return 'v{0}'.format(self.label)

    def good_Field(self, f):
        return self.next_label()

    def good_String(self, f):
        return self.next_label()

    def good_Integer(self, f):
        self.label += 1
        return self.label


def random_forms(case):
    g = Labelled(case.rng, depth=3, hooks=0.02, steps=['munge', 'filter'], kinds=[
        'String', 'Integer', 'Field', 'List', 'Tuple', 'Dict', 'SubForm', 'Group'], constraints=0.15, bad=0.08, absent=0.06,
        null=0.04, defaults=0.25, ignores=0.1, translates=0.0, width=3)
    form = g.form().number()
    for _ in range(2):
        r = engine.run(form, g.form_data(form), case.rng.choice(['native', 'default']))
        engine.judge(case, r, ('values', 'errors'))
    case.sample((form, r.data))


def random_json(case):
    g = Labelled(case.rng, depth=3, hooks=0.0, kinds=[
        'String', 'Integer', 'Field', 'List', 'Tuple', 'Dict', 'SubForm', 'Group'], constraints=0.15, bad=0.08, absent=0.06,
        null=0.04, defaults=0.25, ignores=0.1, translates=0.0, width=3, native=False)
    form = g.form().number()
    for _ in range(2):
        r = engine.run(form, g.form_data(form), case.rng.choice(['strict', 'lenient']))
        engine.judge(case, r, ('values', 'errors'))
    case.sample((form, r.data))


class Shape(object):
    """
    A container shape with its field, a generator of labelled data, and what the
    data must map to: a second oracle, independent of pv.spec.
    """

    def __init__(self, case):
        import pilo
        self.case, self.rng, self.F, self.pilo = case, case.rng, pilo.fields, pilo
        self.n = 0

    def leaf(self):
        """(value, [kept]), with nothing kept of an ignored value."""
        self.n += 1
        if self.rng.random() < 0.2:
            self.case.event('dropped')
            return 'drop', []
        return 'v{0}'.format(self.n), ['v{0}'.format(self.n)]

    def make_leaf(self):
        return self.F.String(nullable=False, default=self.pilo.NONE).ignore('drop')

    def build(self, depth):
        """(field, function giving (value, [kept]))"""
        rng, F = self.rng, self.F
        if depth == 0 or rng.random() < 0.15:
            return self.make_leaf(), self.leaf
        kind = rng.choice(['list', 'dict', 'tuple', 'form', 'group', 'bare'])
        if kind == 'list':
            field, gen = self.build(depth - 1)

            def data():
                items = [gen() for _ in range(rng.randrange(5))]
                return [v for v, _ in items], [[k for _, kept in items for k in kept]]

            return F.List(field), data
        if kind == 'bare':
            field, gen = self.leaf_or_form(depth - 1)

            def data():
                v, kept = gen()
                if v is None:
                    return None, [None]
                return v, [kept] if kept else []

            return F.List(field, allow_field=True, default=self.pilo.NONE), data
        if kind == 'dict':
            field, gen = self.build(depth - 1)
            lower = rng.random() < 0.3
            key = F.String()
            if lower:
                key.munge(lambda self, value: 'm-' + value)

            def data():
                items = []
                for i in range(rng.randrange(5)):
                    self.n += 1
                    items.append(('k{0}{1}'.format(self.n, rng.choice(['', '.x', '()', '[0]', ' '])), gen()))
                rng.shuffle(items)
                out = {}
                for k, (_, kept) in items:
                    if kept:
                        out[('m-' if lower else '') + k] = kept[0]
                return dict((k, v) for k, (v, _) in items), [out]

            return F.Dict(key, field), data
        if kind == 'tuple':
            parts = [self.build(depth - 1) for _ in range(rng.randrange(1, 4))]

            def data():
                if rng.random() < 0.1:
                    self.case.event('shape', 'rejected')
                    return ['w'] * (len(parts) + rng.choice([-1, 1])), []
                items = [gen() for _, gen in parts]
                values = [v for v, _ in items]
                if rng.random() < 0.5:
                    values = tuple(values)
                return values, [tuple(k for _, kept in items for k in kept)]

            return F.Tuple(tuple(f for f, _ in parts)), data
        if kind == 'group':
            first, gen1 = self.build(depth - 1)
            second, gen2 = self.build(depth - 1)

            def data():
                out, kept_all, hits = {}, [], 0
                for i in range(rng.randrange(5)):
                    self.n += 1
                    which = rng.randrange(4)
                    if which == 0:
                        key = 'num{0}'.format(self.n)
                        caps = (str(self.n),)
                        v, kept = gen1()
                    elif which == 1:
                        if 'exact' in out:
                            continue
                        key, (v, kept), caps = 'exact', gen2(), None
                    elif which == 2:
                        key = 'numx{0}'.format(self.n)     # the first pattern does not match, the third does
                        caps = ('x{0}'.format(self.n),)
                        v, kept = gen2()
                    else:
                        key, v, kept, caps = 'other{0}'.format(self.n), 'unused', None, None
                    out[key] = v
                    if kept is None:
                        continue
                    hits += 1
                    self.case.event('group', 'match')
                    kept_all.extend((key, caps, k) for k in kept)
                return out, [kept_all]

            return F.Group((re.compile(r'num(\d+)$'), first), ('exact', second), (re.compile(r'num(.*)'), second)), data
        return self.form(depth)

    def leaf_or_form(self, depth):
        if depth > 0 and self.rng.random() < 0.5:
            return self.form(depth)
        return self.make_leaf(), self.leaf

    def form(self, depth):
        parts = dict(('f{0}'.format(i), self.build(depth - 1)) for i in range(self.rng.randrange(1, 4)))
        cls = type('L', (self.pilo.Form,), dict(
            (k, f) for k, (f, _) in parts.items() if not isinstance(f, self.F.Group)))

        def data():
            out, kept_all = {}, {}
            rejects = self.case.stats.events['shape.rejected']
            for k, (f, gen) in parts.items():
                if isinstance(f, self.F.Group):
                    continue
                v, kept = gen()
                out[k] = v
                if kept:
                    kept_all[k] = kept[0]
            # a failure below makes the form fail
            failed = self.case.stats.events['shape.rejected'] != rejects
            return out, [] if failed else [kept_all]

        return self.F.SubForm(cls), data


def plain(value):
    import pilo
    if isinstance(value, pilo.Form):
        return dict((k, plain(v)) for k, v in dict.items(value))
    if isinstance(value, dict):
        return dict((k, plain(v)) for k, v in value.items())
    if isinstance(value, tuple) and len(value) == 3 and (value[1] is None or hasattr(value[1], 'groups')):
        return (value[0], value[1] and value[1].groups(), plain(value[2]))
    if isinstance(value, (list, tuple)):
        return type(value)(plain(v) for v in value)
    return value


def labelled(case):
    import pilo
    shape = Shape(case)
    field, gen = shape.build(3)
    cls = type('F', (pilo.Form,), {'v': pilo.fields.List(field)})
    rejects = case.stats.events['shape.rejected']
    items = [gen() for _ in range(case.rng.randrange(1, 4))]
    rejected = case.stats.events['shape.rejected'] - rejects
    data = {'v': [v for v, _ in items]}
    form = cls()
    errors = form.map(data)
    case.event('labelled')
    if rejected:
        case.expect(len(errors) == rejected, 'shape-errors', 'one error per tuple of another length',
                    data=data, errors=[str(e) for e in errors], rejected=rejected)
    case.expect(rejected or not errors, 'clean', 'errors for valid elements', data=data, errors=[str(e) for e in errors])
    want = [k for _, kept in items for k in kept]
    case.equal(repr(plain(dict.get(form, 'v'))), repr(want), 'elements', 'elements lost, added, swapped or changed', data=data)
    case.distinct(repr(want))


SCALARS = ['text', 5, 1.5, True, b'xy', {'a': 1}, [1], ('a',), None, 1j]


def non_containers(case):
    """Anything but the container a field maps is invalid (and text is no container)."""
    import pilo
    F = pilo.fields
    fields = {
        'list': (lambda: F.List(F.Field()), (list, tuple)),
        'tuple': (lambda: F.Tuple((F.Field(),)), (list, tuple)),
        'dict': (lambda: F.Dict(F.Field(), F.Field()), (dict,)),
        'form': (lambda: F.SubForm(type('G', (pilo.Form,), {'a': F.Field(default=None)})), (dict,)),
        'listed-form': (lambda: F.List(F.SubForm(type('G', (pilo.Form,), {'a': F.Field(default=None)}))), ()),
    }
    for name, (make, types) in fields.items():
        for v in SCALARS:
            if v is None or (name == 'listed-form' and isinstance(v, (list, tuple))):
                continue
            form = type('F', (pilo.Form,), {'v': make()})()
            errors = form.map({'v': v})
            ok = isinstance(v, types)
            case.equal((len(errors), 'v' in form), (0, True) if ok else (1, False), 'container', 'a {0} field over {1!r}'.format(name, v))
            if not ok:
                case.event('shape', 'rejected')
            case.distinct(name, repr(v))
    # patterns and keys of bytes
    group = F.Group((re.compile(br'k(\d)'), F.Field()), (re.compile(r'k(\d)'), F.Integer()), ('x', F.Field()))
    form = type('F', (pilo.Form,), {'v': group})()
    errors = form.map({b'k1': 'of bytes', 'k2': 5, 'x': 1, b'x': 2, 7: 3, (1, 'x'): 4, None: 5, 'zz': 6, b'zz': 7})
    got = sorted((repr(k), m.group(1) if m else None, v) for k, m, v in form.get('v', ()))
    case.equal((got, errors[:]), ([("'k2'", '2', 5), ("'x'", None, 1), ("b'k1'", b'1', 'of bytes')], []), 'group-bytes', 'patterns of bytes and of text in one group')


def big(case):
    """Many elements."""
    import pilo
    F = pilo.fields
    n = case.rng.randrange(200, 1200)
    cls = type('F', (pilo.Form,), {
        'l': F.List(F.Integer()), 'd': F.Dict(F.String(), F.Integer()),
        's': F.List(type('G', (pilo.Form,), {'a': F.Integer()})),
        'g': F.SubForm(type('H', (pilo.Form,), {'x': F.Group((re.compile(r'k(\d+)'), F.Integer()))})),
    })
    xs = list(range(n))
    case.rng.shuffle(xs)
    form = cls({'l': xs, 'd': dict((str(x), x) for x in xs), 's': [{'a': x} for x in xs], 'g': dict(('k%d' % x, x) for x in xs)})
    case.expect(dict.get(form, 'l') == xs, 'big-list', 'list elements')
    case.expect(list(dict.get(form, 'd').items()) == [(str(x), x) for x in xs], 'big-dict', 'dict elements')
    case.expect([dict.get(g, 'a') for g in dict.get(form, 's')] == xs, 'big-forms', 'nested forms')
    case.expect([(k, m.group(1), v) for k, m, v in dict.get(dict.get(form, 'g'), 'x')] == [('k%d' % x, str(x), x) for x in xs],
                'big-group', 'group elements')


WORKLOADS = [
    ('random', random_forms, 2000, 60000),
    ('random-json', random_json, 1000, 30000),
    ('labelled', labelled, 1500, 40000),
    ('non-containers', non_containers, 2, 2),
    ('big', big, 12, 100),
    ('many', many.containers, 150, 3000),
]
