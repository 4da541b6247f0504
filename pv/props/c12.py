"""C12: polymorphic forms downcast to exactly the declared type."""
import json

from .. import many
from ..spec import canon, outcome_errors

ID = 'C12'
RULE = 'distinct (hierarchy shape, way of downcasting, identity class, kind of source)'
REQUIRED = ['judged', 'probe-default.failed', 'probe-default.found', 'refused', 'cast', 'probe', 'nested', 'listed', 'identity.declared', 'identity.unknown', 'identity.malformed', 'identity.missing',
            'identity.defaulted', 'identity.computed', 'depth.1', 'depth.2', 'depth.3', 'constant', 'value.none', 'value.some', 'siblings', 'failing-body', 'source.json',
            'source.union', 'source.form', 'unsaid', 'namesake', 'mid-cast', 'several']

IDS = ['a', 'b', 'c', 'dd', 'Ee', 'f.f', '0', 'gé', 'h h', 'None', '']


class Hierarchy(object):
    """
    A random tree of form types.

    `declared` maps each identity to the type declaring it; `below[cls]` are
    the identities declared by `cls` and the types below it.
    """

    def __init__(self, rng, tag, ids=None):
        import pilo
        F = pilo.fields
        self.rng = rng
        ids = list(ids or rng.sample(IDS, rng.randrange(2, 8)))
        self.ids = ids
        self.key = rng.choice(['kind', 'kind', 'type', 'k k'])
        self.name = rng.choice(['kind', 'kind', 'type_'])
        self.mode = rng.choice(['given', 'given', 'given', 'defaulted', 'computed'])
        self.default = rng.choice(ids) if self.mode == 'defaulted' else None
        src = {} if self.key == self.name else {'src': self.key}
        self.src = src
        body = {}
        before = rng.random() < 0.5 or self.mode == 'computed'
        if before:
            body['first'] = F.String(default='f')
        options = dict(src)
        if self.default is not None:
            options['default'] = self.default
        body[self.name] = F.Type.abstract(**options)
        if self.mode == 'computed':
            @body[self.name].compute
            def compute(self):
                first = getattr(self, 'first', None)
                return pilo.NONE if first is None else first[1:]
        body['v'] = F.Integer()
        self.declared, self.parents, self.depth, self.types = {}, {}, {}, []
        self.constant, self.single, self.redeclared = set(), set(), {}
        self.namesakes = 0
        self.base = type('Base' + tag, (pilo.Form,), body)
        self.add(self.base, None)
        count = 0
        for identity_group in self.groups(ids):
            parent = rng.choice(self.types)
            while self.depth[parent] >= 3:
                parent = rng.choice(self.types)
            if rng.random() < 0.3 and self.depth[parent] < 2:
                # a type in between that has no identity of its own
                mid = {'mid{0}'.format(count): F.Integer(default=count)}
                if rng.random() < 0.4:
                    mid[self.name] = F.Type.abstract(**src)
                redeclares = self.name in mid
                parent_declares = bool([1 for t in self.declared.values() if t is parent])
                if redeclares or not parent_declares:
                    cls = type('Mid{0}{1}'.format(tag, count), (parent,), mid)
                    self.add(cls, parent)
                    if redeclares:
                        self.redeclared[cls] = True
                    parent = cls
                    count += 1
            leaf = {}
            if rng.random() < 0.5:
                leaf['own{0}'.format(count)] = F.List(F.Integer(), default=None)
            if len(identity_group) == 1 and rng.random() < 0.5:
                leaf[self.name] = F.Type.constant(identity_group[0])
                constant = True
            else:
                leaf[self.name] = F.Type.instance(*identity_group, **src)
                constant = False
            if rng.random() < 0.3:
                leaf['v'] = F.Integer().min(0)
            called = 'Leaf{0}{1}'.format(tag, count)
            if rng.random() < 0.15:
                # extends a type under its own name
                called = parent.__name__
                self.namesakes += 1
            cls = type(called, (parent,), leaf)
            if constant:
                self.constant.add(cls)
            self.add(cls, parent)
            self.redeclared[cls] = True
            for identity in identity_group:
                self.declared[identity] = cls
            count += 1

    def groups(self, ids):
        ids = list(ids)
        while ids:
            n = min(len(ids), self.rng.choice([1, 1, 1, 2, 3]))
            yield ids[:n]
            del ids[:n]

    def add(self, cls, parent):
        self.types.append(cls)
        self.parents[cls] = parent
        self.depth[cls] = 0 if parent is None else self.depth[parent] + 1

    def below(self, cls):
        return dict((i, t) for i, t in self.declared.items() if issubclass(t, cls))

    def shape(self):
        return (self.mode, self.key, self.name, tuple(sorted((self.depth[t], t in self.constant, i == '') for i, t in self.declared.items())),
                len(self.types))

    def field(self, cls=None):
        return getattr(cls or self.base, self.name)

    def data(self, identity):
        """Input for a form of this identity; `identity` None leaves it out."""
        rng = self.rng
        out = {'v': rng.choice([0, 1, 7, '5'])}
        if self.mode == 'computed':
            if identity is not None:
                out['first'] = 'x' + identity
            if rng.random() < 0.5:
                out[self.key] = rng.choice(['ignored', self.ids[0]])
            cls = self.declared.get(identity)
            if cls is not None and cls not in self.constant:
                # what the concrete type itself reads
                out[self.key] = identity
        elif identity is not None:
            out[self.key] = identity
        for n in range(4):
            if rng.random() < 0.4:
                out['own{0}'.format(n)] = rng.choice([[], [1, 2], None])
            if rng.random() < 0.3:
                out['mid{0}'.format(n)] = rng.randrange(9)
        return out


def identities(rng, h):
    """(class of identity, input, declared identity or None)."""
    roll = rng.randrange(8)
    if roll < 4:
        i = rng.choice(h.ids)
        kind = 'computed' if h.mode == 'computed' else 'declared'
        return kind, h.data(i), i
    if roll == 4:
        return 'unknown', h.data(rng.choice(['nope', 'A', h.ids[0] + ' ', h.ids[0] + 'x', ' ' + h.ids[0]])), None
    if roll == 5:
        data = h.data(None)
        if h.mode == 'defaulted':
            return 'defaulted', data, h.default
        if h.mode == 'computed':
            return ('computed', data, '') if '' in h.ids else ('missing', data, None)  # computed from the default of another field: ''
        return 'missing', data, None
    if roll == 6 and h.mode != 'computed':
        data = h.data(None)
        data[h.key] = rng.choice([5, True, 1.5, ['a'], {'a': 'b'}, {}, []])
        return 'malformed', data, None
    return 'malformed', rng.choice([5, 'a', True, 2.5, [], ['x'], [[1]]]), None


def holder(h, field, rng):
    import pilo
    F = pilo.fields
    shape = rng.choice(['nested', 'listed', 'deep'])
    poly = F.PolymorphicSubForm(field)
    if shape == 'nested':
        return shape, type('H', (pilo.Form,), {'one': poly}), lambda d: {'one': d}, 'one', lambda f: f.get('one')
    if shape == 'listed':
        return (shape, type('H', (pilo.Form,), {'many': F.List(poly)}), lambda d: {'many': [d]}, 'many[0]',
                lambda f: (f.get('many') or [None])[0])
    inner = type('I', (pilo.Form,), {'one': poly})
    return (shape, type('H', (pilo.Form,), {'n': F.SubForm(inner)}), lambda d: {'n': {'one': d}}, 'n.one',
            lambda f: (f.get('n') or {}).get('one'))


def sourced(case, data, kind=None):
    import pilo
    kind = kind or case.rng.choice(['native', 'native', 'json', 'strict', 'union', 'located'])
    if kind == 'json':
        src = pilo.source.JsonSource(json.dumps(data))
    elif kind == 'strict':
        src = pilo.source.JsonSource(json.dumps(data), strict=True)
    elif kind == 'union':
        src = pilo.source.union([data, {'other': 1}], merge='combine')
    elif kind == 'located':
        src = pilo.DefaultSource(data, location='at')
    else:
        src = data
    case.event('source', 'json' if kind == 'strict' else kind)
    return kind, src, 'at:' if kind == 'located' else ''


def judge(case, h, field_of=None):
    import pilo
    rng = case.rng
    top = field_of or h.base
    field = h.field(top)
    reachable = h.below(field.parent)
    what, data, identity = identities(rng, h)
    if top is not h.base and h.redeclared.get(top) and what in ('defaulted', 'computed', 'missing'):
        return  # redeclared without the default or the hook of the base
    if h.mode == 'computed' and top is not h.base and h.redeclared.get(top):
        return
    cls = reachable.get(identity) if identity is not None else None
    case.event('identity', what)
    w = dict(hierarchy=sorted((i, t.__name__, t.__bases__[0].__name__) for i, t in h.declared.items()), mode=h.mode, data=data, what=what)

    # cast and probe
    if isinstance(data, dict):
        if cls is None:
            try:
                got = field.cast(data)
            except ValueError:
                got = None
            case.equal(got, None, 'cast-unknown', 'an identity that no type declares was cast', **w)
        else:
            case.expect(field.cast(data) is cls, 'cast', 'cast to another type', got=field.cast(data), want=cls, **w)
            case.equal(field.probe(data), identity, 'probe', 'probe gave another identity', **w)
            case.event('probe')
        case.event('cast')
        # probing with a default
        try:
            found = field.probe(data)
        except (ValueError, pilo.FieldError):
            found = 'nothing'
        case.equal(pilo.Types.map(field).probe(data, default='nothing'), found, 'probe-default', 'a probe given a default', **w)
        for none in (None, 0, '', False, []):
            got = pilo.Types.map(field).probe(data, default=none)
            case.expect(got is none if found == 'nothing' else got == found, 'probe-default', 'a probe given a default that is false', got=got, default=none, found=found, **w)
        case.event('probe-default', 'failed' if found == 'nothing' else 'found')
    if cls is not None:
        case.event('depth', h.depth[cls])

    # nested
    shape, hcls, wrap, where, pick = holder(h, field, rng)
    kind, src, prefix = sourced(case, wrap(data))
    form = hcls()
    errors = outcome_errors(form.map(src))
    got = pick(form)
    case.event('listed' if shape == 'listed' else 'nested')
    w.update(shape=shape, source=kind)
    if cls is None:
        case.equal(got, None, 'nested-unknown', 'an identity that no type declares was mapped', **w)
        case.equal(errors, [('Invalid', prefix + where)], 'nested-unknown-error', 'the error of an unknown identity', **w)
    else:
        direct_cls = type('D', (pilo.Form,), {'d': pilo.fields.SubForm(cls)})
        direct = direct_cls()
        direct_errors = outcome_errors(direct.map(sourced(case, {'d': data}, kind)[1]))
        want = [(k, prefix + where + p[len(prefix) + 1:]) for k, p in direct_errors]
        if want:
            case.event('failing-body')
        if not any(loc.endswith('.first') for _, loc in want):
            case.equal(errors, want, 'nested-errors', 'the errors differ from mapping the type directly', **w)
            case.equal(canon(got), canon(direct.get('d')), 'nested-values', 'the form differs from mapping the type directly', **w)
            if got is not None:
                case.expect(type(got) is cls, 'nested-type', 'mapped to another type', got=type(got), want=cls, **w)
    case.distinct(h.shape(), shape, what, kind, repr(identity))
    return form


def hierarchies(case):
    h = Hierarchy(case.rng, 'A')
    for _ in range(6):
        judge(case, h)
    case.sample((sorted((i, t.__name__) for i, t in h.declared.items()), h.mode, h.key))
    if any(len([1 for t in h.declared.values() if t is cls]) > 1 for cls in h.types):
        case.event('several')
    if h.namesakes:
        case.event('namesake')


def failing(case):
    """Concrete types whose own fields fail."""
    h = Hierarchy(case.rng, 'A')
    original = h.data

    def data(identity):
        out = original(identity)
        out['v'] = case.rng.choice(['x', -3, None, [], 5])
        if case.rng.random() < 0.3:
            out.pop('v')
        return out

    h.data = data
    for _ in range(4):
        judge(case, h)


def siblings(case):
    """Two hierarchies with the same identities, and downcasting from below the base."""
    rng = case.rng
    ids = rng.sample(IDS, rng.randrange(2, 5))
    hs = [Hierarchy(rng, 'A', ids), Hierarchy(rng, 'B', ids)]
    for _ in range(6):
        judge(case, rng.choice(hs))
    case.event('siblings')
    for h in hs:
        for cls in h.types:
            if cls is h.base or h.field(cls).parent is not cls or h.field(cls).parent is h.base:
                continue
            if cls in h.constant or cls in h.declared.values():
                continue
            judge(case, h, cls)
            case.event('mid-cast')


def constants(case):
    """A constant identity is carried whatever the input says."""
    import pilo
    rng = case.rng
    h = Hierarchy(rng, 'A')
    for identity, cls in sorted(h.declared.items()):
        if cls not in h.constant:
            continue
        data = {'v': 1, 'first': 'q'}
        for key in (h.key, h.name):
            if rng.random() < 0.7:
                data[key] = rng.choice(['other', 5, None, identity, [], 'nope'])
        form = cls(data)
        case.equal(form[h.name], identity, 'constant-mapped', 'another identity was stored', data=data)
        case.equal(getattr(cls(), h.name), identity, 'constant-read', 'another identity was read')
        src = pilo.source.JsonSource(json.dumps(data))
        case.equal(cls(src)[h.name], identity, 'constant-json', 'another identity was stored', data=data)
        case.equal(getattr(cls, h.name).value, identity, 'constant-value', 'another value of the type field')
        case.event('constant')
        case.distinct('constant', identity, repr(data))
    for cls in h.types:
        ids = [i for i, t in h.declared.items() if t is cls]
        if len(ids) == 1:
            case.equal(getattr(cls, h.name).value, ids[0], 'instance-value', 'another value of the type field')
        field = getattr(cls, h.name)
        try:
            value = field.value
        except TypeError:
            value = None
        # inherited type fields are those of the type they are inherited from
        holder = [t for t in cls.__mro__ if h.name in vars(t)][0]
        ids = [i for i, t in h.declared.items() if t is holder]
        if holder is h.base or not ids:
            want = h.default if holder is h.base else None
        else:
            want = ids[0] if len(ids) == 1 else None
        if value is None and want is None:
            for again in range(2):
                try:
                    field.value
                    case.fail('type-value', 'a type field without a value of its own has one', type=cls.__name__)
                except TypeError:
                    case.event('value', 'refused')
                try:
                    field.probe({})
                except (ValueError, AttributeError):
                    pass
        case.equal(value, want, 'type-value', 'a type field has a value it does not declare, or another', type=cls.__name__, mode=h.mode)
        case.event('value', 'none' if want is None else 'some')


def remap(case):
    """A mapped polymorphic form is again an input of its type."""
    rng = case.rng
    h = Hierarchy(rng, 'A')
    if h.key != h.name or h.mode == 'computed':
        h = Hierarchy(rng, 'A')
    if h.key != h.name or h.mode == 'computed':
        return
    for identity in h.ids:
        cls = h.declared[identity]
        data = h.data(identity)
        first = cls(data)
        case.expect(h.field().cast(first) is cls, 'cast-form', 'a mapped form was cast to another type', form=first)
        shape, hcls, wrap, where, pick = holder(h, h.field(), rng)
        form = hcls()
        errors = form.map(wrap(first))
        case.equal(outcome_errors(errors), [], 'form-errors', 'errors mapping a mapped form', form=first)
        got = pick(form)
        case.expect(type(got) is cls, 'form-type', 'a mapped form became another type', got=got, form=first)
        case.equal(canon(got), canon(first), 'form-values', 'a mapped form changed')
        case.event('source', 'form')
        case.distinct('form', identity, shape, h.shape())


def refusals(case):
    """What is not the type field of a form has no types to give."""
    import pilo
    F, rng = pilo.fields, case.rng
    h = Hierarchy(rng, 'R')
    field = h.field()
    data = h.data(h.ids[0])

    def refused(what, kinds, do):
        try:
            got = do()
        except kinds:
            case.event('refused', what)
        else:
            case.fail('refused', '{0} gave types'.format(what), got=got)

    refused('not a field', TypeError, lambda: pilo.Types.map(rng.choice([h.base, 'kind', None, 5])))
    loose = rng.choice([F.Type.abstract, lambda: F.Type.instance('a', 'b'), lambda: field.clone()])()
    refused('an unattached field', ValueError, lambda: pilo.Types.map(loose))
    refused('an unattached field', ValueError, lambda: loose.probe(data))
    refused('an unattached field', ValueError, lambda: loose.cast(data))
    # a field that the form it is attached to no longer has
    other = F.Type.abstract().attach(h.base, rng.choice([h.name, 'other']))
    refused('a field its form does not have', ValueError, lambda: pilo.Types.map(other))
    refused('a field its form does not have', ValueError, lambda: pilo.Types.for_field(other))
    case.expect(field.cast(data) is h.declared[h.ids[0]], 'refused-cast', 'a refusal disturbed the types')
    case.event('refused')
    case.distinct('refused', h.shape())


def unsaid(case):
    """Types told apart by an identity that need not be given."""
    import pilo
    F, rng = pilo.fields, case.rng
    options = rng.choice([{}, {'optional': True}, {'default': None}, {'optional': True, 'default': None}, {'default': 'd'}, {'default': 'nope'}])
    fallback = rng.choice([{'default': None}, {'optional': True}, {'default': 'none'}, {}])
    base = type('Base', (pilo.Form,), {'kind': F.Type.abstract(**options)})
    leaf = type(rng.choice(['Leaf', 'Base']), (base,), {'kind': F.Type.instance('d'), 'n': F.Integer()})
    other = type(rng.choice(['Other', 'Base', 'Leaf']), (base,), {'kind': F.Type.instance('e', 'f'), 'm': F.Integer(default=2)})
    holder = type('Holder', (pilo.Form,), {'one': F.PolymorphicSubForm(base.kind, **fallback), 'after': F.Integer()})
    for _ in range(3):
        n = rng.randrange(50)
        given = rng.choice([{}, {}, {'kind': None}, {'kind': 'd'}, {'kind': 'f'}, {'kind': 'x'}])
        data = dict(given, n=n)
        identity = given.get('kind', options.get('default', 'left out' if not options else None))
        if 'default' not in options and 'kind' not in given and options:
            identity = None
        want, errors = {'after': 1}, []
        if identity is None:
            # nobody says which: as if there were none
            if fallback.get('default', 0) != 0:
                want['one'] = fallback['default']
            elif not fallback:
                errors = [('Missing', 'one')]
            case.event('unsaid')
        elif identity == 'left out':
            errors = [('Invalid', 'one')]
        elif identity == 'd':
            want['one'] = {'kind': 'd', 'n': n}
        elif identity == 'f':
            want['one'] = {'kind': 'f', 'm': 2}
        else:
            errors = [('Invalid', 'one')]
        form = holder()
        got = form.map({'one': data, 'after': 1})
        w = dict(options=options, fallback=fallback, data=data)
        case.equal(outcome_errors(got), errors, 'unsaid-errors', 'errors', **w)
        case.equal(dict((k, dict(v) if isinstance(v, dict) else v) for k, v in form.items()), want, 'unsaid-values', 'values', **w)
        cls = {'d': leaf, 'f': other}.get(identity)
        if cls is not None:
            case.expect(type(form['one']) is cls, 'unsaid-type', 'another type', got=type(form['one']), **w)
        try:
            cast = base.kind.cast(data)
        except ValueError:
            cast = None
        case.expect(cast is cls, 'unsaid-cast', 'cast to another type', got=cast, **w)
        case.distinct('unsaid', repr(options), repr(fallback), repr(given))


WORKLOADS = [
    ('unsaid', unsaid, 300, 8000),
    ('hierarchies', hierarchies, 900, 25000),
    ('failing', failing, 400, 12000),
    ('siblings', siblings, 400, 12000),
    ('constants', constants, 300, 8000),
    ('remap', remap, 400, 12000),
    ('refusals', refusals, 100, 3000),
    ('many', many.types, 150, 3000),
]
