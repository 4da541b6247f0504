"""C20: forms have exactly their declared and inherited fields, in declaration order."""
from .. import many
from ..spec import canon, outcome_errors

ID = 'C20'
RULE = 'distinct (hierarchy shape, redeclarations); distinct (field kind, changes made to its clone)'
REQUIRED = ['judged'] + ['world.' + k for k in ('redeclared', 'redeclared-twice', 'inherited', 'diamond', 'mixin', 'plain-mixin', 'renamed', 'hooked', 'nested',
                                                'from-fields', 'type', 'deleted')] + [
    'order', 'positional', 'positional.short', 'positional.long', 'positional.exact', 'unaffected', 'keys', 'clone.original', 'clone.clone',
    'clone.hook', 'clone.option', 'clone.setter', 'clone.attached', 'clone.constant', 'clone.own', 'self', 'instance-attribute', 'aliased'] + [
    'computed.' + k for k in ('plain', 'constant', 'type', 'compute', 'context', 'format', 'default')]

NAMES = ['a', 'b', 'c', 'd', 'zed', 'alpha', 'x1', 'X1', '_u', 'keys', 'index', 'count', 'pop', 'é', '_', '__', '_u_']
SRCS = ['k', 'other key', 'a.b', 'B', '0', 'x()', 'append', '']


class Decl(object):
    """One declared field."""

    count = 0

    def __init__(self, world, name, src, pos):
        world.uid += 1
        self.uid, self.name, self.pos = world.uid, name, pos
        self.src = src
        self.hooked = False
        self.redeclared = 0

    @property
    def key(self):
        return self.name if self.src is None else self.src


class Cls(object):

    def __init__(self, name, bases, real, own):
        self.name, self.bases, self.real, self.own = name, bases, real, own


class World(object):

    def __init__(self, case):
        import pilo
        self.case, self.rng, self.pilo, self.F = case, case.rng, pilo, pilo.fields
        self.uid = 0
        self.pos = 0
        self.log = []
        self.classes = []
        self.srcs = set()

    def declare(self, bases):
        """One more form type."""
        rng, F, pilo = self.rng, self.F, self.pilo
        body, own = {}, {}
        members = resolved_of(bases)
        names = rng.sample(NAMES, rng.randrange(0, 5))
        if members and rng.random() < 0.6:
            names = names + rng.sample(sorted(members), min(len(members), rng.randrange(1, 3)))
        seen = set()
        for name in names:
            if name in seen:
                continue
            seen.add(name)
            src = None
            if rng.random() < 0.3:
                free = [s for s in SRCS if s not in self.srcs]
                if free:
                    src = rng.choice(free)
                    self.srcs.add(src)
                    self.case.event('world.renamed')
            self.pos += 1
            decl = Decl(self, name, src, self.pos)
            if name in members:
                decl.pos = members[name].pos
                decl.redeclared = members[name].redeclared + 1
                self.case.event('world.redeclared')
                if decl.redeclared > 1:
                    self.case.event('world.redeclared-twice')
            own[name] = decl
            body[name] = self.make(decl)
        name = 'C{0}'.format(len(self.classes))
        real_bases = tuple(b.real for b in bases)
        if not any(isinstance(b, type) and issubclass(b, pilo.Form) for b in real_bases):
            real_bases = real_bases + (pilo.Form,)
        if bases:
            self.case.event('world.inherited')
        how = rng.random()
        if not bases and how < 0.3:
            real = pilo.Form.from_fields(**body)
            self.case.event('world.from-fields')
        else:
            real = type(name, real_bases, body)
        cls = Cls(name, bases, real, own)
        self.classes.append(cls)
        return cls

    def mixin(self):
        """Fields in a class that is no form."""
        own, body = {}, {}
        for name in self.rng.sample(NAMES, self.rng.randrange(1, 3)):
            self.pos += 1
            decl = own[name] = Decl(self, name, None, self.pos)
            body[name] = self.make(decl)
        self.case.event('world.plain-mixin')
        return Cls('Mixin', [], type('Mixin', (object,), body), own)

    def make(self, decl):
        F, rng, log, uid = self.F, self.rng, self.log, decl.uid
        args = [] if decl.src is None else [decl.src]
        decl.kind = kind = rng.choice(['Integer', 'Field', 'List', 'SubForm', 'Type', 'hook'])

        def default():
            log.append(uid)
            return uid

        if kind == 'List':
            f = F.List(F.Integer(), *args, default=default)
        elif kind == 'SubForm':
            f = F.SubForm(self.pilo.Form, *args, default=default)
            self.case.event('world.nested')
        elif kind == 'Type':
            f = F.Type(*args, default=default)
            self.case.event('world.type')
        elif kind == 'hook':
            f = F.Field(*args)
            owner = []

            @f.default
            def f(self):
                owner.append(type(self))
                log.append(uid)
                return uid
            decl.owner = owner
            self.case.event('world.hooked')
        else:
            f = getattr(F, kind)(*args, default=default)
        return f


def resolved_of(bases):
    """name -> Decl that a class with these bases inherits (its own are not counted)."""
    out = {}
    if not bases:
        return out
    for cls in linear(bases):
        for name, decl in cls.own.items():
            out.setdefault(name, decl)
    return out


def linear(bases):
    """The C3 order of a class with these bases."""
    def mro(cls):
        return [cls] + merge([mro(b) for b in cls.bases] + [list(cls.bases)])

    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                raise TypeError('no order')
            out.append(head)
            seqs = [[x for x in t if x is not head] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    return merge([mro(b) for b in bases] + [list(bases)])


def members(cls):
    out = dict(cls.own)
    for name, decl in resolved_of(cls.bases).items():
        out.setdefault(name, decl)
    return sorted(out.values(), key=lambda d: d.pos)


GOOD = {'Integer': 5, 'Field': 'anything', 'List': [1, 2], 'SubForm': {'q': 1}, 'Type': 'one', 'hook': 'anything'}
READ = {'Integer': 5, 'Field': 'anything', 'List': [1, 2], 'SubForm': {}, 'Type': 'one', 'hook': 'anything'}


def judge(case, world, cls):
    rng = world.rng
    want = members(cls)
    w = dict(form=cls.name, bases=[b.name for b in cls.bases], own=[(d.name, d.uid, d.pos) for d in cls.own.values()],
             expected_order=[d.name for d in want])
    # what the type says of itself
    case.equal([f.name for f in cls.real.fields], [d.name for d in want], 'fields', 'the fields of the form type', **w)
    case.equal([f.src for f in cls.real.fields], [d.key for d in want], 'keys', 'the keys its fields read', **w)
    case.event('keys')
    # nothing given: every field is mapped once, in order, by its own declaration
    world.log[:] = []
    form = cls.real()
    errors = form.map({})
    case.equal(outcome_errors(errors), [], 'errors', 'unexpected errors', **w)
    case.equal(world.log, [d.uid for d in want], 'order', 'the fields were mapped in another order, or other fields were', **w)
    case.equal(dict(dict.items(form)), dict((d.name, d.uid) for d in want), 'values', 'the values of the fields', **w)
    case.event('order')
    for d in want:
        if d.kind == 'hook':
            case.expect(d.owner[-1] is cls.real, 'self', 'a hook got a form of another type', got=d.owner[-1].__name__, **w)
            case.event('self')
    # each given under its own key only
    keys = [d.key for d in want]
    chosen = [d for d in want if rng.random() < 0.6 and d.key not in ('x()',)]
    data = dict((d.key, GOOD[d.kind]) for d in chosen)
    for name in NAMES:
        if name not in keys and rng.random() < 0.2:
            data[name] = 'not read'
    order = list(data)
    rng.shuffle(order)
    data = dict((k, data[k]) for k in order)
    world.log[:] = []
    form = cls.real()
    errors = form.map(data)
    expect = dict((d.name, READ[d.kind] if d.key in data else d.uid) for d in want)
    case.equal((outcome_errors(errors), dict(dict.items(form))), ([], expect), 'read-keys', 'a field does not read its own key', data=data, **w)
    case.equal(world.log, [d.uid for d in want if d.key not in data], 'order', 'the fields were mapped in another order', data=data, **w)
    # positional
    n = rng.choice([len(want), len(want), max(0, len(want) - 1), len(want) + 2, rng.randrange(len(want) + 1)])
    items = [GOOD[d.kind] for d in want][:n] + ['surplus'] * max(0, n - len(want))
    expect = dict((d.name, READ[d.kind] if i < n else d.uid) for i, d in enumerate(want))
    for how in ('map', 'construct') if want else ():
        given = rng.choice([list, tuple])(items)
        world.log[:] = []
        if how == 'map':
            form = cls.real()
            case.equal(outcome_errors(form.map(given)), [], 'positional', 'errors from positional input', items=items, **w)
        else:
            form = cls.real(given)
        case.equal(dict(dict.items(form)), expect, 'positional', 'positional input', items=items, how=how, **w)
        case.equal(world.log, [d.uid for d in want[n:]], 'order', 'the fields were mapped in another order', items=items, **w)
    case.event('positional')
    case.event('positional.' + ('short' if n < len(want) else 'long' if n > len(want) else 'exact'))
    # an instance reads each as an attribute
    form = cls.real()
    for d in want:
        world.log[:] = []
        case.equal(getattr(form, d.name), d.uid, 'attribute', 'an attribute of a form', name=d.name, **w)
        case.event('instance-attribute')


def hierarchy(case):
    world = World(case)
    rng = case.rng
    total = rng.randrange(1, 7)
    for i in range(total):
        before = [(c, [f.name for f in c.real.fields], [id(f) for f in c.real.fields]) for c in world.classes]
        forms = list(world.classes)
        roll = rng.random()
        bases = []
        if forms and roll < 0.75:
            bases = [rng.choice(forms)]
            if len(forms) > 1 and rng.random() < 0.35:
                other = rng.choice(forms)
                if other is not bases[0]:
                    try:
                        linear(bases + [other])
                        bases.append(other)
                        case.event('world.mixin')
                        if set(ancestors(bases[0])) & set(ancestors(other)):
                            case.event('world.diamond')
                    except TypeError:
                        pass
        elif roll > 0.9:
            bases = [world.mixin()]
        world.declare(bases)
        if rng.random() < 0.6:
            for cls, names, ids in before:
                case.equal(([f.name for f in cls.real.fields], [id(f) for f in cls.real.fields]), (names, ids), 'unaffected',
                           'declaring a form type changed another', changed=cls.name)
                case.event('unaffected')
        if rng.random() < 0.4:
            judge(case, world, rng.choice(world.classes))
    for cls in world.classes:
        judge(case, world, cls)
    # a name that a derived form uses for something else is no field of it
    cls = rng.choice(world.classes)
    have = members(cls)
    if have:
        gone = rng.choice(have)
        sub = type('Without', (cls.real,), {gone.name: None})
        case.equal([f.name for f in sub.fields], [d.name for d in have if d is not gone], 'deleted', 'a name given to something else', gone=gone.name)
        case.event('world.deleted')
        judge(case, world, cls)
    case.distinct('hierarchy', tuple((tuple(b.name for b in c.bases), tuple(c.own)) for c in world.classes))
    case.sample([(c.name, [b.name for b in c.bases], [(d.name, d.pos) for d in c.own.values()]) for c in world.classes])


def aliased(case):
    """One field that a form has under two names is one field."""
    import pilo
    F, rng = pilo.fields, case.rng
    calls = []

    def default():
        calls.append(1)
        return 'd'

    names = rng.sample(NAMES, rng.randrange(2, 5))
    fields = dict((n, F.Integer(default=0)) for n in names)
    required = rng.random() < 0.5
    shared = fields[names[0]] = F.Field() if required else F.Field(default=default)
    twice = rng.sample(['twin', 'again', 'Zwei', 'b2'], rng.randrange(1, 3))
    body = list(fields.items()) + [(t, shared) for t in twice]
    rng.shuffle(body)
    cls = type('Aliased', (pilo.Form,), dict(body))
    if rng.random() < 0.3:
        cls = type('Derived', (cls,), {'more': F.Integer(default=0)})
        names = names + ['more']
    w = dict(names=names, twice=twice, fields=[f.name for f in cls.fields])
    case.equal([f for f in cls.fields].count(shared), 1, 'aliased', 'a field under two names is not listed once', **w)
    case.equal(len(cls.fields), len(names), 'aliased', 'the number of fields', **w)
    case.expect(shared.name in [names[0]] + twice, 'aliased', 'the name of a field is none of those it has', name=shared.name, **w)
    form = cls()
    errors = form.map({})
    if required:
        case.equal(outcome_errors(errors), [('Missing', shared.src)], 'aliased', 'a field under two names failed otherwise than once', **w)
    else:
        case.equal((outcome_errors(errors), len(calls)), ([], 1), 'aliased', 'a field under two names was not mapped once', **w)
    form = cls()
    case.equal(outcome_errors(form.map({shared.src: 'v'})), [], 'aliased', 'errors', **w)
    case.equal(sum(1 for v in dict.values(form) if v == 'v'), 1, 'aliased', 'not one value', form=dict(form), **w)
    for name in [names[0]] + twice:
        case.equal(getattr(form, name), 'v', 'aliased', 'a name of the field reads something else', name=name, **w)
    case.event('aliased')
    case.distinct('aliased', tuple(names), tuple(twice), required)


def ancestors(cls):
    out = [cls]
    for b in cls.bases:
        out.extend(ancestors(b))
    return out


# ---- clones

def probes():
    return [0, 1, 5, 7, 50, -3, '1', 'a', 'ab', 'abc', 'zz', '', None, True, 1.5, [1], [], [1, 2, 3], {'k': 1}, {}, 'absent']


def behaviour(field_of, tags):
    """What a field does to every probe, in a form of its own."""
    import pilo
    out = []
    cls = type('Probe', (pilo.Form,), {'f': field_of})
    src = cls.f.src
    for p in probes():
        form = cls()
        errors = form.map({} if p == 'absent' else {src: p})
        out.append((canon(dict.get(form, 'f', 'left out')), tuple(outcome_errors(errors))))
    out.append(tuple(sorted(map(str, field_of.tags))))
    out.append(tuple(field_of.has_tag(t) for t in tags))
    return out


def in_form(field, name):
    import pilo
    return type('Holder', (pilo.Form,), {name: field})


def clones(case):
    """Changing a clone, or the original after cloning, changes only that one."""
    import pilo
    F, rng = pilo.fields, case.rng
    kind = rng.choice(['Integer', 'Float', 'String', 'Field', 'List', 'Dict', 'Boolean', 'Decimal'])

    def fresh():
        f = {'List': lambda: F.List(F.Field(), 'f'), 'Dict': lambda: F.Dict(F.Field(), F.Field(), 'f')}.get(kind, lambda: getattr(F, kind)('f'))()
        return f

    def option(f, how):
        """Changes f; returns what kind of change it was."""
        if how == 'default':
            f.options(default=42)
        elif how == 'optional':
            f.options(optional=True)
        elif how == 'nullable':
            f.options(nullable=False)
        elif how == 'ignore':
            f.ignore('a', 5)
        elif how == 'ignore-more':
            f.ignore(1.5, 'zz')
        elif how == 'translate':
            f.translate({'ab': 'AB', 7: 70, 1.5: 2.5})
        elif how == 'translate-more':
            f.translate({'a': 'zz', 50: 51})
        elif how == 'tag':
            f.tag('x', y=1)
        elif how == 'tag-more':
            f.tag('z')
        elif how == 'munge':
            f.munge(lambda self, value: ['munged', value])
        elif how == 'filter':
            f.filter(lambda self, value: value not in ('abc', 0))
        elif how == 'validate':
            f.validate(validate)
        elif how == 'parse':
            f.parse(lambda self, path: 'parsed')
        elif how == 'compute':
            f.compute(lambda self: 'computed')
        elif how == 'min' and hasattr(f, 'min'):
            f.min(2)
        elif how == 'max' and hasattr(f, 'max'):
            f.max(3)
        elif how == 'range' and hasattr(f, 'range'):
            f.range(1, 2)
        elif how == 'constant':
            f.constant('const')
        elif how == 'src':
            f.src = 'g'
        elif how == 'key_filter' and hasattr(f, 'key_filter'):
            f.key_filter(lambda self, key: False)
        elif how == 'default-hook':
            f.default(lambda self: 'hooked')
        else:
            return False
        return True

    def validate(self, value):
        if value in ('ab', 1):
            pilo.ctx.errors.invalid('so')
            return False
        return True

    hooks = ['munge', 'filter', 'validate', 'parse', 'compute', 'default-hook', 'key_filter']
    all_ = ['default', 'optional', 'nullable', 'ignore', 'ignore-more', 'translate', 'translate-more', 'tag', 'tag-more', 'min', 'max', 'range', 'src'] + hooks
    exclusive = [('default', 'optional', 'default-hook')]

    def some(done):
        done, out = list(done), []
        for _ in range(rng.randrange(1, 4)):
            pool = [h for h in all_ if h not in done and not any(h in e and any(d in e for d in done) for e in exclusive)]
            if pool:
                out.append(rng.choice(pool))
                done.append(out[-1])
        return out

    before = rng.random() < 0.7 and some([]) or []
    attached = rng.random() < 0.5

    def prepared(extra):
        """A field that had these changes and never was cloned."""
        f = fresh()
        for how in list(before) + list(extra):
            option(f, how)
        return f

    original = fresh()
    for how in before:
        option(original, how)
    if attached:
        holder = in_form(original, 'f')
        case.event('clone.attached')
    tags = ['x', 'y', 'z', 'w']
    clone = original.clone()
    case.expect(clone is not original and type(clone) is type(original), 'clone-type', 'a clone is of another type')
    changes = {'clone': some(before), 'original': some(before)}
    order = ['clone', 'original']
    rng.shuffle(order)
    if rng.random() < 0.4:
        changes[rng.choice(order)] = []
    for which in order:
        for how in changes[which]:
            if option(clone if which == 'clone' else original, how):
                case.event('clone', 'hook' if how in hooks else 'setter' if how in ('min', 'max', 'range', 'ignore', 'translate', 'tag') else 'option')
    w = dict(kind=kind, before=before, changes=changes, order=order, attached=attached)
    case.equal(behaviour(clone, tags), behaviour(prepared(changes['clone']), tags), 'clone', 'a clone does something else', **w)
    case.event('clone.clone')
    if attached:
        got = []
        for p in probes():
            form = holder()
            errors = form.map({} if p == 'absent' else {holder.f.src: p})
            got.append((canon(dict.get(form, 'f', 'left out')), tuple(outcome_errors(errors))))
        got += [tuple(sorted(map(str, original.tags))), tuple(original.has_tag(t) for t in tags)]
    else:
        got = behaviour(original, tags)
    case.equal(got, behaviour(prepared(changes['original']), tags), 'clone-original', 'changing a clone changed the original', **w)
    case.event('clone.original')
    # a constant derived from an attached field leaves the field
    if kind in ('Integer', 'String', 'Field'):
        f = fresh()
        cls = type('Con', (pilo.Form,), {'f': f})
        sub = type('Sub', (cls,), {'f': cls.f.constant(rng.choice([3, 'c', None]))})
        case.equal(behaviour_of(cls), behaviour_of(type('Con2', (pilo.Form,), {'f': fresh()})), 'constant-original', 'a constant changed the field it came from', kind=kind)
        case.expect(len(set(v for v, e in behaviour_of(sub))) == 1, 'constant', 'a constant depends on the input', kind=kind)
        case.event('clone.constant')
    case.distinct('clone', kind, tuple(before), tuple(changes['clone']), tuple(changes['original']), tuple(order))


def behaviour_of(cls):
    out = []
    for p in probes():
        form = cls()
        errors = form.map({} if p == 'absent' else {'f': p})
        out.append((canon(dict.get(form, 'f', 'left out')), tuple(outcome_errors(errors))))
    return out


def own_hooks(case):
    """Clones of fields whose shorthand hooks belong to the field itself, under other names and keys."""
    import pilo
    F, rng = pilo.fields, case.rng
    kind = rng.choice(['capture', 'capture-named', 'context', 'format', 'constant', 'int-pattern', 'float-pattern'])
    first, second = rng.sample(['aa', 'bb', 'cc', 'dd'], 2)
    pattern = '(?P<{0}>x+)-(?P<{1}>y+)'.format(first, second)

    def make():
        if kind == 'capture':
            return F.String('s').capture(pattern)
        if kind == 'capture-named':
            return F.String('s').capture(pattern, second)
        if kind == 'context':
            return F.String().from_context()
        if kind == 'format':
            return F.String().format('{o}!', o='other')
        if kind == 'constant':
            return F.String().constant('k')
        if kind == 'int-pattern':
            return F.Integer('s').pattern('[0-9]+')
        return F.Float('s').pattern('[0-9.]+')

    original = make()
    attached_first = rng.random() < 0.5
    if not attached_first:
        clone = original.clone()
    One = type('One', (pilo.Form,), {'other': F.String(), first: original})
    if attached_first:
        clone = original.clone()
        if kind == 'context':
            clone.src = second
    Two = type('Two', (pilo.Form,), {'other': F.String(), second: clone})
    fresh = make()
    Three = type('Three', (pilo.Form,), {'other': F.String(), second: fresh})
    text = rng.choice(['xx-yyy', 'x-y', '12ab', '3.5', 'zz', ''])
    data = {'other': 'o', 's': text}
    order = [One, Two, Three]
    rng.shuffle(order)
    got = {}
    for cls in order:
        form = cls()
        with pilo.ctx(**{first: 'ctx-' + first, second: 'ctx-' + second}):
            errors = form.map(data)
        got[cls] = (dict(form), len(errors))
    w = dict(kind=kind, first=first, second=second, attached_first=attached_first, text=text)
    case.equal(got[Two], got[Three], 'own-clone', 'a clone under another name does what the original does under its own', **w)
    again = make()
    Four = type('Four', (pilo.Form,), {'other': F.String(), first: again})
    form = Four()
    with pilo.ctx(**{first: 'ctx-' + first, second: 'ctx-' + second}):
        errors = form.map(data)
    case.equal(got[One], (dict(form), len(errors)), 'own-original', 'cloning a field changed the original', **w)
    if kind == 'capture' and text.startswith('x'):
        case.equal(got[Two][0].get(second), text.split('-')[1 if second in pattern.split('-')[1] else 0], 'own-capture', 'the group a clone captures', **w)
    case.event('clone.own')
    case.distinct('own', kind, first, second, text, attached_first)


def computed(case):
    """Fields that need no key keep their place in the order, and their position among positional input."""
    import pilo
    F, rng = pilo.fields, case.rng
    names = rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'], rng.randrange(2, 8))
    kinds, log, body = [], [], {}

    def logging(name, kind):
        def hook(self, *args):
            log.append(name)
            return args[0] if args else {'compute': 'made', 'default': 'dflt'}[kind]
        return {'compute': lambda self: hook(self), 'default': lambda self: hook(self), 'munge': lambda self, value: hook(self, value)}[kind]

    for name in names:
        kind = rng.choice(['plain', 'plain', 'constant', 'type', 'compute', 'context', 'format', 'default'])
        if kind == 'plain':
            f = F.Field()
            f.munge(logging(name, 'munge'))
        elif kind == 'constant':
            f = F.Field().constant('const')
        elif kind == 'type':
            f = F.Type.constant('typed')
        elif kind == 'compute':
            f = F.Field()
            f.compute(logging(name, 'compute'))
        elif kind == 'context':
            f = F.String(default='none').from_context()
        elif kind == 'format':
            f = F.String().format('{0}-fixed'.format(name))
        else:
            f = F.Field()
            f.munge(logging(name, 'munge'))
            f.default(logging(name, 'default'))
        kinds.append((name, kind))
        body[name] = f
        case.event('computed.' + kind)
        # what else is made meanwhile, forms as well, does not matter
        for _ in range(rng.choice([0, 0, 0, 1, 30, 3000, 20000 if rng.random() < 0.1 else 2])):
            pilo.Form()
    items = list(body.items())
    rng.shuffle(items)
    cls = type('Computed', (pilo.Form,), dict(items))
    w = dict(kinds=kinds)
    case.equal([f.name for f in cls.fields], names, 'computed-order', 'the order of the fields', **w)
    n = rng.choice([len(names), len(names), rng.randrange(len(names) + 1)])
    given = ['v%d' % i for i in range(len(names))]
    for way in ('positional', 'keys'):
        want, errors, ran = [], [], []
        for i, (name, kind) in enumerate(kinds):
            if kind in ('plain', 'default'):
                ran.append(name)
                if i < n:
                    want.append((name, given[i]))
                elif kind == 'default':
                    want.append((name, 'dflt'))
                else:
                    ran.pop()
                    errors.append(('Missing', name))
            else:
                if kind == 'compute':
                    ran.append(name)
                want.append((name, {'constant': 'const', 'type': 'typed', 'compute': 'made', 'context': 'none', 'format': name + '-fixed'}[kind]))
        log[:] = []
        form = cls()
        got = form.map(rng.choice([list, tuple])(given[:n]) if way == 'positional' else dict(zip(names[:n], given)))
        case.equal((list(dict.items(form)), outcome_errors(got)), (want, errors), 'computed-' + way, 'the values of the fields', n=n, **w)
        case.equal(log, ran, 'computed-' + way, 'the fields were mapped in another order', n=n, **w)
    case.distinct('computed', tuple(kinds), n)


WORKLOADS = [
    ('own-hooks', own_hooks, 300, 5000),
    ('computed', computed, 200, 5000),
    ('hierarchy', hierarchy, 1200, 30000),
    ('aliased', aliased, 150, 3000),
    ('clones', clones, 1500, 40000),
    ('many', many.declared, 150, 3000),
]
