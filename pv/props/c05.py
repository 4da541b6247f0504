"""C05: every failure is reported exactly once, with its exact location."""
import datetime
import decimal

from .. import many, engine, spec
from ..gen import Gen
from ..spec import outcome_errors

ID = 'C05'
RULE = 'distinct (form shape, error list)'
REQUIRED = ['judged', 'error.Missing', 'error.Invalid', 'constructor.raised', 'constructor.built', 'raising.raised',
            'raising.returned', 'clean', 'reason', 'classes.raised', 'classes.Lacks', 'classes.Refused', 'classes.Bare']


def gen(case, **kw):
    o = dict(depth=2, hooks=0.06, steps=['munge', 'filter', 'validate', 'parse', 'compute'], width=4, bad=0.3, absent=0.2,
             null=0.05, defaults=0.2, constraints=0.5)
    o.update(kw)
    return Gen(case.rng, **o)


def check(case, form, data, kind):
    import pilo
    r = engine.run(form, data, kind)
    engine.judge(case, r, ('values', 'errors'))
    case.expect(isinstance(r.got[1], list), 'errors-list', 'a collecting mapping returns a list', got=r.got[1])
    if not r.model.errors:
        case.event('clean')
    # constructing
    src, _, prefix = engine.source_for(kind, data, pilo)
    try:
        built = r.cls(src)
    except pilo.fields.FormError as ex:
        case.event('constructor', 'raised')
        case.equal(outcome_errors(ex.field_errors), r.model.errors, 'constructor-errors',
                   'the exception of the constructor carries other errors', **engine.witness(r))
        case.expect(isinstance(ex, ValueError), 'constructor-type', 'not a ValueError')
        for e, (_, where) in zip(ex.field_errors, r.model.errors):
            case.equal(str(e.path), where, 'constructor-path', 'path of a constructor error', **engine.witness(r))
            case.expect(where in str(ex), 'constructor-message', 'a location is missing from the message', text=str(ex))
    else:
        case.event('constructor', 'built')
        case.expect(not r.model.errors, 'constructor-silent', 'the constructor accepted failing input', **engine.witness(r))
        case.equal(spec.canon(built), spec.canon(r.want[1]), 'constructor-values', 'the constructed form differs',
                   **engine.witness(r))
    # raising
    form_obj = r.cls()
    try:
        src, _, prefix = engine.source_for(kind, data, pilo)
        got = form_obj.map(src, error='raise')
    except pilo.fields.FormError as ex:
        case.event('raising', 'raised')
        case.expect(bool(r.model.errors), 'raising-alarm', 'raising mode raised although nothing failed', **engine.witness(r))
        case.equal(outcome_errors(ex.field_errors)[0], r.model.errors[0], 'raising-first', 'raising mode reports another first error',
                   **engine.witness(r))
    else:
        case.event('raising', 'returned')
        case.expect(not r.model.errors, 'raising-silent', 'raising mode returned although something failed', **engine.witness(r))
        case.expect(got is form_obj, 'raising-result', 'raising mode returns the form')
        case.equal(spec.canon(got), spec.canon(r.want[1]), 'raising-values', 'raising mode maps other values', **engine.witness(r))
    case.sample((form, data, r.model.errors))


def native(case):
    form = gen(case).form().number()
    g = gen(case)
    for _ in range(2):
        check(case, form, g.form_data(form), case.rng.choice(['native', 'default', 'located']))


def json_sources(case):
    g = gen(case, native=False)
    form = g.form().number()
    for _ in range(2):
        check(case, form, g.form_data(form), case.rng.choice(['strict', 'lenient', 'json-located']))


def deep(case):
    """Deeper nesting, few failures: long locations."""
    g = gen(case, depth=4, width=2, bad=0.06, absent=0.08, hooks=0.0, share=False)
    form = g.form().number()
    check(case, form, g.form_data(form), case.rng.choice(['native', 'located']))


def mostly_valid(case):
    g = gen(case, depth=2, width=3, bad=0.02, absent=0.03, null=0.01, hooks=0.0, constraints=0.2)
    form = g.form().number()
    for _ in range(2):
        check(case, form, g.form_data(form), 'native')


def after(case):
    """Paths and messages of kept errors do not move with later mappings."""
    g = gen(case, depth=2)
    form = g.form().number()
    kept = []
    for _ in range(4):
        r = engine.run(form, g.form_data(form))
        if not engine.judge_outcome(case, r):
            continue
        engine.judge_errors(case, r)
        kept.append((r.got[1], r.model.errors))
    for errors, want in kept:
        case.equal(outcome_errors(errors), want, 'kept-errors', 'kept errors changed')
        case.equal([str(e.path) for e in errors], [w for _, w in want], 'kept-paths', 'paths of kept errors changed')


def polymorphic(case):
    """Locations of errors below polymorphic forms."""
    import pilo
    F = pilo.fields
    rng = case.rng

    class Animal(pilo.Form):
        kind = F.Type.abstract()
        name = F.String()

    class Dog(Animal):
        kind = F.Type.constant('dog')
        legs = F.Integer().min(4)

    class Fish(Animal):
        kind = F.Type.instance('fish')
        fins = F.List(F.Integer())

    class Zoo(pilo.Form):
        star = F.PolymorphicSubForm(Animal.kind, default=None)
        all = F.List(F.PolymorphicSubForm(Animal.kind), default=[])
        by = F.Dict(F.String(), F.PolymorphicSubForm(Animal.kind), default={})

    def animal(where, want):
        roll = rng.randrange(5)
        if roll == 0:
            want.append(('Invalid', where))
            return {'kind': rng.choice(['cow', '', 'Dog'])}
        out = {}
        if rng.random() < 0.7:
            out['name'] = 'n'
            bad_name = None
        else:
            bad_name = rng.choice(['Missing', 'Invalid'])
            if bad_name == 'Invalid':
                out['name'] = 5
        errs = []
        if roll in (1, 2):
            out['kind'] = 'dog'
            out['legs'] = rng.choice([4, 5, 3, '4', 'x'])
            bad = out['legs'] in (3, 'x')
            if bad_name:
                errs.append((bad_name, where + '.name'))
            if bad:
                errs.append(('Invalid', where + '.legs'))
        else:
            out['kind'] = 'fish'
            out['fins'] = [rng.choice([1, 'x', 2]) for _ in range(3)]
            if bad_name:
                errs.append((bad_name, where + '.name'))
            errs.extend(('Invalid', where + '.fins[{0}]'.format(i)) for i, v in enumerate(out['fins']) if v == 'x')
        want.extend(errs)
        return out

    want, data = [], {}
    if rng.random() < 0.6:
        data['star'] = animal('star', want)
    if rng.random() < 0.6:
        data['all'] = [animal('all[{0}]'.format(i), want) for i in range(rng.randrange(3))]
    if rng.random() < 0.6:
        data['by'] = dict((k, animal('by.' + k, want)) for k in rng.sample(['p', 'q', 'r'], rng.randrange(3)))
    errors = Zoo().map(data)
    case.equal(outcome_errors(errors), want, 'polymorphic-errors', 'errors below polymorphic forms', data=data)
    case.equal([str(e.path) for e in errors], [w for _, w in want], 'polymorphic-paths', 'their paths', data=data)
    case.distinct(tuple(want))


def reasons(case):
    """What an error says: where, and which value broke which bound."""
    import pilo
    F = pilo.fields
    rng = case.rng
    n, m = rng.randrange(3, 90), rng.randrange(100, 900)
    word = ''.join(rng.choice('abcdefgh') for _ in range(n % 9 + 2))
    day = datetime.date(2000, 1, 1) + datetime.timedelta(n)
    choices = ['k{0}'.format(i) for i in rng.sample(range(50), rng.randrange(1, 4))]
    refused = [
        ('string', F.String(), n, [n]),
        ('integer', F.Integer(), word, [word]),
        ('float', F.Float(), word, [word]),
        ('boolean', F.Boolean(), word, [word]),
        ('decimal', F.Decimal(), word, [word]),
        ('null', F.String(nullable=False), None, ['null']),
        ('min-length', F.String(min_length=n + 20), word, [word, n + 20]),
        ('max-length', F.String(max_length=1), word, [word, 1]),
        ('pattern', F.String(pattern='z{0}'.format(n)), word, [word, 'z{0}'.format(n)]),
        ('choices', F.String(choices=choices), word, [word] + choices),
        ('alphabet', F.String(alphabet='abcdefgh'), word + 'X-', ['X', '-']),
        ('min', F.Integer().min(m), n, [n, m]),
        ('max', F.Integer().max(n), m, [n, m]),
        ('max-float', F.Float().max(n), m + .5, [n, m + .5]),
        ('min-decimal', F.Decimal().min(decimal.Decimal(m)), str(n), [n, m]),
        ('after', F.Date(format='%Y-%m-%d').after(day), '1999-12-31', [day]),
        ('before', F.Date(format='%Y-%m-%d').before(day), '2999-12-31', [day]),
        ('date', F.Date(format='%Y-%m-%d'), word, [word]),
        ('time', F.Time(format='%H:%M'), word, [word]),
        ('datetime', F.Datetime(format='%Y'), word, [word]),
        ('tuple', F.Tuple((F.Integer(), F.Integer())), [1] * n, [2]),
        ('list-min', F.List(F.Integer(), min_length=m), [n], [m]),
        ('list-max', F.List(F.Integer(), max_length=n), [1] * (n + 1), [n]),
        ('dict-max', F.Dict(F.String(), F.Integer(), max_keys=2), dict((c + word, 1) for c in 'xyz'), [2]),
        ('dict-required', F.Dict(F.String(), F.Integer(), required_keys=['q', word]), {'q': 1}, [word]),
        ('sequence', F.List(F.Integer()), word, ['sequence']),
        ('mapping', F.Dict(F.String(), F.Integer()), word, ['mapping']),
        ('code', F.Code(), word + ' ' + word, [word + ' ' + word]),
    ]
    picked = [refused[i] for i in sorted(rng.sample(range(len(refused)), rng.randrange(1, 6)))]
    Shelf = type('Shelf', (pilo.Form,), dict((name.replace('-', '_'), field) for name, field, _, _ in picked))

    class Case(pilo.Form):
        plain = F.SubForm(Shelf, default=None)
        many = F.List(F.SubForm(Shelf), default=[])

    row = dict((name.replace('-', '_'), value) for name, _, value, _ in picked)
    if rng.random() < 0.5:
        data, where = {'plain': row}, 'plain.'
    else:
        data, where = {'many': [row]}, 'many[0].'
    errors = Case().map(data)
    case.equal([str(e.path) for e in errors], [where + name.replace('-', '_') for name, _, _, _ in picked],
               'reason-paths', 'the locations of the failures', data=data)
    for e, (name, _, value, parts) in zip(errors, picked):
        case.equal(str(e), '{0} - {1}'.format(e.path, e.violation), 'reason-text', 'the text of an error', name=name, data=data)
        for part in parts:
            case.expect(str(part) in str(e.violation), 'reason-names', 'the reason leaves out what was refused',
                        name=name, value=value, part=str(part), text=str(e))
        case.event('reason')
        case.distinct('reason', name)


def classes(case):
    """The classes of errors the context names are what fails is reported as, everything else being the same."""
    import pilo
    rng = case.rng
    g = gen(case)
    form = g.form().number()
    kind = rng.choice(['native', 'default', 'located', 'strict', 'lenient'])
    if kind in ('strict', 'lenient'):
        g.native = False
    made = []

    class Lacks(pilo.Missing):
        pass

    class Refused(pilo.Invalid):
        def __init__(self, field, violation):
            super(Refused, self).__init__(field, violation)
            self.also = ('seen', violation)

    class Bare(pilo.FieldError):
        def __init__(self, field, violation='nothing there'):
            super(Bare, self).__init__('{0} - {1}'.format(field.ctx.src_path, violation), field)

    def function(field, violation=None):
        made.append(field)
        return pilo.Missing(field) if violation is None else pilo.Invalid(field, violation)

    named = {}
    if rng.random() < 0.8:
        named['Missing'] = rng.choice([Lacks, Bare, function])
    if rng.random() < 0.8:
        named['Invalid'] = rng.choice([Refused, Bare, function])
    for _ in range(2):
        data = g.form_data(form)
        r = engine.run(form, data, kind)
        if r.got[0] != 'ok':
            continue
        w = dict(named=sorted((k, v.__name__) for k, v in named.items()), **engine.witness(r))
        as_named = lambda k: {Lacks: 'Lacks', Refused: 'Refused', Bare: 'Bare'}.get(named.get(k), k)
        want = [(as_named(k), where) for k, where in r.model.errors]
        src, _, _ = engine.source_for(kind, data, pilo)
        made[:] = []
        with pilo.ctx(**named):
            got, errors = spec.real_root(r.cls, src)
        if errors[0] != 'ok':
            case.fail('classes-raised', 'mapping with own classes of errors raised', got=errors, **w)
        errors = errors[1]
        case.equal(outcome_errors(errors), want, 'classes', 'what is reported with own classes of errors', **w)
        case.equal([str(e.path) for e in errors], [where for _, where in want], 'classes-path', 'the location of an error of an own class', **w)
        case.expect([e.field for e in errors] == [e.field for e in r.got[1]], 'classes-field', 'the field of an error of an own class', **w)
        case.expect([str(e) for e, n in zip(errors, want) if n[0] != 'Bare'] == [str(e) for e, n in zip(r.got[1], want) if n[0] != 'Bare'], 'classes-text',
                    'the text of an error of an own class', **w)
        case.expect(all(e.also == ('seen', e.violation) for e in errors if isinstance(e, Refused)), 'classes-violation', 'the violation of an error of an own class', **w)
        case.equal(len(made), sum(1 for k, _ in r.model.errors if named.get(k) is function), 'classes-made', 'how often an error was made', **w)
        case.equal(spec.canon(got), spec.canon(r.form), 'classes-values', 'own classes of errors change the values', **w)
        src, _, _ = engine.source_for(kind, data, pilo)
        try:
            with pilo.ctx(**named):
                r.cls(src)
        except pilo.fields.FormError as ex:
            case.equal(outcome_errors(ex.field_errors), want, 'classes-constructor', 'what a constructor reports with own classes of errors', **w)
            case.event('classes.raised')
        else:
            case.equal(want, [], 'classes-constructor', 'what a constructor reports with own classes of errors', **w)
        for k, _ in want:
            case.event('classes', k)
        case.distinct('classes', tuple(sorted(named)), form.shape(), tuple(want))


WORKLOADS = [
    ('classes', classes, 600, 15000),
    ('native', native, 2000, 50000),
    ('json', json_sources, 1200, 30000),
    ('deep', deep, 600, 15000),
    ('mostly-valid', mostly_valid, 1000, 25000),
    ('after', after, 500, 10000),
    ('polymorphic', polymorphic, 600, 15000),
    ('reasons', reasons, 600, 15000),
    ('many', many.errors, 150, 3000),
]
