"""C06: absent, null, ignored and filtered inputs follow the default rules."""
import functools
import itertools

from .. import many, engine, spec
from ..gen import Gen

ID = 'C06'
RULE = 'distinct (field declaration, input, context flags); for random forms (form shape, error list, hook calls)'
REQUIRED = ['judged', 'error.Missing', 'error.Invalid', 'hook.default', 'default.called', 'flags.ignore_default',
            'flags.ignore_missing', 'nothing.map()', 'nothing.map(None)']

DEFAULTS = [None, ('literal', 5), ('literal', 'text'), ('literal', None), ('literal', ''), ('literal', ['x']), ('callable', 7),
            ('callable', None), ('callable', []), ('callable-none', None), ('none', None), ('optional', None), ('hook', 'const:0'), ('hook', 'const:3'),
            ('hook', 'none')]
CAUSES = ['absent', 'null', 'ignored', 'filtered', 'munged', 'parsed-none', 'computed-none', 'present', 'wrong', 'bare-filter']
FLAGS = [{}, {'ignore_default': True}, {'ignore_missing': True}, {'ignore_default': True, 'ignore_missing': True}]
KINDS = ['Any', 'String', 'Integer', 'Boolean', 'Date', 'List', 'Tuple', 'Dict', 'SubForm', 'Group']
GOOD = {'Any': 'v', 'String': 'v', 'Integer': 3, 'Boolean': True, 'Date': '2015-03-09', 'List': ['v'], 'Tuple': ['v'], 'Dict': {'k': 'v'},
        'SubForm': {'a': 'v'}, 'Group': {'a': 'v'}}
WRONG = {'Any': None, 'String': 5, 'Integer': 'x', 'Boolean': 'maybe', 'Date': 'x', 'List': 'x', 'Tuple': 5, 'Dict': [1], 'SubForm': 5,
         'Group': 5}


def make(kind, **o):
    if kind == 'List':
        return spec.ListF(spec.StringF(), **o)
    if kind == 'Tuple':
        return spec.TupleF([spec.StringF()], **o)
    if kind == 'Dict':
        return spec.DictF(spec.StringF(), spec.AnyF(), **o)
    if kind == 'SubForm':
        return spec.SubFormF(spec.Form('G', {'a': spec.StringF()}), **o)
    if kind == 'Group':
        return spec.GroupF([('a', spec.StringF())], **o)
    return getattr(spec, kind + 'F')(**o)


TABLE = list(itertools.product(KINDS, CAUSES, range(len(DEFAULTS))))


def table(case):
    """Every kind of field, cause and default, under every setting of the flags."""
    kind, cause, d = TABLE[case.index % len(TABLE)]
    if kind == 'Group' and (DEFAULTS[d] or ('',))[0] == 'hook':
        return
    for flags in FLAGS:
        for nullable in (None, False):
            o, hooks, data = {'nullable': nullable}, {}, {}
            if DEFAULTS[d] is not None:
                o['default'] = DEFAULTS[d]
                if DEFAULTS[d] == ('literal', None) and nullable is False:
                    continue
                if o['default'][0] == 'hook':
                    hooks['default'] = o['default'][1]
                    o['default'] = ('hook', None)
            if cause not in ('absent', 'computed-none'):
                data['v'] = GOOD[kind]
            if cause == 'null':
                data['v'] = None
            if cause == 'wrong':
                data['v'] = WRONG[kind]
            if cause == 'ignored':
                if kind not in ('Any', 'String', 'Integer'):
                    continue
                o['ignore'] = ['other', GOOD[kind]]
            if cause == 'filtered':
                hooks['filter'] = 'false'
            if cause == 'bare-filter':
                hooks['filter'] = 'true'
            if cause == 'munged':
                hooks['munge'] = 'none'
            if cause == 'parsed-none':
                hooks['parse'] = 'none'
            if cause == 'computed-none':
                hooks['compute'] = 'none'
            field = make(kind, hooks=hooks, chain=case.rng.random() < 0.5, **o)
            if kind == 'Group':
                # a group reads the mapping it stands in
                form = spec.Form('F', {'n': spec.SubFormF(spec.Form('H', {'g': field}))}).number()
                data = {'n': data.get('v', {})} if not isinstance(data.get('v', {}), int) else {'n': {'a': 5}}
            else:
                form = spec.Form('F', {'v': field, 'other': spec.StringF(default=('literal', 'o'))}).number()
            check(case, form, data, flags)


def check(case, form, data, flags, kind='native'):
    r = engine.run(form, data, kind, ctx_vars=flags)
    for k in flags:
        case.event('flags', k)
    for _ in r.model.default_calls:
        case.event('default', 'called')
    engine.judge(case, r, ('values', 'errors', 'defaults', 'trace'))
    case.distinct(form.describe(), repr(data), tuple(sorted(flags)))
    case.sample((form, data, flags, r.form))
    return r


def random_forms(case):
    g = Gen(case.rng, depth=2, hooks=0.15, steps=['munge', 'filter', 'parse', 'compute', 'default'], width=4, bad=0.1, absent=0.3,
            null=0.15, defaults=0.7, ignores=0.4, constraints=0.2, nullables=0.5)
    form = g.form().number()
    for _ in range(3):
        check(case, form, g.form_data(form), case.rng.choice(FLAGS + [{}] * 4))


def random_json(case):
    g = Gen(case.rng, depth=2, hooks=0.15, steps=['munge', 'filter', 'parse', 'compute', 'default'], width=4, bad=0.1, absent=0.3,
            null=0.15, defaults=0.7, ignores=0.4, constraints=0.2, nullables=0.5, native=False)
    form = g.form().number()
    for _ in range(2):
        check(case, form, g.form_data(form), case.rng.choice(FLAGS + [{}] * 4), case.rng.choice(['strict', 'lenient']))


class Factory(object):
    """Other kinds of callables."""

    def __init__(self, func):
        self.func = func

    def __call__(self):
        return self.func()

    def make(self):
        return self.func()

    @classmethod
    def of(cls, func):
        return type('Own', (cls,), {'it': classmethod(lambda own: func())}).it


def identity(case):
    """A literal default is used as it is; nothing parses, munges or validates it."""
    import pilo
    F = pilo.fields
    marker = case.rng.choice([object(), [1], {'a': 1}, 'text', 99, 1.5, (1,), 10 ** 30])
    calls = []

    def factory():
        calls.append(1)
        return marker

    for how in ('literal', 'callable', 'hook', 'class'):
        for make_field in (lambda **o: F.Integer(**o).range(1, 2), lambda **o: F.String(choices=['a'], **o),
                           lambda **o: F.List(F.Integer(), min_length=3, **o), lambda **o: F.Date(**o),
                           lambda **o: F.Field(ignore='x', **o), lambda **o: F.UUID(**o), lambda **o: F.Code(**o),
                           lambda **o: F.Dict(F.String(), F.Field(), required_keys=['z'], **o)):
            o = {}
            if how == 'literal':
                o = {'default': marker}
            elif how == 'callable':
                o = {'default': case.rng.choice([factory, lambda: factory(), functools.partial(factory), Factory(factory), Factory(factory).make, Factory.of(factory)])}
            elif how == 'class':
                o = {'default': list}
            field = make_field(**o)
            if how == 'hook':
                field.default(lambda self: factory())
            touched = []

            class A(pilo.Form):
                v = field
                w = F.String()

            @A.v.munge
            def munge(self, value):
                touched.append('munge')
                return value

            @A.v.filter
            def flt(self, value):
                touched.append('filter')
                return True

            @A.v.validate
            def validate(self, value):
                touched.append('validate')
                return True

            del calls[:]
            form = A()
            errors = form.map({'w': 'x'})
            case.expect(not errors, 'default-error', 'using a default reported an error', how=how, errors=errors, marker=marker)
            if how == 'class':
                case.equal(form.get('v'), [], 'default-class', 'a type as default is called', how=how)
            else:
                case.expect(dict.get(form, 'v') is marker, 'default-identity', 'a default was changed', how=how, marker=marker, got=dict(form))
            case.equal(touched, [], 'default-steps', 'steps ran on a default', how=how)
            if how in ('callable', 'hook'):
                case.equal(len(calls), 1, 'default-count', 'a default was called more than once', how=how)
            first = dict.get(form, 'v')
            form2 = A()
            form2.map({'w': 'x'})
            if how == 'class':
                case.expect(dict.get(form2, 'v') is not first, 'default-fresh', 'a called default is called for each need')
            case.distinct('identity', how, type(field).__name__, repr(type(marker)))


def nothing(case):
    """Mapping without a source is mapping nothing: every input is absent."""
    import pilo
    rng = case.rng
    g = Gen(rng, depth=2, hooks=0.15, steps=['munge', 'filter', 'parse', 'compute', 'default', 'validate'], width=4, defaults=0.7)
    form = g.form().number()
    flags = rng.choice(FLAGS)
    r = check(case, form, {}, flags)
    if r.got[0] != 'ok':
        return
    want = (spec.canon(r.form), spec.outcome_errors(r.got[1]), list(r.trace), list(r.default_calls))
    for how in ('map()', 'map(None)', 'empty'):
        r.builder.trace[:], r.builder.default_calls[:] = [], []
        again = r.cls()
        with pilo.ctx(**flags):
            errors = again.map() if how == 'map()' else again.map(None) if how == 'map(None)' else again.map(pilo.DefaultSource({}))
        got = (spec.canon(again), spec.outcome_errors(errors), list(r.builder.trace), list(r.builder.default_calls))
        case.equal(got, want, 'nothing', 'mapping without a source differs from mapping nothing', form=form, how=how, flags=flags)
        case.event('nothing', how)


WORKLOADS = [
    ('table', table, len(TABLE), len(TABLE)),
    ('random', random_forms, 2000, 50000),
    ('random-json', random_json, 1000, 30000),
    ('identity', identity, 60, 600),
    ('nothing', nothing, 500, 10000),
    ('many', many.rules, 150, 3000),
]
