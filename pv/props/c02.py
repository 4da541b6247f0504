"""C02: declared constraints admit exactly the conforming values."""
import decimal
import itertools
import re

from .. import many, engine, spec
from ..gen import Gen, WORDS

ID = 'C02'
RULE = 'distinct (declaration, input, verdict) for sweeps; distinct (form shape, error list) for random forms'
REQUIRED = ['judged', 'verdict.accepted', 'verdict.rejected', 'error.Invalid']

KINDS = ['String', 'Integer', 'Float', 'Decimal', 'Field', 'Boolean', 'List', 'Dict', 'Tuple', 'SubForm']


def one(case, field, value, kind='native', mechanism='constraint'):
    """Maps one field over one value and compares with the declared constraints."""
    form = spec.Form('F', {'v': field}).number()
    r = engine.run(form, {'v': value}, kind)
    case.expect(r.got[0] == 'ok', mechanism + '-raised', 'mapping raised', field=field, value=value, got=r.got)
    accepted = 'v' in r.want[1].values
    case.event('verdict', 'accepted' if accepted else 'rejected')
    case.expect(('v' in r.form) == accepted, mechanism,
                'the value should be {0}'.format('accepted' if accepted else 'rejected'),
                field=field, value=value, form=dict(r.form), errors=[str(e) for e in r.got[1]])
    engine.judge_values(case, r, mechanism + '-value')
    engine.judge_errors(case, r, mechanism + '-errors')
    case.distinct(field.describe(), field.chain, repr(value), kind, accepted)


NUMBERS = {
    'Integer': [-2, -1, 0, 1, 2, 3, 10, 2 ** 70],
    'Float': [-1.5, -1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 2.0, 2.0000001, float('inf'), float('-inf'), float('nan')],
    'Decimal': [decimal.Decimal(t) for t in ('-1', '-0.001', '0', '0.001', '1', '1.0', '1.001', '2', 'NaN', 'Infinity')],
}
BOUNDS = {
    'Integer': [None, -1, 0, 1, 2],
    'Float': [None, -1.0, 0, 0.5, 2.0],
    'Decimal': [None, decimal.Decimal('0'), 1, decimal.Decimal('1.001')],
}
NUMBER_DECLS = [
    (kind, lo, hi, chain, both)
    for kind in ('Integer', 'Float', 'Decimal')
    for lo in BOUNDS[kind] for hi in BOUNDS[kind]
    for chain, both in ((False, False), (False, True), (True, False), (True, True))
]


def numbers(case):
    """Every small declaration of bounds, every value on and next to them."""
    kind, lo, hi, chain, both = NUMBER_DECLS[case.index % len(NUMBER_DECLS)]
    for v in NUMBERS[kind]:
        f = getattr(spec, kind + 'F')(chain=chain, lo=lo, hi=hi, both=both)
        one(case, f, v)
        if kind == 'Float' and v == v and abs(v) < 1e9:
            one(case, spec.FloatF(chain=chain, lo=lo, hi=hi, both=both), v, 'strict')
        if kind == 'Integer':
            one(case, spec.IntegerF(chain=chain, lo=lo, hi=hi, both=both), v, 'lenient')


TEXTS = ['', 'a', 'b', 'ab', 'ba', 'abc', 'bbb', 'aé', 'éé', 'x', 'a\n', '\n', '12', '123', 'A', 'ab ', '😀', '😀a',
         'a' * 40, 'ab' * 50 + 'c', 'b' * 200 + 'é', ('a' * 70) + '1' + 'a' * 70]
TEXT_DECLS = (
    [{'length': n} for n in (0, 1, 2, 3)] +
    [{'length': p} for p in ((0, 0), (0, 1), (1, 2), [2, 3], (3, 3), (None, 2), [2, None], (2, 1), (None, None))] +
    [{'min_length': n} for n in (0, 1, 2, 3)] +
    [{'max_length': n} for n in (0, 1, 2, 3)] +
    [{'min_length': 1, 'max_length': 2}, {'min_length': 2, 'max_length': 2}, {'min_length': 3, 'max_length': 1}] +
    [{'pattern': p, 'compiled': c} for p in (r'a', r'a$', r'[ab]+$', r'\d+', r'.*c', r'^$|b', r'\w', r'(?i)A') for c in (True, False)] +
    [{'pattern': re.compile(p, flags)} for p, flags in ((r'A', re.I), (r'[ab]+$', re.I), (r'a b c', re.X), (r'a.$', re.S), (r'\w+$', re.A), (r'.*\n^1', re.M), (r'É', re.I))] +
    [{'alphabet': a} for a in ('a', 'ab', 'abc é', ['a', 'b'], ('1', '2', '3'))] +
    [{'choices': c} for c in (['a'], ['a', 'b'], ['', 'ab'], ['A', 'é'], ('a', 'b'), ('ab',), {'a': 1, 'ab': 2}, frozenset(['b', 'ab']))] +
    [{'choices': ['a', 'b'], 'max_length': 1}, {'alphabet': 'ab', 'min_length': 2}, {'pattern': 'a', 'length': 2},
     {'max_length': 40}, {'min_length': 41}, {'alphabet': 'ab', 'max_length': 150}, {'pattern': 'a{50}', 'alphabet': 'abc'},
     {'choices': ['a', 'b' * 200 + 'é']}, {'pattern': r'[ab]+$', 'choices': ['ab', 'a', 'x']},
     {'alphabet': 'abc', 'pattern': 'b', 'max_length': 2, 'choices': ['b', 'ba', 'bb', 'bcb']}]
)


def texts(case):
    decl = TEXT_DECLS[case.index % len(TEXT_DECLS)]
    for v in TEXTS:
        one(case, spec.StringF(**dict(decl)), v)
        one(case, spec.StringF(translate={'x': 'ab', '12': 'b'}, **dict(decl)), v)
        one(case, spec.StringF(translate={'a': 'Q'}, nullable=False, **dict(decl)), v, 'strict')


def nulls(case):
    """Nullability of every kind of field."""
    for kind in ('Any', 'String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID', 'List', 'Tuple', 'Dict', 'SubForm'):
        for nullable, default in itertools.product((None, True, False), (None, ('literal', None), ('literal', 5), ('none', None))):
            if nullable is False and default == ('literal', None):
                continue
            for chain in (False, True):
                o = dict(nullable=nullable, default=default, chain=chain)
                if kind == 'List':
                    f = spec.ListF(spec.StringF(), lo=1, **o)
                elif kind == 'Tuple':
                    f = spec.TupleF([spec.StringF()], **o)
                elif kind == 'Dict':
                    f = spec.DictF(spec.StringF(), spec.AnyF(), required_keys=['a'], **o)
                elif kind == 'SubForm':
                    f = spec.SubFormF(spec.Form('G', {'a': spec.StringF()}), **o)
                elif kind == 'String':
                    f = spec.StringF(choices=['a'], **o)
                elif kind in ('Integer', 'Float', 'Decimal'):
                    f = getattr(spec, kind + 'F')(lo=1, hi=4, **o)
                else:
                    f = getattr(spec, kind + 'F')(**o)
                one(case, f, None, case.rng.choice(['native', 'strict', 'lenient']))


SIZES = [(lo, hi) for lo in (None, 0, 1, 2) for hi in (None, 0, 1, 2, 3)]


def sizes(case):
    """Item counts and keys."""
    lo, hi = SIZES[case.index % len(SIZES)]
    for n in range(5):
        for both, chain, bad in itertools.product((False, True), (False, True), (0, 1)):
            data = ['a'] * n
            for _ in range(bad):
                data.insert(case.rng.randrange(n + 1), '')
            # ignored items do not count
            one(case, spec.ListF(spec.StringF(ignore=[''], default=('none', None)), lo=lo, hi=hi, both=both, chain=chain), data)
            # nor do failing ones
            one(case, spec.ListF(spec.StringF(min_length=1), lo=lo, hi=hi, both=both, chain=chain), data)
        one(case, spec.ListF(spec.StringF(), lo=lo, hi=hi, allow_field=True), 'a')
    # a required key is of the type the keys are mapped to
    for key, data in ((spec.IntegerF(), {'1': 'x', '2': 'y'}), (spec.StringF(), {'1': 'x', '2': 'y'})):
        for required in ([1], ['1'], [1, 2], ['1', 2], [1, '1'], ['2', '1'], [3]):
            for as_set in (True, False):
                one(case, spec.DictF(key, spec.StringF(), required_keys=required, as_set=as_set), data)
    keys = ['a', 'b', 'c']
    for required in ([], ['a'], ['a', 'b'], ['c', 'a']):
        for as_set in (True, False):
            for n in range(8):
                data = dict((k, 1) for i, k in enumerate(keys) if n >> i & 1)
                one(case, spec.DictF(spec.StringF(), spec.IntegerF(), required_keys=required, max_keys=hi, as_set=as_set), data)
                data['a'] = 'not a number'
                one(case, spec.DictF(spec.StringF(), spec.IntegerF(), required_keys=required, max_keys=hi, as_set=as_set), data)


def random_forms(case):
    g = Gen(case.rng, depth=2, hooks=0.0, constraints=0.9, kinds=KINDS, bad=0.08, absent=0.05, width=4, ignores=0.05,
            odd_keys=True)
    form = g.form().number()
    for _ in range(3):
        r = engine.run(form, g.form_data(form), case.rng.choice(['native', 'native', 'located']))
        engine.judge(case, r, ('values', 'errors'))
    case.sample((form, r.data, r.model.errors))


def random_json(case):
    g = Gen(case.rng, depth=2, hooks=0.0, constraints=0.9, kinds=KINDS, bad=0.08, absent=0.05, width=4, native=False)
    form = g.form().number()
    for _ in range(3):
        r = engine.run(form, g.form_data(form), case.rng.choice(['strict', 'lenient']))
        engine.judge(case, r, ('values', 'errors'))
    case.sample((form, r.data, r.model.errors))


def hooked(case):
    """Constraints apply to what the munge hook made of the input."""
    g = Gen(case.rng, depth=1, hooks=0.5, steps=['munge', 'filter', 'validate'], constraints=0.9, kinds=KINDS, bad=0.05,
            absent=0.05, width=3)
    form = g.form().number()
    for _ in range(2):
        r = engine.run(form, g.form_data(form))
        engine.judge(case, r, ('values', 'errors'))


WORKLOADS = [
    ('numbers', numbers, len(NUMBER_DECLS), len(NUMBER_DECLS)),
    ('texts', texts, len(TEXT_DECLS), len(TEXT_DECLS)),
    ('nulls', nulls, 2, 8),
    ('sizes', sizes, len(SIZES), 3 * len(SIZES)),
    ('random', random_forms, 2500, 60000),
    ('random-json', random_json, 1500, 40000),
    ('hooked', hooked, 1500, 30000),
    ('many', many.constraints, 150, 3000),
]
