"""C03: primitive inputs convert to the value they denote or are rejected."""
import datetime
import decimal
import enum
import fractions
import json
import struct
import uuid

from .. import many, spec
from ..spec import ABSENT, Builder, ModelValueError, Node, State, canon

ID = 'C03'
RULE = 'distinct (field type, source kind, type of input, input, accepted or not)'
REQUIRED = ['judged', 'native.accepted', 'native.rejected', 'strict.accepted', 'strict.rejected', 'lenient.accepted',
            'lenient.rejected', 'asked.accepted', 'asked.rejected', 'asked.fresh', 'encoded']

FIELDS = [('s', spec.StringF), ('i', spec.IntegerF), ('f', spec.FloatF), ('b', spec.BooleanF), ('d', spec.DecimalF),
          ('x', spec.AnyF)]


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 3


class Text(str):
    pass


class Words(object):

    def __str__(self):
        return '12'

    def __int__(self):
        return 12

    def __float__(self):
        return 12.0

    def __repr__(self):
        return 'Words()'


TEXTS = ['', '++5', '+ 5', '--5', '+-5', '-+1', '5+', ' ', '0', '1', '-1', '+1', ' 1', '1 ', '1_000', '_1', '1__0', '0x10', '0b1', '1.0', '1.', '.5', '-.5e3', '1e3', '1E-3',
         'inf', '-Infinity', 'nan', 'NaN', 'sNaN', '-nan', 'true', 'True', 'TRUE', 'tRuE', 't', 'T', 'f', 'F', 'false', 'FALSE',
         'False', 'yes', 'no', 'on', 'y', '00', '01', 'truee', ' true', 'true ', 'None', 'null', '[]', '{}', '٣', '１２', '²', '½',
         '12L', '1,000', '1 000', '٣.٥', 'é', '\x00', '1\x00', '10' * 40, '9' * 400, '1e999', '-1e-999', '1e', 'e5', '--1', '0.1',
         '1/2', '1+1j', "b'1'", 'ﬀ', '0777', '-0', '\n1\n', '\u00a05', 'TRUE\n', '😀', 't rue', '2', '-5', '1.5', 'ꞔ', 'ſ', '0.0',
         '100000000000000000000000.0', '1e22', '123456789012345678901234567890']


def number_text(rng):
    roll = rng.randrange(8)
    n = rng.choice([rng.randrange(-20, 20), rng.getrandbits(rng.choice([8, 31, 53, 64, 100])), -rng.getrandbits(40)])
    if roll == 0:
        return str(n)
    if roll == 1:
        return '{0}.{1}'.format(n, rng.randrange(1000))
    if roll == 2:
        return '{0}e{1}'.format(n, rng.randrange(-30, 30))
    if roll == 3:
        return repr(random_float(rng))
    if roll == 4:
        return rng.choice([' ', '\t', '']) + str(n) + rng.choice([' ', '\n', 'x', ''])
    if roll == 5:
        return ''.join(rng.choice('0123456789+-.eE_ xn') for _ in range(rng.randrange(8)))
    if roll == 6:
        return ''.join(chr(0x0660 + int(c)) if c.isdigit() else c for c in str(n))
    return hex(n)


def random_float(rng):
    roll = rng.randrange(5)
    if roll == 0:
        return struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    if roll == 1:
        return float(rng.randrange(-1000, 1000))
    if roll == 2:
        return rng.choice([0.0, -0.0, 1e300, 5e-324, 2.0 ** 53, 2.0 ** 53 + 2, 1e22, 1e23, float('inf'), float('nan'), float('-inf')])
    if roll == 3:
        return rng.randrange(-1000, 1000) / 8.0
    return rng.gauss(0, 1000)


def random_value(rng, native):
    roll = rng.randrange(10 if native else 7)
    if roll == 0:
        return rng.choice(TEXTS)
    if roll == 1:
        return number_text(rng)
    if roll == 2:
        return rng.choice([0, 1, -1, 2, 10 ** 400, -10 ** 400, 2 ** 53 + 1, rng.getrandbits(70), rng.randrange(-300, 300)])
    if roll == 3:
        return random_float(rng)
    if roll == 4:
        return rng.choice([True, False])
    if roll == 5:
        return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xa0, 0x2000), rng.randrange(0x10000, 0x10ffff)]))
                       for _ in range(rng.randrange(6)))
    if roll == 6:
        return rng.choice([[], [1], ['a'], {}, {'a': 1}, [[]], [None]])
    if roll == 7:
        return rng.choice([b'', b'1', b'abc', b'true', bytearray(b'1'), 1j, 2 + 0j, Words(), object, (), (1,), {1}])
    if roll == 8:
        return rng.choice([decimal.Decimal('1'), decimal.Decimal('1.5'), decimal.Decimal('NaN'), decimal.Decimal('sNaN'),
                           decimal.Decimal('-0'), fractions.Fraction(4, 2), fractions.Fraction(1, 3), Level.LOW, Level.HIGH,
                           Text('5'), Text('abc'), Text('true'), Text('')])
    return rng.choice([datetime.date(2015, 3, 9), datetime.datetime(2015, 3, 9), datetime.time(1, 2),
                       datetime.timedelta(1), uuid.UUID(int=5)])


def expected(cls, kind, value):
    field = cls()
    M = State(kind)
    if value is None:
        return None
    try:
        if cls is spec.DecimalF and isinstance(value, (complex, fractions.Fraction)):
            return ABSENT
        return field.parse(M, Node(value))
    except ModelValueError:
        return ABSENT


def judge(case, value, kind):
    import pilo
    b = Builder()
    cls = type('F', (pilo.Form,), dict((n, f('v').build(b)) for n, f in FIELDS))
    if kind == 'native':
        src = {'v': value}
    else:
        src = pilo.source.JsonSource(json.dumps({'v': value}), strict=kind == 'strict')
        value = json.loads(json.dumps(value))
    form = cls()
    errors = form.map(src)
    rejected = 0
    for name, f in FIELDS:
        want = expected(f, kind, value)
        got = dict.get(form, name, ABSENT)
        if want is ABSENT:
            rejected += 1
            case.event(kind, 'rejected')
            case.expect(got is ABSENT, 'stored', 'a {0} field stored something for an input that denotes none'.format(f.kind),
                        source=kind, value=value, got=got)
        else:
            case.event(kind, 'accepted')
            case.expect(got is not ABSENT, 'rejected', 'a {0} field rejected its input'.format(f.kind),
                        source=kind, value=value, expected=want, errors=[str(e) for e in errors])
            if f is spec.AnyF and kind == 'native':
                case.expect(got is value, 'unchanged', 'an untyped field changed its input', value=value, got=got)
            case.equal(canon(got), canon(want), 'value', 'a {0} field stored another value'.format(f.kind),
                       source=kind, value=value)
        case.distinct(f.kind, kind, type(value).__name__, repr(value)[:80], want is ABSENT)
    case.expect(len(errors) == rejected and all(isinstance(e, pilo.fields.Invalid) for e in errors), 'errors',
                'each rejected input is one invalid error', value=value, errors=[str(e) for e in errors], rejected=rejected)


def table(case):
    v = TEXTS[case.index % len(TEXTS)]
    for kind in ('native', 'strict', 'lenient'):
        judge(case, v, kind)


def native(case):
    for _ in range(4):
        v = random_value(case.rng, True)
        judge(case, v, 'native')
    case.sample(v)


def strict(case):
    for _ in range(4):
        judge(case, random_value(case.rng, False), 'strict')


def lenient(case):
    for _ in range(4):
        judge(case, random_value(case.rng, False), 'lenient')


def words(case):
    """Every casing of every boolean word, and near misses."""
    rng = case.rng
    for w in ('0', '1', 't', 'f', 'true', 'false'):
        for bits in range(2 ** len(w)):
            v = ''.join(c.upper() if bits >> i & 1 else c for i, c in enumerate(w))
            judge(case, v, 'native')
        judge(case, w + rng.choice(' x0\n'), 'native')
        judge(case, w[:-1], 'native')
        judge(case, ' ' + w, 'lenient')
        judge(case, w, 'strict')


def in_containers(case):
    """Conversion is the same inside lists, tuples, dicts and nested forms."""
    import pilo
    rng = case.rng
    kind = rng.choice(['native', 'strict', 'lenient'])
    name, f = rng.choice(FIELDS)
    b = Builder()
    values = [random_value(rng, kind == 'native') for _ in range(rng.randrange(5))]
    if kind != 'native':
        values = json.loads(json.dumps(values))

    def build():
        return f().build(b)

    cls = type('F', (pilo.Form,), {
        'l': pilo.fields.List(build()),
        'd': pilo.fields.Dict(pilo.fields.String(), build()),
        's': pilo.fields.List(pilo.fields.SubForm(type('G', (pilo.Form,), {'v': build()}))),
    })
    data = {'l': values, 'd': dict((str(i), v) for i, v in enumerate(values)), 's': [{'v': v} for v in values]}
    top, wraps = cls, []
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        how = rng.choice(['form', 'list', 'dict'])
        wraps.append(how)
        inner = pilo.fields.SubForm(top)
        top = type('Wrap', (pilo.Form,), {'w': {'form': lambda: inner, 'list': lambda: pilo.fields.List(inner),
                                                'dict': lambda: pilo.fields.Dict(pilo.fields.String(), inner)}[how]()})
        data = {'w': {'form': data, 'list': [data], 'dict': {'k': data}}[how]}
    src = data if kind == 'native' else pilo.source.JsonSource(json.dumps(data), strict=kind == 'strict')
    whole = top()
    errors = whole.map(src)
    form = whole
    case.event('deep', str(len(wraps)))
    if wraps and errors:
        # what fails is left out of what holds it
        case.equal(len(errors), 3 * len([v for v in values if expected(f, kind, v) is ABSENT]), 'deep-errors', 'one error per rejected input',
                   values=values, kind=f.kind, wraps=wraps)
        return
    for how in reversed(wraps):
        form = dict.get(form, 'w')
        form = form[0] if how == 'list' else form['k'] if how == 'dict' else form
    wants = [expected(f, kind, v) for v in values]
    kept = [w for w in wants if w is not ABSENT]
    case.equal(canon(list(dict.get(form, 'l'))), canon(kept), 'list-value', 'items converted differently', values=values, kind=f.kind)
    case.equal(canon(dict.get(form, 'd')), canon(dict((str(i), w) for i, w in enumerate(wants) if w is not ABSENT)), 'dict-value',
               'dict values converted differently', values=values, kind=f.kind)
    case.equal(canon([dict.get(x, 'v') for x in dict.get(form, 's')]), canon(kept), 'form-value',
               'nested values converted differently', values=values, kind=f.kind)
    case.equal(len(errors), 3 * (len(wants) - len(kept)), 'errors', 'one error per rejected input', values=values, kind=f.kind)
    case.distinct(f.kind, kind, repr(values)[:100])


class Small(int):
    pass


class Smaller(Small):
    pass


class Real(float):
    pass


class Named(str, enum.Enum):
    A = 'a'


class Odd(Text, object):
    pass


#: what a hook may ask a location for, and the conversion that is.
ASKED = [((), spec.AnyF), ((None,), spec.AnyF), ((str,), spec.StringF), ((int,), spec.IntegerF), ((float,), spec.FloatF),
         ((bool,), spec.BooleanF), ((Text,), spec.StringF), ((Odd,), spec.StringF), ((Named,), spec.StringF),
         ((Small,), spec.IntegerF), ((Smaller,), spec.IntegerF), ((Level,), spec.IntegerF), ((Real,), spec.FloatF),
         ((int, str), spec.IntegerF), ((str, int), spec.StringF), ((decimal.Decimal, str), spec.StringF),
         ((fractions.Fraction, Small, str), spec.IntegerF), ((bytes, bool), spec.BooleanF), ((object, None), spec.AnyF),
         ((dict, Real, int), spec.FloatF)]


def asked(case):
    """What a parse hook asks its location for is converted as a field of that type would convert it."""
    import pilo
    rng = case.rng
    kind = rng.choice(['native', 'strict', 'lenient'])
    types, cls = rng.choice(ASKED)
    fresh = rng.random() < 0.3 and types and isinstance(types[-1], type) and types[-1] in (str, int, float)
    if fresh:
        # of a type never seen before
        types = types[:-1] + (type('Fresh', (type('Base', (types[-1],), {}),), {}),)
        case.event('asked', 'fresh')
    value = random_value(rng, kind == 'native')
    if kind != 'native':
        value = json.loads(json.dumps(value))
    missing = rng.random() < 0.1

    def parse(self, path):
        return path.primitive(*types)

    def parse_any(self, path):
        try:
            path.primitive(bytes, decimal.Decimal)
        except ValueError:
            return 'refused'
        return 'converted'

    field, other, plain = pilo.fields.Field('v'), pilo.fields.Field('v'), cls('v').build(Builder())
    field.parse(parse)
    other.parse(parse_any)
    form_cls = type('F', (pilo.Form,), {'x': field, 'y': other, 'z': plain})
    data = {} if missing else {'v': value}
    src = data if kind == 'native' else pilo.source.JsonSource(json.dumps(data), strict=kind == 'strict')
    wrap = rng.randrange(3)
    if wrap == 1:
        src = pilo.source.UnionSource([src])
    form = form_cls()
    errors = form.map(src)
    w = dict(source=kind, asked=[getattr(t, '__name__', t) for t in types], value=value, wrap=wrap)
    got, plain = dict.get(form, 'x', ABSENT), dict.get(form, 'z', ABSENT)
    if not missing:
        case.equal(dict.get(form, 'y', ABSENT), 'refused', 'asked-none', 'types that have no conversion were not refused', **w)
    want = ABSENT if missing else expected(cls, kind, value)
    case.event('asked', 'accepted' if want is not ABSENT else 'rejected')
    if want is ABSENT:
        case.expect(got is ABSENT, 'asked-stored', 'a hook that asked for what is not there got something', got=got, **w)
    else:
        case.equal(canon(got), canon(want), 'asked-value', 'a hook got another value than a field of that type', errors=[str(e) for e in errors], **w)
    case.equal(canon(plain), canon(got), 'asked-plain', 'a hook and a field of that type differ', **w)
    case.distinct('asked', kind, repr(w['asked']), repr(value)[:60])


def encoded(case):
    """Text given as bytes with an encoding is the text they encode."""
    import pilo
    rng = case.rng
    encoding = rng.choice(['utf-8', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-8-sig', 'latin-1', 'cp1252', 'cp037', 'utf-7'])
    wide = encoding.startswith('utf')
    text = ''.join(rng.choice('ab1 éß٣😀ﬀ"\\' if wide else 'ab1 éßüÆ"\\') for _ in range(rng.randrange(8)))
    data = {'v': text, 'é': rng.randrange(9)}
    raw = json.dumps(data, ensure_ascii=rng.random() < 0.3)
    cls = type('F', (pilo.Form,), {'v': pilo.fields.String(), 'n': pilo.fields.Integer('é')})
    given = {'bytes': raw.encode(encoding), 'text': raw}
    for how, config in given.items():
        form = cls()
        errors = form.map(pilo.source.JsonSource(config, encoding=encoding))
        case.equal(([str(e) for e in errors], dict(form)), ([], {'v': text, 'n': data['é']}), 'encoded',
                   'encoded text is not the text', given=how, encoding=encoding, raw=raw)
    # JSON tells the encodings it may be in apart by itself
    own = rng.choice(['utf-8', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le', 'utf-32-be', 'utf-8-sig'])
    form = cls()
    errors = form.map(pilo.source.JsonSource(raw.encode(own)))
    case.equal(([str(e) for e in errors], dict(form)), ([], {'v': text, 'n': data['é']}), 'encoded', 'bytes are not the text they spell', encoding=own, raw=raw)
    case.event('encoded')
    case.distinct('encoded', encoding, raw)


WORKLOADS = [
    ('table', table, len(TEXTS), len(TEXTS)),
    ('words', words, 2, 4),
    ('native', native, 2500, 60000),
    ('strict', strict, 1200, 30000),
    ('lenient', lenient, 1200, 30000),
    ('containers', in_containers, 1200, 30000),
    ('asked', asked, 1500, 40000),
    ('encoded', encoded, 200, 3000),
    ('many', many.primitives, 150, 3000),
]
