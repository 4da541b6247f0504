"""C17: a collecting mapping ends, with missing and invalid errors only, whatever the data."""
import array
import collections
import datetime
import decimal
import fractions
import json
import re
import time
import uuid

from ..spec import canon, outcome_errors

ID = 'C17'
RULE = 'distinct (kinds of fields, source kind, error kinds) mapped; distinct refused roots'
REQUIRED = ['judged', 'returned', 'root-refused', 'single', 'field-error', 'mapped', 'missing', 'invalid'] + ['crossed.' + k for k in ('Field', 'Date', 'Datetime', 'Time', 'Code', 'Group', 'SubForm', 'pattern')] + [
    'source.' + k for k in ('native', 'object', 'aliased', 'ignoring', 'sequence', 'strict', 'lenient', 'union', 'mount', 'config',
                            'section', 'keywords')] + [
    'field.' + k for k in ('String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'Time', 'Datetime', 'UUID', 'Field', 'List',
                           'Tuple', 'Dict', 'SubForm', 'Group', 'Poly', 'Code', 'Type', 'Number', 'capture', 'pattern', 'context',
                           'format', 'constant')]
ASSUMPTIONS = ['values of the data can themselves be compared, hashed or refused as unhashable, and formatted (no signalling NaN; no lone surrogates as text, '
               'whose UnicodeEncodeError this interpreter cannot print); nesting and text stay '
               'within what the interpreter itself can read']

NAMES = ['a', 'b', 'c', 'kind', 'keys', 'x1', 'pop', 'é']
KEYS = ['a', 'b', 'c', 'kind', 'keys', 'x1', 'k1', 'k2', '', '.', '..', 'a.b', 'a.', '.a', 'a()', 'keys()', '()', '0', '[0]', 'a[b]',
        '\x00', '\ud800', 'é', 'x' * 300, '%s', '{0}', '{', '\n', ' ']
TEXTS = ['', ' ', 'a', 'abc', '0', '1', '-1', '+5', ' 7 ', '1.0', '1.5', '1e5', '1e400', '-1e400', '1e-400', 'nan', '-nan', 'inf', '-Infinity',
         'NaN', 'sNaN', 'snan123', '0x10', '1_000', '٣', '²', '½', '９' * 3, '9' * 400, '9' * 5000, '-' + '1' * 40, '1e999999999999', '1E+1000000',
         'true', 'TRUE', 't', 'F', 'yes', 'null', 'None', '\x00', 'é', 'e\u0301', '\u202e', 'ß', 'İ', 'a\nb', '\n', '\r\n', 'x' * 5000,
         '2015-03-09', '2015-3-9', '0000-00-00', '9999-12-31', '10000-01-01', '2015-02-30', '2016-02-29', '-2015-01-01', '2015', '201503', '20150309',
         '2015-03-09T10:11:12Z', '2015-03-09T24:00:00Z', '2015-03-09T10:11:12+99:99', '2015-03-09T10:11:12.' + '9' * 40, '2015-03-09T10:11:60',
         '2015-03-09 10:11', '0001-01-01T00:00:00+23:59', '0001-01-01T00:00:00Z', '9999-12-31T23:59:59.999999Z', '9999-12-31T23:59:59Z', '0001-01-01', '1970-01-01T00:00:00Z', '00:00:00', '23:59:59', '00:00', '23:59', '2016-12-31T23:59:60Z', '9999-12-31T23:59:59-23:59', '10:11', '24:00', '10:60', '10:11:61', '1:2', '25:99',
         'two', 'one', 'three', 'os.path:join', 'os.path', 'os:nope', 'nope:nope', ':', 'a:', ':a', 'os:', 'os.:path', '..:a', 'os:path..join', 'x = 1\n',
         'x = \n', 'raise KeyError(1)\n', '1/0\n', '\x00\n', 'def f(\n', '(' * 200 + '\n', 'import nope_nope\n', 'x' * 40 + '\n', '\t\n x\n',
         '9f3e7c1a-8d4b-4a6e-9b1f-0c2d3e4f5a6b', '{9f3e7c1a8d4b4a6e9b1f0c2d3e4f5a6b}', 'urn:uuid:9f3e7c1a-8d4b-4a6e-9b1f-0c2d3e4f5a6b', '-' * 36, '0' * 32,
         '%', '%d', '{}', '{0}', '{a.b}', '\\', '"', "it's", '"unclosed', '(', '[', '*', 'k1', 'clear()', '@m:a']
FORMATS = ['%Y-%m-%d', '%H:%M', '%Y-%m-%dT%H:%M:%SZ', 'iso8601', '%H:%M:%S', '%d', '%j', '%y', '%p', '%Z', '%z', '%A %B']


class Thing(object):

    a = 5

    def __init__(self):
        self.b = {'a': 1}
        self.c = [1, 2]

    @property
    def kind(self):
        return 'one'

    def k1(self):
        return 'called'

    def __getitem__(self, key):
        if key == 'x1':
            return 'item'
        raise KeyError(key)


class Bare(object):
    __slots__ = ()


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


Pair = collections.namedtuple('Pair', 'a b')


class Custom(collections.abc.Mapping):

    def __init__(self, body):
        self.body = body

    def __getitem__(self, key):
        return self.body[key]

    def __iter__(self):
        return iter(self.body)

    def __len__(self):
        return len(self.body)


class Text(str):
    pass


class Whole(int):
    pass


def scalar(rng, native):
    roll = rng.randrange(12 if native else 7)
    if roll < 3:
        return rng.choice(TEXTS)
    if roll == 3:
        return rng.choice([0, 1, -1, 2, 5, 2 ** 31, 2 ** 63, -2 ** 64, 10 ** 30, 10 ** 400, -10 ** 400])
    if roll == 4:
        return rng.choice([0.0, -0.0, 1.0, 1.5, -2.5, 1e16, 1e300, -1e300, 5e-324] + ([float('nan'), float('inf'), float('-inf')] if native or rng.random() < 0.5 else []))
    if roll == 5:
        return rng.choice([True, False])
    if roll == 6:
        return None
    if roll == 7:
        return rng.choice([b'', b'1', b'abc', b'\xff\xfe', bytearray(b'12'), memoryview(b'ab'), array.array('i', [1, 2])])
    if roll == 8:
        return rng.choice([decimal.Decimal(x) for x in ('0', '1.50', 'NaN', 'Infinity', '-Infinity', '1E+1000', '1E-1000', '-0')] +
                          [fractions.Fraction(1, 3), 1j, complex('nan'), Whole(5), Text('abc'), Text('5'), Text('one')])
    if roll == 9:
        return rng.choice([datetime.date(2015, 3, 9), datetime.date.max, datetime.datetime(2015, 3, 9), datetime.datetime.min,
                           datetime.datetime(2015, 3, 9, tzinfo=datetime.timezone.utc), datetime.time(10, 11), datetime.time(10, tzinfo=datetime.timezone.utc),
                           datetime.timedelta(1), time.struct_time((2015, 3, 9, 10, 11, 12, 0, 0, -1)), uuid.UUID(int=5), uuid.UUID(int=2 ** 128 - 1)])
    if roll == 10:
        return rng.choice([object(), Thing(), Thing, Bare(), Falsy(), int, lambda: 1, ValueError('x'), re, NotImplemented, Ellipsis,
                           Pair(1, 2), range(3), range(0), {1, 2}, frozenset(['a']), iter([1]), (x for x in [1]), slice(1), re.compile('a'), property()])
    return rng.choice(TEXTS)


def data_for(rng, depth, native):
    roll = rng.random()
    if depth <= 0 or roll < 0.45:
        return scalar(rng, native)
    if roll < 0.65:
        body = [data_for(rng, depth - 1, native) for _ in range(rng.choice([0, 1, 1, 2, 3, 7]))]
        if native and rng.random() < 0.3:
            return rng.choice([tuple, collections.deque, collections.UserList])(body)
        return body
    if roll < 0.68 and native:
        # something that holds itself
        if rng.random() < 0.5:
            out = [1]
            out.append(out)
        else:
            out = {'a': 1}
            out['b'] = out['a.b'] = out['k1'] = out
        return out
    if roll < 0.7:
        out = scalar(rng, native)
        for _ in range(rng.randrange(60)):
            out = [out] if rng.random() < 0.5 else {rng.choice(NAMES): out}
        return out
    return mapping_for(rng, depth, native, rng.random() < 0.3)


def mapping_for(rng, depth, native, odd=False):
    body = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        key = rng.choice(NAMES) if rng.random() < 0.6 else rng.choice(KEYS)
        if odd and native and rng.random() < 0.4:
            key = rng.choice([5, -1, 0, 1.5, None, True, (1, 2), (), b'k', b'', frozenset(), float('nan'), 10 ** 30, Text('a'), Whole(3), object(), Pair(1, 2),
                              datetime.date(2015, 1, 1), decimal.Decimal(1), int, uuid.UUID(int=1)])
        body[key] = data_for(rng, depth - 1, native)
    if native and rng.random() < 0.2:
        return rng.choice([collections.OrderedDict, Custom, collections.UserDict, lambda b: collections.ChainMap(b, {'c': 1}),
                           lambda b: collections.defaultdict(list, b)])(body)
    return body


class Maker(object):
    """Builds forms of anything the library provides."""

    def __init__(self, rng, case):
        import pilo
        self.rng, self.case, self.pilo, self.F = rng, case, pilo, pilo.fields
        self.made = []
        self.keep = []

    def options(self):
        rng, o = self.rng, {}
        if rng.random() < 0.25:
            o['default'] = rng.choice([None, 5, 'x', list, dict, [], self.pilo.NONE, {}, 0])
        if rng.random() < 0.2:
            o['nullable'] = rng.random() < 0.5
        if rng.random() < 0.15:
            o['ignore'] = rng.choice([0, '', 'a', None, 1.5, decimal.Decimal(1), [], (), 'abc'])
        if rng.random() < 0.15:
            o['translate'] = rng.choice([{'a': 'b'}, {0: 1}, {'one': 2, 'abc': None}, {None: 'x'}, {'': [1]}, {1.0: 'x'}])
        if rng.random() < 0.1:
            o['tags'] = 't'
        return o

    def key_options(self):
        # what cannot be a key cannot be declared to become one
        o = self.options()
        if 'default' in o and o['default'] not in (None, 5, 'x', 0):
            del o['default']
        if o.get('translate') == {'': [1]}:
            del o['translate']
        return o

    def src(self, args, where):
        if where in ('form', 'target') and self.rng.random() < 0.3 or where == 'item' and self.rng.random() < 0.1:
            args.insert(0, self.rng.choice(KEYS))
        return args

    def field(self, depth, where):
        kinds = ['String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'Time', 'Datetime', 'UUID', 'Field', 'Code', 'Type', 'Number', 'capture', 'pattern']
        if where == 'form':
            kinds += ['context', 'format', 'constant']
        if where == 'key':
            kinds = ['String', 'Integer', 'Field', 'Float', 'Decimal', 'UUID', 'Date']
        elif depth > 0:
            kinds += ['List', 'Tuple', 'Dict', 'SubForm', 'Group', 'Poly'] * 3
        kind = self.rng.choice(kinds)
        self.made.append(kind)
        return getattr(self, 'make_' + kind)(depth, where, self.src([], where), self.options() if where != 'key' else self.key_options())

    def make_Field(self, depth, where, args, o):
        return self.F.Field(*args, **o)

    def make_Number(self, depth, where, args, o):
        self.bounds(o, [0, 5, 1.5, decimal.Decimal(3)])
        return self.F.Number(*args, **o)

    def make_String(self, depth, where, args, o):
        rng = self.rng
        for name, pool in [('min_length', [0, 1, 3]), ('max_length', [0, 2, 5]), ('pattern', ['a', r'\d+$', r'[^\d]', re.compile('(?i)A')]),
                           ('alphabet', ['abc', ['a', 'b'], {'a'}]), ('choices', [['a', 'b'], ['one'], ['']]), ('length', [2, (1, 3), [0, 1]])]:
            if rng.random() < 0.2:
                o[name] = rng.choice(pool)
        if 'length' in o:
            o.pop('min_length', None), o.pop('max_length', None)
        return self.F.String(*args, **o)

    def bounds(self, o, pool):
        rng = self.rng
        roll = rng.random()
        if roll < 0.25:
            o['min_value'] = rng.choice(pool)
        if 0.15 < roll < 0.4:
            o['max_value'] = rng.choice(pool)
        if roll > 0.9:
            o.pop('min_value', None), o.pop('max_value', None)
            o['range'] = (rng.choice(pool), rng.choice(pool))

    def make_Integer(self, depth, where, args, o):
        self.bounds(o, [0, 5, -3, 10 ** 30, 1.5])
        return self.rng.choice([self.F.Integer, self.F.Int])(*args, **o)

    def make_Float(self, depth, where, args, o):
        self.bounds(o, [0, 5, -3.5, 1e300, decimal.Decimal('1.5')])
        return self.F.Float(*args, **o)

    def make_Decimal(self, depth, where, args, o):
        self.bounds(o, [0, 5, decimal.Decimal('1.5'), decimal.Decimal('-3'), 1.5])
        return self.F.Decimal(*args, **o)

    def make_Boolean(self, depth, where, args, o):
        return self.F.Boolean(*args, **o)

    def ranged(self, kind, args, o, bounds, formats):
        rng = self.rng
        if rng.random() < 0.8:
            o['format'] = rng.choice(formats)
            if kind == 'Date' and rng.random() < 0.3:
                o['format'] = [rng.choice(formats) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.25:
            o['after'] = rng.choice(bounds)
        if rng.random() < 0.25:
            o['before'] = rng.choice(bounds)
        return getattr(self.F, kind)(*args, **o)

    def make_Date(self, depth, where, args, o):
        return self.ranged('Date', args, o, [datetime.date(2015, 3, 9), datetime.date.min], FORMATS)

    def make_Time(self, depth, where, args, o):
        return self.ranged('Time', args, o, [time.strptime('10:00', '%H:%M'), datetime.time(10)], [f for f in FORMATS if f != 'iso8601'])

    def make_Datetime(self, depth, where, args, o):
        return self.ranged('Datetime', args, o, [datetime.datetime(2015, 3, 9), datetime.datetime.max,
                                                 datetime.datetime(2015, 3, 9, tzinfo=datetime.timezone.utc)], FORMATS)

    def make_UUID(self, depth, where, args, o):
        return self.F.UUID(*args, **o)

    def make_Code(self, depth, where, args, o):
        return self.F.Code(*args, **o)

    def make_Type(self, depth, where, args, o):
        o.pop('default', None)
        if self.rng.random() < 0.5:
            return self.F.Type.instance(*self.rng.choice([['one'], ['one', 'two']]), **dict(o))
        return self.F.Type.abstract(**o)

    def make_capture(self, depth, where, args, o):
        return self.F.String(*args, **o).capture(self.rng.choice([r'(\w)', r'(?P<a>.)(.)?', r'x', r'(a)|(b)', re.compile('(b)?')]), name=self.rng.choice([None, 'a', 'zz']))

    def make_pattern(self, depth, where, args, o):
        return self.rng.choice([self.F.Integer, self.F.Float])(*args, **o).pattern(self.rng.choice([r'\d+', r'[\d.]+', r'\w+', r'', r'-?\d*', re.compile('.')]))

    def make_context(self, depth, where, args, o):
        return self.F.Field(*(args or ['a']), **o).from_context()

    def make_format(self, depth, where, args, o):
        names = dict((n, self.rng.choice(['f0', 'f1', 'f1.f0', 'f0.a', 'f2', 'f0.nope'])) for n in 'xy')
        return self.F.String(*args, **o).format(self.rng.choice(['{x}-{y}', '{x}', 'lit', '{x!r}', '{x:>7}', '{x:d}', '{y:.2f}', '{x:c}', '{x.a}', '{x[0]}', '{x[k1]}-{y:%Y}', '{x!s:.3}', '{y:,}', '{x:=+9}', '{x.real}']), **names)

    def make_constant(self, depth, where, args, o):
        return self.F.Integer(*args, **o).constant(self.rng.choice([5, 10 ** 30]))

    def make_List(self, depth, where, args, o):
        o.pop('translate', None)
        rng = self.rng
        if rng.random() < 0.3:
            o['min_length'] = rng.choice([0, 1, 2])
        if rng.random() < 0.3:
            o['max_length'] = rng.choice([0, 1, 2])
        if rng.random() < 0.3:
            o['allow_field'] = True
        return self.F.List(self.field(depth - 1, 'item'), *args, **o)

    def make_Tuple(self, depth, where, args, o):
        o.pop('translate', None)
        n = self.rng.randrange(1, 4)
        return self.F.Tuple(*(args + [tuple(self.field(depth - 1, 'item') for _ in range(n))]), **o)

    def make_Dict(self, depth, where, args, o):
        o.pop('translate', None)
        rng = self.rng
        if rng.random() < 0.2:
            o['required_keys'] = rng.choice([['a'], {'a', 'b'}, ['k1', 5], [None]])
        if rng.random() < 0.2:
            o['max_keys'] = rng.choice([0, 1, 3])
        return self.F.Dict(self.field(0, 'key'), self.field(depth - 1, 'value'), *args, **o)

    def make_SubForm(self, depth, where, args, o):
        o.pop('translate', None)
        if self.rng.random() < 0.3:
            o['unmapped'] = self.rng.choice(['capture', 'ignore'])
        if where == 'form' and self.rng.random() < 0.15:
            o['flat'] = True
        return self.F.SubForm(self.form(depth - 1), *args, **o)

    def make_Group(self, depth, where, args, o):
        rng = self.rng
        o.pop('ignore', None)
        o.pop('translate', None)
        items = []
        for _ in range(rng.randrange(1, 4)):
            f = self.field(depth - 1, 'group')
            items.append((rng.choice(['a', 'b', '', re.compile(r'k(\d)'), re.compile(''), re.compile(r'.'), re.compile(b'k')]), f))
        return self.F.Group(*items, **o)

    def make_Poly(self, depth, where, args, o):
        o.pop('translate', None)
        F, pilo = self.F, self.pilo
        key = self.rng.choice(NAMES)
        base = type('Base', (pilo.Form,), {key: F.Type.abstract()})
        one = type('One', (base,), {key: F.Type.instance('one'), 'n': self.field(depth - 1, 'form')})
        two = type('Two', (base,), {key: F.Type.instance('two', 'three'), 'm': self.field(depth - 1, 'form')})
        self.keep.extend([base, one, two])
        return F.PolymorphicSubForm(getattr(base, key), *args, **o)

    def form(self, depth):
        body = {}
        for i in range(self.rng.randrange(1, 5)):
            name = self.rng.choice(NAMES + ['f0', 'f1'])
            # no field formats itself
            body[name] = self.field(depth, 'form' if name not in ('f0', 'f1') else 'target')
        cls = type('S', (self.pilo.Form,), body)
        self.keep.append(cls)
        return cls


CONFIG_KEYS = ['a', 'b', 'c', 'kind', 'x1', 'k1', 'a[b]', 'b[0]', 'c[k.1]', 'keys']


def config(rng):
    out = []
    for section in rng.sample(['a', 'b', 'c', 'kind', 'root', 'f0'], rng.randrange(1, 5)) + ['root'][:0]:
        out.append('[{0}]'.format(section))
        for key in rng.sample(CONFIG_KEYS, rng.randrange(5)):
            text = rng.choice(TEXTS)
            text = ''.join(c for c in text if c.isprintable())[:200]
            if rng.random() < 0.1:
                text += rng.choice(['%', '%%', '50% off', '%(a)s', '%(nope)s', '%(a', '%({0})s'.format(key)])
            if rng.random() < 0.2:
                text = '\n  '.join([''] + [w for w in (rng.choice(['x', '1', "it's", '"q', 'two words']) for _ in range(3))])
            out.append('{0} = {1}'.format(key, text))
    return '\n'.join(out) + '\n'


def jsonable(text_data):
    return json.dumps(text_data)


def whatever(case):
    import pilo
    rng = case.rng
    maker = Maker(rng, case)
    cls = maker.form(rng.choice([0, 1, 1, 2, 3]))
    for kind in set(maker.made):
        case.event('field', kind)
    for _ in range(4):
        kind = rng.choice(['native', 'native', 'native', 'object', 'aliased', 'ignoring', 'sequence', 'strict', 'lenient', 'union', 'mount', 'config', 'section',
                           'keywords'])
        describe = None
        if kind in ('native', 'object', 'aliased', 'ignoring', 'keywords'):
            data = describe = mapping_for(rng, 4, True, rng.random() < 0.2)
            if kind == 'object':
                data = pilo.DefaultSource(data, location=rng.choice([None, 'here']))
            if kind == 'aliased':
                data = pilo.DefaultSource(data, aliases=dict((rng.choice(KEYS), rng.choice(KEYS)) for _ in range(3)))
            if kind == 'ignoring':
                data = pilo.DefaultSource(data, ignores=[rng.choice(KEYS) for _ in range(3)])
            if kind == 'keywords':
                data = describe = dict((k, v) for k, v in data.items() if isinstance(k, str))
        elif kind == 'sequence':
            data = describe = [data_for(rng, 3, True) for _ in range(rng.randrange(6))]
        elif kind in ('strict', 'lenient'):
            text = describe = jsonable(mapping_for(rng, 4, False))
            data = pilo.source.JsonSource(text, strict=kind == 'strict')
        elif kind == 'union':
            parts = describe = [mapping_for(rng, 3, False) for _ in range(rng.randrange(1, 4))]
            if len(parts) > 1 and rng.random() < 0.5:
                for k in list(parts[0]):
                    if rng.random() < 0.5:
                        parts[1][k] = data_for(rng, 3, False)
            data = pilo.source.union([pilo.source.JsonSource(json.dumps(p)) if rng.random() < 0.3 else p for p in parts],
                                     merge=rng.choice(['first', 'last', 'combine']), merge_depth=rng.choice([None, 0, 1, 2, 3]))
        elif kind == 'mount':
            parts = describe = dict((rng.choice([n for n in NAMES if n.isidentifier()]), mapping_for(rng, 3, True)) for _ in range(3))
            data = pilo.source.mount(**dict((k, v if isinstance(v, dict) else pilo.DefaultSource(v)) for k, v in parts.items()))
        else:
            text = describe = config(rng)
            if kind == 'section':
                if '[root]' not in text:
                    text = '[root]\n' + text
                data = pilo.source.ConfigSource(text, section='root')
            else:
                data = pilo.source.ConfigSource(text, defaults={'a': {'b': '5'}, 'b': {'x1': ''}} if rng.random() < 0.3 else None)
        case.event('source', kind)
        judge(case, cls, data, kind, describe)


def judge(case, cls, data, kind, describe, **more):
    import pilo
    w = dict(form=[repr(str(f))[:120] for f in cls.fields], data=describe, kind=kind, **more)
    form = cls()
    unmapped = case.rng.choice(['ignore', 'ignore', 'capture']) if kind != 'keywords' else 'ignore'
    try:
        if kind == 'keywords':
            try:
                form = cls(**data)
                errors = []
            except pilo.fields.FormError as ex:
                errors = list(ex.field_errors)
        else:
            errors = form.map(data, unmapped=unmapped)
    except Exception as ex:
        import traceback
        case.fail('escaped', '{0} escaped: {1}'.format(type(ex).__name__, traceback.format_exc(limit=-6)), **w)
    case.event('returned')
    case.expect(isinstance(errors, list), 'errors', 'no list of errors', got=type(errors), **w)
    for e in errors:
        case.expect(isinstance(e, pilo.FieldError), 'error-kind', 'an error of another kind', got=repr(e), **w)
        case.event('missing' if isinstance(e, pilo.fields.Missing) else 'invalid')
        str(e), str(e.path)
    for key, value in dict.items(form):
        case.expect(not any(value is m for m in pilo.IGNORE), 'marker', 'an internal marker is stored', key=key, **w)
    case.event('field-error' if errors else 'mapped')
    case.distinct(tuple(type(f).__name__ for f in cls.fields), kind, tuple(outcome_errors(errors))[:6])


def single(case):
    """One field of each kind over one value, exhaustively cross-paired over the run."""
    import pilo
    rng = case.rng
    maker = Maker(rng, case)
    where = rng.choice(['bare', 'bare', 'list', 'dict', 'key'])
    field = maker.field(rng.choice([0, 1, 2]), 'key' if where == 'key' else 'item')
    F = pilo.fields
    if where == 'list':
        field = F.List(field, allow_field=rng.random() < 0.3)
    elif where == 'dict':
        field = F.Dict(F.Field(), field)
    elif where == 'key':
        field = F.Dict(field, F.Field())
    cls = type('One', (pilo.Form,), {'f': field})
    for _ in range(25):
        value = data_for(rng, 2, True)
        if where == 'list' and rng.random() < 0.8:
            value = [value, data_for(rng, 2, True)]
        elif where == 'dict' and rng.random() < 0.8:
            value = {'k': value, 'l': data_for(rng, 2, True)}
        elif where == 'key' and not isinstance(value, Thing):
            try:
                value = {value: 1, 'k': 2}
            except TypeError:
                pass
            except decimal.InvalidOperation:
                pass
        if not maker.made[0] == 'context' and rng.random() < 0.8:
            for src in ('f', field.src):
                if isinstance(src, str):
                    break
            data = {'f': value, src: value}
        else:
            data = {'f': value}
        judge(case, cls, data, 'native', data, field=maker.made, where=where)
        case.event('single')


def declarations():
    """One of each kind of field, by itself and in containers."""
    import pilo
    F = pilo.fields
    dates = [('Date', F.Date, [None] + FORMATS + [['iso8601', '%Y'], ['%Y-%m-%d', 'iso8601'], ['%H:%M', '%d']]),
             ('Time', F.Time, [None] + [f for f in FORMATS if f != 'iso8601']), ('Datetime', F.Datetime, [None] + FORMATS)]
    out = [('Field', F.Field), ('String', F.String), ('Integer', F.Integer), ('Float', F.Float), ('Decimal', F.Decimal), ('Boolean', F.Boolean),
           ('UUID', F.UUID), ('Code', F.Code), ('Number', F.Number), ('Type', lambda: F.Type.instance('one', 'two')),
           ('Type', lambda: F.Type.instance('one')),
           ('String', lambda: F.String(alphabet='ab1')), ('String', lambda: F.String(pattern=r'\d')), ('String', lambda: F.String(length=(1, 5))),
           ('String', lambda: F.String(choices=['one', 'a'])), ('String', lambda: F.String().translate({'a': 'b', '': 'c'})),
           ('String', lambda: F.String().ignore('', 'a', 0)), ('capture', lambda: F.String().capture(r'(\w)(\d)?')),
           ('capture', lambda: F.String().capture(r'(a)?')), ('pattern', lambda: F.Integer().pattern(r'\w+')), ('pattern', lambda: F.Float().pattern(r'.*')),
           ('Integer', lambda: F.Integer(min_value=0)), ('Integer', lambda: F.Integer(max_value=10 ** 20)), ('Integer', lambda: F.Integer().ignore(0).translate({1: 2})),
           ('Float', lambda: F.Float().range(-1.5, 10 ** 300)), ('Float', lambda: F.Float(max_value=decimal.Decimal(3))),
           ('Decimal', lambda: F.Decimal(min_value=0)), ('Decimal', lambda: F.Decimal(max_value=1.5)),
           ('Decimal', lambda: F.Decimal().range(decimal.Decimal('-1e5'), 7)),
           ('List', lambda: F.List(F.Integer())), ('List', lambda: F.List(F.String(), allow_field=True)), ('List', lambda: F.List(F.Field(), length=(1, 2))),
           ('List', lambda: F.List(F.List(F.Integer(), allow_field=True), allow_field=True)), ('Tuple', lambda: F.Tuple((F.String(), F.Integer()))),
           ('Tuple', lambda: F.Tuple((F.Field(),))), ('Dict', lambda: F.Dict(F.String(), F.Integer())), ('Dict', lambda: F.Dict(F.Integer(), F.Field(), max_keys=1)),
           ('Dict', lambda: F.Dict(F.String(min_length=2), F.Field(), required_keys=['a'])),
           ('SubForm', lambda: F.SubForm.from_fields(a=F.Integer(), b=F.Field(default=None))), ('SubForm', lambda: F.SubForm(pilo.Form, unmapped='capture')),
           ('Group', lambda: F.SubForm.from_fields(g=F.Group((re.compile('.*'), F.Integer()), ('a', F.String()))))]
    for name, make, formats in dates:
        for spec in formats:
            out.append((name, lambda make=make, spec=spec: make(format=spec)))
    out.append(('Date', lambda: F.Date(format='%Y-%m-%d').after(datetime.date(2015, 3, 9))))
    out.append(('Date', lambda: F.Date(format='iso8601').between(datetime.date.min, datetime.datetime.max)))
    out.append(('Datetime', lambda: F.Datetime(format='iso8601').before(datetime.datetime(2015, 3, 9))))
    out.append(('Datetime', lambda: F.Datetime(format='iso8601').after(datetime.datetime(2015, 3, 9, tzinfo=datetime.timezone.utc))))
    out.append(('Time', lambda: F.Time(format='%H:%M').after(time.strptime('10:00', '%H:%M'))))
    return out


def crossed(case):
    """Every kind of field over every kind of scalar, from native data and from JSON."""
    import pilo
    rng, F = case.rng, pilo.fields
    decls = declarations()
    name, make = decls[case.index % len(decls)]
    cls = type('X', (pilo.Form,), {'f': make()})
    listed = type('L', (pilo.Form,), {'f': F.List(make())})
    case.event('crossed', name)
    pool = [scalar(rng, True) for _ in range(120)]
    for value in TEXTS + pool:
        judge(case, cls, {'f': value}, 'native', value, field=name)
        if isinstance(value, (str, int, float)) and type(value) in (str, int, float, bool):
            judge(case, cls, pilo.source.JsonSource(json.dumps({'f': value}), strict=rng.random() < 0.5), 'lenient', value, field=name)
    judge(case, listed, {'f': list(TEXTS) + pool}, 'native', 'all', field=name)


CROSSED = 87


def roots(case):
    """What is no mapping is refused with a source error."""
    import pilo
    rng = case.rng
    maker = Maker(rng, case)
    cls = maker.form(rng.choice([0, 1]))
    value = rng.choice([5, 'text', None, 1.5, True, [1], [], (), 'x', 0, '', b'x', {1}, object(), float('nan'), datetime.date(2015, 1, 1), pilo.NONE])
    jsons = ['5', '"text"', 'null', '1.5', 'true', '[1]', '[]', '[{"a": 1}]', '0', '""']
    options = [('object', lambda: pilo.DefaultSource(value)), ('strict', lambda: pilo.source.JsonSource(rng.choice(jsons), strict=True)),
               ('lenient', lambda: pilo.source.JsonSource(rng.choice(jsons))), ('located', lambda: pilo.DefaultSource(value, location='here')),
               ('section', lambda: pilo.source.ConfigSource('[a]\nb = 1\n', section='nope')),
               ('section', lambda: pilo.source.ConfigSource('[a]\nb = 1\n', section='nope', defaults={'nope': {'a': 1}}))]
    kind, make = rng.choice(options)
    error = rng.choice(['collect', 'raise'])
    how = rng.choice(['map', 'construct', 'nested-tags', 'capture'])
    src = make()
    w = dict(kind=kind, value=getattr(src, 'data', None), error=error, how=how)
    try:
        if how == 'construct':
            cls(src)
        else:
            form = cls()
            form.map(src, error=error, **({'unmapped': 'capture'} if how == 'capture' else {'tags': ['t']} if how == 'nested-tags' else {}))
    except pilo.SourceError:
        case.event('root-refused')
        case.expect(True, 'root', 'refused')
    except Exception as ex:
        case.fail('root', 'a root that is no mapping ended with {0}: {1}'.format(type(ex).__name__, ex), **w)
    else:
        case.fail('root', 'a root that is no mapping was mapped', **w)
    case.distinct('root', kind, repr(w['value'])[:40], how, error)
    # and for a nested mapping each is an invalid error
    nested = type('N', (pilo.Form,), {'n': pilo.fields.SubForm(cls)})
    data = {'n': value}
    judge(case, nested, data, 'native', data)


WORKLOADS = [
    ('whatever', whatever, 4000, 150000),
    ('single', single, 2000, 60000),
    ('crossed', crossed, CROSSED, 8 * CROSSED),
    ('roots', roots, 300, 5000),
]
