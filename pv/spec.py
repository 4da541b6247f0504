"""
Form specifications: random generation, construction of the real pilo form, and
an independent executable model of what mapping it must give.

The model never calls into pilo.  It works on plain data, with its own markers
for "none", "error" and "not set", and yields values, an error list of
(kind, location) pairs and a trace of the user hooks that must have run.
"""
import datetime
import decimal
import json
import re
import uuid
import zlib


MATCH = type(re.match('', ''))


class Marker(object):

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<{0}>'.format(self.name)


ABSENT = Marker('ABSENT')    # pilo.NONE
BAD = Marker('BAD')          # pilo.ERROR
UNSET = Marker('UNSET')      # pilo.NOT_SET
MARKERS = (ABSENT, BAD, UNSET)


def marked(value):
    return value is ABSENT or value is BAD or value is UNSET


VALUE_ERRORS = [
    lambda: ValueError('hook raises'),
    lambda: b'\xff'.decode('utf-8'),
    lambda: json.loads('{'),
    lambda: ValueError(),
]


class ModelValueError(Exception):
    """A ValueError or SourceError on its way to the enclosing field."""


class ModelKeyError(Exception):
    """An exception the library does not turn into an error."""


class MForm(object):

    def __init__(self, name, values=None):
        self.name = name
        self.values = {} if values is None else values

    def __repr__(self):
        return 'MForm({0}, {1!r})'.format(self.name, self.values)


def canon(value):
    """
    A comparable, type-exact rendering of a value.  Dicts keep their order,
    forms do not.
    """
    import pilo
    if isinstance(value, (pilo.Form, MForm)):
        if isinstance(value, MForm):
            name, items = value.name, value.values.items()
        else:
            name, items = type(value).__name__, dict.items(value)
        return ('form', name, tuple(sorted((repr(k), canon(v)) for k, v in items)))
    if isinstance(value, bool) or value is None:
        return ('const', repr(value))
    if isinstance(value, float):
        return ('float', repr(value))
    if isinstance(value, int):
        return ('int', value)
    if isinstance(value, str):
        return ('str', value)
    if isinstance(value, dict):
        return (type(value).__name__, tuple((canon(k), canon(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(canon(v) for v in value))
    if isinstance(value, decimal.Decimal):
        return ('decimal', str(value))
    if isinstance(value, MATCH):
        return ('match', value.span(), value.groups(), tuple(sorted(value.groupdict().items())))
    if isinstance(value, Marker) or type(value).__name__ == '_Constant':
        return ('marker', value.name)
    text = repr(value)
    if ' at 0x' in text:
        # a container of a source, passed through as it is
        text = len(value) if hasattr(value, '__len__') else ''
    return (type(value).__name__, text)


def unordered(c):
    """canon() with dict order forgotten."""
    if isinstance(c, tuple) and len(c) == 2 and c[0] == 'dict':
        return ('dict', tuple(sorted((repr(unordered(k)), unordered(v)) for k, v in c[1])))
    if isinstance(c, tuple):
        return tuple(unordered(x) for x in c)
    return c


def crc(value):
    return zlib.crc32(repr(canon(value)).encode('utf-8', 'surrogatepass'))


def path_text(parts):
    out = []
    for i, part in enumerate(parts):
        if i == 0:
            out.append(str(part))
        elif isinstance(part, int):
            out.append('[{0}]'.format(part))
        else:
            out.append('.{0}'.format(part))
    return ''.join(out)


# --------------------------------------------------------------------------
# hook behaviours: value -> action

def bump(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, (int, decimal.Decimal)):
        return v + 1
    if isinstance(v, float):
        return v + 0.5
    if isinstance(v, list):
        return v + v[:1]
    if isinstance(v, tuple):
        return v[::-1]
    return v


def behave(name, v):
    if name == 'id':
        return ('v', v)
    if name == 'bump':
        return ('v', bump(v))
    if name == 'none':
        return ('none',)
    if name == 'null':
        return ('v', None)
    if name == 'error':
        return ('error',)
    if name == 'raiseV':
        return ('raise', 'V')
    if name == 'raiseK':
        return ('raise', 'K')
    if name == 'pick':
        return [('v', v), ('none',), ('v', bump(v)), ('v', v)][crc(v) % 4]
    if name == 'true':
        return ('v', True)
    if name == 'false':
        return ('v', False)
    if name == 'coin':
        return ('v', crc(v) % 3 != 0)
    if name == 'loose':
        return ('v', [True, False, 1, 0, 'yes', '', None, [0], []][crc(v) % 9])
    if name == 'report':
        return ('report',) if crc(v) % 2 else ('v', True)
    if name.startswith('const:'):
        return ('v', CONSTS[int(name[6:])])
    raise KeyError(name)


CONSTS = [5, 'abc', 'a', None, 1.5, ['a', 'b'], {'k': 1}, True, 0, '']

HOOK_CHOICES = {
    'munge': ['id', 'bump', 'bump', 'none', 'null', 'error', 'pick'],
    'filter': ['true', 'false', 'coin', 'coin', 'loose', 'loose'],
    'validate': ['true', 'false', 'coin', 'report', 'report', 'loose', 'loose'],
    'parse': ['id', 'bump', 'none', 'null', 'error', 'raiseV', 'const:0', 'const:1'],
    'compute': ['const:0', 'const:1', 'const:2', 'const:3', 'none', 'error', 'const:5'],
    'default': ['const:0', 'const:1', 'const:3', 'const:5'],
    'resolve': ['stay', 'other'],
}


class HookRaised(KeyError):
    pass


# --------------------------------------------------------------------------
# model state

class Err(tuple):
    """(kind, location), and the field it is about."""

    fid = None


class State(object):

    def __init__(self, source='native', prefix='', ignore_default=False, ignore_missing=False):
        self.source = source
        self.prefix = prefix
        self.errors = []
        self.trace = []
        self.default_calls = []
        self.ignore_default = ignore_default
        self.ignore_missing = ignore_missing
        self.ctx_tags = None
        self.forms = []
        self.fields = []
        self.scenes = []

    def where(self, node):
        return self.prefix + path_text(node.parts)

    def error(self, kind, node):
        err = Err((kind, self.where(node)))
        err.fid = self.fields[-1] if self.fields else None
        self.errors.append(err)

    def invalid(self, node):
        self.error('Invalid', node)

    def missing(self, node):
        self.error('Missing', node)

    def act(self, field, step, node, value=ABSENT):
        """Runs a user hook."""
        self.scenes.append((field.fid, step, self.fields[-1], self.where(node)))
        if step == 'resolve':
            self.trace.append((field.fid, step, self.forms[-1], None))
            return
        args = None if value is ABSENT else canon(value)
        self.trace.append((field.fid, step, self.forms[-1], args))
        action = behave(field.hooks[step], None if value is ABSENT else value)
        if action[0] == 'v':
            return action[1]
        if action[0] == 'none':
            return ABSENT
        if action[0] == 'error':
            self.invalid(node)
            return BAD
        if action[0] == 'report':
            self.invalid(node)
            return False
        if action[0] == 'raise':
            raise (ModelValueError if action[1] == 'V' else ModelKeyError)()
        raise KeyError(action)


class Node(object):
    """A location in plain data."""

    def __init__(self, value, parts=()):
        self.value = value
        self.parts = parts

    def child(self, key):
        return Node(lookup(self.value, key), self.parts + (key,))


def lookup(value, key):
    if isinstance(value, dict):
        return value[key] if key in value else ABSENT
    if isinstance(value, (list, tuple)):
        if isinstance(key, int) and not isinstance(key, bool) and key < len(value):
            return value[key]
        return ABSENT
    return ABSENT


def is_mapping(v):
    return isinstance(v, dict)


def is_sequence(v):
    return isinstance(v, (list, tuple))


TRUE_WORDS = ('1', 't', 'true')
FALSE_WORDS = ('0', 'f', 'false')


def convert(kind, source, v):
    """The documented conversions; raises ModelValueError."""
    is_int = isinstance(v, int) and not isinstance(v, bool)
    if kind == 'str':
        if isinstance(v, str):
            return v
        if source == 'lenient':
            return str(v)
    elif kind == 'int':
        if is_int:
            return v
        if source != 'strict':
            if isinstance(v, float) and v.is_integer():
                return int(v)
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    pass
    elif kind == 'float':
        if isinstance(v, float):
            return v
        if isinstance(v, int) and (is_int or True):
            try:
                return float(v)
            except OverflowError:
                raise ModelValueError()
        if source != 'strict' and isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                pass
    elif kind == 'bool':
        if isinstance(v, bool):
            return v
        if isinstance(v, int) and source != 'strict':
            return v != 0
        if source == 'native' and isinstance(v, str):
            if v.lower() in TRUE_WORDS:
                return True
            if v.lower() in FALSE_WORDS:
                return False
    else:
        raise KeyError(kind)
    raise ModelValueError()


# --------------------------------------------------------------------------
# field specifications

OWN = Marker('OWN')   # source key is the name


class F(object):

    kind = 'Field'

    def __init__(self, src=OWN, **opts):
        self.src = src
        self.fid = None
        self.name = None
        self.nullable = opts.pop('nullable', None)          # None: not declared
        self.default = opts.pop('default', None)            # None or (how, value)
        self.ignore = opts.pop('ignore', [])
        self.translate = opts.pop('translate', {})
        self.tags = opts.pop('tags', [])
        self.hooks = opts.pop('hooks', {})
        self.resolve_key = opts.pop('resolve_key', None)
        self.chain = opts.pop('chain', False)               # declare by setters
        self.c = opts                                       # own constraints

    # description

    def children(self):
        return []

    def describe(self):
        bits = []
        if self.src is not OWN:
            bits.append('src={0!r}'.format(self.src))
        for k in ('nullable', 'default', 'ignore', 'translate', 'tags', 'hooks'):
            v = getattr(self, k)
            if v or (k == 'nullable' and v is not None):
                bits.append('{0}={1!r}'.format(k, v))
        for k in sorted(self.c):
            bits.append('{0}={1!r}'.format(k, self.c[k]))
        for child in self.children():
            bits.append(child.describe())
        return '{0}({1})'.format(self.kind, ', '.join(bits))

    __repr__ = describe

    def shape(self):
        """What kind of declaration this is, values forgotten."""
        return (self.kind, self.src is OWN, self.nullable, self.default and self.default[0], bool(self.ignore),
                bool(self.translate), tuple(sorted(self.hooks.items())), tuple(sorted(self.c)),
                tuple(c.shape() for c in self.children()))

    def walk(self):
        yield self
        for child in self.children():
            for f in child.walk():
                yield f

    # construction of the real field

    def make(self, b, args, kwargs):
        raise NotImplementedError

    def build(self, b):
        import pilo
        args, kwargs, after = [], {}, []
        if self.src is None or self.src is not OWN:
            args.append(self.src)
        late = {}
        target = late if self.chain else kwargs
        if self.nullable is not None:
            target['nullable'] = self.nullable
        if self.default is not None and self.default[0] != 'hook':
            how, value = self.default
            if how == 'literal':
                target['default'] = value
            elif how == 'callable':
                target['default'] = b.default_callable(self, value)
            elif how == 'callable-none':
                target['default'] = b.default_callable(self, pilo.NONE)
            elif how == 'none':
                target['default'] = pilo.NONE
            elif how == 'optional':
                target['optional'] = True
        if self.ignore:
            if self.chain:
                after.append(lambda f: f.ignore(*self.ignore))
            else:
                kwargs['ignore'] = None     # replaced below
                del kwargs['ignore']
                after.append(lambda f: f.ignore(*self.ignore))
        if self.translate:
            if self.chain:
                after.append(lambda f: f.translate(dict(self.translate)))
            else:
                kwargs['translate'] = dict(self.translate)
        if self.tags:
            after.append(lambda f: f.tag(*self.tags))
        field = self.make(b, args, kwargs, after)
        if late:
            got = field.options(**late)
            assert got is field
        for fn in after:
            got = fn(field)
            if got is not None and got is not field:
                raise AssertionError('setter does not return its field')
        for step in sorted(self.hooks):
            b.attach_hook(field, self, step)
        b.ids[id(field)] = (self.fid, field)
        return field

    # model

    def located(self, M, node):
        if 'resolve' in self.hooks:
            M.act(self, 'resolve', node)
            if self.hooks['resolve'] == 'other':
                return node.child(self.resolve_key)
            return node
        if self.src is OWN:
            return node.child(self.name) if self.name is not None else node
        if self.src is None:
            return node
        return node.child(self.src)

    def take_default(self, M, node):
        if M.ignore_default or self.default is None:
            if not M.ignore_missing:
                M.missing(node)
            return UNSET
        how, value = self.default
        if how in ('none', 'optional'):
            return ABSENT
        if how == 'hook':
            return M.act(self, 'default', node)
        if how in ('callable', 'callable-none'):
            M.default_calls.append(self.fid)
        if how == 'callable-none':
            return ABSENT
        return value

    def computed(self, M, node):
        if node.value is ABSENT:
            return ABSENT
        if node.value is None:
            return None
        try:
            if 'parse' in self.hooks:
                return M.act(self, 'parse', node, node.value)
            return self.parse(M, node)
        except ModelValueError:
            M.invalid(node)
            return BAD

    def parse(self, M, node):
        return node.value

    def acceptable(self, M, node, value):
        """True if the built-in constraints hold."""
        return True

    def admits(self, value):
        if value is None:
            nullable = self.nullable
            if self.default == ('literal', None):
                nullable = True
            return nullable is None or bool(nullable)
        return self.conforms(value)

    def conforms(self, value):
        return True

    def translated(self, value):
        for k, v in self.translate.items():
            if type(k) is type(value) and k == value:
                return v
        return value

    def map(self, M, node, value=ABSENT):
        M.fields.append(self.fid)
        try:
            return self.steps(M, node, value)
        finally:
            M.fields.pop()

    def steps(self, M, node, value):
        if value is ABSENT:
            node = self.located(M, node)
            if 'compute' in self.hooks:
                value = M.act(self, 'compute', node)
            else:
                value = self.computed(M, node)
            if value is ABSENT:
                return self.take_default(M, node)
            if marked(value):
                return value
        value = self.translated(value)
        if 'munge' in self.hooks:
            value = M.act(self, 'munge', node, value)
        if value is ABSENT:
            return self.take_default(M, node)
        if marked(value):
            return value
        if any(v == value for v in self.ignore):
            return self.take_default(M, node)
        if 'filter' in self.hooks and not M.act(self, 'filter', node, value):
            return self.take_default(M, node)
        if not self.admits(value):
            M.invalid(node)
            return BAD
        if 'validate' in self.hooks and not M.act(self, 'validate', node, value):
            return BAD
        return value


class AnyF(F):

    kind = 'Field'

    def make(self, b, args, kwargs, after):
        return b.F.Field(*args, **kwargs)


class StringF(F):

    kind = 'String'

    def make(self, b, args, kwargs, after):
        c = dict(self.c)
        if 'pattern' in c and c.pop('compiled', False):
            c['pattern'] = re.compile(c['pattern'])
        c.pop('compiled', None)
        kwargs.update(c)
        return b.F.String(*args, **kwargs)

    def parse(self, M, node):
        return convert('str', M.source, node.value)

    def conforms(self, v):
        c = self.c
        if not isinstance(v, str):
            # a translated or munged value, or a key that is not text
            if 'alphabet' in c or 'pattern' in c or 'length' in c or 'min_length' in c or 'max_length' in c:
                return False
            if 'choices' in c:
                return any(type(x) is type(v) and x == v for x in list(c['choices']) + list(self.translate.values()))
            return True
        if 'alphabet' in c and any(ch not in c['alphabet'] for ch in v):
            return False
        lo, hi = c.get('min_length'), c.get('max_length')
        if 'length' in c:
            lo, hi = c['length'] if isinstance(c['length'], (list, tuple)) else (c['length'], c['length'])
        if lo is not None and len(v) < lo:
            return False
        if hi is not None and len(v) > hi:
            return False
        if 'pattern' in c and re.compile(c['pattern']).match(v) is None:
            return False
        if 'choices' in c and v not in c['choices'] and v not in list(self.translate.values()):
            return False
        return True


class NumberF(F):

    conv = None

    def make(self, b, args, kwargs, after):
        c = dict(self.c)
        lo, hi = c.get('lo'), c.get('hi')
        if self.chain:
            if lo is not None and hi is not None and self.c.get('both'):
                after.append(lambda f: f.range(lo, hi))
            else:
                if lo is not None:
                    after.append(lambda f: f.min(lo))
                if hi is not None:
                    after.append(lambda f: f.max(hi))
        elif lo is not None and hi is not None and c.get('both'):
            kwargs['range'] = (lo, hi)
        else:
            if lo is not None:
                kwargs['min_value'] = lo
            if hi is not None:
                kwargs['max_value'] = hi
        return getattr(b.F, self.kind)(*args, **kwargs)

    def parse(self, M, node):
        return convert(self.conv, M.source, node.value)

    def conforms(self, v):
        lo, hi = self.c.get('lo'), self.c.get('hi')
        if lo is None and hi is None:
            return True
        if v != v:
            return False
        try:
            return (lo is None or lo <= v) and (hi is None or v <= hi)
        except TypeError:
            return False


class IntegerF(NumberF):

    kind = 'Integer'
    conv = 'int'


class FloatF(NumberF):

    kind = 'Float'
    conv = 'float'


class DecimalF(NumberF):

    kind = 'Decimal'

    def parse(self, M, node):
        v = node.value
        if isinstance(v, decimal.Decimal):
            if v.is_snan():
                raise ModelValueError()
            return v
        if isinstance(v, (int, float)):
            return decimal.Decimal(v)
        text = convert('str', M.source, v)
        try:
            d = decimal.Decimal(text)
        except decimal.InvalidOperation:
            raise ModelValueError()
        if d.is_snan():
            raise ModelValueError()
        return d


class BooleanF(F):

    kind = 'Boolean'

    def make(self, b, args, kwargs, after):
        return getattr(b.F, self.c.get('alias', 'Boolean'))(*args, **kwargs)

    def parse(self, M, node):
        return convert('bool', M.source, node.value)


class DateF(F):

    kind = 'Date'

    def make(self, b, args, kwargs, after):
        kwargs['format'] = '%Y-%m-%d'
        return b.F.Date(*args, **kwargs)

    def parse(self, M, node):
        if isinstance(node.value, datetime.date):
            return node.value
        text = convert('str', M.source, node.value)
        try:
            return datetime.datetime.strptime(text, '%Y-%m-%d').date()
        except ValueError:
            raise ModelValueError()


class UUIDF(F):

    kind = 'UUID'

    def make(self, b, args, kwargs, after):
        return b.F.UUID(*args, **kwargs)

    def parse(self, M, node):
        if isinstance(node.value, uuid.UUID):
            return node.value
        text = convert('str', M.source, node.value)
        try:
            return uuid.UUID(text)
        except ValueError:
            raise ModelValueError()


class ListF(F):

    kind = 'List'

    def __init__(self, field, **kwargs):
        self.field = field
        super(ListF, self).__init__(**kwargs)

    def children(self):
        return [self.field]

    def make(self, b, args, kwargs, after):
        c = self.c
        lo, hi = c.get('lo'), c.get('hi')
        if c.get('allow_field'):
            kwargs['allow_field'] = True
        if self.chain:
            if lo is not None and hi is not None:
                after.append(lambda f: f.range(lo, hi))
            elif lo is not None:
                after.append(lambda f: f.min(lo))
            elif hi is not None:
                after.append(lambda f: f.max(hi))
        elif lo is not None and hi is not None and c.get('both'):
            kwargs['length'] = (lo, hi)
        else:
            if lo is not None:
                kwargs['min_length'] = lo
            if hi is not None:
                kwargs['max_length'] = hi
        if isinstance(self.field, SubFormF) and c.get('bare_form') and not c.get('kw') and self.field.plain():
            item = self.field.form.build(b)
        else:
            item = self.field.build(b)
        if c.get('kw'):
            kwargs['field'] = item
        else:
            args.append(item)
        field = b.F.List(*args, **kwargs)
        if isinstance(item, type):
            b.bare.append((self, field))
        return field

    def parse(self, M, node):
        if is_sequence(node.value):
            out = []
            for i in range(len(node.value)):
                item = self.field.map(M, node.child(i))
                if not marked(item):
                    out.append(item)
            return out
        if not self.c.get('allow_field'):
            raise ModelValueError()
        item = self.field.map(M, node)
        return item if marked(item) else [item]

    def conforms(self, v):
        lo, hi = self.c.get('lo'), self.c.get('hi')
        return (lo is None or len(v) >= lo) and (hi is None or len(v) <= hi)


class TupleF(F):

    kind = 'Tuple'

    def __init__(self, fields, **kwargs):
        self.fields = fields
        super(TupleF, self).__init__(**kwargs)

    def children(self):
        return self.fields

    def make(self, b, args, kwargs, after):
        items = [f.build(b) for f in self.fields]
        if self.src is None:
            args = []
            after.append(lambda f: setattr(f, 'src', None))
        if len(items) == 1 or not self.c.get('splat'):
            args.append(tuple(items) if self.c.get('tuple', True) else items)
        else:
            args.extend(items)
        return b.F.Tuple(*args, **kwargs)

    def parse(self, M, node):
        if not is_sequence(node.value):
            raise ModelValueError()
        if len(node.value) != len(self.fields):
            M.invalid(node)
            return BAD
        out = []
        for i, field in enumerate(self.fields):
            item = field.map(M, node.child(i))
            if not marked(item):
                out.append(item)
        return tuple(out)


class DictF(F):

    kind = 'Dict'

    def __init__(self, key, value, **kwargs):
        self.key, self.value_field = key, value
        super(DictF, self).__init__(**kwargs)

    def children(self):
        return [self.key, self.value_field]

    def make(self, b, args, kwargs, after):
        c = self.c
        if c.get('required_keys'):
            rk = c['required_keys']
            kwargs['required_keys'] = set(rk) if c.get('as_set', True) else list(rk)
        if c.get('max_keys') is not None:
            kwargs['max_keys'] = c['max_keys']
        key, value = self.key.build(b), self.value_field.build(b)
        field = b.F.Dict(key, value, *args, **kwargs)
        if c.get('key_filter') is not None:
            residue = c['key_filter']

            def key_filter(self, key):
                return crc(key) % 3 != residue

            assert field.key_filter(key_filter) is field
        return field

    def parse(self, M, node):
        if not is_mapping(node.value):
            raise ModelValueError()
        out = {}
        for key in list(node.value):
            if self.c.get('key_filter') is not None and crc(key) % 3 == self.c['key_filter']:
                continue
            value = self.value_field.map(M, node.child(key))
            if marked(value):
                continue
            mapped = self.key.map(M, node, key)
            if marked(mapped):
                continue
            out[mapped] = value
        return out

    def conforms(self, v):
        c = self.c
        if c.get('required_keys') and not set(c['required_keys']) <= set(v):
            return False
        return c.get('max_keys') is None or len(v) <= c['max_keys']


class SubFormF(F):

    kind = 'SubForm'

    def __init__(self, form, **kwargs):
        self.form = form
        super(SubFormF, self).__init__(**kwargs)

    def plain(self):
        return (self.src is OWN and self.nullable is None and self.default is None and not self.ignore and
                not self.translate and not self.hooks and not self.c.get('unmapped') and not self.tags)

    def children(self):
        return list(self.form.fields.values())

    def make(self, b, args, kwargs, after):
        form = self.form.build(b)
        if self.c.get('unmapped'):
            kwargs['unmapped'] = self.c['unmapped']
        if self.src is None and self.c.get('flat'):
            args = []
            kwargs['flat'] = True
        if self.c.get('form_last'):
            args = args + [form]
        else:
            args = [form] + args
        return b.F.SubForm(*args, **kwargs)

    def parse(self, M, node):
        saved, M.errors = M.errors, []
        try:
            form = self.form.map(M, node, unmapped=self.c.get('unmapped', 'ignore'))
            nested = M.errors
        finally:
            M.errors = saved
        M.errors.extend(nested)
        return BAD if nested else form


class GroupF(F):
    """Patterns: (text or ('re', text), field)."""

    kind = 'Group'

    def __init__(self, patterns, **kwargs):
        self.patterns = patterns
        kwargs['src'] = None
        super(GroupF, self).__init__(**kwargs)

    def children(self):
        return [f for _, f in self.patterns]

    def describe(self):
        return 'Group<{0}>({1})'.format(
            super(GroupF, self).describe(), ', '.join('({0!r}, {1})'.format(p, f.describe()) for p, f in self.patterns))

    def make(self, b, args, kwargs, after):
        items = []
        for pattern, field in self.patterns:
            built = field.build(b)
            if isinstance(pattern, tuple):
                items.append((re.compile(pattern[1]), built))
            elif self.c.get('bare'):
                built.src = pattern
                items.append(built)
            else:
                items.append((pattern, built))
        if self.c.get('nested') and len(items) > 1:
            items = [items[0], items[1:]]
        return b.F.Group(*items, **kwargs)

    def take_default(self, M, node):
        if self.default is None:
            if M.ignore_default:
                if not M.ignore_missing:
                    M.missing(node)
                return UNSET
            return []
        return super(GroupF, self).take_default(M, node)

    def parse(self, M, node):
        if not is_mapping(node.value):
            raise ModelValueError()
        hits, out = 0, []
        for key in list(node.value):
            for pattern, field in self.patterns:
                captures = None
                if isinstance(pattern, tuple):
                    m = re.compile(pattern[1]).match(key)
                    if m is None:
                        continue
                    captures = m
                elif pattern != key:
                    continue
                hits += 1
                value = field.map(M, node.child(key))
                if not marked(value):
                    out.append((key, captures, value))
                break
        return out if hits else ABSENT


class Form(object):

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields         # name -> F, in declaration order
        for key, f in fields.items():
            f.name = key

    def describe(self):
        return '{0}{{{1}}}'.format(self.name, ', '.join('{0}: {1}'.format(k, f.describe()) for k, f in self.fields.items()))

    __repr__ = describe

    def shape(self):
        return tuple(f.shape() for f in self.fields.values())

    def walk(self):
        for f in self.fields.values():
            for g in f.walk():
                yield g

    def number(self, start=0):
        """Gives every field an id."""
        n = start
        for f in self.walk():
            f.fid = n
            n += 1
        return self

    def build(self, b):
        if self.name not in b.classes:
            body = {}
            for key, f in self.fields.items():
                body[key] = f.build(b)
            b.classes[self.name] = type(self.name, (b.pilo.Form,), body)
        return b.classes[self.name]

    def map(self, M, node, unmapped='ignore', tags=None, form=None):
        if not is_mapping(node.value):
            raise ModelValueError()
        form = MForm(self.name) if form is None else form
        tags = tags or M.ctx_tags
        M.forms.append(self.name)
        try:
            for key, f in self.fields.items():
                if tags and not set(tags) & set(f.tags):
                    continue
                value = f.map(M, node)
                if not marked(value):
                    form.values[key] = value
        finally:
            M.forms.pop()
        if unmapped == 'capture':
            for key in list(node.value):
                if key not in form.values:
                    form.values[key] = node.value[key]
        return form


class Builder(object):
    """Builds real forms; its trace receives what the real hooks saw."""

    def __init__(self):
        import pilo
        from pilo import fields
        self.pilo = pilo
        self.F = fields
        self.classes = {}
        self.trace = []
        self.default_calls = []
        self.ids = {}
        self.bare = []
        self.scenes = []
        self.look = None

    def fid(self, field):
        """The id of the declaration a real field was made of."""
        if id(field) in self.ids:
            return self.ids[id(field)][0]
        # a form given to a list is put in a field of its own
        for spec in self.bare:
            if field is spec[1].field:
                return spec[0].field.fid
        return 'no field of the form'

    def scene(self, spec, step, form):
        """What a hook sees around it, if anyone looks."""
        if self.look is not None:
            self.scenes.append((spec.fid, step) + self.look(form))

    def default_callable(self, spec, value):
        def default():
            self.default_calls.append(spec.fid)
            return value
        return default

    def attach_hook(self, field, spec, step):
        pilo, trace, name, builder = self.pilo, self.trace, spec.hooks[step], self

        def run(form, value):
            args = None if value is ABSENT else canon(value)
            trace.append((spec.fid, step, type(form).__name__, args))
            self.scene(spec, step, form)
            action = behave(name, None if value is ABSENT else value)
            if action[0] == 'v':
                return action[1]
            if action[0] == 'none':
                return pilo.NONE
            if action[0] == 'error':
                pilo.ctx.errors.invalid('hook says so')
                return pilo.ERROR
            if action[0] == 'report':
                pilo.ctx.errors.invalid('hook reports')
                return False
            if action[0] == 'raise':
                if action[1] == 'V':
                    raise VALUE_ERRORS[sum(map(ord, str(spec.fid) + step)) % len(VALUE_ERRORS)]()
                raise HookRaised('hook raises')

        if step in ('munge', 'filter', 'validate'):
            def hook(self, value):
                return run(self, value)
        elif step == 'parse':
            def hook(self, path):
                return run(self, path.primitive())
        elif step == 'resolve':
            def hook(self):
                trace.append((spec.fid, step, type(self).__name__, None))
                builder.scene(spec, step, self)
                if name == 'other':
                    return pilo.ctx(src=spec.resolve_key)
                return None
        else:
            def hook(self):
                return run(self, ABSENT)
        getattr(field, step)(hook)


def outcome_errors(errors):
    """(kind, location) of real errors; the location as the message has it."""
    out = []
    for e in errors:
        text = str(e)
        out.append((type(e).__name__, text.split(' - ', 1)[0]))
    return out


def model_root(form, data, source='native', **kwargs):
    """Runs the model: ('ok', form, errors) or ('raises', kind)."""
    flags = dict((k, kwargs.pop(k)) for k in ('ignore_default', 'ignore_missing', 'prefix') if k in kwargs)
    M = State(source, **flags)
    try:
        result = form.map(M, Node(data), **kwargs)
    except ModelKeyError:
        return M, ('raises', 'KeyError')
    except ModelValueError:
        return M, ('raises', 'ValueError')
    return M, ('ok', result)


def real_root(cls, src, form=None, **kwargs):
    """Runs pilo: the form, and ('ok', errors) or ('raises', exception)."""
    form = cls() if form is None else form
    try:
        errors = form.map(src, **kwargs)
    except HookRaised as ex:
        return form, ('raises', 'KeyError', ex)
    except Exception as ex:
        import pilo
        if isinstance(ex, (ValueError, pilo.SourceError)):
            return form, ('raises', 'ValueError', ex)
        return form, ('raises', type(ex).__name__, ex)
    return form, ('ok', errors)
