F = 'pilo/fields.py'
C = 'pilo/context.py'
I = 'pilo/__init__.py'
S = 'pilo/source/__init__.py'
D = 'pilo/source/default.py'
J = 'pilo/source/json.py'
G = 'pilo/source/configparser.py'
M = 'pilo/source/mount.py'
U = 'pilo/source/union.py'

BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('filter-hook-first', 'C01', 'a field with both ignored values and a filter hook, given an ignored value',
    'the user filter hook runs before the built-in filter, so it is handed values the built-in step rejects',
    [(F, "if not self._filter(value) or (self.filter and not self.filter(value)):", "if (self.filter and not self.filter(value)) or not self._filter(value):")],
    '''
import pilo
from pilo import fields

seen = []


class A(pilo.Form):

    x = fields.Integer(default=0).ignore(7)

    @x.filter
    def x(self, value):
        seen.append(value)
        return True


assert A(x=3).x == 3 and seen == [3], seen
assert A(x=7).x == 0 and seen == [3], seen
''')

bug('hook-validate-hides', 'C01', 'a validate hook on a field whose built-in validation rejects the value',
    'the validate hook replaces the built-in validation instead of following it',
    [(F, "if not self._validate(value) or (self.validate and not self.validate(value)):", "valid = self.validate if self.validate else self._validate\n            if not valid(value):")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(default=0).max(10)

    @x.validate
    def x(self, value):
        return True


form = A()
assert len(form.map({'x': 11})) == 1, form
assert 'x' not in form, form
''')

bug('bool-range-zero', 'C02', 'a number field with a zero bound',
    'a bound of zero given to the constructor is dropped',
    [(F, "            self.min_value = kwargs.pop('min_value', None)\n", "            self.min_value = kwargs.pop('min_value', None) or None\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Float(min_value=0)


assert len(A().map({'x': -0.5})) == 1
''')

bug('alphabet-prefix', 'C02', 'text whose only foreign character follows a long run of good ones',
    'the alphabet is only applied to the first max_length characters, or 64 without one',
    [(F, "invalid = list(set(c for c in value if c not in self.alphabet))", "invalid = list(set(c for c in value[:self.max_length or 64] if c not in self.alphabet))")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(alphabet='ab')


assert len(A().map({'x': 'a' * 100 + 'c'})) == 1
''')

bug('int-float-text', 'C03', 'integer text of more than 15 digits',
    'integer text goes through float, so big integers come out as other integers',
    [(S, "                value = int(value)\n            except (ValueError, TypeError):", "                value = int(float(value)) if 'e' in value or '.' in value or len(value) > 15 else int(value)\n            except (ValueError, TypeError, OverflowError):")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()


assert A(x='12345678901234567').x == 12345678901234567
''')

bug('json-strict-bool', 'C03', 'strict JSON with 0 or 1 for a boolean',
    'strict JSON takes the integers 0 and 1 for booleans',
    [(J, "        if isinstance(value, bool):\n            return value\n        if not self.strict:\n            if isinstance(value, int):", "        if value in (True, False):\n            return bool(value)\n        if not self.strict:\n            if isinstance(value, int):")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    x = fields.Boolean()


assert A(source.JsonSource('{"x": true}', strict=True)).x is True
assert len(A().map(source.JsonSource('{"x": 1}', strict=True))) == 1
''')

bug('date-formats-break', 'C04', 'a list of date formats in which iso8601 comes before the one that matches',
    'text in a later format is stored as null: after iso8601 fails no other format is tried',
    [(F, "                    return iso8601.parse_date(value).date()\n                except iso8601.ParseError as ex:\n", "                    return iso8601.parse_date(value).date()\n                except iso8601.ParseError as ex:\n                    if ' ' in value:\n                        break\n")],
    '''
import datetime
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Date(format=['iso8601', '%d %m %Y'])


assert A(x='03 04 2001').x == datetime.date(2001, 4, 3)
''')

bug('date-after-exclusive', 'C04', 'a moment equal to the bound of a datetime field',
    'the after bound of datetimes compares without the sub-second part, rejecting the bound itself',
    [(F, '''            if self.after_value is not None and value < self.after_value:
                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                return False
            if self.before_value is not None and value > self.before_value:
                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                return False
        return True


class Tuple(Field):''', '''            if self.after_value is not None and value.replace(microsecond=0) < self.after_value:
                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                return False
            if self.before_value is not None and value > self.before_value:
                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                return False
        return True


class Tuple(Field):''')],
    '''
import datetime
import pilo
from pilo import fields

bound = datetime.datetime(2001, 2, 3, 4, 5, 6, 700)


class A(pilo.Form):

    x = fields.Datetime().after(bound)


assert A(x=bound).x == bound
''')

bug('default-callable-twice', 'C06', 'a callable default that yields an empty value',
    'a callable default is called once more to see whether it yields something',
    [(F, "        if isinstance(self.default, type) or callable(self.default):\n            return self.default()\n        return self.default", "        if isinstance(self.default, type) or callable(self.default):\n            return self.default() or self.default()\n        return self.default")],
    '''
import pilo
from pilo import fields

calls = []


def fresh():
    calls.append(1)
    return []


class A(pilo.Form):

    x = fields.List(fields.Integer(), default=fresh)


assert A({}).x == []
assert len(calls) == 1, calls
''')

bug('ignores-strings', 'C06', 'an ignored value of another type that prints the same',
    'ignored values are compared as text',
    [(F, "        if self.ignores and value in self.ignores:\n            return False", "        if self.ignores and str(value) in [str(v) for v in self.ignores]:\n            return False")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Field(default=0).ignore(None)


assert A(x='None').x == 'None'
''')

bug('group-strings-first', 'C07', 'a group with a pattern before a literal that match the same key',
    'a literal key is preferred to an earlier pattern',
    [(F, "        for src, field in self.fields:\n            if isinstance(src, six.string_types):\n                if src == key:", "        for src, field in sorted(self.fields, key=lambda f: not isinstance(f[0], six.string_types)):\n            if isinstance(src, six.string_types):\n                if src == key:")],
    '''
import re
import pilo
from pilo import fields


class A(pilo.Form):

    g = fields.Group((re.compile('a(.)'), fields.Integer()), ('ab', fields.String()))


(key, match, value), = A({'ab': '12'}).g
assert value == 12 and match.group(1) == 'b', A({'ab': '12'})
''')

bug('reset-all-tags', 'C08', 'reset with several tags of which a field bears one',
    'reset only clears fields bearing all of the tags',
    [(F, "            if tags and not tags & set(field.tags.keys()):\n                continue\n            try:\n                field.__delete__(self)", "            if tags and not tags <= set(field.tags.keys()):\n                continue\n            try:\n                field.__delete__(self)")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(optional=True).tag('a')


form = A(x=1)
form.map({}, tags=['a', 'b'], reset=True)
assert 'x' not in form, form
''')

bug('values-for-dedup', 'C10', 'the same value pushed twice for a context variable',
    'values_for leaves out values that repeat',
    [(C, "        return [getattr(frame, k) for frame in self.stack if hasattr(frame, k)]", "        values = []\n        for frame in self.stack:\n            if hasattr(frame, k) and frame[k] not in values[-1:]:\n                values.append(frame[k])\n        return values")],
    '''
import pilo

with pilo.ctx(x=1):
    with pilo.ctx(x=1):
        assert pilo.ctx.values_for('x') == [1, 1], pilo.ctx.values_for('x')
''')

bug('close-on-error', 'C10', 'KeyboardInterrupt or another non-Exception leaving a pushed scope',
    'a scope left by SystemExit or another non-Exception is not restored',
    [(C, "        if not self.disable:\n            self.func()", "        if not self.disable and (type is None or issubclass(type, Exception)):\n            self.func()")],
    '''
import pilo

try:
    with pilo.ctx(x=1):
        raise KeyboardInterrupt()
except KeyboardInterrupt:
    pass
assert not hasattr(pilo.ctx, 'x')
''')

bug('types-published-early', 'C11', 'two threads making the first probe of a polymorphic type field at once',
    'the table of types is visible to other threads while it is being filled',
    [(F, "        if not self.types:\n            self.types = Types.map(self)\n", "        if self.types is None:\n            self.types = Types.for_field(self)\n            self.types.update(Types.map(self))\n")],
    '''
import sys
import threading
import pilo
from pilo import fields


class Base(pilo.Form):

    kind = fields.Type.abstract()


class One(Base):

    kind = fields.Type.instance('one')


for n in range(40):
    class Other(Base):

        kind = fields.Type.instance('other%s' % n)

inside, go = threading.Event(), threading.Event()
real = pilo.Types.map.__func__


def slow(cls, field):
    inside.set()
    go.wait(5)
    return real(cls, field)


pilo.Types.map = classmethod(slow)
out = []


def work():
    try:
        out.append(Base.kind.cast({'kind': 'one'}))
    except Exception as ex:
        out.append(ex)


a = threading.Thread(target=work)
b = threading.Thread(target=work)
a.start()
inside.wait(5)
b.start()
b.join(1)
go.set()
a.join()
b.join()
assert out == [One, One], out
''')

bug('types-direct-subclasses', 'C12', 'a hierarchy three levels deep whose middle level declares several identities',
    'types below one that declares several identities are not found',
    [(I, "                    for value in instance.choices or []:\n                        identities[value] = form_cls", "                    for value in instance.choices or []:\n                        identities[value] = form_cls\n                    if instance.choices and len(instance.choices) > 1:\n                        return")],
    '''
import pilo
from pilo import fields


class Base(pilo.Form):

    kind = fields.Type.abstract()


class Two(Base):

    kind = fields.Type.instance('b', 'c')


class Three(Two):

    kind = fields.Type.instance('d')


assert Base.kind.cast({'kind': 'd'}) is Three
''')

bug('json-dotted-two', 'C13', 'a field read from a dotted key of three or more parts',
    'JSON resolves only two parts of a dotted key, so what a native source finds is missing',
    [(J, "            value = container\n            for atom in part.key.split('.'):\n                value = value[atom]\n            return value", "            value = container\n            for atom in part.key.split('.', 1):\n                value = value[atom]\n            return value")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    x = fields.Integer('a.b.c')


data = {'a': {'b': {'c': 3}}}
assert A(data).x == 3
assert A(source.JsonSource('{"a": {"b": {"c": 3}}}')).x == 3
''')

bug('union-last-length', 'C14', 'sequences merged by last of which the last is empty',
    'with merge last an empty last sequence does not win',
    [(U, "            elif merge == 'last':\n                sequences[0] = (path, length)", "            elif merge == 'last':\n                if length:\n                    sequences[0] = (path, length)")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    xs = fields.List(fields.Integer())


assert A(source.UnionSource([{'xs': [1]}, {'xs': []}], merge='last')).xs == []
''')

bug('union-seq-offset', 'C14', 'an item of the third or a later sequence of a combined union',
    'the items of later sequences are taken from the wrong index',
    [(U, "            offset += length\n        else:", "            offset = length\n        else:")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    xs = fields.List(fields.Integer())


form = A(source.UnionSource([{'xs': [1, 2]}, {'xs': [3]}, {'xs': [4, 5]}], merge='combine'))
assert form.xs == [1, 2, 3, 4, 5], form
''')

bug('mount-name-stripped', 'C15', 'a name that differs from a mount by surrounding white-space',
    'an unmounted name shows the content of another mount',
    [(M, "        return self.paths.get(self.part.key, self.dne) if self.part else None", "        return self.paths.get(str(self.part.key).strip(), self.dne) if self.part else None")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    x = fields.SubForm(' a ', pilo.Form, default=None)


assert A(source.MountSource(a={})).x is None
''')

bug('choices-reordered', 'C16', 'a choice other than the first, mapped by a field with a pattern, then an invalid one',
    'mapping a value reorders the declared choices, so later errors read differently',
    [(F, "        if self.pattern_re and not self.pattern_re.match(value):", "        if self.pattern_re and self.choices and value in self.choices:\n            self.choices.remove(value)\n            self.choices.insert(0, value)\n        if self.pattern_re and not self.pattern_re.match(value):")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(choices=['aa', 'ab'], pattern='a')


first = str(A().map({'x': 'ac'})[0])
A(x='ab')
again = str(A().map({'x': 'ac'})[0])
assert first == again, (first, again)
''')

bug('iso-overflow', 'C17', 'text for a date that overflows the calendar',
    'an extreme iso8601 moment escapes as an OverflowError',
    [(F, "                    return iso8601.parse_date(value).date()", "                    return (iso8601.parse_date(value) + datetime.timedelta(0, 0, 1)).date()")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Date(format='iso8601')


A().map({'x': '9999-12-31T23:59:59.999999Z'})
''')

bug('flatten-shared-path', 'C18', 'a form type nested in itself',
    'the path of items after a nested form of the same field is cut short',
    [(F, "                yield path + [field], value", "                path.append(field)\n                yield path[:], value\n                del path[path.index(field):]")],
    '''
import pilo
from pilo import fields


class B(pilo.Form):

    y = fields.Integer()


class A(pilo.Form):

    x = fields.SubForm(B)
    z = fields.Integer()


class R(pilo.Form):

    v = fields.Integer()


R.inner = fields.SubForm(R, default=None).attach(R, 'inner')
R.fields = [R.inner, R.v]
form = R({'v': 1, 'inner': {'v': 2, 'inner': {'v': 3, 'inner': None}}})
got = [([f.name for f in p], v) for p, v in form.flatten()]
assert got == [
    (['inner', 'inner', 'inner'], None), (['inner', 'inner', 'v'], 3), (['inner', 'v'], 2), (['v'], 1)
], got
''')

bug('munge-drops-null', 'C18', 'a form with a field that is null, munged or filtered',
    'null values are dropped when a form is munged',
    [(F, "            if value is NONE:\n                continue\n            if isinstance(value, Form):\n                value = value.munge(func)", "            if value in IGNORE or value is None:\n                continue\n            if isinstance(value, Form):\n                value = value.munge(func)")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(default=None).tag('t')


form = A({'x': None})
assert form.filter('t') == {'x': None}, form.filter('t')
''')

bug('below-absent-index', 'C19', 'an index looked up below an absent key',
    'a value found below an absent location',
    [(S, "            if value is NONE:\n                break\n", "            if value is NONE and not isinstance(part.key, six.integer_types):\n                break\n            if value is NONE:\n                value = self.root\n")],
    '''
import pilo
from pilo import source

src = source.DefaultSource([1, 2])
with pilo.ctx(src=src):
    with pilo.ctx(src='a'):
        with pilo.ctx(src=0):
            assert not pilo.ctx.src_path.exists
''')

bug('attach-last-base', 'C20', 'a field redeclared in a form with several levels of bases',
    'a field redeclared from a base of a base moves to the end',
    [(F, "            for base in inspect.getmro(parent)[1:]:", "            for base in parent.__bases__:\n                if self.name not in vars(base):\n                    continue")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()
    y = fields.Integer()


class B(A):

    z = fields.Integer()


class C(B):

    x = fields.String()


assert [f.name for f in C.fields] == ['x', 'y', 'z'], [f.name for f in C.fields]
''')

bug('uuid-remade', 'C21', 'a UUID that is not a version 4 one given as a UUID',
    'a native UUID without version bits comes back as another UUID',
    [(F, "            return value.strftime(format)\n", "            return value.strftime(format or '%Y-%m-%d')\n"), (F, "        value = self.ctx.src_path.primitive()\n        if isinstance(value, uuid.UUID):\n            return value\n", "        value = self.ctx.src_path.primitive()\n        if isinstance(value, uuid.UUID):\n            return uuid.UUID(int=value.int, version=value.version or 4)\n")],
    '''
import uuid
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.UUID()


form = A(x='00000000-0000-0000-0000-000000000000')
assert A(form) == form, A(form)
''')

bug('code-shared-module', 'C22', 'two blocks of code mapped by the same field',
    'code blocks of a field share one module',
    [(F, "        module = imp.new_module('<{0}>'.format(name))\n", "        module = sys.modules.setdefault('<{0}>'.format(name), imp.new_module('<{0}>'.format(name)))\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    c = fields.Code()


one = A(c='x = 1\\n').c
two = A(c='y = 2\\n').c
assert one is not two and not hasattr(two, 'x')
''')

bug('config-words-comments', 'C23', 'an option whose words hold a hash sign',
    'words after a hash sign of a one-line list are dropped',
    [(G, "            self.values = shlex.split(value)", "            self.values = shlex.split(value, comments=True)")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    xs = fields.List(fields.String())


form = A(source.ConfigSource('[s]\\nxs = a b#1 c\\n', section='s'))
assert form.xs == ['a', 'b#1', 'c'], form
''')

bug('config-defaults-win', 'C23', 'an option that is in the section and in the defaults, with an empty text',
    'an empty option takes the default of the section',
    [(G, "        if self.config.has_option(self.section, key):\n            return self._get(key)", "        if self.config.has_option(self.section, key) and self.config.get(self.section, key):\n            return self._get(key)")],
    '''
import pilo
from pilo import fields, source


class A(pilo.Form):

    x = fields.String()


form = A(source.ConfigSource('[s]\\nx =\\n', section='s', defaults={'x': 'd'}))
assert form.x == '', form
''')

bug('constant-attached', 'C24', 'a constant derived from an attached field that has a compute hook',
    'the constant cannot be derived: the inherited compute hook is called instead of replaced',
    [(F, "        other.compute = Hook(other, argspec(other._compute))\n", "")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()

    @x.compute
    def x(self):
        return 5


class B(A):

    x = A.x.constant(9)


assert A({}).x == 5 and B({}).x == 9, (A({}), B({}))
''')

bug('capture-name-only', 'C24', 'a capture pattern with both a named and an earlier unnamed group',
    'a capture takes the first group even when a group has the name of the field',
    [(F, "            for group in [name or self.name, 1]:", "            for group in ([1] if match.re.groups == 1 or match.group(1) else []) + [name or self.name]:")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String().capture('(a*)(?P<x>b*)')


assert A(x='aabb').x == 'bb', A(x='aabb')
''')

bug('computed-not-kept', 'C09', 'reading twice, outside of mapping, an unset field that has a compute hook',
    'a computed value read from an unset field is not kept, so it is computed again and may differ',
    [(F, "                self,\n            )\n        form[self.name] = value\n        return value", "                self,\n            )\n        if not self.compute:\n            form[self.name] = value\n        return value")],
    '''
import pilo
from pilo import fields

calls = []


class A(pilo.Form):

    x = fields.Integer()

    @x.compute
    def x(self):
        calls.append(1)
        return len(calls)


form = A()
assert form.x == 1 and form.x == 1 and form == {'x': 1}, (form, calls)
''')

bug('munge-skips-null', 'C01', 'a munge hook on a nullable field given null',
    'the munge hook is not run for null, which the built-in step handed it',
    [(F, "            if value not in IGNORE and self.munge:", "            if value not in IGNORE and value is not None and self.munge:")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(default=None)

    @x.munge
    def x(self, value):
        return 5 if value is None else value


assert A({'x': None}).x == 5, A({'x': None})
''')

bug('given-unfiltered', 'C01', 'a field handed its value (as the keys of a dict field are) that it ignores or filters out',
    'a value handed to a field is not filtered',
    [(F, "        close = Close.dummy\n        if value is NONE:\n            if self.resolve:", "        close, given = Close.dummy, value is not NONE\n        if value is NONE:\n            if self.resolve:"),
     (F, "            if not self._filter(value) or (self.filter and not self.filter(value)):\n", "            if not given and (not self._filter(value) or (self.filter and not self.filter(value))):\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(default='other').ignore('skip'), fields.Integer())


assert A(x={'skip': 1, 'a': 2}).x == {'other': 1, 'a': 2}, A(x={'skip': 1, 'a': 2})
''')

bug('same-text-once', 'C05', 'two failures of a nested form whose messages and locations print the same',
    'a failure that reads like an earlier one is dropped when nested errors are handed up',
    [(F, "        self.ctx.errors.extend(errors)\n        return errors\n\n    def map(", "        seen = [str(ex) for ex in self.ctx.errors]\n        for ex in errors:\n            if str(ex) not in seen:\n                self.ctx.errors.append(ex)\n                seen.append(str(ex))\n        return errors\n\n    def map(")],
    '''
import pilo
from pilo import fields


class B(pilo.Form):

    one = fields.Integer('n')
    two = fields.Float('n')


class A(pilo.Form):

    b = fields.SubForm(B)


errors = A().map({'b': {}})
assert [e.field.name for e in errors] == ['one', 'two'], errors
''')

bug('aliases-cached', 'C20', 'a form mapped from a sequence, then a form derived from it with more fields',
    'the positions of the fields are kept on the type, so derived types use those of their base',
    [(F, '''        return DefaultSource(
            obj,
            aliases=dict(
                (field.name if field.src is None else field.src, i) for i, field in enumerate(self.fields)
            )
        )''', '''        cls = type(self)
        if not hasattr(cls, '_aliases'):
            cls._aliases = dict(
                (field.name if field.src is None else field.src, i) for i, field in enumerate(self.fields)
            )
        return DefaultSource(obj, aliases=cls._aliases)''')],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()


class B(A):

    y = fields.Integer()


assert A([1]) == {'x': 1}
assert B([1, 2]) == {'x': 1, 'y': 2}
''')

bug('code-cached-attr', 'C22', 'two modules with an attribute of the same name, loaded by import text',
    'loaded names are kept by attribute, so the second module gives what the first one had',
    [(F, "        module = importlib.import_module(name)\n        try:\n            obj = six.moves.reduce(getattr, attr.split('.'), module)\n", "        module = importlib.import_module(name)\n        if attr in cls.__dict__.get('_loaded', {}):\n            return cls._loaded[attr]\n        try:\n            obj = six.moves.reduce(getattr, attr.split('.'), module)\n"),
     (F, "                module.__name__, attr\n            ))\n        return obj\n", "                module.__name__, attr\n            ))\n        cls._loaded = dict(cls.__dict__.get('_loaded', {}), **{attr: obj})\n        return obj\n")],
    '''
import json
import pickle

import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Code()


assert A(x='json:dumps').x is json.dumps
assert A(x='pickle:dumps').x is pickle.dumps
''')

bug('poly-unmapped', 'C08', 'a polymorphic sub form that captures unmapped keys',
    'polymorphic sub forms ignore what they were told to do with unmapped keys',
    [(F, '''        form = form_type()
        errors = form.map(reset=self.reset, unmapped=self.unmapped)''', '''        form = form_type()
        errors = form.map(reset=self.reset)''')],
    '''
import pilo
from pilo import fields


class B(pilo.Form):

    kind = fields.Type.abstract()


class C(B):

    kind = fields.Type.constant('c')


class A(pilo.Form):

    b = fields.PolymorphicSubForm(B.kind, unmapped='capture')


assert A(b={'kind': 'c', 'more': 1}).b == {'kind': 'c', 'more': 1}
''')

bug('null-shadows-not', 'C10', 'a context variable pushed as None over another value',
    'a context variable that is None shows the value it should shadow',
    [(C, "            if k in frame:\n                return frame[k]\n        raise AttributeError(\n            '\"{0}\" object has no attribute \"{1}\"'.format(", "            if frame.get(k) is not None or (k in frame and k in self.stack[0]):\n                return frame[k]\n        for frame in self.stack:\n            if k in frame:\n                return None\n        raise AttributeError(\n            '\"{0}\" object has no attribute \"{1}\"'.format(")],
    '''
from pilo import ctx

with ctx(a=1):
    with ctx(a=None):
        assert ctx.a is None
    assert ctx.a == 1
''')

bug('bool-padded', 'C03', 'padded text for a boolean',
    'text that only looks like a boolean after trimming is taken for one',
    [(S, "            if value.lower() in ('0', 'f', 'false'):\n                return False\n            elif value.lower()", "            if value.strip().lower() in ('0', 'f', 'false'):\n                return False\n            elif value.strip().lower()")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Boolean()


assert A(x='True').x is True
assert len(A().map({'x': ' true'})) == 1
''')

bug('int-nearly', 'C03', 'a float for an integer field that is very close to a whole number',
    'a float that is nearly whole is taken for an integer',
    [(S, "            if not value.is_integer():\n", "            if not abs(value % 1) < 1e-9:\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()


assert A(x=3.0).x == 3
assert len(A().map({'x': 3 + 1e-12})) == 1
''')

bug('date-iso-utc', 'C04', 'an iso8601 moment with an offset that is on another day in UTC, for a date field',
    'a date is moved to the day of the moment in UTC',
    [(F, "                    return iso8601.parse_date(value).date()", "                    return iso8601.parse_date(value).astimezone(iso8601.UTC).date()")],
    '''
import datetime

import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Date(format='iso8601')


assert A(x='2014-05-06T23:30:00Z').x == datetime.date(2014, 5, 6)
assert A(x='2014-05-06T23:30:00-05:00').x == datetime.date(2014, 5, 6), A(x='2014-05-06T23:30:00-05:00')
''')

bug('uuid-cut', 'C04', 'text of a UUID followed by something else',
    'what follows a UUID is ignored',
    [(F, "        return uuid.UUID(self.ctx.src_path.primitive(six.string_types[0]))", "        return uuid.UUID(self.ctx.src_path.primitive(six.string_types[0])[:36])")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.UUID()


assert len(A().map({'x': '12345678-1234-5678-1234-567812345678-more'})) == 1
''')

bug('ignore-null', 'C06', 'null listed among the values a field ignores',
    'null cannot be ignored: it is kept, or refused as null, instead of giving the default',
    [(F, "        if self.ignores and value in self.ignores:\n            return False", "        if self.ignores and value is not None and value in self.ignores:\n            return False")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(default=3).ignore(None)


assert A({'x': None}).x == 3, A({'x': None})
''')

bug('code-narrow', 'C17', 'a code block that fails with an error of arithmetic',
    'a code block that raises something unusual escapes from mapping',
    [(F, "                return self.compile(self.name, value)\n            except Exception as ex:", "                return self.compile(self.name, value)\n            except (SyntaxError, NameError, TypeError, ValueError, LookupError, ImportError) as ex:")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Code()


assert len(A().map({'x': 'a = 0\\nb = 1 / a\\n'})) == 1
''')

bug('alias-listed-twice', 'C20', 'one field that a form has under two names',
    'a field that a form has under two names is listed, and mapped, twice',
    [(F, "            if id(field) not in field_ids:\n", "            if (name, id(field)) not in field_ids:\n"), (F, "                field_ids.add(id(field))", "                field_ids.add((name, id(field)))")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()
    y = x


assert A.fields == [A.x]
assert len(A().map({})) == 1
''')

bug('pattern-whole-value', 'C24', 'an integer pattern that matches the beginning of the text',
    'the whole text is converted instead of what the pattern matched',
    [(F, "            return int(m.group(0))", "            return int(value)")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer().pattern('[0-9]+')


assert A(x='12px').x == 12
''')

bug('parent-outermost', 'C25', 'a sub form with a parent reference two levels down',
    'the parent of a deeper value is the outermost form',
    [(F, "                value.parent = weakref.proxy(self.ctx.parent)", "                value.parent = weakref.proxy(self.ctx.values_for('parent')[0])")],
    '''
import pilo
from pilo import fields


class C(pilo.Form):

    x = fields.Integer()


class B(pilo.Form):

    c = fields.SubForm(C).options(attach_parent=True)
    n = fields.Integer()


class A(pilo.Form):

    b = fields.SubForm(B)


form = A(b={'c': {'x': 1}, 'n': 2})
assert form.b.c.parent == form.b, form.b.c.parent
''')

bug('capture-shared-match', 'C11', 'two threads mapping one field with a capture pattern at the same time',
    'the match of a capture is kept where other threads write theirs',
    [(F, "            try:\n                match = pattern.match(value)\n            except TypeError:\n                match = None\n            if not match:\n                return NONE\n", "            try:\n                self.last_match = pattern.match(value)\n            except TypeError:\n                self.last_match = None\n            if not self.last_match:\n                return NONE\n            match = self.last_match\n")],
    '''
import sys
import threading

import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String().capture('a(?P<x>.*)')


wrong = []
sys.setswitchinterval(1e-6)


def trace(frame, event, arg):
    if frame.f_code.co_name != 'munge':
        return None

    def line(frame, event, arg):
        gate.wait(0.01)
        return line

    return line


gate = threading.Event()


def body(text):
    sys.settrace(trace)
    for _ in range(40):
        if A(x='a' + text).x != text:
            wrong.append(text)


threads = [threading.Thread(target=body, args=(t,)) for t in ('one', 'two', 'three')]
for t in threads:
    t.start()
for t in threads:
    t.join()
assert not wrong, wrong
''')

bug('mount-null-empty', 'C15', 'a mount of None',
    'a mount of nothing shows an empty mapping instead of null',
    [(M, "                srcs[key] = DefaultSource(src)\n", "                srcs[key] = DefaultSource(src or {})\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    m = fields.Dict(fields.String(), fields.Integer(), default=None)


assert A(pilo.source.mount(m=None)).m is None
''')

bug('required-any', 'C02', 'a dict with one of several required keys',
    'a dict is only refused when all of its required keys are missing',
    [(F, "                if missing_keys:\n", "                if len(missing_keys) == len(set(self.required_keys)):\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Integer(), required_keys=['a', 'b'])


assert len(A().map({'x': {'a': 1}})) == 1
''')

bug('list-max-zero', 'C02', 'a list of at most no items',
    'a maximum length of zero is no limit',
    [(F, "            if self.max_length is not None and len(value) > self.max_length:\n                self.ctx.errors.invalid('Must have", "            if self.max_length and len(value) > self.max_length:\n                self.ctx.errors.invalid('Must have")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.List(fields.Integer()).max(0)


assert len(A().map({'x': [1]})) == 1
''')

bug('empty-key-not-walked', 'C10', 'a scope pushed with the empty text as its key',
    'an empty key is not entered, but it is left: the location loses a key',
    [(C, "            else:\n                self.src_path.append(kwargs['src'])", "            elif kwargs['src'] != '':\n                self.src_path.append(kwargs['src'])")],
    '''
import pilo
from pilo import ctx

with ctx(src=pilo.DefaultSource({'a': {'': {'b': 1}}})):
    with ctx(src='a'):
        with ctx(src=''):
            with ctx(src='b'):
                assert ctx.src_path.value == 1, str(ctx.src_path)
        assert [p.key for p in ctx.src_path] == ['a'], str(ctx.src_path)
''')

bug('code-deep-attr', 'C22', 'import text whose attribute has three parts',
    'only two parts of an attribute are followed',
    [(F, "            obj = six.moves.reduce(getattr, attr.split('.'), module)\n", "            obj = six.moves.reduce(getattr, attr.split('.')[:2], module)\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Code()


assert A(x='os:path.join.__name__').x == 'join', A(x='os:path.join.__name__')
''')

bug('dict-first-wins', 'C07', 'two keys of the input that convert to the same key',
    'the first of several values for one key is kept instead of the last',
    [(F, "            mapping[key] = value\n        return mapping", "            mapping.setdefault(key, value)\n        return mapping")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String().translate({'b': 'a'}), fields.Integer())


assert A(x={'a': 1, 'b': 2}).x == {'a': 2}, A(x={'a': 1, 'b': 2})
''')


bug('digit-key-bracket', 'C05', 'a failure below a mapping key that is made of digits',
    'a text key made of digits is printed as if it were an index',
    [(S, "                if isinstance(part.key, six.integer_types):", "                if str(part.key).lstrip('-').isdigit():")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Integer())


errors = A().map({'x': {'12': 'no'}})
assert [str(e.path) for e in errors] == ['x.12'], errors
errors = A().map({'x': {'k': 'no'}})
assert [str(e.path) for e in errors] == ['x.k'], errors
''')

bug('rewind-equal', 'C09', 'an outer form and a nested one that hold the same content while a hook of the inner reads a field of the outer',
    'the scope of a form is found by comparing forms, so one with equal content is taken for it',
    [(F, "                    return getattr(frame, 'parent', None) is form\n", "                    return getattr(frame, 'parent', None) == form\n")],
    '''
import pilo
from pilo import fields


outer = []


class Item(pilo.Form):

    got = fields.Integer(default=None)

    @got.compute
    def got(self):
        return outer[-1].later


class Mid(pilo.Form):

    item = fields.SubForm(Item, default=None)


class A(pilo.Form):

    note = fields.String(optional=True)

    @note.compute
    def note(self):
        outer.append(self)
        return pilo.NONE

    mid = fields.SubForm(Mid)
    later = fields.Integer()


form = A({'mid': {'item': {'later': 3}, 'later': 2}, 'later': 1})
assert form.mid.item.got == 1, form
assert form.later == 1
''')

bug('json-sorted-keys', 'C13', 'a JSON mapping whose keys are not in alphabetical order',
    'JSON mappings are gone through in alphabetical order, native ones in their own',
    [(J, "        return path.value.keys()\n", "        return sorted(path.value)\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Integer())


for src in ({'x': {'b': 1, 'a': 2}}, pilo.source.JsonSource('{"x": {"b": 1, "a": 2}}')):
    assert list(A(src).x) == ['b', 'a'], A(src).x
''')

bug('config-lookup-leaves-key', 'C23', 'configuration whose unmapped options are captured, or whose section is a dict, after a plain option was read',
    'looking an option up leaves an empty mapping of its name behind, which then hides it',
    [(G, "        if key in self.sub_mappings:\n            return dict(", "        if self.sub_mappings[key]:\n            return dict(")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()
    y = fields.Integer(optional=True)


form = A()
errors = form.map(pilo.source.ConfigSource('[s]\\nx = 1\\nz = 2\\n', section='s'), unmapped='capture')
assert not errors, errors
assert dict(form) == {'x': 1, 'z': '2'}, form
''')

bug('filter-all-tags', 'C18', 'a form filtered by several tags of which a field bears one',
    'filtering keeps only the fields that bear all of the tags',
    [(F, "            hit = any(field.has_tag(tag) for tag in tags)\n", "            hit = all(field.has_tag(tag) for tag in tags)\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer().tag('a')
    y = fields.Integer().tag('a', 'b')
    z = fields.Integer(default=0)


form = A(x=1, y=2)
assert dict(form.filter('a', 'b')) == {'x': 1, 'y': 2}, form.filter('a', 'b')
assert dict(form.filter('b')) == {'y': 2}
assert dict(form.filter('a', 'b', inv=True)) == {'z': 0}
''')

bug('copy-declared-only', 'C18', 'a copy of a form that captured unmapped keys',
    'a copy of a form has its declared fields only',
    [(F, "        for k, v in dict.items(self):\n            dst[k] = v\n        return dst", "        for field in type(self).fields:\n            if field.name in self:\n                dst[field.name] = self[field.name]\n        return dst")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()


form = A()
form.map({'x': 1, 'z': 2}, unmapped='capture')
assert dict(form.copy()) == dict(form) == {'x': 1, 'z': 2}, form.copy()
''')

bug('hook-first-form', 'C25', 'a second form of the type mapped after the first',
    'a hook keeps the first form it is called for and is handed that one from then on',
    [(F, "            target = self.parent.ctx.form\n        return self.func(target, *args, **kwargs)", "            target = self.target = self.parent.ctx.form\n        return self.func(target, *args, **kwargs)")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    n = fields.Integer()
    x = fields.Integer()

    @x.munge
    def x(self, value):
        return value + self.n


assert A(n=1, x=1).x == 2
assert A(n=10, x=1).x == 11, A(n=10, x=1)
''')


bug('translations-grow', 'C16', 'an invalid value given twice to a field with choices and translations',
    'a value that is not translated is added to the translations, so it is a valid choice from then on',
    [(F, "            if self.translations and value in self.translations:\n                value = self.translations[value]\n", "            if self.translations:\n                value = self.translations.setdefault(value, value)\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(choices=['a', 'b']).translate({'c': 'a'})


assert A(x='c').x == 'a'
for _ in range(2):
    assert A().map({'x': 'd'}), A(x='d')
''')


bug('code-one-line', 'C22', 'code of a single line that ends with a line break',
    'a single line of code with its line break is not taken for code',
    [(F, "        return value.count('\\n') > 0\n", "        return value.strip().count('\\n') > 0\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Code()


assert A(x='a = 1\\nb = 2').x.b == 2
assert A(x='a = 1\\n').x.a == 1
''')

bug('default-memoised', 'C06', 'a callable default used for two forms, one of which then changes what it got',
    'a callable default is called once and shared from then on',
    [(F, "        if isinstance(self.default, type) or callable(self.default):\n            return self.default()\n", "        if isinstance(self.default, type) or callable(self.default):\n            self.default = self.default()\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.List(fields.Integer(), default=list)


a = A({'y': 0})
assert a.x == []
a.x.append(1)
assert A({'y': 0}).x == []
''')

bug('max-keys-unfiltered', 'C02', 'a dict with a key filter, given more keys than it may have of which it drops some',
    'the keys of the input are counted, also those that the dict drops',
    [(F, "        mapping = {}\n        key_filter =", "        if self.max_keys is not None and len(keys) > self.max_keys:\n            self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(\n                self.max_keys\n            ))\n            return ERROR\n        mapping = {}\n        key_filter =")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Integer(), max_keys=1)

    @x.key_filter
    def x(self, key):
        return not key.startswith('_')


assert A(x={'a': 1, '_b': 2}).x == {'a': 1}
assert A().map({'x': {'a': 1, 'b': 2}})
''')

bug('datetime-whole-seconds', 'C04', 'an iso8601 moment with a fraction of a second',
    'fractions of a second are dropped',
    [(F, "                parsed = iso8601.parse_date(value)\n", "                parsed = iso8601.parse_date(value).replace(microsecond=0)\n")],
    '''
import datetime
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Datetime(format='iso8601')


assert A(x='2014-01-02T03:04:05.250Z').x.microsecond == 250000
assert A(x='2014-01-02T03:04:05Z').x.second == 5
''')

bug('union-depth-sequence', 'C14', 'a sequence exactly at the merge depth',
    'sequences at the merge depth are still merged',
    [(U, "                if src.merge_depth is not None and src.merge_depth <= len(path):\n", "                if src.merge_depth is not None and src.merge_depth < len(path):\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.List(fields.Integer())


src = pilo.source.UnionSource([{'x': [1]}, {'x': [2]}], merge='combine', merge_depth=1)
assert A(src).x == [1], A(src)
src = pilo.source.UnionSource([{'x': [1]}, {'x': [2]}], merge='combine', merge_depth=2)
assert A(src).x == [1, 2], A(src)
''')

bug('poly-no-siblings', 'C12', 'an identity whose type was declared after a sibling that has types of its own',
    'only the last of the types below a type is searched further',
    [(I, "            for sub_cls in form_cls.__subclasses__():\n                _map(sub_cls)\n", "            for sub_cls in form_cls.__subclasses__()[::-1]:\n                _map(sub_cls)\n                if sub_cls.__subclasses__():\n                    break\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    type = fields.Type.abstract()


class B(A):

    type = fields.Type.instance('b')


class B2(B):

    type = fields.Type.instance('b2')


class C(A):

    type = fields.Type.abstract()


class D(C):

    type = fields.Type.instance('d')


for identity, want in [('b', B), ('b2', B2), ('d', D)]:
    assert A.type.cast({'type': identity}) is want, identity
''')

bug('int-pattern-any', 'C17', 'something other than text given to an integer field with a pattern',
    'a value that is not text escapes as a TypeError from an integer pattern',
    [(F, "            value = path.primitive(six.string_types[0])\n            m = pattern_re.match(value)\n            if not m:\n                raise ValueError('{0} does not match pattern \"{1}\"'.format(value, pattern_re.pattern))", "            value = path.primitive()\n            m = pattern_re.match(value)\n            if not m:\n                raise ValueError('{0} does not match pattern \"{1}\"'.format(value, pattern_re.pattern))")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer().pattern('[0-9]+')


assert A(x='12 m').x == 12
errors = A().map({'x': [1]})
assert len(errors) == 1, errors
''')

bug('optional-over-default', 'C24', 'a field declared with both optional and default',
    'a field declared optional loses its default',
    [(F, "        if optional is not NOT_SET:\n            if optional:\n                self.default = NONE\n\n        if default is not NOT_SET:\n            self.default = default\n            if self.default is None:\n                self.nullable = True\n", "        if default is not NOT_SET:\n            self.default = default\n            if self.default is None:\n                self.nullable = True\n\n        if optional is not NOT_SET:\n            if optional:\n                self.default = NONE\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer(optional=True, default=3)


assert A({'y': 1}).x == 3
''')

bug('mro-second-base', 'C20', 'a redeclared field that only the second base has',
    'a field redeclared from the second of two bases moves to the end',
    [(F, "            for base in inspect.getmro(parent)[1:]:\n", "            for base in inspect.getmro(parent.__bases__[0]):\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer()


class B(pilo.Form):

    y = fields.Integer()
    z = fields.Integer()


class C(A, B):

    y = fields.Integer(default=1)


assert [f.name for f in C.fields] == ['x', 'y', 'z'], [f.name for f in C.fields]
''')

bug('rewind-last-two', 'C10', 'a rewind over three or more scopes',
    'the two innermost scopes change places after a rewind',
    [(C, "            self.stack.extend(frames)\n", "            self.stack.extend(frames if len(frames) < 3 else frames[:-2] + frames[-1:] + frames[-2:-1])\n")],
    '''
import pilo
from pilo import ctx


with ctx(v=1, at=True):
    with ctx(v=2):
        with ctx(v=3):
            with ctx(v=4):
                with ctx.rewind(lambda frame: 'at' in frame):
                    assert ctx.v == 1
                assert ctx.v == 4, ctx.v
            assert ctx.v == 3, ctx.v
        assert ctx.v == 2
''')

bug('mount-keys-nested', 'C15', 'a mount whose name is also a key inside of another',
    'the root of a mount source lists what is mounted under it only when it is not empty',
    [(M, "        if self.part is None:\n            return self.paths.keys()\n", "        if self.part is None:\n            return [key for key, path in six.iteritems(self.paths) if not path.is_null]\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Field(nullable=True), src=None)


src = pilo.source.MountSource(a={'k': 1}, b=None)
path = src.path()
assert sorted(path.mapping()) == ['a', 'b'], path.mapping()
''')

bug('native-datetime-date', 'C04', 'a date field given a moment without a time zone',
    'a date field given a native moment keeps only its day',
    [(F, "        if isinstance(value, datetime.date):\n            return value\n        value = path.primitive(six.string_types[0])\n        if not self._format:", "        if isinstance(value, datetime.datetime) and not value.tzinfo:\n            return value.date()\n        if isinstance(value, datetime.date):\n            return value\n        value = path.primitive(six.string_types[0])\n        if not self._format:")],
    '''
import datetime
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Date()


moment = datetime.datetime(2014, 1, 2, 3, 4)
assert A(x=moment).x == moment, A(x=moment)
''')

bug('dict-shared-mapping', 'C11', 'two threads mapping one dict field at the same time',
    'a dict field gathers what it maps where other threads find it',
    [(F, "        mapping = {}\n        key_filter =", "        mapping = self.mapping = {}\n        key_filter ="),
     (F, "            mapping[key] = value\n        return mapping", "            self.mapping[key] = value\n        return mapping")],
    '''
import threading
import pilo
from pilo import fields


started, go = threading.Event(), threading.Event()


class A(pilo.Form):

    x = fields.Dict(fields.String(), fields.Integer())

    @x.value_field.munge
    def x_value(self, value):
        if value == 1:
            started.set()
            go.wait(10)
        return value


del A.x_value
out = []
t = threading.Thread(target=lambda: out.append(A(x={'a': 1, 'b': 3}).x))
t.start()
started.wait(10)
mine = A(x={'c': 2}).x
go.set()
t.join()
assert mine == {'c': 2}, mine
assert out == [{'a': 1, 'b': 3}], out
''')

bug('step-map-given', 'C01', 'a munge hook that gives NONE on a field handed its value',
    'a munge that finds nothing keeps the value as it was instead of giving the default',
    [(F, "            if value not in IGNORE and self.munge:\n                value = self.munge(value)\n", "            if value not in IGNORE and self.munge:\n                munged = self.munge(value)\n                if munged is not NONE or self.parent is None or isinstance(self.parent, type):\n                    value = munged\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.List(fields.Integer(default=7))

    @x.field.munge
    def x_item(self, value):
        return pilo.NONE if value == 2 else value


del A.x_item
assert A(x=[1, 2, 3]).x == [1, 7, 3], A(x=[1, 2, 3])
''')

bug('tags-context-wins', 'C08', 'tags in the context and other tags given to map',
    'the tags given to map are overridden by those of the context',
    [(F, "        tags = tags if tags else getattr(self.ctx, 'tags', None)\n", "        tags = getattr(self.ctx, 'tags', None) or tags\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.Integer().tag('a')

    y = fields.Integer().tag('b')


form = A()
with pilo.ctx(tags=['a']):
    form.map({'x': 1, 'y': 2}, tags=['b'])
assert dict(form) == {'y': 2}, form
''')

bug('json-strict-deep', 'C03', 'strict JSON with a number as text below several levels',
    'a strict source turns lenient for integers deep in the text',
    [('pilo/source/json.py', "        if isinstance(value, six.integer_types) and not isinstance(value, bool):\n            return value\n        if not self.strict:", "        if isinstance(value, six.integer_types) and not isinstance(value, bool):\n            return value\n        if not self.strict or len(field) > 4:")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.List(fields.List(fields.List(fields.List(fields.List(fields.Integer())))))


src = pilo.source.JsonSource('{"x": [[[[["5"]]]]]}', strict=True)
form = A()
assert len(form.map(src)) == 1, form
''')

bug('choices-stripped', 'C02', 'a declared choice with blanks around it',
    'the declared choices lose the blanks around them, so a conforming text is refused',
    [(F, "        self.choices = kwargs.pop('choices', None)\n", "        choices = kwargs.pop('choices', None)\n        self.choices = choices and [choice.strip() if isinstance(choice, six.string_types) else choice for choice in choices]\n")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(choices=['a ', 'b'])


assert A(x='a ').x == 'a '
assert A(x='b').x == 'b'
''')

bug('pattern-flags', 'C02', 'a String whose pattern is a compiled expression with flags',
    'the flags of a compiled pattern are lost',
    [(F, "            if isinstance(pattern, six.string_types):\n                pattern = re.compile(pattern)\n            self.pattern_re = pattern\n", "            self.pattern_re = re.compile(getattr(pattern, 'pattern', pattern))\n")],
    '''
import re

import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(pattern=re.compile('[a-z]+$', re.IGNORECASE))


assert A(x='ab').x == 'ab'
assert A(x='AB').x == 'AB'
''')

bug('filter-is-false', 'C01', 'a filter that returns nothing or something false for a value to be excluded',
    'only a filter that returns False itself excludes a value',
    [(F, "            if not self._filter(value) or (self.filter and not self.filter(value)):\n", "            if not self._filter(value) or (self.filter and self.filter(value) is False):\n")],
    '''
import re

import pilo
from pilo import fields


class A(pilo.Form):

    x = fields.String(default='other')

    @x.filter
    def x(self, value):
        return re.match('a', value)


assert A(x='ab').x == 'ab'
assert A(x='b').x == 'other', A(x='b')
''')

bug('order-by-text', 'C20', 'fields declared while the hundred thousandth field or form is made',
    'fields are ordered by the text of their number, which has too few digits in a long-running process',
    [(F, "        fields.sort(key=lambda x: x._count)\n", "        fields.sort(key=lambda x: '{0:05d}'.format(x._count))\n")],
    '''
import pilo
from pilo import fields

body, names = {}, ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
for name in names:
    for _ in range(20000):
        pilo.Form()
    body[name] = fields.String()
assert [f.name for f in type('A', (pilo.Form,), body).fields] == names
''')

bug('default-again', 'C06', 'a callable default that makes no value (none)',
    'a default that makes none is called a second time',
    [(F, "        if isinstance(self.default, type) or callable(self.default):\n            return self.default()\n",
         "        if isinstance(self.default, type) or callable(self.default):\n            value = self.default()\n            return self.default() if value in IGNORE else value\n")],
    '''
import pilo
from pilo import fields

calls = []


def default():
    calls.append(1)
    return pilo.NONE if len(calls) == 1 else 'of another call'


class A(pilo.Form):

    x = fields.String(default=default)


assert 'x' not in A({}), A({})
assert len(calls) == 1 or len(calls) == 0, calls
''')

bug('between-swapped', 'C04', 'bounds given the wrong way round, by between()',
    'bounds given the wrong way round are put in order, so that values are let through where none can',
    [(F, "        return self.after(l).before(r)\n", "        if r < l:\n            l, r = r, l\n        return self.after(l).before(r)\n")],
    '''
import datetime
import pilo
from pilo import fields

D = datetime.date


class A(pilo.Form):

    x = fields.Date().between(D(2015, 3, 9), D(2015, 3, 1))


for day in (1, 5, 9):
    assert len(A().map({'x': D(2015, 3, day)})) == 1, day
''')

bug('option-over-keys', 'C23', 'an option that is given with and without keys',
    'an option that has a text of its own hides the keys given for it',
    [(G, "        if key in self.sub_mappings:\n            return dict(", "        if key in self.sub_mappings and not self.config.has_option(self.section, key):\n            return dict(")],
    '''
import pilo
from pilo import fields


class A(pilo.Form):

    m = fields.Dict(fields.String(), fields.Integer())


for text in ('[s]\\nm[a] = 1\\nm[b-c] = 2\\n', '[s]\\nm = 5\\nm[a] = 1\\nm[b-c] = 2\\n'):
    assert A(pilo.source.ConfigSource(text, 's')) == {'m': {'a': 1, 'b-c': 2}}, text
''')
