"""C16: mapping changes nothing it reads, and repeats."""
import collections
import copy
import datetime
import json

from .. import many
from ..gen import Gen, KEYS, NAMES, junk
from ..spec import Builder, canon, outcome_errors, real_root, unordered, HOOK_CHOICES, HookRaised

ID = 'C16'
RULE = 'distinct (form shape, source kind, errors) repeated; distinct sets of hostile keys'
REQUIRED = ['judged', 'snapshot.data', 'snapshot.declaration', 'repeat.same-form', 'repeat.fresh-form', 'repeat.same-source',
            'between.escaped', 'between.failed', 'between.read', 'between.poly', 'between.raise', 'hostile.dict', 'hostile.capture',
            'hostile.group', 'hostile.absent', 'hostile.list', 'hostile.union', 'hostile.spy', 'given.parser', 'given.aliases',
            'given.tags', 'given.json', 'given.defaults', 'given.union', 'default.literal', 'kind.union', 'kind.mount', 'kind.config',
            'with-errors', 'without-errors', 'history.repeat', 'history.kind.text', 'history.kind.number', 'history.kind.moment',
            'history.kind.code', 'history.kind.boolean', 'history.kind.uuid']

HOSTILE = ['clear()', 'popitem()', 'clear', 'keys', 'items', 'values', 'pop', 'update', 'copy()', 'copy', 'get', 'append()', 'sort()',
           'reverse()', '__class__', '__len__()', '__init__()', '__dict__', '__class__.__name__', 'a.b', 'a.clear()', 'a()', '()', '.',
           '..', 'fromkeys', 'setdefault', '__doc__', 'mro()', 'data', 'src', 'exit()', 'strike()', 'strike', 'n.strike()', 'b.strike',
           '__delitem__', '__setitem__', 'count()', 'index']


# ---- snapshots

def snapshot(obj, seen=None):
    """The content and the identity of every container."""
    seen = {} if seen is None else seen
    if isinstance(obj, (dict, list, tuple, set)):
        if id(obj) in seen:
            return ('again', id(obj))
        seen[id(obj)] = True
        if isinstance(obj, dict):
            body = tuple((canon(k), snapshot(v, seen)) for k, v in dict.items(obj))
        elif isinstance(obj, set):
            body = tuple(sorted(map(repr, obj)))
        else:
            body = tuple(snapshot(v, seen) for v in list.__iter__(obj) if True) if isinstance(obj, list) else tuple(
                snapshot(v, seen) for v in obj)
        return (type(obj).__name__, id(obj), body)
    return canon(obj)


PUBLIC = ['name', 'src', 'nullable', 'attach_parent', 'min_length', 'max_length', 'min_value', 'max_value', 'alphabet', 'choices',
          'ignores', 'translations', 'tags', 'allow_field', 'required_keys', 'max_keys', 'reset', 'unmapped', 'after_value',
          'before_value']


def declaration(cls, seen=None):
    """What was declared, in every form and field reachable from the form type."""
    import pilo
    seen = set() if seen is None else seen
    if cls in seen:
        return cls.__name__
    seen.add(cls)

    def of(field):
        bits = [type(field).__name__, id(field), field.parent if isinstance(field.parent, type) else id(field.parent)]
        for name in PUBLIC:
            value = getattr(field, name, 'no such')
            bits.append((name, snapshot(value) if not callable(value) else 'callable'))
        default = field.default
        bits.append(('default', id(default), snapshot(default) if isinstance(default, (dict, list, tuple)) else None))
        for step in ('compute', 'resolve', 'parse', 'munge', 'filter', 'validate'):
            bits.append((step, bool(getattr(field, step))))
        for name in ('field', 'key_field', 'value_field'):
            inner = getattr(field, name, None)
            if isinstance(inner, pilo.Field):
                bits.append((name, of(inner)))
        for inner in getattr(field, 'fields', None) or []:
            inner = inner[1] if isinstance(inner, tuple) else inner
            bits.append(of(inner))
        if isinstance(getattr(field, 'form_type', None), type):
            bits.append(declaration(field.form_type, seen))
        return tuple(bits)

    return (cls.__name__, tuple(f.name for f in cls.fields), tuple(of(f) for f in cls.fields), tuple(sorted(
        k for k in vars(cls) if not k.startswith('_'))))


# ---- sources

def sources(rng, data):
    """(kind, source to give, what it was made of)."""
    import pilo
    kind = rng.choice(['native', 'native', 'object', 'strict', 'lenient', 'union', 'union2', 'mount', 'config', 'alone'])
    if kind == 'native':
        return kind, data, data, lambda cls: cls
    if kind == 'object':
        return kind, pilo.DefaultSource(data), data, lambda cls: cls
    if kind in ('strict', 'lenient'):
        text = json.dumps(data)
        src = pilo.source.JsonSource(text, strict=kind == 'strict')
        return kind, src, src.data, lambda cls: cls
    if kind == 'union':
        return kind, pilo.source.union([data, {'zz': 1}], merge=rng.choice(['first', 'last', 'combine'])), data, lambda cls: cls
    if kind == 'union2':
        other = copy.deepcopy(data)
        for k in list(other):
            if rng.random() < 0.3:
                del other[k]
        both = [data, pilo.DefaultSource(other)]
        return 'union', pilo.source.union(both, merge=rng.choice(['first', 'last', 'combine'])), [data, other], lambda cls: cls
    if kind == 'mount':
        def under(cls):
            return type('Top', (pilo.Form,), {'top': pilo.fields.SubForm(cls, src='m')})
        return kind, pilo.source.mount(m=data), data, under
    if kind == 'config':
        from .c15 import config_text
        parser = six_parser(config_text(data))
        return kind, pilo.source.ConfigSource(parser, section='root'), parser_content(parser), lambda cls: cls
    return 'object', pilo.DefaultSource(data, location='here'), data, lambda cls: cls


def six_parser(text):
    import configparser
    parser = configparser.ConfigParser()
    parser.read_string(text)
    return parser


def parser_content(parser):
    return [(s, sorted(parser.items(s, raw=True))) for s in parser.sections()] + [sorted(parser.defaults().items())]


# ---- workloads

def repeated(case):
    """The same again: same and fresh forms and sources, with other mappings in between."""
    import pilo
    rng = case.rng
    g = Gen(rng, depth=2, hooks=0.1, native=False, bad=0.08, absent=0.1, width=3)
    forms = [g.form().number() for _ in range(rng.randrange(1, 4))]
    b = Builder()
    todo = []
    for form in forms:
        base = form.build(b)
        for _ in range(rng.randrange(1, 3)):
            data = g.form_data(form)
            kind, src, made_of, wrap = sources(rng, data)
            cls = wrap(base)
            todo.append([form, cls, kind, src, made_of, data, None, cls(), None])
            case.event('kind', kind)
    for item in todo:
        item[6] = snapshot(item[4])
    declared = [(t[1], declaration(t[1])) for t in todo]
    case.event('snapshot.data')
    case.event('snapshot.declaration')
    between = Between(case, g, b)
    for step in range(rng.randrange(3, 9)):
        item = rng.choice(todo)
        form, cls, kind, src, made_of, data, snap, same, first = item
        if rng.random() < 0.5:
            target = cls()
            how = 'fresh-form'
            target, got = real_root(cls, src, form=target)
        else:
            how = 'same-form'
            target, got = real_root(cls, src, form=same, reset=True)
        w = dict(form=form, data=data, kind=kind, how=how, step=step)
        if got[0] == 'ok':
            value = canon(target)
            got = ('ok', tuple(outcome_errors(got[1])), tuple(str(e.path) for e in got[1]), tuple(message(e) for e in got[1]))
            if kind == 'union':
                value, got = unordered(value), ('ok', tuple(sorted(got[1])), tuple(sorted(got[2])), ())
        else:
            value, got = None, got[:2]
        if first is None:
            item[8] = (value, got)
        else:
            case.equal(value, first[0], 'repeat-values', 'the same data maps to other values', **w)
            case.equal(got, first[1], 'repeat-errors', 'the same data maps to other errors', **w)
            case.event('repeat', how)
            case.event('repeat.same-source')
            case.distinct(form.shape(), kind, first[1])
        case.event('with-errors' if got[0] == 'ok' and got[1] else 'without-errors')
        now = snapshot(made_of)
        if kind == 'config':
            now = snapshot(parser_content(src.config))
            now, snap = strip(now), strip(snap)
        case.equal(now, snap, 'data-changed', 'mapping changed what it reads', **w)
        if rng.random() < 0.6:
            between.something()
    for cls, before in declared:
        case.equal(declaration(cls), before, 'declaration-changed', 'mapping changed the form type', form=cls.__name__, forms=forms)
    case.sample([(t[0], t[2], t[5], t[8]) for t in todo])


def message(error):
    """What the error says, unless it shows an object that has no text of its own."""
    text = str(error)
    return '' if ' object' in text or ' at 0x' in text else text


def strip(snap):
    if isinstance(snap, tuple) and len(snap) == 3 and snap[0] in ('list', 'tuple', 'dict'):
        return (snap[0], tuple(strip(x) for x in snap[2]))
    return snap


class Between(object):
    """Other mappings."""

    def __init__(self, case, g, b):
        import pilo
        self.case, self.g, self.rng, F = case, g, case.rng, pilo.fields
        behaviours = dict(HOOK_CHOICES)
        for step in ('munge', 'filter', 'validate', 'parse', 'compute', 'default'):
            behaviours[step] = ['raiseK']
        e = Gen(case.rng, depth=1, hooks=0.4, width=3, behaviours=behaviours)
        e.count = 100
        self.escaping = e.form().number()
        self.escaping_cls = self.escaping.build(b)
        self.e = e
        f = Gen(case.rng, depth=1, hooks=0, width=3, bad=0.7)
        f.count = 200
        self.failing, self.f = f.form().number(), f
        self.failing_cls = self.failing.build(b)

        class Base(pilo.Form):
            type = F.Type.abstract()

        class One(Base):
            type = F.Type.instance('one')
            n = F.Integer()

        class Two(Base):
            type = F.Type.instance('two')
            s = F.String(default='x')

        self.Base, self.keep = Base, (One, Two)
        self.poly_cls = type('P', (pilo.Form,), {'p': F.PolymorphicSubForm(Base.type), 'q': F.List(F.PolymorphicSubForm(Base.type), default=list)})

    def something(self):
        import pilo
        rng, case = self.rng, self.case
        what = rng.choice(['escaped', 'failed', 'read', 'poly', 'raise'])
        if what == 'escaped':
            real_root(self.escaping_cls, self.e.form_data(self.escaping))
        elif what == 'failed':
            real_root(self.failing_cls, self.f.form_data(self.failing))
        elif what == 'raise':
            try:
                self.failing_cls(self.f.form_data(self.failing))
            except (ValueError, pilo.SourceError):
                pass
        elif what == 'read':
            form = self.failing_cls()
            for field in self.failing_cls.fields:
                try:
                    getattr(form, field.name)
                except Exception:
                    pass
        else:
            real_root(self.poly_cls, {'p': rng.choice([{'type': 'one', 'n': 1}, {'type': 'two'}, {'type': 'x'}, {}, 5]),
                                      'q': [{'type': 'two'}, {'type': 'one', 'n': 'bad'}]})
            try:
                self.Base.type.cast({'type': rng.choice(['one', 'two', 'zzz'])})
            except ValueError:
                pass
        case.event('between', what)


class Spy(dict):
    """A mapping whose own methods must not be reached through keys."""

    struck = None

    def strike(self):
        type(self).struck.append('strike')
        return 'struck'

    def exit(self):
        type(self).struck.append('exit')


class SpyMapping(collections.abc.Mapping):
    """A mapping that is no dict."""

    struck = None

    def __init__(self, body):
        self.body = body

    def __getitem__(self, key):
        return self.body[key]

    def __iter__(self):
        return iter(self.body)

    def __len__(self):
        return len(self.body)

    def strike(self):
        type(self).struck.append('strike')
        return 'struck'

    exit = clear = strike


class SpyList(list):

    struck = None

    def strike(self):
        type(self).struck.append('strike')
        return 'struck'


def spies():
    struck = []
    return struck, tuple(type(c.__name__, (c,), {'struck': struck}) for c in (Spy, SpyMapping, SpyList))


def hostile(case):
    """Keys that name methods and attributes of the containers."""
    import pilo
    F, rng = pilo.fields, case.rng
    struck, (D, M, L) = spies()
    keys = rng.sample(HOSTILE, rng.randrange(1, 12))
    counter = [0]

    def values(depth):
        counter[0] += 1
        if depth and rng.random() < 0.4:
            inner = dict((k, values(depth - 1)) for k in rng.sample(HOSTILE, rng.randrange(1, 6)))
            return rng.choice([dict, D])(inner)
        if depth and rng.random() < 0.2:
            return rng.choice([list, L])(values(depth - 1) for _ in range(rng.randrange(3)))
        return rng.choice([counter[0], str(counter[0]), None, 'clear()'])

    plain = dict((k, values(2)) for k in keys)
    data = rng.choice([dict, D, M])(plain)
    before = snapshot(plain)
    raw = lambda v: canon(v)
    w = dict(data=plain, kind=type(data).__name__)
    if type(data) is not dict:
        case.event('hostile.spy')

    # every key under its own value: a dict, a capture, a group
    cls = type('H', (pilo.Form,), {'d': F.Dict(F.String(), F.Field(), src='in')})
    form = cls()
    errors = form.map({'in': data})
    case.equal((outcome_errors(errors), canon(dict.get(form, 'd'))), ([], canon(plain)), 'hostile-dict', 'a key was not just looked up', **w)
    case.event('hostile.dict')
    form = pilo.Form()
    errors = form.map(data, unmapped='capture')
    case.equal((outcome_errors(errors), canon(dict(dict.items(form)))), ([], canon(plain)), 'hostile-capture', 'a key was not just looked up', **w)
    case.event('hostile.capture')
    import re
    cls = type('H', (pilo.Form,), {'g': F.Group((re.compile('.*'), F.Field()))})
    form = cls()
    errors = form.map(data)
    got = [(k, canon(v)) for k, m, v in form.get('g', [])]
    case.equal((outcome_errors(errors), got), ([], [(k, canon(v)) for k, v in plain.items()]), 'hostile-group', 'a key was not just looked up', **w)
    case.event('hostile.group')

    # nested: dicts of dicts of anything
    def typed(v, depth):
        """A field for this very value."""
        if isinstance(v, dict) and depth:
            return F.Dict(F.String(), F.Field())
        return F.Field()

    # a declared key is itself hostile, and present or absent
    for key in rng.sample(HOSTILE, 4):
        cls = type('H', (pilo.Form,), {'f': F.Field(src=key, default='absent')})
        if key in plain:
            form = cls()
            form.map(data)
            case.equal(canon(dict.get(form, 'f')), canon(plain[key]), 'hostile-declared', 'a present key has another value', key=key, **w)
    for key in ('keys', 'items', 'values', 'pop', 'get', 'update', 'copy', 'clear', 'strike', 'setdefault'):
        if key in plain:
            continue
        cls = type('H', (pilo.Form,), {key: F.Field()})
        form = cls()
        errors = form.map(data)
        case.equal((outcome_errors(errors), dict(dict.items(form))), ([('Missing', key)], {}), 'hostile-absent',
                   'an absent key was found on the container', key=key, **w)
        case.event('hostile.absent')

    # items of lists
    items = rng.choice([list, tuple, L])(values(1) for _ in range(rng.randrange(4)))
    item_snap = snapshot(items)
    cls = type('H', (pilo.Form,), {'l': F.List(F.Field()), 'm': F.Dict(F.String(), F.List(F.Field()))})
    form = cls()
    holder = D({'l': items, 'm': D({'clear()': items, 'pop': items})})
    errors = form.map(holder)
    want = {'l': list(items), 'm': {'clear()': list(items), 'pop': list(items)}}
    case.equal((outcome_errors(errors), canon(dict(dict.items(form)))), ([], canon(want)), 'hostile-list', 'an item was not just looked up', items=items)
    for key in ('append', 'sort', 'count', 'index', 'strike', 'pop'):
        cls = type('H', (pilo.Form,), {'f': F.Field(src='l.' + key, default='absent')})
        form = cls()
        form.map(holder)
        case.equal(form.get('f'), 'absent', 'hostile-absent', 'a method of a list was found by a key', key=key)
    case.event('hostile.list')

    # a union of several
    other = D(dict((k, 'other') for k in rng.sample(HOSTILE, 8) if k not in plain))
    for sources_ in ([data, other], [pilo.DefaultSource(data), pilo.source.JsonSource(json.dumps(dict(other)))]):
        cls = type('H', (pilo.Form,), {'r': F.Dict(F.String(), Leaf(F), src=None)})
        form = cls()
        errors = form.map(pilo.source.union(sources_))
        want = dict((k, 'other') for k in other)
        want.update((k, leaf(v)) for k, v in plain.items())
        case.equal((outcome_errors(errors), dict(form.get('r', {}))), ([], want), 'hostile-union', 'a key was not just looked up', other=dict(other), **w)
    case.event('hostile.union')
    case.equal(struck, [], 'called', 'a key called a method of the data', **w)
    case.equal(snapshot(plain), before, 'data-changed', 'the data changed', **w)
    case.equal(snapshot(items), item_snap, 'data-changed', 'the items changed', items=items)
    case.distinct('hostile', tuple(sorted(keys)), type(data).__name__)


def leaf(v):
    if isinstance(v, dict):
        return ('mapping', len(v))
    if isinstance(v, (list, tuple)):
        return ('sequence', len(v))
    return v


def Leaf(F):
    """Names the kind of what it finds."""
    field = F.Field()

    @field.parse
    def parse(self, path):
        import pilo
        try:
            return ('mapping', len(path.mapping()))
        except pilo.SourceError:
            pass
        try:
            return ('sequence', path.sequence())
        except pilo.SourceError:
            return path.primitive()

    return field


def given(case):
    """What a source was given stays as it was."""
    import pilo
    F, rng = pilo.fields, case.rng
    names = rng.sample(['a', 'b', 'c', 'd', 'keys'], 3)
    body = dict((n, F.Field(default=None)) for n in names)
    body['x'] = F.Integer(default=3)
    cls = type('G', (pilo.Form,), body)
    # parser, defaults
    parser = six_parser('[s]\na = 1\nb[x] = 2\nb[y] = 3\n[t]\nc = one two\n\n[u]\n')
    before = parser_content(parser)
    defaults = {'s': {'c': 'dflt', 'a': 'unused'}, 'u': {'d': '5'}, 'v': {'a': '1'}}
    shot = snapshot(defaults)
    top = type('T', (pilo.Form,), dict((s, F.SubForm(cls, default=None)) for s in 'stu'))
    results = []
    for _ in range(3):
        form = top()
        errors = form.map(pilo.source.ConfigSource(parser, defaults=defaults))
        results.append((canon(form), outcome_errors(errors)))
        case.equal(parser_content(parser), before, 'parser-changed', 'mapping changed the parser')
        case.equal(snapshot(defaults), shot, 'defaults-changed', 'mapping changed the given defaults')
    case.equal(results[1:], [results[0]] * 2, 'repeat-config', 'the same configuration maps differently')
    case.event('given.parser')
    case.event('given.defaults')
    # aliases, ignores
    data = dict((n, rng.choice([1, 'x', {'k': 1}, [1, 2]])) for n in rng.sample(['p', 'q'] + names, 4))
    aliases = dict((n, rng.choice(list(data))) for n in rng.sample(names, 2))
    ignores = [rng.choice(list(data)), 'x.y']
    shots = [snapshot(o) for o in (data, aliases, ignores)]
    src = pilo.DefaultSource(data, aliases=aliases, ignores=ignores)
    results = []
    for _ in range(3):
        form = cls()
        results.append((outcome_errors(form.map(src)), canon(form)))
        case.equal([snapshot(o) for o in (data, aliases, ignores)], shots, 'given-changed', 'mapping changed what the source was given')
    case.equal(results[1:], [results[0]] * 2, 'repeat-aliases', 'the same source maps differently', data=data, aliases=aliases, ignores=ignores)
    case.event('given.aliases')
    # sequences
    seq = [rng.choice([1, 'x', None, [1]]) for _ in range(rng.randrange(6))]
    shot = snapshot(seq)
    first = None
    for _ in range(3):
        form = cls()
        out = (outcome_errors(form.map(seq)), canon(form))
        first = first or out
        case.equal(out, first, 'repeat-sequence', 'the same sequence maps differently', data=seq)
    case.equal(snapshot(seq), shot, 'given-changed', 'mapping changed a sequence')
    # tags
    tagged = type('G', (pilo.Form,), dict((n, F.Field(default=n).tag('t', n)) for n in names))
    for tags in ([names[0], 'zz'], {names[0], 'zz'}, ['t', 't']):
        shot = copy.copy(tags)
        first = None
        for reset in (True, False, True):
            form = tagged()
            out = (outcome_errors(form.map(data, tags=tags, reset=reset)), canon(form))
            first = first or out
            case.equal(out, first, 'repeat-tags', 'the same tags map differently', tags=tags)
            case.equal(tags, shot, 'tags-changed', 'mapping changed the given tags')
    case.event('given.tags')
    # json
    text = json.dumps(data)
    for given_ in (text, text.encode('utf-8')):
        shot = given_[:]
        src = pilo.source.JsonSource(given_)
        first = None
        for _ in range(3):
            form = cls()
            out = (outcome_errors(form.map(src, unmapped='capture')), canon(form))
            first = first or out
            case.equal(out, first, 'repeat-json', 'the same text maps differently', text=text)
            case.equal(src.data, data, 'json-changed', 'mapping changed the parsed data', text=text)
        case.equal(given_, shot, 'json-changed', 'the text changed')
    case.event('given.json')
    # union
    srcs = [data, {'zz': 1}, pilo.DefaultSource({'yy': {'k': [1]}})]
    keep = list(srcs)
    src = pilo.source.union(srcs, merge=rng.choice(['first', 'last', 'combine']))
    first = None
    for _ in range(3):
        form = type('U', (pilo.Form,), dict(dict((n, F.Field(default=None)) for n in names), zz=F.Integer(),
                                            yy=F.Dict(F.String(), F.List(F.Integer()))))()
        out = (outcome_errors(form.map(src)), canon(form))
        out = (sorted(out[0]), unordered(out[1]))
        first = first or out
        case.equal(out, first, 'repeat-union', 'the same union maps differently', data=data)
    case.expect(len(srcs) == 3 and all(x is y for x, y in zip(srcs, keep)), 'given-changed', 'the list of sources changed')
    case.event('given.union')
    # defaults that are containers
    literal = rng.choice([[1, [2]], {'a': [1]}, [], {}])
    shot = snapshot(literal)
    kinds = {'list': [F.List(F.Field(), default=literal), F.Field(default=literal)],
             'dict': [F.Dict(F.String(), F.Field(), default=literal), F.Field(default=literal)]}[type(literal).__name__]
    dcls = type('D', (pilo.Form,), dict(('d{0}'.format(i), f) for i, f in enumerate(kinds)))
    for _ in range(3):
        form = dcls()
        errors = form.map(rng.choice([{}, {'d0': literal}, {'d1': copy.deepcopy(literal)}]))
        case.equal((outcome_errors(errors), dict(dict.items(form))), ([], dict((f.name, literal) for f in kinds)), 'default-value', 'a literal default')
        list(form.flatten())
        form.copy()
        form.filter('x', inv=True)
        case.equal(snapshot(literal), shot, 'default-changed', 'mapping changed a literal default')
    case.event('default.literal')
    case.distinct('given', repr(data), repr(aliases), repr(ignores))


def history_fields(F, rng):
    """(name, make the field, values): declarations with several constraints at once."""
    words = ['aa', 'ab', 'ac', 'b', '', 'a', 'abc', 'AB', 'zz', '5', None, 5, True, ['aa'], {'aa': 'ab'}]

    def text():
        options = {}
        for name, value in [('choices', rng.sample(['aa', 'ab', 'b', 'abc', '5', 'zz'], rng.randrange(2, 6))), ('pattern', rng.choice(['a', '[a-z]{2}', '.*'])),
                            ('alphabet', rng.choice(['ab', 'abc', ['a', 'b', 'z']])), ('min_length', rng.choice([1, 2])), ('max_length', rng.choice([1, 2, 3])),
                            ('ignore', rng.choice(['aa', 'zz', ''])), ('translate', {'aa': 'ab', 'b': 'aa'}), ('nullable', rng.choice([True, False]))]:
            if rng.random() < 0.45:
                options[name] = value
        return lambda: F.String(**copy.deepcopy(options))

    def number():
        kind = rng.choice([F.Integer, F.Float, F.Decimal])
        options = {}
        for name, value in [('min_value', rng.choice([0, 2])), ('max_value', rng.choice([3, 100])), ('ignore', 5), ('translate', {1: 2, 2: 50}),
                            ('nullable', rng.choice([True, False])), ('default', 3)]:
            if rng.random() < 0.4:
                options[name] = value
        return lambda: kind(**copy.deepcopy(options))

    def moment():
        kind, low = rng.choice([(F.Date, datetime.date(2015, 3, 9)), (F.Datetime, datetime.datetime(2015, 3, 9, 4))])
        options = {'format': rng.choice(['iso8601', '%Y-%m-%d', ['%d/%m/%Y', '%Y-%m-%d']]) if kind is F.Date else rng.choice(['iso8601', '%Y-%m-%d'])}
        if rng.random() < 0.5:
            options['after'] = low
        return lambda: kind(**options)

    numbers = [0, 1, 2, 3, 5, 100, -1, '1', '2', '5', 'x', '', None, 2.5, True, [1], {'a': 1}]
    moments = ['2015-03-09', '2015-03-10', '2020-01-01', '09/03/2015', '', 'x', None, 5, datetime.date(2016, 1, 1), datetime.datetime(2016, 1, 1),
               '2015-03-10T04:05:06']
    return rng.choice([('text', text(), words), ('text', text(), words), ('number', number(), numbers), ('moment', moment(), moments),
                       ('boolean', lambda: F.Boolean(), [True, 'true', 'f', '', 'x', 0, 1, 2, None]),
                       ('code', lambda: F.Code(), ['os:path', 'os.path:join', 'nosuch:x', 'x', 'os', 'json:dumps', 5, None]),
                       ('uuid', lambda: F.UUID(), ['9f3e7c1a-8d4b-4a6e-9b1f-0c2d3e4f5a6b', 'x', '', 5, None])])


def history(case):
    """The outcome for a value is a function of the declaration and the value, whatever was mapped before: an offline check of the log."""
    import pilo
    F, rng = pilo.fields, case.rng
    kind, make, pool = history_fields(F, rng)
    cls = type('H', (pilo.Form,), {'x': make()})
    many = type('M', (pilo.Form,), {'x': F.List(make()), 'd': F.Dict(F.String(), make(), default=None), 'k': F.Dict(make(), F.Field(), default=None)})
    held = cls()
    log = []

    def judged(way, value, fn):
        # what a type refuses with another class of error is refused alike each time
        try:
            out = fn()
        except Exception as ex:
            errors = getattr(ex, 'field_errors', None)
            out = (type(ex).__name__, tuple(message(e) for e in errors) if errors is not None else message(ex))
        log.append(((way, repr(value)), out))

    def mapped(c, data, form=None):
        form = form if form is not None else c()
        errors = form.map(data, reset=True)
        return tuple(outcome_errors(errors)), tuple(message(e) for e in errors), canon(dict(dict.items(form)))

    def assigned(form, value):
        form.x = value
        return canon(dict.get(form, 'x', 'none'))

    def built(value):
        return canon(dict(dict.items(cls(x=value))))

    ways = {
        'map': lambda v: mapped(cls, {'x': v}),
        'again': lambda v: mapped(cls, {'x': v}, held),
        'absent': lambda v: mapped(cls, {}),
        'item': lambda v: mapped(many, {'x': [v]}),
        'items': lambda v: mapped(many, {'x': [pool[0], v, pool[1]]}),
        'entry': lambda v: mapped(many, {'x': [], 'd': {'e': v}}),
        'key': lambda v: mapped(many, {'x': [], 'k': {v if isinstance(v, str) else 'a': 1}}),
        'assign': lambda v: assigned(cls(), v),
        'reassign': lambda v: assigned(held, v),
        'build': built,
        'raise': lambda v: canon(dict(dict.items(cls({'x': v})))),
    }
    names = sorted(ways)
    chosen = rng.sample(pool, min(len(pool), rng.randrange(3, 9)))
    for _ in range(rng.randrange(30, 90)):
        way, value = rng.choice(names), rng.choice(chosen)
        judged(way, value, lambda: ways[way](value))
    seen = {}
    for i, (key, out) in enumerate(log):
        if key not in seen:
            seen[key] = (i, out)
            case.distinct('history', kind, key[0], out)
            continue
        j, first = seen[key]
        case.equal(out, first, 'history', 'the same value has another outcome after other mappings', declared=kind, use=key, first=j, again=i,
                   between=[k for k, _ in log[j + 1:i]][:40])
        case.event('history.repeat')
    case.event('history.kind', kind)
    case.sample((kind, log[:3]))


WORKLOADS = [
    ('repeated', repeated, 900, 25000),
    ('hostile', hostile, 600, 15000),
    ('given', given, 400, 8000),
    ('history', history, 900, 25000),
    ('many', many.repeated, 40, 600),
]
