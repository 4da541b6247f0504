"""C13: the same data maps the same from every kind of source."""
import collections
import json
import types

from .. import many
from ..gen import Gen, junk
from ..spec import OWN, Builder, canon, model_root, outcome_errors, real_root, unordered

ID = 'C13'
RULE = 'distinct (form shape, errors, kinds of source compared)'
REQUIRED = ['judged', 'kind.kwargs', 'kind.object', 'kind.source', 'kind.strict', 'kind.lenient', 'kind.union', 'kind.mount', 'kind.config',
            'kind.config-section', 'kind.own', 'kind.union-own', 'kind.mount-own', 'kind.union-json', 'kind.mount-json', 'with-errors', 'without-errors', 'with-null', 'odd-key', 'captured',
            'kind.constructor', 'kind.ordered', 'kind.mapping', 'dotted.2', 'dotted.3', 'dotted.4']


def shapes(form):
    kinds = collections.Counter()

    def walk(f, item=False):
        kinds[f.kind] += 1
        if item and f.src is not OWN:
            kinds['item-src'] += 1
        for name in ('field', 'value_field', 'key_field'):
            g = getattr(f, name, None)
            if g is not None:
                walk(g, True)
        for g in getattr(f, 'fields', None) or []:
            if not isinstance(g, str):
                walk(g, True)
        for _, g in getattr(f, 'patterns', None) or []:
            walk(g, True)
        if getattr(f, 'form', None) is not None:
            for g in f.form.fields.values():
                walk(g)

    for f in form.fields.values():
        walk(f)
    return kinds


def outcome(form, got):
    if got[0] != 'ok':
        return ('raises', got[1], str(got[2]))
    errors = got[1]
    return ('ok', canon(form), outcome_errors(errors), [str(e.path) for e in errors])


def constructed(fn):
    """Constructing from data: the same values, or the same errors in one exception."""
    import pilo
    try:
        form = fn()
    except pilo.fields.FormError as ex:
        errors = ex.field_errors
        return ('ok', None, outcome_errors(errors), [str(e.path) for e in errors])
    except Exception as ex:
        return ('raises', type(ex).__name__, str(ex))
    return ('ok', canon(form), [], [])


def with_null(data):
    if data is None:
        return True
    if isinstance(data, dict):
        return any(with_null(v) for v in data.values())
    if isinstance(data, list):
        return any(with_null(v) for v in data)
    return False


def odd_key(data):
    if isinstance(data, dict):
        return any('.' in k or '(' in k or '[' in k or odd_key(v) for k, v in data.items())
    if isinstance(data, list):
        return any(odd_key(v) for v in data)
    return False


def sprinkle(rng, data):
    """Extra keys with dots and brackets, everywhere."""
    if isinstance(data, dict):
        out = dict((k, sprinkle(rng, v)) for k, v in data.items())
        if rng.random() < 0.3:
            out[rng.choice(['a.b', 'name.x', 'x()', 'l[0]', 'keys()', 'items[0].a', 'a[b]', '.', '..', '[]', '@m'])] = junk(rng, False, 1)
        return out
    if isinstance(data, list):
        return [sprinkle(rng, v) for v in data]
    return data


def same(case, got, want, kind, w, loose=False):
    case.event('kind', kind)
    if loose and got[0] == 'ok' and want[0] == 'ok':
        # the keys of a union have no order
        got = (got[0], got[1] and unordered(got[1]), sorted(got[2]), sorted(got[3]))
        want = (want[0], want[1] and unordered(want[1]), sorted(want[2]), sorted(want[3]))
    case.equal(got, want, kind, 'the mapping from this kind of source differs from the mapping of native data', **w)


def located(got, prefix, name=None, wrap=False):
    """The outcome below a mount name, as it would be without it."""
    if got[0] != 'ok':
        return got
    full = '@' + name

    def cut(p):
        if p == full:
            return ''
        if not p.startswith(full + ':'):
            return '?' + p
        return p[len(full) + 1:]

    value = got[1]
    return (got[0], value, [(k, cut(p)) for k, p in got[2]], [cut(p) for p in got[3]])


class Pairs(object):
    """A mapping of a source of one's own: neither a mapping nor a sequence to Python."""

    def __init__(self, data):
        self.pairs = [(k, grown(v)) for k, v in data.items()]


class Items(object):

    def __init__(self, data):
        self.list = [grown(v) for v in data]


def grown(v):
    return Pairs(v) if isinstance(v, dict) else Items(v) if isinstance(v, list) else v


def shrunk(v):
    if isinstance(v, Pairs):
        return dict((k, shrunk(x)) for k, x in v.pairs)
    return [shrunk(x) for x in v.list] if isinstance(v, Items) else v


OWN_SOURCES = {}


def own_source(pilo, data):
    """A kind of source of the user, as Source and Path say it is made."""
    from pilo import source
    if pilo not in OWN_SOURCES:

        class TreePath(source.Path):

            def step(self, container, key):
                if isinstance(container, Pairs):
                    for k, v in container.pairs:
                        if k == key and type(k) is type(key):
                            return v
                if isinstance(container, Items) and isinstance(key, int) and 0 <= key < len(container.list):
                    return container.list[key]
                return pilo.NONE

            def resolve(self, container, part):
                value = self.step(container, part.key)
                if value is pilo.NONE and isinstance(part.key, str) and '.' in part.key:
                    value = container
                    for atom in part.key.split('.'):
                        value = self.step(value, atom)
                return value

        class TreeError(source.SourceError):
            pass

        class TreeSource(source.Source, source.ParserMixin):

            error = TreeError

            def __init__(self, data):
                self.root = grown(data)

            def path(self):
                return TreePath(self, self.root)

            def mapping(self, path):
                if not isinstance(path.value, Pairs):
                    raise self.error(path, 'not pairs')
                return [k for k, _ in path.value.pairs]

            def sequence(self, path):
                if not isinstance(path.value, Items):
                    raise self.error(path, 'not items')
                return len(path.value.list)

            def primitive(self, path, *types):
                return shrunk(self.parser(types)(self, path, path.value))

        OWN_SOURCES[pilo] = TreeSource
    return OWN_SOURCES[pilo](data)


def forms(case):
    import pilo
    rng = case.rng
    # a container passed through as it is would be the source's own container
    kinds = ['String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID', 'List', 'Tuple', 'Dict', 'SubForm', 'Group']
    g = Gen(rng, depth=2, hooks=0.0, native=False, bad=0.06, absent=0.1, null=0.06, kinds=kinds, extras=0.2, width=4)
    form = g.form().number()
    shape = shapes(form)
    # a union has no order of keys; and see C14 for keys of items
    no_union = shape['Group'] or shape['item-src']
    b = Builder()
    cls = form.build(b)
    for _ in range(2):
        data = sprinkle(rng, g.form_data(form))
        unmapped = 'ignore'
        text = json.dumps(data)
        w = dict(form=form, data=data)
        want = outcome(*real_root(cls, data, unmapped=unmapped))
        case.event('with-errors' if want[2] else 'without-errors')
        if with_null(data):
            case.event('with-null')
        if odd_key(data):
            case.event('odd-key')
        models = dict((k, model_outcome(form, data, k)) for k in ('native', 'strict', 'lenient'))
        same(case, outcome(*real_root(cls, pilo.DefaultSource(data))), want, 'source', w)
        same(case, outcome(*real_root(cls, collections.OrderedDict(data))), want, 'ordered', w)
        made = (want[0], want[1] if not want[2] else None, want[2], want[3])
        mapping = rng.choice([types.MappingProxyType, collections.UserDict, lambda d: collections.ChainMap({}, d)])
        same(case, outcome(*real_root(cls, mapping(data))), want, 'mapping', w)
        same(case, constructed(lambda: cls(mapping(data))), made, 'mapping', w)
        same(case, constructed(lambda: cls(data)), made, 'object', w)
        same(case, constructed(lambda: cls(pilo.DefaultSource(data))), made, 'constructor', w)
        if data and not set(data) & {'self', 'src'}:
            same(case, constructed(lambda: cls(**data)), made, 'kwargs', w)
        for kind in ('strict', 'lenient'):
            if models[kind] != models['native']:
                continue
            strict = kind == 'strict'
            same(case, outcome(*real_root(cls, pilo.source.JsonSource(text, strict=strict))), want, kind, w)
            same(case, constructed(lambda: cls(pilo.source.JsonSource(text, strict=strict))), made, kind, w)
            if not no_union:
                same(case, outcome(*real_root(cls, pilo.source.union([pilo.source.JsonSource(text, strict=strict)],
                                                                     merge=rng.choice(['first', 'last', 'combine'])))), want,
                     'union-json', w, True)
        if models['strict'] == models['native']:
            own = own_source(pilo, data)
            same(case, outcome(*real_root(cls, own)), want, 'own', w)
            same(case, constructed(lambda: cls(own_source(pilo, data))), made, 'own', w)
            if not no_union:
                same(case, outcome(*real_root(cls, pilo.source.union([own], merge=rng.choice(['first', 'last', 'combine'])))), want, 'union-own', w, True)
        if not no_union:
            union = pilo.source.union([data], merge=rng.choice(['first', 'last', 'combine']),
                                      merge_depth=rng.choice([None, None, 1, 2]))
            same(case, outcome(*real_root(cls, union)), want, 'union', w, True)
        name = rng.choice(['m', 'name', 'x1'])
        wrapper = type('W', (pilo.Form,), {'inside': pilo.fields.SubForm(cls, src=name)})
        mounts = [('mount', data), ('mount', pilo.DefaultSource(data))]
        if models['strict'] == models['native']:
            mounts.append(('mount-json', pilo.source.JsonSource(text, strict=True)))
            mounts.append(('mount-own', own_source(pilo, data)))
        for kind, inner in mounts:
            # what is mapped below the name, also when it fails
            kept = []
            field = pilo.fields.SubForm(cls, src=name)
            wrapper = type('W', (pilo.Form,), {'inside': field})
            obj, got = real_root(wrapper, pilo.source.mount(**{name: inner, 'other': {'a': 1}}))
            got = outcome(obj, got)
            if got[0] == 'ok':
                inside = dict.get(obj, 'inside')
                got = (got[0], None if inside is None else canon(inside)) + got[2:]
            same(case, located(got, '', name), made, kind, w)
        case.distinct(form.shape(), repr(want[2]), tuple(sorted(k for k in models if models[k] == models['native'])))
    case.sample((form, data, want[2]))


def model_outcome(form, data, source):
    M, got = model_root(form, data, source=source)
    if got[0] != 'ok':
        return got[:2]
    return ('ok', canon(got[1]), M.errors)


def captured(case):
    """Unmapped capture from each kind of source."""
    import pilo
    rng = case.rng
    F = pilo.fields
    cls = type('C', (pilo.Form,), {'a': F.String(default=None), 'n': F.Integer('num', default=None)})
    keys = ['a', 'num', 'k.k', 'x()', 'é', '', 'l[0]', 'items']
    data = dict((k, rng.choice(['text', '', 'é']) if k != 'num' else 3) for k in rng.sample(keys, rng.randrange(1, len(keys) + 1)))
    unmapped = rng.choice(['capture', F.String(), (F.String(), F.String())])
    want = outcome(*real_root(cls, data, unmapped=unmapped))
    text = json.dumps(data)
    w = dict(data=data, unmapped=unmapped)
    same(case, outcome(*real_root(cls, pilo.DefaultSource(data), unmapped=unmapped)), want, 'source', w)
    if unmapped == 'capture' or 'num' not in data:
        same(case, outcome(*real_root(cls, pilo.source.JsonSource(text), unmapped=unmapped)), want, 'lenient', w)
    same(case, outcome(*real_root(cls, pilo.source.JsonSource(text, strict=True), unmapped=unmapped)), want, 'strict', w)
    if isinstance(unmapped, str):
        unmapped = F.String()
        want2 = outcome(*real_root(cls, data, unmapped=unmapped)) if 'num' not in data else None
    else:
        want2 = want if 'num' not in data else None
    if want2 is not None:
        same(case, outcome(*real_root(cls, pilo.source.union([data]), unmapped=unmapped)), want2, 'union', w, True)
    case.event('captured')
    case.distinct('captured', tuple(sorted(data)), type(unmapped).__name__)


OPTION_WORDS = ['5', '-1', '1.5', 'true', 'F', '0', 'abc', 'x-y', '2015-03-09', '9f3e7c1a-8d4b-4a6e-9b1f-0c2d3e4f5a6b', 'a:b', '1e2', 'Ünï']


def config(case):
    """String-only data: configuration text and native text map alike."""
    import pilo
    rng = case.rng
    g = Gen(rng, depth=0, hooks=0.0, native=False, bad=0.0, absent=0.1, null=0.0, width=5,
            kinds=['String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID'], names=['a', 'b', 'c', 'd', 'name', 'x1'],
            keys=['k1', 'k2', 'opt', 'w'], extras=0.0, share=False, ignores=0.1)
    fields, data = {}, {}
    specs = {}
    for section in rng.sample(['s', 't', 'main', 'x.y'], rng.randrange(1, 4)):
        form = g.form(0)
        specs[section] = form
        if rng.random() < 0.9:
            options = {}
            for name, f in form.fields.items():
                if rng.random() < 0.85:
                    src = f.src if isinstance(f.src, str) else name
                    options[src] = rng.choice(OPTION_WORDS)
            data[section] = options
    from .. import spec
    top = spec.Form('Top', dict((name.replace('.', '_'), spec.SubFormF(form, src=name)) for name, form in specs.items())).number()
    cls = top.build(Builder())
    text = ''.join('[{0}]\n{1}\n'.format(s, ''.join('{0} {2} {1}\n'.format(k, v, rng.choice('=:')) for k, v in options.items()))
                   for s, options in data.items())
    want = outcome(*real_root(cls, data))
    w = dict(text=text, form=top)
    same(case, outcome(*real_root(cls, pilo.source.ConfigSource(text))), want, 'config', w)
    for section, form in specs.items():
        if section not in data:
            continue
        one = form.build(Builder())
        want = outcome(*real_root(one, data[section]))
        got = outcome(*real_root(one, pilo.source.ConfigSource(text, section=section)))
        prefix = '[{0}]:'.format(section)
        if got[0] == 'ok':
            got = (got[0], got[1], [(k, cut(p, prefix)) for k, p in got[2]], [cut(p, prefix) for p in got[3]])
        same(case, got, want, 'config-section', w)
        case.event('with-errors' if want[2] else 'without-errors')
    case.distinct('config', top.shape(), text)
    case.sample((top, text))


def cut(p, prefix):
    return p[len(prefix):] if p.startswith(prefix) else '?' + p


ATOMS = ['a', 'b', 'c', 'k1', 'é', 'x y', '0', 'items']


def dotted(case):
    """Dotted keys, of native and JSON sources."""
    import pilo
    rng, F = case.rng, pilo.fields

    def tree(depth):
        out = {}
        for k in rng.sample(ATOMS, rng.randrange(1, 4)):
            if depth and rng.random() < 0.7:
                out[k] = tree(depth - 1)
            else:
                out[k] = rng.choice([1, 'text', None, [1, 2], 2.5, True])
        if rng.random() < 0.2:
            out['.'.join(rng.sample(ATOMS, 2))] = rng.choice([7, {'a': 8, 'b': {'c': 9}}])
        return out

    def walk(value, parts):
        yield parts
        if isinstance(value, dict):
            for k, v in value.items():
                for p in walk(v, parts + [k]):
                    yield p

    data = tree(4)
    paths = [p for p in walk(data, []) if p]
    body = {}
    for i in range(rng.randrange(1, 7)):
        parts = list(rng.choice(paths))
        if rng.random() < 0.3:
            parts[rng.randrange(len(parts))] = rng.choice(ATOMS)
        if rng.random() < 0.2:
            parts.append(rng.choice(ATOMS))
        field = rng.choice([F.Integer, F.Field, F.Field, lambda src, **o: F.Dict(F.String(), F.Field(), src, **o),
                            lambda src, **o: F.List(F.Integer(), src, **o)])
        body['f{0}'.format(i)] = field('.'.join(parts), **rng.choice([{}, {'default': 'dflt'}]))
        case.event('dotted', min(len(parts), 4))
    cls = type('D', (pilo.Form,), body)
    text = json.dumps(data)
    w = dict(data=data, srcs=[f.src for f in cls.fields])
    want = outcome(*real_root(cls, data))
    for strict in (True, False):
        same(case, outcome(*real_root(cls, pilo.source.JsonSource(text, strict=strict))), want, 'strict' if strict else 'lenient', w)
    same(case, outcome(*real_root(cls, pilo.DefaultSource(data))), want, 'source', w)
    made = (want[0], want[1] if not want[2] else None, want[2], want[3])
    for inner in (data, pilo.source.JsonSource(text)):
        wrapper = type('W', (pilo.Form,), {'inside': pilo.fields.SubForm(cls, src='m')})
        obj, got = real_root(wrapper, pilo.source.mount(m=inner))
        got = outcome(obj, got)
        if got[0] == 'ok':
            inside = dict.get(obj, 'inside')
            got = (got[0], None if inside is None else canon(inside)) + got[2:]
        same(case, located(got, '', 'm'), made, 'mount', w)
    case.distinct('dotted', repr(data), tuple(w['srcs']))


WORKLOADS = [
    ('dotted', dotted, 500, 15000),
    ('forms', forms, 1200, 35000),
    ('captured', captured, 400, 10000),
    ('config', config, 500, 15000),
    ('many', many.sources, 40, 800),
]
