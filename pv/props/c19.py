"""C19: a location shows exactly what a direct lookup gives there."""
import collections
import copy
import functools
import json

from .. import many
from ..spec import canon, outcome_errors

ID = 'C19'
RULE = 'distinct (source kind, keys walked, what was found)'
REQUIRED = ['judged'] + ['found.' + k for k in ('item', 'index', 'alias', 'attribute', 'dotted', 'called', 'nothing', 'null', 'ignored', 'below-absent',
                                                'dotted-item', 'call-item', 'uncallable', 'method')] + [
    'source.' + k for k in ('native', 'aliased', 'ignoring', 'json', 'sequence', 'located')] + [
    'late', 'again', 'copy', 'popped', 'replaced', 'deleted', 'inserted', 'swapped', 'field', 'context', 'keys', 'hooked'] + ['calling.' + k for k in ('value', 'exists', 'null', 'primitive', 'below', 'copy', 'field')]

ABSENT = object()


class Kind(object):

    a = 'of the kind'

    def __eq__(self, other):
        return type(self) is type(other)

    __hash__ = None

    def __repr__(self):
        return 'Kind()'


class Inner(object):

    def __init__(self, n):
        self.n = n
        self.table = {'k': n, 'n.k': [n]}
        self.nothing = None

    def twice(self):
        return {'twice': [self.n, self.n]}

    _own = 'private'

    kind = Kind
    made = functools.partial(dict, a=[1])

    def more(self):
        return {'a': self.n, 'list': [1, 2]}

    @property
    def b(self):
        return ['prop', self.n]

    def __eq__(self, other):
        return type(self) is type(other) and self.n == other.n

    __hash__ = None

    def __repr__(self):
        return 'Inner({0})'.format(self.n)


class Item(object):
    """Has items and attributes of the same name."""

    a = 'attribute'
    only = 'attribute'

    def __getitem__(self, key):
        if key in ('a', 'x'):
            return 'item ' + key
        raise KeyError(key)

    def __repr__(self):
        return 'Item()'


Pair = collections.namedtuple('Pair', 'a b')

KEYS = ['a', 'b', 'c', 'n', 'k', 'x', 'only', 'twice', 'twice()', 'more()', 'table', 'a.b', 'a.b.c', 'b.a', 'table.k', 'table.n.k', 'more().a', 'nothing', 'keys', 'items',
        'keys()', 'append', 'pop', 'a()', '', '.', 'a.', '.a', 'c.d', 'd', 'zz', '()', 'a.twice()', 'b.more()', 'c.n', 'real', 'upper', 'upper()', 'x.y.z', 'alias', 'other',
        'alias.b', 'other.a', 'b.alias', 'é', 'index', 'count', '0', '1']


def tree(rng, depth, native, n=[0]):
    n[0] += 1
    roll = rng.random()
    if depth <= 0 or roll < 0.25:
        return rng.choice([n[0], 'text{0}'.format(n[0]), None, 1.5, True, '', 0])
    if roll < 0.6:
        keys = rng.sample(['a', 'b', 'c', 'n', 'k', 'x', 'keys', 'a.b', 'twice()', 'a()', '', 'c.d', 'd', 'pop', '0', 'é', 'b.c', 'x.y', '.', 'ab', 'ka', 'key', 'a0'], rng.randrange(6))
        return dict((k, tree(rng, depth - 1, native)) for k in keys)
    if roll < 0.8 or not native:
        body = [tree(rng, depth - 1, native) for _ in range(rng.randrange(4))]
        return tuple(body) if native and rng.random() < 0.3 else body
    if roll < 0.9:
        return Inner(rng.choice([n[0], {'k': n[0], 'a': {'b': 1}}, [1, [2]]]))
    if roll < 0.95:
        return Pair(tree(rng, depth - 1, native), tree(rng, depth - 1, native))
    return Item()


def tuples(d):
    return d


# ---- the direct lookup

class Native(object):

    def __init__(self, data, aliases=None, ignores=None):
        self.data, self.aliases = data, aliases or {}
        self.ignores = [i.split('.') for i in ignores or []]

    def item(self, container, key):
        try:
            return container[key]
        except (LookupError, TypeError):
            return ABSENT

    def named(self, container, name, root, call):
        """An item, an alias or an attribute; and how it was found."""
        value = self.item(container, name)
        if value is not ABSENT:
            return value, 'item' if isinstance(name, str) else 'index'
        if root and name in self.aliases:
            value = self.item(container, self.aliases[name])
            if value is not ABSENT:
                return value, 'alias'
        if isinstance(name, str) and name:
            try:
                value = getattr(container, name)
            except AttributeError:
                return ABSENT, 'nothing'
            # methods of a mapping, a sequence or text are no content
            if not call and isinstance(container, (dict, list, tuple, str)) and callable(value) and not isinstance(container, Pair):
                return ABSENT, 'method'
            if not call and isinstance(container, Pair) and name not in Pair._fields and callable(value):
                return ABSENT, 'method'
            return value, 'attribute'
        return ABSENT, 'nothing'

    def find(self, container, key, root, call=False):
        if isinstance(key, str) and key.endswith('()'):
            value, how = self.named(container, key, root, True)
            if value is not ABSENT and how != 'attribute':
                return value, 'call-item'
            value, how = self.find(container, key[:-2], root, True)
            if value is ABSENT:
                return value, how
            if not callable(value):
                return ABSENT, 'uncallable'
            return value(), 'called'
        value, how = self.named(container, key, root, call)
        if value is not ABSENT:
            return value, 'dotted-item' if isinstance(key, str) and '.' in key else how
        if isinstance(key, str) and '.' in key:
            value = container
            for i, atom in enumerate(key.split('.')):
                value, _ = self.named(value, atom, root and i == 0, call)
                if value is ABSENT:
                    return ABSENT, 'nothing'
            return value, 'dotted'
        return ABSENT, how if how == 'method' else 'nothing'

    def at(self, keys):
        value, how = self.data, 'root'
        atoms = []
        for i, key in enumerate(keys):
            if value is ABSENT:
                return ABSENT, 'below-absent'
            atoms.extend(str(key).split('.'))
            if any(atoms[:len(g)] == g for g in self.ignores):
                value, how = ABSENT, 'ignored'
                continue
            value, how = self.find(value, key, i == 0)
        return value, how


class Json(object):

    def __init__(self, data):
        self.data = data

    def at(self, keys):
        value, how = self.data, 'root'
        for key in keys:
            if value is ABSENT:
                return ABSENT, 'below-absent'
            try:
                value, how = value[key], 'item' if isinstance(key, str) else 'index'
                continue
            except (LookupError, TypeError):
                pass
            if isinstance(key, str) and '.' in key:
                try:
                    for atom in key.split('.'):
                        value = value[atom]
                    how = 'dotted'
                    continue
                except (LookupError, TypeError):
                    pass
            value, how = ABSENT, 'nothing'
        return value, how


def world(rng):
    """(kind, source, model)."""
    import pilo
    kind = rng.choice(['native', 'native', 'aliased', 'ignoring', 'json', 'sequence', 'located'])
    data = {}
    while len(data) < 3:
        data = tree(rng, 4, kind != 'json')
        if not isinstance(data, dict):
            data = {}
        for k in ('a', 'b', 'c'):
            if rng.random() < 0.6:
                data[k] = tree(rng, 3, kind != 'json')
    if kind == 'json':
        data = json.loads(json.dumps(data))
        return kind, pilo.source.JsonSource(json.dumps(data), location=rng.choice([None, 'at'])), Json(data), data
    if kind == 'aliased':
        aliases = dict((rng.choice(['alias', 'other', 'x', 'b', 'twice()']), rng.choice(list(data) + ['zz'])) for _ in range(3))
        return kind, pilo.DefaultSource(data, aliases=aliases), Native(data, aliases), data
    if kind == 'ignoring':
        for k in ('ab', 'ka', 'bb', 'zzz'):
            if rng.random() < 0.3:
                data[k] = tree(rng, 2, True)
        ignores = [rng.choice(['a', 'b', 'a.b', 'c.a', 'k', 'c.k', 'ke', 'n', 'key', 'b.c', 'a.b.c', 'x', 'c.0', 'b.1', 'twice()', 'keys', 'c.d', 'zz']) for _ in range(rng.randrange(1, 4))]
        return kind, pilo.DefaultSource(data, ignores=ignores), Native(data, ignores=ignores), data
    if kind == 'sequence':
        data = rng.choice([list, tuple])(list(data.values()) + [1])
        aliases = dict((n, rng.randrange(len(data) + 1)) for n in rng.sample(['a', 'b', 'alias', 'other', 'x'], 3))
        return kind, pilo.DefaultSource(data, aliases=aliases), Native(data, aliases), data
    return kind, pilo.DefaultSource(data, location='at' if kind == 'located' else None), Native(data), data


def pick(rng, model, keys):
    """A key to push; most of them lead somewhere."""
    here, _ = model.at(keys)
    pool = []
    if isinstance(here, dict):
        pool = list(here)
    elif isinstance(here, (list, tuple)):
        pool = list(range(len(here)))
    elif isinstance(here, Inner):
        pool = ['n', 'twice()', 'more()', 'table', 'b', 'nothing', 'kind()', 'made()', 'made().a', 'kind', 'table.k', 'n.k', 'twice', '_own']
    elif isinstance(here, Item):
        pool = ['a', 'only', 'x']
    if not keys and getattr(model, 'aliases', None):
        pool = pool + list(model.aliases)
    if not keys and getattr(model, 'ignores', None):
        pool = pool + [g[0] for g in model.ignores]
    if keys and getattr(model, 'ignores', None):
        pool = pool + [g[len(keys)] for g in model.ignores if len(g) > len(keys)]
    if isinstance(here, dict) and rng.random() < 0.3:
        # two steps at once
        for k, v in here.items():
            if isinstance(v, dict):
                pool = pool + ['{0}.{1}'.format(k, k2) for k2 in v]
                pool = pool + ['{0}.{1}.{2}'.format(k, k2, k3) for k2 in v if isinstance(v[k2], dict) for k3 in v[k2]]
            elif isinstance(v, Inner):
                pool = pool + [k + '.n', k + '.twice()', k + '.made()', k + '.kind()', k + '.twice', k + '.table', k + '.b']
    if pool and rng.random() < 0.7:
        return rng.choice(pool)
    return rng.choice(KEYS + [0, 1, 2, 7, -1, -2])


def same(a, b):
    if a is b:
        return True
    try:
        return canon(a) == canon(b) if not callable(a) else a == b
    except Exception:
        return False


def walk(case):
    import pilo
    rng = case.rng
    kind, src, model, data = world(rng)
    case.event('source', kind)
    path, keys, log = src.path(), [], []
    copies = []
    for _ in range(60):
        roll = rng.random()
        if keys and (roll < 0.35 or len(keys) > 5):
            path.pop()
            keys.pop()
            log.append('pop')
            case.event('popped')
        elif keys and roll < 0.4:
            at = rng.choice([-1, -1, rng.randrange(len(keys)), -rng.randint(1, len(keys))])
            key = pick(rng, model, keys[:at])
            path[at] = key
            keys[at] = key
            log.append(('replace', at, key))
            case.event('replaced')
        elif len(keys) > 1 and roll < 0.44:
            at = rng.choice([0, 0, -2, rng.randrange(len(keys)), slice(0, 1), slice(rng.randrange(len(keys)), None)])
            del path[at]
            del keys[at]
            log.append(('delete', str(at)))
            case.event('deleted')
        elif keys and len(keys) < 6 and roll < 0.48:
            at = rng.choice([0, 0, rng.randrange(len(keys)), -1])
            key = pick(rng, model, keys[:at])
            path.insert(at, key)
            keys.insert(at, key)
            log.append(('insert', at, key))
            case.event('inserted')
        elif copies and roll < 0.51:
            i = rng.randrange(len(copies))
            (path, keys), copies[i] = copies[i], (path, keys)
            log.append('other copy')
            case.event('swapped')
        elif roll < 0.56:
            copies.append((copy.copy(path), list(keys)))
            case.event('copy')
        else:
            key = pick(rng, model, keys)
            path.append(key)
            keys.append(key)
            log.append(key)
        if rng.random() < 0.4:
            case.event('late')
            continue
        look(case, path, model, keys, dict(kind=kind, data=data, keys=list(keys), log=log[-15:], aliases=getattr(model, 'aliases', None),
                                          ignores=getattr(model, 'ignores', None)), kind)
        if rng.random() < 0.2:
            look(case, path, model, keys, dict(kind=kind, data=data, keys=list(keys), log=log[-15:]), kind)
            case.event('again')
    for other, its in copies:
        look(case, other, model, its, dict(kind=kind, data=data, keys=its, log='a copy'), kind)


def look(case, path, model, keys, w, kind):
    import pilo
    value, how = model.at(keys)
    case.equal(path.exists, value is not ABSENT, 'exists', 'presence differs from a direct lookup ({0})'.format(how), **w)
    case.equal(len(path), len(keys), 'length', 'the number of keys', **w)
    text = ''.join('[{0}]'.format(k) if i and isinstance(k, int) else '.' + k if i else str(k) for i, k in enumerate(keys))
    case.expect(str(path).endswith(text) and str(path)[:len(str(path)) - len(text)] in ('', 'at:'), 'text', 'the text of a location', got=str(path),
                expected=text, **w)
    case.equal(path.is_null, value is None, 'null', 'nullness differs from a direct lookup', **w)
    if value is not ABSENT:
        case.expect(same(path.value, value), 'value', 'the value differs from a direct lookup ({0})'.format(how), got=path.value, expected=value, **w)
    else:
        case.expect(path.value is pilo.NONE, 'absent', 'something absent has a value', got=path.value, **w)
    case.event('found', 'null' if value is None else how)
    case.distinct(kind, tuple(keys), how)
    # kinds of containers
    if keys and value is not ABSENT:
        is_map, is_seq = isinstance(value, dict), isinstance(value, (list, tuple))
        for name, want in (('mapping', is_map), ('sequence', is_seq)):
            try:
                got = getattr(path, name)()
                got = list(got) if name == 'mapping' else got
                case.expect(want, 'container', 'not a {0}'.format(name), got=got, **w)
                if name == 'sequence':
                    case.equal(got, len(value), 'length-of', 'the length of a sequence', **w)
                else:
                    shown = [k for k in value if model.at(keys + [k])[1] != 'ignored']
                    case.equal(got, shown, 'keys', 'the keys of a mapping', **w)
                    case.event('keys')
            except pilo.SourceError:
                case.expect(not want, 'container', 'a {0} was refused'.format(name), **w)


def fields(case):
    """The same through declared fields, hooks and the context."""
    import pilo
    F, rng = pilo.fields, case.rng
    kind, src, model, data = world(rng)
    case.event('source', kind)
    chains = [[pick(rng, model, [])] for _ in range(3)]
    for c in chains:
        while rng.random() < 0.5 and len(c) < 4:
            c.append(pick(rng, model, c))
    # a field that reads one key
    body, want, errors = {}, {}, []
    for i, c in enumerate(chains):
        name = 'f{0}'.format(i)
        if isinstance(c[0], str):
            body[name] = F.Field(src=c[0])
            value, how = model.at(c[:1])
            if value is ABSENT:
                errors.append('Missing')
            else:
                want[name] = value
    cls = type('W', (pilo.Form,), body)
    form = cls()
    w = dict(kind=kind, data=data, chains=chains, aliases=getattr(model, 'aliases', None), ignores=getattr(model, 'ignores', None))
    got = form.map(src)
    case.equal([type(e).__name__ for e in got], errors, 'field-errors', 'errors of fields that read a location', got_values=dict(dict.items(form)), **w)
    case.equal(sorted(dict.keys(form)), sorted(want), 'field-set', 'which fields have a value', **w)
    for name, value in want.items():
        case.expect(same(dict.get(form, name), value), 'field-value', 'a field has another value than its location', name=name, got=dict.get(form, name), expected=value, **w)
    case.event('field')
    # pushed keys, all before the first look, and a field below them
    for c in chains:
        found = []

        field = F.Field(src=None, default='absent')

        @field.resolve
        def resolve(self):
            closes = [pilo.ctx(src=k) for k in c]

            def close():
                for x in reversed(closes):
                    x.__exit__(None, None, None)
            return pilo.Close(close)

        other = F.Field(src=rng.choice(['a', 'b', 'c']), default='absent')
        sequence = [('h', field), ('o', other)]
        rng.shuffle(sequence)
        cls = type('W', (pilo.Form,), dict(sequence))
        form = cls()
        form.map(src)
        value, how = model.at(c)
        case.expect(same(form['h'], 'absent' if value is ABSENT else value), 'hooked', 'a pushed location has another value', got=form['h'], chain=c, how=how, **w)
        value, how = model.at([other.src])
        case.expect(same(form['o'], 'absent' if value is ABSENT else value), 'hooked-other', 'the location was not restored', got=form['o'], chain=c, **w)
        case.event('hooked')
        with pilo.ctx(src=src):
            closes = []
            for i, k in enumerate(c):
                closes.append(pilo.ctx(src=k))
            for i in range(len(c), 0, -1):
                value, how = model.at(c[:i])
                case.expect(pilo.ctx.src_path.exists == (value is not ABSENT) and (value is ABSENT or same(pilo.ctx.src_path.value, value)), 'context',
                            'the context shows another value', chain=c[:i], how=how, **w)
                with closes.pop():
                    pass
            case.event('context')
        case.distinct('field', kind, tuple(c), how)


SHOWN = [0, '', False, None, [], {}, (), 0.0, 1, 'x', [0], {'k': 0}, {'k': []}, {'k': {'k': ''}}, [[], 0]]


def calling(case):
    """What a location once showed by a call it keeps showing, and no look calls again."""
    import pilo
    F, rng = pilo.fields, case.rng
    calls = []
    shows = [rng.choice(SHOWN) for _ in range(3)]

    def tick():
        calls.append('tick')
        return copy.copy(shows[(len(calls) - 1) % 3])

    class Obj(object):

        def tick(self):
            return tick()

    data = rng.choice([{'tick': tick}, {'o': {'tick': tick}}, {'o': Obj()}, {'l': [Obj()]}])
    where = ['tick()'] if 'tick' in data else rng.choice([['o', 'tick()'], ['o.tick()']]) if 'o' in data else ['l', 0, 'tick()']
    path = pilo.DefaultSource(data).path()
    for key in where:
        path.append(key)
    below = rng.choice([None, None, 'k', 0, 'zz'])
    for visit in range(2):
        looks = []
        for _ in range(rng.randrange(1, 8)):
            look = rng.choice(['value', 'exists', 'null', 'primitive', 'below', 'copy', 'text'])
            looks.append(look)
            want = shows[visit % 3]
            w = dict(looks=looks, shows=shows, where=where, below=below, visit=visit)
            if look == 'value':
                case.equal(canon(path.value), canon(want), 'called-value', 'a location that is called shows something else', **w)
            elif look == 'exists':
                case.equal(path.exists, True, 'called-exists', 'a location that is called is not there', **w)
            elif look == 'null':
                case.equal(path.is_null, want is None, 'called-null', 'a location that is called shows something else', **w)
            elif look == 'primitive':
                case.equal(canon(path.primitive()), canon(want), 'called-primitive', 'a location that is called shows something else', **w)
            elif look == 'copy':
                path.value
                case.equal(canon(copy.copy(path).value), canon(want), 'called-copy', 'a copy of a location that is called shows something else', **w)
            elif look == 'text':
                str(path)
                continue
            elif below is not None:
                path.append(below)
                try:
                    found = want[below]
                except (TypeError, LookupError):
                    found = ABSENT
                case.equal(path.exists, found is not ABSENT, 'called-below', 'what is below a location that is called', **w)
                if found is not ABSENT:
                    case.equal(canon(path.value), canon(found), 'called-below', 'what is below a location that is called', **w)
                path.pop()
            else:
                continue
            case.equal(len(calls), visit + 1, 'called-again', 'looking at a location called again', **w)
            case.event('calling.' + look)
        if len(calls) == visit:
            path.value
        part = where[-1]
        path.pop()
        path.append(part)
    # a field looks once
    calls[:] = []
    cls = type('C', (pilo.Form,), {'f': F.Field(src=where[0], default='absent') if len(where) == 1 else F.Field(src='.'.join(str(k) for k in where), default='absent')})
    if 'l' not in data:
        form = cls()
        form.map(data)
        case.equal((canon(dict(form)), len(calls)), (canon({'f': shows[0]}), 1), 'called-field', 'a field whose key is called', shows=shows, where=where)
        case.event('calling.field')
    case.distinct('calling', repr(shows), repr(where), below)


WORKLOADS = [
    ('calling', calling, 300, 8000),
    ('walk', walk, 2500, 60000),
    ('fields', fields, 1200, 30000),
    ('many', many.located, 150, 3000),
]
