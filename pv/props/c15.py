"""C15: a mount source shows each mounted source under its own name only."""
import copy
import json

from .. import many
from ..gen import Gen
from ..spec import Builder, canon, outcome_errors, real_root, unordered

ID = 'C15'
RULE = 'distinct (form shapes, kinds of mounted sources, errors); distinct walks'
REQUIRED = ['judged', 'kind.native', 'kind.object', 'kind.located', 'kind.strict', 'kind.lenient', 'kind.config', 'kind.section', 'kind.union',
            'kind.none', 'absent', 'with-errors', 'without-errors', 'walk', 'refused', 'root-keys', 'across', 'interleaved', 'root-kind', 'near-name', 'mounted.null', 'mounted.empty']

NAMES = ['a', 'b', 'm', 'name', 'items', 'keys', 'x1', 'src_', 'é']


def mountable(rng, g, form):
    """(kind, what to mount, the same source to map alone)."""
    import pilo
    kind = rng.choice(['native', 'native', 'object', 'located', 'strict', 'lenient', 'union', 'config', 'section', 'none', 'empty'])
    data = g.form_data(form)

    def make():
        if kind == 'native':
            return copy.deepcopy(data)
        if kind == 'object':
            return pilo.DefaultSource(data)
        if kind == 'located':
            return pilo.DefaultSource(data, location='here')
        if kind in ('strict', 'lenient'):
            return pilo.source.JsonSource(json.dumps(data), strict=kind == 'strict')
        if kind == 'union':
            return pilo.source.union([data, {'extra': 1}], merge='combine')
        if kind == 'config':
            return pilo.source.ConfigSource(config_text(data))
        if kind == 'section':
            return pilo.source.ConfigSource(config_text(data), section='root')
        if kind == 'none':
            return None
        return {}

    return kind, make


def config_text(data):
    """Something of the data as configuration: options of one section, and sections."""
    out = ['[root]']
    sections = []
    lower = set()
    for k, v in data.items():
        if not k.isalnum() or k.lower() in lower:
            continue
        lower.add(k.lower())
        if isinstance(v, dict):
            sections.append('[{0}]'.format(k))
            sections.extend(option(k2.lower(), v2) for k2, v2 in v.items() if k2.isalnum() and k2 == k2.lower())
        else:
            out.append(option(k, v))
    return '\n'.join(out + sections) + '\n'


def option(k, v):
    if isinstance(v, list):
        v = ' '.join(str(x) for x in v if isinstance(x, (int, float)))
    if isinstance(v, str) and ('\n' in v or '"' in v or "'" in v or '%' in v or '\\' in v):
        v = 'text'
    return '{0} = {1}'.format(k, v)


def alone(cls, make):
    """The mapping of the source by itself: (values or None, errors)."""
    import pilo
    src = make()
    obj, got = real_root(cls, src)
    if got[0] != 'ok':
        return (got[0], got[1], None)
    return ('ok', None if got[1] else canon(obj), outcome_errors(got[1]))


def prefixed(name, errors):
    return [(k, '@{0}:{1}'.format(name, p)) for k, p in errors]


def bare(p):
    """The key '' below a mount, and a prefix with no key after it, read like the mount itself."""
    for tail in (':[root]:', ':here:', ':here', ':'):
        if p.endswith(tail) and p.startswith('@') and p[:-len(tail)].count(':') == 0:
            return p[:-len(tail)]
    return p[:-1] if p.endswith(':') else p


def mounted(case):
    import pilo
    rng = case.rng
    g = Gen(rng, depth=1, hooks=0.1, steps=['munge', 'validate', 'filter'], native=False, bad=0.06, absent=0.1, null=0.05, width=3,
            kinds=['String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID', 'List', 'Tuple', 'Dict', 'SubForm'], share=False)
    names = rng.sample(NAMES, rng.randrange(1, 5))
    b = Builder()
    plan, mounts, body = [], {}, {}
    for i, name in enumerate(names):
        form = g.form(1).number()
        cls = form.build(b)
        kind, make = mountable(rng, g, form)
        absent = rng.random() < 0.12
        if not absent:
            mounts[name] = make()
            case.event('kind', kind)
        plan.append((name, 'f{0}'.format(i), cls, kind, make, absent, rng.random() < 0.3, form))
    if rng.random() < 0.5:
        mounts['unused'] = rng.choice([None, {'a': 1}, pilo.DefaultSource([1])])
    order = list(plan)
    rng.shuffle(order)
    want_values, want_errors = {}, []
    for name, attr, cls, kind, make, absent, optional, form in order:
        options = {'src': name}
        if optional:
            options['default'] = None
        body[attr] = pilo.fields.SubForm(cls, **options)
        if absent:
            case.event('absent')
            if optional:
                want_values[attr] = canon(None)
            else:
                want_errors.append(('Missing', '@' + name))
            continue
        if kind == 'none':
            want_values[attr] = canon(None)
            continue
        status, values, errors = alone(cls, make)
        if status != 'ok':
            case.fail('harness', 'a mapping alone raised', kind=kind)
        want_errors.extend(prefixed(name, errors))
        if not errors:
            want_values[attr] = values
    top = type('M', (pilo.Form,), body)
    w = dict(forms=[p[7] for p in order], mounts=sorted(mounts), kinds=[p[3] for p in order],
             datas=[None if p[3] in ('none', 'config', 'section') else getattr(p[4](), 'data', p[4]()) for p in order])
    src = pilo.source.mount(**mounts)
    loose = any(p[3] == 'union' for p in plan)
    for _ in range(2):
        form = top()
        errors = form.map(src)
        got = dict((k, canon(v)) for k, v in dict.items(form))
        got_errors = outcome_errors(errors)
        got_paths = [str(e.path) for e in errors]
        want = want_values
        want_e, want_p = want_errors, [p for _, p in want_errors]
        got_errors, want_e = [[(k, bare(p)) for k, p in e] for e in (got_errors, want_e)]
        got_paths, want_p = [[bare(p) for p in e] for e in (got_paths, want_p)]
        if loose:
            got, want = [dict((k, unordered(v)) for k, v in d.items()) for d in (got, want)]
            got_errors, want_e, got_paths, want_p = sorted(got_errors), sorted(want_e), sorted(got_paths), sorted(want_p)
        case.equal(got, want, 'values', 'mounted values differ from those of the source alone', **w)
        case.equal(got_errors, want_e, 'errors', 'mounted errors differ from those of the source alone', **w)
        case.equal(got_paths, want_p, 'paths', 'paths of mounted errors', **w)
    case.event('with-errors' if want_errors else 'without-errors')
    case.distinct(tuple((p[7].shape(), p[3]) for p in order), repr(want_errors))
    case.sample((w['forms'], w['kinds'], want_errors))


def items_of(data):
    if isinstance(data, dict):
        return list(data)
    if isinstance(data, list):
        return list(range(len(data)))
    return []


def walks(case):
    """Walking a mount shows what walking the mounted source shows."""
    import pilo
    rng = case.rng
    datas = dict((n, {'a': [1, {'b': None, 'c.d': 'x'}], 'b': {'c': {'d': rng.randrange(9)}}, 'n': None, n: n}) for n in rng.sample(NAMES, 3))
    datas[rng.choice(NAMES)] = rng.choice([None, {}])
    srcs, alone_ = {}, {}
    for n, d in datas.items():
        kind = rng.choice(['native', 'object', 'json', 'located'])
        case.event('mounted', 'null' if d is None else 'empty' if not d else 'full')
        make = {'native': lambda d=d: d, 'object': lambda d=d: pilo.DefaultSource(d),
                'located': lambda d=d: pilo.DefaultSource(d, location='at'),
                'json': lambda d=d: pilo.source.JsonSource(json.dumps(d))}[kind]
        srcs[n] = make()
        alone_[n] = make() if kind != 'native' else pilo.DefaultSource(d)
    path = pilo.source.mount(**srcs).path()
    inner, keys = None, []
    log = []
    for _ in range(40):
        replace = bool(keys) and rng.random() < 0.15
        if not replace and keys and (rng.random() < 0.4 or len(keys) > 5):
            path.pop()
            keys.pop()
            if keys:
                inner.pop()
            else:
                inner = None
            log.append('pop')
        elif replace:
            # another last key at the same depth
            if len(keys) == 1:
                key = rng.choice(sorted(srcs) + ['zz'])
                inner = alone_[key].path() if key in alone_ else pilo.DefaultSource(pilo.NONE).path()
            else:
                inner.pop()
                here = inner.value
                key = rng.choice(items_of(here) + ['a', 'b', 'n', 0, 1, 'c.d', 'nope'])
                inner.append(key)
            index = rng.choice([-1, len(keys) - 1])
            path[index] = key
            keys[-1] = key
            log.append(('replace', key))
            case.event('replaced')
        else:
            if not keys:
                key = rng.choice(sorted(srcs) + ['zz'])
                inner = alone_[key].path() if key in alone_ else pilo.DefaultSource(pilo.NONE).path()
            else:
                here = inner.value
                key = rng.choice(items_of(here) + ['a', 'b', 'n', 0, 1, 'c.d', 'b.c', 'nope'])
                inner.append(key)
            path.append(key)
            keys.append(key)
            log.append(key)
        if rng.random() < 0.3:
            continue
        w = dict(log=log, keys=keys)
        case.equal([part.key for part in path], keys, 'walk-parts', 'the keys of the location', **w)
        if len(keys) > 1 and rng.random() < 0.3:
            # a location edited in the middle is the one reached by its keys
            other, edited, edits = copy.copy(path), list(keys), []
            for _ in range(rng.randrange(1, 4)):
                what = rng.choice(['insert', 'delete', 'replace'])
                at = rng.randrange(1, len(edited)) if len(edited) > 1 else 1
                key = rng.choice(['a', 'b', 'c', 'n', 0, 1, 'c.d'])
                index = at if rng.random() < 0.5 else at - len(edited)
                if what == 'insert':
                    if at == len(edited):
                        index = at
                    other.insert(index, key)
                    edited.insert(index, key)
                elif at < len(edited) and what == 'delete':
                    del other[index]
                    del edited[index]
                elif at < len(edited):
                    other[index] = key
                    edited[index] = key
                edits.append((what, index, key))
            fresh = alone_[keys[0]].path() if keys[0] in alone_ else pilo.DefaultSource(pilo.NONE).path()
            for key in edited[1:]:
                fresh.append(key)
            case.equal(([part.key for part in other], str(other), other.exists, other.is_null),
                       (edited, '@' + keys[0] + (':' + str(fresh) if len(edited) > 1 else ''), fresh.exists, fresh.is_null),
                       'walk-edited', 'an edited location differs', edits=edits, edited=edited, **w)
            if fresh.exists:
                case.equal(canon(other.value), canon(fresh.value), 'walk-edited', 'the value at an edited location differs', edits=edits, **w)
            case.equal([part.key for part in path], keys, 'walk-copy', 'a copy of the location is not its own', **w)
            case.event('edited')
        if rng.random() < 0.2:
            other = copy.copy(path)
            other.append('elsewhere')
            case.equal(len(path), len(keys), 'walk-copy', 'a copy of the location is not its own', **w)
            case.event('copied')
        if len(keys) != 1 and rng.random() < 0.2:
            # what cannot be taken away
            try:
                del path[0 if keys else -1]
                case.fail('walk-delete', 'the first key of a longer location, or one of none, was deleted', **w)
            except (TypeError if keys else IndexError):
                case.event('undeletable')
        if not keys:
            case.equal((str(path), path.exists, path.is_null, sorted(path.mapping())), ('', True, False, sorted(srcs)), 'walk-root', 'the root', **w)
            continue
        below = str(inner)
        text = '@' + keys[0] + (':' + below if len(keys) > 1 else '')
        case.equal((path.exists, path.is_null, len(path)), (inner.exists, inner.is_null, len(keys)), 'walk', 'what is shown differs', **w)
        case.equal(path.name, keys[-1], 'walk-name', 'the name of the location', **w)
        case.equal(str(path), text, 'walk-text', 'the text of the location', **w)
        if inner.exists:
            case.equal(canon(path.value), canon(inner.value), 'walk-value', 'the value differs', **w)
            for name in ('mapping', 'sequence'):
                got = []
                for p in (path, inner):
                    try:
                        out = getattr(p, name)()
                        got.append(out if isinstance(out, int) else sorted(out))
                    except pilo.SourceError:
                        got.append('not')
                case.equal(got[0], got[1], 'walk-' + name, 'the container differs', **w)
        case.event('walk')
        case.distinct('walk', repr(log[-6:]), tuple(sorted(srcs)))


def roots(case):
    """The root itself, and what is not a source."""
    import pilo
    F, rng = pilo.fields, case.rng
    flat = dict((n, dict((k, rng.randrange(9)) for k in 'abc' if rng.random() < 0.6)) for n in rng.sample(NAMES, rng.randrange(1, 5)))
    src = lambda: pilo.source.mount(**dict((n, d if rng.random() < 0.5 else pilo.source.JsonSource(json.dumps(d))) for n, d in flat.items()))
    form = pilo.Form()
    errors = form.map(src(), unmapped=(F.String(), F.Dict(F.String(), F.Integer())))
    case.equal((dict(form.items()), outcome_errors(errors)), (flat, []), 'root-keys', 'the root presents something else', mounts=flat)
    case.event('root-keys')
    # the root is no list and no text
    for field in (F.List(F.Field(), src=None), F.String(src=None), F.Integer(src=None), F.Tuple([F.Field()], src=None)):
        form = type('R', (pilo.Form,), {'r': field})()
        errors = form.map(src())
        case.equal((dict(form.items()), outcome_errors(errors)), ({}, [('Invalid', '')]), 'root-kind', 'the root is not a mapping only',
                   field=type(field).__name__)
        case.event('root-kind')
    form = type('R', (pilo.Form,), {'r': F.Dict(F.String(), F.Dict(F.String(), F.Integer()), src=None)})()
    errors = form.map(src())
    case.equal((dict(form.items()), outcome_errors(errors)), ({'r': flat}, []), 'root-dict', 'the root as a mapping', mounts=flat)
    for bad in (5, 'text', [1], (1,), True, object(), 1.5, {1}, '', [], (), 0, False, b'', set()):
        try:
            pilo.source.mount(a={}, m=bad)
        except TypeError:
            case.event('refused')
            case.expect(True, 'refused', 'refused')
        else:
            case.fail('refused', 'something that is not a source was mounted', bad=bad)
    # names that are nearly, but not, mounted
    near = set()
    for n in flat:
        near.update([' ' + n, n + ' ', n.upper(), n.swapcase(), n.title(), '@' + n, n + '()', n + '.a', n[:-1], n + n[-1:], n + ':a', n[::-1], ''])
    near = sorted(near - set(flat))
    mounted_ = src()
    form = type('R', (pilo.Form,), dict(('r{0}'.format(i), F.Field(src=n, default='absent')) for i, n in enumerate(near)))()
    errors = form.map(mounted_)
    case.equal((dict(form.items()), outcome_errors(errors)), (dict(('r{0}'.format(i), 'absent') for i in range(len(near))), []), 'near-name',
               'a name that is not mounted shows something', mounts=flat, names=near)
    case.event('near-name')
    # an empty mount
    form = type('R', (pilo.Form,), {'r': F.Integer(), 'o': F.Integer(default=4)})()
    errors = form.map(pilo.source.mount())
    case.equal((dict(form.items()), outcome_errors(errors)), ({'o': 4}, [('Missing', '@r')]), 'nothing-mounted', 'nothing is mounted')
    case.distinct('roots', repr(sorted(flat.items())))


def across(case):
    """Hooks in one mount that read fields of another, and leaf fields of several mounts in any order."""
    import pilo
    F, rng = pilo.fields, case.rng
    n = rng.randrange(2, 5)
    names = rng.sample(NAMES, n)
    datas = dict((m, {'v': rng.randrange(50), 'l': [rng.randrange(9) for _ in range(3)]}) for m in names)
    order = list(names)
    rng.shuffle(order)
    reads = dict((m, rng.choice([x for x in names if x != m])) for m in names[:1])
    body = {}
    attrs = dict((m, 'g{0}'.format(i)) for i, m in enumerate(names))
    inner = type('In', (pilo.Form,), {'v': F.Integer(), 'l': F.List(F.Integer())})
    for m in order:
        body[attrs[m]] = F.SubForm(inner, src=m)
    reader, target = list(reads.items())[0]
    total = F.Integer(src=None)
    body['total'] = total

    @total.compute
    def total_(self):
        return getattr(self, attrs[target]).v + sum(getattr(self, attrs[reader]).l)

    nested = F.SubForm(type('X', (pilo.Form,), {'v': F.Integer(), 'l': F.List(F.Integer())}), src=reader)
    at = rng.choice(['v', 'l'])
    hooked = nested.form_type.v if at == 'v' else nested.form_type.l.field

    @hooked.munge
    def hooked_(self, value):
        outer = pilo.ctx.values_for('form')[0]
        return value + 100 * getattr(outer, attrs[target]).v

    body['again'] = nested
    keys = list(body)
    rng.shuffle(keys)
    cls = type('A', (pilo.Form,), {})
    fields = dict((k, body[k].clone()) for k in keys)
    cls = type('A', (pilo.Form,), fields)
    form = cls()
    kinds = dict((m, rng.choice(['native', 'json', 'union'])) for m in names)
    src = pilo.source.mount(**dict((m, {
        'native': lambda d: d, 'json': lambda d: pilo.source.JsonSource(json.dumps(d)), 'union': lambda d: pilo.source.union([d, {}]),
    }[kinds[m]](datas[m])) for m in names))
    errors = form.map(src)
    want = dict((attrs[m], datas[m]) for m in names)
    want['total'] = datas[target]['v'] + sum(datas[reader]['l'])
    add = 100 * datas[target]['v']
    want['again'] = {'v': datas[reader]['v'] + (add if at == 'v' else 0), 'l': [x + (add if at == 'l' else 0) for x in datas[reader]['l']]}
    w = dict(order=list(fields), kinds=kinds, datas=datas, target=target, reader=reader)
    case.equal(outcome_errors(errors), [], 'across-errors', 'errors reading across mounts', **w)
    case.equal(dict(form.items()), want, 'across', 'values read across mounts', **w)
    case.event('across')
    case.event('interleaved')
    case.distinct('across', tuple(sorted(kinds.values())), at, tuple(fields))


WORKLOADS = [
    ('mounted', mounted, 1200, 35000),
    ('walks', walks, 600, 15000),
    ('roots', roots, 150, 3000),
    ('across', across, 300, 8000),
    ('many', many.mounts, 150, 3000),
]
