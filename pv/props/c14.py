"""C14: a union of sources merges by its policy, losing and inventing nothing."""
import collections
import copy
import json
import types

from .. import many, spec
from ..gen import Gen
from ..spec import OWN, Builder, canon, model_root, outcome_errors, real_root, unordered

ID = 'C14'
RULE = 'distinct (form shape, policies, merge depth, number and kinds of sources, errors)'
REQUIRED = ['judged', 'policy.combine', 'policy.first', 'policy.last', 'separate', 'depth', 'merged.mapping', 'merged.sequence', 'disagree',
            'sources.1', 'sources.2', 'sources.3', 'sources.4', 'source.json', 'source.object', 'source.native', 'source.union', 'root-keys',
            'repeated', 'untouched', 'config', 'walk.absent', 'walk.mapping', 'walk.sequence', 'walk.value', 'walk.copy',
            'walk.replace', 'refused.source', 'refused.policy', 'with-errors', 'without-errors']
ASSUMPTIONS = ['null in some sources and not in others at one location is not claimed',
               'keys of items below containers that no field maps are a known finding, and not generated elsewhere']

KINDS = ['String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID', 'List', 'Tuple', 'Dict', 'SubForm']
WRONG = '!'


class Skip(Exception):
    """The policies do not say what this input gives."""


class Policy(object):

    def __init__(self, rng):
        self.options = {}
        self.default = rng.choice(['combine', 'combine', 'combine', 'first', 'last'])
        if rng.random() < 0.9 or self.default != 'first':
            self.options['merge'] = self.default
        self.map = self.seq = self.default
        if rng.random() < 0.3:
            self.map = self.options['mapping_merge'] = rng.choice(['combine', 'first', 'last'])
        if rng.random() < 0.3:
            self.seq = self.options['sequence_merge'] = rng.choice(['combine', 'first', 'last'])
        self.depth = None
        if rng.random() < 0.3:
            self.depth = self.options['merge_depth'] = rng.choice([0, 1, 1, 2, 2, 3, 4])

    def at(self, which, depth):
        if depth == 0:
            return 'combine'
        if self.depth is not None and depth >= self.depth:
            return 'first'
        return self.map if which == 'mapping' else self.seq

    def key(self):
        return tuple(sorted(self.options.items()))


class Merge(object):
    """What a form sees of several native values, as one native value."""

    def __init__(self, case, policy):
        self.case, self.policy = case, policy
        self.disagreed = False

    def container(self, values, kind, which, depth):
        """The values left after merging, or None if the kinds disagree."""
        fits = [isinstance(v, kind) for v in values]
        policy = self.policy.at(which, depth)
        if not any(fits):
            return None
        if not all(fits):
            if policy != 'combine':
                raise Skip()
            self.disagreed = True
            return None
        if len(values) > 1:
            self.case.event('merged', which)
            self.case.event('policy', policy)
            if self.policy.depth is not None and depth >= self.policy.depth and policy != self.policy.default:
                self.case.event('depth')
        if policy == 'first':
            return values[:1]
        if policy == 'last':
            return values[-1:]
        return values

    def form(self, form, values, depth):
        kept = self.container(values, dict, 'mapping', depth)
        if kept is None:
            return WRONG
        out, touched = {}, set()
        for key in self.keys(kept):
            out[key] = [v[key] for v in kept if key in v][0]
        for name, f in form.fields.items():
            if f.src is None:
                # mapped from the same location
                if f.kind != 'SubForm':
                    raise Skip()
                inner = self.form(f.form, values, depth)
                for key in reads(f.form):
                    if key in touched:
                        raise Skip()
                    touched.add(key)
                    if key in inner:
                        out[key] = inner[key]
                continue
            key = name if f.src is OWN else f.src
            if key in touched:
                raise Skip()
            touched.add(key)
            below = [v[key] for v in kept if key in v]
            if below:
                out[key] = self.field(f, below, depth + 1)
        return out

    def keys(self, values):
        seen = []
        for v in values:
            for k in v:
                if k not in seen:
                    seen.append(k)
        return seen

    def field(self, f, values, depth):
        if f.kind == 'SubForm':
            return self.form(f.form, values, depth)
        if f.kind == 'Dict':
            kept = self.container(values, dict, 'mapping', depth)
            if kept is None:
                return WRONG
            return dict((k, self.field(f.value_field, [v[k] for v in kept if k in v], depth + 1)) for k in self.keys(kept))
        if f.kind in ('List', 'Tuple'):
            kept = self.container(values, (list, tuple), 'sequence', depth)
            if kept is None:
                return WRONG
            out = []
            items = [x for v in kept for x in v]
            for i, x in enumerate(items):
                if f.kind == 'List':
                    item = f.field
                else:
                    if len(items) != len(f.fields):
                        return items
                    item = f.fields[i]
                out.append(self.field(item, [x], depth + 1))
            return out
        return values[0]


def reads(form):
    """The keys a form reads from its own location."""
    out = set()
    for name, f in form.fields.items():
        if f.src is None:
            out |= reads(f.form)
        else:
            out.add(name if f.src is OWN else f.src)
    return out


def tame(form):
    """Leaves out what unions do not claim: items of another key, bare items."""

    def walk(f, item):
        if item:
            f.src = OWN
        if f.kind == 'List':
            f.c['allow_field'] = False
            walk(f.field, True)
        for g in (f.fields if f.kind == 'Tuple' else []):
            walk(g, True)
        if f.kind == 'Dict':
            walk(f.value_field, True)
        if f.kind == 'SubForm':
            # raw values of a union are its own containers
            f.c.pop('unmapped', None)
            for g in f.form.fields.values():
                walk(g, False)

    for f in form.fields.values():
        walk(f, False)


def no_nulls(v):
    if v is None:
        return 0
    if isinstance(v, dict):
        return dict((k, no_nulls(x)) for k, x in v.items())
    if isinstance(v, list):
        return [no_nulls(x) for x in v]
    return v


def outcome(form, got):
    if got[0] != 'ok':
        return ('raises', got[1], str(got[2]))
    return ('ok', unordered(canon(form)), sorted(outcome_errors(got[1])), sorted(str(e.path) for e in got[1]))


def merged_forms(case):
    import pilo
    rng = case.rng
    g = Gen(rng, depth=2, hooks=0.0, native=False, bad=0.04, absent=0.2, null=0.0, kinds=KINDS, extras=0.2, width=4, nullables=0.1)
    form = g.form()
    tame(form)
    form.number()
    policy = Policy(rng)
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    datas = [no_nulls(g.form_data(form)) for _ in range(n)]
    if rng.random() < 0.1:
        # nothing at all
        datas[rng.randrange(n)] = {}
    merge = Merge(case, policy)
    try:
        data = merge.form(form, datas, 0)
    except Skip:
        case.event('skipped')
        return
    if merge.disagreed:
        case.event('disagree')
    if policy.map != policy.seq:
        case.event('separate')
    case.event('sources', n)
    native, strict = [model_root(form, data, source=k) for k in ('native', 'strict')]
    agree = [(x[1][0], canon(x[1][1]) if x[1][0] == 'ok' else x[1][1], x[0].errors) for x in (native, strict)]
    M, want = native
    cls = form.build(Builder())
    kinds, srcs = [], []
    for d in datas:
        kind = rng.choice(['native', 'object', 'json', 'union'])
        if agree[0] != agree[1] and kind == 'json':
            kind = 'native'
        kinds.append(kind)
        given = copy.deepcopy(d)
        if kind == 'object':
            given = pilo.DefaultSource(given)
        elif kind == 'json':
            given = pilo.source.JsonSource(json.dumps(d), strict=True)
        elif kind == 'union':
            given = pilo.source.union([given])
        srcs.append(given)
        case.event('source', kind)
    given = list(srcs)
    union = pilo.source.union(srcs, **policy.options)
    if want[0] != 'ok':
        return
    expected = ('ok', unordered(canon(want[1])), sorted(M.errors), sorted(p for _, p in M.errors))
    w = dict(form=form, datas=datas, policy=policy.options, kinds=kinds)
    case.equal(outcome(*real_root(cls, union)), expected, 'merged', 'the union mapped to something else', **w)
    case.event('with-errors' if M.errors else 'without-errors')
    # again, from the same sources
    case.equal(outcome(*real_root(cls, union)), expected, 'again', 'the union mapped to something else the second time', **w)
    again = pilo.source.union(tuple(given), **policy.options)
    case.equal(outcome(*real_root(cls, again)), expected, 'again-sources', 'another union of the same sources mapped to something else', **w)
    case.event('repeated')
    for d, s, kind in zip(datas, given, kinds):
        if kind == 'native':
            case.equal(canon(s), canon(d), 'modified', 'a given source was modified', **w)
            case.event('untouched')
        else:
            one, alone = real_root(cls, s), real_root(cls, d)
            if kind != 'union' and alone[1][0] == 'ok' and kind != 'json':
                case.equal(outcome(*one), outcome(*alone), 'modified', 'a given source shows something else now', **w)
                case.event('untouched')
    case.equal(len(srcs), n, 'modified-list', 'the given list was modified', **w)
    case.expect(all(a is b for a, b in zip(srcs, given)), 'modified-list', 'the given list was modified', **w)
    case.distinct(form.shape(), policy.key(), tuple(kinds), repr(M.errors))
    case.sample((form, policy.options, datas, data))


def simple(case):
    """Hand-sized containers of integers under every policy, at several depths."""
    import pilo
    F, rng = pilo.fields, case.rng
    policy = Policy(rng)
    n = rng.randrange(1, 5)
    keys = ['a', 'b', 'c', 'x.y', 'k()']

    def leafs():
        return dict((k, rng.randrange(100)) for k in keys if rng.random() < 0.5)

    def lists():
        return [rng.randrange(100) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 6]))]

    datas = []
    for _ in range(n):
        d = {}
        if rng.random() < 0.8:
            d['m'] = leafs()
        if rng.random() < 0.8:
            d['l'] = lists()
        if rng.random() < 0.8:
            d['mm'] = dict((k, leafs()) for k in keys[:3] if rng.random() < 0.6)
        if rng.random() < 0.8:
            d['ml'] = dict((k, lists()) for k in keys[:3] if rng.random() < 0.6)
        if rng.random() < 0.8:
            d['lm'] = [leafs() for _ in range(rng.randrange(3))]
        if rng.random() < 0.8:
            d['ll'] = [lists() for _ in range(rng.randrange(3))]
        if rng.random() < 0.8:
            d['v'] = rng.randrange(100)
        datas.append(d)

    def mapping(depth, ms, below):
        if not ms:
            return None
        p = policy.at('mapping', depth)
        kept = ms[:1] if p == 'first' else ms[-1:] if p == 'last' else ms
        out = {}
        for k in set(k for m in kept for k in m):
            out[k] = below(depth + 1, [m[k] for m in kept if k in m])
        return out

    def sequence(depth, ls, below):
        if not ls:
            return None
        p = policy.at('sequence', depth)
        kept = ls[:1] if p == 'first' else ls[-1:] if p == 'last' else ls
        return [below(depth + 1, [x]) for l in kept for x in l]

    def leaf(depth, vs):
        return vs[0] if vs else None

    def leafmap(depth, ms):
        return mapping(depth, ms, leaf)

    def leaflist(depth, ls):
        return sequence(depth, ls, leaf)

    got = lambda k: [d[k] for d in datas if k in d]
    want = {
        'm': mapping(1, got('m'), leaf), 'l': sequence(1, got('l'), leaf), 'mm': mapping(1, got('mm'), leafmap),
        'ml': mapping(1, got('ml'), leaflist), 'lm': sequence(1, got('lm'), leafmap), 'll': sequence(1, got('ll'), leaflist),
        'v': leaf(1, got('v')),
    }
    maps = lambda f, **o: F.Dict(F.String(), f, **o)
    order = ['m', 'l', 'mm', 'ml', 'lm', 'll', 'v']
    rng.shuffle(order)
    body = {}
    for name in order:
        body[name] = {
            'm': lambda: maps(F.Integer(), default=None), 'l': lambda: F.List(F.Integer(), default=None),
            'mm': lambda: maps(maps(F.Integer()), default=None), 'ml': lambda: maps(F.List(F.Integer()), default=None),
            'lm': lambda: F.List(maps(F.Integer()), default=None), 'll': lambda: F.List(F.List(F.Integer()), default=None),
            'v': lambda: F.Integer(default=None)}[name]()
    cls = type('U', (pilo.Form,), body)
    other = rng.choice([types.MappingProxyType, collections.UserDict, collections.OrderedDict, lambda d: collections.ChainMap({}, d)])
    srcs = [pilo.source.JsonSource(json.dumps(d)) if rng.random() < 0.3 else copy.deepcopy(d) if rng.random() < 0.7 else other(copy.deepcopy(d)) for d in datas]
    union = pilo.source.union(srcs, **policy.options)
    form = cls()
    errors = form.map(union)
    w = dict(datas=datas, policy=policy.options)
    case.equal(outcome_errors(errors), [], 'simple-errors', 'errors mapping well-typed data', **w)
    case.equal(dict(form.items()), want, 'simple', 'the union mapped to something else', **w)
    case.event('sources', n)
    case.event('policy', policy.default)
    case.distinct(policy.key(), repr(datas))
    # the root presents the keys of all sources
    flat = [dict((k, rng.randrange(100)) for k in keys if rng.random() < 0.5) for _ in range(n)]
    root = pilo.Form()
    errors = root.map(pilo.source.union(copy.deepcopy(flat), **policy.options), unmapped=(F.String(), F.Integer()))
    want = {}
    for d in reversed(flat):
        want.update(d)
    case.equal((dict(root.items()), outcome_errors(errors)), (want, []), 'root-keys', 'the root presents something else', flat=flat,
               policy=policy.options)
    case.event('root-keys')


def nulls(case):
    """Null in the only source that has it, or in all of them."""
    import pilo
    F, rng = pilo.fields, case.rng
    policy = Policy(rng)
    n = rng.randrange(1, 4)
    kinds = {'s': F.String(), 'i': F.Integer(nullable=False), 'l': F.List(F.Integer()), 'd': F.Dict(F.String(), F.Integer(), nullable=False),
             'o': F.SubForm(type('O', (pilo.Form,), {'q': F.Integer()}))}
    cls = type('N', (pilo.Form,), kinds)
    present = dict((k, rng.sample(range(n), rng.randrange(1, n + 1))) for k in kinds)
    datas = [dict((k, None) for k in kinds if i in present[k]) for i in range(n)]
    form = cls()
    errors = form.map(pilo.source.union(datas, **policy.options))
    case.equal((dict(form.items()), sorted(outcome_errors(errors))),
               ({'s': None, 'l': None, 'o': None}, [('Invalid', 'd'), ('Invalid', 'i')]), 'nulls', 'null in all sources', datas=datas,
               policy=policy.options)
    case.distinct('nulls', policy.key(), repr(datas))


def config(case):
    """Configuration texts layered over each other and over native text."""
    import pilo
    F, rng = pilo.fields, case.rng
    policy = Policy(rng)
    sections, options = ['s', 't', 'u'], ['a', 'b', 'c', 'd']
    datas = []
    for _ in range(rng.randrange(1, 4)):
        datas.append(dict((s, dict((o, str(rng.randrange(100))) for o in options if rng.random() < 0.6)) for s in sections if rng.random() < 0.7))
    srcs = []
    for d in datas:
        if rng.random() < 0.7:
            srcs.append(pilo.source.ConfigSource(''.join('[{0}]\n{1}\n'.format(
                s, ''.join('{0}={1}\n'.format(o, v) for o, v in os.items())) for s, os in d.items())))
        else:
            srcs.append(copy.deepcopy(d))
    cls = type('C', (pilo.Form,), dict((s, F.Dict(F.String(), F.Integer(), default=None)) for s in sections))
    want = {}
    for s in sections:
        found = [d[s] for d in datas if s in d]
        p = policy.at('mapping', 1)
        kept = found[:1] if p == 'first' else found[-1:] if p == 'last' else found
        want[s] = dict((o, int([f[o] for f in kept if o in f][0])) for o in set(o for f in kept for o in f)) if found else None
    form = cls()
    errors = form.map(pilo.source.union(srcs, **policy.options))
    case.equal((dict(form.items()), outcome_errors(errors)), (want, []), 'config', 'layered configurations', datas=datas,
               policy=policy.options)
    case.event('config')
    case.distinct('config', policy.key(), repr(datas))


def schema(rng, depth):
    """A shape: None for a leaf, {key: shape} or [shape]."""
    roll = rng.random()
    if depth <= 0 or roll < 0.25:
        return None
    if roll < 0.75:
        return dict((k, schema(rng, depth - 1)) for k in rng.sample(['a', 'b', 'c', 'd'], rng.randrange(1, 4)))
    return [schema(rng, depth - 1)]


def filled(rng, shape, n=[0]):
    if shape is None:
        n[0] += 1
        return n[0]
    if isinstance(shape, list):
        return [filled(rng, shape[0]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 6]))]
    return dict((k, filled(rng, shape[k])) for k in shape if rng.random() < 0.75)


def walks(case):
    """Walking a union, level by level as fields do, shows what is merged."""
    import pilo
    rng = case.rng
    policy = Policy(rng)
    shape = dict((k, schema(rng, rng.choice([2, 3, 5]))) for k in rng.sample(['a', 'b', 'c', 'd'], rng.randrange(1, 4)))
    datas = [filled(rng, shape) for _ in range(rng.randrange(1, 4))]
    srcs = [rng.choice([lambda d=d: copy.deepcopy(d), lambda d=d: pilo.source.JsonSource(json.dumps(d)), lambda d=d: pilo.DefaultSource(d)])()
            for d in datas]
    path = pilo.source.union(srcs, **policy.options).path()

    def kept(values, which, depth):
        how = policy.at(which, depth)
        return values[:1] if how == 'first' else values[-1:] if how == 'last' else values

    def below(values, key, depth):
        if not values:
            return []
        if isinstance(values[0], dict):
            return [v[key] for v in kept(values, 'mapping', depth) if key in v]
        if isinstance(values[0], list):
            items = [x for v in kept(values, 'sequence', depth) for x in v]
            return [items[key]] if isinstance(key, int) and key < len(items) else []
        return []

    def look(path, stack, keys):
        w = dict(datas=datas, keys=list(keys), policy=policy.options, log=log[-12:])
        values = stack[-1]
        case.equal([part.key for part in path], keys, 'walk-keys', 'the keys of a location', **w)
        case.equal((path.exists, path.is_null), (bool(values), False), 'walk-exists', 'presence differs from the merged values', **w)
        if keys:
            case.equal(path.name, keys[-1], 'walk-name', 'the name of a location', **w)
        if not values:
            case.event('walk', 'absent')
            return
        if isinstance(values[0], dict):
            want = set(k for v in kept(values, 'mapping', len(keys)) for k in v)
            got = list(path.mapping())
            case.equal(sorted(got), sorted(want), 'walk-mapping', 'the merged keys', **w)
            case.event('walk', 'mapping')
        elif isinstance(values[0], list):
            want = sum(len(v) for v in kept(values, 'sequence', len(keys)))
            case.equal(path.sequence(), want, 'walk-sequence', 'the merged length', **w)
            case.event('walk', 'sequence')
        else:
            case.equal(path.primitive(), values[0], 'walk-value', 'not the value of the first source', **w)
            case.event('walk', 'value')

    def wander(path, stack, keys, steps):
        for _ in range(steps):
            look(path, stack, keys)
            roll = rng.random()
            if keys and (roll < 0.3 or len(keys) > 4 or not stack[-1] or not isinstance(stack[-1][0], (dict, list))):
                if roll > 0.95:
                    # a copy of where nothing is, or of a value
                    copies.append((copy.copy(path), list(stack), list(keys)))
                    case.event('walk', 'copy of a leaf')
                path.pop()
                keys.pop()
                stack.pop()
                log.append('pop')
            elif roll < 0.4:
                copies.append((copy.copy(path), list(stack), list(keys)))
                log.append('copied')
                case.event('walk', 'copy')
            else:
                values = stack[-1]
                if isinstance(values[0], dict):
                    key = rng.choice(sorted(set(k for v in values for k in v)) + ['a', 'zz'])
                else:
                    length = sum(len(v) for v in kept(values, 'sequence', len(keys)))
                    key = rng.randrange(length + 1) if rng.random() < 0.8 else length + rng.randrange(3)
                if keys and rng.random() < 0.1 and len(stack[-2]) and isinstance(stack[-2][0], dict):
                    # another last key
                    key = rng.choice(['a', 'b', 'c', 'd', 'zz'])
                    stack[-1] = below(stack[-2], key, len(keys) - 1)
                    path[rng.choice([-1, len(keys) - 1])] = key
                    keys[-1] = key
                    log.append(('replace', key))
                    case.event('walk', 'replace')
                    continue
                stack.append(below(values, key, len(keys)))
                path.append(key)
                keys.append(key)
                log.append(key)
        look(path, stack, keys)

    stack, keys, log, copies = [datas], [], [], []
    wander(path, stack, keys, 30)
    for n in range(6):
        # copies wander on their own, and so do copies of copies; what
        # was copied stays where it was
        if n >= len(copies):
            break
        other, its, at = copies[n]
        log.append('a copy')
        if its[-1] and isinstance(its[-1][0], dict):
            for key in sorted(set(k for v in its[-1] for k in v)):
                other.append(key)
                look(other, its + [below(its[-1], key, len(at))], at + [key])
                other.pop()
        wander(other, its, at, 12)
        case.event('walk', 'wandered copy')
        log.append('the first')
        look(path, stack, keys)
    case.distinct('walk', policy.key(), repr(shape), len(datas))


def refusals(case):
    """What is no source, and what is no policy, is refused."""
    import pilo
    F, rng = pilo.fields, case.rng
    good = [{'o': {'a': 1}, 'l': [1]}, pilo.DefaultSource({'o': {'b': 2}, 'l': [2]}), pilo.source.JsonSource('{"o": {"a": 3}, "l": [3]}')]
    srcs = rng.sample(good, rng.randrange(2, 4))
    if rng.random() < 0.4:
        bad = rng.choice([None, 5, 'text', [1], [('a', 1)], object(), 1.5, b'{}', pilo.NONE])
        srcs.insert(rng.randrange(len(srcs) + 1), bad)
        try:
            pilo.source.union(srcs)
            case.fail('union-source', 'what is neither a source nor a mapping was accepted', bad=repr(bad))
        except TypeError:
            case.event('refused', 'source')
        return
    name = rng.choice(['firsts', 'First', 'merge', 'all', 'combined', 'lasts', ' last', 5])
    option, key = rng.choice([('merge', 'o'), ('merge', 'l'), ('mapping_merge', 'o'), ('sequence_merge', 'l')])
    field = {'o': F.Dict(F.String(), F.Integer()), 'l': F.List(F.Integer())}[key]
    form = type('R', (pilo.Form,), {key: field})()
    try:
        errors = form.map(pilo.source.union(srcs, **{option: name}))
    except ValueError:
        case.event('refused', 'policy')
        return
    # reported as invalid, or anything else but a value
    case.expect(errors and key not in form, 'union-policy', 'an unknown policy gave a value', option=option, name=name, form=dict(form.items()))
    case.event('refused', 'policy')


def unentered(case):
    """A key of an item that no field maps as a container."""
    import pilo
    F = pilo.fields
    cls = type('K', (pilo.Form,), {'l': F.List(F.Integer(src='k'))})
    form = cls()
    form.map(pilo.source.union([{'l': [{'k': 1}, {'k': 2}]}]))
    case.expect(dict(form.items()) in ({'l': [1, 2]}, {'l': []}), 'unentered-other', 'neither all items nor none', form=form)
    case.equal(dict(form.items()), {'l': [1, 2]}, 'unentered-item-key', 'List(Integer(src="k")) over a union')


WORKLOADS = [
    ('merged', merged_forms, 2500, 70000),
    ('simple', simple, 1200, 35000),
    ('nulls', nulls, 300, 6000),
    ('config', config, 300, 8000),
    ('walks', walks, 600, 15000),
    ('refusals', refusals, 100, 1000),
    ('unentered', unentered, 1, 1),
    ('many', many.merged, 150, 3000),
]
