"""C18: form objects copy, filter, munge and flatten faithfully."""
import copy
import json
import pickle
import sys
import datetime
import time

from .. import many
from ..spec import canon

ID = 'C18'
RULE = 'distinct (form type shapes, set fields, operation, outcome)'
REQUIRED = ['judged'] + ['op.' + o for o in (
    'setattr', 'setitem', 'delattr', 'delitem', 'getattr', 'getitem', 'contains', 'iterate', 'pop', 'update', 'setdefault', 'clear', 'equal',
    'copy', 'get', 'unset-default', 'unset-required', 'unset-optional', 'bool')] + [
    'filter.plain', 'filter.inverted', 'filter.nested', 'filter.none', 'munge.none', 'munge.replace', 'munge.form', 'munge.list', 'munge.unset',
    'munge.tuple', 'flatten.nested', 'flatten.unset', 'flatten.extra', 'flatten.recursive', 'has.set', 'has.default', 'has.missing', 'has.unknown', 'has.refused',
    'copy.independent', 'by.mapping', 'by.setting', 'inherited'] + ['standard.' + k for k in ('copy', 'deepcopy', 'pickle', 'json', 'mapped')]

NAMES = ['a', 'b', 'c', 'd', 'e', 'zed', 'x1', 'keys', 'items', 'values', 'pop', 'update', 'get']
PLAIN = ['a', 'b', 'c', 'd', 'e', 'zed', 'x1']
TAGS = ['t', 'u', 'v', 'w']


class World(object):
    """Some form types, nested in one another."""

    def __init__(self, rng, names=NAMES):
        import pilo
        self.rng, self.pilo, self.F = rng, pilo, pilo.fields
        self.names = names
        self.level = 0
        self.types = []
        for i in range(rng.randrange(1, 5)):
            self.types.append(self.form('T{0}'.format(i)))

    def leaf(self):
        F, rng = self.F, self.rng
        return rng.choice([F.Integer, F.String, F.Field, lambda **k: F.List(F.Field(), **k), lambda **k: F.Tuple((F.Field(), F.Field()), **k),
                           lambda **k: F.Dict(F.String(), F.Field(), **k)])

    def form(self, name):
        rng, F, pilo = self.rng, self.F, self.pilo
        body = {}
        bases = (pilo.Form,)
        if self.types and rng.random() < 0.3:
            bases = (rng.choice(self.types),)
        for key in rng.sample(self.names, rng.randrange(1, 6)):
            roll = rng.random()
            if self.types and roll < 0.25:
                field = F.SubForm(rng.choice(self.types))
            elif self.types and roll < 0.4:
                field = F.List(F.SubForm(rng.choice(self.types)))
            elif self.types and roll < 0.5:
                field = F.Tuple((F.SubForm(rng.choice(self.types)), F.SubForm(rng.choice(self.types))))
            else:
                field = self.leaf()()
            for tag in TAGS:
                if rng.random() < 0.35:
                    if rng.random() < 0.5:
                        field.tag(tag)
                    else:
                        field.tag(**{tag: rng.choice([None, 1, ''])})
            body[key] = field
        return type(name, bases, body)

    def value(self, field):
        rng, F = self.rng, self.F
        if isinstance(field, F.SubForm):
            if self.types and self.level < 6 and rng.random() < 0.35:
                # any form, also one of a type that holds this field
                return self.instance(rng.choice(self.types))
            return self.instance(field.form_type) if rng.random() < 0.9 else None
        if isinstance(field, F.List) and isinstance(field.field, F.SubForm):
            return [self.instance(field.field.form_type) for _ in range(rng.randrange(4))]
        if isinstance(field, F.Tuple) and isinstance(field.fields[0], F.SubForm):
            return tuple(self.instance(f.form_type) for f in field.fields)
        return rng.choice([5, 'x', None, 0, '', [1, 'y'], (1, 2), {'k': [1]}, {}, set(), b'', False, 1.5, (), [], datetime.date(2015, 3, 9),
                           time.struct_time((2015, 3, 9, 10, 11, 12, 0, 0, -1))])

    def instance(self, cls, extras=True):
        form = cls()
        self.level += 1
        for field in cls.fields:
            if self.rng.random() < 0.75:
                dict.__setitem__(form, field.name, self.value(field))
        self.level -= 1
        if extras and self.rng.random() < 0.2:
            dict.__setitem__(form, 'extra key', 'more')
        return form


def mapping_ops(case):
    """A form against a model dict."""
    import pilo
    F, rng = pilo.fields, case.rng
    body, kinds = {}, {}
    parent = {}
    for target in (parent, body):
        for name in rng.sample(PLAIN, rng.randrange(1, 5)):
            kind = rng.choice(['default', 'callable', 'required', 'optional', 'none'])
            kinds[name] = (kind, rng.randrange(100))
            value = kinds[name][1]
            target[name] = {'default': lambda: F.Integer(default=value), 'callable': lambda: F.Integer(default=lambda v=value: v),
                            'required': lambda: F.Integer(), 'optional': lambda: F.Integer(optional=True),
                            'none': lambda: F.Integer(default=pilo.NONE)}[kind]()
            if rng.random() < 0.3:
                # what may be mapped does not limit what may be set
                target[name].options(nullable=False)
    cls = type('Par', (pilo.Form,), parent)
    if rng.random() < 0.5:
        cls = type('Sub', (cls,), body)
        case.event('inherited')
    else:
        kinds = dict((k, v) for k, v in kinds.items() if k in parent)
        cls = type('Own', (pilo.Form,), dict((k, F_for(F, pilo, kinds[k]).options(**rng.choice([{}, {}, {'nullable': False}, {'nullable': True}]))) for k in kinds))
    names = list(kinds)
    form, model, log = cls(), {}, []
    others = []
    for _ in range(40):
        op = rng.choice(['setattr', 'setattr', 'setitem', 'delattr', 'delitem', 'getattr', 'getattr', 'getitem', 'contains', 'iterate', 'pop', 'update',
                         'setdefault', 'clear' if rng.random() < 0.2 else 'get', 'equal', 'copy', 'get', 'bool'])
        name = rng.choice(names + (['extra'] if op not in ('setattr', 'delattr', 'getattr') else []))
        value = rng.choice([1, 'x', None, [1], {'a': 1}])
        log.append((op, name, value if op in ('setattr', 'setitem', 'update', 'setdefault') else None))
        w = dict(kinds=kinds, log=log[-12:])
        if op == 'setattr':
            setattr(form, name, value)
            model[name] = value
        elif op == 'setitem':
            form[name] = value
            model[name] = value
        elif op == 'delattr':
            delattr(form, name)
            model.pop(name, None)
        elif op == 'delitem':
            got = raised(lambda: form.__delitem__(name))
            want = raised(lambda: model.__delitem__(name))
            case.equal(got, want, 'delitem', 'deleting an item', **w)
        elif op == 'getattr':
            if name in model:
                case.expect(getattr(form, name) is model[name], 'getattr', 'an attribute is not the value', **w)
            else:
                kind, default = kinds[name]
                if kind in ('default', 'callable'):
                    case.equal(getattr(form, name), default, 'getattr-default', 'an unset attribute is not its default', **w)
                    model[name] = default
                    case.event('op.unset-default')
                elif kind == 'required':
                    case.equal(raised(lambda: getattr(form, name)), 'FormError', 'getattr-required', 'an unset required attribute', **w)
                    case.event('op.unset-required')
                else:
                    case.equal(raised(lambda: getattr(form, name)), 'AttributeError', 'getattr-optional', 'an unset optional attribute', **w)
                    case.event('op.unset-optional')
        elif op == 'getitem':
            got = raised(lambda: case.expect(form[name] is model.get(name, form), 'getitem', 'an item is not the value', **w))
            case.equal(got, None if name in model else 'KeyError', 'getitem', 'looking up an item', **w)
        elif op == 'contains':
            case.equal(name in form, name in model, 'contains', 'membership', **w)
        elif op == 'pop':
            case.equal(form.pop(name, 'nothing'), model.pop(name, 'nothing'), 'pop', 'popping', **w)
        elif op == 'update':
            form.update({name: value})
            model.update({name: value})
        elif op == 'setdefault':
            case.equal(form.setdefault(name, value), model.setdefault(name, value), 'setdefault', 'setdefault', **w)
        elif op == 'clear':
            form.clear()
            model.clear()
        elif op == 'get':
            case.equal(form.get(name, 'nothing'), model.get(name, 'nothing'), 'get', 'get', **w)
        elif op == 'equal':
            case.expect(form == dict(model) and not (form != dict(model)), 'equal', 'a form does not equal the mapping of its values', **w)
            case.expect(form != dict(model, other=1), 'equal', 'a form equals another mapping', **w)
        elif op == 'bool':
            case.equal(bool(form), bool(model), 'bool', 'truth', **w)
        elif op == 'copy':
            other = form.copy()
            case.expect(type(other) is cls and other == form and other is not form, 'copy', 'a copy differs', got=other, **w)
            others.append((other, dict(model)))
            if rng.random() < 0.5:
                form, others[-1] = other, (form, dict(model))
        case.event('op', op)
        case.equal((list(form), len(form), dict(form.items()), list(form.keys()), list(map(id, form.values()))),
                   (list(model), len(model), model, list(model), list(map(id, model.values()))), 'content', 'a form is not the mapping of its values', **w)
        case.event('op.iterate')
        for other, content in others:
            case.equal(dict(other), content, 'copy-independent', 'a copy is not independent', **w)
            case.event('copy.independent')
    case.distinct('ops', tuple(sorted((k, v[0]) for k, v in kinds.items())), tuple(o[0] for o in log[-4:]))


def F_for(F, pilo, kind):
    kind, value = kind
    return {'default': lambda: F.Integer(default=value), 'callable': lambda: F.Integer(default=lambda: value), 'required': lambda: F.Integer(),
            'optional': lambda: F.Integer(optional=True), 'none': lambda: F.Integer(default=pilo.NONE)}[kind]()


def raised(fn):
    try:
        fn()
    except Exception as ex:
        if type(ex).__name__ == 'Violation':
            raise
        return type(ex).__name__
    return None


def model_munge(form, fn, log, F, pilo):
    """What munging must give, as canon() renders it."""
    cls = type(form)
    values = {}
    for field in cls.fields:
        value = dict.__getitem__(form, field.name) if dict.__contains__(form, field.name) else pilo.NONE
        log.append((cls.__name__, field.name, canon(value)))
        value = fn(field, value)
        if value is pilo.NONE:
            continue
        if isinstance(value, pilo.Form):
            value = model_munge(value, fn, log, F, pilo)
        elif isinstance(value, list) or type(value) is tuple:
            value = type(value)(model_munge(i, fn, log, F, pilo) if isinstance(i, pilo.Form) else i for i in value)
        values[field.name] = value
    from ..spec import MForm
    return MForm(cls.__name__, values)


def deep(form):
    """Content and identity of everything in a form."""
    if isinstance(form, dict):
        return (type(form).__name__, id(form), tuple((k, deep(v)) for k, v in dict.items(form)))
    if isinstance(form, (list, tuple)):
        return (type(form).__name__, id(form), tuple(deep(v) for v in form))
    return canon(form)


def operations(case):
    """Munging, filtering, flattening and copying nested forms."""
    import pilo
    F, rng = pilo.fields, case.rng
    world = World(rng)
    cls = rng.choice(world.types[-2:])
    form = world.instance(cls)
    case.event('by.setting')
    shot = deep(form)
    w = dict(types=[(t.__name__, [(f.name, type(f).__name__, sorted(f.tags)) for f in t.fields]) for t in world.types], form=canon(form))

    # munge
    pool = [world.instance(t) for t in world.types] + [5, 'new', [world.instance(world.types[0]), 6], (world.instance(world.types[0]), 7)]
    plan = {}
    for field in set(f for t in world.types for f in t.fields):
        plan[field] = rng.choice(['keep', 'keep', 'keep', 'none', 'replace'])

    def decide(field, value):
        how = plan[field]
        if how == 'none':
            case.event('munge.none')
            return pilo.NONE
        if how == 'replace':
            case.event('munge.replace')
            # never a form: munging what was put in again would not end
            return 'new' if value is not pilo.NONE else [1, 'fresh']
        if value is pilo.NONE:
            case.event('munge.unset')
        elif isinstance(value, pilo.Form):
            case.event('munge.form')
        elif isinstance(value, list):
            case.event('munge.list')
        elif isinstance(value, tuple):
            case.event('munge.tuple')
        return value

    log, seen = [], []

    def func(new, field, value):
        seen.append((type(new).__name__, field.name, canon(value)))
        case.expect(any(field is f for f in type(new).fields), 'munge-field', 'a field of another form', **w)
        return decide(field, value)

    got = form.munge(func)
    want = model_munge(form, decide, log, F, pilo)
    case.equal(seen, log, 'munge-calls', 'the function was called differently', **w)
    case.equal(canon(got), canon(want), 'munge', 'munging gives something else', plan=dict((str(f), h) for f, h in plan.items()), **w)
    case.equal(deep(form), shot, 'munge-original', 'munging changed the form', **w)
    # a form that the function supplies is munged as well
    target = rng.choice(cls.fields)
    supplied = rng.choice(pool)
    fed = []

    def supply(new, field, value):
        if field is target and not fed:
            fed.append(1)
            return supplied
        return value
    fed2 = []

    def supply_model(field, value):
        if field is target and not fed2:
            fed2.append(1)
            return supplied
        return value
    case.equal(canon(form.munge(supply)), canon(model_munge(form, supply_model, [], F, pilo)), 'munge-supplied', 'a supplied value', target=target.name,
               supplied=canon(supplied), **w)

    # filter
    for _ in range(3):
        tags = rng.sample(TAGS, rng.randrange(0, 4))
        inv = rng.random() < 0.5

        def keep(field, value):
            return value if any(t in field.tags for t in tags) != inv else pilo.NONE

        got = form.filter(*tags, inv=inv) if inv or rng.random() < 0.5 else form.filter(*tags)
        want = model_munge(form, keep, [], F, pilo)
        case.equal(canon(got), canon(want), 'filter', 'filtering keeps something else', tags=tags, inv=inv, **w)
        case.equal(deep(form), shot, 'filter-original', 'filtering changed the form', tags=tags, **w)
        case.expect(type(got) is cls and got is not form, 'filter-type', 'filtering gives another type', **w)
        case.event('filter.inverted' if inv else 'filter.plain' if tags else 'filter.none')
        if any(isinstance(v, pilo.Form) for v in dict.values(got)):
            case.event('filter.nested')
        # what was kept is not shared with the original
        for v in dict.values(got):
            if isinstance(v, pilo.Form):
                dict.__setitem__(v, 'scribble', 1)
            elif isinstance(v, list):
                v.append('scribble')
        case.equal(deep(form), shot, 'filter-original', 'a filtered form shares what it kept', tags=tags, **w)
        case.distinct('filter', tuple(tags), inv, canon(want))

    # flatten
    def flat(form, path):
        for field in type(form).fields:
            if not dict.__contains__(form, field.name):
                case.event('flatten.unset')
                continue
            value = dict.__getitem__(form, field.name)
            if isinstance(value, pilo.Form):
                case.event('flatten.nested')
                if field in path:
                    case.event('flatten.recursive')
                for x in flat(value, path + [field]):
                    yield x
            else:
                yield (path + [field], value)
        if dict.__contains__(form, 'extra key'):
            case.event('flatten.extra')

    want = [([id(f) for f in p], id(v)) for p, v in flat(form, [])]
    got = [([id(f) for f in p], id(v)) for p, v in form.flatten()]
    case.equal(got, want, 'flatten', 'flattening yields something else', got_names=[[f.name for f in p] for p, _ in form.flatten()], **w)
    # half of one flattening inside another
    a, b, interleaved = form.flatten(), form.flatten(), []
    for x in a:
        interleaved.append(([id(f) for f in x[0]], id(x[1])))
        if rng.random() < 0.5:
            next(b, None)
    case.equal(interleaved, want, 'flatten-interleaved', 'two flattenings disturb each other', **w)
    case.equal(deep(form), shot, 'flatten-original', 'flattening changed the form', **w)

    # copy
    other = form.copy()
    case.expect(type(other) is cls, 'copy-type', 'a copy has another type', **w)
    case.equal(canon(other), canon(form), 'copy', 'a copy differs', **w)
    for f in cls.fields:
        setattr(other, f.name, 'changed')
    dict.__setitem__(other, 'new', 1)
    case.equal(deep(form), shot, 'copy-independent', 'changing a copy changes the form', **w)
    case.event('copy.independent')
    case.distinct('form', canon(form), tuple(sorted(plan.values())))
    case.sample((w['types'], w['form']))


def mapped(case):
    """The same on forms that were mapped, and has()."""
    import pilo
    F, rng = pilo.fields, case.rng
    inner = type('In', (pilo.Form,), {'p': F.Integer().tag('t'), 'q': F.String(default='dq').tag('u'), 'r': F.Integer(optional=True)})
    kinds = dict((n, rng.choice(['set', 'default', 'missing', 'optional', 'invalid-default'])) for n in rng.sample(PLAIN, rng.randrange(1, 6)))
    body = {}
    seven = rng.choice([7, 0, -1])
    dee = rng.choice(['d', '', ' '])
    for n, kind in kinds.items():
        body[n] = {'set': lambda: F.Integer(), 'default': lambda: F.Integer(default=seven), 'missing': lambda: F.Integer(),
                   'optional': lambda: F.Integer(optional=True), 'invalid-default': lambda: F.String(default=dee)}[kind]()
        for t in TAGS:
            if rng.random() < 0.4:
                body[n].tag(t)
    body['sub'] = F.SubForm(inner).tag('t')
    body['subs'] = F.List(F.SubForm(inner)).tag('u')
    cls = type('M', (pilo.Form,), body)
    data = dict((n, rng.randrange(50)) for n, k in kinds.items() if k == 'set')
    data['sub'] = {'p': 1}
    data['subs'] = [{'p': 2, 'q': 'x'}, {'p': 3, 'r': 4}]
    form = cls()
    form.map(data)
    case.event('by.mapping')
    want = dict((n, data[n]) for n, k in kinds.items() if k == 'set')
    want.update((n, seven) for n, k in kinds.items() if k == 'default')
    want.update((n, dee) for n, k in kinds.items() if k == 'invalid-default')
    want['sub'] = {'p': 1, 'q': 'dq'}
    want['subs'] = [{'p': 2, 'q': 'x'}, {'p': 3, 'q': 'dq', 'r': 4}]
    case.equal(dict(form), want, 'mapped', 'the mapped values', kinds=kinds)
    got = form.filter('t')
    keep = dict((n, v) for n, v in want.items() if 't' in getattr(cls, n).tags)
    keep['sub'] = {'p': 1}
    keep.pop('subs', None)
    case.equal(dict(got), keep, 'mapped-filter', 'filtering a mapped form', kinds=kinds)
    got = form.filter('t', inv=True)
    keep = dict((n, v) for n, v in want.items() if 't' not in getattr(cls, n).tags)
    keep['subs'] = [{'q': 'x'}, {'q': 'dq', 'r': 4}]
    case.equal(dict(got), keep, 'mapped-filter', 'filtering a mapped form', kinds=kinds, inv=True)
    leaves = [('.'.join(f.name for f in p), v) for p, v in form.flatten()]
    expect = [(n, want[n]) for n in (f.name for f in cls.fields) if n in want and n not in ('sub', 'subs')] + [('sub.p', 1), ('sub.q', 'dq'), ('subs', want['subs'])]
    case.equal(leaves, expect, 'mapped-flatten', 'flattening a mapped form', kinds=kinds)
    # has
    for fresh in (False, True):
        for n, kind in list(kinds.items()) + [('sub', 'set'), ('subs', 'set')]:
            answer = kind in ('set', 'default', 'invalid-default') if not fresh else kind in ('default', 'invalid-default')
            for by in (n, getattr(cls, n)):
                target = form.copy() if not fresh else cls()
                before = dict(target)
                case.equal(target.has(by), answer, 'has', 'asking whether a form has a field', by=by if by is n else 'field', kind=kind, fresh=fresh)
                if not answer:
                    case.equal(dict(target), before, 'has-left', 'asking for a field a form lacks changed the form', by=by if by is n else 'field', kind=kind, fresh=fresh)
                case.event('has', {True: 'default' if kind != 'set' else 'set', False: 'missing'}[answer])
        target = form if not fresh else cls()
        for n in ('nope', 'map', 'ctx', 'fields', 'zz zz', ''):
            case.equal(target.has(n), False, 'has', 'a name that is no field', name=n)
            case.event('has.unknown')
        for bad in (5, None, object(), ['a'], int):
            case.equal(raised(lambda: target.has(bad)), 'TypeError', 'has-refused', 'what is neither a name nor a field', bad=bad)
            case.event('has.refused')
    case.distinct('mapped', tuple(sorted(kinds.items())))


CALLED = ['src', 'name', 'parent', 'field', 'mapped', 'form', 'errors', 'tags', 'unmapped', 'value', 'path', 'key', 'default', 'type', 'id', 'items', 'keys',
          'values', 'get', 'pop', 'update', 'copy', 'filter', 'flatten', 'has', 'reset', 'clear', 'setdefault', 'data', 'source', 'location', 'self']


def called(case):
    """Fields called like what forms, mappings and contexts have themselves."""
    import pilo
    F, rng = pilo.fields, case.rng
    names = rng.sample(CALLED, rng.randrange(1, 5))
    inner = type('Inner', (pilo.Form,), dict((n, F.Integer()) for n in names))
    cls = type('Outer', (pilo.Form,), dict([(n, F.Integer().tag('t')) for n in names], z=F.Integer(default=3), sub=F.SubForm(inner)))
    data = dict((n, i) for i, n in enumerate(names))
    src = dict(data, sub=data)
    want = dict(src, z=3)
    form = cls(rng.choice([lambda: src, lambda: pilo.DefaultSource(src), lambda: pilo.source.JsonSource(json.dumps(src))])())
    items = lambda form: dict((k, dict(dict.items(v)) if isinstance(v, dict) else v) for k, v in dict.items(form))
    w = dict(names=names)
    case.equal(items(form), want, 'called', 'mapped values of fields', **w)
    case.equal([getattr(form, n) for n in names], list(range(len(names))), 'called', 'reading fields', **w)
    case.equal(items(pilo.Form.copy(form)), want, 'called', 'a copy', **w)
    case.equal(items(pilo.Form.munge(form, lambda form, field, value: value)), want, 'called', 'munged', **w)
    case.equal(items(pilo.Form.filter(form, 't')), data, 'called', 'filtered', **w)
    case.equal([([f.name for f in path], value) for path, value in pilo.Form.flatten(form)],
               [([n], data[n]) for n in names] + [(['z'], 3)] + [(['sub', n], data[n]) for n in names], 'called', 'flattened', **w)
    case.equal([pilo.Form.has(form, n) for n in names], [True] * len(names), 'called', 'has', **w)
    case.equal(items(cls(form)), want, 'called', 'mapped again', **w)
    gone = rng.choice(names)
    delattr(form, gone)
    del want[gone]
    case.equal(items(form), want, 'called', 'a field deleted', **w)
    setattr(form, gone, 99)
    case.equal((dict.get(form, gone), getattr(form, gone)), (99, 99), 'called', 'a field set', **w)
    case.event('called')
    case.distinct('called', tuple(names))


def shape(v):
    if isinstance(v, dict):
        return (type(v).__name__, sorted((k, shape(x)) for k, x in dict.items(v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [shape(x) for x in v])
    return canon(v)


def holders(v, out):
    """Everything in v that can be changed."""
    if isinstance(v, dict):
        out[id(v)] = v
        for x in dict.values(v):
            holders(x, out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = v
        for x in v:
            holders(x, out)
    return out


def standard(case):
    """Forms copied, stored and printed by the standard library, as the mappings they are."""
    import pilo
    rng = case.rng
    world = World(rng, PLAIN)
    cls = rng.choice(world.types[-2:])
    form = world.instance(cls)
    if rng.random() < 0.5:
        mapped = cls()
        mapped.map(json.loads(json.dumps(form, default=str)), unmapped=rng.choice(['ignore', 'capture']))
        form = mapped
        case.event('standard.mapped')
    shot, names = deep(form), dict((t.__name__, t) for t in world.types)
    home = sys.modules[__name__]
    for name, t in names.items():
        t.__module__ = __name__
        setattr(home, name, t)
    try:
        for how, copied in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle', lambda f: pickle.loads(pickle.dumps(f, rng.choice([2, 3, 4]))))):
            w = dict(how=how, form=form, cls=cls.__name__)
            got = copied(form)
            case.expect(type(got) is type(form) and got is not form, 'standard', 'a copy has another type', **w)
            case.equal(shape(got), shape(form), 'standard', 'a copy has other values', **w)
            case.equal([got.has(f) for f in cls.fields if f.name in form], [form.has(f) for f in cls.fields if f.name in form], 'standard', 'what a copy has', **w)
            for f in cls.fields:
                if f.name in form:
                    case.equal(canon(getattr(got, f.name)), canon(form[f.name]), 'standard', 'an attribute of a copy', field=f.name, **w)
            if how != 'copy':
                case.equal(sorted(set(holders(got, {})) & set(holders(form, {}))), [], 'standard', 'a deep copy shares values with the original', **w)
            got['extra of the copy'] = 1
            for f in cls.fields[:2]:
                setattr(got, f.name, 'set in the copy')
            case.equal(deep(form), shot, 'standard', 'changing a copy changed the original', **w)
            case.event('standard.' + how)
    finally:
        for name in names:
            delattr(home, name)
    plain = lambda v: dict((k, plain(x)) for k, x in dict.items(v)) if isinstance(v, dict) else [plain(x) for x in v] if type(v) is list else v
    case.equal(json.dumps(form, default=str, sort_keys=True), json.dumps(plain(form), default=str, sort_keys=True), 'standard', 'the JSON of a form', form=form)
    case.equal(repr(form), repr(plain(form)), 'standard', 'the text of a form', form=canon(form)) if not any(isinstance(v, tuple) for v in dict.values(form)) else None
    case.expect(form == plain(form) and not form != plain(form), 'standard', 'a form differs from a dict of the same values', form=form)
    case.event('standard.json')
    case.distinct('standard', cls.__name__, repr(sorted(form)))


WORKLOADS = [
    ('standard', standard, 300, 8000),
    ('ops', mapping_ops, 800, 25000),
    ('operations', operations, 1500, 40000),
    ('mapped', mapped, 600, 12000),
    ('called', called, 200, 3000),
    ('many', many.forms, 150, 3000),
]
