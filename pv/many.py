# -*- coding: utf-8 -*-
"""
The same guarantees at sizes no example reaches: many fields, items, keys,
sources, names, levels and repetitions, and long texts and numbers.  What is
expected is computed from how the input was made.
"""
import collections
import collections.abc
import datetime
import decimal
import json
import string
import types as types_

from .spec import canon, outcome_errors


def size(rng, top=400):
    """Mostly small, up to `top`."""
    return max(1, min(top, int(2 ** rng.uniform(0, top.bit_length()))))


def seen(case, what, n):
    case.event('many', what)
    case.event('many-size', str(1 << (n.bit_length() - 1)))
    case.distinct('many', what, n)


def mapped(cls, src, **kwargs):
    form = cls()
    errors = form.map(src, **kwargs)
    return dict(form.items()), outcome_errors(errors), form


def form_of(**fields):
    import pilo
    return type('Big', (pilo.Form,), fields)


def plain(x):
    """Forms, as the mappings they are."""
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    return x


def same(x):
    return canon(plain(x))


def json_or(rng, data):
    import pilo
    roll = rng.random()
    if roll < 0.3:
        return pilo.source.JsonSource(json.dumps(data), strict=True)
    if roll < 0.4:
        return pilo.DefaultSource(data)
    return data


# ---- C01, C20: many fields

def steps(case):
    """Every one of many fields runs its steps, in order of declaration."""
    import pilo
    rng = case.rng
    n = size(rng, 200)
    names = ['f%d' % i for i in range(n)]
    rng.shuffle(names)
    log, fields = [], {}

    def step(name, kind):
        def munge(self, value):
            log.append((name, kind))
            return value + 1

        def keep(self, value):
            log.append((name, kind))
            return True
        return munge if kind == 'munge' else keep

    hooked = {}
    for name in names:
        field = pilo.fields.Integer()
        hooked[name] = [k for k in ('munge', 'filter', 'validate') if rng.random() < 0.3]
        for kind in hooked[name]:
            getattr(field, kind)(step(name, kind))
        fields[name] = field
    data = dict((name, rng.randrange(99)) for name in names)
    got, errors, _ = mapped(form_of(**fields), json_or(rng, data))
    case.equal(errors, [], 'many-errors', 'valid input was reported', n=n)
    case.equal(got, dict((k, v + (1 if 'munge' in hooked[k] else 0)) for k, v in data.items()), 'many-values', 'values of many fields', n=n)
    case.equal(log, [(name, kind) for name in names for kind in hooked[name]], 'many-steps', 'the steps of many fields', n=n)
    seen(case, 'fields', n)


def declared(case):
    """Forms of many fields, over many levels of classes."""
    import pilo
    rng = case.rng
    levels = rng.choice([1, 2, size(rng, 30)])
    base, order, n = pilo.Form, [], 0
    for level in range(levels):
        fields, earlier = {}, list(order)
        for _ in range(size(rng, 120 if levels < 3 else 6)):
            name = 'f%d' % rng.randrange(10 ** 6)
            if name in order:
                continue
            fields[name] = pilo.fields.Integer(default=level)
            order.append(name)
            n += 1
        if earlier and rng.random() < 0.4:
            # declared again: keeps its place
            name = rng.choice(earlier)
            fields[name] = pilo.fields.Integer(default=level)
        mixin = type('Mixin', (object,), {}) if rng.random() < 0.2 else None
        base = type('L%d' % level, (base,) + ((mixin,) if mixin else ()), fields)
    case.equal([f.name for f in base.fields], order, 'many-order', 'the fields of a form', levels=levels)
    form = base({})
    case.equal(sorted(form), sorted(order), 'many-declared', 'the fields that were mapped', levels=levels)
    seen(case, 'declared', n)
    case.event('many-levels', str(min(levels, 16)))


# ---- C02: many choices, keys and characters

def constraints(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 300)
    which = rng.choice(['choices', 'alphabet', 'length', 'items', 'required', 'max_keys', 'bounds', 'pattern', 'null-items'])

    def verdict(field, value, ok, **w):
        got, errors, _ = mapped(form_of(v=field), json_or(rng, {'v': value}))
        case.equal((got, errors), ({'v': value}, []) if ok else ({}, [('Invalid', 'v')]), 'many-' + which, 'the verdict is wrong', n=n, ok=ok, **w)

    if which == 'choices':
        choices = ['c%d' % i for i in range(n)]
        rng.shuffle(choices)
        for text in (choices[0], choices[-1], rng.choice(choices)):
            verdict(F.String(choices=rng.choice([list, tuple, set, frozenset, dict.fromkeys])(choices)), text, True, text=text)
        for text in ('c%d' % n, 'c', '', choices[-1] + ' '):
            verdict(F.String(choices=rng.choice([list, tuple, set, frozenset, dict.fromkeys])(choices)), text, False, text=text)
    elif which == 'alphabet':
        letters = [chr(c) for c in range(97, 97 + 2 * n)]
        inside, outside = letters[:n], letters[n:]
        alphabet = rng.choice([list, ''.join, set])(inside)
        text = ''.join(rng.choice(inside) for _ in range(size(rng)))
        verdict(F.String(alphabet=alphabet), text, True)
        verdict(F.String(alphabet=alphabet), ''.join(inside), True)
        at = rng.choice([0, len(text), rng.randrange(len(text) + 1)])
        verdict(F.String(alphabet=alphabet), text[:at] + rng.choice(outside) + text[at:], False, at=at)
    elif which == 'length':
        n = size(rng, 5000)
        for m in (n - 1, n, n + 1):
            verdict(F.String(min_length=n), 'x' * m, m >= n, m=m)
            verdict(F.String(max_length=n), 'x' * m, m <= n, m=m)
            verdict(F.String(length=n), 'x' * m, m == n, m=m)
    elif which in ('items', 'null-items'):
        item = None if which == 'null-items' else 7
        field = lambda **k: F.List(F.Field(nullable=True), **k)
        for m in (n - 1, n, n + 1):
            verdict(field(min_length=n), [item] * m, m >= n, m=m)
            verdict(field(max_length=n), [item] * m, m <= n, m=m)
            verdict(field().range(n, n), [item] * m, m == n, m=m)
    elif which == 'required':
        keys = ['k%d' % i for i in range(n)]
        field = lambda: F.Dict(F.String(), F.Integer(), required_keys=list(keys))
        full = dict((k, i) for i, k in enumerate(keys))
        verdict(field(), dict(full, other=1), True)
        lacking = rng.choice(keys)
        del full[lacking]
        verdict(field(), full, False, lacking=lacking)
    elif which == 'max_keys':
        for m in (n - 1, n, n + 1):
            verdict(F.Dict(F.String(), F.Integer(), max_keys=n), dict(('k%d' % i, i) for i in range(m)), m <= n, m=m)
    elif which == 'bounds':
        n = 10 ** size(rng, 300) * rng.choice([1, -1])
        for m in (n - 1, n, n + 1):
            verdict(F.Integer(min_value=n), m, m >= n, m=m)
            verdict(F.Integer(max_value=n), m, m <= n, m=m)
        n = 1
    else:
        field = lambda: F.String(pattern='[a-c]{%d}x$' % n)
        for m in (n - 1, n, n + 1):
            verdict(field(), 'a' * m + 'x', m == n, m=m)
    seen(case, which, abs(n))


# ---- C03: long texts and numbers

def primitives(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 20000)
    which = rng.choice(['text', 'integer', 'integer-text', 'decimal', 'decimal-text', 'float-text', 'spaces', 'json-text'])
    if which in ('text', 'json-text'):
        value = ''.join(rng.choice('ab é\n"\\😀0') for _ in range(n))
        data, field, want = value, F.String(), value
    elif which in ('integer', 'integer-text'):
        n = size(rng, 3000)
        text = rng.choice(['', '-']) + str(rng.randrange(1, 10)) + ''.join(rng.choice(string.digits) for _ in range(n - 1))
        data, field, want = int(text) if which == 'integer' else text, F.Integer(), int(text)
    elif which in ('decimal', 'decimal-text'):
        n = size(rng, 500)
        text = rng.choice(['', '-']) + '1' + ''.join(rng.choice(string.digits) for _ in range(n)) + rng.choice(['', '.' + '25' * rng.randrange(1, 60)])
        data, field, want = decimal.Decimal(text) if which == 'decimal' else text, F.Decimal(), decimal.Decimal(text)
    elif which == 'float-text':
        n = size(rng, 300)
        text = rng.choice(['', '-']) + ''.join(rng.choice('123456789') for _ in range(n)) + rng.choice(['', '.5', '.' + '3' * rng.randrange(1, 99), 'e-%d' % rng.randrange(400)])
        data, field, want = text, F.Float(), float(text)
    else:
        n = size(rng, 1000)
        data, field, want = ' ' * n + '12' + ' ' * n, F.Integer(), 12
    src = {'v': data}
    if which in ('json-text', 'text', 'integer') and rng.random() < 0.5:
        src = pilo.source.JsonSource(json.dumps(src), strict=rng.random() < 0.5)
    got, errors, _ = mapped(form_of(v=field), src)
    case.expect(errors == [] and same(got) == same({'v': want}), 'many-primitive', 'a long input means something else', which=which, n=n,
                errors=errors, got=repr(got)[:300], data=repr(data)[:300])
    seen(case, which, n)


# ---- C04: many formats

def formats(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 60)
    at = rng.choice([0, n - 1, rng.randrange(n)])
    specs = ['%%Y-%%m-%%d x%d' % i for i in range(n)]
    rng.shuffle(specs)
    if rng.random() < 0.5:
        specs.append('iso8601')
    day = datetime.date(1900 + rng.randrange(300), 1 + rng.randrange(12), 1 + rng.randrange(28))
    make = rng.choice([lambda: F.Date(format=specs), lambda: F.Date().format(specs), lambda: F.Date(format=tuple(specs))])
    for text, want in ((day.strftime('%Y-%m-%d') + specs[at][8:], ({'v': day}, [])), (day.strftime('%Y-%m-%d y'), ({}, [('Invalid', 'v')]))):
        got = mapped(form_of(v=make()), json_or(rng, {'v': text}))[:2]
        case.equal(got, want, 'many-formats', 'one of many formats', specs=len(specs), at=at, text=text)
    seen(case, 'formats', n)


# ---- C05: many errors, and deep ones

def errors(case):
    import pilo
    F, rng = pilo.fields, case.rng
    which = rng.choice(['items', 'fields', 'keys', 'levels', 'forms', 'tuple'])
    n = size(rng, 40 if which in ('levels', 'tuple') else 600)
    bad = set(i for i in range(n) if rng.random() < rng.choice([0.05, 0.5, 1]))
    value = lambda i: 'no' if i in bad else i
    if which == 'items':
        cls, data = form_of(v=F.List(F.Integer())), {'v': [value(i) for i in range(n)]}
        want, ok = [('Invalid', 'v[%d]' % i) for i in sorted(bad)], {'v': [i for i in range(n) if i not in bad]}
    elif which == 'tuple':
        cls, data = form_of(v=F.Tuple([F.Integer() for _ in range(n)])), {'v': [value(i) for i in range(n)]}
        want, ok = [('Invalid', 'v[%d]' % i) for i in sorted(bad)], {'v': tuple(i for i in range(n) if i not in bad)}
    elif which == 'keys':
        cls, data = form_of(v=F.Dict(F.String(), F.Integer())), {'v': dict(('k%d' % i, value(i)) for i in range(n))}
        want, ok = [('Invalid', 'v.k%d' % i) for i in sorted(bad)], {'v': dict(('k%d' % i, i) for i in range(n) if i not in bad)}
    elif which == 'fields':
        gone = set(i for i in bad if rng.random() < 0.5)
        cls = form_of(**dict(('f%d' % i, F.Integer()) for i in range(n)))
        data = dict(('f%d' % i, value(i)) for i in range(n) if i not in gone)
        want = [('Missing' if i in gone else 'Invalid', 'f%d' % i) for i in sorted(bad)]
        ok = dict(('f%d' % i, i) for i in range(n) if i not in bad)
    elif which == 'forms':
        inner = form_of(a=F.Integer(), b=F.Integer())
        cls, data = form_of(v=F.List(F.SubForm(inner))), {'v': [{'a': value(i), 'b': value(i)} if i % 3 else {'a': value(i)} for i in range(n)]}
        want = []
        for i in range(n):
            if i in bad:
                want.append(('Invalid', 'v[%d].a' % i))
            if i % 3 == 0:
                want.append(('Missing', 'v[%d].b' % i))
            elif i in bad:
                want.append(('Invalid', 'v[%d].b' % i))
        ok = {'v': [{'a': i, 'b': i} for i in range(n) if i not in bad and i % 3]}
    else:
        cls = form_of(leaf=F.Integer(), other=F.Integer())
        data = {'leaf': 'no'}
        for i in range(n):
            cls = form_of(d=F.SubForm(cls)) if i % 2 else form_of(d=F.List(F.SubForm(cls)))
            data = {'d': data} if i % 2 else {'d': [data]}
        text = '.'.join('d' if i % 2 else 'd[0]' for i in range(n - 1, -1, -1))
        want = [('Invalid', text + '.leaf'), ('Missing', text + '.other')]
        ok = None
    got, reported, _ = mapped(cls, json_or(rng, data))
    key = (lambda x: x) if which != 'keys' else sorted
    case.equal(key(reported), key(want), 'many-errors', 'the failures of a large input', n=n, which=which)
    if ok is not None:
        case.equal(same(got), same(ok), 'many-kept', 'what remains of a large input', n=n, which=which)
    if want:
        try:
            cls(data)
            case.fail('many-raised', 'nothing was raised', n=n, which=which)
        except pilo.fields.FormError as ex:
            case.equal(key(outcome_errors(ex.field_errors)), key(want), 'many-raised', 'the failures that are raised', n=n, which=which)
    seen(case, which, n)


# ---- C06: many ignored and translated values

def rules(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 200)
    which = rng.choice(['ignores', 'ignores', 'translations', 'defaults'])
    if which == 'ignores':
        words = ['w%d' % i for i in range(n)]
        rng.shuffle(words)
        cut = rng.randrange(n + 1)
        make = lambda: rng.choice([F.String(default='d').ignore(*words), F.String(default='d').ignore(*words[:cut]).ignore(*words[cut:])])
        for text in (words[0], words[-1], rng.choice(words), 'w%d' % n, 'w', 'W0'):
            got = mapped(form_of(v=make()), json_or(rng, {'v': text}))[:2]
            case.equal(got, ({'v': 'd' if text in words else text}, []), 'many-ignores', 'one of many ignored values', n=n, text=text)
    elif which == 'translations':
        table = dict(('w%d' % i, 'w%d' % (i + 1)) for i in range(n))
        for text in ('w0', 'w%d' % (n - 1), rng.choice(sorted(table)), 'w%d' % n):
            got = mapped(form_of(v=F.String().translate(dict(table))), json_or(rng, {'v': text}))[:2]
            case.equal(got, ({'v': table.get(text, text)}, []), 'many-translations', 'one of many translated values', n=n, text=text)
    else:
        kinds = [rng.choice(['absent', 'null', 'ignored', 'given']) for _ in range(n)]
        data = dict(('f%d' % i, {'null': None, 'ignored': 0, 'given': i + 1}[k]) for i, k in enumerate(kinds) if k != 'absent')
        cls = form_of(**dict(('f%d' % i, F.Integer(default=-i - 1, nullable=True).ignore(0)) for i in range(n)))
        got = mapped(cls, json_or(rng, data))[:2]
        want = dict(('f%d' % i, {'null': None, 'given': i + 1}.get(k, -i - 1)) for i, k in enumerate(kinds))
        case.equal(got, (want, []), 'many-defaults', 'the defaults of many fields', kinds=kinds)
    seen(case, which, n)


# ---- C07: large containers

class Own(collections.abc.Sequence):

    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, index):
        return self.items[index]

    def __len__(self):
        return len(self.items)


def otherwise(rng, data):
    """The same data in other kinds of sequences and mappings."""
    if isinstance(data, dict):
        made = dict((k, otherwise(rng, v)) for k, v in data.items())
        return rng.choice([dict, collections.OrderedDict, collections.UserDict, types_.MappingProxyType, lambda d: collections.ChainMap(d)])(made)
    if isinstance(data, list):
        if data and data == list(range(len(data))) and rng.random() < 0.5:
            return range(len(data))
        return rng.choice([list, tuple, collections.UserList, collections.deque, Own])(otherwise(rng, v) for v in data)
    return data


def containers(case):
    import pilo
    F, rng = pilo.fields, case.rng
    which = rng.choice(['list', 'tuple', 'dict', 'dict-of-lists', 'list-of-forms', 'nested-lists', 'sparse'])
    n = size(rng, {'tuple': 120, 'nested-lists': 25, 'dict-of-lists': 60}.get(which, 3000))
    if which == 'list':
        field, data = F.List(F.Integer()), list(range(n))
    elif which == 'sparse':
        field, data = F.List(F.Integer(default=pilo.NONE).ignore(0)), [i % 3 for i in range(n)]
    elif which == 'tuple':
        field, data = F.Tuple([F.Integer() for _ in range(n)]), list(range(n))
    elif which == 'dict':
        field, data = F.Dict(F.String(), F.Integer()), dict(('k%d' % i, i) for i in range(n))
    elif which == 'dict-of-lists':
        field, data = F.Dict(F.String(), F.List(F.Integer())), dict(('k%d' % i, list(range(i))) for i in range(n))
    elif which == 'list-of-forms':
        field, data = F.List(F.SubForm(form_of(i=F.Integer(), s=F.String()))), [{'i': i, 's': 's%d' % i} for i in range(n)]
    else:
        field, data = F.Integer(), n
        for i in range(n):
            field, data = F.List(field), [data] * rng.choice([1, 1, 2 if n < 8 else 1])
    want = [x for x in data if x] if which == 'sparse' else tuple(data) if which == 'tuple' else data
    src = json_or(rng, {'v': data}) if rng.random() < 0.7 else {'v': otherwise(rng, data)}
    got, reported, _ = mapped(form_of(v=field), src)
    case.equal((same(got), reported), (same({'v': want}), []), 'many-' + which, 'a large container', n=n)
    if which == 'dict':
        case.equal(list(got['v']), list(want), 'many-key-order', 'the order of many keys', n=n)
    seen(case, which, n)


# ---- C08: many unmapped keys, many tags

def captures(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 500)
    which = rng.choice(['capture', 'pair', 'tags'])
    extra = dict(('x%d' % i, i) for i in range(n))
    if which == 'tags':
        names = ['f%d' % i for i in range(min(n, 60))]
        tags = dict((name, rng.sample(['t%d' % i for i in range(20)], rng.randrange(4))) for name in names)
        cls = form_of(**dict((name, F.Integer().tag(*tags[name])) for name in names))
        chosen = ['t%d' % i for i in range(20) if rng.random() < rng.choice([0.1, 0.5])]
        form = cls()
        reported = form.map(dict((name, 1) for name in names), tags=rng.choice([list, tuple, set, frozenset])(chosen) or None)
        want = [name for name in names if not chosen or set(chosen) & set(tags[name])]
        case.equal((sorted(form), outcome_errors(reported)), (sorted(want), []), 'many-tags', 'the fields of many tags', tags=tags, chosen=chosen)
    else:
        cls = form_of(a=F.Integer(), b=F.List(F.Integer()))
        known = {'a': 1, 'b': [1]}
        data = dict(known, **extra)
        how = 'capture' if which == 'capture' else (F.String(), F.Integer())
        got = mapped(cls, json_or(rng, data), unmapped=how)[:2]
        case.equal(got, (data, []), 'many-captured', 'many unmapped keys', n=n)
        got = mapped(cls, json_or(rng, data))[:2]
        case.equal(got, (known, []), 'many-ignored', 'many unmapped keys, ignored', n=n)
    seen(case, which, n)


# ---- C09: long chains of early reads

def early(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 24)
    calls, fields = [], {}

    def reads(i):
        def compute(self):
            calls.append(i)
            return 1 + sum(getattr(self, 'f%d' % j) for j in needs[i])
        return compute

    order = list(range(n))
    rng.shuffle(order)
    # of every field, those it reads come after it in the chain
    needs = dict((i, sorted(set([i + 1] + [rng.randrange(i + 1, n) for _ in range(rng.randrange(3))])) if i + 1 < n else []) for i in range(n))
    for i in order:
        fields['f%d' % i] = F.Integer().compute(reads(i))
    want = {}
    for i in range(n - 1, -1, -1):
        want['f%d' % i] = 1 + sum(want['f%d' % j] for j in needs[i])
    got, reported, _ = mapped(form_of(**fields), {})
    case.equal((got, reported), (want, []), 'many-early', 'a long chain of early reads', n=n, needs=needs, order=order)
    case.equal(sorted(calls), list(range(n)), 'many-once', 'a field was computed more than once, or never', n=n, needs=needs, order=order)
    seen(case, 'chain', n)


# ---- C10: many contexts

def contexts(case):
    import pilo
    rng, ctx = case.rng, pilo.ctx
    n = size(rng, 200)
    names = ['v%d' % i for i in range(7)]
    expected, closers = [{}], []
    for i in range(n):
        vars_ = dict((name, i) for name in names if rng.random() < 0.4)
        closers.append(ctx(**vars_))
        expected.append(dict(expected[-1], **vars_))
    view = lambda: dict((name, getattr(ctx, name)) for name in names if hasattr(ctx, name))
    case.equal(view(), expected[-1], 'many-contexts', 'many contexts', n=n)
    for i in range(min(5, n)):
        at = rng.randrange(n)
        count = [0]

        def stop(frame):
            count[0] += 1
            return count[0] > n - 1 - at
        with ctx.rewind(stop):
            case.equal(view(), expected[at + 1], 'many-rewound', 'many contexts, rewound', n=n, at=at)
        case.equal(view(), expected[-1], 'many-returned', 'many contexts, after being rewound', n=n, at=at)
    while closers:
        case.equal(view(), expected.pop(), 'many-contexts', 'many contexts, on the way out', n=n)
        closers.pop().func()
    case.equal(view(), expected.pop(), 'many-left', 'many contexts, left', n=n)
    seen(case, 'contexts', n)


# ---- C12: many types

def types(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 80)
    base = type('Base', (pilo.Form,), {'type': F.Type.abstract()})
    made, deepest = [], [base]
    for i in range(n):
        parent = base if rng.random() < 0.7 else rng.choice(deepest[-3:])
        cls = type('T%d' % i, (parent,), {'type': F.Type.constant('t%d' % i) if parent is base and rng.random() < 0.3 else F.Type.instance('t%d' % i),
                                          'v%d' % i: F.Integer()})
        made.append(cls)
        deepest.append(cls)
    # one below the other
    top = type('Top', (pilo.Form,), {'type': F.Type.abstract()})
    line, depth = [top], size(rng, 40)
    for i in range(depth):
        line.append(type('L%d' % i, (line[-1],), {'type': F.Type.instance('l%d' % i), 'w': F.Integer(default=i)}))
    for i in (0, depth // 2, depth - 1):
        got, reported, _ = mapped(form_of(v=F.PolymorphicSubForm(top.type)), {'v': {'type': 'l%d' % i}})
        case.equal((type(got.get('v')), got.get('v'), reported), (line[i + 1], {'type': 'l%d' % i, 'w': i}, []), 'many-line', 'types below each other', n=depth, i=i)
        case.expect(top.type.cast({'type': 'l%d' % i}) is line[i + 1], 'many-line', 'types below each other', n=depth, i=i)
    holder = form_of(v=F.List(F.PolymorphicSubForm(base.type)))
    picked = [rng.randrange(n) for _ in range(20)] + [0, n - 1]
    data = []
    for i in picked:
        item = dict((f.name, 5) for f in made[i].fields)
        item['type'] = 't%d' % i
        data.append(item)
    got, reported, _ = mapped(holder, json_or(rng, {'v': data}))
    case.equal(reported, [], 'many-types', 'many types', n=n)
    case.equal([type(x) for x in got.get('v', ())], [made[i] for i in picked], 'many-types', 'the types of the items', n=n, picked=picked)
    case.equal([dict(x.items()) for x in got.get('v', ())], data, 'many-types', 'the items', n=n)
    seen(case, 'types', n)


# ---- C13: large data from every kind of source

def sources(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 300)
    bad = rng.random() < 0.3
    data = {'l': [i if not (bad and i == n // 2) else 'no' for i in range(n)], 'd': dict(('k%d' % i, ['x' * i]) for i in range(min(n, 60))),
            's': 'é"\\ ' * n, 'i': 7 ** n, 'f': [{'a': i} for i in range(n)]}
    cls = form_of(l=F.List(F.Integer()), d=F.Dict(F.String(), F.List(F.String())), s=F.String(), i=F.Integer(), f=F.List(F.SubForm(form_of(a=F.Integer()))))
    want = mapped(cls, data)[:2]
    text = json.dumps(data)
    for what, src in (('json', pilo.source.JsonSource(text)), ('strict', pilo.source.JsonSource(text, strict=True)), ('bytes', pilo.source.JsonSource(text.encode('utf-8'))),
                      ('object', pilo.DefaultSource(data)), ('union', pilo.source.union([data])), ('union-json', pilo.source.union([{}, pilo.source.JsonSource(text)], merge='combine')),
                      ('sequence', [data[f.name] for f in cls.fields])):
        got = mapped(cls, src)[:2]
        case.equal(same(got[0]), same(want[0]), 'many-' + what, 'large data from another source', n=n)
        case.equal(len(got[1]), len(want[1]), 'many-' + what, 'errors in large data from another source', n=n)
    case.equal(want[1], [('Invalid', 'l[%d]' % (n // 2))] if bad else [], 'many-errors', 'errors in large data', n=n)
    seen(case, 'sources', n)


# ---- C14: many sources

def merged(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 50)
    datas = []
    for i in range(n):
        d = {}
        if rng.random() < 0.5:
            d['l'] = [i * 10 + j for j in range(rng.randrange(4))]
        if rng.random() < 0.5:
            d['d'] = dict((rng.choice('abcdefgh'), i) for _ in range(rng.randrange(4)))
        if rng.random() < 0.2:
            d['v'] = i
        datas.append(d)
    where = rng.choice([None, 0, n - 1, rng.randrange(n)])
    if where is not None:
        datas[where]['only'] = where
    merge = rng.choice(['first', 'last', 'combine'])
    srcs = [rng.choice([lambda d=d: d, lambda d=d: pilo.source.JsonSource(json.dumps(d)), lambda d=d: pilo.DefaultSource(d)])() for d in datas]
    cls = form_of(l=F.List(F.Integer(), default=None), d=F.Dict(F.String(), F.Integer(), default=None), v=F.Integer(default=None), only=F.Integer(default=None))
    lists, dicts, values = ([d[k] for d in datas if k in d] for k in 'ldv')
    want = {'l': None, 'd': None, 'v': values[0] if values else None, 'only': where}
    if lists:
        want['l'] = lists[0] if merge == 'first' else lists[-1] if merge == 'last' else [x for l in lists for x in l]
    if dicts:
        want['d'] = {}
        for d in [dicts[0]] if merge == 'first' else [dicts[-1]] if merge == 'last' else reversed(dicts):
            want['d'].update(d)
    got = mapped(cls, pilo.source.union(srcs, merge=merge))[:2]
    case.equal(got, (want, []), 'many-sources', 'a union of many sources', n=n, merge=merge, datas=datas)
    seen(case, 'sources', n)


# ---- C15: many mounts

def mounts(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 80)
    data = dict(('m%d' % i, {'a': i, 'l': [i] * (i % 3)}) for i in range(n))
    src = pilo.source.mount(**dict((k, rng.choice([lambda d=d: d, lambda d=d: pilo.source.JsonSource(json.dumps(d))])()) for k, d in data.items()))
    inner = form_of(a=F.Integer(), l=F.List(F.Integer()))
    cls = form_of(**dict((k, F.SubForm(inner)) for k in data))
    got = mapped(cls, src)[:2]
    case.equal(same(got), same((data, [])), 'many-mounts', 'many mounted sources', n=n)
    seen(case, 'mounts', n)


# ---- C16: many repetitions

def repeated(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 600)
    inner = form_of(a=F.Integer(default=1).ignore(0), s=F.String(choices=['x', 'y', 'z']).translate({'y': 'z'}))
    cls = form_of(v=F.List(F.SubForm(inner), default=list), d=F.Dict(F.String(), F.Integer(), default=dict), i=F.Integer(default=3))
    wants = {}
    for j in range(n):
        i = rng.randrange(12)
        data = {'v': [{'a': i % 3, 's': rng.choice('xy')}], 'd': {'k%d' % i: i}, 'i': i if i % 4 else 'no'}
        if i > 9:
            data = {}
        text = repr(data)
        got = mapped(cls, data)[:2]
        want = ({'v': [{'a': data['v'][0]['a'] or 1, 's': {'y': 'z'}.get(data['v'][0]['s'], 'x')}], 'd': data['d'], 'i': i}, []) if data else ({'v': [], 'd': {}, 'i': 3}, [])
        if data and i % 4 == 0:
            del want[0]['i']
            want[1].append(('Invalid', 'i'))
        case.equal(same(got), same(want), 'many-times', 'the result after many mappings', n=n, j=j, data=data)
        case.equal(repr(data), text, 'many-times', 'the input was changed', n=n, j=j)
        if got[0].get('v') == [] and rng.random() < 0.5:
            got[0]['v'].append('spoilt')
            got[0]['d']['spoilt'] = 1
    seen(case, 'times', n)


# ---- C18, C21: large forms, and deep ones

def shapes(case):
    """A form, its copy, its flattening, its munging and its remapping."""
    import pilo
    F, rng = pilo.fields, case.rng
    deep, wide, lists = size(rng, 20), size(rng, 40), 3
    cls, data, flat = None, None, []
    for i in range(deep):
        fields = dict(('f%d' % j, F.Integer()) for j in range(wide))
        values = dict(('f%d' % j, i * 100 + j) for j in range(wide))
        below = [((('sub',) + at), v) for at, v in flat]
        flat = [(('f%d' % j,), i * 100 + j) for j in range(wide)]
        if cls:
            fields = dict(fields, sub=F.SubForm(cls), l=F.List(F.SubForm(cls)))
            values = dict(values, sub=data, l=[data] * min(lists, rng.choice([0, 0, 1, 2])))
            lists -= len(values['l'])
            flat = flat + below + [(('l',), values['l'])]
        cls, data = form_of(**fields), values
    form = cls(data)
    case.equal(same(form), same(data), 'many-mapped', 'a large form', deep=deep, wide=wide)
    return cls, data, form, flat, deep, wide


def forms(case):
    import pilo
    cls, data, form, flat, deep, wide = shapes(case)
    w = dict(deep=deep, wide=wide)
    got = [(tuple(f.name for f in path), value) for path, value in form.flatten()]
    case.equal(same(got), same(flat), 'many-flat', 'a large form, flattened', **w)
    other = form.copy()
    case.equal((type(other), same(other)), (cls, same(form)), 'many-copied', 'a large form, copied', **w)

    def plus(value):
        if isinstance(value, dict):
            return dict((k, plus(v)) for k, v in value.items())
        if isinstance(value, list):
            return [plus(v) for v in value]
        return value + 1

    got = form.munge(lambda form, field, value: value + 1 if isinstance(value, int) else value)
    case.equal(same(got), same(plus(data)), 'many-munged', 'a large form, munged', **w)
    case.equal(same(form), same(data), 'many-munged', 'munging changed the form', **w)
    seen(case, 'forms', wide)
    case.event('many-levels', str(min(deep, 16)))


def remapped(case):
    cls, data, form, flat, deep, wide = shapes(case)
    again = cls(form)
    case.equal((type(again), same(again)), (cls, same(form)), 'many-remapped', 'a large form, mapped again', deep=deep, wide=wide)
    third = cls(again.copy())
    case.equal(same(third), same(data), 'many-remapped', 'a large form, mapped a third time', deep=deep, wide=wide)
    seen(case, 'remapped', wide)
    case.event('many-levels', str(min(deep, 16)))


# ---- C19: long locations

def located(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 60)
    leaf = rng.randrange(10 ** 6)
    data, keys = leaf, []
    for i in range(n):
        if rng.random() < 0.3:
            at = rng.randrange(3)
            data = [None] * at + [data] + [None] * rng.randrange(2)
            keys.insert(0, at)
        else:
            key = rng.choice(['a', 'b', 'k%d' % i])
            data = {key: data, 'zz': -1}
            keys.insert(0, key)
    src = pilo.DefaultSource({'r': data}) if rng.random() < 0.5 else pilo.source.JsonSource(json.dumps({'r': data}))
    path = src.path()
    for key in ['r'] + keys:
        path.append(key)
    text = 'r' + ''.join('[%d]' % k if isinstance(k, int) else '.' + k for k in keys)
    case.equal((path.value, str(path), len(path)), (leaf, text, n + 1), 'many-keys', 'a long location', n=n, text=text)
    for i in range(n):
        path.pop()
    case.equal(path.value, data, 'many-popped', 'a long location, left again', n=n)
    if not any(isinstance(k, int) for k in keys):
        for given, want in (('.'.join(['r'] + keys), ({'v': leaf}, [])), ('.'.join(['r'] + keys + ['x']), ({}, [('Missing', '.'.join(['r'] + keys + ['x']))]))):
            got = mapped(form_of(v=F.Integer(given)), src)[:2]
            case.equal(got, want, 'many-dots', 'a long dotted location', n=n, given=given)
        case.event('many', 'dotted')
    seen(case, 'keys', n)


# ---- C22: long code

def code(case):
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 300)
    text = '\n'.join('v%d = %d' % (i, i * i) for i in range(n)) + '\ndef total():\n    return ' + ' + '.join('v%d' % i for i in range(min(n, 50))) + '\n'
    got, reported, form = mapped(form_of(c=F.Code()), json_or(rng, {'c': text}))
    case.equal(reported, [], 'many-lines', 'long code was reported', n=n)
    names = dict((k, v) for k, v in vars(got['c']).items() if k[0] == 'v') if got else {}
    case.equal(names, dict(('v%d' % i, i * i) for i in range(n)), 'many-lines', 'the names of long code', n=n)
    case.equal(got['c'].total() if got else None, sum(i * i for i in range(min(n, 50))), 'many-lines', 'the functions of long code', n=n)
    seen(case, 'lines', n)


# ---- C23: long configuration

def configured(case):
    import pilo
    F, rng = pilo.fields, case.rng
    which = rng.choice(['options', 'lines', 'words', 'keys', 'sections', 'text'])
    n = size(rng, 200)
    head = '[s]\n'
    if which == 'options':
        cls = form_of(**dict(('o%d' % i, F.Integer()) for i in range(n)))
        body, want = ''.join('o%d = %d\n' % (i, i) for i in range(n)), dict(('o%d' % i, i) for i in range(n))
    elif which == 'lines':
        cls = form_of(v=F.List(F.Integer()))
        body, want = 'v =\n' + ''.join('  %d\n' % i for i in range(n)), {'v': list(range(n))}
    elif which == 'words':
        cls = form_of(v=F.List(F.Integer()))
        body, want = 'v = ' + ' '.join(str(i) for i in range(n)) + '\n', {'v': list(range(n))}
    elif which == 'keys':
        cls = form_of(v=F.Dict(F.String(), F.Integer()))
        body, want = ''.join('v[k%d] = %d\n' % (i, i) for i in range(n)), {'v': dict(('k%d' % i, i) for i in range(n))}
    elif which == 'text':
        cls = form_of(v=F.String())
        word = ''.join(rng.choice('abc xyz') for _ in range(n * 20)).strip() or 'w'
        body, want = 'v = ' + word + '\n', {'v': word}
    else:
        cls = form_of(**dict(('s%d' % i, F.SubForm(form_of(a=F.Integer()))) for i in range(n)))
        head, body, want = '', ''.join('[s%d]\na = %d\n' % (i, i) for i in range(n)), dict(('s%d' % i, {'a': i}) for i in range(n))
    src = pilo.source.ConfigSource(head + body, None if which == 'sections' else 's')
    got = mapped(cls, src)[:2]
    case.equal(same(got), same((want, [])), 'many-' + which, 'long configuration', n=n)
    seen(case, which, n)


# ---- C24: long shorthands

def shorthands(case):
    import pilo
    import re
    F, rng = pilo.fields, case.rng
    which = rng.choice(['group', 'format', 'capture', 'pattern', 'constant'])
    n = size(rng, 90)
    if which == 'group':
        made = [('g%d' % i, F.Integer()) if i % 2 else (re.compile('p%d-(.*)' % i), F.Integer()) for i in range(n)]
        keys = ['g%d' % i if i % 2 else 'p%d-x%d' % (i, i) for i in range(n)]
        rng.shuffle(keys)
        form = form_of(v=F.Group(made))()
        reported = form.map(dict((k, j) for j, k in enumerate(keys)))
        got = [(k, m.group(1) if m else None, v) for k, m, v in form.get('v', ())]
        want = [(k, k.split('-')[1] if '-' in k else None, j) for j, k in enumerate(keys)]
        case.equal((got, outcome_errors(reported)), (want, []), 'many-group', 'a group of many', n=n)
    elif which == 'format':
        names = ['f%d' % i for i in range(n)]
        fields = dict((name, F.Integer()) for name in names)
        fields['v'] = F.String().format('-'.join('{x%d}' % i for i in range(n)), **dict(('x%d' % i, name) for i, name in enumerate(names)))
        got = mapped(form_of(**fields), dict((name, i) for i, name in enumerate(names)))
        case.equal((got[0].get('v'), got[1]), ('-'.join(str(i) for i in range(n)), []), 'many-format', 'a format of many fields', n=n)
    elif which == 'capture':
        text = 'x' * n + '-' + 'y' * n
        got = mapped(form_of(v=F.String().capture('x+-(y+)')), {'v': text})[:2]
        case.equal(got, ({'v': 'y' * n}, []), 'many-capture', 'a long capture', n=n)
    elif which == 'pattern':
        got = mapped(form_of(v=F.Integer().pattern(r'\d+')), {'v': '7' * n + 'x'})[:2]
        case.equal(got, ({'v': int('7' * n)}, []), 'many-pattern', 'a long pattern', n=n)
    else:
        value = list(range(n))
        got = mapped(form_of(v=F.Field().constant(value)), {'v': 5})[:2]
        case.equal(got, ({'v': value}, []), 'many-constant', 'a large constant', n=n)
    seen(case, which, n)


# ---- C25: hooks far down

def hooks(case):
    """The hook of a form far down is given that form, and sees its own field."""
    import pilo
    F, rng = pilo.fields, case.rng
    n = size(rng, 30)
    log, cls, data = [], None, None

    def munge_of(i):
        def munge(self, value):
            log.append((i, type(self), self.ctx.field.name, self.ctx.form is self, str(self.ctx.src_path)))
            return value
        return munge

    classes = []
    for i in range(n):
        fields = {'a': F.Integer().munge(munge_of(i))}
        fields['a'] = F.Integer()
        fields['a'].munge(munge_of(i))
        if cls:
            fields['sub'] = F.SubForm(cls)
            data = {'a': i, 'sub': data}
        else:
            data = {'a': i}
        cls = form_of(**fields)
        classes.append(cls)
    got, reported, _ = mapped(cls, json_or(rng, data))
    case.equal((same(got), reported), (same(data), []), 'many-deep', 'a deep form', n=n)
    want = [(i, classes[i], 'a', True, 'sub.' * (n - 1 - i) + 'a') for i in range(n - 1, -1, -1)]
    case.equal(log, want, 'many-hooks', 'what the hooks of a deep form were given', n=n)
    seen(case, 'deep', n)
