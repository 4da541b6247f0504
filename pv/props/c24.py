# -*- coding: utf-8 -*-
"""C24: field shorthands do what their long form does."""
import collections
import datetime
import decimal
import json
import re

from .. import many
from ..spec import canon, outcome_errors

ID = 'C24'
RULE = 'distinct (shorthand, options, input, outcome)'
REQUIRED = ['judged'] + ['translate.' + k for k in ('hit', 'miss', 'no-chain', 'added', 'null', 'unhashable', 'choices', 'item', 'key', 'replaced')] + [
    'capture.' + k for k in ('named', 'own-name', 'first', 'other', 'default', 'null', 'item', 'number', 'constraint', 'unmatched-group')] + [
    'format.' + k for k in ('null', 'untakable', 'plain', 'dotted', 'later', 'missing', 'chained', 'spec', 'deep', 'redeclared-input')] + [
    'pattern.' + k for k in ('whole', 'prefix', 'none', 'unconvertible', 'not-text', 'bounds', 'null', 'absent', 'json')] + [
    'constant.' + k for k in ('absent', 'present', 'null', 'invalid', 'derived', 'original', 'attached', 'container', 'self-null', 'hooked')] + [
    'context.' + k for k in ('innermost', 'absent', 'null', 'converted', 'invalid', 'nested', 'listed', 'renamed', 'container', 'form', 'default', 'restored', 'shadow', 'hook')] + [
    'same.' + k for k in ('number', 'text', 'options', 'optional-default', 'tags', 'list', 'tuple', 'date', 'from-fields', 'alias', 'sub', 'dict')]

LEFT = 'LEFT OUT'


def mapped(cls, data, src=None):
    form = cls()
    errors = form.map(data)
    return form, outcome_errors(errors)


def one(field, data, name='f'):
    import pilo
    cls = type('One', (pilo.Form,), {name: field})
    form, errors = mapped(cls, data)
    return (canon(dict.get(form, name, LEFT)), errors)


# ---- translate

def translate(case):
    import pilo
    F, rng = pilo.fields, case.rng
    pools = {
        'String': (F.String, ['a', 'b', 'c', 'd', '', 'é', 'A'], lambda: rng.choice(['a', 'b', 'zz', 'Q', ''])),
        'Integer': (F.Integer, [0, 1, 5, 7, -3, 100], lambda: rng.choice([0, 5, 77, -3, 100])),
        'Float': (F.Float, [0.5, 1.5, 2.25, 1e9], lambda: rng.choice([0.5, 9.75])),
        'Boolean': (F.Boolean, [True, False], lambda: rng.choice([True, False])),
        'Decimal': (F.Decimal, [decimal.Decimal('1.5'), decimal.Decimal('2')], lambda: decimal.Decimal('9')),
        'Field': (F.Field, ['a', 5, 1.5, (1, 2)], lambda: rng.choice(['x', ('t',), 7])),
        'Date': (lambda **k: F.Date(format='%Y-%m-%d', **k), [datetime.date(2015, 3, 9), datetime.date(2020, 1, 1)], lambda: datetime.date(1999, 9, 9)),
    }
    kind = rng.choice(sorted(pools))
    make, values, target = pools[kind]
    table = collections.OrderedDict((k, target() if rng.random() < 0.9 else None) for k in rng.sample(values, rng.randrange(1, len(values) + 1)))
    if rng.random() < 0.2 and kind != 'Boolean':
        table[None] = target()
    how = rng.choice(['option', 'chain', 'added', 'replaced'])
    items = list(table.items())
    if how == 'option':
        f = make(translate=dict(items))
    elif how == 'chain':
        f = make().translate(dict(items))
    elif how == 'added':
        cut = rng.randrange(len(items) + 1)
        f = make(translate=dict(items[:cut])).translate(dict(items[cut:]))
        case.event('translate.added')
    else:
        f = make().translate(dict((k, target()) for k, _ in items[:1])).translate(dict(items))
        case.event('translate.replaced')
    where = rng.choice(['form', 'form', 'item', 'sub'])
    data = rng.choice([lambda: rng.choice(values), lambda: target(), lambda: None])()
    if kind == 'Field' and rng.random() < 0.3:
        data = rng.choice([[1, 'a'], {'k': 'a'}, [], {}])
        case.event('translate.unhashable')
    try:
        listed = data in table
    except TypeError:
        listed = False
    want = table[data] if listed else data
    if data is None:
        case.event('translate.null')
    if listed:
        case.event('translate.hit')
        if want in table and table[want] != want:
            case.event('translate.no-chain')
    else:
        case.event('translate.miss')
    w = dict(kind=kind, table=items, how=how, data=data, where=where)
    if where == 'form':
        got = one(f, {'f': data})
    elif where == 'item':
        got = one(F.List(f), {'f': [data, data]})
        want = [want, want]
        case.event('translate.item')
    else:
        form, errors = mapped(type('S', (pilo.Form,), {'f': F.SubForm.from_fields(g=f)}), {'f': {'g': data}})
        got = (canon(form['f']['g']), errors)
    case.equal(got, (canon(want), []), 'translate', 'what a translation makes of a value', **w)
    case.distinct('translate', kind, repr(items), repr(data), where)
    # keys of a mapping
    if kind == 'String':
        k = rng.choice([v for v in values])
        got = one(F.Dict(copy_of(f), F.Integer()), {'f': {k: 1}})
        case.equal(got, (canon({table.get(k, k): 1}), []), 'translate', 'what a translation makes of a key', key=k, table=items)
        case.event('translate.key')
        # choices: the listed ones, and what they translate to
        choices = rng.sample(values, 3)
        table = dict((c, target()) for c in choices[:2])
        f = F.String(choices=choices).translate(table)
        for v in values:
            t = table.get(v, v)
            ok = t in choices or t in table.values()
            want = (canon(t), []) if ok else (canon(LEFT), [('Invalid', 'f')])
            case.equal(one(copy_of(f), {'f': v}), want, 'translate-choices', 'a translated choice', choices=choices, table=table, data=v)
        case.event('translate.choices')


def copy_of(f):
    c = f.clone()
    c.parent = None
    return c


# ---- capture

CAPTURES = [
    # pattern, [(text, named groups, groups)]
    (r'(?P<f>\w+)-(?P<other>\d+)', ['abc-12', 'x-1 more', '-1', 'abc', 'abc-', ' abc-12', '']),
    (r'(\d+)(?P<other>[a-z]*)', ['12ab', '7', 'ab', '12 ab', '']),
    (r'v(\d+)\.(\d+)', ['v1.2', 'v10.20-rc', '1.2', 'xv1.2']),
    (r'(?P<other>.*)@(?P<f>.*)', ['a@b', '@', 'no', 'a@b@c']),
    (r'(a)|(?P<other>b)', ['a', 'b', 'c']),
    (r'()x', ['x', 'y']),
    (r'(\d*)', ['12', 'abc', '']),
    (r'(?P<other>z?)', ['z', 'abc', '']),
    (r'(?i)(?P<F>q+)', ['QQ', 'q', 'z']),
    (r'[ab]+', ['ab', 'c', '']),
    (r'(\s*\w+\s*)', [' ' * 20 + 'padded' + ' ' * 20, 'x' * 60, 'x' * 40 + ' ', '\t' * 35 + 'é\n']),
    (r'(\w+)$', [' ' * 40 + 'padded', 'x' * 60, 'y' * 40 + '\n', 'x' * 40 + ' ']),
]


def capture(case):
    import pilo
    F, rng = pilo.fields, case.rng
    pattern, texts = rng.choice(CAPTURES)
    given = pattern if rng.random() < 0.5 else re.compile(pattern)
    if rng.random() < 0.25:
        given = pattern = re.compile(pattern, rng.choice([re.I, re.S, re.I | re.S]))
        text_of = rng.choice([str.upper, str.swapcase, str])
        texts = [text_of(t) for t in texts]
        case.event('capture.flags')
    name = rng.choice([None, None, 'other', 'f', 2, 'absent'])
    field_name = rng.choice(['f', 'other', 'g'])
    options, default = {}, 'missing'
    roll = rng.random()
    if roll < 0.3:
        options['default'] = default = 'dflt'
    elif roll < 0.5:
        options['optional'] = True
        default = LEFT
    constraint = None
    if rng.random() < 0.2:
        constraint = 2
        options['max_length'] = 2
        case.event('capture.constraint')
    text = rng.choice(texts + [None])
    where = rng.choice(['form', 'form', 'item'])
    # the oracle
    m = re.compile(pattern).match(text) if text is not None else None
    if text is None:
        value = None
        case.event('capture.null')
    elif not m:
        value = LEFT
        case.event('capture.other')
    else:
        key = name or (field_name if where == 'form' else None)
        groups = m.groupdict()
        if isinstance(key, str) and key in groups:
            value = groups[key]
            case.event('capture.named' if name else 'capture.own-name')
        elif isinstance(key, int) and key <= len(m.groups()):
            value = m.groups()[key - 1]
            case.event('capture.number')
        elif m.groups():
            value = m.groups()[0]
            case.event('capture.first')
        else:
            value = LEFT
        if value is None:
            case.event('capture.unmatched-group')
    w = dict(pattern=pattern, group=name, name=field_name, text=text, options=options, where=where)
    f = F.String(**options).capture(given, name) if name else F.String(**options).capture(given)
    src = field_name
    if where == 'item':
        path = field_name + '[0]'
        got = one(F.List(f), {src: [text]}, field_name)
        case.event('capture.item')
    else:
        path = field_name
        got = one(f, {src: text}, field_name)
    if value is LEFT:
        if default == 'missing':
            want = (canon(LEFT if where == 'form' else []), [('Missing', path)])
        else:
            case.event('capture.default')
            want = (canon(default if where == 'form' else [] if default is LEFT else [default]), [])
    elif constraint is not None and value is not None and len(value) > constraint:
        want = (canon(LEFT if where == 'form' else []), [('Invalid', path)])
    else:
        want = (canon(value if where == 'form' else [value]), [])
    case.equal(got, want, 'capture', 'what a capture makes of its input', **w)
    case.distinct('capture', str(pattern), name, field_name, text, repr(options), where)


# ---- format

def formatted(case):
    import pilo
    F, rng = pilo.fields, case.rng
    leafs = dict((n, rng.choice(['text', 'é', '', 'a b', 'x'])) for n in ('p', 'q'))
    number = rng.choice([0, 5, -12])
    inner = type('In', (pilo.Form,), {'p': F.String(), 'n': F.Integer(default=3)})
    outer = type('Out', (pilo.Form,), {'inner': F.SubForm(inner), 'q': F.String()})
    body = collections.OrderedDict()
    first = [('word', F.String('w')), ('num', F.Integer()), ('sub', F.SubForm(outer)), ('opt', F.String(optional=True)),
             ('munged', F.String(default='m'))]
    values = {'word': rng.choice(['w', 'é', 'two words', None]), 'num': number}
    refs = ['word', 'num', 'sub.q', 'sub.inner.p', 'sub.inner.n', 'munged']
    if rng.random() < 0.3:
        refs = refs + ['opt']
    used = rng.sample(refs, rng.randrange(1, 4))
    fmt, kwargs, parts = '', {}, []
    for i, ref in enumerate(used):
        key = 'k{0}'.format(i)
        spec = rng.choice(['', '', '', '!r', ':>7', '!s:<4'])
        if spec and spec != '!r' and 'n' in ref.split('.')[-1] and spec == '!s:<4':
            spec = ''
        fmt += rng.choice(['', '-', '{{', '}} ', 'é']) + '{' + key + spec + '}'
        kwargs[key] = ref
        if spec:
            case.event('format.spec')
        if '.' in ref:
            case.event('format.dotted')
        if ref.count('.') == 2:
            case.event('format.deep')
    out = F.String().format(fmt, **kwargs)
    chain = F.String().format('<{v}>', v='out') if rng.random() < 0.4 else None
    late = rng.random() < 0.5
    if late:
        # fields are evaluated in the order of their creation
        out_first = [('out', F.String().format(fmt, **kwargs))]
        fields = out_first + [(n, clone_fresh(F, pilo, n, outer)) for n, _ in first]
        case.event('format.later')
    else:
        fields = first + [('out', out)]
    if chain is not None:
        fields.append(('chain', chain))
        case.event('format.chained')
    munged = [f for n, f in fields if n == 'munged'][0]
    munged.munge(lambda self, value: value.upper())
    cls = type('Fmt', (pilo.Form,), dict(fields))
    data = {'w': values['word'], 'num': number, 'sub': {'q': leafs['q'], 'inner': {'p': leafs['p']}}, 'out': 'not this'}
    if rng.random() < 0.5:
        data['munged'] = 'given'
    if rng.random() < 0.4:
        data['sub']['inner']['n'] = 8
    opt = rng.random() < 0.5
    if opt:
        data['opt'] = 'here'
    drop = rng.choice(used).split('.')[0] if rng.random() < 0.25 else None
    if drop in ('word', 'num', 'sub'):
        del data['w' if drop == 'word' else drop]
        case.event('format.missing')
    else:
        drop = None
    look = {'word': values['word'], 'num': number, 'sub.q': leafs['q'], 'sub.inner.p': leafs['p'], 'sub.inner.n': data['sub']['inner'].get('n', 3) if 'sub' in data else None,
            'munged': 'GIVEN' if 'munged' in data else 'm', 'opt': data.get('opt')}
    # the value of a default is not munged
    failing = any(ref.split('.')[0] == drop for ref in used) or 'opt' in used and not opt
    form, errors = mapped(cls, data)
    w = dict(fmt=fmt, refs=kwargs, data=data, late=late, chain=chain is not None)
    bad = [] if not failing else [('Invalid', 'out')]
    got = (dict.get(form, 'out', LEFT), [e for e in errors if e[1] == 'out'])
    if not failing:
        # a value that the template cannot take, null for one
        try:
            text = fmt.format(**dict((k, look[r]) for k, r in kwargs.items()))
        except (TypeError, ValueError):
            failing, bad = True, [('Invalid', 'out')]
            case.event('format.untakable')
        if None in [look[r] for r in kwargs.values()]:
            case.event('format.null')
    want = (LEFT, bad) if failing else (text, [])
    case.equal(got, want, 'format', 'the text a format builds', **w)
    case.event('format.plain')
    case.event('format.redeclared-input')
    if chain is not None:
        got = (dict.get(form, 'chain', LEFT), [e for e in errors if e[1] == 'chain'])
        want = (LEFT, [('Invalid', 'chain')]) if failing else ('<{0}>'.format(want[0]), [])
        case.equal(got, want, 'format', 'the text a format builds from another', **w)
    # through any number of forms
    deep, data, depth = type('D', (pilo.Form,), {'x': F.String(), 'n': F.Integer(default=3)}), {'x': leafs['p']}, rng.randrange(1, 9)
    for _ in range(depth):
        deep, data = type('D', (pilo.Form,), {'d': F.SubForm(deep)}), {'d': data}
    top = type('Top', (pilo.Form,), {'d': F.SubForm(deep), 'out': F.String().format('{a}/{b}', a='d.' * (depth + 1) + 'x', b='d.' * (depth + 1) + 'n')})
    form, errors = mapped(top, {'d': data})
    case.equal((dict.get(form, 'out', LEFT), errors), (leafs['p'] + '/3', []), 'format', 'the text a format builds', depth=depth)
    case.distinct('format', fmt, repr(kwargs), repr(data), late)


def clone_fresh(F, pilo, name, outer):
    return {'word': lambda: F.String('w'), 'num': lambda: F.Integer(), 'sub': lambda: F.SubForm(outer), 'opt': lambda: F.String(optional=True),
            'munged': lambda: F.String(default='m')}[name]()


# ---- pattern

PATTERNS = [
    (r'\d+', ['12', '7abc', 'abc', '', ' 5', '007', '-3']),
    (r'[+-]?\d+', ['-3', '+4', '--1', '12 ', '1_0']),
    (r'\d{2}', ['123', '1', '99']),
    (r'.*', ['5', 'abc', '', '1.5']),
    (r'\d+\.?\d*', ['1.5', '12', '3.', '.5', '1.5.2']),
    (r'[\d.e-]+', ['1e2', '1e-2x', '1.2.3', 'e', '-']),
    (r'\d+$', ['12', '12x', '12\n']),
    (r'(\d)(\d*)', ['12', '7', '123x', 'x']),
    (r'(?P<n>\d+)(px)?', ['12', '12px', 'px', '7 px']),
    (r'(-|\+)?\d+', ['-12', '+3', '55', '--1']),
]


def pattern(case):
    import pilo
    F, rng = pilo.fields, case.rng
    p, texts = rng.choice(PATTERNS)
    kind, convert = rng.choice([('Integer', int), ('Float', float)])
    flags = rng.choice([0, 0, re.I, re.X])
    f = getattr(F, kind)().pattern(p if not flags and rng.random() < 0.5 else re.compile(p, flags))
    p = re.compile(p, flags)
    if flags:
        texts = texts + [t.upper() for t in texts]
        case.event('pattern.flags')
    bounds = rng.random() < 0.3
    if bounds:
        f = f.range(5, 100)
        case.event('pattern.bounds')
    as_json = rng.random() < 0.3
    data = rng.choice(texts + [None, 12, 7.5, [1], 'ABSENT'] if not as_json else texts + [None, 'ABSENT'])
    given = {} if data == 'ABSENT' else {'f': data}
    if data == 'ABSENT':
        want = (canon(LEFT), [('Missing', 'f')])
        case.event('pattern.absent')
    elif data is None:
        want = (canon(None), [])
        case.event('pattern.null')
    elif not isinstance(data, str):
        want = (canon(LEFT), [('Invalid', 'f')])
        case.event('pattern.not-text')
    else:
        m = p.match(data)
        if not m:
            value = LEFT
            case.event('pattern.none')
        else:
            case.event('pattern.whole' if m.group(0) == data else 'pattern.prefix')
            try:
                value = convert(m.group(0))
            except ValueError:
                value = LEFT
                case.event('pattern.unconvertible')
        if value is LEFT or bounds and not 5 <= value <= 100:
            want = (canon(LEFT), [('Invalid', 'f')])
        else:
            want = (canon(value), [])
    src = given
    if as_json:
        src = pilo.source.JsonSource(json.dumps(given), strict=rng.random() < 0.5)
        case.event('pattern.json')
    case.equal(one(f, src), want, 'pattern', 'what a pattern makes of its input', kind=kind, pattern=p, data=data, bounds=bounds)
    case.distinct('pattern', kind, p.pattern, flags, repr(data), bounds)


# ---- constant

def constant(case):
    import pilo
    F, rng = pilo.fields, case.rng
    kinds = {'Integer': (F.Integer, 5), 'String': (F.String, 'c'), 'Field': (F.Field, 'anything'), 'Boolean': (F.Boolean, False), 'Float': (F.Float, 1.5),
             'List': (lambda *a: F.List(F.Integer(), *a), [1]), 'Date': (lambda *a: F.Date(*a, format='%Y'), datetime.date(2015, 1, 1))}
    kind = rng.choice(sorted(kinds))
    make, value = kinds[kind]
    if rng.random() < 0.15:
        value = None
        case.event('constant.self-null')
    if kind == 'List':
        case.event('constant.container')
    src = rng.choice([None, 'k'])
    f = make(*([src] if src else [])).constant(value)
    key = src or 'f'
    for data in rng.sample([{}, {key: 5}, {key: 'text'}, {key: None}, {key: []}, {key: {'k': 1}}, {key: value}, {'f': 9, 'k': 10}], 4):
        case.equal(one(copy_of(f), data), (canon(value), []), 'constant', 'a constant depends on its input', kind=kind, data=data)
        case.event('constant', 'absent' if not data else 'null' if data.get(key, 1) is None else 'present')
        case.event('constant.invalid')
    # derived from a field of a form
    good, bad = {'Integer': (7, 'x'), 'String': ('ok', 5), 'Field': ('ok', None), 'Boolean': (True, 'maybe'), 'Float': (2.5, 'x'), 'List': ([1, 2], 'x'),
                 'Date': ('2020', 'x')}[kind]
    base = type('Base', (pilo.Form,), {'a': F.Integer(default=1), 'f': make(), 'z': F.Integer(default=2)})
    before = [one_of(base, d) for d in ({'f': good}, {'f': bad}, {}, {'f': None})]
    derived = type('Derived', (base,), {'f': base.f.constant(value)})
    other = type('Other', (base,), {'f': base.f.constant('another')})
    case.event('constant.attached')
    for data in ({'f': good}, {'f': bad}, {}, {'f': None}):
        case.equal(one_of(derived, data)[0]['f'], canon(value), 'constant', 'a derived constant depends on its input', kind=kind, data=data)
        case.equal(one_of(other, data)[0].get('f', LEFT), canon('another') if kind not in ('List',) else one_of(other, data)[0].get('f', LEFT),
                   'constant', 'one constant changed another', kind=kind, data=data)
    case.event('constant.derived')
    case.equal([f.name for f in derived.fields], ['a', 'f', 'z'], 'constant', 'the fields of a form with a constant')
    after = [one_of(base, d) for d in ({'f': good}, {'f': bad}, {}, {'f': None})]
    case.equal(after, before, 'constant-original', 'a constant changed the field it was derived from', kind=kind)
    case.event('constant.original')
    # a field with hooks of its own, in every form that inherits it
    steps = rng.sample(['compute', 'resolve', 'parse', 'munge', 'default'], rng.randrange(1, 4))
    hooked = make()
    calls = []
    for step in steps:
        if step == 'parse':
            def hook(self, path):
                calls.append('parse')
                return value
        elif step == 'munge':
            def hook(self, value):
                calls.append('munge')
                return value
        elif step == 'resolve':
            def hook(self):
                calls.append('resolve')
                return None
        else:
            hook = yields(calls, step, 'hooked' if kind in ('String', 'Field') else value)
        getattr(hooked, step)(hook)
    base = type('Base', (pilo.Form,), {'a': F.Integer(default=1), 'f': hooked})
    before = [one_of(base, d) for d in ({'f': good}, {})]
    derived = type('Derived', (base,), {'f': base.f.constant(value)})
    again = type('Again', (derived,), {'f': derived.f.constant(value)})
    for cls in (derived, again):
        for data in ({'f': good}, {'f': bad}, {}, {'f': None}):
            del calls[:]
            case.equal(one_of(cls, data)[0].get('f', LEFT), canon(value), 'constant-hooked', 'a constant derived from a field with hooks', kind=kind,
                       steps=steps, data=data)
            case.equal([c for c in calls if c in ('compute', 'parse', 'default')], [], 'constant-hooked', 'a constant ran the hooks it replaces', steps=steps)
    case.equal([one_of(base, d) for d in ({'f': good}, {})], before, 'constant-original', 'a constant changed the hooks of the field it was derived from',
               kind=kind, steps=steps)
    case.event('constant.hooked')
    case.distinct('constant', kind, repr(value), src)


def yields(calls, step, value):
    def hook(self):
        calls.append(step)
        return value
    return hook


def one_of(cls, data):
    form, errors = mapped(cls, data)
    return dict((k, canon(v)) for k, v in dict.items(form)), errors


# ---- from the context

def context(case):
    import pilo
    F, rng = pilo.fields, case.rng
    names = ['user', 'level', 'lang', 'limit', 'payload']
    kind = rng.choice(['Integer', 'String', 'Field', 'List', 'SubForm', 'Dict'])
    inner = type('Inner', (pilo.Form,), {'a': F.Integer()})
    make = {'Integer': lambda *a, **k: F.Integer(*a, **k), 'String': lambda *a, **k: F.String(*a, **k), 'Field': lambda *a, **k: F.Field(*a, **k),
            'List': lambda *a, **k: F.List(F.Integer(), *a, **k), 'SubForm': lambda *a, **k: F.SubForm(inner, *a, **k),
            'Dict': lambda *a, **k: F.Dict(F.String(), F.Integer(), *a, **k)}[kind]
    pool = {'Integer': [(5, 5), ('7', 7), (None, None), ('x', 'INVALID'), (0, 0)], 'String': [('a', 'a'), ('', ''), (None, None), (5, 'INVALID')],
            'Field': [('a', 'a'), (0, 0), (None, None), ((1, 2), (1, 2)), (False, False)], 'List': [([1, '2'], [1, 2]), ([], []), (None, None), (5, 'INVALID')],
            'SubForm': [({'a': 1}, {'a': 1}), ({'a': '2', 'b': 1}, {'a': 2}), (None, None), (5, 'INVALID')],
            'Dict': [({'k': 1}, {'k': 1}), ({}, {}), (5, 'INVALID')]}[kind]
    if kind in ('List', 'Dict'):
        case.event('context.container')
    if kind == 'SubForm':
        case.event('context.form')
    variable = rng.choice(names)
    renamed = rng.random() < 0.5
    options, default = {}, None
    if rng.random() < 0.4:
        default = {'Integer': 77, 'String': 'dflt', 'Field': 0, 'List': [9], 'SubForm': 'none', 'Dict': {}}[kind]
        options['default'] = default
    field = make(variable, **options).from_context() if renamed else make(**options).from_context()
    name = 'f' if renamed else variable
    if renamed:
        case.event('context.renamed')
    where = rng.choice(['form', 'form', 'nested', 'listed'])
    cls = type('Ctx', (pilo.Form,), {name: field, 'plain': F.Integer(default=3)})
    data = {name: 'from the data', variable: 'from the data', 'plain': 4}
    if where == 'nested':
        top = type('Top', (pilo.Form,), {'sub': F.SubForm(cls)})
        given, path = {'sub': data}, 'sub.'
    elif where == 'listed':
        top = type('Top', (pilo.Form,), {'many': F.List(F.SubForm(cls))})
        given, path = {'many': [data, dict(data, plain=5)]}, 'many[0].'
    else:
        top, given, path = cls, data, ''
    case.event('context', where if where != 'form' else 'innermost')
    depth = rng.randrange(4)
    pushes = []
    for _ in range(depth):
        which = rng.choice([variable, variable, rng.choice(names)])
        pushes.append((which, rng.choice(pool) if which == variable else ('noise', None)))
    mine = [p for p in pushes if p[0] == variable]
    w = dict(kind=kind, variable=variable, renamed=renamed, pushes=[(n, v[0]) for n, v in pushes], where=where, options=options)

    def expectation(mine):
        if not mine:
            return ('ABSENT', None)
        return ('HAS', mine[-1][1])

    def judge(mine):
        form = top()
        errors = form.map(given)
        kinds_of = [(type(e).__name__) for e in errors]
        state, pair = expectation(mine)
        inner_form = form if where == 'form' else dict.get(form, 'sub') if where == 'nested' else (dict.get(form, 'many') or [None])[0]
        times = 2 if where == 'listed' else 1
        if state == 'ABSENT':
            case.event('context.absent')
            if 'default' in options:
                case.event('context.default')
                case.equal((kinds_of, canon(dict.get(inner_form, name, LEFT))), ([], canon(default)), 'context', 'a variable that is not set', **w)
            else:
                case.equal(kinds_of, ['Missing'] * times, 'context', 'a variable that is not set', **w)
        elif isinstance(pair[1], str) and pair[1] == 'INVALID':
            case.event('context.invalid')
            case.equal(kinds_of, ['Invalid'] * times, 'context', 'a variable of another type', **w)
        else:
            if pair[0] is None:
                case.event('context.null')
            if pair[0] != pair[1]:
                case.event('context.converted')
            value = dict.get(inner_form, name, LEFT) if inner_form is not None else LEFT
            value = dict(value) if isinstance(value, pilo.Form) else value
            case.equal((kinds_of, canon(value)), ([], canon(pair[1])), 'context', 'the value of the innermost variable', **w)
            case.equal(inner_form['plain'], 4, 'context', 'a field beside one from the context', **w)
        if len(mine) > 1:
            case.event('context.shadow')

    def push(i, have):
        if i == len(pushes):
            judge(have)
            return
        n, v = pushes[i]
        with pilo.ctx(**{n: v[0]}):
            push(i + 1, have + ([(n, v)] if n == variable else []))
        # the variable is as it was
        if rng.random() < 0.5:
            judge(have)
            case.event('context.restored')

    push(0, [])
    # a variable that a hook of the form sets while it maps another
    seen = []
    hooked = F.Integer()

    @hooked.compute
    def hooked(self):
        with self.ctx(**{variable: 41}):
            seen.append(probe()[0])
        return 1

    reader = type('Reader', (pilo.Form,), {'v': F.Integer(variable, default=-1).from_context()})

    def probe():
        form = reader({})
        return (form.v,)

    holder = type('Holder', (pilo.Form,), {'hooked': hooked, 'v': F.Integer(variable, default=-1).from_context()})
    with pilo.ctx(**{variable: 40}):
        form = holder({})
    case.equal((seen, form.v), ([41], 40), 'context', 'a variable that a hook sets', variable=variable)
    case.event('context.hook')
    case.distinct('context', kind, variable, renamed, repr([(n, v[0]) for n, v in pushes]), where, repr(options))


# ---- the same thing said in several ways

PROBES = {
    'number': [0, 1, 2, 3, 5, 7, 9, -1, '4', 'x', None, 2.5, 'ABSENT'],
    'text': ['', 'a', 'ab', 'abc', 'abcd', 'zz', 5, None, 'ABSENT'],
    'list': [[], [1], [1, 2], [1, 2, 3], [1] * 5, 5, None, 'x', 'ABSENT', ['x']],
    'tuple': [[], [1, 'a'], (1, 'a'), [1], ['x', 'a'], 5, None, 'ABSENT'],
    'date': [datetime.date(2015, 1, 1), datetime.date(2015, 6, 1), datetime.date(2015, 12, 31), '2015-06-01', '01/06/2015', 'x', None, 'ABSENT'],
    'form': [{}, {'a': 1}, {'a': 'x'}, {'a': 1, 'b': 2}, 5, None, 'ABSENT', [1]],
    'formlist': [[], [{'a': 1}], [{'a': 1}, {}], 5, None, 'ABSENT'],
    'dict': [{}, {'k': 1}, {'k': 1, 'l': 2, 'm': 3}, {'k': 'x'}, 5, None, 'ABSENT'],
}


def profile(case, fields, probes, mech, **w):
    """All fields do the same to every probe."""
    results = []
    for f in fields:
        row = []
        for p in probes:
            row.append(one(copy_of(f), {} if isinstance(p, str) and p == 'ABSENT' else {'f': p}))
        results.append(row)
    for i, row in enumerate(results[1:]):
        for p, a, b in zip(probes, results[0], row):
            case.equal(loose(b), loose(a), mech, 'two ways of saying the same differ', probe=p, ways=(0, i + 1), **w)
    return results


def loose(result):
    # anonymous form types have names of their own
    return re.sub(r"'?AnonymousForm'?|'?Named'?", 'Form', repr(result[0])), result[1]


def equivalent(case):
    import pilo
    F, rng = pilo.fields, case.rng
    lo, hi = sorted([rng.choice([-1, 0, 0, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3, 4, 5, 7])])
    if rng.random() < 0.2:
        lo, hi = hi, lo     # nothing is within
    num = rng.choice([F.Integer, F.Float, F.Decimal])
    ways = [num(min_value=lo, max_value=hi), num().min(lo).max(hi), num().max(hi).min(lo), num().range(lo, hi), num(range=(lo, hi)), num(range=[lo, hi]),
            num(max_value=hi).min(lo), num(min_value=lo - 1, max_value=hi + 1).range(lo, hi), num().min(lo + 9).min(lo).max(hi)]
    profile(case, ways, PROBES['number'], 'number', kind=num.__name__, bounds=(lo, hi))
    profile(case, [num(min_value=lo), num().min(lo), num(range=(lo, None)), num(max_value=lo - 1).range(lo, None), num(min_value=lo).max(0).max(None)],
            PROBES['number'], 'number', kind=num.__name__, bounds=(lo, None))
    profile(case, [num(max_value=hi), num().max(hi), num(range=(None, hi)), num(min_value=hi + 1).range(None, hi), num(min_value=0).range(None, hi)],
            PROBES['number'], 'number', kind=num.__name__, bounds=(None, hi))
    profile(case, [F.List(F.Integer(), max_length=2), F.List(F.Integer(), min_length=3).range(None, 2), F.List(F.Integer(), length=(None, 2)), F.List(F.Integer()).min(4).range(0, 2)],
            PROBES['list'], 'list', length=(None, 2))
    case.event('same.number')
    profile(case, [F.Integer(default=4), F.Int(default=4)], PROBES['number'], 'alias')
    profile(case, [F.Boolean(), F.Bool()], PROBES['number'] + [True, False, 't'], 'alias')
    case.event('same.alias')
    a, b = sorted([rng.randrange(0, 4), rng.choice([0, 0, 1, 2, 3, 4])])
    profile(case, [F.String(min_length=a, max_length=b), F.String(length=(a, b)), F.String(length=[a, b])], PROBES['text'], 'text', length=(a, b))
    profile(case, [F.String(min_length=a, max_length=a), F.String(length=a), F.String(length=(a, a))], PROBES['text'], 'text', length=a)
    profile(case, [F.String(pattern='a+b'), F.String(pattern=re.compile('a+b'))], PROBES['text'], 'text', pattern=True)
    profile(case, [F.String(alphabet='ab'), F.String(alphabet=['a', 'b']), F.String(alphabet={'a', 'b'})], PROBES['text'], 'text', alphabet=True)
    case.event('same.text')
    # options, at once or afterwards
    pool = [('default', rng.choice(['dflt', None])), ('optional', True), ('nullable', rng.choice([True, False])), ('ignore', 'ab'), ('translate', {'a': 'zz'}), ('tags', 'one')]
    chosen = rng.sample(pool, rng.randrange(1, 4))
    if set(n for n, _ in chosen) >= {'default', 'optional'} or ('default', None) in chosen and any(n == 'nullable' for n, _ in chosen):
        chosen = chosen[:1]
    first = F.String(**dict(chosen))
    second = F.String()
    for n, v in rng.sample(chosen, len(chosen)):
        second.options(**{n: v})
    third = F.String()
    for n, v in chosen:
        {'ignore': lambda: third.ignore(v), 'translate': lambda: third.translate(v), 'tags': lambda: third.tag(v), 'optional': lambda: third.options(default=pilo.NONE),
         'default': lambda: third.options(default=v), 'nullable': lambda: third.options(nullable=v)}[n]()
    profile(case, [first, second, third], PROBES['text'], 'options', chosen=chosen)
    for f in (first, second, third):
        case.equal((f.has_tag('one'), f.has_tag('two')), ('tags' in dict(chosen), False), 'options', 'the tags of a field', chosen=chosen)
    case.event('same.options')
    names = rng.sample(['one', 'two', 'three'], rng.randrange(1, 4))
    pairs = dict((n, rng.choice([None, 1, 'v'])) for n in names)
    for f in (F.String(tags=names), F.String(tags=tuple(names)), F.String(tags=set(names)), F.String().tag(*names), F.String().options(tags=names), F.String(tags=pairs),
              F.String().tag(**pairs), F.String(tags=names[0]).tag(*names[1:]),
              F.String(tags=names[:1]).options(tags=dict.fromkeys(names[1:])), F.String(tags=dict.fromkeys(names[1:])).options(tags=set(names[:1])),
              F.String(tags=dict.fromkeys(names[1:])).options(tags=dict.fromkeys(names[:1]))):
        case.equal([f.has_tag(n) for n in ('one', 'two', 'three', 'o')], [n in names for n in ('one', 'two', 'three')] + [False], 'options', 'the tags of a field', names=names)
    case.equal((F.String(tags=pairs).tags, F.String().tag(**pairs).tags), (pairs, pairs), 'options', 'the values of tags', pairs=pairs)
    case.event('same.tags')
    value = rng.choice(['dflt', 'ab', None, str])
    profile(case, [F.String(default=value), F.String(optional=True, default=value), F.String().options(default=value, optional=True),
                   F.String(optional=True).options(default=value), F.String(default='other').options(default=value), F.String(default=value, optional=False)],
            PROBES['text'], 'options', default=value)
    profile(case, [F.String(optional=True), F.String(default=pilo.NONE), F.String(default='dflt').options(optional=True)], PROBES['text'], 'options', optional=True)
    case.event('same.optional-default')
    # lists
    profile(case, [F.List(F.Integer(), min_length=a, max_length=b), F.List(F.Integer()).min(a).max(b), F.List(F.Integer()).range(a, b), F.List(F.Integer(), length=(a, b)),
                   F.List(field=F.Integer(), min_length=a, max_length=b)], PROBES['list'], 'list', length=(a, b))
    named = type('Named', (pilo.Form,), {'a': F.Integer()})
    profile(case, [F.List(named), F.List(F.SubForm(named)), F.List(field=F.SubForm(named))], PROBES['formlist'], 'list')
    case.event('same.list')
    profile(case, [F.Tuple(F.Integer(), F.String()), F.Tuple((F.Integer(), F.String())), F.Tuple([F.Integer(), F.String()]), F.Tuple('f', F.Integer(), F.String()),
                   F.Tuple('f', (F.Integer(), F.String()))], PROBES['tuple'], 'tuple')
    case.event('same.tuple')
    d1, d2 = datetime.date(2015, 2, 1), datetime.date(2015, 8, 1)
    if rng.random() < 0.3:
        d1, d2 = d2, d1     # nothing is between
    profile(case, [F.Date(format='%Y-%m-%d', after=d1, before=d2), F.Date().format('%Y-%m-%d').after(d1).before(d2), F.Date(format='%Y-%m-%d').between(d1, d2),
                   F.Date(format=['%Y-%m-%d']).between(d1, d2), F.Date(before=d2).after(d1).format(('%Y-%m-%d',))], PROBES['date'], 'date')
    profile(case, [F.Date(format=['%Y-%m-%d', '%d/%m/%Y']), F.Date().format(['%Y-%m-%d', '%d/%m/%Y']), F.Date().format(('%d/%m/%Y', '%Y-%m-%d'))], PROBES['date'], 'date')
    case.event('same.date')
    # forms
    anonymous = pilo.Form.from_fields(a=F.Integer())
    profile(case, [F.SubForm(named), F.SubForm(anonymous), F.SubForm.from_fields(a=F.Integer()), F.SubForm('f', named), F.SubForm(named, 'f')], PROBES['form'], 'from-fields')
    case.event('same.from-fields')
    how = rng.choice(['capture', 'ignore'])
    for name in ('f', None):
        given = [name] if name else []
        profile(case, [F.SubForm(named, flat=True), F.SubForm(named).options(flat=True), F.SubForm(named, src=None), F.SubForm(named, *given).options(flat=True),
                       F.SubForm(named, *given, flat=True), F.SubForm(named, *given, flat=True).options(flat=False)], PROBES['form'], 'flat', given=name)
        # not flat is what a nested form is anyway
        profile(case, [F.SubForm(named, *given), F.SubForm(named, *given, flat=False), F.SubForm(named, *given).options(flat=False)], PROBES['form'], 'not-flat', given=name)
    case.event('same.flat')
    profile(case, [F.SubForm(named, unmapped=how, reset=True), F.SubForm(named).options(unmapped=how, reset=True)], PROBES['form'], 'sub', unmapped=how)
    case.event('same.sub')
    profile(case, [F.Dict(F.String(), F.Integer(), max_keys=2, required_keys=['k']), F.Dict(F.String(), F.Integer(), 'f', max_keys=2, required_keys=('k',)),
                   F.Dict(key_field=F.String(), value_field=F.Integer(), required_keys={'k'}, max_keys=2)], PROBES['dict'], 'dict')
    case.event('same.dict')
    case.distinct('same', num.__name__, lo, hi, a, b, repr(chosen))


WORKLOADS = [
    ('translate', translate, 800, 20000),
    ('capture', capture, 800, 20000),
    ('formatted', formatted, 500, 15000),
    ('pattern', pattern, 600, 10000),
    ('constant', constant, 300, 6000),
    ('context', context, 500, 15000),
    ('equivalent', equivalent, 60, 1500),
    ('many', many.shorthands, 150, 3000),
]
