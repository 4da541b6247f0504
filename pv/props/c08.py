"""C08: unmapped capture, tag selection and reset touch exactly what they name."""
from .. import many, engine, spec
from ..gen import Gen, junk
from ..spec import Builder, MForm, Node, State, canon, outcome_errors

ID = 'C08'
RULE = 'distinct (form shape with tags, operation, contents before, contents after)'
REQUIRED = ['judged', 'op.map', 'op.reset', 'op.tags', 'op.capture', 'captured', 'refused', 'tags.context', 'tags.both', 'nested.ignore', 'nested.capture', 'nested.field', 'nested.pair', 'nested.sub',
            'nested.options', 'nested.poly', 'nested.poly-options',
            'named.list', 'named.tuple', 'named.mapping', 'named.union', 'named.plain', 'named.positional']

TAGS = ['t1', 't2', 't3']


def capture(case):
    """Capture, at the root and in nested forms."""
    native = case.rng.random() < 0.6
    g = Gen(case.rng, depth=2, hooks=0.03, width=4, bad=0.1, absent=0.2, extras=0.7, native=native)
    form = g.form().number()
    for _ in range(2):
        data = g.form_data(form)
        kind = case.rng.choice(['native', 'default']) if native else case.rng.choice(['strict', 'lenient'])
        for directive in ('capture', 'ignore'):
            r = engine.run(form, data, kind, unmapped=directive)
            engine.judge(case, r, ('values', 'errors'))
            if r.got[0] != 'ok':
                continue
            case.event('op', directive)
            names = set(form.fields)
            extra = set(dict.keys(r.form)) - names
            if directive == 'ignore':
                case.expect(not extra, 'ignored-kept', 'undeclared keys in the form', data=data, extra=extra)
            elif extra:
                case.event('captured')
    case.sample((form, data, r.form))


def directives(case):
    """Capture through given key and value fields."""
    import pilo
    F, rng = pilo.fields, case.rng
    cls = type('F', (pilo.Form,), {'a': F.Integer(default=None), 'b': F.String('bee', default=pilo.NONE)})
    data = {}
    for k in rng.sample(['a', 'b', 'bee', 'x', 'y', 'z.z', 'w()', 'items', 'A'], rng.randrange(7)):
        data[k] = rng.choice([1, 2, 'text', '5', 'q', None, [1], 3.0])
    which = rng.choice(['field', 'int', 'pair', 'upper', 'none', 'bad'])
    bad = None
    want, errs = {}, []
    v = data.get('a', None)
    if 'a' not in data or v is None:
        want['a'] = None
    elif isinstance(v, int) or v in ('5', 3.0):
        want['a'] = int(v)
    else:
        errs.append(('Invalid', 'a'))
    if 'bee' in data:
        if isinstance(data['bee'], str) or data['bee'] is None:
            want['b'] = data['bee']
        else:
            errs.append(('Invalid', 'bee'))
    directive = {
        'field': lambda: F.Field(),
        'int': lambda: F.Integer(nullable=False),
        'pair': lambda: (F.String(length=1), F.Field()),
        'upper': lambda: (F.String().translate({'x': 'XX', 'A': 'a', 'z.z': 'b'}), F.Field()),
        'none': lambda: None,
        'bad': lambda: 'everything',
    }[which]()
    form = cls()
    if which == 'bad':
        try:
            form.map(data, unmapped=directive)
        except ValueError:
            case.event('refused')
            case.expect(True, 'refused', '')
            return
        case.fail('refused', 'an unknown directive was accepted', data=data)
    if which != 'none':
        captured = {}
        for k, v in data.items():
            if k in want:
                continue
            if which == 'int':
                if v is None or not (isinstance(v, (int, float)) or v == '5'):
                    errs.append(('Invalid', k))
                    continue
                v = int(v)
            if which == 'pair' and len(k) != 1:
                errs.append(('Invalid', ''))
                continue
            if which == 'upper':
                k = {'x': 'XX', 'A': 'a', 'z.z': 'b'}.get(k, k)
            captured[k] = v
        for k, v in captured.items():
            want.setdefault(k, v)
            case.event('captured')
    errors = form.map(data, unmapped=directive)
    case.equal(dict((k, canon(v)) for k, v in dict.items(form)),
               dict((k, canon(v)) for k, v in want.items()), 'directive', 'captured with a {0} directive'.format(which), data=data)
    case.equal(outcome_errors(errors), errs, 'directive-errors', 'errors of a {0} directive'.format(which), data=data)
    case.distinct(which, tuple(sorted(data)), tuple(errs))


EXTRA = {'extra': 1, 'more': ['x'], 'x()': 'y'}


def histories(case):
    """One form object through many mappings with tags and resets."""
    import pilo
    rng = case.rng
    g = Gen(rng, depth=1, hooks=0.0, width=6, bad=0.15, absent=0.25, extras=0.0, tags=TAGS, native=False,
            names=['a', 'b', 'c', 'd', 'e', 'items', 'keys'])
    form = g.form(width=6).number()
    b = Builder()
    cls = form.build(b)
    real, model = cls(), MForm(form.name)
    for step in range(rng.randrange(2, 7)):
        data = g.form_data(form)
        data.update((k, EXTRA[k]) for k in EXTRA if rng.random() < 0.3)
        tags = rng.choice([None, [], (), ['t1'], ['t1', 't2'], ('t1', 't3'), {'t2'}, {'t3', 't1'}, ('t2',), ['nope']])
        reset = rng.random() < 0.4
        unmapped = rng.choice(['ignore', 'ignore', 'capture'])
        before = repr(model)
        chosen = set(tags or [])
        if unmapped == 'capture':
            # a declared but unselected name is captured raw when the form does not hold it: keep such keys out
            data = dict((k, v) for k, v in data.items() if k not in form.fields)
        ctx_tags = None
        if rng.random() < 0.3:
            ctx_tags = rng.choice([['t1'], {'t2', 't3'}, ('t2', 't1')])
            case.event('tags', 'both' if tags else 'context')
        M = State('native')
        M.ctx_tags = ctx_tags
        if reset:
            case.event('op', 'reset')
            for name, f in form.fields.items():
                effective = chosen or set(ctx_tags or [])
                if not effective or effective & set(f.tags):
                    model.values.pop(name, None)
        form.map(M, Node(data), unmapped=unmapped, tags=tags, form=model)
        kwargs = dict(tags=tags, reset=reset, unmapped=unmapped)
        if ctx_tags:
            with pilo.ctx(tags=ctx_tags):
                errors = real.map(data, **kwargs)
        else:
            errors = real.map(data, **kwargs)
        case.event('op', 'map')
        if tags or ctx_tags:
            case.event('op', 'tags')
        if unmapped == 'capture':
            case.event('op', 'capture')
        case.equal(canon(real), canon(model), 'history', 'contents after step {0}'.format(step), form=form, data=data,
                   kwargs=kwargs, before=before, ctx_tags=ctx_tags)
        case.equal(outcome_errors(errors), M.errors, 'history-errors', 'errors of step {0}'.format(step), form=form, data=data,
                   kwargs=kwargs)
        case.distinct(form.shape(), repr(sorted(tags or [])), reset, unmapped, before, repr(model))
    case.sample((form, kwargs, real))


def tag_ways(case):
    """Every way to give a field tags."""
    import pilo
    F, rng = pilo.fields, case.rng

    class A(pilo.Form):
        a = F.Integer(tags='t1')
        b = F.Integer().tag('t1', 't2')
        c = F.Integer().tag(t3='meta')
        d = F.Integer().tag('t2').tag('t4')
        e = F.Integer()

    tags_of = {'a': {'t1'}, 'b': {'t1', 't2'}, 'c': {'t3'}, 'd': {'t2', 't4'}, 'e': set()}
    for bits in range(1, 32):
        tags = [t for i, t in enumerate(['t1', 't2', 't3', 't4', 't5']) if bits >> i & 1]
        form = A({'a': 1, 'b': 1, 'c': 1, 'd': 1, 'e': 1})
        reset = rng.random() < 0.5
        data = dict((k, 2) for k in tags_of if rng.random() < 0.7)
        errors = form.map(data, tags=rng.choice([list, tuple, set, frozenset])(tags), reset=reset)
        want, missing = {}, []
        for k in 'abcde':
            if tags_of[k] & set(tags):
                if k in data:
                    want[k] = 2
                else:
                    missing.append(('Missing', k))
                    if not reset:
                        want[k] = 1
            else:
                want[k] = 1
        case.equal(dict(form.items()), want, 'tags', 'fields touched by tags', tags=tags, data=data, reset=reset)
        case.equal(outcome_errors(errors), missing, 'tags-errors', 'errors with tags', tags=tags, data=data)
        case.event('op', 'tags')
        case.distinct(tuple(tags), reset, tuple(sorted(data)))


def nested(case):
    """What a sub form was told to do with unmapped keys is what mapping its form with that does."""
    import pilo
    F, rng = pilo.fields, case.rng
    name = rng.choice(['kind', 'type'])
    kind = F.Type.abstract()
    fields = {'a': F.Integer(default=0), 'b': F.List(F.Integer(), default=None), 'c': F.String('see', default='')}
    body = dict((k, fields[k]) for k in rng.sample(sorted(fields), rng.randrange(0, 4)))
    base = type('Base', (pilo.Form,), dict(body, **{name: kind}))
    sub = type('Sub', (base,), {name: F.Type.constant('one'), 'n': F.Integer(default=1)})

    def directive():
        return {'ignore': 'ignore', 'capture': 'capture', 'field': F.Integer(), 'pair': (F.String().translate({'x': 'renamed'}), F.Integer())}[how]

    how = rng.choice(['ignore', 'capture', 'capture', 'field', 'pair'])
    data = dict((k, rng.choice([0, 1, 7, 'text', None, [1], {'q': 1}])) for k in rng.sample(['x', 'y', 'see', 'c', 'n', 'é', '', 'a.b'], rng.randrange(0, 5)))
    for k in ('a', 'b'):
        if rng.random() < 0.4:
            data[k] = {'a': 4, 'b': [4]}[k]
    data[name] = 'one'
    alone = sub()
    want = outcome_errors(alone.map(data, unmapped=directive()))
    for holder in ('sub', 'options', 'poly', 'poly-options'):
        if holder == 'sub':
            field = F.SubForm(sub)
            field.unmapped = directive()
        elif holder == 'options':
            field = F.SubForm(sub).options(unmapped=directive())
        elif holder == 'poly':
            field = F.PolymorphicSubForm(getattr(base, name), unmapped=directive())
        else:
            field = F.PolymorphicSubForm(getattr(base, name), 's', unmapped=directive(), reset=rng.random() < 0.5)
        where = rng.choice(['field', 'list', 'dict'])
        if holder != 'poly-options' and where == 'list':
            cls, given, steps = type('H', (pilo.Form,), {'s': F.List(field)}), {'s': [data]}, (0,)
        elif holder != 'poly-options' and where == 'dict':
            cls, given, steps = type('H', (pilo.Form,), {'s': F.Dict(F.String(), field)}), {'s': {'k': data}}, ('k',)
        else:
            cls, given, steps = type('H', (pilo.Form,), {'s': field}), {'s': data}, ()
        form = cls()
        errors = form.map(given)
        prefix = 's' + ''.join('[0]' if p == 0 else '.' + p for p in steps)
        w = dict(holder=holder, how=how, data=data, name=name)
        case.equal(outcome_errors(errors), [(k, prefix + '.' + p) for k, p in want], 'nested-errors',
                   'errors of a sub form differ from those of its form', **w)
        if not want:
            got = form['s']
            for p in steps:
                got = got[p]
            case.expect(type(got) is sub, 'nested-type', 'a form of another type', got=type(got).__name__, **w)
            case.equal(dict(dict.items(got)), dict(dict.items(alone)), 'nested', 'a sub form differs from its form', **w)
        case.event('nested', how)
        case.event('nested', holder)
    case.distinct('nested', how, tuple(sorted(body)), repr(sorted(data.items(), key=repr)))


def named(case):
    """What the root of a source names is captured: positions, aliases, sections and the names of a union."""
    import pilo
    F = pilo.fields
    rng = case.rng
    names = rng.sample(['a', 'b', 'c', 'd', 'e'], rng.randrange(1, 5))
    fields = rng.sample(names, rng.randrange(len(names) + 1)) + rng.sample(['x', 'y'], rng.randrange(2))
    form = type('N', (pilo.Form,), dict((n, F.Integer(default=None)) for n in fields))
    values = [rng.randrange(-50, 50) for _ in names]
    how = rng.choice(['list', 'mapping', 'tuple', 'union', 'plain'])
    if how == 'list' or how == 'tuple':
        order = rng.sample(range(len(names)), len(names))
        data = [None] * len(names)
        for i, v in zip(order, values):
            data[i] = v
        src = pilo.DefaultSource(data if how == 'list' else tuple(data), aliases=dict(zip(names, order)))
    elif how == 'mapping':
        src = pilo.DefaultSource(dict(('_' + n, v) for n, v in zip(names, values)), aliases=dict((n, '_' + n) for n in names))
    elif how == 'union':
        cut = rng.randrange(len(names) + 1)
        rows = list(zip(names, values))
        src = pilo.UnionSource([pilo.DefaultSource(dict(rows[:cut])), pilo.DefaultSource(dict(rows[cut:]))])
    else:
        src = dict(zip(names, values))
    want = dict.fromkeys(fields)
    captured = dict(zip(names, values))
    for directive in rng.sample(['capture', 'ignore', 'field', 'pair'], 2):
        case.event('named.' + how)
        unmapped = {'capture': 'capture', 'ignore': 'ignore', 'field': F.Integer(), 'pair': (F.String(), F.Integer())}[directive]
        m = form()
        errors = m.map(src, unmapped=unmapped)
        full = dict(want)
        full.update(captured if directive != 'ignore' else dict((n, v) for n, v in captured.items() if n in fields))
        case.equal([str(e) for e in errors], [], 'named-errors', 'a source of integers fails', how=how, directive=directive)
        case.equal(dict(m), full, 'named-values', 'what the root names is not captured', how=how, directive=directive,
                   names=names, fields=fields, values=values)
        case.distinct('named', how, directive, tuple(fields), tuple(names))
    # positional data has nothing left over
    if fields:
        order = [f.name for f in form.fields]
        m = form()
        row = [rng.randrange(9) for _ in order]
        errors = m.map(row, unmapped='capture')
        case.equal((list(errors), dict(m)), ([], dict(zip(order, row))), 'positional-capture', 'capture of positional data',
                   order=order, row=row)
        case.event('named.positional')


WORKLOADS = [
    ('named', named, 500, 10000),
    ('nested', nested, 400, 10000),
    ('capture', capture, 1500, 40000),
    ('directives', directives, 1200, 20000),
    ('histories', histories, 1500, 40000),
    ('tag-ways', tag_ways, 20, 200),
    ('many', many.captures, 150, 3000),
]
