"""C01: the steps of a field run in the documented order."""
from .. import many, engine, spec
from ..gen import Gen

ID = 'C01'
RULE = 'distinct (form shape with its hooks, error list, number of hook calls)'
REQUIRED = ['judged'] + ['hook.' + s for s in ('munge', 'filter', 'validate', 'parse', 'compute', 'default', 'resolve')] + ['signature.taken', 'signature.refused'] + [
    'own.' + s for s in ('munge', 'filter', 'validate', 'parse', 'compute', 'default', 'resolve')] + ['own.where.' + s for s in ('form', 'list', 'dict', 'read')]


def flat(case):
    """One level, many hooks."""
    g = Gen(case.rng, depth=0, hooks=0.45, width=4, bad=0.15, absent=0.15, null=0.1)
    form = g.form().number()
    for _ in range(3):
        r = engine.run(form, g.form_data(form), 'native')
        engine.judge(case, r, ('values', 'errors', 'trace', 'defaults'))
    case.sample((form, r.data, r.trace))


def nested(case):
    """Hooks on fields in lists, tuples, dicts, groups and nested forms."""
    g = Gen(case.rng, depth=2, hooks=0.25, width=3)
    form = g.form().number()
    for _ in range(2):
        r = engine.run(form, g.form_data(form), case.rng.choice(['native', 'default', 'located']))
        engine.judge(case, r, ('values', 'errors', 'trace', 'defaults'))
    case.sample((form, r.data, r.trace))


def json_sources(case):
    g = Gen(case.rng, depth=2, hooks=0.25, width=3, native=False)
    form = g.form().number()
    for _ in range(2):
        r = engine.run(form, g.form_data(form), case.rng.choice(['strict', 'lenient']))
        engine.judge(case, r, ('values', 'errors', 'trace', 'defaults'))
    case.sample((form, r.data, r.trace))


def raising(case):
    """A hook raises what the library does not turn into an error: nothing runs after it."""
    behaviours = dict(__import__('pv.spec').spec.HOOK_CHOICES)
    for step in ('munge', 'filter', 'validate', 'parse', 'compute', 'default'):
        behaviours[step] = behaviours[step] + ['raiseK']
    g = Gen(case.rng, depth=1, hooks=0.3, width=3, behaviours=behaviours)
    form = g.form().number()
    r = engine.run(form, g.form_data(form), 'native')
    engine.judge(case, r, ('values', 'errors', 'trace', 'defaults'))


SIGNATURES = {
    'resolve': ['self'], 'compute': ['self'], 'default': ['self'], 'parse': ['self', 'path'],
    'munge': ['self', 'value'], 'filter': ['self', 'value'], 'validate': ['self', 'value'],
}


def signatures(case):
    """A function that cannot be called as a step is, is refused when declared, and nothing is attached."""
    import pilo
    F, rng = pilo.fields, case.rng
    make = rng.choice([F.Field, F.String, F.Integer, F.Boolean, lambda: F.List(F.Field()), lambda: F.Tuple([F.Field()]),
                       lambda: F.Dict(F.String(), F.Field()), lambda: F.SubForm(type('X', (pilo.Form,), {})), F.Date, F.UUID,
                       lambda: F.Group(('g', F.Field()))])
    field = make()
    step = rng.choice(sorted(SIGNATURES))
    if step == 'default' and isinstance(field, F.Group):
        step = 'munge'
    names = SIGNATURES[step]
    # the function as it should be, or with another number of parameters
    given = list(names)
    roll = rng.randrange(4)
    if roll == 0:
        given.append('more')
    elif roll == 1:
        given.pop()
    elif roll == 2:
        given = given[:1] if len(given) == 2 else given + ['value']
    seen = []
    code = 'lambda {0}: (seen.append(1), 5)[1]'.format(', '.join(given))
    fn = eval(code, {'seen': seen})
    hook = getattr(field, step)
    w = dict(field=type(field).__name__, step=step, function=code)
    try:
        back = hook(fn)
    except TypeError:
        case.expect(given != names, 'signature-right', 'a function with the parameters of the step is refused', **w)
        case.expect(not getattr(field, step), 'signature-kept', 'a refused function is attached', **w)
        case.event('signature', 'refused')
    else:
        case.expect(given == names, 'signature-wrong', 'a function with other parameters than the step is taken', **w)
        case.expect(back is field, 'signature-field', 'declaring a hook yields another thing than the field', **w)
        case.expect(bool(getattr(field, step)), 'signature-lost', 'a hook is not attached', **w)
        case.event('signature', 'taken')
    # the hook of an item yields the field that holds it, whatever holds it
    item = rng.choice([F.Field, F.Integer, F.String])()
    whole, inner = item, item
    for _ in range(rng.randrange(1, 4)):
        whole = rng.choice([lambda f: F.List(f), lambda f: F.Dict(F.String(), f), lambda f: F.Dict(f, F.Field()) if f is item else F.List(f)])(whole)
    calls = []

    def munge(self, value):
        calls.append((type(self).__name__, value))
        return value
    case.expect(item.munge(munge) is whole, 'signature-field', 'declaring a hook of an item yields another thing than the field that holds it', **w)
    form = type('S', (pilo.Form,), {'f': whole})()
    sample, at = rng.choice(['5', 'x']), whole
    build = []
    while at is not item:
        build.append('list' if isinstance(at, F.List) else 'key' if at.key_field is item else 'value')
        at = at.field if isinstance(at, F.List) else item if at.key_field is item else at.value_field
    data = sample
    for how in reversed(build):
        data = [data] if how == 'list' else {data: 1} if how == 'key' else {'k': data}
    errors = form.map({'f': data})
    if not (isinstance(item, F.Integer) and sample == 'x'):
        case.equal([c[0] for c in calls], ['S'], 'signature-item', 'the hook of an item is not called once with the form', held=build, errors=[str(e) for e in errors], **w)
    # the field without it, in a form
    if given != names:
        plain = make()
        outs = []
        for f in (field, plain):
            form = type('S', (pilo.Form,), {'f': f})()
            errors = form.map({'f': rng.choice([5]), 'g': 1})
            outs.append((spec.canon(dict(form)), [str(e) for e in errors]))
        case.equal(outs[0], outs[1], 'signature-effect', 'a refused function changes the field', **w)
        case.expect(not seen, 'signature-run', 'a refused function was called', **w)
    case.distinct('signature', w['field'], step, code)


STEPS = ['resolve', 'compute', 'parse', 'munge', 'filter', 'validate', 'default']
LOST, BROKEN, OUT = 'absent', 'broken', 'no value'


def extended(case):
    """A kind of field of one's own, made by overriding the methods of the steps, with hooks besides."""
    import pilo
    F, rng = pilo.fields, case.rng
    log = []
    over = dict((s, rng.choice(['same', 'other'])) for s in STEPS if rng.random() < 0.45)
    hooks = dict((s, rng.choice(['same', 'other'])) for s in STEPS if rng.random() < 0.3)
    where = rng.choice(['form', 'form', 'list', 'dict', 'read'])
    if where not in ('form', 'read'):
        over.pop('resolve', None)
        hooks.pop('resolve', None)
    body = {}

    def own(step, fn):
        body['_' + step] = fn
        case.event('own', step)

    class Base(F.Integer):
        pass

    def overridden(step, mode):
        if step == 'resolve':
            def fn(self):
                log.append(('own', 'resolve'))
                return pilo.ctx(src='alt') if mode == 'other' else super(Base, self)._resolve()
        elif step == 'compute':
            def fn(self):
                log.append(('own', 'compute'))
                return 21 if mode == 'other' else super(Base, self)._compute()
        elif step == 'parse':
            def fn(self, path):
                log.append(('own', 'parse'))
                value = super(Base, self)._parse(path)
                return value + 1 if mode == 'other' else value
        elif step == 'munge':
            def fn(self, value):
                log.append(('own', 'munge', value))
                value = super(Base, self)._munge(value)
                return value if mode == 'same' or value is None else pilo.NONE if value % 5 == 4 else value * 2
        elif step == 'filter':
            def fn(self, value):
                log.append(('own', 'filter', value))
                return super(Base, self)._filter(value) and (mode == 'same' or value is None or value % 3 != 0)
        elif step == 'validate':
            def fn(self, value):
                log.append(('own', 'validate', value))
                if not super(Base, self)._validate(value):
                    return False
                if mode == 'other' and value is not None and value % 7 == 1:
                    self.ctx.errors.invalid('one of seven')
                    return False
                return True
        else:
            def fn(self):
                log.append(('own', 'default'))
                return 70 if mode == 'other' else super(Base, self)._default()
        return fn

    for step, mode in over.items():
        own(step, overridden(step, mode))
    Own = type('Own', (Base,), body)
    default = rng.choice(['none', 'value', 'callable'])
    field = Own(**({} if default == 'none' else {'default': 60} if default == 'value' else {'default': lambda: 61})).ignore(3).range(0, 50)
    if default != 'none':
        hooks.pop('default', None)
    for step, mode in hooks.items():
        case.event('own.hook', step)
        if step == 'resolve':
            hook = lambda self, mode=mode: (log.append(('hook', 'resolve')), pilo.ctx(src='alt') if mode == 'other' else None)[1]
            field.resolve(eval('lambda self: hook(self)', {'hook': hook}))
        elif step == 'parse':
            def hook(path, mode=mode):
                log.append(('hook', 'parse'))
                return path.primitive(int) + (100 if mode == 'other' else 0)
            field.parse(eval('lambda self, path: hook(path)', {'hook': hook}))
        elif step in ('compute', 'default'):
            def hook(step=step, mode=mode):
                log.append(('hook', step))
                return {'compute': 11, 'default': 62}[step] if mode == 'same' else pilo.NONE
            getattr(field, step)(eval('lambda self: hook()', {'hook': hook}))
        else:
            def hook(value, step=step, mode=mode):
                log.append(('hook', step, value))
                if step == 'munge':
                    return value if mode == 'same' or value is None else value - 1
                return mode == 'same' or value is None or value % 4 != 2
            getattr(field, step)(eval('lambda self, value: hook(value)', {'hook': hook}))

    def expect(present, value, alt):
        """The trace, the value (or none), the kind of error (or none)."""
        trace = []

        def lacking():
            if 'default' in over:
                trace.append(('own', 'default'))
                if over['default'] == 'other':
                    return trace, 70, None
            if default != 'none':
                return trace, 60 if default == 'value' else 61, None
            if 'default' in hooks:
                trace.append(('hook', 'default'))
                return trace, 62 if hooks['default'] == 'same' else OUT, None
            return trace, OUT, 'Missing'

        other = False
        stays = True
        if 'resolve' in hooks:
            trace.append(('hook', 'resolve'))
            other, stays = hooks['resolve'] == 'other', False
        elif 'resolve' in over:
            trace.append(('own', 'resolve'))
            other = over['resolve'] == 'other'
        got = value if present else LOST
        if other:
            got = alt
        elif not stays:
            got = BROKEN        # the form itself is no number
        if 'compute' in hooks:
            trace.append(('hook', 'compute'))
            v = 11 if hooks['compute'] == 'same' else LOST
        else:
            if 'compute' in over:
                trace.append(('own', 'compute'))
            if over.get('compute') == 'other':
                v = 21
            elif got is LOST or got is None:
                v = got
            else:
                if 'parse' in hooks:
                    trace.append(('hook', 'parse'))
                elif 'parse' in over:
                    trace.append(('own', 'parse'))
                try:
                    v = int(got)
                except ValueError:
                    return trace, OUT, 'Invalid'
                if 'parse' in hooks:
                    v += 100 if hooks['parse'] == 'other' else 0
                elif over.get('parse') == 'other':
                    v += 1
        if v is LOST:
            return lacking()
        if 'munge' in over:
            trace.append(('own', 'munge', v))
            if over['munge'] == 'other' and v is not None:
                v = LOST if v % 5 == 4 else v * 2
        if v is not LOST and 'munge' in hooks:
            trace.append(('hook', 'munge', v))
            v = v if hooks['munge'] == 'same' or v is None else v - 1
        if v is LOST:
            return lacking()
        if 'filter' in over:
            trace.append(('own', 'filter', v))
        if v == 3 or (over.get('filter') == 'other' and v is not None and v % 3 == 0):
            return lacking()
        if 'filter' in hooks:
            trace.append(('hook', 'filter', v))
            if hooks['filter'] == 'other' and v is not None and v % 4 == 2:
                return lacking()
        if 'validate' in over:
            trace.append(('own', 'validate', v))
        if v is not None and (not 0 <= v <= 50 or (over.get('validate') == 'other' and v % 7 == 1)):
            return trace, OUT, 'Invalid'
        if 'validate' in hooks:
            trace.append(('hook', 'validate', v))
            if hooks['validate'] == 'other' and v is not None and v % 4 == 2:
                return trace, OUT, None
        return trace, v, None

    name = 'f'
    cls = type('X', (pilo.Form,), {name: field if where in ('form', 'read') else F.List(field) if where == 'list' else F.Dict(F.String(), field)})
    for _ in range(4):
        alt = rng.choice([5, 8, '12', 40])
        values = [rng.choice([rng.randrange(-3, 60), str(rng.randrange(60)), None, 'x y', 3]) for _ in range(1 if where in ('form', 'read') else rng.randrange(4))]
        present = rng.random() < 0.85 or where in ('list', 'dict')
        w = dict(over=over, hooks=hooks, default=default, where=where, values=values, present=present, alt=alt)
        form = cls()
        log[:] = []
        if where in ('form', 'read'):
            data = dict({'alt': alt}, **({name: values[0]} if present else {}))
            trace, value, error = expect(present, values[0], alt)
            moved = 'other' == (hooks['resolve'] if 'resolve' in hooks else over.get('resolve'))
            path = 'alt' if moved else '' if 'resolve' in hooks else name
            want = ({} if value is OUT else {name: value}, [(error, path)] if error else [])
        else:
            data = {name: values if where == 'list' else dict(('k%d' % i, v) for i, v in enumerate(values))}
            trace, errors, out = [], [], []
            for i, v in enumerate(values):
                t, value, error = expect(True, v, alt)
                trace += t
                if error:
                    errors.append((error, '{0}[{1}]'.format(name, i) if where == 'list' else '{0}.k{1}'.format(name, i)))
                if value is not OUT:
                    out.append(('k%d' % i, value))
            want = ({name: [v for _, v in out] if where == 'list' else dict(out)}, errors)
        if where == 'read':
            try:
                with pilo.ctx(src=pilo.DefaultSource(data), errors=pilo.fields.CollectErrors(), form=form, parent=form):
                    form.f
                    got = dict(form)
            except AttributeError:
                got = dict(form)
            case.equal(got, want[0], 'own-read', 'the value read from a field of an own kind', **w)
        else:
            errors = form.map(data)
            case.equal((dict(form), outcome(errors)), want, 'own-values', 'the value of a field of an own kind', **w)
        case.equal(log, trace, 'own-steps', 'the steps of a field of an own kind', **w)
        case.event('own.where', where)
        case.distinct('own', tuple(sorted(over.items())), tuple(sorted(hooks.items())), default, where, tuple(map(str, values)))


def outcome(errors):
    return spec.outcome_errors(errors)


WORKLOADS = [
    ('extended', extended, 800, 20000),
    ('flat', flat, 2500, 40000),
    ('nested', nested, 2500, 40000),
    ('json', json_sources, 1000, 20000),
    ('raising', raising, 1000, 15000),
    ('signatures', signatures, 400, 3000),
    ('many', many.steps, 150, 3000),
]
