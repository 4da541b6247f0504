"""C25: hooks and errors know the field, form, location and surroundings they belong to."""
import gc
import weakref

from .. import many, engine
from ..gen import Gen
from ..spec import Builder, canon, outcome_errors, real_root

ID = 'C25'
RULE = 'distinct (form shape with its hooks, surroundings, errors); distinct trees of attached forms'
REQUIRED = ['judged'] + ['scene.' + s for s in ('munge', 'filter', 'validate', 'parse', 'compute', 'default', 'resolve')] + [
    'error-field.Missing', 'error-field.Invalid', 'own-class.Missing', 'own-class.Invalid', 'own-class.nested', 'surround.none', 'surround.variables',
    'surround.shadowed', 'surround.raised', 'in.List', 'in.Dict', 'in.Tuple', 'in.Group', 'in.SubForm', 'raised.many', 'raised.one', 'violation',
    'attach.shared.default', 'attach.shared.munge', 'attach.form', 'attach.poly', 'attach.null', 'attach.absent', 'attach.default', 'attach.early', 'attach.outside', 'attach.not-kept', 'attach.list', 'attach.deep',
    'attach.remapped', 'attach.undeclared', 'all-names']


# ---- what hooks and errors see

def scenes(case):
    """Each hook records the field, form, location and variables it sees; each error its field and class."""
    import pilo
    rng = case.rng
    kind = rng.choice(['native', 'native', 'located', 'strict', 'lenient'])
    g = Gen(rng, depth=rng.choice([1, 2, 2]), hooks=0.3, width=4, bad=0.2, absent=0.15, native=kind in ('native', 'located'))
    if rng.random() < 0.15:
        g.behaviours = dict((step, how + ['raiseK'] if step != 'resolve' else how) for step, how in g.behaviours.items())
    form = g.form().number()
    holders = {}
    for f in form.walk():
        for child in f.children():
            holders.setdefault(child.fid, set()).add(f.kind)
    for _ in range(3):
        data = g.form_data(form)
        b = Builder()
        marker, other = object(), object()
        own = rng.random() < 0.5
        variables = {}
        surround = rng.choice(['none', 'variables', 'shadowed'])
        if surround != 'none':
            variables['marker'] = marker
        if own:
            variables['Missing'] = type('OwnMissing', (pilo.Missing,), {})
            variables['Invalid'] = type('OwnInvalid', (pilo.Invalid,), {})

        def look(at):
            ctx = pilo.ctx
            fid = b.fid(ctx.field)
            return (fid, str(ctx.src_path), ctx.form is at, getattr(ctx, 'marker', None) is (marker if variables.get('marker') else None))

        b.look = look
        with pilo.ctx(**({'marker': other} if surround == 'shadowed' else {})):
            r = engine.run(form, data, kind, builder=b, around=variables)
        case.event('surround', surround)
        got = [s[:4] for s in b.scenes]
        w = dict(form=form, data=r.data, kind=kind)
        case.equal(got, r.model.scenes, 'scene', 'a hook sees another field or location than its own', **w)
        for s in b.scenes:
            case.event('scene', s[1])
            case.expect(s[4], 'scene-form', 'a hook sees another form than the one it is handed', scene=s, **w)
            case.expect(s[5], 'scene-variable', 'a hook does not see a variable pushed around the mapping', scene=s, **w)
            for kind_ in holders.get(s[0], ()):
                case.event('in', kind_)
        if r.got[0] != 'ok':
            case.event('surround', 'raised')
            continue
        errors = r.got[1]
        same_errors(case, errors, r, w)
        for e, want in zip(errors, r.model.errors):
            fid = b.fid(e.field)
            case.equal(fid, want.fid, 'error-field', 'an error names another field than the one that failed', error=str(e), failed=want, **w)
            case.event('error-field', want[0])
            expected = variables[want[0]] if own else getattr(pilo, want[0])
            case.expect(type(e) is expected, 'error-class', 'an error is not of the class the context names', error=repr(e), **w)
            if own:
                case.event('own-class', want[0])
                if '.' in want[1] or '[' in want[1]:
                    case.event('own-class.nested')
            if want[0] == 'Invalid':
                case.equal(str(e), '{0} - {1}'.format(want[1], e.violation), 'violation', 'an error does not say where and what', **w)
                case.event('violation')
            else:
                case.equal(str(e), '{0} - missing'.format(want[1]), 'violation', 'an error does not say where and what', **w)
        raised(case, b, r, variables, w)
        case.distinct(form.shape(), surround, own, tuple(r.model.errors))
    case.sample((form, r.data, r.model.scenes[:6], r.model.errors[:4]))


def same_errors(case, errors, r, w):
    import pilo
    kinds = [('Missing' if isinstance(e, pilo.Missing) else 'Invalid', str(e).split(' - ', 1)[0]) for e in errors]
    case.equal(kinds, list(r.model.errors), 'errors', 'other errors than the specification has', **w)


def raised(case, b, r, variables, w):
    """The same errors raised at once: their texts in one message."""
    import pilo
    if type(r.data) is not dict or w['kind'] != 'native':
        return
    del b.scenes[:]
    with pilo.ctx(**variables):
        try:
            r.cls(r.data)
        except pilo.fields.FormError as ex:
            texts = ['{0}: {1}'.format(type(e).__name__, e) for e in ex.field_errors]
            case.equal(len(ex.field_errors), len(r.model.errors), 'raised', 'another number of errors is raised', **w)
            for text in (str(ex), ex.message):
                place = -1
                for t in texts:
                    found = text.find(t, place + 1)
                    case.expect(found > place, 'raised', 'the message does not list each error in order', text=text, missing=t, **w)
                    place = found
            case.event('raised', 'many' if len(texts) > 1 else 'one')


# ---- attached parents

def attached(case):
    """Nested forms refer to the form they are mapped in."""
    import pilo
    F, rng = pilo.fields, case.rng
    depth = rng.randrange(1, 5)

    class Node(pilo.Form):

        def me(self):
            return id(self)

    class Animal(Node):
        kind = F.Type.abstract()
        n = F.Integer(default=7)

    class Cat(Animal):
        kind = F.Type.constant('cat')

    class Dog(Animal):
        kind = F.Type.constant('dog')

    leaf = type('Leaf', (Node,), {'n': F.Integer(default=7), 'seen': None})
    inner, plan = leaf, []
    seen = []
    for level in range(depth):
        how = rng.choice(['form', 'form', 'poly', 'plain']) if level == 0 else rng.choice(['form', 'form', 'plain'])
        body = {'label': F.String(default='label{0}'.format(level))}
        options = {} if how == 'plain' else {'attach_parent': True}
        chosen = rng.choice(['required', 'null', 'made'] if how != 'poly' else ['required', 'null'])
        if chosen == 'null':
            options['default'] = None
        elif chosen == 'made':
            options['default'] = inner
        if how == 'poly':
            child = F.PolymorphicSubForm(Animal.kind, **options)
        elif rng.random() < 0.3:
            child = F.SubForm(inner).options(**options)
        else:
            child = F.SubForm(inner, **options)
        early = rng.random() < 0.4
        if early:
            reader = F.String(default=pilo.NONE)

            @reader.compute
            def reader(self):
                try:
                    c = self.child
                except AttributeError:
                    return pilo.NONE
                seen.append((id(self), id(c), parent_id(c)))
                return 'read'

            body['reader'] = reader
        body['child'] = child
        inner = type('Level{0}'.format(level), (Node,), body)
        plan.append((how, chosen, early))
    plan.reverse()
    top = inner

    def data(level):
        if level == depth:
            return {}
        how, chosen, early = plan[level]
        roll = rng.random()
        if roll < 0.15:
            return {'child': None}
        if roll < 0.3 and chosen != 'required':
            return {}
        if how == 'poly':
            return {'child': {'kind': rng.choice(['cat', 'dog'])}}
        return {'child': data(level + 1)}

    given = data(0)
    w = dict(plan=plan, data=given)
    held = []
    for turn in range(2):
        form = top()
        try:
            errors = form.map(given if turn == 0 or any(p[1] == 'made' for p in plan) else held[-1])
        except AttributeError as ex:
            case.fail('attach-escapes', 'mapping escapes with {0!r}'.format(ex), **w)
        case.equal(outcome_errors(errors), [], 'attach-errors', 'valid nested forms fail', **w)
        check_tree(case, form, plan, given, w)
        if turn:
            case.event('attach.remapped')
        held.append(form)
    for me, child, parent in seen:
        case.event('attach.early')
    owners = dict((c, p) for _, c, p in seen)
    for form in held:
        at = form
        for how, chosen, early in plan:
            child = dict.get(at, 'child')
            if child is None:
                break
            if id(child) in owners and how != 'plain':
                case.equal(owners[id(child)], id(at), 'attach-early', 'a form read early refers to another parent', **w)
            at = child
    # read outside of mapping
    how, chosen, early = plan[0]
    if chosen == 'made' and how == 'form':
        form = top()
        child = form.child
        case.equal(parent_id(child), id(form), 'attach-outside', 'a form made by reading a field refers to another parent', **w)
        case.event('attach.outside')
    # the reference does not keep the parent alive
    form = held.pop()
    first = dict.get(form, 'child')
    if first is not None and plan[0][0] != 'plain' and 'child' in given:
        watch = weakref.ref(form)
        at = form = child = None
        gc.collect()
        if watch() is None:
            try:
                first.parent.me()
                case.fail('attach-kept', 'the parent is gone, and yet it answers', **w)
            except ReferenceError:
                pass
            case.event('attach.not-kept')
        else:
            holders = [type(o).__name__ for o in gc.get_referrers(watch())]
            case.fail('attach-kept', 'a nested form keeps the form it is in alive', holders=holders, **w)
    case.distinct('attached', tuple(plan), repr(given))


def shared(case):
    """One form object mapped into several refers to the last of them."""
    import pilo
    F, rng = pilo.fields, case.rng

    class Node(pilo.Form):

        def me(self):
            return id(self)

    leaf = type('Leaf', (Node,), {'n': F.Integer(default=7)})
    kept = leaf({'n': 5})
    how = rng.choice(['default', 'munge', 'default-hook', 'compute', 'filtered'])
    child = F.SubForm(leaf, attach_parent=True, **({'default': kept} if how in ('default', 'filtered') else {}))
    if how == 'munge':
        child.munge(lambda self, value: kept)
    elif how == 'default-hook':
        @child.default
        def child_default(self):
            return kept
    elif how == 'compute':
        @child.compute
        def child_compute(self):
            return kept
    elif how == 'filtered':
        child.filter(lambda self, value: False)
    body = {'z': F.Integer(default=0), 'child': child}
    if rng.random() < 0.5:
        body['deep'] = F.SubForm(type('Mid', (Node,), {'child': child.clone()}), attach_parent=True, default=None)
    cls = type('Top', (Node,), body)
    order = [f.name for f in cls.fields]
    forms = []
    for i in range(rng.randrange(2, 5)):
        form = rng.choice(forms) if forms and rng.random() < 0.3 else cls()
        data = {} if how in ('default', 'default-hook', 'compute') else {'child': {'n': i}}
        if rng.random() < 0.4 and 'deep' in body:
            data['deep'] = dict(data)
        case.equal(outcome_errors(form.map(data)), [], 'shared-errors', 'valid nested forms fail', how=how, data=data)
        at = form
        if dict.get(form, 'deep') is not None and order.index('deep') > order.index('child'):
            at = form['deep']
            case.equal(parent_id(at), id(form), 'shared-parent', 'a nested form refers to another parent', how=how, data=data)
        case.expect(form['child'] is kept and at['child'] is kept, 'shared-form', 'another form was stored', how=how, data=data)
        case.equal(parent_id(kept), id(at), 'shared-parent', 'a form mapped again refers to another parent', how=how, data=data, turn=i)
        forms.append(form)
        case.event('attach.shared', how)
        case.distinct('shared', how, i, repr(data), 'deep' in body)


def parent_id(form):
    """The identity of the form referred to, None for none."""
    parent = getattr(form, 'parent', None)
    return None if parent is None else parent.me()


def check_tree(case, form, plan, given, w):
    at, level = form, 0
    for how, chosen, early in plan:
        if 'child' not in at:
            case.event('attach.absent')
            return
        child = at['child']
        if child is None:
            case.event('attach.null')
            return
        if how == 'plain':
            case.expect(not hasattr(child, 'parent'), 'attach-undeclared', 'a form has a parent it did not declare', **w)
            case.event('attach.undeclared')
        else:
            case.expect(hasattr(child, 'parent'), 'attach-none', 'a nested form does not refer to its parent', level=level, **w)
            case.equal(parent_id(child), id(at), 'attach-parent', 'a nested form refers to another parent', level=level, **w)
            case.expect(child.parent.label == at['label'], 'attach-parent', 'the parent has no such field', level=level, **w)
            case.event('attach', 'deep' if level else how)
            if not (isinstance(given, dict) and 'child' in given):
                case.event('attach.default')
        given = given.get('child') if isinstance(given, dict) else None
        at, level = child, level + 1


def listed(case):
    """Items of containers that attach their parent are mapped like others."""
    import pilo
    F, rng = pilo.fields, case.rng
    X = type('X', (pilo.Form,), {'n': F.Integer()})

    def item():
        return F.SubForm(X, attach_parent=True, **rng.choice([{}, {'default': None}, {'nullable': False}]))

    plain = lambda f: F.SubForm(X, **dict((k, v) for k, v in [('default', None)] if f.default is None))
    l, d, t = item(), item(), item()
    with_parent = type('P', (pilo.Form,), {'l': F.List(l, default=list), 'd': F.Dict(F.String(), d, default=dict), 't': F.Tuple([t], default=())})
    value = lambda: rng.choice([{'n': 1}, {'n': 'x'}, {}, None, 5, {'n': rng.randrange(9)}])
    data = {'l': [value() for _ in range(rng.randrange(4))], 'd': dict((k, value()) for k in rng.sample('abc', 2)), 't': [value()]}
    for k in list(data):
        if rng.random() < 0.2:
            del data[k]
    without = type('Q', (pilo.Form,), {'l': F.List(copy_of(l, X), default=list), 'd': F.Dict(F.String(), copy_of(d, X), default=dict),
                                       't': F.Tuple([copy_of(t, X)], default=())})
    outs = []
    for cls in (with_parent, without):
        form, got = real_root(cls, data)
        case.expect(got[0] == 'ok', 'attach-escapes', 'mapping escapes', got=got[1:], data=data)
        outs.append((outcome_errors(got[1]), canon(dict(dict.items(form)))))
    case.equal(outs[0], outs[1], 'attach-listed', 'attaching the parent changes what is mapped', data=data)
    case.event('attach.list')
    case.distinct('listed', repr(data))


def copy_of(field, X):
    import pilo
    options = {}
    if field.default is None:
        options['default'] = None
    if field.nullable is False:
        options['nullable'] = False
    return pilo.fields.SubForm(X, **options)


def names(case):
    """Every name a module announces is there, and is the same through each way to it."""
    import importlib
    import pilo
    for module in ('pilo', 'pilo.source', 'pilo.fields'):
        m = importlib.import_module(module)
        for name in m.__all__:
            case.expect(hasattr(m, name), 'names', 'a name the module announces does not exist', module=module, name=name)
    case.expect(pilo.Field is pilo.fields.Field and pilo.Form is pilo.fields.Form, 'names', 'a name means two things')
    case.event('all-names')


WORKLOADS = [
    ('scenes', scenes, 2000, 50000),
    ('attached', attached, 800, 20000),
    ('listed', listed, 400, 8000),
    ('shared', shared, 400, 8000),
    ('names', names, 1, 1),
    ('many', many.hooks, 150, 3000),
]
