"""
Random generation of form specifications (pv.spec) and of data for them.
"""
import datetime
import decimal
import random
import re
import uuid

from . import spec
from .spec import ABSENT, OWN


NAMES = ['a', 'b', 'c', 'd', 'e', 'name', 'kind_', 'x1', 'Zed', 'items', 'keys', 'values', 'update', 'pop']
KEYS = ['k1', 'k2', 'k3', 'q', 'w', 'r r', 'é', 'K1', 'a-b', '0', '']
WORDS = ['', 'a', 'b', 'ab', 'abc', 'abcd', 'zz', 'A', 'é', '5', '05', '-1', '1.5', '1e2', 'true', 'F', '0', 'nan',
         'a b', 'x' * 12, '2015-03-09', '9f3e7c1a-8d4b-4a6e-9b1f-0c2d3e4f5a6b', '\n', 'null', '２']
CHAIN_PATTERNS = [r'a+', r'[a-c]{2}', r'\d+', r'$', r'.*b', r'(a|b)c?$']


def junk(rng, native=True, depth=2):
    """Anything at all."""
    roll = rng.randrange(16 if native else 10)
    if roll == 0:
        return rng.choice(WORDS)
    if roll == 1:
        return rng.choice([0, 1, -1, 2, 7, 100, 2 ** 63, -2 ** 70])
    if roll == 2:
        return rng.choice([0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 100.0])
    if roll == 3:
        return rng.choice([True, False])
    if roll == 4:
        return None
    if roll in (5, 6) and depth > 0:
        return [junk(rng, native, depth - 1) for _ in range(rng.randrange(4))]
    if roll in (7, 8) and depth > 0:
        return dict((rng.choice(NAMES + KEYS), junk(rng, native, depth - 1)) for _ in range(rng.randrange(4)))
    if roll == 10:
        return datetime.date(2000 + rng.randrange(40), 1 + rng.randrange(12), 1 + rng.randrange(28))
    if roll == 11:
        return datetime.datetime(2000 + rng.randrange(40), 1, 2, rng.randrange(24))
    if roll == 12:
        return rng.choice([decimal.Decimal('1.50'), decimal.Decimal('-3'), decimal.Decimal('1E+3')])
    if roll == 13:
        return uuid.UUID(int=rng.getrandbits(128))
    if roll == 14 and depth > 0:
        return tuple(junk(rng, native, depth - 1) for _ in range(rng.randrange(3)))
    if roll == 15:
        return rng.choice([b'', b'ab', 1j])
    return rng.choice(WORDS + [3, 4.0])


class Gen(object):
    """
    :param native: values of native types other than JSON's.
    :param hooks: chance of each hook.
    :param steps: hooks that may be attached.
    :param bad, absent, null: chances for each input value.
    """

    def __init__(self, rng, depth=2, native=True, hooks=0.15, steps=None, bad=0.15, absent=0.1, null=0.05,
                 defaults=0.35, constraints=0.5, ignores=0.15, translates=0.15, kinds=None, behaviours=None,
                 names=NAMES, keys=KEYS, renames=0.2, odd_keys=False, width=5, extras=0.3, share=True,
                 tags=(), nullables=0.3):
        self.__dict__.update(locals())
        self.count = 0
        self.used_forms = []
        if steps is None:
            self.steps = ['munge', 'filter', 'validate', 'parse', 'compute', 'default', 'resolve']
        if behaviours is None:
            self.behaviours = spec.HOOK_CHOICES

    def hit(self, chance):
        return self.rng.random() < chance

    # ---- fields

    LEAVES = ['String', 'String', 'Integer', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'UUID', 'Field']
    NESTED = ['List', 'List', 'Tuple', 'Dict', 'SubForm', 'SubForm', 'Group']

    def form(self, depth=None, width=None):
        rng = self.rng
        depth = self.depth if depth is None else depth
        if self.share and self.used_forms and depth < self.depth and self.hit(0.1):
            old = rng.choice(self.used_forms)
            if old[0] <= depth:
                return old[1]
        self.count += 1
        name = 'F{0}'.format(self.count)
        fields = {}
        names = list(self.names)
        rng.shuffle(names)
        for key in names[:rng.randrange(1, (width or self.width) + 1)]:
            fields[key] = self.field(depth, 'form')
        form = spec.Form(name, fields)
        self.used_forms.append((depth, form))
        return form

    def pick_kind(self, depth, where):
        kinds = self.LEAVES + (self.NESTED * 2 if depth > 0 else [])
        if self.kinds is not None:
            kinds = [k for k in kinds if k in self.kinds] or ['Field']
        if where == 'key':
            return self.rng.choice(['String', 'String', 'Field'])
        kind = self.rng.choice(kinds)
        if kind == 'Group' and where == 'form':
            # a group takes its keys from the form's own mapping
            pass
        return kind

    def options(self, kind, where):
        rng, o = self.rng, {}
        if where == 'form' and self.hit(self.renames):
            o['src'] = rng.choice(self.keys)
        if where in ('item',) and self.hit(0.06):
            o['src'] = rng.choice(self.keys)
        if self.hit(self.nullables):
            o['nullable'] = rng.choice([True, False])
        if where != 'key' and self.hit(self.defaults):
            how = rng.choice(['literal', 'literal', 'callable', 'none', 'optional', 'literal-none'])
            if how == 'literal-none':
                o['default'] = ('literal', None)
            elif how in ('none', 'optional'):
                o['default'] = (how, None)
            else:
                value = rng.choice([5, 'dflt', 1.25, '', 0, True, ['a'], {'k': 'v'}])
                o['default'] = (how, value)
        o['chain'] = self.hit(0.3)
        if self.tags:
            o['tags'] = [t for t in self.tags if self.hit(0.4)]
        if self.hit(self.ignores) and kind in ('String', 'Integer', 'Float', 'Boolean', 'Field'):
            pool = {'String': ['', 'a', 'zz', 'abc'], 'Integer': [0, 5, 7], 'Float': [0.0, 1.5], 'Boolean': [False],
                    'Field': ['', 'a', 5]}[kind]
            if self.hit(0.2):
                pool = pool + [None]
            o['ignore'] = rng.sample(pool, rng.randrange(1, len(pool) + 1))
        if self.hit(self.translates) and kind in ('String', 'Integer'):
            pool = {'String': ['a', 'b', 'zz', '5'], 'Integer': [0, 1, 5, 7]}[kind]
            to = {'String': ['A', 'a', 'long text', ''], 'Integer': [100, 7, -4]}[kind]
            o['translate'] = dict((k, rng.choice(to)) for k in rng.sample(pool, 2) + ([None] if self.hit(0.2) else []))
        hooks = {}
        for step in self.steps:
            if not self.hit(self.hooks):
                continue
            if kind == 'Group' and step in ('resolve', 'default') or step == 'resolve' and where != 'form':
                continue
            if step in ('compute', 'parse', 'default') and where == 'key':
                continue
            if step == 'parse' and kind in ('SubForm', 'List', 'Tuple', 'Dict', 'Group') and self.hit(0.6):
                continue
            if step == 'default':
                o.pop('default', None)
                o['default'] = ('hook', None)
            hooks[step] = rng.choice(self.behaviours[step])
            if step == 'resolve':
                o['resolve_key'] = rng.choice(self.keys + self.names)
        if hooks:
            o['hooks'] = hooks
        return o

    def bounds(self, pool):
        lo, hi = None, None
        if self.hit(self.constraints):
            lo = self.rng.choice(pool)
        if self.hit(self.constraints):
            hi = self.rng.choice(pool)
        out = {}
        if lo is not None:
            out['lo'] = lo
        if hi is not None:
            out['hi'] = hi
        if self.hit(0.5):
            out['both'] = True
        return out

    def field(self, depth, where):
        rng = self.rng
        kind = self.pick_kind(depth, where)
        o = self.options(kind, where)
        f = getattr(self, 'make_' + kind)(depth, where, o)
        if 'compute' in f.hooks or 'parse' in f.hooks:
            # such a hook may yield a value of another type than the field's:
            # what its type's own options then do is not claimed
            f.translate = {}
            if f.kind in ('String', 'List', 'Dict'):
                f.c = dict((k, v) for k, v in f.c.items() if k in ('allow_field', 'kw', 'bare_form'))
        return f

    def make_Field(self, depth, where, o):
        return spec.AnyF(**o)

    def make_String(self, depth, where, o):
        rng = self.rng
        if self.hit(self.constraints):
            which = rng.sample(['len', 'min', 'max', 'exact', 'pattern', 'alphabet', 'choices'], rng.choice([1, 1, 1, 2, 3]))
            if 'len' in which:
                o['length'] = sorted([rng.randrange(0, 4), rng.randrange(1, 6)])
                if self.hit(0.5):
                    o['length'] = tuple(o['length'])
            elif 'exact' in which:
                o['length'] = rng.randrange(0, 4)
            else:
                if 'min' in which:
                    o['min_length'] = rng.randrange(0, 4)
                if 'max' in which:
                    o['max_length'] = rng.choice([0, 1, 2, 3, 4, 4, 30, 100])
            if 'pattern' in which:
                o['pattern'] = rng.choice(CHAIN_PATTERNS)
                o['compiled'] = self.hit(0.5)
            if 'alphabet' in which:
                o['alphabet'] = rng.choice(['ab', 'abc5', 'abc5', 'xyz', ['a', 'b']])
            if 'choices' in which:
                o['choices'] = rng.choice([list, list, tuple, dict.fromkeys])(rng.sample(WORDS, rng.randrange(1, 5)))
        return spec.StringF(**o)

    def make_Integer(self, depth, where, o):
        o.update(self.bounds([-1, 0, 1, 5, 7, 100]))
        return spec.IntegerF(**o)

    def make_Float(self, depth, where, o):
        o.update(self.bounds([-1.0, 0, 0.5, 1.5, 100]))
        return spec.FloatF(**o)

    def make_Decimal(self, depth, where, o):
        o.update(self.bounds([decimal.Decimal('-1'), 0, decimal.Decimal('1.5'), 100]))
        return spec.DecimalF(**o)

    def make_Boolean(self, depth, where, o):
        o['alias'] = self.rng.choice(['Boolean', 'Bool'])
        return spec.BooleanF(**o)

    def make_Date(self, depth, where, o):
        return spec.DateF(**o)

    def make_UUID(self, depth, where, o):
        return spec.UUIDF(**o)

    def make_List(self, depth, where, o):
        rng = self.rng
        o.update(self.bounds([0, 1, 2, 3]))
        o['allow_field'] = self.hit(0.25)
        o['kw'] = self.hit(0.2)
        o['bare_form'] = self.hit(0.4)
        return spec.ListF(self.field(depth - 1, 'item'), **o)

    def make_Tuple(self, depth, where, o):
        o['splat'] = self.hit(0.4)
        o['tuple'] = self.hit(0.5)
        n = self.rng.randrange(1, 4)
        return spec.TupleF([self.field(depth - 1, 'tuple') for _ in range(n)], **o)

    def make_Dict(self, depth, where, o):
        rng = self.rng
        if self.hit(self.constraints * 0.5):
            o['required_keys'] = rng.sample(['k1', 'a', 'q'], rng.randrange(1, 3))
            o['as_set'] = self.hit(0.5)
        if self.hit(self.constraints * 0.5):
            o['max_keys'] = rng.randrange(0, 4)
        if self.hit(0.15):
            o['key_filter'] = rng.randrange(3)
        return spec.DictF(self.field(0, 'key'), self.field(depth - 1, 'value'), **o)

    def make_SubForm(self, depth, where, o):
        o['form_last'] = self.hit(0.3)
        if self.hit(0.15):
            o['unmapped'] = self.rng.choice(['ignore', 'capture'])
        if where == 'form' and self.hit(0.1):
            o['src'] = None
            o['flat'] = self.hit(0.5)
        return spec.SubFormF(self.form(depth - 1), **o)

    def make_Group(self, depth, where, o):
        rng = self.rng
        o.pop('src', None)
        o.pop('resolve_key', None)
        o['nested'] = self.hit(0.3)
        if where == 'form' or where == 'item' or True:
            pats = []
            for _ in range(rng.randrange(1, 4)):
                f = self.field(depth - 1, 'group')
                f.src = OWN
                if self.hit(0.5):
                    pats.append((rng.choice(self.keys[:4] + self.names[:3]), f))
                else:
                    pats.append((('re', rng.choice([r'k(\d)', r'(?P<n>[a-e])$', r'.*', r'(q|w)', r'x(\d)?', r'pre\d', r'[a-e]{2}$'])), f))
            o['bare'] = not any(isinstance(p, tuple) for p, _ in pats) and self.hit(0.5)
            return spec.GroupF(pats, **o)

    # ---- data

    def value(self, f):
        """Something for field `f`; ABSENT to leave it out."""
        rng = self.rng
        roll = rng.random()
        if roll < self.absent:
            return ABSENT
        roll -= self.absent
        if roll < self.null:
            return None
        roll -= self.null
        if roll < self.bad:
            return junk(rng, self.native)
        if f.ignore and self.hit(0.3):
            return rng.choice(f.ignore)
        if f.translate and self.hit(0.4):
            return rng.choice(list(f.translate))
        return getattr(self, 'good_' + f.kind)(f)

    def present(self, f):
        for _ in range(5):
            v = self.value(f)
            if v is not ABSENT:
                break
        else:
            v = None
        if f.src is not OWN and f.src is not None:
            return {f.src: v} if not self.hit(0.2) else {}
        return v

    def good_Field(self, f):
        return junk(self.rng, self.native)

    def good_String(self, f):
        rng = self.rng
        if 'choices' in f.c and self.hit(0.7):
            return rng.choice(list(f.c['choices']))
        if self.hit(0.04):
            # long ones, with something else near the end
            n = rng.choice([20, 31, 65, 101, 130, 300])
            text = ''.join(rng.choice('ab') for _ in range(n))
            return text + rng.choice(['', 'c', 'x', '5']) + rng.choice(['', 'a'])
        if self.hit(0.7):
            return ''.join(rng.choice('abc5x') for _ in range(rng.randrange(6)))
        return rng.choice(WORDS)

    def near(self, f, pool):
        edges = [e for e in (f.c.get('lo'), f.c.get('hi')) if e is not None]
        if edges and self.hit(0.6):
            return self.rng.choice(edges) + self.rng.choice([-1, 0, 0, 1])
        return self.rng.choice(pool)

    def good_Integer(self, f):
        v = self.near(f, [0, 1, 3, 5, 7, 42, -9])
        return self.rng.choice([v, v, v, float(v), str(v), ' {0} '.format(v)])

    def good_Float(self, f):
        v = self.near(f, [0.0, 1.5, 3, -2.25, 5])
        return self.rng.choice([v, float(v), str(v)])

    def good_Decimal(self, f):
        v = self.near(f, [0, 1, decimal.Decimal('2.50'), decimal.Decimal('-7')])
        return self.rng.choice([v if self.native else float(v), str(v), int(v)])

    def good_Boolean(self, f):
        return self.rng.choice([True, False, 1, 0, 't', 'F', 'true', 'False', '1', '0'])

    def good_Date(self, f):
        d = datetime.date(1990 + self.rng.randrange(60), 1 + self.rng.randrange(12), 1 + self.rng.randrange(28))
        return d if self.native and self.hit(0.3) else d.isoformat()

    def good_UUID(self, f):
        u = uuid.UUID(int=self.rng.getrandbits(128))
        return u if self.native and self.hit(0.3) else self.rng.choice([str(u), u.hex, '{' + str(u) + '}'])

    def good_List(self, f):
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 4])
        if f.field.kind in ('String', 'Integer', 'Float', 'Boolean', 'Field') and self.hit(0.03):
            n = self.rng.choice([9, 12, 40])
        if f.c.get('allow_field') and self.hit(0.3):
            return self.present(f.field)
        out = [self.present(f.field) for _ in range(n)]
        return tuple(out) if self.native and self.hit(0.1) else out

    def good_Tuple(self, f):
        out = [self.present(g) for g in f.fields]
        if self.hit(0.1):
            out = out[:-1] if self.hit(0.5) else out + [1]
        return tuple(out) if self.native and self.hit(0.4) else out

    def good_Dict(self, f):
        out = {}
        keys = ['k1', 'a', 'q', 'zz', 'b.c', 'x()', '']
        if self.odd_keys and self.native:
            keys = keys + [5, 1.5, None, (1, 2)][:3]
        for _ in range(self.rng.choice([0, 1, 2, 2, 3, 4])):
            out[self.rng.choice(keys)] = self.present(f.value_field)
        for k in f.c.get('required_keys', []):
            if self.hit(0.8):
                out[k] = self.present(f.value_field)
        return out

    def good_SubForm(self, f):
        return self.form_data(f.form)

    def good_Group(self, f):
        out = {}
        self.group_data(f, out)
        return out

    def group_data(self, f, out):
        for pattern, field in f.patterns:
            for _ in range(self.rng.randrange(3)):
                if isinstance(pattern, tuple):
                    key = self.rng.choice({
                        r'k(\d)': ['k1', 'k2', 'k9'], r'(?P<n>[a-e])$': ['a', 'c', 'e'], r'.*': ['zzz', 'k3'],
                        r'(q|w)': ['q', 'w'], r'x(\d)?': ['x', 'x1', 'x5'],
                        r'pre\d': ['pre1', 'pre2-and-more', 'not-a-pre3', 'one-that-is-longer-than-pre4', ' pre5', 'pre'],
                        r'[a-e]{2}$': ['ab', 'abc', 'ee', 'ab\n', 'a-rather-long-one-to-be-ab'],
                    }[pattern[1]])
                else:
                    key = pattern
                v = self.value(field)
                if v is not ABSENT:
                    out.setdefault(key, v)

    def form_data(self, form):
        out = {}
        order = list(form.fields.items())
        if self.hit(0.5):
            self.rng.shuffle(order)
        for key, f in order:
            if f.kind == 'Group':
                self.group_data(f, out)
                continue
            if f.src is None:
                v = self.value(f)
                if isinstance(v, dict):
                    for k in v:
                        out.setdefault(k, v[k])
                continue
            v = self.value(f)
            if v is not ABSENT:
                src = key if f.src is OWN else f.src
                if f.hooks.get('resolve') == 'other' and self.hit(0.8):
                    src = f.resolve_key
                out[src] = v
        while self.hit(self.extras):
            out.setdefault(self.rng.choice(self.keys + self.names + ['extra', 'x()', 'a.b']), junk(self.rng, self.native))
        return out


def mutate_order(rng, data):
    """The same mapping with another key order."""
    keys = list(data)
    rng.shuffle(keys)
    return dict((k, data[k]) for k in keys)
