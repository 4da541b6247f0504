"""C22: code fields yield the named object or the namespace the code defines."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import types

from .. import many
from ..spec import outcome_errors

ID = 'C22'
RULE = 'distinct (text given, where the field stands, outcome)'
REQUIRED = ['judged'] + ['import.' + k for k in ('top', 'package', 'deep', 'dotted-attribute', 'loaded', 'fresh', 'callable', 'falsy', 'null', 'stdlib')] + [
    'refused.' + k for k in ('module', 'attribute', 'dotted-attribute', 'raises', 'syntax', 'neither', 'relative', 'no-module', 'empty', 'block-raises',
                             'block-syntax', 'block-name', 'block-import', 'submodule')] + [
    'block.plain', 'block.empty', 'block.function', 'block.class', 'block.shadow', 'block.import', 'block.global', 'block.crlf', 'block.unicode',
    'block.docstring', 'block.loop', 'block.delete', 'fresh', 'independent', 'outside', 'pass.number', 'pass.container', 'pass.null', 'pass.object',
    'at.form', 'at.list', 'at.dict', 'at.sub', 'at.tuple', 'at.json']

_unique = itertools.count(1)


def place(case, text_or_value, expected, why, **w):
    """Maps it at one of several places; returns what was stored, or None after judging a refusal."""
    import pilo
    F, rng = pilo.fields, case.rng
    where = rng.choice(['form', 'form', 'list', 'dict', 'sub', 'tuple'] + (['json'] if isinstance(text_or_value, str) else []))
    inner = type('Inner', (pilo.Form,), {'code': F.Code()})
    other = 5
    if where in ('form', 'json'):
        cls, data, path, get = inner, {'code': text_or_value}, 'code', lambda f: dict.get(f, 'code', 'LEFT OUT')
    elif where == 'list':
        cls, data, path = type('L', (pilo.Form,), {'many': F.List(F.Code())}), {'many': [other, text_or_value, other]}, 'many[1]'
        get = lambda f: f['many'][1] if len(f['many']) == 3 else 'LEFT OUT'
    elif where == 'dict':
        cls, data, path = type('D', (pilo.Form,), {'by': F.Dict(F.String(), F.Code())}), {'by': {'x': text_or_value, 'y': other}}, 'by.x'
        get = lambda f: f['by'].get('x', 'LEFT OUT')
    elif where == 'sub':
        cls, data, path = type('S', (pilo.Form,), {'sub': F.SubForm(inner)}), {'sub': {'code': text_or_value}}, 'sub.code'
        get = lambda f: dict.get(f, 'sub', {'code': 'LEFT OUT'})['code']
    else:
        cls, data, path = type('T', (pilo.Form,), {'pair': F.Tuple(F.Integer(), F.Code())}), {'pair': [other, text_or_value]}, 'pair[1]'
        get = lambda f: f['pair'][1] if len(f['pair']) == 2 else 'LEFT OUT'
    src = data
    if where == 'json':
        import json
        src = pilo.source.JsonSource(json.dumps(data), strict=rng.random() < 0.5)
    form = cls()
    errors = outcome_errors(form.map(src))
    case.event('at', where)
    case.distinct(repr(text_or_value)[:200], where, why)
    w.update(where=where, given=text_or_value)
    if expected == 'refused':
        got = get(form)
        case.equal((errors, got if isinstance(got, str) else repr(got)), ([('Invalid', path)], 'LEFT OUT'), why,
                   'it was not reported as invalid, once, or was stored all the same', **w)
        return None
    case.equal(errors, [], why, 'it was refused', **w)
    return get(form)


# ---- modules on disk

NAMES = ['x', 'value', 'Thing', 'f', '_private', 'é', 'a1', 'A']
PACKAGE_BODY = '''
class Box(object):
    pass

{0} = Box()
{0}.inner = Box()
{0}.inner.leaf = ['the leaf of', __name__]
{0}.none = None
nothing = None
table = {{'k': 1, 'z': {{}}}}
zero = 0
empty = []
def function(x=1):
    return x
class Kind(object):
    attribute = object()
'''


class Modules(object):
    """A scratch folder of modules with names of their own."""

    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix='pv-c22-')
        self.tag = 'pvc22_{0}_{1}'.format(os.getpid(), next(_unique))
        self.made = []

    def write(self, parts, text):
        path = os.path.join(self.dir, *parts)
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, 'w', encoding='utf-8') as fo:
            fo.write(text)

    def close(self):
        for name in [n for n in sys.modules if n == self.tag or n.startswith(self.tag)]:
            del sys.modules[name]
        shutil.rmtree(self.dir)


def modules(case):
    rng = case.rng
    mods = Modules(rng)
    path = list(sys.path)
    written = sys.dont_write_bytecode
    try:
        sys.dont_write_bytecode = True
        name = mods.tag
        attr = rng.choice(NAMES)
        body = PACKAGE_BODY.format(attr)
        mods.write([name + '.py'], '# -*- coding: utf-8 -*-\n' + body)
        mods.write([name + '_pkg', '__init__.py'], body)
        mods.write([name + '_pkg', 'mid', '__init__.py'], body)
        mods.write([name + '_pkg', 'mid', 'low.py'], body)
        mods.write([name + '_bad.py'], rng.choice(['raise RuntimeError("no")', 'x = 1 / 0', '{}["k"]', 'import {0}_absent'.format(name), 'assert False', 'raise ValueError']))
        mods.write([name + '_syntax.py'], rng.choice(['x = = 1', 'def f(:\n', '(', 'return 5\n', '\tx\n  y']))
        sys.path.insert(0, mods.dir)
        importlib.invalidate_caches()
        places = {'top': name, 'package': name + '_pkg', 'deep': rng.choice([name + '_pkg.mid', name + '_pkg.mid.low'])}
        for kind in rng.sample(sorted(places), 3):
            module = places[kind]
            loaded = rng.random() < 0.5
            if loaded:
                importlib.import_module(module)
            case.event('import', 'loaded' if loaded else 'fresh')
            for what in rng.sample(['plain', 'dotted', 'callable', 'class', 'falsy', 'null', 'dotted-null', 'absent', 'dotted-absent'], 5):
                dotted = {'plain': attr, 'dotted': rng.choice([attr + '.inner', attr + '.inner.leaf', 'Kind.attribute']), 'callable': 'function', 'class': 'Kind',
                          'falsy': rng.choice(['zero', 'empty']), 'null': 'nothing', 'dotted-null': attr + '.none', 'absent': 'no_such',
                          'dotted-absent': rng.choice([attr + '.no_such', 'no_such.inner', attr + '.inner.leaf.more', 'function.x', 'table.k', 'table.z.k', 'empty.0'])}[what]
                text = '{0}:{1}'.format(module, dotted)
                if 'absent' in what:
                    place(case, text, 'refused', 'dotted-attribute' if '.' in dotted else 'attribute')
                    case.event('refused', 'dotted-attribute' if '.' in dotted else 'attribute')
                    continue
                got = place(case, text, 'stored', 'import')
                want = sys.modules[module]
                for part in dotted.split('.'):
                    want = getattr(want, part)
                case.expect(got is want, 'import', 'another object was stored than the module has', text=text, stored=repr(got), has=repr(want))
                case.event('import', kind)
                case.event('import', {'plain': 'top' if kind == 'top' else kind, 'dotted': 'dotted-attribute', 'dotted-null': 'null', 'class': 'callable'}.get(what, what))
        for bad, why in rng.sample([
                ('{0}_absent:x'.format(name), 'module'), ('{0}.sub:x'.format(name), 'module'), ('{0}_pkg.none.low:x'.format(name), 'module'),
                ('{0}_bad:x'.format(name), 'raises'), ('{0}_syntax:x'.format(name), 'syntax'), ('{0}_pkg:no_sub'.format(name), 'submodule'), ('{0}_pkg:mid.no_such'.format(name), 'submodule'), ('{0}_pkg.mid:low.no_such'.format(name), 'submodule'),
                ('{0}_pkg:mid.low.no_such'.format(name), 'submodule'),
                ('.{0}:x'.format(name), 'relative'), ('..:x', 'relative'), ('.:x', 'relative'), (attr, 'no-module'), (name, 'no-module'),
                (name + ':', 'neither'), (':' + attr, 'neither'), (name + '::' + attr, 'neither'), (name + ' : ' + attr, 'neither'), (name + ':' + attr + ' ', 'neither'),
                (name + ':' + attr + '()', 'neither'), (name + ':' + attr + ':inner', 'neither'), ('', 'empty'), (' ', 'neither'), ('x = 1', 'neither'),
                ('import os', 'neither'), (name + '/' + attr, 'neither'), (name + ':' + attr + '.', 'attribute'), (name + ':.' + attr, 'attribute'),
                (name + ':' + attr + '..inner', 'attribute'), ('.:.', 'relative'), ('\x00:x', 'neither')], 6):
            place(case, bad, 'refused', why)
            case.event('refused', why)
        case.sample((mods.tag, attr))
    finally:
        sys.dont_write_bytecode = written
        sys.path[:] = path
        mods.close()


STDLIB = ['os:path', 'os.path:join', 'collections:OrderedDict', 'collections:OrderedDict.fromkeys', 'json:dumps', 'json.decoder:JSONDecoder', 'sys:modules',
          'string:ascii_letters', 'decimal:Decimal', 'datetime:datetime.max', 'builtins:len', 'math:pi', 'unittest:TestCase.assertTrue', 'xml.dom:Node.TEXT_NODE']


def stdlib(case):
    rng = case.rng
    for text in rng.sample(STDLIB, 6):
        got = place(case, text, 'stored', 'import')
        name, attr = text.split(':')
        want = importlib.import_module(name)
        for part in attr.split('.'):
            want = getattr(want, part)
        case.expect(got is want or got == want and type(got) is type(want), 'import', 'another object was stored than the module has', text=text, stored=repr(got))
        case.event('import.stdlib')


# ---- blocks

def pieces(rng):
    """(kind, text) of one statement group."""
    n = rng.randrange(100)
    return rng.choice([
        ('plain', 'x{0} = {0}\n'.format(n)),
        ('plain', 'x{0}, y{0} = "a", [1, {{"k": 2}}]\n'.format(n)),
        ('plain', 'x = {0}; y = x + 1\n'.format(n)),
        ('function', 'def f{0}(a, b=2):\n    return a + b + {0}\n'.format(n)),
        ('function', 'k{0} = {0}\ndef g{0}():\n    return k{0} + 1\n'.format(n)),
        ('global', 'total = {0}\ndef bump():\n    global total\n    total += 1\n    return total\nbump()\n'.format(n)),
        ('class', 'class C{0}(object):\n    attr = {0}\n    def m(self):\n        return self.attr\n'.format(n)),
        ('shadow', rng.choice(['len = {0}\n', 'Form = {0}\n', 'os = {0}\n', 'module = {0}\n', 'name = {0}\n', 'code = {0}\n', 'value = {0}\n', 'cls = {0}\n', 'self = {0}\n', 'path = {0}\n',
                               'print = {0}\n', 'six = {0}\n']).format(n)),
        ('import', 'import math\nroot = math.sqrt({0})\n'.format(n)),
        ('import', 'from os.path import join as j\nres = j("a", "b{0}")\n'.format(n)),
        ('loop', 'acc = []\nfor i in range({0}):\n    acc.append(i * i)\n'.format(n % 7)),
        ('loop', 'acc = [z * {0} for z in range(3) if z]\n'.format(n)),
        ('loop', 'try:\n    {{}}["k"]\nexcept KeyError as ex:\n    caught = {0}\n'.format(n)),
        ('delete', 'gone = {0}\nkept = gone + 1\ndel gone\n'.format(n)),
        ('unicode', 'é{0} = "ünï\\u2028"\n'.format(n)),
        ('unicode', 's = "日本"\n# комментарий\n'),
        ('empty', '\n'), ('empty', '# only a comment\n\n'), ('empty', 'pass\n'),
    ])


BAD = [
    ('block-syntax', 'x = = 1\n'), ('block-syntax', 'def f(:\n'), ('block-syntax', '  x = 1\ny = 2\n'), ('block-syntax', '(\n'), ('block-syntax', 'return 5\n'),
    ('block-syntax', 'if True:\nx = 1\n'), ('block-syntax', 'just some words\nand more\n'), ('block-syntax', '"unterminated\n'), ('block-syntax', 'x = 1\x00\n'),
    ('block-syntax', 'break\n'),
    ('block-raises', 'x = 1\nraise ValueError("no")\n'), ('block-raises', 'x = 1 / 0\n'), ('block-raises', '{}["k"]\n'), ('block-raises', 'x = [][1]\n'),
    ('block-raises', 'assert False\n'), ('block-raises', 'raise RuntimeError\n'), ('block-raises', 'None.x\n'), ('block-raises', 'def f():\n    return f()\nf()\n'),
    ('block-raises', 'class E(Exception):\n    pass\nraise E("é")\n'), ('block-raises', 'raise StopIteration\n'), ('block-raises', 'x = int("q")\n'),
    ('block-name', 'x = undefined_name\n'), ('block-name', 'print(self)\n'), ('block-name', 'y = path\n'), ('block-name', 'z = pilo\n'), ('block-name', 'v = Form\n'),
    ('block-import', 'import no_such_module_at_all\n'), ('block-import', 'from os import no_such_attribute\n'),
]


def public(namespace):
    return dict((k, v) for k, v in namespace.items() if not (k.startswith('__') and k.endswith('__')))


def describe(v):
    if isinstance(v, types.FunctionType):
        try:
            return ('function', v.__name__, repr(v(*([1] * (v.__code__.co_argcount - len(v.__defaults__ or ()))))))
        except Exception as ex:
            return ('function', v.__name__, type(ex).__name__)
    if isinstance(v, type) and hasattr(v, 'attr') and hasattr(v, 'm'):
        return ('class', v.__name__, v.attr, v().m())
    if isinstance(v, types.ModuleType):
        return ('module', id(v))
    return (type(v).__name__, repr(v))


def outside():
    """What every module that matters holds."""
    import pilo
    mods = [m for name, m in sorted(sys.modules.items()) if m is not None and (name.split('.')[0] in ('pilo', 'six', 'imp', 'importlib', 'os', 'builtins', '__main__', 'collections'))]
    return dict((m.__name__, (id(m), dict((k, id(v)) for k, v in vars(m).items()))) for m in mods), sorted(sys.modules)


def blocks(case):
    import pilo
    rng = case.rng
    kinds, text = set(), ''
    for _ in range(rng.randrange(1, 6)):
        kind, piece = pieces(rng)
        kinds.add(kind)
        text += piece
    if rng.random() < 0.15:
        text = '"""A docstring."""\n' + text
        kinds.add('docstring')
    if rng.random() < 0.15:
        text = text.replace('\n', '\r\n')
        kinds.add('crlf')
    if rng.random() < 0.3 and text.count('\n') > 1:
        text = text.rstrip('\r\n')
        if '\n' not in text:
            text += '\n'
    want = {'__name__': '<oracle>'}
    exec(compile(text, '<oracle>', 'exec', dont_inherit=True), want)
    was = outside()
    got = place(case, text, 'stored', 'block')
    case.expect(outside() == was, 'outside', 'the block changed other modules', text=text)
    case.event('outside')
    for kind in kinds:
        case.event('block', kind)
    case.expect(isinstance(got, types.ModuleType), 'block', 'no module was stored', text=text, stored=repr(got))
    have, need = public(vars(got)), public(want)
    case.equal(sorted(have), sorted(need), 'block', 'the names the block defines', text=text)
    for name in sorted(need):
        case.equal(describe(have[name]), describe(need[name]), 'block', 'what the block defines', text=text, name=name)
    case.equal(vars(got).get('__doc__'), want.get('__doc__'), 'block', 'the docstring of the block', text=text)
    # another time gives another module
    again = place(case, text, 'stored', 'block')
    case.expect(again is not got and vars(again) is not vars(got), 'fresh', 'the same module was stored twice', text=text)
    case.event('fresh')
    before = sorted(public(vars(again)))
    got.added = 5
    for name in list(public(vars(got)))[:2]:
        vars(got)[name] = 'changed'
    case.equal(sorted(public(vars(again))), before, 'independent', 'changing one module changed another', text=text)
    if 'global' in kinds and 'bump' in vars(again) and isinstance(vars(again)['bump'], types.FunctionType) and isinstance(vars(again).get('total'), int):
        t = again.total
        case.equal(again.bump(), t + 1, 'independent', 'a function of the block uses another namespace', text=text)
    third = place(case, text, 'stored', 'block')
    case.expect(sorted(public(vars(third))) == sorted(need), 'independent', 'a later module has what was added to an earlier one', text=text)
    case.event('independent')
    case.expect(sys.modules.get(got.__name__) is not got, 'outside', 'the module was registered', text=text)
    case.sample(text)
    # and those that fail
    for why, bad in rng.sample(BAD, 3):
        prefix = rng.choice(['', '', 'ok = 1\n']) if why != 'block-syntax' or bad != '  x = 1\ny = 2\n' else ''
        was = outside()
        place(case, prefix + bad, 'refused', why)
        case.event('refused', why)
        case.expect(outside() == was, 'outside', 'the block changed other modules', text=bad)


def passing(case):
    """Anything that is not text is stored as it is."""
    rng = case.rng
    func = lambda: 5
    for value, kind in rng.sample([(5, 'number'), (0, 'number'), (1.5, 'number'), (True, 'number'), ([1, {'k': 2}], 'container'), ({}, 'container'), ((), 'container'),
                                   (func, 'object'), (os, 'object'), (len, 'object'), (dict, 'object'), (object(), 'object'), (None, 'null'),
                                   (b'os:path', 'object'), (b'x = 1\n', 'object')], 5):
        got = place(case, value, 'stored', 'pass')
        case.expect(got is value, 'pass', 'something that is not text was not passed through', given=repr(value), stored=repr(got))
        case.event('pass', kind)


def parts(case):
    """What a code field is made of, used on its own."""
    import pilo
    C, rng = pilo.fields.Code, case.rng
    given = dict((n, rng.randrange(9)) for n in rng.sample(['x', 'y', 'z', 'C'], rng.randrange(4)))
    names = sorted(given)
    text = 'total = ' + ' + '.join(names + ['1']) + '\nown = [total]\n' + ''.join('%s = %s + 1\n' % (n, n) for n in names[:1])
    module = C.compile('made', text, **given)
    want = dict(given, total=sum(given.values()) + 1, own=[sum(given.values()) + 1])
    for n in names[:1]:
        want[n] += 1
    case.equal(dict((n, v) for n, v in vars(module).items() if n in want or n[:1] != '_'), want, 'compile', 'the namespace of code that was given names', text=text, given=given)
    case.expect(type(module) is type(os) and given == dict((n, given[n]) for n in names), 'compile', 'what was given was changed')
    case.event('compile', len(names))
    case.expect(C.load('os', 'path.join') is os.path.join and C.load('os.path', 'join') is os.path.join, 'load', 'another object was loaded')
    for module, attr, kind in (('os', 'nope', TypeError), ('os', 'path.nope.x', TypeError), ('no_such_module_', 'x', ImportError)):
        try:
            C.load(module, attr)
            case.fail('load', 'something that does not exist was loaded', module=module, attr=attr)
        except kind:
            case.event('load.refused')
    for text, want in (('os:path', ('os', 'path')), ('os.path:join', ('os.path', 'join')), ('a.b:c.d', ('a.b', 'c.d')), ('join', (None, 'join')), ('a:b:c', False), ('a b', False), ('', False),
                       (':a', False), ('a:', False)):
        case.equal((C.import_match(text), C.inline_match(text), C.inline_match(text + '\n')), (want, False, True), 'match', 'how a text is understood', text=text)
    case.distinct('parts', tuple(names))


WORKLOADS = [
    ('modules', modules, 250, 6000),
    ('stdlib', stdlib, 100, 1000),
    ('blocks', blocks, 500, 15000),
    ('passing', passing, 200, 3000),
    ('parts', parts, 60, 600),
    ('many', many.code, 150, 3000),
]
