# -*- coding: utf-8 -*-
"""C23: configuration text maps by sections, options, lists and bracketed keys."""
import datetime
import decimal
import os
import shutil
import tempfile
import textwrap
import uuid

from .. import many
from ..spec import outcome_errors

ID = 'C23'
RULE = 'distinct (configuration text, way of giving it, fields read)'
REQUIRED = ['judged'] + ['read.' + k for k in (
    'String', 'Integer', 'Float', 'Boolean', 'Decimal', 'Date', 'UUID', 'Field', 'words', 'lines', 'typed-list', 'tuple', 'mapping', 'mapping-form', 'typed-mapping',
    'section-dict', 'root-dict', 'empty', 'bad-quote', 'invalid')] + [
    'way.text', 'way.parser', 'way.file', 'way.section', 'way.root', 'way.preserve-case', 'way.fold-case', 'way.defaults', 'way.no-defaults',
    'absent.option', 'absent.section', 'absent.item', 'absent.key', 'refused.section', 'default.fills', 'default.yields', 'default.no-section', 'default.mapping', 'default.list',
    'case.other', 'case.same', 'case.distinct-options', 'near-bracket', 'untouched', 'location', 'raw', 'raw.first-line', 'raw.bracketed', 'raw.prefix', 'raw.comment', 'raw.as-written',
    'raw.blank', 'raw.single', 'raw.default', 'refers.valid', 'refers.invalid', 'default.keys', 'default.lines', 'captured']

SECTIONS = ['s', 'main', 'x.y', 'Main', 'two words', 'é', 'a:b', '0', 'None']
OPTIONS = ['a', 'b', 'opt', 'opt2', 'with space', 'dot.ted', 'da-sh', 'é', 'x1', 'Cased', 'UPPER', '0', '_u', 'keys', 'get', 'section']
MAPS = ['map', 'm2', 'Mapped', 'opt_map', 'x']
KEYS = ['k', 'k2', 'a.b', 'da-sh', '0', 'Kay', '_']
WORDS = ['one', 'two', 'a b', '', "it's", 'q"q', 'é', '5', '-1', 'a=b', 'c:d', 'x;y', 'tab\there', 'back\\slash', 'trail ', '#no', '(x)', 'a#b', 'no#', 'x,y', 'u@h', '~', 'what?', 'a_b!', 'Ä#1', '-x#', 'CASE']
TEXTS = ['plain', 'two words', '5', 'é ü', 'a=b', 'a : b', 'x;y', 'x #y', '[brackets]', '{"json": 1}', 'true', '0', '"quoted"', "back\\slash", '', '1.5', '-', '@', '$x', 'a, b', "don't"]
LINES = ['one', 'two words', 'a = b', '"quoted"', "don't", 'é', '5', '- item', '[x]', 'k: v', 'x # y', '1']


def quoted(rng, word):
    """The word, in one of the ways a shell reads it as that word."""
    ways = []
    if word and word[0] != '#' and all(c.isalnum() or c in '-=:;().+/#@,~!^_?' for c in word):
        ways += [word] * 3
    if "'" not in word:
        ways.append("'" + word + "'")
    if not set(word) & set('"\\'):
        ways.append('"' + word + '"')
    ways.append('"' + word.replace('\\', '\\\\').replace('"', '\\"') + '"')
    if word and '\n' not in word:
        ways.append(''.join('\\' + c if not c.isalnum() else c for c in word))
        if len(word) > 1 and "'" not in word:
            ways.append("'" + word[0] + "'" + ''.join('\\' + c if not c.isalnum() else c for c in word[1:]))
    return rng.choice(ways)


class Option(object):
    """One option: its name, its text, what it reads as."""

    def __init__(self, name, kind, text, value, raw):
        self.name, self.kind, self.text, self.value, self.raw = name, kind, text, value, raw


def make_option(rng, name):
    """The option; .text what it reads as untyped, .raw how it is written after the name."""
    sep = rng.choice([' = ', '=', ': ', ':', '   =   ', ' : '])
    kind = rng.choice(['text', 'text', 'Integer', 'Float', 'Boolean', 'Decimal', 'Date', 'UUID', 'words', 'words', 'lines', 'lines'])
    if kind == 'text':
        text = rng.choice(TEXTS)
        return Option(name, kind, text, text, sep + text + '\n')
    if kind == 'Integer':
        value = rng.choice([0, 1, -7, 42, 10 ** 20])
        return Option(name, kind, str(value), value, sep + str(value) + rng.choice(['', '  ']) + '\n')
    if kind == 'Float':
        value = rng.choice([0.5, -1.25, 1e300, 3.0, 0.1])
        return Option(name, kind, repr(value), value, sep + repr(value) + '\n')
    if kind == 'Boolean':
        text, value = rng.choice([('1', True), ('0', False), ('true', True), ('F', False), ('False', False), ('TRUE', True), ('t', True)])
        return Option(name, kind, text, value, sep + text + '\n')
    if kind == 'Decimal':
        text = rng.choice(['1.50', '-3', '1E+3', '0.00'])
        return Option(name, kind, text, decimal.Decimal(text), sep + text + '\n')
    if kind == 'Date':
        value = datetime.date(1990 + rng.randrange(40), 1 + rng.randrange(12), 1 + rng.randrange(28))
        return Option(name, kind, value.isoformat(), value, sep + value.isoformat() + '\n')
    if kind == 'UUID':
        value = uuid.UUID(int=rng.getrandbits(128))
        return Option(name, kind, str(value), value, sep + str(value) + '\n')
    if kind == 'words':
        words = [rng.choice(WORDS) for _ in range(rng.randrange(6))]
        text = rng.choice([' ', '  ']).join(quoted(rng, w) for w in words)
        # the end of an option is trimmed
        if text != text.strip():
            words, text = ['x'], 'x'
        return Option(name, kind, text, words, sep + text + '\n')
    lines = [rng.choice(LINES) for _ in range(rng.randrange(2, 5))]
    first = lines[0] if rng.random() < 0.4 else ''
    rest = lines[1:] if first else lines
    indent = rng.choice(['  ', '    ', '\t'])
    raw = sep.rstrip() + (' ' + first if first else '') + '\n'
    text = first
    for i, line in enumerate(rest):
        if i and rng.random() < 0.15:
            raw += rng.choice(['\n', indent + '\n'])
            text += '\n'
        raw += indent + line + rng.choice(['', ' ']) + '\n'
        text += '\n' + line
    return Option(name, kind, text, lines, raw)


class Model(object):
    """Sections of options, and of mappings of options."""

    def __init__(self, rng, case, sections=None):
        self.rng, self.case = rng, case
        self.sections = {}      # name -> ({option: Option}, {map: {key: Option}}, [odd option])
        for section in rng.sample(SECTIONS, rng.randrange(1, 4)):
            options, maps = {}, {}
            for name in rng.sample(OPTIONS, rng.randrange(0, 6)):
                options[name] = make_option(rng, name)
            if rng.random() < 0.6:
                for name in rng.sample(MAPS, rng.randrange(1, 3)):
                    maps[name] = {}
                    for key in rng.sample(KEYS, rng.randrange(1, 4)):
                        maps[name][key] = make_option(rng, '{0}[{1}]'.format(name, key))
            odd = []
            if rng.random() < 0.3:
                # brackets that do not make a mapping
                for name in rng.sample(['near[k', 'near]', 'near[a b]', 'near[]', 'near[k]x', 'ne-ar[k]', 'near[k][l]'], 2):
                    odd.append(make_option(rng, name))
                case.event('near-bracket')
            self.sections[section] = (options, maps, odd)

    def text(self):
        rng, out = self.rng, []
        for section, (options, maps, odd) in self.sections.items():
            lines = list(options.values()) + [o for m in maps.values() for o in m.values()] + odd
            for name in maps:
                if rng.random() < 0.15 and name not in options:
                    # what has keys reads as a mapping, also with a text of its own
                    lines.append(make_option(rng, name))
                    self.case.event('shadowed')
            rng.shuffle(lines)
            out.append('[{0}]\n'.format(section))
            for o in lines:
                if rng.random() < 0.15:
                    out.append(rng.choice(['# a comment\n', '; another = 1\n', '\n']))
                out.append(o.name + o.raw)
        return ''.join(out)


def readers(F, rng, o):
    """(field, what it reads, kind of reading) for one option."""
    out = [(F.String(), o.text, 'String'), (F.Field(), o.text, 'Field')]
    if o.kind == 'Integer':
        out += [(F.Integer(), o.value, 'Integer')] * 2
    if o.kind == 'Float':
        out += [(F.Float(), o.value, 'Float')] * 2
    if o.kind == 'Boolean':
        out += [(F.Boolean(), o.value, 'Boolean')] * 2
    if o.kind == 'Decimal':
        out += [(F.Decimal(), o.value, 'Decimal')] * 2
    if o.kind == 'Date':
        out += [(F.Date(format='%Y-%m-%d'), o.value, 'Date')] * 2
    if o.kind == 'UUID':
        out += [(F.UUID(), o.value, 'UUID')] * 2
    if o.kind == 'words':
        out += [(F.List(F.String()), o.value, 'words')] * 4
        if not o.value:
            out += [(F.List(F.String()), [], 'empty')]
        else:
            out += [(F.Tuple([F.String() for _ in o.value]), tuple(o.value), 'tuple')]
            out += [(F.List(F.String(), allow_field=True), o.value, 'words')]
    if o.kind == 'lines':
        out += [(F.List(F.String()), o.value, 'lines')] * 4 + [(F.Tuple([F.String() for _ in o.value]), tuple(o.value), 'tuple')]
    if o.kind in ('Integer', 'Float'):
        out += [(F.List({'Integer': F.Integer, 'Float': F.Float}[o.kind]()), [o.value], 'typed-list')]
    if o.kind == 'text' and o.text in ("don't", ):
        out += [(F.List(F.String()), 'INVALID', 'bad-quote')] * 3
    if o.kind == 'text' and o.text in ('plain', 'two words', '[brackets]', 'a=b'):
        out += [(F.Integer(), 'INVALID', 'invalid'), (F.Boolean(), 'INVALID', 'invalid'), (F.Float(), 'INVALID', 'invalid')]
    return rng.choice(out)


def source_of(case, text, tmp, **options):
    """The source, given in one of several ways; (source, prefix of its locations)."""
    import pilo
    import six
    rng = case.rng
    ways = ['text', 'text', 'file']
    if not options.get('preserve_case'):
        ways.append('parser')
    way = rng.choice(ways)
    case.event('way', way)
    case.parser = None
    if way == 'parser':
        parser = six.moves.configparser.ConfigParser()
        parser.read_string(text)
        case.parser = parser
        return pilo.source.ConfigSource(parser, **options), ''
    if way == 'file':
        path = os.path.join(tmp, 'conf.ini')
        with open(path, 'w', encoding='utf-8') as fo:
            fo.write(text)
        return pilo.source.ConfigSource.from_file(path, **options), path + ':'
    if rng.random() < 0.3:
        return pilo.source.ConfigSource(text, location='loc', **options), 'loc:'
    return pilo.source.ConfigSource(text, **options), ''


def section_form(case, model, section, fold, defaults):
    """A form for one section: (class, expected values, expected errors)."""
    import pilo
    F, rng = pilo.fields, case.rng
    options, maps, odd = model.sections[section]
    body, want, errors = {}, {}, []
    count = [0]

    def add(field, src, value, kind):
        count[0] += 1
        name = 'f{0}'.format(count[0])
        field.src = src
        body[name] = field
        if isinstance(value, str) and value == 'INVALID':
            errors.append(('Invalid', src))
        elif isinstance(value, str) and value == 'MISSING':
            errors.append(('Missing', src))
        else:
            want[name] = value
        case.event('read', kind) if kind else None

    names = dict((n.lower() if fold else n, o) for n, o in options.items())
    for name, o in options.items():
        if names[name.lower() if fold else name] is not o:
            continue
        for _ in range(rng.randrange(1, 3)):
            field, value, kind = readers(F, rng, o)
            src = name.lower() if fold else name
            if fold and rng.random() < 0.3:
                src = rng.choice([name, name.upper() if name.upper().lower() == name.lower() else name])
                case.event('case.other' if src != name.lower() else 'case.same')
            add(field, src, value, kind)
    for o in odd:
        add(F.String(), o.name, o.text, None)
        if o.name in ('near[k]x', 'near[k', 'near[k][l]'):
            add(F.Field(optional=True), 'near', 'MISSING', None)
            errors.pop()
    for name, keys in maps.items():
        shown = dict((k.lower() if fold else k, o) for k, o in keys.items())
        src = name.lower() if fold else name
        roll = rng.random()
        if roll < 0.4:
            add(F.Dict(F.String(), F.String()), src, dict((k, o.text) for k, o in shown.items()), 'mapping')
        elif roll < 0.7:
            inner, values = {}, {}
            for i, (k, o) in enumerate(shown.items()):
                field, value, kind = readers(F, rng, o)
                if isinstance(value, str) and value == 'INVALID':
                    continue
                field.src = k
                inner['g{0}'.format(i)] = field
                values['g{0}'.format(i)] = value
            inner['absent'] = F.String('no such', optional=True)
            case.event('absent.key')
            add(F.SubForm(type('Inner', (pilo.Form,), inner)), src, values, 'mapping-form')
        else:
            if not any(o.kind == 'Integer' for o in shown.values()):
                continue
            good = dict((k, o.value) for k, o in shown.items() if o.kind == 'Integer')

            d = F.Dict(F.String(), F.Integer())
            keep(d, good)
            add(d, src, good, 'typed-mapping')
    # what is absent
    have = set(names) | set((n.lower() if fold else n) for n in maps) | set(o.name.lower() if fold else o.name for o in odd)
    for name in rng.sample(OPTIONS + ['nope', 'nope2'], 3):
        probe = name.lower() if fold else name
        if probe in have:
            continue
        if defaults and name in defaults:
            continue
        if rng.random() < 0.5:
            add(F.String(), name, 'MISSING', None)
        else:
            add(F.Integer(default=77), name, 77, None)
        case.event('absent.option')
        if not fold:
            continue
    if not fold:
        # the same name in other letters is another option
        for name in options:
            for other in (name.upper(), name.lower(), name.swapcase()):
                if other not in have and not (defaults and other in defaults):
                    add(F.Field(default='nothing'), other, 'nothing', None)
                    case.event('case.distinct-options')
                    break
    if defaults:
        for name, value in defaults.items():
            probe = name.lower() if fold else name
            if probe in have:
                case.event('default.yields')
                if probe in names:
                    o = names[probe]
                    add(F.String(), name, o.text, None)
                elif any((m.lower() if fold else m) == name for m in maps):
                    keys = [v for m, v in maps.items() if (m.lower() if fold else m) == name][0]
                    add(F.Dict(F.String(), F.String()), name, dict((k.lower() if fold else k, o.text) for k, o in keys.items()), None)
                continue
            if isinstance(value, dict):
                add(F.Dict(F.String(), F.String()), name, value, None)
                case.event('default.mapping')
            elif isinstance(value, list):
                add(F.List(F.String()), name, value, None)
                case.event('default.list')
            else:
                add(F.String(), name, value, None)
                if rng.random() < 0.3 and value.isdigit():
                    add(F.Integer(), name, int(value), None)
            case.event('default.fills')
    cls = type('Section', (pilo.Form,), body)
    # errors are reported in declaration order
    return cls, want, errors


def lines_of_defaults(case):
    """Defaults of several lines are lists of their lines, whatever these start with."""
    import pilo
    F, rng = pilo.fields, case.rng
    items = [rng.choice(['#a', 'b # c', ';d', '[e]', 'k = v', '"q', "it's", 'two words', '%s', '\u00e9', '= x', ': y']) for _ in range(rng.randrange(2, 6))]
    text = rng.choice(['', '\n']) + '\n'.join(rng.choice(['', '  ', '\t']) + i + rng.choice(['', ' ', '\n', '\n   ']) for i in items)
    given = rng.random() < 0.3
    src = '[s]\nz = 1\n' + ('x = one two\n' if given else '')
    cls = type('L', (pilo.Form,), {'x': F.List(F.String()), 'y': F.Integer('z')})
    for root in (False, True):
        if root:
            form = type('R', (pilo.Form,), {'s': F.SubForm(cls)})()
            errors = form.map(pilo.source.ConfigSource(src, defaults={'s': {'x': text}}))
            got = form.get('s')
        else:
            got = cls()
            errors = got.map(pilo.source.ConfigSource(src, section='s', defaults={'x': text}))
        case.equal((outcome_errors(errors), got), ([], {'x': ['one', 'two'] if given else items, 'y': 1}), 'default-lines', 'the lines of a default', text=text, root=root)
        case.event('default.lines')
    case.distinct('default-lines', text)


def keep(d, keys):
    d.key_filter(lambda self, key: key in keys)


def some_defaults(rng):
    out = {}
    for name in rng.sample(OPTIONS + MAPS + ['extra', 'more'], rng.randrange(1, 6)):
        out[name] = rng.choice(['dflt', '12', '', 'two words', ['x', 'y'], {'k': 'v'}, {}])
    return out


def sections(case):
    import pilo
    F, rng = pilo.fields, case.rng
    model = Model(rng, case)
    fold = rng.random() < 0.6
    if fold:
        # names that differ in letters only would be the same option twice
        for section, (options, maps, odd) in model.sections.items():
            seen = set()
            for n in list(options):
                if n.lower() in seen:
                    del options[n]
                seen.add(n.lower())
            for m in list(maps):
                keys = set()
                for k in list(maps[m]):
                    if k.lower() in keys:
                        del maps[m][k]
                    keys.add(k.lower())
    case.event('way', 'fold-case' if fold else 'preserve-case')
    text = model.text()
    tmp = tempfile.mkdtemp(prefix='pv-c23-')
    try:
        run(case, pilo, model, text, fold, tmp)
    finally:
        shutil.rmtree(tmp)
    case.sample(text)


def values_of(form):
    out = {}
    for k, v in dict.items(form):
        out[k] = values_of(v) if isinstance(v, dict) and hasattr(v, 'fields') else v
    return out


def run(case, pilo, model, text, fold, tmp):
    F, rng = pilo.fields, case.rng
    given = {} if fold else {'preserve_case': True}
    for how in ('section', 'root', 'root'):
        defaults = None
        case.event('way', how)
        if how == 'section':
            section = rng.choice(list(model.sections))
            if rng.random() < 0.5:
                defaults = some_defaults(rng)
            cls, want, errors = section_form(case, model, section, fold, defaults)
            src, prefix = source_of(case, text, tmp, section=section, defaults=defaults, **given)
            prefix += '[{0}]:'.format(section)
        else:
            body, want, errors = {}, {}, []
            if rng.random() < 0.5:
                defaults = dict((s, some_defaults(rng)) for s in rng.sample(SECTIONS, rng.randrange(1, 4)))
            for i, section in enumerate(model.sections):
                if rng.random() < 0.2:
                    continue
                cls, w, e = section_form(case, model, section, fold, (defaults or {}).get(section))
                name = 'sec{0}'.format(i)
                body[name] = F.SubForm(cls, section)
                if e:
                    errors.extend((kind, (section, key)) for kind, key in e)
                else:
                    want[name] = w
            for section in SECTIONS + ['nope']:
                if section not in model.sections and rng.random() < 0.3:
                    name = 'no{0}'.format(len(body))
                    body[name] = F.SubForm(pilo.Form, section, default='nothing')
                    want[name] = 'nothing'
                    case.event('absent.section')
                    if defaults and section in defaults:
                        case.event('default.no-section')
            cls = type('Root', (pilo.Form,), body)
            src, prefix = source_of(case, text, tmp, defaults=defaults, **given)
        case.event('way', 'defaults' if defaults else 'no-defaults')
        config = case.parser
        was = config and dict((s, dict(config.items(s))) for s in config.sections())
        w = dict(text=text, how=how, fold=fold, defaults=defaults)
        form = cls()
        got = form.map(src)
        found = []
        for e in got:
            p = str(e.path)
            case.expect(p.startswith(prefix), 'location', 'an error does not say where it is', path=p, prefix=prefix, **w)
            found.append((type(e).__name__, p[len(prefix):]))
        case.event('location')
        expected = [(kind, spell(key)) for kind, key in errors]
        case.equal(found, expected, 'errors', 'the errors', fields=[(f.name, type(f).__name__, f.src) for f in cls.fields], **w)
        case.equal(values_of(form), want, 'values', 'the values', fields=[(f.name, type(f).__name__, f.src) for f in cls.fields], **w)
        if config:
            case.equal(dict((s, dict(config.items(s))) for s in config.sections()), was, 'untouched', 'mapping changed the configuration', **w)
            case.event('untouched')
        case.distinct(text, how, tuple((type(f).__name__, f.src) for f in cls.fields))
    # a section that is not there
    nope = [s for s in SECTIONS if s not in model.sections][0]
    src, _ = source_of(case, text, tmp, section=nope, **given)
    try:
        pilo.Form().map(src)
        case.fail('refused', 'a chosen section that is not there was mapped', section=nope, text=text)
    except pilo.SourceError:
        case.event('refused.section')
    # whole sections and the whole root as mappings
    plain = dict((s, dict((n.lower() if fold else n, o.text) for n, o in options.items())) for s, (options, maps, odd) in model.sections.items() if not maps)
    for section, options in plain.items():
        everything = dict(options)
        everything.update((o.name.lower() if fold else o.name, o.text) for o in model.sections[section][2])
        cls = type('D', (pilo.Form,), {'d': F.Dict(F.String(), F.String(), section)})
        form = cls()
        src, _ = source_of(case, text, tmp, **given)
        case.equal((outcome_errors(form.map(src)), dict(form)), ([], {'d': everything}), 'section-dict', 'a section as a mapping', section=section, text=text)
        case.event('read.section-dict')
        # what no field names is captured as it is, whatever was looked up before
        body = dict(('f{0}'.format(i), F.String(name)) for i, name in enumerate(everything) if rng.random() < 0.5)
        body.update(('g{0}'.format(i), F.String(name, optional=True)) for i, name in enumerate(['absent', 'gone', 'k1']) if name not in everything)
        cls = type('E', (pilo.Form,), body)
        for how in ('section', 'nested'):
            src, _ = source_of(case, text, tmp, **dict(given, **({'section': section} if how == 'section' else {})))
            if how == 'section':
                form = cls()
                errors = form.map(src, unmapped='capture')
            else:
                outer = type('O', (pilo.Form,), {'s': F.SubForm(cls, section, unmapped='capture')})()
                errors = outer.map(src)
                form = outer.get('s', {})
            expected = dict((f.name, everything[f.src]) for f in cls.fields if f.src in everything)
            expected.update((k, v) for k, v in everything.items())
            case.equal((outcome_errors(errors), dict(form)), ([], expected), 'captured', 'the options that no field names', section=section, text=text,
                       fields=[(f.name, f.src) for f in cls.fields], how=how)
            case.event('captured')
    if len(plain) == len(model.sections):
        class Top(pilo.Form):
            pass
        form = Top()
        src, _ = source_of(case, text, tmp, **given)
        errors = form.map(src, unmapped=(F.String(), F.SubForm(pilo.Form)))
        case.equal((outcome_errors(errors), sorted(form)), ([], sorted(model.sections)), 'root-dict', 'the sections at the root', text=text)
        case.event('read.root-dict')
    # items past the end
    for section, (options, maps, odd) in model.sections.items():
        for name, o in options.items():
            if o.kind in ('words', 'lines'):
                src, _ = source_of(case, text, tmp, section=section, **given)
                path = src.path()
                path.append(name.lower() if fold else name)
                for i, item in enumerate(o.value):
                    path.append(i)
                    case.equal((path.exists, path.value), (True, item), 'item', 'an item of an option', text=text, name=name, index=i)
                    path.pop()
                path.append(len(o.value))
                case.expect(not path.exists, 'item', 'there is an item past the end', text=text, name=name)
                case.event('absent.item')


def spell(key):
    """How a location is written."""
    parts = key if isinstance(key, tuple) else (key,)
    return '.'.join(parts)


# ---- white-space preserved

BLOCKS = [
    ['def f():', '    return 1'], ['if x:', '    y', '', 'else:', '    z'], ['one', 'two'], ['  - a', '    - b', 'c'], ['a', '\tb'], ['x = 1', '[s]', 'y = 2'],
    ['code =', '  no'], ['a', '', '', 'b'], ['# comment', 'kept'], ['é', '  ü'], ['p = "%%d" %% q', '    r = "%%"'],
]


def raw(case):
    """Multi-line options of a file, with their inner white-space."""
    import pilo
    F, rng = pilo.fields, case.rng
    names = ['code', 'code_x', 'cod', 'xcode', 'a', 'ab', 'Block']
    preserve_case = rng.random() < 0.3
    content, out = {}, []
    for section in rng.sample(['s', 'main', 'x'], rng.randrange(1, 4)):
        content[section] = {}
        out.append('[{0}]\n'.format(section))
        if rng.random() < 0.5:
            out.append(rng.choice(['# code =\n', '; a = b\n', '\n']))
        options = rng.sample(names, rng.randrange(1, 5))
        if rng.random() < 0.4:
            options.append('map[k]')
        rng.shuffle(options)
        for name in options:
            sep = rng.choice([' =', '=', ':', ' :'])
            if rng.random() < 0.25:
                out.append('{0}{1} single value\n'.format(name, sep))
                content[section][name] = ('single value', False)
                continue
            block = rng.choice(BLOCKS)
            indent = rng.choice(['  ', '    ', '\t'])
            first = rng.choice(['first', 'a = b']) if rng.random() < 0.3 else ''
            lines = [indent + l if l else '' for l in block]
            out.append('{0}{1}{2}\n'.format(name, sep, ' ' + first if first else ''))
            written = list(lines)
            if rng.random() < 0.2:
                # a comment in the first column belongs to no option
                written.insert(rng.randrange(len(written) + 1), rng.choice(['# a comment', ';b = c', '#', '# [s]']))
                case.event('raw.comment')
            if any('%' in l for l in lines):
                case.event('raw.as-written')
            out.append(''.join(l + '\n' for l in written))
            tail = ''
            if rng.random() < 0.3:
                out.append('\n')
                tail = '\n'
            want = textwrap.dedent(''.join(l + '\n' for l in lines)) + tail
            if first:
                want = first + '\n' + want
                case.event('raw.first-line')
            if '' in block:
                case.event('raw.blank')
            content[section][name] = (want, True)
        if 'code' in options and 'code_x' in options and options.index('code_x') < options.index('code'):
            case.event('raw.prefix')
    text = ''.join(out)
    tmp = tempfile.mkdtemp(prefix='pv-c23-')
    try:
        path = os.path.join(tmp, 'conf.ini')
        with open(path, 'w') as fo:
            fo.write(text)
        for section in content:
            body, want = {}, {}
            for i, (name, (value, multi)) in enumerate(content[section].items()):
                if name == 'map[k]':
                    body['f{0}'.format(i)] = F.Dict(F.String(), F.String(), 'map')
                    want['f{0}'.format(i)] = {'k': value}
                    case.event('raw.bracketed')
                    continue
                body['f{0}'.format(i)] = F.String(name if preserve_case else name.lower())
                want['f{0}'.format(i)] = value
                case.event('raw' if multi else 'raw.single')
            defaults = {'lacking': 'default\n  text'}
            body['d'], want['d'] = F.String('lacking'), 'default\n  text'
            case.event('raw.default')
            cls = type('S', (pilo.Form,), body)
            if rng.random() < 0.5:
                src = pilo.source.ConfigSource.from_file(path, section=section, preserve_whitespace=True, preserve_case=preserve_case, defaults=defaults)
                form = cls()
                errors = form.map(src)
            else:
                src = pilo.source.ConfigSource.from_file(path, preserve_whitespace=True, preserve_case=preserve_case, defaults={section: defaults})
                top = type('Top', (pilo.Form,), {'sub': F.SubForm(cls, section)})()
                errors = top.map(src)
                form = dict.get(top, 'sub', {})
            case.equal((outcome_errors(errors), dict(form)), ([], want), 'raw', 'text with its white-space preserved', text=text, section=section)
        case.distinct('raw', text)
        try:
            pilo.source.ConfigSource(text, preserve_whitespace=True)
            case.fail('raw', 'white-space cannot be preserved without a file')
        except ValueError:
            pass
    finally:
        shutil.rmtree(tmp)


# ---- references between options

def referring(case):
    """Options that refer to others of their section, or of the default section; what refers to nothing is invalid."""
    import pilo
    F, rng = pilo.fields, case.rng
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    shared = dict((n, rng.choice(['shared', '7', 'two words'])) for n in rng.sample(['p', 'q', 'b'], rng.randrange(3)))
    contents = {}
    for section in rng.sample(['s', 't', 'x.y'], rng.randrange(1, 4)):
        order = rng.sample(names, rng.randrange(1, 6))
        options = {}
        for i, name in enumerate(order):
            pieces = []
            for _ in range(rng.randrange(1, 4)):
                roll = rng.randrange(12)
                if roll < 5:
                    pieces.append((rng.choice(['x', '5', 'a b', ' 1', '-']),) * 2)
                elif roll < 7:
                    pieces.append(('%%', '%'))
                elif roll < 10 and (order[:i] or shared):
                    pieces.append(('%({0})s', rng.choice(order[:i] + list(shared))))
                elif roll == 10:
                    pieces.append((rng.choice(['% ', '%(nope)s', '%(', '%(a', '50% x', '%s', '%(a)d', '%({0})s'.format(name)]), None))
            options[name] = pieces or [('x', 'x')]
        contents[section] = (order, options)
    out = []
    if shared:
        out.append('[DEFAULT]\n' + ''.join('{0} = {1}\n'.format(k, v) for k, v in shared.items()))
    for section, (order, options) in contents.items():
        lines = ['{0} = {1}\n'.format(n, ''.join(raw.format(v) if raw == '%({0})s' else raw for raw, v in options[n])) for n in order]
        rng.shuffle(lines)
        out.append('[{0}]\n'.format(section) + ''.join(lines))
    text = ''.join(out)

    def reading(section, name, below=()):
        order, options = contents[section]
        if name not in options:
            return shared[name]
        if name in below:
            return None     # refers to itself
        parts = []
        for raw, v in options[name]:
            if raw == '%({0})s':
                v = reading(section, v, below + (name,))
            if v is None:
                return None
            parts.append(v)
        return ''.join(parts).strip()

    src_kind = rng.choice(['root', 'section', 'union', 'mount'])
    section = rng.choice(list(contents))
    body, want, errors = {}, {}, []
    shown = list(dict.fromkeys(contents[section][0] + list(shared)))
    for i, name in enumerate(shown):
        value = reading(section, name)
        field = rng.choice([F.String, F.String, F.Field, F.Integer])(name, default='unused')
        key = 'f{0}'.format(i)
        body[key] = field
        if value is None:
            errors.append(('Invalid', name))
            case.event('refers', 'invalid')
        elif isinstance(field, F.Integer):
            try:
                want[key] = int(value)
            except ValueError:
                errors.append(('Invalid', name))
        else:
            want[key] = value
            case.event('refers', 'valid')
    body['absent'] = F.String('nothing', default=None)
    want['absent'] = None
    cls = type('S', (pilo.Form,), body)
    w = dict(text=text, section=section, how=src_kind, fields=[(f.name, type(f).__name__, f.src) for f in cls.fields])
    if src_kind == 'section':
        form = cls()
        got = form.map(pilo.source.ConfigSource(text, section=section))
        prefix, shift = '[{0}]:'.format(section), ''
    else:
        src = pilo.source.ConfigSource(text)
        shift = section + '.'
        prefix = ''
        top = type('T', (pilo.Form,), {'x': F.SubForm(cls, section)})
        if src_kind == 'union':
            src = pilo.source.union([src], merge='combine')
        elif src_kind == 'mount':
            src = pilo.source.mount(m=src)
            top, inner = type('M', (pilo.Form,), {'m': F.SubForm(top)}), top
            prefix = '@m:'
        form = top()
        got = form.map(src)
        if not errors:
            form = form['m']['x'] if src_kind == 'mount' else form['x']
        else:
            form = None
    case.equal([(type(e).__name__, str(e.path)) for e in got], [(k, prefix + shift + n) for k, n in errors], 'refers-errors',
               'the errors of options that refer to others', **w)
    if form is not None:
        case.equal(dict(form), want, 'refers', 'options that refer to others', **w)
    # a section as a mapping, its defaults among its keys
    good = dict((n, reading(section, n)) for n in shown)
    if None not in good.values():
        defaults = dict((n, rng.choice(['dflt', '12'])) for n in rng.sample(names + ['z'], 3))
        have = dict((n, v) for n, v in defaults.items() if n not in good)
        have.update(good)
        for given in ({'section': section, 'defaults': defaults}, {'defaults': {section: defaults, 'other': {'y': '1'}}}):
            src = pilo.source.ConfigSource(text, **given)
            d = F.Dict(F.String(), F.String(), None if 'section' in given else section)
            form = type('D', (pilo.Form,), {'d': d})()
            case.equal((outcome_errors(form.map(src)), dict(form)), ([], {'d': have}), 'default-keys', 'a section and its defaults as a mapping', given=given, **w)
            case.event('default.keys')
    case.distinct('refers', text, src_kind)
    import six
    parser = six.moves.configparser.ConfigParser()
    try:
        pilo.source.ConfigSource(parser, preserve_case=True)
        case.fail('case-refused', 'the case of options already read cannot be preserved')
    except ValueError:
        pass


WORKLOADS = [
    ('sections', sections, 700, 20000),
    ('raw', raw, 300, 8000),
    ('referring', referring, 700, 15000),
    ('lines_of_defaults', lines_of_defaults, 200, 4000),
    ('many', many.configured, 150, 3000),
]
