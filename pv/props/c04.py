"""C04: dates, times and identifiers parse only what their format denotes."""
import datetime
import itertools
import json
import time
import uuid

import iso8601

from .. import many
from ..spec import outcome_errors

ID = 'C04'
RULE = 'distinct (field kind, format declaration, text or native value, bounds, verdict)'
REQUIRED = ['judged', 'denotes', 'malformed', 'native', 'bound.inside', 'bound.edge', 'bound.outside', 'bound.incomparable',
            'uuid.spelled', 'uuid.malformed', 'several.later', 'round-trip', 'no-format', 'rendered.Date', 'rendered.Time', 'rendered.Datetime', 'rendered.several']

UTC = datetime.timezone.utc
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']

# Each directive with its own rendering of a moment; `fixes` says what it pins down.
DIRECTIVES = {
    '%Y': lambda d: '{0:04d}'.format(d.year),
    '%y': lambda d: '{0:02d}'.format(d.year % 100),
    '%m': lambda d: '{0:02d}'.format(d.month),
    '%d': lambda d: '{0:02d}'.format(d.day),
    '%B': lambda d: MONTHS[d.month - 1],
    '%b': lambda d: MONTHS[d.month - 1][:3],
    '%A': lambda d: DAYS[d.weekday()],
    '%j': lambda d: '{0:03d}'.format((d.date() - datetime.date(d.year, 1, 1)).days + 1),
    '%H': lambda d: '{0:02d}'.format(d.hour),
    '%I': lambda d: '{0:02d}'.format(d.hour % 12 or 12),
    '%p': lambda d: 'AM' if d.hour < 12 else 'PM',
    '%M': lambda d: '{0:02d}'.format(d.minute),
    '%S': lambda d: '{0:02d}'.format(d.second),
    '%f': lambda d: '{0:06d}'.format(d.microsecond),
    '%z': lambda d: offset_text(d, ''),
}
DATE_FORMATS = ['%Y-%m-%d', '%d/%m/%Y', '%m/%d/%Y', '%Y%m%d', '%d %B %Y', '%b %d, %Y', '%A %d.%m.%Y', '%Y %j', '%y-%m-%d', '%Y-%m-%d %H:%M']
TIME_FORMATS = ['%H:%M', '%H:%M:%S', '%I:%M %p', '%H%M', '%Hh%Mm%Ss']
DATETIME_FORMATS = ['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S.%f', '%d/%m/%y %I:%M:%S %p', '%Y%m%d%H%M%S', '%Y-%m-%d %H:%M:%S %z',
                    '%b %d %Y %H:%M:%S']


def offset_text(d, colon):
    off = d.utcoffset()
    if off is None:
        return ''
    minutes = int(off.total_seconds() // 60)
    sign = '-' if minutes < 0 else '+'
    return '{0}{1:02d}{2}{3:02d}'.format(sign, abs(minutes) // 60, colon, abs(minutes) % 60)


def render(fmt, d):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            out.append(DIRECTIVES[fmt[i:i + 2]](d))
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return ''.join(out)


def moment(rng, fmt=None):
    """A moment with no more detail than the format can say."""
    edge = rng.random() < 0.3
    year = rng.choice([1970, 1999, 2000, 2015, 2016, 2068]) if edge else rng.randrange(1000, 9999)
    if fmt and '%y' in fmt:
        year = rng.randrange(1969, 2069)
    month, day = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (9, 30)]) if edge else (rng.randrange(1, 13), rng.randrange(1, 29))
    if edge and year % 4 == 0 and year % 100 and rng.random() < 0.5:
        month, day = 2, 29
    hour, minute, second = rng.choice([(0, 0, 0), (12, 0, 0), (23, 59, 59), (12, 59, 1)]) if edge else (
        rng.randrange(24), rng.randrange(60), rng.randrange(60))
    micro = rng.choice([0, 1, 999999, 500000, rng.randrange(1000000)])
    d = datetime.datetime(year, month, day, hour, minute, second, micro)
    if fmt and '%z' in fmt:
        d = d.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, -300, 345, -210, 840]))))
    if fmt:
        if '%f' not in fmt:
            d = d.replace(microsecond=0)
        if '%S' not in fmt:
            d = d.replace(second=0)
        if '%M' not in fmt:
            d = d.replace(minute=0)
        if '%H' not in fmt and '%I' not in fmt:
            d = d.replace(hour=0)
    return d


def denoted(kind, d):
    if kind == 'Date':
        return d.date()
    if kind == 'Time':
        return (d.hour, d.minute, d.second)
    return d


def exact(value):
    """Type-exact rendering of a moment."""
    if isinstance(value, time.struct_time):
        return ('struct_time', value.tm_hour, value.tm_min, value.tm_sec)
    if isinstance(value, (datetime.datetime, datetime.time)):
        return (type(value).__name__, value.isoformat(), value.utcoffset())
    return (type(value).__name__, repr(value))


def wanted(kind, d):
    return ('struct_time',) + denoted('Time', d) if kind == 'Time' else exact(denoted(kind, d))


def declare(rng, kind, fmt, after=None, before=None, **options):
    """The field, its options given by constructor or by chained setters."""
    import pilo
    cls = getattr(pilo.fields, kind)
    late = []
    if fmt is not None:
        if rng.random() < 0.5:
            options['format'] = fmt
        else:
            late.append(('format', (fmt,)))
    if after is not None and before is not None and rng.random() < 0.4:
        late.append(('between', (after, before)))
    else:
        for name, bound in (('after', after), ('before', before)):
            if bound is None:
                continue
            if rng.random() < 0.5:
                options[name] = bound
            else:
                late.append((name, (bound,)))
    rng.shuffle(late)
    field = cls(**options)
    for name, args in late:
        got = getattr(field, name)(*args)
        if got is not field:
            raise AssertionError('{0}() did not return the field'.format(name))
    return field


def mapped(rng, field, value, text=True):
    """The form and errors of mapping {'n': {'l': [value]}} or {'v': value}, and the location of the value."""
    import pilo
    shape = rng.randrange(3)
    if shape == 0:
        cls = type('M', (pilo.Form,), {'v': field})
        data, where = {'v': value}, 'v'
    elif shape == 1:
        inner = type('I', (pilo.Form,), {'v': field})
        cls = type('M', (pilo.Form,), {'n': pilo.fields.SubForm(inner)})
        data, where = {'n': {'v': value}}, 'n.v'
    else:
        cls = type('M', (pilo.Form,), {'l': pilo.fields.List(field)})
        data, where = {'l': [value]}, 'l[0]'
    if text and rng.random() < 0.4:
        src = pilo.source.JsonSource(json.dumps(data), strict=rng.random() < 0.5)
    else:
        src = data
    form = cls()
    errors = form.map(src)
    got = list(dict.items(form))
    if shape == 1:
        got = list(dict.items(got[0][1])) if got else got
    elif shape == 2:
        got = [('v', x) for x in form.get('l', [])]
    return [x for _, x in got], outcome_errors(errors), where, errors


def accept(case, field, value, want, text, **w):
    got, errors, where, _ = mapped(case.rng, field, value, text)
    case.equal(errors, [], 'refused', 'a conforming value was reported', value=value, **w)
    case.expect(len(got) == 1, 'not-stored', 'a conforming value was not stored', value=value, got=got, **w)
    case.equal(exact(got[0]), want, 'other-moment', 'another value was stored', value=value, **w)
    return got[0]


def reject(case, field, value, text, **w):
    got, errors, where, _ = mapped(case.rng, field, value, text)
    case.equal(got, [], 'stored', 'a value that denotes nothing was stored', value=value, **w)
    case.equal(errors, [('Invalid', where)], 'not-reported', 'a value that denotes nothing was not reported as invalid', value=value, **w)


def formats_of(kind):
    return {'Date': DATE_FORMATS, 'Time': TIME_FORMATS, 'Datetime': DATETIME_FORMATS}[kind]


def denotes(case):
    """Text rendered here from a moment is read as that moment."""
    rng = case.rng
    kind = rng.choice(['Date', 'Time', 'Datetime'])
    for _ in range(4):
        fmt = rng.choice(formats_of(kind))
        d = moment(rng, fmt)
        text = render(fmt, d)
        if rng.random() < 0.2 and '%B' not in fmt:
            text = text.lower()
        field = declare(rng, kind, fmt)
        got = accept(case, field, text, wanted(kind, d), True, kind=kind, format=fmt)
        case.event('denotes')
        if '%Y' in fmt or '%H' in fmt or '%I' in fmt:
            again = accept(case, declare(rng, kind, fmt), field.format(got), wanted(kind, d), True, kind=kind, format=fmt, rendered=True)
            case.event('round-trip')
            case.equal(exact(again), exact(got), 'round-trip', 'formatting the result denotes another moment', format=fmt, text=text)
        case.distinct(kind, fmt, text)
    case.sample((kind, fmt, text))


def several(case):
    """The first matching format counts."""
    rng = case.rng
    for _ in range(4):
        fmts = rng.sample(DATE_FORMATS + ['iso8601'], rng.randrange(1, 4))
        i = rng.randrange(len(fmts))
        if fmts[i] == 'iso8601':
            d = moment(rng)
            text = d.date().isoformat()
        else:
            d = moment(rng, fmts[i])
            text = render(fmts[i], d)
        want = None
        for n, fmt in enumerate(fmts):
            want = reading('Date', fmt, text)
            if want is not None:
                if n:
                    case.event('several', 'later')
                break
        case.expect(want is not None, 'harness', 'rendered text denotes nothing', formats=fmts, text=text)
        form = tuple(fmts) if rng.random() < 0.5 else list(fmts)
        accept(case, declare(rng, 'Date', form), text, want, True, formats=fmts)
        bad = mutate(rng, text)
        judge_text(case, 'Date', form, bad)
        case.distinct('several', repr(fmts), text)


def reading(kind, fmt, text):
    """What text denotes in one format: exact rendering, or None."""
    if fmt == 'iso8601':
        try:
            d = iso8601.parse_date(text)
        except iso8601.ParseError:
            return None
        return wanted(kind, d)
    try:
        if kind == 'Time':
            return exact(time.strptime(text, fmt))  # has leap seconds
        d = datetime.datetime.strptime(text, fmt)
    except ValueError:
        return None
    return wanted(kind, d)


def mutate(rng, text):
    ops = rng.randrange(1, 3)
    chars = list(text)
    for _ in range(ops):
        roll = rng.randrange(6)
        at = rng.randrange(len(chars) + 1)
        if roll == 0 and chars:
            del chars[min(at, len(chars) - 1)]
        elif roll == 1:
            chars.insert(at, rng.choice('0123456789-/:. TZx+'))
        elif roll == 2 and chars:
            chars[min(at, len(chars) - 1)] = rng.choice('0123456789-/:. TZ')
        elif roll == 3:
            chars = chars[:at]
        elif roll == 4:
            chars = chars + list(rng.choice([' ', '\n', ' 00:00', 'Z', '0', 'junk']))
        else:
            chars = list(rng.choice(['', ' ', 'today', '0000-00-00', '2015-02-29', '2015-13-01', '24:00', '12:60', '99/99/9999', 'None',
                                     '2015-06-31', '1', '20150309', '2015-03-09T10:11:12Z']))
    return ''.join(chars)


def judge_text(case, kind, fmt, text, **w):
    fmts = fmt if isinstance(fmt, (list, tuple)) else [fmt]
    want = None
    for f in fmts:
        want = want or reading(kind, f, text)
    field = declare(case.rng, kind, fmt)
    if want is None:
        reject(case, field, text, True, kind=kind, format=fmt, **w)
        case.event('malformed')
    else:
        accept(case, field, text, want, True, kind=kind, format=fmt, **w)
    case.distinct(kind, repr(fmt), text, want is None)


def malformed(case):
    rng = case.rng
    kind = rng.choice(['Date', 'Time', 'Datetime'])
    for _ in range(6):
        fmt = rng.choice(formats_of(kind) + (['iso8601'] if kind != 'Time' else []))
        text = moment(rng).isoformat() if fmt == 'iso8601' else render(fmt, moment(rng, fmt))
        judge_text(case, kind, fmt, mutate(rng, text))
    case.sample((kind, fmt, text))


def iso(case):
    """ISO 8601 text, rendered from its components here."""
    rng = case.rng
    for _ in range(4):
        d = moment(rng)
        dash, colon = rng.choice([('-', ':'), ('', '')])
        text = '{0:04d}{3}{1:02d}{3}{2:02d}'.format(d.year, d.month, d.day, dash)
        want = datetime.datetime(d.year, d.month, d.day, tzinfo=UTC)
        if rng.random() < 0.8:
            text += rng.choice('T ') + '{0:02d}{2}{1:02d}'.format(d.hour, d.minute, colon)
            want = want.replace(hour=d.hour, minute=d.minute)
            if rng.random() < 0.8:
                text += '{1}{0:02d}'.format(d.second, colon)
                want = want.replace(second=d.second)
                if rng.random() < 0.5:
                    text += rng.choice('.,') + '{0:06d}'.format(d.microsecond)
                    want = want.replace(microsecond=d.microsecond)
            zone = rng.randrange(3)
            if zone == 0:
                text += 'Z'
            elif zone == 1:
                minutes = rng.choice([0, 60, -300, 345, -210, 840])
                want = want.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=minutes)))
                text += offset_text(want, colon)
        kind = rng.choice(['Date', 'Datetime'])
        fmt = rng.choice(['iso8601', ['iso8601'], ['%d/%m/%Y', 'iso8601']]) if kind == 'Date' else 'iso8601'
        field = declare(rng, kind, fmt)
        got = accept(case, field, text, wanted(kind, want), True, kind=kind, format=fmt)
        case.event('denotes')
        if fmt == 'iso8601':
            accept(case, declare(rng, kind, fmt), field.format(got), wanted(kind, want), True, kind=kind, format=fmt, rendered=True)
            case.event('round-trip')
        case.distinct('iso', kind, text)


def rendered(case):
    """Formatting a moment renders it in the (first) declared format, and leaves the field as it was."""
    rng = case.rng
    for _ in range(4):
        kind = rng.choice(['Date', 'Time', 'Datetime'])
        fmt = rng.choice(formats_of(kind) + (['iso8601'] if kind != 'Time' else []))
        declared = fmt
        if kind == 'Date' and rng.random() < 0.6:
            declared = [fmt] + rng.sample(DATE_FORMATS + ['iso8601'], rng.randrange(3))
            if rng.random() < 0.5:
                declared = tuple(declared)
        d = moment(rng) if fmt == 'iso8601' else moment(rng, fmt)
        value = {'Date': d.date(), 'Time': d.time(), 'Datetime': d}[kind]
        if kind == 'Time' and rng.random() < 0.5:
            value = d.timetuple()
        if kind == 'Date' and fmt != 'iso8601' and rng.random() < 0.3:
            value = d
        if type(value) is datetime.date:
            d = datetime.datetime.combine(value, datetime.time())
        field = declare(rng, kind, declared)
        w = dict(kind=kind, format=declared, moment=value)
        want = value.isoformat() if fmt == 'iso8601' else render(fmt, d)
        if isinstance(value, time.struct_time) and ('%f' in fmt or '%z' in fmt):
            continue
        if kind == 'Time' and type(value) is datetime.time:
            fine = value.replace(microsecond=rng.choice([0, 1, 250000, 999999]))
            case.equal(declare(rng, kind, '%H:%M:%S.%f').format(fine), '{0:02d}:{1:02d}:{2:02d}.{3:06d}'.format(fine.hour, fine.minute, fine.second, fine.microsecond),
                       'rendered', 'a moment is formatted as something else', moment=fine)
        if kind == 'Time' and '%z' in fmt:
            continue
        for turn in range(2):
            text = field.format(value)
            case.expect(type(text) is str, 'rendered-type', 'formatting a moment gives no text', got=text, **w)
            case.equal(text, want, 'rendered', 'a moment is formatted as something else', **w)
        got = accept(case, field, text, reading(kind, fmt, text), True, **w)
        case.event('rendered', kind if declared is fmt else 'several')
        case.distinct('rendered', kind, repr(declared), text)


def native(case):
    """Native moments pass through unchanged; other native types do not."""
    rng = case.rng
    zone = rng.choice([None, UTC, datetime.timezone(datetime.timedelta(hours=-5))])
    d = moment(rng).replace(tzinfo=zone)
    values = {
        'date': d.date(), 'datetime': d, 'time': d.timetz() if rng.random() < 0.5 else d.time(),
        'struct_time': time.strptime(d.strftime('%H:%M:%S'), '%H:%M:%S'), 'int': 5, 'bytes': uuid.UUID(int=rng.getrandbits(128)).bytes, 'long': rng.getrandbits(128),
        'fields': (rng.getrandbits(32), 1, 2, 3, 4, 5), 'dict': {'int': 7}, 'list': [d], 'uuid': uuid.UUID(int=7), 'bool': True,
        'float': 2.5,
    }
    through = {'Date': ('date', 'datetime'), 'Time': ('time', 'struct_time'), 'Datetime': ('datetime',), 'UUID': ('uuid',)}
    for kind in ('Date', 'Time', 'Datetime', 'UUID'):
        for name, value in values.items():
            if kind == 'UUID':
                import pilo
                field = pilo.fields.UUID()
            else:
                field = declare(rng, kind, rng.choice([None, rng.choice(formats_of(kind))]))
            if name in through[kind]:
                got = accept(case, field, value, exact(value), False, kind=kind)
                case.expect(got is value or got == value, 'native', 'a native value was replaced', kind=kind, value=value)
            else:
                reject(case, field, value, False, kind=kind)
            case.event('native')
            case.distinct(kind, name)
    # no declared format: no text denotes anything
    for kind in ('Date', 'Time', 'Datetime'):
        reject(case, declare(rng, kind, None), rng.choice(['2015-03-09', '10:11', '', '2015-03-09T10:11:12Z', 'x']), True, kind=kind)
        case.event('no-format')
    # numbers become text first where the source says so
    import pilo
    form = type('M', (pilo.Form,), {'v': pilo.fields.Date(format='%Y%m%d')})()
    errors = form.map(pilo.source.JsonSource(json.dumps({'v': int(d.strftime('%Y%m%d'))}), strict=False))
    case.equal((dict(form.items()), outcome_errors(errors)), ({'v': d.date()}, []), 'lenient', 'a number of a lenient source', date=d)


def step(value, kind, n):
    if kind == 'Date':
        return value + datetime.timedelta(days=n)
    if kind == 'Datetime':
        return value + datetime.timedelta(microseconds=n)
    d = datetime.datetime.combine(datetime.date(2000, 1, 1), value) + datetime.timedelta(microseconds=n)
    return d.time()


def bounds(case):
    """Values on, inside and outside the bounds."""
    rng = case.rng
    kind = rng.choice(['Date', 'Datetime', 'Time'])
    a = moment(rng)
    if kind == 'Time':
        a = a.replace(hour=rng.randrange(1, 12))
    aware = kind == 'Datetime' and rng.random() < 0.4
    if aware:
        a = a.replace(tzinfo=UTC)
    base = {'Date': a.date(), 'Datetime': a, 'Time': a.time()}[kind]
    width = rng.choice([0, 1, 5])
    top = step(base, kind, width)
    after = base if rng.random() < 0.8 else None
    before = top if rng.random() < 0.8 else None
    for n in (-2, -1, 0, 1, width - 1, width, width + 1, width + 2):
        value = step(base, kind, n)
        inside = (after is None or n >= 0) and (before is None or n <= width)
        if aware and rng.random() < 0.5:
            # the same moment in another zone
            value = value.astimezone(datetime.timezone(datetime.timedelta(hours=rng.choice([-8, 3]))))
        text, given = False, value
        if kind == 'Date':
            field = declare(rng, kind, '%Y-%m-%d', after, before)
            if rng.random() < 0.5:
                given, text = render('%Y-%m-%d', datetime.datetime.combine(value, datetime.time())), True
        elif kind == 'Datetime':
            fmt = '%Y-%m-%dT%H:%M:%S.%f' + ('%z' if aware else '')
            field = declare(rng, kind, fmt, after, before)
            if rng.random() < 0.5:
                given, text = render(fmt, value), True
        else:
            field = declare(rng, kind, None, after, before)
        w = dict(kind=kind, after=after, before=before)
        if inside:
            accept(case, field, given, exact(value), text, **w)
            case.event('bound', 'edge' if n in (0, width) else 'inside')
        else:
            reject(case, field, given, text, **w)
            case.event('bound', 'outside')
        case.distinct(kind, n, width, after is None, before is None, text, aware)
    # times as text against bounds of the same type
    fmt = '%H:%M'
    lo, hi = time.strptime('09:00', fmt), time.strptime('17:30', fmt)
    for text, inside in (('08:59', False), ('09:00', True), ('12:00', True), ('17:30', True), ('17:31', False)):
        field = declare(rng, 'Time', fmt, lo, hi)
        if inside:
            accept(case, field, text, ('struct_time',) + tuple(int(x) for x in text.split(':')) + (0,), True)
        else:
            reject(case, field, text, True)
    # nothing lies between bounds the wrong way round
    late = step(base, kind, 3)
    for n in (-1, 0, 1, 3, 4):
        field = declare(rng, kind, None, late, base)
        reject(case, field, step(base, kind, n), False, kind=kind, after=late, before=base)
        case.event('bound', 'reversed')
    # what cannot be compared with a bound does not satisfy it
    naive = a.replace(tzinfo=None)
    pairs = [('Datetime', naive, naive.replace(tzinfo=UTC)), ('Datetime', naive.replace(tzinfo=UTC), naive), ('Date', naive, naive.date()),
             ('Time', naive.time(), naive.time().replace(tzinfo=UTC))]
    for kind, value, bound in pairs:
        for which in ({'after': bound}, {'before': bound}, {'after': bound, 'before': bound}):
            if kind == 'Date' and rng.random() < 0.5:
                continue
            reject(case, declare(rng, kind, None, **which), value, False, kind=kind, bound=which)
            case.event('bound', 'incomparable')


def identifiers(case):
    import pilo
    rng = case.rng
    for _ in range(6):
        u = uuid.UUID(int=rng.choice([rng.getrandbits(128), 0, 2 ** 128 - 1]))
        h = '{0:032x}'.format(u.int)
        dashed = '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        text = rng.choice([h, dashed, '{' + dashed + '}', 'urn:uuid:' + dashed, h.upper(), dashed.upper()])
        accept(case, pilo.fields.UUID(), text, exact(u), True)
        case.event('uuid', 'spelled')
        case.distinct('uuid', text)
        roll = rng.randrange(5)
        if roll == 0:
            bad = text[:-1]
        elif roll == 1:
            bad = text + rng.choice('0f g')
        elif roll == 2:
            i = rng.choice([i for i, c in enumerate(dashed) if c != '-'])
            bad = dashed[:i] + rng.choice('gGxyz ') + dashed[i + 1:]
        elif roll == 3:
            bad = rng.choice(['', 'x', 'None', '0', '{}', 'urn:uuid:', '{0}'.format(u.int)])
        else:
            bad = dashed[:-1] + rng.choice(['', 'é', '{'])
        try:
            want = uuid.UUID(bad)
        except ValueError:
            reject(case, pilo.fields.UUID(), bad, True)
            case.event('uuid', 'malformed')
        else:
            accept(case, pilo.fields.UUID(), bad, exact(want), True)
        case.distinct('uuid', bad)


def mixed(case):
    """Several of these fields in one form: each its own value or its own error."""
    import pilo
    rng = case.rng
    names, fields, data, want, errors = [], {}, {}, {}, []
    for i in range(rng.randrange(2, 7)):
        kind = rng.choice(['Date', 'Time', 'Datetime', 'UUID'])
        name = 'f{0}'.format(i)
        if kind == 'UUID':
            fields[name] = pilo.fields.UUID()
            u = uuid.UUID(int=rng.getrandbits(128))
            if rng.random() < 0.5:
                data[name], want[name] = str(u), exact(u)
            else:
                data[name] = str(u)[1:]
                errors.append(('Invalid', name))
            continue
        fmt = rng.choice(formats_of(kind))
        fields[name] = declare(rng, kind, fmt, **({'default': None} if rng.random() < 0.3 else {}))
        text = render(fmt, moment(rng, fmt))
        if rng.random() < 0.5:
            text = mutate(rng, text)
        data[name] = text
        value = reading(kind, fmt, text)
        if value is None:
            errors.append(('Invalid', name))
        else:
            want[name] = value
    form = type('M', (pilo.Form,), fields)()
    got = form.map(data)
    case.equal(outcome_errors(got), errors, 'mixed-errors', 'the errors of a form of moments', data=data)
    case.equal(dict((k, exact(v)) for k, v in dict.items(form)), want, 'mixed-values', 'the values of a form of moments', data=data)
    case.distinct(repr(sorted(want)), repr(errors), tuple(type(f).__name__ for f in fields.values()))


WORKLOADS = [
    ('denotes', denotes, 1200, 40000),
    ('several', several, 600, 20000),
    ('malformed', malformed, 1200, 40000),
    ('iso', iso, 800, 25000),
    ('rendered', rendered, 600, 20000),
    ('native', native, 150, 4000),
    ('bounds', bounds, 500, 15000),
    ('identifiers', identifiers, 600, 20000),
    ('mixed', mixed, 600, 20000),
    ('many', many.formats, 150, 3000),
]
