#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': hook,
        },
    })


FI = 'pilo/fields.py'
CX = 'pilo/context.py'
SRC = 'pilo/source/__init__.py'
DEF = 'pilo/source/default.py'
JS = 'pilo/source/json.py'
CFG = 'pilo/source/configparser.py'
MNT = 'pilo/source/mount.py'
UNI = 'pilo/source/union.py'
INI = 'pilo/__init__.py'

p('C01', 'Field steps run in the documented order, each fed by the previous one',
  'Mapping a field locates its input (resolve), obtains a value (compute, or parse of the located input), then munges, filters and '
  'validates it, in that order; each step receives exactly what the previous step produced and runs at most once per visit, and no '
  'step runs after a missing, ignored, null-at-parse or invalid outcome has ended it. A user hook replaces the built-in resolve, '
  'compute, parse and default steps, and runs after the built-in munge, filter and validate steps (only when those let the value '
  'through), being handed the form being mapped and the current value; a function with other parameters than its step is refused when it is declared. Methods a kind of field overrides take the place of the built-in steps. The value stored in the form is exactly what the last step produced.',
  ['inputs', 'programs'],
  'Every combination of hooks and overridden methods on every kind of field (alone, in lists, tuples, dicts, groups and nested forms) and every input.',
  'Tests use one munge hook and one compute hook on valid input; the order and the data flow between all seven steps, and which '
  'steps are skipped on missing/null/ignored/invalid outcomes, are quantified over hook combinations and inputs.',
  [FI], [('pipeline', 'pilo/fields.py Field._map/Field.map'), ('user hooks', 'pilo/fields.py Hook')],
  ['trace recorded by the user hooks themselves', 'mapped form', 'returned errors'])

p('C02', 'Declared constraints admit exactly the conforming values',
  'A mapped value is stored in the form if and only if it satisfies every constraint its field declares: inclusive minimum and '
  'maximum values, exact/minimum/maximum length, pattern, alphabet, choices (or a translated choice), nullability, minimum/maximum '
  'item count, required keys and maximum key count. A value that violates any of them is left out of the form and reported as an '
  'invalid error, and a value that satisfies all of them is never rejected. A not-a-number never satisfies a bound.',
  ['inputs', 'configurations'],
  'Every declared combination of constraints (declared by constructor option or by chained setter) and every input value, in '
  'particular values on and next to each boundary.',
  'Tests try three violations (length, choices, bounds never at the edge); the property is over all declarations and values.',
  [FI], [('String/Number/List/Dict validation', 'pilo/fields.py String._validate, Number._validate, List._validate, Dict._validate, Field._validate')],
  ['mapped form', 'returned errors'])

p('C03', 'Primitive inputs convert to the value they denote or are rejected',
  'Text, integer, float, boolean and decimal fields map an input to precisely the value it denotes or report it invalid; they never '
  'store a different value or a value of another type. Native sources take text as text only, integers from integers, integral floats '
  'and integer text, floats from numbers and numeric text, booleans from booleans, integers (non-zero is true) and the words '
  '0/1/f/t/false/true in any letter case, and never a boolean as an integer; strict JSON takes only the matching JSON type (integers also as '
  'floats), lenient JSON also accepts integral floats and numeric text for numbers, integers for booleans, and anything as text. '
  'An untyped field passes its input through unchanged, and a parse hook that asks its location for a type (or one derived from it) gets what a field of that type would.',
  ['inputs', 'configurations'],
  'Every input value of every native/JSON type, for every primitive field type, against native, strict JSON and lenient JSON sources.',
  'Tests convert about ten literals, all through the native source and mostly valid.',
  [SRC, JS, FI],
  [('native conversions', 'pilo/source/__init__.py ParserMixin'), ('JSON conversions', 'pilo/source/json.py JsonSource.as_*'),
   ('decimal', 'pilo/fields.py Decimal._parse')],
  ['mapped form', 'returned errors'])

p('C04', 'Dates, times and identifiers parse only what their format denotes',
  'A date, time or datetime field maps text to exactly the moment that text denotes in (the first matching one of) its declared '
  'format(s), so that formatting the result with that format denotes the same moment again; text matching no declared format, or any text when no format is '
  'declared, is reported invalid and never silently stored as null or as another moment. Native date/time/datetime and UUID values pass '
  'through unchanged, before/after bounds are inclusive, and UUID text maps to the UUID it spells or is reported invalid.',
  ['inputs', 'configurations'],
  'Every format declaration (single, several, iso8601, none), every moment, every text including malformed ones, every before/after bound.',
  'No test parses a date or a time with a format, a bound or malformed text; one test parses one iso8601 datetime.',
  [FI], [('Date/Time/Datetime', 'pilo/fields.py Date, Time, Datetime, RangeMixin'), ('UUID', 'pilo/fields.py UUID._parse')],
  ['mapped form', 'returned errors'])

p('C05', 'Every failure is reported exactly once, with its exact location',
  'After a collecting mapping the returned errors contain exactly one error per input location that failed, in traversal '
  '(declaration, then index/key) order: "missing" for a required input that is absent, "invalid" otherwise, each carrying in its path '
  'and at the front of its message the full location (nested names, indices, and the location prefix of the source if it has one), '
  'also after mapping has ended, and, where a value was refused, a reason naming the value or the bound, choices or keys it broke (errors are of the classes the context names for their kind, if it names any); the list is empty exactly when every field succeeded. Constructing a form from data raises a single exception carrying '
  'exactly those errors in that order, and raising mode raises exactly when the list would be non-empty, with the same first error.',
  ['inputs', 'programs'],
  'Every form shape (nested forms, lists, tuples, dicts, groups, polymorphic forms) and every set of simultaneously failing locations.',
  'Tests check three flat failures and one list of two nested forms; the property is over all shapes and failure sets.',
  [FI, CX, SRC],
  [('error collection', 'pilo/fields.py Errors, CollectErrors, RaiseErrors, FormError, FieldError, Form._nested_map/_root_map'),
   ('location', 'pilo/source/__init__.py Path.__str__')],
  ['returned errors', 'raised exception'])

p('C06', 'Absent, null, ignored and filtered inputs follow the default rules',
  'A field whose input is absent, is ignored (listed in its ignored values, null included), is rejected by its filter, or is munged to "none" takes its '
  'default: a literal as it is, a callable or a default hook by calling it exactly once per need, "none"/optional by leaving the field out '
  'without error; with no default it is left out and reported as missing. Defaults are used as they are (never parsed, munged, filtered or validated) and are '
  'never used for an input that is present and mapped or invalid. Explicit null is not absence: unless ignored it maps to null, except when the field is declared '
  'non-nullable, in which case it is invalid; context flags can turn defaults off and silence missing errors, and nothing else. '
  'Mapping a form without a source is mapping an empty one.',
  ['inputs', 'configurations'],
  'Every kind of default on every kind of field, every absence/null/ignored/filtered cause, every setting of the two context flags.',
  'Tests use literal defaults for absent inputs only.',
  [FI, CX], [('defaults', 'pilo/fields.py Field._default, Field._map, Field.options'), ('flags', 'pilo/context.py Context.__init__')],
  ['mapped form', 'returned errors', 'default call counts'])

p('C07', 'Containers map every element once, in order, and under its own key',
  'List, tuple, dict, group and nested-form fields map every element of their input with the declared element field: the result '
  'holds exactly the elements that mapped successfully, in input order and each under its own index or (mapped) key; none is lost, '
  'duplicated, swapped or taken from another element. A tuple requires exactly its declared number of items; a list that allows a bare item wraps exactly '
  'that item; a group yields (key, captured match, value) for exactly the keys its patterns match, using the first matching pattern. '
  'A non-container input is reported invalid.',
  ['inputs', 'programs'],
  'Every nesting of containers, every element count (including zero), every mixture of valid, invalid, ignored and defaulted elements.',
  'Tests map a handful of short valid lists and dicts.',
  [FI, DEF, SRC], [('containers', 'pilo/fields.py List._parse, Tuple._parse, Dict._parse, Group._parse, SubForm._parse')],
  ['mapped form'])

p('C08', 'Unmapped capture, tag selection and reset touch exactly what they name',
  'With unmapped input ignored a form holds only its declared fields; with capture it additionally holds every key of the source (the aliases, where the source has them) that is not the name of '
  'a field already stored in it, each with its own value (raw, or mapped by the given key/value fields) and never overwrites a mapped field; any other directive is refused. '
  'Mapping restricted to tags maps, and with reset first clears, exactly the fields bearing at least one of the tags and leaves all other '
  'fields as they were; without tags it maps (and with reset clears) all of them. A nested form, plain or polymorphic, does with unmapped keys what its field tells it.',
  ['inputs', 'configurations', 'histories'],
  'Every source with extra keys, at top level and in nested forms, every capture directive, every tag assignment and tag selection, '
  'and every sequence of successive mappings of one form.',
  'One test captures one source; tags and reset are never exercised.',
  [FI], [('capture', 'pilo/fields.py Form._unmapped, Form._map'), ('tags and reset', 'pilo/fields.py Form._reset, Form.map, Field.tag')],
  ['form contents after each mapping'])

p('C09', 'A field read early has the value it ends up with, evaluated once',
  'While an empty form is being mapped, a hook that reads another field of its form (declared before or after, directly or through other '
  'fields, from inside lists and nested values) sees exactly the value that field has in the finished form, and each field is evaluated once, '
  'so computed, random or stateful values and error reports are not duplicated. Reading a field that has no value raises an attribute error and never '
  'yields an internal marker. Outside of mapping, reading an unset field of a form object computes it '
  'from hooks and defaults (and keeps it), and a failing required field raises a form error.',
  ['programs', 'inputs'],
  'Every acyclic pattern of reads between hooks and fields in any declaration order, at any nesting, over any kind of source.',
  'One test reads one later field from a format hook on a valid source.',
  [FI, CX], [('lazy read', 'pilo/fields.py Field.__get__'), ('rewind', 'pilo/context.py Context.rewind/restore'), ('pass', 'pilo/fields.py Form._map')],
  ['values seen by hooks', 'finished form', 'evaluation counts'])

p('C10', 'The mapping context is always restored',
  'Context variables, the current source and the current source location are scoped: inside a pushed scope the innermost value of a variable '
  'is seen and values_for lists all of them outermost first, and when a scope, a rewind or a reset ends, normally or by an exception, everything visible '
  'through the context (variables, source, location and the values found there) is exactly as before it began. Mapping a form, successfully or not, '
  'with hooks that raise at any step, leaves the context as it found it.',
  ['histories', 'programs', 'fault_sequences'],
  'Every nesting of pushes, source changes, resets and rewinds (to any frame), with an exception leaving at any point, and every form '
  'mapping with an exception thrown by any hook.',
  'The context test class is empty; other tests only push and pop linearly.',
  [CX, SRC, FI], [('scopes', 'pilo/context.py Context.push/reset/rewind/restore, Close'), ('location stack', 'pilo/source/__init__.py Path')],
  ['context variables', 'source location text and value'],
  state=[('ctx.stack', 'frames of the thread', 'pilo/context.py'), ('ctx.src_path', 'current location', 'pilo/context.py')])

p('C11', 'Threads mapping concurrently do not affect each other',
  'Any number of threads may map forms (of the same or different form types, over the same or different sources, including first uses of '
  'polymorphic types) and push context variables at the same time: each thread gets exactly the values, errors, hook calls and context it '
  'would get alone, under every interleaving. Concurrent mapping leaves process-wide state, such as warning filters, unchanged, and the '
  'declaration order of forms declared by one thread is not disturbed by others.',
  ['schedules'],
  'Every interleaving (at source-line granularity) of two or more threads mapping forms.',
  'All tests are single-threaded.',
  [CX, FI, INI], [('thread-local context', 'pilo/context.py Context(threading.local)'), ('type cache', 'pilo/fields.py Type.probe, pilo/__init__.py Types'),
                  ('creation counter', 'pilo/fields.py CreatedCountMixin')],
  ['per-thread results compared with the same work done alone', 'warnings.filters'])

p('C12', 'Polymorphic forms downcast to exactly the declared type',
  'Given a hierarchy of form types distinguished by a type field, an input whose identity (given, defaulted or computed from other inputs) is one a '
  'concrete type declares maps to an instance of exactly that type, at any depth of the hierarchy and through direct cast, probe or a polymorphic '
  'nested form, holding the same values as mapping that type directly; an unknown, malformed or missing identity is reported as a single invalid error '
  '(cast raises) and never yields another type. A type declared with a constant identity always carries that identity; '
  'a type field with one identity tells it as its value, one with none or several refuses to.',
  ['inputs', 'programs'],
  'Every hierarchy (depth, several identities per type, constant/instance/abstract/computed type fields, type field under another source key, sibling hierarchies) and every input.',
  'Tests cast four valid inputs over two flat hierarchies and never use a polymorphic nested form or an invalid identity.',
  [FI, INI], [('type map', 'pilo/__init__.py Types'), ('type field', 'pilo/fields.py Type'), ('nested', 'pilo/fields.py PolymorphicSubForm')],
  ['type and contents of mapped forms', 'errors'])

p('C13', 'The same data maps the same from every kind of source',
  'For data that all of them can express, mapping a form gives the same values, the same errors and the same error locations whether the data is given as '
  'native dicts/lists, as keyword arguments, as a source object, as JSON text (strict or lenient), as a union of that single source, or mounted under a '
  'name in a mount source (below that name); and for string-only data, as configuration text. Dotted keys of fields mean the same to native and JSON '
  'sources, also mounted.',
  ['inputs', 'configurations'],
  'Every form and every data value of matching type, valid or missing or wrongly shaped, including null and keys containing dots or brackets, through each kind of source.',
  'Each source is tested on one literal path walk; no test compares sources.',
  [SRC, DEF, JS, CFG, MNT, UNI], [('sources', 'pilo/source/*'), ('entry points', 'pilo/fields.py Form.__init__, Form._root_map')],
  ['mapped forms and errors across sources'])

p('C14', 'A union of sources merges by its policy, losing and inventing nothing',
  'A union presents, at its root, the keys of all its sources. Below it, mappings and sequences present in several sources are merged by policy: "combine" '
  'presents every key of every source (the earliest source winning for a value that several have) and the concatenation of the sequences in source order, "first" presents the earliest source\'s, "last" the '
  'latest source\'s, with separate policies for mappings and sequences where given, and "first" from the merge depth down where one is given. Single values come from the earliest '
  'of the remaining sources; sources that disagree on the kind of a merged container make it invalid; the given sources are not modified. '
  'Walking a location over a union shows the same, a copied location is independent of its original, and what is neither a source nor a mapping, or no policy, is refused.',
  ['inputs', 'configurations'],
  'Every number and content of sources, nested containers, policies, separate mapping/sequence policies and merge depths.',
  'One test merges two sources one level deep.',
  [UNI], [('merging', 'pilo/source/union.py Mapping, Sequence, Join, UnionPath')],
  ['mapped forms and errors over union sources'])

p('C15', 'A mount source shows each mounted source under its own name only',
  'Under each mount name a mount source presents exactly the content of the source mounted there (native, JSON, configuration or union), with values, errors and '
  'conversions as that source would give them and locations prefixed by "@name"; mounts do not influence each other, an unmounted name is absent, and the '
  'root is a mapping of the mount names; a copied location is independent of its original. Anything that is not a source, a dict or nothing is refused.',
  ['inputs', 'configurations'],
  'Every set of mounted sources, every form over it, valid or not, with absent mounts.',
  'No test uses a mount source.',
  [MNT], [('mount', 'pilo/source/mount.py MountSource, MountPath')],
  ['mapped forms and errors over mount sources'])

p('C16', 'Mapping is pure: inputs and declarations are untouched, results repeat',
  'Mapping never changes the data, text or sources it reads, nor the form type, its fields, their options or literal defaults, and keys coming from the data are only ever looked up: '
  'they never call, execute or reach attributes of the containers holding them. Mapping the same data again, with the same or a fresh form object, in '
  'any order and after any other successful or failing mappings, gives the same values and errors.',
  ['inputs', 'histories'],
  'Every data value (including hostile keys such as method names, "clear()" or dotted and bracketed keys) and every history of earlier mappings.',
  'Tests map each source once and never look at it again.',
  [FI, DEF, SRC, UNI], [('lookup', 'pilo/source/default.py DefaultPath'), ('declarations', 'pilo/fields.py Field, FormMeta')],
  ['deep snapshots of data and declarations before and after', 'repeated results'])

p('C17', 'No input data can crash or hang a collecting mapping',
  'For any form built from the provided fields and any data under a root mapping (values that can be compared and printed, nested within the interpreter\'s own limit), however wrongly typed, malformed or extreme, a collecting mapping terminates and '
  'returns: every problem becomes a missing or invalid error and no other exception escapes. A root that is not a mapping is refused with a source error.',
  ['inputs'],
  'Every value of every JSON type and of the native types dates, times, decimals, UUIDs, bytes, complex numbers and odd dict keys, for every provided field and option.',
  'Tests feed two or three wrong values.',
  [FI, SRC, JS, DEF], [('conversion to errors', 'pilo/fields.py Field._compute'), ('converters', 'pilo/source/__init__.py ParserMixin')],
  ['exceptions escaping a collecting mapping', 'logical steps taken'])

p('C18', 'Form objects copy, filter, munge and flatten faithfully',
  'A form object behaves as the mapping of its field values, with each field readable, writable and deletable as an attribute. Copying (also by the copy and pickle modules) gives an equal independent form of the same type; '
  'filtering by tags keeps exactly the set fields bearing one of the tags (or, inverted, none of them), at every level of nested forms kept, and leaves the original unchanged; '
  'munging calls the function once per declared field in order and keeps what it returns except "none", descending into nested forms and lists and tuples of forms; flattening yields each set leaf field '
  'with its path of fields exactly once, in declaration order; asking whether a form has a field (with a value that is not null) answers by name and by field alike.',
  ['inputs', 'programs'],
  'Every form type (nesting, tags, field names such as "items") and content.',
  'No test calls any of these operations.',
  [FI], [('form operations', 'pilo/fields.py Form.copy, Form.filter, Form.munge, Form.flatten, Form.has, Field.__get__/__set__/__delete__')],
  ['results of the operations'])

p('C19', 'Source locations resolve to exactly the value at that location',
  'Walking a source by pushing, popping, replacing, removing and inserting keys and indices, or by copies of a location, always shows, at each point, the value a direct lookup gives there (or absence), independent of what was looked at before; nothing exists '
  'below an absent location. A key names an existing item of that exact name first; failing that, for native sources, a root alias, an attribute of a native object, a dotted chain of lookups, and with a trailing "()" the result of calling (once) what it '
  'names; for JSON a dotted chain. Declared ignored locations are absent.',
  ['inputs', 'histories'],
  'Every data value and every sequence of key pushes and pops (present or not), with looks at any subset of points, for native, JSON and configuration sources.',
  'Tests walk one fixed path list over one literal.',
  [SRC, DEF, JS], [('path', 'pilo/source/__init__.py Path'), ('native lookup', 'pilo/source/default.py DefaultPath'), ('JSON lookup', 'pilo/source/json.py JsonPath')],
  ['existence, nullness, value and text of locations'])

p('C20', 'Forms have exactly their declared and inherited fields, in declaration order',
  'The fields of a form type are exactly those declared in it and inherited (a redeclared one replacing the inherited one at the '
  'inherited one\'s position), each once, under the name it is assigned to (one of them, if it has several) and reading from its declared key (the name unless given), and are mapped in declaration order, bases before '
  'derived; declaring or extending one form type never changes another, and a clone of a field can be changed without changing the original. '
  'Positional (list or tuple) input assigns items to fields in that same order.',
  ['programs'],
  'Every class hierarchy (single and multiple inheritance, overriding, forms built from keyword fields) and positional input.',
  'Tests declare flat forms and compare unordered dicts.',
  [FI], [('declaration', 'pilo/fields.py FormMeta, Field.attach, Field.clone, CreatedCountMixin'), ('positional', 'pilo/fields.py Form._seq_source')],
  ['order of hook calls and errors', 'form contents'])

p('C21', 'Mapping a mapped form reproduces it',
  'A form that mapped without error, given as the data for the same form type (fields read from their own names and value-preserving hooks), maps again without error to an '
  'equal form of the same types, including nested, listed and polymorphic forms, native dates, decimals and identifiers; and its JSON rendering, for fields that have one, does so too.',
  ['inputs', 'programs'],
  'Every form type whose hooks preserve values and every valid input.',
  'One test re-maps one form.',
  [FI, DEF], [('native passthrough', 'pilo/fields.py Date/Time/Datetime/Decimal/UUID._parse'), ('form as source', 'pilo/source/default.py')],
  ['mapped forms'])

p('C22', 'Code fields yield the named object or the namespace the code defines',
  'A code field given "module:attribute" text maps to that very attribute of that (possibly dotted) module; given a block of source text it maps to a fresh module holding '
  'exactly what the block defines, with no effect on other modules; non-text input passes through. A module or attribute that does not exist, code that does not compile or that raises, and '
  'text that is neither, are each reported as invalid.',
  ['inputs'],
  'Every code block and every module/attribute reference, valid or not.',
  'No test uses a code field.',
  [FI], [('code', 'pilo/fields.py Code')],
  ['mapped object and its namespace', 'errors'])

p('C23', 'Configuration text maps by sections, options, lists and bracketed keys',
  'A configuration source presents each section as a mapping of its options, or a chosen section as the root; an option reads as its text, converts to the declared type, splits '
  'into a list by lines when it has several and by shell words otherwise, and options written name[key] together read as one mapping under name. '
  'Defaults given for a section fill only options the section lacks; absent sections and options are absent; letter case of options is preserved exactly when asked, '
  'and so is the inner white-space of text of several lines in a file, which then reads as written. '
  'References to other options read as what they refer to, and an option that cannot be interpolated is invalid where it is read.',
  ['inputs', 'configurations'],
  'Every configuration text, with and without references between options, given as text, file or parser object, with and without section, defaults and case preservation.',
  'The one test looks up names that do not exist.',
  [CFG], [('config', 'pilo/source/configparser.py')],
  ['mapped forms and errors over configuration sources'])

p('C24', 'Field shorthands do what their long form does',
  'Translation replaces exactly the listed values and no other; a capture pattern stores the named (or first) group of text that matches and treats other text as absent; a format builds its text from the '
  'current values of the named (possibly dotted) fields; an integer or float pattern converts exactly the matched text; a constant always yields its value whatever the input, without changing the field it was derived from; '
  'a field taken from the context reads the innermost context variable of its name. '
  'An option given to the constructor, through options() or by a chained setter means the same; a default given along with optional is the default.',
  ['inputs', 'configurations'],
  'Every table, pattern, template and input.',
  'Tests use one format template; the others are never exercised.',
  [FI], [('shorthands', 'pilo/fields.py Field.translate/constant/from_context, String.capture/format, Integer.pattern, Float.pattern')],
  ['mapped form', 'errors'])

p('C25', 'Hooks and errors know the field, form and context they belong to',
  'While a field is mapped, each of its hooks sees through the context exactly that field, the form it is handed, the location of the field in the source, and every variable pushed around the mapping (the innermost '
  'one of a name). Each error names the very field that failed (of a form, or the item, key or value field of a container), says where and what, and is of the class the context gives for missing or invalid '
  'errors, if it gives one, at every level; the message of a raised form error lists each error with its class and text, in order. A nested form (plain or polymorphic) whose field is declared to attach its '
  'parent refers to the form it was mapped into, also when made by a default or read early, without keeping that form alive; null and absent values are left as they are, and nothing else about the mapping changes. '
  'Every name the package and its modules announce exists.',
  ['inputs', 'configurations'],
  'Every form, data and surrounding context variables, at every depth.',
  'Tests never look at the context from a hook, at the field of an error, or attach a parent.',
  [FI, 'pilo/context.py'], [('scenes', 'pilo/fields.py Field.map, Errors, FieldError, FormError; pilo/context.py')],
  ['context seen by hooks', 'fields and classes of errors', 'parent references'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as fo:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            fo.write(json.dumps(q) + '\n')
