#!/usr/bin/env python3
"""
The defects repaired in /repo: fixed.py writes them to known_findings.json; fixed.py --revert [commit...] undoes each alone
in a scratch copy and says whether the check of its property reports the defect again.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a8a1d97'

# subject of the commit (without "fix: "), in order -> property, what failed
FIXED = [
    ('JsonSource does not pass', 'C13', 'JsonSource(text) raised TypeError for any text: json.loads has no encoding argument'),
    ('JsonSource finds keys that contain dots', 'C19', 'JsonSource: a key of the text containing a dot was absent'),
    ('ConfigSource accepts configuration text', 'C23', 'ConfigSource(text) raised on Python 3'),
    ('ConfigSource preserve_case applies', 'C23', 'ConfigSource(text, preserve_case=True) folded the case of options'),
    ('configuration sections can be iterated', 'C23', 'keys of a configuration section raised on Python 3'),
    ('ConfigSource without section and defaults', 'C23', 'ConfigSource(text) with neither section nor defaults failed to look sections up'),
    ('MountSource works on Python 3', 'C15', 'mount(...) raised on Python 3'),
    ('rewinding to the innermost frame', 'C10', 'ctx.rewind to the innermost frame dropped every frame'),
    ('a date matching none of its formats', 'C04', 'Date(format=[...]) stored null for text matching none of the formats'),
    ('malformed decimals', 'C17', 'Decimal: malformed text escaped as decimal.InvalidOperation'),
    ('integers too large for a float', 'C17', 'Float: an integer beyond the range of floats escaped as OverflowError'),
    ('not-a-number does not satisfy', 'C02', 'Float(min_value=, max_value=) accepted nan'),
    ('moments that cannot be compared', 'C17', 'Date/Datetime bounds against a naive/aware or other kind of moment escaped as TypeError'),
    ('a float pattern converts', 'C24', 'Float(...).pattern stored an integer, dropping the fraction'),
    ('code blocks define their names', 'C22', 'Code: functions of a code block did not see the names of the block'),
    ('code references into dotted modules', 'C22', 'Code: "package.module:attribute" was not found'),
    ('text that merely starts like a code reference', 'C22', 'Code: text after a valid reference was ignored'),
    ('fields taken from the context work', 'C24', 'from_context raised: contextlib.nested is gone'),
    ('mapping does not swap the process-wide warning', 'C11', 'mapping in several threads left the warning filters of the process changed'),
    ('asking for a field by name', 'C18', 'form.has(name) took the value of the field for the field, and let its errors escape'),
    ('primitives of derived types', 'C03', 'a native value of a type derived from a primitive type had no parser: KeyError'),
    ('keys that are neither text nor integers', 'C17', 'a key of the data that is neither text nor integer escaped as TypeError'),
    ('nothing exists below an absent location', 'C19', 'a location below an absent one existed'),
    ('keys from the data never call', 'C16', 'a key of the data such as "clear()" called that method of the container'),
    ('text is not a sequence of items', 'C07', 'List over native text mapped its characters'),
    ('positional input respects', 'C20', 'positional input of fields with src= was not found'),
    ('fields can be declared concurrently', 'C11', 'fields declared by several threads could share one creation count'),
    ('methods of native containers', 'C16', 'an absent key named like a method of the container ("keys") was found'),
    ('names that are not mounted', 'C15', 'a name that is not mounted raised instead of being absent'),
    ('mount paths report errors', 'C15', 'a root or wrongly typed value of a mount source raised AttributeError instead of a source error'),
    ('a union does not modify the list', 'C14', 'union(list) consumed the given list'),
    ('single values of a union convert', 'C14', 'a single value of a union could be asked for once only'),
    ('native decimals, dates and times map', 'C14', 'Decimal/Date/Time over a union of native values raised'),
    ('null in a union is null', 'C14', 'null in a union was no null'),
    ('the merge depth of a union', 'C14', 'depth= of a union counted sources'),
    ('an invalid sequence merge', 'C14', 'an unknown merge= for sequences raised NameError'),
    ('items of a union inside a union', 'C14', 'items of a union in a union were looked up under the wrong index'),
    ('rewinding restores the source location', 'C10', 'ctx.rewind left the location at another node'),
    ('changing a clone', 'C20', 'a hook or option of a clone changed the original'),
    ('errors keep the location', 'C05', 'the path of an error changed after mapping went on'),
    ('bare fields in a group', 'C07', 'Group(Field) without a pattern mapped no key'),
    ('default hooks obey the context flag', 'C06', 'a default hook ran with defaults turned off'),
    ('null passes a capture pattern', 'C24', 'String().capture over null escaped as TypeError'),
    ('values that cannot be looked up', 'C24', 'translate of an unhashable value escaped as TypeError'),
    ('required keys can be given as a list', 'C02', 'Dict(required_keys=[...]) raised'),
    ('zero is a length', 'C02', 'length=0, max_length=0 and max_keys=0 were no constraint'),
    ('forms with fields named like dict methods can be copied', 'C18', 'a form with a field named "items" could not be copied, nor capture'),
    ('a type field without identity', 'C12', 'a type field of several choices without identity gave an internal marker'),
    ('any native mapping can be mapped', 'C13', 'a mapping that is no dict was refused as a root'),
    ('fields are evaluated once per mapping', 'C09', 'a field read early was evaluated again, or gave an internal marker'),
    ('numbers that cannot be compared', 'C17', 'a number incomparable with the bound (signalling nan, complex) escaped'),
    ('keys that are not text are invalid', 'C17', 'a constrained text key field over a key that is not text escaped as TypeError'),
    ('required keys that are not text', 'C17', 'Dict(required_keys=[1]) raised instead of reporting'),
    ('groups do not match their patterns', 'C17', 'Group over keys that are not text escaped as TypeError'),
    ('groups declared optional', 'C06', 'Group().optional() stored an empty list'),
    ('forms nested under a null key', 'C02', 'SubForm(src=None) was mapped as if outside of a mapping: it failed for want of a source'),
    ('captured input does not overwrite', 'C08', 'captured input overwrote a mapped field of that name'),
    ('iso8601 dates and datetimes format', 'C04', 'munging/formatting a date or datetime with format="iso8601" gave the text "iso8601"'),
    ('native times format as text', 'C18', 'Time.format of a native datetime.time replaced the format of the field'),
    ('null in a mounted union', 'C15', 'null in a union mounted in a mount source was no null'),
    ('a location ending in () that names nothing', 'C17', 'a key ending in "()" of something not callable escaped as TypeError'),
    ('a configuration without the chosen section', 'C23', 'ConfigSource(section=absent) escaped as NoSectionError'),
    ('munging and filtering a form keeps tuples', 'C18', 'munge and filter turned tuples of forms into lists'),
    ('ignored locations are absent however', 'C19', 'an ignored location was found when its container was mapped raw or by alias'),
    ('ignored locations are not among the keys', 'C19', 'an ignored location was a key of its mapping'),
    ('what a native location shows', 'C19', 'a native location reached before and after its container was looked at showed different values (aliases, ignores)'),
    ('a form with a field named keys', 'C21', 'a form with a field named "keys" could not be mapped from'),
    ('an option is part of a mapping only', 'C23', 'option "name[key]suffix" was part of the mapping "name"'),
    ('white-space is preserved for the option', 'C23', 'preserve_whitespace applied to an option whose name only starts alike'),
    ('attaching a parent passes over null', 'C25', 'SubForm(..., attach_parent=True): mapping null or a null default escaped as AttributeError'),
    ('the names pilo.fields announces', 'C25', 'from pilo.fields import * raised AttributeError: __all__ lacked commas'),
    ('an abstract type field has no value', 'C12', 'Type.abstract().value gave an internal hook object instead of TypeError'),
    ('options filled by defaults are among', 'C23', 'a section mapped as a mapping lacked the options filled by defaults'),
    ('configuration that cannot be interpolated', 'C23', 'a stray "%" in configuration text escaped as InterpolationSyntaxError'),
    ('a copied location of a mount', 'C15', 'a copy of a location where nothing is mounted shared its keys with the original'),
    ('a copied location of a union', 'C14', 'a copy of a location of a union moved with the original'),
    ('what was found below a changed part', 'C19', 'after an earlier key of a location was replaced or removed, the location still showed what was found before'),
    ('several tags can be given', 'C24', 'a field given several tags as its tags option raised TypeError'),
    ('a value that a format cannot take', 'C17', 'String().format("{x:>7}", x="x"): null for x escaped as TypeError'),
    ('a field that reads the empty key', 'C20', 'a field with the empty text as its key was missing in positional data'),
    ('a comment inside an option does not end', 'C23', 'ConfigSource(preserve_whitespace=True) lost what follows a comment in the first column of an option'),
    ('a form that declares a field named src', 'C09', 'reading an unset field of a form that declares a field named src, outside of mapping, recursed without end or failed'),
    ('choices may be given as a tuple', 'C02', "String(choices=('a', 'b')) refused every text, also 'a'"),
    ('tags may be given as a tuple', 'C08', "mapping with tags=('t',) raised TypeError"),
]


def commits():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..'], stdout=subprocess.PIPE, check=True)
    lines = [l.split(' ', 1) for l in out.stdout.decode().splitlines()]
    lines = [(h, s[len('fix: '):]) for h, s in lines if s.startswith('fix: ')]
    assert len(lines) == len(FIXED), (len(lines), len(FIXED))
    for (h, s), (start, prop, what) in zip(lines, FIXED):
        assert s.startswith(start), (s, start)
        yield h, s, prop, what


def write():
    path = os.path.join(HERE, 'known_findings.json')
    doc = json.load(open(path))
    doc['fixed'] = ['fixed: property={0} {1} {2}'.format(prop, h, what) for h, s, prop, what in commits()]
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write('\n')


def revert(item):
    h, s, prop, what = item
    work = tempfile.mkdtemp(prefix='pvfix-', dir='/tmp')
    try:
        repo = os.path.join(work, 'repo')
        env = dict(os.environ, PILO_REPO=repo, VERIF_WORKERS='2', VERIF_SEED='1')
        sh = lambda *a, **k: subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
        sh('git', 'clone', '-q', '/repo', repo)
        p = sh('git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x', 'revert', '--no-commit', h)
        if p.returncode:
            return '{0} {1}: does not revert alone'.format(h, prop)
        first = sh('bash', os.path.join(HERE, 'run.sh'), prop, env=env)
        if first.returncode == 1:
            return '{0} {1}: reported'.format(h, prop)
        others = []
        for n in range(1, 26):
            other = 'C{0:02d}'.format(n)
            if other != prop and sh('bash', os.path.join(HERE, 'run.sh'), other, env=env).returncode == 1:
                others.append(other)
        return '{0} {1}: NOT REPORTED ({2}) rc={3}, but by {4}'.format(h, prop, what, first.returncode, others)
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--revert']:
        wanted = sys.argv[2:]
        todo = [c for c in commits() if not wanted or c[0] in wanted]
        with ThreadPoolExecutor(3) as pool:
            for line in pool.map(revert, todo):
                print(line, flush=True)
    else:
        write()
