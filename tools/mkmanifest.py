#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the check modules that exist."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

TECH = {
    'C01': 'hook-trace monitor: step/argument trace of user hooks checked online against a step model',
    'C02': 'value monitor: stored/rejected verdicts checked against an independent constraint evaluator',
    'C03': 'value monitor: converted values checked against independent conversion tables',
    'C04': 'value monitor: parsed moments checked against an independent format reader and bounds evaluator',
    'C05': 'error-log monitor: error list, order, locations and raised exceptions checked against a model',
    'C06': 'default-call monitor: default values and call counts checked against a model',
    'C07': 'element conservation monitor: per-element results checked against a container model',
    'C08': 'history monitor: form contents after each mapping of a sequence checked against a model',
    'C09': 'read/evaluation log monitor: values seen by hooks and evaluation counts checked offline',
    'C10': 'stack-discipline monitor: context snapshots around every scope under injected exceptions',
    'C11': 'controlled-schedule thread stress: per-thread results compared with the same work done alone',
    'C12': 'type monitor: classes and contents of downcast forms checked against the declared hierarchy',
    'C13': 'differential monitor: outcome of one mapping compared across kinds of source',
    'C14': 'merge monitor: mapped unions checked against an independent merge model',
    'C15': 'differential monitor: mounted mapping compared with the mapping of the mounted source alone',
    'C16': 'snapshot monitor: deep snapshots of data, sources and declarations around mappings; call traps in data',
    'C17': 'crash/termination monitor: escaping exceptions and step counts under hostile inputs',
    'C18': 'operation monitor: form operations checked against a dictionary model',
    'C19': 'walk monitor: source locations compared with direct lookups after every push/pop',
    'C20': 'declaration monitor: field order, names and mapping order checked against a declaration model',
    'C21': 'idempotence monitor: mapped forms remapped and compared',
    'C22': 'namespace monitor: module namespaces and sys.modules compared before/after',
    'C23': 'differential monitor: configuration text rendered from a model and compared with it',
    'C24': 'value monitor: shorthand fields checked against their long-form evaluation',
    'C25': 'scene monitor: field, form, location and variables seen by every hook, and field and class of every error, checked against a model',
}
LEVEL_NOTE = (
    'Runtime monitoring: the real library runs under randomly generated forms, data and histories; an oracle independent of the library '
    'judges each execution. It decides the executions it produced (counted in the evidence), not all of them; it trusts the oracle in pv/ '
    'and the interpreter of /opt/venv.')

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'pv', 'props', i.lower() + '.py')):
        checks.append({
            'property': i, 'quick_cmd': 'bash run.sh ' + i, 'thorough_cmd': 'bash run.sh {0} --thorough'.format(i),
            'evidence_file': 'evidence/{0}.json'.format(i), 'technique': TECH[i], 'level': 'exploration', 'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
doc = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Pure Python: nothing to build; checks import pilo from /repo with bytecode caching off. No hooks were added to /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
    json.dump(doc, fo, indent=1)
    fo.write('\n')
