"""
Runs one form specification over one input through the real library and
through the model of pv.spec, and compares what the monitors saw.
"""
import copy
import json

from . import spec
from .spec import Builder, canon, model_root, outcome_errors, real_root


def source_for(kind, data, pilo, prefix=''):
    """(source object or native data, model source kind, location prefix)."""
    if kind == 'native':
        return data, 'native', ''
    if kind == 'default':
        return pilo.DefaultSource(data), 'native', ''
    if kind == 'located':
        return pilo.DefaultSource(data, location='here'), 'native', 'here:'
    if kind in ('strict', 'lenient'):
        return pilo.source.JsonSource(json.dumps(data), strict=kind == 'strict'), kind, ''
    if kind == 'json-located':
        return pilo.source.JsonSource(json.dumps(data), location='f.json'), 'lenient', 'f.json:'
    raise KeyError(kind)


class Run(object):
    """Both runs of one input."""


def run(form, data, kind='native', error='collect', unmapped='ignore', tags=None, ctx_vars=None, builder=None, around=None):
    import pilo
    r = Run()
    r.form_spec, r.data = form, data
    r.builder = builder or Builder()
    r.builder.trace[:] = []
    r.builder.default_calls[:] = []
    r.cls = form.build(r.builder)
    src, model_source, prefix = source_for(kind, data, pilo)
    flags = dict(ctx_vars or {})
    r.model, r.want = model_root(
        form, json.loads(json.dumps(data)) if kind in ('strict', 'lenient', 'json-located') else data,
        source=model_source, unmapped=unmapped, tags=tags, prefix=prefix, **flags)
    kwargs = {'unmapped': unmapped, 'error': error}
    if tags:
        kwargs['tags'] = tags
    seen = dict(flags, **(around or {}))      # the model is not told of the others
    if seen:
        with pilo.ctx(**seen):
            r.form, r.got = real_root(r.cls, src, **kwargs)
    else:
        r.form, r.got = real_root(r.cls, src, **kwargs)
    r.trace = list(r.builder.trace)
    r.default_calls = list(r.builder.default_calls)
    return r


def shape_key(form, r):
    return (form.shape(), tuple(r.model.errors), len(r.model.trace))


def witness(r, **more):
    return dict(form=r.form_spec, data=r.data, **more)


def judge_outcome(case, r):
    """The mapping must return, unless a hook raised something of its own."""
    case.expect(
        r.got[0] == r.want[0] and (r.got[0] == 'ok' or r.got[1] == r.want[1]), 'outcome',
        'mapping ended with {0}, expected {1}'.format(spec_text(r.got), spec_text(r.want)), **witness(r))
    return r.got[0] == 'ok'


def spec_text(outcome):
    return '{0} {1!r}'.format(outcome[0], outcome[1:])[:400]


def judge_values(case, r, mechanism='values'):
    got = canon(r.form)
    want = canon(r.want[1])
    case.equal(got, want, mechanism, 'the mapped form differs from the model', **witness(r))


def judge_errors(case, r, mechanism='errors'):
    errors = r.got[1]
    got = outcome_errors(errors)
    case.equal(got, r.model.errors, mechanism, 'the reported errors differ from the model', **witness(r))
    for e, (_, where) in zip(errors, r.model.errors):
        case.equal(str(e.path), where, mechanism + '-path', 'the path of an error differs from its location', **witness(r))


def judge_trace(case, r, mechanism='trace'):
    case.equal(r.trace, r.model.trace, mechanism, 'the steps that ran differ from the documented ones', **witness(r))


def judge_defaults(case, r, mechanism='default-calls'):
    case.equal(r.default_calls, r.model.default_calls, mechanism, 'defaults were called differently', **witness(r))


def judge(case, r, parts):
    if not judge_outcome(case, r):
        case.event('outcome', 'raised')
        if 'trace' in parts:
            judge_trace(case, r)
        return
    for kind, _ in r.model.errors:
        case.event('error', kind)
    for entry in r.model.trace:
        case.event('hook', entry[1])
    if 'values' in parts:
        judge_values(case, r)
    if 'errors' in parts:
        judge_errors(case, r)
    if 'trace' in parts:
        judge_trace(case, r)
    if 'defaults' in parts:
        judge_defaults(case, r)
    case.distinct(shape_key(r.form_spec, r))
