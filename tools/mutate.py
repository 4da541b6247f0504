#!/usr/bin/env python3
"""
Mutation testing of the checks: mutants of pilo, in scratch copies, that pass
the repository's own tests, and which of them no check reports.

    mutate.py OUT.jsonl [--files a,b] [--scale 0.25] [--jobs 4] [--sample N] [--seed S] [--only id,id]
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['pilo/__init__.py', 'pilo/context.py', 'pilo/fields.py', 'pilo/source/__init__.py', 'pilo/source/default.py', 'pilo/source/json.py',
         'pilo/source/configparser.py', 'pilo/source/mount.py', 'pilo/source/union.py']
CHECKS = ['C%02d' % i for i in range(1, 26)]
FIRST = {
    'pilo/__init__.py': ['C12', 'C11'], 'pilo/context.py': ['C10', 'C09', 'C24', 'C11'], 'pilo/fields.py': ['C01', 'C05', 'C02', 'C07', 'C18', 'C20', 'C24', 'C04', 'C06', 'C22', 'C12', 'C08'],
    'pilo/source/__init__.py': ['C19', 'C03', 'C10', 'C17'], 'pilo/source/default.py': ['C19', 'C16'], 'pilo/source/json.py': ['C03', 'C13', 'C19'],
    'pilo/source/configparser.py': ['C23', 'C13'], 'pilo/source/mount.py': ['C15', 'C13'], 'pilo/source/union.py': ['C14', 'C13'],
}
NEAR = {
    'pilo/__init__.py': ['C12'], 'pilo/context.py': ['C10', 'C09', 'C24', 'C25'], 'pilo/source/__init__.py': ['C19', 'C03', 'C13', 'C17', 'C05', 'C15'],
    'pilo/source/default.py': ['C19', 'C16', 'C13', 'C20', 'C05', 'C03', 'C08'], 'pilo/source/json.py': ['C03', 'C13', 'C19', 'C05', 'C17'],
    'pilo/source/configparser.py': ['C23', 'C13', 'C05', 'C17', 'C16'], 'pilo/source/mount.py': ['C15', 'C13', 'C10', 'C05'], 'pilo/source/union.py': ['C14', 'C13', 'C10', 'C05', 'C16'],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def replace(emit, nodes, i, line, what, by, text):
    def change(found):
        for parent in ast.walk(found[0]):
            for name, value in ast.iter_fields(parent):
                if value is found[i]:
                    setattr(parent, name, by(found[i]))
                    return
                if isinstance(value, list):
                    for j, item in enumerate(value):
                        if item is found[i]:
                            value[j] = by(found[i])
                            return
        return False
    emit(line, what + ': ' + text, change)


def mutants(source):
    """(line, description, new source)"""
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    out = []

    def emit(line, what, change):
        new = copy.deepcopy(tree)
        found = list(ast.walk(new))
        if change(found) is False:
            return
        ast.fix_missing_locations(new)
        try:
            text = ast.unparse(new)
        except Exception:
            return
        out.append((line, what, text))

    def at(i):
        return lambda found: found[i]

    for i, n in enumerate(nodes):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    def change(found, i=i, j=j, alt=alt):
                        found[i].ops[j] = alt()
                    emit(line, '{0} -> {1}: {2}'.format(type(op).__name__, alt.__name__, ast.unparse(n)), change)
        if isinstance(n, ast.BoolOp):
            def change(found, i=i):
                found[i].op = ast.Or() if isinstance(found[i].op, ast.And) else ast.And()
            emit(line, 'and/or: ' + ast.unparse(n), change)
            for j in range(len(n.values)):
                def change(found, i=i, j=j):
                    del found[i].values[j]
                    if len(found[i].values) == 1:
                        found[i].op = ast.And()
                emit(line, 'drop operand {0}: {1}'.format(j, ast.unparse(n)), change)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def change(found, i=i):
                found[i].operand = ast.UnaryOp(op=ast.Not(), operand=found[i].operand)
            emit(line, 'drop not: ' + ast.unparse(n), change)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            alts = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, (int, float)) else []
            for alt in alts:
                def change(found, i=i, alt=alt):
                    found[i].value = alt
                emit(line, 'constant {0!r} -> {1!r}'.format(v, alt), change)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            def change(found, i=i):
                found[i].op = ast.Sub() if isinstance(found[i].op, ast.Add) else ast.Add()
            emit(line, '+/-: ' + ast.unparse(n), change)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for value in (True, False):
                def change(found, i=i, value=value):
                    found[i].test = ast.Constant(value=value)
                if isinstance(n, ast.While) and value:
                    continue
                emit(line, 'if {0}: {1}'.format(value, ast.unparse(n.test)), change)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            def change(found, i=i):
                found[i].value = ast.Constant(value=None)
            emit(line, 'return None: ' + ast.unparse(n), change)
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for j in range(len(n.type.elts)):
                def change(found, i=i, j=j):
                    del found[i].type.elts[j]
                emit(line, 'drop except {0}'.format(ast.unparse(n.type.elts[j])), change)
        if isinstance(n, ast.Call):
            for j in range(len(n.args)):
                if isinstance(n.args[j], ast.Starred):
                    continue
            for j in range(len(n.keywords)):
                def change(found, i=i, j=j):
                    del found[i].keywords[j]
                emit(line, 'drop keyword: ' + ast.unparse(n), change)
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'dict', 'set', 'sorted', 'str', 'reversed') and len(n.args) == 1 and not n.keywords or (
                    ast.unparse(n.func) == 'copy.copy'):
                replace(emit, nodes, i, line, 'unwrap', lambda node: node.args[0], ast.unparse(n))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('strip', 'rstrip', 'lower', 'clone', 'keys', 'items', 'values'):
                replace(emit, nodes, i, line, 'unwrap', lambda node: node.func.value, ast.unparse(n))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def change(found, i=i):
                    found[i].args.reverse()
                if ast.unparse(n.func) not in ('isinstance', 'issubclass', 'getattr', 'hasattr', 'super'):
                    emit(line, 'swap args: ' + ast.unparse(n), change)
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module,)):
                continue
            for j in range(len(body) - 1):
                a, b = body[j], body[j + 1]
                simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.With, ast.Try)
                if not isinstance(n, ast.ClassDef) and isinstance(a, simple) and isinstance(b, simple) and not (isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant)):
                    def change(found, i=i, j=j, field=field):
                        body = getattr(found[i], field)
                        body[j], body[j + 1] = body[j + 1], body[j]
                    emit(a.lineno, 'swap statements: ' + ast.unparse(a).splitlines()[0], change)
            for j, st in enumerate(body):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.For, ast.If, ast.Return)):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(n, ast.ClassDef):
                        continue

                    def change(found, i=i, j=j, field=field):
                        getattr(found[i], field)[j] = ast.Pass()
                    emit(st.lineno, 'delete: ' + ast.unparse(st).splitlines()[0], change)
                if isinstance(st, (ast.Continue,)):
                    def change(found, i=i, j=j, field=field):
                        getattr(found[i], field)[j] = ast.Break()
                    emit(st.lineno, 'continue -> break', change)
                if isinstance(st, (ast.Break,)):
                    def change(found, i=i, j=j, field=field):
                        getattr(found[i], field)[j] = ast.Continue()
                    emit(st.lineno, 'break -> continue', change)
    return out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


def run(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def judge(job):
    index, path, line, what, text, args = job
    work = tempfile.mkdtemp(prefix='pvmut-', dir='/tmp/mut')
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.pyc'))
        with open(os.path.join(repo, path), 'w') as fo:
            fo.write(text)
        env = dict(ENV, PYTHONPATH=repo)
        code, out = run(['bash', '-c', 'cd {0} && timeout 60 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -o addopts= tests'.format(repo)], env, 90)
        if code != 0:
            return None
        verif = os.path.join(work, 'verif')
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        env = dict(ENV, PILO_REPO=repo, VERIF_SCALE=str(args.scale), VERIF_WORKERS='2', VERIF_SEED='1', VERIF_TIER='quick')
        order = FIRST.get(path, []) + [c for c in CHECKS if c not in FIRST.get(path, [])]
        if args.near:
            order = NEAR.get(path, FIRST[path])
        killed, odd = [], []
        for check in order:
            code, out = run(['bash', os.path.join(verif, 'run.sh'), check], env, 600)
            if 'VIOLATION property=' + check in out:
                killed.append(check)
                if not args.all:
                    break
            elif code not in (0, 2):
                odd.append((check, code, out[-300:]))
        return {'index': index, 'file': path, 'line': line, 'what': what, 'killed': killed, 'odd': odd}
    finally:
        shutil.rmtree(work)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--scale', type=float, default=0.25)
    ap.add_argument('--near', action='store_true', help='only the checks nearest to each file')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--lines')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--redo', help='an earlier OUT: only those no check killed')
    args = ap.parse_args()
    redo = None
    if args.redo:
        redo = set((r['file'], r['what'], r['line']) for r in map(json.loads, open(args.redo)) if not r['killed'])
    jobs = []
    for path in (args.files.split(',') if args.files else FILES):
        for line, what, text in mutants(open(os.path.join(REPO, path)).read()):
            if args.lines and not int(args.lines.split('-')[0]) <= line <= int(args.lines.split('-')[1]):
                continue
            if redo is not None and (path, what, line) not in redo:
                continue
            jobs.append((len(jobs), path, line, what, text, args))
    if args.sample:
        jobs = random.Random(args.seed).sample(jobs, min(args.sample, len(jobs)))
    print(len(jobs), 'mutants')
    done = survived = invalid = 0
    with open(args.out, 'a') as fo, ThreadPoolExecutor(args.jobs) as pool:
        for result in pool.map(judge, jobs):
            done += 1
            if result is None:
                invalid += 1
                continue
            if not result['killed']:
                survived += 1
                print('SURVIVED {file}:{line} {what} {odd}'.format(**result))
            fo.write(json.dumps(result) + '\n')
            fo.flush()
            if done % 20 == 0:
                print('... {0} done, {1} fail the tests, {2} survived'.format(done, invalid, survived))
                sys.stdout.flush()
    print(done, 'mutants', invalid, 'fail the tests', survived, 'survived')


if __name__ == '__main__':
    main()
