#!/usr/bin/env python3
"""
Plants bugs: seed.py SPECS.py [id...]

SPECS.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (python).
For each: builds the patch in a scratch copy, confirms that the original repository's lines are what it
changes, that the tests pass, that the demonstration passes without and fails with it, writes
seeded/<id>/ and says which checks report it (its own property's, or all with --all).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'a8a1d97'
#: where to keep bugs that are only tried, or None
ELSEWHERE = os.environ.get('PVSEED_DST')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; non-zero: it does not
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd=None, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


LOCK = threading.Lock()


def note(bug, ran, hits):
    """Which checks reported it, and which were run, for DESIGN.md."""
    path = os.path.join(HERE, 'tools', 'seed_results.json')
    with LOCK:
        doc = json.load(open(path)) if os.path.exists(path) else {}
        caught = set(doc.get(bug, [[], []])[0]) - set(ran) | set(hits)
        doc[bug] = [sorted(caught), sorted(set(doc.get(bug, [[], []])[1]) | set(ran))]
        with open(path, 'w') as f:
            json.dump(doc, f, indent=0, sort_keys=True)
            f.write('\n')


def one(bug, every):
    work = tempfile.mkdtemp(prefix='pvseed-', dir='/tmp')
    try:
        repo = os.path.join(work, 'repo')
        run(['git', 'clone', '-q', '/repo', repo])
        for path, old, new in bug['edits']:
            full = os.path.join(repo, path)
            text = open(full).read()
            if text.count(old) != 1:
                return bug, 'EDIT matches {0} times in {1}: {2!r}'.format(text.count(old), path, old)
            open(full, 'w').write(text.replace(old, new))
        _, diff = run(['git', 'diff'], repo)
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        touched = set(path for path, _, _ in bug['edits'])
        original = set()
        for path in touched:
            original.update(run(['git', 'show', BASE + ':' + path], repo)[1].splitlines())
        if not ELSEWHERE and removed and not any(l in original and l.strip() for l in removed):
            return bug, 'changes no line of the original repository'
        code, out = run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests'], repo, dict(ENV, PYTHONPATH=repo))
        if code:
            return bug, 'TESTS FAIL ' + out[-1500:]
        dst = os.path.join(ELSEWHERE or os.path.join(HERE, 'seeded'), bug['id'])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dst, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        open(os.path.join(dst, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        with open(os.path.join(dst, 'meta.json'), 'w') as fo:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, fo, indent=2)
            fo.write('\n')
        code, out = run(['bash', os.path.join(dst, 'demo.sh')], repo)
        if code == 0:
            return bug, 'DEMO PASSES with the patch'
        bad = out
        run(['git', 'checkout', '-q', '--', '.'], repo)
        code, out = run(['bash', os.path.join(dst, 'demo.sh')], repo)
        if code:
            return bug, 'DEMO FAILS without the patch ' + out
        code, out = run(['git', 'apply', os.path.join(dst, 'patch.diff')], repo)
        if code:
            return bug, 'PATCH does not apply ' + out
        verif = os.path.join(work, 'verif')
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        hits = []
        ran = []
        checks = [bug['property']] + ([c for c in ['C%02d' % i for i in range(1, 40)] if c != bug['property'] and os.path.exists(os.path.join(verif, 'pv', 'props', c.lower() + '.py'))] if every else [])
        for check in checks:
            ran.append(check)
            code, out = run(['bash', os.path.join(verif, 'run.sh'), check], verif, dict(ENV, PILO_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_WORKERS='3'))
            if code == 1 and 'VIOLATION property=' + check in out:
                hits.append(check)
            elif code:
                hits.append('{0}?{1}'.format(check, code))
        if not ELSEWHERE:
            note(bug['id'], ran, hits)
        return bug, 'demo: ' + bad.strip().splitlines()[-1][:110] + '\n    caught by ' + (', '.join(hits) or 'NOTHING')
    finally:
        shutil.rmtree(work)


def main():
    args = [a for a in sys.argv[1:] if a != '--all']
    ns = {}
    exec(open(args[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
    with ThreadPoolExecutor(2) as pool:
        for bug, what in pool.map(lambda b: one(b, '--all' in sys.argv), bugs):
            print('{0} {1}: {2}'.format(bug['id'], bug['property'], what))
            sys.stdout.flush()


if __name__ == '__main__':
    main()
