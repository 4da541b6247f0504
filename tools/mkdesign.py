#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, the repaired defects, tools/design_tail.md, the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*names):
    return open(os.path.join(HERE, *names)).read()


out = [read('tools', 'design_head.md')]
for line in json.loads(read('known_findings.json'))['fixed']:
    _, prop, commit, what = line.split(' ', 3)
    out.append('- {0} `{1}` {2}\n'.format(prop.split('=')[1], commit, what))
out.append(read('tools', 'design_tail.md'))
out.append("""## Planted bugs

`tools/seeds.py` holds them as edits with demonstrations; `tools/seed.py` builds `seeded/`, validates each (builds, passes the tests, its
demonstration fails with it only) and runs the check of its property (with `--all`, every check). "Also" names other checks
that were run and reported it. Mutation testing (`tools/mutate.py`: small syntactic changes to pilo that pass its tests) was used as well,
to find what no check reports.

| bug | property | what it breaks | caught by its check | also |
|---|---|---|---|---|
""")
results = json.loads(read('tools', 'seed_results.json'))
for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.loads(read('seeded', name, 'meta.json'))
    caught, ran = results.get(name, [[], []])
    own = meta['property']
    out.append('| {0} | {1} | {2} | {3} | {4} |\n'.format(name, own, meta['what_it_breaks'].replace('|', '/'), 'yes' if own in caught else 'NO' if own in ran else 'not run',
                                                       ' '.join(c for c in caught if c != own)))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(''.join(out))
