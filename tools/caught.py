"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and logs of tools/plant.sh (python3 tools/caught.py LOG...)."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r'(\S+) \[P\d+\] \| (P\d+) exit=(\d) (\d+)s', line)
        if m:
            seen.setdefault(m[1], {})[m[2]] = 'caught' if m[3] == '1' else 'not caught'
rows = ['| planted change | property | what it breaks | caught by the quick check of |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    by = seen.get(i, {})
    rows.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} | '
                f'{", ".join(p for p in sorted(by) if by[p] == "caught") or ("none" if by else "not run")} |')
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
print(len(rows) - 2, 'changes,', sum('not run' in r for r in rows), 'not run,', sum(r.endswith('| none |') for r in rows), 'not caught')
