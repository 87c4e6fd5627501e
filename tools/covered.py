"""covered.py FOLDER...: which lines of the functions of sampo no run of DST_COV=FOLDER ./run.sh ... has executed."""
import ast
import collections
import glob
import os
import sys

REPO = os.environ.get('REPO', '/repo')
seen = collections.defaultdict(set)
for d in sys.argv[1:]:
    for f in glob.glob(d + '/*'):
        for line in open(f):
            a, b = line.rsplit(':', 1)
            seen[a].add(int(b))
total = missed = 0
for path in sorted(glob.glob(REPO + '/sampo/**/*.py', recursive=True)):
    rel = path[len(REPO) + 1:]
    tree = ast.parse(open(path).read())
    out = []
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        lines = {s.lineno for s in ast.walk(f) if isinstance(s, ast.stmt) and s is not f
                 and not isinstance(s, (ast.Global, ast.FunctionDef)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
        miss = sorted(lines - seen[rel])
        total += len(lines)
        missed += len(miss)
        if miss:
            out.append((f.lineno, f.name, len(lines), miss))
    for line, name, n, miss in sorted(out):
        print(f'{rel}:{line} {name}: {"all" if len(miss) == n else miss} of {n}')
print(f'{missed} of {total} statements inside functions were not executed')
