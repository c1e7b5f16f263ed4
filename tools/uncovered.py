"""Functions of the repository no check has executed symbolically (from the
evidence of the last runs): python3 tools/uncovered.py"""
import ast
import glob
import json
import os

SKIP = ('tests', 'slask', '_external', 'testing')
enc = set()


def walk(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if 'function' in k and isinstance(v, list):
                enc.update(map(str, v))
            walk(v)
    elif isinstance(x, list):
        for v in x:
            walk(v)


for f in glob.glob('evidence/P*.json'):
    walk(json.load(open(f)))
for root, _, files in os.walk('/repo/hftools'):
    if any(s in root for s in SKIP):
        continue
    for f in sorted(files):
        if not f.endswith('.py'):
            continue
        p = os.path.join(root, f)
        t = ast.parse(open(p, encoding='latin-1').read())
        rel = os.path.relpath(p, '/repo/hftools')
        miss = []

        def rec(n, q):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    name = (q + '.' if q else '') + c.name
                    if isinstance(c, ast.FunctionDef) and \
                            "%s:%s" % (rel, name) not in enc:
                        miss.append(name)
                    rec(c, name)
                else:
                    rec(c, q)
        rec(t, '')
        if miss:
            print(rel, ':', ' '.join(miss))
