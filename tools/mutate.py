"""Mutation testing of the checks (not used by any check).

  mutate.py tests FILE N SEED OUT.json   random mutants of FILE (relative to
                                         /repo) that the tests do not notice
  mutate.py checks OUT.json P01,P02,...  which of them the checks notice
Works in copies under /tmp/mut; never touches /repo."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mut'
SRC = os.environ.get('MUT_SRC', '/repo')
JOBS = int(os.environ.get('JOBS', '6'))
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def put(n, text, what):
        if n.lineno == n.end_lineno and lines[n.lineno - 1].isascii():
            out.append((n.lineno, n.col_offset, n.end_col_offset, text,
                        what))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (seg(n.left), r, seg(n.comparators[0])),
                    'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and
                isinstance(n.left.value, str)):
            put(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)],
                                     seg(n.right)), 'operator')
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            put(n, '%s' % seg(n.values[0]), 'drop condition')
            put(n, '%s' % seg(n.values[1]), 'drop condition')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(%s)' % seg(n.operand), 'drop unary')
        elif isinstance(n, ast.Constant) and n not in doc:
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'constant')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'constant')
                if n.value > 0:
                    put(n, str(n.value - 1), 'constant')
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2), 'constant')
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if')
            put(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            put(n, seg(n.body), 'ifexp')
            put(n, seg(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr,
                            ast.Delete)) and n not in tree.body:
            if not (isinstance(n, ast.Expr) and n.value in doc):
                put(n, 'pass', 'delete')
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and all(
                    not isinstance(a, ast.Starred) for a in n.args):
                put(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]),
                                       seg(n.args[0])), 'swap arguments')
            elif n.keywords:
                k = n.keywords[-1]
                rest = [seg(a) for a in n.args] + [
                    '%s=%s' % (x.arg, seg(x.value)) if x.arg else
                    '**' + seg(x.value) for x in n.keywords[:-1]]
                put(n, '%s(%s)' % (seg(n.func), ', '.join(rest)),
                    'drop keyword')
            elif len(n.args) == 1 and isinstance(n.func, ast.Name):
                if n.func.id in ('sorted', 'list', 'tuple', 'set', 'abs',
                                 'reversed', 'float', 'int'):
                    put(n, '(%s)' % seg(n.args[0]), 'drop call')
        elif isinstance(n, ast.Slice) and n.lower is not None:
            put(n.lower, '(%s) + 1' % seg(n.lower), 'slice')
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    seen, res = set(), []
    for m in out:
        k = m[:4]
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def apply(src, m):
    lines = src.split('\n')
    l, a, b, text = m[:4]
    s = lines[l - 1]
    lines[l - 1] = s[:a] + text + s[b:]
    return '\n'.join(lines)


def readsrc(p):
    with open(p, encoding='latin-1', newline='') as f:
        return f.read().replace('\r\n', '\n')


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           MPLCONFIGDIR='/tmp/mut_mpl')


def run_tests(d, tag):
    passed = set()
    py = ['/opt/venv/bin/python', '-m', 'pytest', '-p', 'h5py', '-q', '-p',
          'no:cacheprovider', '--timeout=60', '--randomly-seed=1',
          '--randomly-dont-reorganize', '--continue-on-collection-errors',
          '--tb=no', '-x' if False else '-q']
    for k, extra in enumerate((['-o', 'python_files=test*.py', 'hftools'],
                               ['--doctest-modules', 'hftools/math.py',
                                'hftools/utils.py',
                                'hftools/dataset/arrayobj.py'])):
        xml = '/tmp/mut_%s_%d.xml' % (tag, k)
        try:
            subprocess.run(py + ['--junitxml=' + xml] + extra, cwd=d,
                           env=ENV, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=300)
            for t in ET.parse(xml).iter('testcase'):
                if not any(c.tag in ('failure', 'error', 'skipped')
                           for c in t):
                    passed.add((t.get('classname'), t.get('name')))
        except Exception:
            return set()
    return passed


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d)


def tests(fname, n, seed, out):
    os.makedirs(BASE, exist_ok=True)
    ref = os.path.join(BASE, 'ref')
    fresh(ref)
    good = run_tests(ref, 'ref') & run_tests(ref, 'ref')
    src = readsrc(os.path.join(ref, fname))
    ms = mutants(src)
    rng = random.Random(seed)
    rng.shuffle(ms)
    ms = ms[:n]
    import queue
    free = queue.Queue()
    for k in range(JOBS):
        d = os.path.join(BASE, 'w%d' % k)
        fresh(d)
        free.put(d)

    def one(m):
        d = free.get()
        try:
            new = apply(src, m)
            try:
                ast.parse(new)
            except SyntaxError:
                return None
            p = os.path.join(d, fname)
            with open(p, 'w', encoding='latin-1', newline='') as f:
                f.write(new)
            ok = run_tests(d, os.path.basename(d))
            shutil.rmtree(os.path.join(d, 'hftools'))
            shutil.copytree(SRC + '/hftools', os.path.join(d, 'hftools'))
            if good <= ok:
                return m
        finally:
            free.put(d)
    with ThreadPoolExecutor(JOBS) as ex:
        res = [m for m in ex.map(one, ms) if m]
    json.dump(dict(file=fname, tried=len(ms), survivors=res),
              open(out, 'w'), indent=1)
    print(fname, len(ms), 'tried', len(res), 'unnoticed by the tests')


def checks(out, props):
    r = json.load(open(out))
    d = os.path.join(BASE, 'c' + str(os.getpid()))
    fresh(d)
    p = os.path.join(d, r['file'])
    src = readsrc(p)
    env = dict(os.environ, HFTOOLS_REPO=d)
    for m in r['survivors']:
        if len(m) > 5:
            continue
        with open(p, 'w', encoding='latin-1', newline='') as f:
            f.write(apply(src, m))
        hit = ''
        inc = ''
        for q in props.split(','):
            try:
                x = subprocess.run(
                    ['bash', os.path.join(HERE, 'check.sh'), q], env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=900)
            except subprocess.TimeoutExpired:
                inc += q + ':timeout '
                continue
            t = x.stdout.decode(errors='replace')
            if 'VIOLATION' in t:
                hit = q
                break
            if 'INCONCL' in t:
                inc += q + ' '
        m.append(hit or 'missed ' + inc)
        json.dump(r, open(out, 'w'), indent=1)
        print('%-8s %s:%d %s: %s -> %s' % (
            hit or 'MISSED ' + inc, os.path.basename(r['file']), m[0], m[4],
            src.split('\n')[m[0] - 1].strip()[:90],
            apply(src, m).split('\n')[m[0] - 1].strip()[:90]), flush=True)
    shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'tests':
        tests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else:
        checks(sys.argv[2], sys.argv[3])
