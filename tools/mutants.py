#!/usr/bin/env python3
"""
Makes small random changes to a scratch copy of the repository, keeps those
that the stable tests do not notice, and tells which of them the checks notice.

    mutants.py OUT.jsonl [--files a,b] [--n N] [--seed S] [--jobs 8] [--retry IN.jsonl]

(A tool for finding what the checks miss; no check uses it.)
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['delayed_nodes', 'delayed_leafs', 'lazy_loaders', 'helpers',
         'delayed_base']
SKIP_FUNCS = {'demo', 'random', '__nice__', 'write_network_text', 'print_graph',
              'available', '__repr__', '__str__', '__json__', '_validate',
              'debug_ensure_crs', 'TIME', 'main'}
ORDER = '''C06 C04 C03 C01 C02 C05 C16 C23 C09 C10 C12 C13 C15 C26 C22 C24 C14
C11 C29 C07 C08 C27 C28 C30 C25 C21 C19 C18 C17 C20'''.split()
# (fail on the unchanged tree)
DESELECT = '''delayed_image/delayed_leafs.py::DelayedNans:1
delayed_image/delayed_nodes.py::DelayedChannelConcat:0
delayed_image/delayed_nodes.py::DelayedCrop._opt_fuse_crops:1
delayed_image/delayed_nodes.py::DelayedWarp._opt_split_warp_overview:0
delayed_image/delayed_nodes.py::DelayedWarp._opt_split_warp_overview:1
tests/test_off_by_one.py::test_off_by_one_with_multi_scale'''.split()
DULL = ['TRACE_OPTIMIZE', '_opt_logs', 'ctx is None', 'in memo', 'USE_SLOTS',
        'DEBUG', 'memo[', 'warnings.', 'profile', '__slots__']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '//'}
CALLS = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil',
         'any': 'all', 'all': 'any', 'round': 'int'}


def mutants(path):
    src = open(path).read()
    raw = src.encode()
    starts = [0]
    for line in raw.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, why):
        a, b = span(n)
        out.append((a, b, new, n.lineno, why))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP_FUNCS:
                return
            for c in n.body:
                visit(c, n.name)
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    visit(d, n.name)
            return
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                visit(c, fn)
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom,
                          ast.AnnAssign)) and not (
                              isinstance(n, ast.AnnAssign) and n.value):
            return
        if isinstance(n, ast.AnnAssign):
            visit(n.value, fn)
            return
        if fn is None and isinstance(n, (ast.Expr, ast.Assign, ast.If)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'drop call')
        if isinstance(n, ast.AugAssign):
            put(n, 'pass', 'drop')
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'drop')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
            if not isinstance(n, ast.While):
                put(t, 'True', 'if True')
            put(t, 'False', 'if False')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                put(n, '({} {} {})'.format(text(n.left), op,
                                           text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + j.join('(' + text(v) + ')' for v in n.values) + ')',
                'bool')
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                put(n, '(' + text(n.operand) + ')', 'not')
            elif isinstance(n.op, ast.USub):
                put(n, '(' + text(n.operand) + ')', 'neg')
        if isinstance(n, ast.BinOp):
            op = BIN.get(type(n.op))
            if op and not isinstance(n.left, (ast.Constant,)) or (
                    op and not isinstance(n.left.value, str)):
                put(n, '({} {} {})'.format(text(n.left), op, text(n.right)),
                    'arith')
            if isinstance(n.op, ast.MatMult):
                put(n, '({} @ {})'.format(text(n.right), text(n.left)), 'swap')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                if v:
                    put(n, str(v - 1), 'const')
            elif isinstance(v, float):
                put(n, repr(v * 1.5 + .1), 'const')
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else \
                f.attr if isinstance(f, ast.Attribute) else None
            if name in CALLS:
                put(f, text(f)[:-len(name)] + CALLS[name], 'call')
            if name == 'inv' and isinstance(f, ast.Attribute) and not n.args:
                put(n, text(f.value), 'no inverse')
            if name in ('copy', 'deepcopy') and len(n.args) == 1:
                put(n, text(n.args[0]), 'no copy')
            args = [text(a) for a in n.args]
            kws = [(k.arg, text(k.value)) for k in n.keywords]
            for i in range(len(kws)):
                rest = kws[:i] + kws[i + 1:]
                put(n, '{}({})'.format(text(f), ', '.join(
                    args + ['{}={}'.format(*k) if k[0] else '**' + k[1]
                            for k in rest])), 'drop keyword')
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(
                getattr(n, 'ctx', None), ast.Load):
            put(n, '({1}, {0})'.format(*map(text, n.elts)), 'swap')
        if isinstance(n, ast.Return) and n.value is not None and \
                isinstance(n.value, ast.Name) and n.value.id == 'new':
            pass
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'drop')
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    for c in ast.parse(src).body:
        visit(c, None)
    res = []
    lines = src.split('\n')
    for a, b, new, line, why in out:
        if any(k in lines[line - 1] for k in DULL):
            continue
        t = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((line, why, raw[a:b].decode()[:120], new[:120], t))
    return res


def tests(copy, k, stable):
    env = {'HOME': '/root', 'LANG': 'C.UTF-8',
           'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
           'OPENBLAS_NUM_THREADS': '1', 'PYTHONPATH': copy}
    work = '/tmp/mw/{}/work'.format(k)
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/tmp/mw/cache', work + '/cache')
    os.makedirs(work + '/tmp')
    env.update(XDG_CACHE_HOME=work + '/cache', XDG_CONFIG_HOME=work + '/config',
               XDG_DATA_HOME=work + '/data', TMPDIR=work + '/tmp')
    with open(work + '/log', 'w') as log:
        try:
            subprocess.run(
                [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                 '--timeout=60', '-o', 'junit_family=xunit2',
                 '--junitxml=' + work + '/junit.xml', '--maxfail=1',
                 'delayed_image', 'tests'] + [
                     '--deselect=' + d for d in DESELECT],
                cwd=copy, env=env, stdout=log, stderr=log, timeout=150)
        except subprocess.TimeoutExpired:
            return ['timeout']
    subprocess.run(['python3', '/opt/vp/results.py', work + '/out.json',
                    'junit:' + work + '/junit.xml'], capture_output=True)
    try:
        got = json.load(open(work + '/out.json'))['passed']
    except Exception:
        return ['no result']
    with open(work + '/log') as f:
        if ' failed' in f.read():
            return ['some']
    return sorted(stable - set(got))


def checks(copy, k):
    ver = '/tmp/mw/{}/verif'.format(k)
    env = dict(os.environ, VERIF_REPO=copy)
    for frac, seed in [(FRAC[0], 1), (FRAC[1], 2)]:
        if not frac:
            continue
        try:
            r = subprocess.run(
                [PY, 'tools/mutprobe.py', ','.join(ORDER), str(frac), str(seed)],
                cwd=ver, env=env, capture_output=True, text=True, timeout=1500,
                errors='replace')
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        last = (r.stdout.strip().splitlines() or ['?'])[-1]
        if r.returncode:
            return last.split()[0], last
    return None, ''


FRAC = [0.03, 0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--minutes', type=float, default=60)
    ap.add_argument('--frac', default='0.03,0')
    ap.add_argument('--retry', help='only those that this output calls missed')
    a = ap.parse_args()
    FRAC[:] = [float(v) for v in a.frac.split(',')]
    t0 = time.time()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    shutil.rmtree('/tmp/mw', ignore_errors=True)
    os.makedirs('/tmp/mw/cache')
    subprocess.run([PY, '-c', '''
import zlib, numpy as np, kwimage
for key in sorted(kwimage.grab_test_image.keys()):
    np.random.seed(zlib.crc32(key.encode()))
    kwimage.grab_test_image_fpath(key)
'''], cwd='/', env=dict(os.environ, XDG_CACHE_HOME='/tmp/mw/cache'),
                   capture_output=True)
    todo = []
    for f in a.files.split(','):
        rel = 'delayed_image/{}.py'.format(f)
        todo += [(rel,) + m for m in mutants('/repo/' + rel)]
    if a.retry:
        # (lines move a little)
        keep = {}
        for row in open(a.retry):
            row = json.loads(row)
            if not row['lost'] and row['by'] is None:
                keep.setdefault((row['file'], row['why'], row['old'],
                                 row['new']), []).append(row['line'])
        todo = [m for m in todo if any(
            abs(n - m[1]) < 6 for n in keep.get((m[0], m[2], m[3], m[4]), []))]
    rng = random.Random(a.seed)
    rng.shuffle(todo)
    print(len(todo), 'possible', flush=True)
    todo = todo[:a.n]
    slots = Queue()
    for k in range(a.jobs):
        d = '/tmp/mw/{}'.format(k)
        os.makedirs(d)
        shutil.copytree(HERE, d + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))
        shutil.copytree('/repo', d + '/repo', symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        slots.put(k)
    out = open(a.out, 'a')

    def one(m):
        if time.time() - t0 > a.minutes * 60:
            return
        k = slots.get()
        try:
            rel, line, why, old, new, data = m
            copy = '/tmp/mw/{}/repo'.format(k)
            orig = open('/repo/' + rel, 'rb').read()
            with open(copy + '/' + rel, 'wb') as f:
                f.write(data)
            try:
                lost = [] if a.retry else tests(copy, k, stable)
                rec = {'file': rel, 'line': line, 'why': why, 'old': old,
                       'new': new, 'lost': len(lost)}
                if not lost:
                    c, msg = checks(copy, k)
                    rec['by'] = c
                    rec['msg'] = msg
            finally:
                with open(copy + '/' + rel, 'wb') as f:
                    f.write(orig)
            out.write(json.dumps(rec) + '\n')
            out.flush()
        finally:
            slots.put(k)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    main()
