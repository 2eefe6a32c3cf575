"""Mutation testing of the checks (not used by any check):
tools/mutate.py FILE PROPS N SEED OUT  -- plants N random small changes, one at a time, in
a scratch copy and lists those no check of PROPS (comma separated) reports."""
import ast
import os
import random
import shutil
import subprocess
import sys
import difflib

REPO = '/repo'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
SWAP = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'hstack': 'vstack', 'vstack': 'hstack', 'zeros': 'ones', 'ones': 'zeros', 'ceil': 'floor', 'floor': 'ceil', 'cumsum': 'cumprod', 'sum': 'prod', 'prod': 'sum', 'any': 'all', 'all': 'any', 'union1d': 'intersect1d', 'fast_intersect': 'fast_setdiff'}


def seg(src, lines, n):
    return ast.get_source_segment(src, n)


def offs(lines, n):
    a = sum(len(l) for l in lines[:n.lineno - 1]) + len(lines[n.lineno - 1].encode()[:n.col_offset].decode())
    b = sum(len(l) for l in lines[:n.end_lineno - 1]) + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
    return a, b


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    out = []
    parent = {}
    for n in ast.walk(tree):
        for k in ast.iter_child_nodes(n):
            parent[k] = n

    def infn(n):
        while n in parent:
            n = parent[n]
            if isinstance(n, (ast.FunctionDef,)):
                return n.name
        return None

    def isprint(n):
        while n in parent:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
                return True
            if isinstance(n, (ast.Raise, ast.Assert)):
                return True
            n = parent[n]
        return False
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or infn(n) is None or isprint(n) or infn(n) in ('__repr__', 'plot', 'final_display', 'adaptation_display'):
            continue
        a, b = offs(lines, n)
        t = src[a:b]

        def rep(new, kind):
            out.append((a, b, new, kind, infn(n), n.lineno))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = seg(src, lines, n.left), seg(src, lines, n.comparators[0])
            rep('(%s) %s (%s)' % (l, CMP[type(n.ops[0])], r), 'cmp')
        elif isinstance(n, ast.BinOp):
            l, r = seg(src, lines, n.left), seg(src, lines, n.right)
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
            if o:
                rep('(%s) %s (%s)' % (l, o, r), 'op')
            if isinstance(n.op, (ast.Sub, ast.Div)):
                rep('(%s)' % l, 'dropright')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(str(n.value + 1), 'const+1')
                if n.value > 0:
                    rep(str(n.value - 1), 'const-1')
            elif n.value == 'F':
                rep('"C"', 'order')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep('(' + o.join('(%s)' % seg(src, lines, v) for v in n.values) + ')', 'bool')
        elif isinstance(n, (ast.AugAssign, ast.Assign)) and n in parent and not isinstance(n, ast.FunctionDef):
            rep('pass', 'drop')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep('pass', 'drop')
        elif isinstance(n, ast.If):
            c = n.test
            a, b = offs(lines, c)
            out.append((a, b, 'not (%s)' % src[a:b], 'negate', infn(n), n.lineno))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in SWAP:
                fa, fb = offs(lines, f)
                t2 = src[fa:fb]
                out.append((fa, fb, t2[:-len(f.attr)] + SWAP[f.attr], 'swap', infn(n), n.lineno))
            if isinstance(f, ast.Attribute) and f.attr in ('kron', 'matmul', 'setdiff1d', 'dot') and len(n.args) == 2:
                rep('%s(%s, %s)' % (seg(src, lines, f), seg(src, lines, n.args[1]), seg(src, lines, n.args[0])), 'args')
            if (isinstance(f, ast.Attribute) and f.attr in ('deepcopy', 'copy', 'array', 'transpose', 'sort', 'unique', 'flip', 'ravel', 'abs', 'conj', 'sqrt', 'reshape')) or (isinstance(f, ast.Name) and f.id in ('deepcopy',)):
                if len(n.args) >= 1 and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'copy') or isinstance(f, ast.Name):
                    rep(seg(src, lines, n.args[0]), 'unwrap')
    return out


def main():
    file, props, n, seed, outp = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    only = sys.argv[6].split(',') if len(sys.argv) > 6 else None
    src = open(os.path.join(REPO, file)).read()
    ms = [m for m in mutants(src) if only is None or m[4] in only]
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    d = '/tmp/mut/%s_%d' % (os.path.basename(file)[:-3], seed)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/repo')
    os.makedirs(d + '/verif')
    subprocess.run('git -C %s archive HEAD tensap | tar x -C %s/repo' % (REPO, d), shell=True, check=True)
    for x in ('vt', 'check', 'MANIFEST.json', 'known_findings.json'):
        s = '/verif/' + x
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + '/verif/' + x)
    done = caught = 0
    with open(outp, 'a') as o:
        for a, b, new, kind, fn, line in ms:
            if done >= n:
                break
            m = src[:a] + new + src[b:]
            try:
                compile(m, file, 'exec')
            except SyntaxError:
                continue
            open(os.path.join(d, 'repo', file), 'w').write(m)
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_FAILFAST='1', VERIF_JOBS=os.environ.get('VERIF_JOBS', '4'), PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run(['/opt/venv/bin/python', '-c', 'import tensap'], cwd=d + '/repo', capture_output=True)
            if r.returncode:
                continue
            done += 1
            hit = None
            for p in props:
                try:
                    r = subprocess.run(['./check', p], cwd=d + '/verif', env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    hit = p + ':timeout'
                    break
                if r.returncode != 0:
                    hit = p if 'VIOLATION' in r.stdout else p + ':error'
                    break
            caught += hit is not None and ':' not in hit
            if hit is None or ':' in hit:
                diff = [l for l in difflib.unified_diff(src.splitlines(), m.splitlines(), lineterm='', n=1) if not l.startswith(('---', '+++'))]
                o.write('### %s %s line %d kind %s %s\n%s\n' % (file, fn, line, kind, 'SURVIVES' if hit is None else hit, '\n'.join(diff)))
                o.flush()
        o.write('=== %s: %d mutants, %d caught\n' % (file, done, caught))
    shutil.rmtree(d, ignore_errors=True)


main()
