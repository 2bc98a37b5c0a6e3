"""Mutants of the source that no check reports.

    python3 tools/mutate.py [PATTERN of file::function] [--n N] [--seed S] [--tests]

Each mutant changes one expression or statement.  Only the obligations that visit the changed function are run.  What is
printed are the mutants every one of them accepts (with --tests: and the repository's tests accept too)."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import core, runner, interp as I   # noqa: E402
from vf.load import Program                # noqa: E402

SRC = '/repo/src'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def sites(f):
    """(description, function that changes a copy of the tree node list at index i)"""
    nodes = list(ast.walk(f))
    out = []
    for i, x in enumerate(nodes):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in CMP:
            out.append((i, 'cmp', None))
        if isinstance(x, ast.BinOp) and type(x.op) in BIN and not (isinstance(x.left, ast.Constant) and isinstance(
                x.left.value, str)):
            out.append((i, 'bin', None))
            if isinstance(x.op, (ast.Sub, ast.Div)):
                out.append((i, 'swapbin', None))
        if isinstance(x, ast.BoolOp):
            out.append((i, 'bool', None))
            for k in range(len(x.values)):
                out.append((i, 'dropbool', k))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)):
            out.append((i, 'unary', None))
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(x, ast.While):
                out.append((i, 'neg', None))
        if isinstance(x, ast.If):
            out.append((i, 'true', None))
            if x.orelse:
                out.append((i, 'noelse', None))
        if isinstance(x, ast.Constant) and not isinstance(x.value, bool) and isinstance(x.value, (int, float)):
            out.append((i, 'const', None))
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            out.append((i, 'flag', None))
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value and len(x.value) < 30:
            out.append((i, 'str', None))
        if isinstance(x, ast.Call):
            nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''
            if nm in ('list', 'dict', 'set', 'sorted', 'tuple', 'float', 'int', 'abs', 'sum', 'max', 'min') and \
                    len(x.args) == 1 and isinstance(x.func, ast.Name):
                out.append((i, 'unwrap', None))
            if nm in ('copy', 'deepcopy', 'items', 'order', 'nodes'):
                out.append((i, 'uncopy', None))
            if nm in ('max', 'min'):
                out.append((i, 'maxmin', None))
            if nm in ('any', 'all'):
                out.append((i, 'anyall', None))
            if nm in ('append', 'add', 'discard', 'remove', 'update', 'extend') and isinstance(x.func, ast.Attribute):
                pass
            if len(x.args) >= 2:
                for k in range(len(x.args) - 1):
                    out.append((i, 'swapargs', k))
            for k in range(len(x.keywords)):
                out.append((i, 'dropkw', k))
            if x.args and nm not in ('super', 'len', 'isinstance', 'append', 'add'):
                out.append((i, 'droparg', None))
        if isinstance(x, ast.comprehension) and x.ifs:
            for k in range(len(x.ifs)):
                out.append((i, 'nofilter', k))
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            out.append((i, 'slice', None))
        if isinstance(x, (ast.Break,)):
            out.append((i, 'break', None))
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
            out.append((i, 'retnone', None))
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.append((i, 'name', None))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            out.append((i, 'attr', None))
        for k in ('body', 'orelse'):
            b = getattr(x, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Raise, ast.Delete,
                                      ast.Continue, ast.Try, ast.Assert, ast.While)):
                        out.append((i, 'del' + k, j))
                    if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(
                            b[j + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        out.append((i, 'swap' + k, j))
                    if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) and isinstance(x, (ast.For, ast.If)) and \
                            j == len(b) - 1 and len(b) > 1:
                        out.append((i, 'out' + k, j))
    return out


def apply(f, site, rng):
    """change f (a private copy) in place; None if not applicable"""
    i, kind, k = site
    x = list(ast.walk(f))[i]
    parent = {}
    for y in ast.walk(f):
        for z in ast.iter_child_nodes(y):
            parent[z] = y

    def replace(old, new):
        p = parent[old]
        for n, v in ast.iter_fields(p):
            if v is old:
                setattr(p, n, new)
            elif isinstance(v, list):
                for j, e in enumerate(v):
                    if e is old:
                        v[j] = new
    if kind == 'cmp':
        x.ops = [CMP[type(x.ops[0])]()]
    elif kind == 'bin':
        x.op = BIN[type(x.op)]()
    elif kind == 'swapbin':
        x.left, x.right = x.right, x.left
    elif kind == 'bool':
        x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
    elif kind == 'dropbool':
        if len(x.values) == 2:
            replace(x, x.values[1 - k])
        else:
            del x.values[k]
    elif kind == 'unary':
        replace(x, x.operand)
    elif kind == 'neg':
        x.test = ast.UnaryOp(ast.Not(), x.test)
    elif kind == 'true':
        x.test = ast.Constant(True)
    elif kind == 'noelse':
        x.orelse = []
    elif kind == 'const':
        x.value = x.value + 1 if rng.random() < .7 or not x.value else 0
    elif kind == 'flag':
        x.value = not x.value
    elif kind == 'str':
        if isinstance(parent.get(x), (ast.Expr, ast.JoinedStr)):
            return None
        x.value = x.value + '_'
    elif kind == 'unwrap':
        replace(x, x.args[0])
    elif kind == 'uncopy':
        if not isinstance(x.func, ast.Attribute):
            return None
        replace(x, x.func.value)
    elif kind == 'maxmin':
        f2 = x.func
        new = 'min' if (getattr(f2, 'id', None) or f2.attr) == 'max' else 'max'
        if isinstance(f2, ast.Name):
            f2.id = new
        else:
            f2.attr = new
    elif kind == 'anyall':
        if not isinstance(x.func, ast.Name):
            return None
        x.func.id = 'any' if x.func.id == 'all' else 'all'
    elif kind == 'swapargs':
        x.args[k], x.args[k + 1] = x.args[k + 1], x.args[k]
    elif kind == 'dropkw':
        del x.keywords[k]
    elif kind == 'droparg':
        x.args.pop()
    elif kind == 'nofilter':
        del x.ifs[k]
    elif kind == 'slice':
        replace(x, x.value)
    elif kind == 'break':
        replace(x, ast.Pass())
    elif kind == 'retnone':
        x.value = ast.Constant(None)
    elif kind == 'name':
        loc = sorted({y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} |
                     {a.arg for a in f.args.args})
        if x.id not in loc or x.id == 'self':
            return None
        o = [v for v in loc if v not in (x.id, 'self')]
        if not o:
            return None
        x.id = rng.choice(o)
    elif kind == 'attr':
        if isinstance(parent.get(x), ast.Call) and parent[x].func is x:
            return None
        o = sorted({y.attr for y in ast.walk(MODULE[0]) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)} -
                   {x.attr})
        if not o or not isinstance(x.value, ast.Name) or x.value.id in ('np', 'nx', 'sts', 'st'):
            return None
        x.attr = rng.choice(o)
    elif kind.startswith('del'):
        b = getattr(x, kind[3:])
        if len(b) == 1:
            b[0] = ast.Pass()
        else:
            del b[k]
    elif kind.startswith('swap'):
        b = getattr(x, kind[4:])
        b[k], b[k + 1] = b[k + 1], b[k]
    elif kind.startswith('out'):
        p = parent.get(x)
        s = getattr(x, kind[3:]).pop()
        for n, v in ast.iter_fields(p):
            if isinstance(v, list) and x in v:
                v.insert(v.index(x) + 1, s)
                return f
        return None
    return f


MODULE = [None]


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + '.' + m.name, m


def dotted(path):
    r = os.path.relpath(path, SRC)[:-3].split(os.sep)
    return '.'.join(r[:-1] if r[-1] == '__init__' else r)


def visit_map():
    cache = '/tmp/x/visits.json'
    if os.path.exists(cache) and os.path.getmtime(cache) > max(os.path.getmtime(os.path.join(d, f)) for p in (
            'vf', 'spec', 'props') for d, _, fs in os.walk(os.path.join(HERE, p)) for f in fs if f.endswith('.py')):
        return json.load(open(cache))
    prog = runner.load_program()
    obs = runner.obligations(prog)
    res = runner.run_all(prog, obs, 'quick')
    out = {}
    for o, r in zip(obs, res):
        fs = set(r['stats'].get('functions', [])) | ({o.target} if o.target else {'*'})
        for f in fs:
            out.setdefault(f, []).append(o.name)
    json.dump(out, open(cache, 'w'))
    return out


def work(job):
    n, path, q, desc, src, names = job
    base = '/tmp/x/mut_%d' % os.getpid()
    if not os.path.exists(base):
        shutil.copytree(SRC, base, ignore=shutil.ignore_patterns('__pycache__'))
    rel = os.path.relpath(path, SRC)
    orig = open(path).read()
    with open(os.path.join(base, rel), 'w') as fh:
        fh.write(src)
    verdicts = []
    try:
        extra = [('spec.' + os.path.basename(p)[:-3], p) for p in sorted(SPECS)]
        prog = Program(src=base, extra=extra)
        out = []

        def go():
            for o in runner.obligations(prog):
                if o.name in names:
                    try:
                        r = runner.run_ob(prog, o)
                        out.append((o.name, r.verdict, r.why))
                    except (core.Blowup, I.Give, RecursionError) as e:
                        out.append((o.name, 'UNDECIDED', str(e)))
                    except Exception as e:
                        out.append((o.name, 'ERROR', repr(e)))
                    if out[-1][1] == 'VIOLATED':
                        break
        threading.stack_size(512 * 1024 * 1024)
        sys.setrecursionlimit(30000)
        t = threading.Thread(target=go)
        t.start()
        t.join()
        verdicts = out
    except SyntaxError:
        verdicts = [('', 'SYNTAX', '')]
    finally:
        with open(os.path.join(base, rel), 'w') as fh:
            fh.write(orig)
    return n, path, q, desc, src, verdicts


SPECS = [os.path.join(HERE, 'spec', f) for f in os.listdir(os.path.join(HERE, 'spec')) if f.endswith('.py')]


def run_tests(path, src):
    base = '/tmp/x/mt_%d' % os.getpid()
    if not os.path.exists(base):
        shutil.copytree(os.environ.get('VF_SRC', '/repo'), base, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(base, 'src', os.path.relpath(path, SRC))
    orig = open(path).read()
    open(p, 'w').write(src)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=base,
                           env=dict(os.environ, PYTHONPATH=os.path.join(base, 'src'), PYTHONDONTWRITEBYTECODE='1'),
                           capture_output=True, text=True, timeout=120)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        open(p, 'w').write(orig)


def main():
    av = sys.argv[1:]

    def opt(k, d):
        return int(av[av.index(k) + 1]) if k in av else d
    n, seed = opt('--n', 200), opt('--seed', 0)
    pat = [a for i, a in enumerate(av) if not a.startswith('--') and (i == 0 or av[i - 1] not in ('--n', '--seed'))]
    pat = pat[0] if pat else ''
    vm = visit_map()
    rng = random.Random(seed)
    cand = []
    for d, _, fs in sorted(os.walk(SRC + '/sims_pars')):
        for fn in sorted(fs):
            if not fn.endswith('.py') or 'fitting' in d or '/ga' in d:
                continue
            path = os.path.join(d, fn)
            tree = ast.parse(open(path).read())
            for q, f in functions(tree):
                full = dotted(path) + ':' + q
                if pat and pat not in full:
                    continue
                for s in sites(f):
                    cand.append((path, q, s))
    rng.shuffle(cand)
    jobs = []
    seen = set()
    for path, q, s in cand:
        if len(jobs) >= n:
            break
        text = open(path).read()
        tree = ast.parse(text)
        MODULE[0] = tree
        f = dict(functions(tree))[q]
        before = ast.unparse(f)
        try:
            ok = apply(f, s, rng)
        except Exception:
            continue
        if ok is None:
            continue
        try:
            after = ast.unparse(ast.fix_missing_locations(f))
            src = ast.unparse(tree)
            ast.parse(src)
        except Exception:
            continue
        if before == after or (path, q, after) in seen:
            continue
        seen.add((path, q, after))
        a, b = before.splitlines(), after.splitlines()
        diff = [('-' + x.strip()) for x in a if x not in b] + [('+' + x.strip()) for x in b if x not in a]
        if not diff:
            diff = ['order']
        full = dotted(path) + ':' + q
        cls = dotted(path) + ':' + q.split('.')[0]
        names = set(vm.get(full, [])) | set(vm.get('*', [])) | (set(vm.get(cls, [])) if q.endswith('__init__') else set())
        jobs.append((len(jobs), path, full, '%s %s' % (s[1], ' '.join(diff)[:220]), src, names))
    stat = {}
    with mp.Pool(8, maxtasksperchild=20) as pool:
        for n_, path, q, desc, src, vs in pool.imap_unordered(work, jobs):
            kinds = {v for _, v, _ in vs}
            v = 'caught' if 'VIOLATED' in kinds else 'undecided' if kinds & {'UNDECIDED', 'ERROR', 'BROKEN'} else \
                'syntax' if 'SYNTAX' in kinds else 'missed'
            if v in ('missed', 'undecided') and '--tests' in av and not run_tests(path, src):
                v = 'tests'
            stat[v] = stat.get(v, 0) + 1
            if v in ('missed', 'undecided'):
                why = next((w for _, k, w in vs if k in ('UNDECIDED', 'ERROR', 'BROKEN')), '')
                cov = '' if any(nm for nm in vm.get(q, [])) else ' NOSPEC'
                print('%-9s %s%s  | %s  %s' % (v, q.replace('sims_pars.', ''), cov, desc, ('<%s>' % why[:140]) if why else ''),
                      flush=True)
    print(stat)
    subprocess.run('rm -rf /tmp/x/mut_* /tmp/x/mt_*', shell=True)


main()
