"""Behaviour-preserving rewrites of the whole repository; the checks must stay quiet on every one.

    python3 tools/refactor.py [transform,transform,...|all|mix] [seed] [--p 0.7]

Writes the rewritten tree under a scratch folder and runs all obligations on it (VF_REPO)."""
import ast
import builtins
import copy
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/sims_pars'
T = {}
FRESH = [0]


def tr(f):
    T[f.__name__[2:]] = f
    return f


def fresh(p='tmp'):
    FRESH[0] += 1
    return '%s_%d' % (p, FRESH[0])


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def fns(tree):
    """(function, class or None) of the module and its classes, outside the main block"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, None
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield m, n


def local_names(f):
    out = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
    return out


def local_names_plain(f):
    """names bound outside comprehensions"""
    comp = {id(y) for g in ast.walk(f) if isinstance(g, ast.comprehension) for y in ast.walk(g.target)}
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in comp}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def bodies(n):
    """every statement list below n, outside nested functions' signatures"""
    for x in ast.walk(n):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(x, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, k, b


def jumps(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def pure(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Load, ast.Tuple, ast.List, ast.Dict, ast.BinOp,
                              ast.operator)) for x in ast.walk(e))


class P:
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def hit(self):
        return self.rng.random() < self.p


# ------------------------------------------------------------------ rewrites
@tr
def t_invert(f, c, R, tree):
    for x in ast.walk(f):
        if isinstance(x, ast.If) and x.orelse and R.hit():
            x.test = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else \
                ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
        elif isinstance(x, ast.IfExp) and R.hit():
            x.test, x.body, x.orelse = ast.UnaryOp(ast.Not(), x.test), x.orelse, x.body


@tr
def t_else(f, c, R, tree):
    """if c: return ..; rest  ->  if c: return .. else: rest"""
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and jumps(s.body) and i + 1 < len(b) and R.hit():
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


@tr
def t_unelse(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        i = 0
        while i < len(b) and getattr(x, k) is b:
            s = b[i]
            if isinstance(s, ast.If) and s.orelse and jumps(s.body) and R.hit():
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
            i += 1


@tr
def t_retvar(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)) \
                    and R.hit():
                v = fresh('result')
                j = b.index(s)
                b.insert(j, ast.Assign([name(v, ast.Store())], s.value))
                s.value = name(v)


@tr
def t_inline(f, c, R, tree):
    """v = e; <next statement uses v once, evaluated first>  ->  inline"""
    for x, k, b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, n = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(n, (ast.Return, ast.Assign, ast.Expr)) and n.value is not None:
                v = s.targets[0].id
                uses = [y for y in ast.walk(f) if isinstance(y, ast.Name) and y.id == v]
                inn = [y for y in ast.walk(n.value) if isinstance(y, ast.Name) and y.id == v]
                comp = any(isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.BoolOp,
                                          ast.IfExp)) for y in ast.walk(n.value))
                first = inn and (n.value is inn[0] or pure(n.value) or pure(s.value) and False)
                if len(uses) == 2 and len(inn) == 1 and first and not comp and R.hit():
                    class Sub(ast.NodeTransformer):
                        def visit_Name(self, y):
                            return s.value if y is inn[0] else y
                    n.value = Sub().visit(n.value)
                    del b[i]
                    continue
            i += 1


def comp_stmts(e, v, R):
    """statements that build comprehension e into variable v"""
    ren = {}
    for g in e.generators:
        for y in ast.walk(g.target):
            if isinstance(y, ast.Name):
                ren[y.id] = fresh(y.id)
    first = e.generators[0].iter

    class Ren(ast.NodeTransformer):
        def visit_Name(self, y):
            return ast.Name(ren.get(y.id, y.id), y.ctx)
    it0 = copy.deepcopy(first)
    e = Ren().visit(copy.deepcopy(e))
    e.generators[0].iter = it0
    if isinstance(e, ast.ListComp):
        init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [e.elt], []))
    elif isinstance(e, ast.SetComp):
        init = ast.Call(name('set'), [], [])
        add = ast.Expr(ast.Call(ast.Attribute(name(v), 'add', ast.Load()), [e.elt], []))
    else:
        init = ast.Dict([], [])
        add = ast.Assign([ast.Subscript(name(v), e.key, ast.Store())], e.value)
    body = [add]
    for g in reversed(e.generators):
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return [ast.Assign([name(v, ast.Store())], init)] + body


@tr
def t_comp2loop(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)) \
                    and R.hit():
                v = fresh('acc')
                new = comp_stmts(s.value, v, R)
                s.value = name(v)
                b[i:i] = new
                i += len(new)
            i += 1


@tr
def t_loop2comp(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, n = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(n, ast.For) and not n.orelse and len(n.body) == 1:
                v = s.targets[0].id
                kind = ast.unparse(s.value)
                st, conds = n.body[0], []
                while isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
                    conds.append(st.test)
                    st = st.body[0]
                e = None
                src = ast.unparse(st)
                tv = {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)}
                g = [ast.comprehension(n.target, n.iter, conds, 0)]
                if kind in ('[]', 'list()') and isinstance(st, ast.Expr) and src.startswith(v + '.append(') and \
                        isinstance(st.value, ast.Call) and len(st.value.args) == 1:
                    e = ast.ListComp(st.value.args[0], g)
                elif kind == 'set()' and isinstance(st, ast.Expr) and src.startswith(v + '.add('):
                    e = ast.SetComp(st.value.args[0], g)
                elif kind in ('{}', 'dict()') and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                        and ast.unparse(st.targets[0].value) == v:
                    e = ast.DictComp(st.targets[0].slice, st.value, g)
                if e is not None:
                    inside = [y for y in ast.walk(e) if isinstance(y, ast.Name) and y.id == v]
                    after = [y for z in b[i + 2:] for y in ast.walk(z) if isinstance(y, ast.Name) and y.id in tv]
                    if not inside and not after and R.hit():
                        b[i:i + 2] = [ast.Assign([name(v, ast.Store())], e)]
            i += 1


@tr
def t_rename(f, c, R, tree):
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
        return
    ps = set(params(f))
    for x in ast.walk(f):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f:
            ps |= set(params(x))
            if isinstance(x, ast.FunctionDef):
                ps.add(x.name)
    ren = {v: fresh('v') for v in sorted((local_names(f) & {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                                                                       isinstance(x.ctx, ast.Store)}) - ps) if R.hit()}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in ren:
            x.id = ren[x.id]
        if isinstance(x, ast.ExceptHandler) and x.name in ren:
            x.name = ren[x.name]


@tr
def t_flip(f, c, R, tree):
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(f):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in fl and R.hit():
            x.left, x.comparators = x.comparators[0], [x.left]
            x.ops = [fl[type(x.ops[0])]()]


class Neg(ast.NodeTransformer):
    def __init__(self, R):
        self.R = R

    def visit_BoolOp(self, x):
        self.generic_visit(x)
        if not self.R.hit():
            return x
        op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in x.values]))

    def visit_Compare(self, x):
        self.generic_visit(x)
        n = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
             ast.IsNot: ast.Is}
        if len(x.ops) == 1 and type(x.ops[0]) in n and self.R.hit() and not isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
            x.ops = [n[type(x.ops[0])]()]
            return ast.UnaryOp(ast.Not(), x)
        return x


@tr
def t_demorgan(f, c, R, tree):
    for x in ast.walk(f):
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            x.test = Neg(R).visit(x.test)


@tr
def t_fstr(f, c, R, tree):
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, x):
            if not R.hit() or any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec)
                                  for v in x.values):
                return x
            s, args = '', []
            for v in x.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace('{', '{{').replace('}', '}}')
                else:
                    s += '{}'
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])
    V().visit(f)


@tr
def t_unformat(f, c, R, tree):
    class V(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) \
                    and isinstance(x.func.value.value, str) and not x.keywords and R.hit():
                parts = x.func.value.value.split('{}')
                if len(parts) == len(x.args) + 1 and not any('{' in p or '}' in p for p in parts) and \
                        not any(isinstance(a, ast.Starred) for a in x.args):
                    vals = []
                    for i, p in enumerate(parts):
                        if p:
                            vals.append(ast.Constant(p))
                        if i < len(x.args):
                            vals.append(ast.FormattedValue(x.args[i], -1, None))
                    return ast.JoinedStr(vals)
            return x
    V().visit(f)


@tr
def t_noop(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        if R.hit():
            i = R.rng.randint(0, len(b))
            if i == 0 and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                i = 1
            s = R.rng.choice(['pass', 'unused = None', 'unused_list = []', 'assert True', '"a remark"', 'unused_n = 1 + 1'])
            b.insert(i, ast.parse(s).body[0])


@tr
def t_reorder(f, c, R, tree):
    def rw(s):
        w = {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        r = {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
        return r, w

    def ok(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and (
            isinstance(s.targets[0], ast.Name) or isinstance(s.targets[0], ast.Attribute) and
            isinstance(s.targets[0].value, ast.Name)) and (pure(s.value) or ast.unparse(s.value) in
                                                           ('dict()', 'list()', 'set()', '[]', '{}'))
    for x, k, b in list(bodies(f)):
        for i in range(len(b) - 1):
            s, n = b[i], b[i + 1]
            if ok(s) and ok(n):
                (r1, w1), (r2, w2) = rw(s), rw(n)
                t1, t2 = ast.unparse(s.targets[0]), ast.unparse(n.targets[0])
                if w1 & (r2 | w2) or w2 & r1 or t1 in ast.unparse(n) or t2 in ast.unparse(s):
                    continue
                # values read through attributes the other one writes
                if R.hit():
                    b[i], b[i + 1] = n, s


@tr
def t_literal(f, c, R, tree):
    class V(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Name) and not x.args and not x.keywords and R.hit():
                if x.func.id == 'dict':
                    return ast.Dict([], [])
                if x.func.id == 'list':
                    return ast.List([], ast.Load())
            return x

        def visit_Dict(self, x):
            self.generic_visit(x)
            if not x.keys and R.hit():
                return ast.Call(name('dict'), [], [])
            return x

        def visit_List(self, x):
            self.generic_visit(x)
            if not x.elts and isinstance(x.ctx, ast.Load) and R.hit():
                return ast.Call(name('list'), [], [])
            return x
    V().visit(f)


@tr
def t_ternary(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], (ast.Name, ast.Attribute)) and R.hit():
                e = s.value
                b[i] = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and R.hit():
                e = s.value
                b[i] = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            i += 1


@tr
def t_mkternary(f, c, R, tree):
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                p, q = s.body[0], s.orelse[0]
                if isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and \
                        ast.unparse(p.targets[0]) == ast.unparse(q.targets[0]) and isinstance(p.targets[0], ast.Name) \
                        and len(p.targets) == 1 == len(q.targets) and R.hit():
                    b[i] = ast.Assign(p.targets, ast.IfExp(s.test, p.value, q.value))
                elif isinstance(p, ast.Return) and isinstance(q, ast.Return) and p.value and q.value and R.hit():
                    b[i] = ast.Return(ast.IfExp(s.test, p.value, q.value))


@tr
def t_nestif(f, c, R, tree):
    """if a and b: X  ->  if a: if b: X"""
    for x in list(ast.walk(f)):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And) \
                and R.hit():
            rest = x.test.values[1:]
            x.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])]
            x.test = x.test.values[0]
        elif isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and \
                not x.body[0].orelse and R.hit():
            x.test = ast.BoolOp(ast.And(), [x.test, x.body[0].test])
            x.body = x.body[0].body


@tr
def t_alias(f, c, R, tree):
    """self.A read several times and never assigned: cached in a local"""
    if not f.args.args or c is None or any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
        return
    me = f.args.args[0].arg
    seen, bad = {}, set()
    nested = {id(y) for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f
              for y in ast.walk(x)}
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
            if not isinstance(x.ctx, ast.Load) or id(x) in nested:
                bad.add(x.attr)
            seen.setdefault(x.attr, []).append(x)
    calls = {x.func.attr for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
             isinstance(x.func.value, ast.Name) and x.func.value.id == me}
    selfcalls = [x for x in ast.walk(f) if isinstance(x, ast.Call) and
                 any(isinstance(y, ast.Name) and y.id == me for y in ast.walk(x))]
    if selfcalls:
        return
    methods = {m.name for m in c.body if isinstance(m, ast.FunctionDef)}
    start = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
    if not f.body[start:] or isinstance(f.body[start], (ast.If, ast.Try, ast.Assert, ast.Raise)):
        return
    for a, xs in seen.items():
        if a in bad or a in calls or a in methods or len(xs) < 2 or not R.hit():
            continue
        # only what the first statement reads unconditionally
        if not any(y in xs for y in ast.walk(f.body[start])):
            continue
        v = fresh('cached')
        for x in xs:
            x.__class__ = ast.Name
            x.__dict__.pop('value', None)
            x.__dict__.pop('attr', None)
            x.id, x.ctx = v, ast.Load()
        f.body.insert(start, ast.Assign([name(v, ast.Store())], ast.Attribute(name(me), a, ast.Load())))


@tr
def t_anyall(f, c, R, tree):
    """for x in xs: if c: return True; return False -> return any(..)"""
    for x, k, b in list(bodies(f)):
        for i in range(len(b) - 1):
            s, n = b[i], b[i + 1]
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and \
                    not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Return) and \
                    isinstance(n, ast.Return):
                p, q = ast.unparse(s.body[0].body[0]), ast.unparse(n)
                t = s.body[0].test
                g = [ast.comprehension(s.target, s.iter, [], 0)]
                if p == 'return True' and q == 'return False' and R.hit():
                    n.value = ast.Call(name('any'), [ast.GeneratorExp(t, g)], [])
                    del b[i]
                    break
                if p == 'return False' and q == 'return True' and R.hit():
                    n.value = ast.Call(name('all'), [ast.GeneratorExp(ast.UnaryOp(ast.Not(), t), g)], [])
                    del b[i]
                    break


@tr
def t_kwargs(f, c, R, tree):
    """positional arguments of calls to functions of the same module and own methods become keywords"""
    top = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    meth = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)} if c is not None else {}
    loc = local_names(f) | set(params(f))
    for x in ast.walk(f):
        if not isinstance(x, ast.Call) or not x.args or any(isinstance(a, ast.Starred) for a in x.args):
            continue
        g, skip = None, 0
        if isinstance(x.func, ast.Name) and x.func.id in top and x.func.id not in loc:
            g = top[x.func.id]
        elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and \
                x.func.attr in meth and not meth[x.func.attr].decorator_list:
            g, skip = meth[x.func.attr], 1
        if g is None or g.args.vararg or g.args.posonlyargs or not R.hit():
            continue
        ps = [a.arg for a in g.args.args][skip:]
        if len(x.args) <= len(ps):
            # keep the first one positional
            for a, p in list(zip(x.args, ps))[1:]:
                x.keywords.append(ast.keyword(p, a))
            ks = x.keywords
            n = len(x.args) - 1
            x.keywords = ks[len(ks) - n:] + ks[:len(ks) - n] if n else ks
            x.args = x.args[:1]


def free_names(nodes):
    r, w = set(), set()
    for n in nodes:
        for y in ast.walk(n):
            if isinstance(y, ast.Name):
                (w if isinstance(y.ctx, ast.Store) else r).add(y.id)
            elif isinstance(y, ast.arg):
                w.add(y.arg)
    return r, w


def comp_targets(e):
    return {y.id for g in ast.walk(e) if isinstance(g, ast.comprehension) for y in ast.walk(g.target)
            if isinstance(y, ast.Name)} | {a.arg for x in ast.walk(e) if isinstance(x, ast.Lambda)
                                           for a in x.args.args}


@tr
def t_helper(f, c, R, tree):
    """expressions of returns, tests and assignments move to new functions of the module"""
    loc = local_names(f) | set(params(f))
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f for x in ast.walk(f)):
        return
    todo = []
    for x in ast.walk(f):
        if isinstance(x, (ast.Return, ast.Assign)) and x.value is not None and \
                not isinstance(x.value, (ast.Constant, ast.Name, ast.Attribute)):
            todo.append((x, 'value'))
        elif isinstance(x, ast.If):
            todo.append((x, 'test'))
    for x, k in todo:
        e = getattr(x, k)
        if not R.hit() or any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for y in ast.walk(e)):
            continue
        if any(isinstance(y, ast.Name) and y.id in ('super', 'locals') for y in ast.walk(e)):
            continue
        if c is not None and any(isinstance(y, ast.Attribute) and y.attr.startswith('__') and not y.attr.endswith('__')
                                 for y in ast.walk(e)):
            continue
        r, _ = free_names([e])
        args = sorted((r & loc) - comp_targets(e)) if True else []
        # names bound outside and shadowed inside would be ambiguous
        if comp_targets(e) & set(params(f)):
            continue
        h = fresh('_part')
        g = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                            [ast.Return(e)], [], None)
        g.type_params = []
        i = max([j for j, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [-1]) + 1
        tree.body.insert(i, g)
        setattr(x, k, ast.Call(name(h), [name(a) for a in args], []))


@tr
def t_block(f, c, R, tree):
    """a run of statements without jumps moves to a helper that returns what it assigns"""
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not f for x in ast.walk(f)):
        return
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
        return
    loc = local_names(f) | set(params(f))
    b = f.body
    if len(b) < 3 or not R.hit():
        return
    st = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    n = R.rng.randint(1, 3)
    i = R.rng.randint(st, len(b) - 1)
    part = b[i:i + n]
    if any(isinstance(y, (ast.Return, ast.Import, ast.ImportFrom, ast.Continue, ast.Break)) for s in part for y in ast.walk(s)):
        return
    if any(isinstance(y, ast.Name) and y.id in ('super', 'locals') for s in part for y in ast.walk(s)):
        return
    if c is not None and any(isinstance(y, ast.Attribute) and y.attr.startswith('__') and not y.attr.endswith('__')
                             for s in part for y in ast.walk(s)):
        return
    if comp_targets(f) & (local_names_plain(f) | set(params(f))):
        return
    if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(f)):
        return
    r, w = free_names(part)
    before, _w = set(params(f)), set()
    only = comp_targets(f)
    for s in b[:i]:
        before |= {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    after = set()
    for s in b[i + n:]:
        after |= {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
    outs = sorted(w & loc & after)
    # a variable assigned on some paths only must already have a value
    must = {t.id for s in part if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    if any(o not in must and o not in before for o in outs):
        return
    condit = {y.id for s in b[:i] for y in ast.walk(s) if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With))
              and isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    ins = sorted(((r | (set(outs) - must)) & before) - only)
    if condit & set(ins):
        return
    h = fresh('_step')
    body = list(part)
    if outs:
        body.append(ast.Return(name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], ast.Load())))
    g = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), body, [], None)
    g.type_params = []
    j = max([j for j, m in enumerate(tree.body) if isinstance(m, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    tree.body.insert(j, g)
    call = ast.Call(name(h), [name(a) for a in ins], [])
    if not outs:
        new = ast.Expr(call)
    else:
        t = name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([name(o, ast.Store()) for o in outs], ast.Store())
        new = ast.Assign([t], call)
    b[i:i + n] = [new]


@tr
def t_method(f, c, R, tree):
    """as `helper`, as a private method of the class"""
    if c is None or not f.args.args or f.args.args[0].arg != 'self' or f.decorator_list:
        return
    if any(isinstance(b, ast.Name) and b.id in ('AbsCreator', 'BaseModel') for b in c.bases):
        return
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f for x in ast.walk(f)):
        return
    loc = local_names(f) | set(params(f))
    for x in list(ast.walk(f)):
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, (ast.Constant, ast.Name)):
            e = x.value
            if not R.hit() or any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for y in ast.walk(e)) or \
                    any(isinstance(y, ast.Name) and y.id in ('super', 'locals') for y in ast.walk(e)) or \
                    comp_targets(e) & set(params(f)):
                continue
            r, _ = free_names([e])
            args = sorted((r & loc) - comp_targets(e) - {'self'})
            h = fresh('_own')
            g = ast.FunctionDef(h, ast.arguments([], [ast.arg('self')] + [ast.arg(a) for a in args], None, [], [], None, []),
                                [ast.Return(e)], [], None)
            g.type_params = []
            c.body.append(g)
            x.value = ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(a) for a in args], [])


@tr
def t_items(f, c, R, tree):
    """for k, v in D.items(): .. -> for k in D: v = D[k]; only where D is a plain name or self attribute not changed"""
    DICTS = {'Locus', 'Children', 'Settings', 'Data', 'ExoParameters', 'Notes', 'Sims', 'Actors', 'SGs', 'Creators',
             'Emulators', 'LocalActors', 'SharedActors', '__children'}
    for x in list(ast.walk(f)):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and \
                x.iter.func.attr == 'items' and not x.iter.args and isinstance(x.target, ast.Tuple) and \
                len(x.target.elts) == 2 and isinstance(x.target.elts[1], ast.Name) and isinstance(x.target.elts[0], ast.Name):
            d = x.iter.func.value
            if not (isinstance(d, ast.Attribute) and d.attr in DICTS and isinstance(d.value, ast.Name)):
                continue
            if any(ast.unparse(y) == ast.unparse(d) for s in x.body for y in ast.walk(s) if isinstance(y, ast.Attribute)):
                continue
            if any(isinstance(y, ast.Delete) or isinstance(y, ast.Call) and 'self' == ast.unparse(y.func).split('.')[0]
                   for s in x.body for y in ast.walk(s)):
                continue
            if R.hit():
                k, v = x.target.elts
                x.target, x.iter = k, d
                x.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))


@tr
def t_genexp(f, c, R, tree):
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and len(x.args) == 1 and \
                x.func.id in ('sum', 'set', 'any', 'all', 'list', 'tuple', 'max', 'min', 'sorted', 'dict'):
            a = x.args[0]
            if isinstance(a, ast.ListComp) and R.hit():
                x.args[0] = ast.GeneratorExp(a.elt, a.generators)
            elif isinstance(a, ast.GeneratorExp) and R.hit():
                x.args[0] = ast.ListComp(a.elt, a.generators)


@tr
def t_augment(f, c, R, tree):
    """n += 1 -> n = n + 1"""
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and \
                    isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and R.hit():
                t = copy.deepcopy(s.target)
                for y in ast.walk(t):
                    if hasattr(y, 'ctx'):
                        y.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))


@tr
def t_while(f, c, R, tree):
    """while c: B  ->  while True: if not c: break; B"""
    for x in ast.walk(f):
        if isinstance(x, ast.While) and not x.orelse and not (isinstance(x.test, ast.Constant)) and R.hit():
            x.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Break()], []))
            x.test = ast.Constant(True)


@tr
def t_dowhile(f, c, R, tree):
    """while c: B with c true at first -> while True: B; if not c: break"""
    import re
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.While) and not s.orelse and i and isinstance(b[i - 1], ast.Assign) and \
                    re.fullmatch(r'len\((\w+)\) < .*', ast.unparse(s.test)) and 'self' not in ast.unparse(s.test) and \
                    ast.unparse(b[i - 1]) == s.test.left.args[0].id + ' = []' and False:
                pass
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and not s.orelse and len(s.body) > 1 and \
                    R.hit():
                # while True: A; if c: return r   ->   the same with else: continue
                z = s.body[-1]
                if isinstance(z, ast.If) and not z.orelse and jumps(z.body):
                    z.orelse = [ast.Continue()]


@tr
def t_annotate(f, c, R, tree):
    """annotations, defaults kept"""
    for x, k, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and R.hit():
                b[i] = ast.AnnAssign(s.targets[0], name('object'), s.value, 1)


@tr
def t_args(f, c, R, tree):
    """first arguments of calls and operands are computed into temporaries"""
    for x, k, b in list(bodies(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and \
                    isinstance(s.value.func, ast.Name) and isinstance(s.value.args[0], (ast.Call, ast.BinOp, ast.Compare,
                                                                                        ast.Subscript)) and R.hit():
                v = fresh('arg')
                b.insert(i, ast.Assign([name(v, ast.Store())], s.value.args[0]))
                s.value.args[0] = name(v)
                i += 1
            i += 1


@tr
def t_unpack(f, c, R, tree):
    """a, b = x, y -> two assignments when independent;  for a, b in xs -> for t in xs: a, b = t"""
    for x in ast.walk(f):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and R.hit():
            v = fresh('item')
            x.body.insert(0, ast.Assign([x.target], name(v)))
            x.target = name(v, ast.Store())
    for x, k, b in list(bodies(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                    isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and R.hit():
                ts = [ast.unparse(t) for t in s.targets[0].elts]
                src = ast.unparse(s.value)
                if not any(t.split('.')[-1] in src for t in ts):
                    b[i:i + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
            i += 1


PROGRAM = {}


def prog_tr(f):
    PROGRAM[f.__name__[2:]] = f
    return f


def _private(n):
    return n.startswith('_') and not n.endswith('__')


@prog_tr
def p_privmeth(trees, rng, p):
    """private methods and functions get other names"""
    names = sorted({x.name for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.FunctionDef)
                    and _private(x.name)})
    ren = {n: n + '_impl' for n in names if rng.random() < p}
    _rename(trees, ren)


@prog_tr
def p_privattr(trees, rng, p):
    """private attributes get other names"""
    fn = {x.name for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.FunctionDef)}
    names = sorted({x.attr for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Attribute)
                    and _private(x.attr)} - fn)
    ren = {n: n + '_value' for n in names if rng.random() < p}
    _rename(trees, ren)


def _rename(trees, ren):
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.FunctionDef) and x.name in ren:
                x.name = ren[x.name]
            elif isinstance(x, ast.Attribute) and x.attr in ren:
                x.attr = ren[x.attr]
            elif isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            elif isinstance(x, ast.alias) and x.name in ren:
                x.name = ren[x.name]


@prog_tr
def p_uninline(trees, rng, p):
    """private methods called as a statement or returned once are put in place of the call"""
    for t in trees.values():
        for c in [n for n in t.body if isinstance(n, ast.ClassDef)]:
            ms = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)}
            for nm, m in list(ms.items()):
                if not _private(nm) or m.decorator_list or rng.random() > p:
                    continue
                uses = [x for t2 in trees.values() for x in ast.walk(t2) if isinstance(x, ast.Attribute) and x.attr == nm]
                if len(uses) != 1 or m.args.defaults or m.args.vararg or m.args.kwarg:
                    continue
                body = m.body
                if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for s in body[:-1] for x in ast.walk(s)):
                    continue
                if any(isinstance(x, (ast.Return, ast.Yield)) for x in ast.walk(body[-1])) and \
                        not isinstance(body[-1], ast.Return):
                    continue
                for f in ms.values():
                    if f is m:
                        continue
                    for x, k, b in list(bodies(f)):
                        for i, s in enumerate(b):
                            v = getattr(s, 'value', None)
                            if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or not isinstance(v, ast.Call) or \
                                    v.func is not uses[0] or v.keywords or ast.unparse(v.func.value) != 'self':
                                continue
                            ps = [a.arg for a in m.args.args][1:]
                            if len(ps) != len(v.args):
                                continue
                            loc = local_names(m) | set(ps)
                            ren = {n: fresh('in_' + n) for n in loc}
                            new = copy.deepcopy(body)
                            for z in new:
                                for y in ast.walk(z):
                                    if isinstance(y, ast.Name) and y.id in ren:
                                        y.id = ren[y.id]
                            pre = [ast.Assign([name(ren[q], ast.Store())], a) for q, a in zip(ps, v.args)]
                            if isinstance(new[-1], ast.Return):
                                r = new.pop().value or ast.Constant(None)
                            else:
                                r = ast.Constant(None)
                            s.value = r
                            b[i:i] = pre + new
                            if m in c.body:
                                c.body.remove(m)
                            break
                    if m not in c.body:
                        break


@prog_tr
def p_shuffle(trees, rng, p):
    """methods of a class in another order"""
    for t in trees.values():
        for c in [n for n in t.body if isinstance(n, ast.ClassDef)]:
            ms = [i for i, m in enumerate(c.body) if isinstance(m, ast.FunctionDef)]
            names = [c.body[i].name for i in ms]
            if len(set(names)) != len(names) or any(c.body[i].decorator_list for i in ms):
                continue
            sh = [c.body[i] for i in ms]
            rng.shuffle(sh)
            for i, m in zip(ms, sh):
                c.body[i] = m


@prog_tr
def p_tobase(trees, rng, p):
    """some methods of a class move to a private base class"""
    for t in trees.values():
        for c in [n for n in list(t.body) if isinstance(n, ast.ClassDef)]:
            if c.bases or c.decorator_list or c.keywords or rng.random() > p:
                continue
            ms = [m for m in c.body if isinstance(m, ast.FunctionDef) and not m.decorator_list and m.name != '__init__'
                  and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(m))
                  and not any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__')
                              for x in ast.walk(m)) and not (m.name.startswith('__') and not m.name.endswith('__'))]
            used = {y.id for s in c.body if not isinstance(s, ast.FunctionDef) for y in ast.walk(s)
                    if isinstance(y, ast.Name)}
            ms = [m for m in ms if rng.random() < 0.5 and m.name not in used]
            if not ms:
                continue
            c.body = [m for m in c.body if m not in ms] or [ast.Pass()]
            b = ast.ClassDef('_' + c.name + 'Base', [], [], ms, [])
            b.type_params = []
            t.body.insert(t.body.index(c), b)
            c.bases = [name(b.name)]


# ------------------------------------------------------------------ driver
def rewrite(src, which, rng, p):
    tree = ast.parse(src)
    for w in which:
        R = P(rng, p)
        for f, c in list(fns(tree)):
            if f.name.startswith(('_part', '_step')):
                continue
            T[w](f, c, R, tree)
        tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
    return ast.unparse(tree)


def build(dst, which, seed, p, only=None):
    rng = random.Random(seed)
    prog = [w for w in which if w in PROGRAM]
    which = [w for w in which if w in T]
    FRESH[0] = 0
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.environ.get('VF_SRC', '/repo'), dst, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    base = os.path.join(dst, 'src', 'sims_pars')
    for d, _, fs in sorted(os.walk(base)):
        for fn in sorted(fs):
            if fn.endswith('.py') and 'fitting' not in d and '/ga' not in d:
                path = os.path.join(d, fn)
                if only and only not in path:
                    continue
                src = open(path).read()
                new = rewrite(src, which, rng, p)
                open(path, 'w').write(new)
    if prog:
        trees = {}
        for d, _, fs in sorted(os.walk(base)):
            for fn in sorted(fs):
                if fn.endswith('.py') and 'fitting' not in d and '/ga' not in d:
                    trees[os.path.join(d, fn)] = ast.parse(open(os.path.join(d, fn)).read())
        for w in prog:
            PROGRAM[w](trees, rng, p)
        for path, t in trees.items():
            open(path, 'w').write(ast.unparse(ast.fix_missing_locations(t)))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    p = float(sys.argv[sys.argv.index('--p') + 1]) if '--p' in sys.argv else 0.7
    if '--p' in sys.argv:
        args.remove(str(sys.argv[sys.argv.index('--p') + 1]))
    what = args[0] if args else 'all'
    seed = int(args[1]) if len(args) > 1 else 0
    if what == 'all':
        jobs = [([t], seed) for t in list(T) + list(PROGRAM)]
    elif what == 'mix':
        rng = random.Random(seed)
        jobs = []
        for k in range(int(args[2]) if len(args) > 2 else 10):
            jobs.append((rng.sample(sorted(T) + sorted(PROGRAM), rng.randint(2, 6)), seed * 1000 + k))
    else:
        jobs = [(what.split(','), seed)]
    tests = '--tests' in sys.argv
    for which, s in jobs:
        dst = '/tmp/x/rf_%d' % os.getpid()
        build(dst, which, s, p)
        env = dict(os.environ, VF_REPO=dst)
        note = ''
        if tests:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'],
                               cwd=dst, env=dict(os.environ, PYTHONPATH=os.path.join(dst, 'src'),
                                                 PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
            note = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
        r = subprocess.run(['python3', 'check.py', 'ALL', '--verbose'], cwd=HERE, env=env, capture_output=True, text=True)
        lines = r.stdout.splitlines()
        print('==', ','.join(which), s, lines[-1] if lines else r.stderr[-500:], note, flush=True)
        for ln in lines:
            if ln.startswith(('VIOLATED', 'ERROR', 'BROKEN', 'UNDECIDED')):
                print('   ', ln[:260])
        if '--keep' not in sys.argv:
            shutil.rmtree(dst, ignore_errors=True)


main()
