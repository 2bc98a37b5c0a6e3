"""Attributes whose container nobody but their object gets hold of: every value the analysed source puts there is made
on the spot, and every use reads or changes the container without passing it on.  Emptying such a container and putting
a new one in its place cannot be told apart."""
import ast

FRESH = {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'sorted'}
METHODS = {'append', 'clear', 'update', 'items', 'keys', 'values', 'get', 'pop', 'extend', 'add', 'remove', 'copy', 'insert',
           'discard', 'union', 'difference', 'intersection', 'setdefault', 'index', 'count', 'issubset', 'issuperset',
           'difference_update', 'intersection_update', 'popitem', 'sort', 'reverse', 'isdisjoint'}
READERS = {'len', 'sorted', 'list', 'dict', 'set', 'sum', 'min', 'max', 'any', 'all', 'enumerate', 'zip', 'tuple', 'str',
           'print', 'DataFrame', 'array', 'repr', 'bool', 'reversed', 'frozenset', 'tqdm', 'deepcopy', 'join', 'update',
           'extend', 'union', 'difference', 'intersection', 'issubset', 'append'}


def fresh(e):
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Constant):
        return e.value is None
    if isinstance(e, ast.IfExp):
        return fresh(e.body) and fresh(e.orelse)
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in FRESH or
                                        isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args)


def used_inside(n, up):
    """is this use of the container one that keeps it where it is"""
    p = up.get(n)
    if isinstance(p, ast.Attribute):
        q = up.get(p)
        return p.attr in METHODS and isinstance(q, ast.Call) and q.func is p
    if isinstance(p, ast.Subscript):
        return p.value is n
    if isinstance(p, ast.Compare):
        return True
    if isinstance(p, (ast.For, ast.comprehension)):
        return p.iter is n
    if isinstance(p, ast.Call):
        f = p.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return f is not n and nm in READERS
    if isinstance(p, ast.keyword):
        return p.arg is None
    if isinstance(p, ast.Dict):
        return any(k is None and v is n for k, v in zip(p.keys, p.values))
    if isinstance(p, ast.AugAssign):
        return True
    if isinstance(p, ast.BinOp):
        return True
    if isinstance(p, ast.UnaryOp):
        return isinstance(p.op, ast.Not)
    return isinstance(p, (ast.Starred, ast.FormattedValue, ast.If, ast.While, ast.Assert))


def stored_fresh(n, up):
    p = up.get(n)
    if isinstance(p, ast.Assign) and len(p.targets) == 1:
        return fresh(p.value)
    if isinstance(p, ast.AnnAssign):
        return p.value is None or fresh(p.value)
    if isinstance(p, ast.AugAssign):
        return True
    if isinstance(p, ast.Tuple):
        q = up.get(p)
        if isinstance(q, ast.Assign) and isinstance(q.value, ast.Tuple) and len(q.value.elts) == len(p.elts):
            return fresh(q.value.elts[p.elts.index(n)])
    return False


def owned(trees):
    """names of attributes that are kept inside their objects"""
    good, bad = set(), set()
    for t in trees:
        up = {}
        for x in ast.walk(t):
            for y in ast.iter_child_nodes(x):
                up[y] = x
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                bad.add(x.name)
        for x in ast.walk(t):
            if not isinstance(x, ast.Attribute):
                continue
            ok = stored_fresh(x, up) if isinstance(x.ctx, ast.Store) else \
                used_inside(x, up) if isinstance(x.ctx, ast.Load) else False
            if not ok:
                bad.add(x.attr)
            elif isinstance(x.ctx, ast.Store):
                good.add(x.attr)
    return good - bad
