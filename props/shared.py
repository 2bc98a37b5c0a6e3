"""Shared state: what one object or call does must not show in another one.

Mutable default arguments are neither changed nor kept, collections assigned in a class body are not changed through
its objects, and the module level tables of the package change only in their registration functions."""
import ast

from vf import summary as S
from vf.load import Cls, Fn
from props.refs import wanted, is_main

MAKERS = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'bytearray'}
MUTATORS = {'append', 'add', 'update', 'extend', 'insert', 'remove', 'discard', 'pop', 'popitem', 'clear', 'setdefault',
            'sort', 'reverse', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft'}
REGISTRIES = {('sims_pars.util', 'MATH_FUNC'): {'add_math_func'}, ('sims_pars.util', 'DATA_FUNC'): {'add_data_func'},
              ('sims_pars.factory', 'AtelierDict'): {'get_atelier'}}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in MAKERS or
                                        isinstance(e.func, ast.Attribute) and e.func.attr in MAKERS)


def mutated(nodes, match):
    """the statements and calls that change the object `match` accepts"""
    for x in nodes:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and match(x.func.value):
            yield x
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and match(x.value):
            yield x
        elif isinstance(x, ast.AugAssign) and match(x.target):
            yield x


def functions(m):
    """(function, qualified name, enclosing class)"""
    out = []

    def walk(body, pre, cls):
        for n in body:
            if is_main(n):
                continue
            if isinstance(n, ast.FunctionDef):
                out.append((n, pre + n.name, cls))
                walk(n.body, pre + n.name + '.', cls)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + '.', n)
            else:
                for k in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(n, k, None), list):
                        walk(getattr(n, k), pre, cls)
                for h in getattr(n, 'handlers', []):
                    walk(h.body, pre, cls)
    walk(m.tree.body, '', None)
    return out


def check_defaults(prog):
    bad, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for f, q, cls in functions(m):
            a = f.args
            pos = a.posonlyargs + a.args
            ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            n += len(ds)
            for x, d in ds:
                if mutable(d):
                    bad += default_uses(m, f, q, x.arg)
    return done(bad, n, 'default values')


def default_uses(m, f, q, p):
    parents = {}
    for x in ast.walk(f):
        for c in ast.iter_child_nodes(x):
            parents[c] = x

    def replaced_only_if_none(x):
        while x is not f:
            y = parents.get(x)
            if y is None:
                return False
            if isinstance(y, ast.If) and x in y.body and ast.unparse(y.test) == '%s is None' % p:
                return True
            x = y
        return False
    stores = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, (ast.Store, ast.Del))
              and not isinstance(parents.get(x), ast.AugAssign)]
    if any(not replaced_only_if_none(x) for x in stores):
        return []

    def is_p(e):
        return isinstance(e, ast.Name) and e.id == p
    bad = []
    nodes = [x for s in f.body for x in ast.walk(s)]
    for x in mutated(nodes, is_p):
        bad.append('%s:%s: line %d changes the default value of %s' % (m.name, q, x.lineno, p))
    for x in nodes:
        if isinstance(x, ast.Assign) and is_p(x.value) and any(isinstance(t, (ast.Attribute, ast.Subscript))
                                                              for t in x.targets):
            bad.append('%s:%s: line %d keeps the default value of %s' % (m.name, q, x.lineno, p))
        elif isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and is_p(x.value):
            bad.append('%s:%s: line %d hands out the default value of %s' % (m.name, q, x.lineno, p))
    return bad


def check_class_state(prog):
    bad, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for c in [x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef)]:
            names = {}
            for s in c.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable(s.value):
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Name):
                            names[t.id] = s
            n += len(c.body)
            for nm, s in names.items():
                key = '_%s%s' % (c.name.lstrip('_'), nm) if nm.startswith('__') and not nm.endswith('__') else nm
                own = [x for x in ast.walk(c) if isinstance(x, ast.Attribute) and x.attr == nm and
                       isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)]
                if own:
                    continue

                def is_it(e):
                    return isinstance(e, ast.Attribute) and e.attr in (nm, key) and isinstance(e.value, ast.Name) and \
                        e.value.id in ('self', 'cls', c.name)
                for x in mutated(ast.walk(c), is_it):
                    bad.append('%s:%s: line %d changes %s, which all objects of the class share' % (
                        m.name, c.name, x.lineno, nm))
    return done(bad, n, 'class bodies')


def check_registries(prog):
    bad, n = [], 0
    for (mod, table), allowed in REGISTRIES.items():
        home = prog.mods.get(mod)
        if home is None or table not in home.defs:
            continue
        fns = [(m, f, q) for m in prog.mods.values() if wanted(m) for f, q, _ in functions(m)]

        def refers(m, e):
            if isinstance(e, ast.Name):
                return e.id == table and (m is home or imports(m, table))
            return isinstance(e, ast.Attribute) and e.attr == table and isinstance(e.value, ast.Name) and \
                e.value.id not in ('self', 'cls')

        ok = set(allowed)
        hits = []
        for m, f, q in fns:
            if any(isinstance(x, ast.Name) and x.id == table and isinstance(x.ctx, ast.Store) for x in ast.walk(f)) and \
                    not any(isinstance(x, ast.Global) and table in x.names for x in ast.walk(f)):
                continue
            n += 1
            xs = list(mutated([y for s in f.body for y in ast.walk(s)], lambda e: refers(m, e)))
            if xs:
                hits.append((m, f, q, xs))
        # private helpers used only by the registration functions belong to them
        for _ in range(3):
            for m, f, q, xs in hits:
                if f.name.startswith('_') and f.name not in ok:
                    users = [g for m2, g, q2 in fns if g is not f and any(
                        isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, 'id', None) == f.name or
                                                                      getattr(x, 'attr', None) == f.name)
                        for x in ast.walk(g))]
                    if users and all(g.name in ok for g in users):
                        ok.add(f.name)
        for m, f, q, xs in hits:
            if f.name not in ok and q.split('.')[0] not in ok:
                bad.append('%s:%s: line %d changes %s outside its registration' % (m.name, q, xs[0].lineno, table))
    return done(bad, n, 'functions')


def imports(m, nm):
    return any(isinstance(x, ast.ImportFrom) and any(a.name in (nm, '*') for a in x.names) for x in ast.walk(m.tree))


def done(bad, n, what):
    stats = dict(facts=n, detail='%d %s' % (n, what), functions=[], steps=0)
    if bad:
        return S.Result('VIOLATED', why='; '.join(bad)[:900], stats=stats)
    return S.Result('HOLDS', stats=stats)


OBLIGATIONS = [('shared state: default values', ['C36'], check_defaults),
               ('shared state: class bodies', ['C36'], check_class_state),
               ('shared state: registries', ['C36'], check_registries)]
