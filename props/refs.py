"""Reference integrity: what the code refers to exists.

For every module of the package (the superseded `fitting` package and the genetic algorithm built on it aside):
names resolve to a local, enclosing, module level or builtin definition; names imported from the package exist there;
exported names are defined; attributes read from `self` are defined by the class, its bases, its subclasses or some
assignment to an object; calls of package functions, classes and methods bind to the parameters of what they call; a
local variable is not read where no path from the entry of the function has assigned it.  Each rule only reports what
fails for every execution that reaches the construct."""
import ast
import builtins
import os
import symtable

from vf import summary as S
from vf.load import Cls, Fn

SKIP = ('sims_pars.fitting', 'sims_pars.fit.ga')
IMPLICIT = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__class__',
            '__module__', '__qualname__', '__annotations__', '__dict__', '__builtins__'}


def wanted(m):
    return m.name.startswith('sims_pars') and not any(m.name == s or m.name.startswith(s + '.') for s in SKIP)


def is_main(n):
    return isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and \
        n.test.left.id == '__name__'


class NS:
    """names a module defines; None when an external star import hides them"""
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def names(self, m, seen=()):
        if m.name in self.memo:
            return self.memo[m.name]
        if m.name in seen:
            return set()
        out = set()
        open_ = False

        def walk(body):
            nonlocal open_
            for n in body:
                if is_main(n):
                    continue
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                    continue
                if isinstance(n, ast.Import):
                    for a in n.names:
                        out.add(a.asname or a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    t = resolve(m, n)
                    for a in n.names:
                        if a.name == '*':
                            tm = self.prog.mods.get(t)
                            if tm is None:
                                open_ = True
                            else:
                                e = self.exports(tm, seen + (m.name,))
                                if e is None:
                                    open_ = True
                                else:
                                    out.update(e)
                        else:
                            out.add(a.asname or a.name)
                for x in ast.walk(n) if not hasattr(n, 'body') else headers(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        out.add(x.name)
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(n, f, None), list):
                        walk(getattr(n, f))
                for h in getattr(n, 'handlers', []):
                    if h.name:
                        out.add(h.name)
                    walk(h.body)
                for c in getattr(n, 'cases', []):
                    walk(c.body)
        walk(m.tree.body)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                out.update(f.names)
        # submodules are attributes of a package
        pre = m.name + '.'
        if m.is_pkg:
            out.update(k[len(pre):].split('.')[0] for k in self.prog.mods if k.startswith(pre))
        r = None if open_ else out
        if not seen:
            self.memo[m.name] = r
        return r

    def exports(self, m, seen=()):
        ns = self.names(m, seen)
        al = literal_all(m)
        if al is not None:
            return set(al)
        if ns is None:
            return None
        return {x for x in ns if not x.startswith('_')}


def headers(n):
    """expressions and targets of a compound statement, without the statements inside"""
    for f, v in ast.iter_fields(n):
        if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
            continue
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, ast.AST):
                yield from ast.walk(x)


def literal_all(m):
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
            try:
                return list(ast.literal_eval(n.value))
            except ValueError:
                return None
    return None


def resolve(m, n):
    if n.level:
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[:-(n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))
    return n.module or ''


def report(sites, n_checked):
    st = dict(facts=n_checked, sites=[list(x) for x in sites])
    if sites:
        return S.Result('VIOLATED', ['%s: %s' % x for x in sites], why='; '.join('%s: %s' % x for x in sites)[:600],
                        stats=st)
    return S.Result('HOLDS', stats=st)


# ------------------------------------------------------------------ names
def check_names(prog):
    ns = NS(prog)
    sites, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        names = ns.names(m)
        if names is None:
            continue
        src = open(m.path, encoding='utf-8').read()
        top = symtable.symtable(src, m.path, 'exec')
        known = names | set(dir(builtins)) | IMPLICIT
        main = set()
        for b in m.tree.body:
            if is_main(b):
                for x in ast.walk(b):
                    main.add(id(x))

        def walk(tab, path):
            nonlocal n
            for s in tab.get_symbols():
                if not s.is_referenced():
                    continue
                n += 1
                if tab.get_type() == 'module':
                    bad = s.get_name() not in known and not s.is_assigned() and not s.is_imported()
                else:
                    bad = s.is_global() and s.get_name() not in known
                if bad:
                    sites.append(('%s%s: name %s' % (m.name, path, s.get_name()), 'the name is defined nowhere'))
            for c in tab.get_children():
                walk(c, path + ':' + c.get_name())
        walk(top, '')
    return report(sites, n)


def check_imports(prog):
    ns = NS(prog)
    sites, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        alias = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                t = resolve(m, x)
                if t.split('.')[0] != 'sims_pars':
                    continue
                tm = prog.mods.get(t)
                if tm is None:
                    sites.append(('%s: import of %s' % (m.name, t), 'there is no such module'))
                    continue
                have = ns.names(tm)
                for a in x.names:
                    n += 1
                    if a.name != '*' and have is not None and a.name not in have and t + '.' + a.name not in prog.mods:
                        sites.append(('%s: import of %s from %s' % (m.name, a.name, t), 'it is not defined there'))
                    if t + '.' + a.name in prog.mods and (have is None or a.name not in {
                            d for d in tm.defs if tm.defs[d][0] != 'mod'}):
                        alias[a.asname or a.name] = t + '.' + a.name
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split('.')[0] == 'sims_pars':
                        n += 1
                        if a.name not in prog.mods:
                            sites.append(('%s: import of %s' % (m.name, a.name), 'there is no such module'))
                        elif a.asname:
                            alias[a.asname] = a.name
        al = literal_all(m)
        if al is not None:
            have = ns.names(m)
            for a in al:
                n += 1
                if have is not None and a not in have:
                    sites.append(('%s: __all__ %s' % (m.name, a), 'the exported name is not defined'))
        # attributes of modules of the package
        stored = {y.id for y in ast.walk(m.tree) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        stored |= {y.arg for y in ast.walk(m.tree) if isinstance(y, ast.arg)}
        for y in ast.walk(m.tree):
            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in alias and \
                    y.value.id not in stored:
                have = ns.names(prog.mods[alias[y.value.id]])
                n += 1
                if have is not None and y.attr not in have and y.attr not in IMPLICIT:
                    sites.append(('%s: %s.%s' % (m.name, alias[y.value.id], y.attr), 'the module does not define it'))
    return report(sites, n)


# ------------------------------------------------------------------ attributes of self
def mangle(c, a):
    return '_%s%s' % (c.name.lstrip('_'), a) if a.startswith('__') and not a.endswith('__') else a


def check_attributes(prog):
    classes = list(prog.classes())
    mro = {c: [k for k in prog.mro(c)] for c in classes}
    outside = set()          # attributes assigned to some object other than self
    own = {c: set() for c in classes}
    for c in classes:
        own[c] |= {mangle(c, a) for a in list(c.methods) + list(c.attrs) + list(c.anns)}
    for m in prog.mods.values():
        if m.name.startswith('spec.'):
            continue
        cls_at = {}
        for c in classes:
            if c.mod is m:
                for x in ast.walk(c.node):
                    cls_at[id(x)] = c
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                c = cls_at.get(id(x))
                a = mangle(c, x.attr) if c else x.attr
                if isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls') and c:
                    own[c].add(a)
                else:
                    outside.add(a)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                outside.add('*')
    sites, n = [], 0
    if '*' in outside:
        return report([], 0)
    for c in classes:
        if not wanted(c.mod):
            continue
        if any(not isinstance(k, Cls) and str(k).split('.')[-1] not in ('object', 'ABC', 'ABCMeta', 'Exception')
               for k in mro[c]):
            continue
        have = set(outside) | set(dir(object))
        if any(isinstance(k, str) and k.endswith('Exception') for k in mro[c]):
            have |= set(dir(Exception))
        for k in classes:
            if k in mro[c] or c in mro[k]:
                have |= own[k]
                for b in mro[k]:
                    if isinstance(b, Cls):
                        have |= own[b]
                    elif str(b).split('.')[-1] not in ('object', 'ABC', 'ABCMeta', 'Exception'):
                        have.add('*')
        if '*' in have:
            continue
        for f in c.methods.values():
            if f.is_static or f.is_class or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and \
                        x.value.id == me:
                    n += 1
                    if mangle(c, x.attr) not in have:
                        sites.append(('%s: attribute %s' % (f.qual, x.attr), 'no class or assignment defines it'))
    return report(sorted(set(sites)), n)


# ------------------------------------------------------------------ calls
def accepts(fn, npos, kws, bound):
    """reason why the call does not bind, or None"""
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    skip = 1 if bound else 0
    avail = pos[skip:]
    if npos > len(avail) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(avail), npos)
    filled = set(avail[:npos])
    ponly = {x.arg for x in a.posonlyargs}
    names = (set(avail) - ponly) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k in filled and k in names:
            return 'argument %s given twice' % k
        if k not in names and not a.kwarg:
            return 'has no parameter %s' % k
        filled.add(k)
    nd = len(a.defaults)
    req = set(pos[:len(pos) - nd][skip:])
    req |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    miss = sorted(req - filled)
    if miss:
        return 'parameter %s is not given' % miss[0]
    return None


PLAIN = {'staticmethod', 'classmethod', 'abstractmethod', 'property'}


def plain(fn):
    return all(d in PLAIN or d.endswith('.abstractmethod') for d in fn.decs)


def check_calls(prog):
    sites, n = [], 0
    subs = {}
    for c in prog.classes():
        for k in prog.mro(c):
            if isinstance(k, Cls):
                subs.setdefault(k, set()).add(c)
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for owner in owners(m):
            locs = set()
            for x in ast.walk(owner.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    locs.add(x.id)
                elif isinstance(x, ast.arg):
                    locs.add(x.arg)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not owner.node:
                    locs.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    locs.update((a.asname or a.name).split('.')[0] for a in x.names)
            for x in ast.walk(owner.node):
                if not isinstance(x, ast.Call) or any(isinstance(a, ast.Starred) for a in x.args) or \
                        any(k.arg is None for k in x.keywords):
                    continue
                for fn, bound, label in callees(prog, m, owner, x.func, locs, subs):
                    if not plain(fn) or fn.is_property:
                        continue
                    n += 1
                    why = accepts(fn, len(x.args), [k.arg for k in x.keywords], bound)
                    if why:
                        sites.append(('%s: call of %s' % (owner.qual, label), why))
    return report(sorted(set(sites)), n)


def owners(m):
    for d in m.defs.values():
        if d[0] == 'fn' and d[1].mod is m:
            yield d[1]
        elif d[0] == 'cls' and d[1].mod is m:
            yield from d[1].methods.values()


def callees(prog, m, owner, f, locs, subs):
    if isinstance(f, ast.Name):
        if f.id in locs:
            return
        d = m.defs.get(f.id)
        if not d:
            return
        if d[0] == 'fn' and len(m.assigns.get(f.id, ())) == 0:
            yield d[1], False, f.id
        elif d[0] == 'cls':
            yield from constructor(prog, d[1], f.id)
    elif isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and owner.cls is not None and not owner.is_static and not owner.is_class and \
                owner.node.args.args and v.id == owner.node.args.args[0].arg:
            g = prog.method(owner.cls, mangle(owner.cls, f.attr)) or prog.method(owner.cls, f.attr)
            if g is None:
                return
            for c in subs.get(owner.cls, ()):
                if c is not owner.cls and f.attr in c.methods:
                    return
            if any(f.attr in own_stores(k) for k in prog.mro(owner.cls) if isinstance(k, Cls)):
                return
            yield g, not g.is_static, 'self.' + f.attr
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and owner.cls is not None:
            for k in prog.mro(owner.cls)[1:]:
                if not isinstance(k, Cls):
                    return
                if f.attr in k.methods:
                    yield k.methods[f.attr], True, 'super().' + f.attr
                    return
        elif isinstance(v, ast.Name) and v.id not in locs:
            d = m.defs.get(v.id)
            if d and d[0] == 'cls':
                g = prog.method(d[1], f.attr)
                if g is not None:
                    yield g, g.is_class, v.id + '.' + f.attr
            elif d and d[0] == 'mod' and d[1] in prog.mods:
                e = prog.mods[d[1]].defs.get(f.attr)
                if e and e[0] == 'fn':
                    yield e[1], False, v.id + '.' + f.attr
                elif e and e[0] == 'cls':
                    yield from constructor(prog, e[1], v.id + '.' + f.attr)


_stores = {}


def own_stores(c):
    if c not in _stores:
        _stores[c] = {x.attr for x in ast.walk(c.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    return _stores[c]


def constructor(prog, c, label):
    if c.node.decorator_list:
        return
    for k in prog.mro(c):
        if not isinstance(k, Cls):
            return
        if '__new__' in k.methods:
            return
        if '__init__' in k.methods:
            yield k.methods['__init__'], True, label
            return


# ------------------------------------------------------------------ locals
def check_locals(prog):
    sites, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for owner in owners(m):
            for f in ast.walk(owner.node):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    k, bad = Flow(f).run()
                    n += k
                    for b in bad:
                        sites.append(('%s: local %s' % (owner.qual if f is owner.node else owner.qual + '.' + f.name, b),
                                      'read where nothing has assigned it'))
    return report(sorted(set(sites)), n)


class Flow:
    """names possibly assigned at each point; a read outside that set always fails"""
    def __init__(self, f):
        self.f = f
        self.locals = set()
        glob = set()

        def own(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.locals.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for w in ast.walk(c):
                        if isinstance(w, ast.NamedExpr):
                            self.locals.add(w.target.id)
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    self.locals.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    self.locals.add(c.name)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    self.locals.update((a.asname or a.name).split('.')[0] for a in c.names)
                own(c)
        for b in f.body:
            own(ast.Module([b], []))
        self.locals -= glob
        self.bad, self.n = set(), 0
        a = f.args
        self.start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

    def run(self):
        self.block(self.f.body, set(self.start))
        return self.n, sorted(self.bad)

    def expr(self, e, may):
        """reads of e in order of evaluation, roughly: reads first, then what it binds"""
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                may.add(x.target.id)
        self.reads(e, may)

    def reads(self, e, may):
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                    self.use(x.id, may)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.use(e.id, may)
        for c in ast.iter_child_nodes(e):
            self.reads(c, may)

    def use(self, v, may):
        if v in self.locals:
            self.n += 1
            if v not in may:
                self.bad.add(v)

    def bind(self, t, may):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                may.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(x.id, may)

    def block(self, body, may):
        for s in body:
            self.stmt(s, may)

    def stmt(self, s, may):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            may.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            may.update((a.asname or a.name).split('.')[0] for a in s.names)
        elif isinstance(s, ast.Assign):
            self.expr(s.value, may)
            for t in s.targets:
                self.bind(t, may)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, may)
            if isinstance(s.target, ast.Name):
                self.use(s.target.id, may)
            self.bind(s.target, may)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value, may)
            if s.value is not None:
                self.bind(s.target, may)
        elif isinstance(s, ast.If):
            self.expr(s.test, may)
            a, b = set(may), set(may)
            self.block(s.body, a)
            self.block(s.orelse, b)
            may |= a | b
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, may)
            for _ in range(2):
                b = set(may)
                for x in ast.walk(ast.Module(s.body, [])):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        b.add(x.id)
                self.bind(s.target, b)
                # names bound by an earlier turn of the loop count
                self.block(s.body, b)
                may |= b
            self.block(s.orelse, may)
        elif isinstance(s, ast.While):
            b = set(may)
            for x in ast.walk(ast.Module(s.body, [])):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    b.add(x.id)
            self.expr(s.test, may)
            self.block(s.body, b)
            may |= b
            self.block(s.orelse, may)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, may)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, may)
            self.block(s.body, may)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            self.block(s.body, may)
            for h in s.handlers:
                b = set(may)
                if h.name:
                    b.add(h.name)
                self.expr(h.type, may)
                self.block(h.body, b)
                may |= b - {h.name}
            self.block(s.orelse, may)
            self.block(s.finalbody, may)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, may)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    for k in ('name', 'rest'):
                        if isinstance(getattr(x, k, None), str):
                            may.add(getattr(x, k))
                self.expr(c.guard, may)
                self.block(c.body, may)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.reads(t, may)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.expr(x, may)


def check_settings(prog):
    """settings read by an algorithm have a default or are set by it"""
    bad, n = [], 0
    st = dict(facts=0, functions=[], steps=0)
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for d in list(m.defs.values()):
            if d[0] != 'cls' or d[1].mod is not m:
                continue
            c = d[1]
            keys, open_ = set(), False
            ks = [k for k in prog.mro(c) if isinstance(k, Cls)]
            fn = prog.method(c, 'DefaultSettings')
            if not isinstance(fn, Fn):
                continue
            rets = [x for x in ast.walk(fn.node) if isinstance(x, ast.Return)]
            if len(rets) != 1 or not isinstance(rets[0].value, ast.Dict) or \
                    not all(isinstance(k, ast.Constant) for k in rets[0].value.keys):
                continue
            keys = {k.value for k in rets[0].value.keys}

            def settings(e):
                return isinstance(e, ast.Attribute) and e.attr == 'Settings' and isinstance(e.value, ast.Name) and \
                    e.value.id == 'self'
            reads = []
            for k in ks:
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Subscript) and settings(x.value):
                        if not isinstance(x.slice, ast.Constant):
                            open_ = open_ or isinstance(x.ctx, ast.Store) and k is c
                        elif isinstance(x.ctx, ast.Store):
                            keys.add(x.slice.value)
                        elif k is c:
                            reads.append(x)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and settings(x.func.value) and \
                            x.func.attr in ('update', 'setdefault') and k is c:
                        open_ = True
                    elif isinstance(x, ast.Assign) and any(settings(t) for t in x.targets) and k is c:
                        open_ = True
            n += len(reads)
            if not open_:
                bad += ['%s: line %d: setting %r has no default' % (c.qual, x.lineno, x.slice.value) for x in reads
                        if x.slice.value not in keys]
    st['facts'] = n
    if bad:
        return S.Result('VIOLATED', why='; '.join(bad)[:900], stats=st)
    return S.Result('HOLDS', stats=st)


def check_formats(prog):
    """literal format strings get the arguments they name"""
    import re
    import string
    sites, n = [], 0
    for m in prog.mods.values():
        if not wanted(m):
            continue
        for owner in owners(m):
            for x in ast.walk(owner.node):
                why = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and \
                        isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                    try:
                        fs = [f for _, f, _, _ in string.Formatter().parse(x.func.value.value) if f is not None]
                    except ValueError as e:
                        fs, why = [], str(e)
                    n += 1
                    heads = [re.split(r'[.\[]', f)[0] for f in fs]
                    pos = [int(h) + 1 for h in heads if h.isdigit()]
                    auto = len([h for h in heads if not h])
                    if auto and pos:
                        why = 'manual and automatic numbering are mixed'
                    if not any(isinstance(a, ast.Starred) for a in x.args) and max(pos + [auto]) > len(x.args):
                        why = 'there are fewer arguments than replacement fields'
                    kws = {k.arg for k in x.keywords}
                    if None not in kws and any(h and not h.isdigit() and h not in kws for h in heads):
                        why = 'a named replacement field has no argument'
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and \
                        isinstance(x.left.value, str) and isinstance(x.right, ast.Tuple):
                    fs = re.findall(r'%[-#0 +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?([a-zA-Z%])', x.left.value)
                    n += 1
                    if '*' not in x.left.value and '%(' not in x.left.value and \
                            not any(isinstance(a, ast.Starred) for a in x.right.elts) and \
                            len([f for f in fs if f != '%']) != len(x.right.elts):
                        why = 'the number of arguments is not that of the conversions'
                if why:
                    sites.append(('%s: format %r' % (owner.qual, (x.func.value if isinstance(x, ast.Call)
                                                                 else x.left).value), why))
    return report(sorted(set(sites)), n)


OBLIGATIONS = [('references: formats', ['C35'], check_formats),
               ('references: settings', ['C35'], check_settings),
               ('references: names', ['C35'], check_names),
               ('references: imports and exports', ['C35'], check_imports),
               ('references: attributes of self', ['C35'], check_attributes),
               ('references: calls bind', ['C35'], check_calls),
               ('references: locals are assigned', ['C35'], check_locals)]
