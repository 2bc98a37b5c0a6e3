"""Parse the repository; resolve modules, imports, classes and functions (no import, no execution)."""
import ast
import builtins
import os
from vf.match import unmatch

ROOT = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(ROOT, 'src')
PKG = 'sims_pars'


class Fn:
    """a function or method definition"""
    def __init__(self, node, mod, cls=None, qual=None, parent=None):
        self.node, self.mod, self.cls, self.parent = node, mod, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual
        decs = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.decs = decs
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_property = 'property' in decs or any(d.endswith('cached_property') for d in decs)
        self.is_abstract = any(d.endswith('abstractmethod') for d in decs)
        self.setter = any(d.endswith('.setter') for d in decs)
        body = getattr(node, 'body', None)
        self.is_trivial = isinstance(body, list) and all(
            isinstance(x, (ast.Pass, ast.Raise)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            for x in body)
        self.is_gen = isinstance(body, list) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return 'Fn(%s)' % self.qual


def walk_own(fn):
    """walk a function body without nested function / class scopes"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.name = node.name
        self.methods = {}
        self.attrs = {}          # class level assignments: name -> expr node
        self.anns = {}           # annotated fields (pydantic): name -> (annotation, default node or None)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(n, mod, self, qual + '.' + n.name)
                if f.setter:
                    self.methods[n.name + '.setter'] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.anns[n.target.id] = (n.annotation, n.value)
                if n.value is not None:
                    self.attrs[n.target.id] = n.value

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Mod:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.defs = {}      # name -> ('fn', Fn) | ('cls', Cls) | ('mod', name) | ('ext', qual) | ('var', expr)
        self.assigns = {}   # name -> [value nodes]
        self.all = None


class Program:
    def __init__(self, src=None, extra=()):
        self.src = src or SRC
        self.mods = {}
        self.errors = []
        for base, _, files in sorted(os.walk(os.path.join(self.src, PKG))):
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(base, f))
        for name, path in extra:
            self.add(name, path)
        self._link()

    def _load(self, path):
        rel = os.path.relpath(path, self.src)[:-3].split(os.sep)
        is_pkg = rel[-1] == '__init__'
        if is_pkg:
            rel = rel[:-1]
        self.add('.'.join(rel), path, is_pkg)

    def add(self, name, path, is_pkg=False):
        with open(path, encoding='utf-8') as fh:
            tree = unmatch(ast.parse(fh.read(), path))
        m = Mod(name, path, tree, is_pkg)
        self.mods[name] = m
        return m

    # -- linking ------------------------------------------------------------
    def _link(self):
        for m in self.mods.values():
            self._scan(m, m.tree.body)
        for _ in range(6):
            for m in self.mods.values():
                self._imports(m, m.tree.body)

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[n.name] = ('fn', Fn(n, m, None, m.name + ':' + n.name))
            elif isinstance(n, ast.ClassDef):
                m.defs[n.name] = ('cls', Cls(n, m, m.name + ':' + n.name))
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name) and n.value is not None:
                        m.assigns.setdefault(t.id, []).append(n.value)
                        m.defs[t.id] = ('var', n.value)
                        if t.id == '__all__':
                            try:
                                m.all = ast.literal_eval(n.value)
                            except Exception:
                                m.all = None
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.defs[e.id] = ('var', n.value)
            elif isinstance(n, ast.If):
                if self._is_main(n.test):
                    continue
                self._scan(m, n.body)
                self._scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(m, n.body)
                for h in n.handlers:
                    self._scan(m, h.body)
            elif isinstance(n, (ast.For, ast.While, ast.With)):
                self._scan(m, n.body)

    @staticmethod
    def _is_main(t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'

    def abs_name(self, m, node):
        if not node.level:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def _imports(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.defs[a.asname] = self._modref(a.name)
                    else:
                        m.defs[a.name.split('.')[0]] = self._modref(a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self.abs_name(m, n)
                for a in n.names:
                    if a.name == '*':
                        if src in self.mods:
                            for k, v in self.exports(src).items():
                                if m.defs.get(k, ('star',))[0] == 'star' or k not in m.defs:
                                    m.defs[k] = v
                        continue
                    v = self.lookup(src, a.name)
                    m.defs[a.asname or a.name] = v
            elif isinstance(n, ast.If) and not self._is_main(n.test):
                self._imports(m, n.body)
                self._imports(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._imports(m, n.body)

    def _modref(self, name):
        return ('mod', name) if name in self.mods else ('ext', canon_ext(name))

    def exports(self, src):
        m = self.mods[src]
        ks = m.all if m.all is not None else [k for k in m.defs if not k.startswith('_')]
        return {k: ('gvar', src, k) if m.defs[k][0] == 'var' else m.defs[k] for k in ks if k in m.defs}

    def lookup(self, src, name):
        if src in self.mods:
            d = self.mods[src].defs.get(name)
            if d:
                if d[0] == 'var':
                    return ('gvar', src, name)
                return d
            if src + '.' + name in self.mods:
                return ('mod', src + '.' + name)
            return ('missing', src, name)
        return ('ext', canon_ext(src + '.' + name))

    def resolve(self, m, name):
        """global name in module m"""
        d = m.defs.get(name)
        if d is None:
            if hasattr(builtins, name):
                return ('builtin', name)
            return None
        if d[0] == 'var':
            return ('gvar', m.name, name)
        return d

    # -- lookup by qualified name ----------------------------------------------
    def get(self, qual):
        """'module:func' or 'module:Class.method' or 'module:Class'"""
        mod, _, path = qual.partition(':')
        m = self.mods.get(mod)
        if m is None:
            return None
        parts = path.split('.')
        d = m.defs.get(parts[0])
        if d is None:
            return None
        if len(parts) == 1:
            return d[1] if d[0] in ('fn', 'cls') else None
        if d[0] != 'cls':
            return None
        return self.method(d[1], parts[1])

    def bases(self, c):
        out = []
        for b in c.node.bases:
            v = self.expr_ref(c.mod, b)
            out.append(v)
        return out

    def expr_ref(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            v = self.expr_ref(m, e.value)
            if v and v[0] == 'mod':
                return self.lookup(v[1], e.attr)
            if v and v[0] == 'ext':
                return ('ext', canon_ext(v[1] + '.' + e.attr))
        return None

    def mro(self, c):
        """linearised repo classes (left to right, depth first, last duplicate kept); ext bases as strings"""
        out = []

        def go(k):
            out.append(k)
            for b in self.bases(k):
                if b and b[0] == 'cls':
                    go(b[1])
                elif b and b[0] in ('ext', 'builtin'):
                    out.append(b[1])
                else:
                    out.append('?')
        go(c)
        res = []
        for x in reversed(out):
            if x not in res:
                res.append(x)
        return list(reversed(res))

    def method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls):
                if name in k.methods:
                    return k.methods[name]
                pre = '_' + k.name.lstrip('_')
                if name.startswith(pre + '__') and name[len(pre):] in k.methods:
                    return k.methods[name[len(pre):]]
        return None

    READS = {'get', 'items', 'keys', 'values', 'match', 'search', 'fullmatch', 'sub', 'findall', 'index', 'count',
             'union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy'}
    BUILDS = {'re.compile', 'builtins.frozenset', 'builtins.set', 'builtins.dict', 'builtins.tuple', 'builtins.list'}

    def fixed_table(self, mod, name):
        """a name bound once, at module level, to a table, a collection or a compiled pattern that no code changes"""
        memo = self.__dict__.setdefault('_fixed', {})
        k = (mod, name)
        if k not in memo:
            memo[k] = False
            memo[k] = self._fixed_table(mod, name)
        return memo[k]

    def _fixed_table(self, mod, name):
        m = self.mods[mod]
        vs = m.assigns.get(name, [])
        if len(vs) != 1:
            return False
        e = vs[0]
        if isinstance(e, ast.Call):
            r = self.expr_ref(m, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            q = r[1] if r and r[0] == 'ext' else 'builtins.' + e.func.id if isinstance(e.func, ast.Name) else None
            if q not in self.BUILDS:
                return False
        elif not isinstance(e, (ast.Dict, ast.Set, ast.List, ast.Tuple)):
            return False
        if len(list(ast.walk(e))) > 200:
            return False
        for x in self.mods.values():
            own = x is m
            if x.name.startswith('spec.'):
                continue
            if not hasattr(x, 'all_names'):
                x.all_names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(x.tree)
                               if isinstance(n, (ast.Name, ast.Attribute))}
            if name not in x.all_names:
                continue
            up = {}
            for n in ast.walk(x.tree):
                for c in ast.iter_child_nodes(n):
                    up[c] = n
            for n in ast.walk(x.tree):
                if isinstance(n, ast.Attribute) and n.attr == name and not own:
                    return False
                if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                    return False
                if not isinstance(n, ast.Name) or n.id != name:
                    continue
                if isinstance(n.ctx, ast.Store):
                    if own and not isinstance(up.get(n), (ast.Assign, ast.AnnAssign)):
                        return False
                    continue
                p = up.get(n)
                if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load) or \
                        isinstance(p, ast.Attribute) and p.attr in self.READS or isinstance(p, ast.Compare) or \
                        isinstance(p, (ast.For, ast.comprehension)) and p.iter is n or \
                        isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.args == [n] and \
                        p.func.id in ('len', 'sorted', 'set', 'list', 'tuple', 'dict', 'frozenset', 'enumerate', 'any', 'all'):
                    continue
                return False
        return True

    def only_method(self, name):
        """the one function of the repository a method of this name can be"""
        found = {}
        for c in self.classes():
            if c.mod.name.startswith('spec.'):
                continue
            pre = '_' + c.name.lstrip('_')
            nm = name[len(pre):] if name.startswith(pre + '__') else name
            if nm in c.methods:
                found[c.methods[nm].qual] = (c, c.methods[nm])
        return list(found.values())[0] if len(found) == 1 else None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def shared_const(self, c, name):
        """the immutable literal a class gives to this attribute, when nothing can give an instance another"""
        a = self.class_attr(c, name)
        if a is None or name in a[0].anns:
            return None
        v = a[1]
        if isinstance(v, ast.UnaryOp):
            v = v.operand
        if not isinstance(v, ast.Constant):
            return None
        if any(k is not a[0] and name in k.attrs and (self.issub(k, a[0]) or self.issub(k, c)) for k in self.classes()):
            return None
        if not hasattr(self, '_stored'):
            self._stored, self._setattr = set(), False
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        self._stored.add(n.attr)
                    elif isinstance(n, ast.Name) and n.id == 'setattr' or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        self._setattr = True
        return None if self._setattr or name in self._stored else a

    def issub(self, c, d):
        return d in self.mro(c)

    def classes(self):
        for m in self.mods.values():
            for d in m.defs.values():
                if d[0] == 'cls' and d[1].mod is m:
                    yield d[1]

    def functions(self):
        for m in self.mods.values():
            for d in list(m.defs.values()):
                if d[0] == 'fn' and d[1].mod is m:
                    yield d[1]
                elif d[0] == 'cls' and d[1].mod is m:
                    yield from d[1].methods.values()


def canon_ext(q):
    for a, b in (('numpy.random.mtrand.', 'numpy.random.'), ('scipy.special._ufuncs.', 'scipy.special.'),
                 ('collections.abc.', 'typing.')):
        if q.startswith(a):
            q = b + q[len(a):]
    return {'numpy.Inf': 'numpy.inf', 'numpy.NaN': 'numpy.nan', 'numpy.NAN': 'numpy.nan', 'numpy.infty': 'numpy.inf',
            'numpy.absolute': 'numpy.abs', 'numpy.product': 'numpy.prod', 'numpy.power': 'numpy.power',
            'math.nan': 'numpy.nan', 'math.inf': 'numpy.inf', 'math.isnan': 'numpy.isnan',
            'math.isinf': 'numpy.isinf', 'math.isfinite': 'numpy.isfinite', 'math.exp': 'numpy.exp',
            'math.log': 'numpy.log', 'math.sqrt': 'numpy.sqrt', 'math.floor': 'numpy.floor',
            'math.ceil': 'numpy.ceil', 'math.fabs': 'numpy.abs', 'math.prod': 'numpy.prod',
            'random.random': 'random.random'}.get(q, q)
