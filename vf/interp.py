"""Predicated abstract interpreter.

Runs a function body once.  Instead of following paths, one current guard (pc)
is kept; every write stores  ite(pc, new, old).  Loops are summarised by closed
forms (comprehensions, quantifiers, sums, point-wise updates) or by a canonical
fold term.  Repository functions are inlined, everything else is an
uninterpreted call.
"""
import ast
import itertools
from fractions import Fraction

from vf.core import *
from vf.coll import *
from vf import core, coll
from vf.load import Program, Fn, Cls, canon_ext


class Give(Exception):
    """the analysis does not cover this construct"""


class ArgError(Give):
    """a call whose arguments do not fit the parameters of the function: TypeError in Python"""


class Frame:
    _n = itertools.count(1)

    def __init__(self, fn, parent=None):
        self.id = next(Frame._n)
        self.fn = fn
        self.parent = parent     # lexically enclosing frame (closures, comprehensions)
        self.names = set()
        self.captured = False
        self.yields = None


class TryFrame:
    _n = itertools.count(1)

    def __init__(self, handlers):
        self.id = next(TryFrame._n)
        self.handlers = handlers     # list of tuples of exception names (or None: everything)


def _endless(e):
    return isinstance(e, ast.Constant) and bool(e.value)


def _only_break(b):
    return len(b) == 1 and isinstance(b[0], ast.Break)


def _continues(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for k in ('body', 'orelse', 'finalbody'):
            if _continues(getattr(s, k, None) or []):
                return True
        for h in getattr(s, 'handlers', None) or []:
            if _continues(h.body):
                return True
    return False


def plain_while(s):
    """`while True` whose first or last statement decides on leaving, as a loop with that test"""
    if not _endless(s.test) or s.orelse or not s.body:
        return s

    def no(e):
        return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)

    def make(test, body, after=False):
        n = ast.copy_location(ast.While(test, body or [ast.copy_location(ast.Pass(), s)], []), s)
        n.after = after
        return n
    a, z = s.body[0], s.body[-1]
    if isinstance(a, ast.If):
        if _only_break(a.body):
            return plain_while(make(no(a.test), a.orelse + s.body[1:]))
        if _only_break(a.orelse):
            return plain_while(make(a.test, a.body + s.body[1:]))
    if len(s.body) > 1 and isinstance(z, ast.If) and not _continues(s.body):
        if _only_break(z.body) and not z.orelse:
            return make(no(z.test), s.body[:-1], True)
        if _only_break(z.orelse) and all(isinstance(x, ast.Pass) for x in z.body):
            return make(z.test, s.body[:-1], True)
    return s


def _breaks(body):
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if _breaks(getattr(s, 'orelse', None) or []):
                return True
            continue
        for k in ('body', 'orelse', 'finalbody'):
            if _breaks(getattr(s, k, None) or []):
                return True
        for h in getattr(s, 'handlers', None) or []:
            if _breaks(h.body):
                return True
    return False


def tail_of_while(s):
    """what `while True` does on leaving, where its first or last statement decides on that, moved behind the loop"""
    if not _endless(s.test) or s.orelse or len(s.body) < 2:
        return s, []

    def moved(x):
        return x.body[:-1] if isinstance(x.body[-1], ast.Break) else x.body

    def leave(x):
        y = ast.copy_location(ast.If(x.test, [ast.copy_location(ast.Break(), x)], x.orelse), x)
        return y

    def fits(x, rest):
        return isinstance(x, ast.If) and isinstance(x.body[-1], (ast.Return, ast.Break, ast.Raise)) and \
            not _only_break(x.body) and not _breaks(x.body[:-1]) and not _breaks(rest) and not _continues(x.body)

    def flip(x):
        if isinstance(x, ast.If) and x.orelse and isinstance(x.orelse[-1], (ast.Return, ast.Break, ast.Raise)) and \
                not isinstance(x.body[-1], (ast.Return, ast.Break, ast.Raise)):
            return ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x), x.orelse, x.body), x)
        return x
    a, z = flip(s.body[0]), flip(s.body[-1])
    if fits(z, s.body[:-1]) and not _continues(s.body[:-1]) and all(isinstance(x, ast.Pass) for x in z.orelse):
        return ast.copy_location(ast.While(s.test, s.body[:-1] + [leave(z)], []), s), moved(z)
    if isinstance(a, ast.If) and fits(a, s.body[1:] + a.orelse):
        return ast.copy_location(ast.While(s.test, [leave(a)] + s.body[1:], []), s), moved(a)
    return s, []


class Loop:
    _n = itertools.count(1)

    def __init__(self):
        self.id = next(Loop._n)


EXC = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'AssertionError': 'Exception', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'SyntaxError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
    'OSError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'Exception': 'BaseException', 'UnicodeError': 'ValueError', 'ValidationError': 'ValueError',
    'NetworkXError': 'Exception', 'NetworkXUnfeasible': 'NetworkXError', 'LinAlgError': 'Exception',
}

UNI = mk('U')


def wk(v):
    """keys of guarded value over KEY"""
    return v


class Interp:
    MAX_DEPTH = 40

    def __init__(self, prog, types=None, views=True, renames=None, axioms=None):
        self.prog = prog
        self.store = {}
        self.pc = TRUE
        self.kind = {}           # identity term -> kind
        self.objcls = {}         # identity term -> Cls
        self.types = dict(types or {})
        self.frames = []
        self.trys = []
        self.loopvars = []
        self.nostub = frozenset()    # functions followed although they have obligations of their own
        self.stubbed = {}
        self.site = None
        self.places = set()      # loop variables that count places
        self.loops = []
        self.stack = []
        self.ncalls = {}
        self.nnew = itertools.count(1)
        self.views = views
        self.renames = renames or {}
        self.closures = {}
        self.funcs = {}          # term -> Fn / Cls
        self.visited = {}        # qual -> True (functions analysed)
        self.notes = []
        self.tainted = []
        self.steps = 0
        self.opaque_ops = set()
        self.assumptions = TRUE
        self.stale = set()
        self.lam_busy = []
        self.imps = {}           # exception -> conditions under which an operation itself raises it
        from vf import models
        self.M = models.Models(self)

    # ------------------------------------------------------------ basics
    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def taint(self, why):
        """something happened whose effects are not known"""
        if why not in self.tainted:
            self.tainted.append(why)

    def implicit(self, g, exc):
        if not self.loopvars:
            g = AND(self.pc, g)
            if g is not FALSE:
                self.imps.setdefault(exc, []).append(g)

    def unk(self, why):
        self.note(why)
        return opaque(why)

    def get(self, cell, default=None):
        return self.store.get(cell, default)

    def setn(self, cell, new, default=UNDEF):
        """guarded write of a plain value cell"""
        old = self.store.get(cell)
        if old is None:
            old = self.initial(cell)
            if old is None:
                old = default
        self.store[cell] = ite(self.pc, new, old) if self.pc is not TRUE else new

    def initial(self, cell):
        """content of a cell of an input object that has not been touched"""
        k = cell[0]
        if k == 'a':
            o = cell[1]
            if o.op == 'new':
                return UNDEF
            return leaf(mk('attr', o, cell[2]))
        if k == 'd':
            o = cell[1]
            if o.op == 'new':
                return FALSE, BOT
            return self.dict_content(o)
        if k in ('s',):
            o = cell[1]
            return FALSE if o.op == 'new' else mem_n(leaf(KEY), o)
        if k == 'p':
            o = cell[1]
            return () if o.op == 'new' else seq_pieces(o)
        if k == 'g':
            o = cell[1]
            return FALSE if o.op == 'new' else node_t(o, KEY)
        if k == 'e':
            o = cell[1]
            return FALSE if o.op == 'new' else edge_t(o, KEY, KEY2)
        if k == 'na':
            o = cell[1]
            if o.op == 'new':
                return FALSE, BOT
            if coll.made(o) and cell[2] not in o.args[2]:
                return FALSE, BOT
            if cell[2] == 'loci':
                return node_t(o, KEY), leaf(mk('loci', o, KEY))
            return atom(mk('mem', const(cell[2]), mk('nattrs', o, KEY))), leaf(mk('nattr', o, KEY, cell[2]))
        if k in ('x', 't', 'R', 'B', 'C', 'fz'):
            if k == 'fz':
                o = cell[1]
                if coll.made(o) and len(o.args) < 6:    # a graph made here, by value: never frozen (see _obj)
                    return FALSE
                return FALSE if o.op == 'new' else atom(mk('frozen', o))
            return FALSE
        if k == 'eff':
            return ()
        return None

    def dict_content(self, o):
        return mem_n(leaf(KEY), o), get_n(o, KEY)

    def rd(self, cell):
        v = self.store.get(cell)
        if v is None:
            v = self.initial(cell)
        return v

    def rd_or(self, cell):
        v = self.rd(cell)
        return UNDEF if v is None else v

    def wr(self, cell, new):
        """guarded write of structured content"""
        old = self.rd(cell)
        k = cell[0]
        pc = self.pc
        if pc is TRUE:
            self.store[cell] = new
        elif k in ('d', 'na'):
            self.store[cell] = (ite(pc, new[0], old[0]), ite(pc, new[1], old[1]))
        elif k in ('p', 'eff'):
            # common prefix, guarded tails
            if len(new) >= len(old) and tuple(new[:len(old)]) == tuple(old):
                self.store[cell] = tuple(old) + guard_pieces(pc, new[len(old):])
            else:
                n = 0
                while n < min(len(new), len(old)) and new[n] is old[n]:
                    n += 1
                self.store[cell] = tuple(old[:n]) + guard_pieces(pc, new[n:]) + guard_pieces(NOT(pc), old[n:])
        else:
            self.store[cell] = ite(pc, new, old)

    def new(self, kind, cls=None):
        t = mk('new', next(self.nnew))
        self.kind[t] = kind
        if cls is not None:
            self.objcls[t] = cls
        return t

    # objects --------------------------------------------------------------
    def new_list(self, pieces, arr=False):
        t = self.new('arr' if arr else 'list')
        self.store[('p', t)] = norm_pieces(pieces)
        return leaf(t)

    def new_dict(self, dom=FALSE, val=BOT):
        t = self.new('dict')
        self.store[('d', t)] = (dom, val)
        return leaf(t)

    def new_set(self, dom=FALSE):
        t = self.new('set')
        self.store[('s', t)] = dom
        return leaf(t)

    def new_graph(self, nodes=FALSE, edges=FALSE, cls=None):
        t = self.new('graph', cls)
        self.store[('g', t)] = nodes
        self.store[('e', t)] = edges
        return leaf(t)

    # ------------------------------------------------------------ types of terms
    def kind_of(self, t):
        """'dict','list','set','graph','inst','arr' or None"""
        k = self.kind.get(t)
        if k:
            return k
        if t.op == 'listv':
            return 'list'
        if t.op == 'dictv':
            return 'dict'
        if t.op == 'setv':
            return 'set'
        if t.op == 'graphv':
            return 'graph'
        if t.op in ('instv',):
            return 'inst'
        if t.op == 'tup':
            return 'tuple'
        if t.op == 'order':
            return 'list'
        ty = self.type_of(t)
        if ty:
            return ty[0] if ty[0] != 'cls' else ('graph' if self.is_graph_cls(ty[1]) else 'inst')
        if self.pc is not TRUE and t.op in ('in', 'attr', 'get', 'at'):
            for n, k in (('builtins.dict', 'dict'), ('builtins.list', 'list'), ('builtins.set', 'set')):
                if known('isinst', t, n) and AND(self.pc, NOT(atom(mk('isinst', t, n)))) is FALSE:
                    return k
        return None

    def cls_of(self, t):
        c = self.objcls.get(t)
        if c is not None:
            return c
        if t.op == 'instv':
            return self.funcs.get(t.args[0])
        if coll.made(t) and len(t.args) > 4 and t.args[4].op == 'cls':
            return self.funcs.get(t.args[4])
        ty = self.type_of(t)
        if ty and ty[0] == 'cls':
            return ty[1]
        return None

    def is_graph_cls(self, c):
        return isinstance(c, Cls) and any(isinstance(b, str) and b.startswith('networkx') for b in self.prog.mro(c))

    def parse_type(self, s):
        """'dict[Cls]' etc. -> type tuple"""
        s = s.strip()
        if '[' in s:
            h, r = s.split('[', 1)
            return (h.strip(), self.parse_type(r.rsplit(']', 1)[0]))
        if s in ('dict', 'list', 'set', 'graph', 'arr', 'num', 'str', 'callable'):
            return (s, None)
        c = self.find_cls(s)
        if c:
            return ('cls', c)
        return None

    _clsidx = None

    def find_cls(self, name):
        if self._clsidx is None:
            self._clsidx = {}
            for c in self.prog.classes():
                if 'fitting' in c.mod.name:
                    continue
                self._clsidx.setdefault(c.name, c)
        return self._clsidx.get(name)

    def type_of(self, t):
        r = self.types.get(t, 0)
        if r != 0:
            return r
        r = None
        if t.op == 'attr':
            r = self.attr_type(t.args[0], t.args[1])
        elif t.op in ('get', 'at'):
            p = self.type_of(t.args[0])
            if p and p[0] in ('dict', 'list') and p[1]:
                r = p[1]
        elif t.op == 'var':
            r = None
        elif t.op == 'dupof':
            r = self.type_of(t.args[0])
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('numpy.random.'):
            # numbers drawn with a size are an array
            if any(k == 'size' and x is not const(None) for k, x in t.args[2]):
                r = ('arr', None)
        self.types[t] = r
        return r

    def attr_type(self, o, a):
        from vf import typing_tables as TT
        c = self.cls_of(o)
        if isinstance(c, Cls):
            for k in self.prog.mro(c):
                if isinstance(k, Cls):
                    s = TT.ATTR.get((k.name, a))
                    if s:
                        return self.parse_type(s)
            r = self.infer_attr(c, a)
            if r:
                return r
        s = TT.ANYATTR.get(a)
        if s and c is None:
            return self.parse_type(s)
        return None

    def infer_attr(self, c, a):
        """type of self.a from the constructor assignments of the class"""
        for k in self.prog.mro(c):
            if not isinstance(k, Cls) or '__init__' not in k.methods:
                continue
            init = k.methods['__init__'].node
            for n in ast.walk(init):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            nm = t.attr
                            if nm.startswith('__') and not nm.endswith('__'):
                                nm = '_' + k.name.lstrip('_') + nm
                            if nm == a:
                                r = self.expr_type(k.mod, n.value)
                                if r:
                                    return r
        return None

    def expr_type(self, mod, e):
        if isinstance(e, ast.IfExp):
            a, b = self.expr_type(mod, e.body), self.expr_type(mod, e.orelse)
            return a if a == b else None
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ('dict', None)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ('list', None)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ('set', None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ('dict', 'list', 'set'):
                return (e.func.id, None)
            d = self.prog.resolve(mod, e.func.id)
            if d and d[0] == 'cls':
                return ('cls', d[1])
        return None

    # ------------------------------------------------------------ exceptions
    def exc_is(self, name, handler):
        if handler is None:
            return True
        seen = set()
        while name and name not in seen:
            if name == handler:
                return True
            seen.add(name)
            nxt = EXC.get(name)
            if nxt is None:
                c = self.find_cls(name)
                if c and c.node.bases:
                    nxt = ast.unparse(c.node.bases[0]).split('.')[-1]
                elif name not in ('BaseException',):
                    nxt = 'Exception'
            name = nxt
        return False

    def catcher(self, name):
        for tf in reversed(self.trys):
            for i, hs in enumerate(tf.handlers):
                if hs is None or any(self.exc_is(name, h) for h in hs):
                    return tf, i
        return None

    def can_catch(self, *names):
        for n in names:
            if self.catcher(n):
                return True
        return False

    def do_raise(self, guard, name, val=None):
        guard = AND(self.pc, guard)
        if guard is FALSE:
            return
        c = self.catcher(name)
        cell = ('t', c[0].id, c[1]) if c else ('x', name)
        self.store[cell] = OR(self.rd(cell), guard)
        if c and (val is not None or c[0].named[c[1]]):
            val = val if val is not None else leaf(mk('exc', name))
            vc = ('tv', c[0].id, c[1])
            old = self.store.get(vc, UNDEF)
            self.store[vc] = ite(guard, val, old)
        self.pc = AND(self.pc, NOT(guard))

    # ------------------------------------------------------------ dispatch over leaves
    def each(self, v, fn):
        """run fn(term) under the guard of every leaf of v, merge results"""
        if v.a is None:
            return fn(v.t) if v is not BOT else BOT
        pc0 = self.pc
        res = BOT
        after = FALSE
        for t, g in leaves(v, pc0).items():
            if t.op == 'bot':
                continue
            self.pc = g
            r = fn(t)
            if r is None:
                r = NONE
            res = ite(g, r, res) if res is not BOT else r
            after = OR(after, self.pc)
        self.pc = after
        return res

    def each_list(self, vs, fn):
        ts = []

        def rec(i):
            if i == len(vs):
                return fn(*ts)

            def f(t):
                ts.append(t)
                try:
                    return rec(i + 1)
                finally:
                    ts.pop()
            return self.each(vs[i], f)
        return rec(0)

    def lift(self, fn, *vs):
        return lift(fn, *vs, pc=self.pc)

    def truth(self, v):
        def f(t):
            if t.op == 'new':
                return self.truth_obj(t)
            k = self.kind_of(t)
            if k == 'dict' and ('d', t) in self.store:
                return EX(KEY, self.store[('d', t)][0])
            if k == 'list' and ('p', t) in self.store:
                return pieces_nonempty(self.store[('p', t)])
            if t.op in ('preds', 'succs', 'gnodes'):
                return EX(KEY, self.M.contains_raw(KEY, t))
            c = self.cls_of(t)
            if c is not None and not self.is_graph_cls(c):
                # what is typed may still be None
                m = self.prog.method(c, '__bool__') or self.prog.method(c, '__len__')
                if m:
                    some, pc0 = NOT(isnone_t(t)), self.pc
                    self.pc = AND(pc0, some)
                    if self.pc is FALSE:
                        self.pc = pc0
                        return FALSE
                    r = self.truth(self.call_fn(m, [leaf(t)], {}))
                    self.pc = OR(self.pc, AND(pc0, NOT(some)))
                    return AND(some, r)
                # an object of a repository class is truthy
                return NOT(isnone_t(t))
            return truthy_t(t)
        return self.each(v, f)

    def truth_obj(self, t):
        k = self.kind.get(t)
        if k == 'dict':
            return EX(KEY, self.rd(('d', t))[0])
        if k == 'set':
            return EX(KEY, self.rd(('s', t)))
        if k in ('list', 'arr'):
            return pieces_nonempty(self.rd(('p', t)))
        if k == 'graph':
            return EX(KEY, self.rd(('g', t)))
        c = self.objcls.get(t)
        if isinstance(c, Cls):
            m = self.prog.method(c, '__bool__') or self.prog.method(c, '__len__')
            if m:
                return self.truth(self.call_fn(m, [leaf(t)], {}))
        return TRUE

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.pc is FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 60000:
            raise Blowup('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Give('statement %s' % type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        f = self.frames[-1]
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            f.names.add(nm)
            self.setn(('l', f.id, nm), self.ref(self.prog._modref(a.name if a.asname else nm)))

    def s_ImportFrom(self, s):
        f = self.frames[-1]
        src = self.prog.abs_name(f.fn.mod, s)
        for a in s.names:
            nm = a.asname or a.name
            f.names.add(nm)
            self.setn(('l', f.id, nm), self.ref(self.prog.lookup(src, a.name)))

    def s_Global(self, s):
        for n in s.names:
            self.frames[-1].names.discard(n)

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        fn = Fn(s, fr.fn.mod, fr.fn.cls, fr.fn.qual + '.<locals>.' + s.name, fr)
        fr.names.add(s.name)
        fr.captured = True
        t = mk('clos', fr.id, s.name)
        self.closures[t] = (fn, fr, self.defaults(s.args))
        self.setn(('l', fr.id, s.name), leaf(t))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value)
            return
        self.effect_ctx = True
        v = self.expr(s.value)
        self.effect(v)

    def effect(self, v):
        """a discarded value: if it is an uninterpreted call, it is there for its effect"""
        def f(t):
            if t.op in ('call', 'rec') and not self.M.is_pure_call(t):
                self.add_effect(t)
            return NONE
        self.each(v, f)

    def add_effect(self, t):
        self.wr(('eff',), self.rd(('eff',)) + (one(TRUE, leaf(t)),))

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        f = self.frames[-1]
        while f.parent is not None and getattr(f, 'comp', False):
            f = f.parent
        self.setn(('r', f.id), v)
        c = ('R', f.id)
        self.store[c] = OR(self.rd(c), self.pc)
        self.pc = FALSE

    def s_Raise(self, s):
        if s.exc is None:
            name, v = 'reraise', None
            if getattr(self, 'cur_exc', None):
                name = self.cur_exc[-1]
            self.do_raise(TRUE, name)
            self.pc = FALSE
            return
        e = s.exc
        val = None
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func).split('.')[-1]
            val = leaf(mk('exc', name))
        elif isinstance(e, ast.Name):
            name = e.id
            v = self.lookup_local(name)
            if v is not None:
                def f(t):
                    self.do_raise(TRUE, t.args[0] if t.op == 'exc' else 'Exception', leaf(t))
                    return NONE
                self.each(v, f)
                self.pc = FALSE
                return
            name = e.id
        else:
            name = ast.unparse(e).split('.')[-1]
        self.do_raise(TRUE, name, val or leaf(mk('exc', name)))
        self.pc = FALSE

    def s_Assert(self, s):
        c = self.truth(self.expr(s.test))
        self.do_raise(NOT(c), 'AssertionError')

    def s_If(self, s):
        c = self.truth(self.expr(s.test))
        pc0 = self.pc
        self.pc = AND(pc0, c)
        if self.pc is not FALSE:
            self.block(s.body)
        p1 = self.pc
        self.pc = AND(pc0, NOT(c))
        if self.pc is not FALSE:
            self.block(s.orelse)
        self.pc = OR(p1, self.pc)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        if isinstance(s.target, ast.Name):
            cur = self.expr(load)
            # in place operators on containers
            rhs = self.expr(s.value)
            r = self.inplace(cur, s.op, rhs)
            if r is None:
                r = self.binop(s.op, cur, rhs)
            self.assign(s.target, r)
        else:
            cur = self.expr(load)
            rhs = self.expr(s.value)
            r = self.inplace(cur, s.op, rhs)
            if r is None:
                r = self.binop(s.op, cur, rhs)
            self.assign(s.target, r)

    def inplace(self, cur, op, rhs):
        if cur.a is not None:
            return None
        k = self.kind_of(cur.t)
        if k == 'list' and isinstance(op, ast.Add):
            self.M.list_extend(cur.t, rhs)
            return cur
        if k == 'set' and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            o = self.M.mem_fn(rhs)(KEY)
            d = self.rd(('s', cur.t))
            n = OR(d, o) if isinstance(op, ast.BitOr) else AND(d, NOT(o)) if isinstance(op, ast.Sub) else AND(d, o)
            self.wr(('s', cur.t), n)
            return cur
        if k == 'dict' and isinstance(op, ast.BitOr):
            self.M.dict_update(cur.t, rhs)
            return cur
        if k == 'arr' and cur.t.op == 'new':
            ps = self.binop(op, cur, rhs)
            if ps.a is None and self.kind_of(ps.t) in ('arr', 'list'):
                self.wr(('p', cur.t), self.pieces_of(ps.t))
                return cur
        return None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                o = self.expr(t.value)
                lo, hi = [self.expr(x) if x else NONE for x in (t.slice.lower, t.slice.upper)]
                if t.slice.step:
                    raise Give('stepped slice deletion')
                self.each_list([o, lo, hi], lambda a, b, c: self.M.set_slice(a, b, c, None))
            elif isinstance(t, ast.Subscript):
                o, k = self.expr(t.value), self.expr(t.slice)
                self.each_list([o, k], lambda a, b: self.M.delitem(a, b))
            elif isinstance(t, ast.Name):
                self.setn(('l', self.frames[-1].id, t.id), UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                nm = self.mangle(t.attr)
                self.each(o, lambda a: (self.setn(('a', a, nm), UNDEF), NONE)[1])

    def s_With(self, s):
        for it in s.items:
            v = self.expr(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Break(self, s):
        c = ('B', self.loops[-1].id)
        self.store[c] = OR(self.rd(c), self.pc)
        self.pc = FALSE

    def s_Continue(self, s):
        c = ('C', self.loops[-1].id)
        self.store[c] = OR(self.rd(c), self.pc)
        self.pc = FALSE

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return tuple(ast.unparse(t).split('.')[-1] for t in ts)

    def s_Try(self, s):
        tf = TryFrame([self.handler_names(h) for h in s.handlers])
        tf.named = [h.name is not None for h in s.handlers]
        self.trys.append(tf)
        depth = len(self.trys)
        pc0 = self.pc
        try:
            self.block(s.body)
        finally:
            del self.trys[depth - 1:]
        end = self.pc
        if s.orelse:
            self.block(s.orelse)
            end = self.pc
        for i, h in enumerate(s.handlers):
            g = self.store.pop(('t', tf.id, i), FALSE)
            v = self.store.pop(('tv', tf.id, i), UNDEF)
            self.pc = AND(pc0, g)
            if self.pc is FALSE:
                continue
            if h.name:
                f = self.frames[-1]
                f.names.add(h.name)
                nm = tf.handlers[i]
                self.setn(('l', f.id, h.name), v if v is not UNDEF else leaf(mk('exc', nm[0] if nm else 'Exception')))
            self.cur_exc = getattr(self, 'cur_exc', []) + [(tf.handlers[i] or ('Exception',))[0]]
            self.block(h.body)
            self.cur_exc.pop()
            end = OR(end, self.pc)
        self.pc = end
        if s.finalbody:
            self.block(s.finalbody)

    # ------------------------------------------------------------ names
    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            for f in reversed(self.frames):
                if f.fn.cls is not None:
                    return '_' + f.fn.cls.name.lstrip('_') + name
        return name

    def frame_of(self, name):
        f = self.frames[-1]
        while f is not None:
            if name in f.names:
                return f
            f = f.parent
        return None

    def lookup_local(self, name):
        f = self.frame_of(name)
        if f is None:
            return None
        return self.store.get(('l', f.id, name))

    def ref(self, d):
        """definition -> value"""
        if d is None:
            return None
        if d[0] == 'fn':
            t = mk('func', self.renames.get(d[1].qual, d[1].qual))
            self.funcs[t] = d[1]
            return leaf(t)
        if d[0] == 'cls':
            t = mk('cls', d[1].qual)
            self.funcs[t] = d[1]
            return leaf(t)
        if d[0] == 'mod':
            return leaf(mk('mod', d[1]))
        if d[0] == 'ext':
            return self.M.ext_const(d[1])
        if d[0] == 'builtin':
            return leaf(mk('ext', 'builtins.' + d[1]))
        if d[0] == 'gvar':
            return self.gvar(d[1], d[2])
        if d[0] == 'missing':
            return leaf(mk('missing', d[1] + '.' + d[2]))
        return None

    def gvar(self, mod, name):
        m = self.prog.mods[mod]
        vs = m.assigns.get(name, [])
        if len(vs) == 1:
            e = vs[0]
            if isinstance(e, ast.Constant):
                return C(e.value)
            if isinstance(e, ast.UnaryOp) or isinstance(e, ast.Tuple):
                try:
                    return C(ast.literal_eval(e))
                except Exception:
                    pass
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = self.prog.expr_ref(m, e)
                if r:
                    return self.ref(r)
            if self.prog.fixed_table(mod, name):
                # a table or a compiled pattern that nothing changes: its value
                fn = Fn(ast.Lambda(args=_noargs(), body=e), m, None, mod + '.' + name + '.<value>')
                key = fn.qual
                if key not in self.stack:
                    self.frames.append(Frame(fn, None))
                    self.stack.append(key)
                    try:
                        return self.expr(e)
                    finally:
                        self.frames.pop()
                        self.stack.pop()
        t = mk('glob', mod + '.' + name)
        if len(vs) == 1:
            ty = self.expr_type(m, vs[0])
            if ty:
                self.types.setdefault(t, ty)
            elif isinstance(vs[0], ast.Call):
                from vf import typing_tables as TT
                s = TT.GLOB.get(name)
                if s:
                    self.types.setdefault(t, self.parse_type(s))
        return leaf(t)

    def e_Name(self, e):
        n = e.id
        if n == '__class__':
            return self.ref(('cls', self.frames[-1].fn.cls))
        v = self.lookup_local(n)
        if v is not None:
            v = nobot(simp(v, self.pc)) if v is not BOT and self.pc is not FALSE else v
            return self.bound(v)
        f = self.frame_of(n)
        if f is not None:
            return self.bound(UNDEF)
        d = self.prog.resolve(self.frames[-1].fn.mod, n)
        r = self.ref(d)
        if r is None:
            if n == 'assume':
                return leaf(mk('ext', 'vf.assume'))
            return leaf(mk('undefname', n))
        return r

    def bound(self, v):
        """a local variable read where it may not have been assigned"""
        if self.pc is FALSE or v is BOT or not any(t.op == 'undef' for t in leaves(v, self.pc)):
            return v
        g = FALSE
        for t, c in leaves(v, self.pc).items():
            if t.op == 'undef':
                g = OR(g, c)
        self.do_raise(g, 'UnboundLocalError')
        return nobot(simp(v, self.pc)) if self.pc is not FALSE else BOT

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            f = self.frame_of(t.id)
            if f is None or (f is not self.frames[-1] and not getattr(self.frames[-1], 'comp', False)):
                f = self.frames[-1]
                f.names.add(t.id)
            self.setn(('l', f.id, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            nm = self.mangle(t.attr)
            self.each(o, lambda a: self.set_attr(a, nm, v))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            if isinstance(t.slice, ast.Slice):
                lo, hi = [self.expr(x) if x else NONE for x in (t.slice.lower, t.slice.upper)]
                if t.slice.step:
                    raise Give('stepped slice assignment')
                self.each_list([o, lo, hi], lambda a, b, c: self.M.set_slice(a, b, c, v))
                return
            k = self.expr(t.slice)
            self.each(o, lambda a: self.M.setitem(a, k, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Give('assignment target')

    def unpack(self, elts, v):
        n = len(elts)

        def part(i):
            def f(t):
                if t.op == 'tup' and len(t.args) == n:
                    return as_n(t.args[i])
                k = self.kind_of(t)
                if k in ('list', 'arr', 'tuple'):
                    ps = self.pieces_of(t)
                    if all_ones(ps) and len(ps) == n:
                        return ps[i].args[1]
                if t.op == 'opaque' or t.op == 'undef':
                    return leaf(t)
                return self.M.getitem(t, const(i))
            return self.each(v, f)
        vals = [part(i) for i in range(n)]
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def set_attr(self, o, nm, v):
        c = self.cls_of(o)
        if isinstance(c, Cls):
            m = self.prog.method(c, nm + '.setter')
            if m:
                self.call_fn(m, [leaf(o), v], {})
                return NONE
        if o.op in ('instv', 'c', 'listv', 'dictv', 'opaque', 'undef', 'call'):
            from vf import typing_tables as TT
            if o.op != 'call' or self.loopvars or o.args[0].args[0] not in TT.MAKES:
                self.add_effect(mk('setattr', o, nm, self.snap_t(v)))
            if o.op != 'call':
                return NONE
        self.setn(('a', o, nm), v)
        return NONE

    # ------------------------------------------------------------ attributes
    def attr(self, o, nm):
        """value of o.nm for a term o"""
        if o.op == 'opaque':
            return leaf(mk('attr', o, nm))
        if o.op == 'mod':
            d = self.prog.lookup(o.args[0], nm)
            return self.ref(d) or leaf(mk('missing', o.args[0] + '.' + nm))
        if o.op == 'ext':
            return self.M.ext_const(canon_ext(o.args[0] + '.' + nm))
        if o.op == 'cls':
            c = self.funcs[o]
            if nm == '__name__':
                return C(c.name)
            m = self.prog.method(c, nm)
            if m:
                return self.fnref(m)
            if nm == '__new__':
                return leaf(mk('blank', o))
            a = self.prog.class_attr(c, nm)
            if a:
                return self.const_expr(a[0].mod, a[1])
            return leaf(mk('attr', o, nm))
        if o.op == 'super':
            return leaf(mk('bm', o, nm))
        cell = ('a', o, nm)
        if cell in self.store:
            v = self.store[cell]
            return nobot(simp(v, self.pc)) if self.pc is not FALSE else v
        if self.stale and ('a', nm) in self.stale and o.op != 'new' and not o.fv & set(self.loopvars):
            return self.unk('read of %s after a loop wrote it' % nm)
        c = self.cls_of(o)
        if isinstance(c, Cls):
            m = self.prog.method(c, nm)
            if m:
                if m.is_property:
                    return self.property(o, m, nm)
                if m.is_static:
                    return self.fnref(m)
                return leaf(mk('bm', o, nm))
            if o.op == 'instv':
                for k, x in zip(o.args[1], o.args[2]):
                    if k == nm:
                        return as_n(x)
            a = self.prog.class_attr(c, nm)
            if a and (self.rd(cell) is UNDEF or self.prog.shared_const(c, nm)):
                return self.const_expr(a[0].mod, a[1])
            if self.is_graph_cls(c):
                return self.M.graph_attr(o, nm)
            if o.op == 'new':
                return UNDEF
            return leaf(mk('attr', o, nm))
        k = self.kind_of(o)
        if k == 'graph':
            return self.M.graph_attr(o, nm)
        r = self.M.special_attr(o, nm)
        if r is not None:
            return r
        return leaf(mk('attr', o, nm))

    def fnref(self, m):
        t = mk('func', self.renames.get(m.qual, m.qual))
        self.funcs[t] = m
        return leaf(t)

    def const_expr(self, mod, e):
        try:
            return C(ast.literal_eval(e))
        except Exception:
            pass
        fr = Frame(Fn(ast.Lambda(args=_noargs(), body=e), mod, None, mod.name + ':<const>'))
        self.frames.append(fr)
        try:
            return self.expr(e)
        finally:
            self.frames.pop()

    VIEWS = {'Order', 'Exo', 'Roots', 'RVRoots', 'Leaves'}

    def property(self, o, m, nm):
        if self.views and m.cls.name == 'BayesianNetwork' and nm in self.VIEWS:
            # cached view of a completed network: equal to the fresh view (obligations of C03)
            g = self.attr(o, 'DAG')

            def f(t):
                cell = ('fz', t)
                old = self.store.get(cell)
                self.store[cell] = FALSE
                try:
                    return self.call_fn(m, [leaf(o)], {})
                finally:
                    if old is None:
                        self.store.pop(cell, None)
                    else:
                        self.store[cell] = old
            return self.each(g, f)
        if m.is_abstract:
            return leaf(mk('attr', o, nm))
        return self.call_fn(m, [leaf(o)], {})

    def e_Attribute(self, e):
        # module chains first
        d = self.static_ref(e)
        if d is not None:
            return d
        o = self.expr(e.value)
        nm = self.mangle(e.attr)

        def f(t):
            if t.op == 'c' and t.args[0] is None:
                self.do_raise(TRUE, 'AttributeError')
                return BOT
            if t.op != 'new' and self.can_catch('AttributeError'):
                if self.cls_of(t) is None and self.type_of(t) is None and self.kind_of(t) is None and \
                        t.op in ('in', 'attr', 'get'):
                    # a value of any type: it may have no such attribute
                    self.do_raise(NOT(atom(mk('hasattr', t, const(nm)))), 'AttributeError')
                elif t.op != 'in':
                    self.do_raise(isnone_t(t), 'AttributeError')
                if self.pc is FALSE:
                    return BOT
            return self.attr(t, nm)
        return self.each(o, f)

    def static_ref(self, e):
        names = []
        x = e
        while isinstance(x, ast.Attribute):
            names.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or self.frame_of(x.id) is not None:
            return None
        d = self.prog.expr_ref(self.frames[-1].fn.mod, e)
        if d is None or d[0] == 'gvar' and False:
            return None
        if d[0] == 'ext':
            return self.M.ext_const(d[1])
        return self.ref(d)

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Give('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return leaf(mk('ellipsis'))
        return C(e.value)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e)
        return leaf(mk('tup', *[self.expr(x) for x in e.elts]))

    def e_List(self, e):
        ps = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps += self.iter_pieces(self.expr(x.value))
            else:
                ps += (one(TRUE, self.expr(x)),)
        return self.new_list(ps)

    def e_Set(self, e):
        d = FALSE
        for x in e.elts:
            v = self.expr(x)
            d = OR(d, self.lift(lambda t: eq_t(KEY, t), v))
        return self.new_set(d)

    def e_Dict(self, e):
        r = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.M.dict_update(r.t, self.expr(v))
            else:
                kk = self.expr(k)
                self.M.setitem(r.t, kk, self.expr(v))
        return r

    def e_IfExp(self, e):
        c = self.truth(self.expr(e.test))
        pc0 = self.pc
        self.pc = AND(pc0, c)
        a = self.expr(e.body) if self.pc is not FALSE else BOT
        p1 = self.pc
        self.pc = AND(pc0, NOT(c))
        b = self.expr(e.orelse) if self.pc is not FALSE else BOT
        self.pc = OR(p1, self.pc)
        return ite(c, a, b) if a is not BOT and b is not BOT else (a if b is BOT else b)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        pc0 = self.pc
        x0 = self.exit_guard()
        res = None
        acc = TRUE       # still evaluating
        out = FALSE
        vals = []
        for x in e.values:
            self.pc = AND(self.pc, TRUE)
            if self.pc is FALSE and vals:
                break
            v = self.expr(x)
            t = self.truth(v)
            vals.append((v, t))
            self.pc = AND(self.pc, t if isand else NOT(t))
        x1 = self.exit_guard()
        self.pc = pc0 if x1 is x0 else AND(pc0, NOT(AND(x1, NOT(x0))))
        res = vals[-1][0]
        for v, t in reversed(vals[:-1]):
            res = ite(t, res, v) if isand else ite(t, v, res)
        return res

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.arith(lambda t: leaf(t_mul(const(-1), t)), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.arith(lambda t: leaf(mk('invert', t)), v)

    def e_BinOp(self, e):
        return self.binop(e.op, self.expr(e.left), self.expr(e.right))

    def binop(self, op, a, b):
        mark = next(self.nnew)
        return self.fuse(self.M.binop(op, a, b), mark)

    def fuse(self, r, mark):
        """exclusive alternatives that are all sets made just now, held by nobody else: one set"""
        if not isinstance(r, N) or r.a is None:
            return r
        gs = leaves(r, self.pc)
        if len(gs) < 2 or any(t.op != 'new' or not isinstance(t.args[0], int) or t.args[0] < mark or
                              self.kind.get(t) != 'set' for t in gs):
            return r
        d = FALSE
        for t, g in gs.items():
            d = ite(g, self.store[('s', t)], d)
        return self.new_set(d)

    def arith(self, fn, *vs):
        return self.M.arith(fn, *vs)

    def e_Compare(self, e):
        left = self.expr(e.left)
        res = TRUE
        pc0 = self.pc
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            c = self.compare(op, left, right)
            res = c if res is TRUE else ite(res, c, FALSE)
            left = right
        return res

    def compare(self, op, a, b):
        M = self.M
        if isinstance(op, ast.In):
            return self.each_list([a, b], M.contains)
        if isinstance(op, ast.NotIn):
            return NOT(self.each_list([a, b], M.contains))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.lift(M.is_t, a, b)
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.arith(lambda x, y: M.eq(x, y), a, b)
            if isinstance(op, ast.Eq):
                return r
            if self.is_arr(r):
                return self.arith(lambda t: ite(truthy_t(t), FALSE, TRUE), r)
            return NOT(r)
        if self.is_setlike(a) and self.is_setlike(b):
            return self.set_compare(op, a, b)
        f = {ast.Lt: lambda x, y: lt(x, y), ast.Gt: lambda x, y: lt(y, x),
             ast.LtE: lambda x, y: NOT(lt(y, x)), ast.GtE: lambda x, y: NOT(lt(x, y))}[type(op)]
        return self.arith(f, a, b)

    def is_arr(self, v):
        return v.a is None and self.kind_of(v.t) == 'arr'

    def is_setlike(self, v):
        return all(self.kind_of(t) == 'set' or t.op in ('keysv',) for t in leaves(v) if t.op != 'bot')

    def set_compare(self, op, a, b):
        fa, fb = self.M.mem_fn(a)(KEY), self.M.mem_fn(b)(KEY)
        sub = NOT(EX(KEY, AND(fa, NOT(fb))))
        sup = NOT(EX(KEY, AND(fb, NOT(fa))))
        if isinstance(op, ast.LtE):
            return sub
        if isinstance(op, ast.GtE):
            return sup
        if isinstance(op, ast.Lt):
            return AND(sub, NOT(sup))
        return AND(sup, NOT(sub))

    def e_Subscript(self, e):
        o = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.expr(e.slice.lower) if e.slice.lower else NONE
            hi = self.expr(e.slice.upper) if e.slice.upper else NONE
            st = self.expr(e.slice.step) if e.slice.step else NONE
            return self.each_list([o, lo, hi, st], self.M.slice)
        k = self.expr(e.slice)
        return self.each(o, lambda a: self.each(k, lambda b: self.M.getitem(a, b)))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fr.captured = True
        fn = Fn(e, fr.fn.mod, fr.fn.cls, fr.fn.qual + '.<lambda>', fr)
        t = mk('clos', fr.id, 'lambda@%d' % id(e))
        self.closures[t] = (fn, fr, self.defaults(e.args))
        return leaf(t)

    def e_Starred(self, e):
        raise Give('starred')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.expr(v.value)
                spec = self.expr(v.format_spec) if v.format_spec is not None else None
                conv = v.conversion
                parts.append(self.M.fmt(x, spec, conv))
        return self.lift(lambda *ts: leaf(strcat(*ts)), *parts) if parts else C('')

    def e_FormattedValue(self, e):
        return self.M.fmt(self.expr(e.value), None, -1)

    def e_Await(self, e):
        raise Give('await')

    # comprehension -----------------------------------------------------------
    def comp(self, gens, leaf_fn):
        fr = Frame(self.frames[-1].fn, self.frames[-1])
        fr.comp = True
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    fr.names.add(n.id)
        acc = self.new_list(())
        first = self.expr(gens[0].iter)

        def go(i):
            if i == len(gens):
                v = leaf_fn()
                cell = ('p', acc.t)
                self.wr(cell, self.rd(cell) + (one(TRUE, v),))
                return
            g = gens[i]
            it = first if i == 0 else self.expr(g.iter)

            def body():
                c = TRUE
                pc0 = self.pc
                for cond in g.ifs:
                    c = self.truth(self.expr(cond))
                    self.pc = AND(self.pc, c)
                if self.pc is not FALSE:
                    go(i + 1)
                # conditions do not leave the comprehension
            self.loop(it, lambda v: self.assign(g.target, v), body, guard_local=True)
        self.frames.append(fr)
        try:
            go(0)
        finally:
            self.frames.pop()
        return acc

    def e_ListComp(self, e):
        return self.comp(e.generators, lambda: self.expr(e.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        r = self.comp(e.generators, lambda: self.expr(e.elt))
        return self.new_set(self.M.mem_fn(r)(KEY))

    def e_DictComp(self, e):
        r = self.comp(e.generators, lambda: leaf(mk('tup', self.expr(e.key), self.expr(e.value))))
        ps = self.pieces_of(r.t)
        self.store.pop(('p', r.t), None)
        return self.M.dict_from_pairs(ps)

    # ------------------------------------------------------------ iteration
    def pieces_of(self, t):
        k = self.kind.get(t)
        if k in ('list', 'arr'):
            return self.rd(('p', t))
        return self.M.pieces(t)

    def iter_pieces(self, v):
        if v.a is None:
            return self.pieces_of(v.t)
        out = ()
        for t, g in leaves(v, self.pc).items():
            if t.op == 'bot':
                continue
            if t.op == 'c' and t.args[0] is None:
                self.do_raise(g, 'TypeError')
                continue
            out += guard_pieces(simp(g, self.pc), self.pieces_of(t))
        return out

    def s_For(self, s):
        it = self.expr(s.iter)
        held = self.held(s)
        if held is not None:
            state = self.copy_state()
            self.for_loop(s, it)
            if not self.changes_held(state[0]):
                return
            after = self.copy_state()
            self.set_state(state)
            if self.for_held(s, it, *held):
                return
            self.set_state(after)
            return
        self.for_loop(s, it)

    def copy_state(self):
        return dict(self.store), self.pc, dict(self.ncalls), set(self.stale)

    def set_state(self, st):
        self.store, self.pc, self.ncalls, self.stale = dict(st[0]), st[1], dict(st[2]), set(st[3])

    def held(self, s):
        """(fresh collection, what of it the loop runs over) when it runs over objects only that collection holds"""
        e, how = s.iter, 'plain'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'list' and len(e.args) == 1 \
                and not e.keywords:
            e = e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.args and not e.keywords \
                and e.func.attr in ('items', 'values', 'keys'):
            how, e = e.func.attr, e.func.value
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        v = self.expr(e)
        if v.a is not None or v.t.op != 'new':
            return None
        k = self.kind.get(v.t)
        cell = ('d', v.t) if k == 'dict' else ('p', v.t) if k == 'list' and how == 'plain' else None
        if cell is None or cell not in self.store:
            return None

        def classes(x, out):
            if isinstance(x, N):
                for t in leaves(x):
                    if t.op == 'instv':
                        out.add(t.args[0])
                    elif t.op == 'tup':
                        classes(t.args, out)
            elif isinstance(x, tuple):
                for y in x:
                    classes(y, out)
            elif isinstance(x, T) and x.op in ('one', 'for'):
                classes(x.args[1] if x.op == 'one' else x.args[3], out)
            return out
        mine = classes(self.store[cell], set())
        if not mine or any(not isinstance(self.funcs.get(c), Cls) for c in mine):
            return None
        for c, x in self.store.items():
            if c != cell and c[0] in ('d', 's', 'p', 'a', 'na') and classes(x, set()) & mine:
                return None
        return v.t, how

    def changes_held(self, before):
        def news(ps):
            for p in ps:
                if p.op == 'one':
                    for t in leaves(p.args[1]):
                        if t.op == 'setattr' and t.args[0].op == 'instv':
                            return True
                elif p.op == 'for' and news(p.args[3]):
                    return True
            return False
        a, b = before.get(('eff',), ()), self.store.get(('eff',), ())
        return a is not b and news(b[len(a):] if b[:len(a)] == a else b)

    def for_held(self, s, it, o, how):
        """the loop again, every object taken out of the fresh collection and put back"""

        def out(x):
            return lift(lambda t: self.box(t) if t.op == 'instv' else
                        leaf(mk('tup', *map(out, map(as_n, t.args)))) if t.op == 'tup' else leaf(t), x)
        if self.kind[o] == 'dict':
            def bind(v):
                k, x = v.t.args
                x = out(as_n(x))
                self.each(as_n(k), lambda t: self.M.setitem(o, leaf(t), x))
                self.assign(s.target, leaf(mk('tup', as_n(k), x)) if how == 'items' else x if how == 'values'
                            else as_n(k))
            self.for_loop(s, self.M.method(o, 'items', [], {}), bind)
        else:
            acc = self.new_list(()).t
            pc0 = self.pc

            def bind(v):
                x = out(v)
                self.wr(('p', acc), self.rd(('p', acc)) + (one(TRUE, x),))
                self.assign(s.target, x)
            self.for_loop(s, it, bind)
            if self.pc is not pc0:
                return False
            self.wr(('p', o), self.rd(('p', acc)))
        return True

    def for_loop(self, s, it, bind=None):
        lp = Loop()
        self.loops.append(lp)
        pc0 = self.pc
        try:
            self.loop(it, bind or (lambda v: self.assign(s.target, v)), lambda: self.block(s.body), lp)
        finally:
            self.loops.pop()
        brk = self.store.pop(('B', lp.id), FALSE)
        if s.orelse:
            self.block(s.orelse)
        self.pc = OR(self.pc, AND(pc0, brk))

    def loop(self, it, bind, body, lp=None, guard_local=False):
        """run body for every element; on return pc = not left the loop early"""
        pieces = self.iter_pieces(it)
        self.run_pieces(pieces, bind, body, lp, guard_local)

    def run_pieces(self, pieces, bind, body, lp, guard_local):
        for p in pieces:
            if self.pc is FALSE:
                return
            if p.op == 'one':
                self.one_iter(p.args[0], p.args[1], bind, body, lp, guard_local)
            elif p.op == 'for':
                v, base, g, sub = open_for(p)
                self.summarise(v, base, g, lambda sub=sub: self.run_pieces(sub, bind, body, lp, guard_local), lp,
                               guard_local)
            elif p.op == 'splice':
                # unknown list content (only inside folds)
                for q in seq_pieces(p.args[0]):
                    self.run_pieces((q,), bind, body, lp, guard_local)
            else:
                raise Give('loop over %s' % p.op)

    def one_iter(self, g, val, bind, body, lp, guard_local):
        pc0 = self.pc
        self.pc = AND(pc0, g)
        if self.pc is FALSE:
            self.pc = pc0
            return
        x0 = self.exit_guard()
        bind(val)
        body()
        if lp is not None:
            c = self.store.pop(('C', lp.id), FALSE)
            self.pc = OR(self.pc, AND(pc0, g, c))
        if guard_local:
            x1 = self.exit_guard()
            left = AND(x1, NOT(x0)) if x1 is not x0 else FALSE
            self.pc = AND(pc0, NOT(left))
        else:
            self.pc = OR(self.pc, AND(pc0, NOT(g)))

    EXITS = ('x', 't', 'R', 'B')

    def exit_guard(self):
        r = FALSE
        for c, v in self.store.items():
            if c[0] in self.EXITS:
                r = OR(r, v)
        return r

    # -- loop summaries ---------------------------------------------------------
    def carry(self, cell, var):
        k = cell[0]
        if k in ('l', 'a', 'r', 'tv'):
            return leaf(var)
        if k in ('d',):
            return atom(mk('mem', KEY, var)), leaf(mk('get', var, KEY))
        if k == 'na':
            return atom(mk('mem', KEY, var)), leaf(mk('get', var, KEY))
        if k in ('s', 'g'):
            return atom(mk('mem', KEY, var))
        if k == 'e':
            return atom(mk('edge', var, KEY, KEY2))
        if k in ('p', 'eff'):
            return (mk('splice', var),)
        return atom(mk('truthy', var))

    def uncarry(self, cell, F):
        """content of cell when its value is the term F"""
        return self.carry(cell, F)

    def trial(self, cells, v, g, run):
        """run the body once with havoc'd cells; returns (carry map, new store, exit guards, end pc)"""
        saved = dict(self.store)
        pc0, nc = self.pc, dict(self.ncalls)
        exits0 = {c: self.store.pop(c) for c in list(self.store) if c[0] in self.EXITS or c[0] == 'tv'}
        cm = {}
        for c in cells:
            var = fresh('c')
            if c[0] in ('l', 'a', 'r', 'tv'):
                old = saved.get(c)
                if old is None:
                    old = self.initial(c)
                if old is not None and old.a is None:
                    ty = self.type_of(old.t)
                    if ty:
                        self.types[var] = ty
                    k = self.kind.get(old.t)
                    if k and k != 'inst':
                        self.types[var] = (k, None)
                    elif k == 'inst' and self.objcls.get(old.t):
                        self.types[var] = ('cls', self.objcls[old.t])
            cm[c] = var
            self.store[c] = self.carry(c, var)
        start = dict(self.store)
        self.pc = g
        self.loopvars.append(v)
        try:
            run()
        finally:
            self.loopvars.pop()
        end = self.pc
        new = self.store
        self.store, self.pc, self.ncalls = saved, pc0, nc
        exits = {c: val for c, val in new.items() if c[0] in self.EXITS and val is not FALSE}
        written = [c for c, val in new.items() if c[0] not in self.EXITS and c[0] != 'C'
                   and start.get(c) is not val and start.get(c) != val]
        return cm, start, new, exits, written, end

    def summarise(self, v, base, g, run, lp, guard_local):
        pc0 = self.pc
        cells = []
        live0 = set(self.store)
        it = AND(g, atom(mk('inidx', v, base.args[0]))) if base.op == 'idx' and False else g
        for _ in range(6):
            if base.op == 'idx':
                self.places.add(v)
            cm, start, new, exits, written, end = self.trial(cells, v, AND(pc0, it), run)
            # cells of objects allocated in the body / frames opened there are local to an iteration
            news = {c[1] for c in new if len(c) > 1 and isinstance(c[1], T) and c[1].op == 'new'} - \
                   {c[1] for c in live0 if len(c) > 1 and isinstance(c[1], T) and c[1].op == 'new'}
            fam, locs = self.family(written, v)
            news = news | locs
            more = [c for c in written if c not in cm and c not in fam
                    and not (isinstance(c[1] if len(c) > 1 else None, T) and c[1] in news)]
            if fam and ('eff',) not in cm and ('eff',) not in more:
                more.append(('eff',))
                live0.add(('eff',))
            # only cells that existed before the loop, or belong to an enclosing frame, survive
            more = [c for c in more if c in live0 or self.survives(c)]
            if not more:
                break
            cells += more
        else:
            raise Give('loop did not stabilise')
        # values leaving the iteration must not mention iteration local objects
        sn = Snap(self, new, news)
        fin = {}
        for c in cells:
            fin[c] = sn.content(c, new[c])
        if fam:
            fin[('eff',)] = tuple(fin[('eff',)]) + self.family_effects(fam, new, sn, pc0)
        exits = {c: sn.n(x) for c, x in exits.items()}
        if pc0 is not TRUE:
            fin = {c: _simp(x, pc0) for c, x in fin.items()}
            exits = {c: _simp(x, pc0) for c, x in exits.items()}
            g = simp(g, pc0)
        self.close_loop(v, base, g, cells, cm, fin, exits, pc0, lp)

    def family(self, written, v):
        """written cells of objects selected by the loop variable: (input objects, results of calls)"""
        fam, locs = [], set()
        for c in written:
            o = c[1] if len(c) > 1 else None
            if c[0] in ('a', 'd', 's', 'p', 'g', 'e', 'na') and isinstance(o, T) and o.op != 'new':
                if rooted_call(o):
                    if v in o.fv:
                        locs.add(o)
                elif v in o.fv:
                    fam.append(c)
        return fam, locs

    def family_effects(self, fam, new, sn, pc0):
        out = ()
        for c in sorted(fam, key=lambda c: (c[0], c[1].id, str(c[2:]))):
            ini = self.initial(c)
            val = sn.content(c, new[c])
            g = TRUE
            if c[0] == 'a':
                g = lift(lambda x, y: C(x is not y), val, ini)
                if g is FALSE:
                    continue
                val = nobot(simp(val, g))
            elif _same(val, ini):
                continue
            out += (one(g, leaf(mk('wr', c[0], c[1], c[2] if len(c) > 2 else '', as_t(as_n(self.cell_value(c, val)))))),)
            self.stale.add((c[0], c[2] if len(c) > 2 else ''))
        return _simp(out, pc0)

    def survives(self, c):
        if c[0] == 'l':
            return any(f.id == c[1] for f in self.frames)
        return True

    def close_loop(self, v, base, g, cells, cm, fin, exits, pc0, lp):
        old = {c: _simp(self.rd_or(c), pc0) for c in cells}
        carries = {cm[c]: c for c in cells}

        def cvars(x):
            return frozenset(y for y in _fvs(x) if y in carries)
        # identity cells
        ident = {c for c in cells if _same(fin[c], self.carry(c, cm[c]))}
        cells = [c for c in cells if c not in ident]
        # carried values that never change are just the old values
        env = {}
        for c in ident:
            t = self.cell_term(c, old[c])
            if t is not None:
                env[cm[c]] = t
        if env:
            fin = {c: _sub(fin[c], env) for c in cells}
            exits = {c: _sub(x, env) for c, x in exits.items()}
        fin = {c: self.grown(c, cm[c], x, old[c], v) if c[0] in ('s', 'g') else x for c, x in fin.items()}
        fin, exits = self.flags(cells, cm, old, fin, exits)
        fin, exits = self.own_keys(v, base, cells, cm, old, fin, exits)
        X = FALSE
        for x in exits.values():
            X = OR(X, x)
        # cells that change only when leaving the loop are read at their old value inside
        only_exit = set()
        if X is not FALSE and not cvars(X):
            for c in cells:
                if _same(_simp(fin[c], NOT(X)), self.carry(c, cm[c])):
                    only_exit.add(c)
            env = {}
            for c in only_exit:
                t = self.cell_term(c, old[c])
                if t is not None:
                    env[cm[c]] = t
            if env:
                exits = {c: _sub(x, env) for c, x in exits.items()}
                fin = {c: (_sub(fin[c], env) if c not in only_exit else fin[c]) for c in cells}
                X = FALSE
                for x in exits.values():
                    X = OR(X, x)
        deps = {c: {carries[y] for y in cvars(fin[c])} for c in cells}
        xdep = {carries[y] for y in cvars(X)}
        results = {}
        only_x = all(c[0] == 'x' for c in exits)
        if X is FALSE or not xdep:
            anyx = FALSE
            first = None
            if X is not FALSE:
                anyx = ex_base(base, v, AND(g, X)) if v in X.fv or v in g.fv else AND(ex_base(base, v, g), X)
                bv, (b1,) = close(v, AND(g, X))
                first = mk('first', bv, base, b1)
            for c in cells:
                if c in only_exit:
                    val = _simp(fin[c], X)
                    if v in _fvs(val):
                        val = _sub(val, {v: first})
                    # the old value may be carried through
                    t = self.cell_term(c, old[c])
                    if cm[c] in _fvs(val) and t is not None:
                        val = _sub(val, {cm[c]: t})
                    if c[0] == 'l':
                        made_ = [t for t in leaves(_simp(fin[c], X)) if t.op == 'instv']
                        if made_ and not any(occurs_term(t, fin[d]) for t in made_ for d in cells if d is not c):
                            val = lift(lambda t: self.box(t) if t.op == 'instv' else leaf(t), val)
                    results[c] = _ite(c, anyx, val, old[c])
                    continue
                f = _simp(fin[c], NOT(X)) if X is not FALSE else fin[c]
                r = None
                if deps[c] <= {c}:
                    r = self.closed(c, cm[c], f, old[c], v, base, g)
                if r is None:
                    r = self.fold(c, cells, cm, fin, old, deps, v, base, g, X)
                    if c[0] in ('d', 'na') and cvars(f[0]) <= {cm[c]}:
                        # the keys may be told apart from the values
                        ks = self.closed_set(('s',) + c[1:], cm[c], f[0], old[c][0], v, base, g)
                        if ks is not None:
                            r = ks, r[1]
                elif anyx is not FALSE and not only_x:
                    fx = _simp(fin[c], X)
                    if not cvars(fx):
                        # the iteration that leaves decides
                        part = _sub(fx, {v: first}) if v in _fvs(fx) else fx
                    else:
                        part = self.fold(c, cells, cm, fin, old, deps, v, base, g, X)
                    r = _ite(c, anyx, part, r)
                results[c] = r
            for c in results:
                self.wr(c, results[c]) if c[0] not in ('l', 'a', 'r', 'tv') else self.setn(c, results[c])
            for c, x in exits.items():
                if len(exits) == 1 or v not in X.fv:
                    gx = ex_base(base, v, AND(g, x))
                else:
                    gx = AND(anyx, as_n(subst(x, {v: first})))
                self.store[c] = OR(self.rd(c), AND(pc0, gx))
            self.pc = AND(pc0, NOT(anyx))
        else:
            # leaving depends on what earlier iterations did: one fold with a stop flag
            for c in cells:
                results[c] = self.fold(c, cells, cm, fin, old, deps, v, base, g, X)
            alls = {}
            for c, x in exits.items():
                F = self.fold_term(x, cells, cm, fin, old, deps, v, base, g, X, flag=True)
                alls[c] = atom(mk('truthy', F))
            for c in results:
                self.wr(c, results[c]) if c[0] not in ('l', 'a', 'r', 'tv') else self.setn(c, results[c])
            stop = FALSE
            for c, x in alls.items():
                self.store[c] = OR(self.rd(c), AND(pc0, x))
                stop = OR(stop, x)
            self.pc = AND(pc0, NOT(stop))

    def flags(self, cells, cm, old, fin, exits):
        """a flag raised exactly when a variable that starts as None gets its value tells whether it has one"""
        loc = [c for c in cells if c[0] in ('l', 'a')]
        for b in loc:
            if old[b] is not C(False) or not fin[b].fv & {cm[b]} or \
                    any(t is not const(True) and t is not cm[b] for t in leaves(nobot(fin[b]))):
                continue
            P = lift(lambda t: C(t is not cm[b]), nobot(fin[b]))
            for x in loc:
                if x is b or old[x] is not NONE or not isinstance(fin[x], N):
                    continue
                f = nobot(fin[x])
                if lift(lambda t: C(t is not cm[x]), f) is P and all(
                        t is cm[x] or eq_t(t, const(None)) is FALSE for t in leaves(f)):
                    has = ite(eq_t(cm[x], const(None)), C(False), C(True))
                    env = {cm[b]: has}
                    return {d: _sub(y, env) for d, y in fin.items()}, {d: _sub(y, env) for d, y in exits.items()}
        return fin, exits

    def grown(self, c, cv, f, old, v):
        """a set that rounds add to: adding what is there already changes nothing"""
        own = self.carry(c, cv)
        for a in list(atoms_of(f)):
            if a.op == 'mem' and a.args[1] is cv and a is not own.a and KEY not in a.fv:
                # if x not in s: add x
                E = eq_t(KEY, a.args[0])
                hi, lo = cofactor(f, a, 1), cofactor(f, a, 0)
                d = OR(AND(hi, NOT(lo)), AND(lo, NOT(hi)))
                if simp(d, NOT(E)) is FALSE and simp(cofactor(d, own.a, 1), E) is FALSE:
                    f = lo
        out = cofactor(f, own.a, 0)
        if cofactor(f, own.a, 1) is TRUE and cv not in out.fv and cv not in old.fv:
            for a in list(atoms_of(out)):
                if a.op == 'eq' and KEY in a.args and v not in a.fv:
                    x = a.args[1] if a.args[0] is KEY else a.args[0]
                    if KEY not in x.fv and as_n(subst(old, {KEY: x})) is TRUE:
                        out = cofactor(out, a, 0)
            f = OR(own, out)
        return f

    def own_keys(self, v, base, cells, cm, old, fin, exits):
        """a set or dict in which every iteration changes its own key only: what it reads there is the old content"""
        at = []
        for c in cells:
            if c[0] not in ('s', 'g', 'd', 'na'):
                continue
            f = fin[c] if c[0] in ('d', 'na') else (fin[c],)
            keys = {a.args[1] if a.args[0] is KEY else a.args[0] for x in f for a in atoms_of(x)
                    if a.op == 'eq' and KEY in a.args}
            if len(keys) != 1:
                continue
            key, = keys
            if not (key is v and base.op == 'U' or
                    key.op == 'at' and key.args[1] is v and base.op == 'idx' and v not in key.args[0].fv and
                    self.injective(key.args[0])):
                continue
            now = self.carry(c, cm[c])
            if _same(_simp(fin[c], NOT(eq_t(KEY, key))), now):
                at.append((c, key))
        for c in cells:
            if c[0] != 'e' or cm[c] in old[c].fv:
                continue
            now, x = self.carry(c, cm[c]), cm[c]
            for me in (KEY, KEY2):
                keys = {a.args[1] if a.args[0] is me else a.args[0] for a in atoms_of(fin[c]) if a.op == 'eq' and me in a.args}
                for key in keys:
                    if not (key is v and base.op == 'U' or
                            key.op == 'at' and key.args[1] is v and base.op == 'idx' and v not in key.args[0].fv and
                            self.injective(key.args[0])):
                        continue
                    if not _same(_simp(fin[c], NOT(eq_t(me, key))), now):
                        continue
                    i = 1 if me is KEY else 2
                    reads = {a for y in list(fin.values()) + list(exits.values()) for a in edges_of(y, x)
                             if a.args[i] is key}
                    env = {a: as_n(subst(old[c], {KEY: a.args[1], KEY2: a.args[2]})) for a in reads}
                    if env:
                        fin = {d: _sub(y, env) for d, y in fin.items()}
                        exits = {d: _sub(y, env) for d, y in exits.items()}
        for c, key in at:
            x = cm[c]
            o = old[c] if isinstance(old[c], tuple) else (old[c],)
            env = {mk('mem', key, x): as_n(subst(o[0], {KEY: key}))}
            if len(o) > 1:
                env[mk('get', x, key)] = nobot(as_n(subst(o[1], {KEY: key})))
            if any(x in _fvs(y) for y in o):
                continue
            fin = {d: _sub(y, env) for d, y in fin.items()}
            exits = {d: _sub(y, env) for d, y in exits.items()}
        return fin, exits

    def box(self, t):
        """a new object with the given content: the one the iteration that left the loop made"""
        if t.op == 'instv':
            c = self.funcs.get(t.args[0])
            if not isinstance(c, Cls):
                return leaf(t)
            r = self.new('inst', c)
            for k, x in zip(t.args[1], t.args[2]):
                self.store[('a', r, k)] = self.box(x) if isinstance(x, T) else lift(self.box, x)
            return leaf(r)
        if t.op == 'dictv':
            return self.new_dict(mem_n(leaf(KEY), t), get_n(t, KEY))
        if t.op == 'setv':
            return self.new_set(mem_t(KEY, t))
        if t.op == 'listv':
            return self.new_list(seq_pieces(t))
        if coll.made(t) and len(t.args) > 4:
            c = self.funcs.get(t.args[4])
            g = self.new_graph(node_t(t, KEY), edge_t(t, KEY, KEY2), c)
            for nm, d in zip(t.args[2], t.args[3]):
                self.store[('na', g.t, nm)] = mem_n(leaf(KEY), d), get_n(d, KEY)
            if len(t.args) > 5:
                self.store[('fz', g.t)] = as_n(t.args[5])
            return g
        return leaf(t)

    def cell_term(self, c, content):
        """one term standing for the content (to substitute for a carry variable)"""
        k = c[0]
        if k in ('l', 'a', 'r', 'tv'):
            return content
        if k in ('d', 'na'):
            return leaf(dict_collapse(content))
        if k in ('s', 'g'):
            return leaf(set_collapse(content))
        if k == 'p':
            return leaf(list_collapse(content))
        if k == 'e':
            return leaf(rel_term(content))
        return None

    def closed(self, c, cv, f, old, v, base, g):
        """closed form of a cell that depends at most on itself; None if there is none"""
        k = c[0]
        if k in ('p', 'eff'):
            if f and f[0].op == 'splice' and f[0].args[0] is cv and not any(cv in _fvs(p) for p in f[1:]):
                ps = add_pieces((), pfor(base, v, g, f[1:]))
                return tuple(old) + ps
            if f and all(p.op == 'for' for p in f) and base.op == 'idx':
                return self.closed_vec(cv, f, old, v, base, g)
            return None
        if k in ('s', 'g', 'e'):
            return self.closed_set(c, cv, f, old, v, base, g)
        if k in ('d', 'na'):
            return self.closed_dict(cv, f, old, v, base, g)
        if k in ('l', 'a', 'r', 'tv'):
            f = nobot(f)
            if cv not in f.fv:
                # assigned in every iteration
                if v not in f.fv and v not in g.fv and False:
                    return ite(ex_base(base, v, g), f, old)
                if v not in f.fv:
                    return ite(ex_base(base, v, g), f, old)
                bv, (b1,) = close(v, g)
                return ite(ex_base(base, v, g), as_n(subst(f, {v: mk('last', bv, base, b1)})), old)
            # guarded assignment
            P = lift(lambda t: C(t is not cv), f)
            if not (P.fv & {cv}) and P.a is not None or P is TRUE:
                E = simp(f, P)
                if cv not in E.fv:
                    if v not in E.fv:
                        return ite(ex_base(base, v, AND(g, P)), E, old)
                    bv, (b1,) = close(v, AND(g, P))
                    return ite(ex_base(base, v, AND(g, P)), as_n(subst(E, {v: mk('last', bv, base, b1)})), old)
            # accumulation
            d = lift(lambda t: leaf(t_sub(t, cv)), f)
            if cv not in d.fv:
                s = SUM(v, base, ite(g, d, C(0)))
                return lift(lambda a, b: leaf(t_add(a, b)), old, s)
            # string building
            parts = leaves(f)
            if any(t.op == 'strcat' for t in parts) and all(
                    t is cv or t.op == 'strcat' and t.args[0] is cv and not any(cv in a.fv for a in t.args[1:])
                    for t in parts):
                val = lift(lambda t: C('') if t is cv else leaf(strcat(*t.args[1:])), f)
                ps = add_pieces((), pfor(base, v, AND(g, P), (one(TRUE, val),)))
                return lift(lambda a: leaf(strcat(a, mk('join', const(''), list_collapse(ps)))), old)
            return None
        return None

    def closed_vec(self, cv, f, old, v, base, g):
        x = fresh()
        e, some = None, FALSE
        for p in f:
            _, b2, g2, sub = open_for(p, x)
            if b2.op != 'idx' or b2.args[0] is not len_t(cv).t or len(sub) != 1 or sub[0].op != 'one' \
                    or sub[0].args[0] is not TRUE or AND(g2, some) is not FALSE:
                return None
            some = OR(some, g2)
            e = sub[0].args[1] if e is None else ite(g2, sub[0].args[1], e)
        if some is not TRUE:
            return None
        me = mk('at', cv, x)
        for a in atoms_of(e):
            if a.op == 'eq' and set(a.args) == {x, v}:
                hi, lo = cofactor(e, a, 1), cofactor(e, a, 0)
                if lo is leaf(me):
                    o = leaf(list_collapse(old))
                    val = as_n(subst(hi, {v: x}))
                    gg = as_n(subst(g, {v: x}))
                    if base.args[0] is not len_t(o.t).t:
                        gg = AND(gg, atom(mk('inidx', x, base.args[0])))
                    val = ite(gg, val, leaf(me))
                    r = subst(val, {mk('at', cv, x): at_t(o.t, x)})
                    if cv in r.fv:
                        return None
                    return add_pieces((), pfor(mk('idx', len_t(o.t).t), x, TRUE, (one(TRUE, r),)))
        return None

    def closed_set(self, c, cv, f, old, v, base, g):
        own = self.carry(c, cv)
        a = own.a
        inn, out = cofactor(f, a, 1), cofactor(f, a, 0)
        if cv in _fvs(inn) or cv in _fvs(out):
            # what is asked of the set about an element this one equals
            for q in [x for x in atoms_of(f) if x.op == 'eq' and any(y in (KEY, KEY2) for y in x.args)]:
                y, t = q.args if q.args[0] in (KEY, KEY2) else q.args[::-1]
                hi = cofactor(f, q, 1)
                env = {x: subst(atom(x), {t: leaf(y)}) for x in atoms_of(hi) if cv in _fvs(x) and occurs_term(t, x)}
                if env and not isinstance(t, N):
                    f = ite(atom(q), subst(hi, env), cofactor(f, q, 0))
            inn, out = cofactor(f, a, 1), cofactor(f, a, 0)
        if cv in _fvs(inn) or cv in _fvs(out):
            return None
        if inn is TRUE:
            return OR(old, ex_base(base, v, AND(g, out)))
        if out is FALSE:
            return AND(old, NOT(ex_base(base, v, AND(g, NOT(inn)))))
        return None

    def closed_dict(self, cv, f, old, v, base, g):
        dom, val = f
        me, mv = atom(mk('mem', KEY, cv)), mk('get', cv, KEY)
        mem = me.a
        # key written in an iteration: KEY == key(v)
        keys = [a for a in atoms_of(dom) + atoms_of(val) if a.op == 'eq' and KEY in a.args]
        keys = list(dict.fromkeys(keys))
        if len(keys) != 1:
            # deletion / union without a key test
            if _same((dom, val), (me, leaf(mv))):
                return old
            return None
        a, = keys
        key = a.args[1] if a.args[0] is KEY else a.args[0]
        if cv in key.fv or KEY in key.fv:
            return None
        d1, d0 = cofactor(dom, a, 1), cofactor(dom, a, 0)
        v1, v0 = cofactor(val, a, 1), cofactor(val, a, 0)
        if d0 is not me or (simp(v0, me) is not leaf(mv) and v0 is not leaf(mv)):
            return None
        if key is v or (key.op == 'at' and key.args[1] is v and base.op == 'idx' and self.injective(key.args[0])):
            # point-wise: every key is written by its own iteration only
            if key is v:
                envk, gk = {v: KEY}, as_n(subst(g, {v: KEY}))
                d1, v1 = as_n(subst(d1, envk)), as_n(subst(v1, envk))
            else:
                e = elementwise(base, v, g, d1, v1)
                if not e:
                    return None
                x, gm, (g2, d1, v1), A = e
                d1, v1, gk = (as_n(subst(z, {x: KEY})) for z in (d1, v1, AND(gm, g2)))
            if base.op == 'idx' and key is v:
                gk = AND(gk, atom(mk('inidx', KEY, base.args[0])))
            env = {mk('get', cv, KEY): nobot(old[1]), mk('mem', KEY, cv): old[0]}
            d1, v1 = _suba(d1, cv, old), _suba(v1, cv, old)
            if cv in d1.fv or cv in v1.fv:
                return None
            nd = ite(gk, d1, old[0])
            nv = ite(gk, v1, old[1])
            return nd, nv
        if cv in d1.fv or cv in v1.fv:
            return None
        # last write wins
        if d1 is TRUE and v not in key.fv:
            ex = ex_base(base, v, g)
            if v in v1.fv:
                bv, (b1,) = close(v, g)
                v1 = as_n(subst(v1, {v: mk('last', bv, base, b1)}))
            w = AND(ex, atom(a))
            return ite(w, TRUE, old[0]), ite(w, v1, old[1])
        if d1 is TRUE:
            hit = AND(g, atom(a))
            ex = ex_base(base, v, hit)
            inv = self.invert(key, v, base)
            bv, (b1,) = close(v, hit)
            last = mk('last', bv, base, b1)
            if key.op != 'var' and key is not v:
                v1 = as_n(subst(v1, {key: leaf(KEY)}))
            v2 = as_n(subst(v1, {v: last}))
            return OR(old[0], ex), ite(ex, v2, old[1])
        if d1 is FALSE:
            ex = ex_base(base, v, AND(g, atom(a)))
            return AND(old[0], NOT(ex)), old[1]
        return None

    def invert(self, key, v, base):
        return None

    # lists made of sets or of the order of a network (see the obligations of their constructors)
    UNIQUE = {('SimulationGroup', 'Exogenous'), ('SimulationGroup', 'Listening'), ('SimulationGroup', 'Fixed'),
              ('SimulationGroup', 'Floating')}

    def injective(self, A):
        if A.op == 'attr':
            c = self.cls_of(A.args[0])
            return isinstance(c, Cls) and (c.name, A.args[1]) in self.UNIQUE
        return dupfree(A)

    def fold(self, c, cells, cm, fin, old, deps, v, base, g, X):
        F = self.fold_term(c, cells, cm, fin, old, deps, v, base, g, X)
        return self.uncarry(c, F)

    def fold_term(self, c, cells, cm, fin, old, deps, v, base, g, X, flag=False):
        """canonical fold of the cells the wanted one depends on"""
        carries = {cm[x]: x for x in cells}
        need = []
        work = [carries[y] for y in _fvs(c) if y in carries] if flag else [c]
        if X is not FALSE:
            work += [carries[y] for y in _fvs(X) if y in carries]
        while work:
            x = work.pop()
            if x in need:
                continue
            need.append(x)
            work += [y for y in deps[x] if y in cells]
        need.sort(key=lambda x: (x != c if not flag else 0, x[0], cells.index(x)))
        # a round that changes nothing may as well be left out
        P = X
        for x in need:
            P = OR(P, self.changes(x, fin[x], cm[x])) if P is not TRUE else P
        if flag:
            P = OR(P, c)
        g = AND(g, P)
        if g is not TRUE and g is not FALSE:
            X = simp(X, g)
            fin = dict(fin)
            for x in need:
                fin[x] = _simp(fin[x], g)
        inits = tuple(self.cell_value(x, old[x]) for x in need)
        bodies = tuple(self.cell_value(x, fin[x]) for x in need)
        cvs = tuple(cm[x] for x in need)
        return mk_fold(v, base, g, cvs, inits, bodies, X, c if flag else const(0))

    def changes(self, c, new, cv):
        """when a round may change a cell"""
        k = c[0]
        if k in ('l', 'a', 'r', 'tv'):
            P = lift(lambda t: C(t is not cv), new)
            return P if cv not in P.fv else TRUE
        if k not in ('d', 'na', 's', 'g'):
            return TRUE
        same = self.carry(c, cv)

        def go(x, left):
            if _same(x, same):
                return FALSE
            for p in (x if isinstance(x, tuple) else (x,)):
                for a in atoms_of(p):
                    if KEY not in a.fv and cv not in a.fv and left:
                        cof = lambda b: tuple(cofactor(q, a, b) for q in x) if isinstance(x, tuple) else cofactor(x, a, b)
                        return ite(atom(a), go(cof(1), left - 1), go(cof(0), left - 1))
            return TRUE
        return go(new, 8)

    def cell_value(self, c, content):
        k = c[0]
        if k in ('l', 'a', 'r', 'tv'):
            return content
        if k in ('d', 'na'):
            return leaf(dict_collapse(content))
        if k in ('s', 'g'):
            return leaf(set_collapse(content))
        if k in ('p', 'eff'):
            return leaf(list_collapse(content))
        if k == 'e':
            return leaf(rel_term(content))
        return content

    # -- while ------------------------------------------------------------------
    def s_While(self, s):
        s, tail = tail_of_while(s)
        s = plain_while(s)
        lp = Loop()
        self.loops.append(lp)
        pc0 = self.pc
        try:
            self.while_loop(s, lp)
        finally:
            self.loops.pop()
        self.store.pop(('B', lp.id), None)
        self.block(tail)

    def while_loop(self, s, lp):
        pc0 = self.pc
        cells = []
        live0 = set(self.store)

        after = getattr(s, 'after', False)
        c0 = TRUE if after else self.truth(self.expr(s.test))
        if AND(pc0, c0) is FALSE:
            return
        dowhile = simp(c0, pc0) is TRUE
        tick = fresh('w')
        post = {}

        def run():
            if not dowhile:
                c = self.truth(self.expr(s.test))
                post['c'] = c
                self.pc = AND(self.pc, c)
            self.block(s.body)
            cc = self.store.pop(('C', lp.id), FALSE)
            self.pc = OR(self.pc, cc)
            if dowhile:
                pcb = self.pc
                c = self.truth(self.expr(s.test))
                post['c'] = AND(pcb, c)
        for _ in range(6):
            cm, start, new, exits, written, end = self.trial(cells, tick, pc0, run)
            news = {c[1] for c in new if len(c) > 1 and isinstance(c[1], T) and c[1].op == 'new'} - \
                   {c[1] for c in live0 if len(c) > 1 and isinstance(c[1], T) and c[1].op == 'new'}
            more = [c for c in written if c not in cm and not (isinstance(c[1] if len(c) > 1 else None, T)
                                                             and c[1] in news)]
            more = [c for c in more if c in live0 or self.survives(c)]
            # what an iteration gets from a call of its own is its own
            more = [c for c in more if not (len(c) > 1 and isinstance(c[1], T) and tick in c[1].fv)]
            if not more:
                break
            cells += more
        else:
            raise Give('while loop did not stabilise')
        sn = Snap(self, new, news)
        fin = {c: sn.content(c, new[c]) for c in cells}
        cond = sn.n(post['c'])
        exits = {c: sn.n(x) for c, x in exits.items()}
        if pc0 is not TRUE:
            fin = {c: _simp(x, pc0) for c, x in fin.items()}
            exits = {c: _simp(x, pc0) for c, x in exits.items()}
            cond = _simp(cond, pc0)
        old = {c: _simp(self.rd_or(c), pc0) for c in cells}
        carries = {cm[c]: c for c in cells}
        ident = {c for c in cells if _same(fin[c], self.carry(c, cm[c]))}
        env = {}
        for c in ident:
            t = self.cell_term(c, old[c])
            if t is not None:
                env[cm[c]] = t
        cells = [c for c in cells if c not in ident]
        if env:
            fin = {c: _sub(fin[c], env) for c in cells}
            cond = _sub(cond, env)
            exits = {c: _sub(x, env) for c, x in exits.items()}
        xr = {c: x for c, x in exits.items() if c != ('B', lp.id)}
        deps = {c: {carries[y] for y in _fvs(fin[c]) if y in carries} for c in cells}
        outs = {}

        def term(c, flagval=None):
            need = []
            work = [c] if flagval is None else [carries[y] for y in _fvs(flagval) if y in carries]
            work += [carries[y] for y in _fvs(cond) if y in carries]
            for x in exits.values():
                work += [carries[y] for y in _fvs(x) if y in carries]
            while work:
                x = work.pop()
                if x in need or x not in cells:
                    continue
                need.append(x)
                work += list(deps[x])
            need.sort(key=lambda x: (x != c, x[0], cells.index(x)))
            inits = tuple(self.cell_value(x, old[x]) for x in need)
            # a value that is always assigned before it is used does not need its initial value
            live = set()
            for x in need:
                live |= {carries[y] for y in _fvs(fin[x]) if y in carries}
            if not dowhile:
                live |= set(need)
            live |= {carries[y] for y in _fvs(cond) if y in carries}
            inits = tuple(i if x in live else leaf(mk('undef')) for x, i in zip(need, inits))
            bodies = tuple(self.cell_value(x, fin[x]) for x in need)
            cvs = tuple(cm[x] for x in need)
            stop = FALSE
            for x in exits.values():
                stop = OR(stop, x)
            cnt = cond if stop is FALSE else AND(cond, NOT(stop))
            return mk_while(dowhile or (2 if stop is not FALSE else False), tick, cvs, inits, bodies, cnt, const(0) if flagval is None else flagval)
        for c in cells:
            outs[c] = self.uncarry(c, term(c))
        flags = {c: atom(mk('truthy', term(c, x))) for c, x in xr.items()}
        if not dowhile:
            self.pc = AND(pc0, c0)
        for c in cells:
            self.wr(c, outs[c]) if c[0] not in ('l', 'a', 'r', 'tv') else self.setn(c, outs[c])
        stop = FALSE
        for c, x in flags.items():
            self.store[c] = OR(self.rd(c), AND(self.pc, x))
            stop = OR(stop, AND(self.pc, x))
        self.pc = AND(pc0, NOT(stop))
        if s.orelse:
            raise Give('while else')

    def do_yield(self, y):
        f = self.frames[-1]
        cell = ('p', f.yields)
        if isinstance(y, ast.YieldFrom):
            self.wr(cell, self.rd(cell) + self.iter_pieces(self.expr(y.value)))
        else:
            v = self.expr(y.value) if y.value is not None else NONE
            self.wr(cell, self.rd(cell) + (one(TRUE, v),))

    # ------------------------------------------------------------ calls
    def defaults(self, a):
        pos = a.posonlyargs + a.args
        out = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[arg.arg] = self.expr(d)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[arg.arg] = self.expr(d)
        return out

    def e_Call(self, e):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            return self.super_call(e)
        fnv = self.expr(e.func)
        args, kw = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                if v.a is None:
                    k = self.kind_of(v.t)
                    ps = self.pieces_of(v.t) if k in ('list', 'tuple', 'set', 'dict') or v.t.op in ('tup', 'listv') else None
                    if ps is not None and all_ones(ps):
                        args += [p.args[1] for p in ps]
                        continue
                    if ps is not None and len(ps) <= 8 and all(not isinstance(p, N) and p.op == 'one' for p in ps):
                        # elements that are there in some cases only: once for each case
                        args.append(ps)
                        continue
                args.append(leaf(mk('star', self.snap_t(v) if v.a is not None else v.t)))
                star = v
            else:
                args.append(self.expr(a))
        spreads = []
        for k in e.keywords:
            if k.arg is None:
                spreads.append(self.expr(k.value))
            else:
                kw[k.arg] = self.expr(k.value)
        mark = next(self.nnew)
        self.site = e
        r = self.elements(args, [], lambda args2: self.spread(
            spreads, kw, lambda kw2: self.each(fnv, lambda t: self.call(t, list(args2), dict(kw2)))))
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'copy',
                                                                 'symmetric_difference') or \
                isinstance(e.func, ast.Name) and e.func.id == 'set':
            r = self.fuse(r, mark)
        return r

    def elements(self, args, done, then):
        """pass on the arguments, each tuple of pieces by its elements, once for each set of them"""
        if not args:
            return then(done)
        a, rest = args[0], args[1:]
        if not isinstance(a, tuple):
            return self.elements(rest, done + [a], then)
        if not a:
            return self.elements(rest, done, then)
        g = simp(a[0].args[0], self.pc)
        if g is FALSE:
            return self.elements([a[1:]] + rest, done, then)
        if g is TRUE:
            return self.elements([a[1:]] + rest, done + [a[0].args[1]], then)
        return self.each(ite(g, leaf(const(True)), leaf(const(False))), lambda t: self.elements(
            [a[1:]] + rest, done + [a[0].args[1]] if t.args[0] is True else done, then))

    def spread(self, vs, kw, then):
        """pass the items of dictionaries as named arguments, once for each set of keys they may hold"""
        if not vs:
            return then(kw)

        def one_dict(t):
            if t.op == 'c' and t.args[0] is None:
                self.do_raise(TRUE, 'TypeError')
                return BOT
            if self.kind.get(t) == 'dict':
                dom, val = self.rd(('d', t))
                ks = maybe_keys(simp(dom, self.pc))
                if ks is not None and sum(g is not TRUE for _, g in ks) <= 4:
                    return keys(list(ks), val, dict(kw))
            kw2 = dict(kw)
            kw2['**'] = leaf(t)
            return self.spread(vs[1:], kw2, then)

        def keys(ks, val, kw2):
            if not ks:
                return self.spread(vs[1:], kw2, then)
            (k, g), rest = ks[0], ks[1:]
            v = as_n(subst(val, {KEY: k}))
            with_k = dict(kw2)
            with_k[k.args[0]] = v
            return self.each(ite(g, leaf(const(True)), leaf(const(False))),
                             lambda t: keys(rest, val, with_k if t.args[0] is True else dict(kw2)))
        return self.each(vs[0], one_dict)

    def super_call(self, e):
        fr = self.frames[-1]
        while fr.fn.cls is None and fr.parent:
            fr = fr.parent
        c = fr.fn.cls
        selfn = fr.fn.node.args.args[0].arg
        selfv = self.store[('l', fr.id, selfn)]
        args = [self.expr(a) for a in e.args]
        kw = {k.arg: self.expr(k.value) for k in e.keywords if k.arg}
        nm = e.func.attr
        mro = self.prog.mro(c)
        for k in mro[mro.index(c) + 1:]:
            if isinstance(k, Cls) and nm in k.methods:
                return self.call_fn(k.methods[nm], [selfv] + args, kw)
        if nm == '__init__':
            return NONE
        self.taint('super().%s' % nm)
        return self.unk('super().%s' % nm)

    def call(self, f, args, kw):
        if f.op == 'opaque':
            self.taint('call of something unknown')
            return leaf(mk('call', f, tuple(self.snap_v(a) for a in args), (), (0,)))
        if f.op == 'func':
            fn = self.funcs[f]
            return self.call_fn(fn, args, kw)
        if f.op == 'cls':
            return self.construct(f, args, kw)
        if f.op == 'blank':
            return leaf(self.new('inst', self.funcs[f.args[0]]))
        if f.op == 'bm':
            return self.method(f.args[0], f.args[1], args, kw)
        if f.op == 'clos':
            fn, fr, dfl = self.closures[f]
            return self.call_fn(fn, args, kw, parent=fr, dfl=dfl)
        if f.op == 'ext':
            if f.args[0] == 'vf.assume':
                self.assumptions = AND(self.assumptions, OR(NOT(self.pc), self.truth(args[0])))
                return NONE
            return self.M.call_ext(f.args[0], args, kw)
        if f.op == 'partial':
            fn, a0, k0 = f.args
            kk = dict(k0)
            kk.update(kw)
            return self.call(fn, [as_n(x) for x in a0] + args, kk)
        if f.op == 'gnodes':
            return self.M.method(f, '__call__', args, kw)
        if f.op == 'attr':
            # method of an object of unknown type
            return self.M.method(f.args[0], f.args[1], args, kw)
        if f.op in ('in', 'get', 'at', 'call', 'var', 'bv', 'glob', 'first', 'last'):
            c = self.cls_of(f)
            if isinstance(c, Cls):
                m = self.prog.method(c, '__call__')
                if m and not m.is_abstract:
                    return self.call_fn(m, [leaf(f)] + args, kw)
            return self.uninterp(f, args, kw, pure=False)
        k = self.cls_of(f)
        if isinstance(k, Cls):
            m = self.prog.method(k, '__call__')
            if m:
                return self.call_fn(m, [leaf(f)] + args, kw)
        return self.uninterp(f, args, kw, pure=False)

    def method(self, o, nm, args, kw):
        if o.op == 'super':
            return self.unk('super')
        c = self.cls_of(o)
        if isinstance(c, Cls):
            m = self.prog.method(c, nm)
            if m is not None:
                if m.is_abstract:
                    return self.M.method(o, nm, args, kw)
                if m.is_static:
                    return self.call_fn(m, args, kw)
                if m.is_class:
                    return self.call_fn(m, [self.ref(('cls', c))] + args, kw)
                r = self.M.repo_override(m, o, args, kw)
                if r is not None:
                    return r
                return self.call_fn(m, [leaf(o)] + args, kw)
        return self.M.method(o, nm, args, kw)

    def bind(self, fn, args, kw, dfl):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        kw = dict(kw)
        for i, v in enumerate(args):
            if v.a is None and v.t.op == 'star':
                raise Give('star argument')
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            raise ArgError('too many arguments for %s' % fn.qual)
        if a.vararg:
            out[a.vararg.arg] = leaf(mk('tup', *rest))
            if not rest and getattr(self, 'vararg_in', None) is not None:
                out[a.vararg.arg] = self.vararg_in
                self.vararg_in = None
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k == '**':
                extra['**'] = v
            elif k in names:
                if k in out:
                    raise ArgError('two values for argument %s of %s' % (k, fn.qual))
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = self.new_dict()
            if '**' in extra:
                self.M.dict_update(d.t, extra.pop('**'))
            for k, v in extra.items():
                self.M.setitem(d.t, C(k), v)
            out[a.kwarg.arg] = d
        elif '**' in extra:
            raise Give('unexpected arguments %s for %s' % (sorted(extra), fn.qual))
        elif extra:
            raise ArgError('unexpected arguments %s for %s' % (sorted(extra), fn.qual))
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in dfl:
                    out[n] = dfl[n]
                elif '**' in kw:
                    raise Give('missing argument %s of %s' % (n, fn.qual))
                else:
                    raise ArgError('missing argument %s of %s' % (n, fn.qual))
        return out

    def call_fn(self, fn, args, kw, parent=None, dfl=None):
        key = fn.qual
        r = self.M.fn_override(fn, args, kw)
        if r is not None:
            return r
        if fn.is_abstract and args and fn.is_trivial:
            return self.M.method_n(args[0], fn.name, args[1:], kw)
        canon = self.renames.get(key, key)
        depth = sum(self.renames.get(q, q) == canon for q in self.stack)
        st = self.stub(fn) if self.stack else None
        if st is not None:
            if st == 'append' or st[0] == 'append':
                return self.append_stub(fn, args, kw)
            return self.stub_call(fn, st, args, kw)
        if depth >= (2 if fn.name in self.UNROLL else 1) or len(self.stack) > self.MAX_DEPTH:
            ft = mk('func', self.renames.get(fn.qual, fn.qual))
            self.funcs[ft] = fn
            t = self.rec_call(ft, fn, args, kw)
            return t
        self.visited[fn.qual] = True
        fr = Frame(fn, parent)
        a = fn.node.args
        if dfl is None:
            self.frames.append(Frame(Fn(ast.Lambda(args=_noargs(), body=ast.Constant(None)), fn.mod, fn.cls,
                                        fn.qual + '.<defaults>')))
            try:
                dfl = self.defaults(a)
            finally:
                self.frames.pop()
        try:
            env = self.bind(fn, args, kw, dfl)
        except ArgError:
            if not self.stack:
                raise
            self.do_raise(TRUE, 'TypeError')
            return BOT
        fr.names = set(env) | assigned_names(fn)
        pc0 = self.pc
        for k, v in env.items():
            self.store[('l', fr.id, k)] = v
        self.frames.append(fr)
        self.stack.append(key)
        loops, self.loops = self.loops, []
        try:
            if isinstance(fn.node, ast.Lambda):
                res = self.expr(fn.node.body)
            else:
                if fn.is_gen:
                    fr.yields = self.new_list(()).t
                self.block(fn.node.body)
                res = self.store.pop(('r', fr.id), NONE)
                rg = self.store.pop(('R', fr.id), FALSE)
                if res is not NONE:
                    res = ite(rg, res, NONE)
                self.pc = OR(self.pc, AND(pc0, rg))
                if res is not NONE:
                    res = nobot(simp(res, self.pc)) if self.pc is not FALSE else BOT
                if fn.is_gen:
                    res = leaf(fr.yields)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loops = loops
        if not fr.captured:
            for n in fr.names:
                self.store.pop(('l', fr.id, n), None)
        return res

    UNROLL = {'append_loci'}

    def stub(self, fn):
        from vf import typing_tables as TT
        top = self.stack[0]
        st = TT.STUBS.get(fn.qual)
        if fn.qual in self.nostub:
            return None
        if st is None or any(self.renames.get(q, q) == self.renames.get(fn.qual, fn.qual) for q in self.stack):
            return None
        only = [x[3:] for x in st if isinstance(x, str) and x.startswith('in:')]
        if only and self.renames.get(top, top).split(':')[1] not in only:
            return None
        if 'far' in st:
            # only inside functions of other modules
            t = self.renames.get(top, top)
            if t.split(':')[0] == fn.qual.split(':')[0]:
                return None
        return st

    def stub_call(self, fn, st, args, kw):
        """a function with an obligation of its own: kept as a named call"""
        ft = mk('func', self.renames.get(fn.qual, fn.qual))
        self.funcs[ft] = fn
        self.stubbed.setdefault(fn.qual, set()).add(id(self.site))
        ty, excs = st[:2]
        r = self.rec_call(ft, fn, args, kw, 'impure' not in st)
        for t in leaves(r, self.pc):
            if t.op != 'call':
                continue
            if ty:
                self.types[t] = self.parse_type(ty)
            if fn.qual.endswith(':BayesianNetwork.copy') and args and args[0].a is None:
                # which its own obligation says
                src = self.attr(args[0].t, 'UserDefinedFunctions')
                dst = self.attr(t, 'UserDefinedFunctions')
                if src.a is None and dst.a is None and ('d', dst.t) not in self.store:
                    self.store[('d', dst.t)] = self.rd(('d', src.t))
        for e in excs:
            self.do_raise(self.lift(lambda t: atom(mk('raises', t, e)), r), e, leaf(mk('exc', e)))
        if 'impure' in st and fn.cls is not None and args:
            self.after_call(args[0], r)
        return r

    def after_call(self, o, r):
        """the attributes of an object built here, after one of its own methods, kept as a named call, has set them"""
        for t in leaves(o, self.pc):
            c = self.objcls.get(t) if t.op == 'new' else None
            if c is None:
                continue
            names = self.set_outside_init(c)
            for cell in [x for x in self.store if x[0] == 'a' and x[1] is t and x[2] in names]:
                def one_case(u, nm=cell[2]):
                    if u.op != 'call':
                        return leaf(mk('attr', u, nm))
                    x = mk('attr', mk('after', u), nm)
                    ty = self.attr_type(t, nm)
                    if ty:
                        self.types.setdefault(x, ty)
                    return leaf(x)
                self.setn(cell, self.lift(one_case, r))

    def set_outside_init(self, c):
        out = set()
        for k in self.prog.mro(c):
            if not isinstance(k, Cls):
                continue
            for m in k.methods.values():
                if m.name == '__init__':
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                        nm = n.attr
                        if nm.startswith('__') and not nm.endswith('__'):
                            nm = '_' + k.name.lstrip('_') + nm
                        out.add(nm)
        return out

    def append_stub(self, fn, args, kw):
        """adding a node to a network, kept as a named change of its graph"""
        ft = mk('func', self.renames.get(fn.qual, fn.qual))
        self.funcs[ft] = fn
        if '**' in kw or len(args) > 2 or not args:
            raise Give('unusual call of %s' % fn.qual)
        kw = dict(kw)
        loci = args[1] if len(args) > 1 else kw.pop('loci', NONE)
        kv = tuple((k, self.snap_v(v)) for k, v in sorted(kw.items()))
        sl = self.snap_v(loci)

        def on_net(bn):
            return self.each(self.attr(bn, 'DAG'), on_graph)

        def on_graph(g):
            if self.kind_of(g) != 'graph':
                return self.unk('graph')
            self.do_raise(self.rd(('fz', g)), 'AttributeError', leaf(mk('exc', 'AttributeError')))
            if self.pc is FALSE:
                return NONE
            pc0 = self.pc

            def one_case(*ts):
                n = len(kv)
                return leaf(mk('call', ft, (ts[0], ts[1]), tuple((k, t) for (k, _), t in zip(kv, ts[2:])), (0,)))
            c = self.lift(one_case, self.snap_v(leaf(g)), sl, *[v for _, v in kv])
            self.do_raise(self.lift(lambda t: atom(mk('raises', t, 'AttributeError')), c), 'AttributeError',
                          leaf(mk('exc', 'AttributeError')))
            if self.pc is FALSE:
                return NONE
            dag = self.prog.get('sims_pars.bayesnet.dag:DAG')
            cells = [('g', g), ('e', g)] + [('na', g, a) for a in self.M.nattrs()]
            for cell in cells:
                parts = []
                for t in leaves(c, self.pc):
                    if t.op == 'call' and dag is not None:
                        self.types[t] = ('cls', dag)
                if cell[0] == 'na':
                    new = (self.lift(lambda t: self.initial(('na', t) + cell[2:])[0], c),
                           self.lift(lambda t: self.initial(('na', t) + cell[2:])[1], c))
                else:
                    new = self.lift(lambda t: self.initial((cell[0], t)), c)
                self.wr(cell, new)
            return NONE
        self.each(args[0], on_net)
        return NONE

    def rec_call(self, ft, fn, args, kw, pure=False):
        """recursive call: uninterpreted, arguments normalised to the full parameter list"""
        try:
            self.frames.append(Frame(Fn(ast.Lambda(args=_noargs(), body=ast.Constant(None)), fn.mod, fn.cls, fn.qual)))
            dfl = self.defaults(fn.node.args)
        finally:
            self.frames.pop()
        try:
            env = self.bind(fn, args, kw, dfl)
        except ArgError:
            self.do_raise(TRUE, 'TypeError')
            return BOT
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        vals = [env[n] for n in names if n in env]
        return self.uninterp(ft, vals, {}, pure=pure)

    def uninterp(self, f, args, kw, pure=False):
        av = tuple(self.snap_v(a) for a in args)
        kv = tuple((k, self.snap_v(v)) for k, v in sorted(kw.items()))
        return self.uninterp_vals(f, av, kv, pure)

    def uninterp_vals(self, f, av, kv, pure):
        """hoist guards out of the arguments, number impure calls"""
        def mkc(*ts):
            n = len(av)
            at = tuple(ts[:n])
            kt = tuple((k, t) for (k, _), t in zip(kv, ts[n:]))
            if pure:
                return leaf(mk('call', f, at, kt, (0,)))
            sig = (f, at, kt, tuple(self.loopvars))
            prev = self.ncalls.setdefault(sig, [])
            return leaf(mk('call', f, at, kt, (len(prev),) + tuple(self.loopvars)))
        r = self.lift(mkc, *(list(av) + [v for _, v in kv]))
        if not pure:
            for t in leaves(r, self.pc):
                if t.op == 'call':
                    sig = (t.args[0], t.args[1], t.args[2], tuple(self.loopvars))
                    self.ncalls.setdefault(sig, [])
                    self.ncalls[sig] = self.ncalls[sig] + [TRUE]
        return r

    def construct(self, ct, args, kw):
        c = self.funcs[ct]
        if self.is_graph_cls(c):
            return self.M.new_graph_from(args, kw, c)
        mro = self.prog.mro(c)
        if any(isinstance(b, str) and b.split('.')[-1] in ('Exception', 'ValueError', 'KeyError', 'BaseException')
               for b in mro):
            return leaf(mk('exc', c.name))
        t = self.new('inst', c)
        init = self.prog.method(c, '__init__')
        if init:
            self.call_fn(init, [leaf(t)] + args, kw)
        else:
            fields = []
            for k in reversed(mro):
                if isinstance(k, Cls):
                    for n in k.anns:
                        if n not in fields:
                            fields.append(n)
            for n, v in zip(fields, args):
                self.setn(('a', t, n), v)
            for k, v in kw.items():
                self.setn(('a', t, k), v)
        return leaf(t)

    def lam_of(self, t):
        """a closure as a lambda term"""
        if t in self.lam_busy:
            return leaf(mk('lamrec'))
        self.lam_busy.append(t)
        fn, fr, dfl = self.closures[t]
        a = fn.node.args
        saved, pc0, nc, x0 = dict(self.store), self.pc, dict(self.ncalls), self.exit_guard()
        vs = [fresh('p') for _ in a.posonlyargs + a.args]
        try:
            self.pc = TRUE
            depth = len(self.frames)
            r = self.call_fn(fn, [leaf(v) for v in vs[:len(vs) - len(a.defaults)]] if a.defaults else [leaf(v) for v in vs],
                             {}, parent=fr, dfl=dfl)
            eff = self.store.get(('eff',), ()) != saved.get(('eff',), ()) or self.exit_guard() is not x0
            res = Snap(self, self.store).n(nobot(r)) if r is not BOT else opaque('closure')
        except Give as e:
            res, eff = self.unk('closure: %s' % e), False
        finally:
            self.lam_busy.pop()
            del self.frames[depth:]
            self.store, self.pc, self.ncalls = saved, pc0, nc
        if eff:
            return self.unk('closure with effects')
        for v in reversed(vs):
            res = leaf(lam(v, res))
        return res if vs else leaf(mk('thunk', as_t(res)))

    # ------------------------------------------------------------ snapshots
    def snap_v(self, v, ident=False):
        """value of v as a pure term (objects replaced by their content)"""
        sn = Snap(self, self.store, None, ident)
        if self.pc is not TRUE and self.pc is not FALSE:
            sn.pc = self.pc
        return sn.n(v)

    def snap_t(self, v):
        return self.snap_v(v)


# ---------------------------------------------------------------------- helpers
def _noargs():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())


_asg = {}


def assigned_names(fn):
    r = _asg.get(id(fn.node))
    if r is not None:
        return r
    out, glob = set(), set()
    if isinstance(fn.node.body, list):
        from vf.load import walk_own
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name.split('.')[0]) for a in n.names)
        # comprehension variables live in their own frame
        comp = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.comprehension):
                comp.update(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        plain = set()
        stores = {}
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        cst = {}
        for n in walk_own(fn.node):
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        cst[x.id] = cst.get(x.id, 0) + 1
        for k, c in cst.items():
            if stores.get(k, 0) <= c:
                out.discard(k)
    _asg[id(fn.node)] = out - glob
    return _asg[id(fn.node)]


def rooted_call(o):
    while o.op in ('attr', 'get', 'at'):
        o = o.args[0]
    return o.op == 'call'


def mem_n(x, o):
    return lift(lambda t: mem_t(t, o), x)


def get_n(o, k):
    return get_t(o, k)


def const_keys(dom):
    """constant keys of a finite dictionary, or None"""
    ks = []
    n = dom
    seen = 0
    while n.a is not None:
        a = n.a
        if a.op == 'eq' and KEY in a.args:
            k = a.args[1] if a.args[0] is KEY else a.args[0]
            if k.op == 'c' and n.hi is TRUE:
                ks.append(k)
                n = n.lo
                continue
        return None
    return ks if n is FALSE else None


def maybe_keys(dom):
    """the constant keys a finite dictionary may hold, each with its condition, or None"""
    ks = []

    def find(n):
        while n.a is not None:
            if n.a.op == 'eq' and KEY in n.a.args:
                k = n.a.args[1] if n.a.args[0] is KEY else n.a.args[0]
                if k.op == 'c' and isinstance(k.args[0], str) and k not in ks:
                    ks.append(k)
            find(n.hi)
            n = n.lo
    if len(atoms_of(dom)) > 12:
        return None
    find(dom)
    rest = dom
    for k in ks:
        rest = AND(rest, NOT(eq_t(KEY, k)))
    if rest is not FALSE:
        return None
    return [(k, as_n(subst(dom, {KEY: k}))) for k in ks]


def dict_collapse(content):
    dom, val = content
    d = dict_term(KEY, dom, val)
    bv = d.args[0]
    dm, vl = d.args[1], d.args[2]
    if dm.a is not None and dm.hi is TRUE and dm.lo is FALSE and dm.a.op == 'mem' and dm.a.args[0] is bv \
            and vl.a is None and vl.t.op == 'get' and vl.t.args[1] is bv and vl.t.args[0] is dm.a.args[1]:
        return dm.a.args[1]
    return d


def set_collapse(dom):
    d = set_term(KEY, dom)
    bv, dm = d.args
    if dm.a is not None and dm.hi is TRUE and dm.lo is FALSE and dm.a.op == 'mem' and dm.a.args[0] is bv \
            and dm.a.args[1].op in ('var', 'bv', 'foldv', 'while'):
        return dm.a.args[1]
    return d


def list_collapse(pieces):
    pieces = norm_pieces(pieces)
    if len(pieces) == 1:
        p = pieces[0]
        if p.op == 'splice':
            return p.args[0]
        if p.op == 'for' and p.args[1].op == 'idx':
            v, base, g, sub = open_for(p)
            if g is TRUE and len(sub) == 1 and sub[0].op == 'one' and sub[0].args[0] is TRUE:
                e = sub[0].args[1]
                if e.a is None and e.t.op == 'at' and e.t.args[1] is v and v not in e.t.args[0].fv \
                        and len_t(e.t.args[0]) is leaf(base.args[0]):
                    return e.t.args[0]
    return list_term(pieces)


def _fvs(x):
    if isinstance(x, (T, N)):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _fvs(y)
        return r
    return frozenset()


def _same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b


def _sub(x, env):
    if isinstance(x, N):
        return subst(x, env)
    if isinstance(x, tuple):
        if x and isinstance(x[0], T) and x[0].op in ('one', 'for', 'splice', 'nopiece'):
            out = ()
            for p in x:
                r = subst_any(p, env)
                if isinstance(r, N):
                    r = r.t if r.a is None else mk('opaque', 'piece', r.id)
                out += norm_pieces((r,))
            return out
        return tuple(_sub(y, env) for y in x)
    return subst_any(x, env)


def edges_of(y, x, seen=None):
    """the edges of the relation x asked for in y"""
    out, seen, todo = [], set(), [y]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += t
        elif isinstance(t, (T, N)) and x in t.fv and t.id not in seen:
            seen.add(t.id)
            if isinstance(t, N):
                todo += [t.t] if t.a is None else [t.a, t.hi, t.lo]
            else:
                if t.op == 'edge' and t.args[0] is x:
                    out.append(t)
                todo += t.args
    return out


def _suba(n, cv, old):
    """replace reads of the carried dictionary at the own key by the old content"""
    return as_n(subst(n, {mk('get', cv, KEY): nobot(old[1]), mk('mem', KEY, cv): old[0]}))


def _simp(x, c):
    if c is TRUE:
        return x
    if isinstance(x, N):
        return nobot(simp(x, c)) if c is not FALSE else x
    if isinstance(x, tuple):
        if x and isinstance(x[0], T):
            out = ()
            for p in x:
                if p.op == 'one':
                    out += (one(simp(p.args[0], c), p.args[1]),) if simp(p.args[0], c) is not FALSE else ()
                else:
                    out += (p,)
            return out
        return tuple(_simp(y, c) for y in x)
    return x


def _ite(cell, g, a, b):
    k = cell[0]
    if k in ('d', 'na'):
        return ite(g, a[0], b[0]), ite(g, a[1], b[1])
    if k in ('p', 'eff'):
        n = 0
        while n < min(len(a), len(b)) and a[n] is b[n]:
            n += 1
        return tuple(a[:n]) + guard_pieces(g, a[n:]) + guard_pieces(NOT(g), b[n:])
    return ite(g, a, b)


# -- fold and while terms: bodies are closed over the loop variable and the carried values
def mk_fold(v, base, g, cvs, inits, bodies, stop, sel):
    """sel: constant 0 (value of the first cell) or a guard (stop flag that fired)"""
    inits, cvs, bodies = cell_order(inits, cvs, bodies, isinstance(sel, N))
    parts = (as_n(g), as_n(stop)) + tuple(bodies) + ((sel,) if isinstance(sel, N) else ())
    h = core._meta(parts)[1]
    bvs = tuple(mk('bv', h + 1 + i) for i in range(len(cvs) + 1))
    env = dict(zip((v,) + tuple(cvs), bvs))
    parts = tuple(as_n(subst_any(p, env)) for p in parts)
    n = len(bodies)
    return mk('foldv', bvs, base, parts[0], parts[1], inits, parts[2:2 + n], parts[2 + n] if len(parts) > 2 + n else None)


def cell_order(inits, cvs, bodies, flag):
    """the carried values in an order of their own; the first one is the result unless it is a flag"""
    k = 0 if flag else 1
    rows = list(zip(inits, cvs, bodies))
    rows[k:] = sorted(rows[k:], key=lambda r: (core.sig(r[0]), core.sig(r[2])))
    return tuple(zip(*rows)) if rows else ((), (), ())


def mk_while(dowhile, tick, cvs, inits, bodies, cond, sel):
    inits, cvs, bodies = cell_order(inits, cvs, bodies, isinstance(sel, N))
    parts = (as_n(cond),) + tuple(as_n(b) for b in bodies) + ((sel,) if isinstance(sel, N) else ())
    h = core._meta(parts)[1]
    bvs = tuple(mk('bv', h + 1 + i) for i in range(len(cvs) + 1))
    env = dict(zip((tick,) + tuple(cvs), bvs))
    parts = tuple(as_n(subst_any(p, env)) for p in parts)
    n = len(bodies)
    return mk('while', dowhile if dowhile == 2 and dowhile is not True else bool(dowhile), bvs, parts[0], tuple(inits), parts[1:1 + n], parts[1 + n] if len(parts) > 1 + n else None)


def open_fold(t, fresh_vars=None):
    bvs, base, g, stop, inits, bodies, sel = t.args
    vs = fresh_vars or tuple(fresh('f') for _ in bvs)
    env = dict(zip(bvs, vs))
    s = lambda p: as_n(subst_any(p, env)) if p is not None else None
    return vs, base, s(g), s(stop), inits, tuple(s(b) for b in bodies), s(sel)


def open_while(t, fresh_vars=None):
    dw, bvs, cond, inits, bodies, sel = t.args
    vs = fresh_vars or tuple(fresh('f') for _ in bvs)
    env = dict(zip(bvs, vs))
    s = lambda p: as_n(subst_any(p, env)) if p is not None else None
    return dw, vs, s(cond), inits, tuple(s(b) for b in bodies), s(sel)


def write_out(rs, vs, g, stop, inits, bodies, sel):
    """the value of a loop with these elements"""
    vals = [as_n(x) for x in inits]
    live, hit = TRUE, FALSE
    for x in rs:
        env = dict(zip(vs, [x] + vals))
        gx = AND(live, as_n(subst_any(g, env)))
        st = as_n(subst_any(stop, env))
        if sel is not None:
            hit = OR(hit, AND(gx, as_n(subst_any(sel, env))))
        new = [as_n(subst_any(b, env)) for b in bodies]
        vals = [ite(gx, n, o) for n, o in zip(new, vals)]
        live = AND(live, NOT(AND(gx, st)))
    return hit if sel is not None else vals[0]


def _subst_fold(t, env):
    if t.op == 'foldv':
        vs, base, g, stop, inits, bodies, sel = core.open_once(t, env, open_fold)
        r = [subst_any(x, env) for x in (base, g, stop, inits, bodies)]
        sel2 = subst_any(sel, env) if sel is not None else const(0)
        b = r[0]
        b = b.t if isinstance(b, N) and b.a is None else (mk('idx', mk('opaque', 'guarded base', b.id)) if isinstance(b, N) else b)
        if as_n(r[1]) is FALSE or b.op == 'idx' and b.args[0] is const(0):
            # no rounds
            return FALSE if sel is not None else as_n(r[3][0])
        if coll.SMALL:
            rs = rounds(b, vs[0], as_n(r[1]))
            if rs is not None:
                return write_out(rs, vs, as_n(r[1]), as_n(r[2]), r[3], r[4], sel2 if isinstance(sel2, N) or sel is not None else None)
        return leaf(mk_fold(vs[0], b, as_n(r[1]), vs[1:], tuple(as_n(x) for x in r[3]), tuple(as_n(x) for x in r[4]),
                            as_n(r[2]), sel2))
    vs, dw, cond, inits, bodies, sel = core.open_once(t, env, lambda t: (lambda r: (r[1], r[0]) + r[2:])(open_while(t)))
    r = [subst_any(x, env) for x in (cond, inits, bodies)]
    sel2 = subst_any(sel, env) if sel is not None else const(0)
    return leaf(mk_while(dw, vs[0], vs[1:], tuple(as_n(x) for x in r[1]), tuple(as_n(x) for x in r[2]), as_n(r[0]), sel2))


core.SPECIAL_SUBST = {'foldv': _subst_fold, 'while': _subst_fold}


def pick(v, base, g, last):
    b = base if isinstance(base, T) else base.t
    rs = rounds(b, v, as_n(g)) if b.op in ('idx', 'U') else None
    if rs is None:
        return None
    out = BOT
    for x in (rs if last else reversed(rs)):
        out = ite(as_n(subst_any(as_n(g), {v: x})), leaf(x), out)
    return out


@binder('first')
def _first(v, base, g):
    if coll.SMALL:
        r = pick(v, base, g, False)
        if r is not None:
            return r
    bv, (b,) = close(v, as_n(g))
    return leaf(mk('first', bv, base if isinstance(base, T) else base.t, b))


@binder('last')
def _last(v, base, g):
    if coll.SMALL:
        r = pick(v, base, g, True)
        if r is not None:
            return r
    bv, (b,) = close(v, as_n(g))
    return leaf(mk('last', bv, base if isinstance(base, T) else base.t, b))


REFOPS = {'attr', 'get', 'at', 'mem', 'len', 'loci', 'nattr', 'nattrs', 'edge', 'reach', 'order', 'keysof', 'truthy',
          'isnone', 'isinst', 'frozen', 'isnan', 'isinf', 'pos', 'eq', 'raises', 'sum', 'ex'}


class Snap:
    """replace object identities by their content"""
    def __init__(self, ip, store, only=None, ident=False):
        self.ip, self.store, self.only, self.ident = ip, store, only, ident
        self.memo = {}
        self.path = []
        self.pc = None

    def content(self, cell, c):
        k = cell[0]
        if k in ('l', 'a', 'r', 'tv'):
            return self.n(c) if isinstance(c, N) else c
        if k in ('d', 'na'):
            return (self.n(c[0]), self.n(c[1]))
        if k in ('p', 'eff'):
            return self.pieces(c)
        return self.n(c)

    def pieces(self, ps):
        return tuple(self.piece(p) for p in ps)

    def piece(self, p):
        if p.op == 'one':
            return one(self.n(p.args[0]), self.n(p.args[1]))
        if p.op == 'for':
            return mk('for', p.args[0], p.args[1], self.n(p.args[2]), self.pieces(p.args[3]))
        return p

    def has(self, x):
        """mentions an object at all?"""
        if isinstance(x, N):
            k = ('h', x.id)
            r = self.memo.get(k)
            if r is None:
                r = self.has(x.t) if x.a is None else (self.has(x.a) or self.has(x.hi) or self.has(x.lo))
                self.memo[k] = r
            return r
        if isinstance(x, T):
            k = ('h', x.id)
            r = self.memo.get(k)
            if r is None:
                if x.op == 'new':
                    r = self.only is None or x in self.only
                elif x.op == 'clos':
                    r = True
                elif self.only is not None and x in self.only:
                    r = True
                else:
                    r = False
                    if self.only is None and self.touched(x):
                        r = True
                    r = r or any(self.has(a) for a in x.args)
                self.memo[k] = r
            return r
        if isinstance(x, tuple):
            return any(self.has(y) for y in x)
        return False

    def has_new(self, x):
        if isinstance(x, N):
            k = ('w', x.id)
            r = self.memo.get(k)
            if r is None:
                r = self.has_new(x.t) if x.a is None else any(self.has_new(y) for y in (x.a, x.hi, x.lo))
                self.memo[k] = r
            return r
        if isinstance(x, T):
            k = ('w', x.id)
            r = self.memo.get(k)
            if r is None:
                r = x.op in ('new', 'clos') or any(self.has_new(a) for a in x.args)
                self.memo[k] = r
            return r
        if isinstance(x, tuple):
            return any(self.has_new(y) for y in x)
        return False

    _tidx = None

    def touched(self, t):
        if self._tidx is None:
            self._tidx = {}
            for c in self.store:
                if c[0] in ('a', 'd', 's', 'p', 'g', 'e', 'na', 'fz') and isinstance(c[1], T) and c[1].op != 'new' \
                        and (c[0] != 'fz' or coll.made(c[1])):
                    self._tidx.setdefault(c[1], []).append(c)
            # what an object holds in its attributes is part of the object
            todo = list(self._tidx)
            while todo:
                x = todo.pop()
                if x.op != 'attr' or not isinstance(x.args[0], T) or x.args[0].op == 'new':
                    continue
                o, nm = x.args[0], x.args[1]
                c = ('held', o, nm, x)
                if ('a', o, nm) in self.store:
                    continue
                L = self._tidx.get(o)
                if L is None:
                    L = self._tidx[o] = []
                    todo.append(o)
                if c not in L:
                    L.append(c)
        return t in self._tidx

    def n(self, v):
        if not self.has(v):
            return v
        r = self.memo.get(v.id)
        if r is not None:
            return r
        if v.a is None:
            r = self.t(v.t)
        else:
            r = ite(self.guard(v.a), self.n(v.hi), self.n(v.lo))
        self.memo[v.id] = r
        return r

    def guard(self, a):
        if not self.has(a):
            return atom(a)
        return self.t(a)

    def t(self, t):
        if not self.has(t):
            return leaf(t)
        if t.op == 'new':
            if self.only is not None and t not in self.only:
                return leaf(t)
            return leaf(self.obj(t))
        if (self.only is None or t in self.only) and self.touched(t):
            return leaf(self.modified(t))
        if t.op == 'modv' and isinstance(t.args[0], T) and t.args[0].op != 'new' and not any(self.has_new(a) for a in t.args[2]):
            # a snapshot: the object as it was at the time
            return leaf(t)
        if t.op in REFOPS and not self.has_new(t):
            # says something about the content of its arguments at the time it was read
            return leaf(t)
        if t.op in ('bm', 'clos', 'func', 'cls', 'ext'):
            if t.op == 'bm':
                x = self.t(t.args[0])
                return leaf(mk('bm', as_t(x), t.args[1]))
            if t.op == 'clos':
                return self.ip.lam_of(t)
            return leaf(t)
        if t.op in BODY:
            return build(t.op, *[self.b(a) for a in t.args])
        # hoist
        flat = []

        def collect(a):
            if isinstance(a, T):
                flat.append(self.t(a))
                return ('#', len(flat) - 1)
            if isinstance(a, N):
                flat.append(self.n(a))
                return ('#', len(flat) - 1)
            if isinstance(a, tuple):
                return ('t', [collect(z) for z in a])
            return ('r', a)
        shape = [collect(a) for a in t.args]

        def fill(s, vals):
            return vals[s[1]] if s[0] == '#' else tuple(fill(z, vals) for z in s[1]) if s[0] == 't' else s[1]
        return lift(lambda *vals: build(t.op, *[fill(s, vals) for s in shape]), *flat)

    def b(self, a):
        if isinstance(a, N):
            return self.n(a)
        if isinstance(a, T):
            if a.op in ('one', 'for'):
                return self.piece(a)
            r = self.t(a)
            return r.t if r.a is None else r
        if isinstance(a, tuple):
            return tuple(self.b(z) for z in a)
        return a

    def obj(self, t):
        if t in self.path:
            return mk('backref', len(self.path) - self.path.index(t))
        self.path.append(t)
        try:
            r = self._obj(t)
        finally:
            self.path.pop()
        return mk('fresh', r) if self.ident else r

    def _obj(self, t):
        k = self.ip.kind.get(t)
        st = self.store
        if k == 'dict':
            dom, val = st.get(('d', t), (FALSE, BOT))
            return self.coll(dict_collapse((self.n(dom), self.n(val))), t)
        if k == 'set':
            return set_term(KEY, self.n(st.get(('s', t), FALSE)))
        if k in ('list', 'arr'):
            ps = self.pieces(st.get(('p', t), ()))
            return list_collapse(ps)
        if k == 'graph':
            nodes, edges = st.get(('g', t), FALSE), st.get(('e', t), FALSE)
            nm, vals = [], []
            for c in sorted((c for c in st if c[0] == 'na' and c[1] is t), key=lambda c: c[2]):
                d, v = st[c]
                nm.append(c[2])
                vals.append(dict_collapse((self.n(d), self.n(v))))
            fz = st.get(('fz', t), FALSE)
            c = self.ip.objcls.get(t)
            if isinstance(c, Cls):
                ct = mk('cls', c.qual)
                self.ip.funcs[ct] = c
            else:
                ct = const(None)
            return mk('graphv', lam(KEY, self.n(nodes)), rel_term(self.n(edges)), tuple(nm), tuple(vals), ct,
                      *(() if fz is FALSE else (as_n(self.n(fz)),)))
        if k == 'inst':
            c = self.ip.objcls.get(t)
            names, vals = [], []
            for cell in sorted((c for c in st if c[0] == 'a' and c[1] is t), key=lambda c: c[2]):
                if st[cell] is UNDEF:
                    continue
                names.append(cell[2])
                vals.append(self.n(st[cell]))
            ct = mk('cls', c.qual)
            self.ip.funcs[ct] = c
            return mk('instv', ct, tuple(names), tuple(vals))
        return t

    def coll(self, x, t):
        return x

    def modified(self, t):
        """an input object with changed content"""
        if t in self.path:
            return mk('backref', len(self.path) - self.path.index(t))
        self.path.append(t)
        try:
            ch = []
            for cell in sorted(self._tidx[t], key=lambda c: (c[0], str(c[2:]))):
                if cell[0] == 'held':
                    ini, cur = leaf(cell[3]), self.t(cell[3])
                else:
                    cur = self.store[cell]
                    if self.pc is not None:
                        cur = _simp(cur, self.pc)
                    ini = self.ip.initial(cell)
                if _same(cur, ini):
                    continue
                if cell[0] == 'd':
                    return dict_collapse((self.n(cur[0]), self.n(cur[1])))
                if cell[0] == 's':
                    return set_term(KEY, self.n(cur))
                if cell[0] == 'p':
                    return list_collapse(self.pieces(cur))
                ch.append((cell, cur))
            if not ch:
                return t
            if any(c[0] in ('g', 'e', 'na') or c[0] == 'fz' and coll.made(t) for c, _ in ch):
                nodes = self.store.get(('g', t), self.ip.initial(('g', t)))
                edges = self.store.get(('e', t), self.ip.initial(('e', t)))
                if self.pc is not None:
                    nodes, edges = _simp(nodes, self.pc), _simp(edges, self.pc)
                nm, vals = [], []
                for c, cur in ch:
                    if c[0] == 'na':
                        nm.append(c[2])
                        vals.append(dict_collapse((self.n(cur[0]), self.n(cur[1]))))
                org = (t,)
                if coll.made(t):    # a graph made here and given by value: nothing else to it
                    org = t.args[4:5] or (const(None),)
                    fz = self.store.get(('fz', t), self.ip.initial(('fz', t)))
                    if fz is not FALSE:
                        org += (as_n(self.n(fz)),)
                    at = dict(zip(t.args[2], t.args[3]))
                    at.update(zip(nm, vals))
                    nm = sorted(at)
                    vals = [at[k] for k in nm]
                return mk('graphv', lam(KEY, self.n(nodes)), rel_term(self.n(edges)), tuple(nm), tuple(vals), *org)
            if t.op == 'instv' and all(c[0] == 'a' and cur is not UNDEF for c, cur in ch):
                at = dict(zip(t.args[1], t.args[2]))
                at.update((c[2], self.n(v)) for c, v in ch)
                nm = sorted(at)
                return mk('instv', t.args[0], tuple(nm), tuple(at[k] for k in nm))
            return mk('modv', t, tuple(c[2] for c, _ in ch), tuple(self.n(v) for _, v in ch))
        finally:
            self.path.pop()
