"""Hash-consed terms and guarded values.

A *term* (T) is an immutable, interned expression.  A *guarded value* (N) is a
multi-terminal binary decision diagram: inner nodes test boolean atoms (terms),
leaves are terms.  Booleans are the diagrams whose leaves are True / False.
Everything the analysis computes is one of the two.
"""
from fractions import Fraction
import itertools
import math
import zlib


class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'h', 'opq')

    def __repr__(self):
        from vf.show import show
        return show(self)


class N:
    __slots__ = ('a', 'hi', 'lo', 't', 'id', 'fv', 'h', 'opq')

    def __repr__(self):
        from vf.show import show
        return show(self)


_terms = {}
_nodes = {}
_ids = itertools.count(1)
EMPTY = frozenset()


class Blowup(Exception):
    pass


LIMIT = 400000


def _meta(args):
    fv, h, opq = EMPTY, 0, False
    for a in args:
        if isinstance(a, (T, N)):
            if a.fv:
                fv = fv | a.fv
            if a.h > h:
                h = a.h
            opq = opq or a.opq
        elif isinstance(a, tuple):
            f2, h2, o2 = _meta(a)
            fv = fv | f2
            h = max(h, h2)
            opq = opq or o2
    return fv, h, opq


def _key(a):
    # 1, 1.0 and True must stay distinct constants
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, (bool, int, float, complex)):
        return (type(a).__name__, repr(a))
    return a


def mk(op, *args):
    k = (op, _key(args))
    t = _terms.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, next(_ids)
        if len(_terms) > LIMIT:
            raise Blowup('too many terms')
        fv, h, opq = _meta(args)
        if op == 'var':
            fv = frozenset([t])
        elif op == 'bv':
            h = max(h, args[0])
        elif op == 'opaque':
            opq = True
        t.fv, t.h, t.opq = fv, h, opq
        _terms[k] = t
    return t


def known(op, *args):
    return (op, _key(args)) in _terms


def const(v):
    return mk('c', v)


BOOLOPS = {'acyclic', 'anyof', 'callable', 'edge', 'eq', 'ex', 'frozen', 'hasattr', 'inidx', 'is', 'isinf', 'isinst',
           'isnan', 'isnone', 'mem', 'pos', 'raises', 'reach', 'truthy'}


def leaf(t):
    if t.op in BOOLOPS:
        return node(t, TRUE, FALSE)
    k = ('L', t.id)
    n = _nodes.get(k)
    if n is None:
        n = N()
        n.a = n.hi = n.lo = None
        n.t = t
        n.id = next(_ids)
        n.fv, n.h, n.opq = t.fv, t.h, t.opq
        _nodes[k] = n
    return n


_tests = {}         # what is asked of -> the isinstance tests seen of it
PLAIN = {'builtins.' + x for x in ('str', 'list', 'dict', 'set', 'tuple', 'float', 'int', 'bytes', 'frozenset')}


PURE = set()        # classes of the repository that neither they nor their subclasses are built-in containers or values


def apart(a, b):
    """classes no value is an instance of both of"""
    if a in PURE and b in PLAIN or b in PURE and a in PLAIN:
        return True
    if a in PLAIN and b in PLAIN:
        return a != b
    if isinstance(a, str) and isinstance(b, str) and a.startswith('ast.') and b.startswith('ast.'):
        return a != b and all(x[4:5].isupper() and x[4:] not in ('AST', 'Num', 'Str', 'Bytes', 'NameConstant', 'Constant')
                              for x in (a, b))
    return False


def node(a, hi, lo):
    if hi is lo:
        return hi
    if a.op == 'isinst':
        seen = _tests.setdefault(a.args[0].id, [])
        if a not in seen:
            seen.append(a)
        for b in seen:
            if hi.a is not None and b is not a and apart(a.args[1], b.args[1]):
                hi = cofactor(hi, b, False)
        if hi is lo:
            return hi
    k = (a.id, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = N()
        n.a, n.hi, n.lo, n.t = a, hi, lo, None
        n.id = next(_ids)
        if len(_nodes) > LIMIT:
            raise Blowup('too many nodes')
        n.fv = a.fv | hi.fv | lo.fv
        n.h = max(a.h, hi.h, lo.h)
        n.opq = a.opq or hi.opq or lo.opq
        _nodes[k] = n
    return n


def C(v):
    return leaf(const(v))


TRUE, FALSE, NONE = C(True), C(False), C(None)
BOT = leaf(mk('bot'))
UNDEF = leaf(mk('undef'))

_ite = {}


def cof(n, a, b):
    if n.a is a:
        return n.hi if b else n.lo
    return n


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    if f.a is None:
        # a non boolean leaf was used as a guard: opaque condition
        f2 = atom(mk('truthy', f.t)) if f.t.op != 'bot' else None
        r = h if f2 is None else ite(f2, g, h)
        _ite[k] = r
        return r
    a = f.a
    for x in (g, h):
        if x.a is not None and x.a.id < a.id:
            a = x.a
    r = node(a, ite(cof(f, a, 1), cof(g, a, 1), cof(h, a, 1)),
             ite(cof(f, a, 0), cof(g, a, 0), cof(h, a, 0)))
    _ite[k] = r
    return r


def NOT(f):
    return ite(f, FALSE, TRUE)


def AND(*fs):
    r = TRUE
    for f in fs:
        r = ite(r, f, FALSE)
    return r


def OR(*fs):
    r = FALSE
    for f in fs:
        r = ite(r, TRUE, f)
    return r


def atom(t):
    return node(t, TRUE, FALSE)


def lift(fn, *vs, pc=TRUE):
    """Apply fn (terms -> N) to all leaf combinations, outside of pc: don't care"""
    memo = {}

    def rec(pc, vs):
        if pc is FALSE:
            return BOT
        k = (pc.id,) + tuple(v.id for v in vs)
        r = memo.get(k)
        if r is not None:
            return r
        a = None
        for v in vs:
            if v.a is not None and (a is None or v.a.id < a.id):
                a = v.a
        if a is None:
            for v in vs:
                if v is BOT:
                    return BOT
            r = fn(*[v.t for v in vs])
        else:
            while pc.a is not None and pc.a.id < a.id:
                pc = OR(pc.hi, pc.lo)
            hi = rec(cof(pc, a, 1), [cof(v, a, 1) for v in vs])
            lo = rec(cof(pc, a, 0), [cof(v, a, 0) for v in vs])
            if hi is BOT:
                r = lo
            elif lo is BOT:
                r = hi
            else:
                r = ite(atom(a), hi, lo)
        memo[k] = r
        return r

    return rec(pc, list(vs))


_simp = {}


def simp(v, c):
    """restrict: simplify v where c is the care set"""
    if v.a is None or c is TRUE:
        return v
    if c is FALSE:
        return BOT
    k = (v.id, c.id)
    r = _simp.get(k)
    if r is not None:
        return r
    if c.a is None:
        return v
    if c.a.id < v.a.id:
        r = simp(v, OR(c.hi, c.lo))
    elif v.a.id < c.a.id:
        r = node(v.a, simp(v.hi, c), simp(v.lo, c))
    elif c.hi is FALSE:
        r = simp(v.lo, c.lo)
    elif c.lo is FALSE:
        r = simp(v.hi, c.hi)
    else:
        r = node(v.a, simp(v.hi, c.hi), simp(v.lo, c.lo))
    _simp[k] = r
    return r


def nobot(v):
    """Collapse branches that are don't care"""
    memo = {}

    def rec(n):
        if n.a is None:
            return n
        r = memo.get(n.id)
        if r is None:
            hi, lo = rec(n.hi), rec(n.lo)
            r = lo if hi is BOT else hi if lo is BOT else node(n.a, hi, lo)
            memo[n.id] = r
        return r
    return rec(v)


def leaves(v, pc=TRUE):
    """{leaf term: guard}"""
    out = {}

    def rec(n, g):
        if g is FALSE:
            return
        if n.a is None:
            out[n.t] = OR(out.get(n.t, FALSE), g)
            return
        at = atom(n.a)
        rec(n.hi, AND(g, at))
        rec(n.lo, AND(g, NOT(at)))
    rec(v, pc)
    return out


def atoms_of(v, acc=None):
    acc = {} if acc is None else acc
    seen = set()

    def rec(n):
        if n.a is None or n.id in seen:
            return
        seen.add(n.id)
        acc[n.a] = True
        rec(n.hi)
        rec(n.lo)
    rec(v)
    return list(acc)


def cofactor(v, a, b):
    """v with atom a fixed to b (a anywhere in the order)"""
    memo = {}

    def rec(n):
        if n.a is None or n.a.id > a.id:
            return n
        if n.a is a:
            return n.hi if b else n.lo
        r = memo.get(n.id)
        if r is None:
            r = node(n.a, rec(n.hi), rec(n.lo))
            memo[n.id] = r
        return r
    return rec(v)


_vars = itertools.count(1)


def fresh(hint='x'):
    return mk('var', '%s#%d' % (hint, next(_vars)))


KEY = mk('var', 'K')
KEY2 = mk('var', 'K2')

# ------------------------------------------------------------------ substitution
BUILD = {}     # op -> smart constructor (term/const args) -> N


def builder(*ops):
    def deco(f):
        for o in ops:
            BUILD[o] = f
        return f
    return deco


def build(op, *args):
    """args: terms or plain data -> N"""
    f = BUILD.get(op)
    if f:
        return f(*args)
    return leaf(mk(op, *args))


# ops whose N arguments are bodies (guards stay inside, not hoisted)
BINDER = {}    # op -> constructor(var, *parts) -> N   (args[0] is the bound variable)
BODY = {'dictv', 'setv', 'listv', 'one', 'for', 'ex', 'sum', 'prod', 'fold', 'foldv', 'while', 'first', 'last',
        'instv', 'graphv', 'lam', 'effs', 'dictat', 'modv', 'extr', 'dowhile', 'reach', 'kv', 'clos', 'seqwhile',
        'order', 'paths', 'tup', 'multi', 'inlinep'}


RESET = []
_occ = {}
RESET.append(lambda: _occ.clear())


def occurs_term(x, y):
    """does the term x occur inside y"""
    if x is y:
        return True
    if isinstance(y, (T, N)):
        k = (x.id, y.id)
        r = _occ.get(k)
        if r is None:
            if isinstance(y, N):
                r = occurs_term(x, y.t) if y.a is None else any(occurs_term(x, z) for z in (y.a, y.hi, y.lo))
            else:
                r = any(occurs_term(x, z) for z in y.args)
            _occ[k] = r
        return r
    if isinstance(y, tuple):
        return any(occurs_term(x, z) for z in y)
    return False


_smemo = {}
_open = {}
RESET.append(lambda: (_smemo.clear(), _open.clear(), _tests.clear()))


def open_once(t, env, opener=None):
    """the binder t with its variables replaced by free ones: always the same ones for the same
    term, unless what is about to be substituted mentions them"""
    r = _open.get(t.id)
    if r is None:
        if opener:
            r = opener(t)
        else:
            v = fresh('o')
            r = v, subst_any(t.args[1:], {t.args[0]: v})
        _open[t.id] = r
    vs = r[0] if isinstance(r[0], tuple) else (r[0],)
    if any(v in x.fv for x in env.values() for v in vs) or any(v in env for v in vs):
        if opener:
            return opener(t)
        v = fresh()
        return v, subst_any(t.args[1:], {t.args[0]: v})
    return r


def subst(x, env):
    """Substitute terms by terms / guarded values in a term or guarded value; returns N"""
    ek = tuple(sorted([(k.id, v.id, isinstance(v, T)) for k, v in env.items()])) if len(env) > 1 else \
        next(((k.id, v.id, isinstance(v, T)) for k, v in env.items()), ())
    memo = _smemo.get(ek)
    if memo is None:
        if len(_smemo) > 3000:
            _smemo.clear()
        memo = _smemo[ek] = {}
    keyvars = frozenset(k for k in env if k.op in ('var',))
    all_var = all(k.op == 'var' for k in env)
    bvmode = all(k.op == 'bv' for k in env)
    keys = list(env)
    wild = {k.args[0]: v for k, v in env.items() if k.op == 'wild'}
    minh = min((k.args[0] for k in env if k.op == 'bv'), default=None)

    def need(y):
        if all_var:
            return bool(y.fv & keyvars)
        if bvmode:
            return y.h >= minh
        return wild or any(occurs_term(k, y) for k in keys)

    def rn(n):
        if not need(n):
            return n
        r = memo.get(('n', n.id))
        if r is not None:
            return r
        if n.a is None:
            r = rt(n.t)
        else:
            r = ite(rt(n.a), rn(n.hi), rn(n.lo))
        memo[('n', n.id)] = r
        return r

    def body(a):
        """argument of a BODY term: keeps shape"""
        if isinstance(a, N):
            return rn(a)
        if isinstance(a, T):
            if not need(a):
                return a
            r = rt(a)
            if r.a is None:
                return r.t
            return r           # guarded where a plain term stood: keep as N
        if isinstance(a, tuple):
            return tuple(body(z) for z in a)
        return a

    def rt(t):
        """-> N"""
        if not need(t):
            return leaf(t)
        r = memo.get(('t', t.id))
        if r is not None:
            return r
        if t in env:
            r = env[t]
            r = leaf(r) if isinstance(r, T) else r
        elif wild and t.op == 'raises' and t.args[1] in wild:
            r = wild[t.args[1]]
        elif t.op in SPECIAL_SUBST:
            r = SPECIAL_SUBST[t.op](t, env)
        elif t.op in BINDER:
            v, parts = open_once(t, env)
            r = BINDER[t.op](v, *[subst_any(p, env) for p in parts])
        elif t.op in BODY:
            r = build(t.op, *[body(a) for a in t.args])
        elif t.op in ('var', 'c', 'in', 'bv'):
            r = leaf(t)
        else:
            # hoist guards out of the arguments
            flat = []

            def collect(a):
                if isinstance(a, T):
                    flat.append(rt(a))
                    return ('#', len(flat) - 1)
                if isinstance(a, N):
                    flat.append(rn(a))
                    return ('#', len(flat) - 1)
                if isinstance(a, tuple):
                    return ('tup', [collect(z) for z in a])
                return ('raw', a)
            shape = [collect(a) for a in t.args]

            def fill(s, vals):
                if s[0] == '#':
                    return vals[s[1]]
                if s[0] == 'tup':
                    return tuple(fill(z, vals) for z in s[1])
                return s[1]
            r = lift(lambda *vals: build(t.op, *[fill(s, vals) for s in shape]), *flat)
        memo[('t', t.id)] = r
        return r

    return rn(x) if isinstance(x, N) else rt(x)


def subst_any(x, env):
    """subst through tuples of terms/nodes, keeping T as T where possible"""
    if isinstance(x, N):
        return subst(x, env)
    if isinstance(x, T):
        r = subst(x, env)
        return r.t if r.a is None else r
    if isinstance(x, tuple):
        return tuple(subst_any(z, env) for z in x)
    return x


def close(var, *parts):
    """Bind var in parts: returns (bv, parts')"""
    h = 0
    for p in parts:
        _, h2, _ = _meta((p,))
        h = max(h, h2)
    bv = mk('bv', h + 1)
    env = {var: bv}
    return bv, tuple(subst_any(p, env) for p in parts)


def occurs(var, x):
    if isinstance(x, (T, N)):
        return var in x.fv
    if isinstance(x, tuple):
        return any(occurs(var, y) for y in x)
    return False


# ------------------------------------------------------------------ arithmetic
INF = const(float('inf'))
NINF = const(float('-inf'))
NAN = const(float('nan'))


def isnum(t):
    return t.op == 'c' and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool)


def fin(v):
    return not (isinstance(v, float) and (math.isinf(v) or math.isnan(v)))


def frac(v):
    if isinstance(v, float):
        return Fraction(repr(v))
    return Fraction(v)


def numc(f):
    """constant term from Fraction"""
    if f.denominator == 1:
        return const(int(f))
    return const(f)


def to_poly(t):
    """term -> {mono: coef}; mono: tuple of (factor, exponent)"""
    if t.op == 'c' and isinstance(t.args[0], (int, float, Fraction)):
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if fin(v):
            f = frac(v)
            return {(): f} if f else {}
        if isinstance(v, float) and v == float('-inf'):
            return {((INF, Fraction(1)),): Fraction(-1)}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return numc(c)
        if len(m) == 1 and m[0][1] == 1:
            if c == 1:
                return m[0][0]
            if m[0][0] is INF and c < 0:
                return NINF
            if m[0][0] is INF:
                return INF
    return mk('poly', *sorted(p.items(), key=lambda mc: (tuple((f.id, e) for f, e in mc[0]), mc[1])))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def mono_mul(m1, m2):
    d = {}
    for f, e in m1 + m2:
        d[f] = d.get(f, 0) + e
    ex = [(f, e) for f, e in d.items() if f.op == 'exp' and e]
    if len(ex) > 1 or (len(ex) == 1 and ex[0][1] != 1):
        s = {}
        for f, e in ex:
            s = padd(s, to_poly(f.args[0]), e)
            del d[f]
        a = from_poly(s)
        if not (a.op == 'c' and a.args[0] == 0):
            d[mk('exp', a)] = Fraction(1)
    return tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda fe: fe[0].id))


def pmul(p, q):
    if len(p) * len(q) > 64:
        return {mono_mul(((from_poly(p), Fraction(1)),), ((from_poly(q), Fraction(1)),)): Fraction(1)}
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            # expand positive integer powers of sums
            r[m] = r.get(m, 0) + c1 * c2
            if not r[m]:
                del r[m]
    return r


def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {mono_mul(tuple((f, -e) for f, e in m), ()): 1 / c}
    # normalise by leading coefficient
    lead = sorted(p.items(), key=lambda mc: tuple((f.id, e) for f, e in mc[0]))[0][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return {((q, Fraction(-1)),): 1 / lead}


def ppow(p, e):
    if e == 0:
        return {(): Fraction(1)}
    if e.denominator == 1 and 0 < e <= 4:
        r = {(): Fraction(1)}
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 or e.denominator == 1:
            return {mono_mul(tuple((f, k * e) for f, k in m), ()): c ** int(e) if e.denominator == 1 else Fraction(1)}
        return {mono_mul(tuple((f, k * e) for f, k in m) + ((numc(c), e),), ()): Fraction(1)}
    if e.denominator == 1 and e < 0:
        return pinv(ppow(p, -e))
    return {((from_poly(p), e),): Fraction(1)}


def t_add(a, b):
    return from_poly(padd(to_poly(a), to_poly(b)))


def t_sub(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def t_mul(a, b):
    return from_poly(pmul(to_poly(a), to_poly(b)))


def t_div(a, b):
    p, q = to_poly(a), to_poly(b)
    if not q:
        return mk('div0', a)
    if len(q) > 1 and len(p) == len(q):
        # proportional?
        r = None
        for m, c in q.items():
            if m not in p:
                r = None
                break
            k = p[m] / c
            if r is None:
                r = k
            elif r != k:
                r = None
                break
        if r is not None:
            return numc(r)
    return from_poly(pmul(p, pinv(q)))


def t_pow(a, b):
    if isnum(b) and fin(b.args[0]):
        e = frac(b.args[0])
        if e.denominator <= 12:
            p = to_poly(a)
            if not p:
                return const(0) if e > 0 else mk('pow', a, b)
            return from_poly(ppow(p, e))
    return mk('pow', a, b)


def t_exp(a):
    if isnum(a) and a.args[0] == 0:
        return const(1)
    if a.op == 'log':
        return a.args[0]
    p = to_poly(a)
    # exp(k*log x) -> x^k
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log':
            return t_pow(m[0][0].args[0], numc(c))
    if a is NINF:
        return const(0)
    return mk('exp', a)


def t_log(a):
    if isnum(a) and a.args[0] == 1:
        return const(0)
    if a.op == 'exp':
        return a.args[0]
    return mk('log', a)


def t_abs(a):
    if isnum(a):
        return const(abs(a.args[0]))
    p = to_poly(a)
    lead = sorted(p.items(), key=lambda mc: tuple((f.id, e) for f, e in mc[0]))
    if lead and lead[0][1] < 0:
        a = from_poly({m: -c for m, c in p.items()})
    if a in (INF, NINF):
        return INF
    return mk('abs', a)


STR = {'strcat', 'fmt', 'join', 'str', 'strm', 'repr'}


def isstr(t):
    return (t.op == 'c' and isinstance(t.args[0], str)) or t.op in STR


def pos(t):
    """atom t > 0"""
    if isnum(t):
        return C(bool(t.args[0] > 0))
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][0].op in ('len', 'abs') and c < 0:
            return FALSE
        if len(m) == 1 and m[0][0].op == 'len' and m[0][1] == 1:
            x = m[0][0].args[0]
            if x.op == 'slice' and isnum(x.args[1]) and x.args[1].args[0] > 0 and x.args[2:] == (const(None),) * 2:
                # a tail is empty unless the whole is longer than what is left out
                r = BUILD['truthy'](x)
                return r if r.a is None or r.a.op != 'truthy' else pos(t_sub(mk('len', x.args[0]), x.args[1]))
            return BUILD['truthy'](x)
        if len(m) == 1 and m[0][0] is INF:
            return C(c > 0)
    # integers: len(x) - 1 >= 0 style comparisons are left to the axioms
    infs = [c for m, c in p.items() if any(f is INF for f, _ in m)]
    if infs:
        rest = {m: c for m, c in p.items() if not any(f is INF for f, _ in m)}
        if all(m == () for m in rest):
            return C(infs[0] > 0)
    lead = sorted(p.items(), key=lambda mc: tuple((f.id, e) for f, e in mc[0]))[-1][1]
    k = abs(lead)
    return atom(mk('pos', from_poly({m: c / k for m, c in p.items()})))


def lt(a, b):
    return pos(t_sub(b, a))


@builder('pos')
def _b_pos(t):
    return pos(t)


@builder('poly')
def _b_poly(*mcs):
    r = {}
    for m, c in mcs:
        p = {(): c}
        for f, e in m:
            q = to_poly(f)
            if not q and e < 0:
                return leaf(mk('opaque', 'division by zero'))
            p = pmul(p, ppow(q, Fraction(e)))
        r = padd(r, p)
    return leaf(from_poly(r))


@builder('exp')
def _b_exp(a):
    return leaf(t_exp(a))


@builder('log')
def _b_log(a):
    return leaf(t_log(a))


@builder('abs')
def _b_abs(a):
    return leaf(t_abs(a))


@builder('pow')
def _b_pow(a, b):
    return leaf(t_pow(a, b))


_opq = itertools.count(1)


def opaque(why):
    return leaf(mk('opaque', why, next(_opq)))


# terms with several bound variables bring their own substitution
SPECIAL_SUBST = {}

_sig = {}


def sig(x):
    """a number that depends on the structure of x only, not on names of bound variables or the order of creation"""
    if isinstance(x, T):
        r = _sig.get(x.id)
        if r is None:
            if x.op in ('var', 'bv', 'new'):
                r = zlib.crc32(x.op.encode())
            elif x.op == 'c':
                r = zlib.crc32(repr(x.args[0]).encode())
            else:
                r = zlib.crc32(repr((x.op,) + tuple(sig(a) for a in x.args)).encode())
            _sig[x.id] = r
        return r
    if isinstance(x, N):
        if x.a is None:
            return sig(x.t)
        k = ('n', x.id)
        r = _sig.get(k)
        if r is None:
            r = zlib.crc32(repr((sorted({sig(a) for a in atoms_of(x)}), sorted({sig(t) for t in leaves(x)}))).encode())
            _sig[k] = r
        return r
    if isinstance(x, (tuple, list)):
        return zlib.crc32(repr([sig(a) for a in x]).encode())
    if isinstance(x, (frozenset, set)):
        return zlib.crc32(repr(sorted(sig(a) for a in x)).encode())
    if isinstance(x, (str, int, float, bool)) or x is None:
        return zlib.crc32(repr(x).encode())
    return zlib.crc32(type(x).__name__.encode())


_base = []


def reset():
    """forget every term that is not part of the base vocabulary (between obligations)"""
    if not _base:
        _base.append((dict(_terms), dict(_nodes)))
    _terms.clear()
    _nodes.clear()
    _terms.update(_base[0][0])
    _nodes.update(_base[0][1])
    _ite.clear()
    _simp.clear()
    _sig.clear()
    for f in RESET:
        f()


