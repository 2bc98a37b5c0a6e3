"""Collections, quantifiers and relations as terms (characteristic functions)."""
from fractions import Fraction
from vf.core import *
from vf import core


def binder(op):
    def deco(f):
        BINDER[op] = f
        return f
    return deco


def as_n(x):
    return leaf(x) if isinstance(x, T) else x


# ------------------------------------------------------------------ equality
GROUND = ('c', 'cls', 'func', 'ext', 'new', 'tup')


def eq_t(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        if x is None or y is None:
            return C(x is y)
        try:
            return C(bool(x == y))
        except Exception:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'new' and y.op in ('c', 'tup', 'poly', 'new', 'strcat'):
            return FALSE
        if x.op == 'c' and x.args[0] is None:
            return isnone_t(y)
        if x.op == 'c' and isinstance(x.args[0], str) and y.op in ('poly', 'len', 'tup'):
            return FALSE
        if x.op == 'c' and isinstance(x.args[0], str) and x.args[0] and y.op == 'slice' and y.args[3] is const(None):
            # the first (last) characters of a text are these: it starts (ends) with them
            n, S = len(x.args[0]), y.args[0]
            for nm, lo, hi in (('startswith', None, n), ('endswith', -n, None)):
                if y.args[1] is const(lo) and y.args[2] is const(hi):
                    return truthy_t(mk('call', mk('meth', nm), (S, x), (), (0,)))
        if x.op == 'c' and not isinstance(x.args[0], bool) and x.args[0] == 0 and y.op == 'len':
            return NOT(truthy_t(y.args[0]))
        if x.op == 'c' and isinstance(x.args[0], bool) and y.op not in ('attr', 'in', 'get', 'at'):
            tr = truthy_t(y)
            return tr if x.args[0] else NOT(tr)
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[lift(eq_t, x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'poly' or b.op == 'poly':
        d = t_sub(a, b)
        if isnum(d):
            return C(d.args[0] == 0)
        p = to_poly(d)
        k = sorted(p.items(), key=lambda mc: tuple((f.id, e) for f, e in mc[0]))[-1][1]
        d = from_poly({m: c / k for m, c in p.items()})
        if len(d.args) == 2 and d.op == 'poly':
            # x - y: keep as equation between terms when both are plain
            (m1, c1), (m2, c2) = d.args
            if {c1, c2} == {1, -1}:
                u, v = from_poly({m1: Fraction(1)}), from_poly({m2: Fraction(1)})
                if u.op != 'poly' and v.op != 'poly':
                    return _eq_atom(u, v)
            if () in (m1, m2):
                m, c, k0 = (m1, c1, c2) if m2 == () else (m2, c2, c1)
                u = from_poly({m: Fraction(1)})
                return _eq_atom(u, numc(-k0 / c))
        return atom(mk('eq', d, const(0)))
    return _eq_atom(a, b)


def _eq_atom(a, b):
    if a.id > b.id:
        a, b = b, a
    return atom(mk('eq', a, b))


@builder('eq')
def _b_eq(a, b):
    return eq_t(a, b)


def isnone_t(t):
    if t.op == 'c':
        return C(t.args[0] is None)
    if t.op in NOTNONE:
        return FALSE
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in TEXT_CALLS:
        return FALSE
    if t.op == 'attr' and t.args[1] == 'id':
        return FALSE        # the name in a parsed expression
    return found(atom(mk('isnone', t)), t)


# what the first or last element with a property has is settled: it has the property
_hits, _props, _settling = {}, {}, []
RESET.append(_hits.clear)
RESET.append(_props.clear)


def hits_of(t):
    r = _hits.get(t)
    if r is None:
        r = set()
        if t.op in ('first', 'last'):
            r.add(t)
        for x in t.args:
            if isinstance(x, T) and (x.h or x.fv or x.args):
                r |= hits_of(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                r |= hits_of(z)
                    elif isinstance(y, T):
                        r |= hits_of(y)
        r = _hits[t] = frozenset(r)
    return r


def found(n, t):
    if _settling:
        return n
    for h in hits_of(t):
        c = _props.get(h)
        if c is None:
            _settling.append(h)
            try:
                c = _props[h] = as_n(subst_any(as_n(h.args[2]), {h.args[0]: h}))
            finally:
                _settling.pop()
        r = simp(n, c)
        if r is TRUE or r is FALSE:
            return r
        if n.a is not None and n.a.op == 'isnone' and n.a.args[0] is h:
            # no node of a graph is None
            for a in atoms_of(c):
                if a.op == 'mem' and a.args[0] is h and (a.args[1].op == 'graphv' or a.args[1].op == 'attr' and
                                                         a.args[1].args[1] == 'DAG') and AND(c, NOT(atom(a))) is FALSE:
                    return FALSE
    return n


NOTNONE = {'new', 'cls', 'func', 'ext', 'tup', 'setv', 'dictv', 'listv', 'instv', 'poly', 'len', 'sum', 'order',
           'graphv', 'strcat', 'fmt', 'join', 'str', 'bm', 'lam', 'exp', 'log', 'abs', 'setcopy', 'nodes', 'loci',
           'lamf', 'round'}


@builder('isnone')
def _b_isnone(t):
    return isnone_t(t)


TEXT_CALLS = {'re.sub', 're.findall', 're.split', 'ast.unparse', 'builtins.repr', 'builtins.str'}
MATCHES = {'re.match', 're.search', 're.fullmatch'}


def truthy_t(t):
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in MATCHES:
        return NOT(isnone_t(t))     # a match is never false
    if t.op == 'c':
        v = t.args[0]
        if isinstance(v, float) and v != v:
            return TRUE
        return C(bool(v))
    if t.op == 'setv':
        v = fresh()
        return EX(v, as_n(subst_any(t.args[1], {t.args[0]: v})))
    if t.op == 'dictv':
        v = fresh()
        return EX(v, as_n(subst_any(t.args[1], {t.args[0]: v})))
    if t.op == 'listv':
        return pieces_nonempty(t.args[0])
    if t.op == 'tup':
        return C(len(t.args) > 0)
    if t.op in ('instv', 'cls', 'func', 'ext', 'bm', 'exp', 'lamf', 'loci', 'new', 'lam'):
        return TRUE
    if t.op == 'len':
        return truthy_t(t.args[0])
    if t.op == 'poly':
        return NOT(eq_t(t, const(0)))
    if t.op == 'acmp':
        return atom(mk('truthy', t))
    return atom(mk('truthy', t))


@builder('truthy')
def _b_truthy(t):
    return truthy_t(t)


def truth(v, pc=TRUE):
    return lift(truthy_t, v, pc=pc)


SMALL = 0              # loops over at most this many elements are written out
ROUNDS = None
REACH = None


def rounds(base, v, g):
    return ROUNDS(base, v, g) if SMALL else None


# ------------------------------------------------------------------ exists
def split_indep(v, n, combine, fn):
    """Shannon expansion on atoms that do not mention v, then fn on the rest"""
    if v not in n.fv:
        return fn(n)
    for a in atoms_of(n):
        if v not in a.fv:
            return combine(a, split_indep(v, cofactor(n, a, 1), combine, fn),
                           split_indep(v, cofactor(n, a, 0), combine, fn))
    return fn(n)


def EX(v, n):
    """exists v. n"""
    if n.a is None:
        return n

    def fn(m):
        if m.a is None or v not in m.fv:
            return m
        if m.hi is TRUE and m.lo is FALSE:
            a = m.a
            if a.op == 'mem' and a.args[0] is v and v not in a.args[1].fv and a.args[1].op in ('in', 'attr', 'get', 'at', 'call'):
                return truthy_t(a.args[1])
            if a.op == 'ex':
                # exists v exists w (w == v and ...): without v
                w, (b,) = open_once(a, {})
                b = as_n(b)
                for e in atoms_of(b):
                    if e.op == 'eq' and v in e.args and cofactor(b, e, 0) is FALSE:
                        return EX(w, EX(v, b))
        # one-point rule
        for a in atoms_of(m):
            if a.op == 'eq' and v in a.args:
                t = a.args[1] if a.args[0] is v else a.args[0]
                if v in t.fv:
                    continue
                hi, lo = cofactor(m, a, 1), cofactor(m, a, 0)
                h = subst(hi, {v: t})
                if lo is FALSE or h is TRUE:
                    return h
                # the value t may also satisfy lo: the union with the unrestricted rest is exact
                # when lo[v:=t] implies h
                if AND(subst(lo, {v: t}), NOT(h)) is FALSE:
                    return OR(h, EX(v, lo))
        if SMALL:
            for a in atoms_of(m):
                if a.op == 'inidx' and a.args[0] is v and cofactor(m, a, 0) is FALSE:
                    r = rounds(mk('idx', a.args[1]), v, m)
                    if r is not None:
                        return OR(*[as_n(subst(cofactor(m, a, 1), {v: x})) for x in r])
        for a in atoms_of(m):
            if a.op == 'inidx' and a.args[0] is v and v not in a.args[1].fv and cofactor(m, a, 0) is FALSE:
                e = elementwise(mk('idx', a.args[1]), v, cofactor(m, a, 1))
                if e and e[1] is not FALSE:
                    x, g, (b,), _ = e
                    return EX(x, AND(g, b))
        bv, (b,) = close(v, m)
        return atom(mk('ex', bv, b))
    return split_indep(v, n, lambda a, x, y: ite(atom(a), x, y), fn)


@binder('ex')
def _ex(v, n):
    return EX(v, as_n(n))


def ats(v, x, acc=None):
    """sequences A such that v occurs only as index at(A, v); None if v occurs otherwise"""
    acc = set() if acc is None else acc
    seen = set()
    ok = [True]

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
            return
        if not isinstance(y, (T, N)) or v not in y.fv or not ok[0] or y.id in seen:
            return
        seen.add(y.id)
        if isinstance(y, N):
            if y.a is None:
                go(y.t)
            else:
                go(y.a)
                go(y.hi)
                go(y.lo)
            return
        if y is v:
            ok[0] = False
            return
        if y.op == 'at' and y.args[1] is v and v not in y.args[0].fv:
            acc.add(y.args[0])
            return
        for z in y.args:
            go(z)
    go(x)
    return acc if ok[0] else None


def elementwise(base, v, *parts):
    """If the index v ranges over a whole sequence A and is used only through at(A, v):
    (x, membership guard, parts over the element x); else None"""
    if base.op != 'idx':
        return None
    acc = ats(v, parts)
    if acc is None or len(acc) != 1:
        return None
    A, = acc
    if len_t(A) is not leaf(base.args[0]):
        return None
    x = fresh()
    ps = tuple(as_n(subst_any(p, {mk('at', A, v): x})) if isinstance(p, N) else subst_any(p, {mk('at', A, v): x})
               for p in parts)
    return x, mem_t(x, A), ps, A


def ex_base(base, v, n):
    """exists element index v of base with n"""
    if base.op == 'U':
        return EX(v, n)
    if n.a is None and n.t is const(False):
        return FALSE
    if v not in n.fv:
        return AND(n, pos(base.args[0])) if base.op == 'idx' else n
    e = elementwise(base, v, n)
    if e:
        x, g, (m,), _ = e
        return EX(x, AND(g, m))
    return EX(v, AND(atom(mk('inidx', v, base.args[0])), n))


# ------------------------------------------------------------------ lists (pieces)
def one(g, val):
    return mk('one', g, val)


def pfor(base, v, g, pieces):
    """for v in base if g: pieces"""
    pieces = tuple(p for p in pieces)
    if not pieces or g is FALSE:
        return None
    g = as_n(g)
    if base.op == 'U' or base.op == 'idx':
        if base.op == 'idx' and isnum(base.args[0]) and base.args[0].args[0] <= 0:
            return None
    if SMALL and base.op == 'idx':
        r = rounds(base, v, g)
        if r is not None:
            out = ()
            for x in r:
                gx = as_n(subst(g, {v: x}))
                if gx is not FALSE:
                    qs = ()
                    for q in subst_pieces(pieces, {v: x}):
                        qs += (q,)
                    out += guard_pieces(gx, qs)
            return ('inline', TRUE, out) if out else None
    # single-element filter eq(v, t) over the universe
    if base.op == 'U':
        for a in atoms_of(g):
            if a.op == 'eq' and v in a.args:
                t = a.args[1] if a.args[0] is v else a.args[0]
                if v not in t.fv and cofactor(g, a, 0) is FALSE:
                    g2 = subst(cofactor(g, a, 1), {v: t})
                    return ('inline', g2, tuple(subst_any(p, {v: t}) for p in pieces))
    # flatten single nested guards into g
    if len(pieces) == 1 and pieces[0].op == 'one' and pieces[0].args[0] is not TRUE:
        g = AND(g, pieces[0].args[0])
        pieces = (one(TRUE, pieces[0].args[1]),)
        if g is FALSE:
            return None
    if len(pieces) == 1 and pieces[0].op == 'one':
        pieces = (one(TRUE, simp(pieces[0].args[1], g)),)
    bv, (g, pieces) = close(v, g, pieces)
    return mk('for', bv, base, as_n(g), pieces)


def subst_pieces(pieces, env):
    out = ()
    for p in pieces:
        r = subst_any(p, env)
        if isinstance(r, N):
            r = r.t if r.a is None else mk('opaque', 'piece', r.id)
        if r.op == 'inlinep':
            out += guard_pieces(as_n(r.args[0]), r.args[1])
        elif r.op != 'nopiece':
            out += (r,)
    return out


def add_pieces(acc, p):
    """append result of pfor to list of pieces"""
    if p is None:
        return acc
    if isinstance(p, tuple):
        _, g, ps = p
        return acc + guard_pieces(g, ps)
    return acc + (p,)


def unsplice(ps):
    if not any(p.op == 'splice' for p in ps):
        return ps
    out = ()
    for p in ps:
        out += seq_pieces(p.args[0]) if p.op == 'splice' else (p,)
    return out


def guard_pieces(g, ps):
    if g is TRUE:
        return tuple(ps)
    out = ()
    for p in unsplice(ps):
        if p.op == 'one':
            g2 = AND(g, p.args[0])
            if g2 is not FALSE:
                out += (one(g2, p.args[1]),)
        elif p.op != 'for':
            out += (mk('opaque', 'guarded piece', p.id),)
        else:
            v, base, g0, sub = open_for(p)
            out = add_pieces(out, pfor(base, v, AND(g, g0), sub))
    return out


@binder('for')
def _for(v, base, g, pieces):
    r = pfor(base if isinstance(base, T) else base.t if base.a is None else mk('opaque', 'guarded base', base.id),
             v, as_n(g), pieces)
    if r is None:
        return leaf(mk('nopiece'))
    if isinstance(r, tuple):
        return leaf(mk('inlinep', r[1], r[2]))
    return leaf(r)


@builder('one')
def _one(g, val):
    return leaf(mk('one', as_n(g), as_n(val)))


def open_for(p, v=None):
    bv, base, g, pieces = p.args
    v = v or fresh()
    return v, base, as_n(subst_any(g, {bv: v})), subst_any(pieces, {bv: v})


def norm_pieces(pieces):
    out = ()
    for p in pieces:
        if isinstance(p, N):
            if p.a is not None:
                for t, g in leaves(p).items():
                    if t.op != 'bot':
                        out += guard_pieces(g, norm_pieces((t,)))
                continue
            p = p.t
        if p.op == 'splice' and p.args[0].op == 'listv':
            out += p.args[0].args[0]
        elif p.op == 'nopiece':
            continue
        if p.op == 'inlinep':
            out += guard_pieces(p.args[0], norm_pieces(p.args[1]))
        elif p.op == 'one' and p.args[0] is FALSE:
            continue
        else:
            out += (p,)
    return out


def list_term(pieces):
    return mk('listv', norm_pieces(pieces))


@builder('listv')
def _listv(pieces):
    return leaf(list_term(pieces))


def pieces_nonempty(pieces):
    r = FALSE
    for p in unsplice(pieces):
        if p.op == 'one':
            r = OR(r, p.args[0])
        elif p.op == 'for':
            v, base, g, sub = open_for(p)
            r = OR(r, ex_base(base, v, AND(g, pieces_nonempty(sub))))
        else:
            r = OR(r, atom(mk('truthy', p)))
    return r


def pieces_mem(x, pieces):
    r = FALSE
    for p in unsplice(pieces):
        if p.op == 'one':
            r = OR(r, AND(p.args[0], lift(lambda y: eq_t(x, y), p.args[1], pc=p.args[0])))
        elif p.op == 'for':
            v, base, g, sub = open_for(p)
            r = OR(r, ex_base(base, v, AND(g, pieces_mem(x, sub))))
        else:
            r = OR(r, atom(mk('mem', x, p)))
    return nobot(r)


def seq_pieces(A):
    """pieces of a symbolic sequence term"""
    if A.op == 'listv':
        return A.args[0]
    if A.op == 'tup':
        return tuple(one(TRUE, x) for x in A.args)
    if A.op == 'setv':
        v = fresh()
        g = as_n(subst_any(A.args[1], {A.args[0]: v}))
        return add_pieces((), pfor(mk('U'), v, g, (one(TRUE, leaf(v)),)))
    if A.op == 'dictv':
        v = fresh()
        g = as_n(subst_any(A.args[1], {A.args[0]: v}))
        return add_pieces((), pfor(mk('U'), v, g, (one(TRUE, leaf(v)),)))
    v = fresh()
    n = len_t(A)
    return add_pieces((), pfor(mk('idx', n.t), v, TRUE, (one(TRUE, leaf(mk('at', A, v))),)))


def map_pieces(pieces, fn):
    """fn: value N -> N on every element"""
    out = ()
    for p in unsplice(pieces):
        if p.op == 'one':
            out += (one(p.args[0], fn(p.args[1])),)
        elif p.op == 'for':
            v, base, g, sub = open_for(p)
            out = add_pieces(out, pfor(base, v, g, map_pieces(sub, fn)))
        else:
            out += (mk('opaque', 'piece', p.id),)
    return out


def simple_for(pieces):
    """(base, v, guard, elem) when the list is one comprehension over one base"""
    if len(pieces) == 1 and pieces[0].op == 'for':
        v, base, g, sub = open_for(pieces[0])
        if len(sub) == 1 and sub[0].op == 'one' and sub[0].args[0] is TRUE:
            return base, v, g, sub[0].args[1]
    return None


def all_ones(pieces):
    return all(p.op == 'one' and p.args[0] is TRUE for p in pieces)


# ------------------------------------------------------------------ len, at, get, mem
def len_t(A):
    if A.op == 'c' and isinstance(A.args[0], (str, tuple)):
        return C(len(A.args[0]))
    if A.op == 'tup':
        return C(len(A.args))
    if A.op == 'listv':
        ps = A.args[0]
        if all_ones(ps):
            return C(len(ps))
        s = simple_for(ps)
        if s:
            base, v, g, e = s
            if base.op == 'idx' and g is TRUE:
                return leaf(base.args[0])
            if base.op == 'U':
                return leaf(mk('len', set_term(v, g)))
        return leaf(mk('len', list_term(map_pieces(ps, lambda x: C(0)))))
    if A.op == 'dictv':
        return leaf(mk('len', mk('setv', A.args[0], A.args[1])))
    if A.op == 'call' and A.args[0].op == 'ext' and str(A.args[0].args[0]).startswith('numpy.random.'):
        # as many numbers drawn as asked for
        n = next((x for k, x in A.args[2] if k == 'size'), None)
        if n is not None and n is not C(None).t:
            if n.op != 'tup':
                return leaf(n)
            if n.args:
                return as_n(n.args[0])
    return leaf(mk('len', A))


@builder('minlen')
def _b_minlen(*ns):
    ns = sorted(set(ns), key=lambda t: t.id)
    if len(ns) > 1 and sum(isnum(n) for n in ns) > 1:
        k = min((n for n in ns if isnum(n)), key=lambda n: n.args[0])
        ns = sorted([n for n in ns if not isnum(n)] + [k], key=lambda t: t.id)
    return leaf(ns[0] if len(ns) == 1 else mk('minlen', *ns))


@builder('slice')
def _b_slice(A, lo, hi, st):
    if SMALL and A.op == 'listv' and all_ones(A.args[0]) and all(
            x.op == 'c' and (x.args[0] is None or isinstance(x.args[0], int)) for x in (lo, hi, st)):
        return leaf(mk('listv', tuple(A.args[0])[lo.args[0]:hi.args[0]:st.args[0]]))
    return leaf(mk('slice', A, lo, hi, st))


@builder('prefix')
def _b_prefix(A, n):
    if SMALL and A.op == 'listv' and all_ones(A.args[0]) and isnum(n) and isinstance(n.args[0], int):
        return leaf(mk('listv', tuple(A.args[0])[:n.args[0]]))
    return leaf(mk('prefix', A, n))


@builder('len')
def _b_len(A):
    return len_t(A)


@builder('idx')
def _b_idx(n):
    return leaf(mk('idx', n))


def at_t(A, i):
    if A.op in ('listv', 'tup'):
        ps = A.args[0] if A.op == 'listv' else tuple(one(TRUE, x) for x in A.args)
        if isnum(i) and all_ones(ps):
            k = int(i.args[0])
            if -len(ps) <= k < len(ps):
                return as_n(ps[k].args[1])
        if A.op == 'listv':
            s = simple_for(ps)
            if s and s[0].op == 'idx' and s[2] is TRUE:
                if isnum(i) and i.args[0] < 0:
                    i = t_add(s[0].args[0], i)
                return as_n(subst(s[3], {s[1]: i}))
            if s and s[0].op == 'idx' and isnum(i) and i.args[0] in (0, -1):
                # the first (last) element that passes
                bv, (b,) = close(s[1], s[2])
                return as_n(subst(s[3], {s[1]: mk('last' if i.args[0] else 'first', bv, s[0], b)}))
    if A.op == 'c' and isinstance(A.args[0], (tuple, str)) and isnum(i):
        try:
            return C(A.args[0][int(i.args[0])])
        except Exception:
            pass
    return leaf(mk('at', A, i))


@builder('at')
def _b_at(A, i):
    return at_t(A, i)


def get_t(D, k):
    if D.op == 'dictv':
        return as_n(subst_any(D.args[2], {D.args[0]: k}))
    if D.op in ('listv', 'tup'):
        return at_t(D, k)
    if isnum(k):
        return at_t(D, k)
    return leaf(mk('get', D, k))


@builder('get')
def _b_get(D, k):
    return get_t(D, k)


def mem_t(x, S):
    if S.op == 'setv' or S.op == 'dictv':
        return as_n(subst_any(S.args[1], {S.args[0]: x}))
    if S.op == 'listv':
        return pieces_mem(x, S.args[0])
    if S.op == 'tup':
        return OR(*[lift(lambda y: eq_t(x, y), v) for v in S.args])
    if S.op == 'order':
        return node_t(S.args[0], x)
    if x.op == 'at' and (x.args[0] is S or x.args[0].op == 'order' and x.args[0].args[0] is S):
        return TRUE
    if S.op == 'c' and x.op == 'c':
        try:
            return C(x.args[0] in S.args[0])
        except TypeError:
            return FALSE
    if S.op == 'c' and isinstance(S.args[0], tuple):
        return OR(*[eq_t(x, const(y)) for y in S.args[0]])
    if S.op == 'graphv':
        return node_t(S, x)
    return atom(mk('mem', x, S))


@builder('order')
def order_t(g):
    """the order of a graph is that of its nodes and edges, whatever its class and whether it may still change"""
    if made(g) and len(g.args) > 4:
        g = mk('graphv', *g.args[:4])
    return leaf(mk('order', g))


@builder('mem')
def _b_mem(x, S):
    return mem_t(x, S)


# ------------------------------------------------------------------ sets and dicts
def set_term(v, dom):
    bv, (d,) = close(v, dom)
    return mk('setv', bv, d)


def dict_term(v, dom, val):
    val = simp(val, dom) if dom is not FALSE else BOT
    bv, (d, w) = close(v, dom, val)
    return mk('dictv', bv, d, w)


@binder('setv')
def _setv(v, dom):
    return leaf(set_term(v, as_n(dom)))


@binder('dictv')
def _dictv(v, dom, val):
    return leaf(dict_term(v, as_n(dom), as_n(val)))


@binder('lam')
def _lam(v, *parts):
    bv, ps = close(v, *[as_n(p) if isinstance(p, (T, N)) else p for p in parts])
    return leaf(mk('lam', bv, *ps))


def lam(v, *parts):
    bv, ps = close(v, *parts)
    return mk('lam', bv, *ps)


@builder('tup')
def _tup(*xs):
    return leaf(mk('tup', *[as_n(x) for x in xs]))


# ------------------------------------------------------------------ sums
def dedup_base(base, v, *parts):
    """order and duplicates irrelevant? index bases over duplicate-free sequences -> universe"""
    e = elementwise(base, v, *parts)
    if e and dupfree(e[3]):
        return mk('U'), e[0], e[1], e[2]
    return None


def dupfree(A):
    return A.op in ('order', 'keysof') or (A.op == 'listv' and simple_for(A.args[0]) is not None
                                           and simple_for(A.args[0])[0].op == 'U'
                                           and simple_for(A.args[0])[3] is leaf(simple_for(A.args[0])[1]))


def sum_pieces(pieces):
    total = C(0)
    add = lambda x, y: leaf(t_add(x, y))
    for p in unsplice(pieces):
        if p.op == 'one':
            total = lift(add, total, ite(p.args[0], p.args[1], C(0)))
        elif p.op == 'for':
            v, base, g, sub = open_for(p)
            inner = sum_pieces(sub)
            total = lift(add, total, SUM(v, base, ite(g, inner, C(0))))
        else:
            total = lift(add, total, leaf(mk('sumof', p)))
    return total


def inside(base, v, e):
    """e where v is one of the places the base counts"""
    t = mk('inidx', v, base.args[0])
    return as_n(subst(e, {t: TRUE})) if occurs_term(t, e) else e


def SUM(v, base, e):
    e = nobot(e)
    if base.op == 'idx':
        e = inside(base, v, e)
    if SMALL:
        r = rounds(base, v, e)
        if r is not None and base.op == 'idx':
            tot = C(0)
            for x in r:
                tot = lift(lambda a, b: leaf(t_add(a, b)), tot, as_n(subst(e, {v: x})))
            return tot
    d = dedup_base(base, v, e)
    if d:
        base, v, g, (e,) = d
        e = ite(g, e, C(0))
    if e is C(0):
        return C(0)
    if e.a is None:
        total = const(0)
        for m, c in to_poly(e.t).items():
            dep = tuple((f, k) for f, k in m if v in f.fv)
            ind = tuple((f, k) for f, k in m if v not in f.fv)
            k = from_poly({ind: c})
            if not dep:
                s = base.args[0] if base.op == 'idx' else mk('infsum')
            else:
                bv, (b,) = close(v, leaf(from_poly({dep: Fraction(1)})))
                s = mk('sum', bv, base, b)
            total = t_add(total, t_mul(k, s))
        return leaf(total)

    def fn(x):
        if x.a is None:
            return SUM(v, base, x)
        bv, (b,) = close(v, x)
        return leaf(mk('sum', bv, base, b))
    return split_indep(v, e, lambda a, x, y: ite(atom(a), x, y), fn)


@binder('sum')
def _sum(v, base, e):
    return SUM(v, base if isinstance(base, T) else base.t, as_n(e))


def sum_t(A):
    return sum_pieces(seq_pieces(A))


# ------------------------------------------------------------------ graphs
def made(t):
    """a graph built by the code under analysis, given by its content (and its class), not a changed input graph"""
    return t.op == 'graphv' and (len(t.args) == 4 or t.args[4].op in ('cls', 'c'))


def node_t(G, x):
    if G.op == 'graphv':
        bv, nodes = G.args[0].args[0], G.args[0].args[1]
        return as_n(subst_any(nodes, {bv: x}))
    if x.op == 'at' and x.args[0].op == 'order' and x.args[0].args[0] is G:
        return TRUE
    return atom(mk('mem', x, G))


def edge_t(R, a, b):
    """R: graph term or relation term"""
    if R.op == 'graphv':
        R = R.args[1]
    if isinstance(R, N):
        return lift(lambda r: edge_t(r, a, b), R)
    if R.op == 'rel':
        b1, inner = R.args[0].args[0], R.args[0].args[1]
        inner = subst_any(inner, {b1: a})
        inner = inner.t if isinstance(inner, N) else inner
        return as_n(subst_any(inner.args[1], {inner.args[0]: b}))
    return atom(mk('edge', R, a, b))


@builder('edge')
def _b_edge(R, a, b):
    return edge_t(R, a, b)


def rel_term(edges):
    """edges: N over KEY -> KEY2; collapses to the graph it is the relation of"""
    if edges.a is not None and edges.hi is TRUE and edges.lo is FALSE and edges.a.op == 'edge' \
            and edges.a.args[1] is KEY and edges.a.args[2] is KEY2:
        return edges.a.args[0]
    return mk('rel', lam(KEY, leaf(lam(KEY2, edges))))


@builder('rel')
def _b_rel(l):
    l = l if isinstance(l, T) else l.t
    # reopen to normalise
    inner = subst_any(l.args[1], {l.args[0]: KEY})
    inner = inner.t if isinstance(inner, N) else inner
    e = as_n(subst_any(inner.args[1], {inner.args[0]: KEY2}))
    return leaf(rel_term(e))


def reach_t(R, a, b):
    if a is b:
        return FALSE      # acyclic
    if SMALL:
        r = REACH(R, a, b)
        if r is not None:
            return r
    return atom(mk('reach', R, a, b))


@builder('reach')
def _b_reach(R, a, b):
    return reach_t(as_t(R), as_t(a), as_t(b))


def as_t(x):
    if isinstance(x, T):
        return x
    if x.a is None:
        return x.t
    return mk('guarded', x)


core.BODY.discard('reach')
core.BODY.discard('order')


# ------------------------------------------------------------------ misc atoms
def isnan_t(t):
    if isnum(t):
        v = t.args[0]
        return C(isinstance(v, float) and v != v)
    if t.op in ('len', 'setv', 'listv', 'new', 'tup'):
        return FALSE
    return atom(mk('isnan', t))


def isinf_t(t):
    if isnum(t):
        v = t.args[0]
        return C(isinstance(v, float) and abs(v) == float('inf'))
    if t.op == 'len':
        return FALSE
    return atom(mk('isinf', t))


@builder('isnan')
def _b_isnan(t):
    return isnan_t(t)


@builder('isinf')
def _b_isinf(t):
    return isinf_t(t)


def strcat(*ts):
    parts = []

    def add(t):
        if t.op == 'strcat':
            for p in t.args:
                add(p)
        elif t.op == 'c' and isinstance(t.args[0], str) and parts and parts[-1].op == 'c' \
                and isinstance(parts[-1].args[0], str):
            parts[-1] = const(parts[-1].args[0] + t.args[0])
        elif t.op == 'c' and t.args[0] == '':
            pass
        else:
            parts.append(t)
    for t in ts:
        add(t)
    if not parts:
        return const('')
    if len(parts) == 1:
        return parts[0]
    for i in range(len(parts) - 1):
        x, y = parts[i], parts[i + 1]
        if y.op == 'c' and x.op == 'join' and x.args[0] == const('') and x.args[1].op == 'listv':
            # texts that all start with what follows them: taken one further
            ch = str(y.args[0])[:1]
            ok = [True]

            def turn(t):
                a = t.args[0] if t.op == 'strcat' else t
                if a.op != 'c' or not isinstance(a.args[0], str) or not a.args[0].startswith(ch):
                    ok[0] = False
                    return leaf(t)
                return leaf(strcat(const(a.args[0][1:]), *(t.args[1:] if t.op == 'strcat' else ()), const(ch)))
            ps = map_pieces(x.args[1].args[0], lambda n: lift(turn, n))
            if ok[0] and not any(p.op == 'opaque' for p in ps):
                return strcat(*parts[:i], const(ch), mk('join', const(''), list_term(ps)),
                              const(y.args[0][1:]), *parts[i + 2:])
    return mk('strcat', *parts)


def join_t(o, ps):
    """the elements of a list of texts with o between them"""
    cat = lambda *ns: lift(lambda *ts: leaf(strcat(*ts)), *ns)
    if o.op == 'c' and isinstance(o.args[0], str):
        sure = [not isinstance(p, N) and p.op == 'one' and p.args[0] is TRUE for p in ps]
        if all(sure):
            parts = []
            for i, p in enumerate(ps):
                parts += ([leaf(o)] if i else []) + [p.args[1]]
            return cat(*parts) if parts else C('')
        if o.args[0] and (sure[0] or sure[-1]) and not any(isinstance(p, N) for p in ps):
            i = sure.index(False)
            j = len(ps) - sure[::-1].index(False)
            head, mid, tail = ps[:i], ps[i:j], ps[j:]
            glue = (lambda n: cat(leaf(o), n)) if head else (lambda n: cat(n, leaf(o)))
            mid = map_pieces(mid, glue)
            if not any(p.op == 'opaque' for p in mid):
                out = []
                for k, p in enumerate(head):
                    out += ([leaf(o)] if k else []) + [p.args[1]]
                out.append(leaf(mk('join', const(''), list_term(mid))))
                for k, p in enumerate(tail):
                    out += ([leaf(o)] if k or head else []) + [p.args[1]]
                return cat(*out)
    return leaf(mk('join', o, list_term(ps)))


@builder('join')
def _b_join(o, x):
    if x.op == 'listv' and (SMALL or all_ones(x.args[0])):
        return join_t(o, x.args[0])
    return leaf(mk('join', o, x))


@builder('strcat')
def _b_strcat(*ts):
    return leaf(strcat(*ts))
