"""Semantic comparison of guarded values.

compare() walks two values in parallel.  Differences come back as records that
are either `diff` (both sides are fully understood and the guard under which
they differ is consistent with the axioms) or `unk` (the comparison met something
the analysis does not interpret)."""
import itertools
import math
from fractions import Fraction
from vf.core import *
from vf.coll import *
from vf import core
from vf import interp as I


class Rec:
    def __init__(self, kind, guard, a, b, path):
        self.kind, self.guard, self.a, self.b, self.path = kind, guard, a, b, path

    def __repr__(self):
        from vf.show import brief
        return '%s at %s: %s  <>  %s   when %s' % (self.kind, '/'.join(self.path) or '.', brief(self.a), brief(self.b),
                                                   brief(self.guard))


UNKOPS = {'opaque', 'guarded', 'backref'}


def whole(p):
    """is the sum a whole number whatever the values"""
    return all(c == int(c) and all(f.op == 'len' and e > 0 and e == int(e) for f, e in m) for m, c in p.items())


def occurs_op(op, x):
    if isinstance(x, N):
        return occurs_op(op, x.t) if x.a is None else any(occurs_op(op, y) for y in (x.a, x.hi, x.lo))
    if isinstance(x, T):
        return x.op == op or any(occurs_op(op, y) for y in x.args)
    return isinstance(x, tuple) and any(occurs_op(op, y) for y in x)


class Eq:
    MAXREC = 12

    def __init__(self, prog=None, vocab=None):
        self.expanded = set()
        self.prog = prog
        self.vocab = vocab          # set of known symbols, None: everything is known
        self.memo = {}
        self.fmemo = {}
        self.steps = 0
        self.rounds = 0
        self.extra_fields = True    # fields only the first value has are ignored when private
        self.attrs = None           # attribute names that matter

    # ------------------------------------------------------------ understanding
    few = False

    def clear(self, x):
        k = ('clear', x.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        if x.opq:
            r = False
        else:
            r = self._clear(x)
        self.memo[k] = r
        return r

    def _clear(self, x):
        if isinstance(x, tuple):
            return all(self._clear(y) for y in x)
        if isinstance(x, N):
            return self.clear(x.t) if x.a is None else self.clear(x.a) and self.clear(x.hi) and self.clear(x.lo)
        if not isinstance(x, T):
            return True
        if x.op in UNKOPS or x.op == 'slice' and any(occurs_op('position', b) for b in x.args[1:]):
            return False
        if self.vocab is not None and x.op in ('ext', 'func', 'meth', 'missing', 'undefname', 'glob', 'cls'):
            if not self.vocab(x):
                return False
        if x.op == 'attr' and self.attrs is not None and x.args[1] not in self.attrs:
            return False
        return all(self.clear(y) if isinstance(y, (T, N)) else self._clear(y) for y in x.args)

    # ------------------------------------------------------------ feasibility
    def feasible(self, g):
        """a consistent cube of g (dict atom -> bool) or None"""
        if g is FALSE:
            return None
        if g.id in self.fmemo:
            return self.fmemo[g.id]
        budget = [4000]

        def rec(n, lits):
            if n is FALSE or (n.a is None and n.t.op == 'bot'):
                return None
            if budget[0] <= 0:
                return lits
            budget[0] -= 1
            if n.a is None:
                return dict(lits)
            for val, nx in ((True, n.hi), (False, n.lo)):
                if nx is FALSE:
                    continue
                if self.consistent(lits, n.a, val):
                    lits[n.a] = val
                    r = rec(nx, lits)
                    if r is not None:
                        r = dict(r)
                        del lits[n.a]
                        return r
                    del lits[n.a]
            return None
        r = rec(g, {})
        self.fmemo[g.id] = r
        return r

    def consistent(self, lits, a, v):
        for b, w in lits.items():
            if not self.pair_ok(a, v, b, w) or not self.pair_ok(b, w, a, v):
                return False
        return self.congruent(lits, a, v) and self.ground_ok(lits, a, v) and self.linear_ok(lits, a, v)

    def linear_ok(self, lits, a, v):
        """the bounds do not add up to a contradiction (a few sums of bounds in which a monomial cancels)"""
        if a.op != 'pos':
            return True
        rest = [(b, w) for b, w in lits.items() if b.op == 'pos']
        if len(rest) < 2:
            return True
        key = ('lin', frozenset([(b.id, w) for b, w in rest] + [(a.id, v)]))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.linear(rest, a, v)
        return r

    @staticmethod
    def linear(rest, a, v):
        def bound(b, w):
            # the value of (polynomial, strict) is above zero, or not below zero
            p = to_poly(b.args[0])
            return (dict(p), True) if w else ({m: -c for m, c in p.items()}, False)
        known = [bound(b, w) for b, w in rest]
        first = bound(a, v)
        # factors that are known to be above zero do not matter
        above = {m[0][0] for p, st in known + [first] if st and len([k for k in p if p[k]]) == 1
                 for m in p if p[m] > 0 and len(m) == 1 and m[0][1] == 1}
        for t in above:
            def clear(pst):
                p, st = pst
                low = min((dict(m).get(t, 0) for m in p if p[m]), default=0)
                if not low or len(p) == 1:
                    return pst
                out = {}
                for m, c in p.items():
                    d = dict(m)
                    d[t] = d.get(t, 0) - low
                    k = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))
                    out[k] = out.get(k, 0) + c
                return out, st
            known = [clear(x) for x in known]
            first = clear(first)
        work, seen, n = [first], set(), 0
        while work and n < 40:
            p, st = work.pop(0)
            n += 1
            for q, su in list(known):
                for m, c in p.items():
                    d = q.get(m)
                    if m == () or d is None or (c > 0) == (d > 0):
                        continue
                    f = Fraction(abs(c)) / Fraction(abs(d))
                    s = dict(p)
                    for k, x in q.items():
                        s[k] = s.get(k, 0) + f * x
                    s = {k: x for k, x in s.items() if x or k == ()}
                    strict = st or su
                    if not any(k != () for k in s):
                        z = s.get((), 0)
                        if z < 0 or strict and z == 0:
                            return False
                        continue
                    if len(s) > max(len(p), len(q)):
                        continue
                    h = (tuple(sorted((str([(x.id, e) for x, e in k]), str(x)) for k, x in s.items())), strict)
                    if h not in seen:
                        seen.add(h)
                        work.append((s, strict))
        return True

    @staticmethod
    def names(a):
        """x, y of a condition x == y with y a constant and x not, or x a variable and y without it"""
        if a.op == 'eq':
            for x, y in (a.args, a.args[::-1]):
                if y.op == 'c' and x.op in ('var', 'in', 'at', 'attr', 'get'):
                    return x, y
            for x, y in (a.args, a.args[::-1]):
                if x.op == 'var' and not occurs_term(x, y):
                    return x, y
        return None

    def renamed(self, a, x, y):
        k = ('ren', a.id, x.id, y.id)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = subst(atom(a), {x: leaf(y)}) if occurs_term(x, a) else atom(a)
        return r

    def congruent(self, lits, a, v):
        """what holds of x holds of what it equals"""
        def differ(b, w, x, y, more):
            r = self.renamed(b, x, y)
            if r.a is b:
                return False
            for c, z in more:
                if r.a is None:
                    break
                r = cofactor(r, c, z)
            return r is TRUE and not w or r is FALSE and w
        all_ = list(lits.items()) + [(a, v)]
        if not v and a.op == 'truthy':
            # nothing is in what is empty: loops over it do nothing
            for b, w in lits.items():
                if differ(b, w, mk('len', a.args[0]), numc(0), all_):
                    return False
        for c, w in lits.items():
            if not w and c.op == 'truthy' and differ(a, v, mk('len', c.args[0]), numc(0), all_):
                return False
        e = self.names(a) if v else None
        if e is not None:
            for b, w in lits.items():
                if differ(b, w, e[0], e[1], all_):
                    return False
        for c, w in lits.items():
            if w and c.op == 'eq':
                e = self.names(c)
                if e is None:
                    continue
                if differ(a, v, e[0], e[1], all_):
                    return False
                for b, z in lits.items():
                    if b is not c and occurs_term(e[0], b) and differ(b, z, e[0], e[1], all_):
                        return False
        return True

    def pair_ok(self, a, v, b, w):
        """can atom a be v together with atom b being w (one direction of every rule)"""
        A, B = a.op, b.op
        if A == 'mem' and v:
            s = a.args[1]
            if B == 'truthy' and not w and b.args[0] is s:
                return False
            if B == 'isnone' and w and b.args[0] is s:
                return False
            if B == 'eq' and w and a.args[0] in b.args and s.op in ('setv',) and False:
                return False
        if A == 'truthy' and v and B == 'isnone' and w and a.args[0] is b.args[0]:
            return False
        if A == 'hasattr' and v and B == 'isnone' and w and a.args[0] is b.args[0]:
            return False
        if A == 'truthy' and v and B == 'eq' and w and a.args[0] in b.args:
            o = b.args[1] if b.args[0] is a.args[0] else b.args[0]
            if o.op == 'c' and not o.args[0]:
                return False
        if A == 'truthy' and not v and B == 'eq' and w and a.args[0] in b.args:
            o = b.args[1] if b.args[0] is a.args[0] else b.args[0]
            if o.op == 'c' and o.args[0]:
                return False
        if A == 'truthy' and not v and B == 'pos' and w:
            m = to_poly(b.args[0])
            if any(len(k) == 1 and k[0][0] is a.args[0] for k in m) and len(m) == 1:
                return False
        if A == 'isinst' and B == 'isinst' and a.args[0] is b.args[0]:
            if v and w and not self.related(a.args[1], b.args[1]):
                return False
            if v and not w and self.sub(a.args[1], b.args[1]):
                return False
        if A == 'isinst' and v and B == 'isnone' and w and a.args[0] is b.args[0]:
            return False
        if A == 'edge' and v:
            R = a.args[0]
            if B == 'mem' and not w and b.args[1] is R and b.args[0] in a.args[1:]:
                return False
            if B == 'reach' and not w and b.args[0] is R and a.args[1:] == b.args[1:]:
                return False
            if B == 'reach' and w and b.args[0] is R and a.args[1:] == tuple(reversed(b.args[1:])):
                return False
            if B == 'edge' and w and b.args[0] is R and a.args[1:] == tuple(reversed(b.args[1:])):
                return False
        if A == 'reach' and v:
            R = a.args[0]
            if B == 'mem' and not w and b.args[1] is R and b.args[0] in a.args[1:]:
                return False
            if B == 'reach' and w and b.args[0] is R and a.args[1:] == tuple(reversed(b.args[1:])):
                return False
        if A == 'eq' and B == 'eq' and v and w:
            for x, y in ((0, 1), (1, 0)):
                for p, q in ((0, 1), (1, 0)):
                    if a.args[x] is b.args[p] and a.args[y].op == 'c' and b.args[q].op == 'c' \
                            and a.args[y] is not b.args[q]:
                        return False
        if A == 'eq' and v and B in ('mem', 'truthy', 'isnone', 'edge', 'reach', 'isinst', 'pos', 'isnan', 'isinf', 'eq'):
            # congruence on one rewriting step
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if x.op == 'c':
                    continue
                if occurs_term(x, b):
                    r = subst(atom(b), {x: leaf(y)})
                    if r is TRUE and not w or r is FALSE and w:
                        return False
        if A == 'pos' and B == 'pos':
            p, q = to_poly(a.args[0]), to_poly(b.args[0])
            kp, kq = p.pop((), 0), q.pop((), 0)
            if p == q:
                # p + kp > 0, p + kq > 0
                if v and not w and (kq >= kp or whole(p) and math.floor(-kp) + 1 > math.floor(-kq)):
                    return False
            elif all(p.get(m) == -c for m, c in q.items()) and len(p) == len(q):
                # p + kp > 0  and  -p + kq > 0
                if v and w and (kp + kq <= 0 or whole(p) and math.floor(-kp) + 1 > math.ceil(kq) - 1):
                    return False
                if not v and not w and (kp + kq > 0 or whole(p) and math.floor(-kp) < math.ceil(kq)):
                    return False
        if A == 'pos' and v and B == 'isnan' and w and any(f is b.args[0] for m in to_poly(a.args[0]) for f, _ in m):
            return False
        if A == 'isnan' and v and B == 'isinf' and w and a.args[0] is b.args[0]:
            return False
        if A == 'isnan' and v and B == 'eq' and w and a.args[0] in b.args:
            return False
        if A == 'ex' and not v and B == 'ex' and w and self.ex_implies(b, a):
            return False
        if A == 'ex' and not v and B == 'mem' and w:
            r = as_n(subst_any(a.args[1], {a.args[0]: b.args[0]}))
            if r is TRUE or (r.a is b and r.hi is TRUE):
                return False
        if A == 'ex' and v and B == 'truthy' and not w:
            s = b.args[0]
            x = fresh()
            body = as_n(subst_any(a.args[1], {a.args[0]: x}))
            if AND(body, NOT(mem_t(x, s))) is FALSE:
                return False
        if A == 'ex' and v and B == 'truthy' and not w and without(a, b.args[0]) is FALSE:
            return False
        if A == 'ex' and not v and B == 'truthy' and w:
            s = b.args[0]
            x = fresh()
            body = as_n(subst_any(a.args[1], {a.args[0]: x}))
            m = mem_t(x, s)
            if m.a is not None and AND(m, NOT(body)) is FALSE and self.coll_like(s):
                return False
        return True

    def coll_like(self, s):
        return True

    def ground_ok(self, lits, a, v):
        if not v and a.op in ('pos', 'eq') and not self.total(lits, a):
            return False
        if a.op == 'ex' and not v:
            # a known instance
            cands = {b.args[0] for b, w in lits.items() if b.op == 'mem' and w}
            cands |= self.elements(a, lits)
            for t in sorted(cands, key=lambda t: t.id)[:8]:
                r = as_n(subst_any(a.args[1], {a.args[0]: t}))
                if r.a is not None and t.op == 'at':
                    r = cofactor(r, mk('mem', t, t.args[0]), 1)
                for b, w in lits.items():
                    if r.a is None:
                        break
                    r = cofactor(r, b, w)
                if r is TRUE:
                    return False
        for e, w in lits.items():
            # a known instance contradicts an existing "there is none"
            if e.op == 'ex' and not w and a.op in ('mem', 'eq', 'edge', 'isinst', 'raises', 'truthy', 'isnone', 'isnan') and (a.op != 'mem' or v):
                for t in ([a.args[0]] if a.op == 'mem' else []) + \
                        [b.args[0] for b, x in lits.items() if b.op == 'mem' and x][:4] + \
                        sorted(self.elements(e, list(lits) + [a]), key=lambda t: t.id)[:4]:
                    r = as_n(subst_any(e.args[1], {e.args[0]: t}))
                    if r.a is not None and t.op == 'at':
                        r = cofactor(r, mk('mem', t, t.args[0]), 1)
                    r = cofactor(r, a, v) if r.a is not None else r
                    for b, x in lits.items():
                        if r.a is None:
                            break
                        r = cofactor(r, b, x)
                    if r is TRUE:
                        return False
        return True

    def total(self, lits, a):
        """of two numbers one is greater or they are equal"""
        def diff(e):
            x, y = e.args
            if (isnum(x) or x.op != 'c') and (isnum(y) or y.op != 'c') and x.op not in NOTNUM and y.op not in NOTNUM:
                return to_poly(t_sub(x, y))
            return None
        neg = [b for b, w in lits.items() if not w and b.op in ('pos', 'eq')]
        if a.op == 'pos':
            p = to_poly(a.args[0])
            q = {m: -c for m, c in p.items()}
            if any(b.op == 'pos' and to_poly(b.args[0]) == q for b in neg):
                return not any(b.op == 'eq' and diff(b) in (p, q) for b in neg)
        else:
            p = diff(a)
            if p:
                q = {m: -c for m, c in p.items()}
                ps = [to_poly(b.args[0]) for b in neg if b.op == 'pos']
                return not (p in ps and q in ps)
        return True

    def elements(self, e, lits):
        """elements of the collections an existential ranges over that the other conditions mention"""
        colls = [x.args[1] for x in atoms_of(e.args[1]) if x.op == 'mem' and x.args[0] is e.args[0]]
        out = set()
        if not colls:
            return out
        for b in lits:
            if b is e or b.op == 'ex':
                continue
            out |= {t for t in ats_of(b) if t.args[0] in colls and t.args[1].op == 'var'}
        return out

    def ex_implies(self, a, b):
        """ex a => ex b ?"""
        k = ('eximp', a.id, b.id)
        r = self.memo.get(k)
        if r is None:
            x = fresh()
            p = as_n(subst_any(a.args[1], {a.args[0]: x}))
            q = as_n(subst_any(b.args[1], {b.args[0]: x}))
            self.memo[k] = False
            g = AND(p, NOT(q))
            r = g is FALSE or (g is not p and self.feasible(g) is None)
            self.memo[k] = r
        return r

    def cls(self, n):
        if self.prog is None or ':' not in str(n):
            return None
        return self.prog.get(n)

    def sub(self, a, b):
        if a == b:
            return True
        x, y = self.cls(a), self.cls(b)
        if x and y:
            return self.prog.issub(x, y)
        return (a, b) in (('builtins.bool', 'builtins.int'),)

    def related(self, a, b):
        if self.sub(a, b) or self.sub(b, a):
            return True
        x, y = self.cls(a), self.cls(b)
        if x and y:
            return any(self.prog.issub(c, x) and self.prog.issub(c, y) for c in self.prog.classes())
        if x or y:
            return False
        simple = ('builtins.str', 'builtins.dict', 'builtins.list', 'builtins.set', 'builtins.int', 'builtins.float',
                  'builtins.tuple')
        return not (str(a) in simple and str(b) in simple)

    # ------------------------------------------------------------ comparison
    def compare(self, A, B, pc=TRUE, path=()):
        """list of Rec"""
        if A is B or pc is FALSE:
            return []
        self.steps += 1
        if self.steps > 20000:
            return [Rec('unk', pc, A, B, path + ('budget',))]
        A, B, pc = self.deepen(A, B, pc)
        if A is B or pc is FALSE:
            return []
        B = self.unify_atoms(A, B)
        if A is B:
            return []
        if any(a.op in DEEP for a in atoms_of(A)):
            # atoms that only agree where the guard holds
            A, B = self.unify_under(A, B, pc)
        P = lift(lambda x, y: leaf(mk('pair', x, y)) if x is not y else BOT, A, B, pc=pc)
        out = []
        if P is BOT:
            return out
        for t, g in leaves(P, pc).items():
            if t.op != 'pair':
                continue
            # BOT marks equal leaves, but lift collapses them: recheck exact guard
            a, b = t.args
            g = AND(g, AND(is_leaf(A, a), is_leaf(B, b)))
            if g is FALSE or self.feasible(g) is None:
                continue
            out += self.terms(a, b, g, path)
            if len(out) > self.MAXREC:
                break
        return out

    def deepen(self, A, B, pc):
        """conditions known here also simplify the terms that mention them inside"""
        for _ in range(5):
            tops = sorted(set(atoms_of(A)) | set(atoms_of(B)) | set(atoms_of(pc)), key=lambda t: t.id)
            inside = set(tops) | {t for v in (A, B) for t in leaf_terms(v)}
            hit = None
            for x in tops:
                if x in self.expanded:
                    continue
                if any(y is not x and y.op not in ('c', 'in', 'var') and occurs_term(x, y) for y in inside):
                    hit = x
                    break
            if hit is None:
                return A, B, pc
            x = hit
            self.expanded.add(x)
            try:
                def ex(n):
                    hi, lo = BOT, BOT
                    if cofactor(pc, x, 1) is not FALSE:
                        hi = subst(cofactor(n, x, 1), {x: TRUE})
                    if cofactor(pc, x, 0) is not FALSE:
                        lo = subst(cofactor(n, x, 0), {x: FALSE})
                    if hi is BOT:
                        return lo
                    if lo is BOT:
                        return hi
                    return ite(atom(x), hi, lo)
                A, B, pc = ex(A), ex(B), ite(atom(x), subst(cofactor(pc, x, 1), {x: TRUE}),
                                             subst(cofactor(pc, x, 0), {x: FALSE}))
                r = self.deepen(A, B, pc)
            finally:
                self.expanded.discard(x)
            return r
        return A, B, pc

    def unify_under(self, A, B, pc):
        return A, B

    def unify_atoms(self, A, B):
        aa, bb = atoms_of(A), atoms_of(B)
        sa = [x for x in aa if x not in set(bb)]
        sb = [x for x in bb if x not in set(aa)]
        if not sa or not sb:
            return B
        left = list(sa)
        rest = []
        for b in sb:
            for a in sa:
                if a.op == b.op and self.same(a, b):
                    B = ite(atom(a), cofactor(B, b, 1), cofactor(B, b, 0))
                    if a in left:
                        left.remove(a)
                    break
            else:
                rest.append(b)
        if left and rest:
            self.doubt(left, rest)
        return B

    def doubt(self, left, rest):
        """conditions that may well be the same, but are not recognised as such, decide nothing"""
        for b in rest:
            for a in left:
                if a.op != b.op:
                    continue
                k = ('doubt', a.id, b.id)
                r = self.memo.get(k)
                if r is None:
                    self.memo[k] = False
                    if self.shape(a) != self.shape(b):
                        r = False
                    else:
                        recs = self.terms(a, b, TRUE, ())
                        r = bool(recs) and all(x.kind == 'unk' for x in recs)
                    self.memo[k] = r
                if r:
                    for x in (a, b):
                        if self.memo.get(('clear', x.id)) is not False:
                            self.memo[('clear', x.id)] = False
                            for key in [key for key in self.memo if key[0] == 'cg']:
                                del self.memo[key]

    def same(self, a, b):
        """deep equality of two terms under no assumptions"""
        if a is b:
            return True
        if not isinstance(a, T) or not isinstance(b, T):
            return False
        k = ('same', a.id, b.id)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = False
            if self.shape(a) != self.shape(b):
                r = False
            else:
                r = not self.terms(a, b, TRUE, ())
            self.memo[k] = r
        return r

    COLL = ('setv', 'dictv', 'listv', 'slice', 'keysof', 'attr', 'in', 'order', 'sorted', 'foldv', 'at', 'get', 'graphv',
            'splice', 'var', 'tup')

    def shape(self, t):
        if t.op in self.COLL:
            return 'coll'
        return t.op

    def lens(self, t, g):
        """lengths of lists that are empty where the guard holds"""
        env = {}
        for x in lens_of(t):
            ps = unsplice(seq_pieces(x.args[0]))
            h = AND(g, pieces_nonempty(ps))
            if h is FALSE or self.feasible(h) is None:
                env[x] = leaf(numc(0))
        return env

    def signs(self, t, g):
        """absolute values whose sign the guard decides"""
        env = {}
        for x in parts_of(t, 'abs'):
            p = x.args[0]
            h = AND(g, NOT(pos(p)))
            k = AND(g, pos(p))
            if h is FALSE or self.feasible(h) is None:
                env[x] = leaf(p)
            elif k is FALSE or self.feasible(k) is None:
                env[x] = leaf(t_mul(numc(-1), p))
        return env

    def leafrec(self, a, b, g, path):
        if g is not TRUE:
            ea, eb = self.lens(a, g), self.lens(b, g)
            if ea or eb:
                x, y = subst(leaf(a), ea), subst(leaf(b), eb)
                if x is y:
                    return []
            if parts_of(a, 'abs') or parts_of(b, 'abs'):
                ea, eb = self.signs(a, g), self.signs(b, g)
                if ea or eb:
                    x, y = subst(leaf(a), ea), subst(leaf(b), eb)
                    if x is y:
                        return []
            if a.op in self.NUM and b.op in self.NUM and (a.op != 'c' or isnum(a)) and (b.op != 'c' or isnum(b)) \
                    and self.implied_eq(a, b, g):
                return []
            env = {}
            for c in atoms_of(g):
                e = self.names(c)
                if e is not None and (occurs_term(e[0], a) or occurs_term(e[0], b)) and \
                        (cofactor(g, c, 0) is FALSE or self.feasible(AND(g, NOT(atom(c)))) is None):
                    env[e[0]] = leaf(e[1])
            if env and subst(leaf(a), env) is subst(leaf(b), env):
                return []
        kind = 'diff' if self.clear(a) and self.clear(b) and self.clear_guard(g) else 'unk'
        return [Rec(kind, g, a, b, path)]

    def clear_guard(self, g):
        """is g consistent whatever the conditions that are not understood"""
        k = ('cg', g.id)
        r = self.memo.get(k)
        if r is None:
            h = g
            for a in atoms_of(g):
                if not self.clear(a):
                    h = AND(cofactor(h, a, 1), cofactor(h, a, 0))
            r = h is not FALSE and self.feasible(h) is not None
            self.memo[k] = r
        return r

    def final(self, recs):
        for r in recs:
            if r.kind == 'diff' and not self.clear_guard(r.guard):
                r.kind = 'unk'
        return recs

    def terms(self, a, b, g, path):
        if a is b:
            return []
        if a.op == 'bot' or b.op == 'bot':
            return []
        A, B = a.op, b.op
        if A == 'opaque' or B == 'opaque':
            return [Rec('unk', g, a, b, path)]
        if A == 'undef' or B == 'undef':
            return [Rec('unk' if not (self.clear(a) and self.clear(b)) else 'diff', g, a, b, path)]
        if A == 'fresh' or B == 'fresh':
            if B == 'fresh' and A != 'fresh' and held_elsewhere(a):
                return self.leafrec(a, b, g, path + ('identity',))
            return self.arg(a.args[0] if A == 'fresh' else a, b.args[0] if B == 'fresh' else b, g, path)
        if 'setv' in (A, B):
            if self.iscoll(a) and self.iscoll(b):
                v = fresh('e')
                return self.compare(mem_t(v, a), mem_t(v, b), g, path + ('element',))
            return self.leafrec(a, b, g, path)
        if 'dictv' in (A, B):
            if self.iscoll(a) and self.iscoll(b):
                v = fresh('k')
                da, db = mem_t(v, a), mem_t(v, b)
                r = self.compare(da, db, g, path + ('keys',))
                both = AND(g, da)
                if self.feasible(both) is not None:
                    r += self.compare(get_t(a, v), get_t(b, v), both, path + ('value',))
                return r
            return self.leafrec(a, b, g, path)
        if 'listv' in (A, B) or (A == 'tup') != (B == 'tup'):
            if self.few:
                x, y = (a, b) if A in ('listv', 'tup') else (b, a)
                if y.op in ('in', 'attr', 'get', 'at', 'var') and self.clear(x) and self.clear(y) and not occurs_term(y, g) and \
                        (x.op == 'tup' or all_ones(x.args[0])):
                    # a list of so many elements and a value that can be anything
                    return [Rec('diff', g, a, b, path)]
            if self.iscoll(a) and self.iscoll(b):
                return self.pieces(seq_pieces(a), seq_pieces(b), g, path, a, b)
            return self.leafrec(a, b, g, path)
        if A == 'tup' and B == 'tup':
            if len(a.args) != len(b.args):
                return self.leafrec(a, b, g, path)
            out = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                out += self.arg(x, y, g, path + ('item %d' % i,))
            return out
        if 'poly' in (A, B) or A in ('c',) and B not in ('c',) and False:
            return self.poly(a, b, g, path)
        if A == 'instv' and B == 'instv':
            return self.inst(a, b, g, path)
        if A == 'modv' or B == 'modv':
            return self.modv(a, b, g, path)
        if A == 'graphv' or B == 'graphv':
            return self.graph(a, b, g, path)
        if A == 'foldv' and B == 'foldv':
            return self.foldv(a, b, g, path)
        if A == 'while' or B == 'while':
            r = self.whiles(a, b, g, path) if A == B else [Rec('unk', g, a, b, path + ('loop shape',))]
            if r and not any(x.kind == 'diff' for x in r):
                r = self.one_round(a, b, g, path) or r
            return r
        if A == 'foldv' or B == 'foldv':
            x = self.no_rounds(a, g) if A == 'foldv' else self.no_rounds(b, g)
            if x is not None:
                return self.compare(x if A == 'foldv' else leaf(a), x if B == 'foldv' else leaf(b), g, path)
            return [Rec('unk', g, a, b, path + ('loop shape',))]
        if A in BINDER and A == B and A not in ('dictv', 'setv', 'for'):
            return self.binder(a, b, g, path)
        if A in ('idx', 'U') and B in ('idx', 'U') and A != B:
            return [Rec('unk', g, a, b, path)]
        if self.few and A == B == 'call' and len(a.args) == 4 == len(b.args) and a.args[0] is b.args[0] and \
                a.args[3] != b.args[3]:
            # the same operation counted in another way
            return [Rec('unk', g, a, b, path + ('number of the call',))]
        if A == B and len(a.args) == len(b.args):
            out = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                out += self.arg(x, y, g, path + (self.argname(a, i),))
                if out and any(r.kind == 'diff' for r in out):
                    break
            return out
        return self.leafrec(a, b, g, path)

    @staticmethod
    def argname(a, i):
        return a.op if a.op in ('get', 'at', 'attr') else '%s.%d' % (a.op, i)

    def iscoll(self, t):
        return t.op not in ('c', 'poly', 'strcat', 'instv', 'cls', 'func', 'exp', 'log', 'abs', 'pow', 'graphv', 'dist') \
            or (t.op == 'c' and isinstance(t.args[0], (tuple, str)))

    def arg(self, x, y, g, path):
        if isinstance(x, N) or isinstance(y, N):
            return self.compare(as_n(x), as_n(y), g, path) if isinstance(x, (T, N)) and isinstance(y, (T, N)) \
                else [Rec('unk', g, const(str(x)), const(str(y)), path)]
        if isinstance(x, T) and isinstance(y, T):
            return self.terms(x, y, g, path)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                kind = 'diff' if self._clear(x) and self._clear(y) else 'unk'
                return [Rec(kind, g, mk('args', *x), mk('args', *y), path + ('length',))]
            out = []
            for p, q in zip(x, y):
                out += self.arg(p, q, g, path)
            return out
        if x == y:
            return []
        return [Rec('diff', g, const(str(x)), const(str(y)), path)]

    def binder(self, a, b, g, path):
        v = fresh('b')
        pa = subst_any(a.args[1:], {a.args[0]: v})
        pb = subst_any(b.args[1:], {b.args[0]: v})
        out = []
        if len(pa) != len(pb):
            return [Rec('unk', g, a, b, path)]
        for x, y in zip(pa, pb):
            r = self.arg(x, y, g, path + (a.op,))
            out += r
        if a.op in ('first', 'last', 'sum', 'prod') and out:
            # different index spaces do not make different values
            if pa and isinstance(pa[0], T) and pa[0].op in ('U', 'idx') and pa[0] is not pb[0]:
                same = a.op == 'sum' and len(pa) == 2 and all(isinstance(p[0], T) for p in (pa, pb)) and self.other_values(
                    pa[0], pb[0], v, (as_n(pa[1]),), (as_n(pb[1]),), g)
                out = [Rec('diff' if same else 'unk', r.guard, r.a, r.b, r.path) for r in out]
        return out

    # -- arithmetic
    def poly(self, a, b, g, path):
        fa, fb = self.factors(a), self.factors(b)
        ua = [f for f in fa if f not in fb]
        ub = [f for f in fb if f not in fa]
        env = {}
        for y in ub:
            for x in ua:
                if self.same_under(x, y, g):
                    env[y] = leaf(x)
                    break
        if env:
            n = subst(leaf(b), env)
            if n.a is None:
                if n.t is a:
                    return []
                b = n.t
                if a.op != 'poly' and b.op != 'poly':
                    return self.terms(a, b, g, path)
        # eq a - b == 0 implied by the guard?
        if self.implied_eq(a, b, g):
            return []
        return self.leafrec(a, b, g, path)

    NUM = ('poly', 'c', 'in', 'attr', 'get', 'at', 'len', 'sum', 'var', 'call', 'max', 'min', 'abs', 'prod')

    def implied_eq(self, a, b, g):
        """the guard bounds the difference from both sides"""
        if not any(x.op == 'pos' for x in atoms_of(g)):
            return False
        d = t_sub(a, b)
        if isinstance(d, N):
            if d.a is not None:
                return False
            d = d.t
        z = numc(0)
        for u, v in ((d, z), (z, d)):
            h = AND(g, lt(u, v))
            if h is not FALSE and self.feasible(h) is not None:
                return False
        return True

    def same_under(self, x, y, g):
        return self.same(x, y) or (x.op == y.op and not self.terms(x, y, g, ()))

    @staticmethod
    def factors(t):
        if t.op != 'poly':
            return {t: 1}
        return {f: 1 for m, c in t.args for f, e in m}

    # -- lists
    def pieces(self, pa, pb, g, path, a, b):
        pa, pb = self.simp_pieces(unsplice(pa), g), self.simp_pieces(unsplice(pb), g)
        if len(pa) != len(pb):
            if all_ones(pa) and all_ones(pb):
                return self.leafrec(a, b, g, path + ('length',))
            la, lb = len_lower(pa), len_lower(pb)
            known = all(p.op == 'one' for p in pa + pb)
            if known and self.clear(a) and self.clear(b):
                return self.guarded_lists(pa, pb, g, path, a, b)
            if pa and pb and self.clear(a) and self.clear(b):
                # same multiset of loops plus an extra piece: lengths differ
                if self.prefix_len(pa, pb, g):
                    return [Rec('diff', g, a, b, path + ('length',))]
            if (not pa or not pb) and self.clear(a) and self.clear(b):
                ne = pieces_nonempty(pa or pb)
                gg = AND(g, ne)
                if self.feasible(gg) is None:
                    return []
                return [Rec('diff', gg, a, b, path + ('length',))]
            return [Rec('unk', g, a, b, path + ('pieces',))]
        out = []
        for i, (p, q) in enumerate(zip(pa, pb)):
            out += self.piece(p, q, g, path + ('[%d]' % i,))
        if out and len(pa) > 1:
            la, lb = self.commute(pa, pb, g)
            if len(la) < len(pa):
                out = []
                for i, (p, q) in enumerate(zip(la, lb)):
                    out += self.piece(p, q, g, path + ('[%d]' % i,))
        return out

    def commute(self, pa, pb, g):
        """drop equal pieces; pieces that are never both present have no order"""
        rest, left = list(pb), []
        for p in pa:
            for j, q in enumerate(rest):
                if all(self.never_both(q, x, g) for x in rest[:j]) and all(self.never_both(p, x, g) for x in left) and \
                        not self.piece(p, q, g, ()):
                    del rest[j]
                    break
            else:
                left.append(p)
        return left, rest

    def never_both(self, p, q, g):
        h = g
        for x in (p, q):
            if x.op == 'one':
                h = AND(h, x.args[0])
            elif x.op == 'for':
                h = AND(h, open_for(x)[2])
            else:
                return False
        return h is FALSE or self.feasible(h) is None

    def guarded_lists(self, pa, pb, g, path, a, b):
        # enumerate the presence patterns of a few optional elements
        conds = []
        for p in pa + pb:
            if p.args[0] is not TRUE:
                conds.append(p.args[0])
        out = []

        def expand(ps, k, gg):
            if k == len(ps):
                return [((), gg)]
            r = []
            p = ps[k]
            for val in (True, False):
                h = AND(gg, p.args[0] if val else NOT(p.args[0]))
                if h is FALSE:
                    continue
                for rest, h2 in expand(ps, k + 1, h):
                    r.append((((p.args[1],) if val else ()) + rest, h2))
            return r
        if len(conds) > 6:
            return [Rec('unk', g, a, b, path)]
        for la, h in expand(pa, 0, g):
            for lb, h2 in expand(pb, 0, h):
                if self.feasible(h2) is None:
                    continue
                if len(la) != len(lb):
                    out.append(Rec('diff', h2, a, b, path + ('length',)))
                else:
                    for x, y in zip(la, lb):
                        out += self.compare(x, y, h2, path)
                if len(out) > self.MAXREC:
                    return out
        return out

    def prefix_len(self, pa, pb, g):
        """the shorter list is a strict sub-sequence of the longer one: same loops, one more piece present"""
        lo, hi = (pa, pb) if len(pa) < len(pb) else (pb, pa)
        i = 0
        extra = []
        for p in hi:
            if i < len(lo) and not self.piece(lo[i], p, g, ()):
                i += 1
            else:
                extra.append(p)
        if i != len(lo):
            return False
        return self.feasible(AND(g, pieces_nonempty(tuple(extra)))) is not None

    def simp_pieces(self, ps, g):
        out = ()
        for p in ps:
            if p.op == 'one':
                h = AND(g, p.args[0])
                if h is FALSE or self.feasible(h) is None:
                    continue
                if self.feasible(AND(g, NOT(p.args[0]))) is None:
                    p = one(TRUE, p.args[1])
            out += (p,)
        return out

    def disordered(self, ba, ga, bb, sb, v, path):
        """the nodes of a graph in whatever order they have been added, where their order is called for"""
        if ba.op != 'U' or bb.op != 'idx' or bb.args[0].op != 'len' or bb.args[0].args[0].op != 'order':
            return False
        if any(str(x).startswith(('call', 'effects', 'arg')) for x in path):
            return False
        if len(sb) != 1 or sb[0].op != 'one' or sb[0].args[1] is not leaf(mk('at', bb.args[0].args[0], v)):
            return False
        return not any(x.op == 'eq' and v in x.fv for x in atoms_of(ga))

    def piece(self, p, q, g, path):
        if p is q:
            return []
        if p.op == 'one' and q.op == 'one':
            r = self.compare(p.args[0], q.args[0], g, path + ('present',))
            return r + self.compare(p.args[1], q.args[1], AND(g, p.args[0]), path)
        if p.op == 'for' and q.op == 'for':
            v = fresh('i')
            _, ba, ga, sa = open_for(p, v)
            _, bb, gb, sb = open_for(q, v)
            if ba is not bb:
                if ba.op != bb.op:
                    kind = 'unk'
                    if self.unrelated(ba, q, g) or self.unrelated(bb, p, g) or self.disordered(ba, ga, bb, sb, v, path):
                        kind = 'diff'
                    return [Rec(kind, g, ba, bb, path + ('base',))]
                if self.arg(ba.args, bb.args, g, path + ('base',)):
                    diff = self.unrelated(ba, q, g) or self.unrelated(bb, p, g) or self.other_values(
                        ba, bb, v, (ga, sa), (gb, sb), g)
                    return [Rec('diff' if diff else 'unk', g, ba, bb, path + ('base',))]
            g = AND(g, base_fact(ba, v), base_fact(bb, v))
            r = self.compare(ga, gb, g, path + ('filter',))
            h = AND(g, ga)
            r += self.pieces(sa, sb, h, path, p, q)
            return r
        if {p.op, q.op} == {'one', 'for'}:
            return [Rec('unk', g, p, q, path)]
        return self.leafrec(p, q, g, path)

    def other_values(self, ba, bb, v, pa, pb, g):
        """loops that do the same with every element, over the results of the same operation on other inputs"""
        if ba.op != 'idx' or bb.op != 'idx' or ba.args[0].op != 'len' or bb.args[0].op != 'len':
            return False
        x, y = ba.args[0].args[0], bb.args[0].args[0]
        if x.op != y.op or x.op not in ('call', 'poly', 'while') or x.op == 'call' and (
                x.args[0] is not y.args[0] or x.args[3] != y.args[3]):
            return False
        at = mk('at', x, v)
        if not any(occurs_term(at, z) for z in pa) or x.op != 'while' and (
                not self.clear(x) or not self.clear(y)):
            return False
        e = fresh('e')
        qa, qb = I._sub(pa, {at: e}), I._sub(pb, {mk('at', y, v): e})
        if occurs_term(x, qa) or occurs_term(y, qb):
            qb = I._sub(qb, {y: x})
        if self.compare(as_n(qa[0]), as_n(qb[0]), g, ()):
            return False
        if len(pa) > 1 and (self.pieces(qa[1], qb[1], g, (), x, y) if isinstance(qa[1], tuple)
                            else self.compare(as_n(qa[1]), as_n(qb[1]), g, ())):
            return False
        return any(r.kind == 'diff' for r in self.terms(x, y, g, ()))

    def unrelated(self, base, other, g):
        """a loop over a collection of the initial state that the other side does not depend on at all"""
        if base.op != 'idx' or base.args[0].op != 'len':
            return False
        x = base.args[0].args[0]
        if not self.clear(x) or not self.clear(other):
            return False
        return any(not occurs_term(y, other) for y in primitives(x))

    # -- objects
    def inst(self, a, b, g, path):
        out = self.terms(a.args[0], b.args[0], g, path + ('class',))
        fa, fb = dict(zip(a.args[1], a.args[2])), dict(zip(b.args[1], b.args[2]))
        return out + self.fields(fa, fb, g, path, lambda n: leaf(mk('absent', n)), a, b)

    def fields(self, fa, fb, g, path, default, a, b):
        out = []
        for n in sorted(set(fa) | set(fb)):
            if n not in fb and self.ignorable(n):
                continue
            x, y = fa.get(n), fb.get(n)
            x = default(n) if x is None else as_n(x)
            y = default(n) if y is None else as_n(y)
            out += self.compare(x, y, g, path + ('.' + n,))
        return out

    def ignorable(self, n):
        return self.attrs is not None and n not in self.attrs

    def modv(self, a, b, g, path):
        def parts(t):
            if t.op == 'modv':
                return t.args[0], dict(zip(t.args[1], t.args[2]))
            return t, {}
        oa, fa = parts(a)
        ob, fb = parts(b)
        out = self.terms(oa, ob, g, path)
        return out + self.fields(fa, fb, g, path, lambda n: leaf(mk('attr', oa, n)), a, b)

    def graph(self, a, b, g, path):
        if (a.op == 'graphv') != (b.op == 'graphv') and not (self.iscoll(a) or self.iscoll(b)):
            return self.leafrec(a, b, g, path)
        x, y = fresh('n'), fresh('m')
        out = self.compare(node_t(a, x), node_t(b, x), g, path + ('nodes',))
        out += self.compare(edge_t(a, x, y), edge_t(b, x, y), g, path + ('edges',))
        na = dict(zip(a.args[2], a.args[3])) if a.op == 'graphv' else None
        nb = dict(zip(b.args[2], b.args[3])) if b.op == 'graphv' else None

        if I.coll.made(a) and I.coll.made(b) and len(a.args) > 4 and len(b.args) > 4:
            if a.args[4] is not b.args[4]:
                out += [Rec('diff', g, a.args[4], b.args[4], path + ('class',))]
            fa, fb = (x.args[5] if len(x.args) > 5 else FALSE for x in (a, b))
            out += self.compare(fa, fb, g, path + ('frozen',))

        def init(t, n):
            return t.args[4] if len(t.args) > 4 and not I.coll.made(t) else t
        names = sorted(set(na or ()) | set(nb or ()))
        for n in names:
            def val(t, d):
                if d is not None and n in d:
                    return d[n]
                o = init(t, n)
                if o.op == 'graphv':
                    return None
                if n == 'loci':
                    return mk('dictv', *close2(KEY, node_t(o, KEY), leaf(mk('loci', o, KEY))))
                return mk('dictv', *close2(KEY, atom(mk('mem', const(n), mk('nattrs', o, KEY))),
                                           leaf(mk('nattr', o, KEY, n))))
            va, vb = val(a, na), val(b, nb)
            e = mk('dictv', *close2(KEY, FALSE, BOT))
            out += self.arg(va if va is not None else e, vb if vb is not None else e, g, path + ('node ' + n,))
        return out

    # -- loops
    def no_rounds(self, t, g):
        """the starting value of a loop that has nothing to run over where the guard holds"""
        if g is TRUE or t.args[1].op != 'idx':
            return None
        n = t.args[1].args[0]
        h = AND(g, pos(n))
        if h is FALSE or self.feasible(h) is None:
            return FALSE if t.args[6] is not None else as_n(t.args[4][0])
        return None

    def foldv(self, a, b, g, path):
        va = I.open_fold(a)
        n = len(va[4])
        bvs, base, g2, stop2, inits2, bodies2, sel2 = b.args
        if len(inits2) != n:
            return [Rec('unk', g, a, b, path + ('carried values',))]
        vs, base1, g1, stop1, inits1, bodies1, sel1 = va
        if base1 is not base:
            if base1.op != base.op:
                return [Rec('unk', g, a, b, path + ('loop base',))]
            if self.arg(base1.args, base.args, g, path + ('loop base',)):
                return [Rec('unk', g, a, b, path + ('loop base',))]
        if (sel1 is None) != (sel2 is None):
            return [Rec('unk', g, a, b, path)]
        best = None
        perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
        for pm in perms:
            if sel1 is None and pm[0] != 0:
                continue
            ov = [vs[0]] + [None] * n
            for i, j in enumerate(pm):
                ov[1 + j] = vs[1 + i]
            _, _, gg, st, ii, bb, sl = I.open_fold(b, tuple(ov))
            g = AND(g, base_fact(base1, vs[0]))
            out = self.compare(g1, gg, g, path + ('loop guard',))
            out += self.compare(stop1, st, AND(g, g1), path + ('stop',))
            for i, j in enumerate(pm):
                out += self.arg(inits1[i], ii[j], g, path + ('start %d' % i,))
                out += self.compare(bodies1[i], bb[j], AND(g, g1), path + ('step %d' % i,))
            if sl is not None:
                out += self.compare(sel1, sl, AND(g, g1), path + ('result',))
            if not out:
                return []
            if best is None or len(out) < len(best):
                best = out
        if n > 1:
            best = [Rec('unk' if r.path[-1:] == ('unk',) else r.kind, r.guard, r.a, r.b, r.path) for r in best]
        return best

    def one_round(self, a, b, g, path):
        """definite differences where every loop involved ends after one or two rounds"""
        if self.rounds >= 2:
            return []
        both = a.op == 'while' and b.op == 'while' and a is not b
        for na, nb in ((1, 1), (1, 2), (2, 1), (0, 1), (1, 0)) if both else ((1, 1),):
            out = self.ended(a, b, g, path, na, nb)
            if out is None:
                break
            if out:
                return out
        return []

    def ended(self, a, b, g, path, na, nb):
        env = {}
        h = g
        loops = {t for t in (a, b) if t.op == 'while'} | set(parts_of(g, 'while'))
        for t in loops:
            r = round_of(t, na if t is a else nb if t is b else 1)
            if r is None:
                return None
            h = AND(h, r[0])
            env[t] = r[1].t if r[1].a is None else r[1]
        h = as_n(subst_any(h, env))
        if h is FALSE or not self.clear_guard(h):
            return []
        x, y = (as_n(env.get(t, t)) for t in (a, b))
        self.rounds += 1
        try:
            r = self.compare(x, y, h, path + ('after one round' if na == nb == 1 else 'after %d and %d rounds' % (na, nb),))
        finally:
            self.rounds -= 1
        return [q for q in r if q.kind == 'diff']

    def whiles(self, a, b, g, path):
        d1, vs, c1, i1, b1, s1 = I.open_while(a)
        n = len(i1)
        if a.args[0] != b.args[0] or len(b.args[3]) != n or (s1 is None) != (b.args[5] is None):
            return [Rec('unk', g, a, b, path + ('loop shape',))]
        best = None
        for pm in (itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]):
            if s1 is None and pm[0] != 0:
                continue
            ov = [vs[0]] + [None] * n
            for i, j in enumerate(pm):
                ov[1 + j] = vs[1 + i]
            _, _, c2, i2, b2, s2 = I.open_while(b, tuple(ov))
            out = self.compare(c1, c2, g, path + ('while condition',))
            for i, j in enumerate(pm):
                out += self.arg(i1[i], i2[j], g, path + ('start %d' % i,))
                out += self.compare(b1[i], b2[j], g if d1_true(a) else AND(g, c1), path + ('step %d' % i,))
            if s2 is not None:
                out += self.compare(s1, s2, g, path + ('result',))
            if not out:
                return []
            if best is None or len(out) < len(best):
                best = out
        return best


def d1_true(t):
    return t.args[0] is True


def round_of(t, n=1):
    """(guard under which a while loop ends after n rounds, its value then)"""
    dw, vs, cond, inits, bodies, sel = I.open_while(t)
    if sel is not None or dw == 2 and dw is not True:
        return None

    def env(vals, k):
        e = {vs[0]: const(k)}
        for v, x in zip(vs[1:], vals):
            x = as_n(x)
            e[v] = x.t if x.a is None else x
        return e
    h, vals = FALSE if dw and not n else TRUE, [as_n(x) for x in inits]
    for k in range(n):
        e = env(vals, k)
        c = as_n(subst_any(cond, e))
        h = AND(h, c if not dw or k < n - 1 else NOT(c))
        vals = [as_n(subst_any(b, e)) for b in bodies]
    if not dw:
        h = AND(h, NOT(as_n(subst_any(cond, env(vals, n)))))
    return h, vals[0]


def held_elsewhere(t):
    """an object of the initial state"""
    while t.op in ('attr', 'get', 'at', 'modv') and isinstance(t.args[0], T):
        t = t.args[0]
    return t.op == 'in'


def close2(v, *ps):
    bv, qs = close(v, *ps)
    return (bv,) + qs


def is_leaf(v, t):
    """guard under which v is leaf t"""
    memo = {}

    def rec(n):
        if n.a is None:
            return C(n.t is t)
        r = memo.get(n.id)
        if r is None:
            r = ite(atom(n.a), rec(n.hi), rec(n.lo))
            memo[n.id] = r
        return r
    return rec(v)


def len_lower(ps):
    return sum(1 for p in ps if p.op == 'one' and p.args[0] is TRUE)


_ats = {}
core.RESET.append(lambda: _ats.clear())


def lens_of(t):
    out, seen = [], set()

    def rec(y):
        if isinstance(y, tuple):
            for z in y:
                rec(z)
        elif isinstance(y, N):
            if y.id not in seen:
                seen.add(y.id)
                rec((y.t,) if y.a is None else (y.a, y.hi, y.lo))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op == 'len' and y.args[0].op == 'listv':
                out.append(y)
            elif y.op not in BINDER and y.op not in BODY:
                rec(y.args)
    rec(t)
    return out


NOTNUM = ('tup', 'list', 'dict', 'setv', 'cls', 'func', 'ext', 'strcat')


def parts_of(x, op):
    out, seen = set(), set()

    def rec(y):
        if isinstance(y, tuple):
            for z in y:
                rec(z)
        elif isinstance(y, (T, N)) and y.id not in seen:
            seen.add(y.id)
            if isinstance(y, N):
                if y.a is None:
                    rec(y.t)
                else:
                    rec(y.a)
                    rec(y.hi)
                    rec(y.lo)
            else:
                if y.op == op:
                    out.add(y)
                rec(y.args)
    rec(x)
    return sorted(out, key=lambda t: t.id)


def without(n, s):
    """condition n where s has no member"""
    if isinstance(n, T):
        n = atom(n)
    env = {}
    for a in atoms_of(n):
        if a.op == 'mem' and a.args[1] is s:
            env[a] = FALSE
        elif a.op == 'ex':
            b = as_n(a.args[1])
            r = without(b, s)
            if r is not b:
                env[a] = FALSE if r is FALSE else atom(mk('ex', a.args[0], r))
    for a, v in env.items():
        n = OR(AND(v, cofactor(n, a, 1)), AND(NOT(v), cofactor(n, a, 0)))
    return n


def ats_of(x):
    """element terms s[i] inside x"""
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            if isinstance(y, (T, N, tuple)):
                r |= ats_of(y)
        return r
    k = x.id
    r = _ats.get(k)
    if r is None:
        if isinstance(x, N):
            r = ats_of(x.t) if x.a is None else ats_of(x.a) | ats_of(x.hi) | ats_of(x.lo)
        else:
            r = ats_of(x.args)
            if x.op == 'at':
                r |= {x}
        _ats[k] = r
    return r


def primitives(x):
    """the parts of the initial state a term is made of"""
    out, seen = [], set()

    def rec(y):
        if isinstance(y, tuple):
            for z in y:
                rec(z)
        elif isinstance(y, N):
            if y.id not in seen:
                seen.add(y.id)
                rec((y.t,) if y.a is None else (y.a, y.hi, y.lo))
        elif isinstance(y, T) and y.id not in seen:
            seen.add(y.id)
            if y.op == 'in' or y.op == 'attr' and y.args[0].op in ('in', 'attr'):
                out.append(y)
            else:
                rec(y.args)
    rec(x)
    return out


DEEP = {'mem', 'reach', 'edge', 'ex', 'truthy', 'isnone', 'eq', 'pos', 'isnan', 'isinf', 'isinst'}


def leaf_terms(v):
    out, seen = [], set()
    st = [v]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.a is None:
            out.append(n.t)
        else:
            st += [n.hi, n.lo]
    return out


def base_fact(base, v):
    """what being inside a loop over the base says"""
    r = TRUE
    if base.op == 'idx':
        r = atom(mk('inidx', v, base.args[0]))
        if base.args[0].op == 'len':
            f = truthy_t(base.args[0].args[0])
            if isinstance(f, N):
                r = AND(r, f)
    return r
