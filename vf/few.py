"""The same comparison on inputs with few elements: definite differences only.

Where loops of the two sides can not be lined up, the collections and counts of the initial state that
the loops run over are replaced by short lists of unknown elements, and every loop over a known number
of elements is written out.  What differs then differs for that input."""
from vf.core import *
from vf.coll import *
from vf import core, coll
from vf import interp as I

ROOTS = ('in', 'attr', 'get', 'at', 'var')
LOOPS = {'foldv', 'while', 'first', 'last', 'for', 'ex', 'sum', 'prod', 'idx', 'U', 'opaque', 'inidx', 'slice', 'prefix'}


def inputlike(t, shared=None):
    """a place of the initial state, or inside the result of an operation both sides apply"""
    if shared is not None and t.op == 'attr':
        x = t
        while x.op == 'attr':
            x = x.args[0]
        if x.op == 'call' and shared(x):
            return True
    while t.op != 'in' and t.op != 'var':
        if t.op == 'attr':
            t = t.args[0]
        elif t.op in ('get', 'at'):
            k = t.args[1]
            if k.op not in ('c', 'in', 'var'):
                return False
            t = t.args[0]
        else:
            return False
        if not isinstance(t, T):
            return False
    return True


def nodes_of(xs):
    seen = set()
    work = list(xs)
    while work:
        y = work.pop()
        if isinstance(y, (tuple, list)):
            work += y
        elif isinstance(y, dict):
            work += list(y.values())
        elif isinstance(y, (T, N)) and (isinstance(y, N), y.id) not in seen:
            seen.add((isinstance(y, N), y.id))
            if isinstance(y, N):
                if y.a is None:
                    work.append(y.t)
                else:
                    work += [y.a, y.hi, y.lo]
            else:
                yield y
                work += y.args


def candidates(xs, shared=lambda t: False):
    """places of the initial state that decide how often loops run"""
    seqs, dicts, nums, calls, graphs = set(), set(), set(), set(), set()
    for t in nodes_of(xs):
        if t.op == 'idx':
            work = [t.args[0]]
            while work:
                f = work.pop()
                if f.op == 'poly':
                    work += [x for m in to_poly(f) for x, _ in m]
                elif f.op in ('minlen', 'min', 'max', 'abs'):
                    work += [x for x in f.args if isinstance(x, T)]
                elif f.op == 'len':
                    x = f.args[0]
                    if x.op == 'slice':
                        x = x.args[0]
                    if x.op == 'keysof' and inputlike(x.args[0]):
                        dicts.add(x.args[0])
                    elif inputlike(x):
                        seqs.add(x)
                    elif x.op == 'order' and inputlike(x.args[0], shared):
                        graphs.add(x.args[0])
                    elif x.op == 'call' and shared(x):
                        calls.add(x)
                elif inputlike(f):
                    nums.add(f)
        elif t.op in ('foldv', 'for', 'first', 'last', 'sum', 'setv', 'dictv', 'ex', 'prod'):
            bv = t.args[0][0] if t.op == 'foldv' else t.args[0]
            if t.op in ('setv', 'dictv', 'ex') or t.args[1].op == 'U':
                for y in nodes_of(t.args[1:]):
                    if y.op == 'mem' and y.args[0] is bv and inputlike(y.args[1], shared):
                        dicts.add(y.args[1])
    whole, indexed = set(), set()
    for t in nodes_of(xs):
        if t.op in ('order', 'edge', 'reach', 'loci', 'nattr', 'nattrs', 'nodes') and isinstance(t.args[0], T):
            whole.add(t.args[0])
            if t.args[0] in dicts:
                graphs.add(t.args[0])
        elif t.op == 'at':
            indexed.add(t.args[0])
        elif t.op == 'attr' or t.op == 'get' and t.args[1].op == 'c':
            whole.add(t.args[0])
    f = lambda s: sorted((t for t in s if not any(y.op == 'bv' for y in nodes_of([t]))), key=lambda t: t.id)
    if not seqs | dicts | graphs:
        seqs |= calls
    seqs |= dicts & indexed
    dicts -= indexed
    return f(seqs - dicts - whole), f(dicts - whole), f(nums - seqs - dicts - whole), f(graphs)


def variants(xs):
    seqs, dicts, nums, graphs = candidates(xs, lambda t: True)
    if not seqs and not dicts and not nums and not graphs:
        return
    seen = set()
    for k, counts in ((1, lambda i: 1), (2, lambda i: 2), (1, lambda i: 1 + i % 2), (1, lambda i: 2 - i % 2)):
        key = (k, tuple(counts(i) for i in range(len(nums))))
        if key in seen or (k == 2 and dicts and not seqs and not nums and not graphs):
            continue
        seen.add(key)
        yield k, counts


class Few:
    """a substitution that is extended until no further loop can be written out"""
    def __init__(self, k, counts):
        self.k, self.counts = k, counts
        self.envs = []
        self.new = []
        self.facts = TRUE

    def extend(self, xs, ys):
        da, db = set(nodes_of(xs)), set(nodes_of(ys))
        seqs, dicts, nums, graphs = candidates([xs, ys], lambda t: t in da and t in db)
        if not (seqs or dicts or nums or graphs):
            return False
        if graphs:
            self.envs += self.graph(graphs[0])
            return True
        if seqs or dicts:
            # innermost places first: the others are found again
            inner = [s for s in seqs + dicts if not any(core.occurs_term(o, s) for o in seqs + dicts + nums if o is not s)]
            seqs, dicts = [s for s in seqs if s in inner], [d for d in dicts if d in inner]
        env = {}
        for s in seqs:
            es = [fresh('e') for _ in range(self.k)]
            env[s] = mk('listv', tuple(one(TRUE, leaf(e)) for e in es))
            self.distinct(es)
        for d in dicts:
            key, val = fresh('k'), fresh('w')
            env[d] = dict_term(KEY, eq_t(KEY, key), leaf(val))
            env[mk('keysof', d)] = mk('listv', (one(TRUE, leaf(key)),))
            env[mk('len', d)] = const(1)
        for i, n in enumerate(nums):
            env[n] = const(self.counts(i))
        self.envs.append(env)
        return True

    def graph(self, g):
        """a graph of few nodes, every one a child of those before it"""
        es = [fresh('n') for _ in range(self.k)]
        self.distinct(es)
        nodes = OR(*[eq_t(KEY, e) for e in es])
        edges = OR(*[AND(eq_t(KEY, x), eq_t(KEY2, y)) for i, y in enumerate(es) for x in es[:i]])
        t = mk('graphv', lam(KEY, nodes), rel_term(edges), (), (), g)
        order = mk('listv', tuple(one(TRUE, leaf(e)) for e in es))
        return [{mk('order', g): order}, {g: t}, {mk('order', t): order}]

    def distinct(self, es):
        for i, x in enumerate(es):
            for y in es[:i]:
                self.facts = AND(self.facts, NOT(eq_t(x, y)))

    def __call__(self, x):
        for env in self.envs:
            x = I._sub(x, env)
        return x


# ------------------------------------------------------------------ writing loops out
def rounds(base, v, g):
    """the elements of a base if there are few: [(element, condition)]; else None"""
    if not coll.SMALL:
        return None
    if base.op == 'idx' and isnum(base.args[0]) and base.args[0].args[0] <= coll.SMALL:
        n = base.args[0].args[0]
        return [const(i) for i in range(max(0, math.ceil(n)))]
    if base.op == 'U' and g.a is not None:
        for a in atoms_of(g):
            if a.op == 'eq' and v in a.args:
                t = a.args[1] if a.args[0] is v else a.args[0]
                if v not in t.fv and cofactor(g, a, 0) is FALSE:
                    return [t]
    return None


coll.ROUNDS = rounds


LOST = {'foldv', 'while', 'first', 'last', 'opaque', 'inidx', 'prefix', 'U', 'idx'}


def plain(rec):
    """nothing in the difference is still a loop"""
    return not any(t.op in LOST for t in nodes_of([x for x in (rec.a, rec.b, rec.guard)]))


def reach(R, a, b):
    """paths of a graph with at most one edge"""
    if not coll.SMALL or R.op not in ('graphv', 'rel'):
        return None
    x, y, z = fresh(), fresh(), fresh()
    if AND(edge_t(R, x, y), edge_t(R, y, z)) is FALSE or coll.SMALL and few_edges(R):
        return edge_t(R, a, b)
    return None


def few_edges(R):
    e = edge_t(R, KEY, KEY2)
    return sum(1 for a in atoms_of(e) if a.op == 'eq') <= 2 and not any(a.op != 'eq' for a in atoms_of(e))


coll.REACH = reach
