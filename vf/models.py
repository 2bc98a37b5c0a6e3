"""Meaning of builtins, containers, networkx, numpy, scipy for the abstract interpreter."""
import ast
import string
from fractions import Fraction

from vf.core import *
from vf.coll import *
from vf import core
from vf.load import Cls, canon_ext
from vf import interp as I

# methods of objects of unknown type that have no effect and depend only on receiver and arguments
PURE = set('''evaluate logpdf logpmf pdf pmf mean std var interval get_distribution lower upper split rsplit strip lstrip
rstrip replace startswith endswith format schema groups group match isdigit join encode decode copy sum min max
cumsum iterrows predict_f numpy reshape to_json to_data get_sampler cum_hazard inv_cum_hazard effect ev get_var_obs
uniform2value value2uniform items keys values get index count is_rv calc_distance calc_likelihood is_executable
expectation describe set_index to_dict isinstance hasHandlers total_seconds flatten_ title tolist round astype
cdf ppf execute list_regressors isoformat union intersection difference'''.split())
RANDOM = set('''render sample rvs simulate sample_prior serve random choice predict sample_with_mediators'''.split())
IGNORED = set('''info warning error debug critical log exception setLevel'''.split())
MAYRAISE = set('''render fill evaluate get_distribution logpdf logpmf execute sample simulate predict serve update'''.split())
# methods of objects that exist already, which validate nothing
VALID = set('''logpdf logpmf'''.split())
LOGGERS = {'Logger', 'logger', 'log', '_logger'}

ELEMENTWISE = {'where', 'exp', 'log', 'expm1', 'log1p', 'sqrt', 'square', 'abs', 'power', 'sign', 'round'}
IMPURE_EXT = ('numpy.random.', 'random.', 'builtins.input', 'builtins.open', 'builtins.exec', 'os.', 'sys.', 'time.')
NATTRS = ('loci', 'Des')


def known_name(nm):
    from vf import runner
    import re
    m = re.match(r'_[A-Za-z0-9]+(__\w+)$', nm)
    return (m.group(1) if m else nm) in runner.vocabulary()['methods']


def given(ps, pc):
    """pieces of a list where pc is known"""
    if pc is TRUE or all_ones(ps):
        return ps
    out = ()
    for p in ps:
        if p.op == 'one':
            g = simp(p.args[0], pc)
            if g is not FALSE:
                out += (one(g, p.args[1]),)
        elif p.op == 'for':
            v, base, g, sub = open_for(p)
            h = simp(g, pc)
            if h is g:
                out += (p,)
            elif h is not FALSE:
                out = add_pieces(out, pfor(base, v, h, sub))
        else:
            out += (p,)
    return out


TAKES_ITER = {'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'union', 'difference',
              'intersection', 'symmetric_difference', 'extend', 'issubset', 'issuperset', 'isdisjoint'}


def is_none(t):
    return t.op == 'c' and t.args[0] is None


def drop_none(v):
    return lift(lambda t: BOT if is_none(t) else leaf(t), v)


class Models:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ constants
    def ext_const(self, q):
        if q == 'numpy.inf':
            return leaf(INF)
        if q == 'numpy.nan':
            return leaf(NAN)
        if q in ('builtins.True', 'builtins.False', 'builtins.None'):
            return C({'True': True, 'False': False, 'None': None}[q[9:]])
        return leaf(mk('ext', q))

    # ------------------------------------------------------------ membership / content
    def mem_fn(self, v):
        def f(x):
            x = x if isinstance(x, T) else x.t
            return lift(lambda t: self.contains_raw(x, t), v, pc=self.ip.pc)
        return f

    def contains_raw(self, x, t):
        ip = self.ip
        k = ip.kind_of(t)
        if k == 'dict' and (t.op == 'new' or ('d', t) in ip.store):
            return lookup(ip.rd(('d', t))[0], x)
        if k == 'set' and (t.op == 'new' or ('s', t) in ip.store):
            return lookup(ip.rd(('s', t)), x)
        if k in ('list', 'arr') and (t.op == 'new' or ('p', t) in ip.store):
            return pieces_mem(x, ip.rd(('p', t)))
        if k == 'graph' or t.op in ('gnodes', 'preds', 'succs'):
            if t.op == 'gnodes':
                t = t.args[0]
            if t.op == 'preds':
                return self.edge(t.args[0], x, t.args[1])
            if t.op == 'succs':
                return self.edge(t.args[0], t.args[1], x)
            return lookup(ip.rd(('g', t)), x)
        if t.op == 'gnode':
            if x.op == 'c':
                return lookup(ip.rd(('na', t.args[0], x.args[0]))[0], t.args[1])
            return opaque('node attribute')
        if t.op == 'bot':
            return FALSE
        return mem_t(x, t)

    def contains(self, x, t):
        ip = self.ip
        if is_none(t):
            ip.do_raise(TRUE, 'TypeError')
            return FALSE
        c = ip.cls_of(t)
        if isinstance(c, Cls) and not ip.is_graph_cls(c):
            m = ip.prog.method(c, '__contains__')
            if m:
                return ip.truth(ip.call_fn(m, [leaf(t), leaf(x)], {}))
            m = ip.prog.method(c, '__iter__')
            if m:
                return pieces_mem(x, self.pieces(t))
        if t.op in ('strcat', 'str') or (t.op == 'c' and isinstance(t.args[0], str)) or \
                (isstr(x) and ip.type_of(t) == ('str', None)):
            return mem_t(x, t)
        return self.contains_raw(x, t)

    def pieces(self, t):
        """elements of the collection t as list pieces"""
        ip = self.ip
        k = ip.kind_of(t)
        if t.op == 'bot':
            return ()
        if is_none(t):
            ip.do_raise(TRUE, 'TypeError')
            return ()
        if k in ('list', 'arr') and (t.op == 'new' or ('p', t) in ip.store):
            return ip.rd(('p', t))
        if k == 'dict':
            dom = ip.rd(('d', t))[0]
            return self.key_pieces(dom)
        if k == 'set':
            if t.op == 'setv':
                return seq_pieces(t)
            return self.key_pieces(ip.rd(('s', t)))
        if k == 'graph':
            return self.key_pieces(ip.rd(('g', t)))
        if t.op == 'gnodes':
            return self.key_pieces(ip.rd(('g', t.args[0])))
        if t.op == 'preds':
            return self.key_pieces(self.edge(t.args[0], KEY, t.args[1]))
        if t.op == 'succs':
            return self.key_pieces(self.edge(t.args[0], t.args[1], KEY))
        if t.op == 'gdata':
            g = t.args[0]
            v = fresh()
            return add_pieces((), pfor(mk('U'), v, lookup(ip.rd(('g', g)), v),
                                       (one(TRUE, leaf(mk('tup', leaf(v), leaf(mk('gnode', g, v))))),)))
        if t.op == 'adj':
            # graph.pred / graph.succ
            return self.key_pieces(ip.rd(('g', t.args[1])))
        c = ip.cls_of(t)
        if isinstance(c, Cls):
            m = ip.prog.method(c, '__iter__')
            if m:
                r = ip.call_fn(m, [leaf(t)], {})
                return ip.iter_pieces(r)
        if t.op == 'c' and isinstance(t.args[0], (str, tuple)):
            return tuple(one(TRUE, C(x)) for x in t.args[0])
        return seq_pieces(t)

    def key_pieces(self, dom):
        ks = I.const_keys(dom)
        if ks is not None:
            return tuple(one(TRUE, leaf(k)) for k in ks)
        v = fresh()
        return add_pieces((), pfor(mk('U'), v, as_n(subst(dom, {KEY: v})), (one(TRUE, leaf(v)),)))

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        ip = self.ip
        if o.op in ('bot', 'undef'):
            return leaf(mk('get', o, k))
        if o.op == 'opaque' or k.op == 'opaque':
            return leaf(mk('get', o, k))
        if is_none(o) or ip.can_catch('TypeError'):
            ip.do_raise(isnone_t(o), 'TypeError')
            if is_none(o):
                return BOT
        if o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0] in ('re.match', 're.search', 're.fullmatch') \
                and isnum(k) and k.args[0] >= 0:
            return self.method(o, 'group', [leaf(k)], {})
        kd = ip.kind_of(o)
        if o.op == 'gnodes':
            return leaf(mk('gnode', o.args[0], k))
        if o.op == 'gnode':
            if k.op != 'c':
                return opaque('node attribute')
            d, v = ip.rd(('na', o.args[0], k.args[0]))
            return lookup(v, o.args[1])
        if o.op == 'adj':
            return leaf(mk('preds' if o.args[0] == 'p' else 'succs', o.args[1], k))
        if kd == 'graph':
            return leaf(mk('succs', o, k))
        c = ip.cls_of(o)
        if isinstance(c, Cls):
            m = ip.prog.method(c, '__getitem__')
            if m:
                return ip.call_fn(m, [leaf(o), leaf(k)], {})
        if kd == 'dict':
            dom, val = ip.rd(('d', o))
            dk = lookup(dom, k)
            if ip.can_catch('KeyError'):
                ip.do_raise(NOT(dk), 'KeyError', leaf(mk('exc', 'KeyError')))
            else:
                ip.implicit(NOT(dk), 'KeyError')
            r = lookup(val, k)
            return r if r is BOT else nobot(simp(r, AND(dk, ip.pc))) if AND(dk, ip.pc) is not FALSE else leaf(mk('missingkey', k))
        if kd in ('list', 'arr', 'tuple'):
            if o.op == 'new' or ('p', o) in ip.store:
                ps = ip.rd(('p', o))
            elif o.op in ('listv', 'tup'):
                ps = None
            else:
                ps = None
            if ip.kind_of(k) == 'arr' or ip.kind_of(k) == 'list':
                return leaf(mk('mask', as_t(ip.snap_v(leaf(o))), as_t(ip.snap_v(leaf(k)))))
            if k.op == 'tup':
                return leaf(mk('at', as_t(ip.snap_v(leaf(o))), k))
            if ip.can_catch('IndexError'):
                n = len_t(I.list_collapse(ps)) if ps is not None else len_t(o)
                ip.do_raise(lift(lambda x: NOT(lt(k, x)), n), 'IndexError')
            if ps is not None:
                return at_t(I.list_collapse(ps), k)
            return at_t(o, k)
        if k in ip.places and o.op in ('poly', 'at'):
            # a number per place
            return at_t(o, k)
        if ip.can_catch('KeyError'):
            ip.do_raise(NOT(mem_t(k, o)), 'KeyError', leaf(mk('exc', 'KeyError')))
        else:
            ip.implicit(NOT(mem_t(k, o)), 'KeyError')
        return get_t(o, k)

    def setitem(self, o, kv, v):
        """o[kv] = v"""
        ip = self.ip
        kd = ip.kind_of(o)
        if o.op in ('bot', 'undef'):
            return NONE
        c = ip.cls_of(o)
        if isinstance(c, Cls) and not ip.is_graph_cls(c):
            m = ip.prog.method(c, '__setitem__')
            if m:
                ip.call_fn(m, [leaf(o), kv, v], {})
                return NONE
        if o.op == 'gnode':
            if kv.a is not None or kv.t.op != 'c':
                raise I.Give('node attribute')
            cell = ('na', o.args[0], kv.t.args[0])
            d, w = ip.rd(cell)
            ek = eq_t(KEY, o.args[1])
            ip.wr(cell, (OR(d, ek), ite(ek, v, w)))
            return NONE
        if kd in ('list', 'arr'):
            return ip.each(kv, lambda k: self.list_set(o, k, v))
        if o.op in ('instv', 'c', 'listv', 'opaque'):
            ip.add_effect(mk('setitem', o, as_t(ip.snap_v(kv)), as_t(ip.snap_v(v))))
            return NONE
        if kd is None:
            ip.kind[o] = 'dict'
        cell = ('d', o)
        d, w = ip.rd(cell)
        ek = lift(lambda t: eq_t(KEY, t), ip.snap_v(kv), pc=ip.pc)
        ip.wr(cell, (OR(d, ek), ite(ek, v, w)))
        return NONE

    def list_set(self, o, k, v):
        ip = self.ip
        ps = ip.rd(('p', o))
        if isnum(k) and all_ones(ps) and -len(ps) <= k.args[0] < len(ps):
            i = int(k.args[0])
            i = i if i >= 0 else i + len(ps)
            ip.wr(('p', o), tuple(ps[:i]) + (one(TRUE, v),) + tuple(ps[i + 1:]))
            return NONE
        L = I.list_collapse(ps)
        if ip.kind_of(k) == 'arr' and self.bools(k) and v.a is None and \
                ip.kind_of(v.t) not in ('arr', 'list', 'tuple', 'dict', 'set') and v.t.op in ('c', 'var', 'in', 'attr', 'poly'):
            r = self.arith(lambda m, y: ite(truthy_t(m), v, leaf(y)), leaf(k), ip.new_list(ps, True))
            ip.wr(('p', o), ip.pieces_of(r.t))
            return NONE
        if ip.kind_of(k) == 'arr' or k.op not in ('var', 'bv', 'c', 'poly', 'at', 'in', 'get'):
            ip.store[('p', o)] = ((mk('splice', mk('opaque', 'masked store', next(core._opq)))),)
            return NONE
        x = fresh()
        n = len_t(L)
        e = ite(eq_t(x, k), v, at_t(L, x))
        ip.wr(('p', o), add_pieces((), pfor(mk('idx', n.t), x, TRUE, (one(TRUE, e),))))
        return NONE

    def bools(self, t):
        """every element of the array t is True or False"""
        def ok(ps):
            return all(all(x.op == 'c' and isinstance(x.args[0], bool) for x in leaves(p.args[1])) if p.op == 'one' else
                       p.op == 'for' and ok(p.args[3]) for p in ps)
        ps = self.ip.pieces_of(t)
        return bool(ps) and ok(ps)

    def delitem(self, o, k):
        ip = self.ip
        kd = ip.kind_of(o)
        c = ip.cls_of(o)
        if isinstance(c, Cls):
            m = ip.prog.method(c, '__delitem__')
            if m:
                return ip.call_fn(m, [leaf(o), leaf(k)], {})
        if kd == 'list' and isnum(k) and isinstance(k.args[0], int) and all_ones(ip.pieces_of(o)) and \
                -len(ip.pieces_of(o)) <= k.args[0] < len(ip.pieces_of(o)):
            ps = list(ip.pieces_of(o))
            del ps[k.args[0]]
            ip.wr(('p', o), tuple(ps))
            return NONE
        if kd in ('list', 'arr'):
            raise I.Give('del list item')
        if kd is None:
            ip.kind[o] = 'dict'
        d, w = ip.rd(('d', o))
        if ip.can_catch('KeyError'):
            ip.do_raise(NOT(lookup(d, k)), 'KeyError')
        else:
            ip.implicit(NOT(lookup(d, k)), 'KeyError')
        ip.wr(('d', o), (AND(d, NOT(eq_t(KEY, k))), w))
        return NONE

    def set_slice(self, o, lo, hi, v):
        """o[lo:hi] = v (None: del) of a list whose places are known"""
        ip = self.ip
        if ip.kind_of(o) != 'list':
            raise I.Give('slice assignment')
        ps = tuple(ip.pieces_of(o))
        new = () if v is None else tuple(ip.iter_pieces(v))
        if not all(x.op == 'c' and (x.args[0] is None or isinstance(x.args[0], int)) for x in (lo, hi)):
            raise I.Give('slice assignment')
        lo, hi = lo.args[0], hi.args[0]
        if lo in (None, 0) and hi is None:
            ip.wr(('p', o), new)
        elif all_ones(ps):
            i, j, _ = slice(lo, hi).indices(len(ps))
            ip.wr(('p', o), ps[:i] + new + ps[max(i, j):])
        else:
            raise I.Give('slice assignment')
        return NONE

    def slice(self, o, lo, hi, st):
        ip = self.ip
        kd = ip.kind_of(o)
        if kd in ('list', 'arr', 'tuple') or o.op == 'tup':
            ps = ip.pieces_of(o)
            if all_ones(ps) and all(x.op == 'c' and (x.args[0] is None or isinstance(x.args[0], int)) for x in (lo, hi, st)):
                return ip.new_list(tuple(ps)[lo.args[0]:hi.args[0]:st.args[0]], kd == 'arr')
            if lo.op == 'c' and hi.op == 'c' and st.op == 'c' and lo.args[0] is None and hi.args[0] is None and st.args[0] is None:
                return ip.new_list(ps, kd == 'arr')
            s = simple_for(tuple(ps))
            if s and s[0].op == 'idx' and s[2] is TRUE and lo is const(None) and st is const(None) \
                    and hi is not const(None):
                # prefix [: hi]
                return leaf(mk('prefix', as_t(ip.snap_v(leaf(o))), hi))
        return leaf(mk('slice', as_t(ip.snap_v(leaf(o))), lo, hi, st))

    # ------------------------------------------------------------ arithmetic
    def eq(self, x, y):
        ip = self.ip
        for a, b in ((x, y), (y, x)):
            if ip.kind_of(a) in ('set', 'dict', 'list', 'graph') and (a.op == 'new' or ip.kind_of(a) == 'set'):
                if ip.kind_of(a) == 'set' and ip.kind_of(b) == 'set':
                    fa, fb = self.mem_fn(leaf(a))(KEY), self.mem_fn(leaf(b))(KEY)
                    return NOT(EX(KEY, ite(fa, NOT(fb), fb)))
                if b.op in ('new', 'listv', 'dictv', 'setv') or b.op == 'tup':
                    sa, sb = ip.snap_v(leaf(a)), ip.snap_v(leaf(b))
                    return lift(eq_t, sa, sb)
        return eq_t(x, y)

    def is_t(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'c' and a.args[0] is None:
            return isnone_t(b)
        if b.op == 'c' and b.args[0] is None:
            return isnone_t(a)
        if (a.op == 'c' and isinstance(a.args[0], bool)) or (b.op == 'c' and isinstance(b.args[0], bool)) or \
                isstr(a) or isstr(b):
            return eq_t(a, b)
        if a.op == 'new' and b.op == 'new':
            return FALSE
        return atom(mk('is', *sorted((a, b), key=lambda t: t.id)))

    def arrs(self, *vs):
        return any(self.ip.kind_of(t) == 'arr' for v in vs for t in leaves(v, self.ip.pc) if t.op != 'bot')

    def arith(self, fn, *vs):
        ip = self.ip
        vs = [v if v.a is not None or v.t.op != 'c' else v for v in vs]
        if not self.arrs(*vs):
            return lift(fn, *[ip.snap_v(v) if has_new(v) else v for v in vs], pc=ip.pc)
        return ip.each_list(list(vs), lambda *ts: self.vec(fn, ts))

    def vec(self, fn, ts):
        ip = self.ip
        ar = [t for t in ts if ip.kind_of(t) == 'arr']
        if not ar:
            return fn(*ts)
        pss = [given(ip.pieces_of(t), ip.pc) for t in ar]
        if all(all_ones(p) for p in pss) and len({len(p) for p in pss}) == 1:
            n = len(pss[0])
            out = ()
            for i in range(n):
                it = iter([p[i].args[1] for p in pss])
                xs = [next(it) if ip.kind_of(t) == 'arr' else leaf(t) for t in ts]
                out += (one(TRUE, lift(fn, *xs)),)
            return ip.new_list(out, True)
        Ls = [I.list_collapse(p) for p in pss]
        ns = [len_t(L).t for L in Ls]
        x = fresh()
        if len(ar) == 1 and simple_for(tuple(pss[0])) is None:
            return ip.new_list(map_pieces(pss[0], lambda e: lift(fn, *[e if t is ar[0] else leaf(t) for t in ts])), True)
        if any(simple_for(tuple(p)) is None or simple_for(tuple(p))[0].op != 'idx' for p in pss if not all_ones(p)):
            snap = [as_t(ip.snap_v(leaf(t))) for t in ts]
            return leaf(mk('vec', fn(*snap)))
        it = iter(Ls)
        xs = [at_t(next(it), x) if ip.kind_of(t) == 'arr' else leaf(t) for t in ts]
        e = lift(fn, *xs)
        # lengths of combined arrays agree (numpy would fail otherwise)
        return ip.new_list(add_pieces((), pfor(mk('idx', ns[0]), x, TRUE, (one(TRUE, e),))), True)

    def binop(self, op, a, b):
        ip = self.ip
        n = type(op).__name__

        def kinds(v):
            return {ip.kind_of(t) for t in leaves(v, ip.pc) if t.op != 'bot'}
        ka, kb = kinds(a), kinds(b)
        if n == 'Add' and ('list' in ka or 'list' in kb) and 'arr' not in ka | kb:
            return ip.new_list(ip.iter_pieces(a) + ip.iter_pieces(b))
        if n == 'Mult' and (ka == {'list'} or kb == {'list'}) and 'arr' not in ka | kb:
            l, k = (a, b) if ka == {'list'} else (b, a)
            ps = ip.iter_pieces(l)
            if k.a is None and all_ones(ps) and len(ps) == 1:
                if isnum(k.t) and k.t.args[0] <= 8:
                    return ip.new_list(ps * int(k.t.args[0]))
                return ip.new_list(add_pieces((), pfor(mk('idx', k.t), fresh(), TRUE, ps)))
            return ip.unk('list repetition')
        if n in ('Sub', 'Div', 'Pow', 'FloorDiv', 'Mod') and len(ka) == 1 and len(kb) == 1 and \
                ('list' in ka or 'list' in kb):
            # a plain list takes part in these only beside a numpy value, which makes it an array
            if not any(isstr(t) for v in (a, b) for t in leaves(v, ip.pc)):
                a, b = [ip.new_list(ip.iter_pieces(v), True) if k == {'list'} else v
                        for v, k in ((a, ka), (b, kb))]
                ka, kb = kinds(a), kinds(b)
        if n in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and ('set' in ka or 'set' in kb or
                                                           (n == 'Sub' and ka == {'keys'})):
            fa, fb = self.mem_fn(a)(KEY), self.mem_fn(b)(KEY)
            d = {'BitOr': OR(fa, fb), 'BitAnd': AND(fa, fb), 'Sub': AND(fa, NOT(fb)),
                 'BitXor': ite(fa, NOT(fb), fb)}[n]
            return ip.new_set(d)
        if n == 'BitOr' and 'dict' in ka | kb:
            r = self.copy_dict(a)
            self.dict_update(r.t, b)
            return r
        if n in ('BitOr', 'BitAnd') and not self.arrs(a, b):
            ta, tb = a, b
            if all(t.op == 'c' and isinstance(t.args[0], bool) for v in (a, b) for t in leaves(v)):
                return OR(a, b) if n == 'BitOr' else AND(a, b)

        def add(x, y):
            if isstr(x) or isstr(y):
                return leaf(strcat(x, y))
            return leaf(t_add(x, y))
        fs = {
            'Add': add,
            'Sub': lambda x, y: leaf(t_sub(x, y)),
            'Mult': lambda x, y: leaf(t_mul(x, y)),
            'Div': lambda x, y: leaf(t_div(x, y)),
            'Pow': lambda x, y: leaf(t_pow(x, y)),
            'FloorDiv': lambda x, y: leaf(mk('floordiv', x, y)),
            'Mod': lambda x, y: leaf(mk('fmt%', x, y)) if isstr(x) else leaf(mk('mod', x, y)),
            'BitAnd': lambda x, y: AND(truthy_t(x), truthy_t(y)),
            'BitOr': lambda x, y: OR(truthy_t(x), truthy_t(y)),
        }
        f = fs.get(n) or (lambda x, y: leaf(mk('binop', n, x, y)))
        return self.arith(f, a, b)

    # ------------------------------------------------------------ strings
    def fmt(self, x, spec, conv):
        def f(t, s=None):
            if s is not None and not (s.op == 'c' and s.args[0] == ''):
                return leaf(mk('fmt', s, t))
            if conv == 114:
                return leaf(mk('repr', t))
            if t.op == 'c' and isinstance(t.args[0], str):
                return leaf(t)
            if t.op == 'c' and t.args[0] is not None and not isinstance(t.args[0], (float, Fraction)):
                return C(str(t.args[0]))
            if t.op in STR:
                return leaf(t)
            return leaf(mk('str', t))
        x = self.str_of(x)
        x = self.ip.snap_v(x)
        if spec is None:
            return lift(f, x, pc=self.ip.pc)
        return lift(f, x, spec, pc=self.ip.pc)

    def str_of(self, v):
        ip = self.ip

        def f(t):
            c = ip.cls_of(t)
            if isinstance(c, Cls) and t.op == 'new':
                for nm in ('__str__', '__repr__'):
                    m = ip.prog.method(c, nm)
                    if m:
                        return ip.call_fn(m, [leaf(t)], {})
            return leaf(t)
        return ip.each(v, f)

    def str_format(self, s, args, kw):
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return self.ip.unk('format field')
            parts.append(self.fmt(v, C(spec) if spec else None, ord(conv) if conv else -1))
        return lift(lambda *ts: leaf(strcat(*ts)), *parts, pc=self.ip.pc) if parts else C('')

    # ------------------------------------------------------------ containers
    def copy_dict(self, v):
        ip = self.ip
        r = ip.new_dict()
        self.dict_update(r.t, v)
        return r

    def dict_of(self, t):
        """(dom, val) of a mapping-like term"""
        ip = self.ip
        k = ip.kind_of(t)
        if k == 'dict' or t.op == 'dictv':
            if t.op == 'dictv':
                return as_n(subst_any(t.args[1], {t.args[0]: KEY})), as_n(subst_any(t.args[2], {t.args[0]: KEY}))
            return ip.rd(('d', t))
        c = ip.cls_of(t)
        if isinstance(c, Cls):
            km, gm = ip.prog.method(c, 'keys'), ip.prog.method(c, '__getitem__')
            if km and gm:
                ks = ip.call_fn(km, [leaf(t)], {})
                dom = self.mem_fn(ks)(KEY)
                pc0 = ip.pc
                ip.pc = AND(pc0, dom)
                val = ip.call_fn(gm, [leaf(t), leaf(KEY)], {}) if ip.pc is not FALSE else BOT
                ip.pc = pc0
                return dom, val
        return None

    def dict_update(self, o, v):
        ip = self.ip
        if ip.kind_of(o) is None:
            ip.kind[o] = 'dict'

        def f(t):
            if t.op == 'bot':
                return NONE
            dv = self.dict_of(t)
            if dv is None:
                k = ip.kind_of(t)
                if k in ('list', 'tuple') or t.op in ('listv',):
                    self.pairs_into(o, ip.pieces_of(t))
                    return NONE
                c = ip.cls_of(t)
                if isinstance(c, Cls) and ip.prog.method(c, '__iter__'):
                    self.pairs_into(o, ip.pieces_of(t))
                    return NONE
                dv = ip.dict_content(t)
            d, w = ip.rd(('d', o))
            ip.wr(('d', o), (OR(d, dv[0]), ite(dv[0], dv[1], w)))
            return NONE
        ip.each(v, f)
        return NONE

    def pairs_into(self, o, pieces):
        ip = self.ip
        cur = {}

        def bind(v):
            cur['k'] = ip.each(v, lambda t: self.getitem(t, const(0)) if t.op != 'tup' else as_n(t.args[0]))
            cur['v'] = ip.each(v, lambda t: self.getitem(t, const(1)) if t.op != 'tup' else as_n(t.args[1]))
        ip.run_pieces(tuple(pieces), bind, lambda: self.setitem(o, cur['k'], cur['v']), None, True)

    def dict_from_pairs(self, pieces):
        r = self.ip.new_dict()
        self.pairs_into(r.t, pieces)
        return r

    def list_extend(self, o, v):
        ip = self.ip
        ip.wr(('p', o), ip.rd(('p', o)) + ip.iter_pieces(v))

    def copy_value(self, t):
        ip = self.ip
        k = ip.kind_of(t)
        if k == 'dict':
            return ip.new_dict(*ip.rd(('d', t)))
        if k == 'set':
            return ip.new_set(ip.rd(('s', t)) if t.op != 'setv' else self.contains_raw(KEY, t))
        if k in ('list', 'arr'):
            return ip.new_list(ip.pieces_of(t), k == 'arr')
        if k == 'graph':
            return self.copy_graph(t)
        return None

    # ------------------------------------------------------------ graphs
    def edge(self, g, a, b):
        return as_n(subst(self.ip.rd(('e', g)), {KEY: a, KEY2: b}))

    def rel(self, g):
        return rel_term(self.ip.rd(('e', g)))

    def gterm(self, g):
        return as_t(self.ip.snap_v(leaf(g)))

    def copy_graph(self, g, cls=None, nodes=None, edges=None):
        ip = self.ip
        t = ip.new('graph', cls or ip.objcls.get(g) or ip.cls_of(g))
        ip.store[('g', t)] = nodes if nodes is not None else ip.rd(('g', g))
        ip.store[('e', t)] = edges if edges is not None else ip.rd(('e', g))
        for a in NATTRS:
            ip.store[('na', t, a)] = ip.rd(('na', g, a))
        return leaf(t)

    def new_graph_from(self, args, kw, c):
        ip = self.ip
        d = args[0] if args else kw.get('data', kw.get('incoming_graph_data', NONE))

        def f(t):
            if t is const(None):
                return ip.new_graph(cls=c)
            if ip.kind_of(t) == 'graph':
                return self.copy_graph(t, c)
            return ip.unk('graph from data')
        return ip.each(d, f)

    def graph_attr(self, o, nm):
        if nm == 'nodes':
            return leaf(mk('gnodes', o))
        if nm in ('pred', '_pred'):
            return leaf(mk('adj', 'p', o))
        if nm in ('succ', '_succ', 'adj', '_adj'):
            return leaf(mk('adj', 's', o))
        if nm == 'edges':
            return self.graph_method(o, nm, [], {})
        return leaf(mk('bm', o, nm))

    @staticmethod
    def nattrs():
        return NATTRS

    def graph_method(self, o, nm, args, kw):
        ip = self.ip
        R = lambda f: ip.each(args[0], f)
        if nm in ('in_degree', 'out_degree') and not args and not kw:
            # the degree of every node
            v = fresh()
            es = self.edge(o, KEY, v) if nm == 'in_degree' else self.edge(o, v, KEY)
            return leaf(list_term(add_pieces((), pfor(mk('U'), v, lookup(ip.rd(('g', o)), v), (one(TRUE, leaf(mk(
                'tup', leaf(v), len_t(set_term(KEY, es))))),)))))
        if nm in ('in_edges', 'out_edges', 'edges') and not args and not kw:
            a, b = fresh(), fresh()
            pair, es = ((b, a), self.edge(o, b, a)) if nm == 'in_edges' else ((a, b), self.edge(o, a, b))
            inner = pfor(mk('U'), b, es, (one(TRUE, leaf(mk('tup', leaf(pair[0]), leaf(pair[1])))),))
            return leaf(list_term(() if inner is None else
                                  add_pieces((), pfor(mk('U'), a, lookup(ip.rd(('g', o)), a), (inner,)))))
        if nm == 'predecessors':
            return R(lambda n: leaf(set_term(KEY, self.edge(o, KEY, n))) if self.in_graph(o, n) else BOT)
        if nm in ('successors', 'neighbors'):
            return R(lambda n: leaf(set_term(KEY, self.edge(o, n, KEY))) if self.in_graph(o, n) else BOT)
        if nm in ('has_node', '__contains__'):
            return R(lambda n: lookup(ip.rd(('g', o)), n))
        if nm == 'has_edge':
            return ip.each_list(args[:2], lambda a, b: self.edge(o, a, b))
        if nm == 'has_predecessor':
            return ip.each_list(args[:2], lambda a, b: self.edge(o, b, a))
        if nm == 'has_successor':
            return ip.each_list(args[:2], lambda a, b: self.edge(o, a, b))
        if nm == 'add_node':
            def f(n):
                ip.wr(('g', o), OR(ip.rd(('g', o)), eq_t(KEY, n)))
                kv = {k: (TRUE, v) for k, v in kw.items() if k != '**'}
                if '**' in kw:
                    for a in NATTRS:
                        if a in kv:
                            continue
                        dom = self.mem_fn(kw['**'])(const(a))
                        if dom is FALSE:
                            continue
                        pc0 = ip.pc
                        ip.pc = AND(pc0, dom)
                        val = ip.each(kw['**'], lambda t: self.getitem(t, const(a))) if ip.pc is not FALSE else BOT
                        ip.pc = pc0
                        kv[a] = (dom, val)
                for a, (g, v) in kv.items():
                    d, w = ip.rd(('na', o, a))
                    ek = AND(g, eq_t(KEY, n))
                    ip.wr(('na', o, a), (OR(d, ek), ite(ek, v, w)))
                return NONE
            return ip.each(args[0], f)
        if nm == 'add_nodes_from':
            m = self.mem_fn(args[0])(KEY)
            ip.wr(('g', o), OR(ip.rd(('g', o)), m))
            return NONE
        if nm == 'add_edge':
            def f(a, b):
                ip.wr(('g', o), OR(ip.rd(('g', o)), eq_t(KEY, a), eq_t(KEY, b)))
                ip.wr(('e', o), OR(ip.rd(('e', o)), AND(eq_t(KEY, a), eq_t(KEY2, b))))
                return NONE
            return ip.each_list(args[:2], f)
        if nm == 'remove_edge':
            def f(a, b):
                ip.do_raise(NOT(self.edge(o, a, b)), 'NetworkXError')
                if ip.pc is FALSE:
                    return NONE
                ip.wr(('e', o), AND(ip.rd(('e', o)), NOT(AND(eq_t(KEY, a), eq_t(KEY2, b)))))
                return NONE
            return ip.each_list(args[:2], f)
        if nm == 'remove_edges_from':
            # edges that are not there are passed over
            pair = mk('tup', leaf(KEY), leaf(KEY2))
            m = self.mem_fn(args[0])(pair)
            ip.wr(('e', o), AND(ip.rd(('e', o)), NOT(m)))
            return NONE
        if nm == 'add_edges_from':
            cur = {}
            ip.loop(args[0], lambda v: cur.__setitem__('v', v), lambda: ip.each(
                cur['v'], lambda t: self.graph_method(
                    o, 'add_edge',
                    [self.getitem(t, const(0)) if t.op != 'tup' else as_n(t.args[0]),
                     self.getitem(t, const(1)) if t.op != 'tup' else as_n(t.args[1])], {})), None, True)
            return NONE
        if nm == 'remove_node':
            def f(n):
                if not self.in_graph(o, n):
                    return NONE
                ip.wr(('g', o), AND(ip.rd(('g', o)), NOT(eq_t(KEY, n))))
                ip.wr(('e', o), AND(ip.rd(('e', o)), NOT(eq_t(KEY, n)), NOT(eq_t(KEY2, n))))
                for a in NATTRS:
                    d, w = ip.rd(('na', o, a))
                    ip.wr(('na', o, a), (AND(d, NOT(eq_t(KEY, n))), w))
                return NONE
            return ip.each(args[0], f)
        if nm == 'remove_nodes_from':
            m = self.mem_fn(args[0])(KEY)
            m2 = self.mem_fn(args[0])(KEY2)
            ip.wr(('g', o), AND(ip.rd(('g', o)), NOT(m)))
            ip.wr(('e', o), AND(ip.rd(('e', o)), NOT(m), NOT(m2)))
            return NONE
        if nm == 'copy':
            return self.copy_graph(o)
        if nm == 'subgraph':
            m, m2 = self.mem_fn(args[0])(KEY), self.mem_fn(args[0])(KEY2)
            return self.copy_graph(o, nodes=AND(ip.rd(('g', o)), m), edges=AND(ip.rd(('e', o)), m, m2))
        if nm == 'in_degree':
            return R(lambda n: len_t(set_term(KEY, self.edge(o, KEY, n))))
        if nm == 'out_degree':
            return R(lambda n: len_t(set_term(KEY, self.edge(o, n, KEY))))
        if nm in ('number_of_nodes', 'order_', '__len__'):
            return leaf(mk('len', set_term(KEY, ip.rd(('g', o)))))
        if nm == 'in_edges':
            def f(n):
                v = fresh()
                return leaf(list_term(add_pieces((), pfor(mk('U'), v, self.edge(o, v, n),
                                                          (one(TRUE, leaf(mk('tup', leaf(v), leaf(n)))),)))))
            return R(f) if args else ip.unk('edges')
        if nm == 'out_edges':
            def f(n):
                v = fresh()
                return leaf(list_term(add_pieces((), pfor(mk('U'), v, self.edge(o, n, v),
                                                          (one(TRUE, leaf(mk('tup', leaf(n), leaf(v)))),)))))
            return R(f) if args else ip.unk('edges')
        if nm == '__init__':
            return NONE
        return None

    def reach_set(self, g, n, anc):
        R = self.rel(g)
        if R.op == 'rel' and edge_t(R, KEY, KEY2) is FALSE:
            return leaf(set_term(KEY, FALSE))
        return leaf(set_term(KEY, reach_t(R, KEY, n) if anc else reach_t(R, n, KEY)))

    # ------------------------------------------------------------ attributes with a model
    def special_attr(self, o, nm):
        ip = self.ip
        if o.op == 'loci' and nm == 'Name':
            return leaf(o.args[1])
        if ip.kind_of(o) in ('dict', 'list', 'set', 'arr', 'tuple') or o.op in ('gnodes', 'gnode', 'gdata', 'adj', 'preds', 'succs'):
            if nm == 'size':
                return leaf(mk('len', as_t(ip.snap_v(leaf(o)))))
            return leaf(mk('bm', o, nm))
        if isstr(o):
            return leaf(mk('bm', o, nm))
        return None

    # ------------------------------------------------------------ methods
    def method_n(self, o, nm, args, kw):
        return self.ip.each(o, lambda t: self.method(t, nm, args, kw))

    def method(self, o, nm, args, kw):
        ip = self.ip
        if is_none(o):
            ip.do_raise(TRUE, 'AttributeError')
            return BOT
        if nm in TAKES_ITER and ip.kind_of(o) in ('set', 'dict', 'list') and any(is_none(t) for a in args for t in leaves(a, ip.pc)):
            for a in args:
                for t, g in leaves(a, ip.pc).items():
                    if is_none(t):
                        ip.do_raise(g, 'TypeError')
            args = [drop_none(a) for a in args]
            if ip.pc is FALSE:
                return BOT
        k = ip.kind_of(o)
        if k in ('set', 'dict', 'list', 'tuple') and not kw:
            # the operators behind their names
            if nm == '__contains__' and len(args) == 1:
                return ip.each(args[0], lambda x: self.contains(x, o))
            if nm == '__getitem__' and len(args) == 1:
                return ip.each(args[0], lambda x: self.getitem(o, x))
            if nm == '__len__' and not args:
                return self.b_len([leaf(o)], {})
        if o.op == 'ext':
            return self.call_ext(canon_ext(o.args[0] + '.' + nm), args, kw)
        if o.op == 'call' and o.args[0].op == 'ext':
            src = o.args[0].args[0]
            if src == 're.compile' and not o.args[2] and nm in RE_FLAGS and not kw:
                # a compiled pattern is the function of its pattern; flags follow the other arguments
                pat = [leaf(x) for x in o.args[1]]
                if len(pat) == 1:
                    return self.call_ext('re.' + nm, pat + args, {})
                if len(args) == RE_FLAGS[nm] - 1:
                    return self.call_ext('re.' + nm, pat[:1] + args, {'flags': pat[1]})
            if src in ('re.match', 're.search', 're.fullmatch') and nm == 'group' and not kw and args and \
                    all(a.a is None and isnum(a.t) and isinstance(a.t.args[0], int) and a.t.args[0] >= 0 for a in args):
                gs = self.unknown_method(o, 'groups', [], {})
                rs = [self.unknown_method(o, 'group', [], {}) if a.t.args[0] == 0 else
                      ip.each(gs, lambda t: self.getitem(t, const(a.t.args[0] - 1))) for a in args]
                return rs[0] if len(rs) == 1 else leaf(mk('tup', *rs))
        if nm in IGNORED and (o.op == 'attr' and o.args[1] in LOGGERS or o.op == 'call' and
                              'getLogger' in str(o.args[0])):
            return NONE
        if k == 'graph':
            r = self.graph_method(o, nm, args, kw)
            if r is not None:
                return r
        if o.op == 'super':
            return ip.unk('super')
        if o.op == 'gnodes':
            if nm == 'data':
                if args:
                    return self.nodes_data(o.args[0], args[0])
                return leaf(mk('gdata', o.args[0]))
            if nm == 'items':
                return leaf(mk('gdata', o.args[0]))
            if nm == '__call__':
                if kw.get('data') is TRUE:
                    return leaf(mk('gdata', o.args[0]))
                return leaf(o)
            if nm in ('keys',):
                return leaf(o)
        if o.op == 'gnode':
            g, n = o.args
            if nm == 'clear':
                for a in NATTRS:
                    d, w = ip.rd(('na', g, a))
                    ip.wr(('na', g, a), (AND(d, NOT(eq_t(KEY, n))), w))
                return NONE
            if nm == 'get':
                d, w = ip.rd(('na', g, args[0].t.args[0]))
                return ite(lookup(d, n), lookup(w, n), args[1] if len(args) > 1 else NONE)
            if nm in ('pop',):
                key = args[0].t.args[0]
                d, w = ip.rd(('na', g, key))
                r = ite(lookup(d, n), lookup(w, n), args[1] if len(args) > 1 else NONE)
                ip.wr(('na', g, key), (AND(d, NOT(eq_t(KEY, n))), w))
                return r
            if nm == 'update':
                for kk, v in kw.items():
                    self.setitem(o, C(kk), v)
                if not args:
                    return NONE
        if o.op == 'adj' and nm == 'items':
            g = o.args[1]
            v = fresh()
            nb = mk('preds' if o.args[0] == 'p' else 'succs', g, v)
            return leaf(list_term(add_pieces((), pfor(mk('U'), v, lookup(ip.rd(('g', g)), v),
                                                      (one(TRUE, leaf(mk('tup', leaf(v), leaf(nb)))),)))))
        if o.op == 'loci' and nm == 'fill':
            r = self.method(o, 'render', [args[0]], {})
            ip.each(args[0], lambda t: self.setitem(t, leaf(o.args[1]), r))
            return NONE
        if o.op in ('preds', 'succs') and nm in ('keys', '__iter__'):
            return leaf(o)
        if k == 'dict' or (k is None and nm in ('items', 'keys', 'values', 'update', 'setdefault', 'popitem')
                           and o.op not in ('c', 'strcat', 'call') and not isinstance(ip.cls_of(o), Cls)
                           and not (nm == 'update' and o.op in ('get', 'at', 'loci', 'attr'))):
            r = self.dict_method(o, nm, args, kw)
            if r is not None:
                return r
        if k == 'set' or o.op == 'setv':
            r = self.set_method(o, nm, args, kw)
            if r is not None:
                return r
        if k in ('list', 'arr', 'tuple') or (k is None and nm in ('append', 'extend', 'insert', 'sort') and o.op in ('in', 'attr')):
            r = self.list_method(o, nm, args, kw)
            if r is not None:
                return r
        if isstr(o) or (nm in ('format', 'join') and o.op == 'c') or nm == 'partition' or (nm == 'split' and kw):
            r = self.str_method(o, nm, args, kw)
            if r is not None:
                return r
        if nm == 'get' and k is None and args and o.op != 'c':
            return ip.each(args[0], lambda t: ite(mem_t(t, o), get_t(o, t), args[1] if len(args) > 1 else NONE))
        if nm == 'clone' and o.op == 'attr' and False:
            return None
        return self.unknown_method(o, nm, args, kw)

    def unknown_method(self, o, nm, args, kw):
        ip = self.ip
        if nm in ARRAY_ONLY and not args and not kw and not isinstance(ip.cls_of(o), Cls) and \
                not any(nm in c.methods for c in ip.prog.classes() if not c.mod.name.startswith("spec.")):
            return self.call_ext('numpy.' + nm, [leaf(o)], {})
        if nm not in PURE and nm not in RANDOM and not known_name(nm):
            one_of = ip.prog.only_method(nm)
            if one_of is not None and not (isinstance(ip.cls_of(o), Cls)):
                c, m = one_of
                ip.types.setdefault(o, ('cls', c))
                return ip.method(o, nm, args, kw)
            ip.taint('call of a method %s of an object of unknown type' % nm)
        # arguments by position where the abstract declaration tells the order
        recv = as_t(ip.snap_v(leaf(o)))
        f = mk('meth', nm)
        pure = nm in PURE
        args2, kw2 = self.positional(o, nm, args, kw)
        r = ip.uninterp(f, [leaf(recv)] + args2, kw2, pure)
        if nm in MAYRAISE or not pure:
            self.may_raise(r)
        return r

    def positional(self, o, nm, args, kw):
        """keyword arguments of a method of a known abstract class, by position"""
        ip = self.ip
        c = ip.cls_of(o)
        if not kw or not isinstance(c, Cls):
            return args, kw
        m = ip.prog.method(c, nm)
        if not m:
            return args, kw
        a = m.node.args
        names = [x.arg for x in a.args][1:]
        args, kw = list(args), dict(kw)
        for n in names[len(args):]:
            if n in kw:
                args.append(kw.pop(n))
            else:
                break
        return args, kw

    def may_raise(self, r):
        ip = self.ip
        for tf in reversed(ip.trys):
            for hs in tf.handlers:
                for h in (hs or ('Exception',)):
                    def f(t, h=h):
                        if h == 'ValidationError' and t.op == 'call' and t.args[0].op == 'meth' and \
                                t.args[0].args[0] in VALID:
                            return NONE
                        if t.op == 'call' and not (h == 'AttributeError' and t.args[0].op == 'meth'):
                            ip.do_raise(atom(mk('raises', t, h)), h, leaf(mk('exc', h)))
                        return NONE
                    ip.each(r, f)

    def nodes_data(self, g, key):
        ip = self.ip
        v = fresh()
        if key.a is None and key.t.op == 'c' and isinstance(key.t.args[0], str):
            d, w = ip.rd(('na', g, key.t.args[0]))
            val = ite(lookup(d, v), lookup(w, v), NONE) if lookup(d, v) is not lookup(ip.rd(('g', g)), v) else lookup(w, v)
            return leaf(list_term(add_pieces((), pfor(mk('U'), v, lookup(ip.rd(('g', g)), v),
                                                      (one(TRUE, leaf(mk('tup', leaf(v), val))),)))))
        return leaf(mk('gdata', g))

    def dict_method(self, o, nm, args, kw):
        ip = self.ip
        if ip.kind_of(o) is None:
            ip.kind[o] = 'dict'
        dom, val = ip.rd(('d', o)) if o.op != 'dictv' else self.dict_of(o)
        if nm == 'keys':
            if I.const_keys(dom) is not None:
                return leaf(list_term(self.key_pieces(dom)))
            return leaf(set_term(KEY, dom))
        if nm in ('items', 'values'):
            ks = I.const_keys(dom)

            def item(k):
                x = nobot(simp(lookup(val, k), lookup(dom, k)))
                return x if nm == 'values' else leaf(mk('tup', leaf(k), x))
            if ks is not None:
                return leaf(list_term(tuple(one(TRUE, item(k)) for k in ks)))
            v = fresh()
            return leaf(list_term(add_pieces((), pfor(mk('U'), v, lookup(dom, v), (one(TRUE, item(v)),)))))
        if nm == 'get':
            dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
            return ip.each(args[0], lambda t: ite(lookup(dom, t), nobot(lookup(val, t)) if lookup(val, t) is not BOT else dflt, dflt))
        if nm == 'update':
            if args:
                self.dict_update(o, args[0])
            for k, v in kw.items():
                if k == '**':
                    self.dict_update(o, v)
                else:
                    self.setitem(o, C(k), v)
            return NONE
        if nm == 'copy':
            return ip.new_dict(dom, val)
        if nm == 'clear':
            ip.wr(('d', o), (FALSE, BOT))
            return NONE
        if nm == 'pop':
            def f(k):
                dk = lookup(dom, k)
                if len(args) == 1 and ip.can_catch('KeyError'):
                    ip.do_raise(NOT(dk), 'KeyError')
                r = lookup(val, k)
                if len(args) > 1:
                    r = ite(dk, r, args[1])
                d, w = ip.rd(('d', o))
                ip.wr(('d', o), (AND(d, NOT(eq_t(KEY, k))), w))
                return r
            return ip.each(args[0], f)
        if nm == 'setdefault':
            def f(k):
                dk = lookup(dom, k)
                dv = args[1] if len(args) > 1 else NONE
                r = ite(dk, lookup(val, k), dv)
                self.setitem(o, leaf(k), r)
                return r
            return ip.each(args[0], f)
        return None

    def set_method(self, o, nm, args, kw):
        ip = self.ip
        dom = ip.rd(('s', o)) if o.op != 'setv' else self.contains_raw(KEY, o)
        fs = lambda: [self.mem_fn(a)(KEY) for a in self.star_sets(args)]
        if nm in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
            d = dom
            if nm == 'union' and any(a.a is None and a.t.op == 'star' for a in args):
                d = OR(d, self.star_union(args))
                return ip.new_set(d)
            for f in fs():
                d = OR(d, f) if nm == 'union' else AND(d, f) if nm == 'intersection' else AND(d, NOT(f)) \
                    if nm == 'difference' else ite(d, NOT(f), f)
            return ip.new_set(d)
        if nm in ('update', 'intersection_update', 'difference_update'):
            d = dom
            if nm == 'update' and any(a.a is None and a.t.op == 'star' for a in args):
                d = OR(d, self.star_union(args))
            else:
                for f in fs():
                    d = OR(d, f) if nm == 'update' else AND(d, f) if nm == 'intersection_update' else AND(d, NOT(f))
            ip.wr(('s', o), d)
            return NONE
        if nm == 'add':
            ek = lift(lambda t: eq_t(KEY, t), ip.snap_v(args[0]), pc=ip.pc)
            ip.wr(('s', o), OR(dom, ek))
            return NONE
        if nm in ('discard', 'remove'):
            ek = lift(lambda t: eq_t(KEY, t), args[0], pc=ip.pc)
            if nm == 'remove' and ip.can_catch('KeyError'):
                ip.each(args[0], lambda t: (ip.do_raise(NOT(lookup(dom, t)), 'KeyError'), NONE)[1])
            ip.wr(('s', o), AND(dom, NOT(ek)))
            return NONE
        if nm == 'clear':
            ip.wr(('s', o), FALSE)
            return NONE
        if nm in ('issubset', 'issuperset', 'isdisjoint'):
            f = fs()[0]
            d = AND(dom, NOT(f)) if nm == 'issubset' else AND(f, NOT(dom)) if nm == 'issuperset' else AND(dom, f)
            return NOT(EX(KEY, d))
        return None

    def star_sets(self, args):
        return args

    def star_union(self, args):
        """union of all members of starred sequences of sets"""
        ip = self.ip
        d = FALSE
        for a in args:
            if a.a is None and a.t.op == 'star':
                s = as_t(a.t.args[0]) if not isinstance(a.t.args[0], T) else a.t.args[0]
                acc = ip.new_set(FALSE)
                cur = {}
                ip.loop(leaf(s), lambda v: cur.__setitem__('v', v),
                        lambda: self.set_method(acc.t, 'update', [cur['v']], {}), None, True)
                d = OR(d, ip.rd(('s', acc.t)))
            else:
                d = OR(d, self.mem_fn(a)(KEY))
        return d

    def list_method(self, o, nm, args, kw):
        ip = self.ip
        if nm == 'append':
            ip.wr(('p', o), ip.rd(('p', o)) + (one(TRUE, args[0]),))
            if ip.kind_of(o) is None:
                ip.kind[o] = 'list'
            return NONE
        if nm == 'extend':
            ip.wr(('p', o), ip.rd(('p', o)) + ip.iter_pieces(args[0]))
            return NONE
        if nm == 'clear':
            ip.wr(('p', o), ())
            return NONE
        ps = ip.pieces_of(o)
        if nm == 'insert' and len(args) == 2 and args[0].a is None and isnum(args[0].t) and all_ones(ps) and \
                isinstance(args[0].t.args[0], int):
            ps = list(ps)
            ps.insert(args[0].t.args[0], one(TRUE, args[1]))
            ip.wr(('p', o), tuple(ps))
            return NONE
        if nm == 'insert' and args[0] is C(0):
            ip.wr(('p', o), (one(TRUE, args[1]),) + tuple(ps))
            return NONE
        if nm == 'copy':
            return ip.new_list(ps, ip.kind_of(o) == 'arr')
        if nm == 'sum':
            if args or kw:
                return None
            return sum_pieces(ps)
        if nm == 'mean' and not args and not kw:
            return self.mean(ps)
        if nm in ('sort',):
            s = mk('call', mk('ext', 'builtins.sorted'), (I.list_collapse(ip_pieces(ip, ps)),), self.kwsnap(kw), (0,))
            ip.wr(('p', o), seq_pieces(s) if ip.pc is TRUE else seq_pieces(s))
            return NONE
        if nm == 'reverse':
            ip.wr(('p', o), self.rev(ps))
            return NONE
        if nm == 'index':
            return leaf(mk('call', mk('meth', 'index'), (as_t(ip.snap_v(leaf(o))), as_t(ip.snap_v(args[0]))), (), (0,)))
        if nm == 'pop':
            if not args and ps and ps[-1].op == 'one' and ps[-1].args[0] is TRUE:
                ip.wr(('p', o), tuple(ps[:-1]))
                return ps[-1].args[1]
            raise I.Give('list.pop')
        if nm == 'count':
            return leaf(mk('call', mk('meth', 'count'), (as_t(ip.snap_v(leaf(o))), as_t(ip.snap_v(args[0]))), (), (0,)))
        if nm in ('min', 'max', 'std', 'cumsum', 'reshape', 'tolist', 'astype', 'any', 'all', 'var', 'numpy', 'flatten',
                  'argmin', 'argmax'):
            if nm in ('tolist',):
                return ip.new_list(ps)
            if nm in ('any', 'all') and not args:
                return self.b_any_all(nm, [leaf(o)])
            return leaf(mk('call', mk('ext', 'numpy.' + nm), (as_t(ip.snap_v(leaf(o))),) +
                           tuple(as_t(ip.snap_v(a)) for a in args), self.kwsnap(kw), (0,)))
        return None

    def kwsnap(self, kw):
        return tuple((k, as_t(self.ip.snap_v(v))) for k, v in sorted(kw.items()))

    def rev(self, ps):
        if all_ones(ps):
            return tuple(reversed(ps))
        return seq_pieces(mk('reversed', I.list_collapse(ps)))

    def mean(self, ps):
        s = sum_pieces(ps)
        n = len_t(I.list_collapse(ps))
        return lift(lambda a, b: leaf(t_div(a, b)), s, n)

    def split_head(self, o, sep, side):
        """what stands before (0) or after (1) the first separator of a text"""
        r = self.call_meth('split', o, [sep, C(1)])
        return ite(mem_t(sep.t, o), lift(lambda t: as_n(get_t(t, const(side))), r), leaf(o) if side == 0 else C(''))

    def call_meth(self, nm, o, args):
        return self.ip.uninterp(mk('meth', nm), [leaf(o)] + args, {}, True)

    def str_method(self, o, nm, args, kw):
        ip = self.ip
        if nm == 'partition' and o.op != 'c' and len(args) == 1 and not kw and args[0].a is None:
            return leaf(mk('tup', self.split_head(o, args[0], 0), ite(mem_t(args[0].t, o), args[0], C('')),
                           self.split_head(o, args[0], 1)))
        if nm == 'split' and kw and set(kw) <= {'sep', 'maxsplit'} and len(args) < 2:
            kw = dict(kw)
            args = list(args)
            if not args:
                args.append(kw.pop('sep', NONE))
            if 'maxsplit' in kw:
                args.append(kw.pop('maxsplit'))
            if not kw:
                return self.unknown_method(o, nm, args, {})
        if nm == 'format' and o.op == 'c':
            return self.str_format(o.args[0], args, kw)
        if nm == 'join':
            def f(t):
                ps = ip.pieces_of(t)
                if o.op == 'c' and o.args[0] == '' and t.op == 'call' and t.args[0] is mk('meth', 'split') and \
                        len(t.args[1]) == 1 and not t.args[2]:
                    return self.call_ext('re.sub', [C('\\s+'), C(''), leaf(t.args[1][0])], {})
                x = as_t(ip.snap_v(leaf(I.list_collapse(ps))))
                return join_t(o, given(x.args[0], ip.pc)) if x.op == 'listv' else leaf(mk('join', o, x))
            return ip.each(args[0], f)
        if o.op == 'c' and isinstance(o.args[0], str) and all(a.a is None and a.t.op == 'c' for a in args) and not kw:
            try:
                r = getattr(o.args[0], nm)(*[a.t.args[0] for a in args])
            except Exception:
                return None
            if isinstance(r, (str, bool, int)):
                return C(r)
            if isinstance(r, (list, tuple)):
                return ip.new_list(tuple(one(TRUE, C(x)) for x in r))
        return None

    def is_pure_call(self, t):
        f = t.args[0]
        if f.op == 'meth':
            return f.args[0] in PURE
        if f.op == 'ext':
            return not self.impure_ext(f.args[0])
        return False

    def impure_ext(self, q):
        return q.startswith(IMPURE_EXT)

    # ------------------------------------------------------------ overrides for repository functions
    def repo_override(self, m, o, args, kw):
        return None

    def fn_override(self, fn, args, kw):
        return None

    # ------------------------------------------------------------ functions
    ONE_ARG = {'builtins.' + n for n in 'abs len round sum sorted enumerate isinstance iter next reversed map filter '
                                        'getattr setattr hasattr any all min max'.split()} | \
              {'numpy.' + n for n in 'array exp log sqrt mean sum abs std var average quantile where full zeros ones prod '
                                     'cumsum max min argmax argmin isfinite isnan isinf sort unique'.split()} | \
              {'joblib.delayed', 'vf.parallel', 'math.exp', 'math.log', 'math.sqrt', 'math.floor', 'math.ceil'}

    def call_ext(self, q, args, kw):
        if not args and not kw and q in self.ONE_ARG:
            self.ip.do_raise(TRUE, 'TypeError')
            return BOT
        try:
            return self._call_ext(q, args, kw)
        except IndexError:
            raise I.Give('call of %s with %d arguments' % (q, len(args)))

    def _call_ext(self, q, args, kw):
        ip = self.ip
        name = q.split('.')[-1]
        mod = q[:-len(name) - 1]
        if mod == 'builtins':
            m = getattr(self, 'b_' + name, None)
            if m:
                return m(args, kw)
            if name in I.EXC or name.endswith(('Error', 'Exception', 'Warning')):
                return leaf(mk('exc', name))
            return self.ext_call(q, args, kw)
        if mod in ('builtins.set', 'builtins.frozenset', 'builtins.dict', 'builtins.list', 'builtins.str') and args \
                and not (mod == 'builtins.dict' and name == 'fromkeys') \
                and not any(a.a is None and a.t.op == 'star' for a in args[:1]):
            return self.method_n(args[0], name, list(args[1:]), kw)
        if mod.startswith('networkx'):
            m = getattr(self, 'nx_' + name, None)
            if m:
                return m(args, kw)
        if mod == 'numpy':
            m = getattr(self, 'np_' + name, None)
            if m:
                if name in ELEMENTWISE:
                    args = [self.np_array([a], {}) if any(ip.kind_of(t) in ('list', 'tuple') for t in leaves(a, ip.pc))
                            else a for a in args]
                r = m(args, kw)
                if r is not None:
                    return r
        if mod in ('math',) and name in ('pow',):
            return self.arith(lambda x, y: leaf(t_pow(x, y)), *args)
        if name == 'tqdm' or q == 'tqdm.trange':
            return args[0]
        if q.startswith('joblib.') or q.startswith('sklearn.') and name in ('Parallel', 'delayed'):
            if name == 'Parallel':
                return leaf(mk('ext', 'vf.parallel'))
            if name == 'delayed':
                return args[0]
        if q == 'vf.parallel':
            return ip.new_list(ip.iter_pieces(args[0]))
        if q == 'logging.getLogger':
            return leaf(mk('call', mk('ext', q), tuple(as_t(ip.snap_v(a)) for a in args), (), (0,)))
        if q.startswith('logging.') and q.split('.')[-1][:1].isupper():
            return leaf(mk('call', mk('ext', q), tuple(as_t(ip.snap_v(a)) for a in args), (), (0,)))
        if q.startswith(('logging.', 'warnings.')):
            return NONE
        if q == 'functools.partial':
            f = args[0]
            return ip.each(f, lambda t: leaf(mk('partial', t, tuple(args[1:]), tuple(sorted(kw.items())))))
        if q in ('copy.copy', 'copy.deepcopy'):
            def f(t):
                r = self.copy_value(t)
                return r if r is not None else leaf(mk('call', mk('ext', q), (as_t(ip.snap_v(leaf(t))),), (), (0,)))
            return ip.each(args[0], f)
        if q.startswith('scipy.stats.'):
            return self.scipy_dist(q, args, kw)
        if q == 'scipy.special.logsumexp' and not kw:
            return self.arith(lambda x: leaf(x), leaf(mk('call', mk('ext', q), (as_t(ip.snap_v(args[0])),), (), (0,))))
        if q == 'collections.OrderedDict':
            return self.b_dict(args, kw)
        if q == 'collections.defaultdict':
            return self.b_dict(args[1:], kw)
        if q == 'itertools.chain':
            ps = ()
            for a in args:
                ps += ip.iter_pieces(a)
            return ip.new_list(ps)
        return self.ext_call(q, args, kw)

    def ext_call(self, q, args, kw):
        ip = self.ip
        f = mk('ext', q)
        return self.finish_ext(f, q, args, kw)

    SIG = {
        'numpy.quantile': ('a', 'q'), 'numpy.average': ('a', 'axis', 'weights'),
        'numpy.random.choice': ('a', 'size', 'replace', 'p'), 'numpy.random.normal': ('loc', 'scale', 'size'),
        'numpy.random.exponential': ('scale', 'size'), 'numpy.random.binomial': ('n', 'p', 'size'),
        'numpy.random.poisson': ('lam', 'size'), 'numpy.random.random': ('size',), 'numpy.random.uniform': ('low', 'high', 'size'),
        'numpy.full': ('shape', 'fill_value'), 'scipy.interpolate.interp1d': ('x', 'y', 'kind'),
        're.match': ('pattern', 'string', 'flags'), 're.search': ('pattern', 'string', 'flags'),
        're.fullmatch': ('pattern', 'string', 'flags'), 're.findall': ('pattern', 'string', 'flags'),
        're.sub': ('pattern', 'repl', 'string', 'count', 'flags'), 're.split': ('pattern', 'string', 'maxsplit', 'flags'),
        'builtins.eval': ('source', 'globals', 'locals'), 'builtins.sorted': ('iterable',),
    }
    DEF = {'numpy.random.choice': {'size': None, 'replace': True, 'p': None},
           'numpy.random.normal': {'loc': 0, 'scale': 1, 'size': None},
           'numpy.random.exponential': {'scale': 1, 'size': None},
           'numpy.average': {'axis': None, 'weights': None}}

    def finish_ext(self, f, q, args, kw):
        ip = self.ip
        if q == 're.sub' and len(args) == 3 and not kw and all(a.a is None for a in args[:2]) and \
                args[0].t.op == args[1].t.op == 'c' and args[0].t.args[0] in NO_SPACE and args[1].t.args[0] == '':
            args = [C('\\s+')] + args[1:]
        sig = self.SIG.get(q)
        if sig:
            d = dict(zip(sig, args))
            if len(args) <= len(sig):
                for k, v in kw.items():
                    d[k] = v
                for k, v in self.DEF.get(q, {}).items():
                    d.setdefault(k, C(v))
                args, kw = [], d
                if q == 'numpy.random.choice' and 'a' in d:
                    # one of the numbers below n
                    def below(t):
                        s = simple_for(t.args[0]) if t.op == 'listv' else None
                        if s and s[0].op == 'idx' and s[2] is TRUE and as_n(s[3]) is leaf(s[1]):
                            return leaf(s[0].args[0])
                        return leaf(t)
                    a = lift(below, ip.snap_v(d['a']))
                    if a is not ip.snap_v(d['a']):
                        d['a'] = a
        pure = not self.impure_ext(q)
        if q == 'builtins.eval' and 'globals' in kw:
            # the names that are known to the expression get the builtins added
            ip.each(kw['globals'], lambda t: (ip.add_effect(mk('setitem', t, const('__builtins__'), const('builtins')))
                                              if t.op not in ('new', 'bot', 'c', 'undef') else None, NONE)[1])
        r = ip.uninterp(f, args, kw, pure)
        if q in ('builtins.eval', 'ast.parse', 're.match', 'ast.literal_eval', 'numpy.log') and q != 're.match':
            self.may_raise(r)
        return r

    def scipy_dist(self, q, args, kw):
        """frozen scipy distribution with canonical parameters"""
        ip = self.ip
        name = q.split('.')[-1]
        shapes = {'gamma': ('a',), 'expon': (), 'lognorm': ('s',), 'uniform': (), 'chi2': ('df',), 'beta': ('a', 'b'),
                  'invgamma': ('a',), 'norm': (), 'triang': ('c',), 'binom': ('n', 'p'), 'poisson': ('mu',),
                  't': ('df',), 'weibull_min': ('c',), 'nbinom': ('n', 'p'), 'geom': ('p',), 'randint': ('low', 'high'),
                  'logistic': (), 'cauchy': (), 'laplace': (), 'pareto': ('b',), 'truncnorm': ('a', 'b'),
                  'erlang': ('a',), 'bernoulli': ('p',), 'chi': ('df',), 'loglaplace': ('c',)}
        if name not in shapes:
            return self.ext_call(q, args, kw)
        disc = name in ('binom', 'poisson', 'nbinom', 'geom', 'randint', 'bernoulli')
        names = shapes[name] + (('loc',) if disc else ('loc', 'scale'))
        d = dict(zip(names, args))
        d.update(kw)
        d.setdefault('loc', C(0))
        if not disc:
            d.setdefault('scale', C(1))
        if name == 'expon':
            # gamma with shape one
            name, d['a'] = 'gamma', C(1)
        if name == 'chi2':
            name, d['a'] = 'gamma', lift(lambda t: leaf(t_div(t, const(2))), d.pop('df'))
            d['scale'] = lift(lambda t: leaf(t_mul(t, const(2))), d['scale'])
        if name == 'erlang':
            name = 'gamma'
        if name == 'bernoulli':
            name, d['n'] = 'binom', C(1)
        ks = sorted(d)
        vs = [ip.snap_v(d[k]) for k in ks]
        return lift(lambda *ts: leaf(mk('dist', name, tuple(ks), *ts)), *vs, pc=ip.pc)

    # -- builtins
    def b_len(self, args, kw):
        ip = self.ip

        def f(t):
            k = ip.kind_of(t)
            if k in ('list', 'arr') and (t.op == 'new' or ('p', t) in ip.store):
                return len_t(as_t(ip.snap_v(leaf(I.list_collapse(ip.rd(('p', t)))))))
            if k == 'dict':
                d = ip.rd(('d', t))[0]
                ks = I.const_keys(d)
                return C(len(ks)) if ks is not None else leaf(mk('len', t)) if t.op != 'new' and ('d', t) not in ip.store \
                    else leaf(mk('len', I.set_collapse(d)))
            if k == 'set':
                return leaf(mk('len', set_term(KEY, self.contains_raw(KEY, t))))
            if k == 'graph':
                return leaf(mk('len', set_term(KEY, ip.rd(('g', t)))))
            if t.op in ('preds', 'succs'):
                return leaf(mk('len', set_term(KEY, self.contains_raw(KEY, t))))
            c = ip.cls_of(t)
            if isinstance(c, Cls):
                m = ip.prog.method(c, '__len__')
                if m:
                    return ip.call_fn(m, [leaf(t)], {})
            return len_t(t)
        return ip.each(args[0], f)

    def b_sum(self, args, kw):
        return self.sum_of(args[0])

    def sum_of(self, v):
        ip = self.ip

        def f(t):
            k = ip.kind_of(t)
            if k in ('list', 'arr', 'set', 'tuple') or t.op in ('listv', 'setv'):
                ps = ip.pieces_of(t)
                ps = tuple(map_pieces(ps, lambda x: lift(lambda y: ite(truthy_t(y), C(1), C(0)) if isbool(y) else leaf(y),
                                                         ip.snap_v(x))))
                return sum_pieces(ps)
            if t.op == 'poly' or k is None:
                return leaf(mk('sumof', as_t(ip.snap_v(leaf(t)))))
            return sum_t(t)
        return ip.each(v, f)

    def b_list(self, args, kw):
        if not args:
            return self.ip.new_list(())
        return self.ip.new_list(self.ip.iter_pieces(args[0]))

    def b_tuple(self, args, kw):
        return self.b_list(args, kw)

    def b_iter(self, args, kw):
        return args[0]

    def b_reversed(self, args, kw):
        return self.ip.new_list(self.rev(self.ip.iter_pieces(args[0])))

    def b_set(self, args, kw):
        if not args:
            return self.ip.new_set(FALSE)
        return self.ip.each(args[0], lambda t: self.ip.new_set(self.members(t)))

    b_frozenset = b_set

    def members(self, t):
        """membership test of the elements obtained by iterating t"""
        ip = self.ip
        c = ip.cls_of(t)
        if isinstance(c, Cls) and not ip.is_graph_cls(c):
            return pieces_mem(KEY, self.pieces(t))
        return self.contains_raw(KEY, t)

    def b_dict(self, args, kw):
        r = self.ip.new_dict()
        if args:
            self.dict_update(r.t, args[0])
        for k, v in kw.items():
            if k == '**':
                self.dict_update(r.t, v)
            else:
                self.setitem(r.t, C(k), v)
        return r

    def b_range(self, args, kw):
        ip = self.ip

        def f(*ts):
            if all(isnum(t) for t in ts):
                r = range(*[int(t.args[0]) for t in ts])
                if len(r) <= 6:
                    return leaf(list_term(tuple(one(TRUE, C(i)) for i in r)))
            if len(ts) == 1:
                v = fresh()
                return leaf(list_term(add_pieces((), pfor(mk('idx', ts[0]), v, TRUE, (one(TRUE, leaf(v)),)))))
            if len(ts) == 2:
                v = fresh()
                return leaf(list_term(add_pieces((), pfor(mk('idx', t_sub(ts[1], ts[0])), v, TRUE,
                                                          (one(TRUE, leaf(t_add(v, ts[0]))),)))))
            return leaf(mk('call', mk('ext', 'builtins.range'), ts, (), (0,)))
        return ip.each_list(args, f)

    def b_enumerate(self, args, kw):
        ip = self.ip
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        ps = ip.iter_pieces(args[0])
        if all_ones(ps):
            return leaf(list_term(tuple(one(TRUE, leaf(mk('tup', lift(lambda s: leaf(t_add(s, const(i))), start), p.args[1])))
                                        for i, p in enumerate(ps))))
        s = simple_for(tuple(ps))
        if s and s[0].op == 'idx' and s[2] is TRUE:
            base, v, g, e = s
            return leaf(list_term(add_pieces((), pfor(base, v, g, (one(TRUE, leaf(mk(
                'tup', lift(lambda s: leaf(t_add(s, v)), start), e))),)))))
        if s:
            base, v, g, e = s
            return leaf(list_term(add_pieces((), pfor(base, v, g, (one(TRUE, leaf(mk(
                'tup', leaf(mk('position', v, I.list_collapse(ps))), e))),)))))
        if len(ps) > 1:
            # alternatives of which at most one is there
            opened = [open_for(p) if p.op == 'for' else None for p in ps]
            if all(opened) and all(AND(opened[i][2], opened[j][2]) is FALSE for i in range(len(ps)) for j in range(i)):
                out = ()
                for p in ps:
                    s = simple_for((p,))
                    if not s or s[0].op != 'idx' or occurs(s[1], s[2]):
                        break
                    base, v, g, e = s
                    out = add_pieces(out, pfor(base, v, g, (one(TRUE, leaf(mk(
                        'tup', lift(lambda s: leaf(t_add(s, v)), start), e))),)))
                else:
                    return leaf(list_term(out))
        if args[0].a is not None:
            return ip.each(args[0], lambda t: self.b_enumerate([leaf(t)] + list(args[1:]), kw))
        return ip.unk('enumerate')

    def b_zip(self, args, kw):
        ip = self.ip
        pss = [tuple(ip.iter_pieces(a)) for a in args]
        if all(all_ones(p) for p in pss):
            n = min(len(p) for p in pss)
            return leaf(list_term(tuple(one(TRUE, leaf(mk('tup', *[p[i].args[1] for p in pss]))) for i in range(n))))
        ss = [simple_for(p) for p in pss]
        if all(ss):
            b0, v0, g0, _ = ss[0]
            es, ok = [], True
            ns = []
            for b, v, g, e in ss:
                if b.op == 'idx' and g is TRUE:
                    ns.append(b.args[0])
                else:
                    ns.append(None)
            if all(n is not None for n in ns):
                n = ns[0]
                if any(m is not n for m in ns):
                    n = mk('minlen', *sorted(set(ns), key=lambda t: t.id))
                x = fresh()
                es = [as_n(subst(e, {v: x})) for b, v, g, e in ss]
                return leaf(list_term(add_pieces((), pfor(mk('idx', n), x, TRUE, (one(TRUE, leaf(mk('tup', *es))),)))))
            if all(b is b0 and as_n(subst(g, {v: v0})) is g0 for b, v, g, e in ss):
                es = [as_n(subst(e, {v: v0})) for b, v, g, e in ss]
                return leaf(list_term(add_pieces((), pfor(b0, v0, g0, (one(TRUE, leaf(mk('tup', *es))),)))))
        ls = [as_t(ip.snap_v(leaf(I.list_collapse(p)))) for p in pss]
        n = mk('minlen', *sorted({len_t(l).t for l in ls}, key=lambda t: t.id))
        x = fresh()
        return leaf(list_term(add_pieces((), pfor(mk('idx', n), x, TRUE, (one(TRUE, leaf(mk(
            'tup', *[at_t(l, x) for l in ls]))),)))))

    def b_any_all(self, nm, args):
        ip = self.ip
        ps = ip.iter_pieces(args[0])
        res = FALSE

        def go(ps):
            r = FALSE
            for p in ps:
                if p.op == 'one':
                    t = ip.truth(p.args[1])
                    r = OR(r, AND(p.args[0], t if nm == 'any' else NOT(t)))
                elif p.op == 'for':
                    v, base, g, sub = open_for(p)
                    r = OR(r, ex_base(base, v, AND(g, go(sub))))
                else:
                    r = OR(r, atom(mk('anyof', p)))
            return r
        r = go(ps)
        return r if nm == 'any' else NOT(r)

    def b_any(self, args, kw):
        return self.b_any_all('any', args)

    def b_all(self, args, kw):
        return self.b_any_all('all', args)

    def b_isinstance(self, args, kw):
        ip = self.ip

        def f(x, c):
            if c.op in ('listv', 'tup', 'new'):
                r = FALSE
                for p in ip.pieces_of(c):
                    r = OR(r, ip.each(p.args[1], lambda q: f(x, q)))
                return r
            return self.isinst(x, c)
        return ip.each_list(args, f)

    PYT = {'builtins.dict': 'dict', 'builtins.list': 'list', 'builtins.set': 'set', 'builtins.tuple': 'tuple'}

    def isinst(self, x, c):
        ip = self.ip
        if x.op == 'c':
            py = {'builtins.str': str, 'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool,
                  'builtins.dict': dict, 'builtins.list': list, 'builtins.set': set}.get(c.args[0] if c.op == 'ext' else None)
            if py:
                v = x.args[0]
                if isinstance(v, Fraction):
                    v = float(v)
                return C(isinstance(v, py))
            return FALSE
        if x.op == 'exc' and c.op in ('ext', 'cls'):
            nm = c.args[0].split('.')[-1] if c.op == 'ext' else ip.funcs[c].name
            return C(nm in ('object', 'BaseException') or ip.exc_is(x.args[0], nm))
        if c.op == 'ext':
            pk = self.PYT.get(c.args[0])
            k = ip.kind_of(x)
            if x.op == 'new' or k in ('dict', 'list', 'set'):
                if pk:
                    return C(pk == k)
                if c.args[0] in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool'):
                    return FALSE
            if c.args[0] == 'builtins.str' and (ip.type_of(x) or ('',))[0] == 'str':
                return TRUE
            return atom(mk('isinst', x, c.args[0]))
        if c.op == 'cls':
            cc = ip.funcs[c]
            xc = ip.objcls.get(x)
            if x.op == 'instv':
                xc = ip.funcs.get(x.args[0])
            if isinstance(xc, Cls):
                return C(ip.prog.issub(xc, cc))
            ty = ip.type_of(x)
            if ty and ty[0] == 'cls':
                if ip.prog.issub(ty[1], cc):
                    return NOT(isnone_t(x))
                if not ip.prog.issub(cc, ty[1]):
                    return FALSE
            if x.op in ('new', 'dictv', 'listv', 'setv', 'tup'):
                return FALSE
            # subclasses of the asked class in the repository split the test
            return atom(mk('isinst', x, cc.qual))
        return atom(mk('isinst', x, c))

    def b_callable(self, args, kw):
        return self.ip.each(args[0], lambda t: TRUE if t.op in ('func', 'cls', 'bm', 'clos', 'ext') else
                            atom(mk('callable', as_t(self.ip.snap_v(leaf(t))))))

    def b_getattr(self, args, kw):
        ip = self.ip

        def f(o, n):
            if n.op == 'c':
                return ip.attr(o, n.args[0])
            return leaf(mk('getattr', o, n))
        return ip.each_list(args[:2], f)

    def b_setattr(self, args, kw):
        ip = self.ip
        return ip.each_list(args[:2], lambda o, n: ip.set_attr(o, n.args[0], args[2]) if n.op == 'c' else
                            ip.unk('setattr'))

    def b_hasattr(self, args, kw):
        return self.ip.lift(lambda o, n: atom(mk('hasattr', o, n)), *args)

    def b_abs(self, args, kw):
        return self.arith(lambda t: leaf(t_abs(t)), args[0])

    def b_round(self, args, kw):
        if len(args) > 1:
            return self.ext_call('builtins.round', args, kw)
        return self.arith(lambda t: leaf(mk('round', t)), args[0])

    def b_pow(self, args, kw):
        return self.arith(lambda x, y: leaf(t_pow(x, y)), *args[:2])

    def b_float(self, args, kw):
        def f(t):
            if t.op == 'c' and isinstance(t.args[0], str):
                try:
                    return C(float(t.args[0]))
                except ValueError:
                    pass
            return leaf(t)
        return self.arith(f, args[0]) if args else C(0)

    def b_int(self, args, kw):
        def f(t):
            if isnum(t):
                return C(int(t.args[0]))
            if t.op == 'len':
                return leaf(t)
            return leaf(mk('int', t))
        return self.arith(f, args[0]) if args else C(0)

    def b_bool(self, args, kw):
        return self.ip.truth(args[0]) if args else FALSE

    def b_str(self, args, kw):
        return self.fmt(args[0], None, -1) if args else C('')

    def b_repr(self, args, kw):
        ip = self.ip

        def f(t):
            c = ip.cls_of(t)
            if isinstance(c, Cls) and t.op == 'new':
                m = ip.prog.method(c, '__repr__')
                if m:
                    return ip.call_fn(m, [leaf(t)], {})
            return leaf(mk('repr', as_t(ip.snap_v(leaf(t)))))
        return ip.each(args[0], f)

    def b_print(self, args, kw):
        return NONE

    def b_super(self, args, kw):
        return leaf(mk('super'))

    def b_type(self, args, kw):
        def f(t):
            c = self.ip.objcls.get(t)
            if isinstance(c, Cls):
                return self.ip.ref(('cls', c))
            return leaf(mk('typeof', t))
        return self.ip.each(args[0], f)

    def b_max(self, args, kw):
        return self.minmax('max', args, kw)

    def b_min(self, args, kw):
        return self.minmax('min', args, kw)

    def minmax(self, nm, args, kw):
        ip = self.ip
        if kw:
            return self.ext_call('builtins.' + nm, args, kw)
        if len(args) == 1:
            ps = ip.iter_pieces(args[0])
            if all_ones(ps) and ps:
                args = [p.args[1] for p in ps]
                if len(args) == 1:
                    return args[0]
            else:
                return leaf(mk('call', mk('ext', 'numpy.' + nm), (as_t(ip.snap_v(leaf(I.list_collapse(ps)))),), (), (0,)))

        def f(*ts):
            fl = []
            for t in ts:
                fl += list(t.args) if t.op == nm else [t]
            cs = [t for t in fl if isnum(t)]
            rest = sorted({t for t in fl if not isnum(t)}, key=lambda t: t.id)
            if cs:
                c = (max if nm == 'max' else min)(cs, key=lambda t: t.args[0])
                if not rest:
                    return leaf(c)
                rest = [c] + rest
            if len(rest) == 1:
                return leaf(rest[0])
            if len(rest) == 2:
                a, b = rest
                return ite(lt(a, b), leaf(b), leaf(a)) if nm == 'max' else ite(lt(b, a), leaf(b), leaf(a))
            return leaf(mk(nm, *rest))
        return self.arith(f, *args)

    def b_sorted(self, args, kw):
        ip = self.ip
        ps = ip.iter_pieces(args[0])
        return leaf(mk('call', mk('ext', 'builtins.sorted'), (as_t(ip.snap_v(leaf(I.list_collapse(ps)))),),
                       self.kwsnap(kw), (0,)))

    def b_map(self, args, kw):
        return self.map_filter(args, True)

    def b_filter(self, args, kw):
        return self.map_filter(args, False)

    def map_filter(self, args, ismap):
        ip = self.ip
        if len(args) != 2:
            z = self.b_zip(args[1:], {})
        else:
            z = args[1]
        acc = ip.new_list(())
        cur = {}

        def body():
            v = cur['v']
            if ismap:
                xs = [v] if len(args) == 2 else [as_n(x) for x in v.t.args]
                r = ip.each(args[0], lambda f: ip.call(f, xs, {}))
                ip.wr(('p', acc.t), ip.rd(('p', acc.t)) + (one(TRUE, r),))
            else:
                if args[0] is NONE:
                    r = ip.truth(v)
                else:
                    r = ip.truth(ip.each(args[0], lambda f: ip.call(f, [v], {})))
                ip.pc = AND(ip.pc, r)
                if ip.pc is not FALSE:
                    ip.wr(('p', acc.t), ip.rd(('p', acc.t)) + (one(TRUE, v),))
        ip.loop(z, lambda v: cur.__setitem__('v', v), body, None, True)
        return acc

    def b_next(self, args, kw):
        ip = self.ip
        ps = ip.iter_pieces(args[0])
        if len(args) > 1 or True:
            d = args[1] if len(args) > 1 else leaf(mk('undef'))
            res = d
            for p in reversed(tuple(ps)):
                if p.op == 'one':
                    res = ite(p.args[0], p.args[1], res)
                elif p.op == 'for':
                    v, base, g, sub = open_for(p)
                    if len(sub) == 1 and sub[0].op == 'one':
                        gg = AND(g, sub[0].args[0])
                        ex = ex_base(base, v, gg)
                        bv, (b1,) = close(v, gg)
                        hit = mk('first', bv, base, b1)
                        res = ite(ex, as_n(subst(sub[0].args[1], {v: hit})), res)
                        if not ip.loopvars:
                            # what is found has what was looked for
                            ip.assumptions = AND(ip.assumptions, OR(NOT(ex), as_n(subst(gg, {v: hit}))))
                    else:
                        return ip.unk('next')
                else:
                    return ip.unk('next')
            return res

    def b_id(self, args, kw):
        return leaf(mk('id', as_t(self.ip.snap_v(args[0]))))

    def b_object(self, args, kw):
        return leaf(self.ip.new('inst'))

    def b_divmod(self, args, kw):
        return self.arith(lambda x, y: leaf(mk('tup', leaf(mk('floordiv', x, y)), leaf(mk('mod', x, y)))), *args)

    # -- networkx
    def in_graph(self, g, n):
        """a name that is no node of the graph is refused"""
        ip = self.ip
        if ip.kind_of(g) == 'graph':
            ip.do_raise(NOT(lookup(ip.rd(('g', g)), n)), 'NetworkXError')
        return ip.pc is not FALSE

    def nx_DiGraph(self, args, kw):
        r = self.new_graph_from(args, kw, None)
        if isinstance(r, N) and r.a is None:
            self.ip.objcls.pop(r.t, None)
        return r

    def nx_ancestors(self, args, kw):
        return self.ip.each_list(args, lambda g, n: self.reach_set(g, n, True) if self.in_graph(g, n) else BOT)

    def nx_descendants(self, args, kw):
        return self.ip.each_list(args, lambda g, n: self.reach_set(g, n, False) if self.in_graph(g, n) else BOT)

    def nx_has_path(self, args, kw):
        return self.ip.each_list(args, lambda g, a, b: OR(eq_t(a, b), reach_t(self.rel(g), a, b)))

    def nx_topological_sort(self, args, kw):
        return self.ip.each(args[0], lambda g: order_t(self.gterm(g)))

    def nx_freeze(self, args, kw):
        def f(g):
            self.ip.store[('fz', g)] = OR(self.ip.rd(('fz', g)), self.ip.pc)
            return leaf(g)
        return self.ip.each(args[0], f)

    def nx_is_frozen(self, args, kw):
        return self.ip.each(args[0], lambda g: self.ip.rd(('fz', g)))

    def nx_is_directed_acyclic_graph(self, args, kw):
        return self.ip.each(args[0], lambda g: atom(mk('acyclic', self.rel(g))))

    def nx_compose(self, args, kw):
        ip = self.ip

        def f(a, b):
            r = self.copy_graph(a)
            t = r.t
            ip.store[('g', t)] = OR(ip.rd(('g', a)), ip.rd(('g', b)))
            ip.store[('e', t)] = OR(ip.rd(('e', a)), ip.rd(('e', b)))
            for x in NATTRS:
                d1, w1 = ip.rd(('na', a, x))
                d2, w2 = ip.rd(('na', b, x))
                ip.store[('na', t, x)] = (OR(d1, d2), ite(d2, w2, w1))
            return r
        return ip.each_list(args[:2], f)

    def nx_all_simple_paths(self, args, kw):
        return self.ip.each_list(args[:3], lambda g, a, b: leaf(mk('paths_', self.gterm(g), a, b)))

    # -- numpy
    def np_array(self, args, kw):
        ip = self.ip

        def f(t):
            k = ip.kind_of(t)
            if k in ('list', 'arr', 'tuple'):
                return ip.new_list(ip.pieces_of(t), True)
            return leaf(t)
        return ip.each(args[0], f)

    np_asarray = np_array

    def np_sum(self, args, kw):
        if len(args) > 1 or kw:
            return None
        return self.sum_of(args[0])

    def np_mean(self, args, kw):
        if len(args) > 1 or kw:
            return None
        ip = self.ip

        def f(t):
            if ip.kind_of(t) in ('list', 'arr'):
                return self.mean(map_pieces(tuple(ip.pieces_of(t)), lambda x: lift(
                    lambda y: ite(truthy_t(y), C(1), C(0)) if isbool(y) else leaf(y), ip.snap_v(x))))
            return leaf(mk('call', mk('ext', 'numpy.mean'), (as_t(ip.snap_v(leaf(t))),), (), (0,)))
        return ip.each(args[0], f)

    def np_zeros(self, args, kw):
        return self.filled(args, C(0))

    def np_ones(self, args, kw):
        return self.filled(args, C(1))

    def np_full(self, args, kw):
        return self.filled(args[:1], args[1] if len(args) > 1 else kw['fill_value'])

    def filled(self, args, v):
        ip = self.ip

        def f(n):
            if isnum(n) and n.args[0] <= 6:
                return ip.new_list(tuple(one(TRUE, v) for _ in range(int(n.args[0]))), True)
            if n.op == 'tup':
                return leaf(mk('call', mk('ext', 'numpy.full'), (n, as_t(v)), (), (0,)))
            return ip.new_list(add_pieces((), pfor(mk('idx', n), fresh(), TRUE, (one(TRUE, v),))), True)
        return ip.each(args[0], f)

    def np_isnan(self, args, kw):
        return self.arith(isnan_t, args[0])

    def np_isinf(self, args, kw):
        return self.arith(isinf_t, args[0])

    def np_isfinite(self, args, kw):
        return self.arith(lambda t: NOT(OR(isnan_t(t), isinf_t(t))), args[0])

    def np_exp(self, args, kw):
        return self.arith(lambda t: leaf(t_exp(t)), args[0])

    def np_log(self, args, kw):
        return self.arith(lambda t: leaf(t_log(t)), args[0])

    def np_expm1(self, args, kw):
        return self.arith(lambda t: leaf(t_sub(t_exp(t), const(1))), args[0])

    def np_log1p(self, args, kw):
        return self.arith(lambda t: leaf(t_log(t_add(t, const(1)))), args[0])

    def np_sqrt(self, args, kw):
        return self.arith(lambda t: leaf(t_pow(t, const(Fraction(1, 2)))), args[0])

    def np_square(self, args, kw):
        return self.arith(lambda t: leaf(t_pow(t, const(2))), args[0])

    def np_abs(self, args, kw):
        return self.arith(lambda t: leaf(t_abs(t)), args[0])

    def np_power(self, args, kw):
        return self.arith(lambda x, y: leaf(t_pow(x, y)), *args[:2])

    def np_sign(self, args, kw):
        def f(t):
            p = pos(t)
            n = pos(t_mul(const(-1), t))
            return ite(p, C(1), ite(n, C(-1), C(0)))
        return self.arith(f, args[0])

    def np_where(self, args, kw):
        if len(args) != 3:
            return None
        return self.arith(lambda c, a, b: ite(truthy_t(c), leaf(a), leaf(b)), *args)

    def np_round(self, args, kw):
        return self.arith(lambda t: leaf(mk('round', t)), args[0])

    def np_max(self, args, kw):
        return self.minmax('max', args[:1], {}) if not kw and len(args) == 1 else None

    def np_min(self, args, kw):
        return self.minmax('min', args[:1], {}) if not kw and len(args) == 1 else None

    def np_maximum(self, args, kw):
        return self.minmax('max', args, kw)

    def np_minimum(self, args, kw):
        return self.minmax('min', args, kw)

    def np_any(self, args, kw):
        return self.b_any_all('any', args)

    def np_all(self, args, kw):
        return self.b_any_all('all', args)

    def np_average(self, args, kw):
        """weighted mean"""
        ip = self.ip
        w = kw.get('weights', args[2] if len(args) > 2 else NONE)
        if w is NONE and len(args) == 1:
            return self.np_mean(args, {})
        a = args[0]
        if a.a is None and w.a is None and ip.kind_of(a.t) in ('arr', 'list') and ip.kind_of(w.t) in ('arr', 'list'):
            def arr(v):
                return v if ip.kind_of(v.t) == 'arr' else ip.new_list(ip.pieces_of(v.t), True)
            prod = self.arith(lambda x, y: leaf(t_mul(x, y)), arr(a), arr(w))
            return lift(lambda x, y: leaf(t_div(x, y)), self.sum_of(prod), self.sum_of(w))
        return None


def isbool(t):
    return t.op in ('mem', 'eq', 'pos', 'isnan', 'isinf', 'isnone', 'truthy', 'isinst') or \
        (t.op == 'c' and isinstance(t.args[0], bool))


def lookup(n, k):
    """value of a function over KEY at key k"""
    if k is KEY:
        return n
    return as_n(subst(n, {KEY: k}))


def has_new(v):
    for t in leaves(v):
        if t.op == 'new':
            return True
    return False


def ip_pieces(ip, ps):
    return tuple(ps)


ARRAY_ONLY = set('argmin argmax min max sum prod cumsum cumprod'.split())
RE_FLAGS = {'match': 2, 'search': 2, 'fullmatch': 2, 'findall': 2, 'sub': 3}
NO_SPACE = ('\\s', '\\s+', '[\\s]', '[\\s]+', '\\s*', '(\\s)', '(\\s)+', '(\\s+)')
KNOWN_EXT = set('''numpy.abs numpy.sqrt numpy.log numpy.exp numpy.sum numpy.prod numpy.mean numpy.median numpy.min numpy.max
numpy.cumsum numpy.cumprod numpy.argmin numpy.argmax numpy.floor numpy.ceil numpy.quantile numpy.isnan numpy.isinf
numpy.isfinite numpy.inf numpy.nan numpy.log10 numpy.log1p numpy.expm1 numpy.zeros numpy.ones numpy.full numpy.argsort
numpy.power numpy.sort numpy.log2 numpy.sin numpy.cos
builtins.min builtins.max builtins.sum builtins.abs builtins.len builtins.sorted builtins.reversed builtins.round
builtins.int builtins.float builtins.str builtins.bool builtins.repr builtins.list builtins.dict builtins.set
builtins.tuple builtins.range builtins.isinstance builtins.eval builtins.NotImplemented
math.pi numpy.pi scipy.special.logsumexp'''.split())


def known_ext(q):
    """functions of the libraries whose alternative spellings are brought to one form above"""
    if q in KNOWN_EXT or q.startswith(('numpy.random.', 'random.', 'scipy.stats.')):
        return True
    if q.startswith('builtins.') and q.endswith(('Error', 'Exception', 'Interrupt', 'Iteration')):
        return True
    return False
