"""Summaries of functions and the comparison of a repository function with its reference model."""
import ast
import os
import re
import sys
import time

from vf.core import *
from vf.coll import *
from vf import core, coll, few, owned
from vf import interp as I
from vf.equal import Eq, Rec
from vf.load import Program, Fn, Cls


class Summary:
    pass


def params(fn):
    if isinstance(fn, Cls):
        init = fn.prog.method(fn, '__init__')
        if init is None:
            names = []
            for k in reversed(fn.prog.mro(fn)):
                if isinstance(k, Cls):
                    names += [n for n in k.anns if n not in names]
            return names, None, [], None
        r = params(init)
        return (r[0][1:],) + r[1:]
    a = fn.node.args
    return [x.arg for x in a.posonlyargs + a.args], a.vararg.arg if a.vararg else None, \
        [x.arg for x in a.kwonlyargs], a.kwarg.arg if a.kwarg else None


def annotations(fn):
    out = {}
    if isinstance(fn, Cls):
        return out
    a = fn.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        if x.annotation is not None:
            e = x.annotation
            out[x.arg] = e.value if isinstance(e, ast.Constant) else ast.unparse(e)
    return out


def bind_inputs(fn, spec=None):
    """parameter name of fn -> input name (the name the reference model uses)"""
    pos, va, ko, kw = params(fn)
    if spec is None:
        m = {p: p for p in pos + ko}
        for x in (va, kw):
            if x:
                m[x] = x
        return m, []
    spos, sva, sko, skw = params(spec)
    m = {}
    miss = []
    for i, s in enumerate(spos):
        if i < len(pos):
            m[pos[i]] = s
        else:
            miss.append(s)
    for s in list(miss):
        if s in ko:
            m[s] = s
            miss.remove(s)
    for s in sko:
        if s in ko or s in pos:
            m[s] = s
        else:
            miss.append(s)
    if va and sva:
        m[va] = sva
    if kw and skw:
        m[kw] = skw
    return m, miss


def default_exprs(fn):
    """position or keyword name -> default expression"""
    if isinstance(fn, Cls):
        fn = fn.prog.method(fn, '__init__')
        if not isinstance(fn, Fn):
            return {}
        skip = 1
    else:
        skip = 0
    a = fn.node.args
    pos = (a.posonlyargs + a.args)[skip:]
    out = {}
    n = len(pos) - len(a.defaults)
    for i, d in enumerate(a.defaults):
        out[pos[n + i].arg] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = d
    return out


def changed_defaults(prog, tgt, spec):
    """-> (parameters of the model whose default may have another value in the target, those that lost it)"""
    m, _ = bind_inputs(tgt, spec)
    inv = {v: k for k, v in m.items()}
    td, sd = default_exprs(tgt), default_exprs(spec)
    diff, lost = [], []
    for p, d in sd.items():
        q = inv.get(p)
        if q is None:
            continue
        if q not in td:
            lost.append(p)
        elif ast.dump(td[q]) != ast.dump(d):
            diff.append(p)
    return diff, lost


CONTAINERS = ('list', 'dict', 'set')


def optional(fn, p):
    d = default_exprs(fn).get(p)
    if d is None and isinstance(fn, Fn) and fn.cls is not None:
        a = fn.node.args
        return any(x.arg == p and isinstance(y, ast.Constant) and y.value is None
                   for x, y in zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]))
    return isinstance(d, ast.Constant) and d.value is None


def summarise(prog, fn, spec=None, types=None, renames=None, ident=False, inherit=None, views=True, omit=(), nostub=()):
    ip = I.Interp(prog, renames=renames, views=views)
    ip.nostub = frozenset(nostub)
    m, miss = bind_inputs(fn, spec)
    if miss:
        raise I.Give('parameters %s are gone' % miss)
    ann = dict(annotations(spec or fn))
    ann.update(types or {})
    args, kw = [], {}
    pos, va, ko, kwn = params(fn)
    inputs = []
    gap = False
    for p in pos:
        if p not in m:
            break
        if m[p] in omit:
            gap = True
            continue
        t = mk('in', m[p])
        inputs.append(t)
        if m[p] in ann:
            ty = ip.parse_type(ann[m[p]])
            if ty is None and ann[m[p]] not in ('any', 'object', 'float', 'int', 'bool'):
                raise I.Give('unknown type %s' % ann[m[p]])
            ip.types[t] = ty
        elif p == 'self' and isinstance(fn, Fn) and fn.cls is not None:
            ip.types[t] = ('cls', fn.cls)
        elif m[p] == 'self' and inherit:
            ip.types[t] = inherit
        v = leaf(t)
        if m[p] in ann and optional(spec or fn, m[p]) and (ip.types.get(t) or ('',))[0] in CONTAINERS:
            # left out, or given as None, or a container
            v = ite(isnone_t(t), leaf(const(None)), v)
        if gap:
            kw[p] = v
        else:
            args.append(v)
    for p in ko:
        if p in m and m[p] not in omit:
            t = mk('in', m[p])
            if m[p] in ann:
                ip.types[t] = ip.parse_type(ann[m[p]])
            kw[p] = leaf(t)
            inputs.append(t)
    if va and va in m:
        t = mk('in', m[va])
        ip.types[t] = ('list', None)
        kw['*va'] = leaf(t)
    if kwn and kwn in m:
        t = mk('in', m[kwn])
        ip.types[t] = ('dict', None)
        kw['**'] = leaf(t)
    s = Summary()
    s.ip = ip
    s.inputs = inputs
    r = run(ip, fn, args, kw)
    s.end = ip.pc
    s.raises = {c[1]: v for c, v in ip.store.items() if c[0] == 'x' and v is not FALSE}
    sn = I.Snap(ip, ip.store, None, ident)
    s.ret = sn.n(nobot(r)) if s.end is not FALSE else BOT
    s.raises = {k: sn.n(v) for k, v in s.raises.items()}
    s.effects = sn.pieces(ip.store.get(('eff',), ()))
    s.writes = {}
    for c, v in ip.store.items():
        if c[0] in ('a', 'd', 's', 'p', 'g', 'e', 'na', 'fz') and isinstance(c[1], T) and c[1].op != 'new':
            if I._same(v, ip.initial(c)):
                continue
            s.writes[c] = sn.content(c, v)
    s.end = sn.n(s.end)
    s.assume = ip.assumptions
    s.implicit = lambda k: sn.n(OR(*ip.imps[k])) if k in ip.imps else FALSE
    s.visited = sorted(ip.visited)
    s.notes = list(ip.notes)
    s.tainted = list(ip.tainted)
    s.steps = ip.steps
    return s


def run(ip, fn, args, kw):
    va = kw.pop('*va', None)
    if va is not None:
        ip.vararg_in = va
    if isinstance(fn, Cls):
        t = mk('cls', fn.qual)
        ip.funcs[t] = fn
        return ip.construct(t, args, kw)
    return ip.call_fn(fn, args, kw)


class Result:
    def __init__(self, verdict, recs=(), why='', stats=None):
        self.verdict, self.recs, self.why, self.stats = verdict, list(recs), why, stats or {}


def initial_for(s, c):
    return s.ip.initial(c)


def content_cmp(eq, c, a, b, g, path):
    k = c[0]
    if k in ('d', 'na'):
        r = eq.compare(a[0], b[0], g, path + ('keys',))
        h = AND(g, a[0])
        if eq.feasible(h) is not None:
            r += eq.compare(nobot(a[1]), nobot(b[1]), h, path + ('value',))
        return r
    if k in ('p', 'eff'):
        return eq.pieces(a, b, g, path, mk('listv', I.norm_pieces(a)), mk('listv', I.norm_pieces(b)))
    return eq.compare(a, b, g, path)


def compare(prog, tgt, spec, opts, vocab, attrs=None):
    """-> Result.  The target comes first."""
    t0 = time.time()
    renames = dict(opts.get('renames') or {})
    renames[spec.qual] = tgt.qual
    if isinstance(tgt, Cls):
        tgt.prog = prog
    try:
        inherit = ('cls', tgt.cls) if isinstance(tgt, Fn) and tgt.cls is not None else None
        b = summarise(prog, spec, spec, renames=renames, ident=opts.get('ident', True), inherit=inherit,
                      views=opts.get('views', True))
    except I.Give as e:
        return Result('BROKEN', why='reference model: %s' % e)
    try:
        a = summarise(prog, tgt, spec, ident=opts.get('ident', True), renames=renames,
                      views=opts.get('views', True))
    except I.Give as e:
        return Result('UNDECIDED', why=str(e))
    except Blowup as e:
        return Result('UNDECIDED', why=str(e))
    except RecursionError:
        return Result('UNDECIDED', why='recursion depth')
    r = compare_summaries(prog, a, b, opts, vocab, attrs)
    if r.verdict != 'HOLDS':
        # functions only one side calls by name, or calls at other places, are followed on both sides
        sa, sb = ({q: len(n) for q, n in x.ip.stubbed.items()} for x in (a, b))
        r1 = r
        sets = [{q for q in sa if sa[q] > sb.get(q, 0)}, {q for q in sb if sb[q] > sa.get(q, 0)}]
        sets.append(sets[0] | sets[1])
        for k, odd in enumerate(sets):
            if not odd or odd in sets[:k]:
                continue
            try:
                kw = dict(renames=renames, ident=opts.get('ident', True), views=opts.get('views', True), nostub=odd)
                a2 = summarise(prog, tgt, spec, **kw)
                r2 = compare_summaries(prog, a2, summarise(prog, spec, spec, inherit=inherit, **kw), opts, vocab, attrs)
                if r2.verdict == 'HOLDS' or r1.verdict == 'VIOLATED' and r2.verdict == 'UNDECIDED' and set(sa) - set(sb):
                    a, r = a2, r2
                if r2.verdict == 'HOLDS':
                    break
            except (I.Give, Blowup, RecursionError):
                pass
    diff, lost = changed_defaults(prog, tgt, spec)
    if lost and r.verdict == 'HOLDS':
        r.verdict, r.why = 'VIOLATED', 'parameter %s can not be left out any more' % ', '.join(lost)
    elif diff and r.verdict == 'HOLDS':
        try:
            kw = dict(renames=renames, ident=opts.get('ident', True), views=opts.get('views', True), omit=diff)
            r2 = compare_summaries(prog, summarise(prog, tgt, spec, **kw),
                                   summarise(prog, spec, spec, inherit=inherit, **kw), opts, vocab, attrs)
        except (I.Give, Blowup, RecursionError) as e:
            r2 = Result('UNDECIDED', why=str(e))
        if r2.verdict != 'HOLDS':
            r2.why = 'with the default of %s: %s' % (', '.join(diff), r2.why)
            r2.stats = r.stats
            r = r2
    r.stats.update(dict(steps=a.steps, functions=a.visited, notes=a.notes, wall=time.time() - t0))
    return r


def own_raise(v, k):
    """an exception of the same kind that is passed on is not raised here"""
    return subst(v, {mk('wild', k): FALSE})


DEBUG = os.environ.get('VF_FEW')


COLLAPSE = {'d': I.dict_collapse, 's': I.set_collapse, 'p': I.list_collapse}


def replaced(a, b):
    """what an object that only this call holds (the result of a call) has in an attribute, or any object in an
    attribute that is kept inside it: one of the two functions fills the collection that is there, the other puts
    another one in its place"""
    prog = a.ip.prog
    if not hasattr(prog, 'owned'):
        prog.owned = owned.owned([m.tree for n, m in prog.mods.items() if not n.startswith('spec.')])
    wa, wb = a.writes, b.writes
    for c in sorted(set(wa) | set(wb), key=str):
        if c[0] != 'a' or not isinstance(c[1], T) or c[1].op != 'call' and \
                re.sub(r'^_[A-Za-z0-9]+(?=__)', '', c[2]) not in prog.owned:
            continue
        x = mk('attr', c[1], c[2])
        for k, f in COLLAPSE.items():
            d = (k, x)
            if d not in wa and d not in wb:
                continue
            out = []
            for w in (wa, wb):
                w = dict(w)
                inner = w.pop(d, None)
                v = w.get(c, leaf(x))
                v = lift(lambda t: as_n(t.args[0]) if t.op == 'fresh' else leaf(t), v)
                if inner is not None:
                    now = leaf(f(inner))
                    v = lift(lambda t: now if t is x else leaf(t), v)
                w[c] = v
                out.append(w)
            wa, wb = out
    return wa, wb


def records(eq, a, b, opts, S=lambda x: x, facts=TRUE):
    """what differs between two summaries, both seen through S"""
    attrs = eq.attrs
    care = AND(S(AND(a.assume, b.assume)), facts)
    recs = []
    obs = opts.get('observe') or ('ret', 'raises', 'writes', 'effects')
    if 'raises' in obs:
        if opts.get('any_exc'):
            ra, rb = OR(*a.raises.values()), OR(*b.raises.values())
            recs += eq.compare(S(ra), S(rb), care, ('raises',))
        else:
            for k in sorted(set(a.raises) | set(b.raises)):
                ra, rb = S(own_raise(a.raises.get(k, FALSE), k)), S(own_raise(b.raises.get(k, FALSE), k))
                r = eq.compare(ra, rb, care, ('raises %s' % k,))
                if r:
                    # the operation itself raises the same error
                    ia, ib = S(a.implicit(k)), S(b.implicit(k))
                    if ia is not FALSE or ib is not FALSE:
                        r = eq.compare(OR(ra, AND(ia, rb)), OR(rb, AND(ib, ra)), care, ('raises %s' % k,))
                recs += r
    ok = AND(care, S(b.end))
    ok = AND(ok, S(a.end))
    for k in ('KeyError', 'IndexError'):
        # the reference fails on its own where it reads an element that is not there
        ok = AND(ok, NOT(S(b.implicit(k))))
    if 'ret' in obs:
        recs += eq.compare(S(a.ret), S(b.ret), ok, ('return value',))
    if 'writes' in obs:
        wa, wb = replaced(a, b)
        wcare = care if opts.get('on_raise') else ok
        for c in sorted(set(wa) | set(wb), key=str):
            if c[0] == 'fz' and not opts.get('frozen'):
                continue
            if c not in wb and c[0] == 'a' and attrs is not None and c[2] not in attrs:
                continue
            if opts.get('only_writes') and c[0] == 'a' and c[2] not in opts['only_writes']:
                continue
            x = wa[c] if c in wa else a.ip.initial(c)
            y = wb[c] if c in wb else b.ip.initial(c)
            nm = 'state %s' % (('%r.%s' % (c[1], c[2])) if c[0] == 'a' else repr(c[1]))
            recs += content_cmp(eq, c, S(x), S(y), wcare, (nm,))
    if 'effects' in obs:
        ea, eb = S(a.effects), S(b.effects)
        recs += eq.pieces(ea, eb, ok, ('effects',), mk('listv', I.norm_pieces(ea)), mk('listv', I.norm_pieces(eb)))
    return recs


def parts_all(a, S):
    """every value that is compared"""
    return [S(a.assume), S(a.end), S(a.ret), S(a.effects)] + [S(x) for x in a.raises.values()] + \
        [S(x) for x in a.writes.values()]


def few_elements(prog, a, b, opts, vocab, attrs):
    """definite differences on inputs whose collections have few elements"""
    t0 = time.time()
    base = [parts_all(x, lambda y: y) for x in (a, b)]
    limit = core.LIMIT
    for k, counts in few.variants(base):
        core.LIMIT = max(limit, len(core._nodes) + limit)
        core._smemo.clear()
        coll.SMALL = 4
        try:
            S = few.Few(k, counts)
            vals = base
            for _ in range(4):
                if time.time() - t0 > 60 or not S.extend(*vals):
                    break
                vals = [parts_all(x, S) for x in (a, b)]
            eq = Eq(prog, vocab(b) if vocab else None)
            eq.attrs = attrs
            eq.few = True
            recs = eq.final(records(eq, a, b, opts, S, S.facts))
            if DEBUG:
                print('few', k, [list(e) for e in S.envs], recs)
            recs = [r for r in recs if r.kind == 'diff' and few.plain(r)]
        except (I.Give, Blowup, RecursionError) as e:
            if DEBUG:
                print('few', k, repr(e)[:300])
            recs = []
        finally:
            coll.SMALL = 0
            core.LIMIT = limit
            core._smemo.clear()
        if recs:
            for r in recs:
                r.path = ('with collections of %d' % k,) + tuple(r.path)
            return recs
        if time.time() - t0 > 60:
            break
    return []


def known_lengths(*ss):
    """lengths the model takes to be the same"""
    env = {}
    for s in ss:
        for x in atoms_of(s.assume):
            if x.op == 'eq' and cofactor(s.assume, x, 0) is FALSE:
                for p, q in (x.args, x.args[::-1]):
                    if p.op == 'len' and not occurs_term(p, q) and p not in env and q not in env:
                        env[p] = leaf(q)
                        break
    return env


def compare_summaries(prog, a, b, opts, vocab, attrs):
    eq = Eq(prog, vocab(b) if vocab else None)
    eq.attrs = attrs
    env = known_lengths(a, b)
    same = (lambda x: subst_any(x, env)) if env else (lambda x: x)
    try:
        recs = records(eq, a, b, opts, same)
    except (Blowup, RecursionError) as e:
        recs = [Rec('unk', TRUE, const(None), const(None), (str(e) or 'recursion depth',))]
    stats = dict(terms=len(core._terms), compared=eq.steps)
    if not recs:
        return Result('HOLDS', stats=stats)
    d = [r for r in eq.final(recs) if r.kind == 'diff']
    # operations of unknown objects that the reference uses too mean the same on both sides
    odd = [t for t in a.tainted if t not in b.tainted]
    if not d and not odd and opts.get('few', True):
        d = few_elements(prog, a, b, opts, vocab, attrs)
    if d and odd:
        return Result('UNDECIDED', recs, why='; '.join(odd)[:300], stats=stats)
    if d:
        return Result('VIOLATED', d, stats=stats)
    return Result('UNDECIDED', recs, why='; '.join(sorted({'/'.join(r.path) for r in recs}))[:300], stats=stats)
