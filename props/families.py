"""Distribution families: what a family name in a definition stands for.

The registrations `DistributionCentre.register(name, class)` of the repository are collected from the source, and the
class each name stands for is compared with a table: the fields in order (positional arguments are matched to them),
their types, constraints and defaults, and the object `create` builds (by value-flow comparison)."""
import ast

from vf import core
from vf import summary as S
from vf.load import Cls

POS = ('float', (('gt', 0),))
FAMILIES = {
    'k': [('k', ('float', ()), 0)],
    'gamma': [('shape', POS, 1), ('rate', POS, 1)],
    'exp': [('rate', POS, 1)],
    'lnorm': [('meanlog', ('float', (('ge', 0),)), 0), ('sdlog', POS, 1)],
    'unif': [('min', ('float', ()), 0), ('max', ('float', ()), 1)],
    'chisq': [('df', POS, 1)],
    'beta': [('shape1', POS, 1), ('shape2', POS, 1)],
    'invgamma': [('a', ('float', (('gt', 2),)), 2), ('rate', POS, 1)],
    'norm': [('mean', ('float', ()), 0), ('sd', POS, 1)],
    'triangle': [('a', ('float', ()), 0), ('m', ('float', ()), 0.5), ('b', ('float', ()), 1)],
    'binom': [('size', ('int', (('gt', 0),)), 1), ('prob', ('float', (('ge', 0), ('le', 1))), 0.5)],
    'pois': [('lam', POS, 1)],
    'cat': [('kv', ('dict', ()), None)],
}

NAMED = {'PositiveFloat': POS, 'NonNegativeFloat': ('float', (('ge', 0),)), 'NegativeFloat': ('float', (('lt', 0),)),
         'NonPositiveFloat': ('float', (('le', 0),)), 'PositiveInt': ('int', (('gt', 0),)),
         'NonNegativeInt': ('int', (('ge', 0),)), 'NegativeInt': ('int', (('lt', 0),)),
         'NonPositiveInt': ('int', (('le', 0),))}


class Unknown(Exception):
    pass


def number(prog, m, e):
    try:
        return ast.literal_eval(e)
    except Exception:
        pass
    if isinstance(e, ast.Name) and m.defs.get(e.id, ('',))[0] == 'var' and len(m.assigns.get(e.id, ())) == 1:
        return number(prog, m, m.defs[e.id][1])
    if isinstance(e, ast.BinOp):
        a, b = number(prog, m, e.left), number(prog, m, e.right)
        try:
            return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b}[type(e.op)] if not isinstance(e.op, ast.Div) else a / b
        except KeyError:
            pass
    raise Unknown(ast.unparse(e))


def bounds(prog, m, kws, base=()):
    out = dict(base)
    for k in kws:
        if k.arg in ('gt', 'ge', 'lt', 'le', 'multiple_of'):
            v = number(prog, m, k.value)
            if v is not None:
                out[k.arg] = v
    return out


def ref(prog, m, e):
    v = prog.expr_ref(m, e)
    if v is None:
        return ''
    if v[0] in ('ext', 'builtin'):
        return v[1]
    if v[0] == 'gvar':
        return v
    return ''


def type_of(prog, m, e):
    """(python type, bounds dict)"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return type_of(prog, m, ast.parse(e.value, mode='eval').body)
    if isinstance(e, ast.Subscript):
        r = ref(prog, m, e.value)
        nm = r.split('.')[-1] if isinstance(r, str) else ''
        if nm in ('Dict', 'dict', 'Mapping'):
            return 'dict', {}
        if nm == 'Annotated':
            el = e.slice.elts
            t, b = type_of(prog, m, el[0])
            for x in el[1:]:
                if isinstance(x, ast.Call):
                    b = bounds(prog, m, x.keywords, b)
                else:
                    raise Unknown(ast.unparse(e))
            return t, b
        raise Unknown(ast.unparse(e))
    if isinstance(e, ast.Call):
        r = ref(prog, m, e.func)
        nm = r.split('.')[-1] if isinstance(r, str) else ''
        if nm == 'confloat' and not e.args:
            return 'float', bounds(prog, m, e.keywords)
        if nm == 'conint' and not e.args:
            return 'int', bounds(prog, m, e.keywords)
        raise Unknown(ast.unparse(e))
    r = ref(prog, m, e)
    if isinstance(r, tuple):
        mm = prog.mods[r[1]]
        return type_of(prog, mm, mm.defs[r[2]][1])
    nm = r.split('.')[-1]
    if nm in NAMED:
        t, b = NAMED[nm]
        return t, dict(b)
    if r in ('float', 'int', 'dict', 'str', 'bool'):
        return r, {}
    raise Unknown(ast.unparse(e))


def fields(prog, c):
    out = {}
    for k in reversed(prog.mro(c)):
        if not isinstance(k, Cls):
            continue
        for n in k.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ann, val = n.annotation, n.value
                t, b = type_of(prog, k.mod, ann)
                d = None
                if isinstance(val, ast.Call) and str(ref(prog, k.mod, val.func)).split('.')[-1] == 'Field':
                    b = bounds(prog, k.mod, val.keywords, b)
                    kw = {x.arg: x.value for x in val.keywords}
                    val = val.args[0] if val.args else kw.get('default')
                    if isinstance(val, ast.Constant) and val.value is Ellipsis:
                        val = None
                if val is not None:
                    d = number(prog, k.mod, val)
                out[n.target.id] = (t, tuple(sorted(b.items())), d)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in out for t in n.targets):
                raise Unknown('plain assignment to a field')
    return [(n, (t, b), d) for n, (t, b, d) in out.items()]


def registered(prog):
    """name -> [(module, class)] for every registration with the distribution centre"""
    out, odd = {}, []
    for m in prog.mods.values():
        if m.name.startswith('spec.') or '.fitting' in m.name:
            continue

        def centre(e):
            return isinstance(e, ast.Attribute) and e.attr == 'register' and \
                prog.expr_ref(m, e.value) in (('gvar', 'sims_pars.prob', 'DistributionCentre'),)

        def visit(body, env):
            for s in body:
                if isinstance(s, ast.If) and prog._is_main(s.test):
                    continue
                if isinstance(s, ast.ClassDef):
                    for d in s.decorator_list:
                        if isinstance(d, ast.Call):
                            odd.append(d)
                    continue
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any(isinstance(x, ast.Call) and centre(x.func) for x in ast.walk(s)):
                        odd.append(s)
                    continue
                if isinstance(s, ast.For):
                    rows = unroll(s)
                    if rows is None:
                        if any(isinstance(x, ast.Call) and centre(x.func) for x in ast.walk(s)):
                            odd.append(s)
                        continue
                    for r in rows:
                        visit(s.body, dict(env, **r))
                    continue
                if isinstance(s, (ast.If, ast.Try, ast.With)):
                    visit(s.body, env)
                    visit(getattr(s, 'orelse', []), env)
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and centre(x.func):
                        a = dict(zip(('name', 'creator'), x.args))
                        a.update({k.arg: k.value for k in x.keywords})
                        n, c = a.get('name'), a.get('creator')
                        n = env.get(n.id, n) if isinstance(n, ast.Name) else n
                        c = env.get(c.id, c) if isinstance(c, ast.Name) else c
                        r = prog.expr_ref(m, c) if c is not None else None
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and r and r[0] == 'cls':
                            out.setdefault(n.value, []).append((m, r[1]))
                        else:
                            odd.append(x)

        def unroll(s):
            it, t = s.iter, s.target
            if isinstance(it, ast.Name) and m.defs.get(it.id, ('',))[0] == 'var':
                it = m.defs[it.id][1]
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items':
                it = it.func.value
                if isinstance(it, ast.Name) and m.defs.get(it.id, ('',))[0] == 'var':
                    it = m.defs[it.id][1]
                if not isinstance(it, ast.Dict):
                    return None
                rows = [ast.Tuple([k, v]) for k, v in zip(it.keys, it.values)]
            elif isinstance(it, (ast.List, ast.Tuple)):
                rows = it.elts
            else:
                return None
            res = []
            for r in rows:
                if isinstance(t, ast.Tuple) and isinstance(r, (ast.Tuple, ast.List)) and len(t.elts) == len(r.elts):
                    res.append({x.id: y for x, y in zip(t.elts, r.elts) if isinstance(x, ast.Name)})
                elif isinstance(t, ast.Name):
                    res.append({t.id: r})
                else:
                    return None
            return res
        visit(m.tree.body, {})
    return out, odd


def family(name):
    def run(prog):
        from vf import runner
        reg, odd = registered(prog)
        cs = reg.get(name, [])
        if not cs:
            if odd:
                return S.Result('UNDECIDED', why='registrations are not readable')
            return S.Result('VIOLATED', why='no class is registered for the family %r' % name)
        if len({c.qual for _, c in cs}) > 1:
            return S.Result('VIOLATED', why='the family %r is registered for %s' % (name, sorted(c.qual for _, c in cs)))
        c = cs[-1][1]
        try:
            fs = fields(prog, c)
        except Unknown as e:
            return S.Result('UNDECIDED', why='field %s' % e)
        want = FAMILIES[name]
        if [f[0] for f in fs] != [f[0] for f in want]:
            return S.Result('VIOLATED', why='%s: fields %s instead of %s' % (c.qual, [f[0] for f in fs],
                                                                             [f[0] for f in want]))
        for f, w in zip(fs, want):
            if f[1] != (w[1][0], tuple(sorted(w[1][1]))):
                return S.Result('VIOLATED', why='%s.%s: accepts %s instead of %s' % (c.qual, f[0], f[1], w[1]))
            if f[2] != w[2] or (f[2] is None) != (w[2] is None):
                return S.Result('VIOLATED', why='%s.%s: default %r instead of %r' % (c.qual, f[0], f[2], w[2]))
        spec = prog.get('spec.prob:family_' + name)
        tgt = prog.method(c, 'create')
        if tgt is None:
            return S.Result('VIOLATED', why='%s has no create' % c.qual)
        r = S.compare(prog, tgt, spec, {}, runner.make_vocab, runner.vocabulary()['attrs'])
        if r.verdict == 'VIOLATED':
            r.why = '%s.create: %s' % (c.qual, repr(r.recs[0])[:500])
        r.stats['detail'] = dict(family=name, cls=c.qual, fields=[f[0] for f in fs])
        return r
    return run


OBLIGATIONS = [('family %s' % n, ['C15'], family(n)) for n in FAMILIES]
