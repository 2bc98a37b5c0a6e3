"""Reference model of expressions, definitions and the registries."""
import ast
import re
import math
import numpy as np
import scipy.special as sp
from numpy.random import choice
from sims_pars.util import (MATH_FUNC, DATA_FUNC, MathExpression, ParsedFunction, EvaluatedFunction, ScriptException,
                            parse_math_expression, parse_parents, parse_function, evaluate_function)
from sims_pars.factory.craftstation import Atelier
from sims_pars.factory import AtelierDict
from sims_pars.prob import DistributionCentre


# ------------------------------------------------------------------ mathematical expressions
@of('sims_pars.util:ifelse', 'C14')
def ifelse(cond, a, b):
    if cond:
        return a
    return b


@of('sims_pars.util:step', 'C14')
def step(key, cut, a, b):
    if key < cut:
        return a
    return b


@of('sims_pars.util:MathExpression.execute', 'C14')
def execute(self: 'MathExpression', loc=None):
    return eval(self.Expression, dict(MATH_FUNC), dict(loc) if loc else {})


@of('sims_pars.util:MathExpression.__call__', 'C14')
def call(self: 'MathExpression', loc=None):
    try:
        return self.execute(loc)
    except NameError:
        return self.Expression


@of('sims_pars.util:MathExpression.Parents', 'C18')
def expr_parents(self: 'MathExpression'):
    return self.Var


@of('sims_pars.util:MathExpression.is_executable', 'C14')
def is_executable(self: 'MathExpression', loc: 'dict'):
    for v in self.Var:
        if v not in loc:
            return False
    for f in self.Func:
        if f not in MATH_FUNC:
            return False
    return True


@of('sims_pars.util:find_ast_parents', 'C18')
def names_of(seq_ast):
    calls = {s.func.id for s in ast.walk(seq_ast) if isinstance(s, ast.Call) and not isinstance(s, ast.Name)}
    return {s.id for s in ast.walk(seq_ast) if isinstance(s, ast.Name)} - calls, calls


@of('sims_pars.util:parse_parents', 'C18')
def parents(seq):
    return names_of(ast.parse(seq))


@of('sims_pars.util:parse_math_expression', 'C18 C14')
def parse_math(seq):
    v, f = names_of(ast.parse(seq))
    return MathExpression(seq, v, f)


@of('sims_pars.util:ast_to_math_expression', 'C18')
def ast_to_math(seq_ast, seq=None):
    v, f = names_of(seq_ast)
    return MathExpression(seq if seq else ast.unparse(seq_ast), v, f)


# ------------------------------------------------------------------ definitions
@of('sims_pars.util:ParsedFunction.get_arguments', 'C14')
def get_arguments(self: 'ParsedFunction', loc=None):
    out = []
    for arg in self.Arguments:
        new = dict(arg)
        new['value'] = arg['value'].execute(loc)
        out.append(new)
    return out


@of('sims_pars.util:ParsedFunction.to_blueprint', 'C14')
def to_blueprint(self: 'ParsedFunction', name, loc=None):
    return {'Name': name, 'Type': self.Function, 'Args': get_arguments(self, loc)}


@of('sims_pars.util:ParsedFunction.Parents', 'C18')
def parsed_parents(self: 'ParsedFunction'):
    out = set()
    for arg in self.Arguments:
        out |= arg['value'].Var
    return out


@of('sims_pars.util:ParsedFunction.to_json', 'C14')
def parsed_json(self: 'ParsedFunction', loc=None):
    return {'Source': self.Source, 'Type': self.Function, 'Args': [arg['value'](loc) for arg in self.Arguments]}


@of('sims_pars.util:evaluate_function', 'C14')
def evaluate(pf: 'ParsedFunction', loc=None):
    return EvaluatedFunction(pf.Source, pf.Function, get_arguments(pf, loc))


@of('sims_pars.util:EvaluatedFunction.to_blueprint', 'C14')
def evaluated_blueprint(self: 'EvaluatedFunction', name):
    return {'Name': name, 'Type': self.Function, 'Args': self.Arguments}


@of('sims_pars.util:EvaluatedFunction.to_json', 'C14')
def evaluated_json(self: 'EvaluatedFunction'):
    return {'Source': self.Source, 'Type': self.Function, 'Args': [arg['value'] for arg in self.Arguments]}


@of('sims_pars.util:parse_function', 'C18 C17')
def parse_fn(seq: 'str'):
    seq = re.sub(r'\s+', '', seq)
    f, pars = None, []
    started = False
    keyed = False
    for s in ast.walk(ast.parse(seq)):
        if not started:
            if isinstance(s, ast.Name):
                f = s.id
                started = True
        else:
            try:
                if isinstance(s, ast.Load):
                    break
                if isinstance(s, ast.keyword):
                    pars.append({'key': s.arg, 'value': ast_to_math(s.value)})
                    keyed = True
                elif not keyed:
                    pars.append({'value': ast_to_math(s)})
            except AttributeError:
                pass
    return ParsedFunction(seq, f, pars)


# ------------------------------------------------------------------ registries
@of('sims_pars.util:add_math_func', 'C36')
def add_math(fn_name, fn):
    if callable(fn):
        MATH_FUNC[fn_name] = fn


@of('sims_pars.util:add_data_func', 'C36')
def add_data(fn_name, fn):
    assert callable(fn) or callable(fn.get_sampler)
    assert fn_name not in DATA_FUNC
    DATA_FUNC[fn_name] = fn


@of('sims_pars.util:find_data_sampler', 'C08')
def find_sampler(fn_name, loc):
    return DATA_FUNC[fn_name].get_sampler(loc)


@of('sims_pars.factory:get_atelier', 'C36')
def atelier(name: 'str'):
    if name not in AtelierDict:
        AtelierDict[name] = Atelier()
    return AtelierDict[name]


@of('sims_pars.factory.craftstation:Atelier.register', 'C36')
def register(self: 'Atelier', name, creator):
    self.Creators[name] = creator


@of('sims_pars.factory.craftstation:Atelier.__contains__', 'C36')
def has(self: 'Atelier', item):
    return item in self.Creators


@of('sims_pars.factory.craftstation:Atelier.list', 'C36')
def names(self: 'Atelier'):
    return list(self.Creators)


@of('sims_pars.factory.craftstation:Atelier.get_schema', 'C17')
def schema(self: 'Atelier', tp):
    return self.Creators[tp].schema()


@of('sims_pars.factory.craftstation:Atelier.get_blueprint', 'C17 C14')
def blueprint(self: 'Atelier', seq, loc=None, to_complete=True):
    return eval(self.complete_def(seq) if to_complete else seq, dict(self.Creators), loc)


@of('sims_pars.factory.craftstation:Atelier.create', 'C17 C14')
def create(self: 'Atelier', seq, loc=None, append_src=False, to_complete=True):
    bp = blueprint(self, seq, loc, to_complete)
    obj = bp.create()
    if append_src:
        try:
            obj.source = seq
        except AttributeError:
            pass
        try:
            obj.json = {'Args': bp.dict()}
        except AttributeError:
            pass
    return obj


@of('sims_pars.factory.craftstation:Atelier.complete_def', 'C17')
def complete_def(self: 'Atelier', seq):
    call = None
    for node in ast.walk(ast.parse(seq)):
        if isinstance(node, ast.Call):
            call = node
            break
    else:
        raise AttributeError('Unknown input type')
    name = call.func.id
    wanted = self.Creators[name].schema()['properties']
    given = [a.value if isinstance(a, ast.Constant) else ast.unparse(a) for a in call.args]
    named = [k.arg for k in call.keywords]
    open_ = {k: v for k, v in wanted.items() if k not in named}
    if not open_:
        return seq
    call.args = []
    text = ast.unparse(call)
    if len(given) > len(open_):
        raise TypeError('too many')
    parts = []
    for i, (k, v) in enumerate(open_.items()):
        if i < len(given):
            v = given[i]
        else:
            v = v['default']
        parts.append('{}={}'.format(k, v))
    return text.replace('(', '(' + ', '.join(parts) + (', ' if named else ''), 1)


@of('sims_pars.prob:parse_distribution', 'C17')
def parse_distribution(di, loc=None, append_src=True, to_complete=True):
    return DistributionCentre.create(di, loc=loc, append_src=append_src, to_complete=to_complete)


@of('sims_pars.prob:complete_function', 'C17')
def complete_function(di):
    return DistributionCentre.complete_def(di)


# ------------------------------------------------------------------ resampling
@of('sims_pars.util:resample', 'C33')
def resample(wts: 'list', hs: 'list', pars: 'list' = None, log=True, new_size=None):
    n = len(wts)
    if new_size:
        n = max(new_size, 1)
    ok = [np.isfinite(w) for w in wts]
    # one parameter set per weight
    assume(not pars or any(np.isfinite(w) for w, p in zip(wts, pars)) or not any(np.isfinite(w) for w in wts))
    ws = [float(w) for w, f in zip(wts, ok) if f]
    size = len(ws)
    if size == 0:
        if pars:
            return hs, pars, -np.log(0)
        return hs, -np.log(0)
    hs = [h for h, f in zip(hs, ok) if f]
    if log:
        ws = np.array(ws)
        total = sp.logsumexp(ws)
        sel = choice(size, n, replace=True, p=np.exp(ws - total))
    else:
        total = np.sum(ws)
        sel = choice(size, n, replace=True, p=ws / total)
        total = np.log(total)
    out = [hs[i] for i in sel]
    if pars:
        pars = [p for p, f in zip(pars, ok) if f]
        return out, [pars[i] for i in sel], total - np.log(n)
    return out, total - np.log(n)


# ------------------------------------------------------------------ written forms
@of('sims_pars.util:MathExpression.__str__', 'C14')
def text_expression(self: 'MathExpression'):
    return self.Expression


@of('sims_pars.util:ParsedFunction.__str__', 'C17')
def text_parsed(self: 'ParsedFunction'):
    return self.Source


@of('sims_pars.util:EvaluatedFunction.__str__', 'C17')
def text_evaluated(self: 'EvaluatedFunction'):
    return self.Source
