"""Reference model of node definitions (loci)."""
import re
import numpy as np
from pydantic import ValidationError
from sims_pars.util import (MATH_FUNC, DATA_FUNC, ScriptException, parse_function, parse_math_expression,
                            find_data_sampler)
from sims_pars.prob import parse_distribution, complete_function
from sims_pars.bayesnet.loci import ValueLoci, ExoValueLoci, DistributionLoci, FunctionLoci, PseudoLoci, loci_from_json


@of('sims_pars.bayesnet.loci:Loci.__call__', 'C08')
def call(self: 'Loci', parents=None):
    return self.render(parents)


@of('sims_pars.bayesnet.loci:ValueLoci.Parents', 'C18')
def value_parents(self: 'ValueLoci'):
    return []


@of('sims_pars.bayesnet.loci:ValueLoci.render', 'C08')
def value_render(self: 'ValueLoci', pas=None):
    return self.Value


@of('sims_pars.bayesnet.loci:ValueLoci.evaluate', 'C10')
def value_evaluate(self: 'ValueLoci', pas=None):
    return 0


@of('sims_pars.bayesnet.loci:ValueLoci.to_json', 'C05')
def value_json(self: 'ValueLoci'):
    text = isinstance(self.Value, str)
    return {'Name': self.Name, 'Def': repr(self.Value) if text else self.Value, 'Type': 'Value'}


@of('sims_pars.bayesnet.loci:ValueLoci.__repr__', 'C05')
def value_repr(self: 'ValueLoci'):
    return '{} = {}'.format(self.Name, repr(self.Value) if isinstance(self.Value, str) else self.Value)


@of('sims_pars.bayesnet.loci:ExoValueLoci.Parents', 'C18')
def exo_parents(self: 'ExoValueLoci'):
    return set()


@of('sims_pars.bayesnet.loci:ExoValueLoci.render', 'C08 C19')
def exo_render(self: 'ExoValueLoci', pas: 'dict' = None):
    if pas is None or self.Name not in pas:
        raise KeyError('needs a value')
    return pas[self.Name]


@of('sims_pars.bayesnet.loci:ExoValueLoci.evaluate', 'C10')
def exo_evaluate(self: 'ExoValueLoci', pas=None):
    return 0


@of('sims_pars.bayesnet.loci:ExoValueLoci.to_json', 'C05')
def exo_json(self: 'ExoValueLoci'):
    return {'Name': self.Name, 'Type': 'ExoValue'}


@of('sims_pars.bayesnet.loci:ExoValueLoci.__repr__', 'C05')
def exo_repr(self: 'ExoValueLoci'):
    return self.Name


@of('sims_pars.bayesnet.loci:DistributionLoci', 'C18 C17 C05')
def make_distribution(name, val, pas=None):
    self = DistributionLoci.__new__(DistributionLoci)
    self.Name = name
    self.Parsed = parse_function(val)
    if self.Parsed.Function in DATA_FUNC:
        self.Func = val
    else:
        self.Func = complete_function(val)
    self._DistributionLoci__parents = pas if pas else self.Parsed.Parents
    return self


@of('sims_pars.bayesnet.loci:FunctionLoci', 'C18 C05')
def make_function(name, val, pas=None):
    self = FunctionLoci.__new__(FunctionLoci)
    self.Name = name
    self.Func = parse_math_expression(val)
    self._FunctionLoci__parents = pas if pas else self.Func.Parents
    return self


@of('sims_pars.bayesnet.loci:PseudoLoci', 'C18 C05')
def make_pseudo(name, val, pas=None):
    self = PseudoLoci.__new__(PseudoLoci)
    self.Name = name
    self._PseudoLoci__parents = pas if pas else parse_function(val).Parents
    self.Func = 'f(' + ', '.join(self._PseudoLoci__parents) + ')'
    return self


@of('sims_pars.bayesnet.loci:ValueLoci', 'C14 C05')
def make_value(name, val):
    self = ValueLoci.__new__(ValueLoci)
    self.Name = name
    self.Value = eval(val, dict(MATH_FUNC)) if isinstance(val, str) else val
    return self


@of('sims_pars.bayesnet.loci:ExoValueLoci', 'C05')
def make_exo(name):
    self = ExoValueLoci.__new__(ExoValueLoci)
    self.Name = name
    return self


@of('sims_pars.bayesnet.loci:DistributionLoci.get_distribution', 'C08 C10')
def dist_get(self: 'DistributionLoci', pas=None):
    try:
        return parse_distribution(self.Func, loc=pas)
    except KeyError:
        return find_data_sampler(self.Parsed.Function, loc=pas)


@of('sims_pars.bayesnet.loci:DistributionLoci.render', 'C08')
def dist_render(self: 'DistributionLoci', pas=None):
    return self.get_distribution(pas).sample()


@of('sims_pars.bayesnet.loci:DistributionLoci.evaluate', 'C10')
def dist_evaluate(self: 'DistributionLoci', pas=None):
    try:
        return self.get_distribution(pas).logpdf(pas[self.Name])
    except ValidationError:
        return -np.inf


@of('sims_pars.bayesnet.loci:DistributionLoci.to_json', 'C05')
def dist_json(self: 'DistributionLoci'):
    return {'Name': self.Name, 'Def': self.Func, 'Type': 'Distribution', 'Parents': list(self.Parents)}


@of('sims_pars.bayesnet.loci:DistributionLoci.Definition', 'C05')
def dist_definition(self: 'DistributionLoci'):
    return self.Func


@of('sims_pars.bayesnet.loci:DistributionLoci.Parents', 'C18')
def dist_parents(self: 'DistributionLoci'):
    return self._DistributionLoci__parents


@of('sims_pars.bayesnet.loci:DistributionLoci.__repr__', 'C05')
def dist_repr(self: 'DistributionLoci'):
    return '{} ~ {}'.format(self.Name, self.Func)


@of('sims_pars.bayesnet.loci:FunctionLoci.Parents', 'C18')
def func_parents(self: 'FunctionLoci'):
    return self._FunctionLoci__parents


@of('sims_pars.bayesnet.loci:FunctionLoci.render', 'C08')
def func_render(self: 'FunctionLoci', pas: 'dict' = None):
    try:
        return self.Func.execute({pa: pas[pa] for pa in self.Parents})
    except (NameError, KeyError) as e:
        raise KeyError('missing parent')


@of('sims_pars.bayesnet.loci:FunctionLoci.evaluate', 'C10')
def func_evaluate(self: 'FunctionLoci', pas=None):
    return 0


@of('sims_pars.bayesnet.loci:FunctionLoci.to_json', 'C05')
def func_json(self: 'FunctionLoci'):
    return {'Name': self.Name, 'Def': self.Func.Expression, 'Type': 'Function', 'Parents': list(self.Parents)}


@of('sims_pars.bayesnet.loci:FunctionLoci.Definition', 'C05')
def func_definition(self: 'FunctionLoci'):
    return self.Func.Expression


@of('sims_pars.bayesnet.loci:FunctionLoci.__repr__', 'C05')
def func_repr(self: 'FunctionLoci'):
    return '{} = {}'.format(self.Name, self.Func)


@of('sims_pars.bayesnet.loci:PseudoLoci.Parents', 'C18')
def pseudo_parents(self: 'PseudoLoci'):
    return self._PseudoLoci__parents


@of('sims_pars.bayesnet.loci:PseudoLoci.render', 'C08')
def pseudo_render(self: 'PseudoLoci', pas=None):
    raise AttributeError('Pseudo node can not be implemented')


@of('sims_pars.bayesnet.loci:PseudoLoci.evaluate', 'C10')
def pseudo_evaluate(self: 'PseudoLoci', pas=None):
    raise AttributeError('Pseudo node can not be evaluated')


@of('sims_pars.bayesnet.loci:PseudoLoci.fill', 'C08')
def pseudo_fill(self: 'PseudoLoci', gene):
    raise AttributeError('Pseudo node can not be implemented')


@of('sims_pars.bayesnet.loci:PseudoLoci.to_json', 'C05')
def pseudo_json(self: 'PseudoLoci'):
    return {'Name': self.Name, 'Def': self.Func, 'Type': 'Pseudo', 'Parents': list(self.Parents)}


@of('sims_pars.bayesnet.loci:PseudoLoci.__repr__', 'C05')
def pseudo_repr(self: 'PseudoLoci'):
    return '{} = {}'.format(self.Name, self.Func)


@of('sims_pars.bayesnet.loci:loci_from_json', 'C05 C01')
def from_json(js: 'dict'):
    kind = js['Type']
    if kind == 'Value':
        return ValueLoci(js['Name'], js['Def'])
    if kind == 'ExoValue':
        return ExoValueLoci(js['Name'])
    if kind == 'Function':
        return FunctionLoci(js['Name'], js['Def'], js['Parents'])
    if kind == 'Distribution':
        return DistributionLoci(js['Name'], js['Def'], js['Parents'])
    if kind == 'Pseudo':
        return PseudoLoci(js['Name'], js['Def'], js['Parents'])
    raise AttributeError('Unknown format')


@of('sims_pars.bayesnet.loci:parse_loci', 'C01 C05')
def parse(df: 'str'):
    df = re.sub(r'\s+', '', df)
    des = ''
    if '#' in df:
        df, des = df.split('#', 1)
    if '~' in df:
        name, body = re.match(r'\A(\w+)~(\S+)', df).groups()
        return DistributionLoci(name, body), des
    if re.match(r'\A\w+=\S+', df):
        name, body = re.match(r'\A(\w+)=(\S+)', df).groups()
        if body.startswith('f('):
            return PseudoLoci(name, body), des
        try:
            return ValueLoci(name, body), des
        except NameError:
            return FunctionLoci(name, body), des
    if re.match(r'\A\w+\Z', df):
        return ExoValueLoci(df), des
    raise ScriptException('Ill-defined variable')
