"""Reference model of Bayesian networks: construction, completion, views, roles, exports, merge."""
import re
import networkx as nx
from sims_pars.util import ScriptException
from sims_pars.bayesnet.loci import (ValueLoci, ExoValueLoci, DistributionLoci, FunctionLoci, PseudoLoci,
                                     loci_from_json, parse_loci)
from sims_pars.bayesnet.dag import DAG, minimal_requirements
from sims_pars.bayesnet.bn import BayesianNetwork, bayes_net_from_json


@of('sims_pars.bayesnet.bn:BayesianNetwork.append_loci', 'C01 C02', on_raise=True)
def append_loci(self: 'BayesianNetwork', loci: 'Loci', **kwargs):
    if nx.is_frozen(self.DAG):
        raise AttributeError('frozen')
    name = loci.Name
    below = {name}
    if name in self.DAG:
        below = below | nx.descendants(self.DAG, name)
    for pa in loci.Parents:
        if pa in below:
            raise AttributeError('cycle')
    if name in self.DAG:
        self.DAG.nodes[name].clear()
    self.DAG.add_node(name, loci=loci, **kwargs)
    for old in list(self.DAG.predecessors(name)):
        self.DAG.remove_edge(old, name)
    for pa in loci.Parents:
        if pa not in self.DAG:
            self.append_loci(ExoValueLoci(pa))
        self.DAG.add_edge(pa, name)


@of('sims_pars.bayesnet.bn:BayesianNetwork.append_from_js', 'C01 C02 C05', on_raise=True)
def append_from_js(self: 'BayesianNetwork', js: 'dict'):
    if 'Des' in js:
        self.append_loci(loci_from_json(js), Des=js['Des'])
    else:
        self.append_loci(loci_from_json(js))


@of('sims_pars.bayesnet.bn:BayesianNetwork.append_from_definition', 'C01 C02', on_raise=True)
def append_from_definition(self: 'BayesianNetwork', df):
    loci, des = parse_loci(df)
    if des:
        self.append_loci(loci, Des=des)
    else:
        self.append_loci(loci)


@of('sims_pars.bayesnet.bn:BayesianNetwork.add_user_defined_func', 'C02')
def add_user_defined_func(self: 'BayesianNetwork', fn_name, fn):
    assert fn_name not in self.UserDefinedFunctions
    self.UserDefinedFunctions[fn_name] = fn


def exo_of(bn: 'BayesianNetwork'):
    return [k for k in bn.DAG.nodes if isinstance(bn.DAG.nodes[k]['loci'], ExoValueLoci)]


def rv_roots_of(bn: 'BayesianNetwork'):
    return [k for k in nx.topological_sort(bn.DAG)
            if isinstance(bn.DAG.nodes[k]['loci'], DistributionLoci)
            and not any(isinstance(bn.DAG.nodes[a]['loci'], DistributionLoci) for a in nx.ancestors(bn.DAG, k))]


def record_of(bn: 'BayesianNetwork', node):
    rec = bn.DAG.nodes[node]['loci'].to_json()
    if 'Des' in bn.DAG.nodes[node]:
        rec['Des'] = bn.DAG.nodes[node]['Des']
    return rec


def json_of(bn: 'BayesianNetwork', order, roots, leaves, exo):
    return {'Name': bn.Name, 'Nodes': [record_of(bn, n) for n in bn.DAG.nodes()], 'Order': order, 'Roots': roots,
            'Leaves': leaves, 'Exo': exo}


def script_of(bn: 'BayesianNetwork'):
    out = 'PCore ' + str(bn.Name) + ' {\n'
    for node in bn.DAG.nodes:
        dat = bn.DAG.nodes[node]
        if 'Des' in dat:
            out += '\t' + repr(dat['loci']) + " # " + str(dat['Des']) + '\n'
        else:
            out += '\t' + repr(dat['loci']) + '\n'
    return out + '}'


@of('sims_pars.bayesnet.bn:BayesianNetwork.complete', 'C03 C05', frozen=True, views=False)
def complete(self: 'BayesianNetwork'):
    nx.freeze(self.DAG)
    order = list(nx.topological_sort(self.DAG))
    roots = [k for k in self.DAG.nodes() if not set(self.DAG.predecessors(k))]
    leaves = [k for k in self.DAG.nodes() if not set(self.DAG.successors(k))]
    exo = exo_of(self)
    self._BayesianNetwork__order = order
    self._BayesianNetwork__roots = roots
    self._BayesianNetwork__leaves = leaves
    self._BayesianNetwork__rv_roots = rv_roots_of(self)
    self._BayesianNetwork__exo = exo
    self.json = json_of(self, order, roots, leaves, exo)
    self.script = script_of(self)


@of('sims_pars.bayesnet.bn:BayesianNetwork.defrost', 'C03', frozen=True)
def defrost(self: 'BayesianNetwork'):
    self.DAG = DAG(self.DAG)
    self.json = None
    self.script = None
    self._BayesianNetwork__order = None
    self._BayesianNetwork__roots = None
    self._BayesianNetwork__rv_roots = None
    self._BayesianNetwork__leaves = None
    self._BayesianNetwork__exo = None


@of('sims_pars.bayesnet.bn:BayesianNetwork.is_frozen', 'C03')
def is_frozen(self: 'BayesianNetwork'):
    return nx.is_frozen(self.DAG)


@of('sims_pars.bayesnet.bn:BayesianNetwork.Order', 'C03')
def Order(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self._BayesianNetwork__order
    return list(nx.topological_sort(self.DAG))


@of('sims_pars.bayesnet.bn:BayesianNetwork.Roots', 'C03')
def Roots(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self._BayesianNetwork__roots
    return [k for k in self.DAG.nodes() if not set(self.DAG.predecessors(k))]


@of('sims_pars.bayesnet.bn:BayesianNetwork.RVRoots', 'C03 C06')
def RVRoots(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self._BayesianNetwork__rv_roots
    return rv_roots_of(self)


@of('sims_pars.bayesnet.bn:BayesianNetwork.Leaves', 'C03')
def Leaves(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self._BayesianNetwork__leaves
    return [k for k in self.DAG.nodes() if not set(self.DAG.successors(k))]


@of('sims_pars.bayesnet.bn:BayesianNetwork.Exo', 'C03 C06')
def Exo(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self._BayesianNetwork__exo
    return exo_of(self)


@of('sims_pars.bayesnet.bn:BayesianNetwork.to_json', 'C03 C05')
def to_json(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self.json
    return json_of(self, self.Order, self.Roots, self.Leaves, self.Exo)


@of('sims_pars.bayesnet.bn:BayesianNetwork.to_script', 'C03 C05')
def to_script(self: 'BayesianNetwork'):
    if nx.is_frozen(self.DAG):
        return self.script
    return script_of(self)


@of('sims_pars.bayesnet.bn:BayesianNetwork.needs_calculation', 'C06')
def needs_calculation(self: 'BayesianNetwork', node):
    return isinstance(self[node], (DistributionLoci, FunctionLoci))


@of('sims_pars.bayesnet.bn:BayesianNetwork.is_exogenous', 'C06')
def is_exogenous(self: 'BayesianNetwork', node):
    return isinstance(self[node], (PseudoLoci, ExoValueLoci))


@of('sims_pars.bayesnet.bn:BayesianNetwork.is_rv', 'C06')
def is_rv(self: 'BayesianNetwork', node):
    return isinstance(self[node], DistributionLoci)


@of('sims_pars.bayesnet.bn:BayesianNetwork.is_deterministic', 'C06')
def is_deterministic(self: 'BayesianNetwork', node, given: 'list' = None):
    if isinstance(self[node], ValueLoci):
        return True
    if not given:
        return False
    return all(isinstance(self[d], ValueLoci)
               for d in minimal_requirements(self.DAG, node, given) if d not in given)


@of('sims_pars.bayesnet.bn:BayesianNetwork.has_randomness', 'C06')
def has_randomness(self: 'BayesianNetwork', node, given: 'list' = None):
    if isinstance(self[node], DistributionLoci):
        return True
    if given:
        return any(isinstance(self[d], DistributionLoci)
                   for d in minimal_requirements(self.DAG, node, given) if d not in given)
    return any(isinstance(self[d], DistributionLoci) for d in nx.ancestors(self.DAG, node))


@of('sims_pars.bayesnet.bn:BayesianNetwork.__getitem__', 'C01')
def getitem(self: 'BayesianNetwork', item):
    return self.DAG.nodes[item]['loci']


@of('sims_pars.bayesnet.bn:BayesianNetwork.__contains__', 'C01')
def contains(self: 'BayesianNetwork', item):
    return item in self.DAG.nodes


@of('sims_pars.bayesnet.bn:BayesianNetwork.sort', 'C07')
def sort(self: 'BayesianNetwork', nodes):
    return [n for n in self.Order if n in nodes]


@of('sims_pars.bayesnet.bn:BayesianNetwork.clone', 'C05')
def clone(self: 'BayesianNetwork'):
    return bayes_net_from_json(self.to_json())


@of('sims_pars.bayesnet.bn:BayesianNetwork.copy', 'C05')
def copy(self: 'BayesianNetwork', new_name=None):
    bn = BayesianNetwork(new_name if new_name else self.Name)
    if nx.is_frozen(self.DAG):
        for rec in self.json['Nodes']:
            bn.append_from_js(rec)
        bn.complete()
    else:
        for node in self.DAG.nodes():
            bn.append_from_js(record_of(self, node))
    bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
    return bn


@of('sims_pars.bayesnet.bn:BayesianNetwork.extend', 'C05')
def extend(self: 'BayesianNetwork', new_bn: 'BayesianNetwork' = None, override=True):
    taken = []
    if new_bn is None:
        new_bn = BayesianNetwork(self.Name)
    else:
        new_bn.defrost()
        taken = list(new_bn.Order)
    for node in self.Order:
        if override or node not in taken:
            new_bn.append_from_js(record_of(self, node))
    new_bn.complete()
    return new_bn


@of('sims_pars.bayesnet.bn:bayes_net_from_json', 'C05 C01 C03')
def from_json(js: 'dict'):
    bn = BayesianNetwork(js['Name'])
    for rec in js['Nodes']:
        bn.append_from_js(rec)
    bn.complete()
    return bn


@of('sims_pars.bayesnet.bn:bayes_net_from_script', 'C01 C03 C05')
def from_script(script: 'str'):
    lines = [re.sub(r'\s+', '', line) for line in script.split('\n')]
    bn = None
    for line in lines:
        mat = re.match(r'pcore(\w+){', line, re.I)
        if mat:
            bn = BayesianNetwork(mat.group(1))
            break
    else:
        raise ScriptException('Unknown script format')
    for line in lines:
        try:
            bn.append_from_definition(line)
        except ScriptException:
            continue
    bn.complete()
    bn.script = script
    return bn



@of('sims_pars.bayesnet.bn:BayesianNetwork.merge', 'C04')
def merge(self: 'BayesianNetwork', name, sub_bn: 'BayesianNetwork'):
    assert name != self.Name and name != sub_bn.Name
    bn = self.copy(name)
    bn.defrost()
    nodes = [n for n in sub_bn.Order if not isinstance(sub_bn[n], (PseudoLoci, ExoValueLoci))]
    for n in nodes:
        if n in bn.DAG:
            for pa in list(bn.DAG.predecessors(n)):
                bn.DAG.remove_edge(pa, n)
    for n in nodes:
        bn.append_from_js(record_of(sub_bn, n))
    bn._BayesianNetwork__check_edges()
    bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
    bn.UserDefinedFunctions.update(sub_bn.UserDefinedFunctions)
    return bn


@of('sims_pars.bayesnet.bn:BayesianNetwork.__check_edges', 'C04', also='check_edges_at_once check_edges_together')
def check_edges(self: 'BayesianNetwork'):
    missing = set()
    for n in list(nx.topological_sort(self.DAG)):
        pars = set(self[n].Parents)
        for k in list(self.DAG.predecessors(n)):
            if k not in pars:
                self.DAG.remove_edge(k, n)
        missing |= {p for p in pars if p not in self.DAG.predecessors(n)}
    for n in missing:
        self.append_loci(ExoValueLoci(n))
    for n in exo_of(self):
        if not set(self.DAG.successors(n)):
            self.DAG.remove_node(n)


def check_edges_at_once(self: 'BayesianNetwork'):
    # no exogenous node is the parent of another one (they have no parents), so that removing one
    # never leaves a second one without children
    missing = set()
    for n in list(nx.topological_sort(self.DAG)):
        pars = set(self[n].Parents)
        for k in list(self.DAG.predecessors(n)):
            if k not in pars:
                self.DAG.remove_edge(k, n)
        missing |= {p for p in pars if p not in self.DAG.predecessors(n)}
    for n in missing:
        self.append_loci(ExoValueLoci(n))
    for n in [x for x in exo_of(self) if not set(self.DAG.successors(x))]:
        self.DAG.remove_node(n)


def check_edges_together(self: 'BayesianNetwork'):
    # no exogenous node is the parent of another one (they have no parents), so that removing one
    # never leaves a second one without children
    missing = set()
    for n in list(nx.topological_sort(self.DAG)):
        pars = set(self[n].Parents)
        for k in list(self.DAG.predecessors(n)):
            if k not in pars:
                self.DAG.remove_edge(k, n)
        missing |= {p for p in pars if p not in self.DAG.predecessors(n)}
    for n in missing:
        self.append_loci(ExoValueLoci(n))
    self.DAG.remove_nodes_from([x for x in exo_of(self) if not set(self.DAG.successors(x))])
