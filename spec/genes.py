"""Reference model of parameter sets (chromosomes)."""
import numpy as np
import networkx as nx
import pandas as pd
from sims_pars.bayesnet.chromosome import Chromosome


@of('sims_pars.bayesnet.chromosome:Chromosome', 'C13 C11')
def make(vs: 'dict' = None, prob=np.nan):
    self = Chromosome.__new__(Chromosome)
    self.Locus = dict(vs) if vs else {}
    self.LogProb = prob
    return self


@of('sims_pars.bayesnet.chromosome:Chromosome.__len__', 'C13')
def length(self: 'Chromosome'):
    return len(self.Locus)


@of('sims_pars.bayesnet.chromosome:Chromosome.__bool__', 'C13')
def boolean(self: 'Chromosome'):
    return True


@of('sims_pars.bayesnet.chromosome:Chromosome.__getitem__', 'C13')
def getitem(self: 'Chromosome', item):
    return self.Locus[item]


@of('sims_pars.bayesnet.chromosome:Chromosome.__contains__', 'C13')
def contains(self: 'Chromosome', item):
    return item in self.Locus


@of('sims_pars.bayesnet.chromosome:Chromosome.__setitem__', 'C11')
def setitem(self: 'Chromosome', key, value):
    self.Locus[key] = value
    self.LogProb = np.nan


@of('sims_pars.bayesnet.chromosome:Chromosome.reset_probability', 'C11')
def reset(self: 'Chromosome'):
    self.LogProb = np.nan


@of('sims_pars.bayesnet.chromosome:Chromosome.is_evaluated', 'C11')
def is_evaluated(self: 'Chromosome'):
    return not np.isnan(self.LogProb)


@of('sims_pars.bayesnet.chromosome:Chromosome.clone', 'C13 C11', ident=True)
def clone(self: 'Chromosome'):
    return Chromosome(self.Locus, self.LogProb)


@of('sims_pars.bayesnet.chromosome:Chromosome.impulse', 'C12 C11')
def impulse(self: 'Chromosome', new_locus: 'dict', bn: 'BayesianNetwork' = None):
    known = [k for k in new_locus if k in self.Locus]
    if not bn:
        for k in known:
            self.Locus[k] = new_locus[k]
        if known:
            self.LogProb = np.nan
        return
    fixed = {k: new_locus[k] for k in known if new_locus[k] is not None}
    shocked = set()
    for k in known:
        if k in bn.DAG:
            shocked |= nx.descendants(bn.DAG, k)
    shocked = {k for k in shocked if k not in fixed} | {k for k in known if new_locus[k] is None}
    shocked = {k for k in shocked if k in self.Locus}
    for k in fixed:
        self.Locus[k] = fixed[k]
    for nod in bn.Order:
        if nod in shocked:
            self[nod] = bn[nod].render(self)
    if fixed:
        self.LogProb = np.nan


@of('sims_pars.bayesnet.chromosome:Chromosome.to_json', 'C13')
def to_json(self: 'Chromosome'):
    return {'Locus': self.Locus, 'LogProb': self.LogProb}


@of('sims_pars.bayesnet.chromosome:Chromosome.to_data', 'C13', ident=True)
def to_data(self: 'Chromosome'):
    out = dict(self.Locus)
    if not np.isnan(self.LogProb):
        out['LogProb'] = self.LogProb
    return out


@of('sims_pars.bayesnet.chromosome:Chromosome.from_json', 'C13')
def from_json(js: 'dict'):
    return Chromosome(js['Locus'], js['LogProb'])


@of('sims_pars.bayesnet.chromosome:Chromosome.__iter__', 'C13')
def iterate(self: 'Chromosome'):
    return iter(self.Locus.items())


@of('sims_pars.bayesnet.chromosome:Chromosome.keys', 'C13')
def names(self: 'Chromosome'):
    return self.Locus.keys()


@of('sims_pars.bayesnet.chromosome:Chromosome.summarise', 'C13')
def summarise(genes: 'list[Chromosome]'):
    return pd.DataFrame([g.Locus for g in genes]).describe()


@of('sims_pars.bayesnet.chromosome:Chromosome.mean', 'C13')
def mean(genes: 'list[Chromosome]'):
    return dict(pd.DataFrame([g.Locus for g in genes]).mean())


@of('sims_pars.bayesnet.chromosome:Chromosome.to_data_frame', 'C13')
def to_data_frame(genes: 'list[Chromosome]'):
    return pd.DataFrame([g.to_data() for g in genes])


# ------------------------------------------------------------------ a node fills its own locus
@of('sims_pars.bayesnet.loci:Loci.fill', 'C08')
def fill(self: 'Loci', gene: 'Chromosome'):
    gene[self.Name] = self.render(gene)


@of('sims_pars.bayesnet.loci:DistributionLoci.fill', 'C08')
def fill_random(self: 'DistributionLoci', gene: 'Chromosome'):
    gene[self.Name] = self.render(gene)


@of('sims_pars.bayesnet.loci:PseudoLoci.fill', 'C08')
def fill_pseudo(self: 'PseudoLoci', gene: 'Chromosome'):
    raise AttributeError('pseudo node')
