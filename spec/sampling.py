"""Reference model of sampling a whole network."""
import numpy as np
from sims_pars.bayesnet import BayesianNetwork, get_sufficient_nodes, Chromosome


@of('sims_pars.fn:sample', 'C08')
def sample(bn: 'BayesianNetwork', cond: 'dict' = None):
    res = dict(cond) if cond else dict()
    for nod in bn.Exo:
        if nod not in res:
            raise ValueError('Exogenous nodes do not fully defined')
    for nod in bn.Order:
        if nod not in res:
            res[nod] = bn[nod].render(res)
    return res


@of('sims_pars.fn:sample_minimally', 'C09')
def sample_minimally(bn: 'BayesianNetwork', included, cond: 'dict' = None, sources=True):
    res = dict(cond) if cond else dict()
    suf = get_sufficient_nodes(bn.DAG, included, list(res))
    if any(nod in suf and nod not in res for nod in bn.Exo):
        raise ValueError('Exogenous node needed')
    for nod in bn.Order:
        if nod in suf and nod not in res:
            res[nod] = bn[nod].render(res)
    sinks = {k: v for k, v in res.items() if k in included}
    if not sources:
        return sinks
    return sinks, {k: v for k, v in res.items() if k not in included}


@of('sims_pars.fn:evaluate_nodes', 'C10')
def evaluate_nodes(bn: 'BayesianNetwork', pars: 'dict'):
    lps = 0
    for k in pars:
        if k in bn.DAG.nodes:
            lps = lps + bn.DAG.nodes[k]['loci'].evaluate(pars)
    return -np.inf if np.isnan(lps) else lps


@of('sims_pars.fn:sample_chromosome', 'C08 C10 C11')
def sample_chromosome(bn: 'BayesianNetwork', cond: 'dict' = None):
    p = sample(bn, cond)
    return Chromosome(p, evaluate_nodes(bn, p))
