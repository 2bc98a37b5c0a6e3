"""Reference model of particles, data models, fitters, posterior sets, converters and the monitor."""
import numpy as np
import pandas as pd
from sims_pars.bayesnet.chromosome import Chromosome
from sims_pars.bayesnet import bayes_net_from_script, bayes_net_from_json
from sims_pars.fn import evaluate_nodes, sample, sample_chromosome
from sims_pars.fit.base import Domain, Particle, IdleModel, Fitter
from sims_pars.monitor import Monitor
from sims_pars.fit.results import ParameterSet
from sims_pars.fit.converter import ConverterFF, ConverterFI, ConverterIF, ConverterII


# ------------------------------------------------------------------ particles
@of('sims_pars.fit.base:Domain', 'C31')
def make_domain(name, tp='float', lower=-np.inf, upper=np.inf, loc=0, scale=1):
    self = Domain.__new__(Domain)
    self.Name = name
    self.Type = tp
    self.Lower = lower
    self.Upper = upper
    self.Location = loc
    self.Scale = scale
    return self


@of('sims_pars.fit.base:Particle', 'C29')
def make_particle(pars, sims):
    self = Particle.__new__(Particle)
    self.Pars = pars
    self.Sims = sims
    self.Notes = {}
    return self


@of('sims_pars.fit.base:Particle.__setitem__', 'C29')
def note(self: 'Particle', key, value):
    self.Notes[key] = value


@of('sims_pars.fit.base:Particle.__getitem__', 'C29')
def noted(self: 'Particle', item):
    return self.Notes[item]


@of('sims_pars.fit.base:Particle.to_json', 'C29')
def particle_record(self: 'Particle'):
    return {'Pars': self.Pars.to_json(), 'Sims': dict(self.Sims), 'Notes': dict(self.Notes)}


@of('sims_pars.fit.base:Particle.copy', 'C29')
def particle_copy(self: 'Particle'):
    out = Particle(self.Pars.clone(), self.Sims)
    for k in ('Xs', 'Ys'):
        if k in self.Notes:
            out.Notes[k] = self.Notes[k]
    return out


@of('sims_pars.fit.base:Particle.from_json', 'C29')
def particle_read(js: 'dict'):
    out = Particle(Chromosome.from_json(js['Pars']), js['Sims'])
    out.Notes.update(js["Notes"])
    return out


# ------------------------------------------------------------------ data models
@of('sims_pars.fit.base:DataModel.serve', 'C29')
def serve(self: 'DataModel', p: 'dict'):
    given = dict(p)
    for k in self.ExoParameters:
        given[k] = self.ExoParameters[k]
    return sample_chromosome(self.BayesianNetwork, given)


@of('sims_pars.fit.base:DataModel.serve_from_json', 'C29')
def serve_record(self: 'DataModel', js: 'dict'):
    given = dict(js['Locus'])
    for k in self.ExoParameters:
        given[k] = self.ExoParameters[k]
    out = sample_chromosome(self.BayesianNetwork, given)
    out.LogProb = js['LogProb']
    return out


@of('sims_pars.fit.base:DataModel.sample_prior', 'C29 C25')
def sample_prior(self: 'DataModel'):
    vals = sample(self.BayesianNetwork, self.ExoParameters)
    return Chromosome(vals, evaluate_nodes(self.BayesianNetwork, vals))


@of('sims_pars.fit.base:DataModel.evaluate_prior', 'C29 C11')
def evaluate_prior(self: 'DataModel', p: 'Chromosome'):
    if not p.is_evaluated():
        p.LogProb = evaluate_nodes(self.BayesianNetwork, p)
    return p.LogProb


@of('sims_pars.fit.base:DataModel.Domain', 'C31')
def domain(self: 'DataModel'):
    p = Chromosome.__new__(Chromosome)
    p = self.sample_prior()
    out = []
    for node in self.BayesianNetwork.RVRoots:
        d = self.BayesianNetwork[node].get_distribution(p)
        out.append(Domain(node, d.Type, d.Lower, d.Upper, d.mean(), d.std()))
    return out


def both_forms(self, particle, nm):
    pars = particle.Pars
    particle.Notes['Xs'] = [pars[d.Name] for d in self.Domain]
    particle.Notes['Ys'] = {k: particle.Sims[k] for k in self.Data}


@of('sims_pars.fit.base:DataModel.flatten', 'C29')
def flatten(self: 'DataModel', particle: 'Particle'):
    both_forms(self, particle, '')


@of('sims_pars.fit.base:DataModel.calc_distance', 'C29')
def distance(self: 'DataModel', particle: 'Particle'):
    if 'distance' in particle.Notes:
        return particle.Notes['distance']
    if 'Ys' not in particle.Notes:
        self.flatten(particle)
    total = 0
    for k in self.Data:
        total += self.Data[k].calc_distance(particle.Notes['Ys'])
    particle.Notes['distance'] = total
    return total


@of('sims_pars.fit.base:DataModel.calc_likelihood', 'C29')
def likelihood(self: 'DataModel', particle: 'Particle'):
    if 'log_lik' in particle.Notes:
        return particle.Notes['log_lik']
    if 'Ys' not in particle.Notes:
        self.flatten(particle)
    total = 0
    for k in self.Data:
        total += self.Data[k].calc_likelihood(particle.Notes['Ys'])
    particle.Notes['log_lik'] = total
    return total


@of('sims_pars.fit.base:DataModel.__init__', 'C29 C36')
def init_model(self: 'DataModel', data: 'dict', bn, exo=None):
    self.ExoParameters = dict(exo) if exo is not None else {}
    if isinstance(bn, str):
        bn = bayes_net_from_script(bn)
    elif isinstance(bn, dict):
        bn = bayes_net_from_json(bn)
    self.BayesianNetwork = bn
    p0 = self.sample_prior()
    self.FreeParameters = [k for k in bn.RVRoots if k not in self.ExoParameters
                           and k in dict(p0) and isinstance(dict(p0)[k], float)]
    self.Data = data


# ------------------------------------------------------------------ fitters
@of('sims_pars.fit.base:Fitter.update_settings', 'C28')
def update_settings(self: 'Fitter', **kwargs):
    for k in kwargs:
        if k in self.Settings:
            self.Settings[k] = kwargs[k]


@of('sims_pars.fit.base:Fitter.attach', 'C28')
def attach(self: 'Fitter', model):
    self.Model = model


# ------------------------------------------------------------------ posterior sets
@of('sims_pars.fit.results:ParameterSet', 'C36 C29')
def make_set(alg='Prior'):
    self = ParameterSet.__new__(ParameterSet)
    self.Algorithm = alg
    self.Settings = {}
    self.Notes = {}
    self.Particles = []
    return self


@of('sims_pars.fit.results:ParameterSet.__getitem__', 'C29')
def set_note(self: 'ParameterSet', item):
    return self.Notes[item]


@of('sims_pars.fit.results:ParameterSet.__len__', 'C29')
def set_len(self: 'ParameterSet'):
    return len(self.Particles)


@of('sims_pars.fit.results:ParameterSet.keep', 'C29')
def set_keep(self: 'ParameterSet', k, note):
    self.Notes[k] = note


@of('sims_pars.fit.results:ParameterSet.append', 'C29')
def set_append(self: 'ParameterSet', p):
    self.Particles.append(p)


@of('sims_pars.fit.results:ParameterSet.to_df', 'C29')
def set_df(self: 'ParameterSet', predictive=False):
    return pd.DataFrame([dict(p.Pars) for p in self.Particles])


@of('sims_pars.fit.results:ParameterSet.to_json', 'C29')
def set_record(self: 'ParameterSet'):
    return {'Algorithm': self.Algorithm, 'Settings': dict(self.Settings), 'Notes': dict(self.Notes),
            'Posterior': [dict(p.Pars) for p in self.Particles]}


@of('sims_pars.fit.results:ParameterSet.to_pred_df', 'C29')
def set_pred(self: 'ParameterSet'):
    return pd.DataFrame([dict(p['Ys']) for p in self.Particles])


# ------------------------------------------------------------------ converters
@of('sims_pars.fit.converter:ConverterFF.uniform2value', 'C31')
def ff_value(self: 'ConverterFF', u):
    return self.Lower + (self.Upper - self.Lower) * u


@of('sims_pars.fit.converter:ConverterFF.value2uniform', 'C31')
def ff_uniform(self: 'ConverterFF', v):
    return (v - self.Lower) / (self.Upper - self.Lower)


@of('sims_pars.fit.converter:ConverterFI.uniform2value', 'C31')
def fi_value(self: 'ConverterFI', u):
    if u >= 1:
        return np.inf
    return self.Lower - self.Scale * np.log(1 - u)


@of('sims_pars.fit.converter:ConverterFI.value2uniform', 'C31')
def fi_uniform(self: 'ConverterFI', v):
    return 1 - np.exp(-(v - self.Lower) / self.Scale)


@of('sims_pars.fit.converter:ConverterIF.uniform2value', 'C31')
def if_value(self: 'ConverterIF', u):
    if u <= 0:
        return -np.inf
    return self.Upper + self.Scale * np.log(u)


@of('sims_pars.fit.converter:ConverterIF.value2uniform', 'C31')
def if_uniform(self: 'ConverterIF', v):
    return np.exp((v - self.Upper) / self.Scale)


@of('sims_pars.fit.converter:ConverterII.uniform2value', 'C31')
def ii_value(self: 'ConverterII', u):
    if u >= 1:
        return np.inf
    if u <= 0:
        return -np.inf
    if u == 0.5:
        return self.Location
    if u > 0.5:
        return self.Location - self.Scale * np.log(2 - 2 * u)
    return self.Location + self.Scale * np.log(2 * u)


@of('sims_pars.fit.converter:ConverterII.value2uniform', 'C31')
def ii_uniform(self: 'ConverterII', v):
    assume(self.Scale > 0)
    if v > self.Location:
        return 1 - np.exp((self.Location - v) / self.Scale) / 2
    return np.exp((v - self.Location) / self.Scale) / 2


@of('sims_pars.fit.converter:ConverterFF', 'C31')
def make_ff(dom: 'Domain'):
    self = ConverterFF.__new__(ConverterFF)
    self.Lower = dom.Lower
    self.Upper = dom.Upper
    return self


@of('sims_pars.fit.converter:ConverterFI', 'C31')
def make_fi(dom: 'Domain'):
    self = ConverterFI.__new__(ConverterFI)
    self.Lower = dom.Lower
    self.Scale = dom.Scale
    return self


@of('sims_pars.fit.converter:ConverterIF', 'C31')
def make_if(dom: 'Domain'):
    self = ConverterIF.__new__(ConverterIF)
    self.Upper = dom.Upper
    self.Scale = dom.Scale
    return self


@of('sims_pars.fit.converter:ConverterII', 'C31')
def make_ii(dom: 'Domain'):
    self = ConverterII.__new__(ConverterII)
    self.Location = dom.Location
    self.Scale = dom.Scale
    return self


@of('sims_pars.fit.converter:get_converter', 'C31')
def converter(dom: 'Domain'):
    low, up = np.isinf(dom.Lower), np.isinf(dom.Upper)
    if low and up:
        return ConverterII(dom)
    if low:
        return ConverterIF(dom)
    if up:
        return ConverterFI(dom)
    return ConverterFF(dom)


@of('sims_pars.fit.base:Fitter.fit', 'C28')
def fit(self: 'Fitter', model: 'DataModel', **kwargs):
    self.Model = model
    self.Collector = ParameterSet()
    self.update_settings(**kwargs)
    self.initialise()
    self.update()
    self.terminate()


# ------------------------------------------------------------------ sessions
@of('sims_pars.fit.base:Fitter.__init__', 'C28 C36')
def init_fitter(self: 'Fitter', name_logger, **kwargs):
    self.Monitor = Monitor(name_logger)
    self.Settings = dict(self.DefaultSettings)
    self.Collector = ParameterSet()
    self.Model = IdleModel()
    self.State = None
    self.update_settings(**kwargs)


@of('sims_pars.fit.base:Fitter.set_log_path', 'C34')
def log_path(self: 'Fitter', filename):
    self.Monitor.set_log_path(filename)


@of('sims_pars.fit.base:Fitter.error', 'C34')
def log_error(self: 'Fitter', msg):
    self.Monitor.error(msg)


@of('sims_pars.fit.base:IdleModel.simulate', 'C28')
def idle(self: 'IdleModel', pars):
    return Particle({}, {})


@of('sims_pars.fit.base:Fitter.close', 'C28')
def close(self: 'Fitter'):
    self.Model = IdleModel()


@of('sims_pars.fit.abcom.alg:ApproxBayesCom.__init__', 'C28')
def init_abc(self: 'ApproxBayesCom', **kwargs):
    Fitter.__init__(self, 'ApproxBayesCom', **kwargs)


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.__init__', 'C28')
def init_smc(self: 'ApproxBayesComSMC', **kwargs):
    Fitter.__init__(self, 'ApproxBayesComSMC', **kwargs)
    self._ApproxBayesComSMC__pars0 = None


@of('sims_pars.fit.hme.alg:BayesHistoryMatching.__init__', 'C28')
def init_bhm(self: 'BayesHistoryMatching', **kwargs):
    Fitter.__init__(self, 'BHM', **kwargs)


@of('sims_pars.fit.abcom.alg:ApproxBayesCom.update', 'C28')
def abc_update(self: 'ApproxBayesCom'):
    return None


@of('sims_pars.fit.abcom.alg:ApproxBayesCom.terminate', 'C28')
def abc_terminate(self: 'ApproxBayesCom'):
    return None


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.terminate', 'C28')
def smc_terminate(self: 'ApproxBayesComSMC'):
    return None


@of('sims_pars.fit.hme.alg:BayesHistoryMatching.terminate', 'C28')
def bhm_terminate(self: 'BayesHistoryMatching'):
    return None
