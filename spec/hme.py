"""Reference model of Bayesian history matching."""
import numpy as np
import numpy.random as rd
from scipy.stats.qmc import LatinHypercube
from sims_pars.fit.base import Particle
from sims_pars.fit.converter import get_converter
from sims_pars.fit.results import ParameterSet
from sims_pars.fit.hme.alg import StateHME, Matchers
from sims_pars.fit.hme.emulator import GPREmulator


@of('sims_pars.fit.hme.alg:StateHME', 'C32')
def state(ems, cns, mts, pts, bounds, wave=0, mse=np.inf, cutoff=np.inf, acc=1.0):
    self = StateHME.__new__(StateHME)
    self.Emulators = ems
    self.Converters = cns
    self.Matchers = mts
    self.Particles = pts
    self.Bounds = bounds
    self.Wave = wave
    self.MSE = mse
    self.CutOff = cutoff
    self.Acc = acc
    return self


@of('sims_pars.fit.hme.alg:Matchers', 'C32')
def matchers(v_m, data: 'dict'):
    self = Matchers.__new__(Matchers)
    self.VarModel = v_m
    self.Data = dict(data)
    return self


@of('sims_pars.fit.hme.alg:Matchers.eval_implausibility', 'C32')
def implausibility(self: 'Matchers', pt: 'Particle'):
    out = []
    for k in self.Data:
        e, v = self.Data[k].ev()
        out.append(float(np.abs(e - pt['Ys'][k]) / np.sqrt(self.VarModel + v + pt['Vs'][k])))
    return np.max(out)


@of('sims_pars.fit.hme.alg:Matchers.eval_mse', 'C32')
def mse(self: 'Matchers', pts: 'list[Particle]'):
    return np.mean([np.mean([np.power(p['Ys'][k] - self.Data[k].Value, 2) for k in self.Data]) for p in pts])


@of('sims_pars.fit.hme.alg:BayesHistoryMatching.initialise', 'C32')
def init(self: 'BayesHistoryMatching'):
    n = len(self.Model.Domain)
    self.Settings['n_pars'] = n
    if self.Settings['n_sims'] <= 0:
        self.Settings['n_sims'] = 10 * n
    if self.Settings['n_ems'] <= 0:
        self.Settings['n_ems'] = 100 * self.Settings['n_sims']
    cons = [get_converter(d) for d in self.Model.Domain]
    ems = {k: GPREmulator(k) for k in self.Model.Data}
    self.State = StateHME(ems, cons, Matchers(self.Settings['var_model'], self.Model.Data), [],
                          (np.zeros(n), np.ones(n)))


@of('sims_pars.fit.hme.alg:BayesHistoryMatching._keep_plausible', 'C32')
def plausible(self: 'BayesHistoryMatching', pts_emu: 'list[Particle]'):
    cut = np.quantile([p['Imp'] for p in pts_emu], self.Settings['min_acc'])
    cut = max(self.Settings['cutoff'], cut)
    kept = [p for p in pts_emu if p['Imp'] < cut]
    return kept, cut, len(kept) / len(pts_emu)


@of('sims_pars.fit.hme.alg:BayesHistoryMatching._check_termination', 'C32')
def stop(self: 'BayesHistoryMatching'):
    return self.State.Wave >= self.Settings['max_wave']


def pars_at(doms, cons, xs):
    return {d.Name: c.uniform2value(x) for d, c, x in zip(doms, cons, xs)}


@of('sims_pars.fit.hme.alg:BayesHistoryMatching._simulate', 'C32 C29')
def simulate(self: 'BayesHistoryMatching', state: 'StateHME'):
    lower, upper = state.Bounds
    unit = LatinHypercube(self.Settings['n_pars']).random(self.Settings['n_sims'])
    out = []
    for xs in lower + unit * (upper - lower):
        sim = self.Model.simulate(self.Model.serve(pars_at(self.Model.Domain, state.Converters, xs)))
        self.Model.flatten(sim)
        sim['Xs'] = xs
        out.append(sim)
    return out


@of('sims_pars.fit.hme.alg:BayesHistoryMatching._emulate', 'C32')
def emulate(self: 'BayesHistoryMatching', pts_sim: 'list[Particle]', state: 'StateHME'):
    n, m = self.Settings['n_pars'], self.Settings['n_ems']
    xs0 = [p.Notes['Xs'] for p in pts_sim]
    ys0 = [p.Notes['Ys'] for p in pts_sim]
    for k in state.Emulators:
        state.Emulators[k].train(xs0, ys0)
    lower, upper = state.Bounds
    xss = lower + rd.random((m, n)) * (upper - lower)
    pred = {k: state.Emulators[k].predict(xss) for k in state.Emulators}
    out = []
    for i in range(m):
        ys = {k: pred[k][0][i] for k in pred}
        vs = {k: pred[k][1][i] for k in pred}
        p = Particle(pars_at(self.Model.Domain, state.Converters, xss[i]), ys)
        p['Vs'] = vs
        p['Xs'] = xss[i]
        p['Ys'] = ys
        p['Imp'] = state.Matchers.eval_implausibility(p)
        out.append(p)
    return out


@of('sims_pars.fit.hme.alg:BayesHistoryMatching._a_wave', 'C32')
def wave(self: 'BayesHistoryMatching'):
    old = self.State
    sims = self._simulate(old)
    emus = self._emulate(sims, old)
    kept, cut, acc = self._keep_plausible(emus)
    xss = np.array([p['Xs'] for p in kept])
    self.State = StateHME(old.Emulators, old.Converters, old.Matchers, kept, (xss.min(0), xss.max(0)),
                          old.Wave + 1, old.Matchers.eval_mse(kept), cut, acc)


@of('sims_pars.fit.hme.alg:BayesHistoryMatching.sample_posteriors', 'C32 C29')
def posterior(self: 'BayesHistoryMatching', n_collect=300):
    s = self.State
    assert s is not None
    lower, upper = s.Bounds
    post = ParameterSet('HME')
    for xs in lower + rd.random((n_collect, self.Settings['n_pars'])) * (upper - lower):
        sim = self.Model.simulate(self.Model.serve(pars_at(self.Model.Domain, s.Converters, xs)))
        self.Model.flatten(sim)
        post.append(sim)
    post.keep('MSE', s.MSE)
    post.keep('Acceptance', s.Acc)
    post.keep('CutOff', s.CutOff)
    out = []
    for d, c, lo, up in zip(self.Model.Domain, s.Converters, lower, upper):
        out.append((d.Name, c.uniform2value(lo), c.uniform2value(up)))
    post.keep('Bounds', out)
    return post


@of('sims_pars.fit.hme.emulator:GPREmulator.train', 'C32')
def train(self: 'GPREmulator', xs, ys):
    from gpflow.models import GPR
    from gpflow.optimizers import Scipy
    y = np.array([[o[self.Output]] for o in ys], dtype=float)
    self.GP = GPR(data=(np.array(xs), y), kernel=self.Kernel)
    Scipy().minimize(self.GP.training_loss, self.GP.trainable_variables, options=self.Opt)


@of('sims_pars.fit.hme.emulator:GPREmulator.predict', 'C32')
def predict(self: 'GPREmulator', xs):
    assert self.GP is not None
    mean, var = self.GP.predict_f(xs)
    return mean.numpy(), var.numpy()


@of('sims_pars.fit.hme.alg:BayesHistoryMatching.update', 'C32')
def update(self: 'BayesHistoryMatching'):
    done = False
    while not done:
        self._a_wave()
        done = self._check_termination()


@of('sims_pars.fit.hme.emulator:GPREmulator', 'C32')
def emulator(output, kernel=None, **kwargs):
    from gpflow.kernels import RBF
    self = GPREmulator.__new__(GPREmulator)
    self.Output = output
    self.Kernel = RBF() if kernel is None else kernel
    self.Opt = dict(kwargs)
    self.GP = None
    return self
