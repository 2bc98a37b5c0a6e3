"""Reference model of approximate Bayesian computation, plain and sequential."""
import numpy as np
import numpy.random as rd
from joblib import Parallel, delayed
from pydantic import ValidationError
from sims_pars.fit.base import Particle
from sims_pars.fit.results import ParameterSet
import sims_pars.fit.abcom.alg as ab
import sims_pars.fit.abc_smc.alg as sm
from sims_pars.fit.abcom.alg import StateABC
from sims_pars.fit.abc_smc.alg import StateABCSMC


# ------------------------------------------------------------------ plain
@of('sims_pars.fit.abcom.alg:sample_fin', 'C25')
def fin(model: 'DataModel'):
    di = np.inf
    n = 0
    while np.isinf(di):
        n += 1
        di = model.calc_distance(model.simulate(model.sample_prior()))
    return di, n


@of('sims_pars.fit.abcom.alg:sample_ess', 'C25 C27')
def ess(model: 'DataModel', eps, unpack=False):
    di = np.inf
    n = 0
    while di > eps:
        n += 1
        sim = model.simulate(model.sample_prior())
        di = model.calc_distance(sim)
    if unpack:
        return di, sim.to_json(), n
    return di, sim, n


@of('sims_pars.fit.abcom.alg:StateABC', 'C25')
def state(eps, acc):
    self = StateABC.__new__(StateABC)
    self.Eps = eps
    self.Acc = acc
    return self


# ------------------------------------------------------------------ sequential
@of('sims_pars.fit.abc_smc.alg:StateABCSMC', 'C26')
def smc_state(wts, pts, rnd=0, stay=0, ess=0, acc=1, eps=np.inf, eps_thres=np.inf):
    self = StateABCSMC.__new__(StateABCSMC)
    self.Wts = wts
    self.Particles = pts
    self.Round = rnd
    self.Stay = stay
    self.ESS = ess
    self.Acceptance = acc
    self.Eps = eps
    self.EpsThres = eps_thres
    return self


@of('sims_pars.fit.abc_smc.alg:sample_fin', 'C26 C27')
def smc_fin(model: 'DataModel', unpack=False):
    di = np.inf
    n = 0
    while np.isinf(di):
        n += 1
        sim = model.simulate(model.sample_prior())
        di = model.calc_distance(sim)
    if unpack:
        return di, sim.to_json(), n
    return di, sim, n


@of('sims_pars.fit.abc_smc.alg:sample_fin_cont', 'C26 C27')
def smc_fin_cont(model: 'DataModel', p0, unpack=False):
    di = np.inf
    n = 0
    while np.isinf(di):
        n += 1
        p = model.sample_prior()
        p.impulse(p0, model.BayesianNetwork)
        sim = model.simulate(p)
        di = model.calc_distance(sim)
    if unpack:
        return di, sim.to_json(), n
    return di, sim, n


@of('sims_pars.fit.abc_smc.alg:sample_ess', 'C26 C27')
def smc_ess(model: 'DataModel', eps, unpack=False):
    di = np.inf
    n = 0
    while di > eps:
        n += 1
        sim = model.simulate(model.sample_prior())
        di = model.calc_distance(sim)
    if unpack:
        return di, sim.to_json(), n
    return di, sim, n


@of('sims_pars.fit.abc_smc.alg:mutate', 'C26')
def smc_mutate(p0: 'Chromosome', steps: 'dict'):
    out = {}
    for k in steps:
        out[k] = p0[k] + np.random.normal(0, steps[k])
    return out


@of('sims_pars.fit.abc_smc.alg:sample_mutation', 'C26 C27')
def smc_mutation(model: 'DataModel', pt0, steps: 'dict', unpack=False):
    if not isinstance(pt0, Particle):
        pt0 = Particle.from_json(pt0)
    di = np.inf
    n = 0
    while np.isinf(di):
        p1 = {}
        for k in steps:
            p1[k] = pt0.Pars[k] + np.random.normal(0, steps[k])
        try:
            p1 = model.serve(p1)
        except ValidationError:
            continue
        if np.isinf(p1.LogProb):
            continue
        n += 1
        sim = model.simulate(p1)
        di = model.calc_distance(sim)
        if n > 20:
            sim = pt0
            di = model.calc_distance(pt0)
            break
    if unpack:
        return di, sim.to_json(), n
    return di, sim, n


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.find_eps', 'C26')
def smc_eps(self: 'ApproxBayesComSMC', eps0, theta0: 'list[Particle]'):
    ds = np.array([self.Model.calc_distance(p) for p in theta0])
    return np.quantile(ds, self.Settings['alpha'] * (ds <= eps0).mean())


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.update_wts', 'C26')
def smc_wts(self: 'ApproxBayesComSMC', eps0, theta0: 'list[Particle]', wts0: 'arr', eps1):
    assume(len(theta0) == len(wts0))
    ds = [self.Model.calc_distance(p) for p in theta0]
    wts = wts0.copy()
    for i in range(len(wts)):
        if ds[i] < eps0 and not ds[i] < eps1:
            wts[i] = 0
    return wts / wts.sum()


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.resample', 'C26')
def smc_resample(self: 'ApproxBayesComSMC', theta0: 'list[Particle]', wts: 'arr', eps_thres):
    assert sum(wts > 0) > 2
    n = self.Settings['n_iter']
    if (wts ** 2).sum() * eps_thres > 1:
        p = np.where(wts > 0, wts, 0)
        ind = np.random.choice(list(range(len(theta0))), n, p=p / p.sum())
        return np.ones(n) / n, [theta0[i].copy() for i in ind]
    return wts, [p.copy() for p in theta0]


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.calc_weighted_std', 'C26')
def smc_std(self: 'ApproxBayesComSMC', theta1: 'list[Particle]', wts: 'arr'):
    tau = {}
    for dom in self.Model.Domain:
        k = dom.Name
        vs = np.array([p.Pars[k] for p in theta1])
        mean = np.average(vs, weights=wts)
        var = np.average((vs - mean) ** 2, weights=wts)
        if var > 0:
            tau[k] = np.sqrt(var)
    return tau


def moved(self, theta, tau):
    if self.Settings['parallel']:
        with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
            out = parallel(delayed(sm.sample_mutation)(self.Model, p.to_json(), tau, unpack=True) for p in theta)
        return [(di, Particle.from_json(sim), n) for di, sim, n in out]
    return [sm.sample_mutation(self.Model, p, tau) for p in theta]


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.mcmc_proposal', 'C26 C27')
def smc_propose(self: 'ApproxBayesComSMC', theta1: 'list[Particle]', wts: 'arr', eps1):
    n = self.Settings['n_iter']
    assume(len(theta1) == n)
    tau = self.calc_weighted_std(theta1, wts)
    out = moved(self, theta1, tau)
    new = [sim for _, sim, _ in out]
    n_eval = sum([k for _, _, k in out])
    acc = np.zeros(n)
    for i, p in enumerate(new):
        if p['distance'] < eps1:
            acc[i] = 1
    pts = []
    kept = 0
    for i in range(n):
        if rd.random() < acc[i]:
            pts.append(new[i])
            kept += 1
        else:
            pts.append(theta1[i])
    return pts, 1 / sum(wts * wts), kept / n, n_eval


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC._check_termination', 'C26')
def smc_stop(self: 'ApproxBayesComSMC'):
    s = self.State
    if s.Round >= self.Settings['max_round']:
        return True
    if s.Round >= 3 and s.Stay >= self.Settings['max_stay']:
        return True
    return s.Acceptance < self.Settings['min_acc']


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC._a_round', 'C26 C34')
def smc_round(self: 'ApproxBayesComSMC'):
    old = self.State
    eps = self.find_eps(old.Eps, old.Particles)
    stay = 0
    if eps >= old.Eps:
        stay = old.Stay + 1
        eps = old.Eps
    wts = self.update_wts(old.Eps, old.Particles, old.Wts, eps)
    wts, theta = self.resample(old.Particles, wts, old.EpsThres)
    pts, ess, acc, n = self.mcmc_proposal(theta, wts, eps)
    self.State = StateABCSMC(wts, pts, old.Round + 1, stay, ess, acc, eps, old.EpsThres)
    self.Monitor.keep(Round=old.Round + 1, Eval=n, Eps=eps, ESS=ess, Acc=acc)
    self.Monitor.step()


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.initialise', 'C26 C27 C34')
def smc_init(self: 'ApproxBayesComSMC'):
    n = self.Settings['n_iter']
    p0s = self._ApproxBayesComSMC__pars0
    if p0s is not None:
        p0s = rd.choice(p0s, n)
        if self.Settings['parallel']:
            with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
                out = parallel(delayed(sm.sample_fin_cont)(self.Model, p0, unpack=True) for p0 in p0s)
            out = [(di, Particle.from_json(sim), k) for di, sim, k in out]
        else:
            out = [sm.sample_fin_cont(self.Model, p0) for p0 in p0s]
    elif self.Settings['parallel']:
        with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
            out = parallel(delayed(sm.sample_fin)(self.Model, unpack=True) for _ in range(n))
        out = [(di, Particle.from_json(sim), k) for di, sim, k in out]
    else:
        out = [sm.sample_fin(self.Model) for _ in range(n)]
    wts = np.ones(n) / n
    ess = 1 / sum(wts * wts)
    self.Monitor.keep(Round=0, Eval=sum(k for _, _, k in out), Eps=np.inf, ESS=ess, Acc=1)
    self.Monitor.step()
    self.State = StateABCSMC(wts, [p for _, p, _ in out], 0, 0, ess, 1, np.inf, n * self.Settings['p_thres'])


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.set_parents', 'C26')
def smc_parents(self: 'ApproxBayesComSMC', ps0):
    self._ApproxBayesComSMC__pars0 = ps0


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.sample_posteriors', 'C26 C27')
def smc_posterior(self: 'ApproxBayesComSMC', n_collect=300):
    assert self.State is not None
    wts, eps, pts = self.State.Wts, self.State.Eps, self.State.Particles
    p = np.where(wts > 0, wts, 0)
    ind = np.random.choice(list(range(len(pts))), n_collect, p=p / p.sum())
    theta = [pts[i] for i in ind]
    tau = self.calc_weighted_std(pts, wts)
    new = [sim for _, sim, _ in moved(self, theta, tau)]
    post = ParameterSet('ABC-SMC')
    for a, b in zip(theta, new):
        if b['distance'] < eps:
            post.append(b)
        else:
            post.append(a)
    post.keep('Trace', self.Monitor.Trajectories)
    post.keep('Eps', eps)
    return post


# ------------------------------------------------------------------ plain sampler
@of('sims_pars.fit.abcom.alg:ApproxBayesCom.initialise', 'C25 C27')
def abc_init(self: 'ApproxBayesCom'):
    n = self.Settings['n_test']
    if self.Settings['parallel']:
        with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
            out = parallel(delayed(ab.sample_fin)(self.Model) for _ in range(n))
        dis = [d for d, _ in out]
    else:
        dis = []
        for _ in range(n):
            di = np.inf
            while np.isinf(di):
                di = self.Model.calc_distance(self.Model.simulate(self.Model.sample_prior()))
            dis.append(di)
    self.State = StateABC(np.quantile(np.array(dis), self.Settings['p_test']), self.Settings['p_test'])


@of('sims_pars.fit.abcom.alg:ApproxBayesCom.sample_posteriors', 'C25 C27')
def abc_posterior(self: 'ApproxBayesCom', n_collect=300):
    assert self.State is not None
    eps = self.State.Eps
    post = ParameterSet('ABC')
    n_eval = 0
    if self.Settings['parallel']:
        with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
            out = parallel(delayed(ab.sample_ess)(self.Model, eps, True) for _ in range(n_collect))
        for _, sim, k in out:
            post.append(Particle.from_json(sim))
            n_eval += k
    else:
        for _ in range(n_collect):
            _, sim, k = ab.sample_ess(self.Model, eps)
            post.append(sim)
            n_eval += k
    for p in post.Particles:
        self.Model.flatten(p)
    post.keep('Eps', eps)
    post.keep('Acceptance', n_collect / n_eval)
    post.keep('ESS', n_collect)
    return post


@of('sims_pars.fit.abc_smc.alg:ApproxBayesComSMC.update', 'C26')
def smc_update(self: 'ApproxBayesComSMC', **kwargs):
    done = False
    while not done:
        self._a_round()
        done = self._check_termination()
