"""Reference model of targets, of the toy models and of the monitor."""
import logging
import numpy as np
import pandas as pd
import scipy.stats as sts
from scipy.integrate import solve_ivp
from sims_pars.prob import parse_distribution
from sims_pars.bayesnet import bayes_net_from_script
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets
from sims_pars.fit.toys import BetaBin, Normal2, EpiSIR
from sims_pars.fit.targets.base import AbsData
from sims_pars.fit.targets.single import DataPointError, DataPointRange, DataDistribution
from sims_pars.fn import sample


@of('sims_pars.fit.targets.single:DataPointError', 'C30')
def point_error(name, v, error=0.1):
    self = DataPointError.__new__(DataPointError)
    self.Name = name
    self.Value = v
    self.Error = error
    self.Std = abs(error * v) / (2 * 1.96)
    return self


@of('sims_pars.fit.targets.single:DataPointRange', 'C30')
def point_range(name, m, l, u):
    self = DataPointRange.__new__(DataPointRange)
    self.Name = name
    self.Value = m
    self.Lower = l
    self.Upper = u
    self.Range = u - l
    return self


@of('sims_pars.fit.targets.single:DataDistribution', 'C30')
def point_dist(name, dist: 'AbsDistribution'):
    self = DataDistribution.__new__(DataDistribution)
    self.Name = name
    self.Value = dist.mean()
    self.Distribution = dist
    return self


@of('sims_pars.fit.targets.single:DataPointError.get_var_obs', 'C30 C32')
def error_var(self: 'DataPointError'):
    return self.Std * self.Std


@of('sims_pars.fit.targets.single:DataPointRange.get_var_obs', 'C30 C32')
def range_var(self: 'DataPointRange'):
    return (self.Range / (2 * 1.96)) ** 2


@of('sims_pars.fit.targets.single:DataDistribution.get_var_obs', 'C30 C32')
def dist_var(self: 'DataDistribution'):
    return self.Distribution.std() ** 2


@of('sims_pars.fit.targets.single:DataPointError.calc_distance', 'C29 C30')
def error_distance(self: 'DataPointError', sim: 'dict'):
    return (sim[self.Name] - self.Value) ** 2 / self.Std


@of('sims_pars.fit.targets.single:DataPointRange.calc_distance', 'C29 C30')
def range_distance(self: 'DataPointRange', sim: 'dict'):
    return (sim[self.Name] - self.Value) ** 2 / (self.Range / (2 * 1.96))


@of('sims_pars.fit.targets.single:DataPointError.calc_likelihood', 'C30')
def error_lik(self: 'DataPointError', sim: 'dict'):
    raise AttributeError('no distribution')


@of('sims_pars.fit.targets.single:DataPointRange.calc_likelihood', 'C30')
def range_lik(self: 'DataPointRange', sim: 'dict'):
    raise AttributeError('no distribution')


def dens(d, x):
    try:
        return d.logpdf(x)
    except AttributeError:
        return d.logpmf(x)


@of('sims_pars.fit.targets.single:DataDistribution.calc_distance', 'C29 C30')
def dist_distance(self: 'DataDistribution', sim: 'dict'):
    return -dens(self.Distribution, sim[self.Name])


@of('sims_pars.fit.targets.single:DataDistribution.calc_likelihood', 'C29 C30')
def dist_lik(self: 'DataDistribution', sim: 'dict'):
    return dens(self.Distribution, sim[self.Name])


@of('sims_pars.fit.targets.base:AbsData.ev', 'C30 C32')
def expected(self: 'AbsData'):
    return self.Value, self.get_var_obs()


@of('sims_pars.fit.targets:read_targets', 'C30')
def read(src: 'dict', error=0.1):
    out = {}
    for k in src:
        v = src[k]
        if isinstance(v, float) or isinstance(v, int):
            out[k] = DataPointError(k, v, error)
        elif isinstance(v, dict):
            if 'm' not in v:
                raise ValueError('format')
            if 'l' in v and 'u' in v:
                assert v['l'] < v['m'] and v['m'] < v['u']
                out[k] = DataPointRange(k, v['m'], v['l'], v['u'])
            elif 'error' in v:
                out[k] = DataPointError(k, v['m'], v['error'])
            else:
                out[k] = DataPointError(k, v['m'], error)
        elif isinstance(v, str):
            out[k] = DataDistribution(k, parse_distribution(v))
        elif isinstance(v, AbsData):
            out[k] = v
        else:
            raise ValueError('format')
    return out


# ------------------------------------------------------------------ toy models
@of('sims_pars.fit.toys:BetaBin.simulate', 'C42 C29')
def toy_beta(self, pars: 'Chromosome'):
    return Particle(pars, sample(self.DataBN, pars))


@of('sims_pars.fit.toys:Normal2.simulate', 'C42 C29')
def toy_normal(self, pars: 'Chromosome'):
    a = sts.norm(pars['mu1'], pars['std']).rvs(self.N).mean()
    b = sts.norm(pars['mu2'], pars['std']).rvs(self.N).mean()
    return Particle(pars, {'x1': a, 'x2': b})


@of('sims_pars.fit.toys:EpiSIR.simulate', 'C42 C29')
def toy_sir(self, pars: 'Chromosome'):
    return Particle(pars, EpiSIR.solve(pars))


@of('sims_pars.fit.toys:EpiSIR.solve', 'C42')
def toy_solve(p):
    def rates(t, y, p):
        s, i, r = y
        n = y.sum()
        inf = p['beta'] * s * i / n
        rec = p['gamma'] * i
        return np.array([-inf, inf - rec, rec])
    ys = solve_ivp(rates, [0, 10], y0=[990, 10, 0], args=(p,), t_eval=np.linspace(2, 7, 6))
    out = {}
    for t, y in zip(ys.t, ys.y.T):
        s, i, _ = y
        n = y.sum()
        out[f'Inc_{t:.0f}'] = p['beta'] * s * i / n / n
        out[f'Prev_{t:.0f}'] = i / n
        out[f'Rec_{t:.0f}'] = p['gamma'] * i / n
    return out


@of('sims_pars.fit.toys:BetaBin.__init__', 'C42')
def toy_beta_init(self: 'BetaBin', data):
    DataModel.__init__(self, read_targets({'x1': data[0], 'x2': data[1]}), bayes_net_from_script('''
PCore BetaBin {
    al = 1
    be = 1

    p1 ~ beta(al, be)
    p2 ~ beta(al, be)
}
'''))
    self.DataBN = bayes_net_from_script('''
        PCore Data {
            x1 ~ binom(10, p1)
            x2 ~ binom(20, p2) 
        }
        ''')


@of('sims_pars.fit.toys:Normal2.__init__', 'C42')
def toy_normal_init(self: 'Normal2', data, n=10):
    a = sts.norm(data[0], 1).rvs(n).mean()
    b = sts.norm(data[1], 1).rvs(n).mean()
    DataModel.__init__(self, read_targets({'x1': a, 'x2': b}), bayes_net_from_script('''
PCore Normal2 {
    std ~ gamma(0.1, 0.1)
    mu1 ~ norm(0, std)
    mu2 ~ norm(0, std)
}
'''))
    self.N = n


@of('sims_pars.fit.toys:EpiSIR.__init__', 'C42')
def toy_sir_init(self: 'EpiSIR', be=1.5, ga=0.2):
    DataModel.__init__(self, read_targets(EpiSIR.solve({'beta': be, 'gamma': ga}), error=0.05), bayes_net_from_script('''
PCore SIR {
    gamma ~ unif(0.1, 1)
    beta ~ unif(1, 20)
}
'''))


@of('sims_pars.fit.toys:get_betabin', 'C42')
def toy_get_beta(data=(7, 14)):
    return BetaBin(data)


@of('sims_pars.fit.toys:get_normal2', 'C42')
def toy_get_normal(mu, n=10):
    return Normal2(mu, n)


@of('sims_pars.fit.toys:get_sir', 'C42')
def toy_get_sir(be, ga):
    return EpiSIR(be, ga)


# ------------------------------------------------------------------ monitor
@of('sims_pars.monitor:Monitor.warning', 'C34')
def mon_warning(self: 'Monitor', msg, *arg, **kwargs):
    self.Logger.warning(msg, *arg, **kwargs)


@of('sims_pars.monitor:Monitor.error', 'C34')
def mon_error(self: 'Monitor', msg, *arg, **kwargs):
    self.Logger.error(msg, *arg, **kwargs)


@of('sims_pars.monitor:Monitor.set_log_path', 'C34')
def mon_path(self: 'Monitor', filename):
    self.add_handler(logging.FileHandler(filename))


@of('sims_pars.monitor:Monitor.__getitem__', 'C34')
def mon_get(self: 'Monitor', item):
    return self.Last[item]


@of('sims_pars.monitor:Monitor.reset', 'C34')
def mon_reset(self: 'Monitor', time=0):
    self.Records.clear()
    self.Last = {}
    self.Time = time


@of('sims_pars.monitor:Monitor.step', 'C34', on_raise=True)
def mon_step(self: 'Monitor', time=None):
    if time is None:
        time = self.Time + 1
    if time < self.Time:
        raise KeyError('backward')
    if time > self.Time:
        self.Last['Time'] = self.Time
        self.Records.append(self.Last)
        self.Last = {}
        self.Time = time


@of('sims_pars.monitor:Monitor.keep', 'C34')
def mon_keep(self: 'Monitor', **kwargs):
    for k in kwargs:
        self.Last[k] = kwargs[k]


@of('sims_pars.monitor:Monitor.Trajectories', 'C34')
def mon_traj(self: 'Monitor'):
    return pd.DataFrame(self.Records).set_index('Time')


@of('sims_pars.monitor:Monitor.save_trajectories', 'C34')
def mon_save(self: 'Monitor', filename):
    pd.DataFrame(self.Records).set_index('Time').to_csv(filename)
