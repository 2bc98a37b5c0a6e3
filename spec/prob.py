"""Reference model of distribution objects."""
import numpy as np
import numpy.random as rd
import scipy.stats as sts
from scipy.interpolate import interp1d
from sims_pars.prob import SpDouble, SpInteger, Const, CategoricalRV


@of('sims_pars.prob:AbsDistribution.__call__', 'C16')
def abs_call(self: 'AbsDistribution', **kwargs):
    return self.sample(1, **kwargs)


@of('sims_pars.prob:AbsDistribution.Upper', 'C16')
def abs_upper(self: 'AbsDistribution'):
    return self.Interval[1]


@of('sims_pars.prob:AbsDistribution.Lower', 'C16')
def abs_lower(self: 'AbsDistribution'):
    return self.Interval[0]


@of('sims_pars.prob:AbsDistribution.to_json', 'C16')
def abs_json(self: 'AbsDistribution'):
    if not self.json:
        raise AttributeError('no record')
    return self.json


# ------------------------------------------------------------------ continuous
@of('sims_pars.prob:SpDouble', 'C16')
def double(dist):
    self = SpDouble.__new__(SpDouble)
    self.source = None
    self.json = None
    self.Dist = dist
    return self


@of('sims_pars.prob:SpDouble.sample', 'C16')
def double_sample(self: 'SpDouble', n=1, **kwargs):
    if n == 1:
        return self.Dist.rvs()
    return self.Dist.rvs(n)


@of('sims_pars.prob:SpDouble.Interval', 'C16')
def double_interval(self: 'SpDouble'):
    return self.Dist.interval(1)


@of('sims_pars.prob:SpDouble.Type', 'C16')
def double_type(self: 'SpDouble'):
    return 'Double'


@of('sims_pars.prob:SpDouble.logpdf', 'C16 C10')
def double_logpdf(self: 'SpDouble', v):
    return self.Dist.logpdf(v)


@of('sims_pars.prob:SpDouble.mean', 'C16')
def double_mean(self: 'SpDouble'):
    return self.Dist.mean()


@of('sims_pars.prob:SpDouble.std', 'C16')
def double_std(self: 'SpDouble'):
    return self.Dist.std()


# ------------------------------------------------------------------ counts
@of('sims_pars.prob:SpInteger', 'C16')
def integer(dist):
    self = SpInteger.__new__(SpInteger)
    self.source = None
    self.json = None
    self.Dist = dist
    return self


@of('sims_pars.prob:SpInteger.sample', 'C16')
def integer_sample(self: 'SpInteger', n=1, **kwargs):
    if n == 1:
        return round(self.Dist.rvs())
    return np.round(self.Dist.rvs(n))


@of('sims_pars.prob:SpInteger.Interval', 'C16')
def integer_interval(self: 'SpInteger'):
    lo, hi = self.Dist.interval(1)[0], self.Dist.interval(1)[1]
    return lo + 1, hi


@of('sims_pars.prob:SpInteger.Type', 'C16')
def integer_type(self: 'SpInteger'):
    return 'Integer'


@of('sims_pars.prob:SpInteger.logpdf', 'C16 C10')
def integer_logpdf(self: 'SpInteger', v):
    return self.Dist.logpmf(v)


@of('sims_pars.prob:SpInteger.mean', 'C16')
def integer_mean(self: 'SpInteger'):
    return self.Dist.mean()


@of('sims_pars.prob:SpInteger.std', 'C16')
def integer_std(self: 'SpInteger'):
    return self.Dist.std()


# ------------------------------------------------------------------ constants
@of('sims_pars.prob:Const', 'C16')
def constant(k):
    self = Const.__new__(Const)
    self.source = None
    self.json = None
    self.K = k
    return self


@of('sims_pars.prob:Const.Interval', 'C16')
def constant_interval(self: 'Const'):
    return [self.K, self.K]


@of('sims_pars.prob:Const.Upper', 'C16')
def constant_upper(self: 'Const'):
    return self.K


@of('sims_pars.prob:Const.Lower', 'C16')
def constant_lower(self: 'Const'):
    return self.K


@of('sims_pars.prob:Const.sample', 'C16')
def constant_sample(self: 'Const', n=1, **kwargs):
    if n > 1:
        return np.full(n, self.K)
    return self.K


@of('sims_pars.prob:Const.logpdf', 'C16 C10')
def constant_logpdf(self: 'Const', v):
    if v == self.K:
        return 0
    return -np.inf


@of('sims_pars.prob:Const.mean', 'C16')
def constant_mean(self: 'Const'):
    return self.K


@of('sims_pars.prob:Const.std', 'C16')
def constant_std(self: 'Const'):
    return 0


# ------------------------------------------------------------------ categories
@of('sims_pars.prob:CategoricalRV', 'C16')
def categorical(kv: 'dict'):
    self = CategoricalRV.__new__(CategoricalRV)
    self.source = None
    self.json = None
    self.kv = kv
    self.cat = list(kv)
    p = np.array(list(kv.values()))
    self.p = p / p.sum()
    return self


@of('sims_pars.prob:CategoricalRV.Interval', 'C16')
def categorical_interval(self: 'CategoricalRV'):
    return None, None


@of('sims_pars.prob:Const.Type', 'C16')
def constant_type(self: 'Const'):
    return type(self.K)


@of('sims_pars.prob:CategoricalRV.Type', 'C16')
def categorical_type(self: 'CategoricalRV'):
    return 'Category'


@of('sims_pars.prob:CategoricalRV.logpdf', 'C16 C10')
def categorical_logpdf(self: 'CategoricalRV', v):
    pr = {k: p for k, p in zip(self.cat, self.p)}
    try:
        return np.sum(np.array([x * np.log(pr[k]) for k, x in v.items()]))
    except AttributeError:
        return np.log(pr[v])


@of('sims_pars.prob:CategoricalRV.sample', 'C16')
def categorical_sample(self: 'CategoricalRV', n=1, **kwargs):
    out = rd.choice(self.cat, n, p=self.p)
    return out[0] if n == 1 else out


# ------------------------------------------------------------------ empirical
@of('sims_pars.prob:EmpiricalRV.Interval', 'C16')
def empirical_interval(self: 'EmpiricalRV'):
    return self._EmpiricalRV__int


@of('sims_pars.prob:EmpiricalRV.logpdf', 'C16')
def empirical_logpdf(self: 'EmpiricalRV', v):
    return self.Logpdf(v)


@of('sims_pars.prob:EmpiricalRV.sample', 'C16')
def empirical_sample(self: 'EmpiricalRV', n=1, **kwargs):
    return self.Fn(rd.random(n))


# ------------------------------------------------------------------ families
def family_k(self):
    return Const(self.k)


def family_gamma(self):
    return SpDouble(sts.gamma(a=self.shape, scale=1 / self.rate))


def family_exp(self):
    return SpDouble(sts.expon(scale=1 / self.rate))


def family_lnorm(self):
    return SpDouble(sts.lognorm(s=np.exp(self.sdlog), scale=np.exp(np.exp(self.meanlog))))


def family_unif(self):
    return SpDouble(sts.uniform(self.min, self.max - self.min))


def family_chisq(self):
    return SpDouble(sts.chi2(self.df))


def family_beta(self):
    return SpDouble(sts.beta(self.shape1, self.shape2))


def family_invgamma(self):
    return SpDouble(sts.invgamma(a=self.a, scale=1 / self.rate))


def family_norm(self):
    return SpDouble(sts.norm(loc=self.mean, scale=self.sd))


def family_triangle(self):
    a, m, b = sorted([self.a, self.m, self.b])
    return SpDouble(sts.triang(loc=a, scale=b - a, c=(m - a) / (b - a)))


def family_binom(self):
    return SpInteger(sts.binom(n=self.size, p=self.prob))


def family_pois(self):
    return SpInteger(sts.poisson(mu=self.lam))


def family_cat(self):
    return CategoricalRV(self.kv)
