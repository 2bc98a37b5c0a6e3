"""Reference model of data-driven samplers and regressions."""
import numpy as np
import numpy.random as rd
import pandas as pd
from scipy.special import expit, gamma
from scipy.interpolate import interp1d
from sims_pars.prob import parse_distribution, CategoricalRV
from sims_pars.data.datafunction import AbsDataFunction
from sims_pars.data.static import ConditionalProbabilityTable, TransitionMatrix
from sims_pars.data.timeseries import TimeSeries, TimeSeriesVector, TimeSeriesProbabilityTable, LeeCarter
from sims_pars.data.reg.linear import Boolean, Continuous, Categorical, LinearCombination, LinearRegression
from sims_pars.data.reg.glm import LogisticRegression, PoissonRegression, MultinomialLogisticRegression
from sims_pars.data.reg.hazard import ExponentialHazard, WeibullHazard, EmpiricalHazard, HazardDistribution, \
    ZeroInflatedHazardDistribution
from sims_pars.data.reg.survival import CoxRegression, ZeroInflatedCoxRegression


# ------------------------------------------------------------------ tables
@of('sims_pars.data.frame:AbsDataSet.sample', 'C37')
def many(self: 'AbsDataSet', n=1, **kwargs):
    if n == 1:
        return self(**kwargs)
    return [self(**kwargs) for _ in range(n)]


@of('sims_pars.data.static:TransitionMatrix', 'C37')
def transition(mat):
    self = TransitionMatrix.__new__(TransitionMatrix)
    self.SourceMatrix = mat
    self.Transitions = {}
    for k, row in mat.iterrows():
        self.Transitions[k] = CategoricalRV(dict(row))
    self.StateFrom = list(mat.index)
    self.StateTo = list(mat.columns)
    return self


@of('sims_pars.data.static:TransitionMatrix.__getitem__', 'C37')
def transition_get(self: 'TransitionMatrix', k):
    if k in self.Transitions:
        return self.Transitions[k]
    raise KeyError('unknown state')


@of('sims_pars.data.static:TransitionMatrix.sample_next', 'C37')
def transition_next(self: 'TransitionMatrix', current):
    if current not in self.Transitions:
        raise KeyError('unknown state')
    return self.Transitions[current]()


@of('sims_pars.data.static:TransitionMatrix.__call__', 'C37')
def transition_call(self: 'TransitionMatrix', current):
    if current not in self.Transitions:
        raise KeyError('unknown state')
    return self.Transitions[current]()


@of('sims_pars.data.static:TransitionMatrix.sample', 'C37')
def transition_sample(self: 'TransitionMatrix', n=1, **kwargs):
    if 'currents' in kwargs:
        return [self(k) for k in kwargs['currents']]
    if n == 1:
        return self(kwargs['current'])
    return [self(kwargs['current']) for _ in range(n)]


@of('sims_pars.data.static:ConditionalProbabilityTable', 'C37')
def cpt(mat, indices: 'list', i_prob):
    self = ConditionalProbabilityTable.__new__(ConditionalProbabilityTable)
    self.SourceMatrix = mat
    self.Indices = indices
    self.IndexProb = i_prob
    ps = mat[i_prob]
    self.Ps = list(ps / sum(ps))
    assume(len(self.Ps) == len(mat.iterrows()))
    self.Groups = {}
    self.InvGroups = {}
    for i, (k, row) in enumerate(mat.iterrows()):
        key = ':'.join([row[x] for x in indices])
        self.InvGroups[key] = self.InvGroups.get(key, 0) + self.Ps[i]
        self.Groups[key] = {x: row[x] for x in indices}
    self.Sampler = CategoricalRV(self.InvGroups)
    return self


@of('sims_pars.data.static:ConditionalProbabilityTable.__call__', 'C37')
def cpt_call(self: 'ConditionalProbabilityTable'):
    return self.Groups[self.Sampler()]


@of('sims_pars.data.static:ConditionalProbabilityTable.marginalise', 'C37')
def cpt_marginal(self: 'ConditionalProbabilityTable', index):
    kept = [x for x in self.Indices if x != index]
    df = pd.DataFrame(self.SourceMatrix.groupby(kept)[self.IndexProb].sum()).reset_index()
    return ConditionalProbabilityTable(df, kept, self.IndexProb)


@of('sims_pars.data.static:ConditionalProbabilityTable.condition', 'C37')
def cpt_condition(self: 'ConditionalProbabilityTable', **kwargs):
    given = [x for x in self.Indices if x in kwargs]
    mat = self.SourceMatrix
    for k in given:
        mat = mat[mat[k] == kwargs[k]]
    return ConditionalProbabilityTable(mat.drop(given, axis=1), [x for x in self.Indices if x not in kwargs],
                                       self.IndexProb)


# ------------------------------------------------------------------ time series
@of('sims_pars.data.timeseries:TimeSeries', 'C37')
def series(mat, i_time, i_x, kind='nearest'):
    self = TimeSeries.__new__(TimeSeries)
    self.SourceMatrix = mat
    self.IndexTime = i_time
    self.IndexX = i_x
    ts = np.array(mat[i_time])
    xs = np.array(mat[i_x])
    self.Line = interp1d(ts, xs, kind=kind, bounds_error=False, fill_value=(xs[np.argmin(ts)], xs[np.argmax(ts)]))
    return self


@of('sims_pars.data.timeseries:TimeSeries.__call__', 'C37')
def series_at(self: 'TimeSeries', t):
    return self.Line(t)


@of('sims_pars.data.timeseries:TimeSeriesVector', 'C37')
def series_vector(mat, i_time, i_xs: 'list', kind='nearest'):
    self = TimeSeriesVector.__new__(TimeSeriesVector)
    self.SourceMatrix = mat
    self.IndexTime = i_time
    self.IndexXs = i_xs
    self.Lines = {}
    ts = np.array(mat[i_time])
    for x in i_xs:
        xs = np.array(mat[x])
        self.Lines[x] = interp1d(ts, xs, kind=kind, bounds_error=False, fill_value=(xs[np.argmin(ts)], xs[np.argmax(ts)]))
    return self


@of('sims_pars.data.timeseries:TimeSeriesVector.__call__', 'C37')
def series_vector_at(self: 'TimeSeriesVector', t):
    return {x: self.Lines[x](t) for x in self.IndexXs}


@of('sims_pars.data.timeseries:TimeSeriesProbabilityTable', 'C37')
def series_table(mat, i_time, i_xs: 'list'):
    self = TimeSeriesProbabilityTable.__new__(TimeSeriesProbabilityTable)
    self.SourceMatrix = mat
    self.IndexTime = i_time
    self.IndexXs = i_xs
    ts = np.array(mat[i_time])
    self.Ts = interp1d(ts, ts, kind='nearest', bounds_error=False, fill_value=(ts.min(), ts.max()))
    self.PTs = {}
    for _, row in mat.iterrows():
        self.PTs[row[i_time]] = CategoricalRV({x: row[x] for x in i_xs})
    return self


@of('sims_pars.data.timeseries:TimeSeriesProbabilityTable.__call__', 'C37')
def series_table_at(self: 'TimeSeriesProbabilityTable', t):
    return self.PTs[self.Ts(t) + 0]()


@of('sims_pars.data.timeseries:LeeCarter', 'C37')
def lee_carter(mat_t, mat_a, i_time='Time', i_age='Age', i_al='Alpha', i_be='Beta', i_ka='Kappa', kind='nearest'):
    self = LeeCarter.__new__(LeeCarter)
    self.SourceMatrix = mat_t
    self.Times = np.array(mat_t[i_time])
    self.Kappa = np.array(mat_t[i_ka])
    self.Ages = list(mat_a[i_age])
    self.Alpha = {row[i_age]: row[i_al] for _, row in mat_a.iterrows()}
    self.Beta = {row[i_age]: row[i_be] for _, row in mat_a.iterrows()}
    self.KappaFn = interp1d(self.Times, self.Kappa, kind=kind, bounds_error=False,
                            fill_value=(self.Kappa[np.argmin(self.Times)], self.Kappa[np.argmax(self.Times)]))
    return self


@of('sims_pars.data.timeseries:LeeCarter.get_rate', 'C37')
def lee_carter_rate(self: 'LeeCarter', t, a):
    return np.exp(self.Alpha[a] + self.Beta[a] * self.KappaFn(t))


@of('sims_pars.data.timeseries:LeeCarter.__call__', 'C37')
def lee_carter_at(self: 'LeeCarter', t):
    return {a: np.exp(self.Alpha[a] + self.Beta[a] * self.KappaFn(t)) for a in self.Ages}


# ------------------------------------------------------------------ regressors
@of('sims_pars.data.reg.linear:Boolean', 'C37')
def boolean(js: 'dict'):
    self = Boolean.__new__(Boolean)
    self.Name = js['Name']
    self.Coefficient = js['Value']
    return self


@of('sims_pars.data.reg.linear:Continuous', 'C37')
def continuous(js: 'dict'):
    self = Continuous.__new__(Continuous)
    self.Name = js['Name']
    self.Coefficient = js['Value']
    return self


@of('sims_pars.data.reg.linear:Categorical', 'C37')
def categorical(js: 'dict'):
    self = Categorical.__new__(Categorical)
    self.Name = js['Name']
    self.Coefficients = [float(x) for x in js['Values']]
    self.Labels = js['Labels']
    place = {}
    for i, l in enumerate(self.Labels):
        place[l] = i
    self.Reference = place[js['Ref']]
    return self


@of('sims_pars.data.reg.linear:Boolean.effect', 'C37')
def boolean_effect(self: 'Boolean', value):
    return self.Coefficient if value else 0


@of('sims_pars.data.reg.linear:Continuous.effect', 'C37')
def continuous_effect(self: 'Continuous', value):
    return self.Coefficient * value


@of('sims_pars.data.reg.linear:Categorical.effect', 'C37')
def categorical_effect(self: 'Categorical', value):
    return self.Coefficients[int(value)]


@of('sims_pars.data.reg.linear:Boolean.to_json', 'C37')
def boolean_json(self: 'Boolean'):
    return {'Name': self.Name, 'Value': self.Coefficient, 'Type': 'Boolean'}


@of('sims_pars.data.reg.linear:Continuous.to_json', 'C37')
def continuous_json(self: 'Continuous'):
    return {'Name': self.Name, 'Value': self.Coefficient, 'Type': 'Continuous'}


@of('sims_pars.data.reg.linear:Categorical.to_json', 'C37')
def categorical_json(self: 'Categorical'):
    return {'Name': self.Name, 'Values': self.Coefficients, 'Labels': self.Labels,
            'Ref': self.Labels[self.Reference], 'Type': 'Categorical'}


def regressor(js):
    if js['Type'] == 'Boolean':
        return Boolean(js)
    if js['Type'] == 'Categorical':
        return Categorical(js)
    return Continuous(js)


@of('sims_pars.data.reg.linear:LinearCombination', 'C37')
def combination(js: 'list[dict]'):
    self = LinearCombination.__new__(LinearCombination)
    self.Regressors = [regressor(x) for x in js]
    return self


@of('sims_pars.data.reg.linear:LinearCombination.predict', 'C37')
def combination_predict(self: 'LinearCombination', kvs: 'dict'):
    total = 0
    for r in self.Regressors:
        total += r.effect(kvs[r.Name])
    return total


@of('sims_pars.data.reg.linear:LinearCombination.list_regressors', 'C37')
def combination_list(self: 'LinearCombination'):
    return [r.Name for r in self.Regressors]


# ------------------------------------------------------------------ regressions
@of('sims_pars.data.reg.linear:LinearRegression', 'C37')
def linear(js: 'dict'):
    self = LinearRegression.__new__(LinearRegression)
    self.Intercept = js['Intercept']
    self.LC = LinearCombination(js['Regressors'])
    self.Error = js['SE']
    return self


@of('sims_pars.data.reg.linear:LinearRegression.expectation', 'C37')
def linear_mean(self: 'LinearRegression', xs: 'dict'):
    return self.Intercept + self.LC.predict(xs)


@of('sims_pars.data.reg.linear:LinearRegression.get_sampler', 'C37')
def linear_sampler(self: 'LinearRegression', xs: 'dict'):
    return parse_distribution('norm(mu, err)', {'mu': self.Intercept + self.LC.predict(xs), 'err': self.Error})


@of('sims_pars.data.reg.linear:LinearRegression.predict', 'C37')
def linear_predict(self: 'LinearRegression', xs: 'dict', n=1):
    d = parse_distribution('norm(mu, err)', {'mu': self.Intercept + self.LC.predict(xs), 'err': self.Error})
    return d.sample(max(n, 1))


@of('sims_pars.data.reg.glm:LogisticRegression', 'C37')
def logistic(js: 'dict'):
    self = LogisticRegression.__new__(LogisticRegression)
    self.Intercept = js['Intercept']
    self.LC = LinearCombination(js['Regressors'])
    return self


@of('sims_pars.data.reg.glm:LogisticRegression.expectation', 'C37')
def logistic_mean(self: 'LogisticRegression', xs: 'dict'):
    return expit(self.Intercept + self.LC.predict(xs))


@of('sims_pars.data.reg.glm:LogisticRegression.get_sampler', 'C37')
def logistic_sampler(self: 'LogisticRegression', xs: 'dict'):
    return parse_distribution('binom(1, p)', {'p': expit(self.Intercept + self.LC.predict(xs))})


@of('sims_pars.data.reg.glm:LogisticRegression.predict', 'C37')
def logistic_predict(self: 'LogisticRegression', xs: 'dict'):
    return np.random.binomial(1, expit(self.Intercept + self.LC.predict(xs)))


@of('sims_pars.data.reg.glm:PoissonRegression', 'C37')
def poisson(js: 'dict', offset=0):
    self = PoissonRegression.__new__(PoissonRegression)
    self.Intercept = js['Intercept']
    self.LC = LinearCombination(js['Regressors'])
    self.Offset = offset
    return self


@of('sims_pars.data.reg.glm:PoissonRegression.expectation', 'C37')
def poisson_mean(self: 'PoissonRegression', xs: 'dict'):
    return np.exp(self.Intercept + self.LC.predict(xs))


@of('sims_pars.data.reg.glm:PoissonRegression.get_sampler', 'C37')
def poisson_sampler(self: 'PoissonRegression', xs: 'dict'):
    return parse_distribution('pois(lam)', {'lam': np.exp(self.Intercept + self.LC.predict(xs))})


@of('sims_pars.data.reg.glm:PoissonRegression.predict', 'C37')
def poisson_predict(self: 'PoissonRegression', xs: 'dict'):
    return np.random.poisson(np.exp(self.Intercept + self.LC.predict(xs)))


@of('sims_pars.data.reg.glm:MultinomialLogisticRegression', 'C37')
def multinomial(js: 'dict'):
    self = MultinomialLogisticRegression.__new__(MultinomialLogisticRegression)
    self.Intercepts = list(js['Intercepts'])
    self.LCs = [LinearCombination(x) for x in js['Regressions']]
    if 'Labels' in js:
        self.Labels = list(js['Labels'])
    else:
        self.Labels = [str(i) for i in range(len(self.Intercepts))]
    return self


def shares(self, xs):
    assume(len(self.LCs) == len(self.Intercepts))
    ps = expit(np.array([lc.predict(xs) + inc for lc, inc in zip(self.LCs, self.Intercepts)]))
    return ps / ps.sum()


@of('sims_pars.data.reg.glm:MultinomialLogisticRegression.expectation', 'C37')
def multinomial_mean(self: 'MultinomialLogisticRegression', xs: 'dict'):
    return shares(self, xs)


@of('sims_pars.data.reg.glm:MultinomialLogisticRegression.predict', 'C37')
def multinomial_predict(self: 'MultinomialLogisticRegression', xs: 'dict'):
    return np.random.choice(self.Labels, 1, p=shares(self, xs))


@of('sims_pars.data.reg.glm:MultinomialLogisticRegression.get_sampler', 'C37')
def multinomial_sampler(self: 'MultinomialLogisticRegression', xs: 'dict'):
    kv = {}
    for l, p in zip(self.Labels, shares(self, xs)):
        kv[l] = p
    return parse_distribution('cat(kv)', {'kv': kv})


# ------------------------------------------------------------------ hazards
@of('sims_pars.data.reg.hazard:ExponentialHazard', 'C37')
def exponential(rate):
    self = ExponentialHazard.__new__(ExponentialHazard)
    self.Rate = rate
    return self


@of('sims_pars.data.reg.hazard:ExponentialHazard.cum_hazard', 'C37')
def exponential_cum(self: 'ExponentialHazard', t):
    return self.Rate * t


@of('sims_pars.data.reg.hazard:ExponentialHazard.inv_cum_hazard', 'C37')
def exponential_inv(self: 'ExponentialHazard', h):
    return h / self.Rate


@of('sims_pars.data.reg.hazard:ExponentialHazard.mean', 'C37')
def exponential_mean(self: 'ExponentialHazard', rr=1):
    return 1 / (self.Rate * rr)


@of('sims_pars.data.reg.hazard:ExponentialHazard.std', 'C37')
def exponential_std(self: 'ExponentialHazard', rr=1):
    return 1 / (self.Rate * rr)


@of('sims_pars.data.reg.hazard:WeibullHazard', 'C37')
def weibull(lam, k):
    self = WeibullHazard.__new__(WeibullHazard)
    self.Lambda = lam
    self.K = k
    return self


@of('sims_pars.data.reg.hazard:WeibullHazard.cum_hazard', 'C37')
def weibull_cum(self: 'WeibullHazard', t):
    return (t * self.Lambda) ** self.K


@of('sims_pars.data.reg.hazard:WeibullHazard.inv_cum_hazard', 'C37')
def weibull_inv(self: 'WeibullHazard', h):
    return h ** (1 / self.K) / self.Lambda


@of('sims_pars.data.reg.hazard:WeibullHazard.mean', 'C37')
def weibull_mean(self: 'WeibullHazard', rr=1):
    return gamma(1 + 1 / self.K) / (self.Lambda * rr ** (1 / self.K))


@of('sims_pars.data.reg.hazard:WeibullHazard.std', 'C37')
def weibull_std(self: 'WeibullHazard', rr=1):
    return np.sqrt(gamma(1 + 2 / self.K) - gamma(1 + 1 / self.K) ** 2) / (self.Lambda * rr ** (1 / self.K))


@of('sims_pars.data.reg.hazard:EmpiricalHazard', 'C37')
def empirical(times: 'list', cum_haz: 'list'):
    self = EmpiricalHazard.__new__(EmpiricalHazard)
    self.MaxTime = max(times)
    self.MaxHaz = max(cum_haz)
    self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
    self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
    return self


@of('sims_pars.data.reg.hazard:EmpiricalHazard.cum_hazard', 'C37')
def empirical_cum(self: 'EmpiricalHazard', t):
    return self.FnCumHaz(t)


@of('sims_pars.data.reg.hazard:EmpiricalHazard.inv_cum_hazard', 'C37')
def empirical_inv(self: 'EmpiricalHazard', h):
    return self.FnInvCumHaz(h)


@of('sims_pars.data.reg.hazard:HazardDistribution.sample', 'C37')
def hazard_sample(self: 'HazardDistribution', n=1, **kwargs):
    ss = rd.exponential(1 / self.RiskRatio, n)
    if n <= 1:
        return self.Hazard.inv_cum_hazard(ss[0])
    return [self.Hazard.inv_cum_hazard(s) for s in ss]


@of('sims_pars.data.reg.hazard:HazardDistribution.logpdf', 'C37')
def hazard_logpdf(self: 'HazardDistribution', v):
    t = np.maximum(v, 0)
    a = np.expm1(-(self.Hazard.cum_hazard(t) * self.RiskRatio))
    b = np.expm1(-(self.Hazard.cum_hazard(t + 1E-5) * self.RiskRatio))
    return np.where(v < 0, -np.inf, np.log((a - b) / 1E-5))


@of('sims_pars.data.reg.hazard:ZeroInflatedHazardDistribution.logpdf', 'C37')
def zero_logpdf(self: 'ZeroInflatedHazardDistribution', v):
    if v == 0:
        return np.log(self.Prob)
    return np.log(1 - self.Prob) + HazardDistribution.logpdf(self, v)


@of('sims_pars.data.reg.hazard:ZeroInflatedHazardDistribution.sample', 'C37')
def zero_sample(self: 'ZeroInflatedHazardDistribution', n=1, **kwargs):
    ps = rd.random(n) < self.Prob
    ts = HazardDistribution.sample(self, n)
    if n <= 1:
        return ts if ps[0] < 1 else 0
    ts = np.array(ts)
    ts[ps > 0] = 0
    return ts


@of('sims_pars.data.reg.hazard:HazardDistribution.Interval', 'C37')
def hazard_interval(self: 'HazardDistribution'):
    return [0, float('inf')]


@of('sims_pars.data.reg.hazard:HazardDistribution', 'C37')
def make_hazard(haz: 'Hazard', rr):
    self = HazardDistribution.__new__(HazardDistribution)
    self.source = None
    self.json = None
    self.Hazard = haz
    self.RiskRatio = rr
    return self


# ------------------------------------------------------------------ survival
@of('sims_pars.data.reg.survival:find_baseline', 'C37')
def baseline(js: 'dict'):
    tp = js['Type'].lower()
    if tp == 'exp':
        return ExponentialHazard(js['Rate'])
    if tp == 'weibull':
        return WeibullHazard(js['Lambda'], js['K'])
    if tp == 'empirical':
        return EmpiricalHazard(js['Time'], js['CumHaz'])
    raise KeyError('unknown baseline')


@of('sims_pars.data.reg.survival:CoxRegression.get_sampler', 'C37')
def cox_sampler(self: 'CoxRegression', xs: 'dict'):
    return HazardDistribution(self.Hazard, np.exp(self.LC.predict(xs)))


@of('sims_pars.data.reg.survival:CoxRegression.predict', 'C37')
def cox_predict(self: 'CoxRegression', xs: 'dict'):
    return HazardDistribution(self.Hazard, np.exp(self.LC.predict(xs))).sample()


@of('sims_pars.data.reg.survival:ZeroInflatedCoxRegression.get_sampler', 'C37')
def zicox_sampler(self: 'ZeroInflatedCoxRegression', xs: 'dict'):
    return ZeroInflatedHazardDistribution(expit(self.Intercept + self.LC_pr.predict(xs)), self.Hazard,
                                          np.exp(self.LC_rr.predict(xs)))


@of('sims_pars.data.reg.survival:CoxRegression', 'C37')
def make_cox(js: 'dict'):
    from sims_pars.data.reg.survival import find_baseline
    self = CoxRegression.__new__(CoxRegression)
    self.Hazard = find_baseline(js['Baseline'])
    self.LC = LinearCombination(js['Regressors'])
    return self


@of('sims_pars.data.reg.survival:ZeroInflatedCoxRegression', 'C37')
def make_zicox(js: 'dict'):
    from sims_pars.data.reg.survival import find_baseline
    self = ZeroInflatedCoxRegression.__new__(ZeroInflatedCoxRegression)
    self.Intercept = js['PrZero']['Intercept']
    self.LC_pr = LinearCombination(js['PrZero']['Regressors'])
    self.Hazard = find_baseline(js['PrTTE']['Baseline'])
    self.LC_rr = LinearCombination(js['PrTTE']['Regressors'])
    return self


@of('sims_pars.data.reg.survival:ZeroInflatedCoxRegression.predict', 'C37')
def zicox_predict(self: 'ZeroInflatedCoxRegression', xs: 'dict'):
    return ZeroInflatedHazardDistribution(expit(self.Intercept + self.LC_pr.predict(xs)), self.Hazard,
                                          np.exp(self.LC_rr.predict(xs))).sample()


# ------------------------------------------------------------------ moments and expectations
@of('sims_pars.data.reg.hazard:HazardDistribution.mean', 'C37')
def hazard_mean(self: 'HazardDistribution'):
    return self.Hazard.mean(self.RiskRatio)


@of('sims_pars.data.reg.hazard:HazardDistribution.std', 'C37')
def hazard_std(self: 'HazardDistribution'):
    return self.Hazard.std(self.RiskRatio)


@of('sims_pars.data.reg.hazard:ZeroInflatedHazardDistribution.mean', 'C37')
def zero_mean(self: 'ZeroInflatedHazardDistribution'):
    return (1 - self.Prob) * HazardDistribution.mean(self)


@of('sims_pars.data.reg.hazard:ZeroInflatedHazardDistribution.std', 'C37')
def zero_std(self: 'ZeroInflatedHazardDistribution'):
    m = HazardDistribution.mean(self)
    s = HazardDistribution.std(self)
    return np.sqrt((1 - self.Prob) * (s ** 2 + self.Prob * m ** 2))


@of('sims_pars.data.reg.survival:CoxRegression.expectation', 'C37')
def cox_expectation(self: 'CoxRegression', xs: 'dict'):
    return HazardDistribution(self.Hazard, np.exp(self.LC.predict(xs))).mean()


@of('sims_pars.data.reg.survival:ZeroInflatedCoxRegression.expectation', 'C37')
def zicox_expectation(self: 'ZeroInflatedCoxRegression', xs: 'dict'):
    return ZeroInflatedHazardDistribution(expit(self.Intercept + self.LC_pr.predict(xs)), self.Hazard,
                                          np.exp(self.LC_rr.predict(xs))).mean()


# ------------------------------------------------------------------ kinds of outcomes
@of('sims_pars.data.reg.linear:LinearRegression.get_variable_type', 'C37')
def type_linear(self: 'LinearRegression'):
    return 'Double'


@of('sims_pars.data.reg.glm:LogisticRegression.get_variable_type', 'C37')
def type_logistic(self: 'LogisticRegression'):
    return 'Integer'


@of('sims_pars.data.reg.glm:PoissonRegression.get_variable_type', 'C37')
def type_poisson(self: 'PoissonRegression'):
    return 'Integer'


@of('sims_pars.data.reg.glm:MultinomialLogisticRegression.get_variable_type', 'C37')
def type_mlogit(self: 'MultinomialLogisticRegression'):
    return 'Category'


@of('sims_pars.data.reg.survival:CoxRegression.get_variable_type', 'C37')
def type_cox(self: 'CoxRegression'):
    return 'Double'


@of('sims_pars.data.reg.survival:ZeroInflatedCoxRegression.get_variable_type', 'C37')
def type_zicox(self: 'ZeroInflatedCoxRegression'):
    return 'Double'


@of('sims_pars.data.reg.hazard:HazardDistribution.Type', 'C37')
def type_hazard(self: 'HazardDistribution'):
    return 'Double'


@of('sims_pars.data.datafunction:AbsDataFunction.to_json', 'C37')
def data_function_json(self: 'AbsDataFunction'):
    return {'Name': self.Name, 'Type': str(type(self)), 'Selectors': list(self.Selectors), 'RawData': self.RawData}


@of('sims_pars.data.datafunction:AbsDataFunction', 'C37')
def data_function(name, cols, df):
    self = AbsDataFunction.__new__(AbsDataFunction)
    self.Name = name
    self.Selectors = cols
    self.RawData = df
    return self
