"""credit and volatility and fx curves"""
from sys import float_info
from math import exp, log, sqrt

K = 'dcf.curves.creditcurve:'
CC = ['SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
      'FlatIntensityCurve', 'HazardRateCurve',
      'MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve']
SP = ['SurvivalProbabilityCurve', 'DefaultProbabilityCurve']
MP = ['MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve']
FI = ['FlatIntensityCurve', 'HazardRateCurve']
DT = {'start': 'date', 'stop': 'date', 'step': 'period', 'x': 'date'}
CALL = ['__call__', 'day_count', 'origin', 'domain', 'forward_tenor']
PUB = CALL + ['_get_compounding_factor', '_get_compounding_rate']


@spec('P09', K + 'CreditCurve.get_survival_prob', on=CC, types=DT,
      cuts=[PUB, CALL], const={'stop': None})
def sp_from_origin(self, start, stop):
    return self.get_survival_prob(self.origin, start)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on=CC, types=DT,
      cuts=[PUB, CALL], const={'stop': None})
def fi_from_origin(self, start, stop):
    return self.get_flat_intensity(self.origin, start)


@spec('P09', K + 'CreditCurve.get_survival_prob', on=FI, types=DT,
      cuts=[CALL + ['_get_compounding_rate'], CALL])
def sp_of_intensity(self, start, stop):
    """sp(s, e) = exp(-intensity(s, e) * t), 1 for an empty period"""
    if start == stop:
        return 1
    return exp(-self.get_flat_intensity(start, stop) *
               self.day_count(start, stop))


@spec('P09', K + 'CreditCurve.get_survival_prob', on=SP, types=DT,
      cuts=CALL)
def sp_of_sp(self, start, stop):
    """sp(s, e) = sp(e) / sp(s)"""
    assert start != stop
    if start == self.origin:
        return self(stop)
    return self(stop) / self(start)


@spec('P09', K + 'CreditCurve.get_survival_prob', on=SP, types=DT,
      cuts=CALL, tag='empty period')
def sp_of_sp_empty(self, start, stop):
    assert start == stop
    assert start != self.origin
    return 1 if self(start) >= 2 * float_info.min else 0


@spec('P09', K + 'CreditCurve.get_flat_intensity', on=SP, types=DT,
      cuts=[CALL + ['_get_compounding_factor'], CALL])
def intensity_of_sp(self, start, stop):
    assert start != stop
    return -log(self.get_survival_prob(start, stop)) / \
        self.day_count(start, stop)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on=MP, types=DT,
      cuts=[CALL + ['_get_compounding_factor'], CALL])
def intensity_of_marginal(self, start, stop):
    assert start != stop
    return -log(self.get_survival_prob(start, stop)) / \
        self.day_count(start, stop)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on='FlatIntensityCurve',
      types=DT, cuts=CALL)
def intensity_of_intensity(self, start, stop):
    assert start != stop
    if start == self.origin:
        return self(stop)
    s = self(start) * self.day_count(self.origin, start)
    e = self(stop) * self.day_count(self.origin, stop)
    return (e - s) / self.day_count(start, stop)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on='FlatIntensityCurve',
      types=DT, cuts=CALL, tag='at the origin')
def intensity_at_origin(self, start, stop):
    assert start == stop
    assert start == self.origin
    return self(self.origin)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on='FlatIntensityCurve',
      types=DT, cuts=CALL, recurse=1,
      tag='empty period')
def intensity_of_intensity_empty(self, start, stop):
    """an empty period is taken for the day after it"""
    assert start == stop
    assert start != self.origin
    end = start + self._TIME_SHIFT
    assert end != start
    s = self(start) * self.day_count(self.origin, start)
    e = self(end) * self.day_count(self.origin, end)
    return (e - s) / self.day_count(start, end)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on=SP + MP, types=DT,
      cuts=[CALL + ['_get_compounding_factor'], CALL], recurse=1,
      tag='empty period')
def intensity_of_sp_empty(self, start, stop):
    assert start == stop
    assert start != self.origin
    end = start + self._TIME_SHIFT
    assert end != start
    return -log(self.get_survival_prob(start, end)) / \
        self.day_count(start, end)


@spec('P09', K + 'CreditCurve.get_flat_intensity', on='HazardRateCurve',
      types=DT, cuts=CALL)
def intensity_of_hazard(self, start, stop):
    """time weighted mean of the hazard rates"""
    if start == stop:
        return self(start)
    step = self._TIME_SHIFT
    current = start
    acc = 0
    while current + step < stop:
        acc = acc + self(current) * self.day_count(current, current + step)
        current = current + step
    acc = acc + self(current) * self.day_count(current, stop)
    return acc / self.day_count(start, stop)


@spec('P09', K + 'CreditCurve.get_survival_prob', on=MP, types=DT,
      cuts=CALL)
def sp_of_marginal(self, start, stop):
    """product of the marginals, the last one for a part of its period"""
    tiny = 2 * float_info.min
    if start == stop:
        return 1 if self(start) >= tiny else 0
    step = self.forward_tenor
    current = start
    p = 1
    while current + step < stop:
        p = p * (self(current) if self(current) >= tiny else 0)
        current = current + step
    if self(current) < tiny:
        return 0
    w = self.day_count(current, stop) / self.day_count(current,
                                                       current + step)
    return p * exp(log(self(current)) * w)


@spec('P09', K + 'CreditCurve.get_hazard_rate', on='HazardRateCurve',
      types=DT, cuts=CALL)
def hazard_of_hazard(self, start):
    return self(start)


@spec('P09', K + 'CreditCurve._get_hazard_rate',
      on=SP + ['FlatIntensityCurve'], types=DT,
      cuts=[CALL + ['get_hazard_rate', '_get_compounding_rate']],
      fallback=False)
def hazard_rate(self, start):
    """flat intensity of the grid interval around start"""
    if len(self.domain) == 1:
        return self.get_flat_intensity(self.domain[0],
                                       self.domain[0] + self._TIME_SHIFT)
    lo, hi = min(self.domain), max(self.domain)
    if start < lo:
        return self.get_hazard_rate(lo)
    if start >= hi:
        return self.get_hazard_rate(hi - self._TIME_SHIFT)
    previous = max([d for d in self.domain if d <= start])
    follow = min([d for d in self.domain if d > start])
    assert previous <= start
    assert start <= follow
    assert previous < follow
    return self.get_flat_intensity(previous, follow)


@spec('P09', K + 'CreditCurve._get_hazard_rate', on=MP, types=DT,
      cuts=[CALL + ['get_hazard_rate', '_get_compounding_rate']],
      fallback=False)
def hazard_rate_marginal(self, start):
    lo, hi = min(self.domain), max(self.domain)
    if start < lo:
        return self.get_hazard_rate(lo)
    if start >= hi:
        return self.get_flat_intensity(hi, hi + self._TIME_SHIFT)
    previous = max([d for d in self.domain if d <= start])
    follow = min([d for d in self.domain if d > start])
    assert previous <= start
    assert start <= follow
    assert previous < follow
    return self.get_flat_intensity(previous, follow)


@spec('P09', K + 'CreditCurve.get_hazard_rate',
      on=SP + MP + ['FlatIntensityCurve'], types=DT,
      cuts=[CALL + ['_get_hazard_rate']], fallback=False)
def hazard_public(self, start):
    return self._get_hazard_rate(start)


@spec('P08', K + 'CreditCurve._get_storage_value', on=SP)
def store_sp(curve, x):
    return curve.get_survival_prob(curve.origin, x)


@spec('P08', K + 'CreditCurve._get_storage_value', on='FlatIntensityCurve')
def store_fi(curve, x):
    return curve.get_flat_intensity(curve.origin, x)


@spec('P08', K + 'CreditCurve._get_storage_value', on='HazardRateCurve')
def store_hz(curve, x):
    return curve.get_hazard_rate(x)


@spec('P08', K + 'CreditCurve._get_storage_value', on=MP)
def store_marginal(curve, x):
    return curve.get_survival_prob(x, x + curve.forward_tenor)


# ------------------------------------------------------------- volatility --
W = 'dcf.curves.volatilitycurve:'


@spec('P10', W + 'TerminalVolatilityCurve.get_terminal_vol',
      on='TerminalVolatilityCurve', types=DT, cuts=CALL,
      const={'stop': None})
def terminal_from_origin(self, start, stop):
    return self(start)


@spec('P10', W + 'TerminalVolatilityCurve.get_terminal_vol',
      on='TerminalVolatilityCurve', types=DT,
      cuts=[CALL + ['get_instantaneous_vol', '__repr__']], fallback=False)
def terminal_forward(self, start, stop):
    """variance is additive: forward variance from the terminal ones"""
    assert stop is not None
    if start == self.origin:
        return self(stop)
    if start == stop:
        return self.get_instantaneous_vol(start)
    if start > stop:
        return 0
    vs = self.day_count(self.origin, start) * self(start) ** 2
    ve = self.day_count(self.origin, stop) * self(stop) ** 2
    var = (ve - vs) / self.day_count(start, stop)
    if self.FLOOR is None:
        assert var >= 0
        return sqrt(var)
    return sqrt(max(var, self.FLOOR ** 2))


@spec(['P10', 'P31'], W + 'TerminalVolatilityCurve.get_terminal_vol',
      on='TerminalVolatilityCurve', types=DT,
      cuts=[CALL + ['get_instantaneous_vol', '__repr__']], fallback=False)
def terminal_negative(self, start, stop):
    """negative variance is an error unless a floor is set"""
    assert stop is not None
    assert start != self.origin
    assert start < stop
    assert self.FLOOR is None
    vs = self.day_count(self.origin, start) * self(start) ** 2
    ve = self.day_count(self.origin, stop) * self(stop) ** 2
    var = (ve - vs) / self.day_count(start, stop)
    assert var < 0
    raise ZeroDivisionError


@spec('P10', W + 'TerminalVolatilityCurve.get_instantaneous_vol',
      on='TerminalVolatilityCurve', types=DT,
      cuts=[CALL + ['get_terminal_vol']], fallback=False)
def instantaneous(self, start):
    return self.get_terminal_vol(start, start + self._TIME_SHIFT)


@spec('P10', W + 'InstantaneousVolatilityCurve.get_instantaneous_vol',
      on='InstantaneousVolatilityCurve', types=DT, cuts=CALL)
def instantaneous2(self, start):
    return self(start)


@spec('P10', W + 'InstantaneousVolatilityCurve.get_terminal_vol',
      on='InstantaneousVolatilityCurve', types=DT,
      cuts=[CALL + ['integrate']], fallback=False)
def terminal2(self, start, stop):
    s = self.origin if stop is None else start
    e = start if stop is None else stop
    if s == e:
        return self(s)
    if s > e:
        return 0
    return self.integrate(s, e)


@spec('P08', W + 'VolatilityCurve._get_storage_value',
      on='TerminalVolatilityCurve')
def store_tv(curve, x):
    return curve.get_terminal_vol(x)


@spec('P08', W + 'VolatilityCurve._get_storage_value',
      on='InstantaneousVolatilityCurve')
def store_iv(curve, x):
    return curve.get_instantaneous_vol(x)
