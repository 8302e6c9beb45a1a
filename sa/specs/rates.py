"""interest rate curves"""
from dcf.compounding import continuous_compounding, continuous_rate, \
    simple_compounding, simple_rate
from math import exp, log

R = 'dcf.curves.interestratecurve:'
IR = ['ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
      'ShortRateCurve']
DT = {'start': 'date', 'stop': 'date', 'step': 'period', 'x': 'date'}
CALL = ['__call__', 'day_count', 'origin', 'domain', 'forward_tenor']
ROLL = CALL + ['_get_compounding_rate']
PUB = CALL + ['_get_compounding_factor', '_get_compounding_rate']


# ------------------------------------------------- the public relations ---
@spec('P07', R + 'InterestRateCurve.get_discount_factor', on=IR, types=DT,
      cuts=[PUB, CALL], const={'stop': None})
def df_from_origin(self, start, stop):
    """one argument: from the origin"""
    return self.get_discount_factor(self.origin, start)


@spec('P07', R + 'InterestRateCurve.get_zero_rate', on=IR, types=DT,
      cuts=[PUB, CALL], const={'stop': None})
def zero_from_origin(self, start, stop):
    return self.get_zero_rate(self.origin, start)


@spec('P07', R + 'InterestRateCurve.get_discount_factor',
      on=['ZeroRateCurve', 'ShortRateCurve', 'CashRateCurve'], types=DT,
      cuts=[CALL + ['_get_compounding_rate'], CALL])
def df_of_zero(self, start, stop):
    """df(s, e) = exp(-zero(s, e) * t), 1 for an empty period"""
    if start == stop:
        return 1
    return exp(-self.get_zero_rate(start, stop) *
               self.day_count(start, stop))


@spec('P07', R + 'InterestRateCurve.get_discount_factor',
      on='DiscountFactorCurve', types=DT, cuts=CALL)
def df_of_df(self, start, stop):
    if start == self.origin:
        return self(stop)
    return self(stop) / self(start)


@spec('P07', R + 'InterestRateCurve.get_zero_rate',
      on='DiscountFactorCurve', types=DT, cuts=CALL)
def zero_of_df(self, start, stop):
    """zero(s, e) = -log(df(s, e)) / t"""
    assert start != stop
    if start == self.origin:
        df = self(stop)
    else:
        df = self(stop) / self(start)
    return -log(df) / self.day_count(start, stop)


@spec('P07', R + 'InterestRateCurve.get_zero_rate',
      on='ZeroRateCurve', types=DT, cuts=CALL)
def zero_of_zero(self, start, stop):
    assert start != stop
    if start == self.origin:
        return self(stop)
    s = self(start) * self.day_count(self.origin, start)
    e = self(stop) * self.day_count(self.origin, stop)
    return (e - s) / self.day_count(start, stop)


@spec('P07', R + 'InterestRateCurve.get_zero_rate',
      on='ZeroRateCurve', types=DT, cuts=CALL, tag='at the origin')
def zero_of_zero_at_origin(self, start, stop):
    assert start == stop
    assert start == self.origin
    return self(self.origin)


@spec('P07', R + 'InterestRateCurve.get_zero_rate',
      on='ZeroRateCurve', types=DT, cuts=CALL, recurse=1,
      tag='empty period')
def zero_of_zero_empty(self, start, stop):
    """an empty period is taken for the day after it"""
    assert start == stop
    assert start != self.origin
    end = start + self._TIME_SHIFT
    assert end != start
    s = self(start) * self.day_count(self.origin, start)
    e = self(end) * self.day_count(self.origin, end)
    return (e - s) / self.day_count(start, end)


@spec('P07', R + 'InterestRateCurve.get_zero_rate',
      on='DiscountFactorCurve', types=DT,
      cuts=[CALL + ['_get_compounding_factor'], CALL], recurse=1,
      tag='empty period')
def zero_of_df_empty(self, start, stop):
    assert start == stop
    assert start != self.origin
    end = start + self._TIME_SHIFT
    assert end != start
    return -log(self.get_discount_factor(start, end)) / \
        self.day_count(start, end)


@law('P07', R + 'ZeroRateCurve._get_compounding_rate', on='ZeroRateCurve',
     types=DT | {'mid': 'date'}, cuts=CALL)
def zero_chain(self, start, mid, stop):
    """forward rates times their periods add up"""
    assert start != stop
    assert start != mid
    assert mid != stop
    assert start != self.origin
    assert mid != self.origin
    a = self.get_zero_rate(start, mid) * self.day_count(start, mid)
    b = self.get_zero_rate(mid, stop) * self.day_count(mid, stop)
    return a + b, self.get_zero_rate(start, stop) * self.day_count(start,
                                                                   stop)


@law('P07', R + 'DiscountFactorCurve._get_compounding_factor',
     on='DiscountFactorCurve', types=DT | {'mid': 'date'}, cuts=CALL)
def df_chain(self, start, mid, stop):
    assert mid != self.origin
    return (self.get_discount_factor(start, mid) *
            self.get_discount_factor(mid, stop),
            self.get_discount_factor(start, stop))


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve'], types=DT,
    cuts=[PUB, CALL], const={'step': None})
def cash_rate(self, start, stop, step):
    """simple rate of the discount factor"""
    assert stop is not None
    return (1 / self.get_discount_factor(start, stop) - 1) / \
        self.day_count(start, stop)


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve'], types=DT,
    cuts=[PUB, CALL], const={'stop': None, 'step': None})
def cash_rate_tenor(self, start, stop, step):
    end = start + self.forward_tenor
    return (1 / self.get_discount_factor(start, end) - 1) / \
        self.day_count(start, end)


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve'], types=DT,
    cuts=[PUB, CALL], const={'stop': None})
def cash_rate_step(self, start, stop, step):
    assert step is not None
    end = start + step
    return (1 / self.get_discount_factor(start, end) - 1) / \
        self.day_count(start, end)


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on='CashRateCurve',
      types=DT, cuts=ROLL, fallback=False, const={'stop': None, 'step': None})
def cash_of_cash_tenor(self, start, stop, step):
    return self(start)


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on='CashRateCurve',
      types=DT, cuts=ROLL, fallback=False, const={'step': None})
def cash_of_cash(self, start, stop, step):
    assert stop is not None
    if stop == start + self.forward_tenor:
        return self(start)
    return (1 / self.get_discount_factor(start, stop) - 1) / \
        self.day_count(start, stop)


@spec('P07', R + 'InterestRateCurve.get_cash_rate', on='CashRateCurve',
      types=DT, cuts=ROLL, fallback=False, const={'stop': None}, tag='step')
def cash_of_cash_step(self, start, stop, step):
    assert step is not None
    stop = start + step
    if stop == start + self.forward_tenor:
        return self(start)
    return (1 / self.get_discount_factor(start, stop) - 1) / \
        self.day_count(start, stop)


@spec(['P07', 'P31'], R + 'InterestRateCurve.get_cash_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'ShortRateCurve'],
      types=DT, cuts=PUB, fallback=False, tag='stop and step')
def cash_stop_and_step(self, start, stop, step):
    """stop and step may both be given, but must agree"""
    assert stop is not None
    assert step is not None
    if start + step != stop:
        raise Exception
    return self.get_cash_rate(start, stop)


@spec(['P07', 'P31'], R + 'InterestRateCurve.get_cash_rate',
      on='CashRateCurve',
      types=DT, cuts=ROLL, fallback=False, tag='stop and step')
def cash_of_cash_stop_and_step(self, start, stop, step):
    assert stop is not None
    assert step is not None
    if start + step != stop:
        raise Exception
    return self.get_cash_rate(start, stop)


@spec('P07', R + 'InterestRateCurve.get_short_rate', on='ShortRateCurve',
      types=DT, cuts=CALL)
def short_of_short(self, start):
    return self(start)


@spec('P07', R + 'InterestRateCurve.get_short_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve'],
    types=DT, cuts=[CALL + ['_get_short_rate', '_get_compounding_rate']],
    fallback=False)
def short_public(self, start):
    return self._get_short_rate(start)


@spec('P07', R + 'InterestRateCurve._get_short_rate', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve'],
    types=DT, cuts=[CALL + ['get_short_rate', '_get_compounding_rate']],
    fallback=False)
def short_rate(self, start):
    """zero rate of the grid interval around start"""
    if len(self.domain) == 1:
        return self.get_zero_rate(self.domain[0],
                                  self.domain[0] + self._TIME_SHIFT)
    lo, hi = min(self.domain), max(self.domain)
    if start < lo:
        return self.get_short_rate(lo)
    if start >= hi:
        return self.get_short_rate(hi - self._TIME_SHIFT)
    previous = max([d for d in self.domain if d <= start])
    follow = min([d for d in self.domain if d > start])
    assert previous <= start
    assert start <= follow
    assert previous < follow
    return self.get_zero_rate(previous, follow)


@spec('P07', R + 'InterestRateCurve.get_swap_annuity', on=IR,
      types={'date_list': 'list'}, elem_types={'date_list': 'date'},
      cuts=[PUB, CALL])
def annuity(self, date_list):
    """sum of df(origin, e) * t(s, e)"""
    assert len(date_list) >= 1
    return sum([self.get_discount_factor(self.origin, date_list[i + 1]) *
                self.day_count(date_list[i], date_list[i + 1])
                for i in range(len(date_list) - 1)])


@spec('P07', R + 'ShortRateCurve._get_compounding_rate',
      on='ShortRateCurve', types=DT, cuts=CALL)
def short_compounding(self, start, stop):
    """time weighted mean of the daily short rates"""
    if start == stop:
        return self(start)
    step = self._TIME_SHIFT
    current = start
    acc = 0
    while current + step < stop:
        acc = acc + self(current) * self.day_count(current, current + step)
        current = current + step
    acc = acc + self(current) * self.day_count(current, stop)
    return acc / self.day_count(start, stop)


@spec('P07', R + 'CashRateCurve._get_compounding_rate',
      on='CashRateCurve', types=DT, cuts=CALL)
def cash_compounding(self, start, stop):
    """rolled over simple rates"""
    if start == stop:
        return self(start)
    step = self.forward_tenor
    current = start
    df = 1
    while current + step < stop:
        nxt = current + step
        df = df / (1 + self(current) * self.day_count(current, nxt))
        current = nxt
    df = df / (1 + self(current) * self.day_count(current, stop))
    return -log(df) / self.day_count(start, stop)


# ------------------------------------------------------------ conversion --
@spec('P08', R + 'ZeroRateCurve._get_storage_value', on='ZeroRateCurve')
def store_zero(curve, x):
    return curve.get_zero_rate(curve.origin, x)


@spec('P08', R + 'DiscountFactorCurve._get_storage_value',
      on='DiscountFactorCurve')
def store_df(curve, x):
    return curve.get_discount_factor(curve.origin, x)


@spec('P08', R + 'ShortRateCurve._get_storage_value', on='ShortRateCurve')
def store_short(curve, x):
    return curve.get_short_rate(x)


@spec('P08', R + 'CashRateCurve._get_storage_value', on='CashRateCurve')
def store_cash(curve, x):
    return curve.get_cash_rate(x)
