"""what a curve is made of: constructors and casting"""
from sys import float_info
from math import exp
from dcf.curves.curve import Curve, DateCurve, RateCurve, ForwardCurve, \
    Price

U = 'dcf.curves.curve:'
CC = 'dcf.curves.creditcurve:'
VV = 'dcf.curves.volatilitycurve:'
LI = {'domain': 'list', 'data': 'list'}
LD = {'domain': 'date', 'data': 'num', '_domain': 'date'}
OTHER = {'domain': 'cls:ZeroRateCurve'}
AL = {'_domain': 'list', '_origin': 'date'}
CUT = ['day_count', '_get_storage_value', '__call__']
RATES = ['ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
         'ShortRateCurve']
KEPT = ['_func', '_domain', '_interpolation', '_origin', '_day_count',
        'fixings', '_forward_tenor', '_spread']


@spec(['P13', 'P31'], U + 'Curve.__init__', on='Curve', types=LI, ret=False,
      heap='all')
def curve_init(self, domain, data, interpolation):
    """one value per node"""
    if len(domain) != len(data):
        raise ValueError
    assert len(domain) > 0
    self._interpolation = interpolation
    self._update(domain, data)


@spec('P08', U + 'Curve.__init__', on='Curve', types={
    'domain': 'cls:Curve'}, ret=False, heap='all',
    attr_types={'_domain': 'list'}, tag='curve', const={'data': []})
def curve_from_curve(self, domain, data, interpolation):
    """same nodes and values, same interpolation unless given"""
    assert len(domain.domain) > 0
    assert not isinstance(domain, DateCurve)
    self._interpolation = interpolation or domain._interpolation
    self._update(domain.domain, domain(domain.domain))


@spec('P08', U + 'Curve.__init__', on='Curve', types={
    'domain': 'list', 'data': 'cls:Curve'}, elem_types={'domain': 'num'},
    ret=False, heap='all', tag='domain and curve')
def curve_from_values(self, domain, data, interpolation):
    assert len(domain) > 0
    assert not isinstance(data, DateCurve)
    self._interpolation = interpolation or data._interpolation
    self._update(domain, data(domain))


@spec('P08', U + 'Curve.__init__', on='Curve', types={
    'domain': 'cls:DateCurve'}, ret=False, heap='all',
    cuts=['day_count'], attr_types={'_domain': 'list'},
    elem_types={'_domain': 'date'}, tag='date curve', const={'data': []})
def curve_from_dates(self, domain, data, interpolation):
    """dates become year fractions from the origin"""
    assert len(domain.domain) > 0
    self._interpolation = interpolation or domain._interpolation
    self._update([domain.day_count(d) for d in domain.domain],
                 domain(domain.domain))


@spec(['P13', 'P31'], U + 'DateCurve.__init__', on='DateCurve', types=LI,
      elem_types=LD, ret=False, heap=KEPT, cuts=['day_count'])
def dates_init(self, domain, data, interpolation, origin, day_count):
    if len(domain) != len(data):
        raise ValueError
    assert len(domain) > 0
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._update(domain, data)
    self.fixings = dict()


@spec('P08', U + 'DateCurve.__init__', on='DateCurve', types={
    'domain': 'cls:DateCurve'}, elem_types=LD, attr_types=AL, ret=False,
    heap=KEPT, cuts=['day_count', '__call__'], fallback=False,
    ret_types={'__call__': 'list'}, const={'data': []},
    tag='curve')
def dates_from_dates(self, domain, data, interpolation, origin, day_count):
    """origin, day count and interpolation come along unless given"""
    assert len(domain.domain) > 0
    values = domain(domain.domain)
    if len(values) != len(domain.domain):
        raise ValueError
    self._interpolation = interpolation or domain._interpolation
    self._origin = origin if origin is not None else domain.origin
    self._day_count = day_count or domain._day_count
    self._domain = domain.domain
    self._update(domain.domain, values)
    self.fixings = dict()


@spec('P08', U + 'DateCurve.__init__', on='DateCurve', types={
    'domain': 'list', 'data': 'cls:DateCurve'}, elem_types=LD,
    attr_types=AL, ret=False, heap=KEPT, cuts=['day_count', '__call__'], fallback=False,
    ret_types={'__call__': 'list'},
    tag='dates and curve')
def dates_from_values(self, domain, data, interpolation, origin, day_count):
    assert len(domain) > 0
    values = data(domain)
    if len(values) != len(domain):
        raise ValueError
    self._interpolation = interpolation or data._interpolation
    self._origin = origin if origin is not None else data.origin
    self._day_count = day_count or data._day_count
    self._domain = domain
    self._update(domain, values)
    self.fixings = dict()


@spec('P13', U + 'RateCurve.__init__', on=RATES + [
    'HazardRateCurve', 'FlatIntensityCurve', 'TerminalVolatilityCurve',
    'InstantaneousVolatilityCurve'], types=LI, elem_types=LD, ret=False,
    heap=KEPT, cuts=['day_count'])
def rates_init(self, domain, data, interpolation, origin, day_count,
               forward_tenor):
    if len(domain) != len(data):
        raise ValueError
    assert len(domain) > 0
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._forward_tenor = forward_tenor
    self._spread = None
    self._update(domain, data)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on=['ZeroRateCurve',
                                          'ShortRateCurve'], types=OTHER,
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, const={'data': []}, tag='curve')
def rates_from_rates(self, domain, data, interpolation, origin, day_count,
                     forward_tenor):
    """own quantity of the other curve at its nodes, same origin and day
    count unless given"""
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in domain.domain]
    self._interpolation = interpolation
    self._origin = origin if origin is not None else domain.origin
    self._day_count = day_count or domain._day_count
    self._domain = domain.domain
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(domain.domain, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on=RATES + [
    'HazardRateCurve', 'FlatIntensityCurve', 'SurvivalProbabilityCurve',
    'DefaultProbabilityCurve', 'MarginalSurvivalProbabilityCurve',
    'MarginalDefaultProbabilityCurve', 'TerminalVolatilityCurve',
    'InstantaneousVolatilityCurve'], types={
        'domain': 'list', 'data': 'cls:ZeroRateCurve'},
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, tag='dates and curve')
def rates_from_values(self, domain, data, interpolation, origin, day_count,
                      forward_tenor):
    """own quantity of the other curve at the given dates"""
    assert len(domain) > 0
    values = [self._get_storage_value(data, x) for x in domain]
    self._interpolation = interpolation
    self._origin = origin if origin is not None else data.origin
    self._day_count = day_count or data._day_count
    self._domain = domain
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else data._forward_tenor
    self._spread = None
    self._update(domain, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on='DiscountFactorCurve', types=OTHER,
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, const={'data': []}, tag='curve')
def factors_from_rates(self, domain, data, interpolation, origin, day_count,
                       forward_tenor):
    """with the days after origin and after the last node"""
    first = origin if origin is not None else domain.origin
    dates = sorted(set(list(domain.domain) + [
        first + '1d', max(domain.domain) + '1d']))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = first
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on=[
    'SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
    'MarginalSurvivalProbabilityCurve',
    'MarginalDefaultProbabilityCurve'], types=OTHER,
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, const={'data': []}, tag='curve')
def probabilities_from_rates(self, domain, data, interpolation, origin,
                             day_count, forward_tenor):
    """with the day after origin and one year after the last node"""
    first = origin if origin is not None else domain.origin
    dates = sorted(set(list(domain.domain) + [
        first + '1d', max(domain.domain) + '1y']))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = first
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on=[
    'FlatIntensityCurve', 'HazardRateCurve'], types=OTHER,
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, const={'data': []}, tag='curve')
def intensities_from_rates(self, domain, data, interpolation, origin,
                           day_count, forward_tenor):
    """with one year after the last node"""
    dates = sorted(set(list(domain.domain) + [max(domain.domain) + '1y']))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = origin if origin is not None else domain.origin
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on='CashRateCurve', types=OTHER,
      elem_types=LD, attr_types=AL, ret=False, heap=KEPT, cuts=CUT,
      fallback=False, const={'data': []}, tag='curve')
def cash_from_rates(self, domain, data, interpolation, origin, day_count,
                    forward_tenor):
    """with the dates before each node in steps of the tenor"""
    first = origin if origin is not None else domain.origin
    tenor = forward_tenor if forward_tenor is not None \
        else domain.forward_tenor
    dates = list(domain.domain)
    for x in domain.domain:
        while first < x:
            dates.append(x)
            x -= tenor
    dates = sorted(set(dates))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = first
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on='TerminalVolatilityCurve',
      types=OTHER, elem_types=LD, attr_types=AL, ret=False, heap=KEPT,
      cuts=CUT, fallback=False, const={'data': []}, tag='curve')
def terminal_from_rates(self, domain, data, interpolation, origin,
                        day_count, forward_tenor):
    """with the day after origin and ten years after the last node"""
    first = origin if origin is not None else domain.origin
    dates = sorted(set(list(domain.domain) + [
        first + '1d', max(domain.domain) + '10y']))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = first
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec('P08', U + 'RateCurve.__init__', on='InstantaneousVolatilityCurve',
      types=OTHER, elem_types=LD, attr_types=AL, ret=False, heap=KEPT,
      cuts=CUT, fallback=False, const={'data': []}, tag='curve')
def instantaneous_from_rates(self, domain, data, interpolation, origin,
                             day_count, forward_tenor):
    """each node and the origin with the days around them"""
    first = origin if origin is not None else domain.origin
    dates = []
    for d in list(domain.domain) + [first]:
        dates = dates + [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT]
    dates = sorted(set(dates))
    assert len(dates) > 0
    assert len(domain.domain) > 0
    values = [self._get_storage_value(domain, x) for x in dates]
    self._interpolation = interpolation
    self._origin = first
    self._day_count = day_count or domain._day_count
    self._domain = dates
    self._forward_tenor = forward_tenor if forward_tenor is not None \
        else domain._forward_tenor
    self._spread = None
    self._update(dates, values)
    self.fixings = dict()


@spec(['P08', 'P31'], U + 'RateCurve.__init__', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
    'ShortRateCurve', 'FlatIntensityCurve',
    'HazardRateCurve', 'TerminalVolatilityCurve',
    'InstantaneousVolatilityCurve'], types=OTHER | {'data': 'list'},
      elem_types=LD, cuts=CUT, fallback=False, tag='curve and data')
def no_data_with_curve(self, domain, data, interpolation, origin, day_count,
                       forward_tenor):
    """values of its own do not go with a curve"""
    assert len(data) > 0
    raise TypeError


@spec('P13', CC + 'ProbabilityCurve.__init__', on=[
    'SurvivalProbabilityCurve'], types=LI, elem_types=LD,
      ret=False, heap=KEPT, cuts=['day_count'], fallback=False)
def survival_init(self, domain, data, interpolation, origin, day_count,
                  forward_tenor):
    """probabilities strictly between zero and one"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    tiny = float_info.min
    values = [max(tiny, min(p, 1 - tiny)) for p in data]
    assert all(values)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._forward_tenor = forward_tenor
    self._spread = None
    self._update(domain, values)
    self.fixings = dict()


@spec('P13', CC + 'DefaultProbabilityCurve.__init__', on=[
    'DefaultProbabilityCurve'], types=LI, elem_types=LD,
      ret=False, heap=KEPT, cuts=['day_count'], fallback=False)
def default_init(self, domain, data, interpolation, origin, day_count,
                 forward_tenor):
    """stored as survival probabilities"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    tiny = float_info.min
    values = [max(tiny, min(1 - p, 1 - tiny)) for p in data]
    assert all(values)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._forward_tenor = forward_tenor
    self._spread = None
    self._update(domain, values)
    self.fixings = dict()


@spec('P13', CC + 'CreditCurve.__init__', on=[
    'MarginalSurvivalProbabilityCurve'], types=LI, elem_types=LD,
      ret=False, heap=KEPT, cuts=['day_count'], fallback=False)
def marginal_init(self, domain, data, interpolation, origin, day_count,
                  forward_tenor):
    """probabilities strictly between zero and one"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    tiny = float_info.min
    values = [max(tiny, min(p, 1 - tiny)) for p in data]
    assert all(values)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._forward_tenor = forward_tenor
    self._spread = None
    self._update(domain, values)
    self.fixings = dict()


@spec('P13', CC + 'CreditCurve.__init__', on=[
    'MarginalDefaultProbabilityCurve'], types=LI, elem_types=LD,
      ret=False, heap=KEPT, cuts=['day_count'], fallback=False)
def marginal_default_init(self, domain, data, interpolation, origin,
                          day_count, forward_tenor):
    """stored as marginal survival probabilities"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    tiny = float_info.min
    values = [max(tiny, min(1 - p, 1 - tiny)) for p in data]
    assert all(values)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._forward_tenor = forward_tenor
    self._spread = None
    self._update(domain, values)
    self.fixings = dict()


# ---------------------------------------------------------------- forward --
FW = ['_func', '_domain', '_interpolation', '_origin', '_day_count',
      'fixings', 'yield_curve']


@spec('P28', U + 'ForwardCurve.__init__', on='ForwardCurve', types=LI | {
    'yield_curve': 'cls:ZeroRateCurve'}, elem_types=LD, ret=False, heap=FW,
    cuts=['day_count'], fallback=False)
def forward_init(self, domain, data, interpolation, origin, day_count,
                 yield_curve):
    assert len(domain) > 0
    assert len(domain) == len(data)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = domain
    self._update(domain, data)
    self.fixings = dict()
    self.yield_curve = yield_curve


@spec('P28', U + 'ForwardCurve.__init__', on='ForwardCurve', types={
    'domain': 'num', 'yield_curve': 'cls:ZeroRateCurve'}, elem_types=LD,
    ret=False, heap=FW, cuts=['day_count'], fallback=False,
    const={'data': []}, tag='spot')
def forward_spot(self, domain, data, interpolation, origin, day_count,
                 yield_curve):
    """a single price is the price at origin"""
    assert isinstance(domain, float)
    self._interpolation = interpolation
    self._origin = origin
    self._day_count = day_count
    self._domain = [origin]
    self._update([origin], [domain])
    self.fixings = dict()
    self.yield_curve = yield_curve


@spec('P28', U + 'ForwardCurve.__init__', on='ForwardCurve', types={
    'domain': 'cls:Price', 'yield_curve': 'cls:ZeroRateCurve'},
    elem_types=LD, ret=False, heap=FW, cuts=['day_count'], fallback=False,
    const={'data': []}, tag='price')
def forward_price(self, domain, data, interpolation, origin, day_count,
                  yield_curve):
    """a price brings its own date"""
    self._interpolation = interpolation
    self._origin = domain.origin
    self._day_count = day_count
    self._domain = [domain.origin]
    self._update([domain.origin], [domain.value])
    self.fixings = dict()
    self.yield_curve = yield_curve


@law('P28', U + 'ForwardCurve.__init__', types=LI | {
    'self': 'cls:ForwardCurve', 'yield_rate': 'num', 'd': 'date', 'origin': 'date'}, elem_types=LD,
    cuts=['day_count'], fallback=False)
def constant_yield(self, domain, data, origin, day_count, yield_rate, d):
    """continuously compounded from origin in its own day count"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    self.__init__(domain, data, origin=origin, day_count=day_count,
                  yield_curve=yield_rate)
    return self.yield_curve(d), exp(-self.day_count(d) * yield_rate)


# ------------------------------------------------------------- settings ----
@law('P13', U + 'RateCurve.spread', types={
    'self': 'cls:ZeroRateCurve', 'curve': 'cls:ZeroRateCurve'})
def spread_set(self, curve):
    """a spread is taken where there is none"""
    self._spread = None
    self.spread = curve
    return self.spread, curve


@law('P13', U + 'RateCurve.spread', types={
    'self': 'cls:ZeroRateCurve', 'curve': 'cls:ZeroRateCurve'})
def spread_reset(self, curve):
    """and can always be taken off"""
    self.spread = None
    return self.spread, None


@spec('P07', U + 'RateCurve.forward_tenor', on=[
    'ZeroRateCurve', 'CashRateCurve', 'DiscountFactorCurve',
    'ShortRateCurve', 'SurvivalProbabilityCurve', 'FlatIntensityCurve'])
def forward_tenor(self):
    if self._forward_tenor is not None:
        return self._forward_tenor
    return self._FORWARD_TENOR


@spec(['P13', 'P31'], U + 'RateCurve.spread',
      on=['ZeroRateCurve', 'HazardRateCurve'], setter=True,
      heap=['_spread'], types={'curve': 'obj'})
def spread_kept(self, curve):
    """a spread in place is never replaced directly"""
    if curve is not None and self._spread is not None:
        raise TypeError()
    self._spread = curve
