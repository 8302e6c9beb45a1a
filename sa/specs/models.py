"""option pricing models"""
from math import sqrt, log, exp
from dcf.daycount import day_count as _default_day_count
from dcf.models.distibutions import normal_cdf, normal_pdf

O = 'dcf.models.optionpricing:OptionPayOffModel.'
B = 'dcf.models.bachelier:'
L = 'dcf.models.black76:'
D = 'dcf.models.displaced:'
I = 'dcf.models.intrinsic:'
N = ['NormalOptionPayOffModel', 'BinaryNormalOptionPayOffModel']
LN = ['LogNormalOptionPayOffModel', 'BinaryLogNormalOptionPayOffModel']
DI = ['DisplacedLogNormalOptionPayOffModel',
      'BinaryDisplacedLogNormalOptionPayOffModel']
IN = ['IntrinsicOptionPayOffModel', 'BinaryIntrinsicOptionPayOffModel']
ALL = ['NormalOptionPayOffModel', 'BinaryNormalOptionPayOffModel',
       'LogNormalOptionPayOffModel', 'BinaryLogNormalOptionPayOffModel',
       'DisplacedLogNormalOptionPayOffModel',
       'BinaryDisplacedLogNormalOptionPayOffModel',
       'IntrinsicOptionPayOffModel', 'BinaryIntrinsicOptionPayOffModel',
       'BinaryOptionPayOffModel', 'OptionPayOffModel']
VANILLA = ['NormalOptionPayOffModel', 'LogNormalOptionPayOffModel',
           'DisplacedLogNormalOptionPayOffModel',
           'IntrinsicOptionPayOffModel', 'OptionPayOffModel']
DIGITAL = ['BinaryNormalOptionPayOffModel',
           'BinaryLogNormalOptionPayOffModel',
           'BinaryDisplacedLogNormalOptionPayOffModel',
           'BinaryIntrinsicOptionPayOffModel', 'BinaryOptionPayOffModel']
TY = {'date': 'date', 'strike': 'num', 'time': 'num', 'forward': 'num',
      'volatility': 'num', 'x': 'num'}
EL = {'_tsfv()': 'num'}
FORM = ['_call_price', '_call_delta', '_call_gamma', '_call_vega',
        '_call_theta']
CUT = ['_tsfv'] + FORM
CUT2 = ['details'] + FORM
PN = ['normal_cdf', 'normal_pdf']


# --------------------------------------------------------- distributions --
@spec('P18', 'dcf.models.distibutions:normal_pdf', types=TY)
def pdf(x):
    return 0.398942280401433 * exp(-x ** 2 / 2)


@spec('P18', 'dcf.models.distibutions:normal_cdf', types=TY)
def cdf(x):
    """Abramowitz and Stegun 26.2.17"""
    y = abs(x)
    k = 1 / (1 + 0.2316419 * y)
    tail = 0.398942280401433 * exp(-x ** 2 / 2) * (
        0.319381530 * k - 0.356563782 * k ** 2 + 1.781477937 * k ** 3
        - 1.821255978 * k ** 4 + 1.330274429 * k ** 5)
    if x >= 0:
        return 1 - tail
    return tail


@law('P18', 'dcf.models.distibutions:normal_cdf', types=TY)
def cdf_symmetric(x):
    assert x > 0
    return normal_cdf(x) + normal_cdf(-x), 1


# -------------------------------------------------------------- formulas --
@spec('P18', B + 'NormalOptionPayOffModel._call_price', types=TY, cuts=PN,
      fallback=False)
def normal_price(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    d = (forward - strike) / s
    return (forward - strike) * normal_cdf(d) + s * normal_pdf(d)


@spec('P19', B + 'NormalOptionPayOffModel._call_delta', types=TY, cuts=PN,
      fallback=False)
def normal_delta(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    return normal_cdf((forward - strike) / (volatility * sqrt(time)))


@spec('P19', B + 'NormalOptionPayOffModel._call_gamma', types=TY, cuts=PN,
      fallback=False)
def normal_gamma(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    return normal_pdf((forward - strike) / s) / s


@spec('P19', B + 'NormalOptionPayOffModel._call_vega', types=TY, cuts=PN,
      fallback=False)
def normal_vega(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    return sqrt(time) * normal_pdf((forward - strike) / s)


@spec('P18', B + 'BinaryNormalOptionPayOffModel._call_price', types=TY,
      cuts=PN, fallback=False)
def bnormal_price(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    return normal_cdf((forward - strike) / (volatility * sqrt(time)))


@spec('P19', B + 'BinaryNormalOptionPayOffModel._call_delta', types=TY,
      cuts=PN, fallback=False)
def bnormal_delta(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    return normal_pdf((forward - strike) / s) / s


@spec('P19', B + 'BinaryNormalOptionPayOffModel._call_gamma', types=TY,
      cuts=PN, fallback=False)
def bnormal_gamma(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    d = (forward - strike) / s
    return -d * normal_pdf(d) / s ** 2


@spec('P19', B + 'BinaryNormalOptionPayOffModel._call_vega', types=TY,
      cuts=PN, fallback=False)
def bnormal_vega(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0
    s = volatility * sqrt(time)
    d = (forward - strike) / s
    return -d * normal_pdf(d) / volatility


@spec('P18', L + 'LogNormalOptionPayOffModel._call_price', types=TY,
      cuts=PN, fallback=False)
def black_price(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    d = log(forward / strike) / s + s / 2
    return forward * normal_cdf(d) - strike * normal_cdf(d - s)


@spec('P19', L + 'LogNormalOptionPayOffModel._call_delta', types=TY,
      cuts=PN, fallback=False)
def black_delta(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    return normal_cdf(log(forward / strike) / s + s / 2)


@spec('P19', L + 'LogNormalOptionPayOffModel._call_vega', types=TY,
      cuts=PN, fallback=False)
def black_vega(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    return forward * sqrt(time) * normal_pdf(
        log(forward / strike) / s + s / 2)


@spec('P18', L + 'BinaryLogNormalOptionPayOffModel._call_price', types=TY,
      cuts=PN, fallback=False)
def bblack_price(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    return normal_cdf(log(forward / strike) / s - s / 2)


@spec('P19', L + 'BinaryLogNormalOptionPayOffModel._call_delta', types=TY,
      cuts=PN, fallback=False)
def bblack_delta(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    return normal_pdf(log(forward / strike) / s - s / 2) / (s * forward)


@spec('P19', L + 'BinaryLogNormalOptionPayOffModel._call_vega', types=TY,
      cuts=PN, fallback=False)
def bblack_vega(self, time, strike, forward, volatility):
    assert time > 0 and volatility > 0 and forward > 0 and strike > 0
    s = volatility * sqrt(time)
    d1 = log(forward / strike) / s + s / 2
    return -d1 * normal_pdf(d1 - s) / volatility


@spec('P18', I + 'IntrinsicOptionPayOffModel._call_price', types=TY)
def intrinsic_price(self, time, strike, forward, volatility):
    return max(forward - strike, 0)


@spec('P18', I + 'BinaryIntrinsicOptionPayOffModel._call_price', types=TY)
def bintrinsic_price(self, time, strike, forward, volatility):
    return 1 if forward > strike else 0


@spec('P19', I + 'IntrinsicOptionPayOffModel._call_delta', types=TY)
def intrinsic_delta(self, time, strike, forward, volatility):
    assert forward != strike
    return 1 if forward > strike else 0


@spec('P19', I + 'BinaryIntrinsicOptionPayOffModel._call_delta', types=TY)
def bintrinsic_delta(self, time, strike, forward, volatility):
    assert forward != strike
    return 0


@spec('P19', O + '_call_gamma', on=IN, types=TY)
def intrinsic_gamma(self, time, strike, forward, volatility):
    assert forward != strike
    return 0


@spec('P19', O + '_call_vega', on=IN, types=TY)
def intrinsic_vega(self, time, strike, forward, volatility):
    return 0


@spec('P18', 'dcf.models.optionpricing:BinaryOptionPayOffModel._call_price',
      types=TY)
def call_spread(self, time, strike, forward, volatility):
    """digital as call spread around the strike"""
    h = self._strike_shift
    if h is None:
        h = self.STRIKE_SHIFT
    assert h != 0
    return (self._inner(time, strike - h / 2, forward, volatility)
            - self._inner(time, strike + h / 2, forward, volatility)) / h


@spec('P18', O + '__call__', on=ALL, types=TY, cuts=FORM, fallback=False)
def formula_call(self, time, strike, forward, volatility):
    return self._call_price(time, strike, forward, volatility)


# ----------------------------------------------------- displaced formulas --
@law('P20', D + 'DisplacedLogNormalOptionPayOffModel._call_price', types={
    'self': 'cls:DisplacedLogNormalOptionPayOffModel',
    'inner': 'cls:LogNormalOptionPayOffModel'} | TY, cuts=PN, fallback=False)
def displaced_price(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_price(time, strike, forward, volatility), \
        inner._call_price(time, strike + d, forward + d, volatility)


@law('P20', D + 'DisplacedLogNormalOptionPayOffModel._call_delta', types={
    'self': 'cls:DisplacedLogNormalOptionPayOffModel',
    'inner': 'cls:LogNormalOptionPayOffModel'} | TY, cuts=PN, fallback=False)
def displaced_delta(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_delta(time, strike, forward, volatility), \
        inner._call_delta(time, strike + d, forward + d, volatility)


@law('P20', D + 'DisplacedLogNormalOptionPayOffModel._call_vega', types={
    'self': 'cls:DisplacedLogNormalOptionPayOffModel',
    'inner': 'cls:LogNormalOptionPayOffModel'} | TY, cuts=PN, fallback=False)
def displaced_vega(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_vega(time, strike, forward, volatility), \
        inner._call_vega(time, strike + d, forward + d, volatility)


@law('P20', D + 'DisplacedLogNormalOptionPayOffModel._call_gamma', types={
    'self': 'cls:DisplacedLogNormalOptionPayOffModel',
    'inner': 'cls:LogNormalOptionPayOffModel'} | TY, cuts=PN, fallback=False)
def displaced_gamma(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_gamma(time, strike, forward, volatility), \
        inner._call_gamma(time, strike + d, forward + d, volatility)


@law('P20', D + 'BinaryDisplacedLogNormalOptionPayOffModel._call_price',
     types={'self': 'cls:BinaryDisplacedLogNormalOptionPayOffModel',
            'inner': 'cls:BinaryLogNormalOptionPayOffModel'} | TY,
     cuts=PN, fallback=False)
def bdisplaced_price(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_price(time, strike, forward, volatility), \
        inner._call_price(time, strike + d, forward + d, volatility)


@law('P20', D + 'BinaryDisplacedLogNormalOptionPayOffModel._call_delta',
     types={'self': 'cls:BinaryDisplacedLogNormalOptionPayOffModel',
            'inner': 'cls:BinaryLogNormalOptionPayOffModel'} | TY,
     cuts=PN, fallback=False)
def bdisplaced_delta(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_delta(time, strike, forward, volatility), \
        inner._call_delta(time, strike + d, forward + d, volatility)


@law('P20', D + 'BinaryDisplacedLogNormalOptionPayOffModel._call_gamma',
     types={'self': 'cls:BinaryDisplacedLogNormalOptionPayOffModel',
            'inner': 'cls:BinaryLogNormalOptionPayOffModel'} | TY,
     cuts=PN, fallback=False)
def bdisplaced_gamma(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_gamma(time, strike, forward, volatility), \
        inner._call_gamma(time, strike + d, forward + d, volatility)


@law('P20', D + 'BinaryDisplacedLogNormalOptionPayOffModel._call_vega',
     types={'self': 'cls:BinaryDisplacedLogNormalOptionPayOffModel',
            'inner': 'cls:BinaryLogNormalOptionPayOffModel'} | TY,
     cuts=PN, fallback=False)
def bdisplaced_vega(self, inner, time, strike, forward, volatility):
    d = self.displacement
    return self._call_vega(time, strike, forward, volatility), \
        inner._call_vega(time, strike + d, forward + d, volatility)


@spec('P20', D + 'DisplacedLogNormalOptionPayOffModel.__init__', on=DI,
      ret=False, heap='all')
def displaced_init(self, valuation_date, forward_curve, volatility_curve,
                   day_count, bump_greeks, displacement):
    self.valuation_date = valuation_date
    self.forward_curve = forward_curve
    self.volatility_curve = volatility_curve
    self.day_count = day_count
    self.bump_greeks = bump_greeks
    self.displacement = displacement


@spec('P18', O + '__init__', on=N + LN + IN + ['OptionPayOffModel'],
      ret=False, heap='all')
def model_init(self, valuation_date, forward_curve, volatility_curve,
               day_count, bump_greeks):
    self.valuation_date = valuation_date
    self.forward_curve = forward_curve
    self.volatility_curve = volatility_curve
    self.day_count = day_count
    self.bump_greeks = bump_greeks


# --------------------------------------------------------------- details --
@law('P18', O + 'details', types=TY | {'self': 'cls:OptionPayOffModel'})
def details_forward(self, date, strike):
    """forward price, cash rate, number or curve value at the date"""
    c = self.forward_curve
    if c is None:
        f = 0
    elif hasattr(c, 'get_forward_price'):
        f = c.get_forward_price(date)
    elif hasattr(c, 'get_cash_rate'):
        f = c.get_cash_rate(date)
    elif isinstance(c, (int, float)):
        f = c
    else:
        f = c(date)
    return self.details(date, strike).get('forward', 0), f


@law('P18', O + 'details', types=TY | {'self': 'cls:OptionPayOffModel'})
def details_atm(self, date):
    """a missing strike is at the money"""
    c = self.forward_curve
    if c is None:
        f = 0
    elif hasattr(c, 'get_forward_price'):
        f = c.get_forward_price(date)
    elif hasattr(c, 'get_cash_rate'):
        f = c.get_cash_rate(date)
    elif isinstance(c, (int, float)):
        f = c
    else:
        f = c(date)
    return self.details(date)['strike'], f


@law(['P18', 'P25'], O + 'details',
     types=TY | {'self': 'cls:OptionPayOffModel'})
def details_strike(self, date, strike):
    return self.details(date, strike)['strike'], strike


@law('P18', O + 'details', types=TY | {'self': 'cls:OptionPayOffModel'})
def details_volatility(self, date, strike):
    c = self.volatility_curve
    if c is None:
        v = 0
    elif hasattr(c, 'get_terminal_vol'):
        v = c.get_terminal_vol(date)
    elif isinstance(c, (int, float)):
        v = c
    else:
        v = c(date)
    return self.details(date, strike).get('volatility', 0), v


@law('P18', O + 'details', types=TY | {'self': 'cls:OptionPayOffModel'},
     cuts=['day_count'], fallback=False)
def details_time(self, date, strike):
    """day count of the model, its volatility, its forward, the default"""
    s = self.valuation_date
    if self.day_count:
        t = self.day_count(s, date)
    elif hasattr(self.volatility_curve, 'day_count'):
        t = self.volatility_curve.day_count(s, date)
    elif hasattr(self.forward_curve, 'day_count'):
        t = self.forward_curve.day_count(s, date)
    else:
        t = _default_day_count(s, date)
    return self.details(date, strike)['time to expiry'], t


@spec('P18', O + '_tsfv', on=ALL, types=TY, cuts=['details'],
      fallback=False)
def tsfv(self, date, strike):
    d = self.details(date, strike)
    return (d.get('time to expiry', None), d.get('strike', None),
            d.get('forward', None), d.get('volatility', None))


# ---------------------------------------------------------- public values --
@spec('P18', O + 'get_call_value', on=VANILLA, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def call_value(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    if t == 0 or v == 0:
        return max(f - k, 0)
    return self._call_price(t, k, f, v)


@spec('P18', O + 'get_call_value', on=ALL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False, tag='live')
def call_value_live(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    assert t != 0 and v != 0
    return self._call_price(t, k, f, v)


@spec('P18', O + 'get_put_value', on=VANILLA, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def put_value(self, date, strike):
    """put call parity"""
    t, k, f, v = self._tsfv(date, strike)
    if t == 0 or v == 0:
        return max(k - f, 0)
    return self._call_price(t, k, f, v) - (f - k)


@spec('P18', O + 'get_call_value', on=DIGITAL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False, tag='digital-degenerate')
def digital_call_zero(self, date, strike):
    """a digital pays one in the money (listed in known-findings.txt)"""
    t, k, f, v = self._tsfv(date, strike)
    assert t == 0 or v == 0
    assert f != k
    return 1 if f > k else 0


@spec('P18', O + 'get_put_value', on=DIGITAL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False, tag='digital-parity')
def digital_put(self, date, strike):
    """digital call and put pay one together (known-findings.txt)"""
    t, k, f, v = self._tsfv(date, strike)
    assert t != 0 and v != 0
    return 1 - self._call_price(t, k, f, v)


@spec('P19', O + 'get_put_delta', on=DIGITAL, types=TY,
      cuts=['get_call_delta'], ret_types={'get_call_delta': 'num'},
      tag='digital-parity', fallback=False)
def digital_put_delta(self, date, strike):
    """derivative of 1 - call (known-findings.txt)"""
    return -self.get_call_delta(date, strike)


@spec('P19', O + 'get_call_delta', on=VANILLA, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False, tag='degenerate')
def call_delta_zero(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    assert t == 0 or v == 0
    assert f != k
    return self.DELTA_SCALE if f > k else 0


@spec('P19', O + 'get_call_delta', on=ALL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def call_delta(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    assert t != 0 and v != 0
    h = self.DELTA_SHIFT
    bump = (self._call_price(t, k, f + h, v) -
            self._call_price(t, k, f, v)) / h
    if not self.bump_greeks:
        d = self._call_delta(t, k, f, v)
        if d is not None:
            return d * self.DELTA_SCALE
    return bump * self.DELTA_SCALE


@spec('P19', O + 'get_put_delta', on=VANILLA, types=TY,
      cuts=['get_call_delta'], ret_types={'get_call_delta': 'num'})
def put_delta(self, date, strike):
    return self.get_call_delta(date, strike) - self.DELTA_SCALE


@spec('P19', O + 'get_call_gamma', on=ALL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def call_gamma(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    if t == 0 or v == 0:
        return 0
    h = self.DELTA_SHIFT
    bump = (self._call_price(t, k, f + h, v) -
            2 * self._call_price(t, k, f, v) +
            self._call_price(t, k, f - h, v)) / h ** 2
    if not self.bump_greeks:
        d = self._call_gamma(t, k, f, v)
        if d is not None:
            return d * self.DELTA_SCALE ** 2
    return bump * self.DELTA_SCALE ** 2


@spec('P19', O + 'get_call_vega', on=ALL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def call_vega(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    if t == 0 or v == 0:
        return 0
    h = self.VEGA_SHIFT
    bump = (self._call_price(t, k, f, v + h) -
            self._call_price(t, k, f, v)) / h
    if not self.bump_greeks:
        d = self._call_vega(t, k, f, v)
        if d is not None:
            return d * self.VEGA_SCALE
    return bump * self.VEGA_SCALE


@spec('P19', O + 'get_call_theta', on=ALL, types=TY, elem_types=EL,
      cuts=[CUT, CUT2], fallback=False)
def call_theta(self, date, strike):
    t, k, f, v = self._tsfv(date, strike)
    if t == 0 or v == 0:
        return 0
    h = self.THETA_SHIFT
    bump = (self._call_price(t + h, k, f, v) -
            self._call_price(t, k, f, v)) / h
    if not self.bump_greeks:
        d = self._call_theta(t, k, f, v)
        if d is not None:
            return d * self.THETA_SCALE
    return bump * self.THETA_SCALE


@spec('P19', O + 'get_put_gamma', on=ALL, types=TY,
      cuts=['get_call_gamma'])
def put_gamma(self, date, strike):
    return self.get_call_gamma(date, strike)


@spec('P19', O + 'get_put_vega', on=ALL, types=TY, cuts=['get_call_vega'])
def put_vega(self, date, strike):
    return self.get_call_vega(date, strike)


@spec('P19', O + 'get_put_theta', on=ALL, types=TY,
      cuts=['get_call_theta'])
def put_theta(self, date, strike):
    return self.get_call_theta(date, strike)


@spec(['P18', 'P25'],
      'dcf.models.optionpricing:BinaryOptionPayOffModel.__init__',
      ret=False, heap='all')
def binary_init(self, pricing_formula, strike_shift, valuation_date,
                forward_curve, volatility_curve, day_count):
    """settings not given are those of the inner model"""
    self._inner = pricing_formula
    self._strike_shift = strike_shift
    from dcf.models.optionpricing import OptionPayOffModel
    if isinstance(pricing_formula, OptionPayOffModel):
        if valuation_date is None:
            valuation_date = pricing_formula.valuation_date
        if forward_curve is None:
            forward_curve = pricing_formula.forward_curve
        if volatility_curve is None:
            volatility_curve = pricing_formula.volatility_curve
        day_count = day_count or pricing_formula.day_count
    self.valuation_date = valuation_date
    self.forward_curve = forward_curve
    self.volatility_curve = volatility_curve
    self.day_count = day_count
    self.bump_greeks = True
