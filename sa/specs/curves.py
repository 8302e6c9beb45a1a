"""curve containers, date curves, forward curves"""
from dcf.curves.fx import FxForwardCurve
from dcf import interpolation as _interpolations
from dcf.curves.curve import Curve, DateCurve, RateCurve, ForwardCurve, Price

U = 'dcf.curves.curve:'
LI = {'domain': 'list', 'data': 'list', 'x': 'num'}
PLAIN = ['Curve']
DATES = ['DateCurve', 'ForwardCurve', 'RateCurve', 'ZeroRateCurve',
         'DiscountFactorCurve', 'CashRateCurve', 'ShortRateCurve',
         'SurvivalProbabilityCurve', 'DefaultProbabilityCurve',
         'FlatIntensityCurve', 'HazardRateCurve',
         'MarginalSurvivalProbabilityCurve',
         'MarginalDefaultProbabilityCurve', 'TerminalVolatilityCurve',
         'InstantaneousVolatilityCurve', 'FxForwardCurve']


@spec(['P12', 'P13'], U + 'Curve._update', on='Curve', types=LI,
      heap=['_func', '_domain'], ret=False)
def update(self, domain, data):
    """nodes sorted by domain, scheme looked up by name, default else"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    pairs = sorted(zip(domain, data))
    xs = [x for x, _ in pairs]
    ys = [y for _, y in pairs]
    kind = self._interpolation
    if kind in self.INTERPOLATIONS:
        func = self.INTERPOLATIONS[kind]
    elif kind is None:
        func = self._INTERPOLATION
    else:
        func = vars(_interpolations).get(kind, kind)
    self._func = func(xs, ys)
    self._domain = xs


@spec(['P12', 'P13'], U + 'DateCurve._update', on=DATES, types=LI,
      elem_types={'domain': 'date', 'data': 'num'},
      heap=['_func', '_domain'], ret=False, cuts=['day_count'])
def update_dates(self, domain, data):
    """nodes ordered by date, at year fractions from the origin"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    nodes = sorted(zip(domain, data))
    dates = [d for d, _ in nodes]
    values = [v for _, v in nodes]
    self._domain = dates
    pairs = sorted(zip([self.day_count(d) for d in dates], values))
    xs = [x for x, _ in pairs]
    ys = [y for _, y in pairs]
    kind = self._interpolation
    if kind in self.INTERPOLATIONS:
        func = self.INTERPOLATIONS[kind]
    elif kind is None:
        func = self._INTERPOLATION
    else:
        func = vars(_interpolations).get(kind, kind)
    self._func = func(xs, ys)
    self._domain = dates


@spec('P13', U + 'Curve.__call__', on='Curve', types=LI)
def call_scalar(self, x):
    return self._func(x)


@spec('P13', U + 'Curve.__call__', on='Curve', types={'xs': 'list'},
      cuts=['__call__'], fallback=False)
def call_list(self, xs):
    assert isinstance(xs, (list, tuple))
    return [self(x) for x in xs]


@spec('P13', U + 'DateCurve.__call__', on='DateCurve', types={'x': 'date'},
      cuts=['day_count'])
def date_call(self, x):
    """fixings win, otherwise interpolation at the year fraction"""
    if x in self.fixings:
        return self.fixings[x]
    return self._func(self.day_count(x))


@spec('P13', U + 'RateCurve.__call__', on=[
    'RateCurve', 'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
    'ShortRateCurve', 'SurvivalProbabilityCurve', 'FlatIntensityCurve',
    'HazardRateCurve', 'TerminalVolatilityCurve'], types={'x': 'date'},
    cuts=['day_count'])
def rate_call(self, x):
    """curve plus spread"""
    base = self.fixings[x] if x in self.fixings else \
        self._func(self.day_count(x))
    if self._spread:
        return base + self._spread(x)
    return base


@spec('P13', U + 'DateCurve.__call__', on=['DateCurve'],
      types={'xs': 'list'}, elem_types={'xs': 'date'}, cuts=['__call__'],
      fallback=False, tag='list')
def date_call_list(self, xs):
    """several dates give the values one by one"""
    return [self(x) for x in xs]


@spec('P13', U + 'RateCurve.__call__', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
    'ShortRateCurve', 'SurvivalProbabilityCurve', 'FlatIntensityCurve',
    'HazardRateCurve', 'TerminalVolatilityCurve'], types={'xs': 'list'},
      elem_types={'xs': 'date'}, cuts=['__call__'], fallback=False,
      tag='list')
def rate_call_list(self, xs):
    return [self(x) for x in xs]


@spec('P28', U + 'ForwardCurve.__call__', on=['ForwardCurve'],
      types={'xs': 'list'}, elem_types={'xs': 'date'}, cuts=['__call__'],
      fallback=False, tag='list')
def forward_call_list(self, xs):
    return [self(x) for x in xs]


@spec('P13', U + 'Curve.__contains__', on=['Curve'] + DATES,
      types={'item': 'num'}, cuts=['domain'])
def contains(self, item):
    return item in self.domain


@spec('P13', U + 'Curve.__iter__', on=['Curve'] + DATES, cuts=['domain'],
      types={'self.domain': 'list'})
def iterate(self):
    return iter(self.domain)


@spec(['P13', 'P31'], U + 'Curve.__getitem__', on=['Curve'] + DATES,
      cuts=[['domain', '__call__']], types={'item': 'num'}, fallback=False)
def getitem(self, item):
    if item in self.domain:
        return self(item)
    raise KeyError


@spec('P13', U + 'Curve.__setitem__', on='Curve',
      cuts=['domain'], elem_types={'domain': 'num'}, types={'key': 'num', 'value': 'num'},
      heap=['_func', '_domain'], ret=False, fallback=False)
def setitem_new(self, key, value):
    """a new node keeps all others"""
    assert not key in self.domain
    xs = list(self.domain)
    ys = [self(x) for x in xs]
    xs = xs + [key]
    ys = ys + [value]
    pairs = sorted(zip(xs, ys))
    xs = [x for x, _ in pairs]
    ys = [y for _, y in pairs]
    kind = self._interpolation
    if kind in self.INTERPOLATIONS:
        func = self.INTERPOLATIONS[kind]
    elif kind is None:
        func = self._INTERPOLATION
    else:
        func = vars(_interpolations).get(kind, kind)
    self._func = func(xs, ys)
    self._domain = xs


@spec('P13', U + 'Curve.__setitem__', on='Curve',
      cuts=['domain'], elem_types={'domain': 'num'},
      types={'key': 'num', 'value': 'num'},
      heap=['_func', '_domain'], ret=False, fallback=False)
def setitem_old(self, key, value):
    """a node is replaced"""
    assert len(self.domain) > 0
    assert key in self.domain
    xs = list(self.domain)
    ys = [self._func(x) for x in xs]
    ys[xs.index(key)] = value
    pairs = sorted(zip(xs, ys))
    xs = [x for x, _ in pairs]
    ys = [y for _, y in pairs]
    kind = self._interpolation
    if kind in self.INTERPOLATIONS:
        func = self.INTERPOLATIONS[kind]
    elif kind is None:
        func = self._INTERPOLATION
    else:
        func = vars(_interpolations).get(kind, kind)
    self._func = func(xs, ys)
    self._domain = xs


@spec('P13', U + 'Curve.__setitem__', on=DATES,
      cuts=['day_count'], elem_types={'_domain': 'date'},
      types={'key': 'date', 'value': 'num'}, attr_types={'_domain': 'list'},
      ret=False, fallback=False, heap=['_func', '_domain'])
def setitem_dates_new(self, key, value):
    """all stored values are kept, without spread and fixings"""
    assert not key in self.domain
    assert len(self.domain) > 0
    ys = [self._func(self.day_count(x)) for x in self.domain]
    self._update(list(self.domain) + [key], ys + [value])


@spec('P13', U + 'Curve.__setitem__', on=DATES,
      cuts=['day_count'], elem_types={'_domain': 'date'},
      types={'key': 'date', 'value': 'num'}, attr_types={'_domain': 'list'},
      ret=False, fallback=False, heap=['_func', '_domain'])
def setitem_dates_old(self, key, value):
    assert key in self.domain
    assert len(self.domain) > 0
    ys = [self._func(self.day_count(x)) for x in self.domain]
    ys[list(self.domain).index(key)] = value
    self._update(list(self.domain), ys)


@spec('P13', U + 'Curve.__add__', on='Curve', cuts=[['domain', '__call__']],
      types={'other': 'cls:Curve'}, fallback=False)
def add(self, other):
    xs = sorted(set(list(self.domain) + list(other.domain)))
    return self.__class__(xs, [self(x) + other(x) for x in xs], self._interpolation)


@spec('P13', U + 'Curve.__sub__', on='Curve', cuts=[['domain', '__call__']],
      types={'other': 'cls:Curve'}, fallback=False)
def sub(self, other):
    xs = sorted(set(list(self.domain) + list(other.domain)))
    return self.__class__(xs, [self(x) - other(x) for x in xs], self._interpolation)


@spec('P13', U + 'Curve.__mul__', on='Curve', cuts=[['domain', '__call__']],
      types={'other': 'cls:Curve'}, fallback=False)
def mul(self, other):
    xs = sorted(set(list(self.domain) + list(other.domain)))
    return self.__class__(xs, [self(x) * other(x) for x in xs], self._interpolation)


@spec(['P13', 'P31'], U + 'Curve.__truediv__', on='Curve',
      cuts=[['domain', '__call__']],
      types={'other': 'cls:Curve'}, fallback=False)
def div(self, other):
    xs = sorted(set(list(self.domain) + list(other.domain)))
    if any(other(x) == 0 for x in xs):
        raise ZeroDivisionError
    return self.__class__(xs, [self(x) / other(x) for x in xs], self._interpolation)


@spec('P13', U + 'Curve.shifted', on='Curve', cuts=[['domain', '__call__']],
      types={'delta': 'num'}, fallback=False)
def shifted(self, delta):
    if delta == 0:
        return self.__class__(self.domain, self)
    return self.__class__([x + delta for x in self.domain], self)


@spec('P13', U + 'DateCurve.day_count', on=DATES,
      types={'start': 'date', 'end': 'date'}, recurse=1,
      cuts=[['day_count', 'origin'], ['origin']],
      const={'end': None}, fallback=False)
def dc_origin(self, start, end):
    return self.day_count(self.origin, start)


@spec('P13', U + 'DateCurve.origin', on=DATES)
def origin(self):
    if self._origin is not None:
        return self._origin
    return self._domain[0] if self._domain else None


@spec('P13', U + 'DateCurve.domain', on=DATES)
def domain(self):
    return self._domain


# ----------------------------------------------------------------- price --
@spec('P13', U + 'Price.__float__', on=['Price', 'FxRate'])
def price_float(self):
    return self._value


@spec('P13', U + 'Price.__init__', on=['Price', 'FxRate'], ret=False,
      heap='all')
def price_init(self, value, origin):
    self._value = value
    self._origin = origin


@spec('P13', U + 'Price.origin', on=['Price', 'FxRate'])
def price_origin(self):
    return self._origin


# --------------------------------------------------------------- forward --
@spec('P28', U + 'ForwardCurve.get_forward_price', on='ForwardCurve',
      types={'value_date': 'date'}, cuts=['day_count', 'domain'],
      elem_types={'domain': 'date'}, fallback=False)
def forward_inside(self, value_date):
    last = self.domain[-1]
    assert value_date <= last
    if value_date in self.fixings:
        return self.fixings[value_date]
    return self._func(self.day_count(value_date))


@spec('P28', U + 'ForwardCurve.get_forward_price', on='ForwardCurve',
      types={'value_date': 'date'}, cuts=['day_count', 'domain'],
      elem_types={'domain': 'date'}, fallback=False)
def forward_beyond(self, value_date):
    """last price compounded forward with the yield curve"""
    last = self.domain[-1]
    assert value_date > last
    price = self.fixings[last] if last in self.fixings else \
        self._func(self.day_count(last))
    y = self.yield_curve
    if y is None:
        return price
    if hasattr(y, 'get_discount_factor'):
        return price / y.get_discount_factor(last, value_date)
    return price * y(last) / y(value_date)


@spec('P28', U + 'ForwardCurve.__call__', on=['ForwardCurve',
                                              'FxForwardCurve'],
      types={'x': 'date'}, cuts=['get_forward_price'], fallback=False)
def forward_call(self, x):
    return self.get_forward_price(x)


F = 'dcf.curves.fx:'


@spec(['P23', 'P28'], F + 'FxForwardCurve.get_forward_price',
      on='FxForwardCurve', types={'value_date': 'date'},
      cuts=['day_count', 'domain'], elem_types={'domain': 'date'},
      fallback=False)
def fx_forward(self, value_date):
    last = self.domain[-1]
    if value_date <= last:
        if value_date in self.fixings:
            return self.fixings[value_date]
        return self._func(self.day_count(value_date))
    price = self.fixings[last] if last in self.fixings else \
        self._func(self.day_count(last))
    d = self.domestic_curve.get_discount_factor(last, value_date)
    f = self.foreign_curve.get_discount_factor(last, value_date)
    return price * d / f


@spec('P23', F + 'FxContainer.get_forward_price', on='FxContainer',
      types={'value_date': 'date'}, cuts=['__getitem__'], fallback=False)
def fx_price(self, domestic_currency, foreign_currency, value_date):
    return self[domestic_currency, foreign_currency].get_forward_price(
        value_date)


CUR = {'self': 'cls:FxContainer', 'usd': 'cls:ZeroRateCurve',
       'eur': 'cls:ZeroRateCurve', 'gbp': 'cls:ZeroRateCurve',
       'x': 'num', 'y': 'num'}


@law('P23', F + 'FxContainer.add', types=CUR, dictstate=True,
     cuts=['origin'], fallback=False)
def fx_direct(self, usd, eur, x):
    assert x != 0
    self.__init__('USD', usd)
    self.add('EUR', eur, x)
    return (self['USD', 'EUR'], self['EUR', 'USD'], self['USD', 'USD']), (
        FxForwardCurve([usd.origin], [x], domestic_curve=usd,
                       foreign_curve=eur),
        FxForwardCurve([usd.origin], [1 / x], domestic_curve=eur,
                       foreign_curve=usd),
        FxForwardCurve([usd.origin], [1.0], domestic_curve=usd,
                       foreign_curve=usd))


@law('P23', F + 'FxContainer.add', types=CUR, dictstate=True,
     cuts=['origin'], fallback=False)
def fx_cross(self, usd, eur, gbp, x, y):
    """spot of a pair is the cross of the spots to the base currency"""
    assert x != 0 and y != 0
    self.__init__('USD', usd)
    self.add('EUR', eur, x)
    self.add('GBP', gbp, y)
    o = usd.origin
    return (self['EUR', 'GBP'], self['GBP', 'EUR'], self['USD', 'EUR'],
            self['EUR', 'USD'], self['USD', 'GBP'], self['GBP', 'USD']), (
        FxForwardCurve([o], [y / x], domestic_curve=eur, foreign_curve=gbp),
        FxForwardCurve([o], [x / y], domestic_curve=gbp, foreign_curve=eur),
        FxForwardCurve([o], [x], domestic_curve=usd, foreign_curve=eur),
        FxForwardCurve([o], [1 / x], domestic_curve=eur, foreign_curve=usd),
        FxForwardCurve([o], [y], domestic_curve=usd, foreign_curve=gbp),
        FxForwardCurve([o], [1 / y], domestic_curve=gbp, foreign_curve=usd))


@law('P23', F + 'FxContainer.add', types=CUR | {'z': 'num'}, dictstate=True,
     cuts=['origin'], fallback=False)
def fx_again(self, usd, eur, gbp, x, y, z):
    """adding a currency again renews all of its pairs"""
    assert x != 0 and y != 0 and z != 0
    self.__init__('USD', usd)
    self.add('EUR', eur, x)
    self.add('GBP', gbp, y)
    self.add('EUR', eur, z)
    o = usd.origin
    return (self['EUR', 'GBP'], self['GBP', 'EUR'], self['USD', 'EUR'],
            self['EUR', 'USD'], self['USD', 'GBP'], self['GBP', 'USD']), (
        FxForwardCurve([o], [y / z], domestic_curve=eur, foreign_curve=gbp),
        FxForwardCurve([o], [z / y], domestic_curve=gbp, foreign_curve=eur),
        FxForwardCurve([o], [z], domestic_curve=usd, foreign_curve=eur),
        FxForwardCurve([o], [1 / z], domestic_curve=eur, foreign_curve=usd),
        FxForwardCurve([o], [y], domestic_curve=usd, foreign_curve=gbp),
        FxForwardCurve([o], [1 / y], domestic_curve=gbp, foreign_curve=usd))


@spec(['P23', 'P31'], F + 'FxContainer.add', on='FxContainer',
      cuts=['__setitem__', '__getitem__', 'update'], fallback=False,
      tag='what is no currency, curve or spot is refused')
def fx_refuse(self, foreign_currency, foreign_curve, fx_spot):
    if not isinstance(foreign_currency, type(self.currency)):
        raise Exception
    if not isinstance(foreign_curve, RateCurve):
        raise Exception
    if not isinstance(fx_spot, float):
        raise Exception
    return '#ANY'


@spec(['P23', 'P31'], F + 'FxContainer.__setitem__', on='FxContainer',
      cuts=['add'], fallback=False, tag='a pair takes two currencies and '
      'an fx curve')
def fx_refuse_pair(self, key, value):
    assert isinstance(key, tuple) and len(key) == 2
    d, f = key
    if not isinstance(d, type(self.currency)):
        raise Exception
    if not isinstance(f, type(self.currency)):
        raise Exception
    if not isinstance(value, FxForwardCurve):
        raise Exception
    return '#ANY'


@spec(['P23', 'P31'], F + 'FxContainer.__setitem__', on='FxContainer',
      cuts=['add', 'get_forward_price'], fallback=False,
      types={'key': 'str'}, tag='a single currency takes an '
      'fx curve of the same base')
def fx_refuse_single(self, key, value):
    if not isinstance(key, type(self.currency)):
        raise Exception
    if not isinstance(value, FxForwardCurve):
        raise Exception
    if not value.domestic_curve == self.domestic_curve:
        raise Exception
    return '#ANY'


@spec(['P23', 'P31'], F + 'FxContainer.__getitem__', on='FxContainer',
      fallback=False, tag='what is no currency and not there is refused')
def fx_refuse_item(self, item):
    if item in self:
        return '#ANY'
    if not isinstance(item, type(self.currency)):
        raise Exception
    return '#ANY'


@law('P23', F + 'FxContainer.__setitem__', types=CUR | {
    'c': 'cls:FxForwardCurve'}, dictstate=True,
     cuts=['origin', 'get_forward_price'],
     ret_types={'get_forward_price': 'num'}, fallback=False)
def fx_assign(self, usd, eur, c):
    """a currency stands for its pairs with the base currency"""
    c.domestic_curve = usd
    c.foreign_curve = eur
    self.__init__('USD', usd)
    x = c.get_forward_price(usd.origin)
    assert x != 0
    self['EUR'] = c
    return (self['USD', 'EUR'], self['EUR', 'USD']), (
        FxForwardCurve([usd.origin], [x], domestic_curve=usd,
                       foreign_curve=eur),
        FxForwardCurve([usd.origin], [1 / x], domestic_curve=eur,
                       foreign_curve=usd))


@law('P23', F + 'FxContainer.__setitem__', types=CUR | {
    'c': 'cls:FxForwardCurve'}, dictstate=True, cuts=['origin'],
     fallback=False)
def fx_pair(self, usd, eur, x, c):
    """a pair is stored as given and leaves the others alone"""
    assert x != 0
    self.__init__('USD', usd)
    self.add('EUR', eur, x)
    self['USD', 'EUR'] = c
    return (self['USD', 'EUR'], self['EUR', 'USD']), (c, FxForwardCurve(
        [usd.origin], [1 / x], domestic_curve=eur, foreign_curve=usd))


@law('P23', F + 'FxContainer.__getitem__', types=CUR, dictstate=True,
     cuts=['origin'], fallback=False)
def fx_row(self, usd, eur, gbp, x, y):
    """a currency gives its curves by foreign currency"""
    assert x != 0 and y != 0
    self.__init__('USD', usd)
    self.add('EUR', eur, x)
    self.add('GBP', gbp, y)
    r = self['EUR']
    return (r['GBP'], r['USD'], len(r)), (
        self['EUR', 'GBP'], self['EUR', 'USD'], 2)
