"""pay-offs, cash-flow legs, lists of legs"""
from dcf.cashflows.payoffs import (
    FixedCashFlowPayOff, RateCashFlowPayOff, OptionCashFlowPayOff,
    OptionStrategyCashFlowPayOff, ContingentRateCashFlowPayOff)
from dcf.cashflows.cashflow import CashFlowList, RateCashFlowList
from dcf.daycount import day_count as default_day_count

Y = 'dcf.cashflows.payoffs:'
C = 'dcf.cashflows.cashflow:'
G = 'dcf.cashflows.contingent:'
AT = {'amount': 'num', 'fixed_rate': 'num', 'strike': 'num',
      'floor_strike': 'num', 'cap_strike': 'num', 'start': 'date',
      'end': 'date', 'expiry': 'date', 'fixing_offset': 'period',
      'domain': 'list', '_domain': 'list'}
RT = {'day_count': 'num', 'get_cash_rate': 'num', 'get_put_value': 'num',
      'get_call_value': 'num', 'details': 'dict'}
MODEL = {'model': 'cls:OptionPayOffModel'}
VALUE = ['get_call_value', 'get_put_value', 'day_count']


# ---------------------------------------------------------------- payoffs --
@law('P15', Y + 'FixedCashFlowPayOff.details', attr_types=AT,
     types={'self': 'cls:FixedCashFlowPayOff'})
def fixed_value(self, model):
    return (self(model), self(), self.details()['cashflow']), \
        (self.amount, self.amount, self.amount)


@law('P15', Y + 'CashFlowPayOff.details',
     types={'self': 'cls:CashFlowPayOff'})
def empty_value(self, model):
    return self(model), 0


@law(['P15', 'P25'], Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff'},
     cuts=['day_count'])
def rate_fixed(self):
    return (self(), self(None)), (
        self.amount * self.day_count(self.start, self.end) *
        self.fixed_rate,
        self.amount * self.day_count(self.start, self.end) *
        self.fixed_rate)


@law(['P15', 'P25'], Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff',
                          'curve': 'cls:ZeroRateCurve'},
     cuts=['day_count', 'get_cash_rate'])
def rate_float(self, curve):
    """fixed plus forward rate, fixed at start less fixing offset"""
    fixing = self.start
    if self.fixing_offset:
        fixing = fixing - self.fixing_offset
    yf = self.day_count(self.start, self.end)
    return self(curve), self.amount * yf * (
        self.fixed_rate + curve.get_cash_rate(fixing))


@law(['P15', 'P25'], Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff',
                          'curve': 'num'}, cuts=['day_count'])
def rate_number(self, curve):
    yf = self.day_count(self.start, self.end)
    return self(curve), self.amount * yf * (self.fixed_rate + curve)


@law('P15', Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff'},
     cuts=['day_count'])
def rate_any(self, curve):
    """pay-off models hand over their forward curve"""
    assert curve is not None
    yf = self.day_count(self.start, self.end)
    fixing = self.start
    if self.fixing_offset:
        fixing = fixing - self.fixing_offset
    c = curve
    if hasattr(c, 'payoff_model'):
        c = c.payoff_model
    if hasattr(c, 'forward_curve'):
        c = c.forward_curve
    if hasattr(c, 'get_cash_rate'):
        f = c.get_cash_rate(fixing)
    elif isinstance(c, (int, float)):
        f = c
    else:
        f = c(fixing)
    return self(curve), self.amount * yf * (self.fixed_rate + f)


@law('P15', Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff',
                          'curve': 'cls:ZeroRateCurve'},
     cuts=['day_count', 'get_cash_rate'])
def rate_details(self, curve):
    """the details of a flow are the terms it is computed from"""
    d = self.details(curve)
    return (d['notional'], d['fixed rate'], d['start date'], d['end date'],
            d['year fraction']), \
        (self.amount, self.fixed_rate, self.start, self.end,
         self.day_count(self.start, self.end))


@law('P15', Y + 'RateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types={'self': 'cls:RateCashFlowPayOff',
                          'curve': 'cls:ZeroRateCurve'},
     cuts=['day_count', 'get_cash_rate', 'forward_tenor'])
def rate_details_float(self, curve):
    d = self.details(curve)
    fixing = self.start
    if self.fixing_offset:
        fixing = fixing - self.fixing_offset
    return (d['forward rate'], d['fixing date'], d['tenor']), \
        (curve.get_cash_rate(fixing), fixing, curve.forward_tenor)


@law(['P15', 'P25'], Y + 'OptionCashFlowPayOff.details',
     attr_types=AT | {'forward_curve': 'cls:ForwardCurve',
                      'volatility_curve': 'cls:TerminalVolatilityCurve'},
     ret_types=RT, types=MODEL | {'self': 'cls:OptionCashFlowPayOff'},
     cuts=VALUE + ['get_forward_price', 'get_terminal_vol'],
     fallback=False)
def option_value(self, model):
    v = model.get_put_value(self.expiry, self.strike) if self.is_put else \
        model.get_call_value(self.expiry, self.strike)
    return self(model), self.amount * v


@law('P15', Y + 'OptionCashFlowPayOff.details', attr_types=AT,
     types={'self': 'cls:OptionCashFlowPayOff'})
def option_no_model(self):
    return (self(), self(None)), (0, 0)


@law('P15', Y + 'OptionStrategyCashFlowPayOff.details',
     attr_types=AT | {'forward_curve': 'cls:ForwardCurve',
                      'volatility_curve': 'cls:TerminalVolatilityCurve'},
     types=MODEL | {'self': 'cls:OptionStrategyCashFlowPayOff'},
     elem_types={'_options': 'cls:OptionCashFlowPayOff'}, ret_types=RT,
     cuts=VALUE + ['get_forward_price', 'get_terminal_vol'],
     fallback=False)
def strategy_value(self, model):
    return self(model), sum([
        o.amount * (model.get_put_value(o.expiry, o.strike) if o.is_put
                    else model.get_call_value(o.expiry, o.strike))
        for o in self._options])


CR = {'self': 'cls:ContingentRateCashFlowPayOff'}


@law(['P15', 'P25'], Y + 'ContingentRateCashFlowPayOff.details',
     attr_types=AT | {'forward_curve': 'cls:ZeroRateCurve'},
     ret_types=RT, types=MODEL | CR,
     cuts=VALUE + ['get_cash_rate', 'OptionPayOffModel.details',
                  'forward_tenor'])
def contingent_value(self, model):
    """floating rate plus floorlet less caplet"""
    yf = self.day_count(self.start, self.end)
    fixing = self.start
    if self.fixing_offset:
        fixing = fixing - self.fixing_offset
    rate = self.fixed_rate + model.forward_curve.get_cash_rate(fixing)
    if self.floor_strike is not None:
        rate += model.get_put_value(fixing, self.floor_strike)
    if self.cap_strike is not None:
        rate -= model.get_call_value(fixing, self.cap_strike)
    return self(model), self.amount * yf * rate


@law('P15', Y + 'ContingentRateCashFlowPayOff.details', attr_types=AT,
     ret_types=RT, types=CR | {'curve': 'cls:ZeroRateCurve'},
     cuts=['day_count', 'get_cash_rate', 'forward_tenor'])
def contingent_curve(self, curve):
    """without a model no option"""
    yf = self.day_count(self.start, self.end)
    fixing = self.start
    if self.fixing_offset:
        fixing = fixing - self.fixing_offset
    return self(curve), self.amount * yf * (
        self.fixed_rate + curve.get_cash_rate(fixing))


# ---------------------------------------------------------- constructors --
@spec(['P15', 'P25'], Y + 'FixedCashFlowPayOff.__init__', ret=False,
      heap='all')
def fixed_init(self, amount):
    self.amount = amount


@spec(['P15', 'P25'], Y + 'RateCashFlowPayOff.__init__', ret=False,
      heap='all')
def rate_init(self, start, end, amount, day_count, fixing_offset,
              fixed_rate):
    self.start = start
    self.end = end
    self.day_count = day_count or default_day_count
    self.fixing_offset = fixing_offset
    self.amount = amount
    self.fixed_rate = fixed_rate


@spec(['P15', 'P25'], Y + 'OptionCashFlowPayOff.__init__', ret=False,
      heap='all')
def option_init(self, expiry, amount, strike, is_put):
    self.expiry = expiry
    self.amount = amount
    self.strike = strike
    self.is_put = is_put


@spec(['P15', 'P25'], Y + 'ContingentRateCashFlowPayOff.__init__',
      ret=False, heap='all')
def contingent_init(self, start, end, amount, day_count, fixing_offset,
                    fixed_rate, floor_strike, cap_strike):
    self.start = start
    self.end = end
    self.day_count = day_count or default_day_count
    self.fixing_offset = fixing_offset
    self.amount = amount
    self.fixed_rate = fixed_rate
    self.floor_strike = floor_strike
    self.cap_strike = cap_strike


@spec('P15', Y + 'OptionStrategyCashFlowPayOff.__init__', ret=False,
      heap='all', types={'call_amount_list': 'list',
                         'put_amount_list': 'list',
                         'call_strike_list': 'list',
                         'put_strike_list': 'list'},
      samelen={'call_amount_list': 'call_strike_list',
               'put_amount_list': 'put_strike_list'})
def strategy_init(self, expiry, call_amount_list, call_strike_list,
                  put_amount_list, put_strike_list):
    options = [OptionCashFlowPayOff(expiry, a, k, True)
               for a, k in zip(put_amount_list, put_strike_list)]
    options += [OptionCashFlowPayOff(expiry, a, k, False)
                for a, k in zip(call_amount_list, call_strike_list)]
    self._options = sorted(options, key=lambda o: o.strike)


@spec('P15', Y + 'OptionStrategyCashFlowPayOff.__init__', ret=False,
      heap='all', tag='numbers', types={
          'call_amount_list': 'num', 'put_amount_list': 'num',
          'call_strike_list': 'list', 'put_strike_list': 'list'})
def strategy_init_number(self, expiry, call_amount_list, call_strike_list,
                         put_amount_list, put_strike_list):
    options = [OptionCashFlowPayOff(expiry, put_amount_list, k, True)
               for k in put_strike_list]
    options += [OptionCashFlowPayOff(expiry, call_amount_list, k, False)
                for k in call_strike_list]
    self._options = sorted(options, key=lambda o: o.strike)


# ------------------------------------------------------------------- legs --
LS = {'payment_date_list': 'list', 'amount_list': 'list'}
ED = {'payment_date_list': 'date', 'domain': 'date', '_domain': 'date',
      'amount_list': 'num'}


@spec(['P16', 'P31'], C + 'CashFlowList.__init__', on='CashFlowList', types=LS,
      elem_types=ED, ret=False, heap='all')
def list_init(self, payment_date_list, amount_list, origin):
    if len(payment_date_list) != len(amount_list):
        raise ValueError
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, amount_list))


@spec('P16', C + 'CashFlowList.__init__', on='CashFlowList',
      types=LS | {'amount_list': 'num'}, elem_types=ED, ret=False,
      heap='all', tag='number')
def list_init_number(self, payment_date_list, amount_list, origin):
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict([(d, amount_list) for d in payment_date_list])


@spec(['P16', 'P31'], C + 'FixedCashFlowList.__init__', types=LS,
      elem_types=ED, ret=False, heap='all')
def fixed_list_init(self, payment_date_list, amount_list, origin):
    if len(payment_date_list) != len(amount_list):
        raise ValueError
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list,
                           [FixedCashFlowPayOff(a) for a in amount_list]))


@spec('P16', C + 'FixedCashFlowList.__init__',
      types=LS | {'amount_list': 'num'}, elem_types=ED, ret=False,
      heap='all', tag='number')
def fixed_list_init_number(self, payment_date_list, amount_list, origin):
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict([(d, FixedCashFlowPayOff(amount_list))
                        for d in payment_date_list])


@spec('P16', C + 'RateCashFlowList.__init__', types=LS | {
    'origin': 'date'}, elem_types=ED, ret=False, heap='all',
    samelen={'amount_list': 'payment_date_list'})
def rate_list_init(self, payment_date_list, amount_list, origin, day_count,
                   fixing_offset, pay_offset, fixed_rate, forward_curve):
    """each period starts where the previous one ends, first at origin"""
    starts = [origin] + list(payment_date_list[:-1])
    flows = list()
    for s, e, a in zip(starts, payment_date_list, amount_list):
        if pay_offset:
            s = s - pay_offset
            e = e - pay_offset
        flows.append(RateCashFlowPayOff(s, e, a, day_count, fixing_offset,
                                        fixed_rate))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.forward_curve = forward_curve


@spec('P16', C + 'RateCashFlowList.__init__', types=LS, elem_types=ED,
      ret=False, heap='all', const={'origin': None}, tag='no origin',
      samelen={'amount_list': 'payment_date_list'})
def rate_list_no_origin(self, payment_date_list, amount_list, origin,
                        day_count, fixing_offset, pay_offset, fixed_rate,
                        forward_curve):
    """first period as long as the second"""
    assert len(payment_date_list) > 1
    step = payment_date_list[1] - payment_date_list[0]
    starts = [payment_date_list[0] - step] + list(payment_date_list[:-1])
    flows = list()
    for s, e, a in zip(starts, payment_date_list, amount_list):
        if pay_offset:
            s = s - pay_offset
            e = e - pay_offset
        flows.append(RateCashFlowPayOff(s, e, a, day_count, fixing_offset,
                                        fixed_rate))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.forward_curve = forward_curve


@spec('P16', G + 'ContingentRateCashFlowList.__init__', types=LS | {
    'origin': 'date'}, elem_types=ED, ret=False, heap='all',
    samelen={'amount_list': 'payment_date_list'})
def contingent_list_init(self, payment_date_list, amount_list, origin,
                         day_count, fixing_offset, pay_offset, fixed_rate,
                         cap_strike, floor_strike, payoff_model):
    starts = [origin] + list(payment_date_list[:-1])
    flows = list()
    for s, e, a in zip(starts, payment_date_list, amount_list):
        if pay_offset:
            s = s - pay_offset
            e = e - pay_offset
        flows.append(ContingentRateCashFlowPayOff(
            s, e, a, day_count, fixing_offset, fixed_rate, floor_strike,
            cap_strike))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.payoff_model = payoff_model


@spec('P16', G + 'ContingentRateCashFlowList.__init__', types=LS,
      elem_types=ED, ret=False, heap='all', const={'origin': None},
      tag='no origin', samelen={'amount_list': 'payment_date_list'})
def contingent_list_no_origin(self, payment_date_list, amount_list, origin,
                              day_count, fixing_offset, pay_offset,
                              fixed_rate, cap_strike, floor_strike,
                              payoff_model):
    assert len(payment_date_list) > 1
    step = payment_date_list[1] - payment_date_list[0]
    starts = [payment_date_list[0] - step] + list(payment_date_list[:-1])
    flows = list()
    for s, e, a in zip(starts, payment_date_list, amount_list):
        if pay_offset:
            s = s - pay_offset
            e = e - pay_offset
        flows.append(ContingentRateCashFlowPayOff(
            s, e, a, day_count, fixing_offset, fixed_rate, floor_strike,
            cap_strike))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.payoff_model = payoff_model


@spec('P16', G + 'OptionCashflowList.__init__', types=LS | {
    'strike_list': 'list', 'is_put_list': 'list'}, elem_types=ED, ret=False,
    heap='all', samelen={'amount_list': 'payment_date_list',
                         'strike_list': 'payment_date_list',
                         'is_put_list': 'payment_date_list'})
def option_list_init(self, payment_date_list, amount_list, strike_list,
                     is_put_list, fixing_offset, pay_offset, origin,
                     payoff_model):
    flows = list()
    for d, a, k, p in zip(payment_date_list, amount_list, strike_list,
                          is_put_list):
        if pay_offset:
            d = d - pay_offset
        if fixing_offset:
            d = d - fixing_offset
        flows.append(OptionCashFlowPayOff(d, a, k, p))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.payoff_model = payoff_model


@spec('P16', G + 'OptionCashflowList.__init__', types=LS | {
    'strike_list': 'num', 'is_put_list': 'bool', 'amount_list': 'num'},
    elem_types=ED, ret=False, heap='all', tag='numbers')
def option_list_numbers(self, payment_date_list, amount_list, strike_list,
                        is_put_list, fixing_offset, pay_offset, origin,
                        payoff_model):
    flows = list()
    for d in payment_date_list:
        if pay_offset:
            d = d - pay_offset
        if fixing_offset:
            d = d - fixing_offset
        flows.append(OptionCashFlowPayOff(d, amount_list, strike_list,
                                          is_put_list))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.payoff_model = payoff_model


@spec(['P16', 'P31'], G + 'OptionStrategyCashflowList.__init__', types=LS | {
    'call_strike_list': 'list', 'put_strike_list': 'list',
    'call_amount_list': 'list', 'put_amount_list': 'list'},
    elem_types=ED, ret=False, heap='all')
def strategy_list_init(self, payment_date_list, call_amount_list,
                       call_strike_list, put_amount_list, put_strike_list,
                       fixing_offset, pay_offset, origin, payoff_model):
    if len(put_strike_list) + len(call_strike_list) > 10:
        raise KeyError
    flows = list()
    for d in payment_date_list:
        if pay_offset:
            d = d - pay_offset
        if fixing_offset:
            d = d - fixing_offset
        flows.append(OptionStrategyCashFlowPayOff(
            d, call_amount_list, call_strike_list, put_amount_list,
            put_strike_list))
    self._origin = origin
    self._domain = tuple(payment_date_list)
    self._flows = dict(zip(payment_date_list, flows))
    self.payoff_model = payoff_model


@spec('P16', C + 'CashFlowList.domain', on=[
    'CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
    'CashFlowLegList', 'OptionCashflowList'])
def list_domain(self):
    return self._domain


@spec('P16', C + 'CashFlowList.origin', on=[
    'CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
    'CashFlowLegList', 'OptionCashflowList'], elem_types=ED, attr_types=AT)
def list_origin(self):
    if self._origin is not None:
        return self._origin
    if self._domain:
        return self._domain[0]
    return None


@spec('P16', C + 'CashFlowList.payoff', on=[
    'CashFlowList', 'FixedCashFlowList', 'RateCashFlowList'],
    types={'date': 'date'})
def list_payoff(self, date):
    return self._flows.get(date, None)


@spec('P16', C + 'CashFlowList.__getitem__', on='FixedCashFlowList',
      types={'item': 'date'})
def item_fixed(self, item):
    """number, pay-off value or zero where nothing is paid"""
    p = self._flows.get(item, 0)
    if isinstance(p, (int, float)):
        return p
    return p(None)


@spec('P16', C + 'CashFlowList.__getitem__', on='RateCashFlowList',
      types={'item': 'date'})
def item_rate(self, item):
    p = self._flows.get(item, 0)
    if isinstance(p, (int, float)):
        return p
    return p(self.forward_curve)


@spec('P16', C + 'CashFlowList.__getitem__', on=[
    'ContingentCashFlowList', 'OptionCashflowList',
    'OptionStrategyCashflowList', 'ContingentRateCashFlowList'],
    types={'item': 'date'})
def item_contingent(self, item):
    p = self._flows.get(item, 0)
    if isinstance(p, (int, float)):
        return p
    return p(self.payoff_model)


@spec('P16', C + 'CashFlowList.__getitem__', on=[
    'FixedCashFlowList', 'RateCashFlowList', 'OptionCashflowList'],
    types={'items': 'list'}, elem_types={'items': 'date'},
    cuts=['__getitem__'], fallback=False, tag='list')
def item_list(self, items):
    return [self[i] for i in items]


@law('P16', C + 'CashFlowList.payoff', types={
    'self': 'cls:CashFlowList', 'dates': 'list'},
    elem_types={'dates': 'date'})
def payoff_list(self, dates):
    return self.payoff(dates), [self._flows.get(d, None) for d in dates]


@spec('P16', C + 'CashFlowList.__call__', on=['FixedCashFlowList'],
      const={'_': None}, elem_types=ED, attr_types=AT,
      cuts=[['domain']])
def evaluated(self, _):
    """evaluating a list keeps dates and origin"""
    flows = list()
    for d in self.domain:
        p = self._flows.get(d, 0)
        flows.append(p if isinstance(p, (int, float)) else p(None))
    return CashFlowList(self.domain, flows, self._origin)


@spec('P17', C + 'CashFlowLegList.__getitem__', types={'item': 'date'},
      attr_types=AT | {'_legs': 'list'},
      elem_types={'_legs': 'cls:CashFlowList'}, cuts=['__getitem__'],
      fallback=False, ret_types={'__getitem__': 'num'})
def legs_item(self, item):
    """sum of the legs paying on that date"""
    return sum([leg[item] for leg in self._legs if item in leg.domain])


@spec('P17', C + 'CashFlowLegList.__getitem__', types={'items': 'list'},
      elem_types={'items': 'date'}, cuts=['__getitem__'], fallback=False,
      tag='list')
def legs_items(self, items):
    return [self[i] for i in items]


@spec('P17', C + 'CashFlowLegList.legs')
def legs(self):
    return list(self._legs)


@spec(['P17', 'P31'], C + 'CashFlowLegList.__init__',
      types={'legs': 'list'}, on='CashFlowLegList', cuts=['origin'],
      heap=['_legs'], ret=False, fallback=False,
      tag='only lists of cashflows are legs')
def legs_refuse(self, legs):
    for leg in legs:
        if not isinstance(leg, (CashFlowList, RateCashFlowList)):
            raise Exception
    self._legs = legs


@spec('P17', C + 'CashFlowLegList.__init__', types={'legs': 'list'},
      elem_types={'legs': 'cls:CashFlowList'}, attr_types=AT, ret=False,
      heap=['_legs', '_domain', '_origin'])
def legs_init(self, legs):
    """dates are the sorted union of the dates of the legs"""
    assert len(legs) > 0
    self._legs = legs
    self._domain = sorted(set().union(*[tuple(leg.domain)
                                        for leg in legs]))
    self._origin = min([leg.origin for leg in legs])




@law('P16', C + 'RateCashFlowList.fixed_rate', attr_types=AT,
     types={'self': 'cls:RateCashFlowList', 'value': 'num', 'd': 'date'},
     elem_types={'_flows': 'cls:RateCashFlowPayOff'})
def set_fixed_rate(self, d, value):
    assert d in self._flows
    self.fixed_rate = value
    return self._flows[d].fixed_rate, value


@law('P16', C + 'RateCashFlowList.fixed_rate', attr_types=AT,
     types={'self': 'cls:RateCashFlowList', 'value': 'num', 'd': 'date'},
     elem_types={'_flows': 'cls:RateCashFlowPayOff'})
def get_fixed_rate(self):
    rates = set([p.fixed_rate for p in self._flows.values()])
    assert len(rates) == 1
    return self.fixed_rate, tuple(
        [p.fixed_rate for p in self._flows.values()])[0]


@law('P17', C + 'CashFlowList.table', attr_types=AT, types={
    'd1': 'date', 'd2': 'date', 'leg': 'cls:FixedCashFlowList',
    'p1': 'cls:FixedCashFlowPayOff', 'p2': 'cls:FixedCashFlowPayOff'},
    elem_types=ED, tag='fixed')
def fixed_table(leg, d1, d2, p1, p2):
    assert d1 < d2
    leg._domain = [d1, d2]
    leg._flows = {d1: p1, d2: p2}
    return leg.table, [('cashflow', 'pay date'), (p1.amount, d1),
                       (p2.amount, d2)]
