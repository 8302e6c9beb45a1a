"""present value, yields, accrued interest, deltas, fits"""
from dcf.cashflows.cashflow import CashFlowLegList
from dcf.cashflows.payoffs import RateCashFlowPayOff
from dcf.curves.curve import DateCurve
from dcf.curves.interestratecurve import ZeroRateCurve
from dcf.pricer import (get_present_value, get_interest_accrued,
                        _simple_bracketing)

R = 'dcf.pricer:'
AT = {'domain': 'list', 'legs': 'list', 'origin': 'date',
      'start': 'date', 'end': 'date', 'fixed_rate': 'num',
      'payoff_model': 'cls:OptionPayOffModel', 'valuation_date': 'date'}
ED = {'domain': 'date', 'legs': 'cls:CashFlowList'}
RT = {'get_discount_factor': 'num', '__getitem__': 'num',
      'day_count': 'num', 'get_present_value': 'num'}
TY = {'valuation_date': 'date', 'discount_curve': 'cls:ZeroRateCurve',
      'present_value': 'num', 'precision': 'num', 'shift': 'num'}
CUTS = ['get_discount_factor', 'domain', 'origin']


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList'},
      cuts=CUTS, fallback=False)
def pv_fixed(cashflow_list, discount_curve, valuation_date):
    """sum of discounted flows on or after the valuation date"""
    return sum([discount_curve.get_discount_factor(valuation_date, d) *
                cashflow_list[d] for d in cashflow_list.domain
                if d >= valuation_date])


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:RateCashFlowList'},
      cuts=CUTS, fallback=False, tag='rates')
def pv_rate(cashflow_list, discount_curve, valuation_date):
    return sum([discount_curve.get_discount_factor(valuation_date, d) *
                cashflow_list[d] for d in cashflow_list.domain
                if d >= valuation_date])


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList'},
      cuts=CUTS, fallback=False, const={'valuation_date': None},
      tag='origin')
def pv_origin(cashflow_list, discount_curve, valuation_date):
    vd = discount_curve.origin
    return sum([discount_curve.get_discount_factor(vd, d) *
                cashflow_list[d] for d in cashflow_list.domain if d >= vd])


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:OptionCashflowList'},
      cuts=CUTS, fallback=False, tag='options', heap='all')
def pv_option(cashflow_list, discount_curve, valuation_date):
    """flows as of the valuation date"""
    model = cashflow_list.payoff_model
    keep = model.valuation_date
    model.valuation_date = valuation_date
    flows = [(d, cashflow_list[d]) for d in cashflow_list.domain
             if d >= valuation_date]
    model.valuation_date = keep
    return sum([discount_curve.get_discount_factor(valuation_date, d) * a
                for d, a in flows])


@spec('P02', R + 'get_present_value', attr_types=AT | {
    'payoff_model': 'none'}, elem_types=ED,
    ret_types=RT, types=TY | {'cashflow_list': 'cls:OptionCashflowList'},
    cuts=CUTS, fallback=False, tag='no model', heap='all')
def pv_option_no_model(cashflow_list, discount_curve, valuation_date):
    return sum([discount_curve.get_discount_factor(valuation_date, d) *
                cashflow_list[d] for d in cashflow_list.domain
                if d >= valuation_date])


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:CashFlowLegList'},
      cuts=CUTS + ['legs', 'get_present_value'], fallback=False, tag='legs')
def pv_legs(cashflow_list, discount_curve, valuation_date):
    return sum([get_present_value(leg, discount_curve, valuation_date)
                for leg in cashflow_list.legs])


@spec('P02', R + 'get_present_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:CashFlowLegList'},
      cuts=CUTS + ['legs', 'get_present_value'], fallback=False,
      const={'valuation_date': None}, tag='legs origin')
def pv_legs_origin(cashflow_list, discount_curve, valuation_date):
    return sum([get_present_value(leg, discount_curve,
                                  discount_curve.origin)
                for leg in cashflow_list.legs])


# ---------------------------------------------------------------- accrued --
@spec('P05', R + 'get_interest_accrued', attr_types=AT, elem_types=ED,
      ret_types=RT | {'payoff': 'cls:RateCashFlowPayOff'},
      types=TY | {'cashflow_list': 'cls:RateCashFlowList'},
      cuts=CUTS + ['payoff', 'day_count'], fallback=False)
def accrued(cashflow_list, valuation_date):
    """elapsed part of the flows running at the valuation date"""
    out = 0
    for d in cashflow_list.domain:
        p = cashflow_list.payoff(d)
        if d >= valuation_date and p.start < valuation_date:
            out += cashflow_list[d] * (
                1 - p.day_count(valuation_date, p.end) /
                p.day_count(p.start, p.end))
    return out


@spec('P05', R + 'get_interest_accrued', attr_types=AT, elem_types=ED,
      ret_types=RT | {'payoff': 'cls:FixedCashFlowPayOff'},
      types=TY | {'cashflow_list': 'cls:FixedCashFlowList'},
      cuts=CUTS + ['payoff', 'day_count'], fallback=False, tag='no rate')
def accrued_fixed(cashflow_list, valuation_date):
    return 0


@spec('P05', R + 'get_interest_accrued', attr_types=AT, elem_types=ED,
      ret_types=RT | {'payoff': 'cls:ContingentRateCashFlowPayOff'},
      types=TY | {'cashflow_list': 'cls:ContingentRateCashFlowList'},
      cuts=CUTS + ['payoff', 'day_count'], fallback=False, tag='options')
def accrued_contingent(cashflow_list, valuation_date):
    out = 0
    for d in cashflow_list.domain:
        p = cashflow_list.payoff(d)
        if d >= valuation_date and p.start < valuation_date:
            out += cashflow_list[d] * (
                1 - p.day_count(valuation_date, p.end) /
                p.day_count(p.start, p.end))
    return out


@spec('P05', R + 'get_interest_accrued', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:CashFlowLegList'},
      cuts=CUTS + ['legs', 'get_interest_accrued'], fallback=False,
      tag='legs')
def accrued_legs(cashflow_list, valuation_date):
    return sum([get_interest_accrued(leg, valuation_date)
                for leg in cashflow_list.legs])


# ------------------------------------------------------------ bracketing --
@spec('P03', R + '_simple_bracketing', types={
    'a': 'num', 'b': 'num', 'precision': 'num', 'func': 'fn'},
    cuts=['_simple_bracketing'], ret_types={'callable': 'num'},
    fallback=False, tag='stop')
def bracketing_stop(func, a, b, precision):
    """an enclosed root is returned once the interval is small enough"""
    fa, fb = func(a), func(b)
    assert fa <= 0 <= fb or fb <= 0 <= fa
    assert abs(b - a) < precision and abs(fb - fa) < precision
    return a, (a + b) / 2, b


@spec(['P03', 'P31'], R + '_simple_bracketing', types={
    'a': 'num', 'b': 'num', 'precision': 'num', 'func': 'fn'},
    cuts=['_simple_bracketing'], ret_types={'callable': 'num'},
    fallback=False, tag='no root')
def bracketing_reject(func, a, b, precision):
    """an interval without change of sign is rejected"""
    fa, fb = func(a), func(b)
    assert fa > 0 and fb > 0 or fa < 0 and fb < 0
    raise Exception


# ----------------------------------------------------------------- solvers --
@spec('P03', R + 'get_yield_to_maturity', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList',
                                'bounds': 'list'},
      cuts=['_simple_bracketing', 'get_present_value', '__setitem__'],
      fallback=False)
def ytm(cashflow_list, valuation_date, present_value, precision, bounds):
    curve = ZeroRateCurve([valuation_date], [0.0])

    def err(x):
        curve[valuation_date] = x
        return get_present_value(cashflow_list, curve,
                                 valuation_date) - present_value
    return _simple_bracketing(err, bounds[0], bounds[1], precision)[1]


@spec('P03', R + 'get_yield_to_maturity', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList',
                                'bounds': 'list'},
      const={'valuation_date': None}, tag='origin',
      cuts=['_simple_bracketing', 'get_present_value', '__setitem__',
            'origin'], fallback=False)
def ytm_origin(cashflow_list, valuation_date, present_value, precision,
               bounds):
    start = cashflow_list.origin
    curve = ZeroRateCurve([start], [0.0])

    def err(x):
        curve[start] = x
        return get_present_value(cashflow_list, curve,
                                 start) - present_value
    return _simple_bracketing(err, bounds[0], bounds[1], precision)[1]


@spec('P03', R + 'get_fair_rate', attr_types=AT, elem_types=ED | {
    'payoff()': 'cls:RateCashFlowPayOff'}, ret_types=RT | {
        'payoff': 'list'}, types=TY | {
    'cashflow_list': 'cls:RateCashFlowList', 'bounds': 'list'},
      cuts=['_simple_bracketing', 'get_present_value', 'payoff',
            'domain', 'fixed_rate'], fallback=False)
def fair_rate(cashflow_list, discount_curve, valuation_date, present_value,
              precision, bounds):
    def err(x):
        cashflow_list.fixed_rate = x
        return get_present_value(cashflow_list, discount_curve,
                                 valuation_date) - present_value
    return _simple_bracketing(err, bounds[0], bounds[1], precision)[1]


CV = {'d1': 'cls:ZeroRateCurve', 'd2': 'cls:ZeroRateCurve',
      'd': 'cls:ZeroRateCurve', 'leg': 'cls:FixedCashFlowList',
      'curve': 'cls:ZeroRateCurve', 'date': 'date', 'g0': 'date',
      'g1': 'date', 'g2': 'date', 'g3': 'date', 'g4': 'date',
      'h': 'num'}
PV = ['get_present_value', 'spread', 'origin', 'domain']


@spec('P04', R + 'get_basis_point_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList'},
      const={'delta_curve': None}, cuts=PV, fallback=False)
def bpv(cashflow_list, discount_curve, valuation_date, delta_curve, shift):
    pv = get_present_value(cashflow_list, discount_curve, valuation_date)
    discount_curve.spread = DateCurve([discount_curve.origin], [shift])
    up = get_present_value(cashflow_list, discount_curve, valuation_date)
    discount_curve.spread = None
    return (up - pv) / shift * 0.0001


@spec('P04', R + 'get_basis_point_value', attr_types=AT, elem_types=ED,
      ret_types=RT, types=TY | {'cashflow_list': 'cls:FixedCashFlowList',
                                'delta_curve': 'cls:ZeroRateCurve'},
      cuts=PV, fallback=False, tag='delta curve')
def bpv_delta(cashflow_list, discount_curve, valuation_date, delta_curve,
              shift):
    pv = get_present_value(cashflow_list, discount_curve, valuation_date)
    delta_curve.spread = DateCurve([delta_curve.origin], [shift])
    up = get_present_value(cashflow_list, discount_curve, valuation_date)
    delta_curve.spread = None
    return (up - pv) / shift * 0.0001


@law('P04', R + 'get_basis_point_value', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def bpv_two(leg, curve, date, d1, d2, h):
    """all delta curves are shifted at once"""
    from dcf.pricer import get_basis_point_value
    d1.spread = None
    d2.spread = None
    x = get_basis_point_value(leg, curve, date, (d1, d2), h)
    pv = get_present_value(leg, curve, date)
    d1.spread = DateCurve([d1.origin], [h])
    d2.spread = DateCurve([d2.origin], [h])
    up = get_present_value(leg, curve, date)
    d1.spread = None
    d2.spread = None
    return x, (up - pv) / h * 0.0001


def bump(leg, curve, date, d, grid, shifts, h):
    pv = get_present_value(leg, curve, date)
    d.spread = DateCurve(grid, shifts)
    up = get_present_value(leg, curve, date)
    d.spread = None
    return (up - pv) / h * 0.0001


@law('P04', R + 'get_bucketed_delta', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def buckets_one(leg, curve, date, d, g0, h):
    from dcf.pricer import get_bucketed_delta
    d.spread = None
    x = get_bucketed_delta(leg, curve, date, d, [g0], h)
    return x, [bump(leg, curve, date, d, [g0], [h], h)]


@law('P04', R + 'get_bucketed_delta', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def buckets_two(leg, curve, date, d, g0, g1, h):
    from dcf.pricer import get_bucketed_delta
    d.spread = None
    x = get_bucketed_delta(leg, curve, date, d, [g0, g1], h)
    return x, [bump(leg, curve, date, d, [g0, g1], [h, 0], h),
               bump(leg, curve, date, d, [g0, g1], [0, h], h)]


@law('P04', R + 'get_bucketed_delta', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def buckets_three(leg, curve, date, d, g0, g1, g2, h):
    from dcf.pricer import get_bucketed_delta
    d.spread = None
    x = get_bucketed_delta(leg, curve, date, d, [g0, g1, g2], h)
    return x, [bump(leg, curve, date, d, [g0, g1], [h, 0], h),
               bump(leg, curve, date, d, [g0, g1, g2], [0, h, 0], h),
               bump(leg, curve, date, d, [g1, g2], [0, h], h)]


@law('P04', R + 'get_bucketed_delta', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def buckets_five(leg, curve, date, d, g0, g1, g2, g3, g4, h):
    from dcf.pricer import get_bucketed_delta
    d.spread = None
    x = get_bucketed_delta(leg, curve, date, d, [g0, g1, g2, g3, g4], h)
    return x, [bump(leg, curve, date, d, [g0, g1], [h, 0], h),
               bump(leg, curve, date, d, [g0, g1, g2], [0, h, 0], h),
               bump(leg, curve, date, d, [g1, g2, g3], [0, h, 0], h),
               bump(leg, curve, date, d, [g2, g3, g4], [0, h, 0], h),
               bump(leg, curve, date, d, [g3, g4], [0, h], h)]


@law('P04', R + 'get_bucketed_delta', attr_types=AT, elem_types=ED,
     ret_types=RT, types=CV, cuts=PV, fallback=False)
def buckets_two_curves(leg, curve, date, d1, d2, g0, h):
    """all delta curves are bumped at once"""
    from dcf.pricer import get_bucketed_delta
    d1.spread = None
    d2.spread = None
    x = get_bucketed_delta(leg, curve, date, [d1, d2], [g0], h)
    pv = get_present_value(leg, curve, date)
    d1.spread = DateCurve([g0], [h])
    d2.spread = DateCurve([g0], [h])
    up = get_present_value(leg, curve, date)
    d1.spread = None
    d2.spread = None
    return x, [(up - pv) / h * 0.0001]


@spec('P03', R + '_simple_bracketing', types={
    'a': 'num', 'b': 'num', 'precision': 'num', 'func': 'fn'},
    cuts=['_simple_bracketing'], ret_types={'callable': 'num'},
    fallback=False, tag='halve', alt='flip')
def bracketing_step(func, a, b, precision):
    """the half that keeps the change of sign is searched"""
    fa, fb = func(a), func(b)
    m = (a + b) / 2
    assert fa < 0 < fb or fb < 0 < fa
    assert func(m) != 0
    assert abs(b - a) >= precision or abs(fb - fa) >= precision
    if fa < fb:
        if func(m) < 0:
            return _simple_bracketing(func, m, b, precision)
        return _simple_bracketing(func, a, m, precision)
    if func(m) > 0:
        return _simple_bracketing(lambda x: -func(x), m, b, precision)
    return _simple_bracketing(lambda x: -func(x), a, m, precision)


@spec('P03', R + '_simple_bracketing', types={
    'a': 'num', 'b': 'num', 'precision': 'num', 'func': 'fn'},
    cuts=['_simple_bracketing'], ret_types={'callable': 'num'},
    fallback=False, tag='halve keep', alt='flip')
def bracketing_step_keep(func, a, b, precision):
    fa, fb = func(a), func(b)
    m = (a + b) / 2
    assert fa < 0 < fb or fb < 0 < fa
    assert func(m) != 0
    assert abs(b - a) >= precision or abs(fb - fa) >= precision
    if fa < 0 and func(m) < 0 or fa > 0 and func(m) > 0:
        return _simple_bracketing(func, m, b, precision)
    return _simple_bracketing(func, a, m, precision)


# ---------------------------------------------------------------- fitting --
FIT = {'cashflow_list': 'list', 'fitting_curve': 'cls:ZeroRateCurve',
       'fitting_grid': 'list', 'bounds': 'list'}
FC = ['_simple_bracketing', 'get_present_value', 'spread', 'origin',
      'domain', '__setitem__', '__call__']


@spec('P03', R + 'get_curve_fit', attr_types=AT, elem_types=ED | {
    'cashflow_list': 'cls:FixedCashFlowList'}, ret_types=RT,
      types=TY | FIT | {'present_value': 'list'}, cuts=FC, fallback=False,
      unroll=2)
def fit(cashflow_list, discount_curve, valuation_date, fitting_curve,
        fitting_grid, present_value, precision, bounds):
    """date by date, the spread at which the products maturing up to the date
    are worth their prices in sum"""
    fitting_curve.spread = fitting_curve.__class__(fitting_grid,
                                                   fitting_curve)
    dates = fitting_curve.spread.domain
    for d in dates:
        fitting_curve.spread[d] = 0.0
    for d in dates:
        def err(y):
            fitting_curve.spread[d] = y
            return sum([get_present_value(p, discount_curve,
                                          valuation_date) - v
                        for p, v in zip(cashflow_list, present_value)
                        if d >= max(p.domain)])
        _simple_bracketing(err, bounds[0], bounds[1], precision)
    y = fitting_curve(dates)
    fitting_curve.spread = None
    return y


@spec('P03', R + 'get_curve_fit', attr_types=AT, elem_types=ED | {
    'cashflow_list': 'cls:FixedCashFlowList'}, ret_types=RT,
      types=TY | FIT, cuts=FC, fallback=False, unroll=2, tag='one price')
def fit_price(cashflow_list, discount_curve, valuation_date, fitting_curve,
              fitting_grid, present_value, precision, bounds):
    """one price for all products"""
    fitting_curve.spread = fitting_curve.__class__(fitting_grid,
                                                   fitting_curve)
    dates = fitting_curve.spread.domain
    for d in dates:
        fitting_curve.spread[d] = 0.0
    for d in dates:
        def err(y):
            fitting_curve.spread[d] = y
            return sum([get_present_value(p, discount_curve,
                                          valuation_date) - present_value
                        for p in cashflow_list if d >= max(p.domain)])
        _simple_bracketing(err, bounds[0], bounds[1], precision)
    y = fitting_curve(dates)
    fitting_curve.spread = None
    return y


@spec('P03', R + 'get_curve_fit', attr_types=AT, elem_types=ED | {
    'cashflow_list': 'cls:FixedCashFlowList'}, ret_types=RT,
      types=TY | FIT | {'present_value': 'list'}, cuts=FC, fallback=False,
      unroll=2, const={'fitting_curve': None, 'fitting_grid': None},
      tag='defaults')
def fit_default(cashflow_list, discount_curve, valuation_date, fitting_curve,
                fitting_grid, present_value, precision, bounds):
    """the discount curve is fitted on its own dates"""
    curve = discount_curve
    curve.spread = curve.__class__(curve.domain, curve)
    dates = curve.spread.domain
    for d in dates:
        curve.spread[d] = 0.0
    for d in dates:
        def err(y):
            curve.spread[d] = y
            return sum([get_present_value(p, curve, valuation_date) - v
                        for p, v in zip(cashflow_list, present_value)
                        if d >= max(p.domain)])
        _simple_bracketing(err, bounds[0], bounds[1], precision)
    y = curve(dates)
    curve.spread = None
    return y
