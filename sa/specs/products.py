"""ready-made products and the schedules they are built on"""
from dcf.cashflows.cashflow import (
    CashFlowLegList, FixedCashFlowList, RateCashFlowList)
from dcf.cashflows.products import _interest_payment_dates, bd

Q = 'dcf.cashflows.products:'
NUM = {'start_date': 'num', 'end_date': 'num', 'period': 'num'}
RT = {'_interest_payment_dates': 'list'}
ET = {'_interest_payment_dates': 'date', 'notional_amount': 'num'}


@spec('P24', Q + '_interest_payment_dates', types=NUM, tag='numbers')
def schedule(start_date, end_date, period, convention, holidays):
    """back from the end in whole periods, the first date after start"""
    dates = [end_date]
    n = 1
    while dates[-1] > start_date + period:
        dates.append(end_date - period * n)
        n += 1
    dates.reverse()
    return dates


@spec('P24', Q + 'bond', types=NUM | {'notional_amount': 'num'},
      ret_types=RT, elem_types=ET, cuts=['_interest_payment_dates'],
      fallback=False, tag='bullet')
def bullet(start_date, end_date, period, convention, holidays,
           notional_amount, day_count, fixed_rate, forward_curve,
           fixing_offset, pay_offset):
    """lends the notional at start, gets it back at the end, and interest
    on the notional on each interest date"""
    dates = _interest_payment_dates(start_date, end_date, period,
                                    convention, holidays)
    redemption = FixedCashFlowList(
        (start_date, end_date), (-notional_amount, notional_amount),
        start_date)
    coupons = RateCashFlowList(
        dates, [notional_amount for d in dates], start_date, day_count,
        fixing_offset, pay_offset, fixed_rate, forward_curve)
    return CashFlowLegList([redemption, coupons])


@spec(['P24', 'P31'], Q + 'bond', types=NUM | {'notional_amount': 'list'},
      ret_types=RT, elem_types=ET, cuts=['_interest_payment_dates'],
      fallback=False, tag='plan')
def redeeming(start_date, end_date, period, convention, holidays,
              notional_amount, day_count, fixed_rate, forward_curve,
              fixing_offset, pay_offset):
    """redeems by the plan and pays interest on what is outstanding"""
    dates = _interest_payment_dates(start_date, end_date, period,
                                    convention, holidays)
    if len(notional_amount) != len(dates):
        raise ValueError
    outstanding = sum(notional_amount)
    amounts = []
    left = outstanding
    for a in notional_amount:
        amounts.append(left)
        left = left - a
    redemption = FixedCashFlowList(
        [start_date] + list(dates), [-outstanding] + list(notional_amount),
        start_date)
    coupons = RateCashFlowList(
        dates, amounts, start_date, day_count, fixing_offset, pay_offset,
        fixed_rate, forward_curve)
    return CashFlowLegList([redemption, coupons])


@spec(['P24', 'P31'], Q + 'bond', types={'notional_amount': 'str'},
      ret_types=RT,
      elem_types=ET, cuts=['_interest_payment_dates'], fallback=False,
      tag='neither')
def neither(start_date, end_date, period, convention, holidays,
            notional_amount, day_count, fixed_rate, forward_curve,
            fixing_offset, pay_offset):
    raise ValueError


@spec('P24', Q + 'interest_rate_swap', types=NUM | {
    'notional_amount': 'num', 'rec_leg_period': 'num'}, ret_types=RT,
    elem_types=ET, cuts=['_interest_payment_dates'], fallback=False)
def swap(start_date, end_date, period, convention, holidays,
         notional_amount, day_count, fixed_rate, forward_curve,
         fixing_offset, pay_offset, rec_leg_period, rec_leg_day_count,
         rec_leg_fixed_rate, rec_leg_forward_curve):
    """pays one leg on the notional and receives the other, each with its
    own schedule, rate, curve and day count"""
    dates = _interest_payment_dates(start_date, end_date, period,
                                    convention, holidays)
    pay = RateCashFlowList(
        dates, [-notional_amount for d in dates], start_date, day_count,
        fixing_offset, pay_offset, fixed_rate, forward_curve)
    dates = _interest_payment_dates(start_date, end_date, rec_leg_period,
                                    convention, holidays)
    rec = RateCashFlowList(
        dates, [notional_amount for d in dates], start_date,
        rec_leg_day_count, fixing_offset, pay_offset, rec_leg_fixed_rate,
        rec_leg_forward_curve)
    return CashFlowLegList([pay, rec])


@spec('P24', Q + '_interest_payment_dates', types={
    'start_date': 'date'}, tag='dates')
def business_schedule(start_date, end_date, period, convention, holidays):
    """regular dates rolled back from the end, adjusted, without start"""
    assert bd and isinstance(start_date, bd.BusinessDate)
    first = bd.BusinessDate(start_date)
    last = end_date
    if bd.BusinessPeriod.is_businessperiod(end_date):
        last = first + bd.BusinessPeriod(end_date)
    last = bd.BusinessDate(last)
    dates = bd.BusinessSchedule(first, last, period, last)
    dates.adjust(convention, holidays)
    return dates[1:]


@spec('P24', Q + '_interest_payment_dates', types={
    'start_date': 'date', 'end_date': 'date', 'period': 'period'},
    tag='other dates')
def other_schedule(start_date, end_date, period, convention, holidays):
    """back from the end in whole periods, adjusted where dates can"""
    assert not (bd and isinstance(start_date, bd.BusinessDate))
    dates = [end_date]
    n = 1
    while dates[-1] > start_date + period:
        dates.append(end_date - period * n)
        n += 1
    dates.reverse()
    out = list()
    for d in dates:
        if hasattr(d, 'adjust'):
            d = d.adjust(convention, holidays)
        out.append(d)
    return out
