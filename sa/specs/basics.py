"""compounding, day count, plans"""
from math import exp, log

from dcf.compounding import simple_compounding, simple_rate, \
    continuous_compounding, continuous_rate, periodic_compounding, \
    periodic_rate, annually_compounding, semi_compounding, \
    quarterly_compounding, monthly_compounding, daily_compounding
from dcf.daycount import day_count as default_day_count
from dcf.plans import same, bullet, amortize, annuity, consumer, outstanding
from dcf.daycount import day_count

C = 'dcf.compounding:'


@spec('P06', C + 'simple_compounding')
def simple_c(r, t):
    return 1 / (1 + r * t)


@spec('P06', C + 'simple_rate')
def simple_r(df, t):
    return (1 / df - 1) / t


@spec('P06', C + 'continuous_compounding')
def cont_c(r, t):
    return exp(-r * t)


@spec('P06', C + 'continuous_rate')
def cont_r(df, t):
    return -log(df) / t


@spec('P06', C + 'periodic_compounding')
def per_c(r, t, m):
    return (1 + r / m) ** (-m * t)


@spec('P06', C + 'periodic_rate')
def per_r(df, t, m):
    return (df ** (-1 / (t * m)) - 1) * m


@spec('P06', C + 'annually_compounding')
def ann_c(r, t):
    return (1 + r) ** -t


@spec('P06', C + 'semi_compounding')
def semi_c(r, t):
    return (1 + r / 2) ** (-2 * t)


@spec('P06', C + 'quarterly_compounding')
def quart_c(r, t):
    return (1 + r / 4) ** (-4 * t)


@spec('P06', C + 'monthly_compounding')
def month_c(r, t):
    return (1 + r / 12) ** (-12 * t)


@spec('P06', C + 'daily_compounding')
def day_c(r, t):
    return (1 + r / 365) ** (-365 * t)


@law('P06', C + 'simple_rate')
def simple_inverse(r, t):
    assert t > 0
    assert 1 + r * t > 0
    return simple_rate(simple_compounding(r, t), t), r


@law('P06', C + 'continuous_rate')
def continuous_inverse(r, t):
    assert t > 0
    return continuous_rate(continuous_compounding(r, t), t), r


@law('P06', C + 'periodic_rate')
def periodic_inverse(r, t, m):
    assert t > 0
    assert m > 0
    assert m + r > 0
    return periodic_rate(periodic_compounding(r, t, m), t, m), r


@law('P06', C + 'periodic_compounding')
def periodic_inverse_df(df, t, m):
    assert t > 0
    assert m > 0
    assert df > 0
    return periodic_compounding(periodic_rate(df, t, m), t, m), df


@law('P06', C + 'continuous_compounding')
def continuous_inverse_df(df, t):
    assert t > 0
    assert df > 0
    return continuous_compounding(continuous_rate(df, t), t), df


@law('P06', C + 'simple_compounding')
def simple_inverse_df(df, t):
    assert t > 0
    assert df > 0
    return simple_compounding(simple_rate(df, t), t), df


@law('P06', C + 'simple_compounding')
def zero_time(r, m):
    assert m > 0
    assert r + m > 0
    return [simple_compounding(r, 0), continuous_compounding(r, 0),
            periodic_compounding(r, 0, m)], [1, 1, 1]


@law('P06', C + 'simple_compounding')
def zero_rate(t, m):
    assert m > 0
    return [simple_compounding(0, t), continuous_compounding(0, t),
            periodic_compounding(0, t, m)], [1, 1, 1]


# ------------------------------------------------------------- day count --
D = 'dcf.daycount:'


@spec('P14', D + 'day_count')
def day_count_(start, end):
    if hasattr(start, 'diff_in_days'):
        return start.diff_in_days(end) / 365.25
    diff = end - start
    if hasattr(diff, 'days'):
        return diff.days / 365.25
    return diff


@spec('P14', D + 'day_count', types={'start': 'pydate', 'end': 'pydate'},
      tag='python dates')
def day_count_dates(start, end):
    return (end - start).days / 365.25


@spec('P14', D + 'day_count', types={'start': 'num', 'end': 'num'},
      tag='year fractions')
def day_count_numbers(start, end):
    return end - start


@law('P14', D + 'day_count', types={'start': 'num', 'end': 'num'})
def day_count_sign(start, end):
    return (default_day_count(start, end), default_day_count(start, start)), \
        (-default_day_count(end, start), 0)


# ----------------------------------------------------------------- plans --
Q = 'dcf.plans:'
INT = {'num': 'int', 'amount': 'num', 'fixed_rate': 'num'}


@spec('P21', Q + 'same', types=INT)
def same_(num, amount):
    assert num >= 0
    return [amount for i in range(num)]


@spec('P21', Q + 'bullet', types=INT)
def bullet_(num, amount):
    assert num >= 1
    return [amount if i == num - 1 else 0 for i in range(num)]


@spec('P21', Q + 'amortize', types=INT)
def amortize_(num, amount):
    assert num >= 1
    return [amount / num for i in range(num)]


@spec('P21', Q + 'annuity', types=INT)
def annuity_(num, amount, fixed_rate):
    assert num >= 1
    if fixed_rate == 0:
        return [amount / num for i in range(num)]
    q = 1 + fixed_rate
    return [amount * fixed_rate / (q ** num - 1) * q ** i
            for i in range(num)]


@spec('P21', Q + 'consumer', types=INT)
def consumer_(num, amount, fixed_rate):
    assert num >= 1
    return [amount * (1 + num * fixed_rate) / num for i in range(num)]


@spec('P21', Q + 'outstanding', types=INT | {'plan': 'list'})
def outstanding_(plan, amount, sign):
    assert len(plan) >= 1
    s = 1 if sign else -1
    return [amount + s * sum(plan[:i]) for i in range(len(plan))]


@law('P21', Q + 'amortize', types=INT)
def amortize_redeems(num, amount):
    assert num >= 1
    return sum(amortize(num, amount)), amount


@law('P21', Q + 'bullet', types=INT)
def bullet_redeems(num, amount):
    assert num >= 1
    return sum(bullet(num, amount)), amount


@law('P21', Q + 'outstanding', types=INT)
def outstanding_ends(num, amount):
    """the last period of an amortised loan carries the last instalment"""
    assert num >= 1
    return outstanding(amortize(num, amount), amount)[num - 1], amount / num


@law('P21', Q + 'annuity', types=INT)
def annuity_redeems(num, amount, fixed_rate):
    assert num >= 1
    assert fixed_rate > 0
    return sum(annuity(num, amount, fixed_rate)), amount


@law('P21', Q + 'annuity', types=INT)
def annuity_constant(num, amount, fixed_rate):
    """interest on the outstanding plus redemption is the same every
    period"""
    assert num >= 2
    assert fixed_rate > 0
    a = annuity(num, amount, fixed_rate)
    return a[1] - a[0], fixed_rate * a[0]
