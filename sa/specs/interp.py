"""interpolation rules and schemes"""
from bisect import bisect_left, bisect_right
from math import exp, log

from dcf.interpolation import base_interpolation, linear, loglinear, \
    loglinearrate, constant, logconstantrate, left, right, nearest, zero, no, \
    interpolation_scheme, _dyn_scheme

I = 'dcf.interpolation:'
ALL = ['base_interpolation', 'left', 'constant', 'right', 'nearest',
       'linear', 'loglinear', 'loglinearrate', 'logconstantrate', 'no',
       'zero']
SAME = {'.y_list': 'x_list'}
LIST = {'x_list': 'list', 'y_list': 'list', 'x': 'num', 'domain': 'list',
        'data': 'list'}


@spec('P11', I + 'base_interpolation._update', types=LIST, heap='all',
      on=ALL, ret=False)
def update(self, x_list, y_list):
    """nodes are kept sorted, new values replace old ones at the same x"""
    assert len(y_list) > 0
    xs = [float(x) for x in x_list]
    ys = [float(y) for y in y_list]
    data = [(x, y) for x, y in zip(self.x_list, self.y_list) if x not in xs]
    data = sorted(data + [(x, y) for x, y in zip(xs, ys)])
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]


@spec('P11', I + 'linear.__call__', types=LIST, samelen=SAME, on='linear')
def linear_call(self, x):
    xs, ys = self.x_list, self.y_list
    if len(ys) == 0:
        raise OverflowError
    if len(ys) == 1:
        return ys[0]
    i = bisect_left(xs, x, 1, len(xs) - 1)
    w = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return (1 - w) * ys[i - 1] + w * ys[i]


@spec('P11', I + 'loglinear.__call__', types=LIST, samelen=SAME,
      on='loglinear',
      tag='exp of the linear interpolation of logs')
def loglinear_call(self, x):
    xs, ys = self.x_list, self.y_list
    if len(ys) == 0:
        raise OverflowError
    if len(ys) == 1:
        return exp(ys[0])
    i = bisect_left(xs, x, 1, len(xs) - 1)
    w = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return exp((1 - w) * ys[i - 1] + w * ys[i])


@spec('P11', I + 'loglinearrate.__call__', types=LIST, samelen=SAME,
      on='loglinearrate')
def loglinearrate_call(self, x):
    xs, ys = self.x_list, self.y_list
    if x == 0:
        return self._y_at_zero
    if len(ys) == 0:
        raise OverflowError
    if len(ys) == 1:
        return exp(x * ys[0])
    i = bisect_left(xs, x, 1, len(xs) - 1)
    w = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return exp(x * ((1 - w) * ys[i - 1] + w * ys[i]))


@spec('P11', I + 'left.__call__', types=LIST, samelen=SAME,
      on=['left', 'constant'])
def left_call(self, x):
    xs, ys = self.x_list, self.y_list
    if len(ys) == 0:
        raise OverflowError
    if x in xs:
        return ys[xs.index(x)]
    return ys[bisect_left(xs, x, 1, len(xs)) - 1]


@spec('P11', I + 'logconstantrate.__call__', types=LIST,
      on='logconstantrate')
def logconstantrate_call(self, x):
    xs, ys = self.x_list, self.y_list
    if x == 0:
        return self._y_at_zero
    if len(ys) == 0:
        raise OverflowError
    if x in xs:
        return exp(-x * ys[xs.index(x)])
    return exp(-x * ys[bisect_left(xs, x, 1, len(xs)) - 1])


@spec('P11', I + 'right.__call__', types=LIST, samelen=SAME, on='right')
def right_call(self, x):
    xs, ys = self.x_list, self.y_list
    if len(ys) == 0:
        raise OverflowError
    if x in xs:
        return ys[xs.index(x)]
    return ys[bisect_right(xs, x, 0, len(xs) - 1)]


@spec('P11', I + 'nearest.__call__', types=LIST, samelen=SAME, on='nearest')
def nearest_call(self, x):
    xs, ys = self.x_list, self.y_list
    if len(ys) == 0:
        raise OverflowError
    if len(ys) == 1:
        return ys[0]
    if x in xs:
        return ys[xs.index(x)]
    i = bisect_left(xs, x, 1, len(xs) - 1)
    if (x - xs[i - 1]) / (xs[i] - xs[i - 1]) <= 0.5:
        return ys[i - 1]
    return ys[i]


@spec('P11', I + 'default_value_interpolation.__call__', types=LIST,
      on=['no', 'zero'])
def default_call(self, x):
    if x in self.x_list:
        return self.y_list[self.x_list.index(x)]
    return self._default


@spec('P11', I + 'zero.__init__', types=LIST, samelen=SAME, on='zero',
      heap='all',
      ret=False)
def zero_init(self, x_list, y_list):
    assert len(y_list) > 0
    assert len(x_list) == len(y_list)
    data = sorted(zip(x_list, y_list))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]
    self._default = 0.0


@spec('P11', I + 'no.__init__', types=LIST, samelen=SAME, on='no', heap='all',
      ret=False)
def no_init(self, x_list, y_list):
    assert len(y_list) > 0
    assert len(x_list) == len(y_list)
    data = sorted(zip(x_list, y_list))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]
    self._default = None


@spec('P11', I + 'zero.__init__', types=LIST, samelen=SAME, on=[
    'zero', 'no', 'left', 'constant', 'right', 'nearest', 'linear'],
    heap=['x_list', 'y_list'], ret=False,
    const={'x_list': [], 'y_list': []}, tag='empty')
def empty_init(self, x_list, y_list):
    self.x_list = []
    self.y_list = []


@spec('P11', I + 'base_interpolation.from_dict', on='linear',
      types={'xy_dict': 'dict'})
def from_dict(cls, xy_dict):
    """the mapping read as nodes"""
    return cls(sorted(xy_dict), [xy_dict[x] for x in sorted(xy_dict)])


@spec('P11', I + 'left.__init__', types=LIST, heap='all', ret=False,
      on=['left', 'constant', 'right', 'nearest', 'linear'])
def plain_init(self, x_list, y_list):
    assert len(y_list) > 0
    assert len(x_list) == len(y_list)
    data = sorted(zip(x_list, y_list))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]


@spec('P11', I + 'loglinear.__init__', types=LIST, heap='all', ret=False,
      on='loglinear')
def loglinear_init(self, x_list, y_list):
    assert len(y_list) > 0
    assert len(x_list) == len(y_list)
    assert all(y > 0 for y in y_list)
    data = sorted(zip(x_list, [log(y) for y in y_list]))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]


@spec(['P11', 'P31'], I + 'loglinear.__init__', types=LIST,
      on=['loglinear', 'loglinearrate', 'logconstantrate'],
      tag='only positive values')
def log_init_positive(self, x_list, y_list):
    assert not all(y > 0 for y in y_list)
    raise ValueError


@spec('P11', I + 'loglinearrate.__init__', types=LIST, heap='all', ret=False,
      on='loglinearrate', samelen={'y_list': 'x_list'})
def loglinearrate_init(self, x_list, y_list):
    assert len(x_list) == len(y_list)
    assert all(y > 0 for y in y_list)
    zs = [x for x in x_list if x == 0]
    self._y_at_zero = y_list[x_list.index(zs[0])] if zs else 1
    ls = [log(y) / x for x, y in zip(x_list, y_list) if x != 0]
    xs = [x for x in x_list if x != 0]
    assert len(ls) > 0
    data = sorted(zip(xs, ls))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]


@spec('P11', I + 'logconstantrate.__init__', types=LIST, heap='all',
      ret=False, on='logconstantrate', samelen={'y_list': 'x_list'})
def logconstantrate_init(self, x_list, y_list):
    assert len(x_list) == len(y_list)
    assert all(y > 0 for y in y_list)
    zs = [x for x in x_list if x == 0]
    self._y_at_zero = y_list[x_list.index(zs[0])] if zs else 1
    ls = [-log(y) / x for x, y in zip(x_list, y_list) if x != 0]
    xs = [x for x in x_list if x != 0]
    assert len(ls) > 0
    data = sorted(zip(xs, ls))
    self.x_list = [x for x, _ in data]
    self.y_list = [y for _, y in data]


@spec('P11', I + 'base_interpolation.__contains__', on=ALL)
def contains(self, item):
    return item in self.x_list


@spec('P11', I + 'flat.__call__', on='flat')
def flat_call(self, x):
    return self.y_list[0]


@spec('P11', I + 'flat.__init__', on='flat', heap='all', ret=False)
def flat_init(self, y):
    self.x_list = [0.0]
    self.y_list = [float(y)]


# --------------------------------------------------------------- schemes --
@spec('P12', I + 'interpolation_scheme.__call__', types=LIST,
      on='interpolation_scheme')
def scheme_call(self, x):
    """left of the domain, right of the domain, in between"""
    if x < self._y_left.x_list[0]:
        return self._y_left(x)
    if x > self._y_right.x_list[-1]:
        return self._y_right(x)
    return self._y_mid(x)


@spec('P12', I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme', heap=['_y_left', '_y_mid', '_y_right'],
      ret=False)
def scheme_init_three(self, domain, data, interpolation):
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) == 3
    assert len(domain) == len(data)
    assert len(domain) == len(set(domain))
    self._y_left = interpolation[0](domain, data)
    self._y_mid = interpolation[1](domain, data)
    self._y_right = interpolation[2](domain, data)


@spec('P12', I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme', heap=['_y_left', '_y_mid', '_y_right'],
      ret=False)
def scheme_init_two(self, domain, data, interpolation):
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) == 2
    assert len(domain) == len(data)
    assert len(domain) == len(set(domain))
    self._y_left = interpolation[1](domain, data)
    self._y_mid = interpolation[0](domain, data)
    self._y_right = interpolation[1](domain, data)


@spec(['P12', 'P31'], I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme')
def scheme_init_checks(self, domain, data, interpolation):
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) == 3
    assert len(domain) != len(data)
    raise Exception


@spec(['P12', 'P31'], I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme')
def scheme_init_unique(self, domain, data, interpolation):
    """a point of the domain given twice is refused"""
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) == 3
    assert len(domain) == len(data)
    assert len(domain) != len(set(domain))
    raise Exception


@spec(['P12', 'P31'], I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme')
def scheme_init_length(self, domain, data, interpolation):
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) > 3
    raise Exception


@spec('P12', I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme', heap=['_y_left', '_y_mid', '_y_right'],
      ret=False)
def scheme_init_one(self, domain, data, interpolation):
    """a single entry replaces the middle scheme only"""
    assert isinstance(interpolation, (tuple, list))
    assert interpolation
    assert len(interpolation) == 1
    assert len(domain) == len(data)
    assert len(domain) == len(set(domain))
    left, mid, right = self._interpolation
    self._y_left = left(domain, data)
    self._y_mid = interpolation[0](domain, data)
    self._y_right = right(domain, data)


@spec('P12', I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme', heap=['_y_left', '_y_mid', '_y_right'],
      ret=False, const={'interpolation': None})
def scheme_init_default(self, domain, data, interpolation):
    """without argument the triple of the class"""
    assert len(domain) == len(data)
    assert len(domain) == len(set(domain))
    left, mid, right = self._interpolation
    self._y_left = left(domain, data)
    self._y_mid = mid(domain, data)
    self._y_right = right(domain, data)


@spec('P12', I + '_dyn_scheme')
def dyn_scheme(left, mid, right):
    """a scheme class for the triple"""
    return type(left.__name__ + '_' + mid.__name__ + '_' + right.__name__,
                (interpolation_scheme,),
                {'_interpolation': (left, mid, right)})


@law('P12', I + '_dyn_scheme')
def scheme_names():
    """the named schemes"""
    from dcf.interpolation import (
        linear_scheme, log_linear_scheme, log_linear_rate_scheme,
        zero_linear_scheme, constant_linear_constant,
        logconstant_loglinear_logconstant,
        logconstantrate_loglinearrate_logconstantrate, zero_linear_constant)
    a = _dyn_scheme(constant, linear, constant)
    b = _dyn_scheme(constant, loglinear, constant)
    c = _dyn_scheme(logconstantrate, loglinearrate, logconstantrate)
    d = _dyn_scheme(zero, linear, constant)
    return (linear_scheme, constant_linear_constant, log_linear_scheme,
            logconstant_loglinear_logconstant, log_linear_rate_scheme,
            logconstantrate_loglinearrate_logconstantrate,
            zero_linear_scheme, zero_linear_constant), \
        (a, a, b, b, c, c, d, d)


@spec('P12', I + 'interpolation_scheme.__init__', types=LIST,
      on='interpolation_scheme', heap=['_y_left', '_y_mid', '_y_right'],
      ret=False)
def scheme_init_class(self, domain, data, interpolation):
    """an interpolation class replaces the middle scheme only"""
    assert interpolation
    assert not isinstance(interpolation, (tuple, list))
    assert issubclass(interpolation, base_interpolation)
    assert len(domain) == len(data)
    assert len(domain) == len(set(domain))
    left, mid, right = self._interpolation
    self._y_left = left(domain, data)
    self._y_mid = interpolation(domain, data)
    self._y_right = right(domain, data)
