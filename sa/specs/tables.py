"""tables of curves and the arguments objects report"""
from dcf.curves.curve import rate_table

U = 'dcf.curves.curve:'
CT = {'curve': 'cls:DateCurve', 'x_grid': 'list', 'y_grid': 'list'}
CA = {'domain': 'list', '_domain': 'list', 'origin': 'date'}
CE = {'domain': 'date', 'x_grid': 'date', 'y_grid': 'num'}


@spec('P29', U + 'rate_table', types=CT, attr_types=CA, elem_types=CE,
      cuts=['domain', 'origin', '__call__'], fallback=False)
def rates(curve, x_grid, y_grid):
    """one row per date: the values up to the next date"""
    rows = [('',) + tuple(y_grid)]
    for i, x in enumerate(x_grid):
        if i < len(x_grid) - 1:
            end = x_grid[i + 1]
        else:
            end = x_grid[-1] + y_grid[-1] + y_grid[-1]
        rows.append((x,) + tuple([curve(x + y) for y in y_grid
                                  if x + y < end]))
    return rows


@spec('P29', U + 'rate_table', types=CT, attr_types=CA, elem_types=CE,
      cuts=['domain', 'origin', '__call__'], fallback=False,
      const={'x_grid': None}, tag='nodes')
def rates_at_nodes(curve, x_grid, y_grid):
    """without dates the rows are the origin and the node dates"""
    if curve.origin in curve.domain:
        grid = list(curve.domain)
    else:
        grid = [curve.origin] + list(curve.domain)
    rows = [('',) + tuple(y_grid)]
    for i, x in enumerate(grid):
        if i < len(grid) - 1:
            end = grid[i + 1]
        else:
            end = grid[-1] + y_grid[-1] + y_grid[-1]
        rows.append((x,) + tuple([curve(x + y) for y in y_grid
                                  if x + y < end]))
    return rows


@law('P29', U + 'rate_table', types={'curve': 'cls:Curve'},
     cuts=['__call__'], fallback=False, unroll=4)
def steps_growing(curve):
    """without steps: none, and multiples of each span within the next"""
    return rate_table(curve, [0, 1, 4]), [
        ('', 0, 1, 2), (0, curve(0)), (1, curve(1), curve(2), curve(3)),
        (4, curve(4), curve(5), curve(6))]


@law('P29', U + 'rate_table', types={'curve': 'cls:Curve'},
     cuts=['__call__'], fallback=False, unroll=4)
def steps_even(curve):
    return rate_table(curve, [0, 2, 3, 4]), [
        ('', 0, 1, 2), (0, curve(0), curve(1)), (2, curve(2)),
        (3, curve(3)), (4, curve(4), curve(5), curve(6))]


@law('P29', U + 'rate_table', types={'curve': 'cls:Curve'},
     cuts=['__call__'], fallback=False, unroll=4)
def steps_long(curve):
    """several steps within one span, other ones within the next"""
    return rate_table(curve, [0, 2, 7, 8]), [
        ('', 0, 2, 4, 5), (0, curve(0)), (2, curve(2), curve(4), curve(6)),
        (7, curve(7)), (8, curve(8), curve(10), curve(12), curve(13))]


@spec('P29', U + 'Curve.table', on=['Curve', 'DateCurve', 'ZeroRateCurve',
                                    'SurvivalProbabilityCurve',
                                    'ForwardCurve'],
      cuts=['rate_table'], fallback=False)
def table(self):
    """the table of a curve is its rate table"""
    return rate_table(self)


def named(x):
    return getattr(x, '__name__', x)


def reported(pairs):
    out = {}
    for k, v in pairs:
        if named(v) is not None:
            out[k] = named(v)
    return out


@spec('P30', U + 'Curve.kwargs', on='Curve', attr_types=CA, fallback=False,
      cuts=['__call__'])
def arguments(self):
    """the nodes, the values at the nodes and what else was given"""
    return reported([('domain', self._domain), ('data', self(self.domain)),
                     ('interpolation', self._interpolation)])


@spec('P30', U + 'Curve.kwargs', on='DateCurve', attr_types=CA,
      fallback=False, cuts=['__call__'])
def arguments_dates(self):
    return reported([('domain', self._domain), ('data', self(self.domain)),
                     ('interpolation', self._interpolation),
                     ('origin', self._origin),
                     ('day_count', self._day_count)])


@spec('P30', U + 'Curve.kwargs', on='ForwardCurve', attr_types=CA,
      fallback=False, cuts=['__call__'])
def arguments_forward(self):
    return reported([('domain', self._domain), ('data', self(self.domain)),
                     ('interpolation', self._interpolation),
                     ('origin', self._origin),
                     ('day_count', self._day_count),
                     ('yield_curve', self._yield_curve)])


@spec('P30', U + 'Curve.kwargs', on=[
    'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve',
    'ShortRateCurve', 'SurvivalProbabilityCurve', 'FlatIntensityCurve',
    'HazardRateCurve', 'MarginalSurvivalProbabilityCurve',
    'TerminalVolatilityCurve', 'InstantaneousVolatilityCurve'],
      attr_types=CA, fallback=False, cuts=['__call__'])
def arguments_rates(self):
    return reported([('domain', self._domain), ('data', self(self.domain)),
                     ('interpolation', self._interpolation),
                     ('origin', self._origin),
                     ('day_count', self._day_count),
                     ('forward_tenor', self._forward_tenor)])


@spec('P30', U + 'Curve.__str__', on=['Curve', 'DateCurve'], attr_types=CA,
      fallback=False, cuts=['__call__'])
def short_text(self):
    """name, ends of the nodes and of their values, further arguments"""
    rest = self.kwargs
    rest.pop('data')
    rest.pop('domain')
    parts = []
    if self.domain:
        s, e = self.domain[0], self.domain[-1]
        parts = [f'[{s!r} ... {e!r}]', f'[{self(s)!r} ... {self(e)!r}]']
    for k, v in rest.items():
        parts.append(f'{k!s}={v!r}')
    return type(self).__name__ + '(' + ', '.join(parts) + ')'


@spec('P30', U + 'Curve.__repr__', on=['Curve', 'DateCurve'],
      attr_types=CA, fallback=False, cuts=['__call__'])
def text(self):
    """name and all arguments"""
    s = type(self).__name__
    if not self.domain:
        return s + '()'
    kw = self.kwargs
    parts = [str(kw.pop('domain')), str(kw.pop('data'))]
    for k, v in kw.items():
        parts.append(f'{k!s}={v!r}')
    return s + '(' + (',\n' + ' ' * (len(s) + 1)).join(parts) + ')'


@spec('P30', U + 'Price.value', on='Price', fallback=False)
def price_value(self):
    return float(self._value)


@spec('P30', U + 'Price.__float__', on='Price', fallback=False)
def price_number(self):
    return float(self._value)


@spec('P30', U + 'Price.origin', on='Price', fallback=False)
def price_origin(self):
    return self._origin


LI = {'domain': 'list', 'data': 'list', 'origin': 'date', 'y': 'num',
      'self': 'cls:ForwardCurve'}


@law('P30', U + 'ForwardCurve.__init__', types=LI,
     elem_types={'domain': 'date', 'data': 'num'},
     cuts=['day_count', '__call__'], fallback=False)
def given_forward(self, domain, data, origin, day_count, interpolation, y):
    """what was given is what is reported"""
    assert len(domain) > 0
    assert len(domain) == len(data)
    self.__init__(domain, data, interpolation, origin, day_count, y)
    return (self._yield_curve, self._origin, self._day_count,
            self._interpolation), (y, origin, day_count, interpolation)


@law('P30', U + 'RateCurve.__init__', types=LI | {
    'self': 'cls:ZeroRateCurve'},
     elem_types={'domain': 'date', 'data': 'num'},
     cuts=['day_count', '__call__'], fallback=False)
def given_rates(self, domain, data, origin, day_count, interpolation, y):
    assert len(domain) > 0
    assert len(domain) == len(data)
    self.__init__(domain, data, interpolation, origin, day_count, y)
    return (self._forward_tenor, self._origin, self._day_count,
            self._interpolation), (y, origin, day_count, interpolation)


@spec('P30', U + 'Price.__str__', on='Price', fallback=False)
def price_text(self):
    return f'{type(self).__name__}({self.value:f}; origin={self.origin!r})'


@spec('P30', U + 'Price.__repr__', on='Price', fallback=False)
def price_code(self):
    return f'{type(self).__name__}({self.value:f}; origin={self.origin!r})'
