"""rating classes and master scales"""
from dcf.ratingclass import RatingClass

Q = 'dcf.ratingclass:RatingClass.'
M = 'dcf.ratingclass:RatingClass.master_scale.'
TM = {'self': 'cls:RatingClass.master_scale', 'a': 'num', 'b': 'num',
      'c': 'num'}
SC = {'self': {'A': 'a', 'B': 'b', 'C': 'c'}}
TR = {'self': 'cls:RatingClass', 'a': 'num', 'b': 'num', 'c': 'num',
      'v': 'num'}
AT = {'_value': 'num', '_masterscale': 'cls:RatingClass.master_scale'}
CO = {'self._masterscale': {'A': 'a', 'B': 'b', 'C': 'c'}}


# ------------------------------------------------------------ master scale --
@law('P22', M + 'items', types=TM, contents=SC)
def scale_order(self, a, b, c):
    """grades and probabilities come in the order of the probabilities,
    whatever the order in which they were given"""
    assert b < a < c
    return (self.keys(), self.values(), self.items()), \
        (['B', 'A', 'C'], [b, a, c], [('B', b), ('A', a), ('C', c)])


@law('P22', M + 'items', types=TM, contents=SC)
def scale_order_down(self, a, b, c):
    assert c < b < a
    return (self.keys(), self.values(), self.items()), \
        (['C', 'B', 'A'], [c, b, a], [('C', c), ('B', b), ('A', a)])


@spec('P22', M + 'get', types={'self': 'cls:RatingClass.master_scale',
                               'k': 'str', 'd': 'any'}, tag='found')
def scale_get(self, k, d):
    if k in self:
        return RatingClass(self[k], self)
    return d


@spec('P22', M + 'rating_classes', types=TM, contents=SC, extra=3)
def scale_classes(self, a, b, c):
    assert a < b < c
    return [RatingClass(a, self), RatingClass(b, self), RatingClass(c, self)]


# ------------------------------------------------------------ rating class --
@spec('P22', Q + '__init__', types={'self': 'cls:RatingClass',
                                    'value': 'num', 'masterscale': 'none'},
      ret=False, heap='all', const={'masterscale': None})
def rating_plain(self, value, masterscale):
    assert isinstance(value, float)
    self._value = value
    self._masterscale = None


@spec(['P22', 'P31'], Q + '__init__', types={
    'self': 'cls:RatingClass', 'value': 'str'}, ret=False, heap='all',
      const={'masterscale': None}, fallback=False, tag='not a number')
def rating_refuse(self, value, masterscale):
    raise Exception


@spec('P22', Q + '__float__', types=TR, attr_types=AT)
def rating_float(self):
    return self._value


@law('P22', Q + '__float__', types=TR, attr_types=AT)
def rating_value(self):
    return (self.value, self.masterscale), (self._value, self._masterscale)


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_lower(self, a, b, c):
    """the two enclosing grades share the probability linearly"""
    v = self._value
    assert a < b < c and a < v < b
    return list(self), [(b - v) / (b - a), (v - a) / (b - a), 0]


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_upper(self, a, b, c):
    v = self._value
    assert a < b < c and b < v < c
    return list(self), [0, (c - v) / (c - b), (v - b) / (c - b)]


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_any_order(self, a, b, c):
    v = self._value
    assert c < a < b and c < v < a
    return list(self), [(a - v) / (a - c), (v - c) / (a - c), 0]


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_at_grade(self, a, b, c):
    assert a < b < c and self._value == b
    return list(self), [0, 1, 0]


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_at_ends(self, a, b, c):
    assert a < b < c and self._value == c
    return list(self), [0, 0, 1]


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_reproduce(self, a, b, c):
    v = self._value
    assert a < b < c and a < v and v < c
    w = list(self)
    return (w[0] + w[1] + w[2], w[0] * a + w[1] * b + w[2] * c), (1, v)


@law('P22', Q + '__str__', types=TR, attr_types=AT, contents=CO, digits=7)
def grade_name(self, a, b, c):
    """a probability of the scale goes by the name of its grade"""
    assert a < b < c and self._value == b
    return (self.name, str(self)), ('B', 'B')


@law('P22', Q + '__str__', types=TR, attr_types=AT, contents=CO, digits=7)
def grade_name_ends(self, a, b, c):
    assert b < c < a and self._value == a
    return str(self), 'A'


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def vector_is_weights(self, a, b, c):
    assert a < b < c and a <= self._value and self._value <= c
    return self.vector, list(self)


@law('P22', M + 'fromkeys', types=TM)
def default_scale(self):
    """without probabilities the grades are spaced by factors of ten up to
    certain default"""
    return RatingClass.master_scale.fromkeys(('A', 'B', 'C', 'D')), \
        RatingClass.master_scale([
            ('A', 1 / 1000), ('B', 1 / 100), ('C', 1 / 10), ('D', 1)])


@law('P22', M + 'fromkeys', types=TM)
def given_scale(self, a):
    assert a > 0
    return RatingClass.master_scale.fromkeys(['A', 'B', 'C'], a), \
        RatingClass.master_scale([('A', a), ('B', a ** (1 / 2)), ('C', 1)])


@spec('P22', Q + '__init__', ret=False, heap='all', types=TM | {
    'self': 'cls:RatingClass', 'masterscale': 'cls:RatingClass.master_scale'
    }, contents={'masterscale': {'A': 'a', 'B': 'b'}}, const={'value': 'B'},
    extra=2, tag='grade')
def rating_of_grade(self, value, masterscale, a, b):
    self._value = b
    self._masterscale = masterscale


@spec('P22', Q + '__init__', ret=False, heap='all', types=TM | {
    'self': 'cls:RatingClass', 'masterscale': 'cls:RatingClass.master_scale',
    'value': 'num'}, contents={'masterscale': {'A': 'a', 'B': 'b'}},
    extra=2, tag='probability')
def rating_of_probability(self, value, masterscale, a, b):
    assert isinstance(value, float)
    self._value = value
    self._masterscale = masterscale


@law('P22', Q + '__iter__', types=TR, attr_types=AT, contents=CO, digits=7)
def weights_at_start(self, a, b, c):
    assert a < b < c and self._value == a
    return list(self), [1, 0, 0]


@spec(['P22', 'P31'], Q + 'vector', types=TR, attr_types=AT, contents=CO,
      digits=7, extra=3)
def outside(self, a, b, c):
    """a probability outside the scale is refused"""
    assert a < b < c and (self._value < a or c < self._value)
    assert not self.SLOPPY
    raise ValueError
