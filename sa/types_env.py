import os

DEFAULTS = {
    'elem_types': {'x_list': 'num', 'y_list': 'num', 'fixings': 'num'},
    'attr_types': {'origin': 'date', 'domain': 'list',
                   'forward_tenor': 'period', '_TIME_SHIFT': 'period'},
    'ret_types': {'day_count': 'num', 'details': 'dict',
                  'get_discount_factor': 'num',
                  'get_zero_rate': 'num', 'get_cash_rate': 'num',
                  'get_short_rate': 'num', '_get_compounding_factor': 'num',
                  '_get_compounding_rate': 'num', '_get_short_rate': 'num',
                  '_get_cash_rate': 'num', '__call__': 'num'},
}
_V = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocab.txt')
VOCAB = set(open(_V).read().split()) if os.path.exists(_V) else None

