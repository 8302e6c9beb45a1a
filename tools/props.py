"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN, CF, HI, FA, PR = 'inputs', 'configurations', 'histories', \
    'fault_sequences', 'programs'

VG = 'algebraic value numbering of gated value graphs against specifications'
P = []


def p(id, title, statement, over, text, why, files, mech, tech=VG, note='',
      observe=(), claim=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note, observe=list(observe), claim=claim,
                  reason=reason))


M = lambda *a: [{'name': n, 'where': w} for n, w in a]      # noqa: E731

p('P01', 'Valuation leaves its inputs as it found them',
  'Every pricing, yield, delta and fitting function returns with the '
  'cash-flow lists, curves and option models it was given unchanged: fixed '
  'rates, spreads, valuation dates, nodes and default settings read the same '
  'before and after the call. This also holds when the computation raises at '
  'any point inside the call. Reading operations (evaluating a curve, a '
  'cash flow, an option model or a table) change nothing that a later call '
  'could observe.',
  [IN, FA, HI], 'every argument and every point at which a nested evaluation '
  'may raise',
  'Tests call the functions on healthy inputs and look at the result only; '
  'the exits through exceptions are never taken.',
  ['dcf/pricer.py', 'dcf/cashflows', 'dcf/curves', 'dcf/models'],
  M(('try/finally restore', 'dcf/pricer.py:get_present_value'),
    ('fixed rates restored', 'dcf/pricer.py:get_fair_rate'),
    ('spread reset', 'dcf/pricer.py:get_basis_point_value'),
    ('fit reset', 'dcf/pricer.py:get_curve_fit')),
  'typestate over all exits (normal and exceptional) and interprocedural '
  'effect analysis')

p('P02', 'Present value is the discounted sum of the flows still to come',
  'The present value of a cash-flow list is the sum, over its pay dates on '
  'or after the valuation date, of the flow times the discount factor from '
  'the valuation date to the pay date. Dates before the valuation date '
  'contribute nothing, a list of legs is worth the sum of its legs, and a '
  'missing valuation date means the origin of the discount curve. Flows of '
  'an option pay-off are valued as of the same valuation date.',
  [IN, CF], 'every cash-flow list, curve and valuation date',
  'Tests value a few products at one or two dates.',
  ['dcf/pricer.py'],
  M(('filtered pay dates and sum', 'dcf/pricer.py:get_present_value')),
  observe=['dcf.get_present_value'])

p('P03', 'Yields, fair rates and curve fits solve the equation they state',
  'Yield to maturity, fair rate and curve fit look for the value at which '
  'the present value, re-evaluated with exactly that trial value (flat zero '
  'rate, fixed rate of every flow, or spread at the fitted date), equals the '
  'given target. The bracketing search keeps a sign change inside the '
  'interval, halves it each step, stops only below the given precision, and '
  'rejects bounds that do not enclose a root.',
  [IN, CF], 'every product, curve, target, bounds and precision',
  'Tests check a few round numbers at the default precision; bounds, '
  'decreasing functions and targets different from zero are hardly sampled.',
  ['dcf/pricer.py'],
  M(('bracketing', 'dcf/pricer.py:_simple_bracketing'),
    ('error functions', 'dcf/pricer.py:get_yield_to_maturity, '
     'get_fair_rate, get_curve_fit')),
  note='the equation and one step of the search; number of steps and '
  'accuracy of the root are not decided')

p('P04', 'Basis point value and bucketed delta are scaled bumped differences',
  'The basis point value is the change of the present value under a parallel '
  'shift of the delta curve(s), divided by the shift and multiplied by one '
  'basis point. A bucketed delta has one entry per grid date, bumping only '
  'that date (flat beyond the ends, falling to zero at the neighbouring grid '
  'dates), on all delta curves at once, with the same scaling. If no grid is '
  'given the dates of the first delta curve are used.',
  [IN, CF], 'every product, curve, delta curve, grid and shift size',
  'Tests use one shift size and grids with three or more dates.',
  ['dcf/pricer.py'],
  M(('parallel bump', 'dcf/pricer.py:get_basis_point_value'),
    ('bump grids', 'dcf/pricer.py:get_bucketed_delta')))

p('P05', 'Accrued interest is the elapsed part of the running coupons',
  'Accrued interest is the sum, over interest flows not yet paid whose '
  'accrual has started before the valuation date, of the flow times the part '
  'of its accrual period already elapsed in its own day count. Flows that '
  'are not interest, already paid or not yet started contribute nothing; a '
  'list of legs accrues the sum of its legs.',
  [IN], 'every leg and valuation date', 'Tests look at one leg at few dates.',
  ['dcf/pricer.py'],
  M(('accrual', 'dcf/pricer.py:get_interest_accrued')))

p('P06', 'Compounding factors and rates are exact inverse pairs',
  'Simple, continuous, periodic, annual, semi-annual, quarterly, monthly and '
  'daily compounding return the discount factor of the textbook formula for '
  'the given rate and year fraction. Each rate function is the inverse of '
  'its factor function: rate(factor(r, t), t) = r and factor(rate(d, t), t) '
  '= d.', [IN], 'every rate, factor, period and frequency',
  'Tests check a few values with a tolerance.',
  ['dcf/compounding.py'],
  M(('formulas', 'dcf/compounding.py')), note='over exact reals')

p('P07', 'Zero, short, cash rates and discount factors agree on every curve',
  'On every interest rate curve the discount factor over a span is '
  'exp(-zero rate times year fraction), the cash rate is the simple rate '
  'that reproduces the discount factor over its tenor (the forward tenor '
  'of the curve unless given), and the short rate is the derivative over '
  'the node interval. On zero rate and discount factor curves the discount '
  'factor between two dates is the ratio of those from the origin; short '
  'rate curves integrate their rate piecewise over the nodes, cash rate '
  'curves roll tenor by tenor. The swap annuity sums year fraction times '
  'discount factor over consecutive dates. A zero-length span has discount '
  'factor one; a missing stop means from the origin to the date.',
  [IN, CF], 'every curve type, date pair, tenor and node set',
  'Tests compare a few curves on a few dates to rounded numbers.',
  ['dcf/curves/interestratecurve.py', 'dcf/curves/curve.py'],
  M(('conversions', 'dcf/curves/interestratecurve.py'),
    ('compounding', 'dcf/curves/curve.py:RateCurve')))

p('P08', 'Converting a curve keeps what it says, where it says it and how',
  'A curve built from another curve of the same family has at every node '
  'date of the new curve the value the other curve implies in the new '
  "curve's own quantity (zero rate, discount factor, cash rate, intensity, "
  'survival probability, hazard rate, volatility); short, cash and hazard '
  'rate types add the nodes needed to end on the last date. Origin, day '
  'count and forward tenor are taken from the other curve unless given '
  'explicitly; a copy within one type and a change of domain also keep the '
  'interpolation. The curve read back in its own quantity returns the '
  'stored nodes.',
  [IN, CF], 'every pair of curve types, domain and origin',
  'Tests cast a few pairs with equal origin and day count.',
  ['dcf/curves'],
  M(('storage values', 'dcf/curves/*:_get_storage_value'),
    ('constructors', 'dcf/curves/curve.py:__init__')))

p('P09', 'Survival, intensity, hazard and marginal probabilities agree',
  'On every credit curve the survival probability over a span is the '
  'exponential of minus the flat intensity times the year fraction; on '
  'survival, default and flat intensity curves it is also the ratio of the '
  'survival probabilities from the origin. Marginal survival and default '
  'probabilities are over the forward tenor and add up to one, as do '
  'survival and default curves; hazard rates integrate piecewise over the '
  'nodes to the intensity, and marginal curves roll tenor by tenor. A '
  'zero-length span survives with probability one.',
  [IN, CF], 'every credit curve type, date pair, node set and tenor',
  'Tests compare rounded numbers on few dates.',
  ['dcf/curves/creditcurve.py'],
  M(('conversions', 'dcf/curves/creditcurve.py')))

p('P10', 'Volatility curves give one volatility for each pair of dates',
  'The volatility a curve reports for a pair of dates comes from its own '
  'stored quantity: a terminal curve reports its interpolated terminal '
  'volatility and derives the forward volatility from the difference of '
  'total variances, an instantaneous curve averages its volatility piecewise '
  'over its nodes. A missing start means the origin; a missing stop means '
  'from the origin to the single date.',
  [IN], 'every node set and pair of dates', 'Tests use flat curves.',
  ['dcf/curves/volatilitycurve.py'],
  M(('terminal volatility', 'dcf/curves/volatilitycurve.py')))

p('P11', 'Interpolation hits its nodes and uses the right neighbours',
  'Every interpolation scheme returns the given value at every node, and '
  'between or beyond nodes the value its name states (left, right, nearest, '
  'zero, constant, linear, log-linear, log-rate variants) from the two '
  'nodes enclosing the point. Unordered input is ordered first. Points '
  'outside the nodes follow the stated extrapolation.',
  [IN], 'every node set, any order, and every point',
  'Tests evaluate a few points on one or two node sets.',
  ['dcf/interpolation.py'],
  M(('schemes', 'dcf/interpolation.py')), note='over exact reals')

p('P12', 'Combined interpolation dispatches left, middle and right correctly',
  'A combined scheme uses its middle scheme between the first and last node '
  'inclusive, its left scheme before the first and its right scheme after '
  'the last node, all built on the same nodes. A curve finds its scheme by '
  'registered name, by name in the interpolation module, or as the given '
  'callable, and falls back to the default of its class.',
  [IN, CF], 'every scheme triple, node set and point',
  'Tests build one combination.', ['dcf/interpolation.py',
                                   'dcf/curves/curve.py'],
  M(('dispatch', 'dcf/interpolation.py:interpolation_scheme'),
    ('lookup', 'dcf/curves/curve.py:Curve._update')))

p('P13', 'A curve is a faithful container of its nodes',
  'A curve evaluates its nodes sorted by domain, with each value staying '
  'with its own domain point; membership, iteration, item access and item '
  'assignment speak about the same nodes, and assigning one node keeps all '
  'others. Arithmetic between curves is pointwise on the union of both '
  'domains; evaluating a list evaluates each point. On date curves a '
  'fixing wins over interpolation and rate curves add their spread. Date '
  'curves order their nodes by date and keep a list of their own, so '
  'changing the list passed in does not change the curve; a missing origin '
  'is the first date.',
  [IN, HI], 'every node set, in any order, and every operation sequence',
  'Tests use ordered nodes and few operations.',
  ['dcf/curves/curve.py'],
  M(('nodes', 'dcf/curves/curve.py:Curve'),
    ('dates', 'dcf/curves/curve.py:DateCurve')))

p('P14', 'The default year fraction counts days over 365.25',
  'The default day count between two dates is the number of days between '
  'them divided by 365.25, honours dates that bring their own difference in '
  'days, is zero for equal dates and changes sign when the dates swap.',
  [IN], 'every pair of dates', 'Tests sample some dates.',
  ['dcf/daycount.py'], M(('day count', 'dcf/daycount.py')))

p('P15', 'Pay-offs return amount times their contract formula',
  'A fixed pay-off returns its amount. An interest pay-off returns amount '
  'times year fraction times the sum of fixed rate and, when floating, the '
  'forward rate at its fixing date. Option, strategy and contingent rate '
  'pay-offs return amount times the option or capped/floored rate their '
  'strikes state, as given by their model.',
  [IN, CF], 'every pay-off, model and forward curve',
  'Tests look at single examples per pay-off.',
  ['dcf/cashflows/payoffs.py'],
  M(('pay-offs', 'dcf/cashflows/payoffs.py')))

p('P16', 'Cash-flow legs pay the right amount on the right date',
  'A leg built from dates and amounts has one flow per payment date, each '
  'with its own amount, start, end and fixing dates taken from the given '
  'schedule; a single amount is used for every date, and without an origin '
  'the first period is as long as the second. A leg evaluates its '
  'pay-off of that date and zero where nothing is paid. Setting fixed rate, '
  'forward curve or model reaches every flow of the leg.',
  [IN, CF], 'every schedule, amount list and setting',
  'Tests build legs from a few regular schedules.',
  ['dcf/cashflows/cashflow.py', 'dcf/cashflows/contingent.py'],
  M(('legs', 'dcf/cashflows/cashflow.py')))

p('P17', 'A list of legs is the union of its legs, and tables show the flows',
  'The dates of a list of legs are the sorted union of the dates of its '
  'legs, and its flow on a date is the sum of the flows of all legs paying '
  'that date. The table of a cash-flow list has one row per pay date showing '
  'the same values the list evaluates to.',
  [IN], 'every set of legs with overlapping or distinct dates',
  'Tests add few legs with equal dates.',
  ['dcf/cashflows/cashflow.py'],
  M(('legs', 'dcf/cashflows/cashflow.py:CashFlowLegList')))

p('P18', 'Option values are the textbook prices of their model',
  'Call values are the Bachelier, Black-76, displaced Black-76, digital and '
  'intrinsic prices of forward, strike, volatility and time to expiry, for '
  'positive time and volatility; forward, volatility and year fraction come '
  "from the model's own curves and day count. Put values follow from "
  'put-call parity and at zero time or volatility the price is the '
  'intrinsic value.',
  [IN, CF], 'every forward, strike, volatility, date and model',
  'Tests sample a grid with tolerance.',
  ['dcf/models'], M(('formulas', 'dcf/models')),
  note='normal cdf and density are taken as given functions')

p('P19', 'Option greeks are derivatives of the option value',
  'Delta, gamma, vega and theta of a model are the partial derivatives of '
  'its value in forward, forward twice, volatility and valuation date, for '
  'calls and puts, in the scale the model states. Numerical greeks are the '
  'difference quotients of the value at bumped inputs and leave the model '
  'as it was.',
  [IN, CF], 'every forward, strike, volatility, date and model',
  'Tests compare finite differences on a grid with tolerance.',
  ['dcf/models'], M(('greeks', 'dcf/models')),
  'value graphs with symbolic differentiation of the value formula')

p('P20', 'Displaced models are shifted copies of their inner model',
  'A displaced model returns for every value and greek what its inner model '
  'returns with forward and strike shifted by the displacement, on the same '
  'valuation date, volatility and day count. Without displacement it is the '
  'inner model.',
  [IN, CF], 'every inner model, displacement and argument',
  'Tests check one displacement.',
  ['dcf/models/displaced.py'],
  M(('displacement', 'dcf/models/displaced.py')))

p('P21', 'Amortisation plans repay exactly the notional',
  'Every plan has as many entries as periods requested, and outstanding '
  'amounts start at the notional and fall by the redemption of each period. '
  'Same, bullet, amortise, annuity and consumer plans follow their formulas '
  '(also at a zero rate), and the redemptions add up to the notional.',
  [IN], 'every number of periods, amount and rate',
  'Tests check few lengths.',
  ['dcf/plans.py'], M(('plans', 'dcf/plans.py')))

p('P22', 'Rating classes blend neighbouring master-scale grades consistently',
  'A rating class reports the default probability it was given, and the '
  'grades and weights it shows are the two master-scale grades enclosing '
  'that probability with weights that add up to one and reproduce it, in '
  'the order of the probabilities of the scale. A master scale maps each '
  'grade to its probability; without one a rating class has only its value.',
  [IN], 'every master scale and probability', 'Tests use one scale.',
  ['dcf/ratingclass.py'], M(('ratings', 'dcf/ratingclass.py')))

p('P23', 'Foreign exchange forwards keep cross-currency consistency',
  'The forward rate beyond the last node is the last price times the ratio '
  'of the two discount factors, and within the nodes the interpolated '
  'price. A container of currencies returns for each pair a curve whose '
  'spot is the cross of the spots to the base currency and whose discount '
  'curves are those of the pair, domestic and foreign in the order asked '
  'for; the opposite pair is the reciprocal, and the base currency against '
  'itself is one.',
  [IN, CF], 'every pair of currencies, curve and date',
  'Tests build one container.',
  ['dcf/curves/fx.py'], M(('fx', 'dcf/curves/fx.py')))

p('P24', 'Products assemble the legs their terms state',
  'Each ready-made product (bond, loan repaid by a redemption plan, interest '
  'rate swap) consists of the interest and redemption legs with dates, amounts, signs, rates and forward curves implied by its '
  'terms. Generated schedules begin and end at the given dates and step by '
  'the given period counted back from the end, so that only the first '
  'period may be short.',
  [IN, CF], 'every product and its terms', 'Tests use one set of terms.',
  ['dcf/cashflows/products.py', 'dcf/cashflows/contingent.py'],
  M(('products', 'dcf/cashflows/products.py')))

p('P25', 'A zero is a value, not an absence',
  'Passing or storing a zero rate, amount, strike, spread, forward, '
  'volatility, shift or date of number zero means that zero: no function '
  'replaces it with a default, skips its flow or takes another branch than '
  'for a neighbouring tiny value where the result is continuous. Only a '
  'missing argument selects the default.',
  [IN], 'every optional numeric argument set to zero',
  'Tests hardly ever pass a zero.',
  ['dcf'], M(('is None tests', 'dcf/*')),
  'type-informed truthiness lint over the syntax tree')

p('P26', 'Equal inputs give equal results',
  'Results depend on the values of the arguments and not on which object '
  'holds them: two equal dates, numbers or strings are never told apart by '
  'identity, hash or memory address.',
  [IN, HI], 'every pair of equal but distinct objects',
  'Literals in tests are shared objects.',
  ['dcf'], M(('comparison by value', 'dcf/*')),
  'identity-comparison lint with operand classes')

p('P27', 'Objects are independent of each other and of earlier calls',
  'Two objects never share mutable state by accident: no default argument, '
  'class attribute or module variable is changed by using an object, and a '
  'new object does not depend on what was computed before. Results do not '
  'depend on time of day, randomness, environment or hash order.',
  [HI, CF], 'every sequence of constructions and calls',
  'Tests build fresh objects in one process each.',
  ['dcf'], M(('instance state', 'dcf/*')),
  'interprocedural effect and escape rules over the syntax tree')

p('P28', 'Forward curves continue beyond their last price by the yield',
  'Up to its last date a forward curve returns its interpolated prices; '
  'beyond it returns the last price divided by the discount factor of its '
  'yield curve from the last date to the requested date, and stays flat '
  'without a yield curve. A constant yield is continuously compounded on '
  "the curve's own day count, and evaluating the curve is asking for the "
  'forward price.',
  [IN, CF], 'every price, yield curve and date',
  'Tests use one flat yield.',
  ['dcf/curves/curve.py'],
  M(('extrapolation', 'dcf/curves/curve.py:ForwardCurve')))

p('P29', 'A rate table lists the values of each row up to the next date',
  'The table of a curve has a heading of steps, starting with the zero '
  'step, and one row per date: the date, then the curve value at the date '
  'plus each step while that lies before the next row (two longest steps '
  'behind the last one). Without dates the rows are the node dates with '
  'the origin in front when it is not a node. Without steps these are the '
  'first span and, for each later span, the multiples of the span before '
  'it that stay below it, sorted and without duplicates.',
  [IN, CF], 'every curve, date grid and step grid',
  'Tests print one table.',
  ['dcf/curves/curve.py'], M(('rate table', 'dcf/curves/curve.py:rate_table')))

p('P30', 'Objects report the arguments they were built with',
  'The arguments a curve reports, and its printed forms, name every '
  'constructor argument the curve was given and no other: the nodes, the '
  'values at the nodes, interpolation, origin, day count, forward tenor or '
  'yield curve, functions by their name; building the class again from '
  'them gives the same curve. A price reports its value as a number.',
  [IN, CF], 'every curve class and set of given arguments',
  'Tests print one curve.',
  ['dcf/curves/curve.py'],
  M(('arguments', 'dcf/curves/curve.py:Curve.kwargs')))

p('P31', 'Contradictory inputs are refused',
  'What cannot be given a meaning raises an error and is never turned into '
  'a number or an object: domains and data of different lengths, a point '
  'given twice, log interpolation of values that are not positive, data of '
  'its own next to a curve, a spread over a spread in place, a stop '
  'together with a step, a point that is no node, division by a curve that '
  'is zero at a node, falling total variance without a floor, amounts that '
  'do not match the dates, redemption plans that do not match the coupon '
  'dates, legs that are no cash flow lists, more than ten strikes in one '
  'strategy, a rating outside the scale or without a number, fx entries '
  'that are no currency, curve or spot or of another base currency, and a '
  'root search whose interval has no sign change left.',
  [IN], 'every combination of such arguments',
  'Tests use valid input; an error that got lost shows as a silent wrong '
  'number.',
  ['dcf/curves', 'dcf/interpolation.py', 'dcf/cashflows', 'dcf/ratingclass.py',
   'dcf/pricer.py'],
  M(('lengths', 'dcf/interpolation.py:interpolation_scheme'),
    ('fx guards', 'dcf/curves/fx.py:FxContainer'),
    ('legs', 'dcf/cashflows/cashflow.py:CashFlowLegList'),
    ('scale', 'dcf/ratingclass.py:RatingClass')))

# ------------------------------------------------------- not applicable ---
p('P90', 'Root searches converge and meet the requested accuracy',
  'Yield, fair rate and curve fit return a value within the requested '
  'precision of a root and finish for every function with a sign change.',
  [IN], 'every product and precision', 'Tests sample products.',
  ['dcf/pricer.py'], M(('bracketing', 'dcf/pricer.py:_simple_bracketing')),
  claim=False, reason='accuracy of the root and number of recursions depend '
  'on floating-point spacing and on the run-time shape of the function; no '
  'static bound in reach. The step of the search is decided under P03.')
p('P91', 'The normal distribution functions are accurate',
  'The cumulative normal, its density and inverse agree with the '
  'mathematical functions to float accuracy.', [IN], 'every argument',
  'Tests sample.', ['dcf/models/distibutions.py'],
  M(('distributions', 'dcf/models/distibutions.py')), claim=False,
  reason='a numerical approximation error over the reals; the model '
  'formulas are decided modulo these functions under P18 and P19.')
p('P92', 'Discount factors and survival probabilities are monotone',
  'Curves built from non-negative rates give decreasing discount factors.',
  [IN], 'every node set', 'Tests sample.', ['dcf/curves'],
  M(('interpolation', 'dcf/interpolation.py')), claim=False,
  reason='depends on run-time node values and on the chosen interpolation; '
  'false for many legal inputs.')
p('P93', 'Results are exact to float rounding',
  'Round trips between curve types return the input floats.', [IN],
  'every curve', 'Tests use tolerances.', ['dcf'],
  M(('conversions', 'dcf/curves')), claim=False,
  reason='rounding error over run-time values; the conversions are decided '
  'over exact reals under P06 to P09.')
p('P94', 'Plots show the curve', 'Plotting a curve draws its values.', [IN],
  'every curve', 'Not tested.', ['dcf/curves/plot.py'],
  M(('plot', 'dcf/curves/plot.py')), claim=False,
  reason='text layout and terminal output of an optional helper; no '
  'structural rule separates right from wrong pictures.')


def done():
    """ids whose checks are armed"""
    f = os.path.join(V, 'tools', 'armed.txt')
    return set(open(f).read().split()) if os.path.exists(f) else set()


def main():
    armed = done()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'],
                'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']},
                'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': x['mech'],
                            'observe_at': x['observe'],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for x in P:
        assert len(x['title']) <= 80, x['title']
        if x['claim'] and x['id'] in armed:
            cmd = 'python3-vt sa/main.py '
            checks.append({
                'property': x['id'], 'quick_cmd': cmd + x['id'],
                'thorough_cmd': cmd + 'thorough ' + x['id'],
                'evidence_file': 'evidence/%s.json' % x['id'],
                'technique': x['tech'], 'level': 'other',
                'level_note': (
                    'Static: source to normal forms on all feasible '
                    'branches, nothing executed. ' + (
                        x['note'] + '. ' if x['note'] else '') +
                    'Undecided obligations are listed in the evidence and '
                    'raise no alarm.')})
        else:
            na.append({'property': x['id'],
                       'reason': x['reason'] or 'no check armed yet'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'python3-vt sa/main.py --selftest',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
