From 0085adc50b2c9198355a49762526b881fe9308b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 01/40] fix: greeks use time to expiry rather than the expiry
 date

---
 dcf/models/optionpricing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..f0ec0cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From 0d1e31c7069895f8747908afef76eddca59d10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 02/40] fix: curves compare the start date with the origin by
 value, not identity

---
 dcf/curves/creditcurve.py       | 4 ++--
 dcf/curves/interestratecurve.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..ea7b168 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -175,7 +175,7 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
         return curve.get_survival_prob(curve.origin, x)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
@@ -227,7 +227,7 @@ class FlatIntensityCurve(CreditCurve):
     def _get_compounding_rate(self, start, stop):
         if start == stop == self.origin:
             return self(self.origin)
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..9712a5b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -309,7 +309,7 @@ class DiscountFactorCurve(InterestRateCurve):
                                                   forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         return self(stop) / self(start)
 
@@ -338,7 +338,7 @@ class ZeroRateCurve(InterestRateCurve):
     def _get_compounding_rate(self, start, stop):
         if start == stop == self.origin:
             return self(self.origin)
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-- 
2.43.0


From e299494c41ab03114bb02bd6039ae5f92bdefe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 03/40] fix: FlatIntensityCurve refers to the existing
 _TIME_SHIFT

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index ea7b168..3285d4c 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From 078a2e4034dbf99e4ccbf361155a62ae40ea16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 04/40] fix: swap annuity accrues over the period between
 consecutive dates

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 9712a5b..6a00bca 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From bcd69030a54495fa6da0fe02c410d6b7bb1534ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 05/40] fix: pricer restores models, rates and curves when a
 valuation raises

---
 dcf/pricer.py | 123 ++++++++++++++++++++++++++++----------------------
 1 file changed, 69 insertions(+), 54 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..423dcf1 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -94,24 +94,25 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
 
-    # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
-    values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
-              for t, a in value_flows)
+    # store and set valuation date to payoff_model
+    payoff_model = getattr(cashflow_list, 'payoff_model', None)
+    if payoff_model is None:
+        flows = cashflow_list[pay_dates]
+    else:
+        model_valuation_date = payoff_model.valuation_date
+        payoff_model.valuation_date = valuation_date
+        try:
+            flows = cashflow_list[pay_dates]
+        finally:
+            # re-store model_valuation_date
+            payoff_model.valuation_date = model_valuation_date
 
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
-    return sum(values)
+    # discount flows
+    return sum(discount_curve.get_discount_factor(valuation_date, t) * float(a)
+               for t, a in zip(pay_dates, flows))
 
 
 def get_yield_to_maturity(cashflow_list, valuation_date=None, present_value=0.,
@@ -348,8 +349,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates
+    payoffs = cashflow_list.payoff(cashflow_list.domain)
+    fixed_rates = tuple(payoff.fixed_rate for payoff in payoffs)
 
     # set error function
     def err(current):
@@ -357,11 +359,13 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        # run bracketing
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rates
+        for payoff, fixed_rate in zip(payoffs, fixed_rates):
+            payoff.fixed_rate = fixed_rate
     return par
 
 
@@ -421,11 +425,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    shifted = list()
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+            shifted.append(d)
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in shifted:
+            d.spread = None
 
     return (sh - pv) / shift * .0001
 
@@ -568,11 +576,16 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        shifted = list()
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+                shifted.append(d)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d in shifted:
+                d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
@@ -713,27 +726,29 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
-
-    pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            fitting_curve.spread[d] = 0.0
+
+        pp_list = tuple(zip(cashflow_list, present_value))
+        for d in fitting_curve.spread.domain:
+            # prepare products and prices
+            # todo: better use sensitivity to current curve point than maturity
+            filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From f1f99d6b3b43883c74aeee46a9a51dd64709665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 06/40] fix: casting a curve keeps its origin, day count and
 interpolation

---
 dcf/curves/curve.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..394b5c2 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -235,8 +235,7 @@ class Curve(object):
             data = domain
             domain = data.domain
         if isinstance(data, Curve):
-            interpolation = \
-                interpolation or data.kwargs.get('interpolation', None)
+            interpolation = interpolation or data._interpolation
             _data = data(domain)  # assuming domain is a list of dates !
             if isinstance(data, DateCurve):
                 domain = [data.day_count(d) for d in domain]
@@ -423,10 +422,10 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
-            day_count = day_count or data.kwargs.day_count
+        if isinstance(data, DateCurve):
+            interpolation = interpolation or data._interpolation
+            origin = data.origin if origin is None else origin
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
@@ -737,8 +736,8 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
-            day_count = day_count or other.kwargs.day_count
+            origin = other.origin if origin is None else origin
+            day_count = day_count or other._day_count
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From ca895bf90e8117d94e34eb9adb6cc1098cf18eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 07/40] fix: date curve arithmetic returns a curve with origin
 and day count

---
 dcf/curves/curve.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 394b5c2..b6a1f55 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -463,29 +463,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 67238cc49f9c6d8c8ffeedb47ad837026790b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 08/40] fix: iterating over a curve yields its domain

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b6a1f55..adb6c23 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -267,7 +267,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From c67c31eb7bb1c5148290753c68bbea4d27bc37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 09/40] fix: FxContainer keeps inverse and triangulated pairs
 consistent

---
 dcf/curves/fx.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..ee4695d 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -165,28 +165,22 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and d != foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 613b4eac5dd2950a577801ddc308e881407c100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 10/40] fix: option models accept a zero forward and a zero
 volatility

---
 dcf/models/optionpricing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f0ec0cd..1152455 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -201,7 +201,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         details = {'valuation date': self.valuation_date}
         forward = 0.0
-        if self.forward_curve:
+        if self.forward_curve is not None:
             if hasattr(self.forward_curve, 'get_forward_price'):
                 forward = self.forward_curve.get_forward_price(date)
             elif hasattr(self.forward_curve, 'get_cash_rate'):
@@ -221,7 +221,7 @@ class OptionPayOffModel(OptionPricingFormula):
         details['strike'] = strike
 
         volatility = 0.0
-        if self.volatility_curve:
+        if self.volatility_curve is not None:
             if hasattr(self.volatility_curve, 'get_terminal_vol'):
                 volatility = self.volatility_curve.get_terminal_vol(date)
             elif isinstance(self.volatility_curve, (int, float)):
-- 
2.43.0


From f97e0c8b78be0fb55219051e5bfcb7ca1cc2f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 11/40] fix: rate payoffs accept a zero forward rate

---
 dcf/cashflows/payoffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..0ef249a 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -118,7 +118,7 @@ class RateCashFlowPayOff(CashFlowPayOff):
         }
 
         forward = 0.0
-        if forward_curve:
+        if forward_curve is not None:
             fixing_date = self.start
             if self.fixing_offset:
                 fixing_date -= self.fixing_offset
-- 
2.43.0


From 29431fb892a21ad75f01846dbbac2f6ba2e5a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 12/40] fix: binary model keeps an explicitly given zero
 valuation date

---
 dcf/models/optionpricing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 1152455..7bd364e 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -477,10 +477,12 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
         """
         self._inner = pricing_formula
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
             day_count = day_count or pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
-- 
2.43.0


From 801d68abe1b743fa3ea93d37eebcfa54cbaf330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 13/40] fix: binary model uses the given strike_shift

---
 dcf/models/optionpricing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 7bd364e..8a400ef 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -476,6 +476,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             if valuation_date is None:
                 valuation_date = pricing_formula.valuation_date
@@ -488,7 +489,9 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
+        if shift is None:
+            shift = self.__class__.STRIKE_SHIFT
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From 880481a3f04b066cf8713a7feb8e195b89ee7236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 14/40] fix: option strategy limit raises the intended error

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..aac1b4d 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,7 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list) + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From 0289f0e32aa73db42fd5904ae17f79300e59a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 15/40] fix: annuity plan with zero rate

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..f96dd9d 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -64,6 +64,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     Payment plan
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
+    if not fixed_rate:
+        return amortize(num, amount)
     q = 1. + fixed_rate
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
-- 
2.43.0


From a4d85d4ae43b9a56103149422a26fe238df8b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 16/40] fix: log rate interpolation is one at zero

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..344bd88 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 87a8ebee6759dfa2e10d9999e6c80d9924041675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 17/40] fix: interest accrued of contingent rate cashflows

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 423dcf1..254e1a3 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -285,7 +285,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From 47c164ef8cafec41ef6632d44e62970202dcc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 18/40] fix: cashflow table shows the cashflows of the list

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..5b63aa0 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -32,10 +32,11 @@ class CashFlowList(object):
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
                 fwd = getattr(self, 'forward_curve', None)
+                fwd = getattr(self, 'payoff_model', fwd)
                 details = payoff.details(fwd)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-- 
2.43.0


From d8eb2a7d6835bac7440c1d84d284ac61117cb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 19/40] fix: FixedCashFlowList keeps an explicitly given zero
 origin

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5b63aa0..a215435 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -264,7 +264,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From a9116556533d32aad4b460a5f2e176d55bebe51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 20/40] fix: numerical theta is scaled by its shift

---
 dcf/models/optionpricing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 8a400ef..de47c46 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -427,7 +427,8 @@ class OptionPayOffModel(OptionPricingFormula):
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        theta *= scale / shift
+        return theta
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From 498398973c0e6ff7efeee682aade4a77517082e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 21/40] fix: contingent rate cashflows accept a zero origin

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index aac1b4d..2f430b2 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 9c6eee423a6555d8294c96f1e4a8f234f5d26c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 22/40] fix: payment schedule of non business dates terminates
 at the start date

---
 dcf/cashflows/products.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..e0a107a 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,14 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
-        for d in payment_date_list:
-            if hasattr('adjust', d):
-                d.adjust(convention, holidays)
-        return payment_date_list
+        return [d.adjust(convention, holidays) if hasattr(d, 'adjust') else d
+                for d in payment_date_list]
 
 
 def bond(start_date=TODAY,
-- 
2.43.0


From 61fc0308fd8bf2cfeb7d219e0352183192827f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 23/40] fix: product defaults for day count and holidays are
 usable

---
 dcf/cashflows/products.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index e0a107a..6a89bbb 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -53,7 +53,7 @@ def bond(start_date=TODAY,
          convention='mod_follow',
          holidays=None,
          notional_amount=1.0,
-         day_count='thirty360',
+         day_count=None,
          fixed_rate=0.0,
          forward_curve=None,
          fixing_offset=None,
@@ -127,15 +127,15 @@ def interest_rate_swap(start_date=TODAY,
                        end_date=TODAY + MATURITY,
                        period=BOND_TENOR,
                        convention='mod_follow',
-                       holidays='target',
+                       holidays=None,
                        notional_amount=1.0,
-                       day_count='thirty360',
+                       day_count=None,
                        fixed_rate=0.0,
                        forward_curve=None,
                        fixing_offset=None,
                        pay_offset=None,
                        rec_leg_period=SWAP_TENOR,
-                       rec_leg_day_count='actact',
+                       rec_leg_day_count=None,
                        rec_leg_fixed_rate=0.0,
                        rec_leg_forward_curve=None):
     """ plain vanilla swap
-- 
2.43.0


From 3638e2e658256d09f59e21631202ab2aeaa16553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 24/40] fix: OptionPricingFormula.from_function creates a type

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index de47c46..6df6aa9 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': func})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From 0f67a58048104f82eb18a571196a484bc1b20297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 25/40] fix: greeks of the binary displaced model are
 displaced, too

---
 dcf/models/displaced.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..f9a437d 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,18 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(
+            time, strike + self.displacement,
+            forward + self.displacement, volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(
+            time, strike + self.displacement,
+            forward + self.displacement, volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(
+            time, strike + self.displacement,
+            forward + self.displacement, volatility)
-- 
2.43.0


From 921224a95f2f5f837cd9c61f629bc4dd27db07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 26/40] fix: Black76 vega follows the documented formula

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From 931dedcdaf05e2686640a29381547f6eaeecc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 27/40] fix: price and greeks of binary option models are
 consistent

---
 dcf/models/bachelier.py |  8 ++++----
 dcf/models/black76.py   | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..618bc67 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-\frac{d}{\sigma} \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..0988f03 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,21 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
-
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-\frac{d}{\sigma} \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +118,4 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
-- 
2.43.0


From e5c02f85cdfb5b2fd2fc94adf4a671a41a6d35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 28/40] fix: bucketed delta defaults to the grid of the delta
 curve

---
 dcf/pricer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 254e1a3..8694844 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -555,7 +555,9 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    if not isinstance(delta_curve, (list, tuple)):
+        delta_curve = delta_curve,
+    delta_grid = delta_grid if delta_grid else delta_curve[0].domain
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
@@ -571,9 +573,6 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
         grids = [first] + mids + [last]
         shifts = [[shift, 0.]] + [[0., shift, 0.]] * len(mids) + [[0., shift]]
 
-    if not isinstance(delta_curve, (list, tuple)):
-        delta_curve = delta_curve,
-
     buckets = list()
     for g, s in zip(grids, shifts):
         shifted = list()
-- 
2.43.0


From 5ccad316b52710c0c1a2210263175667630a4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 29/40] fix: cash rate curve derives cash rates of other tenors
 without recursion

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 6a00bca..4b2b83b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 72902e20a670fd60bca4ae2da83e86d56aa5f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 30/40] fix: curve arithmetic accepts any sequence as domain

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index adb6c23..d161f14 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -290,17 +290,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -308,7 +308,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
-- 
2.43.0


From 7202b918eac1fe606df01f4762c80e320de82874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 31/40] fix: instantaneous volatility curve casts curves with
 tuple domain

---
 dcf/curves/volatilitycurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..fa191b3 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in list(data.domain) + [origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From 26c67f69896822f5b36fd70aac7123a579bbf547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 32/40] fix: interpolation from_dict passes its values as a
 list

The logarithmic schemes read the values twice and found the generator
exhausted.
---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 344bd88..36de23b 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From b05a9b9e044f6b3f73a381a2d942ede5a6982ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 33/40] fix: cash rate checks stop against step also for a stop
 of zero

A stop given as year fraction 0.0 was taken for a missing stop.
---
 dcf/curves/interestratecurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 4b2b83b..c914de6 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -240,7 +240,7 @@ class InterestRateCurve(RateCurve):
         return self._get_cash_rate(start, stop, step)
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
@@ -430,7 +430,7 @@ class CashRateCurve(InterestRateCurve):
         return continuous_rate(df, self.day_count(start, stop))
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
-- 
2.43.0


From ab2f049f51f2d2b1630959313de7959c4c79f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 34/40] fix: date curves keep their nodes ordered by date in a
 list of their own

---
 dcf/curves/curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d161f14..760b37c 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -449,6 +449,11 @@ class DateCurve(Curve):
         return self._domain[0] if self._domain else None
 
     def _update(self, domain, data):
+        if domain:
+            # keep nodes ordered and apart from the given list
+            cls = tuple if isinstance(domain, tuple) else list
+            domain, data = map(cls, zip(*sorted(zip(domain, data))))
+        self._domain = domain
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
         self._domain = domain
-- 
2.43.0


From 033575659b618d7deecca264cc572b1d33bc36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 35/40] fix: assigning a node keeps stored values apart from
 spread and fixings

---
 dcf/curves/curve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 760b37c..612f683 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -276,7 +276,7 @@ class Curve(object):
 
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = [self._node(x) for x in domain]
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -284,6 +284,10 @@ class Curve(object):
             data.append(value)
         self._update(domain, data)
 
+    def _node(self, x):
+        # interpolated value without fixings, spread etc.
+        return self._func(x)
+
     def __call__(self, x):
         if isinstance(x, (tuple, list)):
             return tuple(self(xx) for xx in x)
@@ -458,6 +462,9 @@ class DateCurve(Curve):
         super()._update(flt_domain, data)
         self._domain = domain
 
+    def _node(self, x):
+        return super()._node(self.day_count(x))
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return tuple(self(xx) for xx in x)
-- 
2.43.0


From 42e332a4fa3dfcad60af4771208c79049cfa3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 36/40] fix: leg lists keep a list of legs of their own

---
 dcf/cashflows/cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index a215435..beee250 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -217,7 +217,7 @@ class CashFlowLegList(CashFlowList):
                 cls = self.__class__.__name__, leg.__class__.__name__
                 raise ValueError("Legs %s of can be either `CashFlowList` "
                                  "or `RateCashFlowList` but not %s." % cls)
-        self._legs = legs
+        self._legs = list(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
         origin = min(leg.origin for leg in self._legs)
-- 
2.43.0


From 3f4b06935fdb5e68afaeb2faba0c3fc1a1d64734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 37/40] fix: forward curves take an integer yield

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 612f683..d0e2749 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -620,7 +620,7 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
+        if isinstance(yield_curve, (int, float)) and self.origin is not None:
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
-- 
2.43.0


From cc4536bc1253225b90312724e4f39559f7cf3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 38/40] fix: short and hazard rate of curves with a single date

---
 dcf/curves/creditcurve.py       | 4 ++++
 dcf/curves/interestratecurve.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 3285d4c..16a1f6b 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -119,6 +119,10 @@ class CreditCurve(RateCurve):
         return self._get_hazard_rate(start)
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
+        if len(self.domain) == 1:
+            # flat over the only date, there is no period to look at
+            date = self.domain[0]
+            return self.get_flat_intensity(date, date + self._TIME_SHIFT)
 
         if start < min(self.domain):
             return self.get_hazard_rate(min(self.domain))
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index c914de6..2534242 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,6 +143,10 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
+        if len(self.domain) == 1:
+            # flat over the only date, there is no period to look at
+            date = self.domain[0]
+            return self.get_zero_rate(date, date + self._TIME_SHIFT)
         if start < min(self.domain):
             return self.get_short_rate(min(self.domain))
         if max(self.domain) <= start:
-- 
2.43.0


From c45a68dbe2423b22798a792e1f343d4b3c93d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 39/40] fix: curves built from a curve keep its forward tenor

---
 dcf/curves/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d0e2749..aedb9a3 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -747,6 +747,8 @@ class RateCurve(DateCurve):
             #     interpolation or other.kwargs.get('interpolation', None)
             origin = other.origin if origin is None else origin
             day_count = day_count or other._day_count
+            if forward_tenor is None:
+                forward_tenor = other._forward_tenor
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From b72abd67bb46fba6dc1f18a4cef154e4485e920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 40/40] fix: forward curves report the yield curve they were
 built with

---
 dcf/curves/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index aedb9a3..eb5beb6 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -624,6 +624,7 @@ class ForwardCurve(DateCurve):
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
+        self._yield_curve = yield_curve
         self.yield_curve = yc
         """ yield curve for extrapolation using discount factors """
 
-- 
2.43.0

