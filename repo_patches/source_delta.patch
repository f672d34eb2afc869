From 42aa6deb82966ccf9d767e97151af06e05bd55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 01/11] fix: roll of ! treats only values above 0 as true

The README and the distribution of ! use "values above 0 are considered
true"; roll() used Python truthiness, so !(-1) rolled 0 while its
distribution is always 1.
---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 4698a6dcdacc1019025c9afc157103bbdc034f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:39 +0000
Subject: [PATCH 02/11] fix: roll of OR treats only values above 0 as true

"-2 OR -4" and "-2 OR 0" rolled 1 (a bitwise or), while their distribution
(and the README: values above 0 are considered true) is always 0.
---
 python_dice/src/expression/binary_operator_expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..7acee31 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -56,7 +56,10 @@ class BinaryOperatorExpression(IDiceExpression):
         self._expression_two = expression_two
 
     def roll(self) -> int:
-        return 1 if self.OPERATOR_MAP[self._operator](self._expression_one.roll(), self._expression_two.roll()) else 0
+        value_one, value_two = self._expression_one.roll(), self._expression_two.roll()
+        if self._operator == "OR":
+            value_one, value_two = value_one > 0, value_two > 0
+        return 1 if self.OPERATOR_MAP[self._operator](value_one, value_two) else 0
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 276aed8bbf745057d10c845ec6e299521d3131f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 03/11] fix: custom dice accept the documented trailing comma

"d[1,2,]" passed the lexer and then failed with int('').
---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..eb464a2 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -35,6 +35,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
     else:
         value_dictionary = {}
         for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+            if value == "":
+                continue
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From d536e1a4f9b87e68e3ceb0b6954768ffa8e309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 04/11] fix: a side repeated zero times is not a side of the
 dice

"d[1*0,2]" never rolls 1, yet min() was 1 and the distribution listed it.
---
 python_dice/src/expression/dice_expression_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index eb464a2..b288579 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -44,6 +44,7 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
-            for key in range_values:
-                safe_add(value_dictionary, key, int(multiplier))
+            if int(multiplier) > 0:
+                for key in range_values:
+                    safe_add(value_dictionary, key, int(multiplier))
     return value_dictionary
-- 
2.43.0


From 2573af3daf018517f692f8269c8658d3ef16001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 05/11] fix: the distribution of zero dice is always 0

"0d6" rolls 0 and has min and max 0, but its distribution was that of 1d6.
---
 python_dice/src/expression/dice_expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..4e89452 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -59,10 +59,8 @@ class DiceExpression(IDiceExpression):
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-        distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
-            single_dice_distribution.get_result_map()
-        )
-        for _ in range(0, self._number_of_dice - 1):
+        distribution: IProbabilityDistribution = self._probability_distribution_factory.create({0: 1})
+        for _ in range(0, self._number_of_dice):
             distribution = distribution + single_dice_distribution
         return distribution
 
-- 
2.43.0


From 5aea62219b082e44764c162636216763db2053df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 06/11] fix: results of the interpreter do not alias its
 variables

roll, min and max returned the live variable dict: a later call changed the
result of an earlier one, and writing "stdout" into it created (or
overwrote) a variable of that name.
---
 .../probability_distribution_state.py                         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution_state.py b/python_dice/src/probability_distribution/probability_distribution_state.py
index eb45b73..ce5bdbb 100644
--- a/python_dice/src/probability_distribution/probability_distribution_state.py
+++ b/python_dice/src/probability_distribution/probability_distribution_state.py
@@ -22,10 +22,10 @@ class ProbabilityDistributionState(IProbabilityDistributionState):
         self._constraint_factory = constraint_factory
 
     def get_var_dict(self):
-        return self._var
+        return self._var.copy()
 
     def get_constant_dict(self):
-        return self._constants
+        return self._constants.copy()
 
     def has_constant(self, name) -> bool:
         return name in self._constants
-- 
2.43.0


From 0c56d3e6395a3464b2cc65add339818cf3ef598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 07/11] fix: a min or max assignment that fails leaves the
 variable as it was

The value was stored before the distribution was computed, so a line that
raised (for example on a variable known only from roll) was half applied.
---
 python_dice/src/expression/var_assignment_expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/var_assignment_expression.py b/python_dice/src/expression/var_assignment_expression.py
index 7c1b05a..ec3f58a 100644
--- a/python_dice/src/expression/var_assignment_expression.py
+++ b/python_dice/src/expression/var_assignment_expression.py
@@ -40,14 +40,16 @@ class VarAssignmentExpression(IDiceExpression):
 
     def max(self) -> int:
         max_value = self._expression.max()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, max_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return max_value
 
     def min(self) -> int:
         min_value = self._expression.min()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, min_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return min_value
 
     def __str__(self) -> str:
-- 
2.43.0


From 71a2db7ca976f847142f78d56bbfaa1f99b4b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:26 +0000
Subject: [PATCH 08/11] fix: compare histogram draws no bar over outcomes
 neither side has

With a gap between the two ranges the bar of the last outcome before the gap
was stretched across it (d2 against 7 drew the bar of 2 from 1.5 to 6.5).
---
 .../src/probability_distribution/probability_distribution.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..f8f9bde 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -55,6 +55,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         other_histogram_data = self._get_histogram_form(other_probability.get_dict_form())
         x_values = list(this_histogram_data.keys())
         x_values.extend(other_histogram_data.keys())
+        x_values.extend(set(range(min(x_values), max(x_values) + 1)) - set(x_values))
 
         def y_value_calculator(key):
             value = 0
-- 
2.43.0


From 8438dcd9640af83593fd04506b3b0b40dad0db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:26 +0000
Subject: [PATCH 09/11] fix: drawing a chart leaves no pyplot figure open

Every chart stayed open and became the current figure of the process: figures
piled up, and later pyplot calls of the application drew into the last chart.
---
 .../probability_distribution.py                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index f8f9bde..c75823e 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -137,7 +137,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -152,7 +152,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
                 label=f"Average = {average}",
             )
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="tiff")
+        figure.savefig(buffer, format="tiff")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -168,7 +169,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -176,7 +177,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.set_xlabel("outcome")
         axis.legend()
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="png")
+        figure.savefig(buffer, format="png")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0


From 7132591d8b0becb41acbe99410daf5c17bf0e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 10/11] fix: the estimated cost of a negation is exact for
 large costs

---
 python_dice/src/expression/not_expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 86269f8..58149ad 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -1,4 +1,3 @@
-import math
 from typing import Callable, Set
 
 import rply  # type: ignore
@@ -39,7 +38,8 @@ class NotExpression(IDiceExpression):
         return f"!{str(self._expression)}"
 
     def estimated_cost(self) -> int:
-        return int(math.floor(self._expression.estimated_cost() * 1.1))
+        cost = self._expression.estimated_cost()
+        return cost + cost // 10
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
         return self._expression.get_probability_distribution().not_operator()
-- 
2.43.0


From 471c0187bc9ff6e958e057855db28e9b8e9d2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 11/11] fix: a division evaluates its dividend before its
 divisor, and each once

---
 .../src/expression/integer_division_expression.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python_dice/src/expression/integer_division_expression.py b/python_dice/src/expression/integer_division_expression.py
index d1eabd8..f4d4809 100644
--- a/python_dice/src/expression/integer_division_expression.py
+++ b/python_dice/src/expression/integer_division_expression.py
@@ -30,23 +30,27 @@ class IntegerDivisionExpression(IDiceExpression):
         self._expression_one = expression_one
         self._expression_two = expression_two
 
+    # The dividend is evaluated before the divisor, as in get_probability_distribution: either can assign a variable.
     def roll(self) -> int:
+        dividend = self._expression_one.roll()
         divisor = self._expression_two.roll()
         if divisor == 0:
             raise ZeroDivisionError()
-        return self._expression_one.roll() // divisor
+        return dividend // divisor
 
     def max(self) -> int:
+        dividend = self._expression_one.get_probability_distribution()
         divisor = self._expression_two.get_probability_distribution()
         if divisor.contains_zero():
             raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
-        return self.get_probability_distribution().max()
+        return (dividend // divisor).max()
 
     def min(self) -> int:
+        dividend = self._expression_one.get_probability_distribution()
         divisor = self._expression_two.get_probability_distribution()
         if divisor.contains_zero():
             raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
-        return self.get_probability_distribution().min()
+        return (dividend // divisor).min()
 
     def __str__(self) -> str:
         return f"{str(self._expression_one)} // {str(self._expression_two)}"
-- 
2.43.0

