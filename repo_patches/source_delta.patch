From 50cafd2cbf7b42ed351f9fb312cd86d6f01d9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 1/6] fix: NOT rolls negative values as false, matching its
 distribution

README: only values above 0 are true. !(-3) rolled 0 while its distribution was {1: 1}.
---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 329571af6d5014ce10660b5fc2622f1d1ee8e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 2/6] fix: rolling zero dice always totals 0

The distribution of 0d6 was that of 1d6, while 0d6 rolls 0 and reports min and max 0.
---
 python_dice/src/expression/dice_expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..4e89452 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -59,10 +59,8 @@ class DiceExpression(IDiceExpression):
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-        distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
-            single_dice_distribution.get_result_map()
-        )
-        for _ in range(0, self._number_of_dice - 1):
+        distribution: IProbabilityDistribution = self._probability_distribution_factory.create({0: 1})
+        for _ in range(0, self._number_of_dice):
             distribution = distribution + single_dice_distribution
         return distribution
 
-- 
2.43.0


From 654b5b13660ac104ecb6c96d82c1c3ff7f48209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 3/6] fix: accept the documented trailing comma in custom dice

d[1,2,] was lexed as a dice and then failed with "invalid literal for int()".
---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..eb464a2 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -35,6 +35,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
     else:
         value_dictionary = {}
         for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+            if value == "":
+                continue
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From 45adaa794b7d67f5c4e731ea6c98e822956a51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 4/6] fix: a custom dice side with multiplier 0 is not a side

d[1*0,2] can only roll 2 but reported min 1 and listed 1 as an outcome.
---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index eb464a2..41e5dbf 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -44,6 +44,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
+            if int(multiplier) == 0:
+                continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
     return value_dictionary
-- 
2.43.0


From 1855abd9a28fb757db53b3f69b85ef364abf98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 5/6] fix: roll, max and min return a result of their own

They returned the live state dictionary, so every later call rewrote the results
of earlier calls (and changing a result changed the interpreter).
---
 python_dice/src/python_dice_interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python_dice/src/python_dice_interpreter.py b/python_dice/src/python_dice_interpreter.py
index cdef5d0..9780eb7 100644
--- a/python_dice/src/python_dice_interpreter.py
+++ b/python_dice/src/python_dice_interpreter.py
@@ -48,7 +48,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
             stdout = token.roll()
             return_dict = self._state.get_constant_dict()
             return_dict["stdout"] = stdout
-        return return_dict
+        return dict(return_dict)
 
     def max(self, input_text: List[str]) -> Dict[str, int]:
         return_dict = {}
@@ -57,7 +57,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
             stdout = token.max()
             return_dict = self._state.get_constant_dict()
             return_dict["stdout"] = stdout
-        return return_dict
+        return dict(return_dict)
 
     def min(self, input_text: List[str]) -> Dict[str, int]:
         return_dict = {}
@@ -66,7 +66,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
             stdout = token.min()
             return_dict = self._state.get_constant_dict()
             return_dict["stdout"] = stdout
-        return return_dict
+        return dict(return_dict)
 
     def get_probability_distributions_dict(self, input_text: List[str]) -> Dict[str, Dict[int, float]]:
         return_dict = {}
-- 
2.43.0


From 130b16a0a7eee3a59157d8853194da0ff555d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 6/6] fix: OR rolls negative values as false, matching its
 distribution

README: only values above 0 are true. -3 OR 0 rolled 1 while its distribution was {0: 1}.
---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..eea2c3a 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __logical_or__(this: object, other: object):
+        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
+            return this | other
+        return this > 0 or other > 0
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__logical_or__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0

