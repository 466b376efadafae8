From 18512e1ff6507d2f458c579f3b8993db105eb49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:41 +0000
Subject: [PATCH 01/73] fix: logical operators between two integer activations
 lose the vector length

---
 ruleskit/activation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..f6711cd 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -574,7 +574,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -634,7 +639,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -695,7 +705,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 4b66ccb804ad7cb78635467054ab19ef3bb5d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:51 +0000
Subject: [PATCH 02/73] fix: Activation + Activation returns the left operand
 instead of the logical OR

---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f6711cd..f0ee9e3 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -737,7 +737,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From 2e7a684e410f87a74c6a0a3f9f926a7319f9715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 03/73] fix: Activation 'in' is symmetric, so a larger vector
 is reported inside a smaller one

---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f0ee9e3..77ef7a7 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -771,10 +771,11 @@ class Activation(ABC):
         return self.length
 
     def __contains__(self, other: "Activation") -> bool:
+        """An activation vector contains another one if every point activated by the other is activated by self"""
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
+        if nones_intersection < other.nones:
             return False
         return True
 
-- 
2.43.0


From 3c222133133802a584db90ae4c0640b1e7a8aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 04/73] fix: Activation can not be created from a binary string
 or a str path

---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 77ef7a7..0936134 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,7 +204,7 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
+        if type(activation) == str and "," not in activation:
             if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From 2e63c141fa3ca41ed25bbb5785199e2cdb219597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:18 +0000
Subject: [PATCH 05/73] fix: vectors of length 1 stored as compressed array are
 read back with length 2

---
 ruleskit/activation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 0936134..39a8699 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -384,7 +384,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_bitarray:
+            # The compressed array of a vector of length 1 can not be told apart from a raw vector
+            if size_compressed > self._sizeof_bitarray or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "bitarray"
             else:
@@ -443,7 +444,8 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_integer:
+            # The compressed array of a vector of length 1 can not be told apart from a raw vector
+            if size_compressed > self._sizeof_integer or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "integer"
             else:
@@ -552,7 +554,8 @@ class Activation(ABC):
             thesize = self._sizeof_bitarray
             s = f"Using bitarray activation representation"
             fmt = "bitarray"
-        if thesize > size_compressed:
+        # The compressed array of a vector of length 1 can not be told apart from a raw vector
+        if thesize > size_compressed and (dtype == str or self.length > 1):
             logger.debug(f"Using compressed activation representation")
             self.data = compressed
             if dtype == str:
-- 
2.43.0


From 0b9f81ded0fae211aa7eb5bde6c1dabf39a2d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:27 +0000
Subject: [PATCH 06/73] fix: file name collision when writing an activation
 raises instead of picking another name

---
 ruleskit/activation.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 39a8699..54ce223 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -319,9 +319,7 @@ class Activation(ABC):
                         " name. Will keep it in RAM."
                     )
                     return False
-                number += 1
                 attempts += 1
-                arange.remove(number)
                 number = random.randint(*arange)
                 data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
-- 
2.43.0


From 14010b52a82328ec03b21d0c98f26ab04a0aa953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:36 +0000
Subject: [PATCH 07/73] fix: multi_logical_xor of a single vector ignores
 asarray

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 54ce223..1767662 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -725,6 +725,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From 302e73ad2cdfc23a5e911325ed2ac7dfd43ff814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:46 +0000
Subject: [PATCH 08/73] fix: length, entropy and operators fail on a lasy
 activation that was not read yet

---
 ruleskit/activation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 1767662..dfe0e01 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -749,6 +749,17 @@ class Activation(ABC):
 
     """ Other methods """
 
+    @property
+    def length(self) -> Optional[int]:
+        """Number of points in the vector. If the vector is lasy and was not read yet, reads it."""
+        if self._length is None and self.lasy:
+            self._length = len(self._read(out=False))
+        return self._length
+
+    @length.setter
+    def length(self, value: Optional[int]):
+        self._length = value
+
     def __copy__(self) -> "Activation":
         if self.data_format == "integer":
             return Activation(copy(self.data), optimize=self.optimize, length=self.length)
-- 
2.43.0


From f50426db706ec3359c15a13c06f902aa18e32007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:05 +0000
Subject: [PATCH 09/73] fix: conditions with different bounds compare equal
 when their hashes collide

---
 ruleskit/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..4c9c770 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,9 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, HyperrectangleCondition):
+            return False
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From 6ffc1ef9dc1be472cdea6a3bb370c3155348b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:13 +0000
Subject: [PATCH 10/73] fix: condition stays impossible after its bounds are
 set to possible ones

---
 ruleskit/condition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 4c9c770..5a5ea03 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,9 +321,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -332,9 +331,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 1cc03f484f4286ec0e2392d621b631bdb66041f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:21 +0000
Subject: [PATCH 11/73] fix: bounds given as a string to a condition are
 truncated to integers

---
 ruleskit/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 5a5ea03..d2a582d 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,7 +317,7 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -327,7 +327,7 @@ class HyperrectangleCondition(Condition):
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From 9848219130b6182f68d939a679e66785b0444c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:30 +0000
Subject: [PATCH 12/73] fix: setting a condition attribute on a rule does not
 change its condition

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..6586404 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -269,7 +269,7 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        if item not in self.__dict__ and not hasattr(self.__class__, item):
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From 8ba5e8ac3c719b1a2164fa84fd3ea5b9b0d1510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:40 +0000
Subject: [PATCH 13/73] fix: Rule.get_correlation compares numbers of features
 instead of vector lengths

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 6586404..82922f9 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -526,7 +526,7 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
+        if not len(self._activation) == len(other._activation):
             raise ValueError("Both vectors must have the same length")
 
         sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
-- 
2.43.0


From c05566458b1bb2fcd9e70504e611afe007f5550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:50 +0000
Subject: [PATCH 14/73] fix: Rule.predict truncates class names longer than 32
 characters

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 82922f9..a3becbf 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,7 +513,7 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
             to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
-- 
2.43.0


From 2da4a7c4b98cd18ef7a6984925ba5c15cec641df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:58 +0000
Subject: [PATCH 15/73] fix: fitting a classification rule with no activated
 point raises IndexError

---
 ruleskit/ruleset.py          | 2 +-
 ruleskit/utils/rfunctions.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..caea9ef 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1092,7 +1092,7 @@ class RuleSet(ABC):
                 class_probabilities = functions.class_probabilities(stacked_activations, y)
                 maxs = class_probabilities.max()
                 return class_probabilities[class_probabilities == maxs].apply(
-                    lambda x: x.dropna().sort_index().index[0]
+                    lambda x: np.nan if x.isna().all() else x.dropna().sort_index().index[0]
                 )
             elif issubclass(self.rule_type, RegressionRule):
                 return functions.conditional_mean(stacked_activations, y)
diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..fbbb138 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -35,6 +35,9 @@ def class_probabilities(
         raise TypeError("'activation' in most_common_class must be None or a np.ndarray or a pd.DataFrame")
     if isinstance(activation, np.ndarray):
         y_conditional = np.extract(activation, y)
+        if len(y_conditional) == 0:
+            logger.debug("The rule has no activated points. Class probabilities are set to nan.")
+            return np.nan
         count = Counter(y_conditional)
         n = len(y_conditional)
         prop = [v / n for v in count.values()]
-- 
2.43.0


From a86c094dc6ba06127b888c0766d7d645208056db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:08 +0000
Subject: [PATCH 16/73] fix: mae_norm divides by the mean error instead of the
 mean absolute error

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index fbbb138..d98c545 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -212,7 +212,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From f4a67955eb52e482e73ad3486ecf610ab30b0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:17 +0000
Subject: [PATCH 17/73] fix: unstacked regression ruleset prediction loses null
 sums, overflows and alters stored activations

---
 ruleskit/utils/rfunctions.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d98c545..4cb2204 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -462,20 +462,17 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if pd.isna(rule.prediction):
+            continue
+        cum_pred += activation * (float(rule.prediction) * weights[rulename])
+        cum_w += activation * float(weights[rulename])
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
-    return cum_pred / cum_w
+    return cum_pred / cum_w.replace(0, np.nan)
 
 
 def calc_ruleset_prediction_weighted_regressor_stacked(
@@ -504,20 +501,17 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
         if len(activation) == 0:
             continue
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
-        else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = pd.Series(np.zeros(len(activation)))
+            cum_w = pd.Series(np.zeros(len(activation)))
+        if pd.isna(rule.prediction):
+            continue
+        cum_pred += activation * float(rule.prediction)
+        cum_w += activation
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
         )
-    return cum_pred / cum_w
+    return cum_pred / cum_w.replace(0, np.nan)
 
 
 def calc_ruleset_prediction_equally_weighted_regressor_stacked(prediction_vectors: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 73eddf1dc129b4f68e79072090e293a1002389da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:26 +0000
Subject: [PATCH 18/73] fix: unstacked classification ruleset votes overflow
 unsigned bytes

---
 ruleskit/utils/rfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 4cb2204..934b46b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -558,6 +558,8 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if nones == 0:
             continue
+        # activation is made of unsigned bytes, in which the sum of weights could overflow
+        activation = activation.astype(float)
         if preds is None:
             preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
         else:
-- 
2.43.0


From ef702a96af0e9520b8fa1a0d3d2ae288afbb15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:35 +0000
Subject: [PATCH 19/73] fix: stacked classification ruleset puts a lone
 prediction at the first row

---
 ruleskit/utils/rfunctions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 934b46b..f47acac 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -609,11 +609,8 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    # Only keep observations with one single most frequent prediction. It is in the first column.
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].iloc[:, 0]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From bb7ab570ae8af774bcdef3bb51decf6ed41a5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:44 +0000
Subject: [PATCH 20/73] fix: stacked computations drop the classes named 'zero'
 or ''

---
 ruleskit/utils/rfunctions.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index f47acac..6970282 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -57,9 +57,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x != 0))
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -125,9 +123,7 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x != 0))
         return y_conditional.std()
 
 
@@ -401,12 +397,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = activation_vector.apply(lambda x: y.where(x != 0))
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From dbce2ee4f4e78dfbf8c884901da01d134eddba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:53 +0000
Subject: [PATCH 21/73] fix: stacked std of a single activated point is nan
 instead of 0

---
 ruleskit/utils/rfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 6970282..a4a61d0 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -124,7 +124,8 @@ def conditional_std(
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
         y_conditional = activation.apply(lambda x: y.where(x != 0))
-        return y_conditional.std()
+        # Same as for one activation vector : the std of one single point is 0
+        return y_conditional.std().where((activation != 0).sum() != 1, 0)
 
 
 def mse_function(
-- 
2.43.0


From f8354276b1494f82306d8a5771efcd3a906bb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:54 +0000
Subject: [PATCH 22/73] fix: adding a ruleset to a stacked one shares its
 dataframe, or loses columns

---
 ruleskit/ruleset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index caea9ef..14cbd41 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -304,19 +304,24 @@ class RuleSet(ABC):
         """Updates the stacked activation vectors of the RuleSet with the activation vector of a new Rule or
         the stacked activation vectors of another RuleSet."""
         if other.activation_available:
+            if not isinstance(other, Rule):
+                stacked_activations = other.stacked_activations
+                if stacked_activations is None:
+                    stacked_activations = other.evaluate_stacked_activations()
 
             if self.stacked_activations is None:
                 if isinstance(other, Rule):
                     self.stacked_activations = pd.DataFrame(
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
-                else:
-                    self.stacked_activations = other.stacked_activations
+                elif stacked_activations is not None:
+                    # Must not be other's own dataframe, which should not change when self does
+                    self.stacked_activations = stacked_activations.copy()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat([self.stacked_activations, stacked_activations], axis=1)
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From 07679b898c09113ad4cc7dff0285e69ccceb50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:04 +0000
Subject: [PATCH 23/73] fix: setting the rules of a ruleset does not set its
 rule type

---
 ruleskit/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 14cbd41..c47a77c 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -241,6 +241,7 @@ class RuleSet(ABC):
         self.features_indexes = ruleset.features_indexes
         self.stacked_activations = ruleset.stacked_activations
         self._activation = ruleset._activation
+        self._rule_type = ruleset._rule_type
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From 851558a5cf3cd9151556f1de60c4133ac55e80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:13 +0000
Subject: [PATCH 24/73] fix: rulesets predicting classes that are not Python
 literals can not be loaded

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c47a77c..7239eff 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1040,7 +1040,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From 616f43dd1046b0f1de728ce277dace58f5db0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:21 +0000
Subject: [PATCH 25/73] fix: rulesets with infinite bounds or criterions can
 not be loaded

---
 ruleskit/ruleset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 7239eff..cfd1d82 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1028,6 +1028,9 @@ class RuleSet(ABC):
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
             if rule_ind in condition_index:
+                if rule_ind in ("bmins", "bmaxs"):
+                    # literal_eval does not know 'inf', but reads an overflowing float as such
+                    str_value = str_value.replace("inf", "2e308")
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
@@ -1043,7 +1046,7 @@ class RuleSet(ABC):
                         except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
-                        setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
+                        setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value.replace("inf", "2e308")))
             else:
                 continue
 
-- 
2.43.0


From 16d62cb874f482be11a9aea9dec94d165feeef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:30 +0000
Subject: [PATCH 26/73] fix: ruleset is saved with its train set size as test
 set size

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index cfd1d82..30e9d42 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -979,7 +979,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From 135f5f941c564dfa234fe5119053bdc342de1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:38 +0000
Subject: [PATCH 27/73] fix: coverage and criterion of a loaded ruleset are
 strings

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 30e9d42..fb8e5ba 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -900,9 +900,13 @@ class RuleSet(ABC):
         if "ruleset coverage" in rules.iloc[:, 0].values:
             self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
+            if isinstance(self._coverage, str):
+                self._coverage = float(self._coverage)
         if "ruleset criterion" in rules.iloc[:, 0].values:
             self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
+            if isinstance(self.criterion, str):
+                self.criterion = float(self.criterion)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset train set size"].index)
-- 
2.43.0


From 6830716caf2d6b461b4e5c7a68457482a04f0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:47 +0000
Subject: [PATCH 28/73] fix: names of rules are lost when loading a ruleset

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index fb8e5ba..9a95af1 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1027,7 +1027,7 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-- 
2.43.0


From ffcd793f521f60498ebb7b5aa14976c925dfe824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:56 +0000
Subject: [PATCH 29/73] fix: features indexes of a loaded ruleset are not set

---
 ruleskit/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 9a95af1..1f446ca 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -937,6 +937,7 @@ class RuleSet(ABC):
         if self.stack_activation:
             self.compute_stacked_activation()
         self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.features_indexes = list(set(traverse([rule.features_indexes for rule in self])))
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
-- 
2.43.0


From b577f1b68decc501c1b7721065fb6b09a0c45a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 30/73] fix: typo in get_features_count when names are not
 available

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1f446ca..0dfdda9 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -886,7 +886,7 @@ class RuleSet(ABC):
         if len(self.features_names) > 0:
             var_in = list(itertools.chain(*[rule.features_names for rule in self]))
         else:
-            var_in = list(itertools.chain(*[rule.feautres_indexes for rule in self]))
+            var_in = list(itertools.chain(*[rule.features_indexes for rule in self]))
         count = Counter(var_in)
 
         count = count.most_common()
-- 
2.43.0


From 11133afc074b650fa6a6da9e12633fc61c9216b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:16 +0000
Subject: [PATCH 31/73] fix: ruleset activation is left to zeros after eval
 dropped bad rules

---
 ruleskit/ruleset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0dfdda9..8a1e4a3 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -647,8 +647,7 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
-            if self._activation is not None:
-                self._activation.clear()
+            self._activation = None
             self.del_stacked_activations()
             for r in rules:
                 self.append(r, update_activation=False)
-- 
2.43.0


From 3ddbf97c2cf569340544166f501b658423889800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:25 +0000
Subject: [PATCH 32/73] fix: unstacked eval does not compute missing stacked
 activations

---
 ruleskit/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8a1e4a3..b84f80b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -667,7 +667,9 @@ class RuleSet(ABC):
             if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
                 self._activation = None
                 self.compute_self_activation()
-            if self.stack_activation and (self._activation is None or (xs is not None and keep_new_activations)):
+            if self.stack_activation and (
+                    self.stacked_activations is None or (xs is not None and keep_new_activations)
+            ):
                 self.stacked_activations = None
                 self.compute_stacked_activation()
 
-- 
2.43.0


From 047b21b6953b8e159795412fcc279b2e4cd91bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:35 +0000
Subject: [PATCH 33/73] fix: stacked fit and eval keep bad rules flagged by the
 last check, and return others many times

---
 ruleskit/ruleset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b84f80b..edec21f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -431,11 +431,11 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -631,10 +631,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [
                 r.eval(
-- 
2.43.0


From 490f40749057d3a3e3eb498cfb1d1e1f37122d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:44 +0000
Subject: [PATCH 34/73] fix: ruleset features still include those of dropped
 rules

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index edec21f..c81868c 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -443,6 +443,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -647,6 +649,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r not in to_drop]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             self._activation = None
             self.del_stacked_activations()
             for r in rules:
-- 
2.43.0


From cbb9b85942936c9560dc22f047ef50703ed165bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:54 +0000
Subject: [PATCH 35/73] fix: sorting a ruleset with no stacked activations yet
 raises TypeError

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c81868c..bf6672f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -761,7 +761,7 @@ class RuleSet(ABC):
             self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
-        if self.stack_activation:
+        if self.stack_activation and self.stacked_activations is not None:
             self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
 
     # noinspection PyProtectedMember
-- 
2.43.0


From f06121a2e8317d836f0c3403222adbc241c2b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:04 +0000
Subject: [PATCH 36/73] fix: stacked_activations_available does not look at the
 stacked activations

---
 ruleskit/ruleset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index bf6672f..69d763a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -266,9 +266,7 @@ class RuleSet(ABC):
     @property
     def stacked_activations_available(self) -> bool:
         """Returns True is the RuleSet has its rules' stacked activations."""
-        if self.stack_activation is None or self._activation.length == 0:
-            return False
-        return True
+        return self.stacked_activations is not None and not self.stacked_activations.empty
 
     @property
     def activation(self) -> Union[None, np.ndarray]:
-- 
2.43.0


From 4f4825741e1de77f5db9e442765064decb306b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:14 +0000
Subject: [PATCH 37/73] fix: thresholds set on one rule only are ignored

---
 ruleskit/rule.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index a3becbf..6c21a61 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -86,7 +86,7 @@ class Rule(ABC):
 
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
-        self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._thresholds: Optional[Thresholds] = None  # Set by set_thresholds, else uses self.__class__.THRESHOLDS
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -113,7 +113,7 @@ class Rule(ABC):
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
 
@@ -128,11 +128,11 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        if self.thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not self.thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +140,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not self.thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
@@ -226,6 +226,8 @@ class Rule(ABC):
 
     @property
     def thresholds(self) -> Thresholds:
+        if self._thresholds is None:
+            return self.__class__.THRESHOLDS
         return self._thresholds
 
     @property
-- 
2.43.0


From 77b291ae47b12199a5dc2360f0dbb328f26fe16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 38/73] fix: thresholds on activation or condition attributes
 are not checked

---
 ruleskit/rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 6c21a61..f591167 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -137,8 +137,8 @@ class Rule(ABC):
                 self._good = False
             return
 
-        for attribute in dir(self):
-            if attribute.startswith("__"):
+        for attribute in sorted(self.thresholds.limits):
+            if not hasattr(self, attribute):
                 continue
             if not self.thresholds(attribute, self):
                 self._bad_because = attribute
-- 
2.43.0


From 817f7884e2d1281f5283cf4bf96b3aded7a43f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:34 +0000
Subject: [PATCH 39/73] fix: most probable class is wrong when string classes
 have tiny probabilities

---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index f591167..1f7b0d9 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -736,7 +736,8 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            # If classes are strings, so are the probabilities
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
-- 
2.43.0


From c3c4b9a4c37c918f0bf479c74252d9fd89339a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:44 +0000
Subject: [PATCH 40/73] fix: extract_rules_from_tree uses n_features_, removed
 from sklearn

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..53d8543 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,7 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(tree.n_features_in_)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
-- 
2.43.0


From d7ae76539228b2f6e57d791bebbd4fe58c199eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:54 +0000
Subject: [PATCH 41/73] fix: rules extracted from the right branches of a tree
 forget tighter upper bounds

---
 ruleskit/utils/rule_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 53d8543..4b3ba61 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -162,8 +162,8 @@ def extract_rules_from_tree(
 
             # Means we are not at first node. Same logic as previously, except this time
             # if Xi is in the list of features then the new bmins is now the threshold
-            # and bmaxs is modified to be the X maximum. Then keep the max of current
-            # and new bmins as bmins, same for bmaxs.
+            # and bmaxs is at most the X maximum. Then keep the max of current
+            # and new bmins as bmins, and the min of current and new bmaxs as bmaxs.
             # TODO there is something weird here, for X_i will necessarily be in cond, since
             # it was added at the very beginning of the function.
             if condition is not None:
@@ -175,7 +175,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From d6cc2c35ffcf3c7d2fbef266f90f9d8dae30601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:05 +0000
Subject: [PATCH 42/73] fix: non-leaf rules extracted from a tree predict the
 value of their parent node

---
 ruleskit/utils/rule_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 4b3ba61..afd2789 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -128,17 +128,18 @@ def extract_rules_from_tree(
             # Create a new Rule with all the condition and append it to the rules
             # list. So the rule list is actually a history of how one rule evolved.
             if get_leaf is False:
+                child = decision_tree.children_left[node]
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[child][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[child][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[child][0][0]
                 rules_list.append(new_rule)
 
             # Execute the current function on the left of the current node
@@ -180,17 +181,18 @@ def extract_rules_from_tree(
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
             if get_leaf is False:
+                child = decision_tree.children_right[node]
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[child][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[child][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[child][0][0]
                 rules_list.append(new_rule)
 
             rules_list = visitor(decision_tree.children_right[node], depth + 1, new_condition, rules_list)
-- 
2.43.0


From 2bfaa159fd5e5aad7abc4003ead1b2e5e778b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:19 +0000
Subject: [PATCH 43/73] fix: profiling a lasy activation that was not read yet
 raises

---
 ruleskit/activation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index dfe0e01..8a35e31 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -753,7 +753,7 @@ class Activation(ABC):
     def length(self) -> Optional[int]:
         """Number of points in the vector. If the vector is lasy and was not read yet, reads it."""
         if self._length is None and self.lasy:
-            self._length = len(self._read(out=False))
+            self._read(out=False)
         return self._length
 
     @length.setter
@@ -844,6 +844,8 @@ class Activation(ABC):
         with open(path, "rb") as f:
             # noinspection PyTypeChecker
             value = np.load(f)
+        if self._length is None:
+            self._length = len(value)
         if not out:
             if self._sizeof_raw == -1:
                 self._sizeof_raw = value.nbytes / 1e6
-- 
2.43.0


From 9ebc159d6a40171ec854cc1bd8b2f12617ef2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:28 +0000
Subject: [PATCH 44/73] fix: reading a lasy activation can overwrite the file
 of another one

---
 ruleskit/activation.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 8a35e31..788558f 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -310,18 +310,16 @@ class Activation(ABC):
         number = random.randint(*arange)
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                attempts += 1
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        while data.is_file():
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
+            number = random.randint(*arange)
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
         self.data = data
         self.data_format = "file"
-- 
2.43.0


From 29575edb6b5bc4fadab94baac9d9c2852c1944b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 45/73] fix: bounds of an empty condition can not be set

---
 ruleskit/condition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index d2a582d..7fde0b8 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,8 +321,10 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        # If a bmin is above its associated bmax, then the rule is impossible.
-        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
+        # If a bmin is above its associated bmax, then the rule is impossible. bmins and bmaxs of an empty condition are
+        # set one after the other.
+        if self.bmins is not None and self.bmaxs is not None:
+            self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -331,8 +333,10 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        # If a bmin is above its associated bmax, then the rule is impossible.
-        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
+        # If a bmin is above its associated bmax, then the rule is impossible. bmins and bmaxs of an empty condition are
+        # set one after the other.
+        if self.bmins is not None and self.bmaxs is not None:
+            self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 1c73ed71048d0edc3708f056010ca4ff3201f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 46/73] fix: comparing a ruleset with another kind of object
 raises AttributeError

---
 ruleskit/ruleset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 69d763a..858e51f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -173,6 +173,8 @@ class RuleSet(ABC):
         return len(self.rules)
 
     def __eq__(self, other: "RuleSet"):
+        if not isinstance(other, RuleSet):
+            return False
         return set(self.rules) == set(other.rules)
 
     def __iter__(self):
-- 
2.43.0


From 263564b709df3bdd703bb8c7e8434fff9905f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:04 +0000
Subject: [PATCH 47/73] fix: Rule.predict on a dataframe of one row returns a
 scalar

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 1f7b0d9..2cf569e 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -518,7 +518,7 @@ class Rule(ABC):
             to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From cd51bf3e53e06af52034721b55ed449124fb08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 48/73] fix: criterion of a classification ruleset that makes
 no prediction raises ZeroDivisionError

---
 ruleskit/utils/rfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index a4a61d0..275599c 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -322,6 +322,8 @@ def success_rate(
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
         if len(y) == 0:
             return pd.Series(dtype=int)
+        if prediction.isna().all():
+            return np.nan
         return sum(prediction == y) / len(prediction.dropna())
     else:
         if not isinstance(y, pd.DataFrame):
-- 
2.43.0


From 46d447307d92e702c7bd4880a39bef4883c853b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:15 +0000
Subject: [PATCH 49/73] fix: stacked classification ruleset prediction fails
 when no rule is active

---
 ruleskit/utils/rfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 275599c..17c5086 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -603,6 +603,9 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
+    if most_freq_pred.empty:
+        # No rule is active anywhere
+        return pd.Series(np.nan, index=idx)
     # Only keep observations with one single most frequent prediction. It is in the first column.
     most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].iloc[:, 0]
     most_freq_pred.name = None
-- 
2.43.0


From 60de249a6576196b9f3df885e6d15d5ed09188b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 50/73] fix: classification ruleset can not predict when its
 first rule has no prediction

---
 ruleskit/ruleset.py          | 3 ++-
 ruleskit/utils/rfunctions.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 858e51f..8d857a4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1307,7 +1307,8 @@ class RuleSet(ABC):
         if stacked_activations is None:
             return None
 
-        if isinstance(self[0].prediction, str):
+        # Some rules might have no prediction (nan) even if classes are strings
+        if any([isinstance(r.prediction, str) for r in self]):
             prediction_vectors = stacked_activations.replace(0, np.nan).replace(1.0, "") + predictions
         else:
             prediction_vectors = stacked_activations.replace(0, np.nan) * predictions
diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 17c5086..081ca89 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -552,6 +552,8 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if nones == 0:
             continue
+        if pd.isna(rule.prediction):
+            continue
         # activation is made of unsigned bytes, in which the sum of weights could overflow
         activation = activation.astype(float)
         if preds is None:
-- 
2.43.0


From 3debed49fefa09445a1a9dea4989e6a5b090d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 51/73] fix: criterion of a classification ruleset active
 nowhere is an empty series

---
 ruleskit/utils/rfunctions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 081ca89..a713b89 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -320,9 +320,7 @@ def success_rate(
             return np.nan
         return sum(prediction == y) / len(y)
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
-        if len(y) == 0:
-            return pd.Series(dtype=int)
-        if prediction.isna().all():
+        if len(y) == 0 or prediction.isna().all():
             return np.nan
         return sum(prediction == y) / len(prediction.dropna())
     else:
-- 
2.43.0


From 43c1226fc634cb2e31d5a1184ef40a9cfd3f5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:07 +0000
Subject: [PATCH 52/73] fix: membership in a ruleset depends on the way equal
 bounds are written

---
 ruleskit/ruleset.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8d857a4..5c1d5f9 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -205,16 +205,12 @@ class RuleSet(ABC):
     # noinspection PyProtectedMember
     def __contains__(self, other: Rule) -> bool:
         """A RuleSet contains another Rule if the two rule's conditions and predictions are the same"""
-        name_or_index = "name" if len(self.features_names) > 0 else "index"
-
-        if name_or_index == "index":
-            str_rules = [str(r.features_indexes) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_indexes) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-        else:
-            str_rules = [str(r.features_names) + str(r.bmins) + str(r.bmaxs) + str(r.prediction) for r in self]
-            str_rule = str(other.features_names) + str(other.bmins) + str(other.bmaxs) + str(other.prediction)
-
-        return str_rule in str_rules
+        # Comparing the strings of the predictions too, for NaN is not equal to itself
+        return any(
+            r.condition == other.condition
+            and (r.prediction == other.prediction or str(r.prediction) == str(other.prediction))
+            for r in self
+        )
 
     @property
     def rule_type(self) -> type:
-- 
2.43.0


From be27a3d565ac890c34c8438dd380ff9d276a9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:16 +0000
Subject: [PATCH 53/73] fix: sorting a stacked ruleset fails when a rule has no
 activation yet

---
 ruleskit/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 5c1d5f9..1cf264e 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -758,7 +758,9 @@ class RuleSet(ABC):
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
         if self.stack_activation and self.stacked_activations is not None:
-            self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
+            # Rules whose activation is not known yet have no column
+            columns = [str(r.condition) for r in self if str(r.condition) in self.stacked_activations.columns]
+            self.stacked_activations = self.stacked_activations[columns]
 
     # noinspection PyProtectedMember
     def evaluate_self_activation(
-- 
2.43.0


From e9a67c1bd70b5803b1e94e00ad469382aa67e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:56 +0000
Subject: [PATCH 54/73] fix: rulesets of different types can be added when
 their conditions are equal

---
 ruleskit/ruleset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1cf264e..ee7be57 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -155,6 +155,12 @@ class RuleSet(ABC):
         if isinstance(other, Rule):
             rules = self.rules + [other]
         else:
+            # Rules of different types can be equal, in which case the union would hide the mismatch
+            if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
+                raise TypeError(
+                    f"Ruleset previously had rules of type {self.rule_type},"
+                    f" so can not add rules of type {other.rule_type}"
+                )
             stack_activation &= other.stack_activation
             rules = list(set(self.rules + other.rules))
         return self.__class__(rules, compute_activation=self._compute_activation, stack_activation=stack_activation)
-- 
2.43.0


From 8a3eb89c1b96c97f1ca0a9e8e01819637ee156a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:57 +0000
Subject: [PATCH 55/73] fix: a limit naming an integer attribute is refused
 after a stacked fit

---
 ruleskit/thresholds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 2cab835..8b25b0a 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -1,6 +1,7 @@
 import math
 import logging
 from copy import copy
+from numbers import Real
 from typing import Union
 from pathlib import Path
 from json import load
@@ -78,7 +79,7 @@ class Thresholds:
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
-            if not isinstance(threshold[lim], (int, float)):
+            if not isinstance(threshold[lim], Real):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
         if "min" in threshold and value < threshold["min"]:
-- 
2.43.0


From 9ce5d815cb07fe2ce8077be137c9d5fb3d251c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:05 +0000
Subject: [PATCH 56/73] fix: a limit naming an attribute that is not computed
 yet makes fit fail

---
 ruleskit/thresholds.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 8b25b0a..63c4bd4 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -74,11 +74,15 @@ class Thresholds:
             value = Thresholds.KWOWN_ARGS[threshold["arg"]](value)
             s = f"{threshold['arg']}({tkey})"
 
-        for lim in threshold:
+        for lim in list(threshold):
             if lim == "arg":
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
+                if threshold[lim] is None:
+                    # Not computed yet : can not be checked for now
+                    threshold.pop(lim)
+                    continue
             if not isinstance(threshold[lim], Real):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
-- 
2.43.0


From 72de3946506c5687c0ef5a66539037822afe4d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:58 +0000
Subject: [PATCH 57/73] fix: deep copies of rules recurse for ever, and share
 the file of a stored activation

---
 ruleskit/activation.py | 13 ++++++++++++-
 ruleskit/rule.py       |  2 +-
 ruleskit/ruleset.py    |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 788558f..0b803d7 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -3,7 +3,7 @@ from typing import Union, List, Optional
 import numpy as np
 import ast
 import sys
-from copy import copy
+from copy import copy, deepcopy
 import random
 import psutil
 from time import time
@@ -763,6 +763,17 @@ class Activation(ABC):
             return Activation(copy(self.data), optimize=self.optimize, length=self.length)
         return Activation(copy(self.data), optimize=self.optimize, to_file=self.data_format == "file")
 
+    def __deepcopy__(self, memo: dict) -> "Activation":
+        """If the vector is saved locally, its deep copy has its own file."""
+        to_ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = to_ret
+        to_ret.__dict__.update(deepcopy(self.__dict__, memo))
+        if self.data_format == "file" and self.data.is_file():
+            raw = self._read(self.data)
+            if not to_ret._write(raw):
+                to_ret._init_with_any(raw, length=None, to_file=False)
+        return to_ret
+
     def clear(self):
         """Fill Activation with zeros"""
         data = np.zeros(self.length)
diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 2cf569e..3cca076 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -255,7 +255,7 @@ class Rule(ABC):
 
     def __getattr__(self, item):
         """If item is not found in self, try to fetch it from its activation or condition."""
-        if item == "_activation" or item == "_condition":
+        if item == "_activation" or item == "_condition" or item.startswith("__"):
             raise AttributeError(f"'Rule' object has no attribute '{item}'.")
 
         if hasattr(self._activation, item):
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index ee7be57..17c5904 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -167,7 +167,7 @@ class RuleSet(ABC):
 
     def __getattr__(self, item):
         """If item is not found in self, try to fetch it from its activation."""
-        if item == "_activation":
+        if item == "_activation" or item.startswith("__"):
             raise AttributeError(f"'RuleSet' object has no attribute '{item}'")
 
         if self._activation is not None and hasattr(self._activation, item):
-- 
2.43.0


From 7c61cbae90a4debf171e7ec3eb3e07ca00b60c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:58 +0000
Subject: [PATCH 58/73] fix: two workers can write their activation to the same
 file

---
 ruleskit/activation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 0b803d7..448b533 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -310,7 +310,13 @@ class Activation(ABC):
         number = random.randint(*arange)
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        while data.is_file():
+        while True:
+            try:
+                # Creates the file, unless another vector, possibly of another process, already uses this name
+                data.touch(exist_ok=False)
+                break
+            except FileExistsError:
+                pass
             if attempts > 99:
                 logger.warning(
                     "Failed to save activation vector locally after 100 attempts at finding an available"
@@ -320,7 +326,6 @@ class Activation(ABC):
             attempts += 1
             number = random.randint(*arange)
             data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
-        data.touch()
         self.data = data
         self.data_format = "file"
         with open(self.data, "wb") as f:
-- 
2.43.0


From d37c1969ffde70a5c671cd7225cc16a481c01126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:39 +0000
Subject: [PATCH 59/73] fix: a released activation reads as a path or an error
 instead of None

---
 ruleskit/rule.py    | 2 +-
 ruleskit/ruleset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 3cca076..203b28b 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -216,7 +216,7 @@ class Rule(ABC):
         np.ndarray
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self._activation and self.activation_available:
             return self._activation.raw
         return None
 
diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 17c5904..a9a0864 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -281,7 +281,7 @@ class RuleSet(ABC):
         Union[None, np.ndarray]
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self._activation and self.activation_available:
             return self._activation.raw
         return None
 
-- 
2.43.0


From 4660abdd90c88e18c4d1a36495e5f6de1520cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 60/73] fix: coverage of a ruleset is lost when its activation
 is released

---
 ruleskit/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a9a0864..1f85c18 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -833,6 +833,7 @@ class RuleSet(ABC):
         """Deletes the activation vector's data of self, but not the object itself, so any computed attribute remains
         available"""
         if hasattr(self, "_activation") and self._activation is not None:
+            self._coverage = self.ruleset_coverage
             self._activation.delete()
 
     def del_stacked_activations(self):
-- 
2.43.0


From 91ae66ac4419b84764f0896b88b749972cb1d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:40 +0000
Subject: [PATCH 61/73] fix: a ruleset keeps traces of a rule whose addition
 failed

---
 ruleskit/ruleset.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1f85c18..6da7d54 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -120,6 +120,7 @@ class RuleSet(ABC):
     def __iadd__(self, other: Union["RuleSet", Rule]):
         """Appends a rule or each rules of another RuleSet to self and updates activation vector and stacked activations
         if needed. Also updates features_indexes, and features_names if possible."""
+        rule_type, activation = self._rule_type, self._activation
         if isinstance(other, Rule):
             if self._rule_type is None:
                 self.rule_type = type(other)
@@ -129,7 +130,7 @@ class RuleSet(ABC):
                         f"Ruleset previously had rules of type {self.rule_type},"
                         f" so can not add rule of type {type(other)}"
                     )
-            self._rules.append(other)
+            rules = [other]
         else:
             if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
                 raise TypeError(
@@ -138,15 +139,21 @@ class RuleSet(ABC):
                 )
             if self._rule_type is None and other._rule_type is not None:
                 self.rule_type = other.rule_type
-            self._rules += other._rules
+            rules = other._rules
 
+        try:
+            if self._compute_activation:
+                self._update_activation(other)
+            if self.stack_activation:
+                self._update_stacked_activation(other)
+        except Exception:
+            # Can happen if the activation vectors have different lengths : self must stay as it was
+            self._rule_type, self._activation = rule_type, activation
+            raise
+        self._rules += rules
         self.features_indexes = list(set(self.features_indexes + other.features_indexes))
         if hasattr(other, "features_names"):
             self.features_names = list(set(self.features_names + other.features_names))
-        if self._compute_activation:
-            self._update_activation(other)
-        if self.stack_activation:
-            self._update_stacked_activation(other)
         return self
 
     def __add__(self, other: Union["RuleSet", Rule]):
-- 
2.43.0


From 26751b24d0edadec27839287272c3252a5c49389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 62/73] fix: updates stay switched off after a refused append

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6da7d54..87f25f7 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -708,9 +708,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From d113d5067f428b75eae97f498aa176574e361433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 63/73] fix: a failed stacked fit or evaluation leaves
 stack_activation changed

---
 ruleskit/ruleset.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 87f25f7..27201bd 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -398,13 +398,17 @@ class RuleSet(ABC):
             if xs is not None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.calc_activation(xs)
-                self.stack_activation = not clean_activation
+                try:
+                    self.calc_activation(xs)
+                finally:
+                    self.stack_activation = not clean_activation
             elif self.stacked_activations is None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.compute_stacked_activation()
-                self.stack_activation = not clean_activation
+                try:
+                    self.compute_stacked_activation()
+                finally:
+                    self.stack_activation = not clean_activation
 
             if isinstance(y, np.ndarray):
                 # noinspection PyUnresolvedReferences
@@ -563,8 +567,10 @@ class RuleSet(ABC):
                 if keep_new_activations:
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
-                    self.stack_activation = not clean_activation
+                    try:
+                        self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
+                    finally:
+                        self.stack_activation = not clean_activation
                     stacked_activations = self.stacked_activations
                     activation = self._activation
                     # noinspection PyUnresolvedReferences
@@ -583,11 +589,13 @@ class RuleSet(ABC):
                     # Else, will compute the stacked activation from the current rules activations
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.compute_stacked_activation()
-                    self.compute_self_activation()
+                    try:
+                        self.compute_stacked_activation()
+                        self.compute_self_activation()
+                    finally:
+                        self.stack_activation = not clean_activation
                     if self.stacked_activations is None:
                         raise ValueError("Rules activations must have been computed previously.")
-                    self.stack_activation = not clean_activation
                 stacked_activations = self.stacked_activations
                 activation = self._activation
                 # noinspection PyUnresolvedReferences
-- 
2.43.0


From e9a17c600bad258f2430fb73c69c5685671cf405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:04 +0000
Subject: [PATCH 64/73] fix: loading an unreadable file leaves the ruleset half
 loaded

---
 ruleskit/ruleset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 27201bd..4af9fb4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -920,6 +920,16 @@ class RuleSet(ABC):
         return count
 
     def load(self, path, **kwargs):
+        before = dict(self.__dict__)
+        try:
+            self._load(path, **kwargs)
+        except Exception:
+            # Nothing must be kept of a file that can not be read entirely
+            self.__dict__.clear()
+            self.__dict__.update(before)
+            raise
+
+    def _load(self, path, **kwargs):
         if hasattr(path, "read"):
             rules = path.read(**kwargs)
         else:
-- 
2.43.0


From ab2610390cc34565a07db1b5f6b06a92676ae55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:28 +0000
Subject: [PATCH 65/73] fix: stacked figures are computed on the wrong rows
 when y has another index

---
 ruleskit/utils/rfunctions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index a713b89..3fcc318 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -57,6 +57,8 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
+        # Rows of y and of activation match by position, whatever the index of y
+        y = pd.Series(np.ravel(y), index=activation.index)
         y_conditional = activation.apply(lambda x: y.where(x != 0))
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
@@ -123,6 +125,8 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
+        # Rows of y and of activation match by position, whatever the index of y
+        y = pd.Series(np.ravel(y), index=activation.index)
         y_conditional = activation.apply(lambda x: y.where(x != 0))
         # Same as for one activation vector : the std of one single point is 0
         return y_conditional.std().where((activation != 0).sum() != 1, 0)
@@ -398,6 +402,8 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
+        # Rows of y and of activation_vector match by position, whatever the index of y
+        y = pd.Series(np.ravel(y), index=activation_vector.index)
         y_conditional = activation_vector.apply(lambda x: y.where(x != 0))
         return success_rate(prediction, y_conditional)
 
-- 
2.43.0


From 7031d3b50a6739b5bc082b16b64c04d63633074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 66/73] fix: conditional_std of extracted values is not that of
 the activated points

---
 ruleskit/utils/rfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 3fcc318..8d665f3 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -100,7 +100,8 @@ def conditional_std(
     which saves time.
     """
     if activation is None:
-        return float(np.nanstd(y))
+        # Same estimator as when the activation is given
+        return 0 if len(y) == 1 else float(np.nanstd(y, ddof=1))
 
     if not isinstance(activation, pd.DataFrame) and not isinstance(activation, np.ndarray):
         raise TypeError("'activation' in conditional_std must be None or a np.ndarray or a pd.DataFrame")
-- 
2.43.0


From 418de6c74594f75d290b7ca9eda108324d27f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:08 +0000
Subject: [PATCH 67/73] fix: z-score of a rule without activated point is 0 in
 stacked mode instead of nan

---
 ruleskit/utils/rfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 8d665f3..ce5d163 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -624,6 +624,8 @@ def calc_zscore_external(
 ) -> Union[None, float, pd.Series]:
     if isinstance(nones, int) and nones == 0:
         return np.nan
+    if isinstance(nones, pd.Series):
+        nones = nones.replace(0, np.nan)
     num = abs(prediction - np.nanmean(y))
     deno = np.sqrt(horizon / nones) * np.nanstd(y)
     return num / deno
-- 
2.43.0


From 31e738cdcd6ef9c7ffa8029cb5ed27f104c4eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:07 +0000
Subject: [PATCH 68/73] fix: loading a ruleset keeps nothing of the previous
 ruleset figures and rule type

---
 ruleskit/ruleset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4af9fb4..05ac23f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -934,6 +934,9 @@ class RuleSet(ABC):
             rules = path.read(**kwargs)
         else:
             rules = pd.read_csv(path, **kwargs)
+        # The file might not contain all those attributes, or no rule : nothing must remain of the previous ones
+        self._coverage, self.criterion, self.train_set_size, self.test_set_size = None, None, None, None
+        self._rule_type = None
         if "ruleset coverage" in rules.iloc[:, 0].values:
             self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
-- 
2.43.0


From 45cc868b272382d7b092849c9de217558a2a99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:03 +0000
Subject: [PATCH 69/73] fix: RuleSet of rules whose conditions have no features
 names

Whether names are available was asked before any rule was in the ruleset, so it was always true, and building a ruleset
(also slicing one, or adding two) from rules with conditions without names raised AttributeError.
---
 ruleskit/ruleset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 05ac23f..29d5e21 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -100,7 +100,6 @@ class RuleSet(ABC):
         self._rule_type = None
         self._compute_activation = True  # Should NOT be equal to given compute_activation argument, but always True.
         if rules_list is not None:
-            names_available = all([hasattr(r.condition, "features_names") for r in self])
             for rule in rules_list:
                 if not isinstance(rule, Rule) and rule is not None:
                     raise TypeError(f"Some rules in given iterable were not of type 'Rule' but of type {type(rule)}")
@@ -110,7 +109,7 @@ class RuleSet(ABC):
                 self.compute_self_activation()
             if self.stack_activation:
                 self.compute_stacked_activation()
-            if names_available:
+            if all([hasattr(r.condition, "features_names") for r in self]):
                 self.features_names = list(set(itertools.chain(*[rule.features_names for rule in self])))
             self.set_features_indexes()
         if self.__class__.CHECK_DUPLICATED:
-- 
2.43.0


From dabcfe9c2a0db4c05ecce692b593e97ad1f6a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:29 +0000
Subject: [PATCH 70/73] fix: bitarrays of different endianness can not be
 combined

A little-endian bitarray was stored as given, and any logical operation with another activation raised ValueError.
---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 448b533..42eb17c 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -361,6 +361,8 @@ class Activation(ABC):
         """
 
         logger.debug(f"Activation vector is a bitarray")
+        # Only bitarrays of the same endianness can be combined
+        value = bitarray(value, endian="big")
         self.length = len(value)
         self._sizeof_bitarray = sys.getsizeof(value) / 1e6
         self._nones = value.count(1)
-- 
2.43.0


From 1f3632af93f97badb70134dce676c55cc587521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:55 +0000
Subject: [PATCH 71/73] fix: a ruleset extended before its vectors were
 computed had only those of the new rules

---
 ruleskit/ruleset.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 29d5e21..87922c3 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -140,11 +140,15 @@ class RuleSet(ABC):
                 self.rule_type = other.rule_type
             rules = other._rules
 
+        # If other did not compute its activation, those of its rules may be known nonetheless
+        updates = rules if other._activation is None else [other]
         try:
             if self._compute_activation:
-                self._update_activation(other)
+                for update in updates:
+                    self._update_activation(update)
             if self.stack_activation:
-                self._update_stacked_activation(other)
+                for update in updates:
+                    self._update_stacked_activation(update)
         except Exception:
             # Can happen if the activation vectors have different lengths : self must stay as it was
             self._rule_type, self._activation = rule_type, activation
@@ -303,6 +307,9 @@ class RuleSet(ABC):
     def _update_activation(self, other: Union[Rule, "RuleSet"]):
         """Updates the activation vector of the RuleSet with the activation vector of a new Rule or RuleSet."""
         if other.activation_available:
+            if len(self) > 0 and (self._activation is None or self._activation.length == 0):
+                # Was not computed yet, but the activations of the rules may be known
+                self.compute_self_activation()
             if self._activation is None or self._activation.length == 0:
                 self._activation = Activation(other.activation, to_file=Rule.LOCAL_ACTIVATION)
             else:
@@ -318,6 +325,9 @@ class RuleSet(ABC):
                 if stacked_activations is None:
                     stacked_activations = other.evaluate_stacked_activations()
 
+            if self.stacked_activations is None and len(self) > 0:
+                # Was not computed yet, but the activations of the rules may be known
+                self.compute_stacked_activation()
             if self.stacked_activations is None:
                 if isinstance(other, Rule):
                     self.stacked_activations = pd.DataFrame(
-- 
2.43.0


From c7e2bebae55b8176b73e794b1cb95c52c062e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:07 +0000
Subject: [PATCH 72/73] fix: sorting a ruleset in which only some of the
 conditions have bounds

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 87922c3..dcd9926 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -746,7 +746,7 @@ class RuleSet(ABC):
             return
 
         if criterion is None or criterion == "":
-            if not (hasattr(self[0].condition, "bmins") and hasattr(self[0].condition, "bmaxs")):
+            if not all(hasattr(r.condition, "bmins") and hasattr(r.condition, "bmaxs") for r in self):
                 return
             # The set of all the features the RuleSet talks about
             which = "index"
-- 
2.43.0


From 93c02d31dec46a3f006a94fa07760b8489be6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:18 +0000
Subject: [PATCH 73/73] fix: sorting a ruleset by features whose names have
 spaces or punctuation

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index dcd9926..761e09e 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -765,7 +765,7 @@ class RuleSet(ABC):
                     dict_names[l_] = []
                 dict_names[l_].append(f)
             for l_ in dict_names:
-                dict_names[l_].sort(reverse=reverse)
+                dict_names[l_].sort(key=ast.literal_eval, reverse=reverse)
             fnames_or_indexes = []
             for l_ in range(1, lmax + 1):
                 if l_ in dict_names:
-- 
2.43.0

