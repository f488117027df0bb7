From 1d0c84a731b9da63a6e7037a22f35e54e0c0625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 01/56] fix: binary_length is exact for large integers

The floating-point logarithm rounds up just below 2**48 and above,
so e.g. Binv(intval=2**48 - 1, length=48) was refused.
---
 discretehelpers/binv/a/binary_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From 61e22a1ef4e6d985bded8a6facf87e921cbc432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 02/56] fix: decimal_length is exact for powers of ten

floor(log(1000, 10)) is 2 in floating point, so decimal_length(1000) was 3.
---
 discretehelpers/a/decimal_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/a/decimal_length/__init__.py b/discretehelpers/a/decimal_length/__init__.py
index c0eebd4..fe0d31b 100644
--- a/discretehelpers/a/decimal_length/__init__.py
+++ b/discretehelpers/a/decimal_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def decimal_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 10)) + 1
+    return len(str(int(n)))
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From b95b9b967decdf0ee9ee09a3a17f3d0bd38072b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:07 +0000
Subject: [PATCH 03/56] fix: power-of-two test and binary logarithms are exact
 for large integers

The floating-point logarithms were wrong for e.g. 2**29 (not recognised
as a power of two) and for 2**k - 1 and 2**k + 1 with k >= 49.
---
 discretehelpers/a/_log/log_ceil/__init__.py   |  3 +--
 discretehelpers/a/_log/log_floor/__init__.py  |  3 +--
 discretehelpers/a/_log/log_int/__init__.py    | 14 +++++++-------
 discretehelpers/a/is_power_of_two/__init__.py |  8 ++------
 4 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..ff00b99 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,5 +1,4 @@
-from math import log2
-from discretehelpers.a import is_natural, true_except
+from discretehelpers.a import is_natural, true_except, is_power_of_two
 from discretehelpers.ex import ArgValueError
 
 
@@ -10,8 +9,9 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
-    else:
-        raise ArgValueError('not a power of two')
+    true_except(
+        is_power_of_two(x),
+        ArgValueError('not a power of two')
+    )
+
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..310b88d 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,5 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    n = int(n)
+    return n & (n - 1) == 0
-- 
2.43.0


From b87da3458648bf7e7b93332a1ef50e1ff119c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:40 +0000
Subject: [PATCH 04/56] fix: Binv keeps length zero and accepts an empty set
 with a minimal length

Binv(intval=0, length=0) had one bit, and
Binv(exposet=set(), minimal_length=3) failed in max().
---
 discretehelpers/binv/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..ea42d8f 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -56,7 +56,7 @@ class Binv(object):
                     true_except(length >= binary_length(intval), LengthError)
                 else:
                     length = max(minimal_length, binary_length(intval))
-                vector = "{0:b}".format(intval).zfill(length)[::-1]
+                vector = "{0:b}".format(intval).zfill(length)[::-1][:length]  # empty for length 0
 
         elif case_exposet:
 
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max([minimal_length] + [e + 1 for e in exposet])
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From a73b0ec17925f6beb7d29b3a59f10aed04be0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:48 +0000
Subject: [PATCH 05/56] fix: Binv refuses negative indices

Binv(exposet={-1, 2}) was read from the end like a list index,
although the documented error says that indices must not be negative.
---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index ea42d8f..4e58a19 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -62,7 +62,7 @@ class Binv(object):
 
             true_except(type(exposet) in [set, list, tuple], IndicesTypeError)
             for e in exposet:
-                true_except(type(e) == int, IndicesEntryError)
+                true_except(type(e) == int and e >= 0, IndicesEntryError)
             if case_exposet_only:
                 if len(exposet) == 0:
                     self.set_empty()
-- 
2.43.0


From 1fee4c36e4195f8cb801ca7a3e023f7276fa58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:57 +0000
Subject: [PATCH 06/56] fix: Perm refuses overlapping cycles

Perm([[0, 1], [1, 2]]) silently built a mapping that is no permutation.
---
 discretehelpers/perm/__init__.py | 3 +++
 discretehelpers/perm/ex.py       | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 65ef3c9..44887cf 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -32,8 +32,11 @@ class Perm(object):
                     if key != val:
                         mapping[key] = val
             elif element_type == list:  # `arg` is list of cycles
+                seen = set()
                 for cycle in arg:
                     true_except(type(cycle) == list and all(is_natural(e) for e in cycle), CyclesError)
+                    true_except(len(set(cycle)) == len(cycle) and seen.isdisjoint(cycle), CyclesError)
+                    seen.update(cycle)
                     length = len(cycle)
                     for key, val in enumerate(cycle):
                         map_from = val
diff --git a/discretehelpers/perm/ex.py b/discretehelpers/perm/ex.py
index 09a0e37..c01375c 100644
--- a/discretehelpers/perm/ex.py
+++ b/discretehelpers/perm/ex.py
@@ -7,7 +7,7 @@ class SequenceError(ValueError):
 
 
 class CyclesError(ValueError):
-    """The cycles must be lists of integers."""
+    """The cycles must be disjoint lists of distinct integers."""
 
 
 class DictError(ValueError):
-- 
2.43.0


From 4344d138e83c5e4643930ec1b7e41662ae05e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:06 +0000
Subject: [PATCH 07/56] fix: order of a permutation does not overflow

The least common multiple was computed in 64-bit integers, which is
too small for permutations with many coprime cycle lengths.
---
 discretehelpers/perm/metributes/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/perm/metributes/order.py b/discretehelpers/perm/metributes/order.py
index c14032c..134f8d4 100644
--- a/discretehelpers/perm/metributes/order.py
+++ b/discretehelpers/perm/metributes/order.py
@@ -1,6 +1,6 @@
 from functools import cached_property
 
-import numpy as np
+from math import lcm
 
 
 @cached_property
@@ -12,6 +12,6 @@ def order(self):
         return 1
 
     cycle_lengths = [len(cycle) for cycle in self.cycles]
-    result = np.lcm.reduce(cycle_lengths)
+    result = lcm(*cycle_lengths)
 
     return result
-- 
2.43.0


From ebeb4f20bfd055102fd396217e064b43c8cf17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:14 +0000
Subject: [PATCH 08/56] fix: SigPerm ignores redundant trailing zeros of the
 negation pattern

SigPerm(valneg=[1, 0, 0], perm=[1, 0]) differed from
SigPerm(valneg=[1], perm=[1, 0]), although both are the same map.
---
 discretehelpers/sig_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..4c5dca8 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -105,7 +105,7 @@ class SigPerm(Perm):
 
         self.length = max(raw_binv.required_length, self.perm.length)
         missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv((raw_binv.vector + [False] * missing_length)[:self.length])  # without redundant zeros
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From 193def61629ed674d115159fe418736b26fec80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:22 +0000
Subject: [PATCH 09/56] fix: powers of signed permutations

SigPerm ** n was an unimplemented stub returning None.
---
 discretehelpers/sig_perm/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 4c5dca8..8a0fa43 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -140,7 +140,10 @@ class SigPerm(Perm):
         return SigPerm(matrix=matrix)
 
     def __pow__(self, exponent):
-        pass
+        if exponent == 0:
+            return SigPerm(sequence=[])
+        else:
+            return super(SigPerm, self).__pow__(exponent)
 
     from .metributes import inverse, sequence_minimal, \
         keyneg_index, valneg_index, perm_index, pair
-- 
2.43.0


From 4a4bbf01712f4457cfa225626b2f2e8f85bf55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:31 +0000
Subject: [PATCH 10/56] fix: sequence of given length for the neutral Walsh
 permutation

It has no period length, so the comparison with the requested length failed.
---
 discretehelpers/walsh_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 4adeb03..5ccf6eb 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -93,7 +93,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
-- 
2.43.0


From 1fb095177151d9ba153d3b1eb7be9ee66410a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:24 +0000
Subject: [PATCH 11/56] fix: right rank of the neutral permutation is zero

The result was assigned but not returned, so the computation went on and failed.
---
 discretehelpers/perm/metributes/ranks/right_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/perm/metributes/ranks/right_rank.py b/discretehelpers/perm/metributes/ranks/right_rank.py
index 9dde9d9..c0c5f6c 100644
--- a/discretehelpers/perm/metributes/ranks/right_rank.py
+++ b/discretehelpers/perm/metributes/ranks/right_rank.py
@@ -15,7 +15,7 @@ def right_rank(self):
     true_except(not have(self.perilen), PermNotFiniteError)
 
     if self.neutral:
-        result = 0
+        return 0
 
     ric = right_inversion_count(self.sequence())
     ric_reflected = ric[::-1]
-- 
2.43.0


From 1261dd0118521bd43c974967231f641f5a457b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:09 +0000
Subject: [PATCH 12/56] fix: WalshPerm refuses a matrix that reduces to a
 single zero

---
 discretehelpers/walsh_perm/a/shrink_matrix/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
index c784e96..e3a200f 100644
--- a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
@@ -10,13 +10,13 @@ def shrink_matrix(matrix):
 
     matrix = np.array(matrix, dtype=int)  # should be redundant
 
-    true_except(matrix.size > 1, IsNeutralFail)
+    true_except(matrix.tolist() not in [[], [1], [[1]]], IsNeutralFail)
     true_except(matrix.shape[0] == matrix.shape[1], NotSquareError)
 
     degree = matrix.shape[0]
 
     while True:
-        if degree < 2:
+        if degree == 0:
             raise IsNeutralFail
 
         last = degree - 1
-- 
2.43.0


From 304f64bb455dce3d129d687edbadb8ab731097f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:37 +0000
Subject: [PATCH 13/56] fix: join of set partitions keeps the domain

---
 .../set_part/methods/meet_and_join/join/_0_prototypes.py | 4 ++--
 .../set_part/methods/meet_and_join/join/_1_fast.py       | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
index bcd52d8..ee69bbc 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
@@ -33,8 +33,8 @@ def _join_prototype_improved(self, other):
     clean_s_blocks = [sorted(set(block) - trash) for block in self.blocks]
     clean_o_blocks = [sorted(set(block) - trash) for block in other.blocks]
 
-    clean_s_part = SetPart(clean_s_blocks)
-    clean_o_part = SetPart(clean_o_blocks)
+    clean_s_part = SetPart(clean_s_blocks, self.domain)
+    clean_o_part = SetPart(clean_o_blocks, self.domain)
 
     clean_join_part = clean_s_part._join_prototype(clean_o_part)
 
diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
-- 
2.43.0


From 882c5dd0b15baa9d353d68cbb714dbbbd19b7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 14/56] fix: derived data of a set partition is renewed after
 merging and refining

---
 discretehelpers/set_part/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..7cc489d 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -73,10 +73,8 @@ class SetPart(object):
         self.set_dummies()
 
     def set_dummies(self):
-        self._pairs = None
-        self._intval = None
-        self._canonical_blocks_with_singletons = None
-        self._singletons = None
+        for metribute in ['pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons']:
+            self.__dict__.pop(metribute, None)  # forget cached results for the old blocks
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
-- 
2.43.0


From 66dbc4e9c9edd0da7859dfb69ae0bc4b60723f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:54 +0000
Subject: [PATCH 15/56] fix: blocks with singletons of the trivial partition of
 the integers

---
 .../set_part/methods/blocks_with_singletons/__init__.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
index ac712b7..a46f17a 100644
--- a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
+++ b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
@@ -12,8 +12,8 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         if self.domain == 'N':
             elements = range(self.length)
         elif self.domain == 'Z':
-            low = min(self.non_singletons)
-            high = max(self.non_singletons) + 1
+            low = min(self.non_singletons, default=0)
+            high = max(self.non_singletons, default=-1) + 1
             elements = range(low, high)
         else:
             elements = self.domain
@@ -30,7 +30,7 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         true_except(self.domain == 'Z', RangeNotAllowedError)
         low, high = range_pair
         true_except(type(low) == type(high) == int, RangeWrongTypeError)
-        true_except(low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
+        true_except(self.non_singletons.issubset(range(low, high)), RangeMismatchError)
         elements = range(low, high)
 
     elif not have(length) and not have(range_pair) and have(elements):  # elements (not restricted by domain)
-- 
2.43.0


From ef55d6d70ceb7cccc5e80aa17e94c319d3eb91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:03 +0000
Subject: [PATCH 16/56] fix: trivial set partition keeps the labels of its
 singletons

---
 discretehelpers/set_part/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 7cc489d..5677435 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -15,6 +15,11 @@ class SetPart(object):
         else:
             self.domain = domain  # keep the letters
 
+        if have(block_labels):
+            self.block_labels = bidict(block_labels)
+        else:
+            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
+
         if blocks is None:
             self.set_trivial()
             return
@@ -43,11 +48,6 @@ class SetPart(object):
 
         self.trivial = False
 
-        if have(block_labels):
-            self.block_labels = bidict(block_labels)
-        else:
-            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
-
         self.set_dummies()
 
     from .metributes import pairs, intval, canonical_blocks_with_singletons, singletons
@@ -65,7 +65,6 @@ class SetPart(object):
         self.blocks = []
         self.non_singleton_to_block_index = dict()
         self.non_singletons = set()
-        self.block_labels = bidict()
 
         if self.domain == 'N':
             self.length = 0
-- 
2.43.0


From 23c109e3d3cd3ead42d275e2d8b8a1adeff56ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 17/56] fix: refining a block with wrong labels changes nothing

---
 .../set_part/methods/refine_block/__init__.py    | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..1b6a273 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -15,19 +15,15 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
-    self.blocks.remove(old_block)
-    self.blocks += new_blocks
+    blocks = [block for block in self.blocks if block != old_block] + list(new_blocks)
 
-    try:  # The old block may have a label. If so, delete it. If not, do nothing.
-        del self.block_labels[tuple(old_block)]
-    except KeyError:
-        pass
+    block_labels = self.block_labels.copy()
+    block_labels.pop(tuple(old_block), None)  # The old block may have a label. If so, delete it. If not, do nothing.
 
     if have(new_labels):
         true_except(type(new_labels) in [list, tuple], ArgTypeError)
         true_except(len(new_labels) == len(new_blocks), ArgValueError)
-        for i, block in enumerate(new_blocks):
-            label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+        for block, label in zip(new_blocks, new_labels):
+            block_labels[tuple(sorted(block))] = label
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(blocks, self.domain, block_labels)  # reinitialize
-- 
2.43.0


From c308d1d36ce343c9376836cb1a2f8816c2176902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:22 +0000
Subject: [PATCH 18/56] fix: an element is in the same block as itself and not
 its own complement

---
 discretehelpers/set_part/__init__.py      | 2 ++
 discretehelpers/set_part_comp/__init__.py | 7 ++-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 5677435..071a50b 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -100,6 +100,8 @@ class SetPart(object):
             return None
 
     def pair_in_same_block(self, a, b):
+        if a == b:
+            return True
         if not {a, b}.issubset(self.non_singletons):
             return False
         return self.non_singleton_to_block_index[a] == self.non_singleton_to_block_index[b]
diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..5a74268 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -3,7 +3,7 @@ from discretehelpers.a import have
 
 from discretehelpers.set_part import SetPart
 
-from .helpers import _exposet, _representatives, _other_element_in_pair, _pair
+from .helpers import _representatives, _other_element_in_pair, _pair
 from .ex import *
 
 
@@ -40,10 +40,7 @@ class SetPartComp():
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
-        a_index, b_index = _exposet(self, a, b)
-        if not (have(a_index) and have(b_index)):
-            return False
-        return a_index == b_index
+        return self.equal_part.pair_in_same_block(a, b)
 
     def are_comp(self, a, b):
         a_repr, b_repr = _representatives(self, a, b)
-- 
2.43.0


From 6fd9946f98250a30e80a5948be765f4d6e76e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:31 +0000
Subject: [PATCH 19/56] fix: complement pairs given to SetPartComp are closed,
 and the given partition is not shared

---
 discretehelpers/set_part_comp/__init__.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 5a74268..584ad04 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -17,24 +17,17 @@ class SetPartComp():
             if type(equal_part) == list:
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
-                self.equal_part = equal_part
+                self.equal_part = SetPart(equal_part.blocks, equal_part.domain, equal_part.block_labels)
         else:
             self.equal_part = SetPart([], 'Z')
 
+        self.comp_pairs = set()
+
         if have(comp_pairs):
-            canonical_comp_pairs = set()
             for a, b in comp_pairs:
-                canonical_a = min(self.equal_part.element_to_block(a))
-                canonical_b = min(self.equal_part.element_to_block(b))
-                canonical_pair = tuple(sorted([canonical_a, canonical_b]))
-                canonical_comp_pairs.add(canonical_pair)
-            self.comp_pairs = canonical_comp_pairs
-        else:
-            self.comp_pairs = set()
-
-        if have(equal_part) and have(comp_pairs):  # check if arguments do not contradict each other
-            for pair in self.comp_pairs:
-                if self.equal_part.pair_in_same_block(*pair):
+                try:
+                    self.set_comp(a, b)
+                except SetCompEqualsError:  # arguments contradict each other
                     raise PartCompMismatchError
 
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
-- 
2.43.0


From a1f9bc0dc66c58a8a797003b3c473f2ff3243526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:39 +0000
Subject: [PATCH 20/56] fix: length of an empty SetPartComp is zero

---
 discretehelpers/set_part_comp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 584ad04..7bf355e 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -80,7 +80,7 @@ class SetPartComp():
         return len(self.related_part().blocks)
 
     def length(self):
-        return max(self.related_part().non_singletons) + 1  # not `related_part().length`, because its domain is Z
+        return max(self.related_part().non_singletons, default=-1) + 1  # not `related_part().length`, because its domain is Z
 
     def affected_elements(self):
         elements = set()
-- 
2.43.0


From c5b92201085d1ae0301c4dc809e3bd874c774507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:54 +0000
Subject: [PATCH 21/56] fix: Boolf refuses argument combinations that fit no
 case instead of looping forever

---
 discretehelpers/boolf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/boolf/__init__.py b/discretehelpers/boolf/__init__.py
index fd98c7f..8ac95ac 100644
--- a/discretehelpers/boolf/__init__.py
+++ b/discretehelpers/boolf/__init__.py
@@ -40,6 +40,8 @@ class Boolf(object):
                 break
             if self._subinit_multi():
                 break
+            from discretehelpers.ex import ArgComboError
+            raise ArgComboError  # no case for this combination of arguments
 
         self.set_dummies()
 
-- 
2.43.0


From 674859c9c97143fabe1db439e5568c042226b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:02 +0000
Subject: [PATCH 22/56] fix: Boolf refuses repeated atomvals also with
 fullspots

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..b987073 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -1,5 +1,7 @@
 from discretehelpers.a import have, true_except, subinit_bouncer
 
+from discretehelpers.boolf.ex import AtomvalsNotUniqueError
+
 from discretehelpers.ex import ArgMismatchError, ArgComboError
 
 
@@ -27,6 +29,8 @@ def _subinit_fullspots(self):
         self.set_constant(True)
         return True
 
+    true_except(len(set(atomvals)) == len(atomvals), AtomvalsNotUniqueError)
+
     from discretehelpers.binv import Binv
 
     # root
-- 
2.43.0


From 6423a6c9df926f727a4bc7f4f4466bedfe3cee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:09 +0000
Subject: [PATCH 23/56] fix: bitwise_gt is strict

---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From f58b024d7fe2265e03d49f9a132d8a19a68ed9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:16 +0000
Subject: [PATCH 24/56] fix: constant Boolean functions can be evaluated and
 applied

---
 discretehelpers/boolf/methods/vals_apply/apply.py | 3 +++
 discretehelpers/boolf/methods/vals_apply/val.py   | 3 +++
 discretehelpers/boolf/methods/vals_apply/vals.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/discretehelpers/boolf/methods/vals_apply/apply.py b/discretehelpers/boolf/methods/vals_apply/apply.py
index f1b5b81..ff29050 100644
--- a/discretehelpers/boolf/methods/vals_apply/apply.py
+++ b/discretehelpers/boolf/methods/vals_apply/apply.py
@@ -8,6 +8,9 @@ def apply(self, *atomval_signed_perm):
 
     true_except(len(atomval_signed_perm) == self.valency, SarityMismatchError)
 
+    if self.is_constant:
+        return self
+
     from discretehelpers.boolf import Boolf
 
     # The atomvals come from the user. Those of the Boolf itself are ignored.
diff --git a/discretehelpers/boolf/methods/vals_apply/val.py b/discretehelpers/boolf/methods/vals_apply/val.py
index 9b783ed..6ddab95 100644
--- a/discretehelpers/boolf/methods/vals_apply/val.py
+++ b/discretehelpers/boolf/methods/vals_apply/val.py
@@ -9,6 +9,9 @@ def val(self, *args):
 
     true_except(len(args) == self.valency, SarityMismatchError)
 
+    if self.is_constant:
+        return self.root[0]
+
     first_arg = args[0]
     case_single = type(first_arg) in [int, bool] and int(first_arg) in [0, 1]
     case_multiple = type(first_arg) in [list, Binv]
diff --git a/discretehelpers/boolf/methods/vals_apply/vals.py b/discretehelpers/boolf/methods/vals_apply/vals.py
index cc53d74..5d36eed 100644
--- a/discretehelpers/boolf/methods/vals_apply/vals.py
+++ b/discretehelpers/boolf/methods/vals_apply/vals.py
@@ -13,6 +13,9 @@ def vals(self, *atomkey_signed_perm):
 
     true_except(len(atomkey_signed_perm) == self.valency, SarityMismatchError)
 
+    if self.is_constant:
+        return self.root
+
     # only permutations and negations of 0 ... valency-1 are allowed
     atomkey_positive_perm = logic_abs_vector(atomkey_signed_perm)
     true_except(sorted(atomkey_positive_perm) == list(range(self.valency)), UnexpectedArgumentError)
-- 
2.43.0


From 7d3454e6b48ff3d77f1b49e88042c7624d8b0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:23 +0000
Subject: [PATCH 25/56] fix: mod_tt_neg accepts a list or Binv of signs

---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index c7611e2..a9347f4 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -7,9 +7,9 @@ def mod_tt_neg(tt, signet):
         signet_index = signet
     elif type(signet) == list:
         signet_binv = Binv(signet)
-        signet_index = signet_binv.index
+        signet_index = signet_binv.intval
     elif type(signet) == Binv:
-        signet_index = signet.index
+        signet_index = signet.intval
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From 7525a2e7b2de440c1e86652c28b9c15a5d889c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:15 +0000
Subject: [PATCH 26/56] fix: Boolf from fullspots sorts the atomvals before it
 removes redundant ones

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index b987073..a37dc35 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -13,7 +13,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -37,10 +36,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From 536ff7a84a16dd006d5dc516a409fa19c14aa571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:54 +0000
Subject: [PATCH 27/56] fix: factions in a partitioned clan are those of its
 arity

---
 .../boolf/methods/_ec/ec_clan_partitioned/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
index 2e18426..e315650 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
@@ -12,7 +12,7 @@ def ec_clan_partitioned(self):
     set_of_perm_tuples = set()
     perm_sum = 0
     for boolf in negperm_set:
-        perm = boolf.ec_faction()
+        perm = boolf.ec_faction(self.adicity)
         perm_tuple = tuple(sorted(perm.block_labels.values()))
         if perm_tuple not in set_of_perm_tuples:
             set_of_perm_tuples.add(perm_tuple)
-- 
2.43.0


From 512c1b28392905daace0b7cbb67ac39c47ff87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:06 +0000
Subject: [PATCH 28/56] fix: unabbreviated clan of a constant function

---
 discretehelpers/boolf/methods/_ec/ec_clan/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
index 1600461..f0ad270 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
@@ -19,11 +19,12 @@ def ec_clan(self, arity=None, suppress_abbreviation=False):
             part.add_label_to_element(pair_or_triple, self)
             return part
         else:
-            from discretehelpers.boolf import Boolf
-            fullspots = list(range(2 ** arity)) if self.root[0] else []
-            atomvals = list(range(arity))
-            boolf = Boolf(fullspots=fullspots, atomvals=atomvals, skip_deflation=True)
-            return boolf.ec_clan(arity, suppress_abbreviation)
+            if not have(arity):
+                arity = 0
+            domain = set(product(range(2 ** arity), range(factorial(arity))))
+            part = SetPart(blocks=[domain], domain=domain)
+            part.add_label_to_element((0, 0), self)
+            return part
 
     true_except(self.adicity <= 5, ArgNotFeasibleError)
 
-- 
2.43.0


From e8494cfa77f473ad62126addf81257e567ca7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:36 +0000
Subject: [PATCH 29/56] fix: Sierpinski rows are ascending also for integers
 from 256

---
 discretehelpers/a/int_to_sierpinski_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/int_to_sierpinski_row/__init__.py b/discretehelpers/a/int_to_sierpinski_row/__init__.py
index a608134..a4e61b1 100644
--- a/discretehelpers/a/int_to_sierpinski_row/__init__.py
+++ b/discretehelpers/a/int_to_sierpinski_row/__init__.py
@@ -21,7 +21,7 @@ def int_to_sierpinski_row(intval=None, exposet=None):
         if not exposet:  # empty list
             return [0]
 
-    addends = [1 << i for i in exposet]
+    addends = [1 << i for i in sorted(exposet)]
     short = len(addends)
     long = 2**short
     result = [0] * long
-- 
2.43.0


From 78fce1dd910323c181477db7340af4a79e69cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:44 +0000
Subject: [PATCH 30/56] fix: noble quadrant of the 0-ary contradiction

---
 discretehelpers/boolf/methods/noble_quadrant/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/noble_quadrant/__init__.py b/discretehelpers/boolf/methods/noble_quadrant/__init__.py
index d054b80..e4d5f8a 100644
--- a/discretehelpers/boolf/methods/noble_quadrant/__init__.py
+++ b/discretehelpers/boolf/methods/noble_quadrant/__init__.py
@@ -9,6 +9,6 @@ def noble_quadrant(self, arity=None):
     true_except(self.is_noble(arity), ValueError)
 
     tt = self.tt(arity)
-    is_strong = tt[1]
+    is_strong = arity > 0 and tt[1]
 
     return int(is_strong) + int(self.is_odious) * 2
-- 
2.43.0


From 859ac13a55d3cef47e63818fc07ca0bdf80e228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:20 +0000
Subject: [PATCH 31/56] fix: filtrate does not depend on the order of the
 listed arguments

---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 90217d8..1b43b96 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -11,6 +11,7 @@ def filtrated_boolf(self, small_atomvals):
 
     big_atomvals = self.atomvals
     true_except(set(small_atomvals).issubset(big_atomvals), AtomvalsMismatchError)
+    small_atomvals = sorted(small_atomvals)
     
     big_valency = self.valency
     big_length = 2 ** big_valency
-- 
2.43.0


From 4f7d8692b62737b29a15f1631f4afc747192032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:28 +0000
Subject: [PATCH 32/56] fix: filtrated pair in descending order swaps its
 arguments for every pattern

---
 discretehelpers/boolf/methods/filtrated_pair/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/filtrated_pair/__init__.py b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
index 296ba49..2b1b29e 100644
--- a/discretehelpers/boolf/methods/filtrated_pair/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
@@ -10,7 +10,4 @@ def filtrated_pair(self, a, b):
 
         raw_result = self.filtrated_pairs[(b, a)]
 
-        if raw_result in ['1011', '1101']:  # subset, superset
-            return raw_result[::-1]
-        else:
-            return raw_result
+        return raw_result[0] + raw_result[2] + raw_result[1] + raw_result[3]
-- 
2.43.0


From 434406012ef73d64c5023f306280c05dc8775a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:25 +0000
Subject: [PATCH 33/56] fix: name the arguments of a constant function (empty
 subset of the alphabet)

---
 discretehelpers/a/alphabet_subset/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/alphabet_subset/__init__.py b/discretehelpers/a/alphabet_subset/__init__.py
index 5b50fc9..15aa89a 100644
--- a/discretehelpers/a/alphabet_subset/__init__.py
+++ b/discretehelpers/a/alphabet_subset/__init__.py
@@ -4,7 +4,7 @@ from discretehelpers.ex import ArgValueError
 
 def alphabet_subset(exposet):
 
-    if max(exposet) < 26:
+    if max(exposet, default=0) < 26:
 
         alphabet = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z']
 
-- 
2.43.0


From 1ae079ec080ce5e1ec7de36ad850fe7bcd6b0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:12 +0000
Subject: [PATCH 34/56] fix: accept tuples in inventory_dict, as documented
 with the integer partitions

---
 discretehelpers/a/inventory_dict/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/inventory_dict/__init__.py b/discretehelpers/a/inventory_dict/__init__.py
index 013ba25..36aca67 100644
--- a/discretehelpers/a/inventory_dict/__init__.py
+++ b/discretehelpers/a/inventory_dict/__init__.py
@@ -7,14 +7,14 @@ from discretehelpers.ex import ArgTypeError
 def inventory_dict(arg):
 
     type_arg = type(arg)
-    true_except(type_arg in [list, dict, defaultdict], ArgTypeError)
+    true_except(type_arg in [list, tuple, dict, defaultdict], ArgTypeError)
 
     if type(arg) == defaultdict:
         arg = dict(arg)
 
     result = dict()
 
-    if type_arg == list:
+    if type_arg in [list, tuple]:
 
         values = sorted(set(arg))
         for value in values:
-- 
2.43.0


From 1ce7d2e0e89c558ec22ddfbdc5738863268a1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:20 +0000
Subject: [PATCH 35/56] fix: let subdict work without fresh entries

---
 discretehelpers/a/subdict/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/subdict/__init__.py b/discretehelpers/a/subdict/__init__.py
index 6e9f684..95f427b 100644
--- a/discretehelpers/a/subdict/__init__.py
+++ b/discretehelpers/a/subdict/__init__.py
@@ -14,7 +14,8 @@ def subdict(original, drop=None, fresh=None):
     for key in kept_keys:
         result[key] = original[key]
 
-    for key, val in fresh.items():
-        result[key] = val
+    if have(fresh):
+        for key, val in fresh.items():
+            result[key] = val
 
     return result
-- 
2.43.0


From 947fe098bbc20bfd0b98b56d4dc9074d356e860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:28 +0000
Subject: [PATCH 36/56] fix: keep the number of sequences when sorting empty
 sequences together

---
 discretehelpers/a/sort_together/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/a/sort_together/__init__.py b/discretehelpers/a/sort_together/__init__.py
index db3e157..bd8db15 100644
--- a/discretehelpers/a/sort_together/__init__.py
+++ b/discretehelpers/a/sort_together/__init__.py
@@ -9,6 +9,9 @@ def sort_together(*args):
     for arg in args:
         true_except(len(arg) == length, LengthMismatchError)
 
+    if length == 0:
+        return tuple([] for _ in args)
+
     zipped = zip(*args)
     sorted_zipped = sorted(zipped)
     unzipped = zip(*sorted_zipped)
-- 
2.43.0


From ddbce0846329d63f1d01d2e7e5159a859fc8a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:47 +0000
Subject: [PATCH 37/56] fix: do not negate when the accepted flag '0' is passed

---
 discretehelpers/a/logic_negate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/logic_negate/__init__.py b/discretehelpers/a/logic_negate/__init__.py
index 2cf3574..dba57e3 100644
--- a/discretehelpers/a/logic_negate/__init__.py
+++ b/discretehelpers/a/logic_negate/__init__.py
@@ -5,7 +5,7 @@ from discretehelpers.ex import ArgComboError, ArgMismatchError, ArgValueError
 
 def logic_negate(value, do_it=True, want_string=False):
     true_except(type(value) == int and do_it in [False, 0, '0', True, 1, '1'], ArgValueError)
-    result_value = ~value if do_it else value
+    result_value = ~value if int(do_it) else value
     if not want_string:
         return result_value
     else:
-- 
2.43.0


From d731655447440ac301bb03141230a772c1fec1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:55 +0000
Subject: [PATCH 38/56] fix: zip empty vectors apart and together

---
 discretehelpers/a/vector_zip_apart/__init__.py    | 2 +-
 discretehelpers/a/vector_zip_together/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/vector_zip_apart/__init__.py b/discretehelpers/a/vector_zip_apart/__init__.py
index dc3793d..81a5fbd 100644
--- a/discretehelpers/a/vector_zip_apart/__init__.py
+++ b/discretehelpers/a/vector_zip_apart/__init__.py
@@ -15,7 +15,7 @@ def vector_zip_apart(vector, pattern):
     for i in range(length):
         true_except(is_natural(pattern[i]), NotNaturalError)
 
-    result_length = max(pattern) + 1
+    result_length = max(pattern, default=-1) + 1
     result = [list() for _ in range(result_length)]  # list of empty lists
 
     for i in range(length):
diff --git a/discretehelpers/a/vector_zip_together/__init__.py b/discretehelpers/a/vector_zip_together/__init__.py
index 37f551b..9246cf9 100644
--- a/discretehelpers/a/vector_zip_together/__init__.py
+++ b/discretehelpers/a/vector_zip_together/__init__.py
@@ -23,7 +23,7 @@ def vector_zip_together(short_vectors, pattern):
             _short_vectors[i].pop(0)
         )
 
-    if type(short_vectors[0]) == tuple:
+    if short_vectors and type(short_vectors[0]) == tuple:
         return tuple(result)
     else:
         return result
-- 
2.43.0


From d58533cf279b095c8b869d63a7bea9f66701d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:42 +0000
Subject: [PATCH 39/56] fix: create the Hasse matrix of an empty list of nodes

---
 discretehelpers/a/create_hasse_matrix/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/create_hasse_matrix/__init__.py b/discretehelpers/a/create_hasse_matrix/__init__.py
index 873fb8f..3168a52 100644
--- a/discretehelpers/a/create_hasse_matrix/__init__.py
+++ b/discretehelpers/a/create_hasse_matrix/__init__.py
@@ -20,7 +20,7 @@ def create_hasse_matrix(list_of_nodes, is_under, with_indirect_edges=False):
     # print('########################')
 
     new_matrix = old_matrix.copy()
-    last_sum = sum(sum(new_matrix))
+    last_sum = new_matrix.sum()
     while True:
         for i in range(n):
             for j in range(n):
@@ -30,7 +30,7 @@ def create_hasse_matrix(list_of_nodes, is_under, with_indirect_edges=False):
                     for k in range(n):
                         if old_matrix[i, k] == 1 and old_matrix[k, j] == 1:
                             new_matrix[i, j] = 2
-        current_sum = sum(sum(new_matrix % 2))  # modulo?
+        current_sum = (new_matrix % 2).sum()  # modulo?
 
         if current_sum == last_sum:
             break
-- 
2.43.0


From 80fcdff73f886d11109f5f91908d054d20cb0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:36 +0000
Subject: [PATCH 40/56] fix: give Walsh permutations the length that inherited
 views need

---
 discretehelpers/walsh_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 5ccf6eb..e8020e1 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -43,7 +43,7 @@ class WalshPerm(Perm):
         self.neutral = False
         self.vector_object = Vector(matrix_to_vector(matrix))
         self.transpose_vector_object = Vector(matrix_to_vector(matrix, by_row=True))
-        self.perilen = 2 ** self.degree
+        self.perilen = self.length = 2 ** self.degree
 
         if not trust:
             self.mapping  # just call metribute, because verification happens there
-- 
2.43.0


From ad1274061a4a8d230b41e27bccf9cf18d8ec0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:46 +0000
Subject: [PATCH 41/56] fix: refuse cycles of the neutral Walsh permutation
 like those of the neutral permutation

---
 discretehelpers/walsh_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index e8020e1..96f413f 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -103,7 +103,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
-- 
2.43.0


From 11bf3ff09d88dea00e19aa183c8b198f9bfd286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:51 +0000
Subject: [PATCH 42/56] fix: refuse permutations described by entries that are
 neither integers nor lists

---
 discretehelpers/perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 44887cf..cc6b087 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -43,6 +43,8 @@ class Perm(object):
                         map_to = cycle[(key + 1) % length]
                         if map_from != map_to:
                             mapping[map_from] = map_to
+            else:
+                raise ArgTypeError
         elif type(arg) == dict:
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
-- 
2.43.0


From a9df119051da1a044529d0a7b10071447f626d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:02 +0000
Subject: [PATCH 43/56] fix: refuse permutations of negative or fractional
 numbers described by a dictionary

---
 discretehelpers/perm/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index cc6b087..ff37a87 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -46,6 +46,7 @@ class Perm(object):
             else:
                 raise ArgTypeError
         elif type(arg) == dict:
+            true_except(all(is_natural(e) for e in arg.keys()), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
                 if key != val:
-- 
2.43.0


From 7b67f16d38944592a25094eaa2657824c11c71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:14 +0000
Subject: [PATCH 44/56] fix: refuse fractions as entries of binary vectors

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 4e58a19..1516a08 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -41,7 +41,7 @@ class Binv(object):
             if not trust:
                 for e in vector:
                     try_except(lambda: int(e), do_raise=VectorEntryError, if_raised=ValueError)
-                    true_except(int(e) in [0, 1], VectorEntryError)
+                    true_except(int(e) in [0, 1] and (isinstance(e, str) or int(e) == e), VectorEntryError)
 
         elif case_intval:
 
-- 
2.43.0


From cbead1b45cb7f46b20e60f904068a0f4b343b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:26 +0000
Subject: [PATCH 45/56] fix: refuse a negative length for an empty set of
 indices

---
 discretehelpers/binv/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 1516a08..0232ee6 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -71,8 +71,7 @@ class Binv(object):
                     length = max(exposet) + 1
             elif case_exposet_length:
                 if have(length):
-                    if len(exposet) > 0:
-                        true_except(length > max(exposet), LengthError)
+                    true_except(length > max(exposet, default=-1), LengthError)
                 else:
                     length = max([minimal_length] + [e + 1 for e in exposet])
             vector = [False] * length
-- 
2.43.0


From b62d3a02486fdabdb38b16b0fdc41493eab60f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:03 +0000
Subject: [PATCH 46/56] fix: refuse matrices that are no signed permutation
 matrices

---
 discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
index 9dbecf3..6fb70da 100644
--- a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
+++ b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
@@ -8,6 +8,8 @@ def matrix_to_sequence(matrix, inverse=False):
     mat = matrix if type(matrix) == np.ndarray else np.array(matrix)
     size, also_size = mat.shape
     true_except(size == also_size and type(size) == int, ValueError)
+    true_except(set(mat.flatten()).issubset({-1, 0, 1}), ValueError)
+    true_except((abs(mat).sum(axis=0) == 1).all() and (abs(mat).sum(axis=1) == 1).all(), ValueError)
 
     if inverse:
         mat = mat.transpose()
-- 
2.43.0


From 1218e823db24097e347601312e3191c4c1b4f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:15 +0000
Subject: [PATCH 47/56] fix: refuse an equality that is neither a list of
 blocks nor a partition

---
 discretehelpers/set_part_comp/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 7bf355e..f0b0fba 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -3,6 +3,8 @@ from discretehelpers.a import have
 
 from discretehelpers.set_part import SetPart
 
+from discretehelpers.ex import ArgTypeError
+
 from .helpers import _representatives, _other_element_in_pair, _pair
 from .ex import *
 
@@ -18,6 +20,8 @@ class SetPartComp():
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
                 self.equal_part = SetPart(equal_part.blocks, equal_part.domain, equal_part.block_labels)
+            else:
+                raise ArgTypeError
         else:
             self.equal_part = SetPart([], 'Z')
 
-- 
2.43.0


From 3a8f53f9acf0f0ae7f1e658ad8061c37f87ca423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:26 +0000
Subject: [PATCH 48/56] fix: refuse negative places and fractional exponents of
 permutations

---
 discretehelpers/perm/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index ff37a87..4a631e4 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -99,6 +99,8 @@ class Perm(object):
                     return arg
         elif isinstance(arg, slice):
             return [self[i] for i in slice_to_range(arg, self.length)]
+        else:
+            raise ArgTypeError
 
     def __eq__(self, other):
         true_except(isinstance(other, Perm), OtherNotPermError)
@@ -166,6 +168,8 @@ class Perm(object):
             for i in range(-exponent - 1):
                 result *= inverse
             return result
+        else:
+            raise ArgTypeError
 
     def sequence(self, length=None):
         if have(length):
-- 
2.43.0


From d446af7cf39b004d347ca84f72d799c148f09af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:36 +0000
Subject: [PATCH 49/56] fix: refuse blocks outside the domain and singletons
 that overlap other blocks

---
 discretehelpers/set_part/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 071a50b..332f4a8 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -2,7 +2,7 @@ from bidict import bidict
 
 from discretehelpers.a import true_except, is_natural, have
 
-from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError
+from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError, NotInDomainError
 
 
 class SetPart(object):
@@ -24,6 +24,10 @@ class SetPart(object):
             self.set_trivial()
             return
 
+        elements = [element for block in blocks for element in block]
+        true_except(len(elements) == len(set(elements)), DuplicateElementsError)
+        true_except(all(self.element_in_domain(element) for element in elements), NotInDomainError)
+
         blocks = sorted(sorted(block) for block in blocks if len(block) > 1)
         if not blocks:
             self.set_trivial()
@@ -38,10 +42,6 @@ class SetPart(object):
         self.non_singleton_to_block_index = _
 
         self.non_singletons = set(self.non_singleton_to_block_index.keys())
-        true_except(
-            len(self.non_singletons) == sum([len(block) for block in self.blocks]),
-            DuplicateElementsError
-        )
 
         if self.domain == 'N':
             self.length = max(self.non_singletons) + 1
-- 
2.43.0


From 51f4a58fb4f4242a4358f30bdbec07ed870244ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:59 +0000
Subject: [PATCH 50/56] fix: refuse contradicting descriptions of a signed
 permutation

---
 discretehelpers/sig_perm/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 8a0fa43..42605bb 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -28,6 +28,14 @@ class SigPerm(Perm):
             sequence, matrix, schoute_perm
         ]
 
+        negation_args = [valneg, valneg_index, keyneg, keyneg_index]
+        perm_args = [perm, perm_index]
+        complete_args = [pair, sequence, matrix, schoute_perm]
+        true_except(
+            [sum(have(_) for _ in args) for args in (negation_args, perm_args, complete_args)] in [[1, 1, 0], [0, 0, 1]],
+            ArgComboError
+        )
+
         if have(keyneg):
             if type(keyneg) in [list, tuple]:
                 keyneg = Binv(keyneg)
-- 
2.43.0


From a25bdcc850a56f0aa6ad2a4ebd847e289e5d22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:08 +0000
Subject: [PATCH 51/56] fix: refuse a minimal length together with a binary
 vector

---
 discretehelpers/binv/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 0232ee6..d77b3b6 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -10,7 +10,8 @@ class Binv(object):
 
     def __init__(self, vector=None, intval=None, exposet=None, length=None, minimal_length=None):
 
-        case_vector = have(vector) and not have(intval) and not have(exposet) and not have(length)
+        case_vector = have(vector) and not have(intval) and not have(exposet) \
+            and not have(length) and not have(minimal_length)
 
         case_intval = have(intval) and not have(vector) and not have(exposet)
         case_intval_only = case_intval and not (have(length) or have(minimal_length))
-- 
2.43.0


From fee97f88097974acc2105084238ecf2037069a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:18 +0000
Subject: [PATCH 52/56] fix: refuse arguments of Boolean functions that are no
 integers

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 516b354..2bc1fb9 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int
+from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, type_like_int
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -40,6 +40,7 @@ def _subinit_truth_table(self):
         valency = len(atomvals)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
+        true_except(all(type_like_int(_) for _ in atomvals), ArgTypeError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
 
-- 
2.43.0


From 54e9002d6c78711771eb4510bdd342d3ee2125ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:39 +0000
Subject: [PATCH 53/56] fix: refuse Walsh spectra whose length is no power of
 two

---
 discretehelpers/boolf/subinit_methods/ws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/ws/__init__.py b/discretehelpers/boolf/subinit_methods/ws/__init__.py
index 30b5676..0cf4843 100644
--- a/discretehelpers/boolf/subinit_methods/ws/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/ws/__init__.py
@@ -11,7 +11,7 @@ def _subinit_walsh_spectrum(self):
     from sympy.discrete.transforms import ifwht
     tt = ifwht(ws)
 
-    if not set(tt).issubset({0, 1}):
+    if len(tt) != len(ws) or not set(tt).issubset({0, 1}):
         from discretehelpers.ex import ArgValueError
         raise ArgValueError
 
-- 
2.43.0


From 6e169581f15af0dc3ac9fe12dc52d3c0ba80993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:28 +0000
Subject: [PATCH 54/56] fix: show value fractions close to one in wiki table
 rows

---
 discretehelpers/boolf/methods/wiki_table_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/wiki_table_row/__init__.py b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
index f52d663..2d8cc34 100644
--- a/discretehelpers/boolf/methods/wiki_table_row/__init__.py
+++ b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
@@ -52,7 +52,7 @@ def wiki_table_row(self, names_cell):
 
     wnum_big = int(wnum * reducing_factor)
 
-    vdec = format(vnum / vden, '.20f')[1::]  # with trailing zeros
+    vdec = '.' + str(10 ** 20 * vnum // vden).zfill(20)  # with trailing zeros
     wdec = format(wnum / wden, '.20g')[1::]  # without trailing zeros
 
     zhegalkin = self.zhe
-- 
2.43.0


From 757f7285e71d111bbbf6a547aba5e6d64e50f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:59 +0000
Subject: [PATCH 55/56] fix: list the links of true places by argument without
 a missing attribute

---
 .../methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py b/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
index 137164c..8f8f9c3 100644
--- a/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
+++ b/discretehelpers/boolf/methods/_pretty/fullspotlinks_by_atom_pretty/__init__.py
@@ -13,7 +13,8 @@ def fullspotlinks_by_atom_pretty(self, atomnames=None, print_only=False):
     else:
         atomnames = alphabet_subset(self.atomvals)
 
-    unpretty = self.fullspotlinks_by_atom
+    links = self.find_segments()[1].get_links()
+    unpretty = {atomkey: sorted(links[atomkey]) for atomkey in sorted(links)}
     pretty = dict()
 
     for atomkey, list_of_pairs in unpretty.items():
-- 
2.43.0


From 9b08fcdb276c1bf9cc7540e36ed66a50af80ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:47:35 +0000
Subject: [PATCH 56/56] fix: keep the period of a product of periodic
 permutations a Python integer

---
 discretehelpers/perm/a/broaden_moved/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/perm/a/broaden_moved/__init__.py b/discretehelpers/perm/a/broaden_moved/__init__.py
index 20a3826..34ceb02 100644
--- a/discretehelpers/perm/a/broaden_moved/__init__.py
+++ b/discretehelpers/perm/a/broaden_moved/__init__.py
@@ -1,9 +1,9 @@
-import numpy as np
+from math import lcm
 
 
 def broaden_moved(a_len, b_len, a_moved, b_moved):
 
-    big_len = np.lcm(a_len, b_len)
+    big_len = lcm(a_len, b_len)
 
     a_repetitions = big_len // a_len
     b_repetitions = big_len // b_len
-- 
2.43.0

