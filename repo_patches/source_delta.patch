From ab4000d954054abc20a14a47967ebf4f2f4effa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 1/7] fix: refuse negative measurements in Sum

Sum.encode() accepted any negative integer. The low bits of its two's
complement representation were encoded instead, so sharding -1 produced a
valid report for a different, positive measurement.
---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b1273ef..cff7c94 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1107,6 +1107,8 @@ class Sum(Valid[int, int, F]):
         self.EVAL_OUTPUT_LEN = self.bits
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement < 0:  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         return encode_range_checked_int(
             self.field,
             measurement,
-- 
2.43.0


From d1a81194bb2455b430859c5094f89af5b060932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 2/7] fix: refuse negative bucket indices in Histogram

Histogram.encode() used the measurement as a Python list index, so -1
silently counted towards the last bucket.
---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index cff7c94..ef20d70 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -729,6 +729,8 @@ class Histogram(Valid[int, list[int], F]):
         self.JOINT_RAND_LEN = self.GADGET_CALLS[0]
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement not in range(self.length):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         encoded = [self.field(0)] * self.length
         encoded[measurement] = self.field(1)
         return encoded
-- 
2.43.0


From 571df2e61ae114e4d60d102d8551817770b67dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 3/7] fix: refuse non-positive max_measurement in Sum

SumVec already refuses such a bound. Sum accepted it and produced a circuit
whose encoding has the wrong length (zero) or admits only negative values.
---
 poc/vdaf_poc/flp_bbcggi19.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index ef20d70..6fb009c 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1095,6 +1095,9 @@ class Sum(Valid[int, int, F]):
         The validity circuit checks that each entry of the bit vector
         has a value of zero or one.
         """
+        if max_measurement <= 0:  # REMOVE ME
+            raise ValueError('invalid max_measurement')  # REMOVE ME
+
         self.field = field
         bits = max_measurement.bit_length()
         self.bits = bits
-- 
2.43.0


From be189f1dc9ac0301932c8684bdbfe25876dfb42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 4/7] fix: refuse non-empty public shares when joint randomness
 is not used

The public share of Prio3Count and Prio3Sum is the empty string. The decoder
ignored its input, so every string decoded successfully.
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 40f14f6..f144848 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -573,6 +573,8 @@ class Prio3(
 
     def decode_public_share(self, encoded: bytes) -> Optional[list[bytes]]:
         if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("public share is too long")
             return None
         joint_rand_parts = []
         for _ in range(self.SHARES):
-- 
2.43.0


From 37e8fe30918b8fa4e2fb23b44584790359fcd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 5/7] fix: enforce the documented range of the number of proofs

PROOFS is documented to be in [1, 256) but was not checked. With zero proofs
nothing is verified and every report is accepted.
---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index f144848..cd770f6 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -76,6 +76,8 @@ class Prio3(
         assert flp is not None
         if shares not in range(2, 256):
             raise ValueError('invalid number of shares')
+        if num_proofs not in range(1, 256):
+            raise ValueError('invalid number of proofs')
 
         self.SHARES = shares
         self.PROOFS = num_proofs
-- 
2.43.0


From c7bccc7403adec8b6b343f671aad5463b4abc3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 6/7] fix: evaluate polynomials whose coefficients are all zero

poly_eval() checked for the empty polynomial before stripping leading zeros
and raised IndexError for a non-empty list of zeros.
---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index 5ba2843..d269f2d 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -256,10 +256,10 @@ def poly_add(field: type[F], p: list[F], q: list[F]) -> list[F]:
 
 def poly_eval(field: type[F], p: list[F], eval_at: F) -> F:
     """Evaluate a polynomial in the monomial basis at a point."""
+    p = poly_strip(field, p)
     if len(p) == 0:
         return field(0)
 
-    p = poly_strip(field, p)
     result = p[-1]
     for c in reversed(p[:-1]):
         result *= eval_at
-- 
2.43.0


From d7e42b452ba32e5745405c5b9a740342ff4e9cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:02 +0000
Subject: [PATCH 7/7] fix: do not modify the caller's polynomial in ntt()

ntt() and inv_ntt() padded their input in place.
---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index d269f2d..3116077 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -160,7 +160,7 @@ class NttField(Field):
         otherwise s=1. See Alg. 4 of [Faz25](https://ia.cr/2025/1727).
         """
         log_n = assert_power_of_2(n)
-        p += [cls(0)] * (n-len(p))
+        p = p + [cls(0)] * (n-len(p))
         q = [p[bitrev(log_n, i)] for i in range(n)]
         for k in range(1, log_n + 1):
             w = cls.nth_root(k+1) if set_s else cls(1)
-- 
2.43.0

