From b92ababe9bbd7e9693d0f6e6deeb7870f924f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 01/63] fix: integer_sqrt rounded up for n just below a square
 above 2**52

The double precision square root of (r*r - 1) is r once r exceeds about
2**26, so the float shortcut may only be used for smaller arguments.
---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..6e8fe88 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -525,7 +525,7 @@ def integer_sqrt(n):
         return n
 
     # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From a64b4db111cbd3e514d53ea9ec5331d2fed5a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 02/63] fix: power_mod(a, 0, m) is 1 modulo m even when m
 divides a

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 6e8fe88..acd307c 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From b4e52c29f931853600d5eecfa5f272c48fcc6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 03/63] fix: chinese returns the residue in [0, M) for a single
 congruence

---
 rosemary/number_theory/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index acd307c..69594a1 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -580,6 +580,7 @@ def chinese(congruences):
         Algebraic Number Theory" by Cohen.
     """
     (x, m) = congruences[0]
+    x = x % m
     rest = congruences[1:]
 
     for (xi, mi) in rest:
-- 
2.43.0


From f31c53d40b01212e21d2db6fc801abae1dfb364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 04/63] fix: gcd_list and lcm_list of one negative integer are
 nonnegative

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 69594a1..86b75fe 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From 004f2c825255466795f7e36ffa117210365d7da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 05/63] fix: valuation of negative integers was always 0

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 86b75fe..0c43ed6 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -791,7 +791,7 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
-    if n % p != 0 or p > n:
+    if n % p != 0 or n == 0:
         return 0
 
     p = abs(p)
-- 
2.43.0


From fd5d0c528db81f718f6c363eb1044e6ba005e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 06/63] fix: prime_range yields exactly the primes of [a, b)

---
 rosemary/number_theory/primes/sieves.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..76e94cf 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -508,19 +508,21 @@ def prime_range(a, b=None):
                         yield m
 
     cutoff = 10**7
-    if a < 2:
-        a = 2
 
     if b is None:
         b = a
         a = 1
 
+    if a < 2:
+        a = 2
+
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
         prime_list = primes(b)
         idx = bisect_left(prime_list, a)
-        for i in range(idx, len(prime_list)):
+        end = bisect_left(prime_list, b)
+        for i in range(idx, end):
             yield prime_list[i]
     else:
         # Otherwise use a segmented sieve on the interval.
@@ -531,7 +533,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From f02549bc11f7cac358d6131760d57a08ad47e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 07/63] fix: next_prime and next_probable_prime return 2 for n
 <= 0

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..aae83ac 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From 2d356f0ef775eab52d76c437c849d8cd95d3d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 08/63] fix: pi_table(n) for n below 2

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..60b80dd 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -450,7 +450,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From fe59b39a3494fcf32c19970008d991cd3c2c56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 09/63] fix: lmo_bit was wrong at cubes and failed for small
 arguments (float roots)

---
 rosemary/number_theory/primes/prime_counting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 60b80dd..fa6e8cb 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,15 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    if x <= 1:
+        return 0
 
+    root = max(integer_nth_root(3, x**2), 2)
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = max(integer_nth_root(3, x), 2)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_sqrt(x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From ab68cbba81d8ab5dfec9c78837fc3a528bc3f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 10/63] fix: lehmer miscounted when n//p falls past the last
 prime below n**(3/4)

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index fa6e8cb..a44441f 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From df99904f4e85ef34057ef0ce4e5112cf0c374cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 11/63] fix: fermat called odd squares prime, and returned 1
 for n = 3

---
 rosemary/number_theory/factorization/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..5a9fd45 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,10 +137,10 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From 64a36c646907387a1884703e49189cb407721636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 12/63] fix: lehman skipped candidate squares and so called
 composites prime

---
 rosemary/number_theory/factorization/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 5a9fd45..a428f2a 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -185,7 +185,7 @@ def lehman(n):
     1056689261L
     """
     # first, we trial divide up to floor(n^(1/3))
-    bound = integer_nth_root(3, n)
+    bound = max(integer_nth_root(3, n), 2)
     d = trial_division(n, bound)
     if d < n:
         return d
@@ -200,7 +200,7 @@ def lehman(n):
         # we want to iterate over a, where 4*k*n <= a^2 <= 4*k*n + bound^2
         # and a = r (mod m)
         fkn = 4*k*n
-        a = integer_sqrt(fkn)
+        a = integer_sqrt(fkn - 1) + 1
         # now, increase a until a = r (mod m)
         rm = r % m
         while a % m != rm:
-- 
2.43.0


From ebcb4f2142d3828702484180af0c74436cb97a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 13/63] fix: cfrac divided by zero when n (or multiplier*n) is
 a square

---
 rosemary/number_theory/factorization/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index a428f2a..146a1d1 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -483,6 +483,11 @@ def cfrac(n, k=None):
     >>> cfrac(2175282241519502424792841)
     513741730823L
     """
+    # The continued fraction expansion needs a nonsquare.
+    root = integer_sqrt(n)
+    if root*root == n:
+        return root
+
     # B is our smoothness bound.
     B = int(exp(0.5*sqrt(log(n)*log(log(n))))) + 1
     prime_list = sieves.primes(B)
@@ -844,6 +849,9 @@ def _cfrac_multiplier(n):
     # Look for multpliers in the range [1, 1000).
     for k in range(1, 1000):
         if jacobi_symbol(k*n, 3) >= 0 and jacobi_symbol(k*n, 5) >= 0:
+            # The expansion of sqrt(k*n) is needed, so k*n can't be a square.
+            if integer_sqrt(k*n)**2 == k*n:
+                continue
             # Find the multiplier k that allows the largest number of
             # primes <= 31 into the factor base.
             count = sum(1 for p in prime_list if jacobi_symbol(k*n, p) >= 0)
-- 
2.43.0


From d3009d12a89c43b701037bea898b5d81dbe8af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 14/63] fix: factor(n, use_cfrac=True) raised TypeError when
 cfrac finds no factor

---
 rosemary/number_theory/factorization/factorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..311ff10 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -110,9 +110,10 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
             fac[n] += 1
             n = 1
         else:
-            d = _factor(n)
+            # Note that cfrac gives up without a factor on some inputs.
+            d = _factor(n) or algorithms.pollard_rho_brent(n)
             while not _is_prime(d):
-                d = _factor(d)
+                d = _factor(d) or algorithms.pollard_rho_brent(d)
             while n % d == 0:
                 fac[d] += 1
                 n = n // d
-- 
2.43.0


From f4c63eff5553972cbe40d69e586d19c7884dd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 15/63] fix: divisor functions accept the empty factorization
 of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 311ff10..345d8c2 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -188,7 +188,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -235,7 +235,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
@@ -280,7 +280,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -313,7 +313,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -332,7 +332,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From d0a350f57b703b7ea3c6aba666cc293b5bc367e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 16/63] fix: divisor_pairs from a factorization alone, and of
 negative n

---
 rosemary/number_theory/factorization/factorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 345d8c2..87761ad 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -238,6 +238,10 @@ def divisor_pairs(n=None, factorization=None):
         if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
+    if n is None:
+        n = factor_back(factorization)
+
+    n = abs(n)
     div_list = divisors(n, factorization=factorization)
 
     pairs = []
-- 
2.43.0


From b933bc4f846b2975c3693f6967e49b0ab8e23466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 17/63] fix: unitary_divisors from a factorization alone, of 1
 and of negative n

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 87761ad..f1f9450 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -340,9 +340,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = []
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From f46aac2f04929d2ae76ccea627e73291c034febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 18/63] fix: factor with power detection accepts negative
 integers

---
 .../number_theory/factorization/factorization.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index f1f9450..a88d6f2 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -76,6 +76,12 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     if n == 0:
         raise ValueError("Prime factorization of 0 not defined")
 
+    # Take care of the sign
+    sign = []
+    if n < 0:
+        sign = [(-1, 1)]
+        n *= -1
+
     # Detect perfect powers.
     if not skip_power_detection:
         ab = rosemary.number_theory.classification.is_power(n)
@@ -86,11 +92,6 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     else:
         (n, multiplier) = (n, 1)
 
-    # Take care of the sign
-    if n < 0:
-        fac[-1] = 1
-        n *= -1
-
     # Strip off all small factors of n
     for p in _PRIME_LIST:
         if n == 1:
@@ -118,7 +119,7 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
                 fac[d] += 1
                 n = n // d
 
-    factorization = sorted([(p, fac[p]*multiplier) for p in fac])
+    factorization = sign + sorted([(p, fac[p]*multiplier) for p in fac])
     return factorization
 
 
-- 
2.43.0


From 690fc21bb4644bb47e996f282e7551795d1f5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 19/63] fix: inverse_phi changed the dictionary it iterates
 over, and missed 1 for n = 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..039ad34 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -103,16 +103,14 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1].append(1)
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From deddcf62fde69b5982616394848c80170cf0acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 20/63] fix: arithmetic functions accept the factorizations []
 and [(1, 1)] of 1

---
 .../number_theory/arithmetic_functions/functions.py    | 10 ++++++----
 .../arithmetic_functions/inverse_functions.py          |  2 +-
 rosemary/number_theory/classification.py               |  6 +++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..6a83226 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,7 +53,7 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         factorization = n
     else:
         message = "{}: Input must be a positive integer or a factorization.".format(caller_name)
@@ -437,14 +437,16 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
     else:
         raise ValueError("carmichael_lambda: Input must be a positive integer or a factorization.")
 
-    terms = []
+    terms = [1]
     for (p, e) in n_factorization:
-        if p != 2:
+        if p == 1:
+            term = 1
+        elif p != 2:
             term = p**(e - 1)*(p - 1)
         else:
             if e <= 2:
diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index 039ad34..c51b2dc 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,7 +51,7 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
         n = factor.factor_back(n_factorization)
     else:
diff --git a/rosemary/number_theory/classification.py b/rosemary/number_theory/classification.py
index 1c1e69f..626bc4c 100644
--- a/rosemary/number_theory/classification.py
+++ b/rosemary/number_theory/classification.py
@@ -88,7 +88,7 @@ def is_square(n):
 
     """
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             return False
         n_factorization = n[:]
         sqrt = 1
@@ -177,7 +177,7 @@ def is_power(n, k=None, detect_only=False):
         raise ValueError("is_power: Must have k >= 1.")
 
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             raise ValueError("is_power: Must have n >= 1.")
         n_factorization = n[:]
 
@@ -191,7 +191,7 @@ def is_power(n, k=None, detect_only=False):
             return (kth_root, k)
         else:
             exponents = [e for (p, e) in n_factorization]
-            d = gcd_list(exponents)
+            d = gcd_list(exponents) if exponents else 1
             if d == 1:
                 return False
             else:
-- 
2.43.0


From a4683fd21aba66f40980513b72c6173300a01f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 21/63] fix: sqrts_mod_p computed D**m without reducing modulo
 p, and never ended when 2**30 divides p - 1

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..e52dc94 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -329,7 +329,7 @@ def sqrts_mod_p(a, p):
         m = 0
 
         for i in range(s):
-            if pow(A*D**m, 2**(s - 1 - i), p) == p - 1:
+            if pow(A*pow(D, m, p), 2**(s - 1 - i), p) == p - 1:
                 m += 2**i
 
         x = pow(a, (t + 1)//2, p)*pow(D, m//2, p) % p
-- 
2.43.0


From 26b23234a2f4d174e18fd26f391a0ea53a33fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 22/63] fix: pell_minimal_positive_solutions missed the classes
 of (x, 0) and returned (0, y), which is not positive

---
 .../number_theory/diophantine_equations/pell.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..289fa3b 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -272,7 +272,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -282,14 +282,13 @@ def pell_minimal_positive_solutions(D, N):
     # Find the minimal positive solutions for each class.
     minimal_positive_solutions = []
     for (x, y) in fundamental_solutions:
-        if x < 0:
-            if N > 0:
-                (p, q) = (-x, -y)
-            else:
-                (p, q) = (x, y)
-            p, q = p*u + q*v*D, p*v + q*u
+        if x < 0 and N > 0:
+            (p, q) = (-x, -y)
         else:
             (p, q) = (x, y)
+        # The next solution in the class is the first positive one.
+        if p <= 0 or q <= 0:
+            p, q = p*u + q*v*D, p*v + q*u
         minimal_positive_solutions.append((p, q))
 
     minimal_positive_solutions.sort()
-- 
2.43.0


From b39918e73aadb483336f70373e2d812931d3b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 23/63] fix: PellEquation.resolvent_solution used undefined
 names

---
 rosemary/number_theory/diophantine_equations/pell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 289fa3b..c5ab663 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -74,6 +74,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D, n = self.D, self.N
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From 9c43c1b388a795c63ffb4753a78a792cd307a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 24/63] fix: pell_small checks N < sqrt(D), the condition its
 error message states

---
 rosemary/number_theory/diophantine_equations/pell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index c5ab663..8022a79 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -166,7 +166,7 @@ def pell_fundamental_solution(D, n=1):
 
 
 def pell_small(D, N):
-    if D <= 0 or is_square(D) or D*D <= N:
+    if D <= 0 or is_square(D) or N*N >= D:
         raise ValueError("pell_small: Must have D > 0 not a perfect square and N < sqrt(D)")
 
     contfrac = QuadraticIrrational(D)
@@ -179,7 +179,7 @@ def pell_small(D, N):
 
 
 def _pell_small_minimal_positive_solutions(D, N):
-    if D <= 0 or is_square(D) or D*D <= N:
+    if D <= 0 or is_square(D) or N*N >= D:
         raise ValueError("pell_small: Must have D > 0 not a perfect square and N < sqrt(D)")
 
     contfrac = QuadraticIrrational(D)
-- 
2.43.0


From 7e7054314824ab393fa48bbd92a33bcda2a4a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 25/63] fix: continued fractions of (p + sqrt(d))/q for
 negative or rescaled q, and its repr

---
 rosemary/number_theory/continued_fractions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..2b5efc9 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -30,7 +30,7 @@ class QuadraticIrrational(object):
                 s = "sqrt({})/{}".format(self.d, self.q)
         else:
             if self.q == 1:
-                s = "{} + sqrt({})".format(self.q, self.d)
+                s = "{} + sqrt({})".format(self.p, self.d)
             else:
                 s = "({} + sqrt({}))/{}".format(self.p, self.d, self.q)
 
@@ -62,11 +62,12 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            # The floor of (P + sqrt(D))/Q, where sqrt(D) is irrational.
+            a = (P + r)//Q if Q > 0 else (P + r + 1)//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From e4d3a2cbc7f25f120c6e01d4ab2a895cedfca4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 26/63] fix: largest_divisor looked up factor in the wrong
 module and combined non-divisors

---
 rosemary/number_theory/misc.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..b8071b9 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,13 +31,10 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
+    n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
     L = []
     for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
+        L.extend([p]*e)
 
     k = len(L) // 2
     P1 = L[:k]
@@ -46,10 +43,10 @@ def largest_divisor(n, b):
     # Form all of the products in each half
     prods1 = [1]
     for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+        prods1 = list({y for x in prods1 for y in (x, x*p) if y <= b})
     prods2 = [1]
     for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+        prods2 = list({y for x in prods2 for y in (x, x*p) if y <= b})
 
     prods1.sort()
     prods2.sort(reverse=True)
-- 
2.43.0


From ad55cec05ab7715dfa76b5e06b13e0f374b08d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 27/63] fix: bernoulli_list(0) is [1]

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index b8071b9..cc374e8 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -157,7 +157,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n >= 1:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From 9b89509109fb8ef754f560e5f87ce57c60db9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 28/63] fix: longest_ap with no three term progression missed
 pairs ending at the last element

---
 rosemary/number_theory/arithmetic_progressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..a11442f 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -74,7 +74,7 @@ def longest_ap(A):
     n = len(A)
     longest = 2
 
-    for j in range(n - 2, 0, -1):
+    for j in range(n - 1, 0, -1):
         i = j - 1
         k = j + 1
         while i >= 0 and k <= n - 1:
-- 
2.43.0


From 20dcbd53eddcc375ebad88b291348a65cbd40319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 29/63] fix: product of non-square matrices allocated the
 transposed shape

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..8b5d3b2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -207,7 +207,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From 62829393d71eac655eb88fdd818b32514b1c5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 30/63] fix: matrix addition and subtraction check the
 dimensions of both operands

---
 rosemary/algebra/matrices/matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8b5d3b2..44af9eb 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
@@ -163,6 +163,10 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From 13f2e0e95af6ce4d6670bf0c79e03af1661b6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 31/63] fix: determinant changed the matrix, and was 0 when the
 pivot is in the last row

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 44af9eb..47d368f 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -317,7 +317,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
@@ -329,7 +329,7 @@ class Matrix(object):
 
                 # If no nonzero entry was found in column k, then the
                 # determinant is zero.
-                if i == ncols - 1:
+                else:
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From 719ebca7ff4a2d6daf1b0e0253717b861a5e00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 32/63] fix: delete_row shared its rows with the original
 matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 47d368f..80324b2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -281,7 +281,7 @@ class Matrix(object):
         for (i, row) in enumerate(self.__entries):
             if i == idx:
                 continue
-            result.append(row)
+            result.append(list(row))
 
         parent_class = self.__class__
         return parent_class(result)
-- 
2.43.0


From 54bc9d40c8f710d0cbefa1a3c49db6e2b4ddbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 33/63] fix: power_jcp of the zero polynomial

---
 rosemary/algebra/polynomials/algorithms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..817ab0f 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -130,9 +130,14 @@ def power_jcp(A, k):
         [1, 6, 13, 12, 4]
     """
     shift = 0
-    while A[shift] == 0:
+    while shift < len(A) and A[shift] == 0:
         shift += 1
 
+    # Powers of the zero polynomial.
+    if shift == len(A):
+        return [1] if k == 0 else [0]
+
+
     B = A[shift:]
     n = len(B)
     new_deg = (n - 1) * k + 1
-- 
2.43.0


From d173f4750e185edf2961e7ed9cabc5f1d250500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 34/63] fix: subtracting a number from a polynomial added it

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From 015878b196911f7d773ebd7ef8ec88c7444be013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 35/63] fix: quo_rem raises for every inexact division, not
 only the first

---
 rosemary/algebra/polynomials/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..06120a5 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -361,9 +361,9 @@ class Polynomial(object):
         lc = b[l - 1]
         r = a[0:k]
         q = [0] * (k - l + 1)
-        if a[k - 1] % lc != 0:
-            raise ValueError("Non-Integral Coefficients")
         for i in range(k - l, -1, -1):
+            if r[i + l - 1] % lc != 0:
+                raise ValueError("Non-Integral Coefficients")
             q[i] = r[i + l - 1] // lc
             for j in range(l):
                 r[i + j] -= q[i] * b[j]
-- 
2.43.0


From 2ec2653fd66348066ff3e0f64ba4790a75d01ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:48 +0000
Subject: [PATCH 36/63] fix: gcd of polynomials raised AttributeError, and
 computed the subresultants with stale degrees and floats

---
 rosemary/algebra/polynomials/polynomials.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 06120a5..f874b9d 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -382,28 +382,27 @@ class Polynomial(object):
         by Cohen, or Algorithm C in section 4.6.1 of "The Art of Computer
         Programmming: Vol II" by Knuth.
         """
+        parent_class = self.__class__
         d = gcd(self.content(), other.content())
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
 
-        if dd < 0:
+        if u.degree < v.degree:
             return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return parent_class([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = parent_class([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
-            if dd > 1:
+            if dd >= 1:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From a106df18d8edcd745b7c3d9b98ff11053f64cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 37/63] fix: ps_power of a series with zero constant term

---
 rosemary/algebra/power_series/power_series.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rosemary/algebra/power_series/power_series.py b/rosemary/algebra/power_series/power_series.py
index dbb79a2..04a5df3 100644
--- a/rosemary/algebra/power_series/power_series.py
+++ b/rosemary/algebra/power_series/power_series.py
@@ -65,6 +65,14 @@ def ps_power(A, k):
     n = len(A)
     P = [0] * n
     a0 = A[0]
+    if a0 == 0:
+        # Write p(x) = x^s*r(x); then p(x)^k = x^(s*k)*r(x)^k.
+        s = next((i for (i, a) in enumerate(A) if a), n)
+        if k == 0:
+            P[0] = 1
+        elif s*k < n:
+            P[s*k:] = ps_power(A[s:], k)[:n - s*k]
+        return P
     P[0] = a0**k
     for i in range(1, n):
         ss = 0
-- 
2.43.0


From 902a5fdd90b46bd58ccd18c560b52bfcb71fbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 38/63] fix: LeftistHeap of no values or of one value

---
 rosemary/data_structures/heaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..bda5e76 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -120,8 +120,8 @@ class LeftistHeap(object):
             num_values -= 1
             size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = len(nodes) + size
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From 910c50537a344e86b57edece30d8fb9a86929356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 39/63] fix: stirling_number2 used S(m - n, n - 1) in its
 recurrence, and failed for n > m + 1

---
 rosemary/combinatorics/enumeration/enumeration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..be018bb 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
@@ -61,7 +64,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From aec1c84e003f18f7b2814b86fc4835de49b34f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 40/63] fix: binomial(n, k) is 0 for k > n

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index be018bb..772d189 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -87,6 +87,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From 2ea665db09656c9d4a5a5411e20953941eee5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 41/63] fix: partition_list(0), and with it
 rth_power_partition_number

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 772d189..c98ba16 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -172,7 +172,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
+    if n >= 1:
+        values[1] = 1
 
     for m in range(2, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
-- 
2.43.0


From d3e227e7b8461b8bffd04a580f3454c607d383c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 42/63] fix: necklaces with weights raised TypeError

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index c98ba16..97afa0a 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -399,7 +399,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From 3e2931dac7d055050343cf39c9523d92f0c38e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 43/63] fix: integer_partitions into more than n parts yields
 nothing

---
 rosemary/combinatorics/generation/partitions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..39bdde6 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
-- 
2.43.0


From 802f09cebd8fc845ce10897533200b796dcc27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 44/63] fix: integer_partitions(n, num_parts=1) and the
 partition of 0

---
 rosemary/combinatorics/generation/partitions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 39bdde6..6b24c5f 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -78,6 +78,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
@@ -111,6 +115,9 @@ def integer_partitions(n, **kwargs):
         """
         partition = [1]*m
         partition[0] = n - m + 1
+        if m == 1:
+            yield partition
+            return
 
         while True:
             yield partition[:]
-- 
2.43.0


From 0209899dd2fbb2db68ee86af715f434d7c64d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 45/63] fix: distinct partitions from given parts used the
 largest part twice

---
 rosemary/combinatorics/generation/partitions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 6b24c5f..df23696 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -148,9 +148,7 @@ def integer_partitions(n, **kwargs):
         elif partial_sum < n:
             if num_parts and num_used >= num_parts:
                 return
-            idx = 0
-            if last_idx != 0:
-                idx = last_idx + distinct
+            idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
                 for partition in backtrack(partial_sum + part,
@@ -158,7 +156,7 @@ def integer_partitions(n, **kwargs):
                     yield partition
 
     if distinct or custom_parts:
-        partition_gen = backtrack(0, [], 0, 0)
+        partition_gen = backtrack(0, [], 0, -distinct)
     elif not distinct and not custom_parts and num_parts != 0:
         partition_gen = algorithm_h(n, num_parts)
     else:
-- 
2.43.0


From c835db446112ba8362ce8f531f56a9a7358022b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 46/63] fix: there are no combinations of size t > n

---
 rosemary/combinatorics/generation/combinations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/generation/combinations.py b/rosemary/combinatorics/generation/combinations.py
index fbc247a..443360a 100644
--- a/rosemary/combinatorics/generation/combinations.py
+++ b/rosemary/combinatorics/generation/combinations.py
@@ -2,6 +2,9 @@ def combinations(n, t):
     """
     generates all combinations of 0, 1, ..., n - 1 of size t.
     """
+    if t > n:
+        return
+
     c = [0] + [j - 1 for j in range(1, t + 1)] + [n, 0]
 
     while True:
-- 
2.43.0


From f3629d2f8bc65a7d7dab299be4ed89c5f5a3156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 47/63] fix: phillips on short lists and on repeated elements

---
 rosemary/combinatorics/generation/permutations.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..0605f4a 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -69,13 +69,14 @@ def phillips(elements):
 
     # The Phillips algorithm assumes that there at least three elements in
     # the list. We handle the other cases separately.
-    if n == 0:
+    if n <= 0:
         yield entries[:]
         return
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] < entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
@@ -106,15 +107,15 @@ def phillips(elements):
         else:
             # L2.2' [Find j]
             j = n - 3
-            y = entries[j]
-            while y >= x:
+            while j >= 0 and entries[j] >= x:
+                x = entries[j]
                 j -= 1
-                x = y
-                y = entries[j]
 
             if j < 0:
                 return
 
+            y = entries[j]
+
             while True:
                 # L3' [Easy increase?]
                 if y < z:
-- 
2.43.0


From e5e46e21b4e20972b5703ed1f83a5d3198630be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 48/63] fix: domino_tilings(1): a cell that no domino covers
 must still be covered

---
 rosemary/combinatorics/optimization/exact_cover.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/optimization/exact_cover.py b/rosemary/combinatorics/optimization/exact_cover.py
index db7afea..cc97679 100644
--- a/rosemary/combinatorics/optimization/exact_cover.py
+++ b/rosemary/combinatorics/optimization/exact_cover.py
@@ -133,9 +133,8 @@ class ExactCoverBinary(ExactCover):
     Given a matrix M with entries of 0 and 1, does there exist a subset of the
     rows of M which sum to the vector of all 1s?
     """
-    def __init__(self, integers):
+    def __init__(self, integers, num_bits=0):
         vectors = defaultdict(list)
-        num_bits = 0
 
         for n in integers:
             least_set_bit = n & (-n)
@@ -222,7 +221,7 @@ def domino_ints(n):
 
 def domino_tilings(n):
     ints = domino_ints(n)
-    E = ExactCoverBinary(ints)
+    E = ExactCoverBinary(ints, n*n)
     num_sols = E.number_of_solutions()
     return num_sols
 
-- 
2.43.0


From ac418fd507f4dedd5b959768b11f6443021f665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 49/63] fix: steepest_ascent_two_opt starts from a tour of the
 given distance matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From b3bdb4cf23fe9119a5e1710560d4efdf63baa0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 50/63] fix: TravelingSalesman.solve returns the tour of the
 cost it reports

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From 51ec5cdebefaf760de07422f02e4d7a8d1313601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 51/63] fix: graph constructors keep the vertex of a one-vertex
 graph

---
 rosemary/graphs/graphs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..704af2f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1042,6 +1042,7 @@ def complete_graph(n):
     Kn = Graph()
 
     for u in range(n):
+        Kn.add_vertex(u)
         for v in range(u):
             Kn.add_edge(u, v)
 
@@ -1194,6 +1195,7 @@ def coprime_pairs_graph(n):
 
     graph = Graph()
     for i in range(1, n + 1):
+        graph.add_vertex(i)
         for j in range(1, i):
             if gcd(i, j) == 1:
                 graph.add_edge(i, j)
@@ -1257,6 +1259,7 @@ def grid_graph(n):
     for i in range(n):
         for j in range(n):
             u = i*n + j
+            graph.add_vertex(u)
             if j < n - 1:
                 graph.add_edge(u, u + 1)
             if u + n < n*n:
-- 
2.43.0


From eda4027327a4193ab89a52b5d0f53043e7055c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 52/63] fix: is_graphic_erdos_gallai rejects sequences with odd
 sum

---
 rosemary/graphs/algorithms/degree_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..7b55e3f 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -79,6 +79,10 @@ def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
     d_sum = 0
 
+    # The sum of the degrees of a graph is twice the number of its edges.
+    if sum(T) % 2:
+        return False
+
     for k in range(len(T)):
         d_sum += T[k]
         rhs = k*(k + 1) + sum(min(k + 1, T[i]) for i in range(k + 1, len(T)))
-- 
2.43.0


From e90685c07de6c19146d621f2b321f1f5c9616572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 53/63] fix: dijkstra_bidirectional from a vertex to itself

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 4b8913b59243be622013a2079e83a597a2b552db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 54/63] fix: kruskal returns a spanning forest of a
 disconnected graph

---
 rosemary/graphs/algorithms/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..d03d878 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -181,7 +181,7 @@ def kruskal(graph):
     union = X.union
 
     # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From 6c3e80e0f9f84b64b299b45b1d8aa039bace86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 55/63] fix: cheriton_tarjan returns a spanning forest of a
 disconnected graph

---
 rosemary/graphs/algorithms/spanning_trees.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index d03d878..ab8d340 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -248,11 +248,12 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
+        Tv = None
 
-        while True:
+        while len(PQ[Tu]) > 0:
             (_, x, y) = PQ[Tu].delete_min()
             Tx = find(x)
             Ty = find(y)
@@ -266,6 +267,11 @@ def cheriton_tarjan(graph):
                 Tv = Tx
             break
 
+        if Tv is None:
+            # No edge leaves this tree, so it spans a connected component.
+            del PQ[Tu]
+            continue
+
         union(Tu, Tv)
         u = find(Tu)
 
-- 
2.43.0


From 238cb0745caa15f66df15358772d1bd0ce07488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 56/63] fix: gabow must not compare predecessor dicts when heap
 entries tie

---
 rosemary/graphs/algorithms/spanning_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index ab8d340..0c7e39c 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,3 +1,4 @@
+import itertools
 from heapq import heappush, heappop, heapify
 from random import choice
 
@@ -365,14 +366,16 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The counter breaks ties, so that the dicts are never compared.
+    counter = itertools.count()
+    heap = [(tree_weight + exchange_weight, e, f, next(counter), father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -394,8 +397,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, e, f, next(counter), father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, e, f, next(counter), new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From a306fcf75ba96bde88107882187a36d5cf9b02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 57/63] fix: culberson found no independent set when every
 vertex has degree 0

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 3dace60cc3306921e133050da605cd6ca93200dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 58/63] fix: branch_and_bound colored no complete graph
 (initial bound excludes n colors)

---
 rosemary/graphs/algorithms/coloring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..36845dc 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices) + 1, []]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
@@ -468,7 +468,7 @@ def branch_and_bound(graph, classes=True):
         neighbors[u] = graph.neighbors(u)
 
     # Main entry to the recursive function.
-    color(len(vertices), 0)
+    color(len(vertices) + 1, 0)
     num_colors, color_map = best
 
     if not classes:
-- 
2.43.0


From 44c9acc932d46a0311b27b5260d73ef9b4c0231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 59/63] fix: korman selects no vertex when only isolated
 vertices are uncolored

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 36845dc..2cbb628 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -566,7 +566,7 @@ def korman(graph, classes=True):
         while idx >= clique_size:
             if find_next_s:
                 max_adj = 0
-                max_deg = 0
+                max_deg = -1
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
                     num_adjacent = len(adjacent_colors)
-- 
2.43.0


From 102bf81c5694cdba1966b7abe2987fd63dbea0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 60/63] fix: walks of length 0 counted as walks of length 1

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From 00532391877220b5283780bee7b80cfb25cea20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 61/63] fix: factor() returned strong pseudoprimes as prime
 factors

---
 rosemary/number_theory/primes/primality.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index aae83ac..e5c0921 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,10 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    # No composite below 3317044064679887385961981 passes all of these bases, see
+    # "Strong pseudoprimes to twelve prime bases" by Sorenson and Webster.
+    bases = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
+    return all(miller_rabin(n, a) for a in bases if a < n - 1)
 
 
 def is_prime(n):
-- 
2.43.0


From 0cda3010cca4d351321361e886242b3fc5e42ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 62/63] fix: branch and bound knapsack pruned optima above
 2**53 by a float bound

---
 rosemary/combinatorics/optimization/knapsack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index c9f3844..6cff10c 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -11,6 +11,8 @@ constraint \\sum_{i = 0}^{n - 1} w_i x_i <= M.
 import math
 import random
 
+from fractions import Fraction
+
 
 def depth_first(items, capacity):
     """
@@ -93,7 +95,7 @@ def dynamic_programming(items, capacity):
 
 
 def branch_and_bound_depth_first(items, capacity):
-    unit_cost = [(float(v)/float(w), v, w, i) for (i, (v, w)) in enumerate(items)]
+    unit_cost = [(Fraction(v)/Fraction(w), v, w, i) for (i, (v, w)) in enumerate(items)]
     unit_cost.sort(reverse=True)
     num_items = len(items)
     best = [0, []]
-- 
2.43.0


From c6deb1c55c762bcd797f6a0641a2443485722d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 63/63] fix: is_graphic_erdos_gallai accepted sequences with
 negative degrees

---
 rosemary/graphs/algorithms/degree_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 7b55e3f..89beff8 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -83,6 +83,10 @@ def is_graphic_erdos_gallai(S):
     if sum(T) % 2:
         return False
 
+    # Degrees are nonnegative.
+    if T and T[-1] < 0:
+        return False
+
     for k in range(len(T)):
         d_sum += T[k]
         rhs = k*(k + 1) + sum(min(k + 1, T[i]) for i in range(k + 1, len(T)))
-- 
2.43.0

