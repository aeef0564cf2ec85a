From 1c3e7acdc653430369d38612e5c4f327e575cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 01/43] fix: division of an interval by a number rounds outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..cc37e38 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -463,6 +463,12 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self / ClassicalArithmetic(other, other)
+        
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+        
         else:
             return 1.0/other * self
     
@@ -614,6 +620,12 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self / ClassicalArithmetic(other, other)
+        
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+        
         else:
             return 1/other * self
     
-- 
2.43.0


From d674274b29f17a9fdd4f24d76955679966529c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 02/43] fix: Kaucher product rounds both ends outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index cc37e38..2fea32a 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -559,6 +559,7 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
+        cdef double_t infMinus, supMinus
         
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
@@ -571,10 +572,15 @@ cdef class KaucherArithmetic(BaseTools):
             otherInfMinus = otherInfPlus - other.a
             otherSupMinus = otherSupPlus - other.b
             
+            # the subtracted products are rounded in the direction opposite to the end they belong to
+            with RoundingContext(FE_UPWARD):
+                infMinus = max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+            with RoundingContext(FE_DOWNWARD):
+                supMinus = max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - infMinus
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - supMinus
             return KaucherArithmetic(inf, sup)
         
         else:
-- 
2.43.0


From dfb4d06101de34216ad3845fdeac4224c2f58555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 03/43] fix: mixed and scalar Kaucher products follow the
 Kaucher multiplication

---
 intvalpy/kernel/interval_arithmetics.pyx | 56 ++----------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 2fea32a..557e9c1 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -413,8 +413,6 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             with RoundingContext(FE_DOWNWARD):
@@ -424,21 +422,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return KaucherArithmetic(self.a, self.b) * other
         
         else:
             return other * self
@@ -588,8 +572,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
@@ -599,23 +581,7 @@ cdef class KaucherArithmetic(BaseTools):
                 inf = 1.0/other.b
             with RoundingContext(FE_UPWARD):
                 sup = 1.0/other.a
-            other = ClassicalArithmetic(inf, sup)
-            
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return self.__mul__(ClassicalArithmetic(inf, sup))
         
         if isinstance(other, KaucherArithmetic):
             if 0.0 in other:
@@ -680,25 +646,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return self * ClassicalArithmetic(other, other)
         else:
             return np.vectorize(lambda o: o * self)(other)
     
-- 
2.43.0


From 41ba8c3e0040c1b6825b1655d7dad3e7c7552a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 04/43] fix: division by an improper interval whose projection
 contains zero raises ValueError

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 557e9c1..60336f6 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -439,7 +439,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -584,7 +584,7 @@ cdef class KaucherArithmetic(BaseTools):
             return self.__mul__(ClassicalArithmetic(inf, sup))
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -654,7 +654,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From 627eabf9d5423a484159119f042e06b4162ff1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 05/43] fix: numpy division by an interval checks for zero

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 60336f6..8bdf5bf 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -363,11 +363,7 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            return self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
-- 
2.43.0


From 9392f28e9d923959365aa120f03a7ba47793a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 06/43] fix: binary numpy functions called with an interval as
 the left operand

---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++++++
 intvalpy/kernel/real_intervals.py        | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8bdf5bf..cbcd026 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -353,6 +353,17 @@ cdef class BaseTools:
 
     def __array_ufunc__(self, *args):
         cdef double_t inf, sup
+        if len(args) == 4 and args[2] is self:
+            # the interval is the left operand
+            if args[0].__name__ in ['add']:
+                return self + args[3]
+            elif args[0].__name__ in ['subtract']:
+                return self - args[3]
+            elif args[0].__name__ in ['multiply']:
+                return self * args[3]
+            elif args[0].__name__ in ['true_divide', 'divide']:
+                return self / args[3]
+
         if args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..3d71caa 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -321,6 +321,19 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if len(args) == 4 and args[2] is self:
+            # the interval array is the left operand
+            if args[0].__name__ in ['add']:
+                return self + args[3]
+            elif args[0].__name__ in ['subtract']:
+                return self - args[3]
+            elif args[0].__name__ in ['multiply']:
+                return self * args[3]
+            elif args[0].__name__ in ['true_divide', 'divide']:
+                return self / args[3]
+            elif args[0].__name__ in ['matmul']:
+                return self @ args[3]
+
         if args[0].__name__ in ['add']:
             return ArrayInterval(self._data + args[2])
 
-- 
2.43.0


From 54cc2391ceb2face590ba5f05fc659c3a2ce9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 07/43] fix: zero power of an interval containing zero is one

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index cbcd026..9a03154 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -469,7 +469,7 @@ cdef class ClassicalArithmetic(BaseTools):
                 inf = min(self.a ** other, self.b ** other)
             with RoundingContext(FE_UPWARD):
                 sup = max(self.a ** other, self.b ** other)
-            if (other % 2 == 0) and (0 in self):
+            if (other % 2 == 0) and (other > 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
                 return ClassicalArithmetic(inf, sup)
@@ -615,9 +615,9 @@ cdef class KaucherArithmetic(BaseTools):
                 inf = self.a ** other
             with RoundingContext(FE_UPWARD):
                 sup = self.b ** other
-            if (other % 2 == 0) and (0 in self):
+            if (other % 2 == 0) and (other > 0) and (0 in self):
                 return ClassicalArithmetic(0.0, max(inf, sup))
-            elif (other % 2 == 0) and (0 in self.pro):
+            elif (other % 2 == 0) and (other > 0) and (0 in self.pro):
                 return KaucherArithmetic(max(inf, sup), 0.0)
             else:
                 if inf > sup:
-- 
2.43.0


From 709af1e44b687d23f7c620e32ef89627c2510138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 08/43] fix: even powers of proper negative Kaucher intervals

---
 intvalpy/kernel/interval_arithmetics.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 9a03154..bbaf8ed 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -611,10 +611,14 @@ cdef class KaucherArithmetic(BaseTools):
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
+            left, right = self.a, self.b
+            if (other % 2 == 0) and (self.a < self.b <= 0):
+                # an even power decreases on the negative half-axis
+                left, right = self.b, self.a
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
+                inf = left ** other
             with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
+                sup = right ** other
             if (other % 2 == 0) and (other > 0) and (0 in self):
                 return ClassicalArithmetic(0.0, max(inf, sup))
             elif (other % 2 == 0) and (other > 0) and (0 in self.pro):
-- 
2.43.0


From 1f570154636cd58514a72d92fe6626ddfd4ef016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 09/43] fix: powers round outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 34 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index bbaf8ed..669104b 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -56,6 +56,24 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, DBL_MAX)    
+
+
+def power(x, n, up):
+    # x**n, n >= 0, by multiplications with directed rounding (the rounding of libm's pow is not directed)
+    if isinstance(x, int):
+        return x ** n
+    negative = (x < 0) and (n % 2 == 1)
+    base, result = abs(x), 1.0
+    with RoundingContext(FE_UPWARD if up != negative else FE_DOWNWARD):
+        while n > 0:
+            if n % 2 == 1:
+                result = result * base
+            n = n // 2
+            if n > 0:
+                base = base * base
+    return -result if negative else result
+
+
 #######################################################################################
 
 
@@ -465,10 +483,8 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
+            inf = min(power(self.a, other, False), power(self.b, other, False))
+            sup = max(power(self.a, other, True), power(self.b, other, True))
             if (other % 2 == 0) and (other > 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
@@ -615,14 +631,12 @@ cdef class KaucherArithmetic(BaseTools):
             if (other % 2 == 0) and (self.a < self.b <= 0):
                 # an even power decreases on the negative half-axis
                 left, right = self.b, self.a
-            with RoundingContext(FE_DOWNWARD):
-                inf = left ** other
-            with RoundingContext(FE_UPWARD):
-                sup = right ** other
+            inf = power(left, other, False)
+            sup = power(right, other, True)
             if (other % 2 == 0) and (other > 0) and (0 in self):
-                return ClassicalArithmetic(0.0, max(inf, sup))
+                return ClassicalArithmetic(0.0, max(power(left, other, True), sup))
             elif (other % 2 == 0) and (other > 0) and (0 in self.pro):
-                return KaucherArithmetic(max(inf, sup), 0.0)
+                return KaucherArithmetic(max(inf, power(right, other, False)), 0.0)
             else:
                 if inf > sup:
                     return KaucherArithmetic(inf, sup)
-- 
2.43.0


From fec1f7c665fe79b4926c6c33fe034a90e8397a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 10/43] fix: exp encloses the range when the upper end
 overflows

---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 669104b..90a05bb 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, -INFINITY)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INFINITY)
 
 
 def power(x, n, up):
@@ -277,10 +277,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From 17bca50331e7839ff6bb6e9418e8a0b88cbba894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 11/43] fix: sin and cos of large arguments keep their extrema

---
 intvalpy/kernel/interval_arithmetics.pyx | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 90a05bb..80f62ed 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,13 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INFINITY)
 
 
+cdef bint meets(double a, double b, double c, double slack) nogil:
+    # is there a point c + 2*PI*k, k integer, in [a, b]; slack covers the errors of the argument reduction
+    cdef double lo = (a - c) / (2*PI)
+    cdef double hi = (b - c) / (2*PI)
+    return ceil(lo - slack * (1 + fabs(lo))) <= floor(hi + slack * (1 + fabs(hi)))
+
+
 def power(x, n, up):
     # x**n, n >= 0, by multiplications with directed rounding (the rounding of libm's pow is not directed)
     if isinstance(x, int):
@@ -313,26 +320,26 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if meets(x.a, x.b, -PI/2, 1e-15):
                     inf = -1
                 else:
                     inf = round_down(min(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if meets(x.a, x.b, PI/2, 1e-15):
                     sup = 1
                 else:
                     sup = round_up(max(sin_inf, sin_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if meets(x.a, x.b, PI/2, -1e-15):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if meets(x.a, x.b, -PI/2, -1e-15):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -346,26 +353,26 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if meets(x.a, x.b, PI, 1e-15):
                     inf = -1
                 else:
                     inf = round_down(min(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if meets(x.a, x.b, 0.0, 1e-15):
                     sup = 1
                 else:
                     sup = round_up(max(cos_inf, cos_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if meets(x.a, x.b, 0.0, -1e-15):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if meets(x.a, x.b, PI, -1e-15):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From fd3cfe5d8a474e1445068ffe1430dedb0fefcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 12/43] fix: membership test of an unsupported operand raises
 TypeError

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 80f62ed..34a5d47 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -227,7 +227,7 @@ cdef class BaseTools:
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
         else:
-            TypeError('Not supported type.')
+            raise TypeError('Not supported type.')
                         
     def __lt__(self, other):
         if isinstance(other, Number):
-- 
2.43.0


From 695070062f9c0dd9e249143dedc119764622946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 13/43] fix: reversed() of an interval array

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 3d71caa..508b3d1 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 2b1972b685297365057d1eaee50deaf1c69e6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 14/43] fix: Interval of a single number

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 508b3d1..f1a781a 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -474,11 +474,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From d3dee0b9b0f9af591cedff1fa2160515f198883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 15/43] fix: intersection converts its operands to intervals

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From e6186b8cb98b45dadc528eef51edd7296cd59150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:56 +0000
Subject: [PATCH 16/43] fix: comparison of an interval array with an interval

---
 intvalpy/kernel/real_intervals.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index f1a781a..d1ff481 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -174,36 +174,48 @@ class ArrayInterval:
     def __le__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data <= other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data <= np.array(other, dtype=object)
         else:
             return self._data <= other
 
     def __eq__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data == other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data == np.array(other, dtype=object)
         else:
             return self._data == other
 
     def __ne__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data != other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data != np.array(other, dtype=object)
         else:
             return self._data != other
 
     def __gt__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data > other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data > np.array(other, dtype=object)
         else:
             return self._data > other
 
     def __lt__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data < other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data < np.array(other, dtype=object)
         else:
             return self._data < other
 
     def __ge__(self, other):
         if isinstance(other, ArrayInterval):
             return self._data >= other._data
+        elif isinstance(other, ARITHMETICS):
+            return self._data >= np.array(other, dtype=object)
         else:
             return self._data >= other
 
-- 
2.43.0


From 1a9355bf42941b756d99e090aa721274157f7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 17/43] fix: Gauss eliminates with the outer product of the
 multipliers and the pivot row

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..0987776 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((n-j-1, 1)) * A[j, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From 8769380288228591ef1901fbdfc3de263091726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 18/43] fix: Rohn raises when its iteration has not converged

---
 intvalpy/linear/Rohn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..969d49e 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,8 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+    if not (error < tol):
+        raise Exception('Итерационный процесс не сошёлся!')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From 46a84ae1889cd9f001d5d3ffc355987ac79c9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 19/43] fix: ChebNorm compares both ends of the range of the
 residual

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..6f341b0 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -39,7 +39,7 @@ class ChebNorm:
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
-- 
2.43.0


From 9666da2746eca49f723c3212d27f59467789c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 20/43] fix: the subgradient of the weighted ChebNorm contains
 the weight

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 6f341b0..d0b67f5 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -54,7 +54,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From 0b8e8a5a45847b14b59cd372d7dba266cbf6802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 21/43] fix: LinearConstraint.find_mu is finite with two-sided
 constraints

---
 intvalpy/kernel/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..606cd83 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -263,7 +263,8 @@ class LinearConstraint:
             for x in itertools.product([0, 1], repeat=n):
                 dot[k] = c @ x
                 k += 1
-            denominator.append(min(abs(dot[1:])))
+            dot = abs(dot)
+            denominator.append(min(dot[dot != 0]))
 
         self.mu = numerator / min(denominator)
         return self.mu
\ No newline at end of file
-- 
2.43.0


From c7784a0ed7ba355546e092e36dc20653d60bad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 22/43] fix: LinearConstraint without finite limits

---
 intvalpy/kernel/abstract.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 606cd83..fb160a9 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -228,20 +228,21 @@ class LinearConstraint:
             n = len(self.C)
             if n == 0:
                 self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
+                self.b.append(np.inf)
+                n = 1
+
+            w = np.random.uniform(1, 1, n) # TODO
+            # TODO
+            # переписать более оптимальным способом
+            W = np.zeros( (n, C.shape[1]), dtype=np.float64)
+            for k in range(W.shape[1]):
+                W[:, k] = w
 
             self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = C[:1], np.array([np.inf])
 
         self.mu = mu
 
-- 
2.43.0


From f6ad1240a61099869e0ee1d275468f3594c29e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 23/43] fix: the penalty factor chosen for one system is not
 kept for the next one

---
 intvalpy/kernel/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index fb160a9..c110cfb 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,4 +1,5 @@
 import numpy as np
+import copy
 import itertools
 
 from .ralgb5 import ralgb5
@@ -52,7 +53,8 @@ class BaseRecFun(object):
         else:
             if linear_constraint.mu is None:
                 mag_value = mag(A)
-                linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
+                linear_constraint = copy.copy(linear_constraint)
+                linear_constraint.find_mu(np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
 
-- 
2.43.0


From 1262ec7f47849642e4511521164d1c0ad4bb5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 24/43] fix: sign of a subgradient entry in Subdiff

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From ad36febe84f316cc8eabbbda2eefc6bf7fa9f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 25/43] fix: PPS of a system that needs no iteration

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..adf56be 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 673d0dbde1e4bf02924eb50afa23b316b7155d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 26/43] fix: PSS searches for the upper ends in the opposite of
 the given bar

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..158f9aa 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -132,7 +132,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return x0.copy() if endint == 1 else -x0
 
         if n > m:
             try:
-- 
2.43.0


From 609071b0c21649138448f017e8680d62a2d99e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 27/43] fix: PSS returns the attained bound when no bar is left

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 158f9aa..5a336bb 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -302,7 +302,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except:
                     item += 1
 
-- 
2.43.0


From 036b6b9fd8daacdff49f849b3d0c123bfd555f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 28/43] fix: PSS divides by a zero coefficient: no solution

---
 intvalpy/linear/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 5a336bb..06de72f 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == b.b:
+            return Interval(np.nan, np.nan)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0


From bb78124301ed4cc9ffb96a21bedccdec15d96724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 29/43] fix: characteristics of interval arrays mixing integer
 and real endpoints

---
 intvalpy/kernel/real_intervals.py | 24 ++++++++++++++----------
 intvalpy/kernel/utils.py          | 19 ++++++++++++-------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d1ff481..11506a6 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -9,6 +9,10 @@ import itertools
 from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
 
 
+def _characteristic(data, name):
+    return np.array([getattr(el, name) for el in data.flat]).reshape(data.shape)
+
+
 class ArrayInterval:
 
     def __init__(self, intervals):
@@ -26,19 +30,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return _characteristic(self._data, 'a')
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return _characteristic(self._data, 'b')
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return _characteristic(self._data, 'a')
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return _characteristic(self._data, 'b')
 
     @property
     def data(self):
@@ -61,23 +65,23 @@ class ArrayInterval:
 
     @property
     def rad(self):
-        return np.vectorize(lambda el: el.rad)(self._data)
+        return _characteristic(self._data, 'rad')
 
     @property
     def mid(self):
-        return np.vectorize(lambda el: el.mid)(self._data)
+        return _characteristic(self._data, 'mid')
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return _characteristic(self._data, 'wid')
 
     @property
     def mig(self):
-        return np.vectorize(lambda el: el.mig)(self._data)
+        return _characteristic(self._data, 'mig')
 
     @property
     def mag(self):
-        return np.vectorize(lambda el: el.mag)(self._data)
+        return _characteristic(self._data, 'mag')
 
     @property
     def dual(self):
@@ -97,7 +101,7 @@ class ArrayInterval:
 
     @property
     def khi(self):
-        return np.vectorize(lambda el: el.khi)(self._data)
+        return _characteristic(self._data, 'khi')
 
     @property
     def vertex(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..9aa2851 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -86,6 +86,11 @@ def isnan(x):
         return np.vectorize(_isnan)(x.data)
     
 
+def _elementwise(func, x):
+    x = np.asarray(x, dtype=object)
+    return np.array([func(el) for el in x.flat]).reshape(x.shape)
+
+
 def wid(x):
     def _wid(x):
         if isinstance(x, ARITHMETICS):
@@ -96,7 +101,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return _elementwise(_wid, x)
     else:
         return _wid(x)
     
@@ -111,7 +116,7 @@ def mid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mid)(x)
+        return _elementwise(_mid, x)
     else:
         return _mid(x)
     
@@ -126,7 +131,7 @@ def rad(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_rad)(x)
+        return _elementwise(_rad, x)
     else:
         return _rad(x)
     
@@ -141,7 +146,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return _elementwise(_inf, x)
     else:
         return _inf(x)
     
@@ -156,7 +161,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return _elementwise(_sup, x)
     else:
         return _sup(x)
     
@@ -171,7 +176,7 @@ def mag(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mag)(x)
+        return _elementwise(_mag, x)
     else:
         return _mag(x)
 
@@ -186,7 +191,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return _elementwise(_khi, x)
     else:
         return _khi(x)
 
-- 
2.43.0


From e61d2ab678246b71b830e5f05913f707cd5c8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 30/43] fix: fitting a model does not change the array of
 weights it is given

---
 intvalpy/models/ISPAE.py | 3 +--
 intvalpy/models/WILS.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..18a0368 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -346,8 +346,7 @@ class ISPAE(object):
         beta0 = x0
 
         # Initialize weights
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0d1dee0 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -106,8 +106,7 @@ class WILS(object):
         else:
             x0 = np.copy(x0)
         
-        if weight is None:
-            weight = np.ones(n)
+        weight = np.ones(n) if weight is None else np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From 2a94f3570ac56b0b97b3e53a9439b0c51063052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 31/43] fix: WILS.fit with a constraint whose penalty factor is
 not given

---
 intvalpy/models/WILS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 0d1dee0..980a987 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,5 +1,6 @@
 import numpy as np
-from ..kernel.utils import inf, sup, mid, rad
+import copy
+from ..kernel.utils import inf, sup, mid, rad, mag
 from ..kernel.abstract import BaseRecFun
 from ..kernel.ralgb5 import ralgb5
 
@@ -114,6 +115,10 @@ class WILS(object):
 
 
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
+        if constraint is not None and constraint.mu is None:
+            constraint = copy.copy(constraint)
+            constraint.find_mu(np.max(mag(X_train)))
+
         def calcfg(beta):
             if objective == 'Tol':
                 obj, sub_diff = self._tol_calcfg_extend(beta, infX, supX, Xm, Xr, ym, yr, weight, norm)
-- 
2.43.0


From 004c31dd49c782c7500916f09a509113660d28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 32/43] fix: Neumaier: the box must satisfy all the equations
 for the given center

---
 intvalpy/linear/Neumaier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..44253dd 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from ..kernel.preprocessing import asinterval
 from ..kernel.real_intervals import Interval
 
 
@@ -39,5 +40,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
-    return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
+    return asinterval(y) + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From 32534164ea1ff06f3780dd33900dcdfe086f7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 33/43] fix: HBR accepted matrices that are not H-matrices and
 returned boxes missing solutions

---
 intvalpy/linear/HBR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..d585a4f 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,7 +39,7 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
-- 
2.43.0


From 231db305c560c7341c5343aa352ef9ba7c296b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 34/43] fix: HBR added a number instead of a matrix to the
 approximate inverse

---
 intvalpy/linear/HBR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index d585a4f..be63d09 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -46,7 +46,7 @@ def HBR(A, b):
     A = A @ B - np.eye(n)
     w = np.max(-A / np.outer(u, np.ones(n)), axis=0)
     dlow = -(v*w - np.diag(B))
-    B = B + v @ w
+    B = B + np.outer(v, w)
     u = B @ b.mag
     d = np.diag(B)
     alpha = dAc + (-1)/d
-- 
2.43.0


From 924a355bbc69e51bffdf40551c17bf867df5f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 35/43] fix: HBR with a matrix of right-hand sides lost
 solutions

---
 intvalpy/linear/HBR.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index be63d09..f9dbc2a 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -54,6 +54,5 @@ def HBR(A, b):
         beta = u / dlow - b.mag
         return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha))
     else:
-        v = np.ones(n)
-        beta = u / (d @ v) - b.mag
-        return (b + Interval(-beta, beta)) / ( (dA + Interval(-alpha, alpha)) @ v )
+        beta = u / dlow.reshape(n, 1) - b.mag
+        return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha)).reshape((n, 1))
-- 
2.43.0


From e738df14f87cd0b12c04c34cf787b9b4548904ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 36/43] fix: lineqs failed when the drawing area does not meet
 an unbounded solution set

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..23a5ab8 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -205,6 +205,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return np.array([])
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From be0f458d2766a4dc6d9c666b5df587e17fb05be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 37/43] fix: lineqs and lineqs3D ignored inequalities 0 >= b
 that do not hold

---
 intvalpy/linear/boundary_intervals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 23a5ab8..6170381 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,6 +182,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return np.array([])
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -411,6 +413,8 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
     A, b = non_repeat(A, b)
 
     n, m = A.shape
-- 
2.43.0


From 3455a73e757f22a297aa64e6bc9dee2976dfb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 38/43] fix: lineqs reduced an unbounded set with a single
 vertex to that vertex

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 6170381..fd15d4a 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -197,6 +197,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            if rm <= 1e-14:
+                rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
-- 
2.43.0


From 3cf9ed749e3b22244ec5a9b0584f3365991dd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 39/43] fix: a window left by an earlier call replaced the
 drawing area of IntLinIncR2 and IntLinIncR3

---
 intvalpy/linear/boundary_intervals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index fd15d4a..5e14119 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -328,11 +328,12 @@ def IntLinIncR2(
                 raise Exception(msg)
 
             vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
+    global __center_rm
+    __center_rm = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -651,11 +652,12 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
+    global __center_rm
+    __center_rm = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From bafac3a63c4f9d0d044d4d6ff0ee6a7a8d8529d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 40/43] fix: lineqs3D dropped inequalities that differ from
 another one by the same number in every coefficient and the right-hand side

---
 intvalpy/kernel/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ab4d7bf..d52a0f7 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,7 +26,7 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
+    a1 = np.column_stack((a, b))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
-- 
2.43.0


From c7301e91199c590881614b60851f08c507b0336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 41/43] fix: single intervals have no to_float, so
 HansenSengupta and Krawczyk fail on every system

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 34a5d47..fe744fe 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -143,6 +143,10 @@ cdef class BaseTools:
         else:
             return self
     
+    def to_float(self):
+        """The same interval with the endpoints of type float."""
+        return type(self)(float(self.a), float(self.b))
+    
     @property
     def wid(self):
         """Width of the non-empty interval."""
-- 
2.43.0


From 26e7ea4ad15a788426170e1c17b4850c35924399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 42/43] fix: subgradients of the ISPAE functionals were wrong
 for polynomials of degree two and higher

---
 intvalpy/models/ISPAE.py | 46 ++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 18a0368..dce8623 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -147,6 +147,40 @@ class ISPAE(object):
         return sum(vals_by_cols)
 
     
+    def _extreme_rows(self, beta, dataframe):
+        """
+        Values of the basis functions at the points of each object where the
+        polynomial takes its least and its greatest value.
+
+        Parameters:
+        -----------
+        beta : np.ndarray
+            Coefficients of the polynomial.
+        dataframe : pd.DataFrame
+            Input data.
+
+        Returns:
+        --------
+        lows, highs : np.ndarray
+            Rows of the basis values, one row per object.
+        """
+        lows, highs = [], []
+        for k, col in enumerate(self.columns):
+            infs, sups = np.array([inf(dataframe[col])]).flatten(), np.array([sup(dataframe[col])]).flatten()
+            basis = np.array([self.basis(deg) for deg in range(1, self.order[k] + 1)])
+
+            poly = beta[sum(self.order[:k]): sum(self.order[:k + 1])] @ basis
+            dots = np.array([infs, sups] + [np.clip(root, infs, sups) for root in poly.deriv(1).roots().real])
+            vals = poly(dots)
+
+            rows = np.arange(len(infs))
+            low, high = dots[np.argmin(vals, axis=0), rows], dots[np.argmax(vals, axis=0), rows]
+            for phi in basis:
+                lows.append(phi(low))
+                highs.append(phi(high))
+        return np.array(lows).T, np.array(highs).T
+
+    
     def _uni_calcfg_extend(self, beta, X_train, infX, supX, Xm, Xr, ym, yr, weight, norm):
         """
         Compute objective and subgradient for the 'Uni' objective function.
@@ -175,7 +209,7 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
+        lows, highs = self._extreme_rows(beta, X_train)
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         mig = np.array([
@@ -188,9 +222,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = weight[mc] * highs[mc]
             else:
-                diff = -weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = -weight[mc] * lows[mc]
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
@@ -223,7 +257,7 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
+        lows, highs = self._extreme_rows(beta, X_train)
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         residual = weight * (yr - np.maximum(abs(infs), abs(sups)))
@@ -232,9 +266,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = weight[mc] * lows[mc]
             else:
-                diff = -weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = -weight[mc] * highs[mc]
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
-- 
2.43.0


From b730363b2e3d4eaeaec29df18c6050d04cfb3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 43/43] fix: ISPAE with the Laguerre basis had no constant term

---
 intvalpy/models/ISPAE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index dce8623..ed2467d 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -40,6 +40,8 @@ class ISPAE(object):
             'legendre': np.polynomial.legendre.Legendre.basis,
         }
         self.basis = self.__bases[basis]
+        # the value of the bias column, where the first basis polynomial is equal to one
+        self._bias_value = (self.basis(1) - 1).roots()[0].real
 
     
     def _wrap_norm(self, residual, norm):
@@ -338,7 +340,7 @@ class ISPAE(object):
         n, m = X_train.shape
         self.bias = bias
         if self.bias:
-            X_train.insert(loc=0, column='bias', value=[1]*n)
+            X_train.insert(loc=0, column='bias', value=[self._bias_value]*n)
         self.columns = X_train.columns
 
         # Validate and set polynomial order
@@ -423,5 +425,5 @@ class ISPAE(object):
         X_test = pd.DataFrame(X_test)
         n, m = X_test.shape
         if self.bias:
-            X_test.insert(loc=0, column='bias', value=[1]*n)
+            X_test.insert(loc=0, column='bias', value=[self._bias_value]*n)
         return self._expand_dataframe(X_test) @ self.estimator['xr']
\ No newline at end of file
-- 
2.43.0

