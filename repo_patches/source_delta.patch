From e095469d0603d4abe03a424ea9bc625320474075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 01/25] fix: signed overflow in modulo_add for moduli above
 half of the type's range

---
 include/altruct/structure/math/modulo.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..8e6a994 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,10 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // unsigned addition can't overflow here as all the operands are non-negative
+    using U = typename std::make_unsigned<S>::type;
+    U r = U(U(x) + U(y));
+    return S((r < U(M)) ? r : U(r - U(M)));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
-- 
2.43.0


From 7cef59a638f5ac1190cae3f2b9dcfadb5963012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 02/25] fix: infinite recursion in modulo_normalize for the
 most negative value

---
 include/altruct/structure/math/modulo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 8e6a994..8728d5b 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -133,8 +133,10 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using U = typename std::make_unsigned<S>::type;
+    // negation is done in the unsigned type as the most negative value can't be negated
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(0 - static_cast<U>(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From 057764a5d8d81fd9efe25417ee05f1af9c80b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 03/25] fix: modulo_mul on wide unsigned types other than
 uint32_t and uint64_t truncated its operands to 32 bits

---
 include/altruct/structure/math/modulo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 8728d5b..ba08854 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -81,6 +81,8 @@ I modulo_mul_int_long(I x, I y, I M) {
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_mul(U x, U y, U M) {
+    // wide types other than `uint32_t` and `uint64_t`; e.g. `unsigned long long` when `uint64_t` is `unsigned long`
+    if (sizeof(U) > sizeof(uint16_t)) return (uint64_t(x) <= UINT32_MAX && uint64_t(y) <= UINT32_MAX) ? U((uint64_t(x) * uint64_t(y)) % uint64_t(M)) : modulo_mul_int_long(x, y, M);
     return (uint32_t(x) * uint32_t(y)) % uint32_t(M);
 }
 template<> inline uint32_t modulo_mul(uint32_t x, uint32_t y, uint32_t M) {
-- 
2.43.0


From 33d42f1d684cf76e87a484a045f98b16d8c3bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:40 +0000
Subject: [PATCH 04/25] fix: sqrtT on unsigned types without a specialization
 looped forever when the quotient exceeded the guess

---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..c79e799 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -276,7 +276,7 @@ T sqrtT(T x, T eps = T(1), size_t max_iter = 0) {
     if (x == 1) return 1;
     T q1 = x / 2;
     T q2 = x / q1;
-    while (absT(T(q1 - q2)) > eps && --max_iter > 0) {
+    while (T(maxT(q1, q2) - minT(q1, q2)) > eps && --max_iter > 0) {
         q1 = (q1 + q2) / 2;
         q2 = x / q1;
     }
-- 
2.43.0


From 844cb30d26f3c9d2355cd0e7d71a17c9f6c083f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:41 +0000
Subject: [PATCH 05/25] fix: integer square and cube roots of values whose root
 or its successor's power exceeds the former intermediate types

---
 include/altruct/algorithm/math/base.h | 10 +++++----
 src/algorithm/math/base.cpp           | 32 +++++++++++++++++----------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index c79e799..3adc331 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -245,13 +245,15 @@ T lcm(const T& a, const T& b) {
  * Integer square & square root.
  */
 int64_t isq(int64_t x);
-int32_t isqrt(int64_t x);
+uint32_t isqrtu(uint64_t x);
+int32_t isqrt(int64_t x); // result must fit the return type
 int32_t isqrtc(int64_t x);
 
 /**
  * Integer cube & cube root.
  */
 int64_t icb(int64_t x);
+uint32_t icbrtu(uint64_t x);
 int32_t icbrt(int64_t x);
 int32_t icbrtc(int64_t x);
 
@@ -291,8 +293,8 @@ template<> inline int16_t sqrtT(int16_t x, int16_t, size_t) { return isqrt(x); }
 template<> inline uint16_t sqrtT(uint16_t x, uint16_t, size_t) { return isqrt(x); }
 template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }
 template<> inline uint32_t sqrtT(uint32_t x, uint32_t, size_t) { return isqrt(x); }
-template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return isqrt(x); }
-template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrt(x); }
+template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return (x < 0) ? -int64_t(isqrtu(-x)) : int64_t(isqrtu(x)); }
+template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrtu(x); }
 
 /**
  * Tests whether `x` is a square.
@@ -338,7 +340,7 @@ template<> inline uint16_t cbrtT(uint16_t x, uint16_t, size_t) { return icbrt(x)
 template<> inline int32_t cbrtT(int32_t x, int32_t, size_t) { return icbrt(x); }
 template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }
 template<> inline int64_t cbrtT(int64_t x, int64_t, size_t) { return icbrt(x); }
-template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrt(x); }
+template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrtu(x); }
 
 /**
  * Tests whether `x` is a cube.
diff --git a/src/algorithm/math/base.cpp b/src/algorithm/math/base.cpp
index e618580..c36ddf2 100644
--- a/src/algorithm/math/base.cpp
+++ b/src/algorithm/math/base.cpp
@@ -12,12 +12,17 @@ int64_t isq(int64_t x) {
     return x * x;
 }
 
+uint32_t isqrtu(uint64_t x) {
+    uint64_t q = uint64_t(floor(sqrt(double(x))));
+    // compared by division as the square may overflow
+    while (q > 0 && q > x / q) q--;
+    while (q + 1 <= x / (q + 1)) q++;
+    return uint32_t(q);
+}
+
 int32_t isqrt(int64_t x) {
     if (x < 0) return -isqrt(-x);
-    int32_t q = int32_t(floor(sqrt(double(x))));
-    while (isq(q) > x) q--;
-    while (isq(q + 1) <= x) q++;
-    return q;
+    return int32_t(isqrtu(x));
 }
 
 int32_t isqrtc(int64_t x) {
@@ -34,20 +39,23 @@ int64_t icb(int64_t x) {
     return x * x * x;
 }
 
+uint32_t icbrtu(uint64_t x) {
+    uint64_t q = uint64_t(floor(pow(double(x), 1.0 / 3)));
+    // compared by division as the cube may overflow
+    while (q > 0 && q > x / q / q) q--;
+    while (q + 1 <= x / (q + 1) / (q + 1)) q++;
+    return uint32_t(q);
+}
+
 int32_t icbrt(int64_t x) {
     if (x < 0) return -icbrt(-x);
-    int32_t q = int32_t(floor(pow(double(x), 1.0 / 3)));
-    while (icb(q) > x) q--;
-    while (icb(q + 1) <= x) q++;
-    return q;
+    return int32_t(icbrtu(x));
 }
 
 int32_t icbrtc(int64_t x) {
     if (x < 0) return -icbrtc(-x);
-    int32_t q = int32_t(ceil(pow(double(x), 1.0 / 3)));
-    while (icb(q) < x) q++;
-    while (icb(q - 1) >= x) q--;
-    return q;
+    int32_t q = icbrt(x);
+    return (icb(q) < x) ? q + 1 : q;
 }
 
 } // math
-- 
2.43.0


From b91c813a0981bcf36bfe556ae4eb600b5c9cdd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 06/25] fix: div_round overflowed in a + b / 2 although the
 result is representable

---
 include/altruct/algorithm/math/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 3adc331..cc58d1f 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -368,7 +368,8 @@ I div_ceil(I a, I b) {
 template<typename I>
 I div_round(I a, I b) {
     if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    I q = a / b, r = a % b, h = b - b / 2; // a + b / 2 may overflow
+    return (a > 0) ? I((r < h) ? q : q + 1) : I((-r < h) ? q : q - 1);
 }
 
 /**
-- 
2.43.0


From 25799c9476ad758b679f858b9deab224ed19d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 07/25] fix: powT squared the base once more than needed, which
 overflowed e.g. for powT<int>(100000, 1)

---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index cc58d1f..3b95a0b 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -161,7 +161,7 @@ T powT(T x, I y) {
     T r = e1;
     for (; y > 0; y /= 2) {
         if (y % 2 != 0) r *= x;
-        x *= x;
+        if (y > 1) x *= x; // the square past the last bit is not needed and may overflow
     }
     return r;
 }
-- 
2.43.0


From 8fd22fbd20094d8845aeee851aa4db039c2a64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 08/25] fix: bounded random integers of signed types stay
 inside wide intervals

---
 include/altruct/algorithm/random/random.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/random/random.h b/include/altruct/algorithm/random/random.h
index 784e16d..9596642 100644
--- a/include/altruct/algorithm/random/random.h
+++ b/include/altruct/algorithm/random/random.h
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <limits>
+#include <type_traits>
 #include <functional>
 
 namespace altruct {
@@ -26,8 +27,10 @@ double integer_to_double_0_1(U val) {
  */
 template<typename U, typename V>
 V integer_to_range(U val, V min, V max) {
-    V width = max - min + 1;
-    return (width == 0) ? V(val) : min + val % width;
+    // unsigned, because the width of the range may not fit `V`
+    typedef typename std::make_unsigned<V>::type W;
+    W width = W(max) - W(min) + 1;
+    return (width == 0) ? V(val) : V(W(min) + W(val % width));
 }
 
 /**
-- 
2.43.0


From 0a4e58bc9a3a683f2557e3bb31ecb665585edcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:06 +0000
Subject: [PATCH 09/25] fix: chinese_remainder took unsigned congruences with
 a2 < a1 for unsolvable

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..1061cb3 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -28,7 +28,7 @@ template<typename T>
 void chinese_remainder(T* a, T* n, T a1, T n1, T a2, T n2) {
     T e0 = zeroT<T>::of(*a);
     T ni1, ni2; T g = modulo_gcd_ex(n1, n2, ni1, ni2);
-    if ((a2 - a1) % g != e0) { *n = e0, *a = e0; return; }
+    if (a1 % g != a2 % g) { *n = e0, *a = e0; return; }
     T t1 = modulo_mul(a1, ni2, n1);
     T t2 = modulo_mul(a2, ni1, n2);
     n1 /= g; n2 /= g; *n = n1 * n2 * g;
-- 
2.43.0


From 629e38db99e6431916369f55c3c18194a22f4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:06 +0000
Subject: [PATCH 10/25] fix: garner for moduli that are not in ascending order

---
 include/altruct/algorithm/math/modulos.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 1061cb3..086d6c3 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -61,8 +61,9 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            // `vx[j]` and `p[j]` are not necessarily smaller than `p[i]`
+            y -= decltype(y)(vx[j].v, y.M());
+            y /= decltype(y)(vap[j].M(), y.M());
         }
         vx[i] = y;
     }
-- 
2.43.0


From 782d8a8ee67d1b9911d66dfda26f457bda164cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:52 +0000
Subject: [PATCH 11/25] fix: inverses of an empty range wrote one element past
 its end

---
 include/altruct/algorithm/math/ranges.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..b176e94 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -98,6 +98,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
-- 
2.43.0


From 6c4a5b6b265ed5f734e7fba3b51296cec4854618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:20 +0000
Subject: [PATCH 12/25] fix: polynomial hashes: keep residues canonical and do
 sums in the wide type

---
 .../altruct/algorithm/hash/polynomial_hash.h  | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..8e93037 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -38,7 +38,10 @@ public:
 
     I h;
 
-    polynomial_hash1(I h = 0) : h(h) {}
+    // canonical residue in the range [0, M)
+    static I mod(IT v) { v %= M; return I(v < 0 ? v + M : v); }
+
+    polynomial_hash1(I h = 0) : h(mod(h)) {}
     polynomial_hash1 clone() const { return polynomial_hash1(*this); }
     bool operator < (const polynomial_hash1& rhs) const { return h < rhs.h; }
     bool operator == (const polynomial_hash1& rhs) const { return h == rhs.h; }
@@ -48,14 +51,14 @@ public:
     polynomial_hash1 operator >> (int cnt) const { return clone() >>= cnt; } // divide by B^cnt
     polynomial_hash1 operator << (int cnt) const { return clone() <<= cnt; } // multiply by B^cnt
     polynomial_hash1& operator *= (const polynomial_hash1& rhs) { h = (h * IT(rhs.h)) % M; return *this; }
-    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = (h + rhs.h) % M; return *this; }
-    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = (h + M - rhs.h) % M; return *this; }
+    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = mod(IT(h) + rhs.h); return *this; }
+    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = mod(IT(h) - rhs.h); return *this; }
     polynomial_hash1& operator >>= (int cnt) { ensure(cnt + 1); h = (h * IT(WI[cnt])) % M; return *this; }
     polynomial_hash1& operator <<= (int cnt) { ensure(cnt + 1); h = (h * IT(W[cnt])) % M; return *this; }
     // H = H + (RHS << pos)
     polynomial_hash1& add(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = (h + rhs.h * IT(W[pos])) % M; return *this; }
     // H = (H - RHS) >> pos
-    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = ((h + M - rhs.h) * IT(WI[pos])) % M; return *this; }
+    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = mod((IT(h) - rhs.h) * WI[pos]); return *this; }
 
     int32_t hash() const { return h; }
 };
@@ -78,8 +81,10 @@ public:
     static std::vector<I> W[K];
     static std::vector<I> WI[K];
 
-    static I mul(I a, I b, I m) { return (I)((a * (IT)b) % m); }
-    static I mul(I s, I a, I b, I m) { return (I)((s + a * (IT)b) % m); }
+    // canonical residue in the range [0, m)
+    static I mod(IT v, I m) { v %= m; return (I)(v < 0 ? v + m : v); }
+    static I mul(I a, I b, I m) { return mod(a * (IT)b, m); }
+    static I mul(I s, I a, I b, I m) { return mod(s + a * (IT)b, m); }
 
     static void _ensure(std::vector<I>& w, size_t sz, I b, I m) {
         size_t i0 = w.size();
@@ -154,7 +159,7 @@ public:
     polynomial_hash operator + (I rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs) % M[k];
+            h[k] = mod((IT)h[k] + rhs, M[k]);
         }
         return *this;
     }
@@ -162,7 +167,7 @@ public:
     polynomial_hash operator + (const polynomial_hash& rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs.h[k]) % M[k];
+            h[k] = mod((IT)h[k] + rhs.h[k], M[k]);
         }
         return *this;
     }
@@ -170,7 +175,7 @@ public:
     polynomial_hash operator - (I rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs) % M[k];
+            h[k] = mod((IT)h[k] - rhs, M[k]);
         }
         return *this;
     }
@@ -178,7 +183,7 @@ public:
     polynomial_hash operator - (const polynomial_hash& rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs.h[k]) % M[k];
+            h[k] = mod((IT)h[k] - rhs.h[k], M[k]);
         }
         return *this;
     }
@@ -226,7 +231,7 @@ public:
     polynomial_hash& sub_shr(I rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs, WI[k][pos], M[k]);
+            h[k] = mul(mod((IT)h[k] - rhs, M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
@@ -235,7 +240,7 @@ public:
     polynomial_hash& sub_shr(const polynomial_hash& rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs.h[k], WI[k][pos], M[k]);
+            h[k] = mul(mod((IT)h[k] - rhs.h[k], M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
-- 
2.43.0


From 7ba61dedd72f9d2437205a77a696ecc2f397df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:20 +0000
Subject: [PATCH 13/25] fix: cumulative_hash::assign: replace the previous
 contents

---
 include/altruct/algorithm/hash/polynomial_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index 8e93037..e3dd928 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -283,6 +283,7 @@ public:
     void assign(It begin, It end) {
         HASH h;
         size_t pos = 0;
+        vh.clear();
         h.ensure(std::distance(begin, end));
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
-- 
2.43.0


From 2693a95c4175cb34a81bd635cbd9e9e97c3ba619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:12 +0000
Subject: [PATCH 14/25] fix: permutation::pow overflowed for exponents near the
 64-bit limits

---
 include/altruct/structure/math/permutation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..8d908ef 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -69,14 +69,14 @@ public:
 
     // this permutation applied `T` times
     permutation pow(int64_t T) const {
-        if (T < 0) return inv().pow(-T);
+        permutation p = (T < 0) ? inv() : *this;
         cycles_t vc;
         std::vector<bool> u(n);
-        for (const auto& cycle : cycles) {
+        for (const auto& cycle : p.cycles) {
             I L = (I)cycle.size();
             for (I i = 0; i < L; i++) {
                 cycle_t c;
-                for (I j = i; !u[cycle[j]]; j = I((j + T) % L)) {
+                for (I j = i; !u[cycle[j]]; j = I((j + absT(T % L)) % L)) {
                     c.push_back(cycle[j]);
                     u[cycle[j]] = true;
                 }
-- 
2.43.0


From c501aa7e95379ae8a8295ce33b9de394529da5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:51 +0000
Subject: [PATCH 15/25] fix: sieves: loop counters overflowed int for bounds
 above 2^30

---
 src/algorithm/math/primes.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..f5626bd 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -25,7 +25,7 @@ int primes(int *p, char *q, int n) {
         if (p) p[m] = i;
         m++;
         if (i > n / i) continue;
-        for (int j = i * i; j < n; j += i)
+        for (int64_t j = i * i; j < n; j += i)
             q[j] = 0;
     }
     if (p) p[m] = 0;
@@ -43,7 +43,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
     for (int i = 0; i < n; i++)
         phi[i] = i;
     for (int i = 0; i < m; i++)
-        for (int j = p[i]; j < n; j += p[i])
+        for (int64_t j = p[i]; j < n; j += p[i])
             phi[j] = phi[j] / p[i] * (p[i] - 1);
 }
 
@@ -51,12 +51,12 @@ void moebius_mu(int *mu, int n, const int* p, int m) {
     mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
-    for (int i = 2; i * i < n; i++) {
+    for (int i = 2; i <= (n - 1) / i; i++) {
         if (mu[i] != 1) continue;
         int i2 = i * i;
-        for (int j = 0; j < n; j += i2)
+        for (int64_t j = 0; j < n; j += i2)
             mu[j] = 0;
-        for (int j = 0; j < n; j += i)
+        for (int64_t j = 0; j < n; j += i)
             mu[j] *= -i;
     }
     for (int i = 2; i < n; i++) {
@@ -71,7 +71,7 @@ void prime_nu(int *nu, int n, const int* p, int m) {
     for (int i = 0; i < n; i++)
         nu[i] = 0;
     for (int i = 0; i < m; i++)
-        for (int j = p[i]; j < n; j += p[i])
+        for (int64_t j = p[i]; j < n; j += p[i])
             nu[j]++;
 }
 
@@ -136,7 +136,7 @@ void divisor_sigma0(int *ds0, int n) {
     for (int i = 1; i < n; i++)
         ds0[i] = 0;
     for (int i = 1; i < n; i++)
-        for (int j = i; j < n; j += i)
+        for (int64_t j = i; j < n; j += i)
             ds0[j] += 1;
 }
 
@@ -144,7 +144,7 @@ void divisor_sigma1(int64_t *ds1, int n) {
     for (int i = 1; i < n; i++)
         ds1[i] = 0;
     for (int i = 1; i < n; i++)
-        for (int j = i; j < n; j += i)
+        for (int64_t j = i; j < n; j += i)
             ds1[j] += i;
 }
 
@@ -169,7 +169,7 @@ void smallest_factor(int* spf, size_t n) {
 void factor(int *bpf, int n, const int *p, int m) {
     bpf[0] = 0, bpf[1] = 1;
     for (int i = 0; i < m; i++)
-        for (int j = p[i]; j < n; j += p[i])
+        for (int64_t j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
 }
 
-- 
2.43.0


From 279af05931206d85849de8247f2da85d0c273e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:51 +0000
Subject: [PATCH 16/25] fix: sieves: nothing is written outside empty and
 one-element tables

---
 include/altruct/algorithm/math/primes.h |  5 +++--
 src/algorithm/math/primes.cpp           | 15 ++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/altruct/algorithm/math/primes.h b/include/altruct/algorithm/math/primes.h
index ba6daf9..b13e952 100644
--- a/include/altruct/algorithm/math/primes.h
+++ b/include/altruct/algorithm/math/primes.h
@@ -18,8 +18,9 @@ namespace math {
  * null pointer is passed for one of those arrays, the corresponding output
  * won't be stored. At least one of `p` or `q` needs to be non-null.
  *
- * If only `p` is specified, `p` needs to be of size at least `n`.
- * If both `p` and `q` are specified, `p` needs to be of size at least `pi(n)`.
+ * If only `p` is specified, `p` needs to be of size at least `max(n, 1)`.
+ * If both `p` and `q` are specified, `p` needs to be of size at least `pi(n) + 1`
+ * as a terminating zero is stored after the last prime.
  * `q` if specified, needs to be of size at least `n`.
  *
  * Complexity: O(n log log n)
diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index f5626bd..d26975b 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -48,7 +48,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
+    if (n > 0) mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
     for (int i = 2; i <= (n - 1) / i; i++) {
@@ -77,8 +77,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -91,7 +91,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -108,7 +108,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
@@ -158,7 +158,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2; ) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -167,7 +167,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int64_t j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From 70ecc507777502b374e2b79f2555d8aa2808944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:00 +0000
Subject: [PATCH 17/25] fix: prime_pi: do not read past the last prime

---
 src/algorithm/math/primes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d26975b..24ca0eb 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -34,7 +34,7 @@ int primes(int *p, char *q, int n) {
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From 8bde4d4d4f05e6583a7c27c2a8a1ca7625defda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:01 +0000
Subject: [PATCH 18/25] fix: divisors no longer computes the power after the
 last one, which may overflow

---
 include/altruct/algorithm/math/primes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/primes.h b/include/altruct/algorithm/math/primes.h
index b13e952..8e9a271 100644
--- a/include/altruct/algorithm/math/primes.h
+++ b/include/altruct/algorithm/math/primes.h
@@ -268,6 +268,7 @@ void divisors(std::vector<D> &vd, const std::vector<std::pair<P, int>> &vf, D ma
     for (int e = 0; e <= f.second; e++) {
         divisors(vd, vf, maxd, d, i + 1);
         if (maxd > 0 && d > maxd / f.first) break;
+        if (e == f.second) break; // the next power is not needed and may overflow
         d *= f.first;
     }
 }
-- 
2.43.0


From 97e473fbbbb3e2d324ad85992e20404ef4ea93be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:15 +0000
Subject: [PATCH 19/25] fix: miller_rabin is exact for all 64-bit numbers: 9
 bases do not suffice from 3825123056546413051 on

---
 include/altruct/algorithm/math/factorization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 3f8952c..35e3206 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -66,8 +66,9 @@ bool miller_rabin(const T& n) {
     // 10^18, 2^61
     static T bases9[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 0 };
     if (n < 3825123056546413051LL) return miller_rabin(n, bases9);
-    // fallback to bases9 for larger numbers too
-    return miller_rabin(n, bases9);
+    // 10^23, 2^78; fallback for larger numbers too
+    static T bases12[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 0 };
+    return miller_rabin(n, bases12);
 }
 
 /**
-- 
2.43.0


From f336ad4b9fcff9cac6a060dfcc2c61efbc9f367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:15 +0000
Subject: [PATCH 20/25] fix: from_primes no longer computes numbers above
 n_max, which may overflow

---
 include/altruct/algorithm/math/factorization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 35e3206..f50f2ac 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -206,7 +206,8 @@ void from_primes_impl(std::vector<std::pair<P, int>>& vf, const P* pa, size_t ps
     if (psz == 0) return visitor(vf, n);
     P p = pa[psz - 1];
     from_primes_impl<I, P, F>(vf, pa, psz - 1, n_max, n, visitor);
-    for (int e = 1; n *= p, (n_max /= p) > 0; e++) {
+    for (int e = 1; (n_max /= p) > 0; e++) {
+        n *= p; // at most the original `n_max`
         vf.push_back({ p, e });
         from_primes_impl<I, P, F>(vf, pa, psz - 1, n_max, n, visitor);
         vf.pop_back();
-- 
2.43.0


From 354b54f2e82d051ec594ecc3f570f4dcf2cedeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:03 +0000
Subject: [PATCH 21/25] fix: bit_vector shifts: no access past the words for
 large counts, no reuse of already shifted words, no bits left beyond the end

---
 include/altruct/structure/container/bit_vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..fe63390 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -2,6 +2,7 @@
 
 #include "altruct/algorithm/math/bits.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <iterator>
@@ -87,7 +88,7 @@ public:
 
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
+        size_t q = std::min<size_t>(cnt / L, wsz); int r = cnt % L;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -99,14 +100,16 @@ public:
 
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        size_t q = std::min<size_t>(cnt / L, wsz); int r = cnt % L;
+        // backwards, as each word is made of itself and the ones before it
+        for (size_t i = wsz; i-- > q + 1;) {
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
         words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        resize(sz); // clears the bits shifted beyond the end
         return *this;
     }
 
-- 
2.43.0


From e044b8fe97dec258eb8ecc303c33308ee3bd4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:54 +0000
Subject: [PATCH 22/25] fix: next_partition no longer loops forever for
 unsigned value types

---
 include/altruct/algorithm/math/combinatorics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..a2aa996 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -43,7 +43,7 @@ bool next_partition(BidIt begin, BidIt end) {
     for (BidIt it = end; it != begin;) {
         --it; l = l + 1;
          x += *it;
-        I xm = *it - 1;
+        I xm = (*it > 1) ? *it - 1 : 0; // must not wrap around for an unsigned `I`
         if (xm > 0 && (x - 1) / xm <= (l - 1)) {
             for (; x > xm; x -= xm) {
                 *it++ = xm;
-- 
2.43.0


From 850aa7aebe9f3b630dcfcd66df1238ee6f83236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:54 +0000
Subject: [PATCH 23/25] fix: readers return bytes from 0x80 on as such, not as
 end of input

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/reader.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..c513919 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..06e9c7a 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From 9134c9a15786b8fdd417a9f0d41f08810b031211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:36 +0000
Subject: [PATCH 24/25] fix: the minimum of a signed type is written and read
 back

---
 include/altruct/io/fast_io.h | 15 +++++++--------
 include/altruct/io/reader.h  |  9 ++++-----
 include/altruct/io/writer.h  |  6 +++---
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index c513919..032bf26 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -150,13 +150,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits of a number of the given sign.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, int sign = +1) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = d * 10 + (c - '0') * sign;
             l++;
             c = read_char();
         }
@@ -170,8 +170,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s); // the minimum can't be negated
     }
 
     // Reads a single signed decimal floating-point number of type F.
@@ -329,11 +328,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            I r = d % 10; // `d` is not negated up front, as the minimum can't be
+            tc[i] = (r < 0 ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 06e9c7a..c254cbe 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -307,13 +307,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits of a number of the given sign.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, int sign = +1) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = d * 10 + (c - '0') * sign;
             l++;
             c = read_char();
         }
@@ -327,8 +327,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s); // the minimum can't be negated
     }
 
     // Reads a single signed decimal floating-point number of type F.
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..ce6371f 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -247,11 +247,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            I r = d % 10; // `d` is not negated up front, as the minimum can't be
+            tc[i] = (r < 0 ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 01285ec15053e5b37e7d89e135bb8028870b678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:36 +0000
Subject: [PATCH 25/25] fix: fast_write writes the NULs in a std::string

---
 include/altruct/io/fast_io.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 032bf26..83073d2 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -320,7 +320,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0

