#include "h.h"
#include <altruct/structure/math/fraction.h>
using namespace vh; using namespace altruct::math;
static i128 ab(i128 a) { return a < 0 ? -a : a; } static i128 g_(i128 a, i128 b) { a = ab(a); b = ab(b); while (a) { i128 t = b % a; b = a; a = t; } return b; }
template<typename T> static bool fits(i128 v) { return v > (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max(); }
template<typename T> static bool is(const fraction<T>& f, i128 n, i128 d) { i128 g = g_(n, d); n /= g; d /= g; if (d < 0) n = -n, d = -d; return f.p == n && f.q == d; }
template<typename T> static void two(const char* nm, T a, T b, T c, T d) { set(nm, a, b, c, d); if (!b || !d || !fits<T>(a) || !fits<T>(b) || !fits<T>(c) || !fits<T>(d)) return; typedef fraction<T> F; F x(a, b), y(c, d); CHECK(is<T>(x, a, b) && is<T>(y, c, d)); CHECK(is<T>(F(a), a, 1) && is<T>(-x, -(i128)x.p, x.q)); CHECK(is<T>(identityOf(x), 1, 1) && is<T>(zeroOf(x), 0, 1) && is<T>(F(), 0, 1));
    i128 p = x.p, q = x.q, r = y.p, s = y.q; if (p) CHECK(is<T>(x.reciprocal(), q, p)); CHECK((x == y) == (p * s == r * q) && (x != y) == (p * s != r * q)); F k = x; k %= y; CHECK(is<T>(x % y, 0, 1) && is<T>(k, 0, 1));
    if (fits<T>(p * s) && fits<T>(r * q)) { if (fits<T>(p * s - r * q)) { CHECK((x < y) == (p * s < r * q)); CHECK((x <= y) == (p * s <= r * q)); CHECK((x > y) == (p * s > r * q)); CHECK((x >= y) == (p * s >= r * q)); CHECK(x.cmp(y) == p * s - r * q); }
        if (fits<T>(q * s)) { nontrivial++; if (fits<T>(p * s + r * q)) { F z = x; z += y; CHECK(is<T>(x + y, p * s + r * q, q * s)); CHECK(is<T>(z, p * s + r * q, q * s)); } if (fits<T>(p * s - r * q)) { F z = x; z -= y; CHECK(is<T>(x - y, p * s - r * q, q * s)); CHECK(is<T>(z, p * s - r * q, q * s)); } } }
    if (fits<T>(p * r) && fits<T>(q * s)) { F z = x; z *= y; CHECK(is<T>(x * y, p * r, q * s)); CHECK(is<T>(z, p * r, q * s)); }
    if (r && fits<T>(p * s) && fits<T>(q * r)) { F z = x; z /= y; CHECK(is<T>(x / y, p * s, q * r)); CHECK(is<T>(z, p * s, q * r)); }
    if (fits<T>(2 * p * q) && fits<T>(q * q)) { F z = x; z += z; CHECK(is<T>(z, 2 * p, q)); z = x; z -= z; CHECK(is<T>(z, 0, 1)); } if (fits<T>(p * p) && fits<T>(q * q)) { F z = x; z *= z; CHECK(is<T>(z, p * p, q * q)); } if (p && fits<T>(p * q)) { F z = x; z /= z; CHECK(is<T>(z, 1, 1)); } }
template<typename T> static void hist(const char* nm) { typedef fraction<T> F; F x(0); i128 n = 0, d = 1; uint64_t s0 = rng.s; for (int i = 0; i < 40; i++) { T c = (T)rng.below(13) - 6, e = 1 + rng.below(6); set(nm, s0, i, n, d, c, e); F y(c, e); i128 r = y.p, s = y.q, N, D; int o = rng.below(5); switch (o) { case 0: N = n * s + r * d; D = d * s; break; case 1: N = n * s - r * d; D = d * s; break; case 2: N = n * r; D = d * s; break; case 3: if (!r) continue; N = n * s; D = d * r; break; default: N = -n; D = d; }
        if (!fits<T>(N) || !fits<T>(D) || !fits<T>(n * s) || !fits<T>(r * d)) continue; if (o == 0) { if (rng.below(2)) x += y; else x = x + y; } if (o == 1) { if (rng.below(2)) x -= y; else x = x - y; } if (o == 2) { if (rng.below(2)) x *= y; else x = x * y; } if (o == 3) { if (rng.below(2)) x /= y; else x = x / y; } if (o == 4) x = -x; i128 g = g_(N, D); n = N / g; d = D / g; if (d < 0) n = -n, d = -d; CHECK(x.p == n && x.q == d); } }
template<typename T> static void all(const char* nm, double fr) { for (T a = -5; a <= 5; a++) for (T b = -5; b <= 5; b++) for (T c = -5; c <= 5; c++) for (T d = -5; d <= 5; d++) two<T>(nm, a, b, c, d);
    T lo = std::numeric_limits<T>::min() + 1, hi = std::numeric_limits<T>::max(); auto e = edges<T>(lo, hi); do { T a = pick<T>(e, lo, hi), b = pick<T>(e, lo, hi), c, d; int k = rng.below(4); T m = k == 0 ? hi : k == 1 ? hi / (1 + ab(a)) : k == 2 ? hi / (1 + ab(b)) : (T)1000; c = pick<T>(e, -m, m); d = pick<T>(e, -m, m); if (rng.below(4) == 0) { a = (T)rng.below(40) - 20; } if (rng.below(4) == 0) d = (T)rng.below(40) - 20; two<T>(nm, a, b, c, d); two<T>(nm, c, d, a, b); hist<T>("history"); } while (!timeup(fr)); }
int main(int c, char** v) { init(c, v); rng.s = seed; all<int>("fraction<int>", .5); all<int64_t>("fraction<int64_t>", 1); return done(); }
