#include "h.h"
#include <altruct/algorithm/math/modulos.h>
using namespace vh; using namespace altruct::math;
static i128 g_(i128 a, i128 b) { while (a) { i128 t = b % a; b = a; a = t; } return b; }
template<typename T> static void crt(const char* nm, T a1, T n1, T a2, T n2) { set(nm, a1, n1, a2, n2); i128 g = g_(n1, n2); u128 l = (u128)(n1 / (T)g) * (u128)n2; if (l > (u128)std::numeric_limits<T>::max()) return; bool ok = ((i128)a2 - (i128)a1) % g == 0; nontrivial += ok;
    T a = 7, n = 9; chinese_remainder<T>(&a, &n, a1, n1, a2, n2); T ar = a1, nr = n1; chinese_remainder<T>(&ar, &nr, a2, n2); T r = chinese_remainder<T>(a1, n1, a2, n2);
    if (ok) { CHECK((u128)n == l && a >= 0 && (u128)a < l && a % n1 == a1 && a % n2 == a2); } else { CHECK(n == 0 && a == 0); } CHECK(ar == a && nr == n && r == a); }
template<typename T> static void crts(const char* nm, double fr) { if (!on(nm)) return; T hi = std::numeric_limits<T>::max();
    for (T n1 = 1; n1 <= 12; n1++) for (T n2 = 1; n2 <= 12; n2++) for (T a1 = 0; a1 < n1; a1++) for (T a2 = 0; a2 < n2; a2++) crt<T>(nm, a1, n1, a2, n2);
    auto e = edges<T>(1, hi); do { T n1 = pick<T>(e, 1, hi), n2; 
        switch (rng.below(5)) { case 0: n2 = pick<T>(e, 1, hi / n1); break; case 1: { T g = pick<T>(e, 1, hi); T h1 = pick<T>(e, 1, hi / g), h2 = pick<T>(e, 1, hi / g / h1); n1 = g * h1; n2 = g * h2; break; } case 2: n2 = hi / n1; break; case 3: n2 = n1; break; default: n2 = 1 + rng.below(40); if (rng.below(2)) std::swap(n1, n2); }
        T a1 = pick<T>(e, 1, n1) - 1, a2 = pick<T>(e, 1, n2) - 1; if (rng.below(3)) { i128 g = g_(n1, n2); T q = (T)(a2 / (T)g * (T)g), rr = (T)(a1 % (T)g); if ((u128)q + rr < (u128)n2) a2 = q + rr; } if (rng.below(6) == 0) { a1 = n1 - 1; a2 = n2 - 1; }
        crt<T>(nm, a1, n1, a2, n2); } while (!timeup(fr)); }
template<typename T> static void gar(const char* nm, std::vector<T> p, u128 u) { static std::string ex; ex = "moduli"; for (T m : p) { ex += " " + str(m); } setx(nm, &ex, u); typedef modulo<T, 0, modulo_storage::INSTANCE> mo; std::vector<mo> a; u128 P = 1; for (T m : p) { a.push_back(mo((T)(u % (u128)m), m)); P *= m; } u %= P;
    auto x = garner(a); CHECK(x.size() == a.size()); u128 s = 0, q = 1; for (size_t i = 0; i < x.size(); i++) { CHECK(x[i].M() == p[i] && x[i].v >= 0 && x[i].v < p[i]); s += (u128)x[i].v * q; q *= p[i]; } CHECK(s == u); }
template<typename T> static void gars(const char* nm, double fr) { if (!on(nm)) return; T hi = std::numeric_limits<T>::max(); auto e = edges<T>(1, hi); do { std::vector<T> p; u128 P = 1; int k = rng.below(7); bool small = rng.below(2); for (int t = 0; t < 60 && (int)p.size() < k; t++) { T m = small ? (T)(1 + rng.below(60)) : pick<T>(e, 1, hi); bool ok = (u128)m <= ((u128)1 << 120) / P; for (T z : p) ok = ok && g_(z, m) == 1; if (ok) { p.push_back(m); P *= m; } }
        u128 u = ((u128)rng() << 64) | rng(); if (rng.below(3) == 0) u = P - 1 - rng.below(3) % P; if (rng.below(4) == 0) u = rng.below(3); gar<T>(nm, p, u % P); } while (!timeup(fr)); }
int main(int c, char** v) { init(c, v); rng.s = seed;
    crts<int>("crt<int>", .12); crts<unsigned>("crt<unsigned>", .24); crts<int64_t>("crt<int64_t>", .36); crts<uint64_t>("crt<uint64_t>", .48); crts<long long>("crt<long long>", .54); crts<unsigned long long>("crt<unsigned long long>", .6);
    gars<int>("garner<int>", .7); gars<unsigned>("garner<unsigned>", .8); gars<int64_t>("garner<int64_t>", .9); gars<uint64_t>("garner<uint64_t>", 1);
    return done(); }
