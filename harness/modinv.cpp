#include "h.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math; using namespace vh;
static u128 G(u128 a, u128 b) { while (a) { u128 r = b % a; b = a; a = r; } return b; }
static i128 mm(i128 x, i128 y, i128 M) { return (i128)((u128)x * (u128)y % (u128)M); }
template<typename T> bool isinv(T v, T w, T m) { if (w < 0 || w >= m) return false; return G(v, m) == 1 ? mm(v, w, m) == 1 % (i128)m : w == 0; }
template<typename T> bool isquo(T x, T y, T q, T m) { if (q < 0 || q >= m) return false; return x % G(y, m) != 0 || mm(q, y, m) == (i128)x; }
template<typename T, typename M> void cls(M a, M b, T x, T y, T m) { set("modulo class / and inv", x, y, m); CHECK(a.v == x && b.v == y);
    { M r = a / b; CHECK(isquo<T>(x, y, r.v, m), "operator/"); CHECK(r.M() == m); } { M t = a; t /= b; CHECK(isquo<T>(x, y, t.v, m), "operator/="); CHECK(b.v == y); t = a; t /= t; CHECK(isquo<T>(x, x, t.v, m), "aliased /="); }
    { M r = a.inv(); CHECK(isinv<T>(x, r.v, m), "inv()"); CHECK(r.M() == m); CHECK(a.v == x); } }
template<typename T> void one(T x, T y, T m) {
    if (m < 1) return; auto nm = [&](T v) { i128 r = (i128)v % (i128)m; return (T)(r < 0 ? r + m : r); }; x = nm(x); y = nm(y);
    set("modulo_inv", x, m); CHECK(isinv<T>(x, modulo_inv<T>(x, m), m));
    set("modulo_inv_int", x, m); CHECK(isinv<T>(x, modulo_inv_int<T>(x, m), m));
    set("modulo_div", x, y, m); CHECK(isquo<T>(x, y, modulo_div<T>(x, y, m), m));
    { T g = (T)G(y, m); T x2 = (T)(x - x % g); set("modulo_div", x2, y, m); CHECK(isquo<T>(x2, y, modulo_div<T>(x2, y, m), m)); x = (T)(rng() & 1 ? x2 : x); }
    if (x > 0) { set("modulo_gcd_ex", x, m); T a = 5, b = 6; T g = modulo_gcd_ex<T>(x, m, a, b); CHECK((u128)g == G(x, m)); CHECK(a >= 0 && a <= m && b >= 0 && b <= x); CHECK(mm(x % m, a, m) == (i128)g % (i128)m); CHECK(mm(m % x, b, x) == (i128)g % (i128)x); 
        set("modulo_gcd_ex", m, x); g = modulo_gcd_ex<T>(m, x, a, b); CHECK((u128)g == G(x, m)); CHECK(a >= 0 && a <= x && b >= 0 && b <= m); CHECK(mm(m % x, a, x) == (i128)g % (i128)x); CHECK(mm(x % m, b, m) == (i128)g % (i128)m); }
    typedef modulo<T, 0, modulo_storage::INSTANCE> MI; typedef modulo<T, 7, modulo_storage::STATIC> MS; cls<T>(MI(x, m), MI(y, m), x, y, m); MS::M() = m; cls<T>(MS(x), MS(y), x, y, m);
}
template<typename T, uint64_t ID> void cst() { typedef modulo<T, ID, modulo_storage::CONSTANT> M; T m = (T)ID; for (int i = 0; i < 400; i++) { T x = (T)((u128)rng.any() % m), y = (T)((u128)rng.any() % m); cls<T>(M(x), M(y), x, y, m); cls<T>(M(y), M(y), y, y, m); } }
template<typename T> void type(double f) {
    T hi = std::numeric_limits<T>::max(); for (int m = 1; m <= (deep ? 60 : 26); m++) for (int x = 0; x < m; x++) for (int y = 0; y < m; y++) one<T>((T)x, (T)y, (T)m);
    auto e = edges<T>(0, hi); for (T m : e) if (m >= 1 && !timeup(f)) for (int k = 0; k < 6; k++) one<T>(e[rng.below(e.size())], e[rng.below(e.size())], m);
    for (T m : e) if (m > 2) for (T x : {(T)1, (T)2, (T)(m - 1), (T)(m - 2), (T)(m / 2), (T)(m / 3)}) for (T y : {(T)2, (T)(m - 1), (T)(m / 2), (T)(m / 3)}) if (!timeup(f)) one<T>(x, y, m);
    { T x = 1, y = 1; while (y <= hi - x) { T z = x + y; x = y; y = z; one<T>(x, (T)(y - 1), y); one<T>((T)(x - 1), x, y); } }
    while (!timeup(f)) for (int i = 0; i < 200; i++) { T m = pick<T>(e, 1, hi), x = pick<T>(e, 0, hi), y = pick<T>(e, 0, hi); one<T>(x, y, m); 
        T g = pick<T>(e, 1, hi); if (hi / g > 1) { T q = (T)(1 + (u128)rng() % (u128)(hi / g)); one<T>((T)(g * (T)((u128)rng.any() % q)), (T)(g * (T)((u128)rng.any() % q)), (T)(g * q)); } }
}
int main(int c, char** v) { init(c, v); rng.s = seed; cst<int, 1>(); cst<int, 12>(); cst<int, 1000000007>(); cst<int, 2147483647>(); cst<unsigned, 4294967295u>(); cst<unsigned, 4294967291u>(); cst<int64_t, 1000000007>(); cst<int64_t, INT64_MAX>(); cst<uint64_t, ~0ull>(); cst<uint64_t, 18446744073709551557ull>();
    type<int>(.25); type<unsigned>(.5); type<int64_t>(.75); type<uint64_t>(1); return done(); }
