#include "h.h"
#include "altruct/algorithm/math/base.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/structure/math/polynom.h"
using namespace altruct::math; using namespace vh;
// free monoid, and a monoid of affine maps (not commutative)
struct Str { std::string s; Str& operator*=(const Str& o) { s += std::string(o.s); return *this; } };
struct Aff { uint64_t a, b; Aff& operator*=(const Aff& o) { uint64_t na = a * o.a, nb = a * o.b + b; a = na; b = nb; return *this; } };
namespace altruct { namespace math {
template<> struct identityT<Str> { static Str of(const Str&) { return Str{}; } };
template<> struct identityT<Aff> { static Aff of(const Aff&) { return Aff{1, 0}; } };
}}
template<typename I> void mon(const char* tn) {
    std::string t(tn); const i128 hi = std::numeric_limits<I>::max();
    for (int n = 0; n <= 40; n++) { set("powT<free monoid," + t + ">", n); Str r = powT<Str, I>(Str{"ab"}, (I)n); std::string w; for (int i = 0; i < n; i++) w += "ab"; CHECK(r.s == w); }
    auto e = edges<I>(0, std::numeric_limits<I>::max());
    for (I n : e) { set("powT<affine," + t + ">", n); Aff x{rng() | 1, rng()}; Aff r = powT<Aff, I>(x, n);
        // reference: binary method from the top bit
        Aff q{1, 0}; for (int b = 63; b >= 0; b--) { q *= Aff(q); if ((u128)n >> b & 1) q *= x; } CHECK(r.a == q.a && r.b == q.b); }
    for (int i = 0; i < 300; i++) { I n = pick<I>(e, 0, (I)hi); set("powT<affine," + t + ">", n); Aff x{rng() | 1, rng()}; Aff r = powT<Aff, I>(x, n); Aff q{1, 0}; for (int b = 63; b >= 0; b--) { q *= Aff(q); if ((u128)n >> b & 1) q *= x; } CHECK(r.a == q.a && r.b == q.b); }
}
template<typename T, typename I> void ints(const char* tn) {
    std::string t(tn); const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); auto e = edges<T>(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
    for (T x : e) { u128 w = 1; i128 p = 1; bool fit = true;
        for (int n = 0; n <= 70; n++) {
            if (fit && p >= lo && p <= hi && p > -hi - 1) { set("powT<" + t + ">", x, n); T r = powT<T, I>(x, (I)n); CHECK((i128)r == p); }
            else { fit = false; if (lo == 0) { set("powT<" + t + ">", x, n); T r = powT<T, I>(x, (I)n); CHECK(r == (T)w); } }
            w = (u128)(T)(w * (u128)(T)x); if (fit) { u128 ap = p < 0 ? -p : p, ax = (i128)x < 0 ? -(i128)x : (i128)x; if (ap > (u128)hi || (ax && ap > ((u128)1 << 120) / ax)) fit = false; else p *= (i128)x; } } }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    do {
    mon<int8_t>("int8_t"); mon<uint8_t>("uint8_t"); mon<int16_t>("int16_t"); mon<uint16_t>("uint16_t"); mon<int>("int"); mon<unsigned>("unsigned"); mon<int64_t>("int64_t"); mon<uint64_t>("uint64_t"); mon<long long>("long long"); mon<unsigned long long>("unsigned long long");
    ints<int, int>("int,int"); ints<int, uint64_t>("int,uint64_t"); ints<int64_t, int>("int64_t,int"); ints<int64_t, int64_t>("int64_t,int64_t"); ints<unsigned, int>("unsigned,int"); ints<uint64_t, uint64_t>("uint64_t,uint64_t"); ints<uint64_t, int>("uint64_t,int");
    { auto e = edges<int64_t>(0, INT64_MAX); for (int k = 0; k < 300; k++) { int64_t n = pick<int64_t>(e, 0, INT64_MAX); uint64_t m = 1 + rng.any() % 2000000000ull; set("powT<moduloX>", k, n, m); moduloX<uint64_t> x(rng() % m, m), r = powT(x, n); u128 q = 1 % m; for (int b = 62; b >= 0; b--) { q = q * q % m; if (n >> b & 1) q = q * x.v % m; } CHECK(r.v == (uint64_t)q && r.M() == m); } }
    for (int n = 0; n < 30; n++) { set("powT<matrix>", n); matrix<uint64_t> a(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = rng() % 10; matrix<uint64_t> r = powT(a, n), q = matrix<uint64_t>::identity(2); for (int i = 0; i < n; i++) q = q * a; CHECK(r == q); }
    for (int n = 0; n < 30; n++) { set("powT<permutation>", n); std::vector<int> l(7); for (int i = 0; i < 7; i++) { l[i] = i; std::swap(l[i], l[rng() % (i + 1)]); } permutation<int> a(l); auto al = a.to_line(); permutation<int> r = powT(a, n); auto s = r.to_line(); for (int i = 0; i < 7; i++) { int x = i; for (int k = 0; k < n; k++) x = al[x]; CHECK(s[i] == x); } }
    for (int n = 0; n < 14; n++) { set("powT<polynom>", n); polynom<int64_t> a{1, -2, 3}, r = powT(a, n), q{1}; for (int i = 0; i < n; i++) q = q * a; CHECK(r == q); }
    } while (!timeup());
    return done();
}
