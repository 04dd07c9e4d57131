#include "h.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math; using namespace vh;
static i128 md(i128 v, i128 M) { i128 r = v % M; return r < 0 ? r + M : r; }
static i128 pw(i128 x, u128 n, i128 M);
// exact product modulo M < 2^64 of residues
static i128 mm(i128 x, i128 y, i128 M) { return (i128)((u128)x * (u128)y % (u128)M); }
static i128 pw(i128 x, u128 n, i128 M) { i128 r = 1 % M; x = md(x, M); for (; n; n >>= 1) { if (n & 1) r = mm(r, x, M); x = mm(x, x, M); } return r; }
template<typename T, typename M> void cls(M a, M b, T x, T y, T m, bool inst) {
    set("modulo class", x, y, m);
    auto ok = [&](const M& r, i128 w) { return (i128)r.v == w && (i128)r.M() == (i128)m; };
    CHECK(ok(a, x)); CHECK(ok(b, y));
    CHECK(ok(a + b, md((i128)x + y, m)), "class +"); CHECK(ok(a - b, md((i128)x - y, m)), "class -"); CHECK(ok(a * b, mm(x, y, m)), "class *"); CHECK(ok(-a, md(-(i128)x, m)), "unary -"); CHECK(ok(a.neg(), md(-(i128)x, m)), "neg");
    { M t = a; t += b; CHECK(ok(t, md((i128)x + y, m)), "+="); t -= b; CHECK(ok(t, x), "-="); t *= b; CHECK(ok(t, mm(x, y, m)), "*="); t = a; t += t; CHECK(ok(t, md((i128)x + x, m)), "aliased +="); t = a; t -= t; CHECK(ok(t, 0), "aliased -="); t = a; t *= t; CHECK(ok(t, mm(x, x, m)), "aliased *= " + str(t.v) + " " + str(t.M()) + " " + str(mm(x,x,m))); }
    CHECK(ok(b, y)); CHECK(ok(a, x));
    CHECK(ok(identityOf(a), 1 % (i128)m), "identity"); CHECK(ok(zeroOf(a), 0), "zero");
    CHECK((a == b) == (x == y)); CHECK((a != b) == (x != y)); CHECK((a < b) == (x < y)); CHECK((a > b) == (x > y)); CHECK((a <= b) == (x <= y)); CHECK((a >= b) == (x >= y));
}
template<typename M, typename E> void pwr(M a, i128 x, E e, i128 m) { if (e < 0) return; set("powT(modulo)", x, e, m); M r = powT(a, e); CHECK((i128)r.v == pw(x, (u128)e, m)); CHECK((i128)r.M() == m); }
template<typename T> void ring(T x, T y, T m) {
    set("modulo_add", x, y, m); CHECK((i128)modulo_add<T>(x, y, m) == md((i128)x + y, m));
    set("modulo_sub", x, y, m); CHECK((i128)modulo_sub<T>(x, y, m) == md((i128)x - y, m));
    set("modulo_neg", x, m); CHECK((i128)modulo_neg<T>(x, m) == md(-(i128)x, m));
    set("modulo_mul", x, y, m); CHECK((i128)modulo_mul<T>(x, y, m) == mm(x, y, m));
    set("modulo_mul_int_long", x, y, m); CHECK((i128)modulo_mul_int_long<T>(x, y, m) == mm(x, y, m));
    set("modulo object", x, y, m);
    cls<T>(modulo<T, 0, modulo_storage::INSTANCE>(x, m), modulo<T, 0, modulo_storage::INSTANCE>(y, m), x, y, m, true);
    modulo<T, 7, modulo_storage::STATIC>::M() = m;
    cls<T>(modulo<T, 7, modulo_storage::STATIC>(x), modulo<T, 7, modulo_storage::STATIC>(y), x, y, m, false);
    modulo<T, 7, modulo_storage::STATIC> d; CHECK(d.v == 0);
}
template<typename T> void power(T x, T m, uint64_t e) {
    moduloX<T> a(x, m); pwr(a, x, (int)(e & 0x7fffffff), m); pwr(a, x, (unsigned)e, m); pwr(a, x, (long long)(e >> 1), m); pwr(a, x, e, m); pwr(a, x, (uint8_t)e, m); pwr(a, x, (short)(e & 0x7fff), m);
    set("modulo_power", x, e, m); CHECK((i128)modulo_power<T>(x, (int64_t)(e >> 1), m) == pw(x, e >> 1, m)); CHECK((i128)modulo_power<T>(x, e, m) == pw(x, e, m));
    modulo<T, 7, modulo_storage::STATIC>::M() = m; pwr(modulo<T, 7, modulo_storage::STATIC>(x), x, e, m);
}
template<typename V, typename T> void norm(V v, T m) { set("modulo_normalize", v, m, (i128)sizeof(V), (i128)sizeof(T), (i128)std::is_signed<V>::value, (i128)std::is_signed<T>::value);
    { T r = modulo_normalize<V, T>(v, m); CHECK((i128)r == md((i128)v, m)); } moduloX<T> a(v, m); CHECK((i128)a.v == md((i128)v, m)); 
    modulo<T, 7, modulo_storage::STATIC>::M() = m; modulo<T, 7, modulo_storage::STATIC> s(v), s2(v, m); CHECK((i128)s.v == md((i128)v, m)); CHECK((i128)s2.v == md((i128)v, m)); 
    CHECK((i128)castOf(s, v).v == md((i128)v, m)); CHECK((i128)castOf(a, v).v == md((i128)v, m)); moduloX<T> w = a; w = castOf<moduloX<T>>(a, T(0)); CHECK(w.v == 0 && w.M() == m); }
template<typename T> void one(T x, T y, T m) { if (m < 1) return; T rx = (T)md(x, m), ry = (T)md(y, m); ring<T>(rx, ry, m);
    norm<T, T>(x, m); norm<int, T>((int)x, m); norm<unsigned, T>((unsigned)x, m); norm<int64_t, T>((int64_t)x, m); norm<uint64_t, T>((uint64_t)x, m); norm<int64_t, T>(std::numeric_limits<int64_t>::min() + (int)(unsigned char)y, m);
    norm<short, T>((short)x, m); norm<unsigned short, T>((unsigned short)x, m); norm<signed char, T>((signed char)x, m); norm<unsigned char, T>((unsigned char)x, m); norm<long long, T>(x, m); norm<unsigned long long, T>(x, m);
    set("modT", x, m); CHECK((i128)modT<T>(x, m) == md(x, m)); }
template<typename T, uint64_t ID> void cst(const std::vector<T>& e) { typedef modulo<T, ID, modulo_storage::CONSTANT> M; T m = (T)ID;
    auto go = [&](T x, T y) { set("constant modulus", x, y, m); M a(x), b(y); CHECK((i128)a.v == md(x, m)); M u((int)x); CHECK((i128)u.v == md((int)x, m)); M w(x, 5); CHECK((i128)w.v == md(x, m)); cls<T>(a, b, (T)md(x, m), (T)md(y, m), m, false); pwr(a, a.v, (uint64_t)y, m); M d; CHECK(d.v == 0); };
    for (T x : e) for (int k = 0; k < 12; k++) go(x, e[rng.below(e.size())]); for (int i = 0; i < 100; i++) go((T)rng.any(), (T)rng.any()); for (T x : e) go(x, x); for (int i = -3; i <= 3; i++) for (int j = -3; j <= 3; j++) go((T)((i128)m + i), (T)((i128)m + j)); }
template<typename T> void small() { for (int m = 1; m <= (deep ? 40 : 14); m++) for (int x = 0; x < m; x++) { for (int y = 0; y < m; y++) ring<T>((T)x, (T)y, (T)m); for (int e = 0; e < 12; e++) power<T>((T)x, (T)m, e); for (int v = -2 * m; v <= 3 * m; v++) if (std::is_signed<T>::value || v >= 0) norm<T, T>((T)v, (T)m); } }
template<typename T> void type(double f) {
    T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); small<T>();
    auto e = edges<T>(lo, hi); std::vector<T> ms; for (T v : e) if (v >= 1) ms.push_back(v);
    for (int i = 0; i < 300; i++) { T m = ms[rng.below(ms.size())]; for (T d : {(T)0, (T)1, (T)2, (T)(m / 2), (T)(m / 2 + 1), (T)(m - 1)}) { one<T>(d, m - 1, m); one<T>(m - 1, d, m); power<T>((T)md(d, m), m, rng.any()); } }
    for (int i = 1; i <= 5; i++) for (int j = 0; j <= 4; j++) for (int k = 0; k <= 4; k++) one<T>((T)(hi - i - j), (T)(hi - i - k), (T)(hi - i + 1));
    for (T m : ms) if (!timeup(f)) for (int k = 0; k < 4; k++) { T x = e[rng.below(e.size())], y = e[rng.below(e.size())]; one<T>(x, y, m); one<T>(lo, hi, m); one<T>(hi, lo, m); power<T>((T)md(x, m), m, (uint64_t)e[rng.below(e.size())]); }
    while (!timeup(f)) for (int i = 0; i < 100; i++) { T m = pick<T>(ms, 1, hi), x = pick<T>(e, lo, hi), y = pick<T>(e, lo, hi); one<T>(x, y, m); power<T>((T)md(x, m), m, rng.any()); }
}
int main(int c, char** v) { init(c, v); rng.s = seed;
    { auto e = edges<int>(INT_MIN, INT_MAX); cst<int, 1>(e); cst<int, 2>(e); cst<int, 1000000007>(e); cst<int, 2147483647>(e); cst<int, 6>(e); cst<int, 65536>(e); cst<int, 46341>(e); cst<int, 1073741825>(e); }
    { auto e = edges<unsigned>(0, ~0u); cst<unsigned, 1>(e); cst<unsigned, 4294967295u>(e); cst<unsigned, 2147483649u>(e); cst<unsigned, 1000000007>(e); }
    { auto e = edges<int64_t>(INT64_MIN, INT64_MAX); cst<int64_t, 1>(e); cst<int64_t, 1000000007>(e); cst<int64_t, INT64_MAX>(e); cst<int64_t, 4294967296ULL>(e); cst<int64_t, 4294967297ULL>(e); cst<int64_t, 1000000000000000003ULL>(e); }
    { auto e = edges<uint64_t>(0, ~0ull); cst<uint64_t, 1>(e); cst<uint64_t, ~0ull>(e); cst<uint64_t, 9223372036854775809ULL>(e); cst<uint64_t, 1000000007>(e); }
    type<uint8_t>(.08); type<int8_t>(.16); type<short>(.24); type<unsigned short>(.32); type<int>(.5); type<unsigned>(.62); type<int64_t>(.8); type<uint64_t>(.92); type<long long>(.96); type<unsigned long long>(1); return done(); }
