#include "h.h"
#include "altruct/algorithm/math/base.h"
using namespace altruct::math; using namespace vh;
static i128 F(i128 a, i128 b) { if (b < 0) a = -a, b = -b; i128 q = a / b; return (a % b < 0) ? q - 1 : q; }
static i128 N(i128 a, i128 b) { if (b < 0) a = -a, b = -b; return a >= 0 ? (2 * a + b) / (2 * b) : -((-2 * a + b) / (2 * b)); }
template<typename T> void one(T a, T b, T c, const std::string& t) {
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); const bool sg = lo < 0; i128 A = a, B = b;
    if (b != 0 && !(sg && B == lo) && !(sg && A == lo && B < 0)) {
        set("div_floor<" + t + ">", a, b); { T r = div_floor<T>(a, b); CHECK((i128)r == F(A, B)); }
        set("div_ceil<" + t + ">", a, b); { T r = div_ceil<T>(a, b); CHECK((i128)r == -F(-A, B)); }
        set("div_round<" + t + ">", a, b); { T r = div_round<T>(a, b); CHECK((i128)r == N(A, B)); }
    }
    if (a > 0) { i128 m = -F(-B, A) * A; if (m >= lo && m <= hi) { set("multiple<" + t + ">", a, b); T r = multiple<T>(a, b); CHECK((i128)r == m); } }
    if (!(sg && A == lo)) { set("absT<" + t + ">", a); T r = absT<T>(a); CHECK((i128)r == (A < 0 ? -A : A)); }
    set("minT<" + t + ">", a, b); { T r = minT<T>(a, b); CHECK((i128)r == std::min(A, B)); }
    set("maxT<" + t + ">", a, b); { T r = maxT<T>(a, b); CHECK((i128)r == std::max(A, B)); }
    { T l = std::min(b, c), h = std::max(b, c); set("boundT<" + t + ">", a, l, h); T r = boundT<T>(a, l, h); CHECK((i128)r == std::min(std::max(A, (i128)l), (i128)h)); }
}
template<typename T> void type(const std::string& t, double f) {
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (sizeof(T) == 1) { for (int a = lo; a <= hi; a++) for (int b = lo; b <= hi; b++) one<T>((T)a, (T)b, (T)(a * 7 + b * 3), t); return; }
    int N0 = 60; for (int a = lo < 0 ? -N0 : 0; a <= N0; a++) for (int b = lo < 0 ? -N0 : 0; b <= N0; b++) one<T>((T)a, (T)b, (T)(a - b), t);
    auto e = edges<T>(lo, hi); for (T a : e) { for (T b : e) one<T>(a, b, e[rng.below(e.size())], t); if (timeup(f)) break; }
    while (!timeup(f)) for (int i = 0; i < 500; i++) { T a = pick<T>(e, lo, hi), b = pick<T>(e, lo, hi); one<T>(a, b, pick<T>(e, lo, hi), t); T k = pick<T>(e, 1, 1000); if (b > 0) one<T>(T((a / b) * b), b, k, t); }
}
int main(int c, char** v) { init(c, v); rng.s = seed; type<int8_t>("int8_t", 0); type<uint8_t>("uint8_t", 0); type<int16_t>("int16_t", .15); type<uint16_t>("uint16_t", .3); type<int>("int", .45); type<unsigned>("unsigned", .6); type<int64_t>("int64_t", .75); type<uint64_t>("uint64_t", .85); type<long long>("long long", .95); type<unsigned long long>("unsigned long long", 1); return done(); }
