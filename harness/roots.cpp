#include "h.h"
#include "altruct/algorithm/math/base.h"
#include "src/algorithm/math/base.cpp"
using namespace altruct::math; using namespace vh;
static i128 R2(i128 x) { i128 lo = 0, hi = (i128)1 << 33; while (lo < hi) { i128 m = (lo + hi + 1) / 2; if (m * m <= x) lo = m; else hi = m - 1; } return lo; }
static i128 R3(i128 x) { i128 lo = 0, hi = (i128)1 << 23; while (lo < hi) { i128 m = (lo + hi + 1) / 2; if (m * m * m <= x) lo = m; else hi = m - 1; } return lo; }
static i128 S2(i128 x) { return x < 0 ? -R2(-x) : R2(x); }
static i128 S3(i128 x) { return x < 0 ? -R3(-x) : R3(x); }
static i128 C2(i128 x) { if (x < 0) return -C2(-x); i128 r = R2(x); return r * r < x ? r + 1 : r; }
static i128 C3(i128 x) { if (x < 0) return -C3(-x); i128 r = R3(x); return r * r * r < x ? r + 1 : r; }
static void fixed(i128 v) {
    const i128 B = (i128)1 << 62, M31 = 0x7fffffff;
    if (v >= 0 && v <= (i128)UINT64_MAX) {
        set("isqrtu", v); CHECK((i128)isqrtu((uint64_t)v) == R2(v));
        set("icbrtu", v); CHECK((i128)icbrtu((uint64_t)v) == R3(v));
    }
    if (v > -B && v < B) { set("isqrt", v); CHECK((i128)isqrt((int64_t)v) == S2(v)); }
    if (v >= -M31 * M31 && v <= M31 * M31) { set("isqrtc", v); CHECK((i128)isqrtc((int64_t)v) == C2(v)); }
    if (v > -(B * 2) && v < B * 2) {
        set("icbrt", v); CHECK((i128)icbrt((int64_t)v) == S3(v));
        set("icbrtc", v); CHECK((i128)icbrtc((int64_t)v) == C3(v)); }
    if (v > -(i128)4294967296ll && v < (i128)4294967296ll && v * v <= INT64_MAX) { set("isq", v); CHECK((i128)isq((int64_t)v) == v * v); }
    if (v > -(1 << 21) && v < (1 << 21)) { set("icb", v); CHECK((i128)icb((int64_t)v) == v * v * v); }
}
template<typename T> void one(i128 v, const char* tn) {
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (v < lo || v > hi) return;
    const bool sg = lo < 0; std::string t(tn); T x = (T)v;
    if (sg && v == lo && (sizeof(T) == 8 || sizeof(T) == 1)) return;
    { i128 r = S2(v); set("sqrtT<" + t + ">", v); CHECK((i128)sqrtT<T>(x) == r);
      set("is_square<" + t + ">", v); CHECK(is_square<T>(x) == (r * r == v)); }
    { i128 r = S3(v); set("cbrtT<" + t + ">", v); CHECK((i128)cbrtT<T>(x) == r);
      set("is_cube<" + t + ">", v); CHECK(is_cube<T>(x) == (r * r * r == v)); }
    if (v < ((i128)1 << 33) && v > -((i128)1 << 33) && v * v <= hi) { set("sqT<" + t + ">", v); CHECK((i128)sqT<T>(x) == v * v); }
    if (v < (1 << 22) && v > -(1 << 22) && v * v * v <= hi && v * v * v >= lo) { set("cbT<" + t + ">", v); CHECK((i128)cbT<T>(x) == v * v * v); }
}
static void all(i128 v) {
    fixed(v); one<int8_t>(v, "int8_t"); one<uint8_t>(v, "uint8_t"); one<int16_t>(v, "int16_t"); one<uint16_t>(v, "uint16_t"); one<int32_t>(v, "int32_t"); one<uint32_t>(v, "uint32_t"); one<int64_t>(v, "int64_t"); one<uint64_t>(v, "uint64_t"); one<long long>(v, "long long"); one<unsigned long long>(v, "unsigned long long");
}
static void pm(i128 v) { for (int d = -2; d <= 2; d++) { all(v + d); all(-v - d); } }
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int i = -66000; i <= 66000; i++) all(i);
    for (int k = 0; k <= 64; k++) { i128 p = (i128)1 << k; pm(p); i128 r = R2(p); for (int d = -2; d <= 2; d++) pm((r + d) * (r + d)); r = R3(p); for (int d = -2; d <= 2; d++) pm((r + d) * (r + d) * (r + d)); }
    for (i128 l : lits) { pm(l); if (l > 0 && l < ((i128)1 << 32)) pm(l * l); if (l > 0 && l < 2642246) pm(l * l * l); }
    for (i128 r = 1; r < 2000; r++) { pm(r * r); pm(r * r * r); }
    while (!timeup()) for (int i = 0; i < 300; i++) {
        int k = 1 + rng() % 32; i128 r = rng() & (((uint64_t)1 << k) - 1); pm(r * r);
        k = 1 + rng() % 21; r = rng() & (((uint64_t)1 << k) - 1); pm(r * r * r);
        r = 4294967295ll - (i128)(rng() % 3000); pm(r * r); r = 2147483647 - (i128)(rng() % 3000); pm(r * r); r = 3037000499ll - (i128)(rng() % 3000); pm(r * r);
        r = 2642245 - (i128)(rng() % 3000); pm(r * r * r); r = 2097151 - (i128)(rng() % 3000); pm(r * r * r);
        uint64_t w = rng() >> (rng() % 64); all(w); all(-(i128)w);
    }
    return done();
}
