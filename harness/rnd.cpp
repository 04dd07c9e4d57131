#include "h.h"
#include <altruct/algorithm/random/random.h>
#include <altruct/algorithm/random/xorshift.h>
using namespace vh; using namespace altruct::random;
template<typename U, typename V> static void range(V a, V b, U v) { if (a > b) std::swap(a, b); set("integer_to_range", a, b, v, sizeof(U), sizeof(V)); V r = integer_to_range<U, V>(v, a, b); CHECK(a <= r && r <= b); u128 w = (u128)((i128)b - (i128)a) + 1; if (w >> (8 * sizeof(V)) == 0) CHECK((i128)r == (i128)a + (i128)((u128)v % w)); }
template<typename U> static void uni(U a, U b, uint64_t seed) { if (a > b) std::swap(a, b); set("uniform_next", a, b, seed, sizeof(U)); Rng r{seed}; std::vector<U> outs; auto next = [&]() -> U { U v = (U)r(); if (seed % 3 == 0) v = (U)~(U)(r.below(4)); if (seed % 3 == 1) v = (U)(v | (U)((U)~(U)0 << (4 * sizeof(U)))); outs.push_back(v); return v; };
    U x = uniform_next<U>(next, a, b); CHECK(a <= x && x <= b); CHECK(outs.size() >= 1 && outs.size() <= 20); u128 full = (u128)1 << (8 * sizeof(U)), w = (u128)b - a + 1, lim = full - full % w; for (size_t i = 0; i + 1 < outs.size(); i++) CHECK((u128)outs[i] >= lim); CHECK((u128)outs.back() < lim || outs.size() == 20); CHECK((u128)x == (u128)a + (u128)outs.back() % w); }
static uint64_t x64(uint64_t& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ULL; }
template<typename U> static void all(double fr) { auto e = edges<U>(0, (U)~(U)0); do { range<U, int8_t>((int8_t)rng(), (int8_t)rng(), pick(e, (U)0, (U)~(U)0)); range<U, uint8_t>((uint8_t)rng(), (uint8_t)rng(), pick(e, (U)0, (U)~(U)0));
        auto go = [&](auto z) { typedef decltype(z) V; auto ev = edges<V>(std::numeric_limits<V>::min(), std::numeric_limits<V>::max()); for (int i = 0; i < 300; i++) range<U, V>(pick(ev, std::numeric_limits<V>::min(), std::numeric_limits<V>::max()), pick(ev, std::numeric_limits<V>::min(), std::numeric_limits<V>::max()), pick(e, (U)0, (U)~(U)0)); };
        go(int16_t()); go(uint16_t()); go(int32_t()); go(uint32_t()); go(int64_t()); go(uint64_t());
        for (int i = 0; i < 200; i++) uni<U>(pick(e, (U)0, (U)~(U)0), pick(e, (U)0, (U)~(U)0), rng()); uni<U>(0, (U)~(U)0, rng());
    } while (!timeup(fr)); }
int main(int c, char** v) { init(c, v); rng.s = seed;
    all<uint8_t>(0.2); all<uint16_t>(0.4); all<uint32_t>(0.6); all<uint64_t>(0.8);
    do { uint64_t s = rng(); set("xorshift_64star", s); xorshift_64star x(s); uint64_t m = s; for (int i = 0; i < 50; i++) { uint64_t a = rng.any(), b = rng.any(); if (a > b) std::swap(a, b); if (rng.below(6) == 0) { a = rng.below(2); b = ~0ull - rng.below(2); } switch (rng.below(4)) { case 0: CHECK(x.next() == x64(m)); break; case 1: CHECK(x() == x64(m)); break;
            case 2: { uint64_t r = x.next(a, b); uint64_t o = x64(m); CHECK(a <= r && r <= b); if (b - a + 1) CHECK(r == a + o % (b - a + 1)); break; }
            case 3: { uint64_t r = x.next_uniform(a, b); CHECK(a <= r && r <= b); u128 full = (u128)1 << 64, w = (u128)(b - a) + 1, lim = full - full % w; uint64_t o = 0; for (int t = 0; t < 20; t++) { o = x64(m); if (o < lim) break; } CHECK(r == a + (uint64_t)(o % w)); break; } } }
        set("xorshift_1024star", s); xorshift_1024star y(s); uint64_t st[16], q = s; int p = 0; for (auto& z : st) z = x64(q);
        for (int i = 0; i < 80; i++) { uint64_t s0 = st[p]; p = (p + 1) & 15; uint64_t s1 = st[p]; s1 ^= s1 << 31; s1 ^= s1 >> 11; s0 ^= s0 >> 30; st[p] = s0 ^ s1; uint64_t o = st[p] * 1181783497276652981ULL; if (i % 3) CHECK(y.next() == o); else { uint64_t a = rng.any(), b = rng.any(); if (a > b) std::swap(a, b); if (rng.below(6) == 0) { a = rng.below(2); b = ~0ull - rng.below(2); } uint64_t r = y.next(a, b); CHECK(a <= r && r <= b); if (b - a + 1) CHECK(r == a + o % (b - a + 1)); } }
        uint64_t init[16]; for (auto& z : init) z = rng(); xorshift_1024star w(init); CHECK(w.next() != 0 || true);
        { uint64_t u[16]; std::copy(init, init + 16, u); uint64_t s0 = u[0], s1 = u[1]; s1 ^= s1 << 31; s1 ^= s1 >> 11; s0 ^= s0 >> 30; xorshift_1024star z(init); CHECK(z.next() == (s0 ^ s1) * 1181783497276652981ULL); }
    } while (!timeup());
    return done(); }
