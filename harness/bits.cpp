#include "h.h"
#include <altruct/algorithm/math/bits.h>
#include "src/algorithm/math/bits.cpp"
using namespace vh; using namespace altruct::math;
template<typename U> static int W_() { return (int)sizeof(U) * 8; }
template<typename U> static bool bt(U x, int i) { return i < W_<U>() && ((u128)x >> i & 1); }
template<typename U> static int pcn(U x) { int c = 0; for (int i = 0; i < W_<U>(); i++) c += bt(x, i); return c; }
template<typename U> static int len(U x) { int c = 0; for (int i = 0; i < W_<U>(); i++) if (bt(x, i)) c = i + 1; return c; }
template<typename U> static int tzn(U x) { for (int i = 0; i < W_<U>(); i++) if (bt(x, i)) return i; return W_<U>(); }
template<typename U> static void one(const char* nm, U x) {
    set(nm, x); const int w = W_<U>(); nontrivial++; typedef typename std::make_signed<U>::type S;
    CHECK(bit_cnt1(x) == pcn(x)); CHECK(ilog2(x) == (x ? len(x) - 1 : 0)); CHECK(ilog2((S)x) == ilog2(x)); CHECK(lzc(x) == w - len(x)); CHECK(tzc(x) == tzn(x));
    U rv = bit_reverse(x); U od = or_down(x), gb = gray_to_bin(x), bg = bin_to_gray(x), hb = hi_bit(x), lb = lo_bit(x);
    bool par = false; for (int i = w - 1; i >= 0; i--) { par ^= bt(x, i); CHECK(bt(gb, i) == par); CHECK(bt(rv, i) == bt(x, w - 1 - i)); CHECK(bt(od, i) == (i < len(x))); CHECK(bt(bg, i) == (bt(x, i) != bt(x, i + 1))); CHECK(bt(hb, i) == (i == len(x) - 1)); CHECK(bt(lb, i) == (x && i == tzn(x))); }
    CHECK(xor_down(x) == gb && gray_to_bin(bg) == x && bin_to_gray(gb) == x); CHECK(neg(x) == (U)(0 - x)); CHECK(is_pow2(x) == (pcn(x) <= 1) && is_not_pow2(x) == (pcn(x) > 1)); CHECK((u128)next_pow2(x) == (len(x) == w ? (u128)0 : (u128)1 << len(x)));
    U hi = (U)1 << (w - 1), sm = sign_mag(x); if (x < hi) CHECK(sm == x); else if (x > hi) { CHECK(bt(sm, w - 1) && (U)(sm ^ hi) == (U)(0 - x)); CHECK(sign_mag(sm) == x); } else CHECK(sm == 0); }
template<typename U> static void pos(const char* nm, U x, U y, U m, int p) {
    set(nm, x, y, m, p); const int w = W_<U>(); typedef typename std::make_signed<U>::type S;
    U mb = make_bit<U>(p), mo = make_ones<U>(p), s = set_bit(x, p), f = flip_bit(x, p), c = clear_bit(x, p), e = erase_bit(x, p), mx = mix_bits(x, y, m);
    CHECK(get_bit(x, p) == (U)bt(x, p)); CHECK(get_bit((S)x, p) == (S)bt(x, p)); if (p < w - 1) { CHECK((U)set_bit((S)x, p) == s && (U)flip_bit((S)x, p) == f && (U)clear_bit((S)x, p) == c); } CHECK((U)mix_bits((S)x, (S)y, (S)m) == mx);
    for (int i = 0; i < w; i++) { CHECK(bt(mb, i) == (i == p)); CHECK(bt(mo, i) == (i < p)); CHECK(bt(s, i) == (i == p || bt(x, i))); CHECK(bt(f, i) == (bt(x, i) != (i == p))); CHECK(bt(c, i) == (i != p && bt(x, i))); CHECK(bt(e, i) == (i < p ? bt(x, i) : bt(x, i + 1))); CHECK(bt(mx, i) == (bt(m, i) ? bt(y, i) : bt(x, i))); } }
template<typename U> static void comb(const char* nm, int n, int k) { U x = ((U)1 << k) - 1; std::vector<U> all; for (u128 v = 0; v < ((u128)1 << n); v++) if (pcn((U)v) == k) all.push_back((U)v);
    for (size_t i = 0; i < all.size(); i++) { set(nm, n, k, x); CHECK(x == all[i]); bool b = next_combination(x, n); CHECK(b == (i + 1 < all.size())); } CHECK(x == all[0]); }
template<typename U> static void combr(const char* nm, U x, int n) { if (n < 1 || n >= W_<U>()) return; x &= ((U)1 << n) - 1; if (!x) return; set(nm, x, n); std::string s; for (int i = n - 1; i >= 0; i--) s += char('0' + bt(x, i)); bool b = std::next_permutation(s.begin(), s.end()); U y = 0; for (char ch : s) y = y << 1 | (ch - '0'); U z = x; bool g = next_combination(z, n); CHECK(g == b && z == y); }
template<typename U> static void wide(const char* nm, double fr) { auto e = edges<U>(0, std::numeric_limits<U>::max()); const int w = W_<U>(); auto rnd = [&]() -> U { U x = pick<U>(e, 0, std::numeric_limits<U>::max()); switch (rng.below(6)) { case 0: return (U)1 << rng.below(w); case 1: return ((U)1 << rng.below(w)) - 1; case 2: return x & (U)rng(); case 3: return (U)~((U)1 << rng.below(w)); case 4: return (U)rng() >> rng.below(w); default: return x; } };
    for (int i = 0; i < w; i++) for (int j = 0; j <= i; j++) { one<U>(nm, (U)1 << i); one<U>(nm, (U)(((U)1 << i) - 1)); one<U>(nm, (U)1 << i | (U)1 << j); one<U>(nm, ~((U)1 << i | (U)1 << j)); one<U>(nm, ((U)1 << i) - ((U)1 << j)); }
    do { U x = rnd(), y = rnd(), m = rnd(); one<U>(nm, x); pos<U>(nm, x, y, m, rng.below(w)); combr<U>("next_combination", x, 1 + rng.below(w - 1)); } while (!timeup(fr)); }
int main(int c, char** v) { init(c, v); rng.s = seed;
    for (int x = 0; x < 256; x++) one<uint8_t>("u8", x); for (int x = 0; x < 65536; x++) one<uint16_t>("u16", x);
    for (int x = 0; x < 256; x++) for (int p = 0; p < 8; p++) pos<uint8_t>("u8", x, 255 - x * 3, x * 7, p); for (int x = 0; x < 65536; x += 5) for (int p = 0; p < 16; p++) pos<uint16_t>("u16", x, x * 3, x * 7, p);
    for (int n = 1; n < 8; n++) for (int k = 1; k <= n; k++) { comb<uint8_t>("next_combination<u8>", n, k); comb<uint32_t>("next_combination<u32>", n, k); } for (int n = 1; n < 13; n++) for (int k = 1; k <= n; k++) { comb<uint16_t>("next_combination<u16>", n, k); comb<uint64_t>("next_combination<u64>", n, k); }
    wide<uint32_t>("u32", .5); wide<uint64_t>("u64", 1); return done(); }
