#include "h.h"
#include "altruct/algorithm/math/base.h"
using namespace altruct::math; using namespace vh;
static u128 G(u128 a, u128 b) { while (a) { u128 r = b % a; b = a; a = r; } return b; }
static u128 A(i128 x) { return x < 0 ? (u128)-x : (u128)x; }
template<typename T> void one(T a, T b, const char* tn) {
    const bool sg = std::is_signed<T>::value; const T MX = std::numeric_limits<T>::max(), MN = std::numeric_limits<T>::min();
    if (sg && (a == MN || b == MN)) return;
    u128 g = G(A(a), A(b));
    set("gcd", a, b); { T r = gcd<T>(a, b); CHECK(A(r) == g); CHECK(!(a >= 0 && b >= 0) || r >= 0); }
    {
    T fx = 0, fy = 0; int fs = 0; for (int v = 0; v < 8; v++) {
        set("gcd_ex", a, b, v); T x = 77, y = 78; int s = -1; T r = gcd_ex<T>(a, b, (v & 1) ? &x : nullptr, (v & 2) ? &y : nullptr, (v & 4) ? &s : nullptr);
        CHECK(A(r) == g); CHECK(!(a >= 0 && b >= 0) || r == (T)g);
        if (v == 0 || v == 7) { gcd_ex<T>(a, b, &fx, &fy, &fs); } if (v & 1) CHECK(x == fx); if (v & 2) CHECK(y == fy); if (v & 4) CHECK(s == fs);
        if (v == 7) {
            if (sg) CHECK((i128)a * x + (i128)b * y == (i128)r); else CHECK((T)((u128)a * x + (u128)b * y) == r);
            if (a >= 0 && b >= 0) { CHECK(s >= 0); CHECK((s == 0) == (b == 0));
                i128 X = x, Y = y; if (!sg) { if (s % 2 == 1 && x) X -= (i128)1 << (8 * sizeof(T)); if (s % 2 == 0 && y) Y -= (i128)1 << (8 * sizeof(T)); }
                CHECK(s % 2 == 0 ? (X >= 0 && Y <= 0) : (X <= 0 && Y >= 0)); 
                // |x|*g <= b can exceed 128 bits only beyond 64-bit inputs
                if (s > 0 && a > 0) { CHECK(A(X) <= A(b) / g); CHECK(A(Y) <= A(a) / g); } }
            T x7 = x, y7 = y; int s7 = s; T x1, y1; gcd_ex<T>(a, b, &x1, &y1); CHECK(x1 == x7 && y1 == y7); y1 = 5; int s1; gcd_ex<T>(a, b, nullptr, &y1, &s1); CHECK(y1 == y7 && s1 == s7); gcd_ex<T>(a, b, &x1); CHECK(x1 == x7);
        } else { if (!(v & 1)) CHECK(x == 77); if (!(v & 2)) CHECK(y == 78); if (!(v & 4)) CHECK(s == -1); }
    } }
    if (a != 0 || b != 0) { u128 l = A(a) / g * A(b); if (A(a) / g == 0 || l / (A(a) / g) == A(b)) if (l <= (u128)MX) { set("lcm", a, b); T r = lcm<T>(a, b); CHECK(A(r) == l); CHECK(!(a >= 0 && b >= 0) || r >= 0); } }
    if (a > 0 && b >= 0 && (b == 0 || A(a) <= A(MX) / A(b))) { set("gcd_max", a, b); T r = gcd_max<T>(a, b);
        if (b == 0) CHECK(r == a); else { CHECK(r > 0 && b % r == 0); CHECK(G(A(a), A(b / r)) == 1); u128 q = r; for (;;) { u128 d = G(q, A(a)); if (d == 1) break; q /= d; } CHECK(q == 1); } }
}
template<typename T> void type(const char* tn, double f) {
    T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    int N = deep ? 300 : 120; for (int a = (lo < 0 ? -N : 0); a <= N; a++) for (int b = (lo < 0 ? -N : 0); b <= N; b++) one<T>((T)a, (T)b, tn);
    auto e = edges<T>(lo, hi); for (T a : e) { for (T b : e) one<T>(a, b, tn); if (timeup(f)) break; }
    // consecutive Fibonacci numbers: the longest runs
    { T x = 1, y = 1; while (y <= hi - x) { T z = x + y; x = y; y = z; one<T>(x, y, tn); one<T>(y, x, tn); one<T>((T)(y - 1), x, tn); } }
    while (!timeup(f)) { for (int i = 0; i < 500; i++) { T a = pick<T>(e, lo, hi), b = pick<T>(e, lo, hi); one<T>(a, b, tn); T g = pick<T>(e, 1, 1000); if (sizeof(T) >= 4) one<T>(T(a / 1000 * g), T(b / 1000 * g), tn); } }
}
int main(int c, char** v) { init(c, v); rng.s = seed; type<int>("int", .25); type<unsigned>("unsigned", .5); type<int64_t>("int64_t", .75); type<uint64_t>("uint64_t", 1); return done(); }
