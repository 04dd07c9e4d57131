#include "h.h"
#include "altruct/structure/container/segment_tree.h"
using namespace altruct::container; using namespace vh;
// non-commutative monoid: affine maps modulo a prime, composition in order
struct Af { uint64_t a = 1, b = 0; bool operator==(const Af& o) const { return a == o.a && b == o.b; } };
static const uint64_t P = 1000000007;
struct Cmp { Af operator()(const Af& x, const Af& y) const { return Af{x.a * y.a % P, (y.a * x.b + y.b) % P}; } };
typedef segment_tree<Af, Cmp> T;
static Af rnd() { return Af{rng.below(P - 2) + 2, rng.below(P)}; }
static Af naive(const std::vector<Af>& r, size_t b, size_t e) { Af x; Cmp f; for (size_t i = b; i < e; i++) x = f(x, r[i]); return x; }
static std::string log_;
static void query(const T& t, const std::vector<Af>& r, size_t b, size_t e) { setx("segment_tree.get", &log_, (uint64_t)r.size(), b, e); CHECK(t.get(b, e) == naive(r, b, e)); }
static void all(const T& t, const std::vector<Af>& r, bool full) {
    size_t n = r.size(); 
    if (full) for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) query(t, r, b, e);
    else { query(t, r, 0, n); for (int k = 0; k < 12; k++) { size_t b = rng.below(n + 1), e = rng.below(n + 1); if (b > e) std::swap(b, e); query(t, r, b, e); } }
    for (size_t i = 0; i < n && i < 40; i++) { setx("segment_tree.read", &log_, n, i); CHECK(t[i] == r[i]); CHECK(t.get(i) == r[i]); }
}
static void run(size_t n, int ops, bool full) {
    std::vector<Af> r(n); log_ = "build";
    T t(n, Cmp()); setx("segment_tree.size", &log_, n); CHECK(t.size() >= n); 
    if (rng.below(2)) { for (auto& x : r) x = rnd(); t = T(r.begin(), r.end(), Cmp()); log_ = "build from range"; CHECK(t.size() >= n); }
    all(t, r, full);
    for (int k = 0; k < ops && n; k++) {
        int o = rng.below(5); size_t i = rng.below(n);
        if (o <= 1) { r[i] = rnd(); log_ += " set " + std::to_string(i); setx("segment_tree.set", &log_, n, i); t.set(i, r[i]); }
        else if (o == 2) { r[i] = rnd(); t[i] = r[i]; log_ += " write+rebuild(" + std::to_string(i) + ")"; setx("segment_tree.rebuild1", &log_, n, i); t.rebuild(i); }
        else if (o == 3) { size_t e = i + 1 + rng.below(n - i); for (size_t j = i; j < e; j++) if (rng.below(4)) t[j] = r[j] = rnd(); log_ += " rebuild(" + std::to_string(i) + "," + std::to_string(e) + ")"; setx("segment_tree.rebuild2", &log_, n, i, e); t.rebuild(i, e); }
        else { for (size_t j = 0; j < n; j++) if (rng.below(3) == 0) t[j] = r[j] = rnd(); log_ += " rebuild()"; setx("segment_tree.rebuild", &log_, n); t.rebuild(); }
        all(t, r, full && k % 2 == 0);
        if (rng.below(4) == 0) { log_ += " copy"; T u = t; all(u, r, false); u.set(i, rnd()); log_ += " (writing the copy)"; all(t, r, false); }
    }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (size_t n = 0; n <= 40; n++) run(n, 6, n <= 20);
    do { run(rng.below(20), 12, true); run(rng.below(300), 12, false); } while (!timeup());
    return done();
}
