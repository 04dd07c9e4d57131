#include "h.h"
#include "altruct/structure/container/lazy_segment_tree.h"
using namespace altruct::container; using namespace vh;
// non-commutative fold: polynomial hash of the sequence; lazy action: x -> a x + b on every element
static const uint64_t P = 1000000007, B = 31337;
struct Nd { uint64_t h = 0, pw = 1, s = 0, len = 0, a = 1, b = 0; };
static void up(Nd& p, const Nd& l, const Nd& r) { Nd x; x.h = (l.h * r.pw + r.h) % P; x.pw = l.pw * r.pw % P; x.s = (l.s * r.pw + r.s) % P; x.len = l.len + r.len; x.a = p.a; x.b = p.b; p = x; }
static void app(Nd& n, uint64_t a, uint64_t b) { n.h = (a * n.h + b * n.s) % P; n.a = a * n.a % P; n.b = (a * n.b + b) % P; }
static void down(Nd& p, Nd& l, Nd& r) { app(l, p.a, p.b); app(r, p.a, p.b); p.a = 1; p.b = 0; }
static Nd leaf(uint64_t v) { Nd n; n.h = v % P; n.pw = B; n.s = 1; n.len = 1; return n; }
struct Up { void operator()(Nd& p, const Nd& l, const Nd& r) const { up(p, l, r); } };
struct Down { void operator()(Nd& p, Nd& l, Nd& r) const { down(p, l, r); } };
typedef lazy_segment_tree<Nd, Up, Down> T;
static std::string log_;
static uint64_t naive(const std::vector<uint64_t>& r, size_t b, size_t e) { uint64_t h = 0; for (size_t i = b; i < e; i++) h = (h * B + r[i]) % P; return h; }
static void query(T& t, const std::vector<uint64_t>& r, size_t b, size_t e) { setx("lazy_segment_tree.get", &log_, (uint64_t)r.size(), b, e); Nd q = t.get(b, e); CHECK(q.h == naive(r, b, e)); CHECK(q.len == e - b); }
static void all(T& t, const std::vector<uint64_t>& r, bool full) {
    size_t n = r.size(), m = t.size();
    if (full) { for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) query(t, r, b, e); }
    else { query(t, r, 0, n); for (int k = 0; k < 6; k++) { size_t b = rng.below(n + 1), e = rng.below(n + 1); if (b > e) std::swap(b, e); query(t, r, b, e); } }
    if (m > n) { setx("lazy_segment_tree.get", &log_, (uint64_t)n, 0, m); CHECK(t.get(0, m).h == naive(r, 0, n)); }
}
static void run(size_t n, int ops, bool full) {
    std::vector<uint64_t> r(n); log_ = "build"; std::vector<Nd> init;
    for (auto& x : r) { x = rng.below(P); init.push_back(leaf(x)); }
    setx("lazy_segment_tree.build", &log_, (uint64_t)n);
    T t = rng.below(2) ? T(init.begin(), init.end(), Up(), Down()) : T(n, Up(), Down());
    for (size_t i = 0; i < n; i++) t[i] = init[i];
    t.rebuild(); CHECK(t.size() >= n);
    if (full) all(t, r, true);
    for (int k = 0; k < ops && n; k++) {
        int o = rng.below(8); size_t i = rng.below(n), e = i + 1 + rng.below(n - i); 
        if (rng.below(8) == 0) { i = 0; } if (rng.below(8) == 0) e = n; if (rng.below(12) == 0) e = i;
        std::string rg = "(" + std::to_string(i) + "," + std::to_string(e) + ")";
        if (o <= 4) {
            uint64_t a = rng.below(3) ? rng.below(P) : rng.below(2), b = rng.below(P), lim = rng.below(3) ? 1000000 : 1 + rng.below(4);
            log_ += " update" + rg + (lim < 1000000 ? " limit " + std::to_string(lim) : ""); setx("lazy_segment_tree.update", &log_, (uint64_t)n, i, e);
            t.update(i, e, [=](Nd& x) { if (x.len > lim) return false; app(x, a, b); return true; });
            for (size_t j = i; j < e; j++) r[j] = (a * r[j] + b) % P;
        } else if (o == 5) {
            if (i >= e) continue;
            log_ += " restore" + rg; setx("lazy_segment_tree.restore", &log_, (uint64_t)n, i, e); t.restore(i, e);
            for (size_t j = i; j < e; j++) CHECK(t[j].h == r[j]);
            if (rng.below(2)) { for (size_t j = i; j < e; j++) if (rng.below(3)) { r[j] = rng.below(P); t[j] = leaf(r[j]); } log_ += " write+rebuild" + rg; setx("lazy_segment_tree.rebuild", &log_, (uint64_t)n, i, e); t.rebuild(i, e); }
        } else if (o == 6) {
            log_ += " restore+write+rebuild()"; setx("lazy_segment_tree.rebuild", &log_, (uint64_t)n); t.restore(0, t.size());
            for (size_t j = 0; j < n; j++) { CHECK(t[j].h == r[j]); if (rng.below(3) == 0) { r[j] = rng.below(P); t[j] = leaf(r[j]); } }
            t.rebuild();
        } else { query(t, r, i, e); continue; }
        if (rng.below(2)) all(t, r, full && k % 3 == 0);
    }
    all(t, r, full);
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (size_t n = 0; n <= 34; n++) for (int k = 0; k < 4; k++) run(n, 8, n <= 18);
    do { run(1 + rng.below(20), 20, true); run(1 + rng.below(300), 25, false); } while (!timeup());
    return done();
}
