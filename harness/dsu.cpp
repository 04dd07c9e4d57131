#include "h.h"
#include "altruct/structure/graph/disjoint_set.h"
using namespace altruct::graph; using namespace vh;
static std::string log_;
static void run(size_t n0, size_t rangemax, int ops, bool full) {
    disjoint_set d(n0); std::vector<size_t> lab(n0); std::vector<size_t> cnt(n0, 1); for (size_t i = 0; i < n0; i++) lab[i] = i; log_ = "";
    auto grow = [&](size_t x) { while (lab.size() <= x) { lab.push_back(lab.size()); cnt.push_back(1); } };
    auto check = [&]() {
        setx("disjoint_set.size", &log_, (uint64_t)n0, lab.size()); CHECK(d.size() == lab.size());
        std::set<size_t> s(lab.begin(), lab.end()); setx("disjoint_set.distinct", &log_, n0, s.size()); CHECK(d.distinct() == s.size());
        std::map<size_t, size_t> rep; 
        for (size_t i = 0; i < lab.size(); i++) { setx("disjoint_set.find", &log_, n0, i); size_t r = d.find(i); CHECK(r < lab.size()); CHECK(lab[r] == lab[i]); if (rep.count(lab[i])) CHECK(rep[lab[i]] == r); rep[lab[i]] = r; setx("disjoint_set.count", &log_, n0, i); CHECK(d.count(i) == cnt[lab[i]]); }
        CHECK(d.size() == lab.size()); CHECK(d.distinct() == s.size());
    };
    check();
    for (int k = 0; k < ops; k++) {
        int o = rng.below(12); size_t x = rng.below(rangemax), y = rng.below(rangemax);
        if (o < 8) { if (rng.below(3) == 0 && !lab.empty()) { x = rng.below(lab.size()); y = rng.below(lab.size()); } log_ += " unite(" + std::to_string(x) + "," + std::to_string(y) + ")"; setx("disjoint_set.unite", &log_, n0, x, y); grow(x); grow(y); bool w = lab[x] != lab[y]; bool r = d.unite(x, y); CHECK(r == w); if (w) { size_t a = lab[x], b = lab[y]; cnt[a] += cnt[b]; for (auto& l : lab) if (l == b) l = a; } }
        else if (o < 9) { size_t c = rng.below(100); log_ += " add_count(" + std::to_string(x) + "," + std::to_string(c) + ")"; setx("disjoint_set.add_count", &log_, n0, x, c); grow(x); d.add_count(x, c); cnt[lab[x]] += c; }
        else if (o < 10) { log_ += " find " + std::to_string(x); setx("disjoint_set.find", &log_, n0, x); grow(x); size_t r = d.find(x); CHECK(r < lab.size()); CHECK(lab[r] == lab[x]); }
        else if (o < 11) { log_ += " count " + std::to_string(x); setx("disjoint_set.count", &log_, n0, x); grow(x); CHECK(d.count(x) == cnt[lab[x]]); }
        else if (rng.below(6) == 0) { size_t m = rng.below(rangemax); log_ += " clear " + std::to_string(m); d.clear(m); lab.clear(); cnt.assign(m, 1); for (size_t i = 0; i < m; i++) lab.push_back(i); }
        if (full || k % 17 == 0) check();
    }
    check();
}
// chains built tournament style: the deepest trees union by rank allows
static void tour(int lg, bool rev) { size_t n = 1u << lg; disjoint_set d(n); log_ = rev ? "tournament reversed" : "tournament"; for (size_t s = 1; s < n; s *= 2) for (size_t i = 0; i + s < n; i += 2 * s) { setx("disjoint_set.unite", &log_, (uint64_t)n, i, i + s); size_t a = i + (s > 1 ? rng.below(s) : 0), b = i + s + (s > 1 ? rng.below(s) : 0); CHECK(rev ? d.unite(b, a) : d.unite(a, b)); }
    CHECK(d.distinct() == 1); size_t r = d.find(0); for (size_t i = 0; i < n; i++) { setx("disjoint_set.find", &log_, n, i); CHECK(d.find(i) == r); CHECK(d.count(i) == n); } }
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int l = 0; l <= 12; l++) { tour(l, false); tour(l, true); }
    for (size_t n = 0; n < 12; n++) for (int k = 0; k < 30; k++) run(n, n + 1 + rng.below(8), 20, true);
    do { run(rng.below(10), 1 + rng.below(20), 40, true); run(rng.below(200), 1 + rng.below(300), 400, false); } while (!timeup());
    return done();
}
