#include "h.h"
#include "altruct/algorithm/search/kmp_search.h"
using namespace altruct::search; using namespace vh;
static std::string ex;
static void one(const std::string& t, const std::string& p) {
    if (p.empty()) return;
    ex = "text=" + t + " pattern=" + p;
    size_t n = t.size(), m = p.size(); std::vector<size_t> w; for (size_t i = 0; i + m <= n; i++) if (t.compare(i, m, p) == 0) w.push_back(i);
    // heap buffers of the exact size so that reads past the end are seen
    std::vector<char> tv(t.begin(), t.end()), pv(p.begin(), p.end()); 
    for (size_t stop = 0; stop <= w.size() && stop < 4; stop++) {
        std::vector<size_t> g; setx("kmp_search", &ex, (uint64_t)n, m, stop);
        size_t r = kmp_search(tv.data(), n, pv.data(), m, [&](size_t x) { g.push_back(x); return stop == 0 || g.size() < stop; });
        std::vector<size_t> e = w; if (stop && e.size() > stop) e.resize(stop);
        CHECK(g == e); CHECK(r == (e.empty() ? n : e.back()));
    }
}
static std::string rs(size_t n, int a) { std::string s; for (size_t i = 0; i < n; i++) s += char('a' + rng.below(a)); return s; }
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int n = 0; n <= 11; n++) for (int x = 0; x < (1 << n); x++) { std::string t; for (int i = 0; i < n; i++) t += (x >> i & 1) ? 'a' : 'b'; for (int m = 1; m <= n + 1 && m <= 5; m++) for (int y = 0; y < (1 << m); y++) { if (n > 8 && rng.below(8)) continue; std::string p; for (int i = 0; i < m; i++) p += (y >> i & 1) ? 'a' : 'b'; one(t, p); } }
    do {
        for (int k = 0; k < 50; k++) { int a = 1 + rng.below(3); std::string p = rs(1 + rng.below(12), a); if (rng.below(2)) { std::string b = rs(1 + rng.below(4), a); p = ""; int q = 1 + rng.below(5); while (q--) p += b; p += b.substr(0, rng.below(b.size() + 1)); if (rng.below(3) == 0) p += rs(1, 3); }
            std::string t; while (t.size() < rng.below(80)) { if (rng.below(3)) t += p.substr(0, 1 + rng.below(p.size())); else t += rs(1 + rng.below(3), a); } one(t, p); one(p, t); one(p, p);
            std::vector<int> tv, pv; for (char ch : t) tv.push_back(ch * 1000003); for (char ch : p) pv.push_back(ch * 1000003); std::vector<size_t> g; ex = "int sequences, text=" + t + " pattern=" + p; setx("kmp_search<int>", &ex, (uint64_t)t.size(), p.size()); kmp_search(tv.begin(), tv.size(), pv.begin(), pv.size(), [&](size_t x) { g.push_back(x); return true; }); size_t cnt = 0; for (size_t i = 0; i + p.size() <= t.size(); i++) cnt += t.compare(i, p.size(), p) == 0; CHECK(g.size() == cnt); }
        { ex = "empty pattern"; setx("kmp_search", &ex, 3, 0); CHECK(kmp_search("abc", 3, "", 0, [](size_t) { return true; }) == 0); }
    } while (!timeup());
    return done();
}
