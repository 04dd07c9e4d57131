#include "h.h"
#include "altruct/algorithm/search/binary_search.h"
#include <list>
using namespace altruct::search; using namespace vh;
template<typename I> void one(const std::string& t, I lo, I hi, I cut) {
    if ((i128)hi - (i128)lo > (sizeof(I) < 4 ? (i128)INT32_MAX : (i128)std::numeric_limits<I>::max())) return;
    int n = 0; bool bad = false;
    auto pred = [&](I x) { n++; if (x < lo || x >= hi || n > 1000) bad = true; return x >= cut; };
    I w = lo >= hi ? lo : cut < lo ? lo : cut > hi ? hi : cut;
    set("binary_search_pred<" + t + ">", lo, hi, cut); I r = binary_search_pred<I>(lo, hi, pred); CHECK(r == w); CHECK(!bad); 
    if (lo > hi) return;
    n = 0; set("binary_search_num<" + t + ">", lo, hi, cut); r = binary_search_num<I>(lo, hi, 1, pred); CHECK(r == w); CHECK(!bad);
    // non decreasing f with a plateau at the cut
    auto f = [&](I x) { n++; if (x < lo || x >= hi || n > 1000) bad = true; return x >= cut ? 5 : 3; };
    auto g = [&](I x) { n++; if (x < lo || x >= hi || n > 1000) bad = true; return x >= cut ? 3 : 5; };
    n = 0; set("lower_bound_num<" + t + ">", lo, hi, cut); CHECK((lower_bound_num<I>(lo, hi, 1, 5, f) == w)); CHECK((lower_bound_num<I>(lo, hi, 1, 4, f) == w)); CHECK((lower_bound_num<I>(lo, hi, 1, 3, f) == lo)); CHECK((lower_bound_num<I>(lo, hi, 1, 6, f) == hi)); CHECK(!bad);
    n = 0; set("upper_bound_num<" + t + ">", lo, hi, cut); CHECK((upper_bound_num<I>(lo, hi, 1, 5, f) == hi)); CHECK((upper_bound_num<I>(lo, hi, 1, 4, f) == w)); CHECK((upper_bound_num<I>(lo, hi, 1, 3, f) == w)); CHECK((upper_bound_num<I>(lo, hi, 1, 2, f) == lo)); CHECK(!bad);
    n = 0; set("lower_bound_num<" + t + ",decreasing>", lo, hi, cut); CHECK((lower_bound_num<I>(lo, hi, 1, 3, g, true) == w)); CHECK((lower_bound_num<I>(lo, hi, 1, 4, g, true) == w)); CHECK((lower_bound_num<I>(lo, hi, 1, 5, g, true) == lo)); CHECK((lower_bound_num<I>(lo, hi, 1, 2, g, true) == hi)); CHECK(!bad);
    n = 0; set("upper_bound_num<" + t + ",decreasing>", lo, hi, cut); CHECK((upper_bound_num<I>(lo, hi, 1, 3, g, true) == hi)); CHECK((upper_bound_num<I>(lo, hi, 1, 4, g, true) == w)); CHECK((upper_bound_num<I>(lo, hi, 1, 5, g, true) == w)); CHECK((upper_bound_num<I>(lo, hi, 1, 6, g, true) == lo)); CHECK(!bad);
}
template<typename I> void all(const char* t) {
    const I mn = std::numeric_limits<I>::min(), mx = std::numeric_limits<I>::max(); auto e = edges<I>(mn, mx);
    for (int lo = 0; lo < 12; lo++) for (int hi = 0; hi < 14; hi++) for (int c = 0; c < 16; c++) { one<I>(t, I(mn + lo), I(mn + hi), I(mn + c)); one<I>(t, I(mx - lo), I(mx - hi), I(mx - c)); one<I>(t, I(lo), I(hi), I(c)); if (mn < 0) one<I>(t, I(lo - 6), I(hi - 6), I(c - 6)); }
    for (I lo : e) { I hi = e[rng.below(e.size())]; if (lo > hi) std::swap(lo, hi); I c = pick<I>(e, lo, hi); one<I>(t, lo, hi, c); one<I>(t, lo, hi, lo); one<I>(t, lo, hi, hi); }
    one<I>(t, mn < 0 ? I(0) : mn, mx, mx); one<I>(t, mn, I(mn + mx), I(mn + mx));
    for (int k = 0; k < 2000; k++) { I a = pick<I>(e, mn, mx), b = pick<I>(e, mn, mx); if (a > b) std::swap(a, b); one<I>(t, a, b, pick<I>(e, a, b)); }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    do {
        { struct Y { int64_t a, b, m; }; int64_t X = INT64_MAX, N = INT64_MIN; for (Y y : {Y{N, X, 0}, Y{N, X, X}, Y{N, -1, -1}, Y{-2, X, X}, Y{N, 1, 0}, Y{-1, X, 0}}) for (int cut = 0; cut <= 9; cut++) { auto up = [&](int x) { return x >= cut ? y.b : y.a; }; auto dn = [&](int x) { return x >= cut ? y.a : y.b; };
            set("lower_bound_num<int,int64_t>", cut, y.a, y.b, y.m); CHECK((lower_bound_num(0, 9, 1, y.b, up) == cut)); CHECK((lower_bound_num(0, 9, 1, y.a, up) == 0)); if (y.m > y.a) { CHECK((lower_bound_num(0, 9, 1, y.m, up) == (y.m <= y.b ? cut : 9))); } CHECK((lower_bound_num(0, 9, 1, y.a, dn, true) == cut)); CHECK((lower_bound_num(0, 9, 1, y.b, dn, true) == 0));
            set("upper_bound_num<int,int64_t>", cut, y.a, y.b, y.m); CHECK((upper_bound_num(0, 9, 1, y.a, up) == cut)); CHECK((upper_bound_num(0, 9, 1, y.b, up) == 9)); CHECK((upper_bound_num(0, 9, 1, y.b, dn, true) == cut)); CHECK((upper_bound_num(0, 9, 1, y.a, dn, true) == 9)); } }
        for (unsigned cut = 0; cut <= 100; cut++) { auto dn = [&](int x) { return unsigned(100 - x); }; auto up = [](int x) { return unsigned(x); }; set("lower_bound_num<int,unsigned>", cut); CHECK((lower_bound_num(0, 100, 1, cut, up) == (int)cut)); CHECK((lower_bound_num(0, 100, 1, cut, dn, true) == int(100 - cut))); set("upper_bound_num<int,unsigned>", cut); CHECK((upper_bound_num(0, 100, 1, cut, up) == (int)std::min(100u, cut + 1))); CHECK((upper_bound_num(0, 100, 1, cut, dn, true) == (cut == 0 ? 100 : int(101 - cut)))); }
        all<int8_t>("int8_t"); all<uint8_t>("uint8_t"); all<int16_t>("int16_t"); all<uint16_t>("uint16_t"); all<int>("int"); all<unsigned>("unsigned"); all<int64_t>("int64_t"); all<uint64_t>("uint64_t"); all<long long>("long long");
        for (int n = 0; n < 40; n++) for (int k = 0; k <= n; k++) { std::vector<int> a(n); for (int i = 0; i < n; i++) a[i] = i >= k;
            set("binary_search_pred<iterator>", n, k); auto it = binary_search_pred(a.begin(), a.end(), [&](std::vector<int>::iterator p) { CHECK(p >= a.begin() && p < a.end()); return *p == 1; }); CHECK(it - a.begin() == k);
            set("binary_search_pred<pointer>", n, k); const int* p = binary_search_pred((const int*)a.data(), (const int*)a.data() + n, [&](const int* q) { CHECK(q >= a.data() && q < a.data() + n); return *q == 1; }); CHECK(p - a.data() == k); }
        for (int k = 0; k < 200; k++) { double cut = (double)rng.below(1000000) / 1000.0; set("binary_search_num<double>", (long)(cut * 1000)); double r = binary_search_num<double>(0, 1000, 1e-9, [&](double x) { return x >= cut; }); CHECK(r >= cut - 1e-6 && r <= cut + 1e-6); }
    } while (!timeup());
    return done();
}
