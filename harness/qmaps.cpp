#include "h.h"
#include <altruct/structure/container/sqrt_map.h>
#include <altruct/structure/container/lohi_map.h>
using namespace vh; using namespace altruct::container;
// sqrt_map against std::map over the admissible keys of (lo, max)
template<typename I> static void sq(uint64_t seed, int64_t lo, int64_t max, int nops) {
    Rng r{seed}; set("sqrt_map", seed, lo, max, nops, sizeof(I));
    sqrt_map<I, int64_t> m((I)lo, (I)max); std::map<I, int64_t> o; std::vector<I> keys;
    auto mk = [&](int64_t mx) { keys.clear(); for (int64_t k = 0; k <= lo; k++) keys.push_back((I)k); for (int64_t j = 1; j <= mx / lo && mx / j > lo; j++) keys.push_back((I)(mx / j)); std::sort(keys.begin(), keys.end()); keys.erase(std::unique(keys.begin(), keys.end()), keys.end()); };
    auto cmp = [&](const sqrt_map<I, int64_t>& m, const std::map<I, int64_t>& o) { for (I k : keys) { CHECK(m.count(k) == (int)o.count(k)); if (o.count(k)) { CHECK(m[k] == o.at(k)); CHECK(m(k) == o.at(k)); CHECK(m.el(k) == o.at(k)); CHECK(m.at(k) == o.at(k)); } else { bool t = false; try { m.at(k); } catch (std::out_of_range&) { t = true; } CHECK(t); } } };
    mk(max); cmp(m, o);
    for (int i = 0; i < nops; i++) { I k = keys[r.below(keys.size())]; int64_t v = (int64_t)r(); evals++;
        switch (r.below(7)) {
        case 0: m[k] = v; o[k] = v; break;
        case 1: { auto e = m.insert(std::make_pair(k, v)); auto f = o.insert(std::make_pair(k, v)); CHECK(e.second == f.second); CHECK(e.first == k); break; }
        case 2: CHECK(m.erase(k) == (int)o.erase(k)); break;
        case 3: if (o.count(k)) { m.at(k) = v; o[k] = v; } else { bool t = false; try { m.at(k) = v; } catch (std::out_of_range&) { t = true; } CHECK(t); } break;
        case 4: if (o.count(k)) { m.el(k) = v; o[k] = v; } break;
        case 5: if (o.count(k)) { CHECK(m[k] == o[k]); m[k] += 1; o[k] += 1; } break;
        case 6: if (r.below(6) == 0) { int64_t nm = lo == 1 ? (int64_t)r.below(60) : (int64_t)r.below((uint64_t)lo * lo + 2 * lo + 5); nm = std::min<int64_t>(nm, max * 2); m.reset_max((I)nm); for (auto it = o.begin(); it != o.end();) if (it->first > lo) it = o.erase(it); else ++it; mk(nm); cmp(m, o); }
            else if (r.below(8) == 0) { sqrt_map<I, int64_t> t((I)2, (I)5); t[1] = 77; t[5] = 78; m.swap(t); CHECK(m.count(1) == 1); CHECK(m[1] == 77); CHECK(m[5] == 78); CHECK(m.count(2) == 0); m.swap(t); cmp(m, o); CHECK(t[1] == 77); } break;
        } }
    cmp(m, o); }
template<typename I> static void lh(uint64_t seed, int64_t lo, int64_t max, int nops) {
    Rng r{seed}; set("lohi_map", seed, lo, max, nops, sizeof(I));
    lohi_map<I, int64_t> m((I)lo); std::map<I, int64_t> o; std::vector<I> keys;
    for (int64_t k = 0; k <= lo; k++) keys.push_back((I)k);
    for (int i = 0; i < 8; i++) keys.push_back((I)(lo + 1 + r.below(max - lo)));
    keys.push_back((I)max); keys.push_back((I)(lo + 1));
    auto cmp = [&](const lohi_map<I, int64_t>& m, const std::map<I, int64_t>& o) { for (I k : keys) { CHECK(m.count(k) == (int)o.count(k)); if (o.count(k)) CHECK(m.at(k) == o.at(k)); } };
    for (int i = 0; i < nops; i++) { I k = keys[r.below(keys.size())]; int64_t v = (int64_t)r(); evals++;
        switch (r.below(5)) {
        case 0: m[k] = v; o[k] = v; break;
        case 1: { auto e = m.insert(std::make_pair(k, v)); auto f = o.insert(std::make_pair(k, v)); CHECK(e.second == f.second); CHECK(e.first == k); break; }
        case 2: CHECK(m.erase(k) == (int)o.erase(k)); break;
        case 3: if (o.count(k)) { m.at(k) = v; o[k] = v; } break;
        case 4: if (o.count(k)) { CHECK(m[k] == o[k]); m[k] += 1; o[k] += 1; } break;
        } }
    cmp(m, o); }
int main(int c, char** v) { init(c, v); rng.s = seed;
    for (int64_t lo = 1; lo <= 12 && !timeup(0.5); lo++) for (int64_t mx = 0; mx <= (lo + 1) * (lo + 1) + 3; mx++) { if (on("sqrt_map")) { sq<int>(lo * 1000 + mx, lo, mx, 40); sq<int64_t>(lo * 1000 + mx, lo, mx, 40); } }
    for (int64_t lo = 0; lo <= 8; lo++) if (on("lohi_map")) { lh<int>(lo, lo, 2147483647, 60); lh<int64_t>(lo, lo, INT64_MAX, 60); lh<int>(lo, lo, lo + 9, 60); }
    auto e = edges<int64_t>(1, (int64_t)1 << 40);
    do { int64_t mx = pick(e, (int64_t)1, (int64_t)1 << 28), lo = 1; while ((lo + 1) * (lo + 1) <= mx) lo++; lo += rng.below(3); if (lo < 3000) { if (on("sqrt_map")) { sq<int64_t>(rng(), lo, mx, 60); if (mx < 2147483647) sq<int>(rng(), lo, mx, 60); } if (on("lohi_map")) lh<int64_t>(rng(), lo, mx + lo + 1, 60); } } while (!timeup());
    return done(); }
