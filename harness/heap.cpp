#include "h.h"
#include <algorithm>
using std::reverse;
#include "altruct/structure/container/binary_heap.h"
using namespace altruct::container; using namespace vh;
static std::string log_;
struct El { int key; int id; };
struct ByKey { bool rev; bool operator()(const El& a, const El& b) const { return rev ? b.key < a.key : a.key < b.key; } };
typedef std::vector<std::pair<int, int>> V;
static V ids(const std::vector<El>& v) { V r; for (auto& e : v) r.push_back({e.key, e.id}); std::sort(r.begin(), r.end()); return r; }
static void run(size_t n, int keys, int ops, bool rev) {
    ByKey lt{rev}; std::vector<El> ref; int nid = 0; auto gen = [&] { return El{(int)rng.below(keys), nid++}; };
    for (size_t i = 0; i < n; i++) ref.push_back(gen());
    log_ = "keys:"; for (auto& e : ref) log_ += " " + std::to_string(e.key);
    binary_heap<El, ByKey> h(lt); 
    switch (rng.below(3)) { case 0: { std::vector<El> c = ref; h = binary_heap<El, ByKey>(c, lt); break; } case 1: h = binary_heap<El, ByKey>(ref.begin(), ref.end(), lt); break; default: for (auto& e : ref) h.insert(e); }
    auto chk = [&] { setx("binary_heap", &log_, (uint64_t)n); CHECK(h.size() == ref.size()); CHECK(ids(h.v) == ids(ref)); if (ref.size()) { El f = h.front(); for (auto& e : ref) CHECK(!lt(e, f)); } };
    chk();
    for (int k = 0; k < ops; k++) {
        int o = rng.below(8);
        if (o < 3) { El e = gen(); log_ += " insert " + std::to_string(e.key); setx("binary_heap.insert", &log_, n); h.insert(e); ref.push_back(e); }
        else if (o < 6 && ref.size()) { log_ += " pop"; El f = h.front(); setx("binary_heap.pop_front", &log_, n); h.pop_front(); bool found = false; for (size_t i = 0; i < ref.size(); i++) if (ref[i].id == f.id) { ref.erase(ref.begin() + i); found = true; break; } CHECK(found); }
        else if (o == 6 && ref.size()) { size_t i = rng.below(ref.size()); El e = gen(); log_ += " overwrite+rebuild"; setx("binary_heap.rebuild", &log_, n); int old = h.v[i].id; h.v[i] = e; for (auto& x : ref) if (x.id == old) x = e; h.rebuild(); }
        chk();
    }
    binary_heap<El, ByKey> d = h; log_ += " sort"; setx("binary_heap.sort", &log_, n); d.sort(); CHECK(ids(d.v) == ids(ref)); for (size_t i = 0; i + 1 < d.v.size(); i++) CHECK(!lt(d.v[i + 1], d.v[i]));
    log_ += " drain"; std::vector<El> out; while (h.size()) { out.push_back(h.front()); setx("binary_heap.drain", &log_, n); h.pop_front(); CHECK(out.size() <= ref.size()); } CHECK(ids(out) == ids(ref)); for (size_t i = 0; i + 1 < out.size(); i++) CHECK(!lt(out[i + 1], out[i]));
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int n = 0; n <= 7; n++) { // all orders of small key sequences
        std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do { std::vector<int> q = p; log_ = "perm"; for (int x : p) log_ += " " + std::to_string(x); setx("binary_heap<int>", &log_, n); binary_heap<int> h(q); for (int i = 0; i < n; i++) { CHECK(h.front() == i); h.pop_front(); } CHECK(h.size() == 0); binary_heap<int> g; for (int x : p) g.insert(x); g.sort(); for (int i = 0; i < n; i++) CHECK(g.v[i] == i); } while (std::next_permutation(p.begin(), p.end())); }
    do { run(rng.below(8), 1 + rng.below(4), 20, rng.below(2)); run(rng.below(70), 1 + rng.below(100), 60, rng.below(2)); } while (!timeup());
    return done();
}
