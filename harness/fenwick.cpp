#include "h.h"
#include "altruct/structure/math/fenwick_tree.h"
using namespace altruct::math; using namespace vh;
static std::string log_;
template<typename T, typename F> static void run(const char* nm, size_t n, int ops, F f, T id, std::function<T()> gen, bool full) {
    fenwick_tree<T, F> t(n, f, id); std::vector<T> a(n, id); log_ = "";
    auto chk = [&](size_t i, T start) { setx(std::string("fenwick_tree.get_sum<") + nm + ">", &log_, (uint64_t)n, i); T w = start; for (size_t j = 0; j <= i; j++) w = f(w, a[j]); CHECK(t.get_sum(i, start) == w); };
    for (int k = 0; k < ops; k++) {
        if (n) { size_t i = rng.below(n); if (rng.below(6) == 0) i = n - 1; if (rng.below(6) == 0) i = 0; T x = gen(); log_ += " add " + std::to_string(i); setx(std::string("fenwick_tree.add<") + nm + ">", &log_, n, i); t.add(i, x); a[i] = f(a[i], x); }
        if (full) for (size_t i = 0; i < n; i++) chk(i, id); else for (int q = 0; q < 10 && n; q++) chk(rng.below(n), id);
        if (n) chk(n - 1, gen());
        if (rng.below(10) == 0) { log_ += " reset"; t.reset(id); a.assign(n, id); }
    }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed; const uint64_t P = 1000000007;
    auto one = [&](size_t n, int ops, bool full) {
        run<uint64_t>("sum", n, ops, [](uint64_t a, uint64_t b) { return a + b; }, (uint64_t)0, [] { return rng(); }, full);
        run<int>("max", n, ops, [](int a, int b) { return a > b ? a : b; }, INT32_MIN, [] { return (int)rng(); }, full);
        run<uint64_t>("product mod p", n, ops, [=](uint64_t a, uint64_t b) { return a * b % P; }, (uint64_t)1, [=] { return rng.below(P); }, full);
        run<uint64_t>("or", n, ops, [](uint64_t a, uint64_t b) { return a | b; }, (uint64_t)0, [] { return 1ull << rng.below(64); }, full);
    };
    for (size_t n = 0; n <= 70; n++) one(n, 8, true);
    one(70000, 6, false); one(140000, 3, false);
    do { one(rng.below(60), 20, true); one(rng.below(2000), 20, false); one((1u << rng.below(11)) + rng.below(3) - 1, 10, false); } while (!timeup());
    return done();
}
