LZ = "include/altruct/structure/container/lazy_segment_tree.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
LZD = STD + '#include "altruct/structure/container/lazy_segment_tree.h"\n' + r"""
struct Nd { unsigned long long h = 0, pw = 1, s = 0, len = 0, a = 1, b = 0; };
static void up(Nd& p, const Nd& l, const Nd& r) { Nd x; x.h = l.h * r.pw + r.h; x.pw = l.pw * r.pw; x.s = l.s * r.pw + r.s; x.len = l.len + r.len; x.a = p.a; x.b = p.b; p = x; }
static void app(Nd& n, unsigned long long a, unsigned long long b) { n.h = a * n.h + b * n.s; n.a = a * n.a; n.b = a * n.b + b; }
static void down(Nd& p, Nd& l, Nd& r) { app(l, p.a, p.b); app(r, p.a, p.b); p.a = 1; p.b = 0; }
static Nd leaf(unsigned long long v) { Nd n; n.h = v; n.pw = 31; n.s = 1; n.len = 1; return n; }
int main() { for (int n = 1; n <= 18; n++) for (int seed = 0; seed < 3000; seed++) { unsigned z = n * 100000 + seed * 7919; auto rnd = [&](int k) { z = z * 1664525 + 1013904223; return int((z >> 16) % k); };
  std::vector<unsigned long long> r(n); std::vector<Nd> v; for (auto& x : r) { x = rnd(100); v.push_back(leaf(x)); }
  altruct::container::lazy_segment_tree<Nd> t(v.begin(), v.end(), up, down);
  for (int k = 0; k < 14; k++) { int b = rnd(n), e = b + 1 + rnd(n - b), o = rnd(4); 
    if (o < 2) { int a = rnd(5), c = rnd(9), lim = rnd(2) ? 99 : 1 + rnd(3); t.update(b, e, [=](Nd& x) { if ((int)x.len > lim) return false; app(x, a, c); return true; }); for (int j = b; j < e; j++) r[j] = a * r[j] + c; }
    else if (o == 2) { t.restore(b, e); for (int j = b; j < e; j++) { if (t[j].h != r[j]) return 1; r[j] = rnd(100); t[j] = leaf(r[j]); } t.rebuild(b, e); }
    unsigned long long h = 0; int qb = rnd(n + 1), qe = qb + rnd(n + 1 - qb); for (int j = qb; j < qe; j++) h = h * 31 + r[j]; if (t.get(qb, qe).h != h) return 1; } } return 0; }
"""
SEEDS = [
 dict(id="c10-right-order", property="C10", edits=[(LZ, "f_up(tr, v[i + --e], tr)", "f_up(tr, tr, v[i + --e])")],
      needs="a non-commutative fold over a range with at least two canonical nodes on the right", breaks="the right parts are combined in reverse order", demo=LZD),
 dict(id="c10-refused-down", property="C10", edits=[(LZ, "            update_down(i);\n            update_segment(2 * i + 0, f);", "            if (i > 1) update_down(i);\n            update_segment(2 * i + 0, f);")],
      needs="a full-range update applied at the root, then a full-range update refused at the root", breaks="the pending action of the root is applied after the newer one", demo=LZD),
 dict(id="c10-restore-right", property="C10", edits=[(LZ, "for (size_t i = b >> h; i <= e >> h; i++) {", "for (size_t i = b >> h, l = e >> h; i <= l && i < size() - 1; i++) {")],
      needs="restoring the last leaves", breaks="the last inner node of the bottom row is not pushed down", demo=LZD),
]
