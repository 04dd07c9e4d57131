"""bit_vector<uint64_t> (bit_vector.h) against the sequence of its bits"""
from unit import Unit, Contract
BV = "altruct::container::bit_vector<unsigned long>"
FP = "unsigned long (*)(unsigned long, unsigned long, int)"
TU = """
namespace altruct { namespace container {
typedef %s bv_fn;
template class bit_vector<unsigned long>;
template bit_vector<unsigned long>& bit_vector<unsigned long>::apply<bv_fn>(size_t, size_t, bv_fn, bool);
template bit_vector<unsigned long>& bit_vector<unsigned long>::apply<bv_fn>(bit_vector<unsigned long>&, size_t, const bit_vector<unsigned long>&, size_t, size_t, bv_fn);
inline bit_vector<unsigned long> bv_new(size_t sz) { return bit_vector<unsigned long>(sz); }
inline bit_vector<unsigned long> bv_range(const std::vector<int>& v) { return bit_vector<unsigned long>(v.begin(), v.end()); }
inline void bv_self(bit_vector<unsigned long>& v, size_t begin1, size_t begin2, size_t len, bv_fn op) { bit_vector<unsigned long>::apply(v, begin1, v, begin2, len, op); }
}}
""" % "unsigned long (*)(unsigned long, unsigned long, int)"
TU = TU.replace("typedef unsigned long (*)(unsigned long, unsigned long, int) bv_fn;", "typedef unsigned long (*bv_fn)(unsigned long, unsigned long, int);")
SPEC = r"""
#[verifier::opaque]
pub open spec fn bt(w: u64, j: int) -> bool { (w >> (j as u64)) & 1 == 1 }
/// bit p of the word sequence
pub open spec fn bv(s: Seq<u64>, p: int) -> bool { bt(s[p / 64], p % 64) }
pub proof fn lemma_bt_shr(a: u64, k: u32, j: int) requires 0 <= j < 64, k < 64, ensures bt(a >> k, j) == (j + k < 64 && bt(a, j + k))
{ reveal(bt); let u = j as u64; let v = k as u64; assert(u < 64 && k < 64 && v == k ==> ((a >> k) >> u) & 1 == (if add(u, v) < 64 { (a >> add(u, v)) & 1 } else { 0 })) by(bit_vector); assert(add(u, v) == (j + k) as u64); }
pub proof fn lemma_bt_shl(a: u64, k: u32, j: int) requires 0 <= j < 64, k < 64, ensures bt(a << k, j) == (j >= k && bt(a, j - k))
{ reveal(bt); let u = j as u64; let v = k as u64; assert(u < 64 && k < 64 && v == k ==> ((a << k) >> u) & 1 == (if u >= v { (a >> sub(u, v)) & 1 } else { 0 })) by(bit_vector); if j >= k { assert(sub(u, v) == (j - k) as u64); } }
pub proof fn lemma_bt_and(a: u64, b: u64, j: int) requires 0 <= j < 64, ensures bt(a & b, j) == (bt(a, j) && bt(b, j))
{ reveal(bt); let u = j as u64; assert(((a & b) >> u) & 1 == ((a >> u) & 1) & ((b >> u) & 1)) by(bit_vector); let x = (a >> u) & 1; let y = (b >> u) & 1; assert((a >> u) & 1 <= 1) by(bit_vector); assert((b >> u) & 1 <= 1) by(bit_vector); assert(x <= 1 && y <= 1 ==> ((x & y == 1) == (x == 1 && y == 1))) by(bit_vector); }
pub proof fn lemma_bt_or(a: u64, b: u64, j: int) requires 0 <= j < 64, ensures bt(a | b, j) == (bt(a, j) || bt(b, j))
{ reveal(bt); let u = j as u64; assert(((a | b) >> u) & 1 == ((a >> u) & 1) | ((b >> u) & 1)) by(bit_vector); let x = (a >> u) & 1; let y = (b >> u) & 1; assert((a >> u) & 1 <= 1) by(bit_vector); assert((b >> u) & 1 <= 1) by(bit_vector); assert(x <= 1 && y <= 1 ==> ((x | y == 1) == (x == 1 || y == 1))) by(bit_vector); }
pub proof fn lemma_bt_xor(a: u64, b: u64, j: int) requires 0 <= j < 64, ensures bt(a ^ b, j) == (bt(a, j) != bt(b, j))
{ reveal(bt); let u = j as u64; assert(((a ^ b) >> u) & 1 == ((a >> u) & 1) ^ ((b >> u) & 1)) by(bit_vector); let x = (a >> u) & 1; let y = (b >> u) & 1; assert((a >> u) & 1 <= 1) by(bit_vector); assert((b >> u) & 1 <= 1) by(bit_vector); assert(x <= 1 && y <= 1 ==> ((x ^ y == 1) == (x != y))) by(bit_vector); }
pub proof fn lemma_bt_not(a: u64, j: int) requires 0 <= j < 64, ensures bt(!a, j) == !bt(a, j)
{ reveal(bt); let u = j as u64; assert(u < 64 ==> ((!a) >> u) & 1 == 1 - ((a >> u) & 1)) by(bit_vector); }
pub proof fn lemma_bt_zero(j: int) requires 0 <= j < 64, ensures !bt(0, j) { reveal(bt); let u = j as u64; assert((0u64 >> u) & 1 == 0) by(bit_vector); }
pub proof fn lemma_bt_all(j: int) requires 0 <= j < 64, ensures bt(0xffff_ffff_ffff_ffff, j) { reveal(bt); let u = j as u64; assert(u < 64 ==> (0xffff_ffff_ffff_ffffu64 >> u) & 1 == 1) by(bit_vector); }
pub proof fn lemma_bt_first(l: u32, j: int, w: u64) requires 0 <= j < 64, l < 64, w as int == (1u64 << l) as int - 1, ensures bt(w, j) == (j < l)
{ reveal(bt); let u = j as u64; let v = l as u64; assert(u < 64 && l < 64 && v == l ==> (sub(1u64 << l, 1) >> u) & 1 == (if u < v { 1u64 } else { 0 })) by(bit_vector); assert(l < 64 ==> (1u64 << l) >= 1) by(bit_vector); assert(w == sub(1u64 << l, 1)); }
pub proof fn lemma_bt_one(l: u32, j: int) requires 0 <= j < 64, l < 64, ensures bt(1u64 << l, j) == (j == l)
{ reveal(bt); let u = j as u64; let v = l as u64; assert(u < 64 && l < 64 && v == l ==> ((1u64 << l) >> u) & 1 == (if u == v { 1u64 } else { 0 })) by(bit_vector); }
/// words are equal when all their bits are
pub proof fn lemma_bt_ext(a: u64, b: u64) requires forall|j: int| 0 <= j < 64 ==> bt(a, j) == bt(b, j), ensures a == b
{ if a != b { reveal(bt); lemma_lowdiff(a, b, 64); } }
/// the lowest position where two words differ
pub proof fn lemma_lowdiff(a: u64, b: u64, n: int) -> (j: int) requires 0 <= n <= 64, a != b, ensures n == 64 ==> 0 <= j < 64 && bt(a, j) != bt(b, j) && forall|i: int| 0 <= i < j ==> bt(a, i) == bt(b, i), 0 <= j <= n, j < n ==> bt(a, j) != bt(b, j), forall|i: int| 0 <= i < j ==> bt(a, i) == bt(b, i) decreases n
{ if n == 0 { 0 } else { let j = lemma_lowdiff(a, b, n - 1); if j < n - 1 { j } else if bt(a, n - 1) != bt(b, n - 1) { n - 1 } else { if n == 64 { assert(forall|i: int| 0 <= i < 64 ==> bt(a, i) == bt(b, i)); lemma_allsame(a, b); } n } } }
pub proof fn lemma_allsame(a: u64, b: u64) requires forall|j: int| 0 <= j < 64 ==> bt(a, j) == bt(b, j), ensures a == b
{ let c = a ^ b; if c != 0 { let t = hib(c, 64); lemma_hib(c, 64); lemma_bt_xor(a, b, t); assert(bt(a, t) == bt(b, t)); } assert((a ^ b) == 0 ==> a == b) by(bit_vector); }
/// a set bit of c below n, if c is a number below 2^n that is not 0
pub open spec fn hib(c: u64, n: int) -> int decreases n { if n <= 0 { 0 } else if bt(c, n - 1) { n - 1 } else { hib(c, n - 1) } }
pub proof fn lemma_hib(c: u64, n: int) requires 0 <= n <= 64, c != 0, n < 64 ==> c >> (n as u64) == 0, ensures 0 <= hib(c, n) < n, bt(c, hib(c, n)) decreases n
{ if n == 0 { let u = n as u64; assert(c >> 0u64 == c) by(bit_vector); } else { if !bt(c, n - 1) { reveal(bt); let u = (n - 1) as u64; let v = n as u64; if n < 64 { assert(u < 63 && v == add(u, 1) && c >> v == 0 && (c >> u) & 1 != 1 ==> c >> u == 0) by(bit_vector); } else { assert(u == 63 && (c >> u) & 1 != 1 ==> c >> u == 0) by(bit_vector); } lemma_hib(c, n - 1); } } }
pub proof fn lemma_bits()
    ensures forall|a: u64, k: u32, j: int| 0 <= j < 64 && k < 64 ==> #[trigger] bt(a >> k, j) == (j + k < 64 && bt(a, j + k)),
        forall|a: u64, k: u32, j: int| 0 <= j < 64 && k < 64 ==> #[trigger] bt(a << k, j) == (j >= k && bt(a, j - k)),
        forall|a: u64, b: u64, j: int| 0 <= j < 64 ==> #[trigger] bt(a & b, j) == (bt(a, j) && bt(b, j)),
        forall|a: u64, b: u64, j: int| 0 <= j < 64 ==> #[trigger] bt(a | b, j) == (bt(a, j) || bt(b, j)),
        forall|a: u64, b: u64, j: int| 0 <= j < 64 ==> #[trigger] bt(a ^ b, j) == (bt(a, j) != bt(b, j)),
        forall|a: u64, j: int| 0 <= j < 64 ==> #[trigger] bt(!a, j) == !bt(a, j),
        forall|j: int| 0 <= j < 64 ==> !#[trigger] bt(0, j),
        forall|j: int| 0 <= j < 64 ==> #[trigger] bt(0xffff_ffff_ffff_ffff, j),
        forall|l: u32, j: int| 0 <= j < 64 && l < 64 ==> #[trigger] bt(1u64 << l, j) == (j == l),
{
    assert forall|a: u64, k: u32, j: int| 0 <= j < 64 && k < 64 implies #[trigger] bt(a >> k, j) == (j + k < 64 && bt(a, j + k)) by { lemma_bt_shr(a, k, j); }
    assert forall|a: u64, k: u32, j: int| 0 <= j < 64 && k < 64 implies #[trigger] bt(a << k, j) == (j >= k && bt(a, j - k)) by { lemma_bt_shl(a, k, j); }
    assert forall|a: u64, b: u64, j: int| 0 <= j < 64 implies #[trigger] bt(a & b, j) == (bt(a, j) && bt(b, j)) by { lemma_bt_and(a, b, j); }
    assert forall|a: u64, b: u64, j: int| 0 <= j < 64 implies #[trigger] bt(a | b, j) == (bt(a, j) || bt(b, j)) by { lemma_bt_or(a, b, j); }
    assert forall|a: u64, b: u64, j: int| 0 <= j < 64 implies #[trigger] bt(a ^ b, j) == (bt(a, j) != bt(b, j)) by { lemma_bt_xor(a, b, j); }
    assert forall|a: u64, j: int| 0 <= j < 64 implies #[trigger] bt(!a, j) == !bt(a, j) by { lemma_bt_not(a, j); }
    assert forall|j: int| 0 <= j < 64 implies !#[trigger] bt(0, j) by { lemma_bt_zero(j); }
    assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(0xffff_ffff_ffff_ffff, j) by { lemma_bt_all(j); }
    assert forall|l: u32, j: int| 0 <= j < 64 && l < 64 implies #[trigger] bt(1u64 << l, j) == (j == l) by { lemma_bt_one(l, j); }
}
pub proof fn lemma_pos(s: Seq<u64>, i: int, l: int, j: int) requires 0 <= l < 64, 0 <= j < 64, ensures bv(s, i * 64 + l + j) == (if l + j < 64 { bt(s[i], l + j) } else { bt(s[i + 1], l + j - 64) }) { let p = i * 64 + l + j; if l + j < 64 { assert(p / 64 == i && p % 64 == l + j); } else { assert(p / 64 == i + 1 && p % 64 == l + j - 64); } }
pub open spec fn nw(n: int) -> int { (n + 63) / 64 }
/// the storage of a vector of n bits: enough words, one more, and nothing behind the last bit
#[verifier::opaque]
pub open spec fn wf(s: Seq<u64>, n: int) -> bool { 0 <= n <= 0x0fff_ffff_ffff_ffff && s.len() == nw(n) + 1 && forall|p: int| n <= p < 64 * s.len() ==> !#[trigger] bv(s, p) }
pub open spec fn wfl(s: Seq<u64>, n: int) -> bool { 0 <= n <= 0x0fff_ffff_ffff_ffff && s.len() == nw(n) + 1 }
pub proof fn lemma_wfl(s: Seq<u64>, n: int) requires wf(s, n), ensures wfl(s, n) { reveal(wf); }
pub open spec fn bvx(s: Seq<u64>, p: int) -> bool { 0 <= p < 64 * s.len() && bv(s, p) }
/// x holds the 64 bits from position b on
#[verifier::opaque]
pub open spec fn shw(s: Seq<u64>, x: u64, b: int) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] bt(x, j) == bvx(s, b + j) }
pub proof fn lemma_shw(s: Seq<u64>, w: Seq<u64>, c: int, m: int) requires 0 <= m <= w.len(), forall|k: int| 0 <= k < m ==> shw(s, #[trigger] w[k], 64 * k + c), ensures forall|p: int| 0 <= p < 64 * m ==> #[trigger] bv(w, p) == bvx(s, p + c)
{ assert forall|p: int| 0 <= p < 64 * m implies #[trigger] bv(w, p) == bvx(s, p + c) by { let k = p / 64; let j = p % 64; assert(p == 64 * k + j && 0 <= k < m); assert(shw(s, w[k], 64 * k + c)); reveal(shw); assert(64 * k + c + j == p + c); assert(bt(w[k], j) == bv(w, p)); } }
pub proof fn lemma_shw0(s: Seq<u64>, b: int) requires forall|p: int| b <= p < b + 64 ==> !#[trigger] bvx(s, p), ensures shw(s, 0, b) { lemma_bits(); reveal(shw); }
pub proof fn lemma_shl(s: Seq<u64>, x: u64, k: int, r: int) requires 0 <= k < s.len(), 0 <= r < 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bt(x, j) == (if j >= r { bt(s[k], j - r) } else { k > 0 && bt(s[k - 1], 64 - r + j) }), ensures shw(s, x, 64 * k - r)
{ reveal(shw); assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(x, j) == bvx(s, 64 * k - r + j) by { let p = 64 * k - r + j; if j >= r { assert(p / 64 == k && p % 64 == j - r); } else if k > 0 { assert(p / 64 == k - 1 && p % 64 == 64 - r + j); } } }
/// word a with the bits lo <= j < hi replaced by the bits of s that end at b + 63, read backwards
#[verifier::opaque]
pub open spec fn rm(s: Seq<u64>, a: u64, x: u64, b: int, lo: int, hi: int) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] bt(x, j) == if lo <= j < hi { bv(s, b + 63 - j) } else { bt(a, j) } }
pub open spec fn rvw(s: Seq<u64>, x: u64, b: int) -> bool { rm(s, 0, x, b, 0, 64) }
pub open spec fn rk(s: Seq<u64>, w: Seq<u64>, b: int, e: int, k: int) -> bool { rm(s, s[k], w[k], b + e - 64 * k - 64, b - 64 * k, e - 64 * k) }
/// the bits b..e in reverse order
#[verifier::opaque]
pub open spec fn revd(s: Seq<u64>, w: Seq<u64>, b: int, e: int) -> bool { w.len() == s.len() && forall|p: int| 0 <= p < 64 * s.len() ==> #[trigger] bv(w, p) == bv(s, if b <= p < e { b + e - 1 - p } else { p }) }
pub proof fn lemma_revd(s: Seq<u64>, w: Seq<u64>, b: int, e: int) requires w.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] rk(s, w, b, e, k), ensures revd(s, w, b, e)
{ reveal(revd); assert forall|p: int| 0 <= p < 64 * s.len() implies #[trigger] bv(w, p) == bv(s, if b <= p < e { b + e - 1 - p } else { p }) by { let k = p / 64; let j = p % 64; assert(p == 64 * k + j && 0 <= k < s.len() && 0 <= j < 64); assert(rk(s, w, b, e, k)); reveal(rm); assert(bt(w[k], j) == bv(w, p)); assert(b + e - 64 * k - 64 + 63 - j == b + e - 1 - p); } }
pub proof fn lemma_rsame(s: Seq<u64>, w: Seq<u64>, b: int, e: int, k: int) requires w[k] == s[k], b - 64 * k >= 64 || e - 64 * k <= 0, ensures rk(s, w, b, e, k) { reveal(rm); }
pub proof fn lemma_rfull(s: Seq<u64>, w: Seq<u64>, b: int, e: int, k: int) requires rvw(s, w[k], b + e - 64 * k - 64), b - 64 * k <= 0, e - 64 * k >= 64, ensures rk(s, w, b, e, k) { reveal(rm); }
/// position p of the result of rotating b..e left by m holds the bit of position
pub open spec fn rotp(b: int, e: int, m: int, p: int) -> int { if b <= p < e { if p + m < e { p + m } else { p + m - (e - b) } } else { p } }
/// position p after the ranges b1..e1 and b2..e2 (in this order) have changed places
pub open spec fn swpp(b1: int, e1: int, b2: int, e2: int, p: int) -> int { if b1 <= p < e2 { if p < b1 + (e2 - b2) { p - b1 + b2 } else if p < e2 - (e1 - b1) { p - b1 - (e2 - b2) + e1 } else { p - (e2 - (e1 - b1)) + b1 } } else { p } }
pub proof fn lemma_revwf(s: Seq<u64>, w: Seq<u64>, b: int, e: int, n: int) requires revd(s, w, b, e), wf(s, n), e <= n, 0 <= b, ensures wf(w, n) { reveal(revd); reveal(wf); assert forall|p: int| n <= p < 64 * w.len() implies !#[trigger] bv(w, p) by { assert(!bv(s, p)); } }
/// the number of positions below len where the two ranges differ
pub open spec fn hd(s: Seq<u64>, b: int, t: Seq<u64>, c: int, len: int) -> int decreases len { if len <= 0 { 0 } else { hd(s, b, t, c, len - 1) + if bv(s, b + len - 1) != bv(t, c + len - 1) { 1int } else { 0 } } }
/// set bits of w below n
pub open spec fn cnt(w: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(w, n - 1) + if bt(w, n - 1) { 1int } else { 0 } } }
pub open spec fn pc(n: int) -> int decreases n { if n <= 0 { 0 } else { n % 2 + pc(n / 2) } }
pub proof fn lemma_cnt_half(w: u64, n: int) requires 1 <= n <= 64, ensures cnt(w, n) == cnt(w >> 1, n - 1) + (if bt(w, 0) { 1int } else { 0 }) decreases n
{ if n > 1 { lemma_cnt_half(w, n - 1); lemma_bt_shr(w, 1, n - 2); assert(bt(w >> 1, n - 2) == bt(w, n - 1)); assert(cnt(w, n) == cnt(w, n - 1) + if bt(w, n - 1) { 1int } else { 0 }); assert(cnt(w >> 1, n - 1) == cnt(w >> 1, n - 2) + if bt(w >> 1, n - 2) { 1int } else { 0 }); } else { assert(cnt(w, 1) == cnt(w, 0) + if bt(w, 0) { 1int } else { 0 }); assert(cnt(w >> 1, 0) == 0); assert(cnt(w, 0) == 0); } }
pub proof fn lemma_pc(w: u64, n: int) requires 0 <= n <= 64, n < 64 ==> w >> (n as u64) == 0, ensures pc(w as int) == cnt(w, n) decreases n
{ if n == 0 { assert(w >> 0u64 == w) by(bit_vector); } else { let u = n as u64; let v = (n - 1) as u64; if n < 64 { assert(u < 64 && v == sub(u, 1) && u > 0 && w >> u == 0 ==> (w >> 1) >> v == 0) by(bit_vector); } else { assert(v == 63 ==> (w >> 1) >> v == 0) by(bit_vector); } assert(w >> 1u32 == w >> 1) by(bit_vector); lemma_pc(w >> 1, n - 1); lemma_cnt_half(w, n); assert(w >> 1 == w / 2) by(bit_vector); reveal(bt); assert((w >> 0u64) & 1 == w % 2) by(bit_vector); assert(bt(w, 0) == (w % 2 == 1)); if w == 0 { lemma_cnt0(0, n); } } }
pub proof fn lemma_cnt0(w: u64, n: int) requires w == 0, 0 <= n <= 64, ensures cnt(w, n) == 0 decreases n { if n > 0 { lemma_bt_zero(n - 1); lemma_cnt0(w, n - 1); } }
/// the next l positions differ where w has a bit
pub proof fn lemma_hd(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, l: int, n: int, w: u64) requires 0 <= q, 0 <= l <= n <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bt(w, j) == (j < l && bv(s, b + q + j) != bv(t, c + q + j)), ensures hd(s, b, t, c, q + l) == hd(s, b, t, c, q) + cnt(w, n) decreases n
{ if n > l { lemma_hd(s, b, t, c, q, l, n - 1, w); assert(!bt(w, n - 1)); assert(cnt(w, n) == cnt(w, n - 1)); } else if n > 0 { lemma_hd2(s, b, t, c, q, l, l - 1, w); assert(bt(w, l - 1) == (bv(s, b + q + (l - 1)) != bv(t, c + q + (l - 1)))); assert(cnt(w, n) == cnt(w, n - 1) + if bt(w, n - 1) { 1int } else { 0 }); assert(hd(s, b, t, c, q + l) == hd(s, b, t, c, q + l - 1) + if bv(s, b + (q + l) - 1) != bv(t, c + (q + l) - 1) { 1int } else { 0 }); } else { assert(cnt(w, 0) == 0); } }
pub proof fn lemma_hd2(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, l: int, n: int, w: u64) requires 0 <= q, 0 <= n <= l <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bt(w, j) == (j < l && bv(s, b + q + j) != bv(t, c + q + j)), ensures hd(s, b, t, c, q + n) == hd(s, b, t, c, q) + cnt(w, n) decreases n
{ if n > 0 { lemma_hd2(s, b, t, c, q, l, n - 1, w); assert(bt(w, n - 1) == (bv(s, b + q + (n - 1)) != bv(t, c + q + (n - 1)))); assert(cnt(w, n) == cnt(w, n - 1) + if bt(w, n - 1) { 1int } else { 0 }); assert(hd(s, b, t, c, q + n) == hd(s, b, t, c, q + n - 1) + if bv(s, b + (q + n) - 1) != bv(t, c + (q + n) - 1) { 1int } else { 0 }); } else { assert(cnt(w, 0) == 0); } }
pub proof fn lemma_hdle(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int) ensures 0 <= hd(s, b, t, c, q), q >= 0 ==> hd(s, b, t, c, q) <= q decreases q { if q > 0 { lemma_hdle(s, b, t, c, q - 1); } }
/// one step of the scan
pub proof fn lemma_step(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, l: int, w: u64) requires 0 <= q, 0 <= l <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bt(w, j) == (j < l && bv(s, b + q + j) != bv(t, c + q + j)), ensures hd(s, b, t, c, q + l) == hd(s, b, t, c, q) + pc(w as int), 0 <= hd(s, b, t, c, q) <= q, 0 <= hd(s, b, t, c, q + l) <= q + l { lemma_hd(s, b, t, c, q, l, 64, w); lemma_pc(w, 64); lemma_hdle(s, b, t, c, q); lemma_hdle(s, b, t, c, q + l); }
/// the first q positions of the two ranges agree
#[verifier::opaque]
pub open spec fn eqp(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int) -> bool { forall|i: int| 0 <= i < q ==> #[trigger] bv(s, b + i) == bv(t, c + i) }
/// at position j < q they differ for the first time, the way r says
pub open spec fn difat(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, r: int, j: int) -> bool { 0 <= j < q && eqp(s, b, t, c, j) && bv(s, b + j) != bv(t, c + j) && r == if bv(t, c + j) { -1int } else { 1 } }
pub open spec fn dif(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, r: int) -> bool { exists|j: int| #[trigger] difat(s, b, t, c, q, r, j) }
/// lexicographic order of the two bit strings
pub open spec fn cmpd(s: Seq<u64>, b: int, e: int, t: Seq<u64>, c: int, d: int, r: int) -> bool { let len = if e - b < d - c { e - b } else { d - c }; if eqp(s, b, t, c, len) { r == (if e - b < d - c { -1int } else if e - b > d - c { 1 } else { 0 }) } else { dif(s, b, t, c, len, r) } }
pub uninterp spec fn rev64(x: u64) -> u64;
pub open spec fn isrev(x: u64) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] bt(rev64(x), j) == bt(x, 63 - j) }
pub proof fn lemma_revcmp(x: u64, y: u64, m: int) requires 0 <= m < 64, bt(x, m) != bt(y, m), forall|i: int| m < i < 64 ==> bt(x, i) == bt(y, i), ensures (x < y) == bt(y, m)
{ let u = m as u64; let k = m as u32; if m < 63 { let a = x >> ((m + 1) as u32); let b = y >> ((m + 1) as u32); assert forall|j: int| 0 <= j < 64 implies bt(a, j) == bt(b, j) by { lemma_bt_shr(x, (m + 1) as u32, j); lemma_bt_shr(y, (m + 1) as u32, j); } lemma_bt_ext(a, b); let v = (m + 1) as u32; assert(k < 63 && v == add(k, 1) && u == k && x >> v == y >> v ==> (x >> u) >> 1 == (y >> u) >> 1) by(bit_vector); } else { assert(u == 63 ==> (x >> u) >> 1 == (y >> u) >> 1) by(bit_vector); }
  reveal(bt); assert(u < 64 && (x >> u) >> 1 == (y >> u) >> 1 && (x >> u) & 1 == 1 && (y >> u) & 1 != 1 ==> x > y) by(bit_vector); assert(u < 64 && (x >> u) >> 1 == (y >> u) >> 1 && (y >> u) & 1 == 1 && (x >> u) & 1 != 1 ==> x < y) by(bit_vector); }
pub proof fn lemma_cstep(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, l: int, w: u64, x: u64) requires 0 <= q, 0 <= l <= 64, eqp(s, b, t, c, q), w != x ==> isrev(w) && isrev(x), forall|j: int| 0 <= j < 64 ==> #[trigger] bt(w, j) == (j < l && bv(s, b + q + j)), forall|j: int| 0 <= j < 64 ==> #[trigger] bt(x, j) == (j < l && bv(t, c + q + j)),
    ensures w == x ==> eqp(s, b, t, c, q + l), w != x ==> dif(s, b, t, c, q + l, if rev64(w) < rev64(x) { -1 } else { 1 })
{ if w == x { reveal(eqp); assert forall|i: int| 0 <= i < q + l implies #[trigger] bv(s, b + i) == bv(t, c + i) by { if i >= q { let j = i - q; assert(bt(w, j) == bv(s, b + q + j)); assert(bt(x, j) == bv(t, c + q + j)); } } }
  else { let j = lemma_lowdiff(w, x, 64); assert(j < l); let r = if rev64(w) < rev64(x) { -1int } else { 1 }; let m = 63 - j; assert(bt(rev64(w), m) == bt(w, j)); assert(bt(rev64(x), m) == bt(x, j)); assert forall|i: int| m < i < 64 implies bt(rev64(w), i) == bt(rev64(x), i) by { assert(bt(rev64(w), i) == bt(w, 63 - i)); assert(bt(rev64(x), i) == bt(x, 63 - i)); } lemma_revcmp(rev64(w), rev64(x), m);
    assert(eqp(s, b, t, c, q + j)) by { reveal(eqp); assert forall|i: int| 0 <= i < q + j implies #[trigger] bv(s, b + i) == bv(t, c + i) by { if i >= q { let k = i - q; assert(bt(w, k) == bv(s, b + q + k)); assert(bt(x, k) == bv(t, c + q + k)); } } }
    assert(bt(w, j) == bv(s, b + q + j)); assert(bt(x, j) == bv(t, c + q + j)); assert(b + q + j == b + (q + j) && c + q + j == c + (q + j)); assert(difat(s, b, t, c, q + l, r, q + j)); } }
pub proof fn lemma_dif(s: Seq<u64>, b: int, t: Seq<u64>, c: int, q: int, len: int, r: int) requires dif(s, b, t, c, q, r), q <= len, ensures dif(s, b, t, c, len, r), !eqp(s, b, t, c, len), r == 1 || r == -1 { let j = choose|j: int| #[trigger] difat(s, b, t, c, q, r, j); assert(difat(s, b, t, c, len, r, j)); reveal(eqp); if eqp(s, b, t, c, len) { assert(bv(s, b + j) == bv(t, c + j)); } }
pub proof fn lemma_at(s: Seq<u64>, n: int, pos: int) requires wfl(s, n), 0 <= pos <= n, ensures pos / 64 < s.len(), pos % 64 > 0 ==> pos / 64 + 1 < s.len() { }
/// the operations of the class, bit by bit
#[derive(Clone, Copy)]
pub enum Fn { Set0, Set1, Nop, Flip, Set, Setn, And, Or, Xor, Nand, Nor, Eq }
pub open spec fn f(o: Fn, a: bool, b: bool) -> bool { match o { Fn::Set0 => false, Fn::Set1 => true, Fn::Nop => a, Fn::Flip => !a, Fn::Set => b, Fn::Setn => !b, Fn::And => a && b, Fn::Or => a || b, Fn::Xor => a != b, Fn::Nand => !(a && b), Fn::Nor => !(a || b), Fn::Eq => a == b } }
pub open spec fn unary(o: Fn) -> bool { match o { Fn::Set0 | Fn::Set1 | Fn::Nop | Fn::Flip => true, _ => false } }
/// word a, changed to r at the bits lo <= j < hi
#[verifier::opaque]
pub open spec fn wm(o: Fn, a: u64, v: Seq<u64>, q: int, r: u64, lo: int, hi: int) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == if lo <= j < hi { f(o, bt(a, j), bv(v, q + j)) } else { bt(a, j) } }
pub open spec fn wk(o: Fn, w0: Seq<u64>, w: Seq<u64>, b: int, e: int, v: Seq<u64>, b2: int, k: int) -> bool { wm(o, w0[k], v, b2 + 64 * k - b, w[k], b - 64 * k, e - 64 * k) }
/// bits b..e of w0 replaced by the operation on them and the bits from b2 on of v
#[verifier::opaque]
pub open spec fn rng(o: Fn, w0: Seq<u64>, w: Seq<u64>, b: int, e: int, v: Seq<u64>, b2: int) -> bool { w.len() == w0.len() && forall|p: int| 0 <= p < 64 * w0.len() ==> #[trigger] bv(w, p) == if b <= p < e { f(o, bv(w0, p), bv(v, b2 + p - b)) } else { bv(w0, p) } }
pub proof fn lemma_rng(o: Fn, w0: Seq<u64>, w: Seq<u64>, b: int, e: int, v: Seq<u64>, b2: int) requires w.len() == w0.len(), forall|k: int| 0 <= k < w0.len() ==> #[trigger] wk(o, w0, w, b, e, v, b2, k), ensures rng(o, w0, w, b, e, v, b2)
{ reveal(rng); assert forall|p: int| 0 <= p < 64 * w0.len() implies #[trigger] bv(w, p) == if b <= p < e { f(o, bv(w0, p), bv(v, b2 + p - b)) } else { bv(w0, p) } by { let k = p / 64; let j = p % 64; assert(p == 64 * k + j && 0 <= k < w0.len() && 0 <= j < 64); assert(wk(o, w0, w, b, e, v, b2, k)); reveal(wm); assert(bt(w[k], j) == bv(w, p)); assert(b2 + 64 * k - b + j == b2 + p - b); } }
pub proof fn lemma_same(o: Fn, w0: Seq<u64>, w: Seq<u64>, b: int, e: int, v: Seq<u64>, b2: int, k: int) requires w[k] == w0[k], b - 64 * k >= 64 || e - 64 * k <= 0 || b >= e, ensures wk(o, w0, w, b, e, v, b2, k) { reveal(wm); }
pub proof fn lemma_rng_wf(o: Fn, w0: Seq<u64>, w: Seq<u64>, b: int, e: int, v: Seq<u64>, b2: int, n: int) requires rng(o, w0, w, b, e, v, b2), wf(w0, n), e <= n, ensures wf(w, n) { reveal(rng); reveal(wf); assert forall|p: int| n <= p < 64 * w.len() implies !#[trigger] bv(w, p) by { assert(!bv(w0, p)); } }
"""

W = "self_.words@"
O = "old(self_).words@"; N = "final(self_).words@"
WFO = ["wfl(%s, old(self_).sz as int)" % O]
WF = ["wfl(%s, self_.sz as int)" % W]


def opc(name, v, body):
    return Contract(name, BV + "::" + name, params=["a", "b", "len"], bits=True, ensures=["forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == f(Fn::%s, bt(a, j), bt(b, j))" % v], hints={"entry": "proof { lemma_bits(); }"})


OPS = [("op_set0", "Set0"), ("op_set1", "Set1"), ("op_nop", "Nop"), ("op_flip", "Flip"), ("op_set", "Set"), ("op_setn", "Setn"), ("op_and", "And"), ("op_or", "Or"), ("op_xor", "Xor"), ("op_nand", "Nand"), ("op_nor", "Nor"), ("op_eq", "Eq")]
CLONE = """
#[verifier::external_body] pub fn bit_reverse_u64(x: u64) -> (r: u64) ensures r == rev64(x), isrev(x) { x.reverse_bits() }
#[verifier::external_body] pub fn bit_cnt1_u64(x: u64) -> (r: i32) ensures r == pc(x as int) { x.count_ones() as i32 }

// the implicit copy constructor: the members, one by one
impl CloneC for Bit_vector_unsigned_long {
    open spec fn same(self, o: Self) -> bool { self.sz == o.sz && self.words@ == o.words@ }
    fn clone_c(&self) -> (r: Self) { Bit_vector_unsigned_long { sz: self.sz, words: self.words.clone_c() } }
}
"""
CALL = "pub fn fn_call(o: Fn, a: u64, b: u64, len: i32) -> (r: u64) ensures forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == f(o, bt(a, j), bt(b, j)) { match o { %s } }\n" % ", ".join("Fn::%s => %s(a, b, len)" % (v, n) for n, v in OPS)


def contracts(selfref=False):
    cs = [opc(n, v, "") for n, v in OPS]
    cs.append(Contract("first_bits", BV + "::first_bits", params=["l"], bits=True, requires=["0 <= l < 64"], ensures=["forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == (j < l)"], hints={"exit": "proof { assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(ret__v, j) == (j < l) by { assert((1u64 << (l as u32)) >= 1) by(bit_vector) requires 0 <= l < 64; lemma_bt_first(l as u32, j, ret__v); } }"}))
    cs.append(Contract("num_words", BV + "::num_words", params=["n"], requires=["n <= 0x0fff_ffff_ffff_ffff"], ensures=["r == nw(n as int)"]))
    cs.append(Contract("bit_at", BV + "::bit_at", params=["pos"], bits=True, requires=["pos / 64 < %s.len()" % W], ensures=["r == (if bv(%s, pos as int) { 1int } else { 0 })" % W], hints={"entry": "proof { reveal(bt); let x = %s[pos as int / 64]; let l = (pos %% 64) as u64; let k = (pos %% 64) as u32; assert(k < 64 && l == k ==> (x >> l) & 1 == (x >> k) & 1 && ((x >> k) & 1) <= 1) by(bit_vector); }" % W}))
    cs.append(Contract("word_at2", BV + "::word_at", sig="unsigned long (unsigned long, int) const", params=["i", "l"], bits=True, requires=["0 <= l < 64", "i < u64::MAX", "i < %s.len()" % W, "l > 0 ==> i + 1 < %s.len()" % W], ensures=["forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == bv(%s, i * 64 + l + j)" % W], hints={"entry": "proof { lemma_bits(); }", "exit": "proof { assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(ret__v, j) == bv(%s, i * 64 + l + j) by { lemma_pos(%s, i as int, l as int, j); if l > 0 { let a = %s[i as int] >> (l as u32); let b = %s[i + 1] << ((64 - l) as u32); assert(ret__v == a | b); lemma_bt_or(a, b, j); lemma_bt_shr(%s[i as int], l as u32, j); lemma_bt_shl(%s[i + 1], (64 - l) as u32, j); assert(bt(b, j) == (j >= 64 - l && bt(%s[i + 1], j - (64 - l)))); assert(bt(a, j) == (j + l < 64 && bt(%s[i as int], j + l))); } } }" % (W, W, W, W, W, W, W, W)}))
    cs.append(Contract("word_at", BV + "::word_at", sig="unsigned long (unsigned long) const", params=["pos"], requires=["pos / 64 < %s.len()" % W, "pos %% 64 > 0 ==> pos / 64 + 1 < %s.len()" % W], ensures=["forall|j: int| 0 <= j < 64 ==> #[trigger] bt(r, j) == bv(%s, pos + j)" % W]))
    cs.append(Contract("bv_set", BV + "::set", params=["pos", "val"], bits=True, requires=["pos < old(self_).sz"] + WFO, ensures=["final(self_).sz == old(self_).sz", "final(self_).words@.len() == %s.len()" % O, "forall|p: int| 0 <= p < 64 * %s.len() ==> #[trigger] bv(final(self_).words@, p) == if p == pos { if val == 0 { false } else if val == 1 { true } else if val == -1 { !bv(%s, p) } else { bv(%s, p) } } else { bv(%s, p) }" % (O, O, O, O)], hints={"entry": "proof { lemma_bits(); assert(pos / 64 < nw(self_.sz as int)); }"}))
    def apply_hints(S, b, e, V2, B2, extra, unchanged=""):
        """S: the words written; the bits b..e; second operand the bits of V2 from B2 on"""
        WK = lambda k: "wk(op, w0, %s, b0, e0, %s, %s, %s)" % (S, V2, B2, k)
        INV = ["wfl(w0, n0)", "0 <= b0 <= e0 <= n0", "%s.len() == w0.len()" % S, "begin == b0", "end == e0", "$ib == b0 / 64", "$ie == e0 / 64", "$lb == b0 % 64", "$le == e0 % 64", "$ib < $ie", "$ie < w0.len()", "w0.len() <= 0x0fff_ffff_ffff_ffff"] + extra
        def inv(done):
            return INV + ["forall|k: int| 0 <= k < w0.len() && !($ib < k < $ie && %s) ==> %s[k] == #[trigger] w0[k]" % (done, S), "forall|k: int| $ib < k < $ie && %s ==> #[trigger] %s" % (done, WK("k"))]
        step = "proof { assert(%s) by { reveal(wm); } assert forall|k: int| 0 <= k < w0.len() && k != $i implies #[trigger] w1[k] == %s[k] by {} assert forall|k: int| $ib < k < $ie && k != $i && wk(op, w0, w1, b0, e0, %s, %s, k) implies #[trigger] %s by { assert(w1[k] == %s[k]); } }" % (WK("$i as int"), S, V2, B2, WK("k"), S)
        hints = {"entry": "let ghost w0 = %s; let ghost b0 = %s as int; let ghost e0 = %s as int; let ghost n0 = %s as int; proof { assert(e0 / 64 < w0.len()); }" % (S, "begin1" if b == "begin1" else b, "begin1 + len" if b == "begin1" else e, S.replace("words@", "sz")),
                 "L0.begin": "let ghost w1 = %s; proof { assert(w1[$i as int] == w0[$i as int]); }" % S, "L1.begin": "let ghost w1 = %s; proof { assert(w1[$i as int] == w0[$i as int]); }" % S, "L0.end": step, "L1.end": step}
        loops = {0: dict(invariant=inv("k > $i") + ["$ib <= $i < $ie"], decreases="$i"), 1: dict(invariant=inv("k < $i") + ["$ib < $i <= $ie"], decreases="$ie - $i")}
        return hints, loops

    def bnd(S, v, b2):
        """the two boundary words"""
        k = "$ib as int"; q = "%s + 64 * $ib - b0" % b2
        WB = "proof { assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(wb, j) == (if $lb <= j && ($ib == $ie ==> j < $le) { f(op, bt(w0[$ib as int], j), bv(%s, %s + j)) } else { bt(w0[$ib as int], j) }) by { lemma_bits(); assert(bt(mb, j) == ($lb <= j && ($ib == $ie ==> j < $le))); assert(%s + j == %s + (j - $lb)); } assert(wm(op, w0[$ib as int], %s, %s, wb, b0 - 64 * $ib, e0 - 64 * $ib)) by { reveal(wm); } }" % (v, q, q, b2, v, q)
        q = "%s + 64 * $ie - b0" % b2
        WE = "proof { assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(we, j) == (if j < $le { f(op, bt(w0[$ie as int], j), bv(%s, %s + j)) } else { bt(w0[$ie as int], j) }) by { lemma_bits(); assert(bt(me, j) == (j < $le)); } assert(wm(op, w0[$ie as int], %s, %s, we, b0 - 64 * $ie, e0 - 64 * $ie)) by { reveal(wm); } }" % (v, q, v, q)
        DONE = "proof { let w2 = %s; assert(ib == ie ==> w2[ib as int] == wb); assert forall|k: int| 0 <= k < w0.len() implies #[trigger] wk(op, w0, w2, b0, e0, %s, %s, k) by { if k == b0 / 64 { assert(w2[k] == wb); } else if k == e0 / 64 { LAST } else if !(b0 / 64 < k < e0 / 64) { assert(w2[k] == w0[k]); lemma_same(op, w0, w2, b0, e0, %s, %s, k); } else { assert(w2[k] == w9[k]); assert(wk(op, w0, w9, b0, e0, %s, %s, k)); } } lemma_rng(op, w0, w2, b0, e0, %s, %s); }" % (S, v, b2, v, b2, v, b2, v, b2)
        return WB + " let ghost we = 0u64;", WE, DONE.replace("LAST", "assert(w2[k] == we)")

    H, L = apply_hints(W, "begin", "end", "w0", "b0", ["unary(op)"])
    WB, WE, DONE = bnd(W, "w0", "b0")
    H["stmt:W wb = .after"] = WB
    H["stmt:W we = .after"] = WE
    H["exit"] = DONE
    H["stmt:^words.ib. = wb.before"] = "let ghost w9 = self_.words@;"
    cs.append(Contract("apply1", BV + "::apply", sig="bit_vector<unsigned long> &(size_t, size_t, %s, bool)" % FP, targs=[FP], params=["begin", "end", "op", "backwards"], bits=True,
        requires=["unary(op)", "begin <= end", "end <= old(self_).sz"] + WFO, ensures=["final(self_).sz == old(self_).sz", "%s.len() == %s.len()" % (N, O), "rng(op, %s, %s, begin as int, end as int, %s, begin as int)" % (O, N, O)],
        hints=H, loops=L, rlimit=60))
    H, L = apply_hints("v1.words@", "begin1", "e0", "v2.words@", "(begin2 as int)", ["begin2 + len <= v2.sz", "len == e0 - b0", "wfl(v2.words@, v2.sz as int)"], )
    H["entry"] += " proof { lemma_at(v2.words@, v2.sz as int, begin2 as int); }"
    for k in (0, 1):
        H["L%d.begin" % k] += " proof { assert(64 * $i + 64 <= e0 && 64 * $i >= b0); lemma_at(v2.words@, v2.sz as int, begin2 + 64 * $i - b0); assert(wfl(v2.words@, v2.sz as int)); }"
    WB, WE, DONE = bnd("v1.words@", "v2.words@", "(begin2 as int)")
    H["stmt:W wb = .after"] = WB
    H["stmt:W we = .after"] = WE
    H["stmt:^words.ib. = wb.before"] = "let ghost w9 = v1.words@;"
    H["stmt:^words.ib. = wb.after"] = "proof { if ib == ie { %s } }" % DONE[len("proof {"):-1]
    H["stmt:^words.ie. = we.after"] = DONE
    cs.append(Contract("apply2", BV + "::apply", sig="bit_vector<unsigned long> &(bit_vector<unsigned long> &, size_t, const bit_vector<unsigned long> &, size_t, size_t, %s)" % FP, targs=[FP], params=["v1", "begin1", "v2", "begin2", "len", "op"], bits=True,
        requires=["begin1 + len <= old(v1).sz", "begin2 + len <= v2.sz", "wfl(old(v1).words@, old(v1).sz as int)", "wfl(v2.words@, v2.sz as int)"], ensures=["final(v1).sz == old(v1).sz", "final(v1).words@.len() == old(v1).words@.len()", "rng(op, old(v1).words@, final(v1).words@, begin1 as int, begin1 + len, v2.words@, begin2 as int)"],
        hints=H, loops=L, rlimit=60))
    cs.append(Contract("bv_resize", BV + "::resize", params=["new_size"], bits=True, requires=["new_size <= 0x0fff_ffff_ffff_ffff"], ensures=["final(self_).sz == new_size", "wf(%s, new_size as int)" % N, "forall|p: int| 0 <= p < new_size ==> #[trigger] bv(%s, p) == (p < 64 * %s.len() && bv(%s, p))" % (N, O, O)],
        hints={"entry": "let ghost w0 = %s; proof { lemma_bits(); assert(new_size / 64 <= nw(new_size as int)); }" % W,
               "exit": "proof { reveal(wf); let w2 = %s; let n = new_size as int; assert forall|p: int| 0 <= p < 64 * w2.len() implies #[trigger] bv(w2, p) == (p < n && p < 64 * w0.len() && bv(w0, p)) by { let k = p / 64; let j = p %% 64; assert(p == 64 * k + j); if k == n / 64 { assert((j < n %% 64) == (p < n)); } } }" % W}))
    cs.append(Contract("bv_reserve", BV + "::reserve", params=["new_size"], requires=["new_size <= 0x0fff_ffff_ffff_ffff", "wf(%s, old(self_).sz as int)" % O], ensures=["final(self_).sz == (if old(self_).sz < new_size { new_size } else { old(self_).sz })", "wf(%s, final(self_).sz as int)" % N, "forall|p: int| 0 <= p < final(self_).sz ==> #[trigger] bv(%s, p) == (p < old(self_).sz && bv(%s, p))" % (N, O)], hints={"entry": "proof { reveal(wf); }"}))
    cs.append(Contract("push_back", BV + "::push_back", params=["val"], requires=["old(self_).sz < 0x0fff_ffff_ffff_ffff", "wf(%s, old(self_).sz as int)" % O], ensures=["final(self_).sz == old(self_).sz + 1", "wf(%s, final(self_).sz as int)" % N, "forall|p: int| 0 <= p < old(self_).sz ==> #[trigger] bv(%s, p) == bv(%s, p)" % (N, O), "bv(%s, old(self_).sz as int) == (val == 1 || val == -1)" % N], hints={"entry": "proof { reveal(wf); }", "exit": "proof { reveal(wf); }"}))
    cs.append(Contract("pop_back", BV + "::pop_back", requires=["old(self_).sz > 0", "wf(%s, old(self_).sz as int)" % O], ensures=["final(self_).sz == old(self_).sz - 1", "wf(%s, final(self_).sz as int)" % N, "forall|p: int| 0 <= p < final(self_).sz ==> #[trigger] bv(%s, p) == bv(%s, p)" % (N, O)], hints={"entry": "proof { reveal(wf); }"}))
    cs.append(Contract("bv_range", "altruct::container::bv_range", params=["v"], bits=True, requires=["v@.len() <= 0x0fff_ffff_ffff_ffff"], ensures=["r.sz == v@.len()", "wf(r.words@, r.sz as int)", "forall|p: int| 0 <= p < r.sz ==> #[trigger] bv(r.words@, p) == (v@[p] & 1 == 1)"],
        loops={0: dict(invariant=["0 <= it <= end", "end == v@.len()", "pos == it", "end <= 0x0fff_ffff_ffff_ffff", "o__1.sz == end", "wf(o__1.words@, end as int)", "forall|p: int| 0 <= p < it ==> #[trigger] bv(o__1.words@, p) == (v@[p] & 1 == 1)"], decreases="end - it")},
        hints={"L0.begin": "proof { reveal(wf); let x = v@[it as int]; assert(x & 1 == 0 || x & 1 == 1) by(bit_vector); }", "L0.end2": "proof { reveal(wf); }"}))
    cs.append(Contract("bv_new", "altruct::container::bv_new", params=["sz"], requires=["sz <= 0x0fff_ffff_ffff_ffff"], ensures=["r.sz == sz", "wf(r.words@, sz as int)", "forall|p: int| 0 <= p < sz ==> !#[trigger] bv(r.words@, p)"], hints={"exit": "proof { lemma_bits(); reveal(wf); }"}))
    TW = "that.words@"
    TWF = ["wf(%s, old(self_).sz as int)" % O, "wf(%s, that.sz as int)" % TW]
    for nm, cxx, v, tail in (("and", "&", "a && b", True), ("or", "|", "a || b", False), ("xor", "^", "a != b", False)):
        bits = lambda nw_, ow, osz, tw, tsz: "forall|p: int| 0 <= p < %s ==> #[trigger] bv(%s, p) == { let a = p < %s && bv(%s, p); let b = p < %s && bv(%s, p); %s }" % ("(if %s < %s { %s } else { %s })" % (osz, tsz, tsz, osz), nw_, osz, ow, tsz, tw, v)
        cs.append(Contract("bv_%s_eq" % nm, BV + "::operator%s=" % cxx, params=["that"], requires=TWF, ensures=["final(self_).sz == (if old(self_).sz < that.sz { that.sz } else { old(self_).sz })", "wf(%s, final(self_).sz as int)" % N, bits(N, O, "old(self_).sz", TW, "that.sz")],
            hints={"entry": "let ghost w0 = %s; proof { reveal(wf); }" % W, "use:reserve.after": "let ghost w1 = %s; let ghost s1 = self_.sz as int; proof { lemma_wfl(w1, s1); lemma_wfl(that.words@, that.sz as int); }" % W,
                   "exit": "proof { reveal(rng); reveal(wf); }"}))
        cs.append(Contract("bv_%s" % nm, BV + "::operator%s" % cxx, params=["that"], requires=["wf(%s, self_.sz as int)" % W, "wf(%s, that.sz as int)" % TW], ensures=["r.sz == (if self_.sz < that.sz { that.sz } else { self_.sz })", "wf(r.words@, r.sz as int)", bits("r.words@", W, "self_.sz", TW, "that.sz")]))
    cs.append(Contract("bv_not", BV + "::operator~", requires=["wf(%s, self_.sz as int)" % W], ensures=["r.sz == self_.sz", "wf(r.words@, r.sz as int)", "forall|p: int| 0 <= p < self_.sz ==> #[trigger] bv(r.words@, p) == !bv(%s, p)" % W], hints={"entry": "proof { reveal(wf); }", "exit": "proof { reveal(rng); reveal(wf); }"}))
    LEN = "%s.len() == w0.len()" % W
    G = "let ghost w0 = %s; let ghost n = self_.sz as int; proof { lemma_bits(); reveal(wf); }" % W
    RV = ["wf(w0, n)", "wfl(w0, n)", "self_.sz == n", LEN, "$wsz == w0.len() - 1", "$q <= $wsz", "0 <= $r < 64", "w0.len() <= 0x0fff_ffff_ffff_ffff", "$q < $wsz ==> cnt == 64 * $q + $r", "cnt >= 64 * $q"]
    cs.append(Contract("shr_eq", BV + "::operator>>=", params=["cnt"], bits=True, requires=["cnt >= 0", "wf(%s, old(self_).sz as int)" % O], ensures=["final(self_).sz == old(self_).sz", "wf(%s, final(self_).sz as int)" % N, "forall|p: int| 0 <= p < final(self_).sz ==> #[trigger] bv(%s, p) == (p + cnt < old(self_).sz && bv(%s, p + cnt))" % (N, O)],
        hints={"entry": G, "L0.begin": "let ghost w1 = %s; proof { assert(w1[$i as int] == w0[$i as int]); }" % W, 
               "L0.end": "proof { assert(shw(w0, %s[$i as int], 64 * $i + cnt)) by { reveal(shw); assert forall|j: int| 0 <= j < 64 implies bv(w1, ($i + $q) * 64 + $r + j) == #[trigger] bv(w0, 64 * $i + cnt + j) by { let k = (64 * $i + cnt + j) / 64; assert(w1[k] == w0[k]); } } assert forall|k: int| 0 <= k < $i implies shw(w0, #[trigger] %s[k], 64 * k + cnt) by { assert(w1[k] == %s[k]); } }" % (W, W, W),
               "L1.begin": "let ghost w1 = %s;" % W, "L1.end": "proof { assert forall|p: int| 64 * $i + cnt <= p implies !#[trigger] bvx(w0, p) by { reveal(wf); if p < 64 * w0.len() { assert(!bv(w0, p)); } } lemma_shw0(w0, 64 * $i + cnt); assert forall|k: int| 0 <= k < $i implies shw(w0, #[trigger] %s[k], 64 * k + cnt) by { assert(w1[k] == %s[k]); } }" % (W, W),
               "exit": "proof { let w2 = %s; lemma_shw(w0, w2, cnt as int, w0.len() - 1); assert forall|p: int| n <= p < 64 * w2.len() implies !#[trigger] bv(w2, p) by { if p < 64 * (w0.len() - 1) { assert(bv(w2, p) == bvx(w0, p + cnt)); if p + cnt < 64 * w0.len() { assert(!bv(w0, p + cnt)); } } else { assert(!bv(w0, p)); } } assert(wf(w2, n)); assert forall|p: int| 0 <= p < n implies #[trigger] bv(w2, p) == (p + cnt < n && bv(w0, p + cnt)) by { assert(bv(w2, p) == bvx(w0, p + cnt)); if n <= p + cnt < 64 * w0.len() { assert(!bv(w0, p + cnt)); } } }" % W},
        loops={0: dict(invariant=RV + ["$i <= $wsz - $q", "forall|k: int| $i <= k < w0.len() ==> %s[k] == #[trigger] w0[k]" % W, "forall|k: int| 0 <= k < $i ==> shw(w0, #[trigger] %s[k], 64 * k + cnt)" % W], decreases="$wsz - $q - $i"),
               1: dict(invariant=RV + ["$wsz - $q <= $i <= $wsz", "%s[w0.len() - 1] == w0[w0.len() - 1]" % W, "forall|k: int| 0 <= k < $i ==> shw(w0, #[trigger] %s[k], 64 * k + cnt)" % W], decreases="$wsz - $i")}))
    cs.append(Contract("shr", BV + "::operator>>", params=["cnt"], requires=["cnt >= 0", "wf(%s, self_.sz as int)" % W], ensures=["r.sz == self_.sz", "wf(r.words@, r.sz as int)", "forall|p: int| 0 <= p < r.sz ==> #[trigger] bv(r.words@, p) == (p + cnt < self_.sz && bv(%s, p + cnt))" % W]))
    cs.append(Contract("shl_eq", BV + "::operator<<=", params=["cnt"], bits=True, attrs=["#[verifier::allow_complex_invariants]"], requires=["cnt >= 0", "wf(%s, old(self_).sz as int)" % O], ensures=["final(self_).sz == old(self_).sz", "wf(%s, final(self_).sz as int)" % N, "forall|p: int| 0 <= p < final(self_).sz ==> #[trigger] bv(%s, p) == (p >= cnt && bv(%s, p - cnt))" % (N, O)],
        hints={"entry": G, "L0.begin": "let ghost w1 = %s; proof { assert(w1[$i - $q] == w0[$i - $q]); assert(w1[$i - $q - 1] == w0[$i - $q - 1]); assert(w1[$i as int] == w0[$i as int]); }" % W,
               "L0.end": "proof { let k = $i - $q; let x = %s[$i as int]; assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(x, j) == (if j >= $r { bt(w0[k], j - $r) } else { k > 0 && bt(w0[k - 1], 64 - $r + j) }) by { } lemma_shl(w0, x, k, $r as int); assert(shw(w0, x, 64 * $i - cnt)); assert forall|k: int| $i < k < w0.len() - 1 implies shw(w0, #[trigger] %s[k], 64 * k - cnt) by { assert(%s[k] == w1[k]); } }" % (W, W, W),
               "stmt:^words.q. = .before": "let ghost w3 = %s; proof { if w0.len() > 1 && $q < $wsz { assert(w3[0] == w0[0]); } }" % W,
               "stmt:^words.q. = .after": "proof { let x = %s[$q as int]; if $q < $wsz { assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(x, j) == (if j >= $r { bt(w0[0], j - $r) } else { false }) by { } lemma_shl(w0, x, 0, $r as int); assert(shw(w0, x, 64 * $q - cnt)); } assert forall|k: int| $q <= k < w0.len() - 1 implies shw(w0, #[trigger] %s[k], 64 * k - cnt) by { if k > $q { assert(%s[k] == w3[k]); } } }" % (W, W, W),
               "L1.begin": "let ghost w1 = %s;" % W, "L1.end": "proof { assert forall|p: int| 64 * $i - cnt <= p < 64 * $i - cnt + 64 implies !#[trigger] bvx(w0, p) by { } lemma_shw0(w0, 64 * $i - cnt); assert forall|k: int| 0 <= k < $i implies shw(w0, #[trigger] %s[k], 64 * k - cnt) by { assert(%s[k] == w1[k] || k == $i); } assert forall|k: int| $q <= k < w0.len() - 1 implies shw(w0, #[trigger] %s[k], 64 * k - cnt) by { assert(%s[k] == w1[k]); } }" % (W, W, W, W),
               "use:resize.before": "let ghost w4 = %s; proof { lemma_shw(w0, w4, -cnt, w0.len() - 1); }" % W,
               "exit": "proof { let w2 = %s; assert forall|p: int| 0 <= p < n implies #[trigger] bv(w2, p) == (p >= cnt && bv(w0, p - cnt)) by { assert(p < 64 * (w0.len() - 1)); assert(bv(w4, p) == bvx(w0, p - cnt)); } }" % W},
        loops={0: dict(invariant=RV, invariant_except_break=["$i <= $wsz", "$q < $wsz ==> $q + 1 <= $i", "forall|k: int| 0 <= k < $i ==> %s[k] == #[trigger] w0[k]" % W, "forall|k: int| $i <= k < w0.len() - 1 ==> shw(w0, #[trigger] %s[k], 64 * k - cnt)" % W],
                ensures=["$q < $wsz ==> %s[0] == w0[0]" % W, "forall|k: int| $q < k < w0.len() - 1 ==> shw(w0, #[trigger] %s[k], 64 * k - cnt)" % W], decreases="$i"),
               1: dict(invariant=RV + ["$i <= $q", "forall|k: int| 0 <= k < $i ==> shw(w0, #[trigger] %s[k], 64 * k - cnt)" % W, "forall|k: int| $q <= k < w0.len() - 1 ==> shw(w0, #[trigger] %s[k], 64 * k - cnt)" % W], decreases="$q - $i")}))
    cs.append(Contract("shl", BV + "::operator<<", params=["cnt"], requires=["cnt >= 0", "wf(%s, self_.sz as int)" % W], ensures=["r.sz == self_.sz", "wf(r.words@, r.sz as int)", "forall|p: int| 0 <= p < r.sz ==> #[trigger] bv(r.words@, p) == (p >= cnt && bv(%s, p - cnt))" % W]))
    RI = ["wfl(w0, n0)", "0 <= b0 < e0 <= n0", LEN, "begin == b0", "end == e0", "$ib == b0 / 64", "$ie == e0 / 64", "$lb == b0 % 64", "$le == e0 % 64", "$l == $lb + $le", "$ib < $ie", "$ie < w0.len()", "w0.len() <= 0x0fff_ffff_ffff_ffff", "self_.sz == n0"]
    OUT = "forall|k: int| 0 <= k < w0.len() && !($ib < k < $ie) ==> %s[k] == #[trigger] w0[k]" % W
    def rinv(done):
        return RI + ["forall|k: int| 0 <= k < w0.len() && !($ib < k < $ie && %s) ==> %s[k] == #[trigger] w0[k]" % (done, W), "forall|k: int| $ib < k < $ie && %s ==> rvw(w0, #[trigger] %s[k], 64 * k + $l - 64)" % (done, W)]
    def rstep(ok):
        return "proof { let b9 = 64 * $i + $l - 64; let x = %s[$i as int]; assert(rvw(w0, x, b9)) by { lemma_bits(); reveal(rm); assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(x, j) == bv(w0, b9 + 63 - j) by { let k = (b9 + 63 - j) / 64; assert(%s); assert(w1[k] == w0[k]); assert(bv(w1, b9 + (63 - j)) == bv(w0, b9 + 63 - j)); } } assert forall|k: int| 0 <= k < w0.len() && k != $i implies #[trigger] w1[k] == %s[k] by {} }" % (W, ok, W)
    WE = "proof { let q = b0 + e0 - 64 * $ie - 64; assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(we, j) == (if j < $le && ($ib == $ie ==> $lb <= j) { bv(w0, q + 63 - j) } else { bt(w0[$ie as int], j) }) by { lemma_bits(); assert(bt(me, j) == (j < $le && ($ib == $ie ==> $lb <= j))); if j < $le { assert(q + 63 - j == begin + (63 - (j + (64 - $le)))); } } assert(rm(w0, w0[$ie as int], we, q, b0 - 64 * $ie, e0 - 64 * $ie)) by { reveal(rm); } }"
    WB = "proof { let q = b0 + e0 - 64 * $ib - 64; assert forall|j: int| 0 <= j < 64 implies #[trigger] bt(wb, j) == (if $lb <= j { bv(w0, q + 63 - j) } else { bt(w0[$ib as int], j) }) by { lemma_bits(); assert(bt(mb, j) == ($lb <= j)); assert(q + 63 - j == (end - (64 - $lb)) + (63 - j)); } assert(rm(w0, w0[$ib as int], wb, q, b0 - 64 * $ib, e0 - 64 * $ib)) by { reveal(rm); } }"
    ALL = lambda one: "proof { let w2 = %s; assert forall|k: int| 0 <= k < w0.len() implies #[trigger] rk(w0, w2, b0, e0, k) by { if k == b0 / 64 || k == e0 / 64 { %s } else if !(b0 / 64 < k < e0 / 64) { assert(w2[k] == w0[k]); lemma_rsame(w0, w2, b0, e0, k); } else { %s } } lemma_revd(w0, w2, b0, e0); }" % (W, "assert(w2[k] == (if k == e0 / 64 { we } else { gwb }));" if not one else "assert(w2[k] == we);", "assert(w2[k] == w9[k]); assert(rvw(w0, w9[k], b0 + e0 - 64 * k - 64)); lemma_rfull(w0, w2, b0, e0, k);" if not one else "")
    cs.append(Contract("reverse", BV + "::reverse", params=["begin", "end"], bits=True, requires=["begin <= old(self_).sz", "end <= old(self_).sz"] + WFO, ensures=["final(self_).sz == old(self_).sz", "%s.len() == %s.len()" % (N, O), "revd(%s, %s, begin as int, end as int)" % (O, N)],
        hints={"entry": "let ghost w0 = %s; let ghost b0 = begin as int; let ghost e0 = end as int; let ghost n0 = self_.sz as int; proof { assert(e0 / 64 < w0.len()); lemma_at(w0, n0, b0); if b0 >= e0 { reveal(revd); } }" % W,
               "stmt:W we = .after": "let ghost mut gwb = 0u64; let ghost mut w9 = w0;", "stmt:W wb = .before": "proof { assert(64 - $lb <= end); lemma_at(w0, n0, end - (64 - $lb)); }", "stmt:^words.ie. = we.before": WE, "stmt:^words.ie. = we.after": ALL(False),
               "stmt:^wb .= .after": WB,
               "L0.begin": "let ghost w1 = %s;" % W, "L1.begin": "let ghost w1 = %s;" % W, "L0.end": rstep("k <= $i"), "L1.end": rstep("k >= $i"),
               "L2.begin": "let ghost w1 = %s;" % W,
               "stmt:^words.ib. = wb.before": "proof { w9 = %s; gwb = wb; assert forall|k: int| $ib < k < $ie implies rvw(w0, #[trigger] w9[k], 64 * ($ib + $ie - k) + $l - 64) by { } }" % W},
        loops={0: dict(invariant=rinv("k > $i") + ["$ib <= $i < $ie", "$l < 64"], decreases="$i"), 1: dict(invariant=rinv("k < $i") + ["$ib < $i <= $ie", "$l >= 64"], decreases="$ie - $i"),
               2: dict(invariant=RI + [OUT, "$ib < $i", "$i + $j == $ib + $ie", "$i <= $j + 2", "forall|k: int| $ib < k < $ie && $i <= k <= $j ==> rvw(w0, #[trigger] %s[k], 64 * k + $l - 64)" % W, "forall|k: int| $ib < k < $ie && !($i <= k <= $j) ==> rvw(w0, #[trigger] %s[k], 64 * ($ib + $ie - k) + $l - 64)" % W], decreases="$j - $i + 2")}, rlimit=60))
    for nm, mm in (("rotate_left", "cnt as int % (end - begin)"), ("rotate_right", "(end - begin) - cnt as int % (end - begin)")):
        M = "(if begin < end { %s } else { 0 })" % mm
        cs.append(Contract(nm, BV + "::" + nm, params=["begin", "end", "cnt"], requires=["begin <= old(self_).sz", "end <= old(self_).sz"] + WFO, ensures=["final(self_).sz == old(self_).sz", "%s.len() == %s.len()" % (N, O), "wf(%s, old(self_).sz as int) ==> wf(%s, old(self_).sz as int)" % (O, N), "forall|p: int| 0 <= p < 64 * %s.len() ==> #[trigger] bv(%s, p) == bv(%s, rotp(begin as int, end as int, %s, p))" % (N, N, O, M)],
            hints={"entry": "let ghost w0 = %s; let ghost n0 = self_.sz as int;" % W, "use:reverse#1.after": "let ghost w1 = %s;" % W, "use:reverse#2.after": "let ghost w2 = %s;" % W, 
                   "use:reverse#3.after": "proof { let w3 = %s; if wf(w0, n0) { lemma_revwf(w0, w1, begin as int, mid as int, n0); lemma_revwf(w1, w2, mid as int, end as int, n0); lemma_revwf(w2, w3, begin as int, end as int, n0); } reveal(revd); }" % W}))
    SW = lambda a, b, c, d: "swpp(%s as int, %s as int, %s as int, %s as int, p)" % (a, b, c, d)
    cs.append(Contract("bv_swap", BV + "::swap", params=["begin1", "end1", "begin2", "end2"], requires=["begin1 <= end1 <= old(self_).sz", "begin2 <= end2 <= old(self_).sz", "if begin1 <= begin2 { end1 <= begin2 } else { end2 <= begin1 }"] + WFO, ensures=["final(self_).sz == old(self_).sz", "%s.len() == %s.len()" % (N, O), "wf(%s, old(self_).sz as int) ==> wf(%s, old(self_).sz as int)" % (O, N), "forall|p: int| 0 <= p < 64 * %s.len() ==> #[trigger] bv(%s, p) == bv(%s, if begin1 <= begin2 { %s } else { %s })" % (N, N, O, SW("begin1", "end1", "begin2", "end2"), SW("begin2", "end2", "begin1", "end1"))],
        decreases="if begin1 > begin2 { 1int } else { 0 }", hints={"entry": "let ghost w0 = %s; let ghost n0 = self_.sz as int;" % W, "use:reverse#1.after": "let ghost w1 = %s;" % W, "use:reverse#2.after": "let ghost w2 = %s;" % W, "use:reverse#3.after": "let ghost w3 = %s;" % W,
               "use:reverse#4.after": "proof { let w4 = %s; if wf(w0, n0) { lemma_revwf(w0, w1, begin1 as int, end1 as int, n0); lemma_revwf(w1, w2, end1 as int, begin2 as int, n0); lemma_revwf(w2, w3, begin2 as int, end2 as int, n0); lemma_revwf(w3, w4, begin1 as int, end2 as int, n0); } reveal(revd); }" % W}))
    V12 = ["v1", "begin1", "v2", "begin2", "len"]
    S2 = "v1.words@, begin1 as int, v2.words@, begin2 as int, "
    IV = ["$ib == begin1 as int / 64", "$lb == begin1 %% 64", "$ie == (begin1 + len) / 64", "$le == (begin1 + len) %% 64", "$begin == begin1", "$end == begin1 + len", "wfl(v1.words@, v1.sz as int)", "wfl(v2.words@, v2.sz as int)", "begin1 + len <= v1.sz", "begin2 + len <= v2.sz"]
    IV = [x.replace("%%", "%") for x in IV]
    cs.append(Contract("hamming", BV + "::hamming_distance", params=V12, bits=True, requires=["wfl(v1.words@, v1.sz as int)", "wfl(v2.words@, v2.sz as int)", "begin1 + len <= v1.sz", "begin2 + len <= v2.sz"], ensures=["r == hd(%slen as int)" % S2],
        hints={"entry": "proof { lemma_at(v1.words@, v1.sz as int, begin1 as int); lemma_at(v2.words@, v2.sz as int, begin2 as int); assert((begin1 + len) / 64 < v1.words@.len()); }",
               "stmt:^W w = w1 .after": "let ghost wx = $w;",
               "stmt:^dist .= .before": "proof { let q = $pos as int; let l = $l as int; assert forall|j: int| 0 <= j < 64 implies #[trigger] bt($w, j) == (j < l && bv(v1.words@, begin1 + q + j) != bv(v2.words@, begin2 + q + j)) by { lemma_bits(); } lemma_step(%sq, l, $w); }" % S2},
        loops={0: dict(invariant=IV + ["$r", "$ib < $i", "$ib < $ie ==> $i <= $ie", "$ib == $ie ==> dist == hd(%slen as int)" % S2, "$ib < $ie ==> dist == hd(%s$i * 64 - begin1)" % S2], decreases="$ie - $i")}, rlimit=60))
    CV = [x.replace("+ len", "+ clen").replace("begin2 + clen <= v2.sz", "begin2 + clen <= v2.sz") for x in IV] + ["len == clen", "end1 - begin1 >= clen", "end2 - begin2 >= clen"]
    cs.append(Contract("compare", BV + "::compare", params=["v1", "begin1", "end1", "v2", "begin2", "end2"], bits=True, requires=["wfl(v1.words@, v1.sz as int)", "wfl(v2.words@, v2.sz as int)", "begin1 <= end1 <= v1.sz", "begin2 <= end2 <= v2.sz"], ensures=["cmpd(v1.words@, begin1 as int, end1 as int, v2.words@, begin2 as int, end2 as int, r as int)"],
        hints={"entry": "let ghost clen: int = if end1 - begin1 < end2 - begin2 { end1 - begin1 } else { end2 - begin2 }; proof { lemma_at(v1.words@, v1.sz as int, begin1 as int); lemma_at(v2.words@, v2.sz as int, begin2 as int); assert((begin1 + clen) / 64 < v1.words@.len()); assert(eqp(%s0)) by { reveal(eqp); } }" % S2,
               "stmt:^return w1 == w2.before": "proof { let q = $pos as int; let l = $l as int; assert forall|j: int| 0 <= j < 64 implies #[trigger] bt($w1, j) == (j < l && bv(v1.words@, begin1 + q + j)) by { lemma_bits(); } assert forall|j: int| 0 <= j < 64 implies #[trigger] bt($w2, j) == (j < l && bv(v2.words@, begin2 + q + j)) by { lemma_bits(); } lemma_cstep(%sq, l, $w1, $w2); if $w1 != $w2 { lemma_dif(%sq + l, clen, ret as int); } }" % (S2, S2)},
        loops={0: dict(invariant=CV + ["ret == -1 || ret == 0 || ret == 1", "$r == (ret == 0)", "ret != 0 ==> dif(%sclen, ret as int) && !eqp(%sclen)" % (S2, S2), "$ib < $i", "$ib < $ie ==> $i <= $ie", "$r && $ib == $ie ==> eqp(%sclen)" % S2, "$r && $ib < $ie ==> eqp(%s$i * 64 - begin1)" % S2], decreases="$ie - $i")}, rlimit=200))
    CM = lambda r: "cmpd(%s, 0, self_.sz as int, that.words@, 0, that.sz as int, %s)" % (W, r)
    for nm, cxx, yes, no in (("eq", "==", "0", "-1 1"), ("ne", "!=", "-1 1", "0"), ("lt", "<", "-1", "0 1"), ("gt", ">", "1", "-1 0"), ("le", "<=", "-1 0", "1"), ("ge", ">=", "0 1", "-1")):
        alt = lambda x: " || ".join(CM(v) for v in x.split())
        cs.append(Contract("bv_" + nm, BV + "::operator" + cxx, params=["that"], requires=["wfl(%s, self_.sz as int)" % W, "wfl(that.words@, that.sz as int)"], ensures=["r ==> (%s)" % alt(yes), "!r ==> (%s)" % alt(no)], hints={"entry": "proof { reveal(eqp); assert forall|q: int, r: int| #[trigger] dif(%s, 0, that.words@, 0, q, r) implies r == 1 || r == -1 by { lemma_dif(%s, 0, that.words@, 0, q, q, r); } }" % (W, W)}))
    if selfref:
        cs = [c for c in cs if c.rust.startswith("op_") or c.rust in ("first_bits", "word_at", "word_at2")]
        H, L = apply_hints("v.words@", "begin1", "e0", "w0", "(begin2 as int)", ["begin2 + len <= n0", "len == e0 - b0", "v.sz == n0", "BW"])
        H["entry"] += " proof { lemma_at(w0, n0, begin2 as int); }"
        for k in (0, 1):
            H["L%d.begin" % k] += " proof { assert(64 * $i + 64 <= e0); lemma_at(w1, n0, begin2 + 64 * $i - b0); }"
        WB, WE, DONE = bnd("v.words@", "w0", "(begin2 as int)")
        H["entry"] = H["entry"].replace("let ghost e0 = e0 as int", "let ghost e0 = begin1 + len")
        for k, ok in ((0, "<= $i"), (1, ">= $i")):
            H["L%d.begin" % k] += " proof { assert forall|j: int| 0 <= j < 64 implies bv(w1, begin2 + 64 * $i - b0 + j) == #[trigger] bv(w0, begin2 + 64 * $i - b0 + j) by { let k = (begin2 + 64 * $i - b0 + j) / 64; assert(k %s); assert(w1[k] == w0[k]); } }" % ok
            L[k] = dict(L[k], invariant=[x.replace("BW", "begin2 < begin1" if k == 0 else "begin2 >= begin1") for x in L[k]["invariant"]])
        H["stmt:W wb = .after"] = WB
        H["stmt:W we = .after"] = WE
        H["stmt:^words.ib. = wb.before"] = "let ghost w9 = v.words@;"
        H["stmt:^words.ib. = wb.after"] = "proof { if ib == ie { %s } }" % DONE[len("proof {"):-1]
        H["stmt:^words.ie. = we.after"] = DONE
        cs.append(Contract("bv_self", "altruct::container::bv_self", params=["v", "begin1", "begin2", "len", "op"], bits=True,
            requires=["begin1 + len <= old(v).sz", "begin2 + len <= old(v).sz", "wfl(old(v).words@, old(v).sz as int)"], ensures=["final(v).sz == old(v).sz", "rng(op, old(v).words@, final(v).words@, begin1 as int, begin1 + len, old(v).words@, begin2 as int)"],
            hints=H, loops=L, rlimit=60))
    return cs


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        return None

    def ptr_call(self, tr, e, name, args):
        return None


def units():
    r = []
    for sr in (False, True):
        u = Unit("bvself" if sr else "bvec", ["altruct/structure/container/bit_vector.h"], TU, contracts(sr), SPEC + CALL + CLONE)
        u.hooks = [Hook()]
        u.type_map[r"^(unsigned long|W|word_t) \(\*\)\(.*\)$"] = "Fn"
        u.copy_types.add("Fn")
        u.externs.update({"bit_reverse": "bit_reverse_u64", "bit_cnt1": "bit_cnt1_u64"})
        u.trusted.append("bit_reverse(uint64_t), bit_cnt1(uint64_t): by the contracts that property C07 discharges for them")
        u.fnptr = ("Fn", "fn_call")
        u.fnvals = {n: "Fn::" + v for n, v in OPS}
        r.append(u)
    return r
