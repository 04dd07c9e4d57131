"""next_partition (combinatorics.h) and the Stirling tables and factorial (counting.h)"""
from unit import Unit, Contract
import ring
MM = "altruct::math::"
PSPEC = r"""
/// the integers in v[b..e)
pub open spec fn sq(v: Seq<TY>, b: int, e: int) -> Seq<int> { Seq::new((e - b) as nat, |i: int| v[b + i] as int) }
/// sum of s[j..)
pub open spec fn ss(s: Seq<int>, j: int) -> int decreases s.len() - j { if j >= s.len() { 0 } else { s[j] + ss(s, j + 1) } }
/// a partition of n into at most s.len() parts
pub open spec fn part(s: Seq<int>, n: int) -> bool { (forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[j] <= #[trigger] s[i]) && (forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i]) && ss(s, 0) == n }
pub open spec fn lexat(c: Seq<int>, a: Seq<int>, k: int) -> bool { 0 <= k < c.len() && c[k] < a[k] && forall|i: int| 0 <= i < k ==> #[trigger] c[i] == a[i] }
/// c is lexicographically smaller than a (same length)
pub open spec fn lexless(c: Seq<int>, a: Seq<int>) -> bool { exists|k: int| #[trigger] lexat(c, a, k) }
/// the k-th entry can be decreased
pub open spec fn fits(a: Seq<int>, k: int) -> bool { a[k] > 1 && ss(a, k) <= (a[k] - 1) * (a.len() - k) }
/// b is the largest partition below a
pub open spec fn is_next(a: Seq<int>, b: Seq<int>, n: int) -> bool { part(b, n) && lexless(b, a) && forall|c: Seq<int>| c.len() == a.len() && #[trigger] part(c, n) && lexless(c, a) ==> !lexless(b, c) }
pub open spec fn is_last(a: Seq<int>, n: int) -> bool { forall|c: Seq<int>| c.len() == a.len() && #[trigger] part(c, n) ==> !lexless(c, a) }
pub open spec fn is_first(b: Seq<int>, n: int) -> bool { part(b, n) && forall|c: Seq<int>| c.len() == b.len() && #[trigger] part(c, n) ==> !lexless(b, c) }
pub proof fn lemma_ss_nonneg(s: Seq<int>, j: int) requires 0 <= j, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i], ensures ss(s, j) >= 0, j < s.len() ==> ss(s, j) >= s[j], decreases s.len() - j { if j < s.len() { lemma_ss_nonneg(s, j + 1); } }
pub proof fn lemma_ss_le(s: Seq<int>, j: int) requires 0 <= j, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i], ensures ss(s, j) <= ss(s, 0), decreases j { if j > 0 { lemma_ss_le(s, j - 1); lemma_ss_nonneg(s, j - 1); } }
pub proof fn lemma_ss_prefix(a: Seq<int>, b: Seq<int>, k: int) requires a.len() == b.len(), 0 <= k <= a.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i], ensures ss(a, 0) - ss(a, k) == ss(b, 0) - ss(b, k), decreases k { if k > 0 { lemma_ss_prefix(a, b, k - 1); } }
pub proof fn lemma_ss_bound(s: Seq<int>, k: int, m: int) requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] <= m, ensures ss(s, k) <= m * (s.len() - k), decreases s.len() - k { if k < s.len() { lemma_ss_bound(s, k + 1, m); assert(m * (s.len() - k) == m + m * (s.len() - k - 1)) by(nonlinear_arith); } else { assert(m * (s.len() - k) == 0) by(nonlinear_arith) requires s.len() == k; } }
pub proof fn lemma_ss_zero(s: Seq<int>, k: int) requires 0 <= k, forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == 0, ensures ss(s, k) == 0, decreases s.len() - k { if k < s.len() { lemma_ss_zero(s, k + 1); } }
pub proof fn lemma_ss_fill(b: Seq<int>, p: int, q: int, m: int) requires 0 <= p <= q < b.len(), forall|i: int| p <= i < q ==> #[trigger] b[i] == m, forall|i: int| q < i < b.len() ==> #[trigger] b[i] == 0, ensures ss(b, p) == (q - p) * m + b[q], decreases q - p
{ if p < q { lemma_ss_fill(b, p + 1, q, m); assert((q - p) * m == m + (q - p - 1) * m) by(nonlinear_arith); } else { lemma_ss_zero(b, q + 1); assert((q - p) * m == 0) by(nonlinear_arith) requires q == p; } }
/// a smaller partition differs first where the entry can be decreased
pub proof fn lemma_fits(a: Seq<int>, c: Seq<int>, n: int, k: int) requires a.len() == c.len(), part(a, n), part(c, n), lexat(c, a, k), ensures fits(a, k)
{ lemma_ss_prefix(c, a, k); lemma_ss_bound(c, k, c[k]); lemma_ss_nonneg(a, k); let d = a.len() - k; let (x, y) = (c[k], a[k] - 1); assert(x * d <= y * d) by(nonlinear_arith) requires x <= y, d > 0; if a[k] == 1 { assert(c[k] == 0); assert(ss(c, k) <= 0 * d); assert(ss(a, k) >= 1); } }
pub proof fn lemma_last(a: Seq<int>, n: int) requires part(a, n), forall|k: int| 0 <= k < a.len() ==> !#[trigger] fits(a, k), ensures is_last(a, n)
{ assert forall|c: Seq<int>| c.len() == a.len() && #[trigger] part(c, n) implies !lexless(c, a) by { if lexless(c, a) { let k = choose|k: int| lexat(c, a, k); lemma_fits(a, c, n, k); } } }
pub proof fn lemma_first(b: Seq<int>, n: int) requires b.len() > 0, b[0] == n, n >= 0, forall|i: int| 0 < i < b.len() ==> #[trigger] b[i] == 0, ensures is_first(b, n)
{ lemma_ss_fill(b, 0, 0, 0); assert forall|c: Seq<int>| c.len() == b.len() && #[trigger] part(c, n) implies !lexless(b, c) by { if lexless(b, c) { let k = choose|k: int| lexat(b, c, k); lemma_ss_nonneg(c, 0); lemma_ss_nonneg(c, k); lemma_ss_prefix(b, c, k); lemma_ss_nonneg(c, k); if k > 0 { lemma_ss_zero(b, k); } } } }
/// the entries from p on are replaced by m, m, ..., m, x, 0, ..., 0
pub proof fn lemma_next(a: Seq<int>, b: Seq<int>, n: int, p: int, q: int) requires a.len() == b.len(), part(a, n), 0 <= p <= q < a.len(), forall|k: int| p < k < a.len() ==> !#[trigger] fits(a, k), fits(a, p),
    forall|i: int| 0 <= i < p ==> #[trigger] b[i] == a[i], forall|i: int| p <= i < q ==> #[trigger] b[i] == a[p] - 1, forall|i: int| q < i < b.len() ==> #[trigger] b[i] == 0, 0 < b[q] <= a[p] - 1, (q - p) * (a[p] - 1) + b[q] == ss(a, p),
    ensures is_next(a, b, n)
{
    let m = a[p] - 1;
    lemma_ss_fill(b, p, q, m); lemma_ss_prefix(a, b, p); lemma_ss_fill(b, q, q, m);
    assert(lexat(b, a, p));
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies #[trigger] b[j] <= #[trigger] b[i] by { if i < p { assert(a[p] <= a[i]); assert(j < p ==> a[j] <= a[i]); } }
    assert forall|c: Seq<int>| c.len() == a.len() && #[trigger] part(c, n) && lexless(c, a) implies !lexless(b, c) by {
        let k = choose|k: int| lexat(c, a, k); lemma_fits(a, c, n, k); assert(k <= p);
        if lexless(b, c) {
            let w = choose|w: int| lexat(b, c, w); lemma_ss_prefix(b, c, w); lemma_ss_nonneg(c, w);
            if k < p { assert(b[k] == a[k]); if w > k { assert(b[k] == c[k]); } else if w < k { assert(b[w] == a[w]); assert(c[w] == a[w]); } }
            else if w < p { assert(b[w] == a[w]); assert(c[w] == a[w]); }
            else { assert(c[w] <= c[p]); if w >= q { if w > q { lemma_ss_zero(b, w); } } }
        }
    }
}
"""
TSPEC = r"""
pub trait CloneVV: Sized { fn clone_c(&self) -> (r: Self) ensures r == *self; }
impl<T: Copy> CloneVV for Vec<Vec<T>> { #[verifier::external_body] fn clone_c(&self) -> (r: Self) { self.clone() } }
#[verifier::external_body]
pub fn vec_new_vv<T: Copy>(n: u64) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { vec![Vec::new(); n as usize] }
/// image of an integer
pub open spec fn rint(k: int) -> Re { if k >= 0 { rcast(k as nat) } else { rneg(rcast((-k) as nat)) } }
#[verifier::external_body]
pub fn re_int(k: i32) -> (r: Re) ensures r == rint(k as int) { Re { v: 0 } }
pub open spec fn rfact(n: nat) -> Re decreases n { if n == 0 { r1() } else { rmul(rfact((n - 1) as nat), rint(n as int)) } }
/// Stirling numbers: s(n, k) = s(n-1, k-1) - (n-1) s(n-1, k), S(n, k) = S(n-1, k-1) + k S(n-1, k)
pub open spec fn st1(n: int, k: int) -> Re decreases n { if n <= 0 { if k == 0 { r1() } else { r0() } } else { rsub(st1(n - 1, k - 1), rmul(st1(n - 1, k), rint(n - 1))) } }
pub open spec fn st2(n: int, k: int) -> Re decreases n { if n <= 0 { if k == 0 { r1() } else { r0() } } else { radd(st2(n - 1, k - 1), rmul(st2(n - 1, k), rint(k))) } }
pub proof fn lemma_int() ensures rint(0) == r0(), rint(1) == r1() { reveal_with_fuel(rcast, 3); ax_add(r0(), r1(), r1()); ax_add(r1(), r0(), r0()); }
pub proof fn lemma_z(a: Re) ensures rsub(r0(), rmul(r0(), a)) == r0(), radd(r0(), rmul(r0(), a)) == r0(), rsub(a, r0()) == a, radd(a, r0()) == a, rmul(a, r0()) == r0(), rmul(r0(), a) == r0()
{ lemma_rmul0(a); lemma_rsub(r0(), r0()); ax_add(r0(), r0(), r0()); lemma_rsub(a, a); ax_add(a, r0(), a); }
/// negative columns and those beyond the diagonal are zero
pub proof fn lemma_out(n: int, k: int) requires k < 0 || k > n, n >= 0, ensures st1(n, k) == r0(), st2(n, k) == r0(), decreases n
{ if n > 0 { lemma_out(n - 1, k); lemma_out(n - 1, k - 1); lemma_z(rint(n - 1)); lemma_z(rint(k)); } }
pub proof fn lemma_diag(n: int) requires n >= 0, ensures st1(n, n) == r1(), st2(n, n) == r1(), decreases n
{ if n > 0 { lemma_diag(n - 1); lemma_out(n - 1, n); lemma_z(rint(n - 1)); lemma_z(rint(n)); lemma_z(r1()); } }
pub proof fn lemma_col0(n: int) requires n >= 1, ensures st1(n, 0) == r0(), st2(n, 0) == r0(), decreases n
{ lemma_out(n - 1, -1); lemma_int(); lemma_z(rint(n - 1)); lemma_z(st2(n - 1, 0)); lemma_z(st1(n - 1, 0)); if n > 1 { lemma_col0(n - 1); } }
pub open spec fn mini(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn maxi(a: int, b: int) -> int { if a < b { b } else { a } }
"""


class Hook:
    """ring element times an int: the image of the int"""
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if obj is None or tr.ty(obj) != "Re" or len(args) != 1 or tr.ty(args[0]) != "i32":
            return None
        ops = {"operator*": "re_mul", "operator/": "re_div"}
        if name in ops:
            return "%s(%s, re_int(%s))" % (ops[name], tr.exval(obj), tr.exval(args[0]))
        if name in ("operator*=", "operator/="):
            pre = []
            pl = tr.place(obj, pre)
            v = "%s(%s, re_int(%s))" % (ops[name[:-1]], pl, tr.exval(args[0]))
            return pre + ["%s = %s;" % (pl, v)] if stmt else "{ %s %s = %s; %s }" % (" ".join(pre), pl, v, pl)
        return None


def partunit(cxx, rust):
    tu = "#include <vector>\n#include <cstdint>\nnamespace altruct { namespace math { typedef std::vector<%s>::iterator It; template bool next_partition<It>(It, It); } }\n" % cxx
    V0, V1 = "old(v)@", "final(v)@"
    A, B = "sq(%s, begin as int, end as int)" % V0, "sq(%s, begin as int, end as int)" % V1
    N = "ss(%s, 0)" % A
    INV = ["begin < end", "a == sq(v0, begin as int, end as int)", "a.len() == end - begin", "part(a, n)", "n <= %s::MAX" % rust, "end - begin <= %s::MAX" % rust, "end <= v@.len()", "v@.len() == v0.len()", "forall|j: int| 0 <= j < v@.len() && !(begin <= j < end) ==> #[trigger] v@[j] == v0[j]"]
    c = Contract("next_partition", MM + "next_partition", params=["begin", "end"], modes={"begin": "ptr:v", "end": "ptr:v"},
        requires=["0 <= begin < end <= %s.len()" % V0, "%s.len() < 0x1000_0000_0000_0000" % V0, "part(%s, %s)" % (A, N), "%s <= %s::MAX" % (N, rust), "end - begin <= %s::MAX" % rust],
        ensures=["%s.len() == %s.len()" % (V1, V0), "forall|j: int| 0 <= j < %s.len() && !(begin <= j < end) ==> #[trigger] %s[j] == %s[j]" % (V1, V1, V0),
                 "r ==> is_next(%s, %s, %s)" % (A, B, N), "!r ==> is_last(%s, %s) && is_first(%s, %s)" % (A, N, B, N)],
        loops={0: dict(invariant=INV + ["begin <= it <= end", "$l == end - it", "$x == ss(a, it - begin)", "forall|j: int| begin <= j < it ==> #[trigger] v@[j] == v0[j]", "forall|j: int| it <= j < end ==> #[trigger] v@[j] == 0", "forall|k: int| it - begin <= k < a.len() ==> !#[trigger] fits(a, k)"], decreases="it - begin"),
               1: dict(invariant=INV + ["begin <= p <= it <= end", "fits(a, p - begin)", "$xm == a[p - begin] - 1", "$xm > 0", "$x >= 1", "$x + (it - p) * $xm == ss(a, p - begin)", "$x <= $xm * (end - it)", "forall|k: int| p - begin < k < a.len() ==> !#[trigger] fits(a, k)",
                    "forall|j: int| begin <= j < p ==> #[trigger] v@[j] == v0[j]", "forall|j: int| p <= j < it ==> #[trigger] v@[j] == $xm", "forall|j: int| it <= j < end ==> j == p || #[trigger] v@[j] == 0"], decreases="$x")},
        hints={"entry": "let ghost v0 = v@; let ghost a = sq(v@, begin as int, end as int); let ghost n = ss(a, 0); let ghost mut p: int = 0; let ghost mut q: int = 0;",
               "L0.begin": "proof { let k = it - 1 - begin; assert(ss(a, k) == a[k] + ss(a, k + 1)); lemma_ss_le(a, k); lemma_ss_nonneg(a, k); lemma_ss_nonneg(a, k + 1); assert(a[k] == v@[it - 1]); assert(v0[it - 1] == v@[it - 1]); }",
               "stmt:^I xm = .after": "proof { let k = it - begin; let (y, z) = (a[k] - 1, ss(a, k)); let d = end - it; if y > 0 { assert(z >= 1); lemma_ceil(z, y, d); assert(fits(a, k) == ((z - 1) / y <= d - 1)); } else { assert(!fits(a, k)); } }",
               "L1.before": "proof { p = it as int; assert(fits(a, p - begin)); assert(0 * $xm == 0); let (y, d) = ($xm as int, end - it); assert(y * d == d * y) by(nonlinear_arith); }",
               "L1.begin": "proof { let (x, y, d) = ($x as int, $xm as int, end - it); let t = it - p; assert(d >= 1 && y * d == y + y * (d - 1)) by(nonlinear_arith) requires x <= y * d, x >= 1, y > 0; assert((t + 1) * y == t * y + y) by(nonlinear_arith); }",
               "L1.after": "proof { let (x, y, d) = ($x as int, $xm as int, end - it); assert(d >= 1) by(nonlinear_arith) requires x <= y * d, x >= 1, y > 0; q = it as int; }",
               "stmt:^return true.before": "proof { let b = sq(v@, begin as int, end as int); assert(b[q - begin] == v@[q]); lemma_next(a, b, n, p - begin, q - begin); }",
               "stmt:^return false.before": "proof { let b = sq(v@, begin as int, end as int); lemma_ss_nonneg(a, 0); lemma_last(a, n); lemma_first(b, n); }"})
    return Unit("nextpart_" + rust, ["altruct/algorithm/math/combinatorics.h"], tu, [c], (PSPEC + r"""
pub proof fn lemma_ceil(z: int, y: int, d: int) requires z >= 1, y > 0, d >= 1, ensures ((z - 1) / y <= d - 1) == (z <= y * d), (z - 1) / y >= 0
{ let q = (z - 1) / y; let r = (z - 1) % y; assert(z - 1 == q * y + r && 0 <= r < y) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z - 1, y); assert(q * y == y * q) by(nonlinear_arith); }
  assert(q >= 0) by(nonlinear_arith) requires z - 1 == q * y + r, 0 <= r < y, z >= 1, y > 0;
  if q <= d - 1 { assert(z <= y * d) by(nonlinear_arith) requires z - 1 == q * y + r, 0 <= r < y, q <= d - 1, y > 0; } else { assert(z > y * d) by(nonlinear_arith) requires z - 1 == q * y + r, 0 <= r, q >= d, y > 0; } }
""").replace("TY", rust))


NSPEC = r"""
pub open spec fn fact(n: int) -> int decreases n { if n <= 0 { 1 } else { fact(n - 1) * n } }
#[verifier::opaque]
/// the o-th arrangement of e: the first element is the (o div (n-1)!)-th one, the others are arranged by the remainder
pub open spec fn nth<A>(e: Seq<A>, o: int) -> Seq<A> decreases e.len() { if e.len() == 0 { e } else { let f = fact(e.len() - 1); if 0 <= o / f < e.len() { seq![e[o / f]] + nth(e.remove(o / f), o % f) } else { e } } }
pub open spec fn asc(e: Seq<Oe>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> lt(#[trigger] e[i], #[trigger] e[j]) }
pub open spec fn plexat(a: Seq<Oe>, b: Seq<Oe>, k: int) -> bool { 0 <= k < a.len() && lt(a[k], b[k]) && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i] }
/// a is lexicographically smaller than b (same length)
pub open spec fn plex(a: Seq<Oe>, b: Seq<Oe>) -> bool { exists|k: int| #[trigger] plexat(a, b, k) }
pub open spec fn lastn<A>(v: Seq<A>, end: int, n: int) -> Seq<A> { v.subrange(end - n, end) }
pub proof fn lemma_fact(n: int) ensures fact(n) >= 1, n >= 1 ==> fact(n) == fact(n - 1) * n, fact(n) >= n, decreases n
{ if n > 0 { lemma_fact(n - 1); let f = fact(n - 1); assert(f * n >= n) by(nonlinear_arith) requires f >= 1, n > 0; } }
pub proof fn lemma_fact_mono(m: int, n: int) requires m <= n, ensures fact(m) <= fact(n), decreases n - m
{ lemma_fact(n); if m < n { lemma_fact_mono(m, n - 1); if n >= 1 { lemma_fact(n - 1); let f = fact(n - 1); assert(f * n >= f) by(nonlinear_arith) requires f >= 1, n >= 1; } } }
pub proof fn lemma_divmod(o: int, f: int, n: int) requires 0 <= o < f * n, f >= 1, ensures 0 <= o / f < n, 0 <= o % f < f, o == (o / f) * f + o % f
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, f); let q = o / f; assert(f * q == q * f) by(nonlinear_arith); assert(0 <= q < n) by(nonlinear_arith) requires o == q * f + o % f, 0 <= o % f < f, 0 <= o < f * n, f >= 1; }
/// leading digits that are zero leave the elements in place
pub proof fn lemma_skip<A>(e: Seq<A>, o: int, m: int) requires 0 <= m <= e.len(), 0 <= o < fact(m), ensures nth(e, o) =~= e.subrange(0, e.len() - m) + nth(e.subrange(e.len() - m, e.len() as int), o), decreases e.len() - m
{ reveal(nth);
    let n = e.len() as int;
    if m == n { assert(e.subrange(0, n) =~= e); assert(e.subrange(0, 0) =~= Seq::<A>::empty()); }
    else {
        let f = fact(n - 1); lemma_fact_mono(m, n - 1); assert(o / f == 0 && o % f == o) by { vstd::arithmetic::div_mod::lemma_basic_div(o, f); vstd::arithmetic::div_mod::lemma_small_mod(o as nat, f as nat); }
        let t = e.remove(0); lemma_skip(t, o, m);
        assert(t.subrange(0, n - 1 - m) =~= e.subrange(1, n - m)); assert(t.subrange(n - 1 - m, n - 1) =~= e.subrange(n - m, n));
        assert(seq![e[0]] + e.subrange(1, n - m) =~= e.subrange(0, n - m));
    }
}
/// an arrangement of the elements of e
pub proof fn lemma_nth_ms<A>(e: Seq<A>, o: int) requires 0 <= o < fact(e.len() as int), ensures nth(e, o).len() == e.len(), nth(e, o).to_multiset() =~= e.to_multiset(), decreases e.len()
{ reveal(nth);
    if e.len() > 0 {
        let f = fact(e.len() - 1); lemma_fact(e.len() as int); lemma_fact(e.len() - 1); lemma_divmod(o, f, e.len() as int); let k = o / f; let t = e.remove(k); lemma_nth_ms(t, o % f);
        broadcast use group_to_multiset_ensures;
        lemma_multiset_commutative(seq![e[k]], nth(t, o % f)); assert(e =~= t.insert(k, e[k]));
        assert(seq![e[k]].to_multiset() =~= Multiset::empty().insert(e[k])) by { assert(seq![e[k]] =~= Seq::<A>::empty().push(e[k])); }
    }
}
/// the index order is the lexicographic order
pub proof fn lemma_nth_less(e: Seq<Oe>, o: int, q: int) requires asc(e), 0 <= o < q < fact(e.len() as int), ensures plex(nth(e, o), nth(e, q)), decreases e.len()
{ reveal(nth);
    let n = e.len() as int; lemma_fact(n);
    if n == 0 { } else {
        let f = fact(n - 1); lemma_fact(n - 1); lemma_divmod(o, f, n); lemma_divmod(q, f, n); let (k, l) = (o / f, q / f); lemma_nth_ms(e, o); lemma_nth_ms(e, q);
        if k == l { let t = e.remove(k); assert(asc(t)); lemma_nth_less(t, o % f, q % f); let (a, b) = (nth(t, o % f), nth(t, q % f)); let w = choose|w: int| plexat(a, b, w);
            let (x, y) = (nth(e, o), nth(e, q)); assert(x[w + 1] == a[w] && y[w + 1] == b[w]); assert forall|i: int| 0 <= i < w + 1 implies #[trigger] x[i] == y[i] by { if i > 0 { assert(a[i - 1] == b[i - 1]); assert(x[i] == a[i - 1] && y[i] == b[i - 1]); } } lemma_nth_ms(t, o % f); assert(plexat(x, y, w + 1)); }
        else { assert(k < l) by(nonlinear_arith) requires k * f + o % f < l * f + q % f, 0 <= o % f < f, 0 <= q % f < f, k != l; assert(plexat(nth(e, o), nth(e, q), 0)); }
    }
}
/// every arrangement has an index
pub proof fn lemma_nth_all<A>(e: Seq<A>, p: Seq<A>) -> (o: int) requires p.to_multiset() == e.to_multiset(), ensures 0 <= o < fact(e.len() as int), nth(e, o) == p, decreases e.len()
{ reveal(nth);
    broadcast use group_to_multiset_ensures;
    let n = e.len() as int; assert(p.len() == n) by { assert(p.to_multiset().len() == p.len()); }
    lemma_fact(n); lemma_fact(n - 1);
    if n == 0 { assert(p =~= e); 0 }
    else {
        assert(p.contains(p[0])); assert(p.to_multiset().contains(p[0])); assert(e.contains(p[0])); let k = choose|k: int| 0 <= k < n && e[k] == p[0]; let (t, u) = (e.remove(k), p.subrange(1, n));
        assert(e =~= t.insert(k, e[k])); assert(p =~= u.insert(0, p[0])); assert(t.to_multiset().insert(p[0]) =~= u.to_multiset().insert(p[0]));
        assert(t.to_multiset() =~= u.to_multiset()) by { assert forall|x: A| t.to_multiset().count(x) == u.to_multiset().count(x) by { assert(t.to_multiset().insert(p[0]).count(x) == u.to_multiset().insert(p[0]).count(x)); } }
        let w = lemma_nth_all(t, u); let f = fact(n - 1); let o = k * f + w;
        assert(0 <= o < f * n) by(nonlinear_arith) requires o == k * f + w, 0 <= w < f, 0 <= k < n;
        assert(o / f == k && o % f == w) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o, f, k, w); }
        assert(nth(e, o) =~= p); o
    }
}
#[verifier::opaque]
pub open spec fn ok_at<A>(v: Seq<A>, b: int, e: int, n: int, o: int, target: Seq<A>) -> bool { v.subrange(b, e - n) + nth(lastn(v, e, n), o) == target }
/// the first factorial that is not exceeded: the elements before stay in place
pub proof fn lemma_start<A>(v: Seq<A>, b: int, e: int, i: int, o: int) requires 0 <= b <= e <= v.len(), 0 <= i <= e - b, o >= 0, i < e - b ==> o < fact(i), ensures ok_at(v, b, e, i, o % fact(i), nth(v.subrange(b, e), o % fact(e - b)))
{ reveal(ok_at);
    let d = e - b; let s = v.subrange(b, e); lemma_fact(d); lemma_fact(i); let f = fact(i);
    if i < d { lemma_fact_mono(i, d); vstd::arithmetic::div_mod::lemma_small_mod(o as nat, f as nat); vstd::arithmetic::div_mod::lemma_small_mod(o as nat, fact(d) as nat); lemma_skip(s, o, i); assert(s.subrange(0, d - i) =~= v.subrange(b, e - i)); assert(s.subrange(d - i, d) =~= lastn(v, e, i)); }
    else { assert(s =~= lastn(v, e, i)); let t = nth(s, o % f); assert(v.subrange(b, b) + t =~= t); }
}
pub proof fn lemma_step<A>(v: Seq<A>, b: int, e: int, j: int, i: int, o: int, target: Seq<A>) requires 0 <= b <= e <= v.len(), 0 <= i <= j <= e - b, 0 <= o < fact(i), ok_at(v, b, e, j, o, target), ensures ok_at(v, b, e, i, o, target)
{ reveal(ok_at);
    let s = lastn(v, e, j); lemma_skip(s, o, i); assert(s.subrange(0, j - i) =~= v.subrange(e - j, e - i)); assert(s.subrange(j - i, j) =~= lastn(v, e, i));
    let z = nth(lastn(v, e, i), o); assert(v.subrange(b, e - j) + (v.subrange(e - j, e - i) + z) =~= v.subrange(b, e - i) + z);
}
/// the chosen element is moved to the front of the others
pub proof fn lemma_pick<A>(w: Seq<A>, v: Seq<A>, b: int, e: int, i: int, o: int, target: Seq<A>) requires 0 <= b <= e <= w.len(), w.len() == v.len(), 0 <= i < e - b, 0 <= o < fact(i + 1), ok_at(w, b, e, i + 1, o, target),
    forall|t: int| 0 <= t < e - i - 1 ==> #[trigger] v[t] == w[t], v[e - i - 1] == w[e - i - 1 + o / fact(i)], forall|t: int| e - i - 1 < t <= e - i - 1 + o / fact(i) ==> #[trigger] v[t] == w[t - 1], forall|t: int| e - i - 1 + o / fact(i) < t < v.len() ==> #[trigger] v[t] == w[t],
    ensures ok_at(v, b, e, i, o % fact(i), target)
{ reveal(nth); reveal(ok_at);
    lemma_fact(i); lemma_fact(i + 1); lemma_divmod(o, fact(i), i + 1); let k = o / fact(i);
    let s = lastn(w, e, i + 1); let z = nth(s.remove(k), o % fact(i)); assert(s.remove(k) =~= lastn(v, e, i)); assert(s[k] == w[e - i - 1 + k]);
    assert(v.subrange(b, e - i) =~= w.subrange(b, e - i - 1) + seq![s[k]]); assert(w.subrange(b, e - i - 1) + (seq![s[k]] + z) =~= v.subrange(b, e - i) + z);
}
pub proof fn lemma_done<A>(v: Seq<A>, b: int, e: int, i: int, o: int, target: Seq<A>) requires 0 <= b <= e <= v.len(), 0 <= i <= 1, i <= e - b, ok_at(v, b, e, i, o % fact(i), target), ensures v.subrange(b, e) == target
{ reveal(ok_at);
    reveal_with_fuel(fact, 3); reveal_with_fuel(nth, 3); let l = lastn(v, e, i); lemma_fact(i); assert(fact(i) == 1); assert(o % 1 == 0);
    if i == 1 { assert(0int / 1 == 0); assert(l.remove(0) =~= Seq::<A>::empty()); assert(nth(l, 0) =~= seq![l[0]] + l.remove(0)); } assert(nth(l, 0) =~= l); assert(v.subrange(b, e - i) + l =~= v.subrange(b, e));
}
pub proof fn lemma_quot(i: int) requires i >= 1, ensures fact(i) / i == fact(i - 1), fact(i) >= 1, fact(i - 1) >= 1
{ lemma_fact(i); lemma_fact(i - 1); let x = fact(i - 1); assert((x * i) / i == x) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(x, i); assert(x * i == i * x) by(nonlinear_arith); } }
"""


def nthunit(cxx, rust):
    import ordel
    tu = "#include <vector>\n#include <cstdint>\nnamespace altruct { namespace math { typedef std::vector<Oe>::iterator It; template void nth_permutation<It, %s>(It, It, %s); } }\n" % (cxx, cxx)
    D = "(end - begin)"
    INV = ["d0 == end - begin", "0 <= begin <= end <= v@.len()", "d0 <= i32::MAX", "v@.len() == v0.len()", "v@.len() < 0x1000_0000_0000_0000", "target == nth(v0.subrange(begin as int, end as int), o0 % fact(d0))", "o >= 0", "forall|j: int| 0 <= j < v@.len() && !(begin <= j < end) ==> #[trigger] v@[j] == v0[j]"]
    P = lambda v, n, o: "ok_at(%s, begin as int, end as int, %s, %s, target)" % (v, n, o)
    c = Contract("nth_permutation", MM + "nth_permutation", rlimit=60, params=["begin", "end", "o"], modes={"begin": "ptr:v", "end": "ptr:v"},
        requires=["0 <= begin <= end <= old(v)@.len()", "old(v)@.len() < 0x1000_0000_0000_0000", "end - begin <= i32::MAX", "o >= 0", "forall|j: int| 0 <= j < end - begin && #[trigger] fact(j) <= o ==> fact(j + 1) <= %s::MAX" % rust],
        ensures=["final(v)@.len() == old(v)@.len()", "forall|j: int| 0 <= j < final(v)@.len() && !(begin <= j < end) ==> #[trigger] final(v)@[j] == old(v)@[j]",
                 "final(v)@.subrange(begin as int, end as int) == nth(old(v)@.subrange(begin as int, end as int), o as int % fact(end - begin))"],
        loops={0: dict(invariant=["d0 == end - begin", "$d == d0", "v@ == v0", "o == o0", "0 <= begin <= end <= v@.len()", "d0 <= i32::MAX", "0 <= $i <= d0", "$f == fact($i as int)", "o >= 0", "forall|j: int| 0 <= j < d0 && #[trigger] fact(j) <= o ==> fact(j + 1) <= %s::MAX" % rust], decreases="d0 - $i"),
               1: dict(invariant=INV + ["0 <= $i <= d0", "$f == fact($i as int)", P("v@", "$i as int", "o as int % fact($i as int)")], decreases="$i"),
               2: dict(invariant=INV + ["1 <= $i <= i0 <= d0", "$f == fact($i as int)", "1 <= jj <= d0", "o < fact(jj)", "i0 > 1", "(jj == $i && $i == i0) || (jj == $i + 1 && $i < i0)", P("v@", "jj", "o as int")], decreases="$i"),
               3: dict(invariant=INV + ["0 <= $k <= kk <= $i", "1 <= $i < d0", "$it == end - $i - 1", "w0.len() == v@.len()", "forall|t: int| 0 <= t < $it + $k ==> #[trigger] v@[t] == w0[t]", "v@[$it + $k] == w0[$it + kk]", "forall|t: int| $it + $k < t <= $it + kk ==> #[trigger] v@[t] == w0[t - 1]", "forall|t: int| $it + kk < t < v@.len() ==> #[trigger] v@[t] == w0[t]"], decreases="$k")},
        hints={"entry": "let ghost v0 = v@; let ghost o0 = o as int; let ghost d0 = end - begin; let ghost target = nth(v@.subrange(begin as int, end as int), o as int % fact(end - begin)); let ghost mut jj: int = 0; let ghost mut i0: int = 0; let ghost mut kk: int = 0; let ghost mut w0 = v@;",
               "L0.before": "proof { reveal_with_fuel(fact, 2); }",
               "L0.begin": "proof { lemma_fact($i + 1); lemma_fact($i as int); assert(fact($i as int) <= o ==> fact($i + 1) <= %s::MAX); }" % rust,
               "L1.before": "proof { lemma_fact($i as int); lemma_start(v@, begin as int, end as int, $i as int, o as int); }",
               "L1.begin": "proof { lemma_fact($i as int); let (x, f) = (o as int, fact($i as int)); assert(0 <= x % f < f) by { vstd::arithmetic::div_mod::lemma_mod_bound(x, f); } i0 = $i as int; jj = $i as int; }",
               "L2.begin": "proof { lemma_quot($i as int); if jj > $i { lemma_step(v@, begin as int, end as int, jj, $i as int, o as int, target); jj = $i as int; } }",
               "L2.after": "proof { lemma_fact($i as int); assert(jj == $i + 1); lemma_fact(jj); lemma_divmod(o as int, $f as int, jj); kk = o as int / $f as int; w0 = v@; }",
               "L3.after": "proof { lemma_pick(w0, v@, begin as int, end as int, $i as int, o as int, target); }",
               "L1.after": "proof { lemma_done(v@, begin as int, end as int, $i as int, o as int, target); }"})
    u = Unit("nthperm_" + rust, ["altruct/algorithm/math/combinatorics.h"], tu, [c], NSPEC)
    ordel.setup(u)
    return u


PENT = r"""
#[verifier::opaque]
/// pentagonal numbers t(3t-1)/2; those of the second kind are t more
pub open spec fn pa(t: int) -> int decreases t { if t <= 1 { 1 } else { pa(t - 1) + 3 * t - 2 } }
pub open spec fn pb(t: int) -> int { pa(t) + t }
pub open spec fn sg(t: int, x: Re) -> Re { if t % 2 == 1 { rneg(x) } else { x } }
pub proof fn lemma_pa(t: int) requires t >= 1, ensures 2 * pa(t) == t * (3 * t - 1), pa(t) >= 6 * t - 7, pa(t) >= t, pa(t + 1) == pa(t) + 3 * t + 1, pa(1) == 1, decreases t
{ reveal_with_fuel(pa, 3); if t > 1 { lemma_pa(t - 1); let u = t - 1; assert(t * (3 * t - 1) == u * (3 * u - 1) + 6 * t - 4) by(nonlinear_arith) requires u == t - 1; } else { assert(t * (3 * t - 1) == 2) by(nonlinear_arith) requires t == 1; } }
pub proof fn lemma_pa_mono(s: int, t: int) requires 1 <= s < t, ensures pb(s) < pa(t), decreases t - s { if s + 1 < t { lemma_pa_mono(s, t - 1); lemma_pa(t - 1); } else { lemma_pa(s); } }
/// no entry of the first (second) kind is met twice
pub proof fn lemma_pa_diff(t: int) requires t >= 1, ensures forall|s: int| 1 <= s && s != t ==> #[trigger] pa(s) != pa(t), forall|s: int| 1 <= s && s != t ==> #[trigger] pb(s) != pb(t), forall|s: int| 1 <= s ==> #[trigger] pa(s) != pb(t), pb(t) >= 2, pa(t) >= 1
{ lemma_pa(t); assert forall|s: int| 1 <= s implies (s != t ==> #[trigger] pa(s) != pa(t)) && (s != t ==> pb(s) != pb(t)) && pa(s) != pb(t) by { lemma_pa(s); if s < t { lemma_pa_mono(s, t); } if t < s { lemma_pa_mono(t, s); } } }
/// the first n coefficients of the product of all (1 - x^k), by the pentagonal number theorem
pub open spec fn iseuler(e: Seq<Re>, n: int) -> bool { e.len() == n && e[0] == r1() && (forall|t: int| 1 <= t && #[trigger] pa(t) < n ==> e[pa(t)] == sg(t, r1())) && (forall|t: int| 1 <= t && #[trigger] pb(t) < n ==> e[pb(t)] == sg(t, r1()))
    && forall|j: int| 1 <= j < n && !isa(j) && !isb(j) ==> #[trigger] e[j] == r0() }
pub open spec fn isa(j: int) -> bool { exists|t: int| 1 <= t && #[trigger] pa(t) == j }
pub open spec fn isb(j: int) -> bool { exists|t: int| 1 <= t && #[trigger] pb(t) == j }
pub open spec fn maxi(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn off(t: int, b: bool, c: int) -> int { let g = if b { pb(t) } else { pa(t) }; if c == 1 { g } else { g + g } }
pub open spec fn term(t: int, c: int, x: Re) -> Re { if (t % 2 == 1) == (c == 1) { x } else { rneg(x) } }
#[verifier::opaque]
/// acc plus the terms from t on, with the signs of the series (c = 2: the Euler function of x^2, c = 1: minus that of x without its constant)
pub open spec fn gs(p: Seq<Re>, i: int, t: int, b: bool, c: int, acc: Re) -> Re decreases i - t + 1 { if off(t, b, c) > i || t > i { acc } else { gs(p, i, t + 1, b, c, radd(acc, term(t, c, p[i - off(t, b, c)]))) } }
#[verifier::opaque]
pub open spec fn prow(p: Seq<Re>, i: int) -> Re { gs(p, i, 1, true, 1, gs(p, i, 1, false, 1, r0())) }
/// p(i) = sum of (-1)^(t+1) (p(i - t(3t-1)/2) + p(i - t(3t+1)/2))
pub open spec fn isparts(p: Seq<Re>, n: int) -> bool { p.len() == n && p[0] == r1() && forall|i: int| 1 <= i < n ==> #[trigger] p[i] == prow(p, i) }
#[verifier::opaque]
pub open spec fn drow(p: Seq<Re>, i: int) -> Re { gs(p, i, 1, true, 2, gs(p, i, 1, false, 2, p[i])) }
pub open spec fn agree(p: Seq<Re>, q: Seq<Re>, i: int) -> bool { forall|j: int| 0 <= j < i ==> #[trigger] p[j] == q[j] }
pub proof fn lemma_gs(p: Seq<Re>, q: Seq<Re>, i: int, t: int, b: bool, c: int, acc: Re) requires agree(p, q, i), t >= 1, ensures gs(p, i, t, b, c, acc) == gs(q, i, t, b, c, acc), decreases i - t + 1
{ reveal(gs); if off(t, b, c) > i || t > i { } else { lemma_pa(t); let j = i - off(t, b, c); assert(p[j] == q[j]); lemma_gs(p, q, i, t + 1, b, c, radd(acc, term(t, c, p[j]))); } }
pub proof fn lemma_rows(p: Seq<Re>, q: Seq<Re>, i: int) requires agree(p, q, i), ensures prow(p, i) == prow(q, i), p[i] == q[i] ==> drow(p, i) == drow(q, i)
{ reveal(prow); reveal(drow); let x = gs(p, i, 1, false, 1, r0()); lemma_gs(p, q, i, 1, false, 1, r0()); lemma_gs(p, q, i, 1, true, 1, x); let y = gs(p, i, 1, false, 2, p[i]); lemma_gs(p, q, i, 1, false, 2, p[i]); lemma_gs(p, q, i, 1, true, 2, y); }
pub proof fn lemma_gs_step(p: Seq<Re>, i: int, t: int, b: bool, c: int, acc: Re) requires t >= 1, ensures off(t, b, c) > i ==> gs(p, i, t, b, c, acc) == acc, off(t, b, c) <= i ==> gs(p, i, t, b, c, acc) == gs(p, i, t + 1, b, c, radd(acc, term(t, c, p[i - off(t, b, c)]))) { reveal(gs); lemma_pa(t); }
#[verifier::opaque]
pub open spec fn rows(p: Seq<Re>, i: int) -> bool { forall|j: int| 1 <= j < i ==> #[trigger] p[j] == prow(p, j) }
pub proof fn lemma_extend(w: Seq<Re>, p: Seq<Re>, i: int) requires 1 <= i < w.len(), p.len() == w.len(), rows(w, i), forall|j: int| 0 <= j < w.len() && j != i ==> #[trigger] p[j] == w[j], p[i] == prow(w, i), ensures rows(p, i + 1)
{ reveal(rows); assert forall|j: int| 1 <= j < i + 1 implies #[trigger] p[j] == prow(p, j) by { assert(agree(w, p, j)); lemma_rows(w, p, j); if j < i { assert(w[j] == prow(w, j)); } } }
"""


def pentunit():
    tu = "namespace altruct { namespace math { template std::vector<Re> euler_function<Re>(int, Re); template std::vector<Re> partitions_p_slow<Re>(int, Re); template std::vector<Re> partitions_p_distinct_slow<Re>(int, Re); } }\n"
    NB = ["1 <= n <= 0x4000_0000"]
    C = NB + ["id == r1()"]
    cs = []
    seen = lambda g, t: "forall|s: int| 1 <= s && (%s) && #[trigger] %s(s) < n ==> $e@[%s(s)] == sg(s, r1())" % (t, g, g)
    E = C + ["$e@.len() == n", "$e0 == r0()", "$e@[0] == r1()", "t >= 1"]
    cs.append(Contract("euler_function", MM + "euler_function", params=["n", "id"], requires=C, ensures=["iseuler(r@, n as int)"],
        loops={0: dict(invariant=E + ["$k == 3 * t + 1", "$m == pa(t)", seen("pa", "s < t"), "forall|j: int| 1 <= j < n && !isa(j) ==> #[trigger] $e@[j] == r0()"], decreases="maxi(n - $m, 0)"),
               1: dict(invariant=E + ["$k == 3 * t + 2", "$m == pb(t)", seen("pa", "true"), seen("pb", "s < t"), "forall|j: int| 1 <= j < n && !isa(j) && !isb(j) ==> #[trigger] $e@[j] == r0()"], decreases="maxi(n - $m, 0)")},
        hints={"entry": "let ghost mut t: int = 1; proof { lemma_pa(1); }", "L0.begin": "proof { lemma_pa(t); lemma_pa_diff(t); }", "L0.end": "proof { t = t + 1; }", "L1.begin": "proof { lemma_pa(t); lemma_pa_diff(t); }", "L1.end": "proof { t = t + 1; }",
               "L0.after": "proof { assert forall|s: int| 1 <= s implies s < t || #[trigger] pa(s) >= n by { if s > t { lemma_pa_mono(t, s); lemma_pa(t); } } t = 1; }",
               "L1.after": "proof { assert forall|s: int| 1 <= s implies s < t || #[trigger] pb(s) >= n by { if s > t { lemma_pa_mono(t, s); lemma_pa(s); } } }"}))
    P = C + ["$p@.len() == n", "$p@[0] == r1()"]
    ROWS = "rows($p@, $i as int)"
    inner = lambda b, sc, v, tgt: ["1 <= $i < n", "t >= 1", "w.len() == n", "%s@.len() == n" % v, "forall|j: int| 0 <= j < n && j != $i ==> #[trigger] %s@[j] == w[j]" % v, "gs(w, $i as int, t, %s, %d, %s@[$i as int]) == %s" % (b, sc, v, tgt)]
    end = "proof { if t > $i { lemma_pa(t); } }"
    beg = lambda v, b, c: "proof { lemma_pa(t); assert(w[$i - $m] == %s@[$i - $m]); lemma_gs_step(w, $i as int, t, %s, %d, %s@[$i as int]); }" % (v, b, c, v)
    fin = lambda v, b, c: "lemma_pa(t); lemma_gs_step(w, $i as int, t, %s, %d, %s@[$i as int]);" % (b, c, v)
    cs.append(Contract("partitions_p_slow", MM + "partitions_p_slow", params=["n", "id"], requires=C, ensures=["isparts(r@, n as int)"],
        loops={0: dict(invariant=P + ["1 <= $i <= n", "forall|j: int| $i <= j < n ==> #[trigger] $p@[j] == r0()", ROWS], decreases="n - $i"),
               1: dict(invariant=NB + inner("false", 1, "$p", "x") + ["$k == 3 * t + 1", "$m == pa(t)"], decreases="maxi($i + 1 - $m, 0)"),
               2: dict(invariant=NB + inner("true", 1, "$p", "y") + ["$k == 3 * t + 2", "$m == pb(t)"], decreases="maxi($i + 1 - $m, 0)")},
        hints={"entry": "let ghost mut t: int = 1; let ghost mut w: Seq<Re> = Seq::empty(); let ghost mut x = r0(); let ghost mut y = r0();",
               "L0.begin": "proof { reveal(prow); reveal(drow); w = $p@; x = gs(w, $i as int, 1, false, 1, r0()); y = gs(w, $i as int, 1, true, 1, x); t = 1; lemma_pa(1); }",
               "L1.begin": beg("$p", "false", 1), "L1.end": "proof { t = t + 1; }", "L1.after": "proof { " + fin("$p", "false", 1) + " t = 1; }",
               "L2.begin": beg("$p", "true", 1), "L2.end": "proof { t = t + 1; }",
               "L2.after": "proof { " + fin("$p", "true", 1) + " lemma_extend(w, $p@, $i as int); }",
               "L0.before": "proof { reveal(rows); }", "L0.after": "proof { reveal(rows); }"}))
    cs.append(Contract("partitions_p_distinct_slow", MM + "partitions_p_distinct_slow", params=["n", "id"], requires=C, ensures=["exists|p: Seq<Re>| #[trigger] isparts(p, n as int) && r@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == drow(p, i)"],
        loops={0: dict(invariant=NB + ["-1 <= $i < n", "p0.len() == n", "$q@.len() == n", "isparts(p0, n as int)", "forall|j: int| 0 <= j <= $i ==> #[trigger] $q@[j] == p0[j]", "forall|j: int| $i < j < n ==> #[trigger] $q@[j] == drow(p0, j)"], decreases="$i + 1"),
               1: dict(invariant=NB + [z.replace("1 <= $i", "0 <= $i") for z in inner("false", 2, "$q", "x")] + ["$k == 6 * t + 2", "$m == 2 * pa(t)"], decreases="maxi($i + 1 - $m, 0)"),
               2: dict(invariant=NB + [z.replace("1 <= $i", "0 <= $i") for z in inner("true", 2, "$q", "y")] + ["$k == 6 * t + 4", "$m == 2 * pb(t)"], decreases="maxi($i + 1 - $m, 0)")},
        hints={"entry": "let ghost mut t: int = 1; let ghost mut w: Seq<Re> = Seq::empty(); let ghost mut p0: Seq<Re> = Seq::empty(); let ghost mut x = r0(); let ghost mut y = r0();",
               "L0.before": "proof { p0 = $q@; }",
               "L0.begin": "proof { reveal(prow); reveal(drow); w = $q@; x = gs(w, $i as int, 1, false, 2, w[$i as int]); y = gs(w, $i as int, 1, true, 2, x); t = 1; lemma_pa(1); assert(agree(w, p0, $i as int)); lemma_rows(w, p0, $i as int); }",
               "L1.begin": beg("$q", "false", 2), "L1.end": "proof { t = t + 1; }", "L1.after": "proof { " + fin("$q", "false", 2) + " t = 1; }",
               "L2.begin": beg("$q", "true", 2), "L2.end": "proof { t = t + 1; }", "L2.after": "proof { " + fin("$q", "true", 2) + " }"}))
    u = Unit("parts", ["altruct/algorithm/math/counting.h"], tu, cs, PENT)
    ring.setup(u)
    return u


def units():
    r = [partunit("int64_t", "i64"), partunit("uint64_t", "u64"), partunit("int", "i32"), nthunit("int64_t", "i64"), nthunit("uint64_t", "u64"), nthunit("int", "i32")]
    tu = "namespace altruct { namespace math { template Re factorial<Re>(int, Re); template std::vector<std::vector<Re>> stirling_s1_all<Re>(int, int, Re); template std::vector<std::vector<Re>> stirling_s2_all<Re>(int, int, Re); } }\n"
    cs = [Contract("factorial_re", MM + "factorial", params=["n", "id"], requires=["id == r1()", "n < 0x7fff_ffff"], ensures=["r == rfact(maxi(n as int, 0) as nat)"],
            loops={0: dict(invariant=["2 <= i", "i <= maxi(n as int, 1) + 1", "n < 0x7fff_ffff", "$f == rfact(maxi(mini(i - 1, n as int), 0) as nat)"], decreases="n + 1 - i")},
            hints={"L0.before": "proof { lemma_int(); reveal_with_fuel(rfact, 3); ax_mul(r1(), r1(), r1()); }"})]
    for s, op in (("st1", "s1"), ("st2", "s2")):
        row = lambda i: "(#[trigger] s1@[%s])@" % i
        full = lambda v, i: "%s@[%s]@.len() == mini(%s + 1, k as int) && forall|j: int| 0 <= j < %s@[%s]@.len() ==> #[trigger] %s@[%s]@[j] == %s(%s, j)" % (v, i, i, v, i, v, i, s, i)
        ok = "pub open spec fn okrow_%s(r: Seq<Re>, i: int, k: int) -> bool { r.len() == mini(i + 1, k) && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == %s(i, j) }\n" % (s, s)
        cs.append(Contract("stirling_%s_all" % op, MM + "stirling_%s_all" % op, params=["n", "k", "id"], requires=["id == r1()", "0 <= n", "0 <= k"],
            ensures=["r@.len() == n", "forall|i: int| 0 <= i < n ==> okrow_%s((#[trigger] r@[i])@, i, k as int)" % s],
            loops={0: dict(invariant=["0 <= $i <= n", "0 <= k", "id == r1()", "$e0 == r0()", "$s1@.len() == n", "forall|t: int| 0 <= t < $i ==> okrow_%s((#[trigger] $s1@[t])@, t, k as int)" % s, "forall|t: int| $i <= t < n ==> (#[trigger] $s1@[t])@.len() == 0"], decreases="n - $i"),
                   1: dict(invariant=["0 <= $i < n", "0 <= k", "1 <= $j", "id == r1()", "$s1@.len() == n", "$s1@[$i as int]@.len() == mini($i + 1, k as int)", "$j <= maxi(mini($i as int, k as int), 1)", "$i > 0 ==> okrow_%s($s1@[$i - 1]@, $i - 1, k as int)" % s, "forall|t: int| 0 <= t < $i ==> okrow_%s((#[trigger] $s1@[t])@, t, k as int)" % s, "forall|t: int| $i < t < n ==> (#[trigger] $s1@[t])@.len() == 0",
                        "forall|t: int| 0 < t < $j && t < $s1@[$i as int]@.len() && t < $i ==> #[trigger] $s1@[$i as int]@[t] == %s($i as int, t)" % s, "$i > 0 && k > 0 ==> $s1@[$i as int]@[0] == r0()"], decreases="mini($i as int, k as int) - $j")},
            hints={"L0.begin": "proof { lemma_diag($i as int); if $i > 0 { lemma_col0($i as int); } }"}))
        TS = ok
        globals().setdefault("_OK", {})[s] = ok
    u = Unit("counting", ["altruct/algorithm/math/counting.h"], tu, cs, TSPEC + "".join(_OK.values()))
    ring.setup(u)
    u.tu = u.tu.replace("Re operator+(const Re& o) const;", "Re(); Re(int); Re operator*(int) const; Re& operator*=(int); Re& operator/=(int); Re operator+(const Re& o) const;", 1)
    u.hooks.insert(0, Hook())
    r.append(u)
    r.append(pentunit())
    return r
