"""convolutions.h over an abstract commutative ring"""
from unit import Unit, Contract
import ring
MM = "altruct::math::"
KSPEC = r"""
pub open spec fn kop(o: int, i: int, j: int, n: int) -> int {
    if o == 0 { ((i as i32) & (j as i32)) as int } else if o == 1 { ((i as i32) | (j as i32)) as int } else if o == 2 { ((i as i32) ^ (j as i32)) as int } else if o == 3 { if i < j { j } else { i } } else { (i + j) % n } }
/// sum of f[x] g[y] over the pairs with kop(x, y) == k in rows before i and, in row i, before column j
pub open spec fn ks(o: int, f: Seq<Re>, g: Seq<Re>, n: int, k: int, i: int, j: int) -> Re decreases i, j {
    if j > 0 { let p = ks(o, f, g, n, k, i, j - 1); if kop(o, i, j - 1, n) == k { radd(p, rmul(f[i], g[j - 1])) } else { p } } else if i > 0 { ks(o, f, g, n, k, i - 1, if n > 0 { n } else { 0 }) } else { r0() } }
pub proof fn lemma_kop(o: int, i: i32, j: i32, n: i32, l: i32) requires 0 <= i < n, 0 <= j < n, 0 <= l <= 30, o <= 2 ==> n == pw(l), ensures 0 <= kop(o, i as int, j as int, n as int) < n
{
    if o <= 2 { let m = l as u32;
        assert((i & j) >= 0 && (i & j) < n) by(bit_vector) requires 0 <= i, i < n, 0 <= j, j < n, m <= 30, n == 1i32 << m;
        assert((i | j) >= 0 && (i | j) < n) by(bit_vector) requires 0 <= i, i < n, 0 <= j, j < n, m <= 30, n == 1i32 << m;
        assert((i ^ j) >= 0 && (i ^ j) < n) by(bit_vector) requires 0 <= i, i < n, 0 <= j, j < n, m <= 30, n == 1i32 << m;
    }
}
pub open spec fn pw(l: i32) -> i32 { 1i32 << (l as u32) }
pub proof fn lemma_pow(l: i32) requires 0 <= l <= 30, ensures 1 <= pw(l) <= 0x4000_0000, pw(l) as u32 == 1u32 << (l as u32), 1 <= 1u32 << (l as u32) <= 0x4000_0000, pw(l) as int == pow2(l as nat)
{ let m = l as u32; assert(1 <= (1i32 << m) && (1i32 << m) <= 0x4000_0000) by(bit_vector) requires m <= 30; assert(1 <= (1u32 << m) && (1u32 << m) <= 0x4000_0000) by(bit_vector) requires m <= 30; assert((1i32 << m) as u32 == 1u32 << m) by(bit_vector) requires m <= 30;
  vstd::arithmetic::power2::lemma2_to64(); if l < 30 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(l as nat, 30); } vstd::bits::lemma_u32_shl_is_mul(1u32, m); }
/// prefix sums
pub open spec fn psum(f: Seq<Re>, k: int) -> Re decreases k { if k <= 0 { r0() } else { radd(psum(f, k - 1), f[k - 1]) } }
pub open spec fn mx(f: Seq<Re>, g: Seq<Re>, k: int) -> Re { radd(radd(rmul(f[k], g[k]), rmul(psum(f, k), g[k])), rmul(psum(g, k), f[k])) }
/// max-convolution: the closed form is the sum that defines it
pub proof fn lemma_row(f: Seq<Re>, g: Seq<Re>, n: int, k: int, i: int, j: int) requires 0 <= i < n, 0 <= j <= n, 0 <= k < n,
    ensures ({ let a = ks(3, f, g, n, k, i, 0); ks(3, f, g, n, k, i, j) == (if i < k { if j > k { radd(a, rmul(f[i], g[k])) } else { a } } else if i == k { radd(a, rmul(f[k], psum(g, if j > k { k + 1 } else { j }))) } else { a }) }) decreases j
{
    let a = ks(3, f, g, n, k, i, 0);
    if j > 0 { lemma_row(f, g, n, k, i, j - 1); if i == k && j - 1 <= k { let p = psum(g, j - 1); ax_dist(f[k], p, g[j - 1]); ax_add(a, rmul(f[k], p), rmul(f[k], g[j - 1])); } }
    else { lemma_rmul0(f[k]); ax_add(a, a, a); }
}
pub proof fn lemma_mxrows(f: Seq<Re>, g: Seq<Re>, n: int, k: int, i: int) requires 0 <= i <= n, 0 <= k < n,
    ensures ks(3, f, g, n, k, i, 0) == (if i <= k { rmul(psum(f, i), g[k]) } else { radd(rmul(psum(f, k), g[k]), rmul(f[k], psum(g, k + 1))) }) decreases i
{
    if i > 0 { lemma_mxrows(f, g, n, k, i - 1); lemma_row(f, g, n, k, i - 1, n);
        if i - 1 < k { ax_mul(g[k], psum(f, i - 1), g[k]); ax_mul(g[k], f[i - 1], g[k]); ax_mul(psum(f, i - 1), g[k], g[k]); ax_mul(f[i - 1], g[k], g[k]); ax_mul(psum(f, i), g[k], g[k]); ax_dist(g[k], psum(f, i - 1), f[i - 1]); } }
    else { lemma_rmul0(g[k]); }
}
pub proof fn lemma_max(f: Seq<Re>, g: Seq<Re>, n: int, k: int) requires 0 <= k < n, ensures mx(f, g, k) == ks(3, f, g, n, k, n, 0)
{ lemma_mxrows(f, g, n, k, n); let a = rmul(psum(f, k), g[k]); let b = rmul(f[k], psum(g, k)); let c = rmul(f[k], g[k]); ax_dist(f[k], psum(g, k), g[k]); ax_mul(f[k], psum(g, k), c); ax_add(c, a, b); ax_add(a, b, c); ax_add(a, b, b); ax_add(radd(a, b), c, c); }
/// sums over the subsets of w: those that differ from it in the lowest i bits only ...
pub open spec fn ss(f: Seq<Re>, w: u32, i: int) -> Re decreases i { if i <= 0 { f[w as int] } else { let b = 1u32 << ((i - 1) as u32); if w & b != 0 { radd(ss(f, w, i - 1), ss(f, w ^ b, i - 1)) } else { ss(f, w, i - 1) } } }
/// ... and those from lo to below hi
pub open spec fn drange(f: Seq<Re>, w: u32, lo: int, hi: int) -> Re decreases hi - lo { if hi <= lo { r0() } else { let p = drange(f, w, lo, hi - 1); if ((hi - 1) as u32) & w == (hi - 1) as u32 { radd(p, f[hi - 1]) } else { p } } }
pub proof fn lemma_dsplit(f: Seq<Re>, w: u32, lo: int, mid: int, hi: int) requires lo <= mid <= hi, ensures drange(f, w, lo, hi) == radd(drange(f, w, lo, mid), drange(f, w, mid, hi)) decreases hi - mid
{ let a = drange(f, w, lo, mid); if hi > mid { lemma_dsplit(f, w, lo, mid, hi - 1); ax_add(a, drange(f, w, mid, hi - 1), f[hi - 1]); } else { ax_add(a, a, a); } }
pub proof fn lemma_dnone(f: Seq<Re>, w: u32, lo: int, hi: int) requires 0 <= lo, hi <= 0x8000_0000, forall|v: u32| lo <= v < hi ==> #[trigger] (v & w) != v, ensures drange(f, w, lo, hi) == r0() decreases hi - lo
{ if hi > lo { lemma_dnone(f, w, lo, hi - 1); let v = (hi - 1) as u32; assert((v & w) != v); } }
pub proof fn lemma_dcong(f: Seq<Re>, w: u32, x: u32, lo: int, hi: int) requires 0 <= lo, hi <= 0x8000_0000, forall|v: u32| lo <= v < hi ==> (#[trigger] (v & w) == v) == ((v & x) == v), ensures drange(f, w, lo, hi) == drange(f, x, lo, hi) decreases hi - lo
{ if hi > lo { lemma_dcong(f, w, x, lo, hi - 1); let v = (hi - 1) as u32; assert((v & w == v) == (v & x == v)); } }
pub proof fn lemma_link(f: Seq<Re>, w: u32, i: int) requires 0 <= i <= 30, w < 0x4000_0000, ensures ({ let b = (w >> (i as u32)) << (i as u32); drange(f, w, b as int, b + (1u32 << (i as u32))) == ss(f, w, i) }) decreases i
{
    let s = i as u32; let b = (w >> s) << s; let p = 1u32 << s;
    if i == 0 { assert((w >> 0u32) << 0u32 == w) by(bit_vector); assert(1u32 << 0u32 == 1) by(bit_vector); assert(w & w == w) by(bit_vector); ax_add(r0(), f[w as int], r0()); ax_add(f[w as int], r0(), r0()); reveal_with_fuel(drange, 3); }
    else {
        let t = (i - 1) as u32; let q = 1u32 << t; let x = w ^ q;
        assert(p == 2 * q && b < 0x4000_0000 && p <= 0x4000_0000 && q <= 0x2000_0000) by(bit_vector) requires p == 1u32 << s, q == 1u32 << t, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s, w < 0x4000_0000;
        assert(w & q == 0 ==> (w >> t) << t == b) by(bit_vector) requires q == 1u32 << t, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s;
        assert(w & q != 0 ==> (w >> t) << t == add(b, q)) by(bit_vector) requires q == 1u32 << t, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s, w < 0x4000_0000;
        assert(w & q != 0 ==> (x >> t) << t == b && x < 0x4000_0000) by(bit_vector) requires q == 1u32 << t, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s, x == w ^ q, w < 0x4000_0000;
        lemma_link(f, w, i - 1);
        lemma_dsplit(f, w, b as int, b + q, b + p);
        if w & q != 0 {
            lemma_link(f, x, i - 1);
            assert forall|v: u32| b <= v < b + q implies (#[trigger] (v & w) == v) == ((v & x) == v) by { assert((v & w == v) == (v & x == v)) by(bit_vector) requires q == 1u32 << t, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s, x == w ^ q, w < 0x4000_0000, b <= v, v < add(b, q); }
            lemma_dcong(f, w, x, b as int, b + q);
            ax_add(ss(f, w, i - 1), ss(f, x, i - 1), r0());
        } else {
            assert forall|v: u32| b + q <= v < b + p implies #[trigger] (v & w) != v by { assert((v & w) != v) by(bit_vector) requires q == 1u32 << t, p == 1u32 << s, t == sub(s, 1), 1 <= s <= 30, b == (w >> s) << s, w & q == 0, w < 0x4000_0000, add(b, q) <= v, v < add(b, p); }
            lemma_dnone(f, w, b + q, b + p); ax_add(ss(f, w, i - 1), r0(), r0());
        }
    }
}
/// the sum over all subsets of w
pub proof fn lemma_subsets(f: Seq<Re>, w: u32, l: i32) requires 0 <= l <= 30, w < 1u32 << (l as u32), ensures ss(f, w, l as int) == drange(f, w, 0, (1u32 << (l as u32)) as int)
{ lemma_pow(l); let s = l as u32; lemma_link(f, w, l as int); assert((w >> s) << s == 0) by(bit_vector) requires w < 1u32 << s, s <= 30; }
pub proof fn lemma_dtop(f: Seq<Re>, w: u32, n: int) requires w < n <= 0x8000_0000, ensures drange(f, w, 0, n) == drange(f, w, 0, w + 1)
{ assert forall|v: u32| w + 1 <= v < n implies #[trigger] (v & w) != v by { assert(v > w ==> (v & w) != v) by(bit_vector); } lemma_dnone(f, w, w + 1, n); lemma_dsplit(f, w, 0, w + 1, n); ax_add(drange(f, w, 0, w + 1), r0(), r0()); }
/// one step of the enumeration of the subsets of w, in descending order
pub proof fn lemma_sub(f: Seq<Re>, w: u32, s: u32) requires s <= w < 0x7fff_ffff, s & w == s, ensures
    radd(drange(f, w, s + 1, w + 1), f[s as int]) == drange(f, w, s as int, w + 1),
    s > 0 ==> ({ let t = sub(s, 1) & w; t < s && t & w == t && drange(f, w, t + 1, w + 1) == drange(f, w, s as int, w + 1) })
{
    lemma_dsplit(f, w, s as int, s + 1, w + 1); let a = drange(f, w, s + 1, w + 1); ax_add(r0(), f[s as int], a); ax_add(f[s as int], r0(), a); ax_add(a, f[s as int], a); reveal_with_fuel(drange, 2); assert(drange(f, w, s as int, s as int) == r0());
    if s > 0 { let t = sub(s, 1) & w; assert(t < s && t & w == t) by(bit_vector) requires t == sub(s, 1) & w, s > 0;
        assert forall|v: u32| t + 1 <= v < s implies #[trigger] (v & w) != v by { assert((v & w) != v) by(bit_vector) requires t == sub(s, 1) & w, s > 0, v > t, v < s, s & w == s; }
        lemma_dnone(f, w, t + 1, s as int); lemma_dsplit(f, w, t + 1, s as int, w + 1); let c = drange(f, w, s as int, w + 1); ax_add(r0(), c, c); ax_add(c, r0(), c); }
}
pub proof fn lemma_bit(w: u32, i: u32, l: u32) requires i < l <= 30, w < 1u32 << l, ensures (w ^ (1u32 << i)) < 1u32 << l, w & (1u32 << i) != 0 ==> (w ^ (1u32 << i)) < w && (w ^ (1u32 << i)) & (1u32 << i) == 0
{ assert((w ^ (1u32 << i)) < 1u32 << l && (w & (1u32 << i) != 0 ==> (w ^ (1u32 << i)) < w && (w ^ (1u32 << i)) & (1u32 << i) == 0)) by(bit_vector) requires i < l <= 30, w < 1u32 << l; }
/// products of the complementary parts of w
pub open spec fn cprod(f: Seq<Re>, g: Seq<Re>, w: u32) -> Seq<Re> { Seq::new(f.len(), |v: int| rmul(f[v], g[(w ^ (v as u32)) as int])) }
/// one round of the inverse
pub open spec fn dif(r: Seq<Re>, w: u32, i: int) -> Re { let b = 1u32 << (i as u32); if w & b != 0 { rsub(r[w as int], r[(w ^ b) as int]) } else { r[w as int] } }
pub proof fn lemma_sub4(a: Re, b: Re, c: Re, d: Re) ensures radd(rsub(a, c), rsub(b, d)) == rsub(radd(a, b), radd(c, d))
{ lemma_rneg(c, d); let m = rneg(c); let n = rneg(d); ax_add(a, m, radd(b, n)); ax_add(m, b, n); ax_add(b, m, n); ax_add(b, n, m); ax_add(a, b, radd(m, n)); ax_add(m, radd(b, n), a); }
pub proof fn lemma_comm(r1: Seq<Re>, r2: Seq<Re>, w: u32, t: int, i: int, l: int)
    requires 0 <= t <= i < l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] r2[v as int] == dif(r1, v, i),
    ensures ({ let b = 1u32 << (i as u32); ss(r2, w, t) == (if w & b != 0 { rsub(ss(r1, w, t), ss(r1, w ^ b, t)) } else { ss(r1, w, t) }) }) decreases t
{
    let b = 1u32 << (i as u32);
    if t > 0 {
        let q = 1u32 << ((t - 1) as u32); let tt = (t - 1) as u32; let ii = i as u32; let ll = l as u32;
        lemma_bit(w, tt, ll); lemma_bit(w, ii, ll);
        assert((w ^ q) & b == w & b && (w ^ b) & q == w & q && (w ^ q) ^ b == (w ^ b) ^ q) by(bit_vector) requires q == 1u32 << tt, b == 1u32 << ii, tt < ii, ii < 32;
        lemma_comm(r1, r2, w, t - 1, i, l); lemma_comm(r1, r2, w ^ q, t - 1, i, l);
        if w & q != 0 && w & b != 0 { lemma_sub4(ss(r1, w, t - 1), ss(r1, w ^ q, t - 1), ss(r1, w ^ b, t - 1), ss(r1, (w ^ b) ^ q, t - 1)); }
    }
}
pub proof fn lemma_round(r1: Seq<Re>, r2: Seq<Re>, f: Seq<Re>, w: u32, i: int, l: int)
    requires 0 <= i < l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] r2[v as int] == dif(r1, v, i), forall|v: u32| v < 1u32 << (l as u32) ==> ss(r1, v, i) == #[trigger] f[v as int],
    ensures ss(r2, w, i + 1) == f[w as int]
{ let b = 1u32 << (i as u32); lemma_bit(w, i as u32, l as u32); lemma_comm(r1, r2, w, i, i, l); lemma_comm(r1, r2, w ^ b, i, i, l); assert(ss(r1, w, i) == f[w as int]); if w & b != 0 { let y = w ^ b; assert(ss(r1, y, i) == f[y as int]); lemma_rsub(f[w as int], f[y as int]); } }
"""
LEN = ["0 <= log_n <= 30", "r@.len() == pw(log_n)", "f@.len() == r@.len()", "g@.len() == r@.len()"]

def kcontract(nm, o, log):
    n = "pw(log_n)" if log else "n"
    R = (["0 <= log_n <= 30"] if log else ["0 <= n <= 0x3fff_ffff"]) + ["old(r)@.len() == %s" % n, "f@.len() == %s" % n, "g@.len() == %s" % n]
    inv = ["0 <= $i <= %s" % n, "r@.len() == %s" % n]
    return Contract("slow_%s_convolution" % nm, MM + "slow_%s_convolution" % nm, targs=["altruct::Re"], params=["r", "f", "g", "log_n" if log else "n"], requires=R,
        ensures=["final(r)@.len() == %s" % n, "forall|k: int| 0 <= k < %s ==> #[trigger] final(r)@[k] == radd(old(r)@[k], ks(%d, f@, g@, %s as int, k, %s as int, 0))" % (n, o, n, n)],
        hints={"entry": "proof { %s assert forall|k: int| 0 <= k < r@.len() implies radd(#[trigger] r@[k], r0()) == r@[k] by { ax_add(r@[k], r0(), r0()); } }" % ("lemma_pow(log_n);" if log else ""),
               "L1.begin": "let ghost rb = r@; proof { lemma_kop(%d, $i, $j, %s, %s); }" % (o, n, "log_n" if log else "0"),
               "L1.end": "proof { let kk = kop(%d, $i as int, $j as int, %s as int); assert forall|t: int| 0 <= t < r@.len() implies #[trigger] r@[t] == radd(old(r)@[t], ks(%d, f@, g@, %s as int, t, $i as int, $j + 1)) by { assert(rb[t] == radd(old(r)@[t], ks(%d, f@, g@, %s as int, t, $i as int, $j as int))); if t == kk { ax_add(old(r)@[t], ks(%d, f@, g@, %s as int, t, $i as int, $j as int), rmul(f@[$i as int], g@[$j as int])); } } }" % (o, n, o, n, o, n, o, n)},
        loops={0: dict(invariant=inv + ["forall|t: int| 0 <= t < r@.len() ==> #[trigger] r@[t] == radd(old(r)@[t], ks(%d, f@, g@, %s as int, t, $i as int, 0))" % (o, n)], decreases="%s - $i" % n),
               1: dict(invariant=["0 <= $i < %s" % n, "0 <= $j <= %s" % n, "r@.len() == %s" % n, "forall|t: int| 0 <= t < r@.len() ==> #[trigger] r@[t] == radd(old(r)@[t], ks(%d, f@, g@, %s as int, t, $i as int, $j as int))" % (o, n)], decreases="%s - $j" % n)})

def mk(name, cs, tu):
    u = Unit(name, ["altruct/algorithm/math/convolutions.h"], "namespace altruct { namespace math {\n" + tu + "}}\n", cs, KSPEC)
    ring.setup(u)
    u.distinct_arrays = True
    return u

def slow():
    cs = [kcontract("and", 0, True), kcontract("or", 1, True), kcontract("xor", 2, True), kcontract("max", 3, False), kcontract("cyclic", 4, False)]
    return mk("slow_convs", cs, "".join("template void slow_%s_convolution<Re>(Re*, const Re*, const Re*, int);\n" % x for x in ("and", "or", "xor", "max", "cyclic")))

INS = ["log_n >= 0", "log_n <= 30", "old(r)@.len() == pw(log_n)"]
N = "(1u32 << (log_n as u32))"

def sums():
    P = "proof { lemma_pow(log_n); }"
    rnd = lambda nm, cmpl: {}
    cp = dict(invariant=["$w <= $n", "r@.len() == $n", "forall|v: u32| v < $w ==> #[trigger] r@[v as int] == f@[v as int]"], decreases="$n - $w")
    common = ["$n == 1u32 << (log_n as u32)", "0 <= $i <= log_n", "r@.len() == $n", "$n <= 0x4000_0000"]
    req = INS + ["old(f)@.len() == old(r)@.len()"]
    cs = [
        Contract("fast_subset_sum", MM + "fast_subset_sum", targs=["altruct::Re"], params=["r", "f", "log_n"], requires=req,
            ensures=["final(r)@.len() == old(r)@.len()", "final(f)@ == old(f)@", "forall|w: u32| w < old(r)@.len() ==> #[trigger] final(r)@[w as int] == drange(old(f)@, w, 0, old(r)@.len() as int)"],
            hints={"entry": P, "L2.begin": "proof { lemma_bit($w, $i as u32, log_n as u32); }",
                   "exit": "proof { assert forall|w: u32| w < r@.len() implies #[trigger] r@[w as int] == drange(old(f)@, w, 0, r@.len() as int) by { lemma_subsets(old(f)@, w, log_n); } }"},
            loops={0: cp,
                   1: dict(invariant=common + ["forall|v: u32| v < $n ==> #[trigger] r@[v as int] == ss(f@, v, $i as int)"], decreases="log_n - $i"),
                   2: dict(invariant=common + ["$i < log_n", "$w <= $n", "forall|v: u32| v < $n ==> #[trigger] r@[v as int] == ss(f@, v, $i as int + (if v < $w { 1int } else { 0 }))"], decreases="$n - $w")}),
        Contract("fast_subset_sum_inverse", MM + "fast_subset_sum_inverse", targs=["altruct::Re"], params=["r", "f", "log_n"], requires=req,
            ensures=["final(r)@.len() == old(r)@.len()", "final(f)@ == old(f)@", "forall|w: u32| w < old(r)@.len() ==> #[trigger] old(f)@[w as int] == drange(final(r)@, w, 0, old(r)@.len() as int)"],
            hints={"entry": P, "L1.begin": "let ghost r1 = r@;", "L2.begin": "proof { lemma_bit($w, $i as u32, log_n as u32); }",
                   "L1.end": "proof { assert forall|v: u32| v < r@.len() implies ss(r@, v, $i + 1) == #[trigger] f@[v as int] by { lemma_round(r1, r@, f@, v, $i as int, log_n as int); } }",
                   "exit": "proof { assert forall|w: u32| w < r@.len() implies #[trigger] old(f)@[w as int] == drange(r@, w, 0, r@.len() as int) by { lemma_subsets(r@, w, log_n); } }"},
            loops={0: cp,
                   1: dict(invariant=common + ["forall|v: u32| v < $n ==> ss(r@, v, $i as int) == #[trigger] f@[v as int]"], decreases="log_n - $i"),
                   2: dict(invariant=common + ["$i < log_n", "$w <= $n", "r1.len() == $n", "forall|v: u32| v < $n ==> #[trigger] r@[v as int] == (if v >= $w || v & (1u32 << ($i as u32)) == 0 { r1[v as int] } else { dif(r1, v, $i as int) })"], decreases="$n - $w")}),
    ]
    for nm, h in (("slow_subset_sum", None), ("slow_subset_convolution", "cprod(f@, g@, $w)")):
        F = h or "f@"
        FO = "old(f)@" if not h else "cprod(old(f)@, old(g)@, w)"
        G = ["g"] if h else []
        inn = ["$n == 1u32 << (log_n as u32)", "r@.len() == $n", "$n <= 0x4000_0000", "$w < $n"]
        cs.append(Contract(nm, MM + nm, targs=["altruct::Re"], params=["r", "f"] + G + ["log_n"], requires=req + ["old(g)@.len() == old(r)@.len()"] * bool(h),
            ensures=["final(r)@.len() == old(r)@.len()", "final(f)@ == old(f)@"] + ["final(g)@ == old(g)@"] * bool(h) + ["forall|w: u32| w < old(r)@.len() ==> #[trigger] final(r)@[w as int] == drange(%s, w, 0, old(r)@.len() as int)" % FO],
            attrs=["#[verifier::allow_complex_invariants]"],
            hints={"entry": P, "L0.begin": "proof { let w0 = $w; assert(w0 & w0 == w0) by(bit_vector); lemma_dtop(%s, $w, $n as int); }" % F,
                   "L1.begin": "let ghost s0 = $sub; proof { lemma_sub(%s, $w, $sub); assert($w ^ $sub < $n) by(bit_vector) requires $n == 1u32 << (log_n as u32), $w < $n, $sub <= $w, 0 <= log_n, log_n <= 30; }" % F},
            loops={0: dict(invariant=["$n == 1u32 << (log_n as u32)", "$w <= $n", "r@.len() == $n", "$n <= 0x4000_0000", "forall|v: u32| v < $w ==> #[trigger] r@[v as int] == drange(%s, v, 0, $n as int)" % (F if not h else "cprod(f@, g@, v)")], decreases="$n - $w"),
                   1: dict(invariant_except_break=["$sub <= $w", "$sub & $w == $sub", "r@[$w as int] == drange(%s, $w, $sub + 1, $w + 1)" % F], invariant=inn + ["forall|v: u32| v < $w ==> #[trigger] r@[v as int] == drange(%s, v, 0, $n as int)" % (F if not h else "cprod(f@, g@, v)")],
                           ensures=["r@[$w as int] == drange(%s, $w, 0, $w + 1)" % F], decreases="$sub")}))
    cs.append(Contract("max_convolution", MM + "max_convolution", targs=["altruct::Re"], params=["r", "f", "g", "n"], requires=["0 <= n", "old(r)@.len() == n", "old(f)@.len() == n", "old(g)@.len() == n"],
        ensures=["final(r)@.len() == n", "final(f)@ == old(f)@", "final(g)@ == old(g)@", "forall|k: int| 0 <= k < n ==> #[trigger] final(r)@[k] == ks(3, old(f)@, old(g)@, n as int, k, n as int, 0)"],
        hints={"exit": "proof { assert forall|k: int| 0 <= k < n implies #[trigger] r@[k] == ks(3, f@, g@, n as int, k, n as int, 0) by { lemma_max(f@, g@, n as int, k); } }"},
        loops={0: dict(invariant=["0 <= $k <= n", "r@.len() == n", "f@.len() == n", "g@.len() == n", "f@ == old(f)@", "g@ == old(g)@", "$sf == psum(f@, $k as int)", "$sg == psum(g@, $k as int)", "forall|t: int| 0 <= t < $k ==> #[trigger] r@[t] == mx(f@, g@, t)"], decreases="n - $k")}))
    return mk("subset_sum", cs, "template void fast_subset_sum<Re>(Re*, Re*, int); template void fast_subset_sum_inverse<Re>(Re*, Re*, int); template void slow_subset_sum<Re>(Re*, Re*, int); template void slow_subset_convolution<Re>(Re*, Re*, Re*, int); template void max_convolution<Re>(Re*, Re*, Re*, int);\n")

def inplace():
    """the same function bodies, called with r == f"""
    req = ["log_n >= 0", "log_n <= 30", "old(f)@.len() == pw(log_n)"]
    common = ["$n == 1u32 << (log_n as u32)", "0 <= $i <= log_n", "f@.len() == $n", "$n <= 0x4000_0000"]
    dead = dict(invariant=["false"], decreases="$n - $w")
    E = "let ghost f0 = f@; proof { lemma_pow(log_n); }"
    cs = [Contract("subset_sum_inplace", MM + "subset_sum_inplace", params=["f", "log_n"], requires=req,
            ensures=["final(f)@.len() == old(f)@.len()", "forall|w: u32| w < old(f)@.len() ==> #[trigger] final(f)@[w as int] == drange(old(f)@, w, 0, old(f)@.len() as int)"],
            hints={"entry": E, "L2.begin": "proof { lemma_bit($w, $i as u32, log_n as u32); }",
                   "exit": "proof { assert forall|w: u32| w < f@.len() implies #[trigger] f@[w as int] == drange(f0, w, 0, f@.len() as int) by { lemma_subsets(f0, w, log_n); } }"},
            loops={0: dead,
                   1: dict(invariant=common + ["forall|v: u32| v < $n ==> #[trigger] f@[v as int] == ss(f0, v, $i as int)"], decreases="log_n - $i"),
                   2: dict(invariant=common + ["$i < log_n", "$w <= $n", "forall|v: u32| v < $n ==> #[trigger] f@[v as int] == ss(f0, v, $i as int + (if v < $w { 1int } else { 0 }))"], decreases="$n - $w")}),
        Contract("subset_sum_inverse_inplace", MM + "subset_sum_inverse_inplace", params=["f", "log_n"], requires=req,
            ensures=["final(f)@.len() == old(f)@.len()", "forall|w: u32| w < old(f)@.len() ==> #[trigger] old(f)@[w as int] == drange(final(f)@, w, 0, old(f)@.len() as int)"],
            hints={"entry": E, "L1.begin": "let ghost r1 = f@;", "L2.begin": "proof { lemma_bit($w, $i as u32, log_n as u32); }",
                   "L1.end": "proof { assert forall|v: u32| v < f@.len() implies ss(f@, v, $i + 1) == #[trigger] f0[v as int] by { lemma_round(r1, f@, f0, v, $i as int, log_n as int); } }",
                   "exit": "proof { assert forall|w: u32| w < f@.len() implies #[trigger] f0[w as int] == drange(f@, w, 0, f@.len() as int) by { lemma_subsets(f@, w, log_n); } }"},
            loops={0: dead,
                   1: dict(invariant=common + ["forall|v: u32| v < $n ==> ss(f@, v, $i as int) == #[trigger] f0[v as int]"], decreases="log_n - $i"),
                   2: dict(invariant=common + ["$i < log_n", "$w <= $n", "r1.len() == $n", "forall|v: u32| v < $n ==> #[trigger] f@[v as int] == (if v >= $w || v & (1u32 << ($i as u32)) == 0 { r1[v as int] } else { dif(r1, v, $i as int) })"], decreases="$n - $w")}),
        Contract("max_convolution_square", MM + "max_convolution_square", params=["f", "n"], requires=["0 <= n", "old(f)@.len() == n"],
            ensures=["final(f)@.len() == n", "forall|k: int| 0 <= k < n ==> #[trigger] final(f)@[k] == ks(3, old(f)@, old(f)@, n as int, k, n as int, 0)"],
            hints={"entry": "let ghost f0 = f@;", "exit": "proof { assert forall|k: int| 0 <= k < n implies #[trigger] f@[k] == ks(3, f0, f0, n as int, k, n as int, 0) by { lemma_max(f0, f0, n as int, k); } }"},
            loops={0: dict(invariant=["0 <= $k <= n", "f@.len() == n", "$sf == psum(f0, $k as int)", "$sg == psum(f0, $k as int)", "forall|t: int| 0 <= t < $k ==> #[trigger] f@[t] == mx(f0, f0, t)", "forall|t: int| $k <= t < n ==> #[trigger] f@[t] == f0[t]"], decreases="n - $k")})]
    for al, a in (("rf", "ffg"), ("rg", "gfg"), ("fg", "rff")):
        R, F, G = a
        ps = list(dict.fromkeys(a))
        g0 = "g0" if G == "g" else "f0"
        cs.append(Contract("max_convolution_" + al, MM + "max_convolution_" + al, params=ps + ["n"], requires=["0 <= n"] + ["old(%s)@.len() == n" % x for x in ps],
            ensures=["final(%s)@.len() == n" % R, "forall|k: int| 0 <= k < n ==> #[trigger] final(%s)@[k] == ks(3, old(%s)@, old(%s)@, n as int, k, n as int, 0)" % (R, F, G)] + ["final(%s)@ == old(%s)@" % (x, x) for x in ps if x != R],
            hints={"entry": " ".join("let ghost %s0 = %s@;" % (x, x) for x in ps if x != "r"), "exit": "proof { assert forall|k: int| 0 <= k < n implies #[trigger] %s@[k] == ks(3, f0, %s, n as int, k, n as int, 0) by { lemma_max(f0, %s, n as int, k); } }" % (R, g0, g0)},
            loops={0: dict(invariant=["0 <= $k <= n"] + ["%s@.len() == n" % x for x in ps] + ["%s@ == %s0" % (x, x) for x in ps if x != R] + ["$sf == psum(f0, $k as int)", "$sg == psum(%s, $k as int)" % g0, "forall|t: int| 0 <= t < $k ==> #[trigger] %s@[t] == mx(f0, %s, t)" % (R, g0)]
                + (["%s0.len() == n" % R, "forall|t: int| $k <= t < n ==> #[trigger] %s@[t] == %s0[t]" % (R, R)] if R != "r" else []), decreases="n - $k")}))
    return mk("convs_inplace", cs, "void subset_sum_inplace(Re* f, int log_n) { fast_subset_sum(f, f, log_n); }\nvoid subset_sum_inverse_inplace(Re* f, int log_n) { fast_subset_sum_inverse(f, f, log_n); }\nvoid max_convolution_square(Re* f, int n) { max_convolution(f, f, f, n); }\n" + "".join("void max_convolution_%s(%s, int n) { max_convolution(%s, n); }\n" % (al, ", ".join("Re* " + x for x in dict.fromkeys(a)), ", ".join(a)) for al, a in (("rf", "ffg"), ("rg", "gfg"), ("fg", "rff"))))

ASPEC = r"""
pub open spec fn low(i: int) -> u32 { sub(1u32 << (i as u32), 1) }
/// the transform on the bits i .. l-1, the highest first
pub open spec fn tt(f: Seq<Re>, w: u32, i: int, l: int) -> Re decreases l - i { if i >= l { f[w as int] } else { let b = 1u32 << (i as u32); if w & b != 0 { radd(tt(f, w, i + 1, l), tt(f, w ^ b, i + 1, l)) } else { tt(f, w, i + 1, l) } } }
/// the sum over the subsets of w that agree with it on the bits of m
pub open spec fn gs(f: Seq<Re>, w: u32, m: u32, k: int) -> Re decreases k { if k <= 0 { r0() } else { let v = (k - 1) as u32; let p = gs(f, w, m, k - 1); if v & w == v && (v ^ w) & m == 0 { radd(p, f[k - 1]) } else { p } } }
pub proof fn lemma_gs0(f: Seq<Re>, w: u32, k: int) requires 0 <= k <= 0x4000_0000, ensures gs(f, w, 0, k) == drange(f, w, 0, k) decreases k
{ if k > 0 { lemma_gs0(f, w, k - 1); let v = (k - 1) as u32; assert((v ^ w) & 0 == 0) by(bit_vector); } }
pub proof fn lemma_gsb(f: Seq<Re>, w: u32, l: u32, k: int) requires l <= 30, w < 1u32 << l, 0 <= k <= 1u32 << l, ensures gs(f, w, sub(1u32 << l, 1), k) == (if k > w { f[w as int] } else { r0() }) decreases k
{ if k > 0 { lemma_gsb(f, w, l, k - 1); let v = (k - 1) as u32; assert(v & w == v && (v ^ w) & sub(1u32 << l, 1) == 0 <==> v == w) by(bit_vector) requires l <= 30, w < 1u32 << l, v < 1u32 << l; ax_add(r0(), f[w as int], f[w as int]); ax_add(f[w as int], r0(), r0()); } }
pub proof fn lemma_gstep(f: Seq<Re>, w: u32, i: u32, k: int) requires i <= 29, 0 <= k <= 0x4000_0000, ensures ({ let b = 1u32 << i; let m = sub(b, 1); let n = sub(1u32 << add(i, 1), 1); gs(f, w, m, k) == (if w & b != 0 { radd(gs(f, w, n, k), gs(f, w ^ b, n, k)) } else { gs(f, w, n, k) }) }) decreases k
{
    let b = 1u32 << i; let m = sub(b, 1); let n = sub(1u32 << add(i, 1), 1); let x = w ^ b;
    if k > 0 {
        lemma_gstep(f, w, i, k - 1); let v = (k - 1) as u32; let e = f[k - 1];
        assert(w & b == 0 ==> ((v & w == v && (v ^ w) & m == 0) <==> (v & w == v && (v ^ w) & n == 0))) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29;
        assert(w & b != 0 ==> ((v & w == v && (v ^ w) & m == 0) <==> ((v & w == v && (v ^ w) & n == 0) || (v & x == v && (v ^ x) & n == 0)))) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, x == w ^ b;
        assert(w & b != 0 ==> !((v & w == v && (v ^ w) & n == 0) && (v & x == v && (v ^ x) & n == 0))) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, x == w ^ b;
        if w & b != 0 { let p = gs(f, w, n, k - 1); let q = gs(f, x, n, k - 1); ax_add(p, q, e); ax_add(q, e, p); ax_add(p, e, q); ax_add(e, q, p); }
    } else { ax_add(r0(), r0(), r0()); }
}
pub proof fn lemma_tg(f: Seq<Re>, w: u32, i: int, l: int) requires 0 <= i <= l <= 30, w < 1u32 << (l as u32), ensures tt(f, w, i, l) == gs(f, w, low(i), (1u32 << (l as u32)) as int) decreases l - i
{
    let s = l as u32; let n = (1u32 << s) as int; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30;
    if i < l { let t = i as u32; lemma_bit(w, t, s); lemma_tg(f, w, i + 1, l); lemma_tg(f, w ^ (1u32 << t), i + 1, l); lemma_gstep(f, w, t, n); assert(add(t, 1) == (i + 1) as u32); }
    else { lemma_gsb(f, w, s, n); }
}
pub proof fn lemma_tall(f: Seq<Re>, w: u32, l: int) requires 0 <= l <= 30, w < 1u32 << (l as u32), ensures tt(f, w, 0, l) == drange(f, w, 0, (1u32 << (l as u32)) as int)
{ let s = l as u32; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30; lemma_tg(f, w, 0, l); assert(1u32 << 0u32 == 1) by(bit_vector); lemma_gs0(f, w, (1u32 << s) as int); }
pub proof fn lemma_tcomm(r1: Seq<Re>, r2: Seq<Re>, w: u32, t: int, i: int, l: int)
    requires 0 <= i < t <= l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] r2[v as int] == dif(r1, v, i),
    ensures ({ let b = 1u32 << (i as u32); tt(r2, w, t, l) == (if w & b != 0 { rsub(tt(r1, w, t, l), tt(r1, w ^ b, t, l)) } else { tt(r1, w, t, l) }) }) decreases l - t
{
    let b = 1u32 << (i as u32);
    if t < l {
        let tt0 = t as u32; let q = 1u32 << tt0; let ii = i as u32; let ll = l as u32;
        lemma_bit(w, tt0, ll); lemma_bit(w, ii, ll);
        assert((w ^ q) & b == w & b && (w ^ b) & q == w & q && (w ^ q) ^ b == (w ^ b) ^ q) by(bit_vector) requires q == 1u32 << tt0, b == 1u32 << ii, ii < tt0, tt0 < 32;
        lemma_tcomm(r1, r2, w, t + 1, i, l); lemma_tcomm(r1, r2, w ^ q, t + 1, i, l);
        if w & q != 0 && w & b != 0 { lemma_sub4(tt(r1, w, t + 1, l), tt(r1, w ^ q, t + 1, l), tt(r1, w ^ b, t + 1, l), tt(r1, (w ^ b) ^ q, t + 1, l)); }
    }
}
pub proof fn lemma_tround(r1: Seq<Re>, r2: Seq<Re>, f: Seq<Re>, w: u32, i: int, l: int)
    requires 0 <= i < l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] r2[v as int] == dif(r1, v, i), forall|v: u32| v < 1u32 << (l as u32) ==> tt(r1, v, i + 1, l) == #[trigger] f[v as int],
    ensures tt(r2, w, i, l) == f[w as int]
{ let b = 1u32 << (i as u32); lemma_bit(w, i as u32, l as u32); lemma_tcomm(r1, r2, w, i + 1, i, l); lemma_tcomm(r1, r2, w ^ b, i + 1, i, l); assert(tt(r1, w, i + 1, l) == f[w as int]); if w & b != 0 { let y = w ^ b; assert(tt(r1, y, i + 1, l) == f[y as int]); lemma_rsub(f[w as int], f[y as int]); } }
/// one pair of the butterfly: the blocks of 2^lm from i, the pair j of the block
pub proof fn lemma_blk(i: i32, j: i32, lm: i32, l: i32) requires 1 <= lm <= l <= 30, 0 <= i < pw(l), (i as u32) & low(lm as int) == 0, 0 <= j < pw((lm - 1) as i32),
    ensures i + pw(lm) <= pw(l), ((i + pw(lm)) as u32) & low(lm as int) == 0, pw(lm) == 2 * pw((lm - 1) as i32), ({ let a = (i + j) as u32; let b = 1u32 << ((lm - 1) as u32); a & b == 0 && (a ^ b) == a + pw((lm - 1) as i32) && (a ^ b) & b != 0 && ((a ^ b) ^ b) == a && a < 1u32 << (l as u32) && (a ^ b) < 1u32 << (l as u32) })
{
    lemma_pow(lm); lemma_pow(l); lemma_pow((lm - 1) as i32);
    let x = i as u32; let y = j as u32; let p = lm as u32; let q = (lm - 1) as u32; let s = l as u32; let a = (i + j) as u32; let b = 1u32 << q; let m = 1u32 << p;
    assert(i + pw(lm) <= 0x7fff_ffff);
    assert(m == 2 * b && x + m <= (1u32 << s) && add(x, m) & sub(m, 1) == 0) by(bit_vector) requires q == sub(p, 1), 1 <= p <= s <= 30, x < 1u32 << s, m == 1u32 << p, b == 1u32 << q, x & sub(m, 1) == 0;
    assert(a == add(x, y));
    assert(a & b == 0 && (a ^ b) == add(a, b) && (a ^ b) & b != 0 && ((a ^ b) ^ b) == a && a < 1u32 << s && (a ^ b) < 1u32 << s) by(bit_vector) requires q == sub(p, 1), 1 <= p <= s <= 30, x < 1u32 << s, b == 1u32 << q, m == 1u32 << p, x & sub(m, 1) == 0, y < b, a == add(x, y);
}
"""

def arith():
    R = ["0 <= log_n <= 30", "old(f)@.len() == pw(log_n)"]
    DONE = "(v < $i || $i <= v < $i + $j || $i + $mh <= v < $i + $mh + $j)"
    def loops(st, mid):
        N = ["$n == pw(log_n)", "f@.len() == $n", "1 <= $n <= 0x4000_0000"]
        M = N + ["1 <= $log_m <= log_n", "$m == pw($log_m)", "$mh == pw(($log_m - 1) as i32)", "$m == 2 * $mh", "f1.len() == $n"]
        return {0: dict(invariant=N + ["0 <= $log_m <= log_n", st], decreases="$log_m"),
            1: dict(invariant=M + ["0 <= $i <= $n", "($i as u32) & low($log_m as int) == 0", "forall|v: u32| v < $n ==> #[trigger] f@[v as int] == (if v < $i { %s } else { f1[v as int] })" % mid], decreases="$n - $i"),
            2: dict(invariant=M + ["0 <= $i < $n", "$i + $m <= $n", "($i as u32) & low($log_m as int) == 0", "0 <= $j <= $mh", "$k1 == $i + $j", "$k2 == $i + $mh + $j", "forall|v: u32| v < $n ==> #[trigger] f@[v as int] == (if %s { %s } else { f1[v as int] })" % (DONE, mid)], decreases="$mh - $j")}
    E = "proof { lemma_pow(log_n); let nn = 1u32 << (log_n as u32); assert(0u32 & low(log_n as int) == 0) by(bit_vector); }"
    ZB = "proof { lemma_pow($log_m); lemma_pow(($log_m - 1) as i32); lemma_pow(log_n); let z = low($log_m as int); assert(0u32 & z == 0) by(bit_vector); vstd::arithmetic::power2::lemma_pow2_unfold($log_m as nat); if $log_m < log_n { vstd::arithmetic::power2::lemma_pow2_strictly_increases($log_m as nat, log_n as nat); } } let ghost f1 = f@;"
    hp = {"entry": "let ghost f0 = f@; " + E, "L0.begin": ZB, "L1.begin": "proof { lemma_blk($i, 0, $log_m, log_n); }", "L2.begin": "proof { lemma_blk($i, $j, $log_m, log_n); }"}
    cs = [Contract("arith_plus", MM + "fast_arith_transform_plus", targs=["altruct::Re"], params=["f", "log_n"], requires=R,
            ensures=["final(f)@.len() == old(f)@.len()", "forall|w: u32| w < old(f)@.len() ==> #[trigger] final(f)@[w as int] == drange(old(f)@, w, 0, old(f)@.len() as int)"],
            hints=dict(hp, exit="proof { assert forall|w: u32| w < f@.len() implies #[trigger] f@[w as int] == drange(f0, w, 0, f@.len() as int) by { lemma_tall(f0, w, log_n as int); } }"),
            loops=loops("forall|v: u32| v < $n ==> #[trigger] f@[v as int] == tt(f0, v, $log_m as int, log_n as int)", "tt(f0, v, $log_m - 1, log_n as int)")),
          Contract("arith_minus", MM + "fast_arith_transform_minus", targs=["altruct::Re"], params=["f", "log_n"], requires=R,
            ensures=["final(f)@.len() == old(f)@.len()", "forall|w: u32| #![trigger old(f)@[w as int]] #![trigger drange(final(f)@, w, 0, old(f)@.len() as int)] w < old(f)@.len() ==> old(f)@[w as int] == drange(final(f)@, w, 0, old(f)@.len() as int)"],
            hints=dict(hp, **{"L0.end": "proof { assert forall|v: u32| v < f@.len() implies tt(f@, v, $log_m - 1, log_n as int) == #[trigger] f0[v as int] by { lemma_tround(f1, f@, f0, v, $log_m - 1, log_n as int); } }",
                "exit": "proof { assert forall|w: u32| w < f@.len() implies #[trigger] f0[w as int] == drange(f@, w, 0, f@.len() as int) by { lemma_tall(f@, w, log_n as int); } }"}),
            loops=loops("forall|v: u32| v < $n ==> tt(f@, v, $log_m as int, log_n as int) == #[trigger] f0[v as int]", "dif(f1, v, $log_m - 1)"))]
    u = mk("arith", cs, "template void fast_arith_transform_plus<Re>(Re*, int); template void fast_arith_transform_minus<Re>(Re*, int);\n")
    u.specs += ASPEC
    return u


OSPEC = r"""
/// membership: o == 1: v is a subset of w, otherwise a superset
pub open spec fn pin(o: int, v: u32, w: u32) -> bool { if o == 1 { v & w == v } else { v & w == w } }
pub open spec fn dr(o: int, f: Seq<Re>, w: u32, lo: int, hi: int) -> Re decreases hi - lo { if hi <= lo { r0() } else { let p = dr(o, f, w, lo, hi - 1); if pin(o, (hi - 1) as u32, w) { radd(p, f[hi - 1]) } else { p } } }
pub proof fn lemma_dr1(f: Seq<Re>, w: u32, lo: int, hi: int) ensures dr(1, f, w, lo, hi) == drange(f, w, lo, hi) decreases hi - lo { if hi > lo { lemma_dr1(f, w, lo, hi - 1); } }
pub proof fn lemma_drfront(o: int, f: Seq<Re>, w: u32, lo: int, hi: int) requires lo < hi, ensures dr(o, f, w, lo, hi) == radd(if pin(o, lo as u32, w) { f[lo] } else { r0() }, dr(o, f, w, lo + 1, hi)) decreases hi - lo
{ let e = if pin(o, lo as u32, w) { f[lo] } else { r0() }; if hi > lo + 1 { lemma_drfront(o, f, w, lo, hi - 1); ax_add(e, dr(o, f, w, lo + 1, hi - 1), f[hi - 1]); } else { reveal_with_fuel(dr, 3); ax_add(r0(), e, e); ax_add(e, r0(), r0()); ax_add(r0(), r0(), r0()); } }
pub open spec fn rev(f: Seq<Re>) -> Seq<Re> { Seq::new(f.len(), |k: int| f[f.len() - 1 - k]) }
/// the subsets of w read backwards are the supersets of its complement
pub proof fn lemma_rev(f: Seq<Re>, w: u32, l: u32, lo: int, hi: int) requires l <= 30, f.len() == 1u32 << l, w < 1u32 << l, 0 <= lo <= hi <= f.len(),
    ensures drange(rev(f), w, lo, hi) == dr(0, f, (f.len() - 1 - w) as u32, f.len() - hi, f.len() - lo) decreases hi - lo
{
    let n = f.len() as int; let x = (n - 1 - w) as u32;
    if lo < hi {
        lemma_rev(f, w, l, lo, hi - 1); lemma_drfront(0, f, x, n - hi, n - lo);
        let v = (hi - 1) as u32; let y = (n - hi) as u32; let m = 1u32 << l;
        assert(v & w == v <==> y & x == x) by(bit_vector) requires l <= 30, m == 1u32 << l, w < m, v < m, x == sub(sub(m, 1), w), y == sub(sub(m, 1), v);
        let e = rev(f)[hi - 1]; let p = drange(rev(f), w, lo, hi - 1); ax_add(p, e, e); ax_add(r0(), p, p); ax_add(p, r0(), p);
    }
}
pub proof fn lemma_dpoint(o: int, a: Seq<Re>, b: Seq<Re>, w: u32, k0: int, x: Re, hi: int) requires 0 <= k0 < a.len(), a.len() == b.len(), 0 <= hi <= a.len(), b[k0] == radd(a[k0], x), forall|k: int| 0 <= k < a.len() && k != k0 ==> #[trigger] b[k] == a[k],
    ensures dr(o, b, w, 0, hi) == (if k0 < hi && pin(o, k0 as u32, w) { radd(dr(o, a, w, 0, hi), x) } else { dr(o, a, w, 0, hi) }) decreases hi
{
    if hi > 0 { lemma_dpoint(o, a, b, w, k0, x, hi - 1); let p = dr(o, a, w, 0, hi - 1); ax_add(p, a[hi - 1], x); if hi - 1 != k0 { ax_add(p, x, a[hi - 1]); ax_add(x, a[hi - 1], p); assert(b[hi - 1] == a[hi - 1]); } }
}
pub open spec fn cv(o: int, f: Seq<Re>, g: Seq<Re>, n: int, i: int, j: int) -> Seq<Re> { Seq::new(n as nat, |k: int| ks(o, f, g, n, k, i, j)) }
pub proof fn lemma_pin(o: int, i: u32, j: u32, w: u32, n: int) requires o == 0 || o == 1, i < 0x4000_0000, j < 0x4000_0000, ensures pin(o, kop(o, i as int, j as int, n) as u32, w) == (pin(o, i, w) && pin(o, j, w)), kop(o, i as int, j as int, n) >= 0
{
    let a = i as i32; let b = j as i32;
    assert((a & b) >= 0 && (a | b) >= 0) by(bit_vector) requires a >= 0, b >= 0;
    assert((a & b) as u32 == i & j) by(bit_vector) requires a == i as i32, b == j as i32; assert((a | b) as u32 == i | j) by(bit_vector) requires a == i as i32, b == j as i32;
    assert((i & j) & w == w <==> (i & w == w && j & w == w)) by(bit_vector); assert((i | j) & w == (i | j) <==> (i & w == i && j & w == j)) by(bit_vector);
}
/// the sums over the pairs so far, split by the membership of the index
pub proof fn lemma_prod(o: int, f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, i: int, j: int) requires o == 0 || o == 1, 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), 0 <= i <= pw(l), 0 <= j <= pw(l), i == pw(l) ==> j == 0,
    ensures dr(o, cv(o, f, g, pw(l) as int, i, j), w, 0, pw(l) as int) == ({ let a = rmul(dr(o, f, w, 0, i), dr(o, g, w, 0, pw(l) as int)); if i < pw(l) && pin(o, i as u32, w) { radd(a, rmul(f[i], dr(o, g, w, 0, j))) } else { a } }) decreases i, j
{
    lemma_pow(l); let n = pw(l) as int; let c = cv(o, f, g, n, i, j); let G = dr(o, g, w, 0, n); let a = rmul(dr(o, f, w, 0, i), G);
    if j > 0 {
        lemma_prod(o, f, g, w, l, i, j - 1); let c1 = cv(o, f, g, n, i, j - 1); let x = rmul(f[i], g[j - 1]); let k0 = kop(o, i, j - 1, n);
        lemma_kop(o, i as i32, (j - 1) as i32, pw(l), l); lemma_pin(o, i as u32, (j - 1) as u32, w, n);
        assert(c[k0] == radd(c1[k0], x)); assert forall|k: int| 0 <= k < n && k != k0 implies #[trigger] c[k] == c1[k] by {}
        lemma_dpoint(o, c1, c, w, k0, x, n);
        let q = dr(o, g, w, 0, j - 1); ax_dist(f[i], q, g[j - 1]); ax_add(a, rmul(f[i], q), x);
    } else if i > 0 {
        lemma_prod(o, f, g, w, l, i - 1, n); let c1 = cv(o, f, g, n, i - 1, n); assert(c =~= c1) by { assert forall|k: int| 0 <= k < n implies c[k] == c1[k] by {} }
        let p = dr(o, f, w, 0, i - 1); ax_mul(p, G, G); ax_mul(f[i - 1], G, G); ax_mul(radd(p, f[i - 1]), G, G); ax_dist(G, p, f[i - 1]);
        if i < n { lemma_rmul0(f[i]); ax_add(a, a, a); }
    } else {
        lemma_dzero(o, c, w, n); lemma_rmul0(G); lemma_rmul0(f[0]); ax_add(r0(), r0(), r0());
    }
}
pub proof fn lemma_dzero(o: int, c: Seq<Re>, w: u32, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] c[k] == r0(), ensures dr(o, c, w, 0, n) == r0() decreases n { if n > 0 { lemma_dzero(o, c, w, n - 1); ax_add(r0(), r0(), r0()); assert(c[n - 1] == r0()); } }
/// a sequence is determined by its subset sums
pub proof fn lemma_uniq(x: Seq<Re>, y: Seq<Re>, n: int, k: int) requires 0 <= k <= n <= 0x4000_0000, x.len() == n, y.len() == n, forall|w: u32| w < n ==> #[trigger] drange(x, w, 0, n) == drange(y, w, 0, n), ensures forall|t: int| 0 <= t < k ==> #[trigger] x[t] == y[t] decreases k
{
    if k > 0 { lemma_uniq(x, y, n, k - 1); let w = (k - 1) as u32; assert(drange(x, w, 0, n) == drange(y, w, 0, n)); lemma_dtop(x, w, n); lemma_dtop(y, w, n); assert(w & w == w) by(bit_vector); lemma_same(x, y, w, w as int); let p = drange(x, w, 0, w as int); ax_add(p, x[w as int], p); ax_add(p, y[w as int], p); lemma_radd_cancel(x[w as int], y[w as int], p); }
}
pub proof fn lemma_same(x: Seq<Re>, y: Seq<Re>, w: u32, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] x[t] == y[t], ensures drange(x, w, 0, k) == drange(y, w, 0, k) decreases k { if k > 0 { lemma_same(x, y, w, k - 1); assert(x[k - 1] == y[k - 1]); } }
pub open spec fn prd(f: Seq<Re>, g: Seq<Re>, w: u32) -> Re { rmul(drange(f, w, 0, f.len() as int), drange(g, w, 0, f.len() as int)) }
pub proof fn lemma_or(f: Seq<Re>, g: Seq<Re>, r: Seq<Re>, l: i32) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), r.len() == pw(l), forall|w: u32| w < pw(l) ==> #[trigger] drange(r, w, 0, pw(l) as int) == prd(f, g, w), ensures forall|k: int| 0 <= k < pw(l) ==> #[trigger] r[k] == ks(1, f, g, pw(l) as int, k, pw(l) as int, 0)
{
    lemma_pow(l); let n = pw(l) as int; let c = cv(1, f, g, n, n, 0);
    assert forall|w: u32| w < n implies #[trigger] drange(r, w, 0, n) == drange(c, w, 0, n) by { lemma_prod(1, f, g, w, l, n, 0); lemma_dr1(f, w, 0, n); lemma_dr1(g, w, 0, n); lemma_dr1(c, w, 0, n); }
    lemma_uniq(r, c, n, n); assert forall|k: int| 0 <= k < n implies #[trigger] r[k] == ks(1, f, g, n, k, n, 0) by { assert(r[k] == c[k]); }
}
pub proof fn lemma_and(f: Seq<Re>, g: Seq<Re>, r: Seq<Re>, l: i32) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), r.len() == pw(l), forall|w: u32| w < pw(l) ==> #[trigger] drange(rev(r), w, 0, pw(l) as int) == prd(rev(f), rev(g), w), ensures forall|k: int| 0 <= k < pw(l) ==> #[trigger] r[k] == ks(0, f, g, pw(l) as int, k, pw(l) as int, 0)
{
    lemma_pow(l); let n = pw(l) as int; let c = cv(0, f, g, n, n, 0); let s = l as u32;
    assert forall|w: u32| w < n implies #[trigger] drange(rev(r), w, 0, n) == drange(rev(c), w, 0, n) by { let x = (n - 1 - w) as u32; lemma_prod(0, f, g, x, l, n, 0); lemma_rev(f, w, s, 0, n); lemma_rev(g, w, s, 0, n); lemma_rev(c, w, s, 0, n); }
    lemma_uniq(rev(r), rev(c), n, n); assert forall|k: int| 0 <= k < n implies #[trigger] r[k] == ks(0, f, g, n, k, n, 0) by { assert(rev(r)[n - 1 - k] == rev(c)[n - 1 - k]); }
}
"""

def conv(nm, o, al):
    """al: which of r, f, g are the same array"""
    R, F, G = {"": "rfg", "rf": "ffg", "rg": "gfg", "fg": "rff", "all": "fff"}[al]
    ps = list(dict.fromkeys([R, F, G]))
    f0, g0 = ("f0", "g0" if G == "g" else "f0")
    req = ["0 <= log_n <= 30"] + ["old(%s)@.len() == pw(log_n)" % x for x in ps]
    ens = ["final(%s)@.len() == pw(log_n)" % R, "forall|k: int| 0 <= k < pw(log_n) ==> #[trigger] final(%s)@[k] == ks(%d, old(%s)@, old(%s)@, pw(log_n) as int, k, pw(log_n) as int, 0)" % (R, o, F, G)]
    A, B = (f0, g0) if o else ("rev(f0)", "rev(%s)" % g0)
    inv = ["$n == pw(log_n)", "0 <= $k <= $n", "1 <= $n <= 0x4000_0000", "(1u32 << (log_n as u32)) == $n"] + ["%s@.len() == $n" % x for x in ps]
    for x, S in ((F, A), (G, B)):
        inv.append("forall|v: u32| %s < $n ==> #[trigger] %s@[v as int] == drange(%s, v, 0, $n as int)" % ("$k <= v" if x == R else "v", x, S))
    inv.append("forall|v: u32| v < $k ==> #[trigger] %s@[v as int] == prd(%s, %s, v)" % (R, A, B))
    mid = "proof { lemma_pow(log_n); %s }" % ("" if o else "assert(f@ =~= rev(f0));")
    ex = "assert forall|w: u32| w < pw(log_n) implies #[trigger] drange(%s, w, 0, pw(log_n) as int) == prd(%s, %s, w) by { assert(rm[w as int] == prd(%s, %s, w)); %s } lemma_%s(f0, %s, %s@, log_n);"
    hints = {"entry": "let ghost mut rm = Seq::<Re>::empty(); let ghost mut rr = Seq::<Re>::empty(); " + "".join("let ghost %s0 = %s@; " % (x, x) for x in ps if x != "r") + "proof { lemma_pow(log_n); }",
        "L0.begin": "proof { let v = $k as u32; assert(%s@[v as int] == drange(%s, v, 0, $n as int)); assert(%s@[v as int] == drange(%s, v, 0, $n as int)); }" % (F, A, G, B),
        "call:arith_minus.before": "proof { rm = %s@; }" % R, "call:arith_minus.after": "proof { rr = %s@; }" % R,
        "exit": "proof { %s %s }" % ("" if o else "assert(rev(%s@) =~= rr);" % R, ex % ("%s@" % R if o else "rev(%s@)" % R, A, B, A, B, "", nm, g0, R))}
    if not o:
        # after each reversal
        hints["entry"] += " let ghost mut cn: int = 0;"
        hints["call:arith_plus.before"] = "proof { if cn == 0 { assert(%s@ =~= rev(f0)); } else { assert(%s@ =~= rev(%s)); } cn = cn + 1; }" % (F, G, g0)
    return Contract("%s_conv_%s" % (nm, al or "apart"), MM + ("%s_convolution" % nm if not al else "%s_conv_%s" % (nm, al)), targs=["altruct::Re"] if not al else None, params=ps + ["log_n"], requires=req, ensures=ens, hints=hints,
        loops={0: dict(invariant=inv, decreases="$n - $k")})

def andor(inpl):
    ar = arith().contracts
    cs = [conv(nm, o, al) for nm, o in (("or", 1), ("and", 0)) for al in (("rf", "rg", "fg", "all") if inpl else ("",))]
    tu = "template void fast_arith_transform_plus<Re>(Re*, int); template void fast_arith_transform_minus<Re>(Re*, int);\n"
    for nm in ("or", "and"):
        tu += "template void %s_convolution<Re>(Re*, Re*, Re*, int);\n" % nm
        for al, a in (("rf", "ffg"), ("rg", "gfg"), ("fg", "rff"), ("all", "fff")):
            ps = list(dict.fromkeys(a))
            tu += "void %s_conv_%s(%s, int log_n) { %s_convolution(%s, log_n); }\n" % (nm, al, ", ".join("Re* " + x for x in ps), nm, ", ".join(a))
    # the aliased calls take the transforms by the contracts discharged in the other unit
    v = mk("and_or_inplace" if inpl else "and_or", ar + cs, tu)
    v.specs += ASPEC + OSPEC
    return v


XSPEC = r"""
pub open spec fn rint(k: int) -> Re { if k >= 0 { rcast(k as nat) } else { rneg(rcast((-k) as nat)) } }
#[verifier::external_body]
pub fn re_int(k: i32) -> (r: Re) ensures r == rint(k as int) { Re { v: 0 } }
/// parity of the number of one bits
pub open spec fn par(x: u32) -> bool decreases x { if x == 0 { false } else { ((x & 1) != 0) != par(x / 2) } }
pub proof fn lemma_par(a: u32, b: u32) ensures par(a ^ b) == (par(a) != par(b)) decreases a + b
{
    if a == 0 { assert(0 ^ b == b) by(bit_vector); } else if b == 0 { assert(a ^ 0 == a) by(bit_vector); }
    else { lemma_par(a / 2, b / 2); assert((a ^ b) / 2 == (a / 2) ^ (b / 2)) by(bit_vector); assert(((a ^ b) & 1 != 0) == ((a & 1 != 0) != (b & 1 != 0))) by(bit_vector); let c = a ^ b; assert(c == 0 ==> c & 1 == 0 && c / 2 == 0) by(bit_vector); assert(par(c) == (((c & 1) != 0) != par(c / 2))); }
}
pub proof fn lemma_par1(i: u32) requires i < 32, ensures par(1u32 << i) decreases i
{ let x = 1u32 << i; if i == 0 { assert(x == 1 && x & 1 == 1 && x / 2 == 0) by(bit_vector) requires x == 1u32 << i, i == 0; assert(!par(0)); } else { let k = sub(i, 1); lemma_par1(k); assert(x != 0 && x & 1 == 0 && x / 2 == 1u32 << k) by(bit_vector) requires x == 1u32 << i, k == sub(i, 1), 0 < i < 32; } }
pub open spec fn sg(p: bool, x: Re) -> Re { if p { rneg(x) } else { x } }
pub proof fn lemma_sg(p: bool, q: bool, x: Re, y: Re) ensures sg(p, radd(x, y)) == radd(sg(p, x), sg(p, y)), sg(p != q, rmul(x, y)) == rmul(sg(p, x), sg(q, y)), sg(p != q, x) == sg(p, sg(q, x)), sg(p, r0()) == r0()
{ lemma_rneg(x, y); lemma_rneg(rmul(x, y), y); lemma_rmul_neg(x, y); lemma_rmul_neg(y, x); lemma_rmul_neg(rneg(x), y); ax_mul(x, y, y); ax_mul(y, x, x); ax_mul(rneg(x), y, y); ax_mul(y, rneg(x), y); }
/// the Walsh-Hadamard transform: the sum with the sign of the parity of v & w
pub open spec fn cs(f: Seq<Re>, w: u32, k: int) -> Re decreases k { if k <= 0 { r0() } else { radd(cs(f, w, k - 1), sg(par(((k - 1) as u32) & w), f[k - 1])) } }
pub open spec fn bf(a: Re, x: Re, set: bool) -> Re { if set { rsub(x, a) } else { radd(a, x) } }
/// the rounds on the bits i .. l-1, the highest first
pub open spec fn hh(f: Seq<Re>, w: u32, i: int, l: int) -> Re decreases l - i { if i >= l { f[w as int] } else { let b = 1u32 << (i as u32); bf(hh(f, w, i + 1, l), hh(f, w ^ b, i + 1, l), w & b != 0) } }
/// the rounds on the bits 0 .. i-1, the lowest first
pub open spec fn lo(f: Seq<Re>, w: u32, i: int) -> Re decreases i { if i <= 0 { f[w as int] } else { let b = 1u32 << ((i - 1) as u32); bf(lo(f, w, i - 1), lo(f, w ^ b, i - 1), w & b != 0) } }
pub open spec fn hs(f: Seq<Re>, w: u32, m: u32, k: int) -> Re decreases k { if k <= 0 { r0() } else { let v = (k - 1) as u32; let p = hs(f, w, m, k - 1); if (v ^ w) & m == 0 { radd(p, sg(par(v & w & !m), f[k - 1])) } else { p } } }
pub proof fn lemma_hs0(f: Seq<Re>, w: u32, k: int) requires 0 <= k <= 0x4000_0000, ensures hs(f, w, 0, k) == cs(f, w, k) decreases k
{ if k > 0 { lemma_hs0(f, w, k - 1); let v = (k - 1) as u32; assert((v ^ w) & 0 == 0 && v & w & !0u32 == v & w) by(bit_vector); } }
pub proof fn lemma_hsb(f: Seq<Re>, w: u32, l: u32, k: int) requires l <= 30, w < 1u32 << l, 0 <= k <= 1u32 << l, ensures hs(f, w, sub(1u32 << l, 1), k) == (if k > w { f[w as int] } else { r0() }) decreases k
{ if k > 0 { lemma_hsb(f, w, l, k - 1); let v = (k - 1) as u32; let m = sub(1u32 << l, 1); assert((v ^ w) & m == 0 <==> v == w) by(bit_vector) requires l <= 30, w < 1u32 << l, v < 1u32 << l, m == sub(1u32 << l, 1); assert(w & w & !m == 0) by(bit_vector) requires l <= 30, w < 1u32 << l, m == sub(1u32 << l, 1); assert(!par(0)); ax_add(r0(), f[w as int], f[w as int]); ax_add(f[w as int], r0(), r0()); } }
pub proof fn lemma_hstep(f: Seq<Re>, w: u32, i: u32, k: int) requires i <= 29, 0 <= k <= 0x4000_0000, ensures ({ let b = 1u32 << i; let m = sub(b, 1); let n = sub(1u32 << add(i, 1), 1); hs(f, w, m, k) == bf(hs(f, w, n, k), hs(f, w ^ b, n, k), w & b != 0) }) decreases k
{
    let b = 1u32 << i; let m = sub(b, 1); let n = sub(1u32 << add(i, 1), 1); let x = w ^ b;
    if k > 0 {
        lemma_hstep(f, w, i, k - 1); let v = (k - 1) as u32; let e = f[k - 1]; let p = hs(f, w, n, k - 1); let q = hs(f, x, n, k - 1);
        assert((v ^ w) & m == 0 <==> ((v ^ w) & n == 0 || (v ^ x) & n == 0)) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, x == w ^ b;
        assert(!((v ^ w) & n == 0 && (v ^ x) & n == 0)) by(bit_vector) requires b == 1u32 << i, n == sub(1u32 << add(i, 1), 1), i <= 29, x == w ^ b;
        if (v ^ w) & n == 0 {
            let s0 = v & w & !n; let s1 = v & w & !m;
            assert(w & b == 0 ==> s1 == s0) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, s0 == v & w & !n, s1 == v & w & !m;
            assert(w & b != 0 ==> s1 == s0 ^ b) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, s0 == v & w & !n, s1 == v & w & !m, (v ^ w) & n == 0;
            lemma_par(s0, b); lemma_par1(i); let y = sg(par(s0), e);
            if w & b != 0 { lemma_rneg(p, y); lemma_rneg(e, e); ax_add(q, rneg(p), rneg(y)); assert(sg(par(s1), e) == rneg(y)); } else { ax_add(p, q, y); ax_add(q, y, y); ax_add(p, y, q); ax_add(y, q, q); }
        } else if (v ^ x) & n == 0 {
            let s0 = v & x & !n; let s1 = v & w & !m;
            assert(s1 == s0) by(bit_vector) requires b == 1u32 << i, m == sub(b, 1), n == sub(1u32 << add(i, 1), 1), i <= 29, s0 == v & x & !n, s1 == v & w & !m, (v ^ x) & n == 0, x == w ^ b;
            let y = sg(par(s0), e);
            if w & b != 0 { ax_add(q, rneg(p), y); ax_add(rneg(p), y, y); ax_add(q, y, rneg(p)); } else { ax_add(p, q, y); }
        }
    } else { ax_add(r0(), r0(), r0()); lemma_rneg(r0(), r0()); }
}
pub proof fn lemma_hg(f: Seq<Re>, w: u32, i: int, l: int) requires 0 <= i <= l <= 30, w < 1u32 << (l as u32), ensures hh(f, w, i, l) == hs(f, w, low(i), (1u32 << (l as u32)) as int) decreases l - i
{
    let s = l as u32; let n = (1u32 << s) as int; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30;
    if i < l { let t = i as u32; lemma_bit(w, t, s); lemma_hg(f, w, i + 1, l); lemma_hg(f, w ^ (1u32 << t), i + 1, l); lemma_hstep(f, w, t, n); assert(add(t, 1) == (i + 1) as u32); }
    else { lemma_hsb(f, w, s, n); }
}
pub proof fn lemma_hall(f: Seq<Re>, w: u32, l: int) requires 0 <= l <= 30, w < 1u32 << (l as u32), ensures hh(f, w, 0, l) == cs(f, w, (1u32 << (l as u32)) as int)
{ let s = l as u32; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30; lemma_hg(f, w, 0, l); assert(1u32 << 0u32 == 1) by(bit_vector); lemma_hs0(f, w, (1u32 << s) as int); }
/// (d - c) - (b - a) == (d - b) - (c - a)
pub proof fn lemma_sub44(a: Re, b: Re, c: Re, d: Re) ensures rsub(rsub(d, c), rsub(b, a)) == rsub(rsub(d, b), rsub(c, a))
{ lemma_rneg(b, rneg(a)); lemma_rneg(c, rneg(a)); lemma_rneg(a, a); let m = rneg(c); let k = rneg(b); ax_add(d, m, radd(k, a)); ax_add(m, k, a); ax_add(k, m, a); ax_add(d, k, radd(m, a)); }
pub proof fn lemma_hcomm(r1: Seq<Re>, r2: Seq<Re>, w: u32, t: int, i: int, l: int)
    requires 0 <= i < t <= l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] r2[v as int] == bf(r1[v as int], r1[(v ^ (1u32 << (i as u32))) as int], v & (1u32 << (i as u32)) != 0),
    ensures ({ let b = 1u32 << (i as u32); hh(r2, w, t, l) == bf(hh(r1, w, t, l), hh(r1, w ^ b, t, l), w & b != 0) }) decreases l - t
{
    let b = 1u32 << (i as u32);
    if t < l {
        let tt0 = t as u32; let q = 1u32 << tt0; let ii = i as u32; let ll = l as u32;
        lemma_bit(w, tt0, ll); lemma_bit(w, ii, ll);
        assert((w ^ q) & b == w & b && (w ^ b) & q == w & q && (w ^ q) ^ b == (w ^ b) ^ q) by(bit_vector) requires q == 1u32 << tt0, b == 1u32 << ii, ii < tt0, tt0 < 32;
        lemma_hcomm(r1, r2, w, t + 1, i, l); lemma_hcomm(r1, r2, w ^ q, t + 1, i, l);
        let a = hh(r1, w, t + 1, l); let e = hh(r1, w ^ b, t + 1, l); let c = hh(r1, w ^ q, t + 1, l); let d = hh(r1, (w ^ b) ^ q, t + 1, l);
        if w & q == 0 { if w & b == 0 { ax_add(a, e, radd(c, d)); ax_add(e, c, d); ax_add(c, e, d); ax_add(a, c, radd(e, d)); } else { lemma_sub4(e, d, a, c); } }
        else { if w & b == 0 { lemma_sub4(c, d, a, e); } else { lemma_sub44(a, e, c, d); } }
    }
}
pub open spec fn los(c: Seq<Re>, i: int, l: int) -> Seq<Re> { Seq::new((1u32 << (l as u32)) as nat, |w: int| lo(c, w as u32, i)) }
/// the order of the rounds does not matter
pub proof fn lemma_order(c: Seq<Re>, w: u32, i: int, l: int) requires 0 <= i <= l <= 30, w < 1u32 << (l as u32), ensures hh(los(c, i, l), w, i, l) == lo(c, w, l) decreases l - i
{
    let s = l as u32; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30;
    if i < l {
        lemma_order(c, w, i + 1, l); let r1 = los(c, i, l); let r2 = los(c, i + 1, l); let b = 1u32 << (i as u32);
        assert forall|v: u32| v < 1u32 << s implies #[trigger] r2[v as int] == bf(r1[v as int], r1[(v ^ b) as int], v & b != 0) by { lemma_bit(v, i as u32, s); }
        lemma_hcomm(r1, r2, w, i + 1, i, l);
    }
}
pub proof fn lemma_hsame(x: Seq<Re>, y: Seq<Re>, w: u32, i: int, l: int) requires 0 <= i <= l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] x[v as int] == y[v as int], ensures hh(x, w, i, l) == hh(y, w, i, l) decreases l - i
{ if i < l { lemma_bit(w, i as u32, l as u32); lemma_hsame(x, y, w, i + 1, l); lemma_hsame(x, y, w ^ (1u32 << (i as u32)), i + 1, l); } }
pub proof fn lemma_lo(c: Seq<Re>, w: u32, l: int) requires 0 <= l <= 30, w < 1u32 << (l as u32), ensures lo(c, w, l) == cs(c, w, (1u32 << (l as u32)) as int)
{ lemma_order(c, w, 0, l); let s = l as u32; assert(1u32 << s <= 0x4000_0000) by(bit_vector) requires s <= 30; lemma_hsame(los(c, 0, l), c, w, 0, l); lemma_hall(c, w, l); }
pub proof fn lemma_rcast(a: nat, b: nat) ensures rcast(a + b) == radd(rcast(a), rcast(b)) decreases b
{ if b > 0 { lemma_rcast(a, (b - 1) as nat); ax_add(rcast(a), rcast((b - 1) as nat), r1()); assert((a + b - 1) as nat == a + (b - 1) as nat); } else { ax_add(rcast(a), r0(), r0()); } }
/// the transform applied twice multiplies by the size
pub proof fn lemma_invol(c: Seq<Re>, x: Seq<Re>, w: u32, i: int, l: int) requires 0 <= i <= l <= 30, w < 1u32 << (l as u32), forall|v: u32| v < 1u32 << (l as u32) ==> #[trigger] x[v as int] == lo(c, v, l), ensures hh(x, w, i, l) == rmul(rcast(pow2((l - i) as nat)), lo(c, w, i)) decreases l - i
{
    if i < l {
        let ii = i as u32; let b = 1u32 << ii; let y = w ^ b; lemma_bit(w, i as u32, l as u32); lemma_invol(c, x, w, i + 1, l); lemma_invol(c, x, y, i + 1, l);
        assert(y ^ b == w && (y & b != 0) == (w & b == 0)) by(bit_vector) requires y == w ^ b, b == 1u32 << ii, ii < 30;
        let k = rcast(pow2((l - i - 1) as nat)); let A = lo(c, w, i); let B = lo(c, y, i); let u = lo(c, w, i + 1); let v = lo(c, y, i + 1);
        vstd::arithmetic::power2::lemma_pow2_unfold((l - i) as nat); lemma_rcast(pow2((l - i - 1) as nat), pow2((l - i - 1) as nat));
        ax_dist(A, k, k); ax_mul(A, k, k); ax_mul(A, radd(k, k), k); ax_dist(k, A, A); ax_mul(k, A, A);
        assert(rmul(rcast(pow2((l - i) as nat)), A) == rmul(k, radd(A, A)));
        if w & b == 0 {
            // u = A + B, v = A - B
            ax_dist(k, u, v); ax_add(A, B, rsub(A, B)); lemma_rsub(A, B); ax_add(B, A, rneg(B)); ax_add(A, rneg(B), B); ax_add(B, rsub(A, B), A); assert(radd(u, v) == radd(A, A));
        } else {
            // u = B - A, v = B + A;  v - u
            lemma_rmul_neg(k, u); ax_dist(k, v, rneg(u)); lemma_rneg(B, rneg(A)); lemma_rneg(A, A); ax_add(B, A, radd(rneg(B), A)); ax_add(A, rneg(B), A); ax_add(rneg(B), A, A); ax_add(B, rneg(B), radd(A, A)); ax_add(r0(), radd(A, A), A); ax_add(radd(A, A), r0(), A); assert(rsub(v, u) == radd(A, A));
        }
    } else { lemma_one(w, x); ax_mul(lo(c, w, i), r1(), r1()); ax_mul(r1(), lo(c, w, i), r1()); }
}
pub proof fn lemma_one(w: u32, x: Seq<Re>) ensures rcast(pow2(0)) == r1() { vstd::arithmetic::power2::lemma2_to64(); reveal_with_fuel(rcast, 2); ax_add(r0(), r1(), r1()); ax_add(r1(), r0(), r0()); }
pub proof fn lemma_spoint(a: Seq<Re>, b: Seq<Re>, w: u32, k0: int, x: Re, hi: int) requires 0 <= k0 < a.len(), a.len() == b.len(), 0 <= hi <= a.len(), b[k0] == radd(a[k0], x), forall|k: int| 0 <= k < a.len() && k != k0 ==> #[trigger] b[k] == a[k],
    ensures cs(b, w, hi) == (if k0 < hi { radd(cs(a, w, hi), sg(par((k0 as u32) & w), x)) } else { cs(a, w, hi) }) decreases hi
{
    if hi > 0 { lemma_spoint(a, b, w, k0, x, hi - 1); let p = cs(a, w, hi - 1); let q = par(((hi - 1) as u32) & w); let y = sg(par((k0 as u32) & w), x); let z = sg(q, a[hi - 1]); lemma_sg(q, q, a[hi - 1], x); ax_add(p, z, y); if hi - 1 != k0 { ax_add(p, y, z); ax_add(y, z, p); assert(b[hi - 1] == a[hi - 1]); } }
}
pub proof fn lemma_szero(c: Seq<Re>, w: u32, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] c[k] == r0(), ensures cs(c, w, n) == r0() decreases n { if n > 0 { lemma_szero(c, w, n - 1); ax_add(r0(), r0(), r0()); assert(c[n - 1] == r0()); lemma_rneg(r0(), r0()); } }
pub proof fn lemma_sprod(f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, i: int, j: int) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), 0 <= i <= pw(l), 0 <= j <= pw(l), i == pw(l) ==> j == 0,
    ensures cs(cv(2, f, g, pw(l) as int, i, j), w, pw(l) as int) == ({ let a = rmul(cs(f, w, i), cs(g, w, pw(l) as int)); if i < pw(l) { radd(a, rmul(sg(par((i as u32) & w), f[i]), cs(g, w, j))) } else { a } }) decreases i, j
{
    lemma_pow(l); let n = pw(l) as int; let c = cv(2, f, g, n, i, j); let G = cs(g, w, n); let a = rmul(cs(f, w, i), G); 
    if j > 0 {
        lemma_sprod(f, g, w, l, i, j - 1); let c1 = cv(2, f, g, n, i, j - 1); let x = rmul(f[i], g[j - 1]); let k0 = kop(2, i, j - 1, n);
        lemma_kop(2, i as i32, (j - 1) as i32, pw(l), l); let s = i as u32; let t = (j - 1) as u32; let si = i as i32; let ti = (j - 1) as i32;
        assert((si ^ ti) as u32 == s ^ t) by(bit_vector) requires s == si as u32, t == ti as u32;
        assert((s ^ t) & w == (s & w) ^ (t & w)) by(bit_vector); lemma_par(s & w, t & w); assert(k0 as u32 == s ^ t);
        assert(c[k0] == radd(c1[k0], x)); assert forall|k: int| 0 <= k < n && k != k0 implies #[trigger] c[k] == c1[k] by {}
        lemma_spoint(c1, c, w, k0, x, n);
        let p = par(s & w); let q = cs(g, w, j - 1); let y = sg(par(t & w), g[j - 1]); lemma_sg(p, par(t & w), f[i], g[j - 1]); ax_dist(sg(p, f[i]), q, y); ax_add(a, rmul(sg(p, f[i]), q), rmul(sg(p, f[i]), y));
    } else if i > 0 {
        lemma_sprod(f, g, w, l, i - 1, n); let c1 = cv(2, f, g, n, i - 1, n); assert(c =~= c1) by { assert forall|k: int| 0 <= k < n implies c[k] == c1[k] by {} }
        let p = cs(f, w, i - 1); let y = sg(par(((i - 1) as u32) & w), f[i - 1]); ax_mul(p, G, G); ax_mul(y, G, G); ax_mul(radd(p, y), G, G); ax_dist(G, p, y);
        if i < n { lemma_rmul0(sg(par((i as u32) & w), f[i])); ax_add(a, a, a); }
    } else {
        lemma_szero(c, w, n); lemma_rmul0(G); lemma_rmul0(sg(par(0u32 & w), f[0])); ax_add(r0(), r0(), r0()); assert(par((i as u32) & w) == par(0u32 & w));
    }
}
pub open spec fn xprd(f: Seq<Re>, g: Seq<Re>, w: u32) -> Re { rmul(cs(f, w, f.len() as int), cs(g, w, f.len() as int)) }
pub proof fn lemma_unit(c: Re, d: Re) requires runit(d), ensures rdiv(rmul(d, c), d) == c
{ let a = rmul(d, c); let q = rdiv(a, d); ax_div(a, d); let e = choose|e: Re| #[trigger] rmul(e, d) == r1(); ax_mul(q, d, e); ax_mul(c, d, e); ax_mul(d, c, e); ax_mul(d, e, e); ax_mul(q, r1(), e); ax_mul(c, r1(), e); }
pub proof fn lemma_xor(f: Seq<Re>, g: Seq<Re>, x: Seq<Re>, r: Seq<Re>, l: i32) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), x.len() == pw(l), r.len() == pw(l), forall|w: u32| w < pw(l) ==> #[trigger] x[w as int] == xprd(f, g, w), forall|w: u32| w < pw(l) ==> #[trigger] r[w as int] == cs(x, w, pw(l) as int),
    ensures forall|k: int| 0 <= k < pw(l) ==> #[trigger] r[k] == rmul(rint(pw(l) as int), ks(2, f, g, pw(l) as int, k, pw(l) as int, 0))
{
    lemma_pow(l); let n = pw(l) as int; let c = cv(2, f, g, n, n, 0);
    assert forall|w: u32| w < 1u32 << (l as u32) implies #[trigger] x[w as int] == lo(c, w, l as int) by { lemma_sprod(f, g, w, l, n, 0); lemma_lo(c, w, l as int); assert(x[w as int] == xprd(f, g, w)); }
    assert forall|k: int| 0 <= k < n implies #[trigger] r[k] == rmul(rint(n), ks(2, f, g, n, k, n, 0)) by { let w = k as u32; assert(r[w as int] == cs(x, w, n)); lemma_invol(c, x, w, 0, l as int); lemma_hall(x, w, l as int); }
}
"""

def wht():
    c = [x for x in arith().contracts if x.rust == "arith_plus"][0]
    def sub(t):
        return t.replace("drange(old(f)@, w, 0, ", "cs(old(f)@, w, ").replace("drange(f0, w, 0, ", "cs(f0, w, ").replace("lemma_tall", "lemma_hall").replace("tt(f0", "hh(f0") if isinstance(t, str) else t
    L = {k: {a: ([sub(y) for y in b] if isinstance(b, list) else sub(b)) for a, b in v.items()} for k, v in c.loops.items()}
    return Contract("wht", MM + "fast_walsh_hadamard_transform", targs=["altruct::Re"], params=["f", "log_n"], requires=c.requires, ensures=[sub(x) for x in c.ensures], hints={k: sub(v) for k, v in c.hints.items()}, loops=L)

def xorc(al):
    R, F, G = {"": "rfg", "rf": "ffg", "rg": "gfg", "fg": "rff", "all": "fff"}[al]
    ps = list(dict.fromkeys([R, F, G]))
    g0 = "g0" if G == "g" else "f0"
    req = ["0 <= log_n <= 30", "runit(rint(pw(log_n) as int))"] + ["old(%s)@.len() == pw(log_n)" % x for x in ps]
    ens = ["final(%s)@.len() == pw(log_n)" % R, "forall|k: int| 0 <= k < pw(log_n) ==> #[trigger] final(%s)@[k] == ks(2, old(%s)@, old(%s)@, pw(log_n) as int, k, pw(log_n) as int, 0)" % (R, F, G)]
    base = ["$n == pw(log_n)", "0 <= $k <= $n", "1 <= $n <= 0x4000_0000", "(1u32 << (log_n as u32)) == $n"] + ["%s@.len() == $n" % x for x in ps]
    inv = list(base)
    for x, S in ((F, "f0"), (G, g0)):
        inv.append("forall|v: u32| %s < $n ==> #[trigger] %s@[v as int] == cs(%s, v, $n as int)" % ("$k <= v" if x == R else "v", x, S))
    inv.append("forall|v: u32| v < $k ==> #[trigger] %s@[v as int] == xprd(f0, %s, v)" % (R, g0))
    KS = "ks(2, f0, %s, $n as int, t, $n as int, 0)" % g0
    hints = {"entry": "let ghost mut rm = Seq::<Re>::empty(); let ghost mut rr = Seq::<Re>::empty(); " + "".join("let ghost %s0 = %s@; " % (x, x) for x in ps if x != "r") + "proof { lemma_pow(log_n); }",
        "L0.begin": "proof { let v = $k as u32; assert(%s@[v as int] == cs(f0, v, $n as int)); assert(%s@[v as int] == cs(%s, v, $n as int)); }" % (F, G, g0),
        "L0.after": "proof { rm = %s@; }" % R, "L1.before": "proof { rr = %s@; lemma_xor(f0, %s, rm, rr, log_n); }" % (R, g0),
        "L1.begin": "proof { let t = $k as int; lemma_unit(%s, rint($n as int)); assert(rr[t] == rmul(rint($n as int), %s)); }" % (KS, KS)}
    return Contract("xor_conv_%s" % (al or "apart"), MM + ("xor_convolution" if not al else "xor_conv_%s" % al), targs=["altruct::Re"] if not al else None, params=ps + ["log_n"], requires=req, ensures=ens, hints=hints,
        loops={0: dict(invariant=inv, decreases="$n - $k"),
               1: dict(invariant=base + ["runit(rint($n as int))", "rr.len() == $n", "forall|t: int| 0 <= t < $n ==> #[trigger] rr[t] == rmul(rint($n as int), %s)" % KS, "forall|t: int| 0 <= t < $k ==> #[trigger] %s@[t] == %s" % (R, KS), "forall|t: int| $k <= t < $n ==> #[trigger] %s@[t] == rr[t]" % R], decreases="$n - $k")})

def xoru(inpl):
    cs = [wht()] + [xorc(al) for al in (("rf", "rg", "fg", "all") if inpl else ("",))]
    tu = "template void fast_walsh_hadamard_transform<Re>(Re*, int); template void xor_convolution<Re>(Re*, Re*, Re*, int);\n"
    for al, a in (("rf", "ffg"), ("rg", "gfg"), ("fg", "rff"), ("all", "fff")):
        tu += "void xor_conv_%s(%s, int log_n) { xor_convolution(%s, log_n); }\n" % (al, ", ".join("Re* " + x for x in dict.fromkeys(a)), ", ".join(a))
    v = mk("xor_inplace" if inpl else "xor", cs, tu)
    v.specs += ASPEC + OSPEC + XSPEC
    import combos
    v.hooks.insert(0, combos.Hook())
    v.tu = v.tu.replace("Re operator+(const Re& o) const;", "Re& operator/=(int); Re operator+(const Re& o) const;", 1)
    return v

FSPEC = r"""
pub trait CloneVV: Sized { fn clone_c(&self) -> (r: Self) ensures r == *self; }
impl<T: Copy> CloneVV for Vec<Vec<T>> { #[verifier::external_body] fn clone_c(&self) -> (r: Self) { self.clone() } }
#[verifier::external_body]
pub fn vec_new_vvn<T: Copy>(n: u64, x: Vec<T>) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == x@ { vec![x; n as usize] }
/// number of bits set
pub open spec fn pc(x: u32) -> int decreases x { if x == 0 { 0 } else { (x & 1) as int + pc(x / 2) } }
#[verifier::external_body] pub fn bit_cnt1_u32(x: u32) -> (r: i32) ensures r == pc(x) { x.count_ones() as i32 }
pub proof fn lemma_pcs(x: u32) ensures pc(x) == (x & 1) + pc(x / 2), x & 1 <= 1 { assert(x & 1 <= 1 && 0u32 & 1 == 0) by(bit_vector); if x == 0 { assert(0u32 & 1 == 0) by(bit_vector); assert(x / 2 == 0); } }
pub proof fn lemma_pc(a: u32, b: u32) ensures pc(a | b) + pc(a & b) == pc(a) + pc(b), pc(a) >= 0, pc(a) == 0 ==> a == 0 decreases a + b
{
    if a != 0 || b != 0 {
        lemma_pc(a / 2, b / 2); lemma_pcs(a); lemma_pcs(b); lemma_pcs(a | b); lemma_pcs(a & b);
        assert((a | b) / 2 == (a / 2) | (b / 2) && (a & b) / 2 == (a / 2) & (b / 2)) by(bit_vector);
        let (x, y) = (a & 1, b & 1);
        assert((a | b) & 1 == x | y && (a & b) & 1 == x & y && add(x | y, x & y) == add(x, y) && (x | y) <= 1 && (x & y) <= 1) by(bit_vector) requires x == a & 1, y == b & 1;
        assert((a & 1) == 0 && a / 2 == 0 ==> a == 0) by(bit_vector);
    } else { assert(0u32 | 0u32 == 0 && 0u32 & 0u32 == 0) by(bit_vector); }
}
pub proof fn lemma_pcl(w: u32, l: u32) requires l <= 30, w < 1u32 << l, ensures 0 <= pc(w) <= l decreases l
{ if w != 0 { if l == 0 { assert(1u32 << 0u32 == 1) by(bit_vector); } else { let m = (l - 1) as u32; assert(w / 2 < 1u32 << m && w & 1 <= 1) by(bit_vector) requires w < 1u32 << l, m == sub(l, 1), 1 <= l <= 30; lemma_pcl(w / 2, m); } } }
/// the parts of w
pub proof fn lemma_parts(u: u32, w: u32) requires u & w == u, ensures pc(u) + pc(w ^ u) == pc(w), u | (w ^ u) == w, pc(u) <= pc(w)
{ let v = w ^ u; assert(u | v == w && u & v == 0) by(bit_vector) requires u & w == u, v == w ^ u; lemma_pc(u, v); lemma_pc(v, u); }
pub open spec fn msk(f: Seq<Re>, j: int) -> Seq<Re> { Seq::new(f.len(), |v: int| if pc(v as u32) == j { f[v] } else { r0() }) }
pub open spec fn below(f: Seq<Re>, j: int) -> Seq<Re> { Seq::new(f.len(), |v: int| if pc(v as u32) < j { f[v] } else { r0() }) }
/// a row of the pairs (i, v) with i | v == w, the sizes of both adding up to that of w: only v = w ^ i
pub proof fn lemma_row1(f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, j: int, i: int, c: int) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), 0 <= i < pw(l), 0 <= c <= pw(l),
    ensures ({ let n = pw(l) as int; let (a, b) = (msk(f, j), msk(g, pc(w) - j)); ks(1, a, b, n, w as int, i, c) == (if i as u32 & w == i as u32 && pc(i as u32) == j && (w ^ (i as u32)) < c { radd(ks(1, a, b, n, w as int, i, 0), rmul(f[i], g[(w ^ (i as u32)) as int])) } else { ks(1, a, b, n, w as int, i, 0) }) }) decreases c
{
    let n = pw(l) as int; let (a, b) = (msk(f, j), msk(g, pc(w) - j)); lemma_pow(l);
    if c > 0 {
        lemma_row1(f, g, w, l, j, i, c - 1); let (x, y) = (i as u32, (c - 1) as u32); let p = ks(1, a, b, n, w as int, i, c - 1);
        let (xi, yi) = (i as i32, (c - 1) as i32); assert((xi | yi) >= 0 && (xi | yi) as u32 == x | y) by(bit_vector) requires 0 <= xi, 0 <= yi, x == xi as u32, y == yi as u32;
        if kop(1, i, c - 1, n) == w {
            assert(x | y == w); lemma_rmul0(b[c - 1]); lemma_rmul0(a[i]); ax_add(p, r0(), r0());
            assert(x & w == x) by(bit_vector) requires x | y == w;
            if pc(x) == j && pc(y) == pc(w) - j { lemma_pc(x, y); lemma_pc(x & y, 0); assert(x & y == 0); assert(y == w ^ x) by(bit_vector) requires x | y == w, x & y == 0; }
            else if y == w ^ x { lemma_parts(x, w); }
        } else if x & w == x && y == w ^ x { lemma_parts(x, w); }
    }
}
pub proof fn lemma_rows1(f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, j: int, i: int) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), 0 <= i <= pw(l),
    ensures ks(1, msk(f, j), msk(g, pc(w) - j), pw(l) as int, w as int, i, 0) == drange(msk(cprod(f, g, w), j), w, 0, i) decreases i
{
    if i > 0 { let n = pw(l) as int; lemma_pow(l); lemma_rows1(f, g, w, l, j, i - 1); lemma_row1(f, g, w, l, j, i - 1, n); let x = (i - 1) as u32; let s = l as u32; assert((w ^ x) < (1u32 << s)) by(bit_vector) requires w < 1u32 << s, x < 1u32 << s, s <= 30; let p = drange(msk(cprod(f, g, w), j), w, 0, i - 1); ax_add(p, r0(), r0()); }
}
pub proof fn lemma_dadd(x: Seq<Re>, y: Seq<Re>, z: Seq<Re>, w: u32, k: int) requires forall|t: int| 0 <= t < k ==> #[trigger] z[t] == radd(x[t], y[t]), ensures drange(z, w, 0, k) == radd(drange(x, w, 0, k), drange(y, w, 0, k)) decreases k
{ if k > 0 { lemma_dadd(x, y, z, w, k - 1); assert(z[k - 1] == radd(x[k - 1], y[k - 1])); let (p, q, a, b) = (drange(x, w, 0, k - 1), drange(y, w, 0, k - 1), x[k - 1], y[k - 1]); ax_add(p, q, radd(a, b)); ax_add(q, a, b); ax_add(a, q, b); ax_add(p, a, radd(q, b)); } else { ax_add(r0(), r0(), r0()); } }
pub proof fn lemma_below(c: Seq<Re>, w: u32, n: int, j: int) requires 0 <= n <= 0x4000_0000, c.len() == n, ensures drange(below(c, j + 1), w, 0, n) == radd(drange(below(c, j), w, 0, n), drange(msk(c, j), w, 0, n))
{ let (x, y, z) = (below(c, j), msk(c, j), below(c, j + 1)); assert forall|t: int| 0 <= t < n implies #[trigger] z[t] == radd(x[t], y[t]) by { ax_add(c[t], r0(), r0()); ax_add(r0(), c[t], r0()); ax_add(r0(), r0(), r0()); } lemma_dadd(x, y, z, w, n); }
pub proof fn lemma_ball(c: Seq<Re>, w: u32, k: int) requires 0 <= k <= c.len(), c.len() <= 0x4000_0000, ensures drange(below(c, pc(w) + 1), w, 0, k) == drange(c, w, 0, k) decreases k
{ if k > 0 { lemma_ball(c, w, k - 1); let u = (k - 1) as u32; if u & w == u { lemma_parts(u, w); } } }
/// the parts of the product by the size of the left factor
pub open spec fn esum(f: Seq<Re>, g: Seq<Re>, n: int, k: int, j: int, w: int) -> Re decreases j { if j <= 0 { r0() } else { radd(esum(f, g, n, k, j - 1, w), ks(1, msk(f, j - 1), msk(g, k - (j - 1)), n, w, n, 0)) } }
pub open spec fn hsum(f: Seq<Re>, g: Seq<Re>, k: int, j: int, w: u32) -> Re decreases j { if j <= 0 { r0() } else { radd(hsum(f, g, k, j - 1, w), prd(msk(f, j - 1), msk(g, k - (j - 1)), w)) } }
pub open spec fn esq(f: Seq<Re>, g: Seq<Re>, n: int, k: int, j: int) -> Seq<Re> { Seq::new(n as nat, |w: int| esum(f, g, n, k, j, w)) }
pub proof fn lemma_esum(f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, k: int, j: int) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), 0 <= j, ensures drange(esq(f, g, pw(l) as int, k, j), w, 0, pw(l) as int) == hsum(f, g, k, j, w) decreases j
{
    lemma_pow(l); let n = pw(l) as int; let z = esq(f, g, n, k, j);
    if j > 0 { lemma_esum(f, g, w, l, k, j - 1); let (a, b) = (msk(f, j - 1), msk(g, k - (j - 1))); let c = cv(1, a, b, n, n, 0); let x = esq(f, g, n, k, j - 1); assert forall|t: int| 0 <= t < n implies #[trigger] z[t] == radd(x[t], c[t]) by {} lemma_dadd(x, c, z, w, n); lemma_prod(1, a, b, w, l, n, 0); lemma_dr1(a, w, 0, n); lemma_dr1(b, w, 0, n); lemma_dr1(c, w, 0, n); }
    else { assert forall|t: int| 0 <= t < n implies #[trigger] z[t] == r0() by {} lemma_dzero(1, z, w, n); lemma_dr1(z, w, 0, n); }
}
pub proof fn lemma_etop(f: Seq<Re>, g: Seq<Re>, w: u32, l: i32, j: int) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), 0 <= j, ensures esum(f, g, pw(l) as int, pc(w), j, w as int) == drange(below(cprod(f, g, w), j), w, 0, pw(l) as int) decreases j
{
    lemma_pow(l); let n = pw(l) as int; let c = cprod(f, g, w);
    if j > 0 { lemma_etop(f, g, w, l, j - 1); lemma_rows1(f, g, w, l, j - 1, n); lemma_below(c, w, n, j - 1); }
    else { let z = below(c, 0); assert forall|t: int| 0 <= t < n implies #[trigger] z[t] == r0() by { lemma_pc(t as u32, 0); } lemma_dzero(1, z, w, n); lemma_dr1(z, w, 0, n); }
}
pub open spec fn fsc(f: Seq<Re>, g: Seq<Re>, w: u32) -> Re { drange(cprod(f, g, w), w, 0, f.len() as int) }
#[verifier::opaque]
pub open spec fn zeta(x: Seq<Re>, m: Seq<Re>) -> bool { x.len() == m.len() && forall|w: u32| w < m.len() ==> #[trigger] x[w as int] == drange(m, w, 0, m.len() as int) }
#[verifier::opaque]
pub open spec fn isinv(h: Seq<Re>, f: Seq<Re>, g: Seq<Re>, k: int) -> bool { h.len() == f.len() && forall|w: u32| w < f.len() ==> #[trigger] drange(h, w, 0, f.len() as int) == hsum(f, g, k, k + 1, w) }
#[verifier::opaque]
/// the elements below k, spread over the rows by the size of their index
pub open spec fn spread(a: Seq<Vec<Re>>, f: Seq<Re>, l: int, k: int) -> bool { a.len() == l + 1 && (forall|j: int| 0 <= j <= l ==> (#[trigger] a[j])@.len() == f.len()) && forall|j: int, v: int| 0 <= j <= l && 0 <= v < f.len() ==> #[trigger] a[j]@[v] == (if v < k && pc(v as u32) == j { f[v] } else { r0() }) }
#[verifier::opaque]
/// the rows before k are transformed
pub open spec fn ztab(a: Seq<Vec<Re>>, f: Seq<Re>, l: int, k: int) -> bool { a.len() == l + 1 && forall|j: int| 0 <= j <= l ==> if j < k { zeta((#[trigger] a[j])@, msk(f, j)) } else { a[j]@ == msk(f, j) } }
#[verifier::opaque]
/// row k up to the term j (in the columns before w: including it), those before complete, those behind still zero
pub open spec fn htab(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int, j: int, w: int) -> bool { a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len()) && forall|t: int, v: int| 0 <= t <= l && 0 <= v < f.len() ==> #[trigger] a[t]@[v] == hsum(f, g, t, if t < k { t + 1 } else if t == k { if v < w { j + 1 } else { j } } else { 0 }, v as u32) }
#[verifier::opaque]
pub open spec fn itab(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int) -> bool { a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len()) && (forall|t: int| 0 <= t < k ==> isinv((#[trigger] a[t])@, f, g, t)) && forall|t: int, v: int| k <= t <= l && 0 <= v < f.len() ==> #[trigger] a[t]@[v] == hsum(f, g, t, t + 1, v as u32) }
pub proof fn lemma_spread0(a: Seq<Vec<Re>>, f: Seq<Re>, l: int) requires a.len() == l + 1, forall|j: int| 0 <= j <= l ==> (#[trigger] a[j])@.len() == f.len(), forall|j: int, v: int| 0 <= j <= l && 0 <= v < f.len() ==> #[trigger] a[j]@[v] == r0(), ensures spread(a, f, l, 0) { reveal(spread); }
pub proof fn lemma_spread(a: Seq<Vec<Re>>, b: Seq<Vec<Re>>, f: Seq<Re>, l: int, k: int, j: int) requires spread(a, f, l, k), 0 <= k < f.len() <= 0x4000_0000, j == pc(k as u32), 0 <= j <= l, b.len() == a.len(), forall|t: int| 0 <= t <= l && t != j ==> #[trigger] b[t] == a[t], b[j]@ == a[j]@.update(k, f[k]), ensures spread(b, f, l, k + 1)
{ reveal(spread); assert forall|t: int, v: int| 0 <= t <= l && 0 <= v < f.len() implies #[trigger] b[t]@[v] == (if v < k + 1 && pc(v as u32) == t { f[v] } else { r0() }) by { assert(a[t]@[v] == (if v < k && pc(v as u32) == t { f[v] } else { r0() })); if t != j { assert(b[t] == a[t]); } } assert forall|t: int| 0 <= t <= l implies (#[trigger] b[t])@.len() == f.len() by { assert(a[t]@.len() == f.len()); } }
pub proof fn lemma_shape(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int, j: int, w: int) ensures spread(a, f, l, k) ==> a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len()), htab(a, f, g, l, k, j, w) ==> a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len()),
    ztab(a, f, l, k) ==> a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len()), itab(a, f, g, l, k) ==> a.len() == l + 1 && (forall|t: int| 0 <= t <= l ==> (#[trigger] a[t])@.len() == f.len())
{ reveal(spread); reveal(ztab); reveal(htab); reveal(itab); reveal(zeta); if ztab(a, f, l, k) { assert forall|t: int| 0 <= t <= l implies (#[trigger] a[t])@.len() == f.len() by { if t < k { assert(zeta(a[t]@, msk(f, t))); } else { assert(a[t]@ == msk(f, t)); } } } }
pub proof fn lemma_z0(a: Seq<Vec<Re>>, f: Seq<Re>, l: int) requires spread(a, f, l, f.len() as int), ensures ztab(a, f, l, 0) { reveal(spread); reveal(ztab); assert forall|j: int| 0 <= j <= l implies (#[trigger] a[j])@ == msk(f, j) by { assert(a[j]@ =~= msk(f, j)); } }
pub proof fn lemma_z(a: Seq<Vec<Re>>, b: Seq<Vec<Re>>, f: Seq<Re>, l: int, k: int) requires ztab(a, f, l, k), 0 <= k <= l, b.len() == a.len(), forall|t: int| 0 <= t <= l && t != k ==> #[trigger] b[t] == a[t], b[k]@.len() == f.len(), f.len() <= 0x4000_0000, forall|w: u32| w < f.len() ==> #[trigger] b[k]@[w as int] == drange(a[k]@, w, 0, f.len() as int), ensures ztab(b, f, l, k + 1)
{ reveal(ztab); reveal(zeta); assert(a[k]@ == msk(f, k)); assert(zeta(b[k]@, msk(f, k))); assert forall|j: int| 0 <= j <= l implies if j < k + 1 { zeta((#[trigger] b[j])@, msk(f, j)) } else { b[j]@ == msk(f, j) } by { if j != k { assert(b[j] == a[j]); } } }
pub proof fn lemma_h0(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int) requires spread(a, f, l, 0), ensures htab(a, f, g, l, 0, 0, 0) { reveal(spread); reveal(htab); }
/// one term of one entry
pub proof fn lemma_h(a: Seq<Vec<Re>>, b: Seq<Vec<Re>>, p: Seq<Vec<Re>>, q: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int, j: int, w: int) requires htab(a, f, g, l, k, j, w), 0 <= j <= k <= l, 0 <= w < f.len() <= 0x4000_0000, f.len() == g.len(), ztab(p, f, l, l + 1), ztab(q, g, l, l + 1), b.len() == a.len(), forall|t: int| 0 <= t <= l && t != k ==> #[trigger] b[t] == a[t], b[k]@ == a[k]@.update(w, radd(a[k]@[w], rmul(p[j]@[w], q[k - j]@[w]))), ensures htab(b, f, g, l, k, j, w + 1)
{
    reveal(htab); reveal(ztab); reveal(zeta); assert(zeta(p[j]@, msk(f, j))); assert(zeta(q[k - j]@, msk(g, k - j))); let u = w as u32; assert(p[j]@[u as int] == drange(msk(f, j), u, 0, f.len() as int)); assert(q[k - j]@[u as int] == drange(msk(g, k - j), u, 0, f.len() as int));
    assert(a[k]@[w] == hsum(f, g, k, j, u)); assert(hsum(f, g, k, j + 1, u) == radd(hsum(f, g, k, j, u), prd(msk(f, j), msk(g, k - j), u)));
    assert forall|t: int| 0 <= t <= l implies (#[trigger] b[t])@.len() == f.len() by { assert(a[t]@.len() == f.len()); }
    assert forall|t: int, v: int| 0 <= t <= l && 0 <= v < f.len() implies #[trigger] b[t]@[v] == hsum(f, g, t, if t < k { t + 1 } else if t == k { if v < w + 1 { j + 1 } else { j } } else { 0 }, v as u32) by { assert(a[t]@[v] == hsum(f, g, t, if t < k { t + 1 } else if t == k { if v < w { j + 1 } else { j } } else { 0 }, v as u32)); if t != k { assert(b[t] == a[t]); } }
}
pub proof fn lemma_hnext(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int, j: int) requires htab(a, f, g, l, k, j, f.len() as int), ensures htab(a, f, g, l, k, j + 1, 0)
{ reveal(htab); assert forall|t: int, v: int| 0 <= t <= l && 0 <= v < f.len() implies #[trigger] a[t]@[v] == hsum(f, g, t, if t < k { t + 1 } else if t == k { if v < 0 { j + 2 } else { j + 1 } } else { 0 }, v as u32) by {} }
pub proof fn lemma_hrow(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int) requires htab(a, f, g, l, k, k + 1, 0), ensures htab(a, f, g, l, k + 1, 0, 0)
{ reveal(htab); assert forall|t: int, v: int| 0 <= t <= l && 0 <= v < f.len() implies #[trigger] a[t]@[v] == hsum(f, g, t, if t < k + 1 { t + 1 } else if t == k + 1 { if v < 0 { 1int } else { 0 } } else { 0 }, v as u32) by { assert(a[t]@[v] == hsum(f, g, t, if t < k { t + 1 } else if t == k { if v < 0 { k + 2 } else { k + 1 } } else { 0 }, v as u32)); } }
pub proof fn lemma_i0(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int) requires htab(a, f, g, l, l + 1, 0, 0), ensures itab(a, f, g, l, 0) { reveal(htab); reveal(itab); }
pub proof fn lemma_i(a: Seq<Vec<Re>>, b: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, l: int, k: int) requires itab(a, f, g, l, k), 0 <= k <= l, f.len() <= 0x4000_0000, b.len() == a.len(), forall|t: int| 0 <= t <= l && t != k ==> #[trigger] b[t] == a[t], b[k]@.len() == f.len(), forall|w: u32| w < f.len() ==> #[trigger] a[k]@[w as int] == drange(b[k]@, w, 0, f.len() as int), ensures itab(b, f, g, l, k + 1)
{
    reveal(itab); reveal(isinv);
    assert forall|w: u32| w < f.len() implies #[trigger] drange(b[k]@, w, 0, f.len() as int) == hsum(f, g, k, k + 1, w) by { let v = w as int; assert(a[k]@[v] == hsum(f, g, k, k + 1, v as u32)); assert(a[k]@[w as int] == drange(b[k]@, w, 0, f.len() as int)); }
    assert(isinv(b[k]@, f, g, k)); assert forall|t: int| 0 <= t < k + 1 implies isinv((#[trigger] b[t])@, f, g, t) by { if t < k { assert(b[t] == a[t]); } }
    assert forall|t: int| 0 <= t <= l implies (#[trigger] b[t])@.len() == f.len() by { assert(a[t]@.len() == f.len()); }
    assert forall|t: int, v: int| k + 1 <= t <= l && 0 <= v < f.len() implies #[trigger] b[t]@[v] == hsum(f, g, t, t + 1, v as u32) by { assert(b[t] == a[t]); assert(a[t]@[v] == hsum(f, g, t, t + 1, v as u32)); }
}
pub proof fn lemma_fin(a: Seq<Vec<Re>>, f: Seq<Re>, g: Seq<Re>, w: u32, l: i32) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), itab(a, f, g, l as int, l + 1), ensures 0 <= pc(w) <= l, a[pc(w)]@[w as int] == fsc(f, g, w)
{ lemma_pow(l); lemma_pcl(w, l as u32); reveal(itab); assert(isinv(a[pc(w)]@, f, g, pc(w))); lemma_fsc(f, g, a[pc(w)]@, w, l); }
pub proof fn lemma_fsc(f: Seq<Re>, g: Seq<Re>, h: Seq<Re>, w: u32, l: i32) requires 0 <= l <= 30, f.len() == pw(l), g.len() == pw(l), w < pw(l), isinv(h, f, g, pc(w)), ensures h[w as int] == fsc(f, g, w)
{
    reveal(isinv); lemma_pow(l); let n = pw(l) as int; let k = pc(w); let e = esq(f, g, n, k, k + 1); lemma_pc(w, 0);
    assert forall|v: u32| v < n implies #[trigger] drange(h, v, 0, n) == drange(e, v, 0, n) by { lemma_esum(f, g, v, l, k, k + 1); }
    lemma_uniq(h, e, n, n); assert(h[w as int] == e[w as int]); lemma_etop(f, g, w, l, k + 1); lemma_ball(cprod(f, g, w), w, n);
}
"""


class FHook:
    """the transforms of one row in place"""
    def call(self, tr, e, name, obj, args, fdef, stmt):
        f = {"fast_subset_sum": "subset_sum_inplace", "fast_subset_sum_inverse": "subset_sum_inverse_inplace"}.get(name)
        if f is None or not stmt or len(args) != 3:
            return None
        try:
            (b1, o1), (b2, o2) = tr.ptr(args[0]), tr.ptr(args[1])
        except Exception:
            return None
        if b1 is None or b2 is None or not b1.base or b1.base != b2.base or o1 != o2 or o1 != "0i64" or "[" not in b1.base:
            return None
        return ["%s(&mut %s, %s);" % (f, b1.base, tr.exval(args[2]))]


def fconv(al):
    R, F, G = {"": "rfg", "rf": "ffg", "rg": "gfg", "fg": "rff", "all": "fff"}[al]
    ps = list(dict.fromkeys([R, F, G]))
    f0, g0 = "f0", "g0" if G == "g" else "f0"
    N = "old(%s)@.len() == pw(log_n)"
    C = ["0 <= log_n <= 30", "$n == pw(log_n)", "1 <= $n <= 0x4000_0000", "f0.len() == $n", "%s.len() == $n" % g0] + ["%s@.len() == $n" % x for x in ps]
    U = ["%s@ == %s" % (x, {"f": "f0", "g": "g0"}[x]) for x in ps if x != "r"]
    L = "log_n as int"
    at = lambda t: t % dict(f0=f0, g0=g0, L=L)
    Z = [at("ztab($f1@, %(f0)s, %(L)s, log_n + 1)"), at("ztab($g1@, %(g0)s, %(L)s, log_n + 1)")]
    sh = lambda v, k="0": at("lemma_shape(%s@, %%(f0)s, %%(g0)s, %%(L)s, %s, 0, 0);" % (v, k))
    hints = {"entry": "let ghost mut p = Seq::<Vec<Re>>::empty(); let ghost mut q = p; let ghost mut h = p; " + "".join("let ghost %s0 = %s@; " % (x, x) for x in ps if x != "r") + "proof { lemma_pow(log_n); }",
        "L0.before": at("proof { lemma_spread0($f1@, %(f0)s, %(L)s); lemma_spread0($g1@, %(g0)s, %(L)s); lemma_spread0($h1@, %(f0)s, %(L)s); lemma_h0($h1@, %(f0)s, %(g0)s, %(L)s); }"),
        "L0.begin": at("proof { p = $f1@; q = $g1@; lemma_pcl($w, log_n as u32); lemma_shape(p, %(f0)s, %(g0)s, %(L)s, $w as int, 0, 0); lemma_shape(q, %(g0)s, %(f0)s, %(L)s, $w as int, 0, 0); }"),
        "L0.end": at("proof { let j = pc($w); assert($f1@[j]@ =~= p[j]@.update($w as int, %(f0)s[$w as int])); assert($g1@[j]@ =~= q[j]@.update($w as int, %(g0)s[$w as int])); lemma_spread(p, $f1@, %(f0)s, %(L)s, $w as int, j); lemma_spread(q, $g1@, %(g0)s, %(L)s, $w as int, j); }"),
        "L0.after": at("proof { lemma_z0($f1@, %(f0)s, %(L)s); lemma_z0($g1@, %(g0)s, %(L)s); }"),
        "L1.begin": at("proof { p = $f1@; q = $g1@; lemma_shape(p, %(f0)s, %(g0)s, %(L)s, $i as int, 0, 0); lemma_shape(q, %(g0)s, %(f0)s, %(L)s, $i as int, 0, 0); }"),
        "L1.end": at("proof { lemma_z(p, $f1@, %(f0)s, %(L)s, $i as int); lemma_z(q, $g1@, %(g0)s, %(L)s, $i as int); }"),
        "L4.begin": at("proof { h = $h1@; lemma_shape(h, %(f0)s, %(g0)s, %(L)s, $k as int, $j as int, $w as int); lemma_shape($f1@, %(f0)s, %(g0)s, %(L)s, log_n + 1, 0, 0); lemma_shape($g1@, %(g0)s, %(f0)s, %(L)s, log_n + 1, 0, 0); }"),
        "L4.end": at("proof { let k = $k as int; let x = radd(h[k]@[$w as int], rmul($f1@[$j as int]@[$w as int], $g1@[k - $j]@[$w as int])); assert($h1@[k]@ =~= h[k]@.update($w as int, x)); lemma_h(h, $h1@, $f1@, $g1@, %(f0)s, %(g0)s, %(L)s, k, $j as int, $w as int); }"),
        "L4.after": at("proof { lemma_hnext($h1@, %(f0)s, %(g0)s, %(L)s, $k as int, $j as int); }"),
        "L3.after": at("proof { lemma_hrow($h1@, %(f0)s, %(g0)s, %(L)s, $k as int); }"),
        "L2.after": at("proof { lemma_i0($h1@, %(f0)s, %(g0)s, %(L)s); }"),
        "L5.begin": at("proof { h = $h1@; lemma_shape(h, %(f0)s, %(g0)s, %(L)s, $i as int, 0, 0); }"),
        "L5.end": at("proof { lemma_i(h, $h1@, %(f0)s, %(g0)s, %(L)s, $i as int); }"),
        "L6.begin": at("proof { lemma_fin($h1@, %(f0)s, %(g0)s, $w, log_n); lemma_shape($h1@, %(f0)s, %(g0)s, %(L)s, log_n + 1, 0, 0); }")}
    loops = {0: dict(invariant=C + U + ["$w <= $n", at("spread($f1@, %(f0)s, %(L)s, $w as int)"), at("spread($g1@, %(g0)s, %(L)s, $w as int)")], decreases="$n - $w"),
        1: dict(invariant=C + ["0 <= $i <= log_n + 1", at("ztab($f1@, %(f0)s, %(L)s, $i as int)"), at("ztab($g1@, %(g0)s, %(L)s, $i as int)")], decreases="log_n + 1 - $i"),
        2: dict(invariant=C + Z + ["0 <= $k <= log_n + 1", at("htab($h1@, %(f0)s, %(g0)s, %(L)s, $k as int, 0, 0)")], decreases="log_n + 1 - $k"),
        3: dict(invariant=C + Z + ["0 <= $k <= log_n", "0 <= $j <= $k + 1", at("htab($h1@, %(f0)s, %(g0)s, %(L)s, $k as int, $j as int, 0)")], decreases="$k + 1 - $j"),
        4: dict(invariant=C + Z + ["0 <= $k <= log_n", "0 <= $j <= $k", "$w <= $n", at("htab($h1@, %(f0)s, %(g0)s, %(L)s, $k as int, $j as int, $w as int)")], decreases="$n - $w"),
        5: dict(invariant=C + ["0 <= $i <= log_n + 1", at("itab($h1@, %(f0)s, %(g0)s, %(L)s, $i as int)")], decreases="log_n + 1 - $i"),
        6: dict(invariant=C + ["$w <= $n", at("itab($h1@, %(f0)s, %(g0)s, %(L)s, log_n + 1)"), at("forall|v: u32| v < $w ==> #[trigger] %s@[v as int] == fsc(%%(f0)s, %%(g0)s, v)" % R)] + [u for u in U if not u.startswith(R + "@")], decreases="$n - $w")}
    return Contract("fast_subset_%s" % (al or "apart"), MM + ("fast_subset_convolution" if not al else "fsc_" + al), targs=["altruct::Re"] if not al else None, params=ps + ["log_n"], requires=["0 <= log_n <= 30"] + [N % x for x in ps],
        ensures=["final(%s)@.len() == pw(log_n)" % R, "forall|w: u32| w < pw(log_n) ==> #[trigger] final(%s)@[w as int] == fsc(old(%s)@, old(%s)@, w)" % (R, F, G)] + ["final(%s)@ == old(%s)@" % (x, x) for x in ps if x != R], hints=hints, loops=loops)


def fscu(inpl):
    cs = [c for c in inplace().contracts if c.rust.startswith("subset_sum")]
    tu = "void subset_sum_inplace(Re* f, int log_n) { fast_subset_sum(f, f, log_n); }\nvoid subset_sum_inverse_inplace(Re* f, int log_n) { fast_subset_sum_inverse(f, f, log_n); }\ntemplate void fast_subset_convolution<Re>(Re*, Re*, Re*, int);\n"
    for al, a in (("rf", "ffg"), ("rg", "gfg"), ("fg", "rff"), ("all", "fff")):
        tu += "void fsc_%s(%s, int log_n) { fast_subset_convolution(%s, log_n); }\n" % (al, ", ".join("Re* " + x for x in dict.fromkeys(a)), ", ".join(a))
    v = mk("fast_subset_inplace" if inpl else "fast_subset", cs + [fconv(al) for al in (("rf", "rg", "fg", "all") if inpl else ("",))], tu)
    v.specs += OSPEC + FSPEC
    v.externs.update({"bit_cnt1": "bit_cnt1_u32"})
    v.trusted.append("bit_cnt1(uint32_t): by the contract that property C07 discharges for it")
    v.hooks.insert(0, FHook())
    return v


def units():
    return [slow(), sums(), inplace(), andor(False), andor(True), xoru(False), xoru(True), fscu(False), fscu(True)]
