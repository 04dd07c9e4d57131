"""sieves (primes.cpp)"""
from unit import Unit, Contract
import ntlib, divs
SPEC = r"""
// ---------------------------------------------------------------- divisibility and primes
#[verifier::opaque]
pub open spec fn dv(d: int, n: int) -> bool { d > 0 && n % d == 0 }
pub open spec fn isp(n: int) -> bool { n > 1 && forall|d: int| 1 < d < n ==> !#[trigger] dv(d, n) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lemma_dv(d: int, n: int) -> (k: int) requires dv(d, n), ensures n == d * k, d > 0, k == n / d, n > 0 ==> 0 < k <= n && d <= n, n == 0 ==> k == 0, n > 0 && d > 1 ==> k < n, n >= 0 ==> 0 <= k
{ reveal(dv); lemma_fundamental_div_mod(n, d); let k = n / d;
  if n > 0 { assert(k > 0) by(nonlinear_arith) requires n == d * k, n > 0, d > 0; assert(d <= n && k <= n) by(nonlinear_arith) requires n == d * k, k > 0, d > 0; if d > 1 { assert(k < n) by(nonlinear_arith) requires n == d * k, k > 0, d > 1; } }
  if n == 0 { assert(k == 0) by(nonlinear_arith) requires 0 == d * k, d > 0; } k }
pub proof fn lemma_mul_dv(d: int, k: int) requires d > 0, ensures dv(d, d * k), dv(d, k * d) { reveal(dv); lemma_mod_multiples_basic(k, d); assert(d * k == k * d) by(nonlinear_arith); }
pub proof fn lemma_dv_trans(a: int, b: int, c: int) requires dv(a, b), dv(b, c), ensures dv(a, c) { let k = lemma_dv(a, b); let l = lemma_dv(b, c); assert(c == a * (k * l)) by(nonlinear_arith) requires b == a * k, c == b * l; lemma_mul_dv(a, k * l); }
pub proof fn lemma_dv_refl(a: int) requires a > 0, ensures dv(a, a), dv(1, a) { lemma_mul_dv(a, 1); assert(a * 1 == a); lemma_mul_dv(1, a); assert(1 * a == a); }
pub proof fn lemma_dv0(a: int) requires a > 0, ensures dv(a, 0) { lemma_mul_dv(a, 0); assert(a * 0 == 0); }
/// consecutive multiples of p
pub proof fn lemma_next(p: int, j: int) requires dv(p, j), ensures dv(p, j + p), forall|x: int| j < x < j + p ==> !#[trigger] dv(p, x)
{ let k = lemma_dv(p, j); assert(j + p == p * (k + 1)) by(nonlinear_arith) requires j == p * k; lemma_mul_dv(p, k + 1);
  assert forall|x: int| j < x < j + p implies !#[trigger] dv(p, x) by { if dv(p, x) { reveal(dv); lemma_fundamental_div_mod(x, p); let l = x / p; assert(l > k && l < k + 1) by(nonlinear_arith) requires x == p * l, j == p * k, j < x, x < j + p, p > 0; } } }
pub proof fn lemma_below(p: int) requires p > 0, ensures dv(p, 0), dv(p, p), forall|x: int| 0 < x < p ==> !#[trigger] dv(p, x) { lemma_dv0(p); lemma_dv_refl(p); lemma_next(p, 0); }
/// every integer above 1 has a prime divisor; for a composite one whose square is at most n
pub proof fn lemma_pdiv(n: int) -> (r: int) requires n > 1, ensures isp(r), dv(r, n), r <= n, !isp(n) ==> r * r <= n && r < n, decreases n
{ if isp(n) { lemma_dv_refl(n); n } else {
    let d = choose|d: int| 1 < d < n && #[trigger] dv(d, n); let k = lemma_dv(d, n);
    assert(1 < k && k < n) by(nonlinear_arith) requires n == d * k, 1 < d, d < n, 0 < k;
    let c = if d <= k { d } else { k }; if d > k { lemma_mul_dv(k, d); assert(k * d == n) by(nonlinear_arith) requires n == d * k; }
    assert(c * c <= n) by(nonlinear_arith) requires n == d * k, c <= d, c <= k, c > 0;
    let r = lemma_pdiv(c); lemma_dv_trans(r, c, n); assert(r * r <= c * c) by(nonlinear_arith) requires 0 < r, r <= c; assert(r < n); r } }
pub proof fn lemma_isp_iff(n: int) requires n > 1, forall|r: int| isp(r) && r * r <= n ==> !#[trigger] dv(r, n), ensures isp(n) { let r = lemma_pdiv(n); }
pub proof fn lemma_comp(r: int, n: int) requires dv(r, n), 1 < r < n, ensures !isp(n) {}
pub proof fn lemma_sq(r: int, s: int) requires 0 <= r <= s, ensures r * r <= s * s, r * r <= r * s { assert(r * r <= s * s && r * r <= r * s) by(nonlinear_arith) requires 0 <= r, r <= s; }
pub proof fn lemma_quo(n: int, i: int) requires n >= 0, i > 0, ensures i >= 2 ==> i < i * i, i > n / i ==> n < i * i, i <= n / i ==> i * i <= n { assert(i >= 2 ==> i < i * i) by(nonlinear_arith); lemma_fundamental_div_mod(n, i); lemma_mod_bound(n, i); let q = n / i; assert(i > q ==> n < i * i) by(nonlinear_arith) requires n == i * q + n % i, 0 <= n % i < i; assert(i <= q ==> i * i <= n) by(nonlinear_arith) requires n == i * q + n % i, 0 <= n % i, i > 0; }
/// has a proper prime divisor below i
pub open spec fn sm(x: int, i: int) -> bool { exists|r: int| #![trigger dv(r, x)] isp(r) && r < i && r < x && dv(r, x) }
pub proof fn lemma_sm_small(x: int, i: int) requires i > 1, dv(i, x), i < x < i * i, ensures sm(x, i)
{ let c = lemma_dv(i, x); assert(1 < c && c < i) by(nonlinear_arith) requires x == i * c, i < x, x < i * i, i > 1; let r = lemma_pdiv(c); lemma_mul_dv(c, i); assert(c * i == x) by(nonlinear_arith) requires x == i * c; lemma_dv_trans(r, c, x); }
pub proof fn lemma_sm_all(x: int, i: int) requires x > 1, i >= x, ensures sm(x, i) == !isp(x) { let r = lemma_pdiv(x); if sm(x, i) { let r = choose|r: int| #![trigger dv(r, x)] isp(r) && r < i && r < x && dv(r, x); lemma_comp(r, x); } }
pub proof fn lemma_sm_step(x: int, i: int) requires i > 1, x > 1, ensures sm(x, i + 1) == (sm(x, i) || (isp(i) && i < x && dv(i, x)))
{ if sm(x, i + 1) { let r = choose|r: int| #![trigger dv(r, x)] isp(r) && r < i + 1 && r < x && dv(r, x); if r < i { assert(sm(x, i)); } } }
pub open spec fn npr(i: int) -> int decreases i { if i <= 0 { 0 } else { npr(i - 1) + b2i(isp(i - 1)) } }
pub proof fn lemma_npr(i: int, j: int) requires i <= j, ensures 0 <= npr(i) <= npr(j), npr(j) <= npr(i) + (j - i), i <= 2 ==> npr(i) == 0, j > 0 ==> npr(j) < j decreases j - i, j { if i < j { lemma_npr(i, j - 1); if j <= 0 { assert(npr(j) == 0); } else if j == 1 { assert(!isp(0)); assert(npr(0) == 0); assert(npr(1) == npr(0)); } } else if i > 0 { lemma_npr(i - 1, i - 1); if i <= 2 { assert(!isp(0) && !isp(1)); assert(npr(0) == 0); assert(npr(1) == 0); assert(npr(2) == npr(1)); } if i == 1 { assert(!isp(0)); assert(npr(0) == 0); assert(npr(1) == 0); } } }
// ---------------------------------------------------------------- lists of primes
/// the first m entries are the primes below n in ascending order
pub open spec fn pl(p: Seq<i32>, m: int, n: int) -> bool {
    0 <= m <= p.len() && (forall|k: int| 0 <= k < m ==> isp(#[trigger] p[k] as int) && p[k] < n) && (forall|k: int, l: int| 0 <= k < l < m ==> #[trigger] p[k] < #[trigger] p[l]) && (forall|r: int| #[trigger] isp(r) && r < n ==> inl(p, m, r)) }
pub open spec fn inl(p: Seq<i32>, m: int, r: int) -> bool { exists|k: int| 0 <= k < m && #[trigger] p[k] == r }
pub proof fn lemma_pl_push(p1: Seq<i32>, m1: int, i: int, p2: Seq<i32>, m2: int) requires pl(p1, m1, i), m2 <= p2.len(), isp(i) ==> m2 == m1 + 1 && p2[m1] == i, !isp(i) ==> m2 == m1, forall|k: int| 0 <= k < m1 ==> #[trigger] p2[k] == p1[k], ensures pl(p2, m2, i + 1)
{ assert forall|r: int| #[trigger] isp(r) && r < i + 1 implies inl(p2, m2, r) by { if r == i { assert(p2[m1] == r); } else { assert(inl(p1, m1, r)); let k = choose|k: int| 0 <= k < m1 && #[trigger] p1[k] == r; assert(p2[k] == r); } }
  assert forall|k: int| 0 <= k < m2 implies isp(#[trigger] p2[k] as int) && p2[k] < i + 1 by { if k < m1 { assert(p2[k] == p1[k]); } }
  assert forall|k: int, l: int| 0 <= k < l < m2 implies #[trigger] p2[k] < #[trigger] p2[l] by { assert(p2[k] == p1[k]); if l < m1 { assert(p2[l] == p1[l]); } } }
pub proof fn lemma_pl_ext(p1: Seq<i32>, p2: Seq<i32>, m: int, n: int) requires pl(p1, m, n), m <= p2.len(), forall|k: int| 0 <= k < m ==> #[trigger] p2[k] == p1[k], ensures pl(p2, m, n)
{ assert forall|r: int| #[trigger] isp(r) && r < n implies inl(p2, m, r) by { assert(inl(p1, m, r)); let k = choose|k: int| 0 <= k < m && #[trigger] p1[k] == r; assert(p2[k] == r); }
  assert forall|k: int, l: int| 0 <= k < l < m implies #[trigger] p2[k] < #[trigger] p2[l] by { assert(p2[k] == p1[k]); assert(p2[l] == p1[l]); } }
/// first integer not yet covered by the first k entries
pub open spec fn bnd(p: Seq<i32>, k: int) -> int { if k <= 0 { 0 } else { p[k - 1] + 1 } }
pub proof fn lemma_gap(p: Seq<i32>, m: int, n: int, k: int) requires pl(p, m, n), 0 <= k <= m, ensures forall|r: int| bnd(p, k) <= r < (if k < m { p[k] as int } else { n }) ==> !#[trigger] isp(r), bnd(p, k) <= (if k < m { p[k] as int } else { if n < 0 { 0 } else { n } }), bnd(p, k) >= 0
{ if k > 0 { assert(isp(p[k - 1] as int)); } if k < m { assert(isp(p[k] as int)); }
  assert forall|r: int| bnd(p, k) <= r < (if k < m { p[k] as int } else { n }) implies !#[trigger] isp(r) by { if isp(r) { if k < m { assert(p[k] < n); } assert(inl(p, m, r)); let l = choose|l: int| 0 <= l < m && #[trigger] p[l] == r; if k > 0 { if l <= k - 1 { if l < k - 1 { assert(p[l] < p[k - 1]); } } } if k < m && l >= k { if l > k { assert(p[k] < p[l]); } } } } }
pub proof fn lemma_gap_npr(a: int, b: int) requires a <= b, forall|r: int| a <= r < b ==> !#[trigger] isp(r), ensures npr(a) == npr(b) decreases b - a { if a < b { assert(!isp(b - 1)); lemma_gap_npr(a, b - 1); } }
// ---------------------------------------------------------------- the tables
/// number of primes below r dividing x
pub open spec fn nu(x: int, r: int) -> int decreases r { if r <= 0 { 0 } else { nu(x, r - 1) + b2i(isp(r - 1) && dv(r - 1, x)) } }
pub proof fn lemma_nu_gap(x: int, a: int, b: int) requires a <= b, forall|r: int| a <= r < b ==> !(#[trigger] isp(r) && dv(r, x)), ensures nu(x, a) == nu(x, b) decreases b - a { if a < b { assert(!(isp(b - 1) && dv(b - 1, x))); lemma_nu_gap(x, a, b - 1); } }
pub proof fn lemma_nu_big(x: int, n: int) requires 0 < x < n, ensures nu(x, n) == nu(x, x + 1) { assert forall|r: int| x + 1 <= r < n implies !(#[trigger] isp(r) && dv(r, x)) by { if dv(r, x) { let k = lemma_dv(r, x); } } lemma_nu_gap(x, x + 1, n); }
pub proof fn lemma_nu_b(x: int, r: int) ensures 0 <= nu(x, r), r >= 0 ==> nu(x, r) <= r decreases r { if r > 0 { lemma_nu_b(x, r - 1); } }
/// number of distinct prime factors
pub open spec fn omega(x: int) -> int { nu(x, x + 1) }
/// number / sum of the divisors of x in [1, i)
pub open spec fn d0(x: int, i: int) -> int decreases i { if i <= 1 { 0 } else { d0(x, i - 1) + b2i(dv(i - 1, x)) } }
pub open spec fn d1(x: int, i: int) -> int decreases i { if i <= 1 { 0 } else { d1(x, i - 1) + (if dv(i - 1, x) { i - 1 } else { 0 }) } }
pub open spec fn sigma0(x: int) -> int { d0(x, x + 1) }
pub open spec fn sigma1(x: int) -> int { d1(x, x + 1) }
pub proof fn lemma_d_big(x: int, n: int) requires 0 < x < n, ensures d0(x, n) == sigma0(x), d1(x, n) == sigma1(x), decreases n { if n > x + 1 { if dv(n - 1, x) { let k = lemma_dv(n - 1, x); } lemma_d_big(x, n - 1); } }
pub proof fn lemma_d_b(x: int, i: int) requires i >= 1, ensures 0 <= d0(x, i) <= i - 1, 0 <= d1(x, i) <= i * i decreases i { if i > 1 { lemma_d_b(x, i - 1); assert((i - 1) * (i - 1) + (i - 1) <= i * i) by(nonlinear_arith) requires i > 1; } else { assert(i * i >= 0) by(nonlinear_arith); } }
/// smallest prime factor r >= i with r * r <= x, or 1
pub open spec fn lpo(v: int, x: int, i: int) -> bool { (v == 1 && (forall|r: int| isp(r) && r >= i && r * r <= x ==> !#[trigger] dv(r, x))) || (isp(v) && v >= i && v * v <= x && dv(v, x) && forall|r: int| isp(r) && r >= i && #[trigger] dv(r, x) ==> r >= v) }
pub open spec fn lpf(v: int, x: int) -> bool { isp(v) && dv(v, x) && forall|r: int| isp(r) && #[trigger] dv(r, x) ==> r >= v }
pub open spec fn gpf(v: int, x: int) -> bool { isp(v) && dv(v, x) && forall|r: int| isp(r) && #[trigger] dv(r, x) ==> r <= v }
pub proof fn lemma_lpo_step(v: int, x: int, i: int, w: int) requires lpo(v, x, i + 1), x > 1, i > 1, !isp(x), if isp(i) && i * i <= x && dv(i, x) { w == i } else { w == v }, ensures lpo(w, x, i)
{ if isp(i) && i * i <= x && dv(i, x) { } else { if v != 1 { lemma_sq(i, v); assert forall|r: int| isp(r) && r >= i && #[trigger] dv(r, x) implies r >= v by { if r == i { assert(i * i < v * v) by(nonlinear_arith) requires v > i, i > 1; } } } } }
pub proof fn lemma_lpo_end(v: int, x: int) requires lpo(v, x, 2), x > 1, !isp(x), ensures lpf(v, x) { let r = lemma_pdiv(x); }
pub proof fn lemma_lpo_start(x: int, i: int) requires x > 1, i > x, ensures lpo(1, x, i) { assert forall|r: int| isp(r) && r >= i && r * r <= x implies !#[trigger] dv(r, x) by { lemma_sq(1, r); assert(r <= r * r) by(nonlinear_arith) requires r >= 1; } }
pub open spec fn gpo(v: int, x: int, b: int) -> bool { (isp(v) && v < b && dv(v, x) && forall|r: int| isp(r) && r < b && #[trigger] dv(r, x) ==> r <= v) || (forall|r: int| isp(r) && r < b ==> !#[trigger] dv(r, x)) }
pub proof fn lemma_gpo_gap(v: int, x: int, a: int, b: int) requires gpo(v, x, a), a <= b, forall|r: int| a <= r < b ==> !#[trigger] isp(r), ensures gpo(v, x, b) {}
pub proof fn lemma_gpo_step(v: int, x: int, p: int, w: int) requires gpo(v, x, p), isp(p), w == (if dv(p, x) { p } else { v }), ensures gpo(w, x, p + 1) {}
pub proof fn lemma_gpo_end(v: int, x: int, n: int) requires gpo(v, x, n), 1 < x < n, ensures gpf(v, x) { let r = lemma_pdiv(x); assert forall|r: int| isp(r) && #[trigger] dv(r, x) implies r <= v by { let k = lemma_dv(r, x); } }
/// position of i in the list of primes
pub proof fn lemma_pl_at(p: Seq<i32>, m: int, n: int, l: int, i: int) requires pl(p, m, n), 0 <= l <= m, bnd(p, l) <= i, l < m ==> p[l] >= i, 0 <= i < n, ensures isp(i) == (l < m && p[l] == i)
{ if isp(i) { assert(inl(p, m, i)); let k = choose|k: int| 0 <= k < m && #[trigger] p[k] == i; if k < l { if k < l - 1 { assert(p[k] < p[l - 1]); } } if k > l { assert(p[l] < p[k]); } } }
pub open spec fn psq(p: Seq<i32>, m: int, e: int) -> bool {
    0 <= m <= p.len() && (forall|k: int| 0 <= k < m ==> isp(#[trigger] p[k] as int)) && (forall|k: int, l: int| 0 <= k < l < m ==> #[trigger] p[k] < #[trigger] p[l]) && (forall|r: int| #[trigger] isp(r) && r * r < e ==> inl(p, m, r)) }
/// marked by one of the first i primes
pub open spec fn ms(p: Seq<i32>, x: int, i: int) -> bool { exists|k: int| #![trigger p[k]] 0 <= k < i && p[k] * p[k] <= x && dv(p[k] as int, x) }
pub proof fn lemma_ms_step(p: Seq<i32>, x: int, i: int) requires i >= 0, ensures ms(p, x, i + 1) == (ms(p, x, i) || (p[i] * p[i] <= x && dv(p[i] as int, x)))
{ if ms(p, x, i + 1) { let k = choose|k: int| #![trigger p[k]] 0 <= k < i + 1 && p[k] * p[k] <= x && dv(p[k] as int, x); if k < i { assert(ms(p, x, i)); } } if ms(p, x, i) { let k = choose|k: int| #![trigger p[k]] 0 <= k < i && p[k] * p[k] <= x && dv(p[k] as int, x); assert(0 <= k < i + 1); } if p[i] * p[i] <= x && dv(p[i] as int, x) { assert(0 <= i < i + 1); } }
pub proof fn lemma_ms_end(p: Seq<i32>, m: int, e: int, x: int) requires psq(p, m, e), 1 < x < e, ensures ms(p, x, m) == !isp(x)
{ if ms(p, x, m) { let k = choose|k: int| #![trigger p[k]] 0 <= k < m && p[k] * p[k] <= x && dv(p[k] as int, x); let r = p[k] as int; assert(isp(r)); assert(r < r * r) by(nonlinear_arith) requires r > 1; }
  if !isp(x) { let r = lemma_pdiv(x); assert(inl(p, m, r)); let k = choose|k: int| 0 <= k < m && #[trigger] p[k] == r; assert(p[k] * p[k] <= x); } }
pub proof fn lemma_ms_rest(p: Seq<i32>, m: int, e: int, x: int, i: int) requires psq(p, m, e), 0 <= i < m, x < p[i] * p[i], ensures ms(p, x, m) == ms(p, x, i)
{ if ms(p, x, m) { let k = choose|k: int| #![trigger p[k]] 0 <= k < m && p[k] * p[k] <= x && dv(p[k] as int, x); if k >= i { if k > i { assert(p[i] < p[k]); } assert(isp(p[i] as int)); lemma_sq(p[i] as int, p[k] as int); } } if ms(p, x, i) { let k = choose|k: int| #![trigger p[k]] 0 <= k < i && p[k] * p[k] <= x && dv(p[k] as int, x); assert(0 <= k < m); } }
pub proof fn lemma_mult_pre(a: int, b: int) requires 0 < a <= 0x8000_0000, 0 <= b <= 0x4000_0000_0000_0000, ensures 0 <= cdiv(b, a) * a <= i64::MAX { lemma_multiple(a, b); }
pub proof fn lemma_first(p: int, b: int, r: int) requires dv(p, r), r >= b, r - p < b, p > 0, ensures forall|x: int| b <= x < r ==> !#[trigger] dv(p, x)
{ let k = lemma_dv(p, r); assert(r - p == p * (k - 1)) by(nonlinear_arith) requires r == p * k; lemma_mul_dv(p, k - 1); lemma_next(p, r - p); }
// ---------------------------------------------------------------- Euclid's lemma
pub proof fn lemma_divides_dv(d: int, n: int) requires divides(d, n), d > 0, ensures dv(d, n) { let k = choose|k: int| n == #[trigger] (d * k); lemma_mul_dv(d, k); }
pub proof fn lemma_euclid(r: int, a: int, b: int) requires isp(r), dv(r, a * b), a >= 0, ensures dv(r, a) || dv(r, b)
{ let (x, y) = lemma_gcdn(r as nat, a as nat); let g = gcdn(r as nat, a as nat) as int; lemma_divides_dv(g, r); lemma_divides_dv(g, a); let k = lemma_dv(g, r);
  if g == 1 { let l = lemma_dv(r, a * b); assert(b == r * (x * b + l * y)) by(nonlinear_arith) requires r * x + a * y == 1, a * b == r * l; lemma_mul_dv(r, x * b + l * y); } else { assert(!(1 < g < r)); assert(g == r); } }
pub proof fn lemma_euclid_p(q: int, r: int, b: int) requires isp(q), isp(r), q != r, dv(q, r * b), ensures dv(q, b) { lemma_euclid(q, r, b); if dv(q, r) { let k = lemma_dv(q, r); assert(!(1 < q < r)); } }
pub proof fn lemma_dv_add(d: int, a: int, b: int) requires dv(d, b), ensures dv(d, a + b) == dv(d, a)
{ let l = lemma_dv(d, b); if dv(d, a) { let k = lemma_dv(d, a); assert(a + b == d * (k + l)) by(nonlinear_arith) requires a == d * k, b == d * l; lemma_mul_dv(d, k + l); } if dv(d, a + b) { let k = lemma_dv(d, a + b); assert(a == d * (k - l)) by(nonlinear_arith) requires a + b == d * k, b == d * l; lemma_mul_dv(d, k - l); } }
// ---------------------------------------------------------------- Euler's totient
/// no prime below r divides both x and t
#[verifier::opaque]
pub open spec fn okk(x: int, r: int, t: int) -> bool { forall|q: int| #![trigger dv(q, t)] isp(q) && q < r && dv(q, x) ==> !dv(q, t) }
pub open spec fn cop(t: int, x: int) -> bool { forall|d: int| #![trigger dv(d, t)] d > 1 && dv(d, x) ==> !dv(d, t) }
pub open spec fn ph(x: int, r: int, k: int) -> int decreases k { if k <= 0 { 0 } else { ph(x, r, k - 1) + b2i(okk(x, r, k)) } }
/// the number of 1 <= t <= k coprime to x
pub open spec fn ncop(x: int, k: int) -> int decreases k { if k <= 0 { 0 } else { ncop(x, k - 1) + b2i(cop(k, x)) } }
pub open spec fn totient(x: int) -> int { ncop(x, x) }
pub open spec fn rem(x: int, r: int, k: int) -> int decreases k { if k <= 0 { 0 } else { rem(x, r, k - 1) + b2i(okk(x, r, k) && dv(r, k)) } }
pub proof fn lemma_ph_b(x: int, r: int, k: int) ensures 0 <= ph(x, r, k), k >= 0 ==> ph(x, r, k) <= k, k >= 1 ==> ph(x, r, k) >= 1 decreases k
{ if k > 1 { lemma_ph_b(x, r, k - 1); } else if k == 1 { lemma_ph_b(x, r, 0); assert(okk(x, r, 1)) by { reveal(okk); assert forall|q: int| #![trigger dv(q, 1)] isp(q) && q < r && dv(q, x) implies !dv(q, 1) by { if dv(q, 1) { let k = lemma_dv(q, 1); } } } } }
pub proof fn lemma_ph_gap(x: int, a: int, b: int, k: int) requires a <= b, forall|q: int| a <= q < b ==> !(isp(q) && #[trigger] dv(q, x)), ensures ph(x, a, k) == ph(x, b, k) decreases k
{ if k > 0 { lemma_ph_gap(x, a, b, k - 1); reveal(okk); assert(okk(x, a, k) == okk(x, b, k)) by { if okk(x, a, k) { assert forall|q: int| #![trigger dv(q, k)] isp(q) && q < b && dv(q, x) implies !dv(q, k) by {} } } } }
pub proof fn lemma_ph_0(x: int, k: int) requires k >= 0, ensures ph(x, 0, k) == k decreases k { if k > 0 { lemma_ph_0(x, k - 1); reveal(okk); } }
pub proof fn lemma_okk_per(x: int, r: int, l: int, t: int) requires isp(r), x == r * l, x > 0, ensures okk(x, r, t + l) == okk(x, r, t), okk(x, r, r * t) == okk(x, r, t)
{ reveal(okk);
  assert forall|q: int| isp(q) && q < r && #[trigger] dv(q, x) implies dv(q, t + l) == dv(q, t) && dv(q, r * t) == dv(q, t) by { lemma_euclid_p(q, r, l); lemma_dv_add(q, t, l); if dv(q, r * t) { lemma_euclid_p(q, r, t); } if dv(q, t) { lemma_dv_mulr(q, t, r); } }
  if okk(x, r, t) { assert forall|q: int| #![trigger dv(q, t + l)] isp(q) && q < r && dv(q, x) implies !dv(q, t + l) by { } assert forall|q: int| #![trigger dv(q, r * t)] isp(q) && q < r && dv(q, x) implies !dv(q, r * t) by { } }
  if okk(x, r, t + l) { assert forall|q: int| #![trigger dv(q, t)] isp(q) && q < r && dv(q, x) implies !dv(q, t) by { assert(dv(q, t + l) == dv(q, t)); } }
  if okk(x, r, r * t) { assert forall|q: int| #![trigger dv(q, t)] isp(q) && q < r && dv(q, x) implies !dv(q, t) by { assert(dv(q, r * t) == dv(q, t)); } } }
pub proof fn lemma_dv_mulr(q: int, t: int, r: int) requires dv(q, t), ensures dv(q, r * t) { let k = lemma_dv(q, t); assert(r * t == q * (r * k)) by(nonlinear_arith) requires t == q * k; lemma_mul_dv(q, r * k); }
pub proof fn lemma_ph_per(x: int, r: int, l: int, k: int) requires isp(r), x == r * l, x > 0, l > 0, k >= 0, ensures ph(x, r, k + l) == ph(x, r, k) + ph(x, r, l) decreases k { if k > 0 { lemma_ph_per(x, r, l, k - 1); lemma_okk_per(x, r, l, k); assert(ph(x, r, k + l) == ph(x, r, k + l - 1) + b2i(okk(x, r, k + l))); } }
pub proof fn lemma_ph_rep(x: int, r: int, l: int, c: int) requires isp(r), x == r * l, x > 0, l > 0, c >= 0, ensures ph(x, r, c * l) == c * ph(x, r, l) decreases c
{ if c > 0 { lemma_ph_rep(x, r, l, c - 1); assert((c - 1) * l >= 0) by(nonlinear_arith) requires c >= 1, l > 0; lemma_ph_per(x, r, l, (c - 1) * l); assert((c - 1) * l + l == c * l) by(nonlinear_arith); assert((c - 1) * ph(x, r, l) + ph(x, r, l) == c * ph(x, r, l)) by(nonlinear_arith); } else { assert(0 * l == 0); assert(0 * ph(x, r, l) == 0); } }
pub proof fn lemma_rem_gap(x: int, r: int, a: int, s: int) requires dv(r, a), a >= 0, 0 <= s < r, ensures rem(x, r, a + s) == rem(x, r, a) decreases s { if s > 0 { lemma_rem_gap(x, r, a, s - 1); lemma_next(r, a); assert(!dv(r, a + s)); } }
pub proof fn lemma_rem(x: int, r: int, l: int, j: int) requires isp(r), x == r * l, x > 0, j >= 0, ensures rem(x, r, r * j) == ph(x, r, j) decreases j
{ if j > 0 { lemma_rem(x, r, l, j - 1); assert(r * (j - 1) >= 0 && r * (j - 1) + r == r * j) by(nonlinear_arith) requires j >= 1, r > 0; lemma_mul_dv(r, j - 1); lemma_mul_dv(r, j); lemma_rem_gap(x, r, r * (j - 1), r - 1); lemma_okk_per(x, r, l, j); } else { assert(r * 0 == 0); } }
pub proof fn lemma_ph_rem(x: int, r: int, k: int) requires isp(r), dv(r, x), ensures ph(x, r + 1, k) == ph(x, r, k) - rem(x, r, k) decreases k
{ if k > 0 { lemma_ph_rem(x, r, k - 1); reveal(okk); assert(okk(x, r + 1, k) == (okk(x, r, k) && !dv(r, k))) by { if okk(x, r, k) && !dv(r, k) { assert forall|q: int| #![trigger dv(q, k)] isp(q) && q < r + 1 && dv(q, x) implies !dv(q, k) by { if q < r { } } } if okk(x, r + 1, k) { assert(!dv(r, k)); } } } }
/// adding one more prime to the sieve
pub proof fn lemma_ph_step(x: int, r: int) requires isp(r), dv(r, x), x > 0, ensures dv(r, ph(x, r, x)), ph(x, r + 1, x) == ph(x, r, x) / r * (r - 1), r * ph(x, r + 1, x) == (r - 1) * ph(x, r, x)
{ let l = lemma_dv(r, x); lemma_ph_rep(x, r, l, r); lemma_rem(x, r, l, l); lemma_ph_rem(x, r, x); let w = ph(x, r, l); assert(ph(x, r, x) == r * w); lemma_mul_dv(r, w); assert(r * w == w * r) by(nonlinear_arith); lemma_div_multiples_vanish(w, r); assert(r * w - w == w * (r - 1) && r * (r * w - w) == (r - 1) * (r * w)) by(nonlinear_arith); }
pub proof fn lemma_ph_cop(x: int, k: int) requires x > 0, ensures ph(x, x + 1, k) == ncop(x, k) decreases k
{ if k > 0 { lemma_ph_cop(x, k - 1); reveal(okk); assert(okk(x, x + 1, k) == cop(k, x)) by {
    if okk(x, x + 1, k) { assert forall|d: int| #![trigger dv(d, k)] d > 1 && dv(d, x) implies !dv(d, k) by { if dv(d, k) { let r = lemma_pdiv(d); lemma_dv_trans(r, d, k); lemma_dv_trans(r, d, x); let z = lemma_dv(r, x); } } } } } }
pub proof fn lemma_ph_end(x: int, n: int) requires 0 < x < n, ensures ph(x, n, x) == totient(x) { assert forall|q: int| x + 1 <= q < n implies !(isp(q) && #[trigger] dv(q, x)) by { if dv(q, x) { let z = lemma_dv(q, x); } } lemma_ph_gap(x, x + 1, n, x); lemma_ph_cop(x, x); }
/// state of the segmented totient sieve
pub open spec fn sp(f: int, t: int, x: int, b: int) -> bool { f >= 0 && t >= 1 && dv(t, x) && f * t == ph(x, b, x) && (forall|q: int| isp(q) && q < b ==> !#[trigger] dv(q, t)) && (forall|q: int| isp(q) && q >= b && dv(q, x) ==> #[trigger] dv(q, t)) }
pub proof fn lemma_sp_b(f: int, t: int, x: int, b: int) requires f >= 0, t >= 1, f * t == ph(x, b, x), x > 0, ensures f <= x { lemma_ph_b(x, b, x); assert(f <= x) by(nonlinear_arith) requires f * t <= x, t >= 1, f >= 0; }
pub proof fn lemma_sp_start(x: int) requires x > 0, ensures sp(1, x, x, 0) { lemma_dv_refl(x); lemma_ph_0(x, x); }
pub proof fn lemma_sp_gap(f: int, t: int, x: int, a: int, b: int) requires sp(f, t, x, a), a <= b, forall|r: int| a <= r < b ==> !#[trigger] isp(r), ensures sp(f, t, x, b) { lemma_ph_gap(x, a, b, x); }
pub proof fn lemma_sp_none(f: int, t: int, x: int, r: int) requires sp(f, t, x, r), !dv(r, x), isp(r), ensures sp(f, t, x, r + 1) { lemma_ph_gap(x, r, r + 1, x); assert(!dv(r, t)) by { if dv(r, t) { lemma_dv_trans(r, t, x); } } }
/// inside the loop over the powers of r
pub open spec fn spw(f: int, t: int, x: int, r: int) -> bool { f >= 0 && t >= 1 && dv(t, x) && f * t == ph(x, r + 1, x) && (forall|q: int| isp(q) && q < r ==> !#[trigger] dv(q, t)) && (forall|q: int| isp(q) && q > r && dv(q, x) ==> #[trigger] dv(q, t)) }
pub proof fn lemma_sp_div(t: int, x: int, r: int) -> (u: int) requires isp(r), dv(r, t), t >= 1, dv(t, x), forall|q: int| isp(q) && q < r ==> !#[trigger] dv(q, t), forall|q: int| isp(q) && q > r && dv(q, x) ==> #[trigger] dv(q, t), ensures u == t / r, t == r * u, 1 <= u < t, dv(u, x), forall|q: int| isp(q) && q < r ==> !#[trigger] dv(q, u), forall|q: int| isp(q) && q > r && dv(q, x) ==> #[trigger] dv(q, u)
{ let u = lemma_dv(r, t); lemma_mul_dv(u, r); assert(u * r == t) by(nonlinear_arith) requires t == r * u; lemma_dv_trans(u, t, x);
  assert forall|q: int| isp(q) && q < r implies !#[trigger] dv(q, u) by { if dv(q, u) { lemma_dv_trans(q, u, t); } }
  assert forall|q: int| isp(q) && q > r && dv(q, x) implies #[trigger] dv(q, u) by { assert(dv(q, t)); lemma_euclid_p(q, r, u); } u }
pub proof fn lemma_sp_enter(f: int, t: int, x: int, r: int) requires sp(f, t, x, r), isp(r), dv(r, x), x > 0, ensures dv(r, t), t / r >= 1, spw(f * (r - 1), t / r, x, r), f * (r - 1) <= x
{ assert(dv(r, t)); let u = lemma_sp_div(t, x, r); lemma_ph_step(x, r); let z = ph(x, r + 1, x); assert(f * (r - 1) * u == z) by(nonlinear_arith) requires r * z == (r - 1) * (f * t), t == r * u, r > 1; assert(f * (r - 1) >= 0) by(nonlinear_arith) requires f >= 0, r > 1; lemma_sp_b(f * (r - 1), u, x, r + 1); }
pub proof fn lemma_spw_step(f: int, t: int, x: int, r: int) requires spw(f, t, x, r), isp(r), dv(r, t), x > 0, ensures t / r >= 1, t / r < t, spw(f * r, t / r, x, r), f * r <= x
{ let u = lemma_sp_div(t, x, r); assert(f * r * u == f * t) by(nonlinear_arith) requires t == r * u; assert(f * r >= 0) by(nonlinear_arith) requires f >= 0, r > 1; lemma_sp_b(f * r, u, x, r + 1); }
pub proof fn lemma_spw_exit(f: int, t: int, x: int, r: int) requires spw(f, t, x, r), !dv(r, t), isp(r), ensures sp(f, t, x, r + 1) {}
pub open spec fn psc(p: Seq<i32>, m: int, e: int) -> bool { psq(p, m, e) && pl(p, m, bnd(p, m)) }
pub proof fn lemma_inl_bnd(p: Seq<i32>, m: int, e: int, r: int) requires psc(p, m, e), isp(r), r * r < e, ensures r < bnd(p, m) { assert(inl(p, m, r)); let k = choose|k: int| 0 <= k < m && #[trigger] p[k] == r; if k < m - 1 { assert(p[k] < p[m - 1]); } }
pub proof fn lemma_sp_end(f: int, t: int, x: int, p: Seq<i32>, m: int, e: int) requires psc(p, m, e), 0 < x < e, sp(f, t, x, bnd(p, m)), ensures totient(x) == (if t > 1 { f * (t - 1) } else { f }), t > 1 ==> 0 <= f * (t - 1) <= x
{ let b = bnd(p, m); let z = lemma_dv(t, x); lemma_ph_b(x, x + 1, x); lemma_ph_cop(x, x); if m > 0 { assert(isp(p[m - 1] as int)); }
  if t > 1 {
    if !isp(t) { let s = lemma_pdiv(t); lemma_inl_bnd(p, m, e, s); assert(false); }
    assert(t >= b) by { lemma_dv_refl(t); }
    assert forall|q: int| isp(q) && q >= b && #[trigger] dv(q, x) implies q == t by { assert(dv(q, t)); let y = lemma_dv(q, t); assert(!(1 < q < t)); }
    lemma_ph_gap(x, b, t, x); lemma_ph_step(x, t); lemma_ph_gap(x, t + 1, x + 1, x);
    let w = ph(x, t + 1, x); assert(w == f * (t - 1)) by(nonlinear_arith) requires t * w == (t - 1) * (f * t), t > 1;
  } else {
    assert forall|q: int| isp(q) && q >= b implies !#[trigger] dv(q, x) by { if dv(q, x) { assert(dv(q, t)); let y = lemma_dv(q, t); } }
    if b <= x + 1 { lemma_ph_gap(x, b, x + 1, x); } else { lemma_ph_end(x, b); }
    assert(f * 1 == f);
  } }
// ---------------------------------------------------------------- Moebius function
pub open spec fn sqf(x: int) -> bool { forall|r: int| isp(r) ==> !#[trigger] dv(r * r, x) }
pub open spec fn mob(x: int) -> int { if x <= 0 || !sqf(x) { 0 } else if omega(x) % 2 == 0 { 1 } else { -1 } }
/// product of (-q) over the primes q < r that divide x, 0 if the square of one of them does
pub open spec fn pm(x: int, r: int) -> int decreases r { if r <= 0 { 1 } else { let q = r - 1; let v = pm(x, q); if isp(q) && dv(q * q, x) { 0 } else if isp(q) && dv(q, x) { v * (-q) } else { v } } }
pub open spec fn sgn(v: int) -> int { if v > 0 { 1 } else if v < 0 { -1 } else { 0 } }
pub open spec fn abz(v: int) -> int { if v < 0 { -v } else { v } }
pub open spec fn pmi(v: int, x: int, r: int) -> bool {
    (v == 0 ==> !sqf(x)) && (v != 0 ==> dv(abz(v), x) && sgn(v) == (if nu(x, r) % 2 == 0 { 1int } else { -1 }) && (forall|q: int| isp(q) && q < r ==> !#[trigger] dv(q * q, x)) && (forall|q: int| isp(q) && #[trigger] dv(q, abz(v)) ==> q < r) && (forall|q: int| isp(q) && q < r ==> !#[trigger] dv(q, x / abz(v)))) }
/// a new prime divisor of x multiplies in
pub proof fn lemma_pm_mul(v: int, x: int, q: int) -> (l: int) requires x > 0, v != 0, dv(abz(v), x), isp(q), dv(q, x), !dv(q, abz(v)), ensures x == abz(v) * q * l, dv(abz(v) * q, x), abz(v * (-q)) == abz(v) * q, 0 < abz(v) * q <= x, x / abz(v) == q * l, l == x / (abz(v) * q), l > 0, sgn(v * (-q)) == -sgn(v)
{ let a = abz(v); let k = lemma_dv(a, x); lemma_euclid(q, a, k); let l = lemma_dv(q, k); assert(x == a * q * l) by(nonlinear_arith) requires x == a * k, k == q * l; assert(a * q > 0) by(nonlinear_arith) requires a > 0, q > 0; lemma_mul_dv(a * q, l); let l2 = lemma_dv(a * q, x);
  assert(l == l2) by(nonlinear_arith) requires a * q * l == a * q * l2, a * q > 0;
  assert(abz(v * (-q)) == a * q && sgn(v * (-q)) == -sgn(v)) by { if v > 0 { assert(v * (-q) == -(v * q) && v * q > 0) by(nonlinear_arith) requires v > 0, q > 0; } else { assert(v * (-q) == (-v) * q && (-v) * q > 0) by(nonlinear_arith) requires v < 0, q > 0; } } l }
pub proof fn lemma_pm_step(v: int, x: int, q: int, w: int) requires x > 0, pmi(v, x, q), w == (if isp(q) && dv(q * q, x) { 0 } else if isp(q) && dv(q, x) { v * (-q) } else { v }), q >= 0, ensures pmi(w, x, q + 1)
{ assert(nu(x, q + 1) == nu(x, q) + b2i(isp(q) && dv(q, x))); let a = abz(v);
  if isp(q) && dv(q * q, x) { } else if isp(q) && dv(q, x) { if v != 0 {
      assert(!dv(q, a)); let l = lemma_pm_mul(v, x, q); let k = x / a; let c = a * q; lemma_nu_b(x, q);
      assert forall|s: int| isp(s) && #[trigger] dv(s, abz(w)) implies s < q + 1 by { lemma_euclid(s, a, q); if !dv(s, a) { let y = lemma_dv(s, q); } }
      assert forall|s: int| isp(s) && s < q + 1 implies !#[trigger] dv(s, x / abz(w)) by { if dv(s, l) { if s < q { lemma_dv_mulr(s, l, q); } else { let y = lemma_dv(q, l); assert(x == (q * q) * (a * y)) by(nonlinear_arith) requires x == a * q * l, l == q * y; assert(q * q > 0) by(nonlinear_arith) requires q > 1; lemma_mul_dv(q * q, a * y); } } }
      assert(w != 0) by { assert(abz(w) > 0); }
    } else { assert(0 * (-q) == 0); } }
  else if isp(q) { if v != 0 { let k = lemma_dv(a, x); assert(!dv(q, k)) by { if dv(q, k) { lemma_dv_mulr(q, k, a); } } } } }
pub proof fn lemma_pmi(x: int, r: int) requires x > 0, ensures pmi(pm(x, r), x, r) decreases r
{ if r > 0 { lemma_pmi(x, r - 1); lemma_pm_step(pm(x, r - 1), x, r - 1, pm(x, r)); } else { lemma_dv_refl(x); assert forall|q: int| isp(q) && #[trigger] dv(q, 1) implies q < r by { let y = lemma_dv(q, 1); } } }
pub proof fn lemma_pm_gap(x: int, a: int, b: int) requires a <= b, forall|q: int| a <= q < b ==> !(#[trigger] isp(q) && dv(q, x)), x > 0, ensures pm(x, a) == pm(x, b) decreases b - a
{ if a < b { let q = b - 1; if b > 0 && isp(q) && dv(q * q, x) { assert(q * q > 0) by(nonlinear_arith) requires q > 1; lemma_mul_dv(q, q); lemma_dv_trans(q, q * q, x); } assert(!(isp(q) && dv(q, x))); lemma_pm_gap(x, a, b - 1); } }
pub proof fn lemma_pm_prime(i: int) requires i > 1, ensures (pm(i, i) == 1) == isp(i)
{ lemma_pmi(i, i); if isp(i) { assert forall|q: int| 0 <= q < i implies !(#[trigger] isp(q) && dv(q, i)) by {} lemma_pm_gap(i, 0, i); }
  else { let r = lemma_pdiv(i); if pm(i, i) == 1 { assert(i / 1 == i); assert(dv(r, i / abz(1))); } } }
/// range of the values met on the way
pub proof fn lemma_pm_range(x: int, q: int) requires x > 0, ensures -x <= pm(x, q) <= x, isp(q) && dv(q, x) ==> -x <= pm(x, q) * (-q) <= x
{ lemma_pmi(x, q); let v = pm(x, q); if v != 0 { let k = lemma_dv(abz(v), x); if isp(q) && dv(q, x) { let l = lemma_pm_mul(v, x, q); } } else { assert(0 * (-q) == 0); } }
/// correction for the one prime factor that may be left
pub proof fn lemma_pm_end(x: int, r: int) requires x > 0, forall|s: int| #[trigger] isp(s) && s * s <= x ==> s < r, r >= 0, ensures mob(x) == ({ let v = pm(x, r); if v == x { 1int } else if v == -x { -1int } else if v < 0 { 1int } else if v > 0 { -1int } else { 0int } }), x == 1 ==> pm(x, r) == 1
{ lemma_pmi(x, r); let v = pm(x, r); let a = abz(v); lemma_nu_b(x, r);
  if v != 0 {
    let l = lemma_dv(a, x); assert(l <= x) by(nonlinear_arith) requires x == a * l, a >= 1, l > 0;
    assert forall|q: int| isp(q) && q >= r && #[trigger] dv(q, x) implies dv(q, l) by { lemma_euclid(q, a, l); }
    if l > 1 {
      assert forall|s: int| isp(s) && s * s <= l implies !#[trigger] dv(s, l) by { if dv(s, l) { assert(l <= x); assert(s < r); } }
      lemma_isp_iff(l); lemma_dv_refl(l); assert(l >= r); lemma_dv_mulr(l, l, a);
      assert forall|q: int| isp(q) && q >= r && #[trigger] dv(q, x) implies q == l by { let y = lemma_dv(q, l); assert(!(1 < q < l)); }
      lemma_nu_gap(x, r, l); assert(nu(x, l + 1) == nu(x, l) + 1); lemma_nu_gap(x, l + 1, x + 1);
      assert forall|s: int| isp(s) implies !#[trigger] dv(s * s, x) by { if dv(s * s, x) && s >= r { assert(s * s > x); let y = lemma_dv(s * s, x); } }
      assert(a < x) by(nonlinear_arith) requires x == a * l, l > 1, a > 0;
    } else {
      assert(l == 1 && a == x) by(nonlinear_arith) requires x == a * l, l <= 1, x > 0, l > 0;
      assert forall|q: int| q >= r implies !(isp(q) && #[trigger] dv(q, x)) by { if isp(q) && dv(q, x) { let y = lemma_dv(q, 1); } }
      assert forall|s: int| isp(s) implies !#[trigger] dv(s * s, x) by { if dv(s * s, x) && s >= r { assert(s * s > x); let y = lemma_dv(s * s, x); } }
      if r <= x + 1 { lemma_nu_gap(x, r, x + 1); } else { lemma_nu_big(x, r); }
    }
  }
  if x == 1 { assert(sqf(1)) by { assert forall|s: int| isp(s) implies !#[trigger] dv(s * s, 1) by { if dv(s * s, 1) { let y = lemma_dv(s * s, 1); assert(s * s > 1) by(nonlinear_arith) requires s > 1; } } }
    assert forall|q: int| 0 <= q < r implies !(#[trigger] isp(q) && dv(q, 1)) by { if dv(q, 1) { let y = lemma_dv(q, 1); } } lemma_pm_gap(1, 0, r); }
}
pub proof fn lemma_root(n: int, r: int, x: int) requires n <= r * r || n <= 1, 0 < x < n, r > 0, ensures forall|s: int| #[trigger] isp(s) && s * s <= x ==> s < r
{ assert forall|s: int| #[trigger] isp(s) && s * s <= x implies s < r by { if s >= r { lemma_sq(r, s); } } }
pub proof fn lemma_pm_0(x: int) requires x > 0, ensures pm(x, 2) == 1, pm(x, 0) == 1 { lemma_pm_gap(x, 0, 2); }
pub proof fn lemma_root2(p: Seq<i32>, m: int, e: int, x: int) requires psc(p, m, e), 0 < x < e, ensures forall|s: int| #[trigger] isp(s) && s * s <= x ==> s < bnd(p, m)
{ assert forall|s: int| #[trigger] isp(s) && s * s <= x implies s < bnd(p, m) by { lemma_inl_bnd(p, m, e, s); } }
pub proof fn lemma_mult_pre2(a: int, b: int) requires 0 < a <= 0x3fff_ffff_0000_0001, 0 <= b <= 0x4000_0000_0000_0000, ensures 0 <= cdiv(b, a) * a <= i64::MAX { lemma_multiple(a, b); }
pub proof fn lemma_p2(p: int) requires 1 < p <= 0x7fff_ffff, ensures p < p * p, p * p <= 0x3fff_ffff_0000_0001 { assert(p < p * p && p * p <= 0x7fff_ffff * 0x7fff_ffff) by(nonlinear_arith) requires 1 < p <= 0x7fff_ffff; }
"""

Q = "altruct::math::"


def contracts():
    sieve_loops = lambda p: {
        0: dict(invariant=["2 <= i", "n >= 0", "q@.len() >= n", "q@.len() == old(q)@.len()", "n > 0 ==> q@[0] == 0", "n > 1 ==> q@[1] == 0", "forall|x: int| 2 <= x < i && x < n ==> #[trigger] q@[x] == 1", "forall|x: int| n <= x < q@.len() ==> #[trigger] q@[x] == old(q)@[x]"], decreases="n - i"),
        1: dict(invariant=["2 <= $i", "$i <= n || $i == 2", "n >= 0", "m as int == npr($i as int)", "q@.len() >= n", "q@.len() == old(q)@.len()", "n > 0 ==> q@[0] == 0", "n > 1 ==> q@[1] == 0", "forall|x: int| 2 <= x < n ==> #[trigger] q@[x] == b2i(!sm(x, $i as int))", "forall|x: int| n <= x < q@.len() ==> #[trigger] q@[x] == old(q)@[x]"]
                + (["npr(n as int) < p@.len()", "p@.len() == old(p)@.len()", "pl(p@, m as int, $i as int)", "forall|k: int| m < k < p@.len() ==> #[trigger] p@[k] == old(p)@[k]", "npr(n as int) >= m", "forall|k: int| npr(n as int) < k < p@.len() ==> #[trigger] p@[k] == old(p)@[k]"] if p else []), decreases="n - $i"),
        2: dict(invariant=["2 <= $i", "$i < n", "$i <= n / $i", "isp($i as int)", "dv($i as int, j as int)", "j as int >= $i * $i", "j < n + $i", "q@.len() >= n", "q@.len() == old(q)@.len()", "n > 0 ==> q@[0] == 0", "n > 1 ==> q@[1] == 0", "forall|x: int| n <= x < q@.len() ==> #[trigger] q@[x] == old(q)@[x]",
                           "forall|x: int| 2 <= x < n ==> #[trigger] q@[x] == b2i(!sm(x, $i as int) && !($i * $i <= x && x < j && dv($i as int, x)))"], decreases="n + $i - j"),
    }
    hints = lambda p: {
        "entry": "let ghost mut pz = p@;" if p else "", "exit": "proof { lemma_pl_ext(pz, p@, m as int, n as int); }" if p else "",
        "L1.before": "proof { lemma_npr(2, 2); lemma_npr(0, n as int); lemma_npr(n as int, n as int); %s assert forall|x: int| 2 <= x < n implies #[trigger] q@[x] == b2i(!sm(x, 2)) by { if sm(x, 2) { let r = choose|r: int| #![trigger dv(r, x)] isp(r) && r < 2 && r < x && dv(r, x); } } }" % ("lemma_npr(2, if n > 2 { n as int } else { 2 }); lemma_npr(if n > 2 { 2 } else { n as int }, 2); assert forall|r: int| #[trigger] isp(r) && r < 2 implies inl(p@, 0, r) by {}" if p else ""),
        "L1.begin": "proof { lemma_quo(n as int, $i as int); lemma_sm_all($i as int, $i as int); assert(q@[$i as int] == b2i(isp($i as int))); lemma_npr(0, $i as int); assert(npr($i + 1) == npr($i as int) + b2i(isp($i as int))); lemma_npr($i + 1, n as int); assert forall|x: int| 2 <= x < n implies #[trigger] sm(x, $i + 1) == (sm(x, $i as int) || (isp($i as int) && $i < x && dv($i as int, x))) by { lemma_sm_step(x, $i as int); } } let ghost q1 = q@;" + (" let ghost p1 = p@; let ghost m1 = m as int;" if p else ""),
        "L1.end": "proof { lemma_quo(n as int, $i as int); assert forall|x: int| 2 <= x < n implies #[trigger] q@[x] == b2i(!sm(x, $i + 1)) by { assert(sm(x, $i + 1) == (sm(x, $i as int) || (isp($i as int) && $i < x && dv($i as int, x)))); if isp($i as int) && $i < x && dv($i as int, x) && x < $i * $i { lemma_sm_small(x, $i as int); } } %s }" % ("lemma_pl_push(p1, m1, $i as int, p@, m as int);" if p else ""),
        "L1.after": "proof { %s lemma_npr($i as int, $i as int); assert forall|x: int| 0 <= x < n implies #[trigger] q@[x] == b2i(isp(x)) by { if x >= 2 { lemma_sm_all(x, $i as int); } } }" % ("if n < 2 { assert forall|r: int| #[trigger] isp(r) && r < n implies inl(p@, m as int, r) by {} } pz = p@;" if p else ""),
        "L2.before": "proof { lemma_quo(n as int, $i as int); lemma_mul_dv($i as int, $i as int); }", "L2.begin": "let ghost q2 = q@; proof { lemma_next($i as int, j as int); assert(j >= 2) by(nonlinear_arith) requires j >= $i * $i, $i >= 2; }",
    }
    cs = []
    ens = ["r as int == npr(n as int)", "forall|x: int| 0 <= x < n ==> #[trigger] final(q)@[x] == b2i(isp(x))", "final(q)@.len() == old(q)@.len()", "forall|x: int| n <= x < final(q)@.len() ==> #[trigger] final(q)@[x] == old(q)@[x]"]
    for p in (True, False):
        cs.append(Contract("primes" if p else "primes_q", Q + "primes", params=["p", "q", "n"], modes={} if p else {"p": "null"},
            requires=["n >= 0", "old(q)@.len() >= n"] + (["old(p)@.len() > npr(n as int)"] if p else []),
            ensures=ens + (["pl(final(p)@, r as int, n as int)", "final(p)@[r as int] == 0", "final(p)@.len() == old(p)@.len()", "forall|k: int| r < k < final(p)@.len() ==> #[trigger] final(p)@[k] == old(p)@[k]"] if p else []),
            loops=sieve_loops(p), hints=hints(p)))
    fr = lambda a, n, lo=None: ["%s@.len() == old(%s)@.len()" % (a, a), "%s@.len() >= %s" % (a, n), "forall|x: int| %s <= x < %s@.len() ==> #[trigger] %s@[x] == old(%s)@[x]" % (n, a, a, a)] + (["%s > 0 ==> %s@[0] == %s" % (n, a, lo.replace("@A", "old(%s)@[0]" % a))] if lo else [])
    post = lambda a, n: ["final(%s)@.len() == old(%s)@.len()" % (a, a), "forall|x: int| %s <= x < final(%s)@.len() ==> #[trigger] final(%s)@[x] == old(%s)@[x]" % (n, a, a, a)]
    size = lambda a: ["n >= 0", "old(%s)@.len() >= n" % a]
    PL = "pl(p@, m as int, n as int)"
    cs.append(Contract("prime_pi", Q + "prime_pi", params=["pi", "n", "p", "m"], requires=size("pi") + [PL], ensures=["forall|x: int| 0 <= x < n ==> #[trigger] final(pi)@[x] == npr(x + 1)"] + post("pi", "n"),
        hints={"entry": "proof { lemma_npr(0, 0); }", "L0.begin": "proof { lemma_pl_at(p@, m as int, n as int, l as int, i as int); assert(npr(i + 1) == npr(i as int) + b2i(isp(i as int))); lemma_npr(0, i as int); if l < m { assert(isp(p@[l as int] as int)); } if l + 1 < m { assert(p@[l as int] < p@[l + 1]); } }"},
        loops={0: dict(invariant=["0 <= i <= n", "0 <= l <= m", PL, "l as int == npr(i as int)", "bnd(p@, l as int) <= i", "l < m ==> p@[l as int] >= i", "forall|x: int| 0 <= x < i ==> #[trigger] pi@[x] == npr(x + 1)"] + fr("pi", "n"), decreases="n - i")}))
    pi_ = "p@[i as int]"
    inner = ["n >= 0", PL, "0 <= i < m", "dv(pp, j as int)", "pp == " + pi_, "isp(pp)", "0 < pp < n", "pp <= j < n + pp"]
    cs.append(Contract("prime_nu", Q + "prime_nu", params=["out", "n", "p", "m"], requires=size("out") + [PL], ensures=["forall|x: int| 0 < x < n ==> #[trigger] final(out)@[x] == omega(x)", "n > 0 ==> final(out)@[0] == 0"] + post("out", "n"),
        hints={"L1.begin": "let ghost pp = p@[$i as int] as int; proof { assert(isp(pp)); lemma_gap(p@, m as int, n as int, $i as int); lemma_below(pp); assert forall|x: int| 0 < x < n implies #[trigger] out@[x] == nu(x, pp) by { lemma_nu_gap(x, bnd(p@, $i as int), pp); } }",
               "L2.begin": "proof { lemma_next(pp, j as int); lemma_nu_b(j as int, pp); }", "L1.end": "proof { assert forall|x: int| 0 < x < n implies #[trigger] out@[x] == nu(x, bnd(p@, $i + 1)) by { assert(nu(x, pp + 1) == nu(x, pp) + b2i(dv(pp, x))); } }",
               "L1.after": "proof { lemma_gap(p@, m as int, n as int, m as int); assert forall|x: int| 0 < x < n implies #[trigger] out@[x] == omega(x) by { lemma_nu_gap(x, bnd(p@, m as int), n as int); lemma_nu_big(x, n as int); } }"},
        loops={0: dict(invariant=["0 <= i <= n", "forall|x: int| 0 <= x < i ==> #[trigger] out@[x] == 0"] + fr("out", "n"), decreases="n - i"),
               1: dict(invariant=["n >= 0", "0 <= $i <= m", PL, "forall|x: int| 0 < x < n ==> #[trigger] out@[x] == nu(x, bnd(p@, $i as int))"] + fr("out", "n", "0"), decreases="m - $i"),
               2: dict(invariant=[x.replace("(i ", "($i ").replace("[i ", "[$i ").replace("<= i <", "<= $i <") for x in inner] + ["forall|x: int| 0 < x < n ==> #[trigger] out@[x] == nu(x, pp) + b2i(dv(pp, x) && x < j)"] + fr("out", "n", "0"), decreases="n + pp - j")}))
    for k, d, add, sg in ((0, "d0", "b2i(dv($i as int, x) && x < j)", "sigma0"), (1, "d1", "(if dv($i as int, x) && x < j { $i as int } else { 0 })", "sigma1")):
        cs.append(Contract("dsigma%d" % k, Q + "divisor_sigma%d" % k, pred=lambda f: "*" in f["type"]["qualType"], params=["ds", "n"], requires=size("ds"), ensures=["forall|x: int| 0 < x < n ==> #[trigger] final(ds)@[x] == %s(x)" % sg, "n > 0 ==> final(ds)@[0] == old(ds)@[0]"] + post("ds", "n"),
            hints={"L1.begin": "proof { lemma_below($i as int); lemma_d_b(0, $i as int); }", "L2.begin": "proof { lemma_next($i as int, j as int); lemma_d_b(j as int, $i as int); assert($i * $i <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires 0 <= $i <= 0x8000_0000; }",
                   "L1.end": "proof { assert forall|x: int| 0 < x < n implies #[trigger] ds@[x] == %s(x, $i + 1) by {} }" % d, "L1.after": "proof { assert forall|x: int| 0 < x < n implies #[trigger] ds@[x] == %s(x) by { lemma_d_big(x, n as int); } }" % sg},
            loops={0: dict(invariant=["1 <= i", "i <= n || i == 1", "n >= 0", "forall|x: int| 0 < x < i ==> #[trigger] ds@[x] == 0"] + fr("ds", "n", "@A"), decreases="n - i"),
                   1: dict(invariant=["n >= 0", "1 <= $i", "$i <= n || $i == 1", "forall|x: int| 0 < x < n ==> #[trigger] ds@[x] == %s(x, $i as int)" % d] + fr("ds", "n", "@A"), decreases="n - $i"),
                   2: dict(invariant=["1 <= $i < n", "dv($i as int, j as int)", "$i <= j < n + $i", "forall|x: int| 0 < x < n ==> #[trigger] ds@[x] == %s(x, $i as int) + %s" % (d, add)] + fr("ds", "n", "@A"), decreases="n + $i - j")}))
    N62 = "n <= 0x4000_0000_0000_0000"
    spfp = "(if x < 2 { spf@[x] == 0 } else if isp(x) { spf@[x] == 0 } else { lpo(spf@[x] as int, x, %s) })"
    cs.append(Contract("smallest_factor", Q + "smallest_factor", params=["spf", "n"], requires=["old(spf)@.len() >= n", N62], ensures=["forall|x: int| 0 <= x < n ==> (if x < 2 || isp(x) { #[trigger] final(spf)@[x] == 0 } else { lpf(final(spf)@[x] as int, x) })"] + post("spf", "n"),
        hints={"L1.before": "proof { assert forall|x: int| 0 <= x < n implies #[trigger] spf@[x] == b2i(x >= 2 && sm(x, 2)) by { if sm(x, 2) { let r = choose|r: int| #![trigger dv(r, x)] isp(r) && r < 2 && r < x && dv(r, x); } } }",
               "L1.begin": "proof { lemma_quo(n as int, $i as int); lemma_sm_all($i as int, $i as int); assert forall|x: int| 2 <= x < n implies #[trigger] sm(x, $i + 1) == (sm(x, $i as int) || (isp($i as int) && $i < x && dv($i as int, x))) by { lemma_sm_step(x, $i as int); } }",
               "L1.end": "proof { assert forall|x: int| 0 <= x < n implies #[trigger] spf@[x] == b2i(x >= 2 && sm(x, $i + 1)) by { if x >= 2 { assert(sm(x, $i + 1) == (sm(x, $i as int) || (isp($i as int) && $i < x && dv($i as int, x)))); if isp($i as int) && $i < x && dv($i as int, x) && x < $i * $i { lemma_sm_small(x, $i as int); } } } }",
               "L2.before": "proof { lemma_mul_dv($i as int, $i as int); }", "L2.begin": "proof { lemma_next($i as int, j as int); }",
               "L1.after": "proof { assert forall|x: int| 0 <= x < n implies #[trigger] spf@[x] == (if x >= 2 && !isp(x) { 1int } else { 0 }) by { if x >= 2 { lemma_sm_all(x, $i as int); } } }",
               "L3.before": "proof { assert forall|x: int| 0 <= x < n implies %s by { let v = #[trigger] spf@[x]; if x >= 2 { lemma_lpo_start(x, n as int); } } }" % (spfp % "n as int"),
               "L3.begin": "proof { lemma_quo(n as int, $i as int); assert($i <= n / ($i as u64) ==> $i < 0x8000_0000 || n == $i * $i) by(nonlinear_arith) requires $i <= n / ($i as u64) ==> $i * $i <= n, n <= 0x4000_0000_0000_0000; let v = spf@[$i as int]; } let ghost s3 = spf@;",
               "L4.before": "proof { lemma_mul_dv($i as int, $i as int); }", "L4.begin": "proof { lemma_next($i as int, $j as int); }",
               "L3.end": "proof { assert forall|x: int| 0 <= x < n implies %s by { let v = #[trigger] spf@[x]; let w = s3[x]; if x >= 2 && !isp(x) { lemma_lpo_step(s3[x] as int, x, $i as int, spf@[x] as int); } if isp(x) && isp($i as int) && dv($i as int, x) && $i * $i <= x { lemma_comp($i as int, x); } } }" % (spfp % "$i as int"),
               "L3.after": "proof { assert forall|x: int| 0 <= x < n implies (if x < 2 || isp(x) { #[trigger] spf@[x] == 0 } else { lpf(spf@[x] as int, x) }) by { let v = spf@[x]; if x >= 2 && !isp(x) { lemma_lpo_end(spf@[x] as int, x); } } }"},
        loops={0: dict(invariant=["i <= n", "forall|x: int| 0 <= x < i ==> #[trigger] spf@[x] == 0"] + fr("spf", "n"), decreases="n - i"),
               1: dict(invariant=["2 <= $i", "$i <= n || $i == 2", N62, "forall|x: int| 0 <= x < n ==> #[trigger] spf@[x] == b2i(x >= 2 && sm(x, $i as int))"] + fr("spf", "n"), decreases="n - $i"),
               2: dict(invariant=["2 <= $i < n", N62, "isp($i as int)", "dv($i as int, j as int)", "$i * $i <= j", "j < n + $i", "forall|x: int| 0 <= x < n ==> #[trigger] spf@[x] == b2i(x >= 2 && (sm(x, $i as int) || ($i * $i <= x && x < j && dv($i as int, x))))"] + fr("spf", "n"), decreases="n + $i - j"),
               3: dict(invariant_except_break=["$i <= n", "$i >= 2 || $i == n", "forall|x: int| 0 <= x < n ==> { let v = #[trigger] spf@[x]; %s }" % (spfp % "$i as int")], invariant=[N62] + fr("spf", "n"), ensures=["forall|x: int| 0 <= x < n ==> { let v = #[trigger] spf@[x]; %s }" % (spfp % "2")], decreases="$i"),
               4: dict(invariant=["2 <= $i < n", "$i < 0x8000_0000 || $i * $i == n", N62, "isp($i as int)", "dv($i as int, $j as int)", "$i * $i <= $j", "$j < n + $i", "forall|x: int| 0 <= x < n ==> #[trigger] spf@[x] == (if $i * $i <= x && x < $j && dv($i as int, x) { $i as i32 } else { s3[x] })"] + fr("spf", "n"), decreases="n + $i - $j")}, attrs=["#[verifier::allow_complex_invariants]"]))
    cs.append(Contract("factor", Q + "factor", params=["bpf", "n", "p", "m"], requires=size("bpf") + [PL], ensures=["forall|x: int| 1 < x < n ==> gpf(#[trigger] final(bpf)@[x] as int, x)", "n > 0 ==> final(bpf)@[0] == 0", "n > 1 ==> final(bpf)@[1] == 1"] + post("bpf", "n"),
        hints={"L0.begin": "let ghost pp = p@[i as int] as int; let ghost b0 = bpf@; proof { assert(isp(pp)); lemma_gap(p@, m as int, n as int, i as int); lemma_below(pp); }", "L1.begin": "proof { lemma_next(pp, j as int); }",
               "L0.end": "proof { assert forall|x: int| 1 < x < n implies gpo(#[trigger] bpf@[x] as int, x, bnd(p@, i + 1)) by { lemma_gpo_gap(b0[x] as int, x, bnd(p@, i as int), pp); lemma_gpo_step(b0[x] as int, x, pp, bpf@[x] as int); } }",
               "L0.after": "proof { lemma_gap(p@, m as int, n as int, m as int); assert forall|x: int| 1 < x < n implies gpf(#[trigger] bpf@[x] as int, x) by { lemma_gpo_gap(bpf@[x] as int, x, bnd(p@, m as int), n as int); lemma_gpo_end(bpf@[x] as int, x, n as int); } }"},
        loops={0: dict(invariant=["n >= 0", "0 <= i <= m", PL, "forall|x: int| 1 < x < n ==> gpo(#[trigger] bpf@[x] as int, x, bnd(p@, i as int))", "n > 1 ==> bpf@[1] == 1"] + fr("bpf", "n", "0"), decreases="m - i"),
               1: dict(invariant=inner + ["forall|x: int| 1 < x < n ==> #[trigger] bpf@[x] == (if dv(pp, x) && x < j { pp as i32 } else { b0[x] })", "n > 1 ==> bpf@[1] == 1"] + fr("bpf", "n", "0"), decreases="n + pp - j")}))
    L = "0x4000_0000_0000_0000"
    seg = ["0 <= b <= e", "e <= " + L, "psq(p@, m as int, e as int)"]
    sfr = ["q@.len() == old(q)@.len()", "q@.len() >= e - b_0", "forall|k: int| e - b_0 <= k < q@.len() ==> #[trigger] q@[k] == old(q)@[k]"]
    cs.append(Contract("isq", Q + "isq", params=["x"], requires=["-0x8000_0000 <= x <= 0x8000_0000"], ensures=["r as int == x * x"], hints={"entry": "proof { assert(0 <= x * x <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires -0x8000_0000 <= x <= 0x8000_0000; }"}))
    cs += [c for c in divs.units()[0].contracts if c.rust in ("div_ceil_i64", "multiple_i64")]
    cs.append(Contract("segmented_q", Q + "segmented_q", params=["q", "b", "e", "p", "m"], requires=seg + ["old(q)@.len() >= e - b"], ensures=["forall|k: int| 0 <= k < e - b ==> #[trigger] final(q)@[k] == b2i(isp(b + k))", "final(q)@.len() == old(q)@.len()", "forall|k: int| e - b <= k < final(q)@.len() ==> #[trigger] final(q)@[k] == old(q)@[k]"],
        hints={"entry": "let ghost mut b1: int = 0; assert(!isp(0) && !isp(1));", "L0.before": "proof { b1 = b as int; }",
               "L1.before": "proof { assert forall|k: int| 0 <= k < e - b_0 implies #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!ms(p@, k + b_0, 0)) } else { 0 }) by { if ms(p@, k + b_0, 0) { let l = choose|l: int| #![trigger p@[l]] 0 <= l < 0 && p@[l] * p@[l] <= k + b_0 && dv(p@[l] as int, k + b_0); } } }",
               "L1.begin": "let ghost q1 = q@; let ghost bp = b as int; let ghost pp = p@[$i as int] as int; proof { assert(isp(pp)); lemma_sq(pp, 0x8000_0000); assert(pp < pp * pp) by(nonlinear_arith) requires pp > 1; if $i > 0 { assert(p@[$i - 1] < p@[$i as int]); assert(isp(p@[$i - 1] as int)); lemma_sq(p@[$i - 1] as int, pp); } }",
               "L1.break": "proof { assert forall|k: int| 0 <= k < e - b_0 implies #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!ms(p@, k + b_0, m as int)) } else { 0 }) by { if k + b_0 >= b1 { lemma_ms_rest(p@, m as int, e as int, k + b_0, $i as int); } } }",
               "use:multiple.before": "proof { assert(pp < e) by { assert(pp < b); } lemma_mult_pre(pp, b as int); }", "L2.before": "proof { reveal(dv); assert(dv(pp, $a as int)); lemma_first(pp, b as int, $a as int); }",
               "L2.begin": "proof { lemma_next(pp, $a as int); assert(!isp(pp + 1) || true); }",
               "L1.end": "proof { assert forall|k: int| 0 <= k < e - b_0 implies #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!ms(p@, k + b_0, $i + 1)) } else { 0 }) by { if k + b_0 >= b1 { lemma_ms_step(p@, k + b_0, $i as int); } } }",
               "L1.after": "proof { assert forall|k: int| 0 <= k < e - b_0 implies #[trigger] q@[k] == b2i(isp(b_0 + k)) by { if k + b_0 >= b1 { lemma_ms_end(p@, m as int, e as int, k + b_0); } } }"},
        loops={0: dict(invariant=["b <= a", "a <= e || a == b", "0 <= b_0 <= b", "v_q == -b_0", "b == b1", "b <= e", "b1 >= 2 || b1 == e", "b1 - b_0 <= 2", "b1 > b_0 ==> b1 <= 2", "forall|k: int| 0 <= k < a - b_0 ==> #[trigger] q@[k] == b2i(k + b_0 >= b1)"] + sfr, decreases="e - a"),
               1: dict(invariant_except_break=["$i == 0 ==> b == b1", "b == b1 || ($i > 0 && b == p@[$i - 1] * p@[$i - 1])", "b < e || b == b1", "forall|k: int| 0 <= k < e - b_0 ==> #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!ms(p@, k + b_0, $i as int)) } else { 0 })"],
                       invariant=["0 <= $i <= m", "0 <= b_0 <= b1 <= b", "b1 <= e", "e <= " + L, "b1 >= 2 || b1 == e", "b1 > b_0 ==> b1 <= 2", "v_q == -b_0", "psq(p@, m as int, e as int)"] + sfr, ensures=["forall|k: int| 0 <= k < e - b_0 ==> #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!ms(p@, k + b_0, m as int)) } else { 0 })"], decreases="m - $i"),
               2: dict(invariant=["0 <= $i < m", "0 <= b_0 <= b1 <= b < e", "e <= " + L, "v_q == -b_0", "psq(p@, m as int, e as int)", "pp == p@[$i as int]", "1 < pp", "dv(pp, $a as int)", "b <= $a", "$a < e + pp", "b == b1 && b1 >= pp * pp || b == pp * pp", "forall|k: int| 0 <= k < e - b_0 ==> #[trigger] q@[k] == (if k + b_0 >= b1 { b2i(!(ms(p@, k + b_0, $i as int) || (b <= k + b_0 && k + b_0 < $a && dv(pp, k + b_0)))) } else { 0 })"] + sfr, decreases="e + pp - $a")}, attrs=["#[verifier::allow_complex_invariants]"]))
    cs.append(Contract("euler_phi", Q + "euler_phi", pred=lambda f: "*" in f["type"]["qualType"], params=["phi", "n", "p", "m"], requires=size("phi") + [PL], ensures=["forall|x: int| 0 < x < n ==> #[trigger] final(phi)@[x] == totient(x)", "n > 0 ==> final(phi)@[0] == 0"] + post("phi", "n"),
        hints={"L1.before": "proof { assert forall|x: int| 0 < x < n implies #[trigger] phi@[x] == ph(x, 0, x) by { lemma_ph_0(x, x); } }",
               "L1.begin": "let ghost pp = p@[$i as int] as int; proof { assert(isp(pp)); lemma_gap(p@, m as int, n as int, $i as int); lemma_below(pp); assert forall|x: int| 0 < x < n implies #[trigger] phi@[x] == ph(x, pp, x) by { lemma_ph_gap(x, bnd(p@, $i as int), pp, x); } }",
               "L2.begin": "proof { lemma_next(pp, j as int); lemma_ph_step(j as int, pp); lemma_ph_b(j as int, pp, j as int); lemma_ph_b(j as int, pp + 1, j as int); }",
               "L1.end": "proof { assert forall|x: int| 0 < x < n implies #[trigger] phi@[x] == ph(x, bnd(p@, $i + 1), x) by { if !dv(pp, x) { lemma_ph_gap(x, pp, pp + 1, x); } } }",
               "L1.after": "proof { lemma_gap(p@, m as int, n as int, m as int); assert forall|x: int| 0 < x < n implies #[trigger] phi@[x] == totient(x) by { lemma_ph_gap(x, bnd(p@, m as int), n as int, x); lemma_ph_end(x, n as int); } }"},
        loops={0: dict(invariant=["0 <= i <= n", "forall|x: int| 0 <= x < i ==> #[trigger] phi@[x] == x"] + fr("phi", "n"), decreases="n - i"),
               1: dict(invariant=["n >= 0", "0 <= $i <= m", PL, "forall|x: int| 0 < x < n ==> #[trigger] phi@[x] == ph(x, bnd(p@, $i as int), x)"] + fr("phi", "n", "0"), decreases="m - $i"),
               2: dict(invariant=[x.replace("(i ", "($i ").replace("[i ", "[$i ").replace("<= i <", "<= $i <") for x in inner] + ["forall|x: int| 0 < x < n ==> #[trigger] phi@[x] == ph(x, if dv(pp, x) && x < j { pp + 1 } else { pp }, x)"] + fr("phi", "n", "0"), decreases="n + pp - j")}))
    cs.append(Contract("moebius_mu", Q + "moebius_mu", params=["mu", "n", "p", "m"], requires=size("mu"), ensures=["forall|x: int| 0 <= x < n ==> #[trigger] final(mu)@[x] == mob(x)"] + post("mu", "n"),
        hints={"L1.before": "proof { assert forall|x: int| 0 < x < n implies #[trigger] mu@[x] == pm(x, 2) by { lemma_pm_0(x); } }", "L1.begin": "proof { lemma_quo(n - 1, $i as int); lemma_pm_prime($i as int); } let ghost m1 = mu@; let ghost ii = $i as int;",
               "L2.before": "proof { lemma_mul_dv(ii, ii); lemma_dv0(ii * ii); }", "L2.begin": "proof { lemma_next(ii * ii, $j as int); }", "L3.before": "proof { lemma_dv0(ii); }",
               "L3.begin": "proof { lemma_next(ii, $j as int); if $j > 0 { lemma_pm_range($j as int, ii); } assert(0 * (-ii) == 0); }",
               "L1.end": "proof { assert forall|x: int| 0 < x < n implies #[trigger] mu@[x] == pm(x, $i + 1) by { let v = m1[x]; let q = $i as int; assert(0 * (-q) == 0); if isp(q) && dv(q * q, x) { lemma_mul_dv(q, q); lemma_dv_trans(q, q * q, x); } } }",
               "L4.before": "let ghost m4 = mu@;", "L1.after": "proof { gr = $i as int; if n > 0 { lemma_quo(n - 1, $i as int); } }",
               "L4.begin": "proof { lemma_root(n as int, gr, $i as int); lemma_pm_end($i as int, gr); assert(m4[$i as int] == pm($i as int, gr)); lemma_pm_range($i as int, gr); }",
               "L4.after": "proof { assert(mob(0) == 0); if n > 1 { lemma_root(n as int, gr, 1); lemma_pm_end(1, gr); } }", "entry": "let ghost mut gr: int = 0;"},
        loops={0: dict(invariant=["1 <= i", "i <= n || i == 1", "n >= 0", "forall|x: int| 0 < x < i ==> #[trigger] mu@[x] == 1"] + fr("mu", "n", "0"), decreases="n - i"),
               1: dict(invariant=["n >= 0", "2 <= $i", "$i < n || $i == 2", "forall|x: int| 0 < x < n ==> #[trigger] mu@[x] == pm(x, $i as int)"] + fr("mu", "n", "0"), decreases="n - $i"),
               2: dict(invariant=["ii == $i", "isp(ii)", "2 <= $i < n", "$i2 == ii * ii", "ii < ii * ii <= n - 1", "dv(ii * ii, $j as int)", "0 <= $j < n + ii * ii", "forall|x: int| 0 < x < n ==> #[trigger] mu@[x] == (if dv(ii * ii, x) && x < $j { 0 } else { m1[x] })", "forall|x: int| 0 < x < n ==> #[trigger] m1[x] == pm(x, ii)"] + fr("mu", "n", "0"), decreases="n + ii * ii - $j"),
               3: dict(invariant=["ii == $i", "isp(ii)", "2 <= $i < n", "dv(ii, $j as int)", "0 <= $j < n + ii", "forall|x: int| 0 < x < n ==> #[trigger] mu@[x] == (if dv(ii * ii, x) { 0 } else if dv(ii, x) && x < $j { m1[x] * (-ii) } else { m1[x] as int })", "forall|x: int| 0 < x < n ==> #[trigger] m1[x] == pm(x, ii)"] + fr("mu", "n", "0"), decreases="n + ii - $j"),
               4: dict(invariant=["n >= 0", "2 <= $i", "$i <= n || $i == 2", "gr > 0", "n <= gr * gr || n <= 1", "forall|x: int| 0 < x < n ==> #[trigger] mu@[x] == (if 1 < x < $i { mob(x) } else { m4[x] as int })", "forall|x: int| 0 < x < n ==> #[trigger] m4[x] == pm(x, gr)"] + fr("mu", "n", "0"), decreases="n - $i")}))
    rng = lambda a: ["%s@.len() == old(%s)@.len()" % (a, a), "%s@.len() >= e - b_0" % a, "forall|k: int| e - b_0 <= k < %s@.len() ==> #[trigger] %s@[k] == old(%s)@[k]" % (a, a, a)]
    pr = lambda a: ["final(%s)@.len() == old(%s)@.len()" % (a, a), "forall|k: int| e - b <= k < final(%s)@.len() ==> #[trigger] final(%s)@[k] == old(%s)@[k]" % (a, a, a)]
    segc = ["0 <= b <= e", "e <= " + L, "psc(p@, m as int, e as int)"]
    env = lambda v: ["0 <= b_0 <= b <= e", "e <= " + L, "b == b_0 || b == 1", "b >= 1 || b == e", "psc(p@, m as int, e as int)"] + v
    spk = lambda B: "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b ==> sp(#[trigger] phi@[k] as int, tmp@[k] as int, k + b_0, %s)" % B
    vv = ["v_phi == -b_0", "v_tmp == -b_0", "b > b_0 ==> phi@[0] == 0"] + rng("phi") + rng("tmp")
    pk = ["0 <= $i < m", "pp == p@[$i as int]", "isp(pp)", "1 < pp <= 0x7fff_ffff"]
    cs.append(Contract("segmented_phi", Q + "segmented_phi", params=["phi", "tmp", "b", "e", "p", "m"], requires=segc + ["old(phi)@.len() >= e - b", "old(tmp)@.len() >= e - b"], ensures=["forall|k: int| 0 <= k < e - b ==> #[trigger] final(phi)@[k] == totient(b + k)"] + pr("phi") + pr("tmp"),
        hints={"L1.before": "proof { assert forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b implies sp(#[trigger] phi@[k] as int, tmp@[k] as int, k + b_0, bnd(p@, 0)) by { lemma_sp_start(k + b_0); } }",
               "L1.begin": "let ghost pp = p@[$i as int] as int; proof { assert(isp(pp)); lemma_gap(p@, m as int, bnd(p@, m as int), $i as int); lemma_mult_pre(pp, b as int); assert forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b implies sp(#[trigger] phi@[k] as int, tmp@[k] as int, k + b_0, pp) by { lemma_sp_gap(phi@[k] as int, tmp@[k] as int, k + b_0, bnd(p@, $i as int), pp); } }",
               "L2.before": "proof { reveal(dv); assert(dv(pp, $q as int)); lemma_first(pp, b as int, $q as int); }",
               "L2.begin": "proof { lemma_next(pp, $q as int); lemma_sp_enter(phi@[$q - b_0] as int, tmp@[$q - b_0] as int, $q as int, pp); } let ghost f2 = phi@; let ghost t2 = tmp@;",
               "L3.begin": "proof { assert(dv(pp, tmp@[$q - b_0] as int)) by { reveal(dv); } lemma_spw_step(phi@[$q - b_0] as int, tmp@[$q - b_0] as int, $q as int, pp); }",
               "L3.after": "proof { assert(!dv(pp, tmp@[$q - b_0] as int)) by { reveal(dv); } lemma_spw_exit(phi@[$q - b_0] as int, tmp@[$q - b_0] as int, $q as int, pp); }",
               "L2.end": "proof { assert forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b implies sp(#[trigger] phi@[k] as int, tmp@[k] as int, k + b_0, if dv(pp, k + b_0) && k + b_0 < $q + pp { pp + 1 } else { pp }) by { if k + b_0 != $q { assert(phi@[k] == f2[k]); assert(tmp@[k] == t2[k]); } } }",
               "L1.end": "proof { assert forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b implies sp(#[trigger] phi@[k] as int, tmp@[k] as int, k + b_0, bnd(p@, $i + 1)) by { if !dv(pp, k + b_0) { lemma_sp_none(phi@[k] as int, tmp@[k] as int, k + b_0, pp); } } }",
               "L4.before": "let ghost f4 = phi@;", "L4.begin": "proof { let k = $q - b_0; assert(phi@[k] == f4[k]); lemma_sp_end(phi@[k] as int, tmp@[k] as int, $q as int, p@, m as int, e as int); lemma_dv(tmp@[k] as int, $q as int); }",
               "L4.after": "proof { assert(totient(0) == 0); }"},
        loops={0: dict(invariant=env(["b <= q", "q <= e || q == b", "forall|k: int| 0 <= k < q - b_0 && k + b_0 >= b ==> #[trigger] phi@[k] == 1 && tmp@[k] == k + b_0"]) + vv, decreases="e - q"),
               1: dict(invariant=env(["0 <= $i <= m", spk("bnd(p@, $i as int)")]) + vv, decreases="m - $i"),
               2: dict(invariant=env(pk + ["dv(pp, $q as int)", "b <= $q", "$q < e + pp", spk("if dv(pp, k + b_0) && k + b_0 < $q { pp + 1 } else { pp }")]) + vv, decreases="e + pp - $q"),
               3: dict(invariant=env(pk + ["b <= $q < e", "$q > 0", "spw(phi@[$q - b_0] as int, tmp@[$q - b_0] as int, $q as int, pp)", "forall|k: int| 0 <= k < e - b_0 && k != $q - b_0 ==> #[trigger] phi@[k] == f2[k]", "forall|k: int| 0 <= k < e - b_0 && k != $q - b_0 ==> #[trigger] tmp@[k] == t2[k]"]) + vv, decreases="tmp@[$q - b_0]"),
               4: dict(invariant=env(["b <= $q", "$q <= e || $q == b", "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b ==> sp(#[trigger] f4[k] as int, tmp@[k] as int, k + b_0, bnd(p@, m as int))", "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= $q ==> #[trigger] phi@[k] == f4[k]", "forall|k: int| 0 <= k < e - b_0 && b <= k + b_0 < $q ==> #[trigger] phi@[k] == totient(k + b_0)"]) + vv, decreases="e - $q")}))
    mv = ["v_mu == -b_0", "b > b_0 ==> mu@[0] == 0"] + rng("mu")
    muk = lambda E, lo="b": "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= %s ==> #[trigger] mu@[k] == %s" % (lo, E)
    cs.append(Contract("segmented_mu", Q + "segmented_mu", params=["mu", "b", "e", "p", "m"], requires=segc + ["old(mu)@.len() >= e - b"], ensures=["forall|k: int| 0 <= k < e - b ==> #[trigger] final(mu)@[k] == mob(b + k)"] + pr("mu"),
        hints={"L1.before": "proof { assert %s by { lemma_pm_0(k + b_0); } }" % muk("pm(k + b_0, bnd(p@, 0))").replace("==>", "implies"),
               "L1.begin": "let ghost pp = p@[$i as int] as int; proof { assert(isp(pp)); lemma_p2(pp); lemma_gap(p@, m as int, bnd(p@, m as int), $i as int); lemma_mult_pre(pp, b as int); lemma_mult_pre2(pp * pp, b as int); assert %s by { lemma_pm_gap(k + b_0, bnd(p@, $i as int), pp); } }" % muk("pm(k + b_0, pp)").replace("==>", "implies"),
               "L2.before": "proof { reveal(dv); assert(dv(pp, $q as int)); lemma_first(pp, b as int, $q as int); }", "L2.begin": "proof { lemma_next(pp, $q as int); assert(mu@[$q - b_0] == pm($q as int, pp)); lemma_pm_range($q as int, pp); }",
               "L3.before": "proof { reveal(dv); assert(dv(pp * pp, $q as int)); lemma_first(pp * pp, b as int, $q as int); }", "L3.begin": "proof { lemma_next(pp * pp, $q as int); }",
               "L1.end": "proof { assert %s by { if dv(pp * pp, k + b_0) { lemma_mul_dv(pp, pp); lemma_dv_trans(pp, pp * pp, k + b_0); } } }" % muk("pm(k + b_0, bnd(p@, $i + 1))").replace("==>", "implies"),
               "L4.before": "let ghost m4 = mu@;", "L4.begin": "proof { let k = $q - b_0; assert(mu@[k] == m4[k]); lemma_root2(p@, m as int, e as int, $q as int); lemma_pm_end($q as int, bnd(p@, m as int)); lemma_pm_range($q as int, bnd(p@, m as int)); }",
               "L5.before": "let ghost m5 = mu@;", "L5.begin": "proof { let k = $q - b_0; assert(sgn(m5[k] as int) == mob(k + b_0)); }", "L5.after": "proof { assert(mob(0) == 0); }"},
        loops={0: dict(invariant=env(["b <= q", "q <= e || q == b", "forall|k: int| 0 <= k < q - b_0 && k + b_0 >= b ==> #[trigger] mu@[k] == 1"]) + mv, decreases="e - q"),
               1: dict(invariant=env(["0 <= $i <= m", muk("pm(k + b_0, bnd(p@, $i as int))")]) + mv, decreases="m - $i"),
               2: dict(invariant=env(pk + ["dv(pp, $q as int)", "b <= $q", "$q < e + pp", muk("(if dv(pp, k + b_0) && k + b_0 < $q { pm(k + b_0, pp) * (-pp) } else { pm(k + b_0, pp) })")]) + mv, decreases="e + pp - $q"),
               3: dict(invariant=env(pk + ["p2 == pp * pp", "0 < pp * pp <= 0x3fff_ffff_0000_0001", "dv(pp * pp, $q as int)", "b <= $q", "$q < e + pp * pp", muk("(if dv(pp * pp, k + b_0) && k + b_0 < $q { 0int } else if dv(pp, k + b_0) { pm(k + b_0, pp) * (-pp) } else { pm(k + b_0, pp) })")]) + mv, decreases="e + pp * pp - $q"),
               4: dict(invariant=env(["b <= $q", "$q <= e || $q == b", "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b ==> #[trigger] m4[k] == pm(k + b_0, bnd(p@, m as int))", muk("m4[k]", "$q"), "forall|k: int| 0 <= k < e - b_0 && b <= k + b_0 < $q ==> sgn(#[trigger] mu@[k] as int) == mob(k + b_0)"]) + mv, decreases="e - $q"),
               5: dict(invariant=env(["b <= $q", "$q <= e || $q == b", "forall|k: int| 0 <= k < e - b_0 && k + b_0 >= b ==> sgn(#[trigger] m5[k] as int) == mob(k + b_0)", muk("m5[k]", "$q"), "forall|k: int| 0 <= k < e - b_0 && b <= k + b_0 < $q ==> #[trigger] mu@[k] == mob(k + b_0)"]) + mv, decreases="e - $q")}))
    return cs


def units():
    u = Unit("sieves", ["altruct/algorithm/math/primes.h", "src/algorithm/math/base.cpp", "src/algorithm/math/primes.cpp"], "", contracts(), divs.SPEC + ntlib.DIV + SPEC)
    return [u]
