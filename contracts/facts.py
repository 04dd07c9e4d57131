"""factorisation, divisor listing, digit expansion (primes.h, primes.cpp, factorization.h)"""
from unit import Unit, Contract
import ntlib, divs, sieves, powt, gcd
M = "altruct::math::"
SPEC = r"""
// ---------------------------------------------------------------- factor lists: (base, exponent)
pub open spec fn w32(v: Seq<(i32, i32)>) -> Seq<(int, int)> { Seq::new(v.len(), |k: int| (v[k].0 as int, v[k].1 as int)) }
pub open spec fn w64(v: Seq<(i64, i32)>) -> Seq<(int, int)> { Seq::new(v.len(), |k: int| (v[k].0 as int, v[k].1 as int)) }
pub open spec fn prod(f: Seq<(int, int)>) -> int decreases f.len() { if f.len() == 0 { 1 } else { prod(f.drop_last()) * pow(f.last().0, f.last().1 as nat) } }
/// distinct primes with positive exponents
pub open spec fn facts(f: Seq<(int, int)>) -> bool { (forall|k: int| 0 <= k < f.len() ==> isp(#[trigger] f[k].0) && f[k].1 >= 1) && (forall|k: int, l: int| 0 <= k < l < f.len() ==> #[trigger] f[k].0 != #[trigger] f[l].0) }
pub open spec fn tail(v: Seq<(i32, i32)>, i: int) -> Seq<(int, int)> { w32(v.subrange(i, v.len() as int)) }
pub proof fn lemma_prod_push(f: Seq<(int, int)>, p: int, e: int) requires e >= 0, ensures prod(f.push((p, e))) == prod(f) * pow(p, e as nat) { assert(f.push((p, e)).drop_last() =~= f); }
pub proof fn lemma_tail_push(v: Seq<(i32, i32)>, i: int, p: i32, e: i32) requires 0 <= i <= v.len(), ensures tail(v.push((p, e)), i) =~= tail(v, i).push((p as int, e as int)) {}
pub proof fn lemma_w64_push(v: Seq<(i64, i32)>, p: i64, e: i32) ensures w64(v.push((p, e))) =~= w64(v).push((p as int, e as int)) {}
pub proof fn lemma_facts_push(f: Seq<(int, int)>, p: int, e: int) requires facts(f), isp(p), e >= 1, forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k].0 != p, ensures facts(f.push((p, e)))
{ let g = f.push((p, e)); assert forall|k: int| 0 <= k < g.len() implies isp(#[trigger] g[k].0) && g[k].1 >= 1 by { if k < f.len() { assert(g[k] == f[k]); } }
  assert forall|k: int, l: int| 0 <= k < l < g.len() implies #[trigger] g[k].0 != #[trigger] g[l].0 by { assert(g[k] == f[k]); if l < f.len() { assert(g[l] == f[l]); } } }
/// 2^e <= p^e
pub proof fn lemma_pow_big(p: int, e: nat) requires p >= 2, ensures pow(p, e) >= e + 1, pow(p, e) >= pow(2, e), pow(p, e) > 0, decreases e
{ lemma_pow0(p); lemma_pow0(2); if e > 0 { lemma_pow_big(p, (e - 1) as nat); let t = pow(p, (e - 1) as nat); let s = pow(2, (e - 1) as nat); lemma_pow_big(2, (e - 1) as nat); assert(pow(p, e) == p * t && pow(2, e) == 2 * s) by { reveal(pow); } assert(p * t >= 2 * t) by(nonlinear_arith) requires p >= 2, t > 0; } }
pub proof fn lemma_pow_31(p: int, e: nat) requires p >= 2, pow(p, e) <= 0x7fff_ffff, ensures e <= 30 { if e >= 31 { lemma_pow_big(p, e); lemma_pow_increases(2, 31, e); assert(pow(2, 31) == 0x8000_0000) by(compute); } }
pub proof fn lemma_pow_63(p: int, e: nat) requires p >= 2, pow(p, e) <= 0x7fff_ffff_ffff_ffff, ensures e <= 62 { if e >= 63 { lemma_pow_big(p, e); lemma_pow_increases(2, 63, e); assert(pow(2, 63) == 0x8000_0000_0000_0000) by(compute); } }
/// n = p^e * m: divide once more
pub proof fn lemma_out(p: int, m: int, e: int, n: int) requires p >= 2, m >= 1, e >= 0, pow(p, e as nat) * m == n, dv(p, m), ensures m / p >= 1, m / p < m, m == p * (m / p), pow(p, (e + 1) as nat) * (m / p) == n, pow(p, (e + 1) as nat) <= n
{ let k = lemma_dv(p, m); let t = pow(p, e as nat); assert(pow(p, (e + 1) as nat) == p * t) by { reveal(pow); } lemma_pow_big(p, e as nat); assert((p * t) * k == t * m) by(nonlinear_arith) requires m == p * k; assert(p * t > 0) by(nonlinear_arith) requires p >= 2, t > 0; assert(p * t <= (p * t) * k) by(nonlinear_arith) requires k >= 1, p * t > 0; }
pub proof fn lemma_out0(p: int, m: int) ensures pow(p, 0) * m == m { lemma_pow0(p); assert(1 * m == m); }
pub proof fn lemma_keep(q: int, p: int, m: int) requires m >= 1, dv(p, m), q > 0, dv(q, m / p), ensures dv(q, m) { let k = lemma_dv(p, m); lemma_dv_mulr(q, k, p); }
pub open spec fn trm(n: int, p: int) -> bool { n % p == 0 }
pub proof fn lemma_mulpush(a: int, t: int, m: int, n1: int, n0: int) requires a * n1 == n0, t * m == n1, ensures (a * t) * m == n0 { assert((a * t) * m == a * (t * m)) by(nonlinear_arith); }
/// trial division: no prime below i divides n, i divides n
pub proof fn lemma_trial(i: int, n: int) requires i >= 2, n >= 1, dv(i, n), forall|r: int| isp(r) && r < i ==> !#[trigger] dv(r, n), ensures isp(i)
{ let r = lemma_pdiv(i); lemma_dv_trans(r, i, n); }
pub proof fn lemma_trial_end(i: int, n: int) requires i >= 2, n > 1, i > n / i, forall|r: int| isp(r) && r < i ==> !#[trigger] dv(r, n), ensures isp(n)
{ lemma_quo(n, i); let r = lemma_pdiv(n); if !isp(n) { assert(r >= i); assert(r * r >= i * i) by(nonlinear_arith) requires r >= i, i > 0; } }
// ---------------------------------------------------------------- product of a list
pub open spec fn pv(v: Seq<i32>) -> int decreases v.len() { if v.len() == 0 { 1 } else { pv(v.drop_last()) * v.last() } }
pub proof fn lemma_pv_upd(v: Seq<i32>, j: int, x: i32) requires 0 <= j < v.len(), ensures exists|c: int| pv(v) == #[trigger] (c * v[j]) && pv(v.update(j, x)) == c * x decreases v.len()
{ let w = v.update(j, x); if j == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); let c = pv(v.drop_last()); assert(pv(v) == c * v[j] && pv(w) == c * x); }
  else { lemma_pv_upd(v.drop_last(), j, x); let a = v.drop_last(); assert(w.drop_last() =~= a.update(j, x)); let c = choose|c: int| pv(a) == #[trigger] (c * a[j]) && pv(a.update(j, x)) == c * x; let l = v.last() as int; assert(w.last() == v.last()); let d = c * l; assert(pv(v) == d * v[j] && pv(w) == d * x) by(nonlinear_arith) requires pv(v) == (c * a[j]) * l, pv(w) == (c * x) * l, d == c * l, a[j] == v[j]; assert(pv(v) == d * v[j]); } }
pub proof fn lemma_pv_out(v: Seq<i32>, j: int, p: int, e: int, t: int, x: i32) requires 0 <= j < v.len(), t * pow(p, e as nat) * pv(v) == t * pow(p, e as nat) * pv(v), e >= 0, v[j] == p * x, ensures pow(p, (e + 1) as nat) * pv(v.update(j, x)) == pow(p, e as nat) * pv(v)
{ lemma_pv_upd(v, j, x); let c = choose|c: int| pv(v) == #[trigger] (c * v[j]) && pv(v.update(j, x)) == c * x; let s = pow(p, e as nat); assert(pow(p, (e + 1) as nat) == p * s) by { reveal(pow); } assert((p * s) * (c * x) == s * (c * (p * x))) by(nonlinear_arith); }
pub proof fn lemma_pv_one(v: Seq<i32>) requires forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == 1, ensures pv(v) == 1 decreases v.len() { if v.len() > 0 { lemma_pv_one(v.drop_last()); } }
"""


TU = """namespace altruct { namespace math {
template std::vector<std::pair<int, int>> factor_integer_slow<int>(int); template std::vector<std::pair<long, int>> factor_integer_slow<long>(long); template long factor_out<long, long, int>(long, long, int&); template long from_factorization<long, long>(const std::vector<std::pair<long, int>>&); template std::vector<long> prime_factors<long>(const std::vector<std::pair<long, int>>&); template std::vector<int> prime_exponents<long>(const std::vector<std::pair<long, int>>&); template long divisor_sigma0<long, long>(const std::vector<std::pair<long, int>>&); template long euler_phi<long, long>(const std::vector<std::pair<long, int>>&); template void divisors<long, long>(std::vector<long>&, const std::vector<std::pair<long, int>>&, long, long, int); template std::vector<long> divisors<long, long>(const std::vector<std::pair<long, int>>&, long, long, int); template std::vector<std::pair<long, int>> factor_integer<long>(const long&, int); template void squarefree_signed_divisors<long, long>(std::vector<long>&, const std::vector<std::pair<long, int>>&, long, int); template std::vector<long> integer_digits<long, long>(const long&, const long&, int); template long from_digits<long, long>(const std::vector<long>&, const long&);
}}
"""


def pairs_contracts():
    cs = []
    TAB = lambda n: "forall|k: int| 2 <= k <= %s ==> isp(#[trigger] pf@[k] as int) && dv(pf@[k] as int, k)" % n
    T0 = "tail(vf@, old(vf)@.len() as int)"
    TABV = "forall|k: int| 2 <= k < pf@.len() ==> isp(#[trigger] pf@[k] as int) && dv(pf@[k] as int, k)"
    PRE = ["vf@.len() >= old(vf)@.len()", "vf@.subrange(0, old(vf)@.len() as int) =~= old(vf)@"]
    cs.append(Contract("factor_one", M + "factor_integer", sig="void (std::vector<std::pair<int, int>> &, int, const int *)", params=["vf", "n", "pf"],
        requires=["n < pf@.len()", TAB("n")],
        ensures=["final(vf)@.len() >= old(vf)@.len()", "final(vf)@.subrange(0, old(vf)@.len() as int) =~= old(vf)@", "facts(tail(final(vf)@, old(vf)@.len() as int))", "n >= 1 ==> prod(tail(final(vf)@, old(vf)@.len() as int)) == n"],
        hints={"L0.before": "proof { assert(%s.len() == 0); assert(1 * n == n); }" % T0,
               "L0.begin": "let ghost n1 = n as int; let ghost s1 = %s; let ghost v1 = vf@;" % T0,
               "L1.before": "proof { lemma_out0(p as int, n1); }",
               "L1.begin": "proof { assert(dv(p as int, n as int)) by { reveal(dv); } lemma_out(p as int, n as int, e as int, n1); lemma_pow_31(p as int, (e + 1) as nat); lemma_keep_all(p as int, n as int); }",
               "L1.after": "proof { assert(!dv(p as int, n as int)) by { reveal(dv); } if e == 0 { assert(n == n1) by { lemma_out0(p as int, n as int); } assert(false); } }",
               "L0.end": "proof { lemma_tail_push(v1, old(vf)@.len() as int, p, e); assert(vf@ =~= v1.push((p, e))); lemma_prod_push(s1, p as int, e as int); lemma_facts_push(s1, p as int, e as int); lemma_mulpush(prod(s1), pow(p as int, e as nat), n as int, n1, n_0 as int); assert(vf@.subrange(0, old(vf)@.len() as int) =~= old(vf)@); }",
               "L0.after": "proof { assert(prod(%s) * 1 == prod(%s)); }" % (T0, T0)},
        loops={0: dict(invariant=PRE + ["n <= n_0", "n_0 >= 1 ==> n >= 1", "n_0 < 1 ==> n == n_0", "n_0 < pf@.len()", TAB("n_0"), "facts(%s)" % T0, "n_0 >= 1 ==> prod(%s) * n == n_0" % T0, "n >= 1 ==> forall|k: int| 0 <= k < %s.len() ==> !dv(#[trigger] %s[k].0, n as int)" % (T0, T0)], decreases="n"),
               1: dict(invariant=["1 <= n <= n1 <= n_0", "isp(p as int)", "dv(p as int, n1)", "0 <= e <= 30", "pow(p as int, e as nat) * n == n1", "forall|q: int| #[trigger] dv(q, n as int) ==> dv(q, n1)"], decreases="n")}))
    VP = "pv(vn@) * prod(%s) == pv(vn_0@)" % T0
    POS = "forall|k: int| 0 <= k < vn@.len() ==> #[trigger] vn@[k] >= 1 && vn@[k] <= vn_0@[k]"
    ENV = PRE + ["vn@.len() == vn_0@.len()", "vn@.len() <= 0x2_0000_0000_0000", "31 * vn@.len() <= i32::MAX", POS, "forall|k: int| 0 <= k < vn@.len() ==> #[trigger] vn_0@[k] < pf@.len()", TABV]
    ND = "forall|k: int, j: int| 0 <= k < %s.len() && 0 <= j < vn@.len() ==> !dv(#[trigger] %s[k].0, #[trigger] vn@[j] as int)" % (T0, T0)
    ONE = "forall|k: int| 0 <= k < idx ==> #[trigger] vn@[k] == 1"
    cs.append(Contract("factor_many", M + "factor_integer", sig="void (std::vector<std::pair<int, int>> &, std::vector<int>, const int *)", params=["vf", "vn", "pf"],
        requires=["31 * vn@.len() <= i32::MAX", "forall|k: int| 0 <= k < vn@.len() ==> 1 <= #[trigger] vn@[k] < pf@.len()", TABV],
        ensures=["final(vf)@.len() >= old(vf)@.len()", "final(vf)@.subrange(0, old(vf)@.len() as int) =~= old(vf)@", "facts(tail(final(vf)@, old(vf)@.len() as int))", "prod(tail(final(vf)@, old(vf)@.len() as int)) == pv(vn@)"],
        hints={"L0.before": "proof { assert(%s.len() == 0); assert(pv(vn@) * 1 == pv(vn@)); }" % T0,
               "L1.begin": "let ghost n1 = vn@; let ghost s1 = %s; let ghost v1 = vf@;" % T0,
               "L2.before": "proof { lemma_out0(p as int, pv(n1)); assert(isp(p as int)); }",
               "L3.before": "let ghost m3 = vn@[idx_2 as int] as int; let ghost e3 = e as int; proof { lemma_out0(p as int, m3); }",
               "L3.begin": "let ghost n3 = vn@; let ghost f3 = e - e3; proof { let m = n3[idx_2 as int] as int; assert(dv(p as int, m)) by { reveal(dv); } lemma_out(p as int, m, f3, m3); lemma_pow_31(p as int, (f3 + 1) as nat); lemma_keep_all(p as int, m); lemma_pv_out(n3, idx_2 as int, p as int, e as int, 1, (m / (p as int)) as i32); }",
               "L3.end": "proof { assert(vn@ =~= n3.update(idx_2 as int, vn@[idx_2 as int])); }",
               "L3.after": "proof { assert(!dv(p as int, vn@[idx_2 as int] as int)) by { reveal(dv); } }",
               "L2.after": "proof { assert(!dv(p as int, vn@[idx as int] as int)); if e == 0 { assert(vn@[idx as int] == n1[idx as int]); assert(false); } }",
               "L1.end": "proof { lemma_tail_push(v1, old(vf)@.len() as int, p, e); assert(vf@ =~= v1.push((p, e))); lemma_prod_push(s1, p as int, e as int); lemma_facts_push(s1, p as int, e as int); assert(pow(p as int, e as nat) * pv(vn@) == pv(n1)); assert(pv(vn@) * (prod(s1) * pow(p as int, e as nat)) == (pow(p as int, e as nat) * pv(vn@)) * prod(s1)) by(nonlinear_arith); assert(vf@.subrange(0, old(vf)@.len() as int) =~= old(vf)@); }",
               "L0.after": "proof { lemma_pv_one(vn@); assert(1 * prod(%s) == prod(%s)); }" % (T0, T0)},
        loops={0: dict(invariant=ENV + ["0 <= idx <= vn@.len()", "facts(%s)" % T0, VP, ND, ONE], decreases="vn@.len() - idx"),
               1: dict(invariant=ENV + ["0 <= idx < vn@.len()", "facts(%s)" % T0, VP, ND, ONE], decreases="vn@[idx as int]"),
               2: dict(invariant=ENV + ["0 <= idx < vn@.len()", "0 <= idx_2 <= vn@.len()", "isp(p as int)", "n1.len() == vn@.len()", "0 <= e <= 31 * idx_2", "pow(p as int, e as nat) * pv(vn@) == pv(n1)", "forall|k: int| 0 <= k < idx_2 ==> !dv(p as int, #[trigger] vn@[k] as int)", "forall|q: int, j: int| 0 <= j < vn@.len() && #[trigger] dv(q, #[trigger] vn@[j] as int) ==> dv(q, n1[j] as int)", "forall|k: int| 0 <= k < vn@.len() ==> #[trigger] vn@[k] <= n1[k]", "vf@ == v1", "e == 0 ==> vn@ == n1"], decreases="vn@.len() - idx_2"),
               3: dict(invariant=ENV + ["0 <= idx < vn@.len()", "0 <= idx_2 < vn@.len()", "isp(p as int)", "n1.len() == vn@.len()", "0 <= e3 <= e <= e3 + 30", "e3 <= 31 * idx_2", "m3 <= 0x7fff_ffff", "pow(p as int, (e - e3) as nat) * vn@[idx_2 as int] == m3", "pow(p as int, e as nat) * pv(vn@) == pv(n1)", "forall|k: int| 0 <= k < idx_2 ==> !dv(p as int, #[trigger] vn@[k] as int)", "forall|q: int, j: int| 0 <= j < vn@.len() && #[trigger] dv(q, #[trigger] vn@[j] as int) ==> dv(q, n1[j] as int)", "forall|k: int| 0 <= k < vn@.len() ==> #[trigger] vn@[k] <= n1[k]", "vf@ == v1", "e == 0 ==> vn@ == n1"], decreases="vn@[idx_2 as int]")}))
    return cs


SPEC2 = r"""
/// product of the factors i, i + 1, ...
pub open spec fn prs(f: Seq<(int, int)>, i: int) -> int decreases f.len() - i { if i >= f.len() || i < 0 { 1 } else { pow(f[i].0, f[i].1 as nat) * prs(f, i + 1) } }
/// number of divisors
pub open spec fn tau(f: Seq<(int, int)>, i: int) -> int decreases f.len() - i { if i >= f.len() || i < 0 { 1 } else { (f[i].1 + 1) * tau(f, i + 1) } }
pub proof fn lemma_prs_split(f: Seq<(int, int)>, i: int) requires 0 <= i <= f.len(), ensures prod(f.subrange(0, i)) * prs(f, i) == prs(f, 0), decreases i
{ if i > 0 { lemma_prs_split(f, i - 1); let a = f.subrange(0, i); assert(a.drop_last() =~= f.subrange(0, i - 1)); let p = pow(f[i - 1].0, f[i - 1].1 as nat); let c = prod(a.drop_last()); assert((c * p) * prs(f, i) == c * (p * prs(f, i))) by(nonlinear_arith); } else { assert(f.subrange(0, 0).len() == 0); assert(1 * prs(f, 0) == prs(f, 0)); } }
pub proof fn lemma_prs_all(f: Seq<(int, int)>) ensures prs(f, 0) == prod(f) { lemma_prs_split(f, f.len() as int); assert(f.subrange(0, f.len() as int) =~= f); assert(prod(f) * 1 == prod(f)); }
pub proof fn lemma_isp_pow(r: int, p: int, e: nat) requires isp(r), isp(p), dv(r, pow(p, e)), ensures r == p decreases e
{ lemma_pow0(p); if e == 0 { let z = lemma_dv(r, 1); } else { let t = pow(p, (e - 1) as nat); assert(pow(p, e) == p * t) by { reveal(pow); } if r != p { lemma_euclid_p(r, p, t); lemma_isp_pow(r, p, (e - 1) as nat); } } }
/// a prime that divides the rest is one of the rest
pub proof fn lemma_prs_prime(f: Seq<(int, int)>, i: int, r: int) requires facts(f), 0 <= i <= f.len(), isp(r), dv(r, prs(f, i)), ensures exists|k: int| i <= k < f.len() && #[trigger] f[k].0 == r decreases f.len() - i
{ if i >= f.len() { let z = lemma_dv(r, 1); } else { let p = f[i].0; let t = pow(p, f[i].1 as nat); assert(isp(p)); lemma_pow_big(p, f[i].1 as nat); lemma_euclid(r, t, prs(f, i + 1)); if dv(r, t) { lemma_isp_pow(r, p, f[i].1 as nat); } else { lemma_prs_prime(f, i + 1, r); } } }
pub proof fn lemma_prs_not(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i < f.len(), ensures !dv(f[i].0, prs(f, i + 1)) { let p = f[i].0; assert(isp(p)); if dv(p, prs(f, i + 1)) { lemma_prs_prime(f, i + 1, p); let k = choose|k: int| i + 1 <= k < f.len() && #[trigger] f[k].0 == p; } }
pub proof fn lemma_prs_pos(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i, ensures prs(f, i) >= 1, i < f.len() ==> prs(f, i + 1) <= prs(f, i) decreases f.len() - i
{ if i < f.len() { lemma_prs_pos(f, i + 1); assert(isp(f[i].0)); lemma_pow_big(f[i].0, f[i].1 as nat); let t = pow(f[i].0, f[i].1 as nat); let q = prs(f, i + 1); assert(t * q >= 1 && t * q >= q) by(nonlinear_arith) requires t >= 1, q >= 1; } }
pub proof fn lemma_tau_pos(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i, ensures 1 <= tau(f, i) <= prs(f, i) decreases f.len() - i
{ if i < f.len() { lemma_tau_pos(f, i + 1); lemma_prs_pos(f, i + 1); assert(isp(f[i].0)); lemma_pow_big(f[i].0, f[i].1 as nat); let t = pow(f[i].0, f[i].1 as nat); let e = f[i].1 + 1; let a = tau(f, i + 1); let b = prs(f, i + 1); assert(1 <= e * a <= t * b) by(nonlinear_arith) requires t >= e, e >= 1, 1 <= a <= b; } }
/// formula of the totient
pub open spec fn phf(f: Seq<(int, int)>, i: int) -> int decreases f.len() - i { if i >= f.len() || i < 0 { 1 } else { (pow(f[i].0, (f[i].1 - 1) as nat) * (f[i].0 - 1)) * phf(f, i + 1) } }
pub proof fn lemma_phf(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i, ensures 1 <= phf(f, i) <= prs(f, i) decreases f.len() - i
{ if i < f.len() { lemma_phf(f, i + 1); lemma_prs_pos(f, i + 1); assert(isp(f[i].0)); let p = f[i].0; lemma_pow_big(p, (f[i].1 - 1) as nat); let q = pow(p, (f[i].1 - 1) as nat); let t = pow(p, f[i].1 as nat); assert(t == p * q) by { reveal(pow); } let e = q * (p - 1); let a = phf(f, i + 1); let b = prs(f, i + 1); assert(1 <= e && e <= t) by(nonlinear_arith) requires q >= 1, p >= 2, e == q * (p - 1), t == p * q; assert(1 <= e * a && e * a <= t * b) by(nonlinear_arith) requires t >= e, e >= 1, 1 <= a <= b; } }
pub proof fn lemma_prs_63(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i < f.len(), prs(f, 0) <= 0x7fff_ffff_ffff_ffff, ensures prs(f, i) <= prs(f, 0), pow(f[i].0, f[i].1 as nat) <= prs(f, 0), f[i].1 <= 62, f[i].0 >= 2 decreases i
{ if i == 0 { lemma_prs_pos(f, 1); assert(isp(f[0].0)); lemma_pow_big(f[0].0, f[0].1 as nat); let t = pow(f[0].0, f[0].1 as nat); let q = prs(f, 1); assert(t <= t * q) by(nonlinear_arith) requires t >= 1, q >= 1; lemma_pow_63(f[0].0, f[0].1 as nat); }
  else { lemma_prs_63(f, i - 1); lemma_prs_pos(f, i - 1); lemma_prs_pos(f, i + 1); assert(isp(f[i].0)); lemma_pow_big(f[i].0, f[i].1 as nat); let t = pow(f[i].0, f[i].1 as nat); let q = prs(f, i + 1); assert(t <= t * q) by(nonlinear_arith) requires t >= 1, q >= 1; lemma_pow_63(f[i].0, f[i].1 as nat); } }
pub proof fn lemma_part(f: Seq<(int, int)>, i: int) requires 0 <= i <= f.len(), forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k].0 >= 1 && f[k].1 >= 0, ensures 1 <= prod(f.subrange(0, i)) <= prod(f), i > 0 ==> pow(f[i - 1].0, f[i - 1].1 as nat) <= prod(f) && pow(f[i - 1].0, f[i - 1].1 as nat) >= 1 decreases f.len(), i
{ let n = f.len() as int; let g = f.subrange(0, i);
  if i > 0 { assert(f[i - 1].0 >= 1); lemma_pow_positive(f[i - 1].0, f[i - 1].1 as nat); }
  if i == n { assert(g =~= f); if n > 0 { let h = f.drop_last(); assert forall|k: int| 0 <= k < h.len() implies #[trigger] h[k].0 >= 1 && h[k].1 >= 0 by { assert(h[k] == f[k]); } lemma_part(h, n - 1); assert(h.subrange(0, n - 1) =~= h); let a = prod(h); let t = pow(f.last().0, f.last().1 as nat); assert(a * t >= t && a * t >= a) by(nonlinear_arith) requires a >= 1, t >= 1; } }
  else { let h = f.drop_last(); assert forall|k: int| 0 <= k < h.len() implies #[trigger] h[k].0 >= 1 && h[k].1 >= 0 by { assert(h[k] == f[k]); } lemma_part(h, i); assert(h.subrange(0, i) =~= g); if i > 0 { assert(h[i - 1] == f[i - 1]); } assert(f[n - 1].0 >= 1); lemma_pow_positive(f.last().0, f.last().1 as nat); let a = prod(h); let t = pow(f.last().0, f.last().1 as nat); assert(a * t >= a) by(nonlinear_arith) requires a >= 1, t >= 1; } }
pub proof fn lemma_quo_gt(m: int, p: int, d: int) requires m > 0, p > 0, d > m / p, ensures d * p > m { lemma_fundamental_div_mod(m, p); lemma_mod_bound(m, p); let q = m / p; assert(d * p > m) by(nonlinear_arith) requires m == p * q + m % p, m % p < p, d >= q + 1, p > 0; }
pub proof fn lemma_quo_le(m: int, p: int, d: int) requires m > 0, p > 0, d <= m / p, ensures d * p <= m { lemma_fundamental_div_mod(m, p); lemma_mod_bound(m, p); let q = m / p; assert(d * p <= m) by(nonlinear_arith) requires m == p * q + m % p, m % p >= 0, d <= q, p > 0; }
// ---------------------------------------------------------------- lists of divisors
pub open spec fn bd(mx: int, y: int) -> bool { mx > 0 ==> y <= mx }
pub open spec fn hasd(v: Seq<i64>, y: int) -> bool { exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == y }
/// v lists d * x for each divisor x of m with d * x <= mx, each exactly once
#[verifier::opaque]
pub open spec fn dls(v: Seq<i64>, d: int, m: int, mx: int) -> bool {
    (forall|k: int| 0 <= k < v.len() ==> dv(d, #[trigger] v[k] as int) && dv(v[k] as int / d, m) && bd(mx, v[k] as int)) && (forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] v[k] != #[trigger] v[l]) && (forall|x: int| #[trigger] dv(x, m) && bd(mx, d * x) ==> hasd(v, d * x)) }
/// x divides p * k and is no multiple of p
pub proof fn lemma_cancel(x: int, p: int, k: int) requires isp(p), x > 0, k >= 0, dv(x, p * k), !dv(p, x), ensures dv(x, k)
{ let c = lemma_dv(x, p * k); if k == 0 { assert(p * 0 == 0); lemma_dv0(x); } else { assert(p * k >= 1) by(nonlinear_arith) requires p >= 1, k >= 1; lemma_mul_dv(p, k); assert(x * c == p * k); lemma_euclid(p, x, c); let e = lemma_dv(p, c); assert(p * k == p * (x * e)) by(nonlinear_arith) requires p * k == x * c, c == p * e; assert(k == x * e) by(nonlinear_arith) requires p * k == p * (x * e), p > 0; lemma_mul_dv(x, e); } }
/// divisors of p^e * m (p no divisor of m): those of p^(e-1) * m and p^e times those of m
pub proof fn lemma_split(x: int, p: int, e: nat, m: int) requires isp(p), m >= 1, e >= 1, !dv(p, m), dv(x, pow(p, e) * m), ensures dv(x, pow(p, (e - 1) as nat) * m) || (dv(pow(p, e), x) && dv(x / pow(p, e), m)) decreases e
{ let t = pow(p, (e - 1) as nat); let T = pow(p, e); assert(T == p * t) by { reveal(pow); } lemma_pow_big(p, e); lemma_pow_big(p, (e - 1) as nat); assert(T * m == p * (t * m)) by(nonlinear_arith) requires T == p * t; assert(t * m >= 1) by(nonlinear_arith) requires t >= 1, m >= 1; reveal(dv); let c0 = lemma_dv(x, T * m); assert(x > 0);
  if !dv(p, x) { lemma_cancel(x, p, t * m); }
  else { let y = lemma_dv(p, x); assert(y > 0); assert(p * (y * c0) == p * (t * m)) by(nonlinear_arith) requires x == p * y, x * c0 == T * m, T * m == p * (t * m); assert(y * c0 == t * m) by(nonlinear_arith) requires p * (y * c0) == p * (t * m), p > 0; lemma_mul_dv(y, c0);
    lemma_pow0(p);
    if e == 1 { assert((e - 1) as nat == 0nat); assert(t == 1); assert(t * m == m) by(nonlinear_arith) requires t == 1; assert(T == p) by(nonlinear_arith) requires T == p * t, t == 1; } else { let s = pow(p, (e - 2) as nat); assert(t == p * s) by { reveal(pow); } lemma_split(y, p, (e - 1) as nat, m);
      if dv(y, s * m) { let c = lemma_dv(y, s * m); assert(t * m == x * c) by(nonlinear_arith) requires t == p * s, s * m == y * c, x == p * y; lemma_mul_dv(x, c); }
      else { let z = lemma_dv(t, y); assert(x == T * z) by(nonlinear_arith) requires x == p * y, y == t * z, T == p * t; lemma_mul_dv(T, z); let z2 = lemma_dv(T, x); assert(z == z2) by(nonlinear_arith) requires T * z == T * z2, T > 0; } } } }
pub proof fn lemma_dls_one(d: i64, mx: int) requires d >= 1, bd(mx, d as int), ensures dls(seq![d], d as int, 1, mx)
{ reveal(dls); let v = seq![d]; assert(v[0] == d); lemma_dv_refl(d as int); let z = lemma_dv(d as int, d as int); assert(z == 1) by(nonlinear_arith) requires d == d * z, d >= 1; lemma_dv_refl(1); assert forall|x: int| #[trigger] dv(x, 1) && bd(mx, d * x) implies hasd(v, d * x) by { let z = lemma_dv(x, 1); assert(x == 1); assert(d * 1 == d); assert(v[0] == d * x); } }
/// one more power of p
pub proof fn lemma_dls_step(v: Seq<i64>, b: Seq<i64>, d0: int, d: int, p: int, e: nat, m: int, mx: int)
    requires isp(p), m >= 1, !dv(p, m), d0 >= 1, d == d0 * pow(p, e), if e == 0 { v.len() == 0 } else { dls(v, d0, pow(p, (e - 1) as nat) * m, mx) }, dls(b, d, m, mx), ensures dls(v + b, d0, pow(p, e) * m, mx)
{
    reveal(dls); lemma_pow0(p); lemma_pow_big(p, e); let T = pow(p, e); let M = T * m; let w = v + b;
    assert(M >= 1) by(nonlinear_arith) requires T >= 1, m >= 1, M == T * m; assert(d >= 1) by(nonlinear_arith) requires d == d0 * T, d0 >= 1, T >= 1;
    if e == 0 { assert(T * m == m); assert(d0 * 1 == d0); assert(w =~= b); }
    else {
        let t = pow(p, (e - 1) as nat); assert(T == p * t) by { reveal(pow); } lemma_pow_big(p, (e - 1) as nat); let M1 = t * m; assert(M == p * M1) by(nonlinear_arith) requires M == T * m, T == p * t, M1 == t * m; assert(M1 >= 1) by(nonlinear_arith) requires t >= 1, m >= 1, M1 == t * m;
        assert forall|k: int| 0 <= k < b.len() implies dv(d0, #[trigger] b[k] as int) && dv(b[k] as int / d0, M) && dv(T, b[k] as int / d0) by {
            let y = lemma_dv(d, b[k] as int); let c = lemma_dv(y, m); assert(b[k] == d0 * (T * y)) by(nonlinear_arith) requires b[k] == d * y, d == d0 * T; lemma_mul_dv(d0, T * y); let z = lemma_dv(d0, b[k] as int); assert(z == T * y) by(nonlinear_arith) requires d0 * z == d0 * (T * y), d0 > 0; assert(M == z * c) by(nonlinear_arith) requires z == T * y, M == T * m, m == y * c; reveal(dv); assert(y > 0); assert(z > 0) by(nonlinear_arith) requires z == T * y, T > 0, y > 0; lemma_mul_dv(z, c); lemma_mul_dv(T, y); }
        assert forall|k: int| 0 <= k < w.len() implies dv(d0, #[trigger] w[k] as int) && dv(w[k] as int / d0, M) && bd(mx, w[k] as int) by {
            if k < v.len() { assert(w[k] == v[k]); lemma_dv_mulr(w[k] as int / d0, M1, p); } else { assert(w[k] == b[k - v.len()]); } }
        assert forall|k: int, l: int| 0 <= k < l < w.len() implies #[trigger] w[k] != #[trigger] w[l] by {
            if l < v.len() { assert(w[k] == v[k] && w[l] == v[l]); } else if k >= v.len() { assert(w[k] == b[k - v.len()] && w[l] == b[l - v.len()]); }
            else { assert(w[k] == v[k]); assert(w[l] == b[l - v.len()]); let x = w[k] as int / d0; if w[k] == w[l] { assert(dv(T, x) && dv(x, M1)); lemma_dv_trans(T, x, M1); let c = lemma_dv(T, M1); assert(m == p * c) by(nonlinear_arith) requires t * m == (p * t) * c, t > 0; lemma_mul_dv(p, c); } } }
        assert forall|x: int| #[trigger] dv(x, M) && bd(mx, d0 * x) implies hasd(w, d0 * x) by {
            lemma_split(x, p, e, m);
            if dv(x, M1) { assert(hasd(v, d0 * x)); let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == d0 * x; assert(w[k] == d0 * x); }
            else { let y = lemma_dv(T, x); assert(d0 * x == d * y) by(nonlinear_arith) requires x == T * y, d == d0 * T; assert(hasd(b, d * y)); let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == d * y; assert(w[k + v.len()] == d0 * x); } }
    }
}
/// larger powers are out of bounds
pub proof fn lemma_dls_skip(v: Seq<i64>, d0: int, p: int, e: nat, E: nat, m: int, mx: int)
    requires isp(p), m >= 1, !dv(p, m), d0 >= 1, mx > 0, e <= E, dls(v, d0, pow(p, e) * m, mx), d0 * pow(p, e) * p > mx, ensures dls(v, d0, pow(p, E) * m, mx) decreases E - e
{ if e < E { let T = pow(p, e); let U = pow(p, e + 1); assert(U == p * T) by { reveal(pow); } lemma_pow_big(p, e); lemma_pow_big(p, e + 1); let d = d0 * U; assert(d > mx) by(nonlinear_arith) requires d == d0 * U, U == p * T, d0 * T * p > mx; let b = Seq::<i64>::empty();
    assert(dls(b, d, m, mx)) by { reveal(dls); assert forall|x: int| #[trigger] dv(x, m) && bd(mx, d * x) implies hasd(b, d * x) by { let z = lemma_dv(x, m); reveal(dv); assert(d * x >= d) by(nonlinear_arith) requires x >= 1, d >= 0; } }
    lemma_dls_step(v, b, d0, d, p, e + 1, m, mx); assert(v + b =~= v);
    assert(d * p > mx) by(nonlinear_arith) requires d > mx, p >= 1, mx > 0; lemma_dls_skip(v, d0, p, e + 1, E, m, mx); } }
/// range of the partial products
pub proof fn lemma_room(d0: int, p: int, e: nat, E: nat, m: int, L: int) requires p >= 2, m >= 1, d0 >= 1, e <= E, d0 * (pow(p, E) * m) <= L, ensures (d0 * pow(p, e)) * m <= L, 1 <= d0 * pow(p, e) <= L, e < E ==> d0 * pow(p, e) * p <= L, d0 * pow(p, e) * p == d0 * pow(p, e + 1)
{ lemma_pow_big(p, e); lemma_pow_big(p, E); lemma_pow_increases(p as nat, e, E); let t = pow(p, e); let T = pow(p, E); let u = pow(p, e + 1); assert(u == p * t) by { reveal(pow); } assert((d0 * t) * m <= d0 * (T * m)) by(nonlinear_arith) requires t <= T, m >= 1, d0 >= 1; assert(1 <= d0 * t && d0 * t <= (d0 * t) * m) by(nonlinear_arith) requires t >= 1, m >= 1, d0 >= 1; assert(d0 * t * p == d0 * u) by(nonlinear_arith) requires u == p * t;
  if e < E { lemma_pow_increases(p as nat, e + 1, E); assert(d0 * u <= d0 * (T * m)) by(nonlinear_arith) requires u <= T, m >= 1, d0 >= 1, T >= 1; } }
// ---------------------------------------------------------------- signed squarefree divisors
pub open spec fn rad(f: Seq<(int, int)>, i: int) -> int decreases f.len() - i { if i >= f.len() || i < 0 { 1 } else { f[i].0 * rad(f, i + 1) } }
/// (-1)^(number of listed primes dividing x)
pub open spec fn sg(f: Seq<(int, int)>, i: int, x: int) -> int decreases f.len() - i { if i >= f.len() || i < 0 { 1 } else if dv(f[i].0, x) { -sg(f, i + 1, x) } else { sg(f, i + 1, x) } }
"""


SPEC3 = r"""
pub open spec fn nodup(v: Seq<i64>) -> bool { forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] v[k] != #[trigger] v[l] }
pub open spec fn asc(v: Seq<i64>) -> bool { forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] v[k] <= #[trigger] v[l] }
/// std::sort
#[verifier::external_body]
pub fn vec_sort(v: &mut Vec<i64>, i: i64, j: i64) requires 0 <= i <= j <= old(v)@.len(), i == 0, j == old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), asc(final(v)@) { }
pub proof fn lemma_dls_perm(v: Seq<i64>, w: Seq<i64>, d: int, m: int, mx: int) requires dls(v, d, m, mx), v.to_multiset() == w.to_multiset(), ensures dls(w, d, m, mx), v.len() == w.len()
{
    assert(v.to_multiset().len() == v.len() && w.to_multiset().len() == w.len()) by { broadcast use group_to_multiset_ensures; }
    reveal(dls); broadcast use group_to_multiset_ensures;
    assert(v.no_duplicates()) by { assert forall|k: int, l: int| 0 <= k < v.len() && 0 <= l < v.len() && k != l implies v[k] != v[l] by { if k < l { assert(v[k] != v[l]); } else { assert(v[l] != v[k]); } } }
    v.lemma_multiset_has_no_duplicates(); w.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < w.len() implies dv(d, #[trigger] w[k] as int) && dv(w[k] as int / d, m) && bd(mx, w[k] as int) by { assert(w.contains(w[k])); assert(w.to_multiset().count(w[k]) > 0); assert(v.to_multiset().count(w[k]) > 0); assert(v.contains(w[k])); let l = choose|l: int| 0 <= l < v.len() && v[l] == w[k]; assert(v[l] == w[k]); }
    assert forall|x: int| #[trigger] dv(x, m) && bd(mx, d * x) implies hasd(w, d * x) by { assert(hasd(v, d * x)); let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == d * x; assert(v.contains(v[k])); assert(v.to_multiset().count(v[k]) > 0); assert(w.to_multiset().count(v[k]) > 0); assert(w.contains(v[k])); let l = choose|l: int| 0 <= l < w.len() && w[l] == v[k]; assert(w[l] == d * x); }
}
// ---------------------------------------------------------------- signed squarefree divisors
pub open spec fn ab(x: int) -> int { if x < 0 { -x } else { x } }
#[verifier::opaque]
pub open spec fn sls(v: Seq<i64>, d: int, f: Seq<(int, int)>, i: int) -> bool {
    (forall|k: int| 0 <= k < v.len() ==> sle(#[trigger] v[k] as int, d, f, i)) && nodup(v) && (forall|x: int| #[trigger] dv(x, rad(f, i)) ==> hasd(v, d * (sg(f, i, x) * x))) }
pub proof fn lemma_rad(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i, ensures rad(f, i) >= 1, i < f.len() ==> rad(f, i + 1) <= rad(f, i) && f[i].0 * rad(f, i + 1) == rad(f, i) decreases f.len() - i
{ if i < f.len() { lemma_rad(f, i + 1); assert(isp(f[i].0)); let p = f[i].0; let q = rad(f, i + 1); assert(p * q >= q) by(nonlinear_arith) requires p >= 1, q >= 1; } }
pub proof fn lemma_rad_prime(f: Seq<(int, int)>, i: int, r: int) requires facts(f), 0 <= i <= f.len(), isp(r), dv(r, rad(f, i)), ensures exists|k: int| i <= k < f.len() && #[trigger] f[k].0 == r decreases f.len() - i
{ if i >= f.len() { let z = lemma_dv(r, 1); } else { assert(isp(f[i].0)); if r != f[i].0 { lemma_euclid_p(r, f[i].0, rad(f, i + 1)); lemma_rad_prime(f, i + 1, r); } } }
pub proof fn lemma_rad_not(f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i < f.len(), ensures !dv(f[i].0, rad(f, i + 1)) { let p = f[i].0; assert(isp(p)); if dv(p, rad(f, i + 1)) { lemma_rad_prime(f, i + 1, p); let k = choose|k: int| i + 1 <= k < f.len() && #[trigger] f[k].0 == p; } }
pub proof fn lemma_sg(f: Seq<(int, int)>, i: int, x: int) ensures sg(f, i, x) == 1 || sg(f, i, x) == -1 decreases f.len() - i { if 0 <= i < f.len() { lemma_sg(f, i + 1, x); } }
/// a factor p that is not listed from i on does not matter
pub proof fn lemma_sg_mul(f: Seq<(int, int)>, i: int, p: int, y: int) requires facts(f), 0 <= i, isp(p), y > 0, forall|k: int| i <= k < f.len() ==> #[trigger] f[k].0 != p, ensures sg(f, i, p * y) == sg(f, i, y) decreases f.len() - i
{ if i < f.len() { lemma_sg_mul(f, i + 1, p, y); assert(isp(f[i].0)); if dv(f[i].0, p * y) { lemma_euclid_p(f[i].0, p, y); } if dv(f[i].0, y) { lemma_dv_mulr(f[i].0, y, p); } } }
pub proof fn lemma_sls_one(d: i64, f: Seq<(int, int)>, i: int) requires i >= f.len(), ensures sls(seq![d], d as int, f, i)
{ reveal(sls); let v = seq![d]; assert(v[0] == d); lemma_dv_refl(1); assert(rad(f, i) == 1 && sg(f, i, 1) == 1); assert(sg(f, i, 1) * 1 == 1); assert(d * 1 == d); assert(d * (sg(f, i, 1) * 1) == d);
  assert forall|x: int| #[trigger] dv(x, rad(f, i)) implies hasd(v, d * (sg(f, i, x) * x)) by { let z = lemma_dv(x, 1); assert(x == 1); assert(v[0] == d * (sg(f, i, x) * x)); }
  assert forall|k: int| 0 <= k < v.len() implies sle(#[trigger] v[k] as int, d as int, f, i) by { assert(dv(1, rad(f, i)) && v[k] == d * (sg(f, i, 1) * 1)); } }
pub open spec fn sle(y: int, d: int, f: Seq<(int, int)>, i: int) -> bool { exists|x: int| #[trigger] dv(x, rad(f, i)) && y == d * (sg(f, i, x) * x) }
pub proof fn lemma_sl_elem(d: int, f: Seq<(int, int)>, i: int, x: int) requires facts(f), 0 <= i < f.len(), d != 0, dv(x, rad(f, i + 1)), ensures x > 0, dv(x, rad(f, i)), dv(f[i].0 * x, rad(f, i)), sg(f, i, x) == sg(f, i + 1, x), d * (sg(f, i, f[i].0 * x) * (f[i].0 * x)) == (d * -f[i].0) * (sg(f, i + 1, x) * x), !dv(f[i].0, x), sg(f, i + 1, x) == 1 || sg(f, i + 1, x) == -1
{ let p = f[i].0; assert(isp(p)); let R = rad(f, i + 1); lemma_rad(f, i); lemma_rad(f, i + 1); lemma_rad_not(f, i); let c = lemma_dv(x, R); assert(x > 0) by { reveal(dv); } lemma_dv_mulr(x, R, p); assert(p * R == (p * x) * c) by(nonlinear_arith) requires R == x * c; assert(p * x > 0) by(nonlinear_arith) requires p > 0, x > 0; lemma_mul_dv(p * x, c); lemma_sg(f, i + 1, x);
  if dv(p, x) { lemma_dv_trans(p, x, R); } lemma_mul_dv(p, x); lemma_sg_mul(f, i + 1, p, x); let s = sg(f, i + 1, x); assert(d * ((-s) * (p * x)) == (d * -p) * (s * x)) by(nonlinear_arith); }
pub proof fn lemma_sl_neq(d: int, p: int, x: int, y: int, s: int, u: int) requires d != 0, p > 1, x > 0, y > 0, s == 1 || s == -1, u == 1 || u == -1, !dv(p, x), ensures d * (s * x) != (d * -p) * (u * y)
{ if d * (s * x) == (d * -p) * (u * y) { assert((d * -p) * (u * y) == d * (-p * (u * y))) by(nonlinear_arith); let a = s * x; let b = -p * (u * y); assert(a == b) by(nonlinear_arith) requires d * a == d * b, d != 0; assert(p * y > 0) by(nonlinear_arith) requires p > 0, y > 0; assert(-p * (u * y) == -(u * (p * y))) by(nonlinear_arith); if s == 1 { assert(s * x == x) by(nonlinear_arith) requires s == 1; } else { assert(s * x == -x) by(nonlinear_arith) requires s == -1; } let t = p * y; if u == 1 { assert(u * t == t) by(nonlinear_arith) requires u == 1; } else { assert(u * t == -t) by(nonlinear_arith) requires u == -1; } assert(x == p * y); lemma_mul_dv(p, y); } }
pub proof fn lemma_sl_has(a: Seq<i64>, b: Seq<i64>, d: int, f: Seq<(int, int)>, i: int, x: int) requires facts(f), 0 <= i < f.len(), d != 0, sls(a, d, f, i + 1), sls(b, d * -f[i].0, f, i + 1), dv(x, rad(f, i)), ensures hasd(a + b, d * (sg(f, i, x) * x))
{ let p = f[i].0; let R = rad(f, i + 1); let d2 = d * -p; let w = a + b; assert(isp(p)); lemma_rad(f, i); lemma_rad(f, i + 1);
  assert(x > 0) by { reveal(dv); }
  if dv(p, x) { let y = lemma_dv(p, x); let c = lemma_dv(x, p * R); assert(p * R == p * (y * c)) by(nonlinear_arith) requires p * R == x * c, x == p * y; assert(R == y * c) by(nonlinear_arith) requires p * R == p * (y * c), p > 0; lemma_mul_dv(y, c); lemma_sl_elem(d, f, i, y); assert(hasd(b, d2 * (sg(f, i + 1, y) * y))) by { reveal(sls); } let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k] == d2 * (sg(f, i + 1, y) * y); assert(w[k + a.len()] == b[k]); assert(w[k + a.len()] == d * (sg(f, i, x) * x)); }
  else { lemma_cancel(x, p, R); lemma_sl_elem(d, f, i, x); assert(hasd(a, d * (sg(f, i + 1, x) * x))) by { reveal(sls); } let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == d * (sg(f, i + 1, x) * x); assert(w[k] == a[k]); assert(w[k] == d * (sg(f, i, x) * x)); } }
pub proof fn lemma_sls_join(a: Seq<i64>, b: Seq<i64>, d: int, f: Seq<(int, int)>, i: int) requires facts(f), 0 <= i < f.len(), d != 0, sls(a, d, f, i + 1), sls(b, d * -f[i].0, f, i + 1), ensures sls(a + b, d, f, i)
{
    let p = f[i].0; let R = rad(f, i + 1); let w = a + b; let d2 = d * -p; assert(isp(p));
    assert(forall|k: int| 0 <= k < a.len() ==> sle(#[trigger] a[k] as int, d, f, i + 1)) by { reveal(sls); }
    assert(forall|k: int| 0 <= k < b.len() ==> sle(#[trigger] b[k] as int, d2, f, i + 1)) by { reveal(sls); }
    assert(nodup(a) && nodup(b)) by { reveal(sls); }
    assert forall|k: int| 0 <= k < w.len() implies sle(#[trigger] w[k] as int, d, f, i) by {
        if k < a.len() { assert(w[k] == a[k]); let x = choose|x: int| #[trigger] dv(x, R) && a[k] == d * (sg(f, i + 1, x) * x); lemma_sl_elem(d, f, i, x); assert(dv(x, rad(f, i)) && w[k] == d * (sg(f, i, x) * x)); }
        else { let j = k - a.len(); assert(w[k] == b[j]); let x = choose|x: int| #[trigger] dv(x, R) && b[j] == d2 * (sg(f, i + 1, x) * x); lemma_sl_elem(d, f, i, x); let y = p * x; assert(dv(y, rad(f, i)) && w[k] == d * (sg(f, i, y) * y)); } }
    assert(nodup(w)) by { assert forall|k: int, l: int| 0 <= k < l < w.len() implies #[trigger] w[k] != #[trigger] w[l] by {
        if l < a.len() { assert(w[k] == a[k] && w[l] == a[l]); } else if k >= a.len() { assert(w[k] == b[k - a.len()] && w[l] == b[l - a.len()]); }
        else { assert(w[k] == a[k]); let j = l - a.len(); assert(w[l] == b[j]); let x = choose|x: int| #[trigger] dv(x, R) && a[k] == d * (sg(f, i + 1, x) * x); let y = choose|y: int| #[trigger] dv(y, R) && b[j] == d2 * (sg(f, i + 1, y) * y); lemma_sl_elem(d, f, i, x); lemma_sl_elem(d, f, i, y); lemma_sl_neq(d, p, x, y, sg(f, i + 1, x), sg(f, i + 1, y)); } } }
    assert forall|x: int| #[trigger] dv(x, rad(f, i)) implies hasd(w, d * (sg(f, i, x) * x)) by { lemma_sl_has(a, b, d, f, i, x); }
    reveal(sls);
}
pub proof fn lemma_sq_room(d: int, p: int, R: int) requires p > 1, R >= 1, d != 0, ab(d) * (p * R) <= 0x7fff_ffff_ffff_ffff, ensures ab(d) * R <= 0x7fff_ffff_ffff_ffff, ab(d * -p) * R <= 0x7fff_ffff_ffff_ffff, ab(d * -p) <= 0x7fff_ffff_ffff_ffff, d * -p != 0
{ let a = ab(d); assert(ab(d * -p) == a * p) by(nonlinear_arith) requires a == ab(d), p > 0; assert(a * (p * R) == (a * p) * R && a * R <= a * (p * R) && a * p <= (a * p) * R && a * p > 0) by(nonlinear_arith) requires a > 0, p > 1, R >= 1; }
// ---------------------------------------------------------------- digits
/// value of the digits from position i on, least significant first, t above the last one
pub open spec fn dval(v: Seq<i64>, b: int, i: int, t: int) -> int decreases v.len() - i { if i >= v.len() || i < 0 { t } else { v[i] + b * dval(v, b, i + 1, t) } }
pub proof fn lemma_dval_push(v: Seq<i64>, b: int, i: int, x: i64, t: int) requires 0 <= i <= v.len(), ensures dval(v.push(x), b, i, t) == dval(v, b, i, x + b * t) decreases v.len() - i
{ let w = v.push(x); if i < v.len() { lemma_dval_push(v, b, i + 1, x, t); assert(w[i] == v[i]); } else { assert(w[i] == x); assert(dval(w, b, i + 1, t) == t); } }
pub proof fn lemma_dval_pos(v: Seq<i64>, b: int, i: int) requires 0 <= i, b >= 1, forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] >= 0, ensures dval(v, b, i, 0) >= 0, i < v.len() ==> dval(v, b, i + 1, 0) <= dval(v, b, i, 0) && b * dval(v, b, i + 1, 0) <= dval(v, b, i, 0) decreases v.len() - i
{ if i < v.len() { lemma_dval_pos(v, b, i + 1); let q = dval(v, b, i + 1, 0); assert(b * q >= q && b * q >= 0) by(nonlinear_arith) requires b >= 1, q >= 0; assert(v[i] >= 0); } }
pub proof fn lemma_dval_le(v: Seq<i64>, b: int, i: int) requires 0 <= i <= v.len(), b >= 1, forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] >= 0, ensures dval(v, b, i, 0) <= dval(v, b, 0, 0) decreases i
{ if i > 0 { lemma_dval_le(v, b, i - 1); lemma_dval_pos(v, b, i - 1); } }
pub proof fn lemma_dig_room(l: nat, t: int, b: int, n: int) requires t > 0, b >= 2, pow(2, l) * t <= n, n <= 0x7fff_ffff_ffff_ffff, ensures l <= 62, pow(2, l + 1) * (t / b) <= n
{ lemma_pow_big(2, l); let s = pow(2, l); assert(s <= s * t) by(nonlinear_arith) requires s >= 1, t >= 1; lemma_pow_63(2, l); assert(pow(2, l + 1) == 2 * s) by { reveal(pow); } lemma_fundamental_div_mod(t, b); lemma_mod_bound(t, b); let q = t / b; assert(2 * q <= t) by(nonlinear_arith) requires t == b * q + t % b, t % b >= 0, b >= 2, q >= 0 || q < 0, t > 0; assert((2 * s) * q <= s * t) by(nonlinear_arith) requires 2 * q <= t, s >= 1; }
// ---------------------------------------------------------------- work list of the general factoring algorithm
pub uninterp spec fn rho(a: int) -> int;
#[verifier::external_body] pub fn mr_call(a: i64) -> (r: bool) ensures a >= 1 ==> r == isp(a as int) { false }
/// a value of moduloX<long> inside pollard_rho: opaque
#[derive(Clone, Copy)] pub struct Mx { pub v: i64 }
#[verifier::external_body] pub fn mx(k: i64, n: i64) -> (r: Mx) ensures r.v > i64::MIN { Mx { v: 0 } }
#[verifier::external_body] pub fn mx_op(a: Mx, b: Mx) -> (r: Mx) ensures r.v > i64::MIN { a }
pub proof fn lemma_gcd_dv(a: int, n: int) requires n >= 1, a >= 0, ensures dv(gcdn(a as nat, n as nat) as int, n) { let g = lemma_gcdn(a as nat, n as nat); let h = gcdn(a as nat, n as nat) as int; let q = choose|q: int| #[trigger] (h * q) == n; assert(h >= 1 && q >= 1) by(nonlinear_arith) requires h * q == n, n >= 1, h >= 0; lemma_mul_dv(h, q); }
pub open spec fn pl64(v: Seq<i64>) -> int decreases v.len() { if v.len() == 0 { 1 } else { pl64(v.drop_last()) * v.last() } }
pub proof fn lemma_pl64_upd(v: Seq<i64>, j: int, x: i64) requires 0 <= j < v.len(), ensures exists|c: int| pl64(v) == #[trigger] (c * v[j]) && pl64(v.update(j, x)) == c * x decreases v.len()
{ let w = v.update(j, x); if j == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); let c = pl64(v.drop_last()); assert(pl64(v) == c * v[j] && pl64(w) == c * x); }
  else { lemma_pl64_upd(v.drop_last(), j, x); let a = v.drop_last(); assert(w.drop_last() =~= a.update(j, x)); let c = choose|c: int| pl64(a) == #[trigger] (c * a[j]) && pl64(a.update(j, x)) == c * x; let l = v.last() as int; assert(w.last() == v.last()); let d = c * l; assert(pl64(v) == d * v[j] && pl64(w) == d * x) by(nonlinear_arith) requires pl64(v) == (c * a[j]) * l, pl64(w) == (c * x) * l, d == c * l, a[j] == v[j]; assert(pl64(v) == d * v[j]); } }
pub proof fn lemma_pl64_out(v: Seq<i64>, j: int, p: int, e: int, x: i64) requires 0 <= j < v.len(), e >= 0, v[j] == p * x, ensures pow(p, (e + 1) as nat) * pl64(v.update(j, x)) == pow(p, e as nat) * pl64(v)
{ lemma_pl64_upd(v, j, x); let c = choose|c: int| pl64(v) == #[trigger] (c * v[j]) && pl64(v.update(j, x)) == c * x; let s = pow(p, e as nat); assert(pow(p, (e + 1) as nat) == p * s) by { reveal(pow); } assert((p * s) * (c * x) == s * (c * (p * x))) by(nonlinear_arith); }
pub proof fn lemma_pl64_pos(v: Seq<i64>) requires forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] >= 1, ensures pl64(v) >= 1, forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] <= pl64(v) decreases v.len()
{ if v.len() > 0 { let d = v.drop_last(); assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] >= 1 by { assert(d[k] == v[k]); } lemma_pl64_pos(d); let a = pl64(d); let l = v.last() as int; assert(a * l >= a && a * l >= l) by(nonlinear_arith) requires a >= 1, l >= 1; assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] <= pl64(v) by { if k < d.len() { assert(d[k] == v[k]); } } } }
/// termination measure
pub open spec fn wl(v: Seq<i64>) -> int decreases v.len() { if v.len() == 0 { 0 } else { wl(v.drop_last()) + 2 * v.last() - 1 } }
pub proof fn lemma_wl(v: Seq<i64>, w: Seq<i64>) requires v.len() == w.len(), forall|k: int| 0 <= k < v.len() ==> 1 <= #[trigger] w[k] <= v[k], ensures 0 <= wl(w) <= wl(v) decreases v.len()
{ if v.len() > 0 { assert forall|k: int| 0 <= k < v.len() - 1 implies 1 <= #[trigger] w.drop_last()[k] <= v.drop_last()[k] by { assert(w.drop_last()[k] == w[k]); } lemma_wl(v.drop_last(), w.drop_last()); assert(w[w.len() - 1] <= v[v.len() - 1]); } }
/// primes in the list: distinct, and gone from the work list
pub open spec fn fok(f: Seq<(int, int)>) -> bool { (forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k].0 > 1 && f[k].1 >= 1) && (forall|k: int, l: int| 0 <= k < l < f.len() && isp(f[k].0) ==> #[trigger] f[k].0 != #[trigger] f[l].0) }
pub proof fn lemma_fok_push(f: Seq<(int, int)>, p: int, e: int) requires fok(f), p > 1, e >= 1, forall|k: int| 0 <= k < f.len() && isp(f[k].0) ==> #[trigger] f[k].0 != p, ensures fok(f.push((p, e)))
{ let g = f.push((p, e)); assert forall|k: int| 0 <= k < g.len() implies #[trigger] g[k].0 > 1 && g[k].1 >= 1 by { if k < f.len() { assert(g[k] == f[k]); } }
  assert forall|k: int, l: int| 0 <= k < l < g.len() && isp(g[k].0) implies #[trigger] g[k].0 != #[trigger] g[l].0 by { assert(g[k] == f[k]); if l < f.len() { assert(g[l] == f[l]); } } }
#[verifier::spinoff_prover]
pub proof fn lemma_fok(f: Seq<(int, int)>) requires fok(f), forall|k: int| 0 <= k < f.len() ==> isp(#[trigger] f[k].0), ensures facts(f) { if exists|k: int| 0 <= k < f.len() && !(isp(f[k].0) && f[k].1 >= 1) { let k = choose|k: int| 0 <= k < f.len() && !(isp(f[k].0) && f[k].1 >= 1); assert(isp(f[k].0)); assert(f[k].0 > 1); assert(false); } assert(forall|k: int| 0 <= k < f.len() ==> isp(#[trigger] f[k].0) && f[k].1 >= 1); assert forall|k: int, l: int| 0 <= k < l < f.len() implies #[trigger] f[k].0 != #[trigger] f[l].0 by { assert(isp(f[k].0)); } }
pub proof fn lemma_bound(x: int, y: int, z: int, n: int) requires x >= 1, y >= 1, z >= 1, x * (y * z) == n, ensures 1 <= y * z <= n, 1 <= y <= n, 1 <= z <= n, x <= n { assert(y * z >= y && y * z >= z && y * z >= 1) by(nonlinear_arith) requires y >= 1, z >= 1; let t = y * z; assert(x * t >= t && x * t >= x) by(nonlinear_arith) requires x >= 1, t >= 1; }
#[derive(Clone, Copy)] pub struct RevIt { pub o: i64 }
pub fn rev_ne(a: RevIt, b: RevIt) -> (r: bool) ensures r == (a.o != b.o) { a.o != b.o }
pub proof fn lemma_halves(a: int, d: int) -> (e: int) requires dv(d, a), a >= 2, d != 1, d != a, ensures e == a / d, 2 <= d < a, 2 <= e < a, a == d * e, d + e <= a, forall|q: int| #[trigger] dv(q, d) ==> dv(q, a), forall|q: int| #[trigger] dv(q, e) ==> dv(q, a)
{ let e = lemma_dv(d, a); assert(e != 1) by { if e == 1 { assert(d * 1 == d); } } assert(2 <= d && 2 <= e) by(nonlinear_arith) requires d > 0, e > 0, d != 1, e != 1; assert(d + e <= d * e && e < d * e && d < d * e) by(nonlinear_arith) requires d >= 2, e >= 2; lemma_mul_dv(e, d); assert(e * d == a) by(nonlinear_arith) requires a == d * e;
  assert forall|q: int| #[trigger] dv(q, d) implies dv(q, a) by { lemma_dv_trans(q, d, a); } assert forall|q: int| #[trigger] dv(q, e) implies dv(q, a) by { lemma_dv_trans(q, e, a); } e }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "sort" and len(args) == 2 and stmt:
            b1, o1 = tr.ptr(args[0])
            b2, o2 = tr.ptr(args[1])
            if b1.base == b2.base:
                return ["{", "let si: i64 = %s; let sj: i64 = %s; vec_sort(&mut %s, si, sj);" % (o1, o2, b1.base), "}"]
        if name == "miller_rabin" and obj is None and len(args) == 1:
            return "mr_call(%s)" % tr.exval(args[0])
        if name in ("operator*", "operator+", "operator-") and len(args) + (obj is not None) == 2:
            a = ([obj] if obj is not None else []) + list(args)
            if tr.ty(a[0]) == "Mx":
                return "mx_op(%s, %s)" % (tr.exval(a[0]), tr.exval(a[1]))
        return None

    def ptr_call(self, tr, e, name, args):
        return None

    def construct(self, tr, e, rt, args):
        if rt == "Mx" and len(args) == 2:
            return "mx(%s, %s)" % (tr.exval(args[0]), tr.exval(args[1]))
        if rt == "Mx" and len(args) == 1 and tr.ty(args[0]) == "i64":
            return "(Mx { v: %s })" % tr.exval(args[0])
        return None


class RevHook:
    """reverse iterators over one vector: the element o - 1"""
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name in ("rbegin", "crbegin", "rend", "crend") and obj is not None:
            p = tr.place(obj)
            tr.u.revbase = p
            return "RevIt { o: %s }" % (("cast_u64_i64(vec_len(&%s))" % p) if name.endswith("begin") else "0i64")
        return None

    def ptr_call(self, tr, e, name, args):
        return None


def template_contracts():
    cs = []
    P = "std::vector<std::pair<long, int>>"
    W = "w64(vf@)"
    RM = "rem == %s" % W
    # trial division
    SL = "w64(vf@)"
    for t, c, w, lg in (("i32", "int", "w32", "lemma_pow_31"), ("i64", "long", "w64", "lemma_pow_63")):
        V = "%s(vf@)" % w
        cs.append(Contract("factor_slow_" + t, M + "factor_integer_slow", targs=[c], params=["n"], requires=["n >= 1"], ensures=["facts(%s(r@))" % w, "prod(%s(r@)) == n" % w],
            hints={"L0.before": "proof { assert(%s.len() == 0); assert(1 * n == n); assert forall|q: int| isp(q) && q < 2 implies !#[trigger] dv(q, n as int) by {} }" % V,
                   "L0.begin": "let ghost n1 = n as int; let ghost s1 = %s; let ghost v1 = vf@; proof { lemma_quo(n as int, i as int); }" % V,
                   "L0.continue": "proof { reveal(dv); }",
                   "L1.before": "proof { lemma_out0(i as int, n1); assert(dv(i as int, n as int)) by { reveal(dv); } lemma_trial(i as int, n1); }",
                   "L1.begin": "proof { assert(dv(i as int, n as int)) by { reveal(dv); } lemma_out(i as int, n as int, e as int, n1); %s(i as int, (e + 1) as nat); lemma_keep_all(i as int, n as int); }" % lg,
                   "L1.after": "proof { assert(!dv(i as int, n as int)) by { reveal(dv); } if e == 0 { assert(n == n1) by { lemma_out0(i as int, n as int); } assert(false); } let vn = v1.push((i, e)); assert(%s(vn) =~= s1.push((i as int, e as int))); lemma_prod_push(s1, i as int, e as int); lemma_facts_push(s1, i as int, e as int); lemma_mulpush(prod(s1), pow(i as int, e as nat), n as int, n1, n_0 as int); }" % w,
                   "entry": "let ghost mut s2 = Seq::<(int, int)>::empty(); let ghost mut v2 = Seq::<(%s, i32)>::empty();" % t,
                   "L0.after": "proof { s2 = %s; v2 = vf@; assert(prod(s2) * 1 == prod(s2)); if n > 1 { lemma_trial_end(i as int, n as int); lemma_pow1(n as int); lemma_dv_refl(n as int); lemma_prod_push(s2, n as int, 1); lemma_facts_push(s2, n as int, 1); } }" % V,
                   "exit": "proof { if n > 1 { assert(ret__v@ =~= v2.push((n, 1i32))); assert(%s(ret__v@) =~= s2.push((n as int, 1))); } }" % w},
            loops={0: dict(invariant=["2 <= i", "1 <= n <= n_0", "facts(%s)" % V, "prod(%s) * n == n_0" % V, "forall|k: int| 0 <= k < %s.len() ==> #[trigger] %s[k].0 < i && !dv(%s[k].0, n as int)" % (V, V, V), "forall|q: int| isp(q) && q < i ==> !#[trigger] dv(q, n as int)"], decreases="if n + 1 > i { n + 1 - i } else { 0 }"),
                   1: dict(invariant=["1 <= n <= n1 <= n_0", "isp(i as int)", "dv(i as int, n1)", "0 <= e <= 62", "pow(i as int, e as nat) * n == n1", "forall|q: int| #[trigger] dv(q, n as int) ==> dv(q, n1)", "vf@ == v1"], decreases="n")}))
    cs.append(Contract("factor_out", M + "factor_out", targs=["long", "long", "int"], params=["n", "p", "e"], requires=["n >= 1", "p >= 2", "0 <= *old(e) <= i32::MAX - 63"],
        ensures=["r >= 1", "!dv(p as int, r as int)", "*final(e) >= *old(e)", "pow(p as int, (*final(e) - *old(e)) as nat) * r == n"],
        hints={"L0.before": "proof { lemma_out0(p as int, n as int); }", "L0.begin": "proof { assert(dv(p as int, n as int)) by { reveal(dv); } lemma_out(p as int, n as int, *e - *old(e), n_0 as int); lemma_pow_63(p as int, (*e + 1 - *old(e)) as nat); }", "L0.after": "proof { assert(!dv(p as int, n as int)) by { reveal(dv); } }"},
        loops={0: dict(invariant=["1 <= n <= n_0", "p >= 2", "0 <= *old(e) <= i32::MAX - 63", "*old(e) <= *e <= *old(e) + 62", "pow(p as int, (*e - *old(e)) as nat) * n == n_0"], decreases="n")}))
    cs += [c for c in powt.units()[0].contracts if c.rust == "powT_i64_i32"]
    FX = "w64(vf@)"
    POSF = "forall|k: int| 0 <= k < vf@.len() ==> #[trigger] vf@[k].0 >= 1 && vf@[k].1 >= %d"
    SUB = FX + ".subrange(0, idx as int)"
    NXT = "proof { let f = %s; assert(f.subrange(0, idx + 1) =~= f.subrange(0, idx as int).push(f[idx as int])); }" % FX
    cs.append(Contract("from_factorization", M + "from_factorization", targs=["long", "long"], params=["vf"], requires=[POSF % 0, "prod(%s) <= i64::MAX" % FX], ensures=["r == prod(%s)" % FX],
        hints={"L0.before": "proof { assert(%s.subrange(0, 0).len() == 0); }" % FX, "L0.begin": "proof { let f = %s; assert(vf@[idx as int].0 >= 1); lemma_prod_push(f.subrange(0, idx as int), f[idx as int].0, f[idx as int].1); assert(f.subrange(0, idx + 1) =~= f.subrange(0, idx as int).push(f[idx as int])); lemma_part(f, idx + 1); lemma_part(f, idx as int); }" % FX, "L0.after": "proof { assert(%s.subrange(0, idx as int) =~= %s); }" % (FX, FX)},
        loops={0: dict(invariant=["0 <= idx <= vf@.len()", POSF % 0, "prod(%s) <= i64::MAX" % FX, "r == prod(%s)" % SUB], decreases="vf@.len() - idx")}))
    cs.append(Contract("prime_factors", M + "prime_factors", targs=["long"], params=["vf"], ensures=["r@ =~= Seq::new(vf@.len(), |k: int| vf@[k].0)"], loops={0: dict(invariant=["0 <= idx <= vf@.len()", "vp@ =~= Seq::new(idx as nat, |k: int| vf@[k].0)"], decreases="vf@.len() - idx")}))
    cs.append(Contract("prime_exponents", M + "prime_exponents", targs=["long"], params=["vf"], ensures=["r@ =~= Seq::new(vf@.len(), |k: int| vf@[k].1)"], loops={0: dict(invariant=["0 <= idx <= vf@.len()", "ve@ =~= Seq::new(idx as nat, |k: int| vf@[k].1)"], decreases="vf@.len() - idx")}))
    # folds of a per-factor value
    cs.append(Contract("divisor_sigma0", M + "divisor_sigma0", targs=["long", "long"], params=["vf"], requires=["facts(%s)" % FX, "prod(%s) <= i64::MAX" % FX], ensures=["r == tau(%s, 0)" % FX],
        hints={"L0.before": "proof { lemma_prs_all(%s); assert(1 * tau(%s, 0) == tau(%s, 0)); }" % (FX, FX, FX), "L0.begin": "let ghost r0 = r as int; proof { let f = %s; let i = idx as int; assert(f[i].0 == vf@[i].0 && f[i].1 == vf@[i].1); lemma_tau_pos(f, 0); lemma_tau_pos(f, i + 1); lemma_prs_63(f, i); let e = f[i].1 + 1; let t = tau(f, i + 1); assert((r0 * e) * t == r0 * (e * t)) by(nonlinear_arith); assert(1 <= r0 * e && r0 * e <= (r0 * e) * t) by(nonlinear_arith) requires r0 >= 1, e >= 1, t >= 1; }" % FX, "L0.after": "proof { assert(r as int * 1 == r); }"},
        loops={0: dict(invariant=["0 <= idx <= vf@.len()", "facts(%s)" % FX, "prs(%s, 0) <= i64::MAX" % FX, "r >= 1", "r * tau(%s, idx as int) == tau(%s, 0)" % (FX, FX)], decreases="vf@.len() - idx")}))
    cs.append(Contract("euler_phi_f", M + "euler_phi", targs=["long", "long"], params=["vf"], requires=["facts(%s)" % FX, "prod(%s) <= i64::MAX" % FX], ensures=["r == phf(%s, 0)" % FX],
        hints={"L0.before": "proof { lemma_prs_all(%s); assert(1 * phf(%s, 0) == phf(%s, 0)); }" % (FX, FX, FX), "L0.begin": "let ghost r0 = r as int; proof { let f = %s; let i = idx as int; assert(f[i].0 == vf@[i].0 && f[i].1 == vf@[i].1); assert(isp(f[i].0)); lemma_phf(f, 0); lemma_phf(f, i + 1); lemma_phf(f, i); lemma_prs_63(f, i); let p = f[i].0; let q = pow(p, (f[i].1 - 1) as nat); lemma_pow_big(p, (f[i].1 - 1) as nat); assert(pow(p, f[i].1 as nat) == p * q) by { reveal(pow); } let e = q * (p - 1); let t = phf(f, i + 1); assert((r0 * e) * t == r0 * (e * t)) by(nonlinear_arith); assert(e >= 1 && q <= p * q && e <= p * q) by(nonlinear_arith) requires q >= 1, p >= 2, e == q * (p - 1); assert(1 <= r0 * e && r0 * e <= (r0 * e) * t) by(nonlinear_arith) requires r0 >= 1, e >= 1, t >= 1; }" % FX, "L0.after": "proof { assert(r as int * 1 == r); }"},
        loops={0: dict(invariant=["0 <= idx <= vf@.len()", "facts(%s)" % FX, "prs(%s, 0) <= i64::MAX" % FX, "r >= 1", "r * phf(%s, idx as int) == phf(%s, 0)" % (FX, FX)], decreases="vf@.len() - idx")}))
    # divisors
    NEW = "vd@.subrange(l0, vd@.len() as int)"
    OLDP = ["old(vd)@.len() == l0", "vd@.len() >= l0", "vd@.subrange(0, l0) =~= old(vd)@"]
    M2 = "prs(%s, i + 1)" % FX
    D2 = ["d0 == d_0", "l0 == old(vd)@.len()", "0 <= i < vf@.len()", "vf@.len() <= i32::MAX", "facts(%s)" % FX, "d0 >= 1", "d0 * prs(%s, i as int) <= i64::MAX" % FX, "bd(maxd as int, d0)", "bd(maxd as int, d as int)", "EE <= 62", "pp == vf@[i as int].0", "EE == vf@[i as int].1", "isp(pp)", "d == d0 * pow(pp, e as nat)"]
    cs.append(Contract("divisors_rec", M + "divisors", sig="void (std::vector<long> &, const std::vector<std::pair<long, int>> &, long, long, int)", targs=["long", "long"], params=["vd", "vf", "maxd", "d", "i"],
        requires=["vf@.len() <= i32::MAX", "0 <= i <= vf@.len()", "facts(%s)" % FX, "d >= 1", "d * prs(%s, i as int) <= i64::MAX" % FX, "bd(maxd as int, d as int)"],
        ensures=["final(vd)@.len() >= old(vd)@.len()", "final(vd)@.subrange(0, old(vd)@.len() as int) =~= old(vd)@", "dls(final(vd)@.subrange(old(vd)@.len() as int, final(vd)@.len() as int), d as int, prs(%s, i as int), maxd as int)" % FX,
                 "maxd <= 0 ==> final(vd)@.len() == old(vd)@.len() + tau(%s, i as int)" % FX], decreases="vf@.len() - i",
        hints={"entry": "let ghost l0 = vd@.len() as int; let ghost d0 = d as int; let ghost F = %s; proof { if i >= vf@.len() { lemma_dls_one(d, maxd as int); assert(vd@.push(d).subrange(l0, l0 + 1) =~= seq![d]); assert(vd@.push(d).subrange(0, l0) =~= vd@); } }" % FX,
               "L0.before": "let ghost pp = F[i as int].0; let ghost EE = F[i as int].1; proof { assert(F[i as int] == (pp, EE)); assert(isp(F[i as int].0)); lemma_pow0(pp); assert(d0 * 1 == d0); lemma_prs_pos(F, i + 1); lemma_room(d0, pp, EE as nat, EE as nat, prs(F, i + 1), 0x7fff_ffff_ffff_ffff); lemma_pow_big(pp, EE as nat); assert(pow(pp, EE as nat) <= d0 * pow(pp, EE as nat)) by(nonlinear_arith) requires d0 >= 1, pow(pp, EE as nat) >= 1; lemma_pow_63(pp, EE as nat); }",
               "stmt:d \\*= f.first.before": "proof { assert(e < EE); assert(d as int == d0 * pow(pp, e as nat)); lemma_room(d0, pp, e as nat, EE as nat, prs(F, i + 1), 0x7fff_ffff_ffff_ffff); assert((d as int) * pp <= 0x7fff_ffff_ffff_ffff); assert((d as int) * pp >= 0) by(nonlinear_arith) requires d >= 0, pp >= 2; assert(vf@[i as int].0 as int == pp); }",
               "L0.begin": "let ghost v1 = vd@; proof { lemma_prs_pos(F, i + 1); lemma_room(d0, pp, e as nat, EE as nat, prs(F, i + 1), 0x7fff_ffff_ffff_ffff); }",
               "call:divisors_rec.after": "proof { let b = vd@.subrange(v1.len() as int, vd@.len() as int); let v = v1.subrange(l0, v1.len() as int); lemma_prs_not(F, i as int); lemma_prs_pos(F, i + 1); lemma_dls_step(v, b, d0, d as int, pp, e as nat, prs(F, i + 1), maxd as int); assert(vd@.subrange(0, v1.len() as int) =~= v1); assert(vd@.subrange(l0, vd@.len() as int) =~= v + b); assert(vd@.subrange(0, l0) =~= old(vd)@) by { assert(vd@.subrange(0, v1.len() as int).subrange(0, l0) =~= vd@.subrange(0, l0)); } assert((e + 1) * tau(F, i + 1) == e * tau(F, i + 1) + tau(F, i + 1)) by(nonlinear_arith); if maxd > 0 { if d > maxd / (pp as i64) { lemma_quo_gt(maxd as int, pp, d as int); lemma_dls_skip(vd@.subrange(l0, vd@.len() as int), d0, pp, e as nat, EE as nat, prs(F, i + 1), maxd as int); } else { lemma_quo_le(maxd as int, pp, d as int); } } }"},
        loops={0: dict(invariant_except_break=["0 <= e <= EE", "if e == 0 { %s.len() == 0 } else { dls(%s, d0, pow(pp, (e - 1) as nat) * %s, maxd as int) }" % (NEW, NEW, M2), "maxd <= 0 ==> vd@.len() == l0 + e * tau(%s, i + 1)" % FX, "d == d0 * pow(pp, e as nat)", "bd(maxd as int, d as int)"],
                       invariant=[x for x in D2 if not x.startswith("d ==") and "d as int)" not in x] + ["F == %s" % FX] + OLDP[1:], ensures=["dls(%s, d0, pow(pp, EE as nat) * %s, maxd as int)" % (NEW, M2), "maxd <= 0 ==> vd@.len() == l0 + tau(%s, i as int)" % FX], decreases="EE + 1 - e")}, attrs=["#[verifier::allow_complex_invariants]"]))
    cs.append(Contract("divisors", M + "divisors", sig="std::vector<long> (const std::vector<std::pair<long, int>> &, long, long, int)", targs=["long", "long"], params=["vf", "maxd", "d", "i"],
        requires=["vf@.len() <= i32::MAX", "0 <= i <= vf@.len()", "facts(%s)" % FX, "d >= 1", "d * prs(%s, i as int) <= i64::MAX" % FX, "bd(maxd as int, d as int)"],
        ensures=["asc(r@)", "dls(r@, d as int, prs(%s, i as int), maxd as int)" % FX, "maxd <= 0 ==> r@.len() == tau(%s, i as int)" % FX],
        hints={"entry": "let ghost mut g = Seq::<i64>::empty();", "call:divisors_rec.after": "proof { g = vd@; assert(vd@.subrange(0, vd@.len() as int) =~= vd@); }", "exit": "proof { lemma_dls_perm(g, ret__v@, d as int, prs(%s, i as int), maxd as int); }" % FX}))
    cs.append(Contract("sqfree_rec", M + "squarefree_signed_divisors", targs=["long", "long"], params=["vd", "vf", "d", "i"],
        requires=["vf@.len() <= i32::MAX", "0 <= i <= vf@.len()", "facts(%s)" % FX, "d != 0", "ab(d as int) * rad(%s, i as int) <= i64::MAX" % FX],
        ensures=["final(vd)@.len() >= old(vd)@.len()", "final(vd)@.subrange(0, old(vd)@.len() as int) =~= old(vd)@", "sls(final(vd)@.subrange(old(vd)@.len() as int, final(vd)@.len() as int), d as int, %s, i as int)" % FX], decreases="vf@.len() - i",
        hints={"entry": "let ghost l0 = vd@.len() as int; let ghost v0 = vd@; let ghost F = %s; proof { if i >= vf@.len() { lemma_sls_one(d, F, i as int); assert(vd@.push(d).subrange(l0, l0 + 1) =~= seq![d]); assert(vd@.push(d).subrange(0, l0) =~= vd@); } else { assert(F[i as int].0 == vf@[i as int].0); assert(isp(F[i as int].0)); lemma_rad(F, i as int); lemma_rad(F, i + 1); lemma_sq_room(d as int, F[i as int].0, rad(F, i + 1)); } }" % FX,
               "entry2": "let ghost mut v1 = vd@; let ghost mut cnt: int = 0;", "call:sqfree_rec.after": "proof { if cnt == 0 { v1 = vd@; } cnt = cnt + 1; }",
               "exit": "proof { if i < vf@.len() { let v2 = vd@; let a = v1.subrange(l0, v1.len() as int); let b = v2.subrange(v1.len() as int, v2.len() as int); lemma_sls_join(a, b, d as int, F, i as int); assert(v2.subrange(l0, v2.len() as int) =~= a + b) by { assert(v2.subrange(0, v1.len() as int) =~= v1); } assert(v2.subrange(0, l0) =~= v1.subrange(0, l0)); } }"}))
    cs.append(Contract("integer_digits", M + "integer_digits", targs=["long", "long"], params=["n", "b", "len"], requires=["n >= 0", "b >= 2"],
        ensures=["forall|k: int| 0 <= k < r@.len() ==> 0 <= #[trigger] r@[k] < b", "dval(r@, b as int, 0, 0) == n", "r@.len() >= len", "r@.len() > 0 && r@.len() > len ==> r@.last() > 0"],
        hints={"L0.before": "proof { lemma_pow0(2); assert(1 * n == n); }", "L0.begin": "let ghost v0 = vd@; let ghost t0 = t as int; proof { lemma_dig_room(v0.len(), t0, b as int, n as int); lemma_fundamental_div_mod(t0, b as int); lemma_mod_bound(t0, b as int); let x = (t0 % (b as int)) as i64; lemma_dval_push(v0, b as int, 0, x, t0 / (b as int)); assert(t0 / (b as int) < t0 && t0 / (b as int) >= 0) by(nonlinear_arith) requires t0 > 0, b >= 2, t0 == (b as int) * (t0 / (b as int)) + t0 % (b as int), 0 <= t0 % (b as int) < b; if t0 / (b as int) == 0 { assert(b * 0 == 0); } }",
               "L1.begin": "proof { lemma_dval_push(vd@, b as int, 0, 0, 0); assert(b * 0 == 0); }"},
        loops={0: dict(invariant=["0 <= t <= n", "b >= 2", "dval(vd@, b as int, 0, t as int) == n", "forall|k: int| 0 <= k < vd@.len() ==> 0 <= #[trigger] vd@[k] < b", "pow(2, vd@.len() as nat) * t <= n", "vd@.len() <= 63", "t == 0 && vd@.len() > 0 ==> vd@.last() > 0"], decreases="t"),
               1: dict(invariant=["b >= 2", "dval(vd@, b as int, 0, 0) == n", "forall|k: int| 0 <= k < vd@.len() ==> 0 <= #[trigger] vd@[k] < b", "vd@.len() <= 63 || vd@.len() <= len", "vd@.len() > 0 && vd@.len() > len ==> vd@.last() > 0"], decreases="if vd@.len() < len { len - vd@.len() } else { 0 }")}))
    cs.append(Contract("from_digits", M + "from_digits", targs=["long", "long"], params=["vd", "b"], requires=["b >= 1", "forall|k: int| 0 <= k < vd@.len() ==> #[trigger] vd@[k] >= 0", "dval(vd@, b as int, 0, 0) <= i64::MAX"], ensures=["r == dval(vd@, b as int, 0, 0)"],
        hints={"L0.before": "let ghost N = vd@.len() as int;", "L0.begin": "proof { let k = $it.o - 1; lemma_dval_pos(vd@, b as int, k); lemma_dval_le(vd@, b as int, k); assert(n * b == b * n) by(nonlinear_arith); }"},
        loops={0: dict(invariant=["b >= 1", "0 <= $it.o <= vd@.len()", "n == dval(vd@, b as int, $it.o as int, 0)", "forall|k: int| 0 <= k < vd@.len() ==> #[trigger] vd@[k] >= 0", "dval(vd@, b as int, 0, 0) <= i64::MAX"], decreases="$it.o")}))
    Q = "forall|k: int| 0 <= k < q@.len() ==> #[trigger] q@[k] >= 1"
    V = "w64(vf@)"
    GONE = "forall|k: int, j: int| 0 <= k < %s.len() && 0 <= j < q@.len() && isp(%s[k].0) ==> !dv(#[trigger] %s[k].0, #[trigger] q@[j] as int)" % (V, V, V)
    DL = "let ghost q0 = q@; let ghost s0 = %s; let ghost v0 = vf@; proof { lemma_pl64_pos(q@); assert(q0.last() == q0[q0.len() - 1]); assert forall|k: int| 0 <= k < q0.drop_last().len() implies #[trigger] q0.drop_last()[k] == q0[k] by {} }" % V
    cs.append(gcd.gcd_contract("i64"))
    cs.append(Contract("pollard_rho", M + "pollard_rho", sig="long (const long &, const long &, const long &, long)", targs=["long"], params=["n", "k", "a", "max_inner_iter"], requires=["n >= 1", "max_inner_iter > i64::MIN"], ensures=["dv(r as int, n as int)"],
        hints={"entry": "proof { lemma_dv_refl(n as int); lemma_dv_refl(1); reveal(dv); }", "L0.begin": "proof { assert forall|t: nat| dv(#[trigger] gcdn(t, n as nat) as int, n as int) by { lemma_gcd_dv(t as int, n as int); } }", "exit": "proof { lemma_dv_refl(n as int); }"},
        loops={0: dict(invariant=["n >= 1", "dv(d as int, n as int)", "max_inner_iter >= -1 || max_inner_iter == max_inner_iter_0", "max_inner_iter_0 > i64::MIN"], decreases="if max_inner_iter > 0 { max_inner_iter as int } else { 0 }")}))
    cs.append(Contract("pollard_rho_repeated", M + "pollard_rho_repeated", sig="long (const long &, const long &, const long &)", targs=["long"], params=["n", "max_iter", "max_inner_iter"], requires=["n >= 1", "max_inner_iter > i64::MIN", "max_iter < i64::MAX"], ensures=["dv(r as int, n as int)"],
        hints={"entry": "proof { lemma_dv_refl(n as int); }"},
        loops={0: dict(invariant=["n >= 1", "max_inner_iter > i64::MIN", "max_iter < i64::MAX", "2 <= k", "dv(n as int, n as int)", "k <= max_iter || k == 2 || k == max_iter + 1"], decreases="if k <= max_iter { max_iter - k + 1 } else { 0 }")}))
    cs.append(Contract("factor_general", M + "factor_integer", sig="std::vector<std::pair<long, int>> (const long &, int)", targs=["long"], params=["n", "max_iter"], requires=["n >= 1"],
        ensures=["prod(w64(r@)) == n", "fok(w64(r@))", "(forall|k: int| 0 <= k < r@.len() ==> isp(#[trigger] r@[k].0 as int)) ==> facts(w64(r@))"],
        hints={"L0.before": "proof { let e = Seq::<i64>::empty(); assert(q@ =~= e.push(n)); assert(q@.drop_last() =~= e); assert(pl64(q@) == pl64(e) * n); assert(%s.len() == 0); }" % V, "L0.begin": DL,
               "use:pop_back.after": "proof { assert(q@ =~= q0.drop_last()); assert(a == q0.last()); lemma_pl64_pos(q@); lemma_wl(q@, q@); assert(pl64(q@) * 1 == pl64(q@)); assert forall|k: int, j: int| 0 <= k < s0.len() && 0 <= j < q@.len() && isp(s0[k].0) implies !dv(#[trigger] s0[k].0, #[trigger] q@[j] as int) by { assert(q@[j] == q0[j]); } assert forall|k: int| 0 <= k < s0.len() && isp(s0[k].0) implies !dv(#[trigger] s0[k].0, a as int) by { assert(!dv(s0[k].0, q0[q0.len() - 1] as int)); } lemma_bound(prod(s0), pl64(q@), a as int, n as int); }",
               "L1.before": "let ghost q1 = q@; proof { lemma_pow1(a as int); assert(a * pl64(q1) == pl64(q1) * a) by(nonlinear_arith); lemma_dv_refl(a as int); }",
               "L2.begin": "let ghost q2 = q@; proof { let m = q2[idx as int] as int; assert(dv(a as int, m)) by { reveal(dv); } let x = lemma_dv(a as int, m); lemma_pl64_out(q2, idx as int, a as int, e as int, (m / (a as int)) as i64); lemma_keep_all(a as int, m); lemma_pl64_pos(q2.update(idx as int, (m / (a as int)) as i64)); lemma_pow_big(a as int, (e + 1) as nat); lemma_bound(1, pow(a as int, (e + 1) as nat), pl64(q2.update(idx as int, (m / (a as int)) as i64)), pl64(q1) * a); lemma_pow_63(a as int, (e + 1) as nat); }",
               "L2.end": "proof { assert(q@ =~= q2.update(idx as int, q@[idx as int])); }",
               "L2.after": "proof { assert(!dv(a as int, q@[idx as int] as int)) by { reveal(dv); } }",
               "L1.after": "proof { lemma_pl64_pos(q@); lemma_wl(q1, q@); let t = pow(a as int, e as nat); lemma_pow_big(a as int, e as nat); let vn = v0.push((a, e)); assert(w64(vn) =~= s0.push((a as int, e as int))); lemma_prod_push(s0, a as int, e as int); lemma_fok_push(s0, a as int, e as int); assert((prod(s0) * t) * pl64(q@) == prod(s0) * (t * pl64(q@))) by(nonlinear_arith); assert(prod(s0) * t >= 1) by(nonlinear_arith) requires prod(s0) >= 1, t >= 1; assert forall|k: int, j: int| 0 <= k < w64(vn).len() && 0 <= j < q@.len() && isp(w64(vn)[k].0) implies !dv(#[trigger] w64(vn)[k].0, #[trigger] q@[j] as int) by { if k < s0.len() { assert(w64(vn)[k] == s0[k]); assert(q1[j] == q0[j]); assert(!dv(s0[k].0, q1[j] as int)); } } }",
               "use:pollard_rho_repeated.after": "proof { if d == 1 || d == a { lemma_pow1(a as int); lemma_pow_big(a as int, 1); let vn = v0.push((a, 1i32)); assert(w64(vn) =~= s0.push((a as int, 1))); lemma_prod_push(s0, a as int, 1); lemma_fok_push(s0, a as int, 1); assert((prod(s0) * a) * pl64(q@) == prod(s0) * (pl64(q@) * a)) by(nonlinear_arith); assert(prod(s0) * a >= 1) by(nonlinear_arith) requires prod(s0) >= 1, a >= 1; assert forall|k: int, j: int| 0 <= k < w64(vn).len() && 0 <= j < q@.len() && isp(w64(vn)[k].0) implies !dv(#[trigger] w64(vn)[k].0, #[trigger] q@[j] as int) by { if k < s0.len() { assert(w64(vn)[k] == s0[k]); } else { assert(!isp(a as int)); } } }"
                 " else { let z = lemma_halves(a as int, d as int); let qa = q@.push(d); let qb = qa.push(z as i64); assert(qa.drop_last() =~= q@ && qb.drop_last() =~= qa); assert(qa.last() == d && qb.last() == z); assert(wl(qa) == wl(q@) + 2 * d - 1 && wl(qb) == wl(qa) + 2 * z - 1); assert(pl64(qa) == pl64(q@) * d); assert(pl64(qb) == pl64(q@) * d * z); assert(pl64(q@) * d * z == pl64(q@) * (d * z)) by(nonlinear_arith); assert forall|k: int, j: int| 0 <= k < s0.len() && 0 <= j < qb.len() && isp(s0[k].0) implies !dv(#[trigger] s0[k].0, #[trigger] qb[j] as int) by { if j < q@.len() { assert(qb[j] == q@[j]); } else { assert(!dv(s0[k].0, a as int)); } } assert forall|k: int| 0 <= k < qb.len() implies #[trigger] qb[k] >= 1 by { if k < q@.len() { assert(qb[k] == q@[k]); } } } }",
               "L0.after": "proof { assert(prod(%s) * 1 == prod(%s)); if (forall|k: int| 0 <= k < %s.len() ==> isp(#[trigger] %s[k].0)) { lemma_fok(%s); } }" % (V, V, V, V, V)},
        loops={1: dict(invariant=["n >= 1", "isp(a as int)", "1 <= e <= 62", "q@.len() == q1.len()", "idx <= q@.len()", Q, "vf@ == v0", "pow(a as int, e as nat) * pl64(q@) == pl64(q1) * a", "pl64(q1) * a <= 0x7fff_ffff_ffff_ffff", "forall|k: int| 0 <= k < idx ==> !dv(a as int, #[trigger] q@[k] as int)", "forall|x: int, j: int| 0 <= j < q@.len() && #[trigger] dv(x, #[trigger] q@[j] as int) ==> dv(x, q1[j] as int)", "forall|k: int| 0 <= k < q@.len() ==> #[trigger] q@[k] <= q1[k]"], decreases="q@.len() - idx"),
               2: dict(invariant=["n >= 1", "isp(a as int)", "1 <= e <= 62", "q@.len() == q1.len()", "idx < q@.len()", Q, "vf@ == v0", "pow(a as int, e as nat) * pl64(q@) == pl64(q1) * a", "pl64(q1) * a <= 0x7fff_ffff_ffff_ffff", "forall|k: int| 0 <= k < idx ==> !dv(a as int, #[trigger] q@[k] as int)", "forall|x: int, j: int| 0 <= j < q@.len() && #[trigger] dv(x, #[trigger] q@[j] as int) ==> dv(x, q1[j] as int)", "forall|k: int| 0 <= k < q@.len() ==> #[trigger] q@[k] <= q1[k]"], decreases="q@[idx as int]"),
               0: dict(invariant=[Q, "prod(%s) * pl64(q@) == n" % V, "prod(%s) >= 1" % V, "fok(%s)" % V, GONE], decreases="wl(q@)")}))
    return cs


def units():
    sp = SPEC.replace("pub open spec fn trm", "pub proof fn lemma_keep_all(p: int, m: int) requires m >= 1, dv(p, m), ensures forall|q: int| #[trigger] dv(q, m / p) ==> dv(q, m) { assert forall|q: int| #[trigger] dv(q, m / p) implies dv(q, m) by { reveal(dv); assert(q > 0); lemma_keep(q, p, m); } }\npub open spec fn trm")
    u = Unit("facts", ["altruct/algorithm/math/primes.h", "altruct/algorithm/math/factorization.h", "src/algorithm/math/base.cpp", "src/algorithm/math/primes.cpp"], TU, pairs_contracts() + template_contracts(), divs.SPEC + ntlib.DIV + sieves.SPEC + powt.SPEC.split('// ---- machine integers')[1] + sp + SPEC2 + SPEC3 + gcd.TREM)
    u.hooks = [Hook(), RevHook()]
    u.copy_types |= {'Mx', 'RevIt'}
    u.type_map[r'^(altruct::math::)?modulo<long, 0, 0>$'] = 'Mx'
    u.type_map[r'^(altruct::math::)?moduloX<long>$'] = 'Mx'
    u.type_map[r'^modx$'] = 'Mx'
    u.type_map[r'^std::reverse_iterator<const long \*>$'] = 'RevIt'
    u.floatops[('!=', 'RevIt')] = 'rev_ne'
    return [u]
