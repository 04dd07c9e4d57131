"""Knuth-Morris-Pratt search (kmp_search.h)"""
from unit import Unit, Contract
SPEC = r"""
pub uninterp spec fn keep(pos: int) -> bool;
/// every reported position is recorded; the answer of the callback is arbitrary
#[verifier::external_body] pub fn report(pos: u64, log: &mut Vec<u64>) -> (r: bool) ensures final(log)@ == old(log)@.push(pos), r == keep(pos as int) { log.push(pos); true }
pub open spec fn sj(j: u64) -> int { if j == u64::MAX { -1 } else { j as int } }
/// p[0..k) is a suffix of p[0..i)
pub open spec fn suf(p: Seq<i32>, i: int, k: int) -> bool { 0 <= k <= i && forall|x: int| 0 <= x < k ==> #[trigger] p[x] == p[i - k + x] }
/// proper border
pub open spec fn border(p: Seq<i32>, i: int, k: int) -> bool { k < i && suf(p, i, k) }
pub open spec fn longest(p: Seq<i32>, i: int, k: int) -> bool { border(p, i, k) && forall|q: int| #[trigger] border(p, i, q) ==> q <= k }
pub open spec fn table(p: Seq<i32>, b: Seq<u64>, i: int) -> bool { b[0] == u64::MAX && forall|x: int| 1 <= x <= i ==> #[trigger] longest(p, x, b[x] as int) }
/// p[0..k) is a suffix of t[0..i)
pub open spec fn tsuf(t: Seq<i32>, p: Seq<i32>, i: int, k: int) -> bool { 0 <= k <= i && forall|x: int| 0 <= x < k ==> #[trigger] p[x] == t[i - k + x] }
pub open spec fn occ(t: Seq<i32>, n: int, p: Seq<i32>, m: int, q: int) -> bool { 0 <= q && q + m <= n && forall|x: int| 0 <= x < m ==> #[trigger] p[x] == t[q + x] }
pub proof fn lemma_suf_sub(p: Seq<i32>, i: int, k: int, j: int) requires suf(p, i, k), suf(p, i, j), k <= j, ensures suf(p, j, k)
{ assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[j - k + x] by { let y = j - k + x; assert(p[y] == p[i - j + y]); } }
pub proof fn lemma_suf_trans(p: Seq<i32>, i: int, j: int, k: int) requires suf(p, i, j), suf(p, j, k), ensures suf(p, i, k)
{ assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[i - k + x] by { let y = j - k + x; assert(p[y] == p[i - j + y]); } }
pub proof fn lemma_suf_step(p: Seq<i32>, i: int, k: int) requires k >= 0, i >= 0, ensures suf(p, i + 1, k + 1) <==> (suf(p, i, k) && p[k] == p[i])
{ if suf(p, i + 1, k + 1) { assert(p[k] == p[i + 1 - (k + 1) + k]); assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[i - k + x] by { assert(p[x] == p[i + 1 - (k + 1) + x]); } } 
  if suf(p, i, k) && p[k] == p[i] { assert forall|x: int| 0 <= x < k + 1 implies #[trigger] p[x] == p[i + 1 - (k + 1) + x] by {} } }
pub proof fn lemma_tsuf_sub(t: Seq<i32>, p: Seq<i32>, i: int, k: int, j: int) requires tsuf(t, p, i, k), tsuf(t, p, i, j), k <= j, ensures suf(p, j, k)
{ assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[j - k + x] by { let y = j - k + x; assert(p[y] == t[i - j + y]); } }
pub proof fn lemma_tsuf_trans(t: Seq<i32>, p: Seq<i32>, i: int, j: int, k: int) requires tsuf(t, p, i, j), suf(p, j, k), ensures tsuf(t, p, i, k)
{ assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == t[i - k + x] by { let y = j - k + x; assert(p[y] == t[i - j + y]); } }
pub proof fn lemma_tsuf_step(t: Seq<i32>, p: Seq<i32>, i: int, k: int) requires k >= 0, i >= 0, ensures tsuf(t, p, i + 1, k + 1) <==> (tsuf(t, p, i, k) && p[k] == t[i])
{ if tsuf(t, p, i + 1, k + 1) { assert(p[k] == t[i + 1 - (k + 1) + k]); assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == t[i - k + x] by { assert(p[x] == t[i + 1 - (k + 1) + x]); } }
  if tsuf(t, p, i, k) && p[k] == t[i] { assert forall|x: int| 0 <= x < k + 1 implies #[trigger] p[x] == t[i + 1 - (k + 1) + x] by {} } }
/// candidates still alive while looking for the border of the prefix of length i + 1
pub open spec fn cand(p: Seq<i32>, i: int, j: int) -> bool { forall|k: int| k >= 0 && #[trigger] border(p, i + 1, k + 1) ==> k <= j }
pub open spec fn tcand(t: Seq<i32>, p: Seq<i32>, m: int, i: int, j: int) -> bool { forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i + 1, k + 1) ==> k <= j }
pub proof fn lemma_pre_start(p: Seq<i32>, i: int, j: int) requires i >= 0, i >= 1 ==> longest(p, i, j), i == 0 ==> j == -1, ensures cand(p, i, j)
{ assert forall|k: int| k >= 0 && #[trigger] border(p, i + 1, k + 1) implies k <= j by { lemma_suf_step(p, i, k); assert(border(p, i, k)); } }
pub proof fn lemma_pre_fall(p: Seq<i32>, b: Seq<u64>, i: int, j: int)
    requires 0 <= j < i < u64::MAX, table(p, b, i), border(p, i, j), cand(p, i, j), p[i] != p[j],
    ensures cand(p, i, sj(b[j])), j >= 1 ==> border(p, i, b[j] as int) && b[j] < j,
{
    if j >= 1 { assert(longest(p, j, b[j] as int)); lemma_suf_trans(p, i, j, b[j] as int); }
    assert forall|k: int| k >= 0 && #[trigger] border(p, i + 1, k + 1) implies k <= sj(b[j]) by { lemma_suf_step(p, i, k); assert(k != j); lemma_suf_sub(p, i, k, j); assert(border(p, j, k)); }
}
pub proof fn lemma_pre_done(p: Seq<i32>, i: int, j: int) requires i >= 0, cand(p, i, j), j >= -1, j >= 0 ==> border(p, i, j) && p[i] == p[j], ensures longest(p, i + 1, j + 1)
{ if j >= 0 { lemma_suf_step(p, i, j); } assert(border(p, i + 1, j + 1));
  assert forall|q: int| #[trigger] border(p, i + 1, q) implies q <= j + 1 by { if q >= 1 { let k = q - 1; assert(border(p, i + 1, k + 1)); } } }
/// j is the longest prefix of the pattern shorter than m that ends at position i of the text
pub open spec fn tlong(t: Seq<i32>, p: Seq<i32>, m: int, i: int, j: int) -> bool { tsuf(t, p, i, j) && j < m && forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i, k) ==> k <= j }
pub proof fn lemma_s_start(t: Seq<i32>, p: Seq<i32>, m: int, i: int, j: int) requires i >= 0, tlong(t, p, m, i, j), ensures tcand(t, p, m, i, j)
{ assert forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i + 1, k + 1) implies k <= j by { lemma_tsuf_step(t, p, i, k); assert(tsuf(t, p, i, k)); } }
pub proof fn lemma_s_fall(t: Seq<i32>, p: Seq<i32>, b: Seq<u64>, m: int, i: int, j: int)
    requires 0 <= j < m < u64::MAX, 0 <= i, table(p, b, m), tsuf(t, p, i, j), tcand(t, p, m, i, j), t[i] != p[j],
    ensures tcand(t, p, m, i, sj(b[j])), j >= 1 ==> tsuf(t, p, i, b[j] as int) && b[j] < j,
{
    if j >= 1 { assert(longest(p, j, b[j] as int)); lemma_tsuf_trans(t, p, i, j, b[j] as int); }
    assert forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i + 1, k + 1) implies k <= sj(b[j]) by { lemma_tsuf_step(t, p, i, k); assert(k != j); lemma_tsuf_sub(t, p, i, k, j); assert(border(p, j, k)); }
}
/// state after advancing: new i = i + 1, new j = j + 1 (possibly a full match)
pub proof fn lemma_s_done(t: Seq<i32>, p: Seq<i32>, b: Seq<u64>, n: int, m: int, i: int, j: int)
    requires 0 <= i < n, m >= 1, tcand(t, p, m, i, j), -1 <= j < m, j >= 0 ==> tsuf(t, p, i, j) && t[i] == p[j], table(p, b, m),
    ensures j + 1 == m ==> occ(t, n, p, m, i + 1 - m) && tlong(t, p, m, i + 1, b[m] as int) && b[m] < m, j + 1 < m ==> tlong(t, p, m, i + 1, j + 1) && !occ(t, n, p, m, i + 1 - m),
{
    if j >= 0 { lemma_tsuf_step(t, p, i, j); }
    assert(tsuf(t, p, i + 1, j + 1));
    if j + 1 == m {
        assert(longest(p, m, b[m] as int)); lemma_tsuf_trans(t, p, i + 1, m, b[m] as int);
        assert forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i + 1, k) implies k <= b[m] by { lemma_tsuf_sub(t, p, i + 1, k, m); assert(border(p, m, k)); }
    } else {
        assert forall|k: int| 0 <= k < m && #[trigger] tsuf(t, p, i + 1, k) implies k <= j + 1 by { if k >= 1 { let q = k - 1; assert(tsuf(t, p, i + 1, q + 1)); } }
        if occ(t, n, p, m, i + 1 - m) { let q = m - 1; assert(tsuf(t, p, i + 1, q + 1)); }
    }
}
/// log holds exactly the occurrences that start before `upto`, in increasing order, and the callback always wanted more
pub open spec fn logged(t: Seq<i32>, n: int, p: Seq<i32>, m: int, log: Seq<u64>, upto: int) -> bool {
    (forall|x: int| 0 <= x < log.len() ==> occ(t, n, p, m, #[trigger] log[x] as int) && log[x] < upto)
    && (forall|x: int, y: int| 0 <= x < y < log.len() ==> #[trigger] log[x] < #[trigger] log[y])
    && (forall|q: int| q < upto && #[trigger] occ(t, n, p, m, q) ==> log.contains(q as u64))
}
pub open spec fn wanted(log: Seq<u64>, k: int) -> bool { forall|x: int| 0 <= x < k ==> keep(#[trigger] log[x] as int) }
pub proof fn lemma_push_log(t: Seq<i32>, n: int, p: Seq<i32>, m: int, log: Seq<u64>, q: u64)
    requires logged(t, n, p, m, log, q as int), occ(t, n, p, m, q as int), ensures logged(t, n, p, m, log.push(q), q + 1)
{ let l2 = log.push(q); assert forall|k: int| k < q + 1 && #[trigger] occ(t, n, p, m, k) implies l2.contains(k as u64) by { if k < q { assert(log.contains(k as u64)); let z = choose|z: int| 0 <= z < log.len() && log[z] == k as u64; assert(l2[z] == k as u64); } else { assert(l2[log.len() as int] == q); } } }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator()" and obj is not None:
            return "report(%s, log)" % tr.exval(args[-1])
        return None


def units():
    cs = [Contract("kmp", "altruct::search::kmp_search", params=["t", "n", "p", "m", "callback"], targs=["const int *", "altruct::Cb"], extra=["log: &mut Vec<u64>"],
        requires=["n <= t@.len()", "m <= p@.len()", "n < 0x0fff_ffff_ffff_ffff", "m < 0x0fff_ffff_ffff_ffff", "old(log)@.len() == 0"],
        ensures=["m == 0 ==> r == 0 && final(log)@.len() == 0",
                 # every position reported is an occurrence; none before the last reported one is missing; the search goes on until the callback stops it
                 "m > 0 ==> exists|u: int| #[trigger] logged(t@, n as int, p@, m as int, final(log)@, u) && (u > n - m || (final(log)@.len() > 0 && u == final(log)@.last() + 1 && !keep(final(log)@.last() as int)))",
                 "m > 0 ==> wanted(final(log)@, final(log)@.len() - 1)",
                 "m > 0 ==> r == (if final(log)@.len() == 0 { n } else { final(log)@.last() })"],
        hints={
               "L0.begin": "proof { lemma_pre_start(P, $i as int, sj($j)); }", "L1.begin": "proof { lemma_pre_fall(P, b@, $i as int, $j as int); }",
               "L1.after": "proof { lemma_pre_done(P, $i as int, sj($j)); }", "L0.end": "proof { assert(longest(P, $i as int, b@[$i as int] as int)); }",
               "L2.begin": "proof { lemma_s_start(T, P, M, $i as int, $j as int); } let ghost i0 = $i as int; let ghost log0 = log@;", "L3.begin": "proof { lemma_s_fall(T, P, b@, M, $i as int, $j as int); }",
               "L3.after": "proof { lemma_s_done(T, P, b@, N, M, $i as int, sj($j)); assert forall|q: int| q < $i + 1 - M && #[trigger] occ(T, N, P, M, q) implies log@.contains(q as u64) by {} assert(logged(T, N, P, M, log@, $i + 1 - M)); if sj($j) + 1 == M { lemma_push_log(T, N, P, M, log@, ($i + 1 - M) as u64); } }",
               "L2.before": "proof { assert(tlong(T, P, M, 0, 0)); assert(logged(T, N, P, M, log@, 1 - M)); }",
               "L2.break": "proof { assert(logged(T, N, P, M, log@, log@.last() + 1)); }",
               "entry": "let ghost T = t@; let ghost P = p@; let ghost N = n as int; let ghost M = m as int; proof { assert(m > n ==> logged(t@, n as int, p@, m as int, log@, n - m + 1)); }",
               "exit": "proof { if m > 0 { if log@.len() > 0 && !keep(log@.last() as int) { assert(logged(t@, n as int, p@, m as int, log@, log@.last() + 1)); } else { assert(logged(t@, n as int, p@, m as int, log@, n - m + 1)); } } }"},
        loops={0: dict(invariant=["T == t@", "P == p@", "1 <= m <= n", "$i <= m", "b@.len() == m + 1", "table(P, b@, $i as int)", "b@[$i as int] == $j", "$i == 0 ==> sj($j) == -1", "$i >= 1 ==> longest(P, $i as int, $j as int)", "log@.len() == 0"], decreases="m - $i"),
               1: dict(invariant=["T == t@", "P == p@", "$i < m", "b@.len() == m + 1", "table(P, b@, $i as int)", "cand(P, $i as int, sj($j))", "sj($j) >= 0 ==> border(P, $i as int, $j as int)"], decreases="sj($j) + 1"),
               2: dict(invariant=["T == t@", "P == p@", "N == n", "M == m", "1 <= m <= n", "$i <= n", "b@.len() == m + 1", "table(P, b@, M)", "tlong(T, P, M, $i as int, $j as int)", "logged(T, N, P, M, log@, $i + 1 - M)", "wanted(log@, log@.len() as int)",
                                  "r == (if log@.len() == 0 { n } else { log@.last() })"],
                       decreases="n - $i"),
               3: dict(invariant=["T == t@", "P == p@", "N == n", "M == m", "$i < n", "b@.len() == m + 1", "table(P, b@, M)", "sj($j) < m", "tcand(T, P, M, $i as int, sj($j))", "sj($j) >= 0 ==> tsuf(T, P, $i as int, $j as int)"], decreases="sj($j) + 1")})]
    tu = "namespace altruct { struct Cb { bool operator()(size_t pos) const; };\ntemplate size_t search::kmp_search<const int*, Cb>(const int*, size_t, const int*, size_t, Cb); }\n"
    u = Unit("kmp", ["altruct/algorithm/search/kmp_search.h"], tu, cs, SPEC)
    u.type_map["altruct::Cb"] = "()"; u.type_map["Cb"] = "()"
    u.hooks.append(Hook())
    u.trusted.append("the callback is recorded and answers arbitrarily; its own effects are outside the contract")
    return [u]
