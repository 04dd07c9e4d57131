"""next_combination over iterators (combinatorics.h)"""
from unit import Unit, Contract
import ordel
MM = "altruct::math::"
SPEC = r"""
pub open spec fn asc(e: Seq<Oe>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> lt(#[trigger] e[i], #[trigger] e[j]) }
/// ascending from b to e
pub open spec fn ascr(v: Seq<Oe>, b: int, e: int) -> bool { forall|i: int, j: int| b <= i < j < e ==> lt(#[trigger] v[i], #[trigger] v[j]) }
/// any two are different
pub open spec fn dist(v: Seq<Oe>, b: int, e: int) -> bool { forall|i: int, j: int| b <= i < e && b <= j < e && i != j ==> lt(#[trigger] v[i], #[trigger] v[j]) || lt(v[j], v[i]) }
pub open spec fn plexat(a: Seq<Oe>, b: Seq<Oe>, k: int) -> bool { 0 <= k < a.len() && lt(a[k], b[k]) && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i] }
/// a is lexicographically smaller than b (same length)
pub open spec fn plex(a: Seq<Oe>, b: Seq<Oe>) -> bool { exists|k: int| #[trigger] plexat(a, b, k) }
pub open spec fn within(v: Seq<Oe>, b: int, e: int, x: Oe) -> bool { exists|j: int| b <= j < e && #[trigger] v[j] == x }
/// k of the elements of v[b..e), in ascending order
pub open spec fn comb(v: Seq<Oe>, b: int, e: int, k: int, c: Seq<Oe>) -> bool { c.len() == k && asc(c) && forall|i: int| 0 <= i < k ==> within(v, b, e, #[trigger] c[i]) }
/// p and q are inverse rearrangements of the indices, within [b, e)
pub open spec fn okp(p: Seq<int>, q: Seq<int>, n: int, b: int, e: int) -> bool { p.len() == n && q.len() == n && (forall|i: int| b <= i < e ==> b <= #[trigger] p[i] < e && q[p[i]] == i) && (forall|i: int| b <= i < e ==> b <= #[trigger] q[i] < e && p[q[i]] == i) && forall|i: int| 0 <= i < n && !(b <= i < e) ==> #[trigger] p[i] == i && q[i] == i }
/// v holds the elements of u in another order, within [b, e)
pub open spec fn rearr(v: Seq<Oe>, u: Seq<Oe>, p: Seq<int>, q: Seq<int>, b: int, e: int) -> bool { v.len() == u.len() && 0 <= b <= e <= u.len() && okp(p, q, u.len() as int, b, e) && forall|i: int| 0 <= i < u.len() ==> #[trigger] v[i] == u[p[i]] }
pub open spec fn rearranged(v: Seq<Oe>, u: Seq<Oe>, b: int, e: int) -> bool { exists|p: Seq<int>, q: Seq<int>| #[trigger] rearr(v, u, p, q, b, e) }
/// std::sort
#[verifier::external_body]
pub fn vec_sort(v: &mut Vec<Oe>, i: i64, j: i64) requires 0 <= i <= j <= old(v)@.len(),
    ensures rearranged(final(v)@, old(v)@, i as int, j as int), forall|s: int, t: int| i <= s < t < j ==> !lt(#[trigger] final(v)@[t], #[trigger] final(v)@[s]) { unimplemented!() }
pub proof fn lemma_id(v: Seq<Oe>, b: int, e: int) requires 0 <= b <= e <= v.len(), ensures rearranged(v, v, b, e)
{ let p = Seq::new(v.len(), |i: int| i); assert(rearr(v, v, p, p, b, e)); }
pub proof fn lemma_comp(w: Seq<Oe>, v: Seq<Oe>, u: Seq<Oe>, c: int, b: int, e: int) requires rearranged(v, u, b, e), rearranged(w, v, c, e), b <= c, ensures rearranged(w, u, b, e)
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearr(v, u, p, q, b, e); let (s, t) = choose|s: Seq<int>, t: Seq<int>| #[trigger] rearr(w, v, s, t, c, e);
    let x = Seq::new(u.len(), |i: int| p[s[i]]); let y = Seq::new(u.len(), |i: int| t[q[i]]);
    assert forall|i: int| b <= i < e implies b <= #[trigger] x[i] < e && y[x[i]] == i by { assert(b <= s[i] < e && t[s[i]] == i); assert(q[p[s[i]]] == s[i]); }
    assert forall|i: int| b <= i < e implies b <= #[trigger] y[i] < e && x[y[i]] == i by { assert(b <= q[i] < e && p[q[i]] == i); let j = q[i]; if j < c { assert(s[j] == j); } else { assert(c <= t[j] < e); } assert(b <= t[j] < e && s[t[j]] == j); }
    assert forall|i: int| 0 <= i < u.len() && !(b <= i < e) implies #[trigger] x[i] == i && y[i] == i by { assert(s[i] == i && t[i] == i && p[i] == i && q[i] == i); }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] w[i] == u[x[i]] by { assert(0 <= s[i] < u.len()); assert(v[s[i]] == u[p[s[i]]]); }
    assert(rearr(w, u, x, y, b, e));
}
pub proof fn lemma_swap(w: Seq<Oe>, v: Seq<Oe>, u: Seq<Oe>, i: int, j: int, b: int, e: int) requires rearranged(v, u, b, e), b <= i < e, b <= j < e, w == v.update(i, v[j]).update(j, v[i]), ensures rearranged(w, u, b, e)
{ let p = Seq::new(v.len(), |k: int| if k == i { j } else if k == j { i } else { k }); assert(rearr(w, v, p, p, b, e)); lemma_comp(w, v, u, b, b, e); }
/// the same elements: distinctness and membership carry over
pub proof fn lemma_re(v: Seq<Oe>, u: Seq<Oe>, b: int, e: int) requires rearranged(v, u, b, e), dist(u, b, e), ensures dist(v, b, e), forall|x: Oe| within(u, b, e, x) ==> #[trigger] within(v, b, e, x), v.len() == u.len()
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearr(v, u, p, q, b, e);
    assert forall|i: int, j: int| b <= i < e && b <= j < e && i != j implies lt(#[trigger] v[i], #[trigger] v[j]) || lt(v[j], v[i]) by { assert(q[p[i]] == i && q[p[j]] == j); assert(v[i] == u[p[i]] && v[j] == u[p[j]]); }
    assert forall|x: Oe| within(u, b, e, x) implies #[trigger] within(v, b, e, x) by { let j = choose|j: int| b <= j < e && #[trigger] u[j] == x; assert(b <= q[j] < e && p[q[j]] == j); assert(v[q[j]] == x); }
}
pub proof fn lemma_out(v: Seq<Oe>, u: Seq<Oe>, b: int, e: int) requires rearranged(v, u, b, e), ensures forall|j: int| 0 <= j < v.len() && !(b <= j < e) ==> #[trigger] v[j] == u[j], v.len() == u.len()
{ let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearr(v, u, p, q, b, e); assert forall|j: int| 0 <= j < v.len() && !(b <= j < e) implies #[trigger] v[j] == u[j] by { assert(p[j] == j); } }
pub proof fn lemma_tr(a: Oe, b: Oe, c: Oe) ensures lt(a, b) && lt(b, c) ==> lt(a, c), !lt(a, b) && lt(a, c) ==> lt(b, c), !lt(a, a), lt(a, b) ==> !lt(b, a)
{ ax_asym(a, b); ax_asym(b, c); ax_negtrans(a, c, b); ax_negtrans(a, b, c); ax_asym(a, a); ax_negtrans(b, a, c); ax_asym(a, c); ax_negtrans(a, c, b); ax_negtrans(c, b, a); ax_negtrans(b, c, a); }
/// no combination above a agrees with it beyond the first w elements
pub open spec fn only(v0: Seq<Oe>, b: int, m: int, e: int, w: int) -> bool { forall|c: Seq<Oe>, u: int| #[trigger] comb(v0, b, e, m - b, c) && #[trigger] plexat(v0.subrange(b, m), c, u) ==> u < w }
/// those that differ at w first are at least v there
pub open spec fn least(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int, w: int, t: int) -> bool { forall|c: Seq<Oe>, i: int| #[trigger] comb(v0, b, e, m - b, c) && plexat(v0.subrange(b, m), c, w - b) && w <= i < t ==> !lt(#[trigger] c[i - b], v[i]) }
/// the smallest element beyond the last chosen one is a lower bound for every combination, and there has to be one
pub proof fn lemma_grow(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int, w: int, t: int, rd: int)
    requires 0 <= b <= w <= t < m <= e, t <= rd <= e <= v.len(), rearranged(v, v0, b, e), dist(v0, b, e), forall|j: int| b <= j < w ==> #[trigger] v[j] == v0[j], t == w ==> v[w] == v0[w], ascr(v, w, t),
        least(v0, v, b, m, e, w, t), forall|j: int| t <= j < rd ==> !lt(v[if t == w { w } else { t - 1 }], #[trigger] v[j]), ascr(v, if t == w { t + 1 } else { t }, e), rd < e ==> lt(v[if t == w { w } else { t - 1 }], v[rd]),
    ensures forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) && plexat(v0.subrange(b, m), c, w - b) ==> rd < e && !lt(c[t - b], v[rd])
{
    lemma_re(v, v0, b, e);
    let a = v0.subrange(b, m); let cm = if t == w { w } else { t - 1 };
    assert forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) && plexat(a, c, w - b) implies rd < e && !lt(c[t - b], v[rd]) by {
        let x = c[t - b]; assert(within(v0, b, e, x)); assert(within(v, b, e, x)); let j = choose|j: int| b <= j < e && #[trigger] v[j] == x;
        if t == w { assert(a[w - b] == v0[w]); } else { let y = c[t - 1 - b]; assert(lt(y, x)); assert(!lt(y, v[t - 1])) by { assert(c[(t - 1) - b] == y); } lemma_tr(y, v[t - 1], x); }
        assert(lt(v[cm], x)); lemma_tr(x, x, x);
        if j < w { assert(a[j - b] == v0[j]); assert(c[j - b] == x); }
        else if j < t { if j < cm { assert(lt(v[j], v[cm])); lemma_tr(v[j], v[cm], x); } }
        else if j >= rd { if j > rd { assert(rd > w) by { if rd == w { lemma_tr(v[w], v[w], v[w]); } } assert(lt(v[rd], v[j])); lemma_tr(v[rd], x, x); } }
    }
}
pub open spec fn is_next(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int) -> bool { let (x, y) = (v0.subrange(b, m), v.subrange(b, m)); comb(v0, b, e, m - b, y) && plex(x, y) && forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) && plex(x, c) ==> !plex(c, y) }
pub open spec fn is_last(v0: Seq<Oe>, b: int, m: int, e: int) -> bool { forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) ==> !plex(v0.subrange(b, m), c) }
pub open spec fn is_first(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int) -> bool { comb(v0, b, e, m - b, v.subrange(b, m)) && forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) ==> !plex(c, v.subrange(b, m)) }
pub proof fn lemma_member(v: Seq<Oe>, u: Seq<Oe>, b: int, e: int) requires rearranged(v, u, b, e), ensures forall|j: int| b <= j < e ==> within(u, b, e, #[trigger] v[j])
{ let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearr(v, u, p, q, b, e); assert forall|j: int| b <= j < e implies within(u, b, e, #[trigger] v[j]) by { assert(b <= p[j] < e); assert(u[p[j]] == v[j]); } }
pub proof fn lemma_next(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int, w: int)
    requires 0 <= b <= w < m <= e <= v.len(), rearranged(v, v0, b, e), dist(v0, b, e), ascr(v0, b, m), forall|j: int| b <= j < w ==> #[trigger] v[j] == v0[j], lt(v0[w], v[w]), ascr(v, w, m), least(v0, v, b, m, e, w, m), only(v0, b, m, e, w - b + 1), ensures is_next(v0, v, b, m, e)
{
    let (x, y) = (v0.subrange(b, m), v.subrange(b, m)); lemma_member(v, v0, b, e); lemma_out(v, v0, b, e);
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies lt(#[trigger] y[i], #[trigger] y[j]) by { let (s, t) = (b + i, b + j); if s < w { assert(v[s] == v0[s]); assert(lt(v0[s], v0[w])); lemma_tr(v0[s], v0[w], v[w]); if t < w { assert(v[t] == v0[t]); } else if t > w { assert(lt(v[w], v[t])); lemma_tr(v0[s], v[w], v[t]); } } }
    assert(plexat(x, y, w - b)) by { assert forall|i: int| 0 <= i < w - b implies #[trigger] x[i] == y[i] by { assert(v[b + i] == v0[b + i]); } }
    assert forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) && plex(x, c) implies !plex(c, y) by {
        let u = choose|u: int| #[trigger] plexat(x, c, u); assert(u <= w - b);
        if plex(c, y) { let z = choose|z: int| #[trigger] plexat(c, y, z); lemma_tr(c[z], c[z], c[z]); lemma_tr(c[z], y[z], y[z]); lemma_tr(x[u], c[u], c[u]); lemma_tr(y[z], y[z], y[z]); lemma_tr(x[u], x[u], x[u]);
            if z < u { assert(x[z] == c[z]); assert(x[z] == y[z]); }
            else if u < w - b { assert(x[u] == y[u]); if z > u { assert(c[u] == y[u]); } }
            else if z < w - b { assert(c[z] == x[z]); assert(x[z] == y[z]); } else { assert(!lt(c[(z + b) - b], v[z + b])); } }
    }
}
pub proof fn lemma_first(v0: Seq<Oe>, v: Seq<Oe>, b: int, m: int, e: int) requires 0 <= b <= m <= e <= v.len(), rearranged(v, v0, b, e), dist(v0, b, e), ascr(v, b, e) || b == m, ensures is_first(v0, v, b, m, e)
{
    let y = v.subrange(b, m); lemma_member(v, v0, b, e); lemma_re(v, v0, b, e);
    assert forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) implies !plex(c, y) by {
        if plex(c, y) { let z = choose|z: int| #[trigger] plexat(c, y, z); let x = c[z]; assert(within(v0, b, e, x)); assert(within(v, b, e, x)); let j = choose|j: int| b <= j < e && #[trigger] v[j] == x; lemma_tr(x, x, x); lemma_tr(x, y[z], x);
            if j < b + z { assert(y[j - b] == c[j - b]); assert(lt(c[j - b], c[z])); } else if j > b + z { assert(lt(v[b + z], v[j])); } }
    }
}
pub proof fn lemma_last(v0: Seq<Oe>, b: int, m: int, e: int) requires only(v0, b, m, e, 0), ensures is_last(v0, b, m, e)
{ assert forall|c: Seq<Oe>| #[trigger] comb(v0, b, e, m - b, c) implies !plex(v0.subrange(b, m), c) by { if plex(v0.subrange(b, m), c) { let u = choose|u: int| #[trigger] plexat(v0.subrange(b, m), c, u); } } }
/// ascending after an exchange with the first larger element, but for the place of the exchanged one
pub open spec fn but(v: Seq<Oe>, b: int, e: int, r: int) -> bool { forall|i: int, j: int| b <= i < j < e && i != r && j != r ==> lt(#[trigger] v[i], #[trigger] v[j]) }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "sort" and len(args) == 2 and stmt:
            b1, o1 = tr.ptr(args[0]); b2, o2 = tr.ptr(args[1])
            return ["{", "let si: i64 = %s; let sj: i64 = %s; vec_sort(%s, si, sj);" % (o1, o2, b1.base), "}"]
        return None


def units():
    tu = "namespace altruct { namespace math { typedef Oe* It; template bool next_combination<It>(It, It, It); } }\n"
    V0, V1 = "old(v)@", "final(v)@"
    R = "begin as int, mid as int, end as int"
    INV = ["0 <= begin <= mid <= end <= v@.len()", "v@.len() < 0x1000_0000_0000_0000", "rearranged(v@, v0, begin as int, end as int)", "dist(v0, begin as int, end as int)", "ascr(v0, begin as int, mid as int)", "v@.len() == v0.len()", "v0 == old(v)@"]
    CM = "(if $wr == $cur { $cur as int } else { $wr - 1 })"
    LO = "(if $wr == $cur { $cur + 1 } else { $wr as int })"
    PRE = ["begin <= $cur <= $wr <= mid", "$cur < mid", "forall|j: int| begin <= j < $cur ==> #[trigger] v@[j] == v0[j]", "only(v0, %s, $cur - begin + 1)" % R]
    IN = PRE + ["$cmp == " + CM, "$wr == $cur ==> v@[$cur as int] == v0[$cur as int]", "$wr > $cur ==> lt(v0[$cur as int], v@[$cur as int])", "ascr(v@, $cur as int, $wr as int)", "ascr(v@, %s, end as int)" % LO, "least(v0, v@, %s, $cur as int, $wr as int)" % R]
    FOUND = PRE + ["$wr < mid", "$wr <= $rd < end", "$rd == $wr ==> $wr > $cur", "lt(v0[$cur as int], v@[$cur as int])", "ascr(v@, $cur as int, $wr + 1)", "least(v0, v@, %s, $cur as int, $wr + 1)" % R, "but(v@, $wr + 1, end as int, $rd as int)", "forall|t: int| $rd < t < end ==> lt(v@[$rd as int], #[trigger] v@[t])"]
    c = Contract("next_combination", MM + "next_combination", rlimit=80, isolation=True, params=["begin", "mid", "end"], modes={"begin": "ptr:v", "mid": "ptr:v", "end": "ptr:v"},
        requires=["0 <= begin <= mid <= end <= %s.len()" % V0, "%s.len() < 0x1000_0000_0000_0000" % V0, "dist(%s, begin as int, end as int)" % V0, "ascr(%s, begin as int, mid as int)" % V0, "ascr(%s, mid as int, end as int)" % V0],
        ensures=["rearranged(%s, %s, begin as int, end as int)" % (V1, V0), "ascr(%s, mid as int, end as int)" % V1, "r ==> is_next(%s, %s, %s)" % (V0, V1, R), "!r ==> is_last(%s, %s) && is_first(%s, %s, %s)" % (V0, R, V0, V1, R)],
        loops={0: dict(invariant=INV + ["begin <= $cur <= mid", "forall|j: int| begin <= j < $cur ==> #[trigger] v@[j] == v0[j]", "ascr(v@, $cur as int, end as int)", "only(v0, %s, $cur - begin)" % R], decreases="$cur - begin"),
               1: dict(invariant_except_break=INV + IN, ensures=INV + PRE + ["$wr == mid ==> lt(v0[$cur as int], v@[$cur as int]) && ascr(v@, $cur as int, mid as int) && ascr(v@, mid as int, end as int) && least(v0, v@, %s, $cur as int, mid as int)" % R, "$wr < mid ==> ascr(v@, $cur as int, end as int) && only(v0, %s, $cur - begin)" % R], decreases="mid - $wr"),
               2: dict(invariant=INV + IN + ["$wr < mid", "$wr <= $rd <= end", "forall|j: int| $wr <= j < $rd ==> !lt(v@[%s], #[trigger] v@[j])" % CM], decreases="end - $rd"),
               3: dict(invariant_except_break=INV + FOUND + ["$next == $rd"], ensures=INV + FOUND + ["$rd > $wr + 1 ==> !lt(v@[$rd as int], v@[$rd - 1])"], decreases="$rd - $wr"),
               4: dict(invariant_except_break=INV + FOUND + ["$next == $rd", "ascr(v@, $wr + 1, end as int)"], ensures=INV + FOUND + ["ascr(v@, $wr + 1, end as int)"], decreases="end - $rd")},
        hints={"entry": "let ghost v0 = v@; let ghost mut vb = v@; proof { lemma_id(v@, begin as int, end as int); }",
               "L2.after": "proof { vb = v@; lemma_grow(v0, v@, begin as int, mid as int, end as int, $cur as int, $wr as int, $rd as int); }",
               "L3.before": "proof { assert(v@ =~= vb.update($wr as int, vb[$rd as int]).update($rd as int, vb[$wr as int])); lemma_swap(v@, vb, v0, $wr as int, $rd as int, begin as int, end as int); let (w, r) = ($wr as int, $rd as int); lemma_tr(vb[w], vb[w], vb[w]); assert forall|i: int| $cur <= i < w implies lt(#[trigger] v@[i], v@[w]) by { if i < w - 1 { assert(lt(vb[i], vb[w - 1])); lemma_tr(vb[i], vb[w - 1], vb[r]); } } assert forall|t: int| r < t < end implies lt(v@[r], #[trigger] v@[t]) by { assert(lt(vb[r], vb[t])); lemma_tr(vb[w], vb[r], vb[t]); } assert forall|c: Seq<Oe>, i: int| #[trigger] comb(v0, begin as int, end as int, mid - begin, c) && plexat(v0.subrange(begin as int, mid as int), c, $cur - begin) && $cur <= i < w + 1 implies !lt(#[trigger] c[i - begin], v@[i]) by { if i < w { assert(v@[i] == vb[i]); } } }",
               "L3.begin": "proof { vb = v@; lemma_tr(v@[$rd as int], v@[$next as int], v@[$rd as int]); assert($rd > $wr); }",
               "L3.end": "proof { let r = $next as int; assert(v@ =~= vb.update(r, vb[r + 1]).update(r + 1, vb[r])); lemma_swap(v@, vb, v0, r, r + 1, begin as int, end as int); assert forall|i: int, j: int| $wr + 1 <= i < j < end && i != r && j != r implies lt(#[trigger] v@[i], #[trigger] v@[j]) by { let (x, y) = (if i == r + 1 { r } else { i }, if j == r + 1 { r } else { j }); assert(lt(vb[x], vb[y])); } }",
               "L3.after": "proof { lemma_re(v@, v0, begin as int, end as int); let r = $rd as int; assert forall|i: int, j: int| $wr + 1 <= i < j < end implies lt(#[trigger] v@[i], #[trigger] v@[j]) by { if j == r { assert(lt(v@[r - 1], v@[r])); if i < r - 1 { assert(lt(v@[i], v@[r - 1])); lemma_tr(v@[i], v@[r - 1], v@[r]); } } } }",
               "L4.begin": "proof { let (r, t) = ($rd as int, $next as int); lemma_tr(v@[r], v@[t], v@[r]); assert(lt(v@[r], v@[t])); assert(false); }",
               "stmt:^break.before": "proof { lemma_comp(v@, vb, v0, $cur as int, begin as int, end as int); lemma_out(v@, vb, $cur as int, end as int); lemma_re(v@, v0, begin as int, end as int); assert(ascr(v@, $cur as int, end as int)); }",
               "stmt:^return true.before": "proof { lemma_next(v0, v@, begin as int, mid as int, end as int, $cur as int); }",
               "L0.after": "proof { lemma_first(v0, v@, begin as int, mid as int, end as int); lemma_last(v0, begin as int, mid as int, end as int); }"})
    u = Unit("nextcomb", ["altruct/algorithm/math/combinatorics.h"], tu, [c], SPEC)
    ordel.setup(u)
    u.uninit_ptr = True
    u.hooks.append(Hook())
    return [u]
