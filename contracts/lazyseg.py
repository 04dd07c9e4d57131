"""lazy segment tree over an arbitrary monoid with an arbitrary distributive action (lazy_segment_tree.h)"""
from unit import Unit, Contract
import elem
LT = "altruct::container::lazy_segment_tree<altruct::N,altruct::UpF,altruct::DownF>::"
SPEC = elem.FOLD + r"""
// ---------------------------------------------------------------- abstract nodes, actions, functors
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct N { v: i64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ac { v: i64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct UpdF { v: i64 }

#[verifier::external_body] pub fn any_N() -> N { N { v: 0 } }
pub uninterp spec fn val(x: N) -> El;
pub uninterp spec fn pend(x: N) -> Ac;
pub uninterp spec fn ida() -> Ac;
pub uninterp spec fn comp(a: Ac, b: Ac) -> Ac;
pub uninterp spec fn act(a: Ac, x: El) -> El;
/// elements an update never refuses (those of single positions)
pub uninterp spec fn sing(x: El) -> bool;
pub uninterp spec fn ua(f: UpdF) -> Ac;
#[verifier::external_body] pub proof fn ax_ida(x: El) ensures act(ida(), x) == x {}
#[verifier::external_body] pub proof fn ax_comp(a: Ac, b: Ac, x: El) ensures act(comp(a, b), x) == act(a, act(b, x)) {}
#[verifier::external_body] pub proof fn ax_comp_id(a: Ac) ensures comp(ida(), a) == a {}
#[verifier::external_body] pub proof fn ax_dist(a: Ac, x: El, y: El) ensures act(a, op(x, y)) == op(act(a, x), act(a, y)) {}
#[verifier::external_body] pub proof fn ax_sing(a: Ac, x: El) requires sing(x) ensures sing(act(a, x)) {}
#[verifier::external_body] pub proof fn ax_sing_one() ensures sing(one()) {}
#[verifier::external_body] pub fn n_up(p: N, l: N, r: N) -> (x: N) requires pend(p) == ida(), ensures val(x) == op(val(l), val(r)), pend(x) == ida() { p }
#[verifier::external_body] pub fn n_down(p: N, l: N, r: N) -> (x: (N, N, N))
    ensures val(x.0) == val(p), pend(x.0) == ida(), val(x.1) == act(pend(p), val(l)), pend(x.1) == comp(pend(p), pend(l)), val(x.2) == act(pend(p), val(r)), pend(x.2) == comp(pend(p), pend(r)) { (p, l, r) }
#[verifier::external_body] pub fn n_upd(f: &UpdF, x: &mut N) -> (b: bool)
    ensures b ==> val(*final(x)) == act(ua(*f), val(*old(x))) && pend(*final(x)) == comp(ua(*f), pend(*old(x))), !b ==> *final(x) == *old(x), sing(val(*old(x))) ==> b { true }
// ---------------------------------------------------------------- the implicit tree
pub open spec fn p2(n: int) -> bool decreases n { n == 1 || (n >= 2 && n % 2 == 0 && p2(n / 2)) }
pub proof fn lemma_p2(n: int) requires p2(n), ensures n >= 1, n == 1 || (n % 2 == 0 && p2(n / 2) && n / 2 * 2 == n) {}
/// j lies in the subtree of i
pub open spec fn insub(i: int, j: int) -> bool decreases j { j == i || (j > i && j > 0 && insub(i, j / 2)) }
/// a is a proper ancestor of j
pub open spec fn isanc(a: int, j: int) -> bool { a != j && insub(a, j) }
pub open spec fn topf(j: int) -> int decreases j { if j > 0 && j % 2 == 0 { topf(j / 2) } else { j } }
/// the ancestor of j in the row of i nodes starting at i
pub open spec fn upr(j: int, i: int) -> int decreases j { if i <= 0 || j < 2 * i { j } else { upr(j / 2, i) } }
pub proof fn lemma_insub_le(i: int, j: int) requires insub(i, j), 0 <= i, ensures i <= j, decreases j { if j != i { lemma_insub_le(i, j / 2); } }
pub proof fn lemma_insub_up(i: int, j: int) requires insub(i, j), 1 <= i, ensures insub(i / 2, j), decreases j
{ if j == i { assert(insub(i / 2, i / 2)); } else { lemma_insub_up(i, j / 2); } }
pub proof fn lemma_insub_trans(a: int, b: int, c: int) requires insub(a, b), insub(b, c), 0 <= a, ensures insub(a, c), decreases c
{ if c != b { lemma_insub_trans(a, b, c / 2); lemma_insub_le(a, b); lemma_insub_le(b, c / 2); } }
pub proof fn lemma_chain(i: int, j: int, t: int) requires insub(i, t), insub(j, t), 0 <= j <= i, ensures insub(j, i), decreases t
{ if t != i { lemma_insub_le(i, t); lemma_chain(i, j, t / 2); } }
pub proof fn lemma_insub_upr(x: int, i: int, j: int) requires 1 <= i <= x < 2 * i, j >= i, ensures insub(x, j) == (upr(j, i) == x), i <= upr(j, i) < 2 * i, decreases j
{ if j < 2 * i { if j > x && insub(x, j / 2) { lemma_insub_le(x, j / 2); } } else { lemma_insub_upr(x, i, j / 2); } }
pub proof fn lemma_upr_half(j: int, i: int) requires 2 <= i, i % 2 == 0, j >= i, ensures upr(j, i / 2) == upr(j, i) / 2, decreases j
{ if j < 2 * i { assert(upr(j / 2, i / 2) == j / 2); } else { lemma_upr_half(j / 2, i); } }
pub proof fn lemma_topf(j: int) requires j >= 1, ensures 1 <= topf(j) <= j, topf(j) % 2 == 1, insub(topf(j), j), decreases j
{ if j % 2 == 0 { lemma_topf(j / 2); } }
// ---------------------------------------------------------------- values seen through the pending actions
pub open spec fn okn(v: Seq<N>, j: int) -> bool { val(v[j]) == act(pend(v[j]), op(val(v[2 * j]), val(v[2 * j + 1]))) }
pub open spec fn clean(v: Seq<N>, j: int) -> bool decreases j { j <= 1 || (pend(v[j / 2]) == ida() && clean(v, j / 2)) }
pub open spec fn raise(v: Seq<N>, j: int, x: El) -> El decreases j { if j <= 1 { x } else { raise(v, j / 2, act(pend(v[j / 2]), x)) } }
pub open spec fn tv(v: Seq<N>, j: int) -> El { raise(v, j, val(v[j])) }
pub open spec fn T(v: Seq<N>) -> Seq<El> { Seq::new(v.len(), |j: int| if j == 0 { one() } else { tv(v, j) }) }
/// the array the tree stands for
pub open spec fn els(v: Seq<N>) -> Seq<El> { Seq::new((v.len() / 2) as nat, |k: int| tv(v, v.len() as int / 2 + k)) }
pub open spec fn shape(v: Seq<N>) -> bool { v.len() % 2 == 0 && p2(v.len() as int / 2) && v.len() < 0x1000_0000_0000_0000 && val(v[0]) == one() && pend(v[0]) == ida() }
pub open spec fn sings(v: Seq<N>) -> bool { forall|j: int| v.len() / 2 <= j < v.len() ==> #[trigger] sing(val(v[j])) }
pub open spec fn lz(v: Seq<N>) -> bool { shape(v) && sings(v) && forall|j: int| 1 <= j < v.len() / 2 ==> #[trigger] okn(v, j) }
/// nodes outside the subtree of s agree
pub open spec fn agree(v: Seq<N>, w: Seq<N>, s: int) -> bool { v.len() == w.len() && forall|j: int| 0 <= j < v.len() && !insub(s, j) ==> #[trigger] v[j] == w[j] }
pub proof fn lemma_raise_op(v: Seq<N>, j: int, x: El, y: El) ensures raise(v, j, op(x, y)) == op(raise(v, j, x), raise(v, j, y)), decreases j
{ if j > 1 { let p = pend(v[j / 2]); ax_dist(p, x, y); lemma_raise_op(v, j / 2, act(p, x), act(p, y)); } }
/// the real values form an ordinary segment tree
pub proof fn lemma_tree(v: Seq<N>, j: int) requires 1 <= j, 2 * j + 1 < v.len(), okn(v, j), ensures T(v)[j] == op(T(v)[2 * j], T(v)[2 * j + 1])
{ let p = pend(v[j]); let x = val(v[2 * j]); let y = val(v[2 * j + 1]); ax_dist(p, x, y); lemma_raise_op(v, j, act(p, x), act(p, y)); assert((2 * j) / 2 == j && (2 * j + 1) / 2 == j); }
pub proof fn lemma_clean_raise(v: Seq<N>, j: int, x: El) requires clean(v, j), ensures raise(v, j, x) == x, decreases j
{ if j > 1 { ax_ida(x); lemma_clean_raise(v, j / 2, x); } }
pub proof fn lemma_insub_down(s: int, j: int) requires insub(s, j / 2), s >= 1, j >= 0, ensures insub(s, j) { lemma_insub_le(s, j / 2); }
pub proof fn lemma_frame(v: Seq<N>, w: Seq<N>, s: int, j: int, x: El)
    requires agree(v, w, s), s >= 1, !insub(s, j / 2), 1 <= j < v.len(), ensures raise(v, j, x) == raise(w, j, x), clean(v, j) == clean(w, j), decreases j
{ if j > 1 { let a = j / 2; if insub(s, a / 2) { lemma_insub_down(s, a); } assert(v[a] == w[a]); lemma_frame(v, w, s, a, act(pend(v[a]), x)); } }
pub proof fn lemma_frame_pend(v: Seq<N>, w: Seq<N>, j: int, x: El)
    requires v.len() == w.len(), 1 <= j < v.len(), forall|a: int| 1 <= a <= j / 2 ==> pend(#[trigger] v[a]) == pend(w[a]), ensures raise(v, j, x) == raise(w, j, x), clean(v, j) == clean(w, j), decreases j
{ if j > 1 { assert(pend(v[j / 2]) == pend(w[j / 2])); lemma_frame_pend(v, w, j / 2, act(pend(v[j / 2]), x)); } }
// ---------------------------------------------------------------- pushing one node down
pub open spec fn pushed(v: Seq<N>, w: Seq<N>, i: int) -> bool {
    v.len() == w.len() && 1 <= i && 2 * i + 1 < v.len() && (forall|j: int| 0 <= j < v.len() && j != i && j != 2 * i && j != 2 * i + 1 ==> #[trigger] w[j] == v[j])
    && val(w[i]) == val(v[i]) && pend(w[i]) == ida() && val(w[2 * i]) == act(pend(v[i]), val(v[2 * i])) && pend(w[2 * i]) == comp(pend(v[i]), pend(v[2 * i]))
    && val(w[2 * i + 1]) == act(pend(v[i]), val(v[2 * i + 1])) && pend(w[2 * i + 1]) == comp(pend(v[i]), pend(v[2 * i + 1])) }
pub proof fn lemma_push_raise(v: Seq<N>, w: Seq<N>, i: int, j: int, x: El)
    requires pushed(v, w, i), 1 <= j < v.len(), ensures (if j / 2 == i { raise(w, j, act(pend(v[i]), x)) == raise(v, j, x) } else { raise(w, j, x) == raise(v, j, x) }), decreases j
{
    if j > 1 {
        let a = j / 2; let p = pend(v[i]);
        if a == i { ax_ida(act(p, x)); lemma_push_raise(v, w, i, i, act(p, x)); }
        else if a / 2 == i { ax_comp(p, pend(v[a]), x); lemma_push_raise(v, w, i, a, act(pend(v[a]), x)); }
        else { lemma_push_raise(v, w, i, a, act(pend(v[a]), x)); }
    }
}
pub proof fn lemma_push_clean(v: Seq<N>, w: Seq<N>, i: int, j: int) requires pushed(v, w, i), clean(v, j), 1 <= j < v.len(), ensures clean(w, j), decreases j
{ if j > 1 { let a = j / 2; lemma_push_clean(v, w, i, a); if a / 2 == i && a != i { ax_comp_id(pend(v[a])); } } }
/// what pushing never changes
pub open spec fn same(v: Seq<N>, w: Seq<N>) -> bool {
    v.len() == w.len() && w[0] == v[0] && T(w) == T(v) && (sings(v) ==> sings(w)) && (forall|j: int| 1 <= j < v.len() / 2 && okn(v, j) ==> #[trigger] okn(w, j)) && (forall|j: int| 0 <= j < v.len() && clean(v, j) ==> #[trigger] clean(w, j)) }
pub proof fn lemma_push(v: Seq<N>, w: Seq<N>, i: int) requires pushed(v, w, i), v.len() % 2 == 0, ensures same(v, w)
{
    let p = pend(v[i]);
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] T(w)[j] == T(v)[j] by { if j > 0 { lemma_push_raise(v, w, i, j, val(v[j])); } }
    assert(T(w) =~= T(v));
    assert forall|j: int| 1 <= j < v.len() / 2 && okn(v, j) implies #[trigger] okn(w, j) by {
        let x = val(v[2 * j]); let y = val(v[2 * j + 1]);
        if j == i { ax_dist(p, x, y); ax_ida(op(act(p, x), act(p, y))); }
        else if j == 2 * i || j == 2 * i + 1 { ax_comp(p, pend(v[j]), op(x, y)); }
    }
    assert forall|j: int| 0 <= j < v.len() && clean(v, j) implies #[trigger] clean(w, j) by { if j > 0 { lemma_push_clean(v, w, i, j); } }
    if sings(v) { assert forall|j: int| v.len() / 2 <= j < v.len() implies #[trigger] sing(val(w[j])) by { assert(sing(val(v[j]))); ax_sing(p, val(v[j])); } }
}
// ---------------------------------------------------------------- updating one whole subtree
pub proof fn lemma_upd_raise(v: Seq<N>, w: Seq<N>, i: int, j: int, u: Ac, x: El)
    requires 1 <= i < j < v.len(), insub(i, j), clean(v, i), v.len() == w.len(), pend(w[i]) == comp(u, pend(v[i])), forall|a: int| 0 <= a < v.len() && a != i ==> #[trigger] w[a] == v[a],
    ensures raise(w, j, x) == act(u, raise(v, j, x)), decreases j
{
    let a = j / 2;
    if a == i { ax_comp(u, pend(v[i]), x); lemma_frame_pend(v, w, i, x); lemma_clean_raise(v, i, act(pend(v[i]), x)); lemma_clean_raise(w, i, act(pend(w[i]), x)); }
    else { lemma_insub_le(i, a); lemma_upd_raise(v, w, i, a, u, act(pend(v[a]), x)); }
}
pub open spec fn updated(v: Seq<N>, w: Seq<N>, i: int, u: Ac) -> bool {
    agree(v, w, i) && sings(w) && (forall|j: int| 1 <= j < v.len() / 2 && insub(i, j) ==> #[trigger] okn(w, j)) && val(w[i]) == act(u, val(v[i]))
    && (forall|j: int| v.len() / 2 <= j < v.len() && insub(i, j) ==> #[trigger] tv(w, j) == act(u, tv(v, j))) }
pub open spec fn can_upd(v: Seq<N>, i: int) -> bool { 1 <= i < v.len() && v.len() % 2 == 0 && v.len() < 0x1000_0000_0000_0000 && clean(v, i) && sings(v) && forall|j: int| 1 <= j < v.len() / 2 && insub(i, j) ==> #[trigger] okn(v, j) }
pub proof fn lemma_upd_whole(v: Seq<N>, w: Seq<N>, i: int, u: Ac)
    requires can_upd(v, i), v.len() == w.len(), val(w[i]) == act(u, val(v[i])), pend(w[i]) == comp(u, pend(v[i])), forall|a: int| 0 <= a < v.len() && a != i ==> #[trigger] w[a] == v[a],
    ensures updated(v, w, i, u),
{
    assert(insub(i, i));
    assert forall|j: int| v.len() / 2 <= j < v.len() implies #[trigger] sing(val(w[j])) by { assert(sing(val(v[j]))); if j == i { ax_sing(u, val(v[i])); } }
    assert forall|j: int| 1 <= j < v.len() / 2 && insub(i, j) implies #[trigger] okn(w, j) by { assert(okn(v, j)); lemma_insub_le(i, j); if j == i { ax_comp(u, pend(v[i]), op(val(v[2 * i]), val(v[2 * i + 1]))); } }
    assert forall|j: int| v.len() / 2 <= j < v.len() && insub(i, j) implies #[trigger] tv(w, j) == act(u, tv(v, j)) by {
        lemma_insub_le(i, j);
        if j == i { lemma_frame_pend(v, w, i, val(v[i])); lemma_clean_raise(v, i, val(v[i])); lemma_clean_raise(w, i, val(w[i])); } else { lemma_upd_raise(v, w, i, j, u, val(v[j])); }
    }
}
pub proof fn lemma_can(v: Seq<N>, a: Seq<N>, i: int, c: int) requires can_upd(v, i), pushed(v, a, i), same(v, a), c == 2 * i || c == 2 * i + 1, ensures can_upd(a, c)
{
    assert(clean(a, i)); assert(c / 2 == i);
    assert forall|j: int| 1 <= j < a.len() / 2 && insub(c, j) implies #[trigger] okn(a, j) by { assert(insub(i, i)); assert(insub(i, c)); lemma_insub_trans(i, c, j); assert(okn(v, j)); }
}
pub proof fn lemma_can2(a: Seq<N>, b: Seq<N>, i: int, u: Ac) requires 1 <= i, can_upd(a, 2 * i), can_upd(a, 2 * i + 1), updated(a, b, 2 * i, u), ensures can_upd(b, 2 * i + 1)
{
    let r = 2 * i + 1; assert(!insub(2 * i, i)); assert(r / 2 == i);
    lemma_frame(a, b, 2 * i, r, one());
    assert forall|j: int| 1 <= j < b.len() / 2 && insub(r, j) implies #[trigger] okn(b, j) by { lemma_insub_le(r, j); lemma_child(r, j); lemma_disj(i, j); lemma_disj(i, 2 * j); lemma_disj(i, 2 * j + 1); assert(okn(a, j)); assert(b[j] == a[j]); assert(b[2 * j] == a[2 * j]); assert(b[2 * j + 1] == a[2 * j + 1]); }
}
/// v --push i--> a --update 2i--> b --update 2i+1--> c --recompute i--> d
pub proof fn lemma_upd_split(v: Seq<N>, a: Seq<N>, b: Seq<N>, c: Seq<N>, d: Seq<N>, i: int, u: Ac)
    requires can_upd(v, i), pushed(v, a, i), same(v, a), updated(a, b, 2 * i, u), updated(b, c, 2 * i + 1, u), c.len() == d.len(), forall|j: int| 0 <= j < c.len() && j != i ==> #[trigger] d[j] == c[j],
        val(d[i]) == op(val(c[2 * i]), val(c[2 * i + 1])), pend(d[i]) == ida(), pend(c[i]) == ida(),
    ensures updated(v, d, i, u),
{
    let l = 2 * i; let r = 2 * i + 1; let h = v.len() as int / 2;
    assert(insub(i, l) && insub(i, r)) by { assert(insub(i, i)); assert(l / 2 == i && r / 2 == i); }
    assert(!insub(l, r)) by { if insub(l, r / 2) { lemma_insub_le(l, r / 2); } }
    assert(!insub(r, l));
    assert forall|j: int| 0 <= j < v.len() && !insub(i, j) implies #[trigger] v[j] == d[j] by {
        if insub(l, j) { lemma_insub_trans(i, l, j); } if insub(r, j) { lemma_insub_trans(i, r, j); } assert(a[j] == v[j]); assert(a[j] == b[j]); assert(b[j] == c[j]); assert(insub(i, i)); }
    // each proper descendant of i lies below exactly one child
    assert forall|j: int| 1 <= j < v.len() && #[trigger] insub(i, j) && j != i implies (insub(l, j) != insub(r, j)) by { lemma_split(i, j); }
    assert(!insub(r, i)); assert(!insub(l, i));
    assert(val(b[l]) == act(u, val(a[l]))); assert(c[l] == b[l]); assert(b[r] == a[r]);
    assert(okn(a, i)) by { assert(insub(i, i)); assert(okn(v, i)); }
    ax_ida(op(val(a[l]), val(a[r]))); ax_dist(u, val(a[l]), val(a[r])); 
    assert(val(d[i]) == act(u, val(v[i])));
    assert forall|j: int| 1 <= j < h && insub(i, j) implies #[trigger] okn(d, j) by {
        if j == i { ax_ida(op(val(d[l]), val(d[r]))); }
        else {
            lemma_insub_le(i, j); lemma_split(i, j);
            if insub(l, j) { assert(okn(b, j)); lemma_child(l, j); lemma_disj(i, j); lemma_disj(i, 2 * j); lemma_disj(i, 2 * j + 1); assert(c[j] == b[j]); assert(c[2 * j] == b[2 * j]); assert(c[2 * j + 1] == b[2 * j + 1]); }
            else { assert(okn(c, j)); }
        }
    }
    assert forall|j: int| h <= j < v.len() implies #[trigger] sing(val(d[j])) by { assert(sing(val(c[j]))); assert(d[j] == c[j]); }
    assert forall|j: int| h <= j < v.len() && insub(i, j) implies #[trigger] tv(d, j) == act(u, tv(v, j)) by {
        lemma_insub_le(i, j); lemma_split(i, j);
        assert(tv(a, j) == tv(v, j)) by { assert(T(a)[j] == T(v)[j]); }
        lemma_frame_pend(c, d, j, val(c[j])); 
        lemma_disj(i, j);
        if insub(l, j) { assert(c[j] == b[j]); if insub(r, j / 2) { lemma_insub_down(r, j); } lemma_frame(b, c, r, j, val(b[j])); assert(tv(b, j) == act(u, tv(a, j))); }
        else { assert(b[j] == a[j]); if insub(l, j / 2) { lemma_insub_down(l, j); } lemma_frame(a, b, l, j, val(a[j])); assert(tv(c, j) == act(u, tv(b, j))); }
    }
}
pub proof fn lemma_split(i: int, j: int) requires insub(i, j), i < j, 1 <= i, ensures insub(2 * i, j) != insub(2 * i + 1, j), decreases j
{
    if j / 2 == i { assert(j == 2 * i || j == 2 * i + 1); if j == 2 * i + 1 { assert(!insub(2 * i, i)); } }
    else { lemma_insub_le(i, j / 2); lemma_split(i, j / 2); if insub(2 * i, j / 2) { lemma_insub_le(2 * i, j / 2); } else { lemma_insub_le(2 * i + 1, j / 2); } }
}
pub proof fn lemma_child(i: int, j: int) requires insub(i, j), 1 <= i, ensures insub(i, 2 * j), insub(i, 2 * j + 1) { lemma_insub_le(i, j); assert((2 * j) / 2 == j && (2 * j + 1) / 2 == j); }
pub proof fn lemma_disj(i: int, j: int) requires 1 <= i, 1 <= j, ensures !(insub(2 * i, j) && insub(2 * i + 1, j))
{ if insub(2 * i, j) && insub(2 * i + 1, j) { lemma_insub_up(2 * i, j); lemma_insub_le(2 * i, j); lemma_split(i, j); } }
// ---------------------------------------------------------------- rows
pub open spec fn sok(t: Seq<El>, j: int) -> bool { t[j] == op(t[2 * j], t[2 * j + 1]) }
pub proof fn lemma_up(v: Seq<El>, i: int, b: int, e: int)
    requires 1 <= i, 0 <= b, forall|j: int| i + b <= j < i + e ==> #[trigger] sok(v, j),
    ensures fold(v, 2 * i + 2 * b, 2 * i + 2 * e) == fold(v, i + b, i + e), decreases e - b,
{
    if b < e {
        lemma_up(v, i, b, e - 1);
        let k = 2 * i + 2 * e;
        assert(sok(v, i + e - 1));
        let f = fold(v, 2 * i + 2 * b, k - 2);
        assert(fold(v, 2 * i + 2 * b, k - 1) == op(f, v[k - 2]));
        assert(fold(v, 2 * i + 2 * b, k) == op(op(f, v[k - 2]), v[k - 1]));
        ax_assoc(f, v[k - 2], v[k - 1]);
        assert(2 * (i + e - 1) == k - 2);
    }
}
pub proof fn lemma_els_fold(v: Seq<N>, b: int, e: int) requires 0 <= b, e <= v.len() / 2, v.len() >= 2, v.len() % 2 == 0, ensures fold(els(v), b, e) == fold(T(v), v.len() as int / 2 + b, v.len() as int / 2 + e), decreases e - b
{ if b < e { lemma_els_fold(v, b, e - 1); } }
pub proof fn lemma_front(v: Seq<El>, b: int, e: int) requires b < e, ensures fold(v, b, e) == op(v[b], fold(v, b + 1, e))
{ lemma_fold_split(v, b, b + 1, e); lemma_fold_one(v, b); }
pub proof fn lemma_left(v: Seq<El>, tl: El, b: int, e: int, tr: El) requires b < e,
    ensures op(op(op(tl, v[b]), fold(v, b + 1, e)), tr) == op(op(tl, fold(v, b, e)), tr)
{ lemma_front(v, b, e); ax_assoc(tl, v[b], fold(v, b + 1, e)); }
pub proof fn lemma_right(v: Seq<El>, tl: El, b: int, e: int, tr: El) requires b < e,
    ensures op(op(tl, fold(v, b, e - 1)), op(v[e - 1], tr)) == op(op(tl, fold(v, b, e)), tr)
{ let f = fold(v, b, e - 1); ax_assoc(tl, f, v[e - 1]); ax_assoc(op(tl, f), v[e - 1], tr); }
/// clean ancestors carry over to the next canonical node
pub proof fn lemma_clean_sib(v: Seq<N>, m: int) requires m % 2 == 1, m >= 1, ensures clean(v, m) == clean(v, m - 1) || m == 1 { assert(m >= 3 ==> m / 2 == (m - 1) / 2); }
pub proof fn lemma_clean_left(v: Seq<N>, y: int) requires y >= 1, clean(v, y - 1), ensures clean(v, topf(y)), decreases y
{ if y % 2 == 1 { lemma_clean_sib(v, y); } else if y >= 4 { assert((y - 1) / 2 == y / 2 - 1); lemma_clean_left(v, y / 2); } else { assert(y == 2); assert(topf(2) == topf(1)); } }
pub proof fn lemma_clean_right(v: Seq<N>, y: int) requires y >= 1, clean(v, y), ensures clean(v, topf(y)), clean(v, topf(y) - 1), decreases y
{ if y % 2 == 1 { lemma_clean_sib(v, y); } else { lemma_clean_right(v, y / 2); } }
/// nodes that may stay inconsistent until the way back up
pub open spec fn bad(j: int, tb: int, te: int) -> bool { isanc(j, tb) || isanc(j, te) }
/// row state of a range update: the nodes above the row, the remaining nodes and what is below them are as they were, covered leaves are updated
pub open spec fn rem(j: int, i: int, b: int, e: int) -> bool { i + b <= upr(j, i) < i + e }
pub open spec fn mid(v: Seq<N>, w: Seq<N>, n: int, i: int, b: int, e: int, begin: int, end: int, u: Ac, tb: int, te: int, cx: int, cy: int) -> bool {
    w.len() == v.len() && v.len() == 2 * n && sings(w) && w[0] == v[0] && clean(w, tb) && clean(w, te)
    && (forall|j: int| 0 <= j < v.len() && (j < i || rem(j, i, b, e) || (j < 2 * i && j != cx && j != cy)) ==> #[trigger] w[j] == v[j])
    && (forall|j: int| 1 <= j < n && i <= j ==> #[trigger] okn(w, j) || bad(j, tb, te))
    && (forall|j: int| n <= j < 2 * n ==> #[trigger] tv(w, j) == (if begin <= j - n < end && !rem(j, i, b, e) { act(u, tv(v, j)) } else { tv(v, j) }))
    && (forall|j: int| n <= j < 2 * n && #[trigger] rem(j, i, b, e) ==> begin <= j - n < end)
}
/// bookkeeping for the two boundary chains
pub open spec fn bnd(i: int, b: int, e: int, tb: int, te: int) -> bool {
    (topf(i + b) == tb || (b >= 1 && insub(i + b - 1, tb))) && (topf(i + e) == te + 1 || (insub(i + e, te) && e < i)) }
pub proof fn lemma_bnd_step(i: int, b: int, e: int, tb: int, te: int)
    requires bnd(i, b, e, tb, te), 2 <= i, i % 2 == 0, 0 <= b < e <= i, tb >= 1,
    ensures ({ let b1 = if b % 2 == 1 { b + 1 } else { b }; let e1 = if e % 2 == 1 { e - 1 } else { e }; bnd(i / 2, b1 / 2, e1 / 2, tb, te) }),
        b % 2 == 1 ==> bad((i + b) / 2, tb, te), e % 2 == 1 ==> bad((i + e - 1) / 2, tb, te),
{
    if b % 2 == 1 {
        let x = i + b; assert(topf(x) == x);
        if x == tb { assert(insub(x, tb)); lemma_insub_up(x, tb); } else { lemma_insub_up(x - 1, tb); lemma_insub_le(x - 1, tb); assert((x - 1) / 2 == x / 2); }
        assert(isanc(x / 2, tb)); assert(i / 2 + (b + 1) / 2 - 1 == x / 2);
    } else if topf(i + b) == tb { assert((i + b) / 2 == i / 2 + b / 2); } else { lemma_insub_up(i + b - 1, tb); assert((i + b - 1) / 2 == i / 2 + b / 2 - 1); }
    if e % 2 == 1 {
        let z = i + e; assert(topf(z) == z);
        if z == te + 1 { assert(insub(te, te)); lemma_insub_up(z - 1, te); } else { lemma_insub_up(z, te); lemma_insub_le(z, te); }
        assert((z - 1) / 2 == z / 2); assert(isanc(z / 2, te)); assert(i / 2 + (e - 1) / 2 == z / 2);
    } else if topf(i + e) == te + 1 { assert((i + e) / 2 == i / 2 + e / 2); } else { lemma_insub_up(i + e, te); assert((i + e) / 2 == i / 2 + e / 2); }
}
/// the boundary chains stay outside the subtree of a canonical node
pub proof fn lemma_bnd_frame(i: int, b: int, e: int, tb: int, te: int, x: int)
    requires bnd(i, b, e, tb, te), 1 <= i, 0 <= b < e <= i, tb >= 1, i + b <= x < i + e, te >= 0,
    ensures !insub(x, tb / 2), !insub(x, te / 2),
{
    if insub(x, tb / 2) {
        lemma_insub_le(x, tb / 2); lemma_topf(i + b);
        if topf(i + b) != tb { lemma_insub_le(i + b - 1, tb); lemma_insub_upr(i + b - 1, i, tb); lemma_insub_upr(x, i, tb); lemma_insub_down(x, tb); }
    }
    if insub(x, te / 2) {
        lemma_insub_le(x, te / 2); lemma_topf(i + e);
        if topf(i + e) != te + 1 { lemma_insub_le(i + e, te); lemma_insub_upr(i + e, i, te); lemma_insub_upr(x, i, te); lemma_insub_down(x, te); }
    }
}
pub proof fn lemma_mid_can(v: Seq<N>, w: Seq<N>, n: int, i: int, b: int, e: int, begin: int, end: int, u: Ac, tb: int, te: int, cx: int, cy: int, x: int)
    requires lz(v), mid(v, w, n, i, b, e, begin, end, u, tb, te, cx, cy), 1 <= i <= n, 0 <= b < e <= i, i + b <= x < i + e, clean(v, x),
    ensures can_upd(w, x), w[x] == v[x],
{
    assert(rem(x, i, b, e));
    assert forall|a: int| 1 <= a <= x / 2 implies pend(#[trigger] w[a]) == pend(v[a]) by { }
    lemma_frame_pend(w, v, x, one());
    assert forall|j: int| 1 <= j < w.len() / 2 && insub(x, j) implies #[trigger] okn(w, j) by {
        lemma_insub_le(x, j); lemma_child(x, j); lemma_insub_upr(x, i, j); lemma_insub_upr(x, i, 2 * j); lemma_insub_upr(x, i, 2 * j + 1);
        assert(rem(j, i, b, e) && rem(2 * j, i, b, e) && rem(2 * j + 1, i, b, e));
        assert(w[j] == v[j]); assert(w[2 * j] == v[2 * j]); assert(w[2 * j + 1] == v[2 * j + 1]); assert(okn(v, j));
    }
}
pub proof fn lemma_mid_step(v: Seq<N>, w: Seq<N>, w2: Seq<N>, n: int, i: int, b: int, e: int, begin: int, end: int, u: Ac, tb: int, te: int, cx: int, cy: int, x: int, b2: int, e2: int, cx2: int, cy2: int)
    requires mid(v, w, n, i, b, e, begin, end, u, tb, te, cx, cy), 1 <= i <= n, 0 <= b < e <= i, x == i + b && b2 == b + 1 && e2 == e && cx2 == x && cy2 == cy || x == i + e - 1 && b2 == b && e2 == e - 1 && cy2 == x && cx2 == cx,
        cy == -1, b2 == b || cx == -1, updated(w, w2, x, u), !insub(x, tb / 2), !insub(x, te / 2), 1 <= tb < 2 * n, 0 <= te < 2 * n,
    ensures mid(v, w2, n, i, b2, e2, begin, end, u, tb, te, cx2, cy2),
{
    lemma_frame(w, w2, x, tb, one()); if te >= 1 { lemma_frame(w, w2, x, te, one()); }
    assert forall|j: int| 0 <= j < v.len() && (j < i || rem(j, i, b2, e2) || (j < 2 * i && j != cx2 && j != cy2)) implies #[trigger] w2[j] == v[j] by {
        if j < i { if insub(x, j) { lemma_insub_le(x, j); } } else { lemma_insub_upr(x, i, j); }
        assert(w[j] == v[j]);
    }
    assert forall|j: int| 1 <= j < n && i <= j implies #[trigger] okn(w2, j) || bad(j, tb, te) by {
        assert(okn(w, j) || bad(j, tb, te));
        if !insub(x, j) { assert((2 * j) / 2 == j && (2 * j + 1) / 2 == j); assert(!insub(x, 2 * j) && !insub(x, 2 * j + 1)); assert(w2[j] == w[j]); assert(w2[2 * j] == w[2 * j]); assert(w2[2 * j + 1] == w[2 * j + 1]); }
    }
    assert forall|j: int| n <= j < 2 * n implies #[trigger] tv(w2, j) == (if begin <= j - n < end && !rem(j, i, b2, e2) { act(u, tv(v, j)) } else { tv(v, j) }) by {
        lemma_insub_upr(x, i, j); assert(tv(w, j) == (if begin <= j - n < end && !rem(j, i, b, e) { act(u, tv(v, j)) } else { tv(v, j) }));
        if insub(x, j) { assert(rem(j, i, b, e)); }
        else { if insub(x, j / 2) { lemma_insub_down(x, j); } lemma_frame(w, w2, x, j, val(w[j])); assert(w2[j] == w[j]); assert(rem(j, i, b2, e2) == rem(j, i, b, e)); }
    }
    assert forall|j: int| n <= j < 2 * n && #[trigger] rem(j, i, b2, e2) implies begin <= j - n < end by { assert(rem(j, i, b, e)); }
}
pub proof fn lemma_mid_down(v: Seq<N>, w: Seq<N>, n: int, i: int, b: int, e: int, begin: int, end: int, u: Ac, tb: int, te: int, cx: int, cy: int)
    requires lz(v), mid(v, w, n, i, b, e, begin, end, u, tb, te, cx, cy), 1 <= i <= n, i == 1 || i % 2 == 0, 0 <= b, e <= i, b % 2 == 0, e % 2 == 0, i == 1 ==> e <= b && b == 0,
        i >= 2 && cx >= 0 ==> bad(cx / 2, tb, te), i >= 2 && cy >= 0 ==> bad(cy / 2, tb, te), cx == -1 || cx >= i, cy == -1 || cy >= i,
    ensures mid(v, w, n, i / 2, b / 2, e / 2, begin, end, u, tb, te, -1, -1),
{
    if i == 1 {
        assert forall|j: int| 0 <= j implies rem(j, 1, b, e) == false && rem(j, 0, b / 2, e / 2) == false by { }
        assert forall|j: int| n <= j < 2 * n implies #[trigger] tv(w, j) == (if begin <= j - n < end && !rem(j, i / 2, b / 2, e / 2) { act(u, tv(v, j)) } else { tv(v, j) }) by { assert(!rem(j, 1, b, e)); }
    } else {
        let h = i / 2;
        assert forall|j: int| i <= j implies rem(j, h, b / 2, e / 2) == rem(j, i, b, e) by { lemma_upr_half(j, i); }
        assert forall|j: int| 0 <= j < v.len() && (j < h || rem(j, h, b / 2, e / 2) || (j < 2 * h && j != -1)) implies #[trigger] w[j] == v[j] by { if j >= i { assert(rem(j, i, b, e)); } }
        assert forall|j: int| 1 <= j < n && h <= j implies #[trigger] okn(w, j) || bad(j, tb, te) by {
            if j < i {
                if 2 * j != cx && 2 * j + 1 != cx && 2 * j != cy && 2 * j + 1 != cy { assert(w[j] == v[j]); assert(w[2 * j] == v[2 * j]); assert(w[2 * j + 1] == v[2 * j + 1]); assert(okn(v, j)); }
            }
        }
        assert forall|j: int| n <= j < 2 * n implies #[trigger] tv(w, j) == (if begin <= j - n < end && !rem(j, h, b / 2, e / 2) { act(u, tv(v, j)) } else { tv(v, j) }) by { assert(rem(j, h, b / 2, e / 2) == rem(j, i, b, e)); }
        assert forall|j: int| n <= j < 2 * n && #[trigger] rem(j, h, b / 2, e / 2) implies begin <= j - n < end by { assert(rem(j, i, b, e)); }
    }
}
pub proof fn lemma_mid_init(v: Seq<N>, n: int, begin: int, end: int, u: Ac, tb: int, te: int)
    requires lz(v), v.len() == 2 * n, 0 <= begin <= end <= n, tb == topf(n + begin), te == topf(n + end) - 1, clean(v, tb), clean(v, te),
    ensures mid(v, v, n, n, begin, end, begin, end, u, tb, te, -1, -1), bnd(n, begin, end, tb, te)
{
    assert forall|j: int| 0 <= j < 2 * n implies #[trigger] upr(j, n) == j by { }
    assert forall|j: int| n <= j < 2 * n && #[trigger] rem(j, n, begin, end) implies begin <= j - n < end by { assert(upr(j, n) == j); }
    assert forall|j: int| n <= j < 2 * n implies #[trigger] tv(v, j) == (if begin <= j - n < end && !rem(j, n, begin, end) { act(u, tv(v, j)) } else { tv(v, j) }) by { assert(upr(j, n) == j); }
}
pub proof fn lemma_mid_done(v: Seq<N>, w: Seq<N>, n: int, i: int, b: int, e: int, begin: int, end: int, u: Ac, tb: int, te: int)
    requires lz(v), mid(v, w, n, i, b, e, begin, end, u, tb, te, -1, -1), e <= b, 0 <= i <= n,
    ensures forall|j: int| 1 <= j < n ==> #[trigger] okn(w, j) || bad(j, tb, te), forall|j: int| n <= j < 2 * n ==> #[trigger] tv(w, j) == (if begin <= j - n < end { act(u, tv(v, j)) } else { tv(v, j) })
{
    assert forall|j: int| 1 <= j < n implies #[trigger] okn(w, j) || bad(j, tb, te) by { if j < i { assert(w[j] == v[j]); assert(w[2 * j] == v[2 * j]); assert(w[2 * j + 1] == v[2 * j + 1]); assert(okn(v, j)); } }
    assert forall|j: int| n <= j < 2 * n implies #[trigger] tv(w, j) == (if begin <= j - n < end { act(u, tv(v, j)) } else { tv(v, j) }) by { assert(!rem(j, i, b, e)); }
}
pub proof fn lemma_same_lz(v: Seq<N>, w: Seq<N>) requires lz(v), same(v, w), ensures lz(w), els(w) == els(v)
{
    let h = v.len() as int / 2;
    assert forall|j: int| 1 <= j < h implies #[trigger] okn(w, j) by { assert(okn(v, j)); }
    assert forall|k: int| 0 <= k < h implies els(w)[k] == els(v)[k] by { lemma_p2(h); assert(T(w)[h + k] == T(v)[h + k]); }
    assert(els(w) =~= els(v));
}
pub proof fn lemma_same_trans(a: Seq<N>, b: Seq<N>, c: Seq<N>) requires same(a, b), same(b, c), ensures same(a, c)
{
    assert forall|j: int| 1 <= j < a.len() / 2 && okn(a, j) implies #[trigger] okn(c, j) by { assert(okn(b, j)); }
    assert forall|j: int| 0 <= j < a.len() && clean(a, j) implies #[trigger] clean(c, j) by { assert(clean(b, j)); }
}
pub proof fn lemma_allclean1(v: Seq<N>, j: int) requires 0 <= j < v.len(), v.len() % 2 == 0, forall|j: int| 1 <= j < v.len() / 2 ==> pend(#[trigger] v[j]) == ida(), ensures clean(v, j), decreases j
{ if j > 1 { lemma_allclean1(v, j / 2); assert(pend(v[j / 2]) == ida()); } }
pub proof fn lemma_allclean(v: Seq<N>, m: int) requires m == v.len(), v.len() % 2 == 0, forall|j: int| 1 <= j < v.len() / 2 ==> pend(#[trigger] v[j]) == ida(), ensures forall|j: int| 0 <= j < v.len() ==> #[trigger] clean(v, j), forall|k: int| 0 <= k < els(v).len() ==> #[trigger] els(v)[k] == val(v[v.len() as int / 2 + k])
{
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] clean(v, j) by { lemma_allclean1(v, j); }
    assert forall|k: int| 0 <= k < els(v).len() implies #[trigger] els(v)[k] == val(v[v.len() as int / 2 + k]) by { let j = v.len() as int / 2 + k; assert(clean(v, j)); lemma_clean_raise(v, j, val(v[j])); }
}
pub proof fn lemma_eclean(v: Seq<N>, i: int, e: int) requires 1 <= i, i == 1 || i % 2 == 0, e % 2 == 1, 1 <= e <= i, clean(v, topf(i + e) - 1), ensures clean(v, i + e - 1)
{ if i >= 2 { assert(topf(i + e) == i + e); } else { assert(i + e - 1 == 1); } }
pub proof fn lemma_shr(i: u64, h: u64) requires 1 <= h < 60, ensures (i >> ((h - 1) as u64)) / 2 == (i >> h), (i >> h) <= i / 2, (i >> h) <= (i >> ((h - 1) as u64))
{
    assert((i >> sub(h, 1)) / 2 == (i >> h)) by(bit_vector) requires 1 <= h, h < 60 {}
    assert((i >> h) <= i / 2) by(bit_vector) requires 1 <= h, h < 60 {}
    assert((h - 1) as u64 == sub(h, 1));
}
pub proof fn lemma_shr1(n: u64, x: u64, h: u64) requires p2(n as int), n <= x < 2 * n, n < 0x1000_0000_0000_0000, (n >> h) == 1, h < 60, ensures (x >> h) == 1, decreases h
{
    lemma_p2(n as int);
    if h == 0 { lemma_shr0(n); lemma_shr0(x); }
    else {
        let g = sub(h, 1); let n2 = n / 2; let x2 = x / 2;
        assert(n >> h == n2 >> g) by(bit_vector) requires 1 <= h, h < 60, g == sub(h, 1), n2 == n / 2 {}
        assert(x >> h == x2 >> g) by(bit_vector) requires 1 <= h, h < 60, g == sub(h, 1), x2 == x / 2 {}
        if n == 1 { assert(n2 >> g == 0) by(bit_vector) requires n2 == 0 {} }
        lemma_shr1(n2, x2, g);
    }
}
pub proof fn lemma_shr_mono(a: u64, b: u64, h: u64) requires a <= b, h < 60, ensures (a >> h) <= (b >> h) { assert((a >> h) <= (b >> h)) by(bit_vector) requires a <= b, h < 60 {} }
pub proof fn lemma_shr0(i: u64) ensures i >> 0 == i { assert(i >> 0 == i) by(bit_vector); }
/// recomputing the ancestors of t
pub open spec fn upto(v: Seq<N>, w: Seq<N>, t: int, i: int) -> bool {
    v.len() == w.len() && (forall|j: int| 0 <= j < v.len() ==> pend(#[trigger] w[j]) == pend(v[j])) && (forall|j: int| 0 <= j < v.len() && !(isanc(j, t) && i <= j) ==> #[trigger] w[j] == v[j])
    && (forall|j: int| 1 <= j < v.len() / 2 && ((isanc(j, t) && i <= j) || (!isanc(j, t) && okn(v, j))) ==> #[trigger] okn(w, j)) }
pub proof fn lemma_upto(v: Seq<N>, a: Seq<N>, w: Seq<N>, t: int, i: int)
    requires upto(v, a, t, i), insub(i, t), 2 <= i <= t < v.len(), v.len() % 2 == 0, a.len() == w.len(), forall|j: int| 0 <= j < v.len() && j != i / 2 ==> #[trigger] w[j] == a[j],
        pend(w[i / 2]) == ida(), pend(a[i / 2]) == ida(), val(w[i / 2]) == op(val(a[2 * (i / 2)]), val(a[2 * (i / 2) + 1])),
    ensures upto(v, w, t, i / 2), insub(i / 2, t),
{
    let h = i / 2;
    lemma_insub_up(i, t); assert(isanc(h, t));
    assert forall|j: int| 0 <= j < v.len() implies pend(#[trigger] w[j]) == pend(v[j]) by { assert(pend(a[j]) == pend(v[j])); }
    assert forall|j: int| 0 <= j < v.len() && !(isanc(j, t) && h <= j) implies #[trigger] w[j] == v[j] by { assert(a[j] == v[j]); }
    assert forall|j: int| 1 <= j < v.len() / 2 && ((isanc(j, t) && h <= j) || (!isanc(j, t) && okn(v, j))) implies #[trigger] okn(w, j) by {
        if j == h { ax_ida(op(val(w[2 * j]), val(w[2 * j + 1]))); }
        else {
            if isanc(j, t) && j < i { lemma_chain(i, j, t); assert(insub(j, i)); assert(insub(j, h)); lemma_insub_le(j, h); }
            assert(okn(a, j));
            if 2 * j == h || 2 * j + 1 == h { assert(h / 2 == j); assert(insub(j, h)) by { assert(insub(j, j)); } lemma_insub_trans(j, h, t); lemma_insub_le(h, t); assert(false); }
        }
    }
}
pub proof fn lemma_tv_leaf(v: Seq<N>, w: Seq<N>, j: int)
    requires v.len() == w.len(), 1 <= j < v.len(), w[j] == v[j], forall|a: int| 0 <= a < v.len() ==> pend(#[trigger] w[a]) == pend(v[a]), ensures tv(w, j) == tv(v, j), clean(w, j) == clean(v, j)
{ lemma_frame_pend(w, v, j, val(v[j])); }
pub proof fn lemma_clean_up(v: Seq<N>, i: int, t: int) requires insub(i, t), clean(v, t), 1 <= i, ensures clean(v, i), decreases t { if i != t { lemma_insub_le(i, t / 2); lemma_clean_up(v, i, t / 2); } }
pub proof fn lemma_anc_half(a: int, t: int) requires isanc(a, t), 0 <= a, t >= 1, ensures a <= t / 2 { lemma_insub_le(a, t / 2); }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name != "operator()" or obj is None: return None
        t = tr.ty(obj); q = str(obj.get("type", {}))
        if t == "()" and "UpF" in q:
            pre = []; pl = tr.place(args[-3], pre)
            return pre + ["%s = n_up(%s, %s, %s);" % (pl, pl, tr.exval(args[-2]), tr.exval(args[-1]))]
        if t == "()" and "DownF" in q:
            pre = []; p, l, r = [tr.place(a, pre) for a in args[-3:]]
            return pre + ["let nd__ = n_down(%s, %s, %s);" % (p, l, r), "%s = nd__.0;" % p, "%s = nd__.1;" % l, "%s = nd__.2;" % r]
        if t == "UpdF":
            pre = []; pl = tr.place(args[-1], pre)
            return "{ %s n_upd(&%s, &mut %s) }" % (" ".join(pre), tr.place(obj, pre), pl)
        return None


def units():
    V0, V1 = "old(self_).v@", "final(self_).v@"
    np = lambda k: (lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == k)
    G = "let ghost v0 = self_.v@; let ghost n = v0.len() as int / 2;"
    SH = ["self_.v@.len() == v0.len()", "n == v0.len() / 2", "shape(v0)"]
    cs = [
        Contract("pow2_of", LT + "calc_pow2", params=["sz"], requires=["sz < 0x0400_0000_0000_0000"], ensures=["p2(r as int)", "r >= sz", "r >= 1", "r < 0x0800_0000_0000_0000", "sz >= 1 ==> r < 2 * sz"],
                 loops={0: dict(invariant=["p2(w as int)", "w >= 1", "w < 2 * sz || w == 1", "sz < 0x0400_0000_0000_0000"], decreases="2 * sz - w")},
                 hints={"L0.begin": "let ghost w0 = w as int;", "L0.end": "proof { assert(w == 2 * w0 && w as int / 2 == w0); }"}),
        Contract("height", LT + "calc_height", params=["sz"], requires=["sz < 0x1000_0000_0000_0000"],
                 ensures=["sz == 0 ==> r == -1", "sz >= 1 ==> 0 <= r < 60 && (sz >> (r as u64)) == 1"],
                 hints={"L0.end": "proof { let q = (h - 1) as u32; let q2 = (h - 1) as u64; assert((1u64 << q) == (1u64 << q2)) by(bit_vector) requires q as u64 == q2, q < 60 {} assert((1u64 << q) >= 1) by(bit_vector) requires q < 60 {} }", "L0.begin": "proof { assert((1u64 << 60) == 0x1000_0000_0000_0000) by(bit_vector); }", "L0.after": "proof { assert((1u64 << 0) == 1) by(bit_vector); }", "exit": "proof { let s = sz; let k = ret__v; if s >= 1 { let q = k as u64; assert(s >> q == 1) by(bit_vector) requires q < 60, (1u64 << q) <= s, s < (1u64 << add(q, 1)) {} } else { assert(k == -1); } }"},
                 loops={0: dict(invariant=["0 <= h <= 60", "sz < 0x1000_0000_0000_0000", "h >= 1 ==> sz >= 1 && sz >= (1u64 << ((h - 1) as u64))"], decreases="60 - h")}),
        Contract("top", LT + "top", params=["begin"], requires=["old(self_).v@.len() < 0x1000_0000_0000_0000", "old(self_).v@.len() >= 2", "begin <= old(self_).v@.len() / 2"], ensures=["*final(self_) == *old(self_)", "r == topf(old(self_).v@.len() as int / 2 + begin)", "r >= 1"],
                 loops={0: dict(invariant=["i >= 1", "topf(i as int) == topf(self_.v@.len() as int / 2 + begin)", "*self_ == *old(self_)"], decreases="i")}),
        Contract("size", LT + "size", params=[], ensures=["r as int == old(self_).v@.len() / 2", "*final(self_) == *old(self_)"]),
        Contract("update_down", LT + "update_down", params=["i"], requires=["1 <= i", "2 * i + 1 < old(self_).v@.len()", "old(self_).v@.len() % 2 == 0", "old(self_).v@.len() < 0x1000_0000_0000_0000"],
                 ensures=["pushed(%s, %s, i as int)" % (V0, V1), "same(%s, %s)" % (V0, V1)],
                 hints={"exit": "proof { lemma_push(old(self_).v@, self_.v@, i as int); }"}),
        Contract("update_up", LT + "update_up", params=["i"], requires=["1 <= i", "2 * i + 1 < old(self_).v@.len()", "old(self_).v@.len() < 0x1000_0000_0000_0000", "pend(old(self_).v@[i as int]) == ida()"],
                 ensures=["%s.len() == %s.len()" % (V1, V0), "forall|j: int| 0 <= j < %s.len() && j != i ==> #[trigger] %s[j] == %s[j]" % (V0, V1, V0), "val(%s[i as int]) == op(val(%s[2 * i]), val(%s[2 * i + 1]))" % (V1, V0, V0), "pend(%s[i as int]) == ida()" % V1]),
        Contract("update_from_root", LT + "update_from_root", params=["i"], requires=["shape(old(self_).v@)", "i < old(self_).v@.len()"], ensures=["same(%s, %s)" % (V0, V1), "clean(%s, i as int)" % V1],
                 hints={"entry": G, "L0.before": "proof { if i == 0 { } else { lemma_shr0(i); } }",
                        "use:update_down.before": "let ghost va = self_.v@; proof { lemma_shr(i, h as u64); }",
                        "use:update_down.after": "proof { lemma_same_trans(v0, va, self_.v@); let g = (i >> ((h - 1) as u64)) as int; let g2 = (i >> (h as u64)) as int; assert(g / 2 == g2); assert(clean(va, g2)); assert(clean(self_.v@, g2)); assert(pend(self_.v@[g2]) == ida()); assert(clean(self_.v@, g)); }", "L0.after": "proof { if i >= 1 { lemma_shr0(i); } }"},
                 loops={0: dict(invariant=SH + ["i < v0.len()", "i == 0 ==> h <= 0", "h < 60", "i >= 1 ==> 0 <= h && (i >> (h as u64)) >= 1 && clean(self_.v@, (i >> (h as u64)) as int)", "same(v0, self_.v@)"], decreases="h")}),
        Contract("propagate_down", LT + "propagate_down", params=["begin", "end"], requires=["shape(%s)" % V0, "begin <= end", "end <= %s.len() / 2" % V0],
                 ensures=["same(%s, %s)" % (V0, V1), "clean(%s, topf(%s.len() as int / 2 + begin))" % (V1, V0), "clean(%s, topf(%s.len() as int / 2 + end) - 1)" % (V1, V0)],
                 hints={"entry": G + " proof { lemma_topf(n + begin); lemma_topf(n + end); }", "use:update_from_root#1.after": "let ghost va = self_.v@;", "exit": "proof { lemma_same_trans(v0, va, self_.v@); }"}),
        Contract("update_to_root", LT + "update_to_root", params=["i"], requires=["old(self_).v@.len() % 2 == 0", "old(self_).v@.len() < 0x1000_0000_0000_0000", "i < old(self_).v@.len()", "clean(%s, i as int)" % V0], ensures=["upto(%s, %s, i as int, 1)" % (V0, V1)],
                 hints={"entry": "let ghost v0 = self_.v@; let ghost t = i as int; let ghost mut ic = t; proof { if t >= 1 { assert forall|j: int| isanc(j, t) && t <= j implies false by { lemma_insub_le(j, t); } assert(insub(t, t)); } }",
                        "use:update_up.before": "let ghost va = self_.v@; proof { lemma_insub_le(ic, t); lemma_clean_up(v0, ic, t); assert(pend(va[i as int]) == pend(v0[i as int])); }", "use:update_up.after": "proof { lemma_upto(v0, va, self_.v@, t, ic); ic = i as int; }"},
                 loops={0: dict(invariant=["v0.len() % 2 == 0", "v0.len() < 0x1000_0000_0000_0000", "t < v0.len()", "t >= 1 ==> ic >= 1 && insub(ic, t) && clean(v0, ic)", "ic == i", "t == 0 ==> i == 0 && self_.v@ == v0", "t >= 1 ==> upto(v0, self_.v@, t, ic)", "0 <= i <= t"], decreases="i")}),
        Contract("propagate_up", LT + "propagate_up", params=["begin", "end"], requires=["shape(%s)" % V0, "begin <= end", "end <= %s.len() / 2" % V0, "clean(%s, topf(%s.len() as int / 2 + begin))" % (V0, V0), "clean(%s, topf(%s.len() as int / 2 + end) - 1)" % (V0, V0)],
                 ensures=["%s.len() == %s.len()" % (V1, V0), "forall|j: int| 0 <= j < %s.len() ==> pend(#[trigger] %s[j]) == pend(%s[j])" % (V0, V1, V0), "forall|j: int| 0 <= j < %s.len() && (j == 0 || j >= %s.len() / 2) ==> #[trigger] %s[j] == %s[j]" % (V0, V0, V1, V0),
                          "forall|j: int| 1 <= j < {0}.len() / 2 && (okn({0}, j) || bad(j, topf({0}.len() as int / 2 + begin), topf({0}.len() as int / 2 + end) - 1)) ==> #[trigger] okn({1}, j)".format(V0, V1)],
                 hints={"entry": G + " let ghost tb = topf(n + begin); let ghost te = topf(n + end) - 1; proof { lemma_topf(n + begin); lemma_topf(n + end); }",
                        "use:update_to_root#1.after": "let ghost va = self_.v@; proof { if te >= 1 { lemma_frame_pend(va, v0, te, one()); } }",
                        "exit": r"""proof { let z = self_.v@;
                            assert forall|j: int| 0 <= j < 2 * n implies pend(#[trigger] z[j]) == pend(v0[j]) by { assert(pend(va[j]) == pend(v0[j])); }
                            assert forall|j: int| 0 <= j < 2 * n && (j == 0 || j >= n) implies #[trigger] z[j] == v0[j] by { if j >= n { if isanc(j, tb) { lemma_anc_half(j, tb); } if te >= 1 && isanc(j, te) { lemma_anc_half(j, te); } } assert(va[j] == v0[j]); }
                            assert forall|j: int| 1 <= j < n && (okn(v0, j) || bad(j, tb, te)) implies #[trigger] okn(z, j) by { if isanc(j, tb) || okn(v0, j) { assert(okn(va, j)); } } }"""}),
        Contract("update_segment", LT + "update_segment", targs=["altruct::UpdF"], params=["i", "f"], requires=["can_upd(%s, i as int)" % V0], ensures=["updated(%s, %s, i as int, ua(*f))" % (V0, V1)], decreases="old(self_).v@.len() - i",
                 hints={"entry": "let ghost v0 = self_.v@; let ghost mut done = true; let ghost h = v0.len() as int / 2;",
                        "use:update_down.before": "proof { done = false; assert(self_.v@ =~= v0); assert(i < h) by { if i >= h { assert(sing(val(v0[i as int]))); } } }",
                        "use:update_down.after": "let ghost va = self_.v@; proof { lemma_can(v0, va, i as int, 2 * i); lemma_can(v0, va, i as int, 2 * i + 1); }",
                        "use:update_segment#1.after": "let ghost vb = self_.v@; proof { lemma_can2(va, vb, i as int, ua(*f)); }",
                        "use:update_segment#2.after": "let ghost vc = self_.v@; proof { assert(insub(2 * i, i as int) == false && insub(2 * i + 1, i as int) == false); assert(vc[i as int] == vb[i as int]); assert(vb[i as int] == va[i as int]); }",
                        "use:update_up.after": "proof { lemma_upd_split(v0, va, vb, vc, self_.v@, i as int, ua(*f)); }",
                        "exit": "proof { if done { lemma_upd_whole(v0, self_.v@, i as int, ua(*f)); } }"}),
        Contract("lz_new", "altruct::lz_new", params=["sz", "f", "g", "id"], requires=["val(id) == one()", "pend(id) == ida()", "sz < 0x0400_0000_0000_0000"],
                 ensures=["lz(r.v@)", "r.v@.len() / 2 >= sz", "forall|k: int| 0 <= k < els(r.v@).len() ==> #[trigger] els(r.v@)[k] == one()", "forall|j: int| 0 <= j < r.v@.len() ==> pend(#[trigger] r.v@[j]) == ida()"],
                 hints={"exit": "proof { let v = ret__v.v@; ax_unit(one()); ax_ida(one()); ax_sing_one(); assert forall|j: int| 1 <= j < v.len() / 2 implies #[trigger] okn(v, j) by { } lemma_allclean(v, v.len() as int); }"}),
        Contract("lz_make", "altruct::lz_make", params=["b", "e", "f", "g", "id"], modes={"b": "ptr:src", "e": "ptr:src"}, requires=["val(id) == one()", "pend(id) == ida()", "0 <= b <= e <= src@.len()", "src@.len() < 0x0400_0000_0000_0000", "forall|k: int| 0 <= k < src@.len() ==> #[trigger] sing(val(src@[k]))"],
                 ensures=["lz(r.v@)", "r.v@.len() / 2 >= e - b", "forall|k: int| 0 <= k < els(r.v@).len() ==> #[trigger] els(r.v@)[k] == (if k < e - b { val(src@[b + k]) } else { one() })"],
                 hints={"entry": "proof { ax_sing_one(); }"}),
        Contract("lz_at", LT + "operator[]", ret_mut=True, params=["index"], requires=["index < %s.len() / 2" % V0, "%s.len() < 0x1000_0000_0000_0000" % V0], ensures=["*r == %s[%s.len() / 2 + index]" % (V0, V0), "%s == %s.update(%s.len() as int / 2 + index, *final(r))" % (V1, V0, V0)]),
        Contract("lz_get", LT + "get", params=["begin", "end"], requires=["lz(%s)" % V0, "begin <= end", "end <= %s.len() / 2" % V0],
                 ensures=["lz(%s)" % V1, "els(%s) == els(%s)" % (V1, V0), "val(r) == fold(els(%s), begin as int, end as int)" % V0, "%s.len() == %s.len()" % (V1, V0)],
                 hints={"entry": G, "L0.before": "let ghost v = self_.v@; let ghost t = T(v); let ghost total = fold(t, n + begin, n + end); proof { lemma_same_lz(v0, v); lemma_els_fold(v, begin as int, end as int); ax_unit(total); ax_unit(op(one(), total)); lemma_p2(n); }",
                        "L0.begin": r"""let ghost b0 = b as int; let ghost e0 = e as int; let ghost i0 = i as int; proof { lemma_p2(i0); lemma_left(t, val(tl), i0 + b0, i0 + e0, val(tr));
                            let b1 = if b0 % 2 == 1 { b0 + 1 } else { b0 }; let tl1 = if b0 % 2 == 1 { op(val(tl), t[i0 + b0]) } else { val(tl) }; let e1 = if e0 % 2 == 1 { e0 - 1 } else { e0 };
                            if b0 % 2 == 1 { assert(i0 >= 2); assert(topf(i0 + b0) == i0 + b0); lemma_clean_raise(v, i0 + b0, val(v[i0 + b0])); assert(t[i0 + b0] == val(v[i0 + b0])); lemma_clean_left(v, i0 + b0 + 1); }
                            if e0 % 2 == 1 { assert(b1 < e0); lemma_right(t, tl1, i0 + b1, i0 + e0, val(tr)); lemma_eclean(v, i0, e0); lemma_clean_raise(v, i0 + e0 - 1, val(v[i0 + e0 - 1])); assert(t[i0 + e0 - 1] == val(v[i0 + e0 - 1])); lemma_clean_right(v, i0 + e0 - 1); }
                            if i0 >= 2 { assert forall|j: int| i0 / 2 + b1 / 2 <= j < i0 / 2 + e1 / 2 implies #[trigger] sok(t, j) by { assert(okn(v, j)); lemma_tree(v, j); } lemma_up(t, i0 / 2, b1 / 2, e1 / 2);
                                assert(topf(i0 + b1) == topf((i0 + b1) / 2)); assert((i0 + b1) / 2 == i0 / 2 + b1 / 2); assert(topf(i0 + e1) == topf((i0 + e1) / 2)); assert((i0 + e1) / 2 == i0 / 2 + e1 / 2); } else { assert(b1 == e1); } }""",
                        "L0.after": "proof { assert(fold(t, i + b, i + e) == one()); ax_unit(val(tl)); }"},
                 loops={0: dict(invariant=["v == self_.v@", "t == T(v)", "lz(v)", "n == v.len() / 2", "begin <= end", "b <= e", "e <= i", "i <= n", "b < e ==> i >= 1", "i >= 1 ==> p2(i as int)", "pend(tl) == ida()", "pend(tr) == ida()",
                                           "i >= 1 ==> clean(v, topf(i + b)) && clean(v, topf(i + e) - 1)", "op(op(val(tl), fold(t, i + b, i + e)), val(tr)) == total"], decreases="e")}),
        Contract("lz_update", LT + "update", targs=["altruct::UpdF"], params=["begin", "end", "f"], requires=["lz(%s)" % V0, "begin <= end", "end <= %s.len() / 2" % V0],
                 ensures=["lz(%s)" % V1, "%s.len() == %s.len()" % (V1, V0), "forall|k: int| 0 <= k < els({1}).len() ==> #[trigger] els({1})[k] == (if begin <= k < end {{ act(ua(*f), els({0})[k]) }} else {{ els({0})[k] }})".format(V0, V1)],
                 hints={"entry": G + " let ghost tb = topf(n + begin); let ghost te = topf(n + end) - 1; let ghost u = ua(*f); proof { lemma_topf(n + begin); lemma_topf(n + end); }",
                        "L0.before": "let ghost v = self_.v@; proof { lemma_same_lz(v0, v); lemma_p2(n); lemma_mid_init(v, n, begin as int, end as int, u, tb, te); }",
                        "L0.begin": r"""let ghost b0 = b as int; let ghost e0 = e as int; let ghost i0 = i as int; let ghost w0 = self_.v@; let ghost mut w2 = w0; let ghost mut cx: int = -1; let ghost mut cy: int = -1; proof { lemma_p2(i0); if i0 >= 2 { lemma_bnd_step(i0, b0, e0, tb, te); } 
                            if b0 % 2 == 1 { let x = i0 + b0; assert(topf(x) == x); lemma_mid_can(v, w0, n, i0, b0, e0, begin as int, end as int, u, tb, te, -1, -1, x); lemma_bnd_frame(i0, b0, e0, tb, te, x); } }""",
                        "use:update_segment#1.after": "proof { cx = i0 + b0; lemma_mid_step(v, w0, self_.v@, n, i0, b0, e0, begin as int, end as int, u, tb, te, -1, -1, i0 + b0, b0 + 1, e0, cx, -1); lemma_clean_left(v, i0 + b0 + 1); }",
                        "use:update_segment#2.before": "let ghost w1 = self_.v@; proof { w2 = w1; assert(b as int == (if b0 % 2 == 1 { b0 + 1 } else { b0 })); if e0 % 2 == 1 { let y = i0 + e0 - 1; assert(b < e0); lemma_eclean(v, i0, e0); lemma_mid_can(v, w1, n, i0, b as int, e0, begin as int, end as int, u, tb, te, cx, -1, y); lemma_bnd_frame(i0, b0, e0, tb, te, y); } }",
                        "use:update_segment#2.after": "proof { cy = i0 + e0 - 1; lemma_mid_step(v, w2, self_.v@, n, i0, b as int, e0, begin as int, end as int, u, tb, te, cx, -1, cy, b as int, e0 - 1, cx, cy); lemma_clean_right(v, i0 + e0 - 1); }",
                        "L0.end": r"""proof { let b1 = if b0 % 2 == 1 { b0 + 1 } else { b0 }; let e1 = if e0 % 2 == 1 { e0 - 1 } else { e0 }; lemma_mid_down(v, self_.v@, n, i0, b1, e1, begin as int, end as int, u, tb, te, cx, cy);
                            if i0 >= 2 { assert(topf(i0 + b1) == topf((i0 + b1) / 2)); assert((i0 + b1) / 2 == i0 / 2 + b1 / 2); assert(topf(i0 + e1) == topf((i0 + e1) / 2)); assert((i0 + e1) / 2 == i0 / 2 + e1 / 2); } }""",
                        "L0.after": "let ghost w = self_.v@; proof { lemma_mid_done(v, w, n, i as int, b as int, e as int, begin as int, end as int, u, tb, te); }",
                        "exit": "proof { let z = self_.v@; assert forall|k: int| 0 <= k < els(z).len() implies #[trigger] els(z)[k] == (if begin <= k < end { act(u, els(v0)[k]) } else { els(v0)[k] }) by { lemma_tv_leaf(w, z, n + k); assert(T(v)[n + k] == T(v0)[n + k]); } assert(sings(z)) by { assert forall|j: int| n <= j < 2 * n implies #[trigger] sing(val(z[j])) by { assert(sing(val(w[j]))); } } }"},
                 loops={0: dict(invariant=["lz(v)", "n == v.len() / 2", "self_.v@.len() == v.len()", "n + begin <= n + end <= 2 * n", "b <= e", "e <= i", "i <= n", "b < e ==> i >= 1", "i >= 1 ==> p2(i as int)", "1 <= tb < 2 * n", "0 <= te < 2 * n",
                                           "i >= 1 ==> clean(v, topf(i + b)) && clean(v, topf(i + e) - 1)", "i >= 1 ==> bnd(i as int, b as int, e as int, tb, te)", "u == ua(*f)", "mid(v, self_.v@, n, i as int, b as int, e as int, begin as int, end as int, u, tb, te, -1, -1)"], decreases="e")}),
        Contract("lz_rebuild", LT + "rebuild", pred=np(0), params=[], requires=["shape(%s)" % V0, "sings(%s)" % V0, "forall|j: int| 1 <= j < %s.len() / 2 ==> pend(#[trigger] %s[j]) == ida()" % (V0, V0)],
                 ensures=["lz(%s)" % V1, "%s.len() == %s.len()" % (V1, V0), "forall|k: int| 0 <= k < els({1}).len() ==> #[trigger] els({1})[k] == val({0}[{0}.len() / 2 + k])".format(V0, V1)],
                 hints={"entry": G + " proof { lemma_p2(n); }", "L0.begin": "let ghost va = self_.v@;",
                        "use:update_up.after": "proof { assert forall|j: int| i <= j < n implies #[trigger] okn(self_.v@, j) by { if j > i { assert(okn(va, j)); } else { ax_ida(op(val(self_.v@[2 * j]), val(self_.v@[2 * j + 1]))); } } }",
                        "L0.after": "proof { let z = self_.v@; lemma_allclean(z, 2 * n); assert forall|j: int| n <= j < 2 * n implies #[trigger] sing(val(z[j])) by { assert(sing(val(v0[j]))); } }"},
                 loops={0: dict(invariant=SH + ["i < n", "sings(v0)", "self_.v@[0] == v0[0]", "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]", "forall|j: int| 1 <= j < n ==> pend(#[trigger] self_.v@[j]) == ida()", "forall|j: int| i < j < n ==> #[trigger] okn(self_.v@, j)"], decreases="i")}),
        Contract("lz_restore", LT + "restore", params=["begin", "end"], requires=["lz(%s)" % V0, "begin < end", "end <= %s.len() / 2" % V0],
                 ensures=["lz(%s)" % V1, "els(%s) == els(%s)" % (V1, V0), "%s.len() == %s.len()" % (V1, V0), "forall|k: int| begin <= k < end ==> #[trigger] clean({1}, {0}.len() as int / 2 + k) && val({1}[{0}.len() as int / 2 + k]) == els({0})[k]".format(V0, V1)],
                 hints={"entry": G + " let ghost mut RR: int = 1; proof { lemma_p2(n); }",
                        "L0.before": "proof { lemma_shr1(n as u64, b, h as u64); lemma_shr1(n as u64, e, h as u64); }",
                        "L0.begin": "proof { lemma_shr(b, h as u64); lemma_shr(e, h as u64); lemma_shr_mono(b, e, h as u64); } let ghost lo = (b >> (h as u64)) as int; let ghost hi = (e >> (h as u64)) as int;",
                        "L1.begin": "let ghost va = self_.v@;",
                        "use:update_down.after": "proof { lemma_same_trans(v0, va, self_.v@); assert forall|j: int| lo <= j <= hi implies #[trigger] clean(self_.v@, j) by { assert(clean(va, j)); } }",
                        "L0.end": "proof { RR = 2 * RR; assert forall|j: int| (b >> ((h - 1) as u64)) <= j <= (e >> ((h - 1) as u64)) implies #[trigger] clean(self_.v@, j) by { assert(lo <= j / 2 <= hi); assert(clean(self_.v@, j / 2)); } }",
                        "L0.after": "proof { lemma_shr0(b); lemma_shr0(e); let z = self_.v@; lemma_same_lz(v0, z); assert forall|k: int| begin <= k < end implies #[trigger] clean(z, n + k) && val(z[n + k]) == els(v0)[k] by { assert(clean(z, n + k)); lemma_clean_raise(z, n + k, val(z[n + k])); assert(T(z)[n + k] == T(v0)[n + k]); } }"},
                 loops={0: dict(invariant=SH + ["lz(v0)", "same(v0, self_.v@)", "0 <= h < 60", "begin < end <= n", "b == n + begin", "e == n + end - 1", "b <= e < 2 * n", "p2(n)", "1 <= RR <= (b >> (h as u64))", "(e >> (h as u64)) < 2 * RR",
                                                "forall|j: int| (b >> (h as u64)) <= j <= (e >> (h as u64)) ==> #[trigger] clean(self_.v@, j)"], decreases="h"),
                        1: dict(invariant=SH + ["lz(v0)", "same(v0, self_.v@)", "1 <= h < 60", "b <= e < 2 * n", "1 <= lo", "lo <= i <= hi + 1", "hi == e >> (h as u64)", "lo == b >> (h as u64)", "2 * hi <= e", "hi < 2 * lo", "RR <= lo", "hi < 2 * RR", 
                                                "forall|j: int| lo <= j <= hi ==> #[trigger] clean(self_.v@, j)", "forall|j: int| lo <= j < i ==> pend(#[trigger] self_.v@[j]) == ida()"], decreases="hi + 1 - i")}),
        Contract("lz_rebuild2", LT + "rebuild", pred=np(2), params=["begin", "end"], extra=["Ghost(w): Ghost<Seq<N>>"],
                 requires=["lz(w)", "w.len() == %s.len()" % V0, "begin < end", "end <= w.len() / 2", "sings(%s)" % V0, "forall|j: int| 0 <= j < w.len() && !(w.len() / 2 + begin <= j < w.len() / 2 + end) ==> #[trigger] %s[j] == w[j]" % V0,
                           "forall|k: int| begin <= k < end ==> #[trigger] clean(w, w.len() as int / 2 + k)"],
                 ensures=["lz(%s)" % V1, "%s.len() == %s.len()" % (V1, V0), "forall|k: int| 0 <= k < els({1}).len() ==> #[trigger] els({1})[k] == (if begin <= k < end {{ val({0}[{0}.len() as int / 2 + k]) }} else {{ els(w)[k] }})".format(V0, V1)],
                 hints={"entry": G + " let ghost mut L: int = n; proof { lemma_p2(n); assert forall|j: int| n + begin <= j <= n + end - 1 implies #[trigger] clean(w, j) by { assert(clean(w, n + (j - n))); } }",
                        "L0.begin": "let ghost b0 = b as int; let ghost e0 = e as int; let ghost va = self_.v@; proof { lemma_p2(L); L = L / 2; }",
                        "L1.before": r"""proof { assert(va == self_.v@); assert forall|j: int| L <= j < n && !(b <= j <= e) implies #[trigger] okn(self_.v@, j) by { if j < 2 * L { assert(okn(w, j)); assert(va[j] == w[j]); assert(va[2 * j] == w[2 * j]); assert(va[2 * j + 1] == w[2 * j + 1]); } else { assert(okn(va, j)); } }
                            assert forall|j: int| b <= j <= e implies #[trigger] clean(w, j) && pend(w[j]) == ida() && pend(va[j]) == pend(w[j]) by { let c = if b0 <= 2 * j { 2 * j } else { 2 * j + 1 }; assert(b0 <= c <= e0); assert(clean(w, c)); assert(c / 2 == j); } assert forall|j: int| b <= j <= e implies pend(#[trigger] w[j]) == ida() by { assert(clean(w, j)); } }""",
                        "L1.begin": "let ghost vb = self_.v@; proof { assert(clean(w, i as int)); assert(vb[i as int] == w[i as int] || true); }",
                        "use:update_up.after": "proof { assert forall|j: int| L <= j < n && !(b <= j < i) implies #[trigger] okn(self_.v@, j) by { if j != i { assert(okn(vb, j)); } else { ax_ida(op(val(self_.v@[2 * j]), val(self_.v@[2 * j + 1]))); } } }",
                        "L0.after": r"""proof { let z = self_.v@; assert forall|k: int| 0 <= k < els(z).len() implies #[trigger] els(z)[k] == (if begin <= k < end { val(v0[n + k]) } else { els(w)[k] }) by {
                              let j = n + k; assert forall|a: int| 1 <= a <= j / 2 implies pend(#[trigger] z[a]) == pend(w[a]) by { } lemma_frame_pend(z, w, j, val(z[j])); assert(z[j] == v0[j]); if begin <= k < end { assert(clean(w, j)); lemma_clean_raise(w, j, val(z[j])); } else { assert(v0[j] == w[j]); } }
                            assert forall|j: int| n <= j < 2 * n implies #[trigger] sing(val(z[j])) by { assert(sing(val(v0[j]))); } }"""},
                 loops={0: dict(invariant=["self_.v@.len() == v0.len()", "lz(w)", "sings(v0)", "w.len() == v0.len()", "n == v0.len() / 2", "p2(n)", "p2(L)", "1 <= L <= b <= e < 2 * L", "L <= n", "L <= 0x1000_0000_0000_0000", "begin < end <= n",
                                           "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]", "forall|j: int| b <= j <= e ==> #[trigger] clean(w, j)", "forall|k: int| begin <= k < end ==> #[trigger] clean(w, n + k)",
                                           "forall|j: int| 0 <= j < n ==> pend(#[trigger] self_.v@[j]) == pend(w[j])",
                                           "forall|j: int| n <= j < 2 * n && !(n + begin <= j < n + end) ==> #[trigger] v0[j] == w[j]",
                                           "forall|j: int| 0 <= j < 2 * L && !(b <= j <= e) ==> #[trigger] self_.v@[j] == w[j]",
                                           "forall|j: int| L <= j < n ==> #[trigger] okn(self_.v@, j)"], decreases="b"),
                        1: dict(invariant=["self_.v@.len() == v0.len()", "1 <= L <= b <= e < 2 * L", "2 * L <= n", "n == v0.len() / 2", "b - 1 <= i <= e", "v0.len() < 0x1000_0000_0000_0000", "w.len() == v0.len()",
                                           "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]", "forall|j: int| b <= j <= e ==> #[trigger] clean(w, j)", "forall|j: int| b <= j <= e ==> pend(#[trigger] w[j]) == ida()",
                                           "forall|j: int| 0 <= j < n ==> pend(#[trigger] self_.v@[j]) == pend(w[j])",
                                           "forall|j: int| 0 <= j < 2 * L && !(b <= j <= e) ==> #[trigger] self_.v@[j] == w[j]",
                                           "forall|j: int| L <= j < n && !(b <= j <= i) ==> #[trigger] okn(self_.v@, j)"], decreases="i")}),
    ]
    tu = """namespace altruct { struct N { long v_; long p_; };
struct UpF { void operator()(N& p, const N& l, const N& r) const; };
struct DownF { void operator()(N& p, N& l, N& r) const; };
struct UpdF { bool operator()(N& n) const; };
typedef container::lazy_segment_tree<N, UpF, DownF> LzT;
inline LzT lz_new(size_t sz, const UpF& f, const DownF& g, N id) { return LzT(sz, f, g, id); }
inline LzT lz_make(const N* b, const N* e, const UpF& f, const DownF& g, N id) { return LzT(b, e, f, g, id); }
inline void use(LzT& t, UpdF x) { t.get(0, 1); t.update(0, 1, x); t[0]; t.rebuild(); t.rebuild(0, 1); t.restore(0, 1); t.size(); } }
"""
    u = Unit("lazyseg", ["altruct/structure/container/lazy_segment_tree.h"], tu, cs, SPEC)
    elem.setup(u)
    u.hooks.insert(0, Hook())
    for t, r in (("N", "N"), ("UpF", "()"), ("DownF", "()"), ("UpdF", "UpdF")):
        u.type_map["altruct::" + t] = r; u.type_map[t] = r
    u.copy_types.add("N"); u.arbs["N"] = "any_N()"
    u.struct_over["Lazy_segment_tree_N_UpF_DownF"] = dict(copy=False)
    u.trusted += ["the node type, the lazy actions and the three functors stand for every compatible instantiation: upward propagation combines the values, downward propagation applies the pending action to both children and clears it, an update either applies its action or refuses; actions compose, distribute over the operation and are never refused on single elements (the hypothesis of the property)"]
    return [u]
