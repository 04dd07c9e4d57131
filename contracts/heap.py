"""binary heap over an arbitrary strict weak order (binary_heap.h)"""
from unit import Unit, Contract
import ordel
BH = "altruct::container::binary_heap<altruct::Oe,altruct::LtF>::"
SPEC = r"""
pub open spec fn par(k: int) -> int { (k - 1) / 2 }
pub open spec fn hok(v: Seq<Oe>, k: int) -> bool { !lt(v[k], v[par(k)]) }
/// heap order for all nodes whose parent is at least lo
pub open spec fn heapfrom(v: Seq<Oe>, lo: int, sz: int) -> bool { forall|k: int| 1 <= k < sz && par(k) >= lo ==> #[trigger] hok(v, k) }
pub open spec fn heap(v: Seq<Oe>) -> bool { heapfrom(v, 0, v.len() as int) }
pub open spec fn sorted(v: Seq<Oe>) -> bool { forall|i: int, j: int| 0 <= i <= j < v.len() ==> !lt(#[trigger] v[j], #[trigger] v[i]) }
pub proof fn lemma_front(v: Seq<Oe>, sz: int, k: int) requires heapfrom(v, 0, sz), 0 <= k < sz, ensures !lt(v[k], v[0]), decreases k
{ if k == 0 { ax_asym(v[0], v[0]); } else { assert(hok(v, k)); lemma_front(v, sz, par(k)); ax_negtrans(v[k], v[par(k)], v[0]); } }
/// order within the subtree rooted at index: everything but index itself
pub open spec fn down_inv(v: Seq<Oe>, lo: int, sz: int, i: int) -> bool {
    (forall|k: int| 1 <= k < sz && par(k) >= lo && par(k) != i ==> #[trigger] hok(v, k))
    && (i > lo && par(i) >= lo ==> (2 * i + 1 < sz ==> !lt(v[2 * i + 1], v[par(i)])) && (2 * i + 2 < sz ==> !lt(v[2 * i + 2], v[par(i)])))
}
pub open spec fn up_inv(v: Seq<Oe>, i: int) -> bool {
    (forall|k: int| 1 <= k < v.len() && k != i ==> #[trigger] hok(v, k))
    && (i > 0 ==> (2 * i + 1 < v.len() ==> !lt(v[2 * i + 1], v[par(i)])) && (2 * i + 2 < v.len() ==> !lt(v[2 * i + 2], v[par(i)])))
}
pub open spec fn swp(v: Seq<Oe>, i: int, j: int) -> Seq<Oe> { v.update(i, v[j]).update(j, v[i]) }
pub proof fn lemma_down_step(v: Seq<Oe>, lo: int, sz: int, i: int, b: int)
    requires 0 <= lo <= i, b == 2 * i + 1 || b == 2 * i + 2, b < sz <= v.len(), down_inv(v, lo, sz, i), lt(v[b], v[i]),
        forall|c: int| (c == 2 * i + 1 || c == 2 * i + 2) && c < sz ==> !lt(#[trigger] v[c], v[b]),
    ensures down_inv(swp(v, i, b), lo, sz, b), swp(v, i, b).to_multiset() == v.to_multiset(),
{
    let w = swp(v, i, b);
    lemma_swap_ms(v, i, b);
    ax_asym(v[b], v[i]);
    assert(par(b) == i);
    assert forall|k: int| 1 <= k < sz && par(k) >= lo && par(k) != b implies #[trigger] hok(w, k) by {
        if k == b { assert(w[k] == v[i] && w[par(k)] == v[b]); }
        else if par(k) == i { assert(k == 2 * i + 1 || k == 2 * i + 2); assert(w[k] == v[k]); assert(w[i] == v[b]); assert(!lt(v[k], v[b])); }
        else if k == i { assert(w[k] == v[b]); assert(w[par(k)] == v[par(i)]); }
        else { assert(hok(v, k)); assert(w[k] == v[k]); assert(w[par(k)] == v[par(k)]); }
    }
    assert(hok(v, 2 * b + 1) || 2 * b + 1 >= sz); assert(hok(v, 2 * b + 2) || 2 * b + 2 >= sz);
}
pub proof fn lemma_up_step(v: Seq<Oe>, i: int)
    requires 0 < i < v.len(), up_inv(v, i), lt(v[i], v[par(i)]),
    ensures up_inv(swp(v, i, par(i)), par(i)), swp(v, i, par(i)).to_multiset() == v.to_multiset(),
{
    let p = par(i); let w = swp(v, i, p); lemma_swap_ms(v, i, p); ax_asym(v[i], v[p]);
    let o = if i == 2 * p + 1 { 2 * p + 2 } else { 2 * p + 1 };
    if o < v.len() { assert(hok(v, o)); assert(par(o) == p); ax_negtrans(v[o], v[p], v[i]); }
    if p > 0 { assert(hok(v, p)); if o < v.len() { ax_negtrans(v[o], v[p], v[par(p)]); }  
        // the moved element's former parent is not before its own parent
        assert(!lt(v[p], v[par(p)])); }
    assert forall|k: int| 1 <= k < w.len() && k != p implies #[trigger] hok(w, k) by {
        if k == i { assert(w[i] == v[p] && w[p] == v[i]); }
        else if par(k) == i { assert(k == 2 * i + 1 || k == 2 * i + 2); assert(w[k] == v[k]); assert(w[i] == v[p]); }
        else if par(k) == p { assert(k == o); assert(w[k] == v[k]); }
        else { assert(hok(v, k)); assert(w[k] == v[k]); assert(w[par(k)] == v[par(k)]); }
    }
}
/// front moved to the end of the shrinking heap, rest reordered: everything left is not before what was taken out
pub open spec fn sort_inv(v: Seq<Oe>, n: int) -> bool {
    (forall|i: int, j: int| n <= j < v.len() && 0 <= i <= j ==> !lt(#[trigger] v[i], #[trigger] v[j]))
}
"""


def units():
    F = "final(self_).v@"
    O = "old(self_).v@"
    BIG = "0x0800_0000_0000_0000"
    cs = [
        Contract("bh_up", BH + "heapify_up", params=["index"], requires=["index < %s.len()" % O, "up_inv(%s, index as int)" % O, O + ".len() < " + BIG], ensures=["heap(%s)" % F, "%s.to_multiset() == %s.to_multiset()" % (F, O), "%s.len() == %s.len()" % (F, O)],
                 hints={"L0.begin": "let ghost va = self_.v@; let ghost ix = index as int; proof { if lt(va[ix], va[par(ix)]) { lemma_up_step(va, ix); } }",
                        "L0.end": "proof { assert(self_.v@ =~= swp(va, ix, par(ix))); }",
                        "L0.break": "proof { assert forall|k: int| 1 <= k < self_.v@.len() implies #[trigger] hok(self_.v@, k) by {} }"},
                 loops={0: dict(invariant=["self_.v@.len() == old(self_).v@.len()", "old(self_).v@.len() < " + BIG, "index < self_.v@.len()", "self_.v@.to_multiset() == old(self_).v@.to_multiset()"],
                                invariant_except_break=["up_inv(self_.v@, index as int)"], ensures=["heap(self_.v@)"], decreases="index")}, isolation=False, attrs=["#[verifier::allow_complex_invariants]"]),
        Contract("bh_down", BH + "heapify_down", params=["index", "sz"], requires=["sz <= %s.len()" % O, "heapfrom(%s, index + 1, sz as int)" % O, O + ".len() < " + BIG, "index < sz || sz == 0", "index < " + BIG],
                 ensures=["heapfrom(%s, index as int, sz as int)" % F, "%s.to_multiset() == %s.to_multiset()" % (F, O), "%s.len() == %s.len()" % (F, O), "forall|k: int| (0 <= k < index || sz <= k < {0}.len()) ==> #[trigger] {1}[k] == {0}[k]".format(O, F)],
                 hints={"entry": "let ghost lo = index as int; let ghost v0 = self_.v@;",
                        "L0.begin": "let ghost va = self_.v@; proof { assert forall|c: int| c < sz && 0 <= c implies !lt(#[trigger] va[c], va[c]) by { ax_asym(va[c], va[c]); } if 2 * index + 2 < sz { ax_asym(va[2 * index + 1], va[index as int]); ax_asym(va[2 * index + 2], va[index as int]); ax_asym(va[2 * index + 1], va[2 * index + 2]); ax_negtrans(va[2 * index + 2], va[index as int], va[2 * index + 1]); ax_negtrans(va[2 * index + 1], va[index as int], va[2 * index + 2]); } }",
                        "L0.break": "proof { assert forall|k: int| 1 <= k < sz && par(k) >= lo implies #[trigger] hok(self_.v@, k) by { if par(k) == index { assert(k == 2 * index + 1 || k == 2 * index + 2); } } }",
                        "stmt:^index = best.before": "proof { lemma_down_step(va, lo, sz as int, index as int, best as int); assert(self_.v@ =~= swp(va, index as int, best as int)); }"},
                 loops={0: dict(invariant=["self_.v@.len() == v0.len()", "sz <= v0.len()", "v0.len() < " + BIG, "lo <= index", "best == index", "index < sz || sz == 0", "index < %s" % BIG, "self_.v@.to_multiset() == v0.to_multiset()",
                                           "forall|k: int| (0 <= k < lo || sz <= k < v0.len()) ==> #[trigger] self_.v@[k] == v0[k]"], invariant_except_break=["down_inv(self_.v@, lo, sz as int, index as int)"],
                                ensures=["heapfrom(self_.v@, lo, sz as int)"], decreases="sz - index")}, attrs=["#[verifier::allow_complex_invariants]"]),
        Contract("bh_insert", BH + "insert", params=["val"], requires=["heap(%s)" % O, O + ".len() < 0x0400_0000_0000_0000"], ensures=["heap(%s)" % F, "%s.to_multiset() == %s.to_multiset().insert(val)" % (F, O)],
                 hints={"use:push_back.after": "proof { lemma_push_ms(old(self_).v@, val); let n = old(self_).v@.len() as int; assert forall|k: int| 1 <= k < self_.v@.len() && k != n implies #[trigger] hok(self_.v@, k) by { assert(hok(old(self_).v@, k)); } }"}),
        Contract("bh_front", BH + "front", params=[], requires=["heap(self_.v@)", "self_.v@.len() > 0"], ensures=["r == self_.v@[0]", "forall|k: int| 0 <= k < self_.v@.len() ==> !lt(#[trigger] self_.v@[k], r)"],
                 hints={"exit": "proof { assert forall|k: int| 0 <= k < self_.v@.len() implies !lt(#[trigger] self_.v@[k], ret__v) by { lemma_front(self_.v@, self_.v@.len() as int, k); } }"}),
        Contract("bh_pop", BH + "pop_front", params=[], requires=["heap(%s)" % O, O + ".len() > 0", O + ".len() < " + BIG], ensures=["heap(%s)" % F, "{1}.to_multiset() == {0}.to_multiset().insert({1}[0])".format(F, O), "%s.len() == %s.len() - 1" % (F, O)],
                 hints={"use:pop_back.after": "proof { let o = old(self_).v@; let n = o.len() as int - 1; lemma_swap_ms(o, 0, n); let s = swp(o, 0, n); lemma_pop_ms(s); assert(s.last() == o[0]); assert(self_.v@ =~= s.drop_last()); assert forall|k: int| 1 <= k < self_.v@.len() && par(k) >= 1 implies #[trigger] hok(self_.v@, k) by { assert(hok(o, k)); } }"}),
        Contract("bh_rebuild", BH + "rebuild", params=[], requires=[O + ".len() < " + BIG], ensures=["heap(%s)" % F, "%s.to_multiset() == %s.to_multiset()" % (F, O)],
                 hints={"L0.before": "proof { let n = self_.v@.len() as int; assert forall|k: int| 1 <= k < n && par(k) >= n / 2 implies #[trigger] hok(self_.v@, k) by { assert(false); } }"},
                 loops={0: dict(invariant=["self_.v@.len() == old(self_).v@.len()", "old(self_).v@.len() < " + BIG, "index <= self_.v@.len() / 2", "heapfrom(self_.v@, index as int, self_.v@.len() as int)", "self_.v@.to_multiset() == old(self_).v@.to_multiset()"], decreases="index")}),
        Contract("bh_sort", BH + "sort", params=[], requires=["heap(%s)" % O, O + ".len() < " + BIG], ensures=["sorted(%s)" % F, "%s.to_multiset() == %s.to_multiset()" % (F, O), "%s.len() == %s.len()" % (F, O)],
                 hints={"L0.begin": "let ghost va = self_.v@; let ghost ix = index as int; let ghost vs = swp(va, 0, ix - 1); proof { lemma_swap_ms(va, 0, ix - 1); assert forall|k: int| 0 <= k < ix implies !lt(#[trigger] va[k], va[0]) by { lemma_front(va, ix, k); } assert forall|k: int| 1 <= k < ix - 1 && par(k) >= 1 implies #[trigger] hok(vs, k) by { assert(hok(va, k)); } assert(vs[ix - 1] == va[0]); }",
                        "use:heapify_down.before": "proof { assert(self_.v@ =~= vs); if ix == 1 { ax_asym(vs[0], vs[0]); } }",
                        "use:heapify_down.after": "proof { let w = self_.v@; lemma_prefix_ms(w, vs, ix - 1); ax_asym(va[0], va[0]); assert forall|i: int, j: int| ix - 1 <= j < w.len() && 0 <= i <= j implies !lt(#[trigger] w[i], #[trigger] w[j]) by { assert(w[j] == vs[j]); if i < ix - 1 { assert(inpre(vs, ix - 1, w[i])); let q = choose|q: int| 0 <= q < ix - 1 && #[trigger] vs[q] == w[i]; let q2 = if q == 0 { ix - 1 } else { q }; assert(vs[q] == va[q2]); if j >= ix { assert(!lt(va[q2], va[j])); assert(vs[j] == va[j]); } else { assert(w[j] == va[0]); assert(!lt(va[q2], va[0])); } } else { assert(w[i] == vs[i]); let i2 = if i == ix - 1 { 0 } else { i }; assert(vs[i] == va[i2]); if j >= ix { assert(vs[j] == va[j]); assert(!lt(va[i2], va[j])); } } } }",
                        "entry": "let ghost mut vr = self_.v@;", "L0.after": "proof { vr = self_.v@; }",
                        "exit": "proof { let w = self_.v@; assert(w =~= vr.reverse()); vr.lemma_reverse_to_multiset(); assert forall|i: int, j: int| 0 <= i <= j < w.len() implies !lt(#[trigger] w[j], #[trigger] w[i]) by { let n = vr.len() as int; assert(w[i] == vr[n - 1 - i]); assert(w[j] == vr[n - 1 - j]); assert(!lt(vr[n - 1 - j], vr[n - 1 - i])); } }"},
                 loops={0: dict(invariant=["self_.v@.len() == old(self_).v@.len()", "old(self_).v@.len() < " + BIG, "index <= self_.v@.len()", "heapfrom(self_.v@, 0, index as int)", "sort_inv(self_.v@, index as int)", "self_.v@.to_multiset() == old(self_).v@.to_multiset()"], decreases="index")}),
        Contract("bh_size", BH + "size", params=[], ensures=["r as int == self_.v@.len()"]),
        Contract("bh_make", "altruct::bh_make", params=["v", "cmp"], requires=["old(v)@.len() < " + BIG], ensures=["heap(r.v@)", "r.v@.to_multiset() == old(v)@.to_multiset()", "final(v)@ == old(v)@"]),
    ]
    tu = """namespace altruct { typedef container::binary_heap<Oe, LtF> Bh;
inline Bh bh_make(std::vector<Oe>& v, const LtF& cmp) { return Bh(v, cmp); }
inline void use(Bh& h, Oe x) { h.insert(x); h.front(); h.pop_front(); h.rebuild(); h.sort(); h.size(); } }
"""
    u = Unit("heap", ["altruct/structure/container/binary_heap.h", "algorithm", "functional"], tu, cs, SPEC)
    ordel.setup(u)
    u.struct_over["Binary_heap_Oe_altruct_LtF"] = dict(drop=("cmp",), copy=False)
    return [u]
