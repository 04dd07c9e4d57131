"""An arbitrary totally pre-ordered element type: comparison is an uninterpreted strict weak order."""
CXX = r"""
namespace altruct { struct Oe { long v_; bool operator<(const Oe& o) const; bool operator==(const Oe& o) const; }; struct LtF { bool operator()(const Oe& a, const Oe& b) const; }; }
"""
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Oe { v: i64 }
#[verifier::external_body] pub fn any_Oe() -> Oe { Oe { v: 0 } }
pub uninterp spec fn lt(a: Oe, b: Oe) -> bool;
#[verifier::external_body] pub fn lt_call(a: Oe, b: Oe) -> (r: bool) ensures r == lt(a, b) { false }
/// strict weak order
#[verifier::external_body] pub proof fn ax_asym(a: Oe, b: Oe) ensures !(lt(a, b) && lt(b, a)) {}
#[verifier::external_body] pub proof fn ax_negtrans(a: Oe, b: Oe, c: Oe) ensures !lt(a, b) && !lt(b, c) ==> !lt(a, c) {}
pub proof fn lemma_swap_ms<A>(s: Seq<A>, i: int, j: int) requires 0 <= i < s.len(), 0 <= j < s.len(),
    ensures s.update(i, s[j]).update(j, s[i]).to_multiset() =~= s.to_multiset()
{ broadcast use group_to_multiset_ensures; }
pub proof fn lemma_push_ms<A>(s: Seq<A>, x: A) ensures s.push(x).to_multiset() =~= s.to_multiset().insert(x) { broadcast use group_to_multiset_ensures; }
pub proof fn lemma_pop_ms<A>(s: Seq<A>) requires s.len() > 0, ensures s.drop_last().to_multiset().insert(s.last()) =~= s.to_multiset()
{ broadcast use group_to_multiset_ensures; assert(s =~= s.drop_last().push(s.last())); }
pub open spec fn inpre<A>(b: Seq<A>, n: int, x: A) -> bool { exists|j: int| 0 <= j < n && #[trigger] b[j] == x }
/// same suffix and same multiset: the prefixes have the same elements
pub proof fn lemma_prefix_ms<A>(a: Seq<A>, b: Seq<A>, n: int)
    requires a.len() == b.len(), 0 <= n <= a.len(), a.to_multiset() == b.to_multiset(), forall|i: int| n <= i < a.len() ==> #[trigger] a[i] == b[i],
    ensures a.subrange(0, n).to_multiset() =~= b.subrange(0, n).to_multiset(), forall|i: int| 0 <= i < n ==> inpre(b, n, #[trigger] a[i]),
{
    let ta = a.subrange(n, a.len() as int); let tb = b.subrange(n, b.len() as int); let pa = a.subrange(0, n); let pb = b.subrange(0, n);
    assert(ta =~= tb); lemma_multiset_commutative(pa, ta); lemma_multiset_commutative(pb, tb); assert(a =~= pa + ta); assert(b =~= pb + tb);
    assert forall|x: A| pa.to_multiset().count(x) == pb.to_multiset().count(x) by {
        assert(a.to_multiset().count(x) == pa.to_multiset().count(x) + ta.to_multiset().count(x)); assert(b.to_multiset().count(x) == pb.to_multiset().count(x) + tb.to_multiset().count(x)); }
    assert(pa.to_multiset() =~= pb.to_multiset());
    broadcast use group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < n implies inpre(b, n, #[trigger] a[i]) by {
        assert(pa[i] == a[i]); assert(pa.contains(a[i])); assert(pa.to_multiset().contains(a[i])); assert(pb.contains(a[i])); let j = choose|j: int| 0 <= j < pb.len() && pb[j] == a[i]; assert(b[j] == a[i]); }
}
"""
TRUSTED = ["the abstract ordered element type stands for every instantiation: its comparison is an uninterpreted total function assumed to be a strict weak order (the hypothesis of the property)"]


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name in ("operator()", "operator<") and obj is not None:
            s = tr.strip_callee(obj)
            t = s["type"].get("desugaredQualType", s["type"]["qualType"])
            if name == "operator()" and "LtF" in t:
                return "lt_call(%s, %s)" % (tr.exval(args[-2]), tr.exval(args[-1]))
            if name == "operator<" and "Oe" in t:
                return "lt_call(%s, %s)" % (tr.exval(obj), tr.exval(args[-1]))
        return None


def setup(u):
    u.tu = CXX + u.tu
    for k in ("altruct::Oe", "Oe"):
        u.type_map[k] = "Oe"
    for k in ("altruct::LtF", "LtF"):
        u.type_map[k] = "()"
    u.copy_types.add("Oe")
    u.arbs["Oe"] = "any_Oe()"
    u.hooks.append(Hook())
    u.specs = SPEC + u.specs
    u.trusted += TRUSTED
    return u
