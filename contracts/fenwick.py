"""Fenwick tree over an arbitrary commutative monoid (fenwick_tree.h)"""
from unit import Unit, Contract
import elem
FT = "altruct::math::fenwick_tree<altruct::El,altruct::OpF>::"
SPEC = elem.FOLD + r"""
pub open spec fn lb(i: nat) -> nat decreases i { if i == 0 { 0 } else if i % 2 == 1 { 1 } else { 2 * lb(i / 2) } }
pub proof fn lemma_lb(i: nat) requires i > 0, ensures 1 <= lb(i) <= i, decreases i { if i % 2 == 0 { lemma_lb(i / 2); } }
/// between a node and its successor no other node reaches back to the covered positions
pub proof fn lemma_lb_gap(q: nat, i: nat) requires 0 < q < i < q + lb(q), ensures i - lb(i) >= q, decreases q
{ if q % 2 == 0 { if i % 2 == 0 { lemma_lb_gap(q / 2, i / 2); } } }
pub proof fn lemma_lb_next(q: nat) requires q > 0, ensures q + lb(q) - lb(q + lb(q)) <= q - lb(q), decreases q
{ let n = q + lb(q); if q % 2 == 0 { lemma_lb_next(q / 2); lemma_lb(q / 2); assert(n == 2 * (q / 2 + lb(q / 2))); assert(n / 2 == q / 2 + lb(q / 2)); }
  else { assert(n % 2 == 0); lemma_lb(n / 2); } }
pub proof fn lemma_lb_bits(i: u64) ensures (i & (sub(0, i))) == lb(i as nat), decreases i
{
    if i == 0 { assert(0u64 & sub(0, 0) == 0) by(bit_vector); }
    else if i % 2 == 1 { assert(i % 2 == 1 ==> (i & sub(0, i)) == 1) by(bit_vector); }
    else { let h = i / 2; lemma_lb_bits(h);
        assert(i % 2 == 0 ==> (i & sub(0, i)) == mul(2, ((i / 2) & sub(0, (i / 2))))) by(bit_vector);
        assert(i % 2 == 0 ==> ((i / 2) & sub(0, (i / 2))) <= 0x7fffffffffffffff) by(bit_vector); }
}
pub open spec fn wf(v: Seq<El>, a: Seq<El>) -> bool {
    v.len() == a.len() + 1 && forall|i: int| 1 <= i < v.len() ==> #[trigger] v[i] == fold(a, i - lb(i as nat), i)
}
pub proof fn lemma_fold_upd(a: Seq<El>, p: int, x: El, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), 0 <= p < a.len(),
    ensures fold(a.update(p, op(a[p], x)), lo, hi) == (if lo <= p < hi { op(fold(a, lo, hi), x) } else { fold(a, lo, hi) }),
    decreases hi - lo,
{
    let b = a.update(p, op(a[p], x));
    if lo < hi {
        lemma_fold_upd(a, p, x, lo, hi - 1);
        let f = fold(a, lo, hi - 1);
        if p == hi - 1 { ax_assoc(f, a[p], x); }
        else if lo <= p { ax_assoc(f, x, a[hi - 1]); ax_comm(x, a[hi - 1]); ax_assoc(f, a[hi - 1], x); }
    }
}
pub proof fn lemma_wf_init(v: Seq<El>, a: Seq<El>)
    requires v.len() == a.len() + 1, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == one(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == one(),
    ensures wf(v, a),
{ assert forall|i: int| 1 <= i < v.len() implies #[trigger] v[i] == fold(a, i - lb(i as nat), i) by { lemma_lb(i as nat); lemma_fold_ones(a, i - lb(i as nat), i); } }
/// r combined with what is left to visit
pub proof fn lemma_get_step(a: Seq<El>, r: El, q: nat)
    requires 0 < q <= a.len(), ensures op(op(r, fold(a, q - lb(q), q as int)), fold(a, 0, q - lb(q))) == op(r, fold(a, 0, q as int)),
{ lemma_lb(q); let x = fold(a, q - lb(q), q as int); let y = fold(a, 0, q - lb(q)); lemma_fold_split(a, 0, q - lb(q), q as int); ax_assoc(r, x, y); ax_comm(x, y); }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator()" and obj is not None:
            return "el_op(%s, %s)" % (tr.exval(args[-2]), tr.exval(args[-1]))
        return None


def units():
    A = "Ghost(a): Ghost<Seq<El>>"
    NA = "a.update(index as int, op(a[index as int], val))"
    cs = [
        Contract("lo_bit", FT + "lo_bit", params=["index"], bits=True, ensures=["r as nat == lb(index as nat)", "*final(self_) == *old(self_)"],
                 hints={"entry": "proof { lemma_lb_bits(index); assert(sub(0u64, index) as int == (0 - index as int) % 0x10000000000000000int) by { if index == 0 { assert(sub(0u64, 0u64) == 0); } else { assert(index > 0 ==> sub(0u64, index) == add(sub(0xffff_ffff_ffff_ffffu64, index), 1)) by(bit_vector); } } }"}),
        Contract("ft_new", "altruct::ft_new", params=["sz", "f", "id"], requires=["id == one()", "sz < 0x0fff_ffff_ffff_fff0"],
                 ensures=["forall|a: Seq<El>| a.len() == sz && (forall|i: int| 0 <= i < sz ==> #[trigger] a[i] == one()) ==> #[trigger] wf(r.v@, a)"],
                 hints={"exit": "proof { assert forall|a: Seq<El>| a.len() == sz && (forall|i: int| 0 <= i < sz ==> #[trigger] a[i] == one()) implies #[trigger] wf(ret__v.v@, a) by { lemma_wf_init(ret__v.v@, a); } }"}),
        Contract("ft_reset", FT + "reset", params=["id"], requires=["id == one()", "old(self_).v@.len() >= 1"],
                 ensures=["final(self_).v@.len() == old(self_).v@.len()", "forall|a: Seq<El>| a.len() + 1 == old(self_).v@.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == one()) ==> #[trigger] wf(final(self_).v@, a)"],
                 hints={"exit": "proof { assert forall|a: Seq<El>| a.len() + 1 == old(self_).v@.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == one()) implies #[trigger] wf(self_.v@, a) by { lemma_wf_init(self_.v@, a); } }"}),
        Contract("ft_add", FT + "add", params=["index", "val"], extra=[A],
                 requires=["wf(old(self_).v@, a)", "index < a.len()", "a.len() < 0x0fff_ffff_ffff_ffff"], ensures=["wf(final(self_).v@, %s)" % NA],
                 hints={"entry": "let ghost p = index as int + 1; let ghost b = %s; let ghost v0 = self_.v@; proof { lemma_lb(p as nat); assert forall|i: int| 1 <= i < p implies #[trigger] v0[i] == fold(b, i - lb(i as nat), i) by { lemma_lb(i as nat); lemma_fold_upd(a, p - 1, val, i - lb(i as nat), i); } }" % NA,
                        "L0.begin": "let ghost q = index as nat; proof { assert(b.len() == a.len()); lemma_lb(q); lemma_lb_next(q); assert(index as int == q && 1 <= q <= a.len()); lemma_fold_upd(a, p - 1, val, q - lb(q), q as int); let cur = self_.v@[q as int]; assert(cur == fold(a, q - lb(q), q as int)); }",
                        "L0.end": "proof { assert(self_.v@[q as int] == fold(b, q - lb(q), q as int)); assert forall|i: int| q < i < q + lb(q) && i <= a.len() implies #[trigger] self_.v@[i] == fold(b, i - lb(i as nat), i) by { lemma_lb(i as nat); lemma_lb_gap(q, i as nat); lemma_fold_upd(a, p - 1, val, i - lb(i as nat), i); } }",
                        },
                 loops={0: dict(invariant=["wf(v0, a)", "b =~= %s" % NA.replace("index as int", "p - 1"), "1 <= p <= a.len()", "self_.v@.len() == a.len() + 1", "a.len() <= 0x0fff_ffff_ffff_ffff",
                                           "p <= index", "index - lb(index as nat) < p", "index <= 0x2000_0000_0000_0000",
                                           "forall|i: int| 1 <= i < index && i <= a.len() ==> #[trigger] self_.v@[i] == fold(b, i - lb(i as nat), i)",
                                           "forall|i: int| index <= i <= a.len() ==> #[trigger] self_.v@[i] == v0[i]"],
                                decreases="0x2000_0000_0000_0000 - index")}),
        Contract("ft_get", FT + "get_sum", params=["index", "id"], extra=[A],
                 requires=["wf(old(self_).v@, a)", "index < a.len()", "a.len() < 0x0fff_ffff_ffff_ffff"], ensures=["r == op(id, fold(a, 0, index + 1))", "final(self_).v@ == old(self_).v@"],
                 hints={"entry": "let ghost p = index as int + 1;", "L0.begin": "proof { lemma_lb(index as nat); lemma_get_step(a, r, index as nat); let cur = self_.v@[index as int]; assert(cur == fold(a, index - lb(index as nat), index as int)); }",
                        "exit": "proof { ax_unit(ret__v); }"},
                 loops={0: dict(invariant=["wf(self_.v@, a)", "self_.v@ == old(self_).v@", "index <= a.len()", "p == index_0 + 1", "op(r, fold(a, 0, index as int)) == op(id, fold(a, 0, p))"], decreases="index")}),
    ]
    # inside the walks the low bit is known to be a proper divisor of the index
    tu = "namespace altruct { struct OpF { El operator()(const El& a, const El& b) const; };\ninline math::fenwick_tree<El, OpF> ft_new(size_t sz, const OpF& f, El id) { return math::fenwick_tree<El, OpF>(sz, f, id); }\n}\ntemplate struct altruct::math::fenwick_tree<altruct::El, altruct::OpF>;\n"
    tu = tu.replace("template struct altruct::math::fenwick_tree<altruct::El, altruct::OpF>;\n", "namespace altruct { inline void use(math::fenwick_tree<El, OpF>& t, El x) { t.add(0, x); t.get_sum(0, x); t.reset(x); } }\n")
    u = Unit("fenwick", ["altruct/structure/math/fenwick_tree.h"], tu, cs, SPEC)
    u.hooks.append(Hook())
    elem.setup(u, comm=True)
    u.type_map["altruct::OpF"] = "()"; u.type_map["OpF"] = "()"
    u.struct_over["Fenwick_tree_El_altruct_OpF"] = dict(drop=("f",), copy=False)
    return [u]
