"""segment tree over an arbitrary monoid (segment_tree.h)"""
from unit import Unit, Contract
import elem, fenwick
ST = "altruct::container::segment_tree<altruct::El,altruct::OpF>::"
SPEC = elem.FOLD + r"""
pub open spec fn p2(n: int) -> bool decreases n { n == 1 || (n >= 2 && n % 2 == 0 && p2(n / 2)) }
pub open spec fn ok(v: Seq<El>, j: int) -> bool { v[j] == op(v[2 * j], v[2 * j + 1]) }
pub open spec fn shape(v: Seq<El>) -> bool { v.len() % 2 == 0 && p2(v.len() as int / 2) && v.len() < 0x1000_0000_0000_0000 && v[0] == one() }
pub open spec fn tree(v: Seq<El>) -> bool { shape(v) && forall|j: int| 1 <= j < v.len() / 2 ==> #[trigger] ok(v, j) }
/// the logical elements
pub open spec fn els(v: Seq<El>) -> Seq<El> { v.subrange(v.len() as int / 2, v.len() as int) }
/// the caller changed at most the elements of [b, e) since the last consistent state w
pub open spec fn dirty(v: Seq<El>, w: Seq<El>, b: int, e: int) -> bool {
    tree(w) && v.len() == w.len() && forall|j: int| 0 <= j < v.len() && !(v.len() / 2 + b <= j < v.len() / 2 + e) ==> #[trigger] v[j] == w[j]
}
pub proof fn lemma_p2(n: int) requires p2(n), ensures n >= 1, n == 1 || (n % 2 == 0 && p2(n / 2) && n / 2 * 2 == n) {}
/// two rows of the tree have the same products
pub proof fn lemma_up(v: Seq<El>, i: int, b: int, e: int)
    requires 1 <= i, 0 <= b, forall|j: int| i + b <= j < i + e ==> #[trigger] ok(v, j),
    ensures fold(v, 2 * i + 2 * b, 2 * i + 2 * e) == fold(v, i + b, i + e), decreases e - b,
{
    if b < e {
        lemma_up(v, i, b, e - 1);
        let k = 2 * i + 2 * e;
        assert(ok(v, i + e - 1));
        let f = fold(v, 2 * i + 2 * b, k - 2);
        assert(fold(v, 2 * i + 2 * b, k - 1) == op(f, v[k - 2]));
        assert(fold(v, 2 * i + 2 * b, k) == op(op(f, v[k - 2]), v[k - 1]));
        ax_assoc(f, v[k - 2], v[k - 1]);
        assert(2 * (i + e - 1) == k - 2);
    }
}
pub proof fn lemma_shift(v: Seq<El>, s: int, b: int, e: int)
    requires 0 <= b, 0 <= s, s + e <= v.len(), ensures fold(v.subrange(s, v.len() as int), b, e) == fold(v, s + b, s + e), decreases e - b,
{ if b < e { lemma_shift(v, s, b, e - 1); } }
pub proof fn lemma_front(v: Seq<El>, b: int, e: int) requires b < e, ensures fold(v, b, e) == op(v[b], fold(v, b + 1, e))
{ lemma_fold_split(v, b, b + 1, e); lemma_fold_one(v, b); }
/// one element moved from the middle product to the left / right accumulator
pub proof fn lemma_left(v: Seq<El>, tl: El, b: int, e: int, tr: El) requires b < e,
    ensures op(op(op(tl, v[b]), fold(v, b + 1, e)), tr) == op(op(tl, fold(v, b, e)), tr)
{ lemma_front(v, b, e); ax_assoc(tl, v[b], fold(v, b + 1, e)); }
pub proof fn lemma_right(v: Seq<El>, tl: El, b: int, e: int, tr: El) requires b < e,
    ensures op(op(tl, fold(v, b, e - 1)), op(v[e - 1], tr)) == op(op(tl, fold(v, b, e)), tr)
{ let f = fold(v, b, e - 1); ax_assoc(tl, f, v[e - 1]); ax_assoc(op(tl, f), v[e - 1], tr); }
"""


class Hook(fenwick.Hook):
    pass


def units():
    S = "self_.v@.len() as int / 2"
    G = "let ghost v0 = self_.v@; let ghost n = v0.len() as int / 2;"
    W = "Ghost(w): Ghost<Seq<El>>"
    PATHINV = ["self_.v@.len() == v0.len()", "shape(v0)", "n == v0.len() / 2", "0 <= index < 2 * n", "self_.v@[0] == one()",
               "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v1[j]", "forall|j: int| 1 <= j < n && j != index as int / 2 ==> #[trigger] ok(self_.v@, j)"]
    def path(first):
        return {0: dict(invariant=PATHINV, invariant_except_break=[], decreases="index")}
    rebuilt = lambda: ["tree(final(self_).v@)", "els(final(self_).v@) == els(old(self_).v@)", "final(self_).v@.len() == old(self_).v@.len()"]
    FIN = "proof { assert(els(self_.v@) =~= els(%s)); }"
    cs = [
        Contract("pow2_of", ST + "calc_pow2", params=["sz"], requires=["sz < 0x0400_0000_0000_0000"], ensures=["p2(r as int)", "r >= sz", "r >= 1", "r < 0x0800_0000_0000_0000", "sz >= 1 ==> r < 2 * sz"],
                 loops={0: dict(invariant=["p2(w as int)", "w >= 1", "w < 2 * sz || w == 1", "sz < 0x0400_0000_0000_0000"], decreases="2 * sz - w")},
                 hints={"L0.begin": "let ghost w0 = w as int;", "L0.end": "proof { assert(w == 2 * w0 && w as int / 2 == w0); }"}),
        Contract("update", ST + "update", params=["i"], requires=["2 * i + 1 < old(self_).v@.len()", "old(self_).v@.len() < 0x1000_0000_0000_0000"],
                 ensures=["final(self_).v@ == old(self_).v@.update(i as int, op(old(self_).v@[2 * i], old(self_).v@[2 * i + 1]))"]),
        Contract("size", ST + "size", params=[], ensures=["r as int == self_.v@.len() / 2"]),
        Contract("st_new", "altruct::st_new", params=["sz", "f", "id"], requires=["id == one()", "sz < 0x0400_0000_0000_0000"],
                 ensures=["tree(r.v@)", "r.v@.len() / 2 >= sz", "forall|i: int| 0 <= i < els(r.v@).len() ==> #[trigger] els(r.v@)[i] == one()"],
                 hints={"exit": "proof { assert forall|j: int| 1 <= j < ret__v.v@.len() / 2 implies #[trigger] ok(ret__v.v@, j) by { ax_unit(one()); } }"}),
        Contract("st_make", "altruct::st_make", params=["b", "e", "f", "id"], modes={"b": "ptr:src", "e": "ptr:src"}, requires=["id == one()", "0 <= b <= e <= src@.len()", "src@.len() < 0x0400_0000_0000_0000"],
                 ensures=["tree(r.v@)", "r.v@.len() / 2 >= e - b", "forall|i: int| 0 <= i < els(r.v@).len() ==> #[trigger] els(r.v@)[i] == (if i < e - b { src@[b + i] } else { one() })"]),
        Contract("st_set", ST + "set", params=["index", "t"], requires=["tree(old(self_).v@)", "index < old(self_).v@.len() / 2"],
                 ensures=["tree(final(self_).v@)", "els(final(self_).v@) == els(old(self_).v@).update(index as int, t)", "final(self_).v@.len() == old(self_).v@.len()"],
                 hints={"entry": G, "L0.before": "let ghost v1 = self_.v@; proof { lemma_p2(n); assert forall|j: int| 1 <= j < n && j != index as int / 2 implies #[trigger] ok(self_.v@, j) by { assert(ok(v0, j)); } }",
                        "L0.begin": "let ghost va = self_.v@;", "use:update.before": "proof { assert(index < n); }",
                        "L0.end": "proof { assert forall|j: int| 1 <= j < n && j != index as int / 2 implies #[trigger] ok(self_.v@, j) by { if j != index { assert(ok(va, j)); } } }",
                        "L0.after": "proof { assert(els(self_.v@) =~= els(v0).update(index_0 as int, t)); }"},
                 loops=path(0)),
        Contract("st_at", ST + "operator[]", pred=lambda f: f["type"]["qualType"].rstrip().endswith("const"), params=["index"], requires=["tree(self_.v@)", "index < self_.v@.len() / 2"], ensures=["r == els(self_.v@)[index as int]"]),
        Contract("st_read", ST + "get", pred=lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == 1, params=["index"], requires=["tree(self_.v@)", "index < self_.v@.len() / 2"], ensures=["r == els(self_.v@)[index as int]"]),
        Contract("st_get", ST + "get", pred=lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == 2, params=["begin", "end"], requires=["tree(self_.v@)", "begin <= end <= self_.v@.len() / 2"],
                 ensures=["r == fold(els(self_.v@), begin as int, end as int)"],
                 hints={"entry": "let ghost v = self_.v@; let ghost n = v.len() as int / 2; let ghost total = fold(v, n + begin, n + end); proof { lemma_shift(v, n, begin as int, end as int); ax_unit(total); ax_unit(op(one(), total)); lemma_p2(n); }",
                        "L0.begin": "let ghost b0 = begin as int; let ghost e0 = end as int; let ghost i0 = i as int; proof { lemma_p2(i0); lemma_left(v, tl, i0 + b0, i0 + e0, tr); let b1 = if b0 % 2 == 1 { b0 + 1 } else { b0 }; let tl1 = if b0 % 2 == 1 { op(tl, v[i0 + b0]) } else { tl }; let e1 = if e0 % 2 == 1 { e0 - 1 } else { e0 }; if e0 % 2 == 1 { assert(b1 < e0); lemma_right(v, tl1, i0 + b1, i0 + e0, tr); } if i0 >= 2 { lemma_up(v, i0 / 2, b1 / 2, e1 / 2); } else { assert(b1 == e1); } }",
                        "exit": "proof { ax_unit(tl); }"},
                 loops={0: dict(invariant=["v == self_.v@", "tree(v)", "n == v.len() / 2", "begin <= end", "begin < end ==> i >= 1", "end <= i", "i <= n", "i >= 1 ==> p2(i as int)", "op(op(tl, fold(v, i + begin, i + end)), tr) == total"], decreases="end")}),
        Contract("st_rebuild", ST + "rebuild", pred=lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == 0, params=[], requires=["shape(old(self_).v@)"], ensures=rebuilt(),
                 hints={"entry": G + " proof { lemma_p2(n); }", "L0.begin": "let ghost va = self_.v@;",
                        "use:update.after": "proof { assert forall|j: int| i <= j < n implies #[trigger] ok(self_.v@, j) by { if j > i { assert(ok(va, j)); } } }", "L0.after": FIN % "v0"},
                 loops={0: dict(invariant=["self_.v@.len() == v0.len()", "shape(v0)", "n == v0.len() / 2", "i < n", "self_.v@[0] == one()", "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]", "forall|j: int| i < j < n ==> #[trigger] ok(self_.v@, j)"], decreases="i")}),
        Contract("st_rebuild1", ST + "rebuild", pred=lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == 1, params=["index"], extra=[W], requires=["index < old(self_).v@.len() / 2", "dirty(old(self_).v@, w, index as int, index + 1)"], ensures=rebuilt(),
                 hints={"entry": G + " let ghost v1 = v0;", "L0.before": "proof { lemma_p2(n); assert forall|j: int| 1 <= j < n && j != index as int / 2 implies #[trigger] ok(self_.v@, j) by { assert(ok(w, j)); } }",
                        "L0.begin": "let ghost va = self_.v@;", 
                        "L0.end": "proof { assert forall|j: int| 1 <= j < n && j != index as int / 2 implies #[trigger] ok(self_.v@, j) by { if j != index { assert(ok(va, j)); } } }",
                        "L0.after": FIN % "v0"},
                 loops=path(0)),
        Contract("st_rebuild2", ST + "rebuild", pred=lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == 2, params=["begin", "end"], extra=[W], requires=["begin < end <= old(self_).v@.len() / 2", "dirty(old(self_).v@, w, begin as int, end as int)"], ensures=rebuilt(),
                 hints={"entry": G + " let ghost mut L: int = n; proof { lemma_p2(n); }",
                        "L0.begin": "let ghost b0 = b as int; let ghost e0 = e as int; let ghost va = self_.v@; proof { lemma_p2(L); L = L / 2; }",
                        "L1.begin": "let ghost vb = self_.v@;",
                        "use:update.after": "proof { assert forall|j: int| L <= j < n && !(b <= j < i) implies #[trigger] ok(self_.v@, j) by { if j != i { assert(ok(vb, j)); } } }",
                        "L1.before": "proof { assert forall|j: int| L <= j < n && !(b <= j <= e) implies #[trigger] ok(self_.v@, j) by { assert(va == self_.v@); if j < 2 * L { assert(ok(w, j)); assert(va[j] == w[j]); assert(va[2 * j] == w[2 * j]); assert(va[2 * j + 1] == w[2 * j + 1]); } else { assert(ok(va, j)); } } }",
                        "L0.after": FIN % "v0"},
                 loops={0: dict(invariant=["self_.v@.len() == v0.len()", "tree(w)", "w.len() == v0.len()", "n == v0.len() / 2", "p2(n)", "p2(L)", "1 <= L <= b <= e < 2 * L", "L <= n", "L <= 0x1000_0000_0000_0000", "self_.v@[0] == one()",
                                           "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]",
                                           "forall|j: int| 0 <= j < 2 * L && !(b <= j <= e) ==> #[trigger] self_.v@[j] == w[j]",
                                           "forall|j: int| L <= j < n ==> #[trigger] ok(self_.v@, j)"], decreases="b"),
                        1: dict(invariant=["self_.v@.len() == v0.len()", "1 <= L <= b <= e < 2 * L", "2 * L <= n", "n == v0.len() / 2", "b - 1 <= i <= e", "self_.v@[0] == one()", "v0.len() < 0x1000_0000_0000_0000",
                                           "forall|j: int| n <= j < 2 * n ==> #[trigger] self_.v@[j] == v0[j]",
                                           "forall|j: int| 0 <= j < 2 * L && !(b <= j <= e) ==> #[trigger] self_.v@[j] == w[j]",
                                           "forall|j: int| L <= j < n && !(b <= j <= i) ==> #[trigger] ok(self_.v@, j)"], decreases="i")}),
    ]
    tu = """namespace altruct { struct OpF { El operator()(const El& a, const El& b) const; };
typedef container::segment_tree<El, OpF> StEl;
inline StEl st_new(size_t sz, const OpF& f, El id) { return StEl(sz, f, id); }
inline StEl st_make(const El* b, const El* e, const OpF& f, El id) { return StEl(b, e, f, id); }
inline void use(StEl& t, const StEl& c, El x) { t.set(0, x); c.get(0, 1); c.get(0); c[0]; t.rebuild(); t.rebuild(0); t.rebuild(0, 1); t.size(); } }
"""
    u = Unit("segtree", ["altruct/structure/container/segment_tree.h"], tu, cs, SPEC)
    u.hooks.append(Hook())
    elem.setup(u)
    u.type_map["altruct::OpF"] = "()"; u.type_map["OpF"] = "()"
    u.struct_over["Segment_tree_El_altruct_OpF"] = dict(drop=("f",), copy=False)
    return [u]
