"""collection helpers over arbitrary element types (collections.h)"""
from unit import Unit, Contract
import ordel
S = "altruct::collections::"
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Va { v: i64 }
#[verifier::external_body] pub fn any_Va() -> Va { Va { v: 0 } }
/// predicate and transformation: any total functions
pub uninterp spec fn pr(x: Oe) -> bool;
pub uninterp spec fn fx(x: Oe) -> Va;
#[verifier::external_body] pub fn pr_call(x: Oe) -> (r: bool) ensures r == pr(x) { false }
#[verifier::external_body] pub fn fx_call(x: Oe) -> (r: Va) ensures r == fx(x) { any_Va() }
/// operator==: any equivalence
pub uninterp spec fn eqv(a: Oe, b: Oe) -> bool;
#[verifier::external_body] pub fn eq_call(a: Oe, b: Oe) -> (r: bool) ensures r == eqv(a, b) { false }
#[verifier::external_body] pub proof fn ax_eq(a: Oe, b: Oe, c: Oe) ensures eqv(a, a), eqv(a, b) ==> eqv(b, a), eqv(a, b) && eqv(b, c) ==> eqv(a, c) {}
pub open spec fn ordered(v: Seq<Oe>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> !lt(#[trigger] v[j], #[trigger] v[i]) }
/// std::sort, std::find
#[verifier::external_body]
pub fn vec_sort(v: &mut Vec<Oe>, i: i64, j: i64) requires 0 <= i <= j <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(), ordered(final(v)@.subrange(i as int, j as int)),
        forall|k: int| (0 <= k < i || j <= k < old(v)@.len()) ==> #[trigger] final(v)@[k] == old(v)@[k] { }
#[verifier::external_body]
pub fn vec_find(v: &Vec<Oe>, i: i64, j: i64, x: Oe) -> (r: i64) requires 0 <= i <= j <= v@.len(),
    ensures i <= r <= j, r < j ==> eqv(v@[r as int], x), forall|k: int| i <= k < r ==> !eqv(#[trigger] v@[k], x) { i }
pub uninterp spec fn vcap<T>(v: Vec<T>) -> int;
#[verifier::external_body]
pub fn vec_capacity<T>(v: &Vec<T>) -> (r: u64) ensures r == vcap(*v), v@.len() <= r, r <= 0x0fff_ffff_ffff_ffff { v.capacity() as u64 }
#[verifier::external_body]
pub fn vec_reserve<T>(v: &mut Vec<T>, n: u64) ensures final(v)@ == old(v)@, vcap(*final(v)) >= n, vcap(*final(v)) >= vcap(*old(v)) { }

pub open spec fn sel(v: Seq<Oe>) -> Seq<Oe> { v.filter(|x: Oe| pr(x)) }
pub proof fn lemma_sel_push(v: Seq<Oe>, k: int) requires 0 <= k < v.len(),
    ensures sel(v.subrange(0, k + 1)) == (if pr(v[k]) { sel(v.subrange(0, k)).push(v[k]) } else { sel(v.subrange(0, k)) })
{ let a = v.subrange(0, k + 1); reveal(Seq::filter); assert(a.drop_last() =~= v.subrange(0, k)); assert(a.last() == v[k]); }
pub proof fn lemma_sel_empty(v: Seq<Oe>) requires v.len() == 0, ensures sel(v).len() == 0 { reveal(Seq::filter); }
/// what a run-length encoding stands for
pub open spec fn total(r: Seq<(Oe, i32)>) -> int decreases r.len() { if r.len() == 0 { 0 } else { total(r.drop_last()) + r.last().1 } }
/// position of the first element of the k-th run
#[verifier::opaque]
pub open spec fn start(r: Seq<(Oe, i32)>, k: int) -> int { total(r.subrange(0, k)) }
#[verifier::opaque]
pub open spec fn run(r: Seq<(Oe, i32)>, v: Seq<Oe>, k: int) -> bool {
    let s = start(r, k);
    r[k].1 >= 1 && 0 <= s && s + r[k].1 <= v.len() && r[k].0 == v[s] && (forall|i: int| s <= i < s + r[k].1 ==> eqv(#[trigger] v[i], r[k].0)) && (k > 0 ==> !eqv(r[k].0, r[k - 1].0)) }
pub open spec fn runs(r: Seq<(Oe, i32)>, v: Seq<Oe>) -> bool { total(r) == v.len() && (forall|k: int| 0 <= k < r.len() ==> #[trigger] run(r, v, k)) }
pub proof fn lemma_run_keep(r: Seq<(Oe, i32)>, v: Seq<Oe>, q: Seq<(Oe, i32)>, w: Seq<Oe>, k: int)
    requires run(r, v, k), 0 <= k < r.len() <= q.len(), v.len() <= w.len(), forall|j: int| 0 <= j <= k ==> #[trigger] q[j] == r[j], forall|i: int| 0 <= i < v.len() ==> #[trigger] w[i] == v[i], ensures run(q, w, k)
{ reveal(start); reveal(run); assert(q.subrange(0, k) =~= r.subrange(0, k)); let s = start(r, k); assert(q[k] == r[k]); if k > 0 { assert(q[k - 1] == r[k - 1]); }
  assert forall|i: int| s <= i < s + q[k].1 implies eqv(#[trigger] w[i], q[k].0) by { assert(w[i] == v[i]); } }
pub proof fn lemma_runs_new(r: Seq<(Oe, i32)>, v: Seq<Oe>, x: Oe)
    requires runs(r, v), r.len() > 0 ==> !eqv(x, r.last().0), ensures runs(r.push((x, 1)), v.push(x))
{
    let q = r.push((x, 1)); let w = v.push(x); let n = r.len() as int; assert(q.drop_last() =~= r);
    assert forall|k: int| 0 <= k < q.len() implies #[trigger] run(q, w, k) by {
        if k < n { lemma_run_keep(r, v, q, w, k); } else { reveal(start); reveal(run); assert(q.subrange(0, n) =~= r); ax_eq(x, x, x); } }
}
pub proof fn lemma_last(r: Seq<(Oe, i32)>, v: Seq<Oe>) requires runs(r, v), r.len() > 0, ensures 1 <= r.last().1 <= v.len(), start(r, r.len() - 1) + r.last().1 == v.len(), eqv(v.last(), r.last().0)
{ let n = r.len() as int; assert(run(r, v, n - 1)); reveal(start); reveal(run); assert(r.subrange(0, n - 1) =~= r.drop_last()); }
pub proof fn lemma_runs_more(r: Seq<(Oe, i32)>, q: Seq<(Oe, i32)>, v: Seq<Oe>, x: Oe)
    requires runs(r, v), r.len() > 0, eqv(r.last().0, x), q.len() == r.len(), q.drop_last() =~= r.drop_last(), q.last().0 == r.last().0, q.last().1 == r.last().1 + 1, ensures runs(q, v.push(x))
{
    let w = v.push(x); let n = r.len() as int; lemma_last(r, v);
    assert(q.drop_last() == r.drop_last());
    assert forall|k: int| 0 <= k < n - 1 implies #[trigger] q[k] == r[k] by { assert(q.drop_last()[k] == q[k]); assert(r.drop_last()[k] == r[k]); }
    assert forall|k: int| 0 <= k < n implies #[trigger] run(q, w, k) by {
        assert(run(r, v, k));
        if k < n - 1 { lemma_run_keep(r, v, q, w, k); }
        else { reveal(start); reveal(run); assert(q.subrange(0, k) =~= r.subrange(0, k)); ax_eq(r[k].0, x, x); let s = start(r, k);
               assert forall|i: int| s <= i < s + q[k].1 implies eqv(#[trigger] w[i], q[k].0) by { if i < v.len() { assert(w[i] == v[i]); } } } }
}
/// lexicographic comparison of the first `lim` elements
pub open spec fn cmp(a: Seq<Oe>, b: Seq<Oe>, lim: int) -> int decreases a.len() {
    if lim <= 0 { 0 } else if a.len() == 0 || b.len() == 0 { if b.len() > 0 { -1 } else if a.len() > 0 { 1 } else { 0 } }
    else if eqv(a[0], b[0]) { cmp(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), lim - 1) } else if lt(a[0], b[0]) { -1 } else { 1 } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator()" and obj is not None:
            t = tr.strip_callee(obj)["type"]
            t = t.get("desugaredQualType", t["qualType"])
            return ("pr_call(%s)" if "PrF" in t else "fx_call(%s)") % tr.exval(args[-1])
        if name == "operator==" and obj is not None and tr.ty(obj) == "Oe":
            return "eq_call(%s, %s)" % (tr.exval(obj), tr.exval(args[-1]))
        if name == "sort" and len(args) == 2 and stmt:
            b1, o1 = tr.ptr(args[0])
            b2, o2 = tr.ptr(args[1])
            if b1.base == b2.base:
                return ["{", "let si: i64 = %s; let sj: i64 = %s; vec_sort(&mut %s, si, sj);" % (o1, o2, b1.base), "}"]
        if name == "capacity" and obj is not None and not args:
            p = tr.place(obj)
            return "vec_capacity(%s)" % (p[2:-1] if p.startswith("(*") else "&" + p)
        if name == "reserve" and obj is not None:
            p = tr.place(obj)
            return ["{", "let rn: u64 = %s;" % tr.ex(args[0]), "vec_reserve(%s, rn);" % (p[2:-1] if p.startswith("(*") else "&mut " + p), "}"]
        return None

    def ptr_call(self, tr, e, name, args):
        if name == "find" and len(args) == 3:
            b1, o1 = tr.ptr(args[0])
            b2, o2 = tr.ptr(args[1])
            if b1.base == b2.base:
                from translate import Bind
                return Bind("ptr", None, b1.ty, base=b1.base), "vec_find(%s, %s, %s, %s)" % (tr.borrow(b1.base, True), o1, o2, tr.exval(args[2]))
        return None


def units():
    R = {"begin": "ptr:v", "end": "ptr:v"}
    REQ = ["0 <= begin <= end <= v@.len()"]
    SUB = "v@.subrange(begin as int, end as int)"
    P, VO = "const altruct::Oe *", "const std::vector<altruct::Oe> &"
    def rng(f): return f["_np"] if "_np" in f else None
    two = lambda n: (lambda f: len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]) == n)
    IT = dict(invariant=["0 <= begin <= it <= end <= v@.len()"], decreases="end - it")
    def inv(*x): return {0: dict(invariant=IT["invariant"] + list(x), decreases="end - it")}
    cs = []
    def add(nm, extra, targs, ens, forms, loops=None, hints=None, hintv=None, req=(), **kw):
        ps = ["begin", "end"] + extra
        cs.append(Contract(nm, S + forms, targs=["const altruct::Oe *"] + targs, pred=two(len(ps)), params=ps, modes=dict(R), requires=REQ + list(req), ensures=[x.replace("$S", SUB) for x in ens], loops=loops or {}, hints=hints or {}, **kw))
        cs.append(Contract(nm + "_c", S + forms, targs=["std::vector<altruct::Oe>"] + targs, pred=two(len(ps) - 1), params=["c"] + extra, requires=[x.replace("(end - begin)", "c@.len()") for x in req], ensures=[x.replace("$S", "c@") for x in ens], hints={"entry": "proof { assert(c@.subrange(0, c@.len() as int) =~= c@); }"}, **kw))
    add("sorted", [], ["altruct::Oe"], ["ordered(r@)", "r@.to_multiset() == $S.to_multiset()", "r@.len() == $S.len()"], "sorted", hints={"exit": "proof { assert(ret__v@.subrange(0, ret__v@.len() as int) =~= ret__v@); }"})
    add("reversed", [], ["altruct::Oe"], ["r@ =~= $S.reverse()"], "reversed")
    add("take", ["n"], ["altruct::Oe"], ["r@ =~= $S.subrange(0, imin(n as int, $S.len() as int))"], "take",
        loops=inv("r@ =~= v@.subrange(begin as int, it as int)", "n + (it - begin) == n_0 || (n == u64::MAX && it - begin == n_0)", "it - begin <= n_0", "n == u64::MAX && n_0 != u64::MAX ==> false"))
    add("filter", ["p"], ["altruct::PrF", "altruct::Oe"], ["r@ == sel($S)"], "filter",
        loops=inv("r@ == sel(%s.subrange(0, it - begin))" % SUB), hints={"L0.begin": "proof { lemma_sel_push(%s, it - begin); }" % SUB, "L0.before": "proof { lemma_sel_empty(%s.subrange(0, 0)); assert(r@ =~= sel(%s.subrange(0, 0))); }" % (SUB, SUB), "L0.after": "proof { assert(%s.subrange(0, it - begin) =~= %s); }" % (SUB, SUB)})
    add("transform", ["f"], ["altruct::FxF", "altruct::Va"], ["r@ =~= Seq::new($S.len(), |i: int| fx($S[i]))"], "transform",
        loops=inv("r@ =~= Seq::new((it - begin) as nat, |i: int| fx(v@[begin + i]))"))
    add("run_length", [], ["altruct::Oe"], ["runs(r@, $S)"], "run_length", req=["(end - begin) <= i32::MAX"],
        loops=inv("runs(r@, %s.subrange(0, it - begin))" % SUB),
        hints={"L0.begin": "let ghost r0 = r@; let ghost s0 = %s.subrange(0, it - begin); let ghost x0 = v@[it as int]; proof { assert(%s.subrange(0, it - begin + 1) =~= s0.push(x0)); if r0.len() > 0 { ax_eq(x0, r0.last().0, x0); ax_eq(r0.last().0, x0, x0); lemma_last(r0, s0); } }" % (SUB, SUB),
               "L0.end": "proof { if r0.len() > 0 && eqv(r0.last().0, x0) { lemma_runs_more(r0, r@, s0, x0); } else { assert(r@ =~= r0.push((x0, 1i32))); lemma_runs_new(r0, s0, x0); } }",
               "L0.after": "proof { assert(%s.subrange(0, it - begin) =~= %s); }" % (SUB, SUB)})
    cs.append(Contract("compare", S + "compare", targs=["const altruct::Oe *", "const altruct::Oe *"], params=["b1", "e1", "b2", "e2", "max_len"], modes={"b1": "ptr:v", "e1": "ptr:v", "b2": "ptr:w", "e2": "ptr:w"},
        requires=["0 <= b1 <= e1 <= v@.len()", "0 <= b2 <= e2 <= w@.len()"], ensures=["r == cmp(v@.subrange(b1 as int, e1 as int), w@.subrange(b2 as int, e2 as int), max_len as int)"],
        hints={"L0.begin": "proof { let a = v@.subrange(b1 as int, e1 as int); let b = w@.subrange(b2 as int, e2 as int); assert(a.subrange(1, a.len() as int) =~= v@.subrange(b1 + 1, e1 as int)); assert(b.subrange(1, b.len() as int) =~= w@.subrange(b2 + 1, e2 as int)); }"},
        loops={0: dict(invariant=["0 <= b1_0 <= b1 <= e1 <= v@.len()", "0 <= b2_0 <= b2 <= e2 <= w@.len()", "cmp(v@.subrange(b1_0 as int, e1 as int), w@.subrange(b2_0 as int, e2 as int), max_len_0 as int) == cmp(v@.subrange(b1 as int, e1 as int), w@.subrange(b2 as int, e2 as int), max_len as int)"], decreases="e1 - b1")}))
    cs.append(Contract("contains", S + "contains", targs=["const altruct::Oe *", "altruct::Oe"], pred=two(3), params=["begin", "end", "val"], modes=R, requires=REQ, ensures=["r == exists|k: int| begin <= k < end && eqv(#[trigger] v@[k], val)"]))
    cs.append(Contract("contains_c", S + "contains", targs=["std::vector<altruct::Oe>", "altruct::Oe"], pred=two(2), params=["c", "val"], ensures=["r == exists|k: int| 0 <= k < c@.len() && eqv(#[trigger] c@[k], val)"]))
    cs.append(Contract("reserve_more", S + "reserve_more", targs=["std::vector<altruct::Oe>"], params=["c", "sz"], requires=["sz < 0x0fff_ffff_ffff_ffff"],
        ensures=["final(c)@ == old(c)@", "vcap(*final(c)) >= old(c)@.len() + sz", "vcap(*old(c)) < old(c)@.len() + sz ==> 2 * vcap(*final(c)) + 1 >= 3 * vcap(*old(c))"]))
    tu = """namespace altruct { struct Va { long v_; }; struct PrF { bool operator()(const Oe& x) const; }; struct FxF { Va operator()(const Oe& x) const; };
typedef std::vector<Oe>::const_iterator Po; typedef std::vector<Oe> Vo;
inline void use(Po b, Po e, const Vo& v, Vo& w, Oe x) { using namespace collections;
  sorted(b, e); reversed(b, e); take(b, e, 1); filter(b, e, PrF()); transform(b, e, FxF()); run_length(b, e); compare(b, e, b, e, 1); contains(b, e, x);
  sorted(v); reversed(v); take(v, 1); filter(v, PrF()); transform(v, FxF()); run_length(v); contains(v, x); reserve_more(w, 1); } }
"""
    u = Unit("colls", ["altruct/algorithm/collections/collections.h", "vector"], tu, cs, SPEC)
    ordel.setup(u)
    u.hooks.insert(0, Hook())
    for k in ("altruct::PrF", "PrF", "altruct::FxF", "FxF"):
        u.type_map[k] = "()"
    for k in ("altruct::Va", "Va"):
        u.type_map[k] = "Va"
    u.copy_types.add("Va")
    u.arbs["Va"] = "any_Va()"
    u.trusted += ["vec_sort / vec_find / vec_capacity / vec_reserve: std::sort, std::find, std::vector::capacity and reserve", "the predicate and the transformation are uninterpreted total functions; operator== is an uninterpreted equivalence"]
    return [u]
