"""disjoint sets (disjoint_set.h)"""
from unit import Unit, Contract
DS = "altruct::graph::disjoint_set::"
SPEC = r"""
pub open spec fn nroots(v: Seq<Atom>, n: int) -> int decreases n { if n <= 0 { 0 } else { nroots(v, n - 1) + (if v[n - 1].parent == n - 1 { 1int } else { 0int }) } }
/// c[i] is the representative of i's set
pub open spec fn node(v: Seq<Atom>, dist: int, c: Seq<int>, i: int) -> bool {
    v[i].parent < v.len() && 0 <= c[i] < v.len() && c[v[i].parent as int] == c[i] && (v[i].parent == i <==> c[i] == i) && c[c[i]] == c[i] && v[i].rank + dist <= v.len()
    && (v[i].parent != i ==> v[i].rank < v[v[i].parent as int].rank)
}
pub open spec fn wfc(v: Seq<Atom>, dist: int, c: Seq<int>) -> bool {
    c.len() == v.len() && v.len() <= 0x0800_0000_0000_0000 && nroots(v, v.len() as int) == dist && dist >= 0
    && forall|i: int| 0 <= i < v.len() ==> #[trigger] node(v, dist, c, i)
}
pub open spec fn wf(d: Disjoint_set) -> bool { exists|c: Seq<int>| wfc(d.va@, d.dist as int, c) }
/// the partition, as the representative of every element
pub open spec fn cls(d: Disjoint_set) -> Seq<int> { choose|c: Seq<int>| wfc(d.va@, d.dist as int, c) }
pub proof fn lemma_rank(v: Seq<Atom>, dist: int, c: Seq<int>, i: int)
    requires wfc(v, dist, c), 0 <= i < v.len(), dist >= 0,
    ensures v[i].rank <= v[c[i]].rank, c[i] != i ==> v[i].rank < v[c[i]].rank,
    decreases v.len() - v[i].rank
{ assert(node(v, dist, c, i)); if v[i].parent != i { let p = v[i].parent as int; assert(node(v, dist, c, p)); lemma_rank(v, dist, c, p); } }
pub proof fn lemma_unique1(v: Seq<Atom>, dist: int, c: Seq<int>, e: Seq<int>, i: int)
    requires wfc(v, dist, c), wfc(v, dist, e), 0 <= i < v.len(), dist >= 0, ensures c[i] == e[i], decreases v.len() - v[i].rank
{ assert(node(v, dist, c, i)); assert(node(v, dist, e, i)); if v[i].parent != i { let p = v[i].parent as int; assert(node(v, dist, c, p)); lemma_unique1(v, dist, c, e, p); } }
pub proof fn lemma_cls(d: Disjoint_set, c: Seq<int>) requires wfc(d.va@, d.dist as int, c), ensures wf(d), cls(d) == c
{ let e = cls(d); assert(wfc(d.va@, d.dist as int, e)); assert forall|i: int| 0 <= i < c.len() implies c[i] == e[i] by { lemma_unique1(d.va@, d.dist as int, c, e, i); } assert(c =~= e); }
pub proof fn lemma_wf(d: Disjoint_set) requires wf(d), ensures wfc(d.va@, d.dist as int, cls(d)) {}
pub proof fn lemma_nroots_ext(v: Seq<Atom>, w: Seq<Atom>, n: int)
    requires n <= v.len(), n <= w.len(), forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < n ==> (v[i].parent == i <==> w[i].parent == i), ensures nroots(v, n) == nroots(w, n), nroots(v, n) <= n || n < 0, nroots(v, n) >= 0, decreases n
{ if n > 0 { assert(v[n - 1].parent == n - 1 <==> w[n - 1].parent == n - 1); lemma_nroots_ext(v, w, n - 1); } }
pub proof fn lemma_nroots_loss(v: Seq<Atom>, w: Seq<Atom>, n: int, k: int)
    requires n <= v.len(), n <= w.len(), 0 <= k < n, v[k].parent == k, w[k].parent != k, forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < n && i != k ==> (v[i].parent == i <==> w[i].parent == i),
    ensures nroots(w, n) == nroots(v, n) - 1, nroots(v, n) >= 1, decreases n
{ if k == n - 1 { lemma_nroots_ext(v, w, n - 1); } else { assert(v[n - 1].parent == n - 1 <==> w[n - 1].parent == n - 1); lemma_nroots_loss(v, w, n - 1, k); } }
/// singletons appended up to size n
pub open spec fn ext(c: Seq<int>, n: int) -> Seq<int> { if n <= c.len() { c } else { c + Seq::new((n - c.len()) as nat, |i: int| c.len() + i) } }
pub open spec fn merged(c: Seq<int>, loser: int, winner: int) -> Seq<int> { Seq::new(c.len(), |i: int| if c[i] == loser { winner } else { c[i] }) }
/// connectivity after uniting x and y
pub open spec fn joined(c: Seq<int>, d: Seq<int>, x: int, y: int) -> bool {
    d.len() == c.len() && forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() ==>
        ((#[trigger] d[i] == #[trigger] d[j]) <==> (c[i] == c[j] || (c[i] == c[x] && c[j] == c[y]) || (c[i] == c[y] && c[j] == c[x])))
}
/// total weight of a set: one per element plus what add_count added
pub open spec fn wsum(c: Seq<int>, w: Seq<int>, r: int, n: int) -> int decreases n { if n <= 0 { 0 } else { wsum(c, w, r, n - 1) + (if c[n - 1] == r { w[n - 1] } else { 0 }) } }
pub open spec fn total(w: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(w, n - 1) + w[n - 1] } }
pub open spec fn extw(w: Seq<int>, n: int) -> Seq<int> { if n <= w.len() { w } else { w + Seq::new((n - w.len()) as nat, |i: int| 1int) } }
pub open spec fn counts(v: Seq<Atom>, c: Seq<int>, w: Seq<int>) -> bool {
    w.len() == v.len() && (forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] >= 0) && forall|r: int| 0 <= r < v.len() && #[trigger] c[r] == r ==> v[r].count as int == wsum(c, w, r, c.len() as int)
}
pub proof fn lemma_wsum_ext(c: Seq<int>, w: Seq<int>, c2: Seq<int>, w2: Seq<int>, r: int, n: int)
    requires n <= c.len(), n <= c2.len(), n <= w.len(), n <= w2.len(), forall|i: int| #![trigger c[i]] #![trigger c2[i]] #![trigger w[i]] #![trigger w2[i]] 0 <= i < n ==> c[i] == c2[i] && w[i] == w2[i], ensures wsum(c, w, r, n) == wsum(c2, w2, r, n), decreases n
{ if n > 0 { lemma_wsum_ext(c, w, c2, w2, r, n - 1); assert(c[n - 1] == c2[n - 1] && w[n - 1] == w2[n - 1]); } }
pub proof fn lemma_wsum_none(c: Seq<int>, w: Seq<int>, r: int, n: int)
    requires n <= c.len(), n <= w.len(), forall|i: int| 0 <= i < n ==> #[trigger] c[i] != r, ensures wsum(c, w, r, n) == 0, decreases n
{ if n > 0 { lemma_wsum_none(c, w, r, n - 1); } }
pub proof fn lemma_wsum_merge(c: Seq<int>, w: Seq<int>, a: int, b: int, r: int, n: int)
    requires 0 <= n <= c.len(), a != b, ensures wsum(merged(c, a, b), w, r, n) == (if r == b { wsum(c, w, a, n) + wsum(c, w, b, n) } else if r == a { 0 } else { wsum(c, w, r, n) }), decreases n
{ if n > 0 { lemma_wsum_merge(c, w, a, b, r, n - 1); } }
pub proof fn lemma_wsum_le(c: Seq<int>, w: Seq<int>, a: int, b: int, n: int)
    requires 0 <= n <= c.len(), n <= w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] >= 0, a != b, ensures 0 <= wsum(c, w, a, n), 0 <= wsum(c, w, b, n), wsum(c, w, a, n) + wsum(c, w, b, n) <= total(w, n), decreases n
{ if n > 0 { lemma_wsum_le(c, w, a, b, n - 1); } }
pub proof fn lemma_wsum_add(c: Seq<int>, w: Seq<int>, x: int, k: int, r: int, n: int)
    requires 0 <= n <= c.len(), n <= w.len(), 0 <= x < w.len(), ensures wsum(c, w.update(x, w[x] + k), r, n) == wsum(c, w, r, n) + (if x < n && c[x] == r { k } else { 0 }), decreases n
{ if n > 0 { lemma_wsum_add(c, w, x, k, r, n - 1); } }
/// one more singleton
pub proof fn lemma_push(v: Seq<Atom>, dist: int, c: Seq<int>, a: Atom)
    requires wfc(v, dist, c), dist >= 0, a.parent == v.len(), a.rank == 0, v.len() < 0x0800_0000_0000_0000,
    ensures wfc(v.push(a), dist + 1, c.push(v.len() as int)), dist <= v.len(),
{
    let u = v.push(a); let e = c.push(v.len() as int); let n = v.len() as int;
    lemma_nroots_ext(v, u, n);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] node(u, dist + 1, e, i) by { if i < n { assert(node(v, dist, c, i)); let p = v[i].parent as int; assert(u[i] == v[i] && u[p] == v[p] && e[i] == c[i] && e[p] == c[p] && e[c[i]] == c[c[i]]); } }
    assert(nroots(u, n + 1) == nroots(u, n) + 1);
}
/// path compression step
pub proof fn lemma_compress(v: Seq<Atom>, dist: int, c: Seq<int>, t: int, u: Seq<Atom>)
    requires wfc(v, dist, c), dist >= 0, 0 <= t < v.len(), v[t].parent != t, u.len() == v.len(), forall|i: int| 0 <= i < v.len() && i != t ==> #[trigger] u[i] == v[i],
        u[t].parent == c[t], u[t].rank == v[t].rank,
    ensures wfc(u, dist, c),
{ lemma_rank(v, dist, c, t); assert(node(v, dist, c, t)); assert(node(v, dist, c, c[t]));
  assert forall|i: int| #![trigger v[i]] #![trigger u[i]] 0 <= i < v.len() implies (v[i].parent == i <==> u[i].parent == i) by { if i != t { assert(u[i] == v[i]); } }
  lemma_nroots_ext(v, u, v.len() as int);
  assert forall|i: int| 0 <= i < u.len() implies #[trigger] node(u, dist, c, i) by { assert(node(v, dist, c, i)); if i != t { assert(u[i] == v[i]); } let p = u[i].parent as int; if p != t { assert(u[p] == v[p]); } } }
/// linking root a below root b
pub proof fn lemma_link(v: Seq<Atom>, dist: int, c: Seq<int>, a: int, b: int, u: Seq<Atom>)
    requires wfc(v, dist, c), 0 <= a < v.len(), 0 <= b < v.len(), a != b, c[a] == a, c[b] == b, u.len() == v.len(),
        forall|i: int| 0 <= i < v.len() && i != a && i != b ==> #[trigger] u[i] == v[i],
        u[a].parent == b, u[b].parent == b, u[a].rank == v[a].rank, v[b].rank <= u[b].rank <= v[b].rank + 1, v[a].rank < u[b].rank,
    ensures dist >= 1, wfc(u, dist - 1, merged(c, a, b)),
{
    let e = merged(c, a, b);
    assert(node(v, dist, c, a)); assert(node(v, dist, c, b));
    assert forall|i: int| #![trigger v[i]] #![trigger u[i]] 0 <= i < v.len() && i != a implies (v[i].parent == i <==> u[i].parent == i) by { if i != b { assert(u[i] == v[i]); } }
    lemma_nroots_loss(v, u, v.len() as int, a);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] node(u, dist - 1, e, i) by { assert(node(v, dist, c, i)); if i != a && i != b { assert(u[i] == v[i]); let p = v[i].parent as int; assert(node(v, dist, c, p)); if p != a && p != b { assert(u[p] == v[p]); } } }
}
pub proof fn lemma_joined(c: Seq<int>, x: int, y: int, a: int, b: int)
    requires 0 <= x < c.len(), 0 <= y < c.len(), (a == c[x] && b == c[y]) || (a == c[y] && b == c[x]), ensures joined(c, merged(c, a, b), x, y) {}
pub proof fn lemma_counts_merge(v: Seq<Atom>, u: Seq<Atom>, c: Seq<int>, w: Seq<int>, a: int, b: int)
    requires counts(v, c, w), c.len() == v.len(), u.len() == v.len(), 0 <= a < v.len(), 0 <= b < v.len(), a != b, c[a] == a, c[b] == b, u[b].count == v[a].count + v[b].count,
        forall|i: int| 0 <= i < v.len() && i != b ==> #[trigger] u[i].count == v[i].count,
    ensures counts(u, merged(c, a, b), w)
{ let e = merged(c, a, b); assert forall|r: int| 0 <= r < u.len() && #[trigger] e[r] == r implies u[r].count as int == wsum(e, w, r, e.len() as int) by { lemma_wsum_merge(c, w, a, b, r, c.len() as int); assert(c[r] == r); } }
pub proof fn lemma_counts_ext(v: Seq<Atom>, u: Seq<Atom>, c: Seq<int>, w: Seq<int>, n: int)
    requires counts(v, c, w), c.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] c[i] < v.len(), u.len() == (if n <= v.len() { v.len() as int } else { n }),         forall|i: int| 0 <= i < v.len() ==> #[trigger] u[i].count == v[i].count, forall|i: int| v.len() <= i < u.len() ==> #[trigger] u[i].count == 1,
    ensures counts(u, ext(c, n), extw(w, n)), decreases n - v.len()
{
    let e = ext(c, n); let f = extw(w, n); let m = v.len() as int;
    assert forall|r: int| 0 <= r < u.len() && #[trigger] e[r] == r implies u[r].count as int == wsum(e, f, r, e.len() as int) by {
        if r < m { assert(c[r] == r); lemma_wsum_ext(c, w, e, f, r, m); lemma_wsum_tail(e, f, r, m, e.len() as int); }
        else { assert(u[r].count == 1); lemma_wsum_none(e, f, r, m); lemma_wsum_tail(e, f, r, m, e.len() as int); }
    }
}
/// beyond m every element is a singleton of weight one
pub proof fn lemma_wsum_tail(e: Seq<int>, f: Seq<int>, r: int, m: int, n: int)
    requires 0 <= m <= n <= e.len(), n <= f.len(), forall|i: int| m <= i < n ==> #[trigger] e[i] == i && f[i] == 1,
    ensures wsum(e, f, r, n) == wsum(e, f, r, m) + (if m <= r < n { 1int } else { 0int }), decreases n
{ if n > m { lemma_wsum_tail(e, f, r, m, n - 1); assert(e[n - 1] == n - 1); } }
pub proof fn lemma_same(v: Seq<Atom>, u: Seq<Atom>, dist: int, c: Seq<int>)
    requires wfc(v, dist, c), u.len() == v.len(), forall|i: int| #![trigger v[i]] #![trigger u[i]] 0 <= i < v.len() ==> u[i].parent == v[i].parent && u[i].rank == v[i].rank, ensures wfc(u, dist, c)
{ lemma_nroots_ext(v, u, v.len() as int); assert forall|i: int| 0 <= i < u.len() implies #[trigger] node(u, dist, c, i) by { assert(node(v, dist, c, i)); assert(u[i].parent == v[i].parent); let p = v[i].parent as int; assert(u[p].rank == v[p].rank); } }
pub proof fn lemma_range(v: Seq<Atom>, dist: int, c: Seq<int>) requires wfc(v, dist, c), ensures forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] c[i] < v.len()
{ assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] c[i] < v.len() by { assert(node(v, dist, c, i)); } }
pub proof fn lemma_counts_add(v: Seq<Atom>, u: Seq<Atom>, c: Seq<int>, w: Seq<int>, x: int, k: int)
    requires counts(v, c, w), c.len() == v.len(), u.len() == v.len(), 0 <= x < v.len(), 0 <= c[x] < v.len(), k >= 0, u[c[x]].count == v[c[x]].count + k, forall|i: int| 0 <= i < v.len() && i != c[x] ==> #[trigger] u[i].count == v[i].count,
    ensures counts(u, c, w.update(x, w[x] + k))
{ let w2 = w.update(x, w[x] + k); assert forall|r: int| 0 <= r < u.len() && #[trigger] c[r] == r implies u[r].count as int == wsum(c, w2, r, c.len() as int) by { lemma_wsum_add(c, w, x, k, r, c.len() as int); } 
  assert forall|i: int| 0 <= i < w2.len() implies #[trigger] w2[i] >= 0 by { assert(w[i] >= 0); } }
pub proof fn lemma_wsum_le1(c: Seq<int>, w: Seq<int>, a: int, n: int)
    requires 0 <= n <= c.len(), n <= w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] >= 0, ensures 0 <= wsum(c, w, a, n) <= total(w, n), decreases n
{ if n > 0 { lemma_wsum_le1(c, w, a, n - 1); } }
"""
BIG = "0x0800_0000_0000_0000"


def units():
    C = "let ghost c = cls(*self_); proof { lemma_wf(*self_); }"
    W = "Ghost(w): Ghost<Seq<int>>"
    SAME = ["forall|i: int| 0 <= i < old(self_).va@.len() ==> #[trigger] final(self_).va@[i].count == old(self_).va@[i].count",
            "forall|i: int| old(self_).va@.len() <= i < final(self_).va@.len() ==> #[trigger] final(self_).va@[i].count == 1"]
    EXT = lambda n: ["wf(*final(self_))", "cls(*final(self_)) == ext(cls(*old(self_)), %s)" % n]
    M = "old(self_).va@.len() <= " + BIG
    mx = "(if x >= y { x + 1 } else { y + 1 })"
    cs = [
        Contract("ds_ensure", DS + "ensure", params=["sz"], requires=["wf(*old(self_))", "sz <= " + BIG], ensures=EXT("sz as int") + SAME,
                 hints={"entry": C + " let ghost c0 = c; let ghost mut cc = c; let ghost v0 = self_.va@; proof { assert(cc =~= ext(c0, cc.len() as int)); lemma_nroots_ext(v0, v0, v0.len() as int); }",
                        "L0.begin": "proof { lemma_push(self_.va@, self_.dist as int, cc, Atom { parent: self_.va@.len() as u64, rank: 0, count: 1 }); let n = self_.va@.len() as int; cc = cc.push(n); }",
                        "L0.end": "proof { assert(cc =~= ext(c0, cc.len() as int)); }",
                        "L0.after": "proof { lemma_cls(*self_, cc); assert(cc =~= ext(c0, sz as int)); }"},
                 loops={0: dict(invariant=["wfc(self_.va@, self_.dist as int, cc)", "cc == ext(c0, cc.len() as int)", "c0.len() == v0.len()", "cc.len() == v0.len() || (v0.len() < cc.len() <= sz)", "sz <= " + BIG,
                                           "forall|i: int| 0 <= i < v0.len() ==> #[trigger] self_.va@[i].count == v0[i].count", "forall|i: int| v0.len() <= i < self_.va@.len() ==> #[trigger] self_.va@[i].count == 1"], decreases="sz - self_.va@.len()")}),
        Contract("ds_clear", DS + "clear", params=["sz"], requires=["sz <= " + BIG], ensures=["wf(*final(self_))", "cls(*final(self_)) == Seq::new(sz as nat, |i: int| i)", "counts(final(self_).va@, cls(*final(self_)), Seq::new(sz as nat, |i: int| 1int))"],
                 hints={"use:ensure.before": "proof { assert(wfc(self_.va@, 0, Seq::empty())); lemma_cls(*self_, Seq::empty()); }",
                        "use:ensure.after": "proof { assert(cls(*self_) =~= Seq::new(sz as nat, |i: int| i)); lemma_wf(*self_); let e0: Seq<Atom> = Seq::empty(); lemma_counts_ext(e0, self_.va@, Seq::empty(), Seq::empty(), sz as int); assert(extw(Seq::empty(), sz as int) =~= Seq::new(sz as nat, |i: int| 1int)); }"}),
        Contract("ds_make", "altruct::ds_make", params=["sz"], requires=["sz <= " + BIG], ensures=["wf(r)", "cls(r) == Seq::new(sz as nat, |i: int| i)", "counts(r.va@, cls(r), Seq::new(sz as nat, |i: int| 1int))"]),
        Contract("ds_find", DS + "find", params=["x"], requires=["wf(*old(self_))", "x < " + BIG], ensures=EXT("x + 1") + ["x < cls(*final(self_)).len()", "r as int == cls(*final(self_))[x as int]", "r < final(self_).va@.len()", "final(self_).va@.len() == cls(*final(self_)).len()", "cls(*final(self_))[r as int] == r", "final(self_).va@[r as int].parent == r"] + SAME,
                 hints={"use:ensure.after": "let ghost c = cls(*self_); let ghost vs = self_.va@; proof { lemma_wf(*self_); }", "entry": "let ghost x1 = x as int; proof { lemma_wf(*self_); }",
                        "L0.before": "proof { assert(node(self_.va@, self_.dist as int, c, x1)); }", "L0.begin": "proof { let d = self_.dist as int; assert(node(vs, d, c, y as int)); let p = vs[y as int].parent as int; assert(node(vs, d, c, p)); }", "L0.after": "proof { assert(node(vs, self_.dist as int, c, y as int)); }",
                        "L1.begin": "let ghost va0 = self_.va@; let ghost t0 = x as int; proof { let d = self_.dist as int; assert(node(va0, d, c, t0)); let p = va0[t0].parent as int; assert(node(va0, d, c, p)); assert(c[t0] == y); lemma_rank(va0, self_.dist as int, c, t0); }",
                        "L1.end": "proof { lemma_compress(va0, self_.dist as int, c, t0, self_.va@); }",
                        "L1.after": "proof { lemma_cls(*self_, c); assert(node(self_.va@, self_.dist as int, c, y as int)); }"},
                 loops={0: dict(invariant=["y < c.len()", "c[y as int] == c[x1]", "wfc(self_.va@, self_.dist as int, c)", "self_.va@ == vs", "self_.va@.len() == c.len()"], decreases="self_.va@.len() - self_.va@[y as int].rank"),
                        1: dict(invariant=["x < c.len()", "y < c.len()", "c[x as int] == y", "y as int == c[x1]", "wfc(self_.va@, self_.dist as int, c)",
                                           "forall|i: int| 0 <= i < c.len() ==> #[trigger] self_.va@[i].count == vs[i].count && self_.va@[i].rank == vs[i].rank"], decreases="c.len() - self_.va@[x as int].rank")}),
        Contract("ds_unite", DS + "unite", params=["x", "y"], extra=[W],
                 requires=["wf(*old(self_))", "x < " + BIG, "y < " + BIG, "counts(old(self_).va@, cls(*old(self_)), w)", "total(extw(w, %s), ext(cls(*old(self_)), %s).len() as int) <= u64::MAX" % (mx, mx)],
                 ensures=["wf(*final(self_))", "joined(ext(cls(*old(self_)), %s), cls(*final(self_)), x as int, y as int)" % mx, "r == (ext(cls(*old(self_)), {0})[x as int] != ext(cls(*old(self_)), {0})[y as int])".format(mx),
                          "counts(final(self_).va@, cls(*final(self_)), extw(w, %s))" % mx],
                 hints={"entry": "let ghost x1 = x as int; let ghost y1 = y as int; let ghost c0 = cls(*self_); let ghost v00 = self_.va@; let ghost m = (if x >= y { x + 1 } else { y + 1 }); proof { lemma_wf(*self_); lemma_range(v00, self_.dist as int, c0); }",
                        "use:find#2.after": "let ghost c = cls(*self_); let ghost v0 = self_.va@; let ghost ww = extw(w, m); let ghost d0 = self_.dist as int; proof { lemma_wf(*self_); assert(c =~= ext(c0, m)); assert(node(v0, d0, c, x1)); assert(node(v0, d0, c, y1)); assert(node(v0, d0, c, x as int)); assert(node(v0, d0, c, y as int)); assert(x == c[x1]); lemma_counts_ext(v00, v0, c0, w, m); assert(c[x as int] == x); assert(c[y as int] == y); assert(ww.len() == c.len()); if x == y { assert(joined(c, c, x1, y1)); } else { lemma_wsum_le(c, ww, x as int, y as int, c.len() as int); assert(total(ww, c.len() as int) == total(extw(w, m), ext(c0, m).len() as int)); assert(v0[x as int].count as int == wsum(c, ww, x as int, c.len() as int)); } }",
                        "exit": "proof { if ret__v { let a: int = if self_.va@[x as int].parent == x { y as int } else { x as int }; let b: int = if self_.va@[x as int].parent == x { x as int } else { y as int }; lemma_link(v0, d0, c, a, b, self_.va@); lemma_cls(*self_, merged(c, a, b)); lemma_joined(c, x1, y1, a, b); lemma_counts_merge(v0, self_.va@, c, ww, a, b); } }",
                        "stmt:^dist.before": "proof { let a: int = if self_.va@[x as int].parent == x { y as int } else { x as int }; let b: int = if self_.va@[x as int].parent == x { x as int } else { y as int }; lemma_link(v0, d0, c, a, b, self_.va@); }"}),
        Contract("ds_add_count", DS + "add_count", params=["x", "c"], extra=[W], requires=["wf(*old(self_))", "x < " + BIG, "counts(old(self_).va@, cls(*old(self_)), w)", "total(extw(w, x + 1), ext(cls(*old(self_)), x + 1).len() as int) + c <= u64::MAX"],
                 ensures=EXT("x + 1") + ["counts(final(self_).va@, cls(*final(self_)), extw(w, x + 1).update(x as int, extw(w, x + 1)[x as int] + c))"],
                 hints={"entry": "let ghost c0 = cls(*self_); let ghost v00 = self_.va@; proof { lemma_wf(*self_); lemma_range(v00, self_.dist as int, c0); }",
                        "hoist": "let ghost v1 = self_.va@; let ghost c1 = cls(*self_); let ghost ww = extw(w, x + 1); proof { lemma_wf(*self_); lemma_counts_ext(v00, v1, c0, w, x + 1); assert(c1[c1[x as int]] == c1[x as int]); lemma_wsum_le1(c1, ww, c1[x as int], c1.len() as int); assert(v1[c1[x as int]].count as int == wsum(c1, ww, c1[x as int], c1.len() as int)); }",
                        "exit": "proof { lemma_same(v1, self_.va@, self_.dist as int, c1); lemma_cls(*self_, c1); lemma_counts_add(v1, self_.va@, c1, ww, x as int, c as int); }"}),
        Contract("ds_count", DS + "count", params=["x"], extra=[W], requires=["wf(*old(self_))", "x < " + BIG, "counts(old(self_).va@, cls(*old(self_)), w)"],
                 ensures=EXT("x + 1") + ["r as int == wsum(cls(*final(self_)), extw(w, x + 1), cls(*final(self_))[x as int], cls(*final(self_)).len() as int)", "counts(final(self_).va@, cls(*final(self_)), extw(w, x + 1))"],
                 hints={"entry": "let ghost c0 = cls(*self_); let ghost v00 = self_.va@; proof { lemma_wf(*self_); lemma_range(v00, self_.dist as int, c0); }",
                        "exit": "proof { lemma_wf(*self_); lemma_counts_ext(v00, self_.va@, c0, w, x + 1); let c = cls(*self_); assert(c[c[x as int]] == c[x as int]); }"}),
        Contract("ds_distinct", DS + "distinct", params=[], requires=["wf(*self_)"], ensures=["r as int == nroots(self_.va@, self_.va@.len() as int)"], hints={"entry": "proof { lemma_wf(*self_); }"}),
        Contract("ds_size", DS + "size", params=[], requires=["wf(*self_)"], ensures=["r as int == cls(*self_).len()"], hints={"entry": "proof { lemma_wf(*self_); }"}),
    ]
    tu = "namespace altruct { inline graph::disjoint_set ds_make(size_t sz) { return graph::disjoint_set(sz); } }\n"
    u = Unit("dsu", ["altruct/structure/graph/disjoint_set.h"], tu, cs, SPEC)
    return [u]
