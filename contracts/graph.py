"""adjacency-list graph (graph.h)"""
from unit import Unit, Contract
VA = r"""
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Va { v: i64 }
#[verifier::external_body] pub fn any_Va() -> Va { Va { v: 0 } }
"""
SPEC = r"""
pub type E = @E@;
pub type Rows = Seq<Vec<E>>;
pub trait CloneVV: Sized { fn clone_c(&self) -> (r: Self) ensures r == *self; }
impl<T: Copy> CloneVV for Vec<Vec<T>> { #[verifier::external_body] fn clone_c(&self) -> (r: Self) { self.clone() } }
pub type MS = vstd::multiset::Multiset<E>;
pub open spec fn to(e: E, x: int) -> E { @TO@ }
/// renaming of a target
pub open spec fn rn(e: E, a: int, b: int) -> E { if e.v == a { to(e, b) } else { e } }
/// the multiset of edges left when those into u are dropped and the target a is renamed to b
pub open spec fn ctb(e: E, u: int, a: int, b: int) -> MS { if e.v == u { vstd::multiset::Multiset::empty() } else { vstd::multiset::Multiset::empty().insert(rn(e, a, b)) } }
pub open spec fn img(s: Seq<E>, u: int, a: int, b: int) -> MS decreases s.len() { if s.len() == 0 { vstd::multiset::Multiset::empty() } else { img(s.drop_last(), u, a, b).add(ctb(s.last(), u, a, b)) } }
pub proof fn lemma_img_push(s: Seq<E>, e: E, u: int, a: int, b: int) ensures img(s.push(e), u, a, b) == img(s, u, a, b).add(ctb(e, u, a, b)) { assert(s.push(e).drop_last() =~= s); }
pub proof fn lemma_img_cat(s: Seq<E>, t: Seq<E>, u: int, a: int, b: int) ensures img(s + t, u, a, b) =~= img(s, u, a, b).add(img(t, u, a, b)), decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { let x = t.last(); let r = t.drop_last(); lemma_img_cat(s, r, u, a, b); assert(s + t =~= (s + r).push(x)); lemma_img_push(s + r, x, u, a, b); assert(t =~= r.push(x)); lemma_img_push(r, x, u, a, b); } }
/// loop state of the deletion: the first i edges are final, the others still to be looked at
pub open spec fn part(l: Seq<E>, i: int, u: int, a: int, b: int) -> MS { l.subrange(0, i).to_multiset().add(img(l.subrange(i, l.len() as int), u, a, b)) }
pub proof fn lemma_part0(l: Seq<E>, u: int, a: int, b: int) ensures part(l, 0, u, a, b) =~= img(l, u, a, b) { broadcast use group_to_multiset_ensures; assert(l.subrange(0, l.len() as int) =~= l); assert(l.subrange(0, 0) =~= Seq::empty()); }
pub proof fn lemma_partn(l: Seq<E>, u: int, a: int, b: int) ensures part(l, l.len() as int, u, a, b) =~= l.to_multiset() { assert(l.subrange(0, l.len() as int) =~= l); assert(l.subrange(l.len() as int, l.len() as int) =~= Seq::empty()); }
/// swap with the last edge and pop
pub proof fn lemma_part_del(l: Seq<E>, m: Seq<E>, i: int, u: int, a: int, b: int) requires 0 <= i < l.len(), l[i].v == u, m =~= l.update(i, l.last()).drop_last(), ensures part(m, i, u, a, b) =~= part(l, i, u, a, b)
{
    let n = l.len() as int; let y = l.last(); let x = l[i];
    assert(m.subrange(0, i) =~= l.subrange(0, i));
    if i == n - 1 { assert(m.subrange(i, n - 1) =~= Seq::empty()); assert(l.subrange(i, n) =~= Seq::empty().push(x)); lemma_img_push(Seq::empty(), x, u, a, b); }
    else {
        let mid = l.subrange(i + 1, n - 1);
        assert(m.subrange(i, n - 1) =~= seq![y] + mid); assert(l.subrange(i, n) =~= (seq![x] + mid).push(y));
        lemma_img_push(seq![x] + mid, y, u, a, b); lemma_img_cat(seq![x], mid, u, a, b); lemma_img_cat(seq![y], mid, u, a, b);
        assert(seq![x] =~= Seq::empty().push(x)); assert(seq![y] =~= Seq::empty().push(y)); lemma_img_push(Seq::empty(), x, u, a, b); lemma_img_push(Seq::empty(), y, u, a, b);
    }
}
/// keep (and rename) the edge i
pub proof fn lemma_part_keep(l: Seq<E>, m: Seq<E>, i: int, u: int, a: int, b: int) requires 0 <= i < l.len(), l[i].v != u, m =~= l.update(i, rn(l[i], a, b)), ensures part(m, i + 1, u, a, b) =~= part(l, i, u, a, b)
{
    broadcast use group_to_multiset_ensures; let n = l.len() as int; let x = l[i]; let rest = l.subrange(i + 1, n);
    assert(m.subrange(0, i + 1) =~= l.subrange(0, i).push(rn(x, a, b))); assert(m.subrange(i + 1, n) =~= rest); assert(l.subrange(i, n) =~= seq![x] + rest); lemma_img_cat(seq![x], rest, u, a, b);
    assert(seq![x] =~= Seq::empty().push(x)); lemma_img_push(Seq::empty(), x, u, a, b);
}
/// membership in the image
pub open spec fn from(s: Seq<E>, e: E, u: int, a: int, b: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k].v != u && rn(s[k], a, b) == e }
pub proof fn lemma_img_mem(s: Seq<E>, e: E, u: int, a: int, b: int) ensures (img(s, u, a, b).count(e) > 0) == from(s, e, u, a, b), decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last(); lemma_img_mem(r, e, u, a, b); let x = s.last();
        if from(r, e, u, a, b) { let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k].v != u && rn(r[k], a, b) == e; assert(s[k] == r[k]); }
        if from(s, e, u, a, b) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].v != u && rn(s[k], a, b) == e; if k < r.len() { assert(r[k] == s[k]); } }
        if x.v != u && rn(x, a, b) == e { assert(s[s.len() - 1].v != u); }
    }
}
pub proof fn lemma_ms_mem(s: Seq<E>, e: E) ensures (s.to_multiset().count(e) > 0) == s.contains(e) { broadcast use group_to_multiset_ensures; }
// ---------------------------------------------------------------- duplicates
/// what std::unique keeps
pub open spec fn uniq(s: Seq<E>) -> Seq<E> decreases s.len() { if s.len() == 0 { s } else { let p = uniq(s.drop_last()); if p.len() > 0 && p.last().v == s.last().v { p } else { p.push(s.last()) } } }
pub open spec fn sorted(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).v <= (#[trigger] s[j]).v }
pub open spec fn strict(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).v < (#[trigger] s[j]).v }
pub open spec fn hasv(s: Seq<E>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v == x }
/// no duplicates, every edge was there, every target is kept
pub open spec fn ded(old: Seq<E>, new: Seq<E>) -> bool { strict(new) && (forall|k: int| 0 <= k < new.len() ==> old.contains(#[trigger] new[k])) && (forall|x: int| hasv(old, x) == #[trigger] hasv(new, x)) }
pub proof fn lemma_uniq(s: Seq<E>) requires sorted(s), ensures ded(s, uniq(s)), s.len() > 0 ==> uniq(s).len() > 0 && uniq(s).last().v == s.last().v, uniq(s).len() <= s.len(), decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last(); let x = s.last(); assert(sorted(r)); lemma_uniq(r); let p = uniq(r); let q = uniq(s);
        assert(s[s.len() - 1] == x);
        if r.len() > 0 { assert(s[s.len() - 2] == r.last()); assert(r.last().v <= x.v); }
        assert forall|k: int| 0 <= k < q.len() implies s.contains(#[trigger] q[k]) by { if k < p.len() { assert(q[k] == p[k]); assert(r.contains(p[k])); let m = choose|m: int| 0 <= m < r.len() && r[m] == p[k]; assert(s[m] == p[k]); } else { assert(q[k] == x); } }
        assert forall|y: int| hasv(s, y) == #[trigger] hasv(q, y) by {
            assert(hasv(r, y) == hasv(p, y));
            if hasv(s, y) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v == y; if k < r.len() { assert(r[k].v == y); let m = choose|m: int| 0 <= m < p.len() && (#[trigger] p[m]).v == y; assert(q[m] == p[m]); } else { assert(q[q.len() - 1].v == y); } }
            if hasv(q, y) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).v == y; if k < p.len() { assert(p[k] == q[k]); let m = choose|m: int| 0 <= m < r.len() && (#[trigger] r[m]).v == y; assert(s[m] == r[m]); } else { assert(s[s.len() - 1].v == y); } }
        }
        assert(strict(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).v < (#[trigger] q[j]).v by { if j < p.len() { assert(q[i] == p[i] && q[j] == p[j]); } else { assert(q[i] == p[i]); assert(p[i].v <= p[p.len() - 1].v); } } }
    }
}
pub proof fn lemma_hasv_ms(s: Seq<E>, t: Seq<E>) requires s.to_multiset() == t.to_multiset(), ensures forall|e: E| s.contains(e) == #[trigger] t.contains(e), forall|x: int| hasv(s, x) == #[trigger] hasv(t, x)
{
    assert forall|e: E| s.contains(e) == #[trigger] t.contains(e) by { lemma_ms_mem(s, e); lemma_ms_mem(t, e); }
    assert forall|x: int| hasv(s, x) == #[trigger] hasv(t, x) by {
        if hasv(s, x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v == x; assert(s.contains(s[k])); assert(t.contains(s[k])); let m = choose|m: int| 0 <= m < t.len() && t[m] == s[k]; assert(t[m].v == x); }
        if hasv(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).v == x; assert(t.contains(t[k])); assert(s.contains(t[k])); let m = choose|m: int| 0 <= m < s.len() && s[m] == t[k]; assert(s[m].v == x); }
    }
}
#[verifier::external_body]
pub fn vec_sort(v: &mut Vec<E>, i: i64, j: i64) requires 0 <= i <= j <= old(v)@.len(), ensures final(v)@.len() == old(v)@.len(), i == 0 && j == old(v)@.len() ==> sorted(final(v)@) && final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
#[verifier::external_body]
pub fn vec_unique(v: &mut Vec<E>, i: i64, j: i64) -> (k: i64) requires i == 0, j == old(v)@.len(), ensures 0 <= k <= old(v)@.len(), k == uniq(old(v)@).len(), final(v)@.len() == old(v)@.len(), forall|m: int| 0 <= m < k ==> #[trigger] final(v)@[m] == uniq(old(v)@)[m] { unimplemented!() }
#[verifier::external_body]
pub fn vec_erase(v: &mut Vec<E>, i: i64, j: i64) requires 0 <= i <= j <= old(v)@.len(), ensures final(v)@ =~= old(v)@.subrange(0, i as int) + old(v)@.subrange(j as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vec_insert(v: &mut Vec<E>, at: i64, s: Seq<E>) requires 0 <= at <= old(v)@.len(), ensures final(v)@ =~= old(v)@.subrange(0, at as int) + s + old(v)@.subrange(at as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vec_insert_row(v: &mut Vec<Vec<E>>, x: usize, at: i64, y: usize, b: i64, e: i64) requires x != y, x < old(v)@.len(), y < old(v)@.len(), 0 <= at <= old(v)@[x as int]@.len(), 0 <= b <= e <= old(v)@[y as int]@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@[x as int]@ =~= old(v)@[x as int]@.subrange(0, at as int) + old(v)@[y as int]@.subrange(b as int, e as int) + old(v)@[x as int]@.subrange(at as int, old(v)@[x as int]@.len() as int), forall|k: int| 0 <= k < old(v)@.len() && k != x ==> #[trigger] final(v)@[k] == old(v)@[k]
{ unimplemented!() }
// ---------------------------------------------------------------- the edits
pub open spec fn edges(g: Rows, k: int) -> int decreases k { if k <= 0 { 0 } else { edges(g, k - 1) + g[k - 1]@.len() } }
pub proof fn lemma_edges(g: Rows, i: int, k: int) requires 0 <= i <= k <= g.len(), ensures 0 <= edges(g, i) <= edges(g, k), decreases k - i + i { if i < k { lemma_edges(g, i, k - 1); } else if i > 0 { lemma_edges(g, i - 1, k - 1); } }
/// deletion of node u: the last node takes its name
pub open spec fn deleted(g: Rows, h: Rows, u: int) -> bool { let n = g.len() - 1; h.len() == n && forall|x: int| 0 <= x < n ==> #[trigger] h[x]@.to_multiset() == img(g[if x == u { n } else { x }]@, u, n, u) }
/// row of node x while u and v are merged (edges between them dropped, v's edges moved to u)
pub open spec fn msrc(g: Rows, u: int, v: int, y: int, e: E) -> bool { if y == u { (g[u]@.contains(e) && e.v != v) || (g[v]@.contains(e) && e.v != u) } else { g[y]@.contains(e) } }
pub open spec fn mname(e: E, u: int, v: int, n: int) -> E { rn(rn(e, v, u), n, v) }
pub open spec fn contracted(g: Rows, h: Rows, u: int, v: int) -> bool { let n = g.len() - 1; h.len() == n && forall|x: int| 0 <= x < n ==> crow(g, u, v, x, #[trigger] h[x]@) }
pub open spec fn crow(g: Rows, u: int, v: int, x: int, r: Seq<E>) -> bool { let n = g.len() - 1; let y = if x == v { n } else { x };
    strict(r) && (forall|k: int| 0 <= k < r.len() ==> cfrom(g, u, v, y, #[trigger] r[k])) && (forall|e: E| #[trigger] msrc(g, u, v, y, e) ==> hasv(r, mname(e, u, v, n).v as int)) }
pub open spec fn cfrom(g: Rows, u: int, v: int, y: int, e: E) -> bool { exists|o: E| #[trigger] msrc(g, u, v, y, o) && mname(o, u, v, g.len() - 1) == e }

pub proof fn lemma_img_len(s: Seq<E>, u: int, a: int, b: int) ensures img(s, u, a, b).len() <= s.len(), decreases s.len() { if s.len() > 0 { lemma_img_len(s.drop_last(), u, a, b); broadcast use vstd::multiset::group_multiset_axioms; } }
pub proof fn lemma_ms_len(s: Seq<E>) ensures s.to_multiset().len() == s.len() { broadcast use group_to_multiset_ensures; }
/// the first step of contract: both rows cleaned and joined
pub open spec fn joined(g: Rows, g1: Rows, g2: Rows, u: int, v: int) -> bool {
    g1.len() == g.len() && g2.len() == g.len() && 0 <= u < g.len() && 0 <= v < g.len() && u != v
    && g1[u]@.to_multiset() == img(g[u]@, v, v, v) && g1[v]@.to_multiset() == img(g[v]@, u, u, u) && g2[u]@ =~= g1[u]@ + g1[v]@
    && (forall|k: int| 0 <= k < g.len() && k != u && k != v ==> #[trigger] g2[k] == g[k]) }
pub open spec fn renamed(s: Seq<E>, t: Seq<E>, k: int, u: int, v: int) -> bool { s.len() == t.len() && (forall|j: int| 0 <= j < k ==> #[trigger] t[j] == rn(s[j], v, u)) && (forall|j: int| k <= j < s.len() ==> #[trigger] t[j] == s[j]) }
pub proof fn lemma_joined(g: Rows, g1: Rows, g2: Rows, u: int, v: int, y: int, e: E) requires joined(g, g1, g2, u, v), 0 <= y < g.len(), y != v, ensures g2[y]@.contains(e) == msrc(g, u, v, y, e)
{
    if y == u {
        lemma_ms_mem(g1[u]@, e); lemma_ms_mem(g1[v]@, e); lemma_img_mem(g[u]@, e, v, v, v); lemma_img_mem(g[v]@, e, u, u, u);
        let a = g[u]@; let b = g[v]@; let c = g1[u]@; let d = g1[v]@; let t = g2[u]@;
        if from(a, e, v, v, v) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k].v != v && rn(a[k], v, v) == e; assert(a[k] == e); }
        if from(b, e, u, u, u) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] b[k].v != u && rn(b[k], u, u) == e; assert(b[k] == e); }
        if a.contains(e) && e.v != v { let k = choose|k: int| 0 <= k < a.len() && a[k] == e; assert(a[k].v != v && rn(a[k], v, v) == e); }
        if b.contains(e) && e.v != u { let k = choose|k: int| 0 <= k < b.len() && b[k] == e; assert(b[k].v != u && rn(b[k], u, u) == e); }
        if t.contains(e) { let k = choose|k: int| 0 <= k < t.len() && t[k] == e; if k < c.len() { assert(c[k] == e); } else { assert(d[k - c.len()] == e); } }
        if c.contains(e) { let k = choose|k: int| 0 <= k < c.len() && c[k] == e; assert(t[k] == e); }
        if d.contains(e) { let k = choose|k: int| 0 <= k < d.len() && d[k] == e; assert(t[c.len() + k] == e); }
    }
}
pub proof fn lemma_contract(g: Rows, g1: Rows, g2: Rows, g3: Rows, g4: Rows, h: Rows, u: int, v: int)
    requires joined(g, g1, g2, u, v), g.len() <= i32::MAX, g3.len() == g.len(), forall|k: int| 0 <= k < g.len() ==> renamed(g2[k]@, #[trigger] g3[k]@, g2[k]@.len() as int, u, v), deleted(g3, g4, v), h.len() == g4.len(), forall|k: int| 0 <= k < h.len() ==> ded(g4[k]@, #[trigger] h[k]@),
    ensures contracted(g, h, u, v)
{
    let n = g.len() - 1;
    assert forall|x: int| 0 <= x < n implies crow(g, u, v, x, #[trigger] h[x]@) by {
        let y = if x == v { n } else { x }; let r = h[x]@; let q = g4[x]@; let s = g3[y]@; let t = g2[y]@;
        assert(ded(q, r)); assert(renamed(t, s, t.len() as int, u, v)); assert(q.to_multiset() == img(s, v, n, v));
        assert forall|k: int| 0 <= k < r.len() implies cfrom(g, u, v, y, #[trigger] r[k]) by {
            let e = r[k]; assert(q.contains(e)); lemma_ms_mem(q, e); lemma_img_mem(s, e, v, n, v);
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].v != v && rn(s[j], n, v) == e; assert(s[j] == rn(t[j], v, u)); assert(t.contains(t[j])); lemma_joined(g, g1, g2, u, v, y, t[j]); assert(msrc(g, u, v, y, t[j]) && mname(t[j], u, v, n) == e);
        }
        assert forall|e: E| #[trigger] msrc(g, u, v, y, e) implies hasv(r, mname(e, u, v, n).v as int) by {
            lemma_joined(g, g1, g2, u, v, y, e); let j = choose|j: int| 0 <= j < t.len() && t[j] == e; let m = mname(e, u, v, n);
            assert(s[j] == rn(e, v, u)); assert(s[j].v != v); assert(rn(s[j], n, v) == m); assert(from(s, m, v, n, v)); lemma_img_mem(s, m, v, n, v); lemma_ms_mem(q, m);
            let k = choose|k: int| 0 <= k < q.len() && q[k] == m; assert(q[k].v == m.v as int); assert(hasv(q, m.v as int)); assert(hasv(r, m.v as int));
        }
    }
}
"""


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator<" or name == "operator==":
            return None
        if name == "sort" and len(args) == 2 and stmt:
            b1, o1 = tr.ptr(args[0]); b2, o2 = tr.ptr(args[1])
            if b1.base == b2.base:
                return ["{", "let si: i64 = %s; let sj: i64 = %s; vec_sort(&mut %s, si, sj);" % (o1, o2, b1.base), "}"]
        if name == "erase" and obj is not None and len(args) == 2 and stmt:
            b1, o1 = tr.ptr(args[0]); b2, o2 = tr.ptr(args[1])
            pl = tr.place(obj)
            if b1.base == b2.base == pl:
                return ["{", "let si: i64 = %s; let sj: i64 = %s; vec_erase(&mut %s, si, sj);" % (o1, o2, pl), "}"]
            tr.err(e, "erase of another sequence")
        if name == "insert" and obj is not None and len(args) == 3 and stmt:
            b0, o0 = tr.ptr(args[0]); b1, o1 = tr.ptr(args[1]); b2, o2 = tr.ptr(args[2])
            pl = tr.place(obj)
            import re
            m1 = re.match(r"^(.*)\[(.*) as usize\]$", pl); m2 = re.match(r"^(.*)\[(.*) as usize\]$", b1.base)
            if b0.base == pl and b1.base == b2.base and m1 and m2 and m1.group(1) == m2.group(1):
                return ["{", "let s0: i64 = %s; let s1: i64 = %s; let s2: i64 = %s; let x0 = %s as usize; let y0 = %s as usize; vec_insert_row(&mut %s, x0, s0, y0, s1, s2);" % (o0, o1, o2, m1.group(2), m2.group(2), m1.group(1)), "}"]
        return None

    def ptr_call(self, tr, e, name, args):
        if name == "unique" and len(args) == 2:
            b1, o1 = tr.ptr(args[0]); b2, o2 = tr.ptr(args[1])
            if b1.base == b2.base:
                from translate import Bind
                return Bind("ptr", None, b1.ty, base=b1.base), "{ let uj: i64 = %s; vec_unique(&mut %s, %s, uj) }" % (o2, b1.base, o1)
        return None


def contracts(ct):
    Q = "altruct::graph::graph<%s>::" % ct
    G = "old(self_).adjl@"; F = "final(self_).adjl@"; A = "self_.adjl@"
    node = lambda x, g=G: "0 <= %s < %s.len()" % (x, g)
    sz = G + ".len() < i32::MAX"
    rows = "forall|k: int| 0 <= k < %s.len() ==> (#[trigger] %s[k])@.len() < i32::MAX" % (G, G)
    keep = lambda u: "forall|k: int| 0 <= k < %s.len() && k != %s ==> #[trigger] %s[k] == %s[k]" % (G, u, F, G)
    cs = [
        Contract("size", Q + "size", params=[], requires=[A + ".len() <= i32::MAX"], ensures=["r as int == %s.len()" % A]),
        Contract("num_edges", Q + "num_edges", params=[], requires=["edges(%s, %s.len() as int) <= i32::MAX" % (A, A)], ensures=["r == edges(%s, %s.len() as int)" % (A, A)],
                 hints={"L0.begin": "proof { lemma_edges(self_.adjl@, idx as int, idx + 1); lemma_edges(self_.adjl@, idx + 1, self_.adjl@.len() as int); }"}, loops={0: dict(invariant=["0 <= idx <= %s.len()" % A, "e == edges(%s, idx as int)" % A])}),
        Contract("add_node", Q + "add_node", params=[], requires=[sz], ensures=["r as int == %s.len()" % G, "%s.len() == r + 1" % F, "%s[r as int]@.len() == 0" % F, "forall|k: int| 0 <= k < %s.len() ==> #[trigger] %s[k] == %s[k]" % (G, F, G)]),
        Contract("add_edge", Q + "add_edge", params=["u", "e"], requires=[node("u")], ensures=["%s.len() == %s.len()" % (F, G), "%s[u as int]@ == %s[u as int]@.push(e)" % (F, G), keep("u")]),
        Contract("add_edge2", Q + "add_edge2", params=["u", "e"], requires=[node("u"), node("e.v")],
                 ensures=["%s.len() == %s.len()" % (F, G), "u == e.v ==> %s[u as int]@ =~= %s[u as int]@.push(e).push(to(e, u as int))" % (F, G), "u != e.v ==> %s[u as int]@ =~= %s[u as int]@.push(e) && %s[e.v as int]@ =~= %s[e.v as int]@.push(to(e, u as int))" % (F, G, F, G), "forall|k: int| 0 <= k < %s.len() && k != u && k != e.v ==> #[trigger] %s[k] == %s[k]" % (G, F, G)]),
        Contract("delete_edge", Q + "delete_edge", params=["u", "v"], requires=[node("u"), G + "[u as int]@.len() <= i32::MAX"], ensures=["%s.len() == %s.len()" % (F, G), "%s[u as int]@.to_multiset() == img(%s[u as int]@, v as int, v as int, v as int)" % (F, G), keep("u")],
                 hints={"L0.before": "let ghost l0 = self_.adjl@[u as int]@; proof { lemma_part0(l0, v as int, v as int, v as int); }", "L0.begin": "let ghost l1 = self_.adjl@[u as int]@; let ghost i1 = i as int;",
                        "L0.end": "proof { let l2 = self_.adjl@[u as int]@; if l1[i1].v == v { lemma_part_del(l1, l2, i1, v as int, v as int, v as int); } else { lemma_part_keep(l1, l2, i1, v as int, v as int, v as int); } }", "L0.after": "proof { lemma_partn(self_.adjl@[u as int]@, v as int, v as int, v as int); }"},
                 loops={0: dict(invariant=["self_.adjl@.len() == %s.len()" % G, "0 <= u < %s.len()" % G, "0 <= i <= self_.adjl@[u as int]@.len() <= i32::MAX", "forall|k: int| 0 <= k < %s.len() && k != u ==> #[trigger] self_.adjl@[k] == %s[k]" % (G, G), "part(self_.adjl@[u as int]@, i as int, v as int, v as int, v as int) == img(l0, v as int, v as int, v as int)"], decreases="self_.adjl@[u as int]@.len() - i")}),
        Contract("delete_node", Q + "delete_node", params=["u"], requires=[node("u"), G + ".len() <= i32::MAX", rows], ensures=["deleted(%s, %s, u as int)" % (G, F)],
                 hints={"L0.before": "let ghost g0 = old(self_).adjl@; let ghost g1 = self_.adjl@; let ghost n = v as int; proof { assert forall|x: int| 0 <= x < n implies #[trigger] g1[x] == g0[if x == u { n } else { x }] by {} }",
                        "L1.before": "let ghost x = idx as int; proof { lemma_part0(g1[x]@, u as int, n, u as int); }", "L1.begin": "let ghost l1 = self_.adjl@[x]@; let ghost i1 = i as int;",
                        "L1.end": "proof { let l2 = self_.adjl@[x]@; if l1[i1].v == u { lemma_part_del(l1, l2, i1, u as int, n, u as int); } else { lemma_part_keep(l1, l2, i1, u as int, n, u as int); } }", "L1.after": "proof { lemma_partn(self_.adjl@[x]@, u as int, n, u as int); }"},
                 loops={0: dict(invariant=["0 <= idx <= n", "v == n", "self_.adjl@.len() == n", "0 <= u <= n", "n < i32::MAX", "g1.len() == n", "forall|k: int| 0 <= k < n ==> (#[trigger] g1[k])@.len() < i32::MAX", "forall|k: int| idx <= k < n ==> #[trigger] self_.adjl@[k] == g1[k]", "forall|k: int| 0 <= k < idx ==> #[trigger] self_.adjl@[k]@.to_multiset() == img(g1[k]@, u as int, n, u as int)"]),
                        1: dict(invariant=["0 <= x < n", "idx == x", "v == n", "self_.adjl@.len() == n", "0 <= u <= n", "n < i32::MAX", "g1.len() == n", "0 <= i <= self_.adjl@[x]@.len() < i32::MAX", "forall|k: int| x < k < n ==> #[trigger] self_.adjl@[k] == g1[k]", "forall|k: int| 0 <= k < x ==> #[trigger] self_.adjl@[k]@.to_multiset() == img(g1[k]@, u as int, n, u as int)",
                                           "part(self_.adjl@[x]@, i as int, u as int, n, u as int) == img(g1[x]@, u as int, n, u as int)"], decreases="self_.adjl@[x]@.len() - i")}),
        Contract("dedup", Q + "deduplicate_edges", params=["u"], requires=[node("u")], ensures=["%s.len() == %s.len()" % (F, G), "ded(%s[u as int]@, %s[u as int]@)" % (G, F), keep("u")],
                 hints={"use:sort.after": "let ghost s1 = self_.adjl@[u as int]@; proof { lemma_uniq(s1); lemma_hasv_ms(old(self_).adjl@[u as int]@, s1); }", "use:erase.after": "proof { assert(self_.adjl@[u as int]@ =~= uniq(s1)); }"}),
        Contract("contract", Q + "contract", params=["u", "v"], requires=[node("u"), node("v"), "u != v", G + ".len() <= i32::MAX", rows, "%s[u as int]@.len() + %s[v as int]@.len() < i32::MAX" % (G, G)], ensures=["contracted(%s, %s, u as int, v as int)" % (G, F)],
                 hints={"entry": "let ghost g0 = self_.adjl@; let ghost uu = u as int; let ghost vv = v as int; let ghost n = g0.len() - 1; let ghost mut g2 = self_.adjl@; let ghost mut g3 = self_.adjl@;", "L0.before": "proof { g2 = self_.adjl@; assert(g2[uu]@ =~= g1[uu]@ + g1[vv]@); lemma_img_len(g0[uu]@, vv, vv, vv); lemma_img_len(g0[vv]@, uu, uu, uu); lemma_ms_len(g1[uu]@); lemma_ms_len(g1[vv]@); assert(joined(g0, g1, g2, uu, vv)); }",
                        "use:insert.before": "let ghost g1 = self_.adjl@;", "L1.before": "let ghost x = idx as int;", "L0.after": "proof { g3 = self_.adjl@; }", "L2.before": "let ghost g4 = self_.adjl@;", "L2.after": "proof { lemma_contract(g0, g1, g2, g3, g4, self_.adjl@, uu, vv); }"},
                 loops={0: dict(invariant=["0 <= idx <= g0.len()", "self_.adjl@.len() == g0.len()", "g2.len() == g0.len()", "forall|k: int| 0 <= k < idx ==> renamed(g2[k]@, #[trigger] self_.adjl@[k]@, g2[k]@.len() as int, uu, vv)", "forall|k: int| idx <= k < g0.len() ==> #[trigger] self_.adjl@[k] == g2[k]"]),
                        1: dict(invariant=["x == idx", "0 <= x < g0.len()", "0 <= idx_2 <= self_.adjl@[x]@.len()", "self_.adjl@.len() == g0.len()", "g2.len() == g0.len()", "forall|k: int| 0 <= k < x ==> renamed(g2[k]@, #[trigger] self_.adjl@[k]@, g2[k]@.len() as int, uu, vv)", "forall|k: int| x < k < g0.len() ==> #[trigger] self_.adjl@[k] == g2[k]", "renamed(g2[x]@, self_.adjl@[x]@, idx_2 as int, uu, vv)"]),
                        2: dict(invariant=["g4.len() == n", "self_.adjl@.len() == n", "n <= i32::MAX", "0 <= u_2 <= n", "forall|k: int| 0 <= k < u_2 ==> ded(g4[k]@, #[trigger] self_.adjl@[k]@)", "forall|k: int| u_2 <= k < n ==> #[trigger] self_.adjl@[k] == g4[k]"], decreases="n - u_2")}),
        Contract("edge_lt", "altruct::graph::%s::operator<" % ct.replace("altruct::graph::", ""), params=["rhs"], ensures=["r == (self_.v < rhs.v)"]),
        Contract("edge_eq", "altruct::graph::%s::operator==" % ct.replace("altruct::graph::", ""), params=["rhs"], ensures=["r == (self_.v == rhs.v)"]),
    ]
    return cs


def units():
    us = []
    for nm, ct, to, rt in (("graph_w", "altruct::graph::weighted_edge<altruct::Va>", "@E@ { v: x as i32, w: e.w }", None), ("graph_e", "altruct::graph::edge", "@E@ { v: x as i32 }", None)):
        E = "Weighted_edge_Va" if nm == "graph_w" else "Edge"
        tu = "namespace altruct { struct Va { long v_; }; namespace graph { template class graph<%s>; %s } }\n" % (ct.replace("altruct::graph::", ""), "template struct weighted_edge<altruct::Va>;" if nm == "graph_w" else "")
        u = Unit(nm, ["altruct/structure/graph/graph.h"], tu, contracts(ct), (VA if nm == "graph_w" else "") + SPEC.replace("@TO@", to).replace("@E@", E))
        u.hooks.insert(0, Hook())
        for k in ("altruct::Va", "Va"):
            u.type_map[k] = "Va"
        u.copy_types |= {"Va", E}
        u.arbs["Va"] = "any_Va()"
        u.trusted += ["vec_sort / vec_unique / vec_erase / vec_insert_row: std::sort and std::unique by the edge's own comparison, std::vector::erase and insert of a range"]
        us.append(u)
    return us
