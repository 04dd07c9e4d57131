"""permutation algebra (permutation.h)"""
from unit import Unit, Contract
SPEC = r"""
pub trait CloneVV: Sized { fn clone_c(&self) -> (r: Self) ensures r == *self; }
impl<T: Copy> CloneVV for Vec<Vec<T>> { #[verifier::external_body] fn clone_c(&self) -> (r: Self) { self.clone() } }
impl CloneVV for @P@ { #[verifier::external_body] fn clone_c(&self) -> (r: Self) { @P@ { cycles: self.cycles.clone(), n: self.n } } }
pub type Cs = Seq<Vec<@I@>>;
// ---------------------------------------------------------------- cycles as a function
pub open spec fn has(cs: Cs, i: int, j: int) -> bool { 0 <= i < cs.len() && 0 <= j < cs[i]@.len() }
pub open spec fn at(cs: Cs, i: int, j: int) -> int { cs[i]@[j] as int }
pub open spec fn succ(j: int, l: int) -> int { if j + 1 == l { 0 } else { j + 1 } }
pub open spec fn inrange(cs: Cs, n: int) -> bool { forall|i: int, j: int| has(cs, i, j) ==> 0 <= #[trigger] at(cs, i, j) < n }
pub open spec fn disjoint(cs: Cs) -> bool { forall|i: int, j: int, k: int, l: int| has(cs, i, j) && has(cs, k, l) && #[trigger] at(cs, i, j) == #[trigger] at(cs, k, l) ==> i == k && j == l }
pub open spec fn nonempty(cs: Cs) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i])@.len() >= 1 }
/// disjoint cycles over [0, n)
pub open spec fn valid(cs: Cs, n: int) -> bool { nonempty(cs) && inrange(cs, n) && disjoint(cs) }
pub open spec fn inc(cs: Cs, x: int) -> bool { exists|i: int, j: int| has(cs, i, j) && #[trigger] at(cs, i, j) == x }
pub open spec fn loc(cs: Cs, x: int) -> (int, int) { choose|p: (int, int)| has(cs, p.0, p.1) && #[trigger] at(cs, p.0, p.1) == x }
/// the bijection that the cycles denote
pub open spec fn nxt(cs: Cs, x: int) -> int { if inc(cs, x) { let p = loc(cs, x); at(cs, p.0, succ(p.1, cs[p.0]@.len() as int)) } else { x } }
pub proof fn lemma_nxt(cs: Cs, i: int, j: int) requires disjoint(cs), has(cs, i, j), ensures inc(cs, at(cs, i, j)), nxt(cs, at(cs, i, j)) == at(cs, i, succ(j, cs[i]@.len() as int)), has(cs, i, succ(j, cs[i]@.len() as int))
{ let x = at(cs, i, j); let q = (i, j); assert(has(cs, q.0, q.1) && at(cs, q.0, q.1) == x); let p = loc(cs, x); assert(has(cs, p.0, p.1) && at(cs, p.0, p.1) == x); }
pub proof fn lemma_bij(cs: Cs, n: int) requires valid(cs, n), ensures forall|x: int| 0 <= x < n ==> 0 <= #[trigger] nxt(cs, x) < n, forall|x: int, y: int| #[trigger] nxt(cs, x) == #[trigger] nxt(cs, y) ==> x == y, forall|x: int| inc(cs, x) ==> 0 <= x < n, forall|x: int| inc(cs, x) <==> #[trigger] inc(cs, nxt(cs, x))
{
    assert forall|x: int| inc(cs, x) implies 0 <= x < n by { let p = loc2(cs, x); };
    assert forall|x: int| inc(cs, x) <==> #[trigger] inc(cs, nxt(cs, x)) by { if inc(cs, x) { let p = loc2(cs, x); lemma_nxt(cs, p.0, p.1); let s = succ(p.1, cs[p.0]@.len() as int); lemma_nxt(cs, p.0, s); } }
    assert forall|x: int| 0 <= x < n implies 0 <= #[trigger] nxt(cs, x) < n by { if inc(cs, x) { assert(inc(cs, nxt(cs, x))); } }
    assert forall|x: int, y: int| #[trigger] nxt(cs, x) == #[trigger] nxt(cs, y) implies x == y by {
        assert(inc(cs, x) <==> inc(cs, nxt(cs, x))); assert(inc(cs, y) <==> inc(cs, nxt(cs, y)));
        if inc(cs, x) { let p = loc2(cs, x); let q = loc2(cs, y); lemma_nxt(cs, p.0, p.1); lemma_nxt(cs, q.0, q.1); }
    }
}
pub proof fn loc2(cs: Cs, x: int) -> (p: (int, int)) requires inc(cs, x), ensures has(cs, p.0, p.1), at(cs, p.0, p.1) == x
{ let (i, j) = choose|i: int, j: int| has(cs, i, j) && #[trigger] at(cs, i, j) == x; (i, j) }
/// appending a cycle
pub proof fn lemma_push(cs: Cs, v: Vec<@I@>, n: int) requires valid(cs, n), v@.len() >= 1, forall|j: int| 0 <= j < v@.len() ==> 0 <= #[trigger] v@[j] < n && !inc(cs, v@[j] as int), forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] != v@[j],
    ensures valid(cs.push(v), n), forall|x: int| #![trigger within(v@, x)] #![trigger inc(cs.push(v), x)] inc(cs.push(v), x) == (inc(cs, x) || within(v@, x)), forall|x: int| !within(v@, x) ==> #[trigger] nxt(cs.push(v), x) == nxt(cs, x), forall|j: int| 0 <= j < v@.len() ==> nxt(cs.push(v), #[trigger] v@[j] as int) == v@[succ(j, v@.len() as int)]
{
    let t = cs.push(v); let k = cs.len() as int;
    assert(nonempty(t));
    assert forall|i: int, j: int| has(t, i, j) implies 0 <= #[trigger] at(t, i, j) < n by { if i < k { assert(has(cs, i, j)); assert(at(cs, i, j) == at(t, i, j)); } else { assert(v@[j] == at(t, i, j)); } }
    assert(inrange(t, n));
    assert forall|i: int, j: int, a: int, b: int| has(t, i, j) && has(t, a, b) && #[trigger] at(t, i, j) == #[trigger] at(t, a, b) implies i == a && j == b by {
        if i < k { assert(has(cs, i, j)); assert(at(cs, i, j) == at(t, i, j)); } else { assert(v@[j] == at(t, i, j)); }
        if a < k { assert(has(cs, a, b)); assert(at(cs, a, b) == at(t, a, b)); } else { assert(v@[b] == at(t, a, b)); }
    }
    assert(disjoint(t));
    assert forall|x: int| #![trigger within(v@, x)] #![trigger inc(t, x)] inc(t, x) == (inc(cs, x) || within(v@, x)) by {
        if inc(cs, x) { let p = loc2(cs, x); assert(has(t, p.0, p.1)); assert(at(t, p.0, p.1) == x); }
        if within(v@, x) { let j = choose|j: int| 0 <= j < v@.len() && #[trigger] v@[j] == x; assert(has(t, k, j)); assert(at(t, k, j) == x); }
        if inc(t, x) { let p = loc2(t, x); if p.0 < k { assert(has(cs, p.0, p.1)); assert(at(cs, p.0, p.1) == x); } else { assert(v@[p.1] == x); } }
    }
    assert forall|x: int| !within(v@, x) implies #[trigger] nxt(t, x) == nxt(cs, x) by {
        assert(inc(t, x) <==> inc(cs, x));
        if inc(cs, x) { let p = loc2(cs, x); assert(has(t, p.0, p.1)); assert(at(t, p.0, p.1) == x); lemma_nxt(cs, p.0, p.1); lemma_nxt(t, p.0, p.1); }
    }
    assert forall|j: int| 0 <= j < v@.len() implies nxt(t, #[trigger] v@[j] as int) == v@[succ(j, v@.len() as int)] by { assert(has(t, k, j)); assert(at(t, k, j) == v@[j]); lemma_nxt(t, k, j); }
}
pub open spec fn within(v: Seq<@I@>, x: int) -> bool { exists|j: int| 0 <= j < v.len() && #[trigger] v[j] == x }
// ---------------------------------------------------------------- building cycles of a bijection g by walking
pub open spec fn isperm(g: Seq<int>) -> bool { (forall|x: int| 0 <= x < g.len() ==> 0 <= #[trigger] g[x] < g.len()) && (forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && #[trigger] g[x] == #[trigger] g[y] ==> x == y) }
pub open spec fn base(cs: Cs, u: Seq<bool>, g: Seq<int>) -> bool {
    isperm(g) && u.len() == g.len() && valid(cs, g.len() as int)
    && (forall|x: int| #[trigger] inc(cs, x) ==> u[x] && nxt(cs, x) == g[x])
    && (forall|x: int| 0 <= x < g.len() && u[x] && !inc(cs, x) ==> #[trigger] g[x] == x)
    && closed(u, g) }
#[verifier::opaque]
pub open spec fn closed(u: Seq<bool>, g: Seq<int>) -> bool { forall|x: int| 0 <= x < g.len() && u[x] ==> u[#[trigger] g[x]] }
pub open spec fn walk(c: Seq<@I@>, u: Seq<bool>, u0: Seq<bool>, g: Seq<int>, start: int, j: int) -> bool {
    u.len() == g.len() && u0.len() == g.len() && 0 <= start < g.len() && 0 <= j < g.len() && c.len() <= g.len()
    && (forall|e: int| 0 <= e < c.len() ==> 0 <= #[trigger] c[e] < g.len() && !u0[c[e] as int])
    && (forall|a: int, b: int| 0 <= a < b < c.len() ==> c[a] != c[b])
    && (forall|x: int| 0 <= x < g.len() ==> (#[trigger] u[x] <==> u0[x] || within(c, x)))
    && (forall|e: int| 0 <= e < c.len() - 1 ==> g[#[trigger] c[e] as int] == c[e + 1])
    && (if c.len() == 0 { j == start } else { c[0] == start && j == g[c.last() as int] }) }
pub proof fn lemma_start(u: Seq<bool>, g: Seq<int>, start: int) requires u.len() == g.len(), 0 <= start < g.len(), ensures walk(Seq::<@I@>::empty(), u, u, g, start, start) {}
pub proof fn lemma_step(c: Seq<@I@>, u: Seq<bool>, u0: Seq<bool>, g: Seq<int>, start: int, j: int, v: @I@) requires isperm(g), walk(c, u, u0, g, start, j), !u[j], v == j, ensures walk(c.push(v), u.update(j, true), u0, g, start, g[j])
{
    let d = c.push(v); let w = u.update(j, true);
    assert(!within(c, j)); assert(!u0[j]);
    assert forall|a: int, b: int| 0 <= a < b < d.len() implies d[a] != d[b] by { if b == c.len() { assert(c[a] != j); } }
    assert forall|x: int| 0 <= x < g.len() implies (#[trigger] w[x] <==> u0[x] || within(d, x)) by {
        if within(c, x) { let e = choose|e: int| 0 <= e < c.len() && #[trigger] c[e] == x; assert(d[e] == x); }
        if within(d, x) && x != j { let e = choose|e: int| 0 <= e < d.len() && #[trigger] d[e] == x; assert(c[e] == x); }
        if x == j { assert(d[c.len() as int] == x); }
        assert(u[x] <==> u0[x] || within(c, x));
    }
    assert forall|e: int| 0 <= e < d.len() implies 0 <= #[trigger] d[e] < g.len() && !u0[d[e] as int] by { if e < c.len() { assert(d[e] == c[e]); } }
    assert forall|e: int| 0 <= e < d.len() - 1 implies g[#[trigger] d[e] as int] == d[e + 1] by { assert(d[e] == c[e]); if e + 1 < c.len() { assert(d[e + 1] == c[e + 1]); } else { assert(c.last() == c[e]); } }
    if c.len() > 0 { assert(d[0] == c[0]); }
    assert(d.last() == v); lemma_count(d, g.len() as int);
}
pub proof fn lemma_count(c: Seq<@I@>, n: int) requires forall|e: int| 0 <= e < c.len() ==> 0 <= #[trigger] c[e] < n, forall|a: int, b: int| 0 <= a < b < c.len() ==> c[a] != c[b], 0 <= n, ensures c.len() <= n
{
    let d = c.map_values(|v: @I@| v as int);
    assert(d.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < d.len() && 0 <= b < d.len() && a != b implies d[a] != d[b] by { assert(d[a] == c[a] && d[b] == c[b]); if a < b {} else { assert(c[b] != c[a]); } } }
    d.unique_seq_to_set(); let s = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
    assert(d.to_set().subset_of(s)) by { assert forall|x: int| d.to_set().contains(x) implies s.contains(x) by { assert(d.contains(x)); let e = choose|e: int| 0 <= e < d.len() && d[e] == x; assert(c[e] == d[e]); } }
    vstd::set_lib::lemma_len_subset(d.to_set(), s);
}
pub open spec fn cyc(c: Seq<@I@>, g: Seq<int>) -> bool { forall|e: int| 0 <= e < c.len() ==> g[#[trigger] c[e] as int] == c[succ(e, c.len() as int)] }
pub proof fn lemma_loop(cs: Cs, c: Seq<@I@>, u: Seq<bool>, u0: Seq<bool>, g: Seq<int>, start: int, j: int) requires base(cs, u0, g), walk(c, u, u0, g, start, j), u[j], c.len() > 0,
    ensures cyc(c, g), closed(u, g), u[start], forall|e: int| 0 <= e < c.len() ==> !inc(cs, #[trigger] c[e] as int)
{
    let n = g.len() as int; let l = c.len() as int; reveal(closed);
    assert(c.last() == c[l - 1]); assert(!u0[c[l - 1] as int]); let z = c[l - 1] as int; assert(g[z] == j);
    if u0[j] { lemma_pre(cs, u0, g, j); assert(u0[z]); }
    assert(within(c, j)) by { assert(u[j] <==> u0[j] || within(c, j)); }
    let e = choose|e: int| 0 <= e < c.len() && #[trigger] c[e] == j;
    if e > 0 { let y = c[e - 1] as int; assert(g[c[e - 1] as int] == c[e - 1 + 1]); assert(g[y] == g[z]); assert(0 <= y < n && 0 <= z < n); assert(y == z); if e - 1 < l - 1 { assert(c[e - 1] != c[l - 1]); } }
    assert(j == c[0]); assert(u[start]) by { assert(c[0] == start); assert(within(c, start)); assert(u[start] <==> u0[start] || within(c, start)); }
    assert forall|e: int| 0 <= e < l implies !inc(cs, #[trigger] c[e] as int) by { if inc(cs, c[e] as int) { assert(u0[c[e] as int]); } }
    assert forall|e: int| 0 <= e < l implies g[#[trigger] c[e] as int] == c[succ(e, l)] by { if e + 1 < l { assert(g[c[e] as int] == c[e + 1]); } }
    assert forall|x: int| 0 <= x < n && u[x] implies u[#[trigger] g[x]] by {
        assert(0 <= g[x] < n); assert(u[x] <==> u0[x] || within(c, x)); assert(u[g[x]] <==> u0[g[x]] || within(c, g[x]));
        if u0[x] { assert(u0[g[x]]); } else { let e = choose|e: int| 0 <= e < c.len() && #[trigger] c[e] == x; assert(c[succ(e, l)] == g[x]); assert(within(c, g[x])); }
    }
}
pub proof fn lemma_close(cs: Cs, v: Vec<@I@>, u: Seq<bool>, u0: Seq<bool>, g: Seq<int>, start: int, j: int) requires base(cs, u0, g), walk(v@, u, u0, g, start, j), u[j],
    ensures base(if v@.len() > 1 { cs.push(v) } else { cs }, u, g), u[start], forall|x: int| 0 <= x < g.len() && #[trigger] u0[x] ==> u[x], v@.len() == 0 ==> u =~= u0
{
    let c = v@; let n = g.len() as int; let t = if c.len() > 1 { cs.push(v) } else { cs };
    assert forall|x: int| 0 <= x < n implies (#[trigger] u[x] <==> u0[x] || within(c, x)) by {}
    if c.len() == 0 { assert forall|x: int| 0 <= x < n implies u[x] == u0[x] by { assert(u[x] <==> u0[x] || within(c, x)); } assert(u =~= u0); }
    else {
        let l = c.len() as int; lemma_loop(cs, c, u, u0, g, start, j); lemma_bij(cs, n);
        if l > 1 {
            lemma_push(cs, v, n); lemma_bij(t, n);
            assert forall|x: int| #[trigger] inc(t, x) implies u[x] && nxt(t, x) == g[x] by {
                assert(0 <= x < n); assert(inc(t, x) <==> inc(cs, x) || within(v@, x)); assert(u[x] <==> u0[x] || within(c, x));
                if within(v@, x) { let e = choose|e: int| 0 <= e < c.len() && #[trigger] c[e] == x; assert(nxt(t, v@[e] as int) == v@[succ(e, l)]); }
                else { assert(nxt(t, x) == nxt(cs, x)); }
            }
            assert forall|x: int| 0 <= x < n && u[x] && !inc(t, x) implies #[trigger] g[x] == x by { assert(inc(t, x) <==> inc(cs, x) || within(v@, x)); assert(u[x] <==> u0[x] || within(c, x)); }
        } else {
            assert forall|x: int| #[trigger] inc(t, x) implies u[x] && nxt(t, x) == g[x] by { assert(u0[x]); assert(u[x] <==> u0[x] || within(c, x)); }
            assert forall|x: int| 0 <= x < n && u[x] && !inc(t, x) implies #[trigger] g[x] == x by { assert(u[x] <==> u0[x] || within(c, x)); if within(c, x) { let e = choose|e: int| 0 <= e < c.len() && #[trigger] c[e] == x; assert(e == 0); assert(g[c[0] as int] == c[succ(0, l)]); } }
        }
    }
}
/// the visited set is closed under predecessors
pub proof fn lemma_pre(cs: Cs, u: Seq<bool>, g: Seq<int>, y: int) requires base(cs, u, g), 0 <= y < g.len(), u[y], ensures forall|x: int| 0 <= x < g.len() && #[trigger] g[x] == y ==> u[x]
{
    if inc(cs, y) {
        let p = loc2(cs, y); let l = cs[p.0]@.len() as int; let q = if p.1 == 0 { l - 1 } else { p.1 - 1 }; assert(has(cs, p.0, q)); lemma_nxt(cs, p.0, q); let x0 = at(cs, p.0, q); assert(succ(q, l) == p.1); assert(inc(cs, x0)); assert(g[x0] == y); lemma_bij(cs, g.len() as int); assert(u[x0]);
    } else { assert(g[y] == y); }
}
// ---------------------------------------------------------------- transpositions
pub open spec fn swp<T>(l: Seq<T>, a: int, b: int) -> Seq<T> { l.update(a, l[b]).update(b, l[a]) }
pub open spec fn tapply<T>(l: Seq<T>, ts: Seq<(@I@, @I@)>, k: int) -> Seq<T> decreases k { if k <= 0 { l } else { swp(tapply(l, ts, k - 1), ts[k - 1].0 as int, ts[k - 1].1 as int) } }
pub open spec fn tin(ts: Seq<(@I@, @I@)>, n: int) -> bool { forall|k: int| 0 <= k < ts.len() ==> 0 <= (#[trigger] ts[k]).0 < n && 0 <= ts[k].1 < n }
pub proof fn lemma_tlen<T>(l: Seq<T>, ts: Seq<(@I@, @I@)>, k: int) ensures tapply(l, ts, k).len() == l.len(), decreases k { if k > 0 { lemma_tlen(l, ts, k - 1); } }
pub proof fn lemma_tpre<T>(l: Seq<T>, a: Seq<(@I@, @I@)>, b: Seq<(@I@, @I@)>, k: int) requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i], ensures tapply(l, a, k) == tapply(l, b, k), decreases k { if k > 0 { lemma_tpre(l, a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_tpush<T>(l: Seq<T>, a: Seq<(@I@, @I@)>, t: (@I@, @I@)) ensures tapply(l, a.push(t), a.len() as int + 1) == swp(tapply(l, a, a.len() as int), t.0 as int, t.1 as int) { lemma_tpre(l, a, a.push(t), a.len() as int); assert(a.push(t)[a.len() as int] == t); }
pub open spec fn idl(n: int) -> Seq<@I@> { Seq::new(n as nat, |i: int| i as @I@) }
pub open spec fn lp(l: Seq<@I@>) -> Seq<int> { Seq::new(l.len(), |i: int| l[i] as int) }
pub proof fn lemma_tperm(ts: Seq<(@I@, @I@)>, n: int, k: int) requires 0 <= n <= @I@::MAX, tin(ts, n), 0 <= k <= ts.len(), ensures isperm(lp(tapply(idl(n), ts, k))), tapply(idl(n), ts, k).len() == n, decreases k
{
    let m = lp(tapply(idl(n), ts, k));
    if k > 0 {
        lemma_tperm(ts, n, k - 1); let l = lp(tapply(idl(n), ts, k - 1)); let a = ts[k - 1].0 as int; let b = ts[k - 1].1 as int; assert(m =~= swp(l, a, b));
        assert forall|x: int, y: int| 0 <= x < m.len() && 0 <= y < m.len() && #[trigger] m[x] == #[trigger] m[y] implies x == y by { let x1 = if x == a { b } else if x == b { a } else { x }; let y1 = if y == a { b } else if y == b { a } else { y }; assert(m[x] == l[x1]); assert(m[y] == l[y1]); }
        assert forall|x: int| 0 <= x < m.len() implies 0 <= #[trigger] m[x] < m.len() by { let x1 = if x == a { b } else if x == b { a } else { x }; assert(m[x] == l[x1]); }
    } else { assert forall|x: int| 0 <= x < m.len() implies #[trigger] m[x] == x by {} }
}
/// the transpositions of a cycle, and of the first k cycles
pub open spec fn ctr(c: Seq<@I@>, i: int) -> Seq<(@I@, @I@)> decreases i { if i <= 1 { Seq::empty() } else { ctr(c, i - 1).push((c[i - 2], c[i - 1])) } }
pub open spec fn trs(cs: Cs, k: int) -> Seq<(@I@, @I@)> decreases k { if k <= 0 { Seq::empty() } else { trs(cs, k - 1) + ctr(cs[k - 1]@, cs[k - 1]@.len() as int) } }
pub open spec fn moved<T>(l: Seq<T>, cs: Cs) -> Seq<T> { Seq::new(l.len(), |x: int| l[nxt(cs, x)]) }
pub proof fn lemma_ctr<T>(l: Seq<T>, cs: Cs, k: int, i: int)
    requires valid(cs, l.len() as int), 0 <= k < cs.len(), 1 <= i <= cs[k]@.len(),
    ensures ({ let ts = trs(cs, k) + ctr(cs[k]@, i); let r = tapply(l, ts, ts.len() as int); r.len() == l.len() && tin(ts, l.len() as int)
        && (forall|a: int, b: int| has(cs, a, b) && a < k ==> r[#[trigger] at(cs, a, b)] == l[nxt(cs, at(cs, a, b))])
        && (forall|b: int| 0 <= b < i - 1 ==> r[#[trigger] at(cs, k, b)] == l[at(cs, k, b + 1)]) && r[at(cs, k, i - 1)] == l[at(cs, k, 0)]
        && (forall|x: int| 0 <= x < l.len() && !before(cs, k, x) && !(exists|b: int| 0 <= b < i && #[trigger] at(cs, k, b) == x) ==> #[trigger] r[x] == l[x]) }), decreases k, i
{
    let c = cs[k]@; let ts = trs(cs, k) + ctr(c, i); let r = tapply(l, ts, ts.len() as int);
    if i == 1 {
        assert(ts =~= trs(cs, k)); assert(has(cs, k, 0));
        if k > 0 {
            let d = cs[k - 1]@.len() as int; lemma_ctr(l, cs, k - 1, d);
            assert forall|a: int, b: int| has(cs, a, b) && a < k implies r[#[trigger] at(cs, a, b)] == l[nxt(cs, at(cs, a, b))] by { if a == k - 1 { lemma_nxt(cs, a, b); if b == d - 1 {} else { assert(r[at(cs, k - 1, b)] == l[at(cs, k - 1, b + 1)]); } } }
            assert forall|x: int| 0 <= x < l.len() && !before(cs, k, x) && !(exists|b: int| 0 <= b < i && #[trigger] at(cs, k, b) == x) implies #[trigger] r[x] == l[x] by { assert(!before(cs, k - 1, x)); if exists|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x { let b = choose|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x; assert(has(cs, k - 1, b)); assert(before(cs, k, x)); } }
            assert(r[at(cs, k, 0)] == l[at(cs, k, 0)]) by { let x = at(cs, k, 0); assert(!before(cs, k - 1, x)) by { if before(cs, k - 1, x) { let (a, b) = choose|a: int, b: int| has(cs, a, b) && a < k - 1 && #[trigger] at(cs, a, b) == x; } } assert(!(exists|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x)) by { if exists|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x { let b = choose|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x; assert(has(cs, k - 1, b)); } } }
        }
    } else {
        lemma_ctr(l, cs, k, i - 1); let t0 = trs(cs, k) + ctr(c, i - 1); let r0 = tapply(l, t0, t0.len() as int); let t = (c[i - 2], c[i - 1]);
        assert(ts =~= t0.push(t)); lemma_tpush(l, t0, t); assert(has(cs, k, i - 2)); assert(has(cs, k, i - 1)); let p = at(cs, k, i - 2); let q = at(cs, k, i - 1); assert(p != q); assert(r == swp(r0, p, q)); assert(has(cs, k, 0));
        assert forall|a: int, b: int| has(cs, a, b) && a < k implies r[#[trigger] at(cs, a, b)] == l[nxt(cs, at(cs, a, b))] by { assert(at(cs, a, b) != p); assert(at(cs, a, b) != q); assert(r0[at(cs, a, b)] == l[nxt(cs, at(cs, a, b))]); }
        assert(r0[q] == l[q]) by { assert(!before(cs, k, q)) by { if before(cs, k, q) { let (a, b) = choose|a: int, b: int| has(cs, a, b) && a < k && #[trigger] at(cs, a, b) == q; } } assert(!(exists|b: int| 0 <= b < i - 1 && #[trigger] at(cs, k, b) == q)) by { if exists|b: int| 0 <= b < i - 1 && #[trigger] at(cs, k, b) == q { let b = choose|b: int| 0 <= b < i - 1 && #[trigger] at(cs, k, b) == q; assert(has(cs, k, b)); } } }
        assert forall|b: int| 0 <= b < i - 1 implies r[#[trigger] at(cs, k, b)] == l[at(cs, k, b + 1)] by { assert(has(cs, k, b)); if b < i - 2 { assert(at(cs, k, b) != p && at(cs, k, b) != q); assert(r0[at(cs, k, b)] == l[at(cs, k, b + 1)]); } }
        assert forall|x: int| 0 <= x < l.len() && !before(cs, k, x) && !(exists|b: int| 0 <= b < i && #[trigger] at(cs, k, b) == x) implies #[trigger] r[x] == l[x] by { assert(x != p); assert(x != q); if exists|b: int| 0 <= b < i - 1 && #[trigger] at(cs, k, b) == x { } assert(r0[x] == l[x]); }
    }
}
pub open spec fn before(cs: Cs, k: int, x: int) -> bool { exists|a: int, b: int| has(cs, a, b) && a < k && #[trigger] at(cs, a, b) == x }
/// applying all transpositions of the cycles moves the line along the bijection
pub proof fn lemma_trs<T>(l: Seq<T>, cs: Cs) requires valid(cs, l.len() as int), ensures tapply(l, trs(cs, cs.len() as int), trs(cs, cs.len() as int).len() as int) =~= moved(l, cs), tin(trs(cs, cs.len() as int), l.len() as int)
{
    let k = cs.len() as int; let ts = trs(cs, k); let r = tapply(l, ts, ts.len() as int); lemma_tlen(l, ts, ts.len() as int);
    if k > 0 {
        let d = cs[k - 1]@.len() as int; lemma_ctr(l, cs, k - 1, d);
        assert forall|x: int| 0 <= x < l.len() implies #[trigger] r[x] == l[nxt(cs, x)] by {
            if inc(cs, x) { let p = loc2(cs, x); lemma_nxt(cs, p.0, p.1); if p.0 == k - 1 { if p.1 == d - 1 {} else { assert(r[at(cs, k - 1, p.1)] == l[at(cs, k - 1, p.1 + 1)]); } } else { assert(r[at(cs, p.0, p.1)] == l[nxt(cs, at(cs, p.0, p.1))]); } }
            else { assert(!before(cs, k - 1, x)); if exists|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x { let b = choose|b: int| 0 <= b < d && #[trigger] at(cs, k - 1, b) == x; assert(has(cs, k - 1, b)); } }
        }
    } else { assert forall|x: int| 0 <= x < l.len() implies #[trigger] r[x] == l[nxt(cs, x)] by { } }
}
pub open spec fn ext(l: Seq<@I@>, n: int) -> Seq<@I@> { if n <= l.len() { l } else { Seq::new(n as nat, |x: int| if x < l.len() { l[x] } else { x as @I@ }) } }
// ---------------------------------------------------------------- powers and inverses
pub open spec fn iter(cs: Cs, t: nat, x: int) -> int decreases t { if t == 0 { x } else { nxt(cs, iter(cs, (t - 1) as nat, x)) } }
pub open spec fn itl(cs: Cs, t: nat, n: int) -> Seq<int> { Seq::new(n as nat, |x: int| iter(cs, t, x)) }
pub proof fn lemma_iter(cs: Cs, t: nat, i: int, j: int) requires disjoint(cs), has(cs, i, j), ensures iter(cs, t, at(cs, i, j)) == at(cs, i, (j + t) % (cs[i]@.len() as int)), has(cs, i, (j + t) % (cs[i]@.len() as int)), decreases t
{
    let l = cs[i]@.len() as int; lemma_mod_bound(j + t, l);
    if t == 0 { lemma_small_mod(j as nat, l as nat); } else {
        lemma_iter(cs, (t - 1) as nat, i, j); let q = (j + t - 1) % l; lemma_mod_bound(j + t - 1, l); lemma_nxt(cs, i, q); lemma_add_mod_noop(j + t - 1, 1, l); 
        if l == 1 { } else { lemma_small_mod(1, l as nat); if q + 1 == l { lemma_mod_self_0(l); } else { lemma_small_mod((q + 1) as nat, l as nat); } }
    }
}
pub proof fn lemma_itfix(cs: Cs, t: nat, x: int) requires !inc(cs, x), ensures iter(cs, t, x) == x, decreases t { if t > 0 { lemma_itfix(cs, (t - 1) as nat, x); } }
pub proof fn lemma_itin(cs: Cs, t: nat, x: int, n: int) requires valid(cs, n), 0 <= x < n, ensures 0 <= iter(cs, t, x) < n, decreases t { lemma_bij(cs, n); if t > 0 { lemma_itin(cs, (t - 1) as nat, x, n); } }
pub proof fn lemma_itinj(cs: Cs, t: nat, x: int, y: int, n: int) requires valid(cs, n), iter(cs, t, x) == iter(cs, t, y), ensures x == y, decreases t { lemma_bij(cs, n); if t > 0 { lemma_itinj(cs, (t - 1) as nat, x, y, n); } }
pub proof fn lemma_itl(cs: Cs, t: nat, n: int) requires valid(cs, n), n >= 0, ensures isperm(itl(cs, t, n))
{
    let g = itl(cs, t, n);
    assert forall|x: int| 0 <= x < g.len() implies 0 <= #[trigger] g[x] < g.len() by { lemma_itin(cs, t, x, n); }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && #[trigger] g[x] == #[trigger] g[y] implies x == y by { lemma_itinj(cs, t, x, y, n); }
}
pub open spec fn revc(c: Seq<@I@>, d: Seq<@I@>) -> bool { c.len() == d.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] d[j] == c[if j == 0 { 0 } else { c.len() - j }] }
pub open spec fn inverse(cs: Cs, vs: Cs) -> bool { (forall|x: int| nxt(vs, #[trigger] nxt(cs, x)) == x) && (forall|x: int| nxt(cs, #[trigger] nxt(vs, x)) == x) }
pub proof fn lemma_inv(cs: Cs, vs: Cs, n: int) requires valid(cs, n), cs.len() == vs.len(), forall|i: int| 0 <= i < cs.len() ==> revc(cs[i]@, #[trigger] vs[i]@), ensures valid(vs, n), inverse(cs, vs)
{
    let f = |i: int, j: int| if j == 0 { 0 } else { cs[i]@.len() - j };
    assert forall|i: int, j: int| has(vs, i, j) implies has(cs, i, f(i, j)) && #[trigger] at(vs, i, j) == at(cs, i, f(i, j)) by { assert(revc(cs[i]@, vs[i]@)); assert(vs[i]@[j] == cs[i]@[if j == 0 { 0 } else { cs[i]@.len() - j }]); }
    assert forall|i: int, j: int, k: int, l: int| has(vs, i, j) && has(vs, k, l) && #[trigger] at(vs, i, j) == #[trigger] at(vs, k, l) implies i == k && j == l by { assert(revc(cs[i]@, vs[i]@)); assert(revc(cs[k]@, vs[k]@)); assert(at(cs, i, f(i, j)) == at(cs, k, f(k, l))); }
    assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i])@.len() >= 1 by { assert(revc(cs[i]@, vs[i]@)); assert(cs[i]@.len() >= 1); }
    assert forall|x: int| inc(vs, x) <==> #[trigger] inc(cs, x) by {
        if inc(vs, x) { let p = loc2(vs, x); assert(has(cs, p.0, f(p.0, p.1))); assert(at(cs, p.0, f(p.0, p.1)) == x); }
        if inc(cs, x) { let p = loc2(cs, x); let q = f(p.0, p.1); assert(revc(cs[p.0]@, vs[p.0]@)); assert(has(vs, p.0, q)); assert(at(vs, p.0, q) == at(cs, p.0, f(p.0, q))); assert(at(vs, p.0, q) == x); }
    }
    assert forall|x: int| #![trigger nxt(vs, x)] #![trigger nxt(cs, x)] nxt(vs, nxt(cs, x)) == x && nxt(cs, nxt(vs, x)) == x by {
        assert(inc(vs, x) <==> inc(cs, x));
        if inc(cs, x) {
            let p = loc2(cs, x); let i = p.0; let l = cs[i]@.len() as int; assert(revc(cs[i]@, vs[i]@)); lemma_nxt(cs, i, p.1); let s = succ(p.1, l); let q = f(i, s); assert(has(vs, i, q)); assert(at(vs, i, q) == at(cs, i, f(i, q))); lemma_nxt(vs, i, q); assert(at(vs, i, succ(q, l)) == at(cs, i, f(i, succ(q, l))));
            let q2 = f(i, p.1); assert(has(vs, i, q2)); assert(at(vs, i, q2) == x); lemma_nxt(vs, i, q2); let s2 = succ(q2, l); assert(at(vs, i, s2) == at(cs, i, f(i, s2))); lemma_nxt(cs, i, f(i, s2));
        }
    }
}
/// all cycles: the given ones followed by the fixed points as 1-cycles
pub proof fn lemma_single(cs: Cs, v: Vec<@I@>, n: int) requires valid(cs, n), v@.len() == 1, 0 <= v@[0] < n, !inc(cs, v@[0] as int), ensures valid(cs.push(v), n), forall|x: int| #[trigger] nxt(cs.push(v), x) == nxt(cs, x), forall|x: int| #[trigger] inc(cs.push(v), x) <==> inc(cs, x) || x == v@[0]
{ lemma_push(cs, v, n); assert forall|x: int| #[trigger] nxt(cs.push(v), x) == nxt(cs, x) by { if within(v@, x) { assert(v@[0] == x); assert(nxt(cs.push(v), v@[0] as int) == v@[0]); } } assert forall|x: int| #[trigger] inc(cs.push(v), x) <==> inc(cs, x) || x == v@[0] by { assert(within(v@, x) <==> x == v@[0]) by { if x == v@[0] { assert(within(v@, v@[0] as int)); } } } }
"""


def np(f):
    return len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"])


def ptype(f, i):
    t = [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"][i]["type"]
    return t.get("desugaredQualType", t["qualType"])


def contracts(ci, ri):
    Q = "altruct::math::permutation<%s>::" % ci
    N = "altruct::math::"
    MX = "%s::MAX" % ri
    V = lambda s: ["valid(%s.cycles@, %s.n as int)" % (s, s), "%s.n >= 0" % s]
    lineok = "isperm(lp(line@)) && line@.len() <= " + MX
    cs = [
        Contract("identity_line", Q + "identity_line", params=["n"], requires=["n >= 0"], ensures=["r@ =~= idl(n as int)"], loops={0: dict(invariant=["0 <= i <= n", "line@.len() == n", "forall|k: int| 0 <= k < i ==> #[trigger] line@[k] == k"], decreases="n - i")}),
        Contract("expand_line", Q + "expand_line", params=["line", "n"], ret_alias="line", requires=["old(line)@.len() <= " + MX], ensures=["final(line)@ =~= ext(old(line)@, n as int)"],
                 loops={0: dict(invariant=["i >= 0", "i as int == line@.len()", "i > n ==> i as int == old(line)@.len()", "old(line)@.len() <= i", "forall|k: int| 0 <= k < i ==> #[trigger] line@[k] == (if k < old(line)@.len() { old(line)@[k] } else { k as %s })" % ri], decreases="n - i")}),
        Contract("apply_cycles", Q + "apply_cycles_to_line", params=["line", "cycles", "n"], ret_alias="line", requires=["old(line)@.len() <= " + MX, "n >= 0", "valid(cycles@, ext(old(line)@, n as int).len() as int)"],
                 ensures=["final(line)@ =~= moved(ext(old(line)@, n as int), cycles@)"],
                 hints={"L0.before": "let ghost l0 = line@; let ghost m = cycles@.len() as int; proof { lemma_trs(l0, cycles@); }", "L1.before": "let ghost k = idx; let ghost cc = cycles@[k as int]@; proof { assert(trs(cycles@, k as int) + ctr(cc, 1) =~= trs(cycles@, k as int)); }",
                        "L1.begin": "proof { let ts = trs(cycles@, k as int) + ctr(cc, i as int); lemma_tlen(l0, ts, ts.len() as int); let t = (cc[i - 1], cc[i as int]); assert(trs(cycles@, k as int) + ctr(cc, i + 1) =~= ts.push(t)); lemma_tpush(l0, ts, t); assert(has(cycles@, k as int, i - 1)); assert(has(cycles@, k as int, i as int)); assert(0 <= at(cycles@, k as int, i - 1) < l0.len()); assert(0 <= at(cycles@, k as int, i as int) < l0.len()); }",
                        "L1.end2": "proof { let ts = trs(cycles@, k as int) + ctr(cc, i as int); assert(line@ =~= tapply(l0, ts, ts.len() as int)); }"},
                 loops={0: dict(invariant=["0 <= idx <= cycles@.len()", "valid(cycles@, l0.len() as int)", "line@ == tapply(l0, trs(cycles@, idx as int), trs(cycles@, idx as int).len() as int)"]),
                        1: dict(invariant=["1 <= i", "i <= cc.len()", "k < cycles@.len()", "cc == cycles@[k as int]@", "valid(cycles@, l0.len() as int)", "line@ == tapply(l0, trs(cycles@, k as int) + ctr(cc, i as int), (trs(cycles@, k as int) + ctr(cc, i as int)).len() as int)"], decreases="cc.len() - i")}),
        Contract("cycles_to_line", Q + "cycles_to_line", params=["cycles", "n"], requires=["n >= 0", "valid(cycles@, n as int)"], ensures=["r@.len() == n", "forall|x: int| 0 <= x < n ==> #[trigger] r@[x] == nxt(cycles@, x)"],
                 hints={"exit": "proof { lemma_bij(cycles@, n as int); assert forall|x: int| 0 <= x < n implies #[trigger] ret__v@[x] == nxt(cycles@, x) by { assert(moved(idl(n as int), cycles@)[x] == idl(n as int)[nxt(cycles@, x)]); } }"}),
        Contract("line_to_cycles", Q + "line_to_cycles", params=["line"], requires=[lineok], ensures=["valid(r@, line@.len() as int)", "forall|x: int| 0 <= x < line@.len() ==> #[trigger] nxt(r@, x) == line@[x]", "forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() >= 2"],
                 hints={"L0.before": "let ghost g = lp(line@); proof { reveal(closed); }", "exit": "proof { let g = lp(line@); assert forall|x: int| 0 <= x < line@.len() implies #[trigger] nxt(ret__v@, x) == line@[x] by { assert(u@[x]); assert(g[x] == line@[x]); if inc(ret__v@, x) {} } }", "L1.before": "let ghost u0 = u@; proof { lemma_start(u@, g, i as int); assert(c@ =~= Seq::empty()); }", "L1.begin": "proof { lemma_step(c@, u@, u0, g, i as int, j as int, j); }", "L1.after": "proof { lemma_close(cycles@, c, u@, u0, g, i as int, j as int); }"},
                 loops={0: dict(invariant=["0 <= i <= n", "n as int == line@.len()", "g == lp(line@)", "base(cycles@, u@, g)", "forall|x: int| 0 <= x < i ==> #[trigger] u@[x]", "forall|k: int| 0 <= k < cycles@.len() ==> (#[trigger] cycles@[k])@.len() >= 2"], decreases="n - i"),
                        1: dict(invariant=["0 <= i < n", "n as int == line@.len()", "g == lp(line@)", "isperm(g)", "walk(c@, u@, u0, g, i as int, j as int)", "c@.len() == 0 ==> u@ == u0"], decreases="n - c@.len()")}),
        Contract("apply_trans", Q + "apply_transpositions_to_line", params=["line", "transpositions"], ret_alias="line", requires=["tin(transpositions@, old(line)@.len() as int)"], ensures=["final(line)@ == tapply(old(line)@, transpositions@, transpositions@.len() as int)"],
                 hints={"L0.begin": "proof { lemma_tlen(old(line)@, transpositions@, idx as int); assert(0 <= transpositions@[idx as int].0 < line@.len()); }", "L0.end2": "proof { assert(line@ =~= tapply(old(line)@, transpositions@, idx as int)); }"},
                 loops={0: dict(invariant=["0 <= idx <= transpositions@.len()", "tin(transpositions@, old(line)@.len() as int)", "line@ == tapply(old(line)@, transpositions@, idx as int)"])}),
        Contract("trans_to_line", Q + "transpositions_to_line", params=["transpositions", "n"], requires=["n >= 0", "tin(transpositions@, n as int)"], ensures=["r@ == tapply(idl(n as int), transpositions@, transpositions@.len() as int)", "isperm(lp(r@))", "r@.len() == n"], hints={"exit": "proof { lemma_tperm(transpositions@, n as int, transpositions@.len() as int); }"}),
        Contract("cycles_to_trans", Q + "cycles_to_transpositions", params=["cycles"], requires=["nonempty(cycles@)"], ensures=["r@ == trs(cycles@, cycles@.len() as int)", "forall|l: Seq<%s>| valid(cycles@, l.len() as int) ==> #[trigger] tapply(l, r@, r@.len() as int) =~= moved(l, cycles@)" % ri, "forall|n: int| #[trigger] valid(cycles@, n) && n >= 0 ==> tin(r@, n)"],
                 hints={"L1.before": "let ghost k = idx; let ghost cc = cycles@[k as int]@; proof { assert(trs(cycles@, k as int) + ctr(cc, 1) =~= trs(cycles@, k as int)); }", "L1.end2": "proof { assert(transpositions@ =~= trs(cycles@, k as int) + ctr(cc, i as int)); }",
                        "exit": "proof { assert forall|l: Seq<%s>| valid(cycles@, l.len() as int) implies #[trigger] tapply(l, ret__v@, ret__v@.len() as int) =~= moved(l, cycles@) by { lemma_trs(l, cycles@); } assert forall|n: int| #[trigger] valid(cycles@, n) && n >= 0 implies tin(ret__v@, n) by { lemma_trs(Seq::new(n as nat, |x: int| x), cycles@); } }" % ri},
                 loops={0: dict(invariant=["0 <= idx <= cycles@.len()", "nonempty(cycles@)", "transpositions@ == trs(cycles@, idx as int)"]),
                        1: dict(invariant=["1 <= i", "i <= cc.len()", "k < cycles@.len()", "cc == cycles@[k as int]@", "transpositions@ == trs(cycles@, k as int) + ctr(cc, i as int)"], decreases="cc.len() - i")}),
        Contract("line_to_trans", Q + "line_to_transpositions", params=["line"], requires=[lineok], ensures=["tin(r@, line@.len() as int)", "tapply(idl(line@.len() as int), r@, r@.len() as int) =~= line@"],
                 hints={"exit": "proof { let n = line@.len() as int; let l = idl(n); lemma_tlen(l, ret__v@, ret__v@.len() as int); assert(l.len() == n); let m = tapply(l, ret__v@, ret__v@.len() as int); assert forall|x: int| 0 <= x < n implies #[trigger] m[x] == line@[x] by { assert(0 <= lp(line@)[x] < n); } }"}),
        Contract("size_c", Q + "size", pred=lambda f: "transpositions" not in f["type"]["qualType"], params=["cycles"], requires=["forall|i: int, j: int| has(cycles@, i, j) ==> 0 <= #[trigger] at(cycles@, i, j) < " + MX], ensures=["r >= 0", "inrange(cycles@, r as int)", "r == 0 || inc(cycles@, r - 1)"],
                 hints={"L1.before": "let ghost k = idx;", "L1.end": "proof { assert(has(cycles@, k as int, i as int)); assert(at(cycles@, k as int, i as int) == cycles@[k as int]@[i as int]); }", "L1.begin": "proof { assert(has(cycles@, k as int, i as int)); assert(0 <= at(cycles@, k as int, i as int) < %s); }" % MX},
                 loops={0: dict(invariant=["0 <= idx <= cycles@.len()", "n >= 0", "forall|a: int, b: int| has(cycles@, a, b) ==> 0 <= #[trigger] at(cycles@, a, b) < " + MX, "forall|a: int, b: int| has(cycles@, a, b) && a < idx ==> #[trigger] at(cycles@, a, b) < n", "n == 0 || inc(cycles@, n - 1)"]),
                        1: dict(invariant=["k < cycles@.len()", "0 <= i <= cycles@[k as int]@.len()", "n >= 0", "forall|a: int, b: int| has(cycles@, a, b) ==> 0 <= #[trigger] at(cycles@, a, b) < " + MX, "forall|a: int, b: int| has(cycles@, a, b) && (a < k || (a == k && b < i)) ==> #[trigger] at(cycles@, a, b) < n", "n == 0 || inc(cycles@, n - 1)"], decreases="cycles@[k as int]@.len() - i")}),
        Contract("size_t", Q + "size", pred=lambda f: "transpositions" in f["type"]["qualType"], params=["transpositions"], requires=["tin(transpositions@, %s as int)" % MX], ensures=["r >= 0", "tin(transpositions@, r as int)", "r == 0 || exists|k: int| 0 <= k < transpositions@.len() && (#[trigger] transpositions@[k].0 == r - 1 || transpositions@[k].1 == r - 1)"],
                 hints={"L0.begin": "proof { assert(0 <= transpositions@[idx as int].0 < %s); }" % MX},
                 loops={0: dict(invariant=["0 <= idx <= transpositions@.len()", "n >= 0", "tin(transpositions@, %s as int)" % MX, "forall|k: int| 0 <= k < idx ==> (#[trigger] transpositions@[k]).0 < n && transpositions@[k].1 < n", "n == 0 || exists|k: int| 0 <= k < idx && (#[trigger] transpositions@[k].0 == n - 1 || transpositions@[k].1 == n - 1)"])}),
        Contract("trans_to_cycles", Q + "transpositions_to_cycles", params=["transpositions"], requires=["tin(transpositions@, %s as int)" % MX], ensures=["exists|n: int| #![trigger valid(r@, n)] valid(r@, n) && n >= 0 && tin(transpositions@, n) && forall|x: int| 0 <= x < n ==> #[trigger] nxt(r@, x) == tapply(idl(n), transpositions@, transpositions@.len() as int)[x]"]),
        Contract("all_cycles", Q + "all_cycles", params=["cycles", "n"], requires=["n >= 0", "valid(cycles@, n as int)"], ensures=["valid(r@, n as int)", "forall|x: int| 0 <= x < n ==> #[trigger] inc(r@, x)", "forall|x: int| #[trigger] nxt(r@, x) == nxt(cycles@, x)", "r@.len() >= cycles@.len()", "r@.subrange(0, cycles@.len() as int) =~= cycles@"],
                 hints={"L1.before": "let ghost k = idx;", "L1.begin": "proof { assert(has(cycles@, k as int, idx_2 as int)); assert(0 <= at(cycles@, k as int, idx_2 as int) < n); }", "L1.end": "proof { assert(inc(cycles@, at(cycles@, k as int, idx_2 as int))); }", "L2.before": "proof { lemma_bij(cycles@, n as int); }", "L2.begin": "let ghost vc0 = vc@;", "L2.end": "proof { if vc@.len() > vc0.len() { assert(vc@ =~= vc0.push(vc@.last())); lemma_single(vc0, vc@.last(), n as int); } else { assert(inc(cycles@, i as int)); assert(vc@ == vc0); } }"},
                 loops={0: dict(invariant=["0 <= idx <= cycles@.len()", "u@.len() == n", "valid(cycles@, n as int)", "forall|a: int, b: int| has(cycles@, a, b) && a < idx ==> u@[#[trigger] at(cycles@, a, b)]", "forall|x: int| 0 <= x < n && #[trigger] u@[x] ==> inc(cycles@, x)"]),
                        1: dict(invariant=["k < cycles@.len()", "0 <= idx_2 <= cycles@[k as int]@.len()", "u@.len() == n", "valid(cycles@, n as int)", "forall|a: int, b: int| has(cycles@, a, b) && (a < k || (a == k && b < idx_2)) ==> u@[#[trigger] at(cycles@, a, b)]", "forall|x: int| 0 <= x < n && #[trigger] u@[x] ==> inc(cycles@, x)"]),
                        2: dict(invariant=["0 <= i <= n", "u@.len() == n", "forall|x: int| 0 <= x < n ==> (#[trigger] u@[x] <==> inc(cycles@, x))", "valid(vc@, n as int)", "forall|x: int| #[trigger] nxt(vc@, x) == nxt(cycles@, x)", "forall|x: int| #[trigger] inc(vc@, x) <==> inc(cycles@, x) || 0 <= x < i", "vc@.len() >= cycles@.len()", "vc@.subrange(0, cycles@.len() as int) =~= cycles@"], decreases="n - i")}),
        # members
        Contract("pid", N + "pid", params=["n"], requires=["n >= 0"], ensures=V("r") + ["r.n == n", "forall|x: int| #[trigger] nxt(r.cycles@, x) == x"]),
        Contract("pcycles", N + "pcycles", params=["c", "n"], requires=["valid(c@, n as int)", "n >= 0"], ensures=V("r") + ["r.n == n", "forall|x: int| #[trigger] nxt(r.cycles@, x) == nxt(c@, x)"]),
        Contract("pline", N + "pline", params=["line"], requires=[lineok], ensures=V("r") + ["r.n as int == line@.len()", "forall|x: int| 0 <= x < line@.len() ==> #[trigger] nxt(r.cycles@, x) == line@[x]"]),
        Contract("ptrans", N + "ptrans", params=["t", "n"], requires=["n >= 0", "tin(t@, n as int)"], ensures=V("r") + ["r.n == n", "forall|x: int| 0 <= x < n ==> #[trigger] nxt(r.cycles@, x) == tapply(idl(n as int), t@, t@.len() as int)[x]"]),
        Contract("to_cycles", Q + "to_cycles", params=[], ensures=["r@ == self_.cycles@"]),
        Contract("to_all_cycles", Q + "to_all_cycles", params=[], requires=V("self_"), ensures=["valid(r@, self_.n as int)", "forall|x: int| 0 <= x < self_.n ==> #[trigger] inc(r@, x)", "forall|x: int| #[trigger] nxt(r@, x) == nxt(self_.cycles@, x)"]),
        Contract("to_line", Q + "to_line", params=[], requires=V("self_"), ensures=["r@.len() == self_.n", "forall|x: int| 0 <= x < self_.n ==> #[trigger] r@[x] == nxt(self_.cycles@, x)"]),
        Contract("to_trans", Q + "to_transpositions", params=[], requires=V("self_"), ensures=["tin(r@, self_.n as int)", "forall|x: int| 0 <= x < self_.n ==> #[trigger] tapply(idl(self_.n as int), r@, r@.len() as int)[x] == nxt(self_.cycles@, x)"],
                 hints={"exit": "proof { let n = self_.n as int; lemma_bij(self_.cycles@, n); assert(valid(self_.cycles@, n)); assert(idl(n).len() == n); assert(tapply(idl(n), ret__v@, ret__v@.len() as int) =~= moved(idl(n), self_.cycles@)); }"}),
        Contract("apply_to", Q + "apply_to", params=["line"], ret_alias="line", requires=V("self_") + ["old(line)@.len() <= " + MX], ensures=["final(line)@ =~= moved(ext(old(line)@, self_.n as int), self_.cycles@)"], hints={"entry": "proof { lemma_wider(self_.cycles@, self_.n as int, ext(line@, self_.n as int).len() as int); }"}),
        Contract("ptimes", Q + "operator*", params=["p2"], requires=V("self_") + V("p2"), ensures=V("r") + ["r.n == (if self_.n >= p2.n { self_.n } else { p2.n })", "forall|x: int| #[trigger] nxt(r.cycles@, x) == nxt(p2.cycles@, nxt(self_.cycles@, x))"],
                 hints={"call:apply_to.before": "", "use:apply_to.before": "let ghost l2 = line@; proof { lemma_mul(self_.cycles@, self_.n as int, p2.cycles@, p2.n as int, l2); }", "exit": "proof { lemma_mul2(self_.cycles@, self_.n as int, p2.cycles@, p2.n as int, ret__v.cycles@, ret__v.n as int); }"}),
        Contract("ptimes_to", Q + "operator*=", params=["p2"], requires=V("old(self_)") + V("p2"), ensures=V("final(self_)") + ["final(self_).n == (if old(self_).n >= p2.n { old(self_).n } else { p2.n })", "forall|x: int| #[trigger] nxt(final(self_).cycles@, x) == nxt(p2.cycles@, nxt(old(self_).cycles@, x))"]),
        Contract("pinv", Q + "inv", params=[], requires=V("self_"), ensures=V("r") + ["r.n == self_.n", "inverse(self_.cycles@, r.cycles@)"],
                 hints={"L0.begin": "proof { assert(self_.cycles@[idx as int]@.len() >= 1); }", "L0.end2": "proof { assert(revc(self_.cycles@[idx - 1]@, vc@[idx - 1]@)); }", "L0.after": "proof { lemma_inv(self_.cycles@, vc@, self_.n as int); }"},
                 loops={0: dict(invariant=["0 <= idx <= vc@.len()", "vc@.len() == self_.cycles@.len()", "nonempty(self_.cycles@)", "forall|i: int| idx <= i < vc@.len() ==> #[trigger] vc@[i] == self_.cycles@[i]", "forall|i: int| 0 <= i < idx ==> revc(self_.cycles@[i]@, #[trigger] vc@[i]@)"])}),
        Contract("pdiv", Q + "operator/", params=["p2"], requires=V("self_") + V("p2"), ensures=V("r") + ["forall|x: int| nxt(p2.cycles@, #[trigger] nxt(r.cycles@, x)) == nxt(self_.cycles@, x)"]),
        Contract("pdiv_to", Q + "operator/=", params=["p2"], requires=V("old(self_)") + V("p2"), ensures=V("final(self_)") + ["forall|x: int| nxt(p2.cycles@, #[trigger] nxt(final(self_).cycles@, x)) == nxt(old(self_).cycles@, x)"]),
        Contract("ppow", Q + "pow", params=["T"], requires=V("self_"), ensures=V("r") + ["r.n == self_.n", "T >= 0 ==> forall|x: int| #[trigger] nxt(r.cycles@, x) == iter(self_.cycles@, T as nat, x)", "T < 0 ==> forall|x: int| #[trigger] iter(self_.cycles@, (-T) as nat, nxt(r.cycles@, x)) == x"],
                 hints={"L0.before": "let ghost cs = p.cycles@; let ghost nn = self_.n as int; let ghost t = (if T >= 0 { T as int } else { -(T as int) }) as nat; let ghost g = itl(cs, t, nn); proof { assert(valid(cs, nn)); lemma_itl(cs, t, nn); reveal(closed); }",
                        "L1.before": "let ghost kk = idx as int; proof { assert(cs[kk]@.len() >= 1); lemma_clen(cs, nn, kk); }", "L2.before": "let ghost u0 = u@; let ghost st = at(cs, kk, i as int); proof { assert(has(cs, kk, i as int)); lemma_start(u@, g, st); assert(c@ =~= Seq::empty()); }",
                        "L2.begin": "let ghost j0 = j as int; proof { assert(has(cs, kk, j0)); lemma_step(c@, u@, u0, g, st, at(cs, kk, j0), cs[kk]@[j0]); lemma_iter(cs, t, kk, j0); lemma_pstep(j0, T as int, L as int); }",
                        "L2.after": "proof { assert(has(cs, kk, j as int)); lemma_close(vc@, c, u@, u0, g, st, at(cs, kk, j as int)); }",
                        "L0.after": "proof { lemma_pow(cs, vc@, u@, t, nn); if T < 0 { assert forall|x: int| #[trigger] iter(self_.cycles@, (-T) as nat, nxt(vc@, x)) == x by { lemma_itinv(self_.cycles@, cs, t, x); assert(nxt(vc@, x) == iter(cs, t, x)); } } }"},
                 loops={0: dict(invariant=["0 <= idx <= cs.len()", "cs == p.cycles@", "valid(cs, nn)", "g == itl(cs, t, nn)", "nn == self_.n", "base(vc@, u@, g)", "forall|a: int, b: int| has(cs, a, b) && a < idx ==> u@[#[trigger] at(cs, a, b)]"]),
                        1: dict(invariant=["0 <= i <= L", "0 <= kk < cs.len()", "L as int == cs[kk]@.len()", "cs == p.cycles@", "valid(cs, nn)", "g == itl(cs, t, nn)", "base(vc@, u@, g)", "forall|a: int, b: int| has(cs, a, b) && (a < kk || (a == kk && b < i)) ==> u@[#[trigger] at(cs, a, b)]"], decreases="L - i"),
                        2: dict(invariant=["0 <= i < L", "0 <= j < L", "0 <= kk < cs.len()", "L as int == cs[kk]@.len()", "t == (if T >= 0 { T as int } else { -(T as int) })", "cs == p.cycles@", "valid(cs, nn)", "g == itl(cs, t, nn)", "isperm(g)", "walk(c@, u@, u0, g, st, at(cs, kk, j as int))"], decreases="nn - c@.len()")}),
        Contract("pident", "altruct::math::identityT<altruct::math::permutation<%s>>::of" % ci, params=["p"], requires=["p.n >= 0"], ensures=V("r") + ["r.n == p.n", "forall|x: int| #[trigger] nxt(r.cycles@, x) == x"]),
    ]
    return cs


def units():
    us = []
    for ci, ri in (("int", "i32"),):
        P = "Permutation_" + ci
        tu = "namespace altruct { namespace math { typedef permutation<%s> Pm; template class permutation<%s>; template struct identityT<permutation<%s>>;\ninline Pm pid(%s n) { return Pm(n); } inline Pm pcycles(const Pm::cycles_t& c, %s n) { return Pm(c, n); } inline Pm pline(const Pm::line_t& line) { return Pm(line); } inline Pm ptrans(const Pm::transpositions_t& t, %s n) { return Pm(t, n); }\n}}\n" % ((ci,) * 6)
        u = Unit("perm_" + ri, ["altruct/structure/math/permutation.h"], tu, contracts(ci, ri), (SPEC + SPEC2).replace("@I@", ri).replace("@P@", P))
        for k, v in (("line_t", "Vec<@I@>"), ("cycle_t", "Vec<@I@>"), ("cycles_t", "Vec<Vec<@I@>>"), ("transposition_t", "(@I@, @I@)"), ("transpositions_t", "Vec<(@I@, @I@)>")):
            u.type_map["^(.*::)?%s$" % k] = v.replace("@I@", ri)
        us.append(u)
    return us


SPEC2 = r"""
pub proof fn lemma_wider(cs: Cs, n: int, m: int) requires valid(cs, n), n <= m, ensures valid(cs, m) { assert forall|i: int, j: int| has(cs, i, j) implies 0 <= #[trigger] at(cs, i, j) < m by {} }
pub proof fn lemma_out(cs: Cs, n: int, x: int) requires valid(cs, n), x < 0 || x >= n, ensures nxt(cs, x) == x { lemma_bij(cs, n); }
/// the line of p2 moved along p1 is again a bijection
pub proof fn lemma_mul(a: Cs, n1: int, b: Cs, n2: int, l2: Seq<@I@>) requires valid(a, n1), valid(b, n2), n1 >= 0, n2 >= 0, n1 <= @I@::MAX, l2.len() == n2, forall|x: int| 0 <= x < n2 ==> #[trigger] l2[x] == nxt(b, x),
    ensures isperm(lp(moved(ext(l2, n1), a))), forall|x: int| 0 <= x < ext(l2, n1).len() ==> #[trigger] moved(ext(l2, n1), a)[x] == nxt(b, nxt(a, x))
{
    let e = ext(l2, n1); let m = e.len() as int; lemma_wider(a, n1, m); lemma_wider(b, n2, m); lemma_bij(a, m); lemma_bij(b, m);
    assert forall|x: int| 0 <= x < m implies #[trigger] e[x] == nxt(b, x) by { if x >= n2 { lemma_out(b, n2, x); } }
    let g = lp(moved(e, a));
    assert forall|x: int| 0 <= x < m implies #[trigger] moved(e, a)[x] == nxt(b, nxt(a, x)) by { assert(e[nxt(a, x)] == nxt(b, nxt(a, x))); }
    assert forall|x: int| 0 <= x < g.len() implies 0 <= #[trigger] g[x] < g.len() by { assert(g[x] == moved(e, a)[x]); assert(0 <= nxt(a, x) < m); assert(0 <= nxt(b, nxt(a, x)) < m); }
    assert forall|x: int, y: int| 0 <= x < g.len() && 0 <= y < g.len() && #[trigger] g[x] == #[trigger] g[y] implies x == y by { assert(g[x] == moved(e, a)[x]); assert(g[y] == moved(e, a)[y]); assert(nxt(b, nxt(a, x)) == nxt(b, nxt(a, y))); assert(nxt(a, x) == nxt(a, y)); }
}
pub proof fn lemma_mul2(a: Cs, n1: int, b: Cs, n2: int, r: Cs, m: int) requires valid(a, n1), valid(b, n2), valid(r, m), n1 <= m, n2 <= m, forall|x: int| 0 <= x < m ==> #[trigger] nxt(r, x) == nxt(b, nxt(a, x)), ensures forall|x: int| #[trigger] nxt(r, x) == nxt(b, nxt(a, x))
{ assert forall|x: int| #[trigger] nxt(r, x) == nxt(b, nxt(a, x)) by { if x < 0 || x >= m { lemma_out(r, m, x); lemma_out(a, n1, x); lemma_out(b, n2, x); } } }
/// cycles of a valid representation fit into the index type
pub proof fn lemma_clen(cs: Cs, n: int, k: int) requires valid(cs, n), n >= 0, 0 <= k < cs.len(), ensures cs[k]@.len() <= n
{ let c = cs[k]@; assert forall|e: int| 0 <= e < c.len() implies 0 <= #[trigger] c[e] < n by { assert(has(cs, k, e)); assert(0 <= at(cs, k, e) < n); } assert forall|a: int, b: int| 0 <= a < b < c.len() implies c[a] != c[b] by { assert(has(cs, k, a)); assert(has(cs, k, b)); if c[a] == c[b] { assert(at(cs, k, a) == at(cs, k, b)); } } lemma_count(c, n); }
pub open spec fn absi(x: int) -> int { if x < 0 { -x } else { x } }
pub proof fn lemma_pstep(j: int, t: int, l: int) requires 0 <= j < l, ensures 0 <= absi(trem(t, l)) < l, (j + absi(trem(t, l))) % l == (j + absi(t)) % l, 0 <= (j + absi(t)) % l < l
{ lemma_mod_bound(absi(t), l); lemma_add_mod_noop_right(j, absi(t), l); lemma_mod_bound(j + absi(t), l); }
pub proof fn lemma_iter1(cs: Cs, t: nat, x: int) ensures iter(cs, t + 1, x) == iter(cs, t, nxt(cs, x)), decreases t { if t > 0 { lemma_iter1(cs, (t - 1) as nat, x); assert(((t - 1) as nat) + 1 == t); } else { assert(iter(cs, 1, x) == nxt(cs, iter(cs, 0, x))); } }
pub proof fn lemma_itinv(a: Cs, b: Cs, t: nat, x: int) requires inverse(a, b), ensures iter(a, t, iter(b, t, x)) == x, decreases t
{ if t > 0 { let s = (t - 1) as nat; let y = iter(b, s, x); lemma_iter1(a, s, nxt(b, y)); assert(nxt(a, nxt(b, y)) == y); lemma_itinv(a, b, s, x); } }
pub proof fn lemma_pow(cs: Cs, vc: Cs, u: Seq<bool>, t: nat, n: int) requires n >= 0, valid(cs, n), base(vc, u, itl(cs, t, n)), forall|a: int, b: int| has(cs, a, b) ==> u[#[trigger] at(cs, a, b)], ensures forall|x: int| #[trigger] nxt(vc, x) == iter(cs, t, x)
{
    let g = itl(cs, t, n); lemma_bij(cs, n); lemma_bij(vc, n);
    assert forall|x: int| #[trigger] nxt(vc, x) == iter(cs, t, x) by {
        if inc(vc, x) { assert(0 <= x < n); assert(g[x] == nxt(vc, x)); }
        else if inc(cs, x) { let p = loc2(cs, x); assert(u[at(cs, p.0, p.1)]); assert(g[x] == x); }
        else { lemma_itfix(cs, t, x); }
    }
}
"""
