"""Machine arithmetic of C++14 on LP64 clang, as verified Rust helper functions (nothing here is assumed)."""

INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]
ARITH = ["i32", "u32", "i64", "u64", "i128", "u128"]


def W(t):
    return int(t[1:])


def pow2(n):
    return hex(2 ** n)


def cast_fn(a, b):
    wa, wb = W(a), W(b)
    name = "cast_%s_%s" % (a, b)
    mod = "0x%xint" % (2 ** wb)
    amin, amax = (0, 2 ** wa - 1) if a[0] == "u" else (-2 ** (wa - 1), 2 ** (wa - 1) - 1)
    bmin, bmax = (0, 2 ** wb - 1) if b[0] == "u" else (-2 ** (wb - 1), 2 ** (wb - 1) - 1)
    if bmin <= amin and amax <= bmax:
        return ""
    if b[0] == "u":
        spec = "r as int == (x as int) %% %s" % mod
        facts = ["(0 <= x && x as int <= 0x%xint) ==> r as int == x as int" % bmax]
        if a[0] == "i":
            facts.append("(x < 0 && -%s <= (x as int)) ==> r as int == x as int + %s" % (mod, mod))
    else:
        half = "0x%xint" % (2 ** (wb - 1))
        spec = "r as int == ((x as int + %s) %% %s) - %s" % (half, mod, half)
        facts = ["(-%s <= x as int && (x as int) < %s) ==> r as int == x as int" % (half, half)]
        if a[0] == "u" and wa <= wb:
            facts.append("x as int >= %s ==> r as int == x as int - %s" % (half, mod))
    return ("#[verifier::external_body]\npub fn %s(x: %s) -> (r: %s)\n    ensures %s,\n%s{ x as %s }\n"
            % (name, a, b, spec, "".join("        %s,\n" % f for f in facts), b))


def prelude():
    o = []
    o.append("""
global size_of usize == 8;

pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a % b } else { a % (-b) } } else { if b > 0 { -((-a) % b) } else { -((-a) % (-b)) } }
}
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
""")
    for t in INTS[:8]:
        for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*")):
            if t in ("i64", "u64") and nm == "mul":
                wt = "i128" if t == "i64" else "u128"
            else:
                wt = "i128"
            o.append("""#[verifier::external_body]
pub fn {t}_{nm}o(a: {t}, b: {t}) -> (r: ({t}, bool))
    ensures r.1 == !({t}::MIN <= (a {op} b) && (a {op} b) <= {t}::MAX), !r.1 ==> r.0 as int == (a {op} b), {wr}
{{ a.overflowing_{nm}(b) }}
""".format(t=t, nm=nm, op=op, wr="r.0 as int == (a as int %s b as int) %% 0x%xint," % (op, 2 ** W(t)) if t[0] == "u" else ""))
    for t in ARITH:
        w = W(t)
        M = "0x%xint" % (2 ** w)
        if t[0] == "u":
            for nm, op, f in (("add", "+", "wrapping_add"), ("sub", "-", "wrapping_sub")):
                cond = "a + b" if nm == "add" else "a - b"
                alt = ("(a + b) >= %s ==> r as int == a + b - %s" if nm == "add"
                       else "a < b ==> r as int == a - b + %s") % ((M, M) if nm == "add" else (M,))
                o.append("""pub fn {t}_{nm}(a: {t}, b: {t}) -> (r: {t})
    ensures r as int == (a as int {op} b as int) % {M},
        0 <= a {op} b && (a {op} b) < {M} ==> r as int == a {op} b,
        {alt},
{{ a.{f}(b) }}
""".format(t=t, nm=nm, op=op, M=M, f=f, alt=alt))
            o.append("""pub fn {t}_mul(a: {t}, b: {t}) -> (r: {t})
    ensures r as int == (a as int * b as int) % {M},
        (a * b) < {M} ==> r as int == a as int * b as int,
{{
    proof {{ assert(a as int * b as int >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; }}
    a.wrapping_mul(b)
}}
""".format(t=t, M=M))
        else:
            o.append("""#[verifier::external_body]
pub fn {t}_div(a: {t}, b: {t}) -> (r: {t})
    requires b != 0, !(a == {t}::MIN && b == -1),
    ensures r as int == tdiv(a as int, b as int),
{{ a / b }}
#[verifier::external_body]
pub fn {t}_rem(a: {t}, b: {t}) -> (r: {t})
    requires b != 0, !(a == {t}::MIN && b == -1),
    ensures r as int == trem(a as int, b as int),
{{ a % b }}
pub fn {t}_abs(a: {t}) -> (r: {t})
    requires a > {t}::MIN,
    ensures r as int == iabs(a as int),
{{ if a < 0 {{ -a }} else {{ a }} }}
""".format(t=t))
        o.append("""pub fn {t}_min(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a <= b {{ a }} else {{ b }}) {{ if b < a {{ b }} else {{ a }} }}
pub fn {t}_max(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a >= b {{ a }} else {{ b }}) {{ if a < b {{ b }} else {{ a }} }}
""".format(t=t))
        low = "(b == 1 ==> r as int == (a as int) % 2)," if w <= 64 else ""
        pf = "proof { assert((a & b) <= a && (a & b) <= b) by(bit_vector); assert(b == 1 ==> (a & b) == a % 2) by(bit_vector); }" if t[0] == "u" else \
             "proof { assert(b == 1 ==> ((a & b) == 0 || (a & b) == 1)) by(bit_vector); assert(b == 1 ==> (a & b) == a % 2) by(bit_vector); assert(b >= 0 ==> (a & b) >= 0) by(bit_vector); }"
        if t in ("i32", "u32", "i64", "u64"):
            o.append("""pub fn {t}_and(a: {t}, b: {t}) -> (r: {t})
    ensures r == a & b, b == 1 ==> r as int == (a as int) % 2, {ex}
{{ {pf} a & b }}
""".format(t=t, pf=pf, ex="r <= a, r <= b," if t[0] == "u" else "b >= 0 ==> r >= 0,"))
            o.append("""pub fn {t}_or(a: {t}, b: {t}) -> (r: {t}) ensures r == a | b {{ a | b }}
pub fn {t}_xor(a: {t}, b: {t}) -> (r: {t}) ensures r == a ^ b, b == 1 ==> r as int == (if (a as int) % 2 == 0 {{ a + 1 }} else {{ a - 1 }}) {{
    proof {{ assert(b == 1 ==> (a ^ b) == (if a % 2 == 0 {{ add(a, 1) }} else {{ sub(a, 1) }})) by(bit_vector);
      {mx} }}
    a ^ b }}
""".format(t=t, mx=("assert(a == %s::MAX ==> a %% 2 == 1) by(bit_vector);" % t) if False else ""))
        if t in ("u32", "u64", "i32", "i64"):
            o.append("""pub fn {t}_shr(a: {t}, k: u32) -> (r: {t})
    requires k < {w},
    ensures r == a >> k, k == 1 ==> r as int == (a as int) / 2,
{{ proof {{ {p} }} a >> k }}
""".format(t=t, w=w, p="assert(k == 1u32 ==> (a >> k) == a / 2) by(bit_vector);" if t[0] == "u" else
            "assert(k == 1u32 ==> (a >> k) == a / 2) by(bit_vector);"))
        if t in ("u32", "u64"):
            o.append("""pub fn {t}_shl(a: {t}, k: u32) -> (r: {t})
    requires k < {w},
    ensures r == a << k, k == 1 && (a * 2) < {M} ==> r as int == a as int * 2,
{{ proof {{ assert(k == 1u32 && a < {h} ==> (a << k) == mul(a, 2)) by(bit_vector); }} a << k }}
""".format(t=t, w=w, M=M, h="0x%x" % 2 ** (w - 1)))
        if t in ("i32", "i64"):
            u = "u" + t[1:]
            o.append("""pub fn {t}_shl(a: {t}, k: u32) -> (r: {t})
    requires k < {w}, a >= 0, (a * pow2(k as nat)) < 0x{h:x}int,
    ensures r as int == a as int * pow2(k as nat), r == a << k,
{{ proof {{
    let ua = a as {u};
    vstd::bits::lemma_{u}_shl_is_mul(ua, k as {u});
    assert((ua << (k as {u})) < 0x{h:x}{u});
    assert(0 <= a && k < {w}u32 && ((a as {u}) << (k as {u})) < 0x{h:x}{u} ==> (a << k) >= 0 && ((a << k) as {u}) == ((a as {u}) << (k as {u}))) by(bit_vector);
  }} a << k }}
""".format(t=t, u=u, w=w, h=2 ** (w - 1)))
    for a in INTS:
        for b in INTS:
            if a != b:
                s = cast_fn(a, b)
                if s:
                    o.append(s)
        if a[0] == "i" and W(a) <= 64:
            o.append("pub fn idx_%s(i: %s) -> (r: usize) requires i >= 0, ensures r as int == i as int { i as usize }\n" % (a, a))
    o.append("""
// ---- containers -------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vec_len<T>(v: &Vec<T>) -> (r: u64)
    ensures r as int == v@.len(), r <= 0x0fff_ffff_ffff_ffffu64,
{ v.len() as u64 }
pub fn vec_pop<T>(v: &mut Vec<T>) requires old(v)@.len() > 0, ensures final(v)@ == old(v)@.drop_last() { v.pop(); }
#[verifier::external_body]
pub fn vec_new_n<T: Copy>(n: u64, x: T) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ vec![x; n as usize] }
pub fn vec_of1<T>(a: T) -> (r: Vec<T>) ensures r@ =~= seq![a] { let mut v = Vec::new(); v.push(a); v }
pub fn vec_of2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ =~= seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); v }
pub fn vec_of3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ =~= seq![a, b, c] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v }
#[verifier::external_body]
pub fn vec_assign<T: Copy>(v: &mut Vec<T>, n: u64, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == x,
{ v.clear(); v.resize(n as usize, x) }
#[verifier::external_body]
pub fn vec_resize<T: Copy>(v: &mut Vec<T>, n: u64, x: T)
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }),
{ v.resize(n as usize, x) }
#[verifier::external_body]
pub fn vec_swap_all<T>(v: &mut Vec<T>, w: &mut Vec<T>)
    ensures final(v)@ == old(w)@, final(w)@ == old(v)@,
{ std::mem::swap(v, w) }
#[verifier::external_body]
pub fn vec_fill_range<T: Copy>(v: &mut Vec<T>, i: i64, j: i64, x: T)
    requires 0 <= i, i <= j ==> j <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if i <= k < j { x } else { old(v)@[k] }),
{ v[i as usize..j as usize].fill(x) }
#[verifier::external_body]
pub fn vec_copy_range<T: Copy>(s: &Vec<T>, i: i64, j: i64, v: &mut Vec<T>, at: i64)
    requires 0 <= i <= j <= s@.len(), 0 <= at, at + (j - i) <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if at <= k < at + (j - i) { s@[i + (k - at)] } else { old(v)@[k] }),
{ v[at as usize..(at + (j - i)) as usize].copy_from_slice(&s[i as usize..j as usize]) }
#[verifier::external_body]
pub fn vec_from_range<T: Copy>(s: &Vec<T>, i: i64, j: i64) -> (r: Vec<T>)
    requires 0 <= i <= j <= s@.len(),
    ensures r@ == s@.subrange(i as int, j as int),
{ s[i as usize..j as usize].to_vec() }
#[verifier::external_body]
pub fn vec_reverse_range<T: Copy>(v: &mut Vec<T>, i: i64, j: i64)
    requires 0 <= i <= j <= old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(),
        forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if i <= k < j { old(v)@[i + (j - 1 - k)] } else { old(v)@[k] }),
{ v[i as usize..j as usize].reverse() }
/// std::unordered_map with an integral key
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct UMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K: Copy + std::hash::Hash + Eq, V: Copy> UMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { UMap { m: std::collections::HashMap::new() } }
    #[verifier::external_body] pub fn count(&self, k: K) -> (r: u64) ensures r == (if self@.dom().contains(k) { 1u64 } else { 0u64 }) { self.m.contains_key(&k) as u64 }
    #[verifier::external_body] pub fn get_at(&self, k: K) -> (r: V) requires self@.dom().contains(k), ensures r == self@[k] { self.m[&k] }
    #[verifier::external_body] pub fn at_mut(&mut self, k: K) -> (r: &mut V) requires old(self)@.dom().contains(k), ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { self.m.get_mut(&k).unwrap() }
    #[verifier::external_body] pub fn index_mut(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)) { self.m.entry(k).or_insert(d) }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: bool)
        ensures r == !old(self)@.dom().contains(k), final(self)@ == (if old(self)@.dom().contains(k) { old(self)@ } else { old(self)@.insert(k, v) }) { if self.m.contains_key(&k) { false } else { self.m.insert(k, v); true } }
    #[verifier::external_body] pub fn erase(&mut self, k: K) -> (r: u64)
        ensures r == (if old(self)@.dom().contains(k) { 1u64 } else { 0u64 }), final(self)@ == old(self)@.remove(k) { self.m.remove(&k).is_some() as u64 }
}
pub fn throw_() requires false {}
#[verifier::external_body] pub fn throw_ok_() ensures false { panic!() }
pub trait CloneC: Sized { spec fn same(self, o: Self) -> bool; fn clone_c(&self) -> (r: Self) ensures self.same(r); }
impl<T: Copy> CloneC for Vec<T> {
    open spec fn same(self, o: Self) -> bool { self@ == o@ && self == o }
    #[verifier::external_body]
    fn clone_c(&self) -> (r: Self) { self.clone() }
}
""")
    for t in INTS:
        o.append("#[verifier::external_body] pub fn any_%s() -> %s { 0 }\n" % (t, t))
    o.append("#[verifier::external_body] pub fn any_bool() -> bool { true }\n")
    return "\n".join(o)


TRUSTED = [
    "<t>_div, <t>_rem: signed C++ division truncates towards zero",
    "cast_<a>_<b>: C++ integral conversion = value modulo 2^width (two's complement), axiomatised in vf/prelude.py",
    "<t>_addo/_subo/_mulo: the compiler's overflow-reporting arithmetic builtins",
    "vec_new_n / vec_assign / vec_resize / vec_swap_all / clone_c: std::vector construction, assign, resize, swap, copy",
    "vec_fill_range / vec_copy_range / vec_reverse_range: std::fill, std::copy, std::reverse",
    "UMap: std::unordered_map is a finite map (count, at, operator[], insert, erase)",
    "throw_ok_: a C++ throw leaves the function",
    "vec_len: a std::vector holds fewer than 2^60 elements",
    "any_<t>: an uninitialised local holds an arbitrary value",
    "Verus 0.2026.09.13, its Z3, vstd's specifications of Vec and wrapping arithmetic; clang 18's AST; vf/translate.py",
]
