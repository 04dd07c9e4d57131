"""integer square and cube roots (base.h, base.cpp)"""
from unit import Unit, Contract
import fp

NT = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
LL = {"i64": "long long", "u64": "unsigned long long"}
MM = "altruct::math::"
SPEC = r"""
pub open spec fn cube(x: int) -> int { x * x * x }
pub open spec fn is_root(x: int, r: int) -> bool { r >= 0 && r * r <= x && x < (r + 1) * (r + 1) }
pub open spec fn is_cbroot(x: int, r: int) -> bool { r >= 0 && cube(r) <= x && x < cube(r + 1) }
/// rounded towards zero
pub open spec fn sroot(x: int, r: int) -> bool { if x >= 0 { is_root(x, r) } else { is_root(-x, -r) } }
pub open spec fn scbroot(x: int, r: int) -> bool { if x >= 0 { is_cbroot(x, r) } else { is_cbroot(-x, -r) } }
pub open spec fn is_rootc(x: int, r: int) -> bool { r >= 0 && x <= r * r && (r == 0 || (r - 1) * (r - 1) < x) }
pub open spec fn is_cbrootc(x: int, r: int) -> bool { r >= 0 && x <= cube(r) && (r == 0 || cube(r - 1) < x) }
pub open spec fn srootc(x: int, r: int) -> bool { if x >= 0 { is_rootc(x, r) } else { is_rootc(-x, -r) } }
pub open spec fn scbrootc(x: int, r: int) -> bool { if x >= 0 { is_cbrootc(x, r) } else { is_cbrootc(-x, -r) } }
pub open spec fn square_of(x: int, s: int) -> bool { x == s * s }
pub open spec fn cube_of(x: int, s: int) -> bool { x == cube(s) }
pub open spec fn is_sq(x: int) -> bool { exists|s: int| square_of(x, s) }
pub open spec fn is_cb(x: int) -> bool { exists|s: int| cube_of(x, s) }
pub proof fn lemma_sq_mono(a: int, b: int)
    requires 0 <= a <= b, ensures a * a <= b * b, 0 <= a * a
{ assert(a * a <= b * b && 0 <= a * a) by(nonlinear_arith) requires 0 <= a <= b; }
pub proof fn lemma_cb_mono(a: int, b: int)
    requires 0 <= a <= b, ensures cube(a) <= cube(b), 0 <= cube(a), a * a <= b * b,
{ lemma_sq_mono(a, b); assert(a * a * a <= b * b * b && 0 <= a * a * a) by(nonlinear_arith) requires 0 <= a <= b, 0 <= a * a <= b * b; }
/// q > x / q  <==>  q * q > x
pub proof fn lemma_sq_div(x: int, q: int)
    requires x >= 0, q > 0,
    ensures (q > x / q) <==> (q * q > x), x / q >= 0, x / q <= x,
{
    lemma_fundamental_div_mod(x, q); lemma_mod_bound(x, q);
    let d = x / q;
    assert(x == q * d + x % q);
    assert((q > d) <==> (q * q > x)) by(nonlinear_arith) requires x == q * d + x % q, 0 <= x % q < q, q > 0;
    assert(d >= 0 && d <= x) by(nonlinear_arith) requires x == q * d + x % q, 0 <= x % q < q, q > 0, x >= 0;
}
pub proof fn lemma_cb_div(x: int, q: int)
    requires x >= 0, q > 0,
    ensures (q > x / q / q) <==> (cube(q) > x), x / q >= 0, x / q / q >= 0, x / q <= x, x / q / q <= x,
        x / (q * q) == x / q / q, q * q > 0,
{
    assert(q * q > 0) by(nonlinear_arith) requires q > 0;
    lemma_div_denominator(x, q, q);
    let m = q * q;
    lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m);
    let d = x / m;
    lemma_sq_div(x, q);
    lemma_sq_div(x / q, q);
    assert((q > d) <==> (m * q > x)) by(nonlinear_arith) requires x == m * d + x % m, 0 <= x % m < m, q > 0, m > 0;
    assert(m * q == cube(q));
}
pub proof fn lemma_ceil_cb(x: int, q: int)
    requires is_cbroot(x, q),
    ensures cube(q) < x ==> is_cbrootc(x, q + 1), cube(q) == x ==> is_cbrootc(x, q),
{
    if q > 0 { lemma_cb_mono(q - 1, q); lemma_cb_mono(0, q - 1);
        assert(cube(q - 1) < cube(q)) by(nonlinear_arith) requires q >= 1, cube(q - 1) == (q - 1) * (q - 1) * (q - 1), cube(q) == q * q * q; }
    assert(q + 1 - 1 == q);
}
pub proof fn lemma_sq_fit(x: int, r: int)
    requires sroot(x, r), iabs(x) <= 0x8000_0000_0000_0000,
    ensures r * r <= 0x7fff_ffff_ffff_ffff, iabs(x) <= 0x8000_0000 ==> r * r <= 0x7fff_ffff, iabs(x) <= 0x8000 ==> r * r <= 0x7fff, iabs(x) <= 0x80 ==> r * r <= 0x7f, r * r >= 0,
{
    let a = iabs(r); lemma_root_bits(iabs(x), a); lemma_sq_mono(0, a);
    assert(r * r == a * a) by(nonlinear_arith) requires a == r || a == -r;
    lemma_sq_mono(a, 3037000499); if a <= 46340 { lemma_sq_mono(a, 46340); } if a <= 181 { lemma_sq_mono(a, 181); } if a <= 11 { lemma_sq_mono(a, 11); }
}
pub proof fn lemma_root_bits(x: int, r: int)
    requires is_root(x, r), x < 0x1_0000_0000_0000_0000,
    ensures r < 0x1_0000_0000, r <= x,
        x < 0x4000_0000_0000_0000 ==> r < 0x8000_0000, x <= 0x8000_0000 ==> r <= 46340, x <= 0x8000 ==> r <= 181, x <= 0x80 ==> r <= 11,
        x < 0x1_0000_0000 ==> r <= 65535, x < 0x1_0000 ==> r <= 255, x < 0x100 ==> r <= 15, x <= 0x8000_0000_0000_0000 ==> r <= 3037000499,
{
    assert(r <= r * r) by(nonlinear_arith) requires r >= 0;
    if r >= 0x1_0000_0000 { lemma_sq_mono(0x1_0000_0000, r); }
    if r >= 0x8000_0000 { lemma_sq_mono(0x8000_0000, r); }
    if r >= 46341 { lemma_sq_mono(46341, r); } if r >= 182 { lemma_sq_mono(182, r); } if r >= 12 { lemma_sq_mono(12, r); }
    if r >= 65536 { lemma_sq_mono(65536, r); } if r >= 256 { lemma_sq_mono(256, r); } if r >= 16 { lemma_sq_mono(16, r); }
    if r >= 3037000500 { lemma_sq_mono(3037000500, r); }
}
pub proof fn lemma_cbroot_bits(x: int, r: int)
    requires is_cbroot(x, r), x < 0x1_0000_0000_0000_0000,
    ensures r <= 2642245, r <= x, r * r <= x, r * r <= 6981458640025, x < 0x8000_0000_0000_0000 ==> r <= 2097151, x < 0x8000_0000 ==> r <= 1290, x < 0x1_0000_0000 ==> r <= 1625, x <= 0x8000 ==> r <= 32, x < 0x1_0000 ==> r <= 40,
        x < 0x80 ==> r <= 5, x < 0x100 ==> r <= 6,
        x < 0x8000_0000 ==> r * r <= 1290 * 1290, x < 0x1_0000_0000 ==> r * r <= 1625 * 1625, x < 0x8000_0000_0000_0000 ==> r * r <= 2097151 * 2097151,
{
    if r >= 2642246 { lemma_cb_mono(2642246, r); }
    if r >= 2097152 { lemma_cb_mono(2097152, r); }
    if r >= 1291 { lemma_cb_mono(1291, r); } if r >= 1626 { lemma_cb_mono(1626, r); } if r >= 33 { lemma_cb_mono(33, r); } if r >= 41 { lemma_cb_mono(41, r); }
    if r >= 6 { lemma_cb_mono(6, r); assert(cube(6) == 216); } if r >= 7 { lemma_cb_mono(7, r); assert(cube(7) == 343); }
    assert(x < 0x80 ==> r <= 5); assert(x < 0x100 ==> r <= 6);
    lemma_sq_mono(r, 2642245);
    if r <= 1290 { lemma_sq_mono(r, 1290); } if r <= 1625 { lemma_sq_mono(r, 1625); } if r <= 2097151 { lemma_sq_mono(r, 2097151); }
    assert(r <= r * r && r * r <= r * r * r) by(nonlinear_arith) requires r >= 0;
}
pub proof fn lemma_is_sq(x: int, r: int)
    requires sroot(x, r),
    ensures (r * r == x) <==> is_sq(x), r * r <= iabs(x), 0 <= r * r,
{
    if r * r == x { assert(square_of(x, r)); }
    let a = iabs(r);
    assert(a * a == r * r) by(nonlinear_arith) requires a == r || a == -r;
    if is_sq(x) {
        let s = choose|s: int| square_of(x, s);
        let t = iabs(s);
        assert(t * t == x && x >= 0) by(nonlinear_arith) requires x == s * s, t == s || t == -s;
        if t < a { lemma_sq_mono(t + 1, a); assert((t + 1) * (t + 1) == t * t + 2 * t + 1) by(nonlinear_arith); }
        if t > a { lemma_sq_mono(a + 1, t); }
    }
    assert(0 <= a * a) by(nonlinear_arith) requires a >= 0;
}
pub proof fn lemma_cb_fit(x: int, r: int)
    requires scbroot(x, r), -0x8000_0000_0000_0000 < x < 0x1_0000_0000_0000_0000,
    ensures iabs(x) <= 0x8000_0000 ==> iabs(cube(r)) <= 0x8000_0000, iabs(cube(r)) <= iabs(x), x < 0 ==> x <= cube(r) && cube(r) <= 0, x >= 0 ==> 0 <= cube(r) <= x,
{ lemma_is_cb(x, r); lemma_cb_mono(0, iabs(r)); lemma_cube_neg(r); assert(cube(0) == 0) by(compute); }
pub proof fn lemma_cbT_sq(r: int)
    ensures 0 <= r * r, r * r <= iabs(cube(r)), 2 * (r * r) <= iabs(cube(r)) + 2, r * r == iabs(r) * iabs(r),
{
    let a = iabs(r);
    lemma_cube_neg(r);
    lemma_cb_mono(0, a);
    assert(r * r == a * a) by(nonlinear_arith) requires a == r || a == -r;
    assert(a * a <= cube(a)) by(nonlinear_arith) requires a >= 0, cube(a) == a * a * a;
    assert(a * a >= 0) by(nonlinear_arith) requires a >= 0;
    assert(2 * (a * a) <= cube(a) + 2) by(nonlinear_arith) requires a >= 0, cube(a) == a * a * a;
}
pub proof fn lemma_cube_neg(s: int)
    ensures cube(-s) == -cube(s)
{ assert((-s) * (-s) * (-s) == -(s * s * s)) by(nonlinear_arith); }
pub proof fn lemma_is_cb_nn(x: int, r: int)
    requires is_cbroot(x, r),
    ensures (cube(r) == x) <==> is_cb(x),
{
    if cube(r) == x { assert(cube_of(x, r)); }
    if is_cb(x) {
        let s = choose|s: int| cube_of(x, s);
        if s < 0 { lemma_cb_mono(0, -s); lemma_cube_neg(s); lemma_cb_mono(0, r); lemma_cb_mono(1, -s); }
        else if s < r { lemma_cb_mono(s + 1, r); assert(cube(s + 1) > cube(s)) by(nonlinear_arith) requires s >= 0, cube(s + 1) == (s + 1) * (s + 1) * (s + 1), cube(s) == s * s * s; }
        else if s > r { lemma_cb_mono(r + 1, s); }
    }
}
pub proof fn lemma_is_cb(x: int, r: int)
    requires scbroot(x, r),
    ensures (cube(r) == x) <==> is_cb(x), iabs(cube(r)) <= iabs(x), iabs(r * r) <= iabs(x),
{
    let a = iabs(r); let b = iabs(x);
    lemma_is_cb_nn(b, a);
    lemma_cube_neg(r);
    lemma_cb_mono(0, a);
    assert(r * r == a * a) by(nonlinear_arith) requires a == r || a == -r;
    assert(a * a <= cube(a)) by(nonlinear_arith) requires a >= 0, cube(a) == a * a * a;
    assert(a * a >= 0) by(nonlinear_arith) requires a >= 0;
    if x < 0 {
        if is_cb(x) { let s = choose|s: int| cube_of(x, s); lemma_cube_neg(s); assert(cube_of(b, -s)); }
        if is_cb(b) { let s = choose|s: int| cube_of(b, s); lemma_cube_neg(s); assert(cube_of(x, -s)); }
    }
}
// ---- Newton iteration (types without a specialization)
pub open spec fn nmeas(q1: int, q2: int) -> int { if q1 > q2 + 1 { q1 + 2 } else if q2 > q1 + 1 { 1 } else { 0 } }
/// q1 is at least the floor of the root
pub open spec fn above(x: int, q: int) -> bool { x < (q + 1) * (q + 1) }
pub proof fn lemma_newton_step(x: int, q1: int, q2: int)
    requires x >= 2, 0 < q1 <= x, above(x, q1), q2 == x / q1, q1 > q2 + 1 || q2 > q1 + 1, q1 + q2 <= x / 2 + 3,
    ensures ({ let n = (q1 + q2) / 2; n > 0 && above(x, n) && n <= x && nmeas(n, x / n) < nmeas(q1, q2) && n <= q1 + 1 && (q1 > q2 ==> n < q1) && q2 >= 0 && x / n <= x && x / n >= 0 && n + x / n <= x / 2 + 3 }),
{
    let n = (q1 + q2) / 2;
    lemma_fundamental_div_mod(x, q1); lemma_mod_bound(x, q1);
    assert(q2 >= 0 && q2 <= x) by(nonlinear_arith) requires x == q1 * q2 + x % q1, 0 <= x % q1 < q1, q1 > 0, x >= 0;
    // AM-GM: (n + 1)^2 > q1 * (q2 + 1) > x
    assert(x < q1 * (q2 + 1)) by(nonlinear_arith) requires x == q1 * q2 + x % q1, x % q1 < q1;
    let s = q1 + q2 + 1;
    assert(4 * (q1 * (q2 + 1)) <= s * s) by(nonlinear_arith) requires s == q1 + q2 + 1;
    assert(2 * (n + 1) >= s);
    assert(s * s <= (2 * (n + 1)) * (2 * (n + 1))) by(nonlinear_arith) requires 0 <= s <= 2 * (n + 1);
    assert((2 * (n + 1)) * (2 * (n + 1)) == 4 * ((n + 1) * (n + 1))) by(nonlinear_arith);
    assert(above(x, n));
    if q1 == 1 { assert(x < 4) by(nonlinear_arith) requires x < (q1 + 1) * (q1 + 1), q1 == 1; assert(q2 == x) by(nonlinear_arith) requires x == q1 * q2 + x % q1, 0 <= x % q1 < q1, q1 == 1; assert(q2 == 3); }
    assert(n > 0);
    lemma_sq_div(x, n);
    if q2 > q1 + 1 {
        // then q1 is the root r, q2 = r + 2, x = r * r + 2 * r and the next guess is r + 1
        assert(x >= q1 * (q1 + 2)) by(nonlinear_arith) requires x == q1 * q2 + x % q1, q2 >= q1 + 2, q1 > 0, x % q1 >= 0;
        assert(x < q1 * q1 + 2 * q1 + 1) by(nonlinear_arith) requires x < (q1 + 1) * (q1 + 1);
        assert(q1 * (q1 + 2) == q1 * q1 + 2 * q1) by(nonlinear_arith);
        assert(q2 == q1 + 2) by(nonlinear_arith) requires x == q1 * q2 + x % q1, x == q1 * q1 + 2 * q1, 0 <= x % q1 < q1, q2 >= q1 + 2, q1 > 0;
        assert(n == q1 + 1);
        assert(x == (n - 1) * (n + 1)) by(nonlinear_arith) requires x == q1 * q1 + 2 * q1, n == q1 + 1;
        assert(x == (n - 1) * n + (n - 1)) by(nonlinear_arith) requires x == (n - 1) * (n + 1);
        lemma_fundamental_div_mod_converse(x, n, n - 1, n - 1);
        assert(n <= x) by(nonlinear_arith) requires x == q1 * q1 + 2 * q1, n == q1 + 1, q1 >= 1;
        assert(2 * (2 * q1 + 1) <= x + 4) by(nonlinear_arith) requires x == q1 * q1 + 2 * q1, q1 >= 1;
    } else {
        assert(n < q1);
        let m = x / n;
        lemma_fundamental_div_mod(x, n); lemma_mod_bound(x, n);
        if n == 1 { assert(x < 4) by(nonlinear_arith) requires x < (n + 1) * (n + 1), n == 1; assert(m <= x); }
        else if m >= 2 { assert(2 * (n + m) <= x + 4) by(nonlinear_arith) requires x == n * m + x % n, x % n >= 0, n >= 2, m >= 2; }
        else { assert(x < n * 2) by(nonlinear_arith) requires x == n * m + x % n, x % n < n, m <= 1, n > 0; }
    }
}
pub proof fn lemma_newton_exit(x: int, q1: int, q2: int)
    requires x >= 1, q1 > 0, q2 == x / q1, q1 <= q2 + 1 && q2 <= q1 + 1,
    ensures is_root(x, if q1 < q2 { q1 } else { q2 }),
{
    lemma_fundamental_div_mod(x, q1); lemma_mod_bound(x, q1);
    let m = x % q1;
    if q1 == q2 + 1 {
        assert(q2 * q2 <= x && x < (q2 + 1) * (q2 + 1)) by(nonlinear_arith) requires x == q1 * q2 + m, 0 <= m < q1, q1 == q2 + 1, q2 >= 0;
    } else if q2 == q1 + 1 {
        assert(q1 * q1 <= x && x < (q1 + 1) * (q1 + 1)) by(nonlinear_arith) requires x == q1 * q2 + m, 0 <= m < q1, q2 == q1 + 1;
    } else {
        assert(q2 == q1);
        assert(q1 * q1 <= x && x < (q1 + 1) * (q1 + 1)) by(nonlinear_arith) requires x == q1 * q2 + m, 0 <= m < q1, q2 == q1;
    }
}
pub proof fn lemma_newton_start(x: int)
    requires x >= 2,
    ensures above(x, x / 2), x / 2 > 0, x / (x / 2) <= 3, x / (x / 2) >= 2, nmeas(x / 2, x / (x / 2)) <= x / 2 + 2,
{
    let q = x / 2;
    assert((q + 1) * (q + 1) >= 2 * q + 2) by(nonlinear_arith) requires q >= 1;
    lemma_fundamental_div_mod(x, q); lemma_mod_bound(x, q);
    let d = x / q;
    assert(2 <= d && d <= 3) by(nonlinear_arith) requires x == q * d + x % q, 0 <= x % q < q, 2 * q <= x <= 2 * q + 1, q >= 1;
}
// ---- cubic Newton iteration
pub proof fn lemma_cbroot_exists(x: int)
    requires x >= 0, ensures exists|r: int| is_cbroot(x, r),
    decreases x,
{
    if x == 0 { assert(is_cbroot(0, 0)) by(compute); }
    else {
        lemma_cbroot_exists(x - 1);
        let y = x - 1; let r = choose|r: int| is_cbroot(y, r);
        if cube(r + 1) <= x {
            assert(cube(r + 1 + 1) > cube(r + 1)) by(nonlinear_arith) requires r >= 0, cube(r + 1 + 1) == (r + 1 + 1) * (r + 1 + 1) * (r + 1 + 1), cube(r + 1) == (r + 1) * (r + 1) * (r + 1);
            assert(is_cbroot(x, r + 1));
        } else { assert(is_cbroot(x, r)); }
    }
}
pub open spec fn the_cbroot(x: int) -> int { choose|r: int| is_cbroot(x, r) }
pub open spec fn ccont(r0: int, r1: int, r2: int) -> bool { r1 != r0 && !(r2 <= r1 <= r2 + 1) }
pub open spec fn cmeas(x: int, r0: int, r1: int, r2: int) -> int { if !ccont(r0, r1, r2) { 0 } else if r1 == the_cbroot(x) { 1 } else { r1 + 2 } }
pub open spec fn cinv(x: int, r0: int, r1: int, r2: int) -> bool {
    let r = the_cbroot(x);
    &&& is_cbroot(x, r) && 1 <= r <= r1 && 0 < r1 * r1 <= x && r2 == x / (r1 * r1) && r2 >= 0 && (r1 == 1 ==> x <= 3) && (r1 == r0 ==> r1 == r)
    &&& (r1 == r ==> r2 >= r) && (r1 > r ==> r2 < r1) && 2 * r1 + r2 <= (if x >= 8 { x } else { 12 }) && r2 <= x && r1 <= x && r1 < 0x1_0000_0000
}
pub proof fn lemma_cinv_r2(x: int, r0: int, r1: int)
    requires x >= 2, x < 0x1_0000_0000_0000_0000, is_cbroot(x, the_cbroot(x)), 1 <= the_cbroot(x) <= r1, r1 * r1 <= x, r1 == 1 ==> x <= 3, r1 == r0 ==> r1 == the_cbroot(x),
    ensures cinv(x, r0, r1, x / (r1 * r1)),
{
    let r = the_cbroot(x); let m = r1 * r1; let r2 = x / m;
    assert(m >= r1) by(nonlinear_arith) requires m == r1 * r1, r1 >= 1;
    if r1 >= 0x1_0000_0000 { lemma_sq_mono(0x1_0000_0000, r1); }
    lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m);
    assert(r2 >= 0 && r2 <= x) by(nonlinear_arith) requires x == m * r2 + x % m, 0 <= x % m < m, m > 0, x >= 0;
    if r1 == r { assert(r2 >= r) by(nonlinear_arith) requires x >= cube(r), cube(r) == r * r * r, m == r * r, x == m * r2 + x % m, 0 <= x % m < m; }
    else {
        lemma_cb_mono(r + 1, r1);
        assert(r2 < r1) by(nonlinear_arith) requires x < cube(r1), cube(r1) == m * r1, x == m * r2 + x % m, 0 <= x % m < m;
    }
    if r1 == 1 { assert(r2 <= 3); }
    else {
        assert(4 * r1 <= m + 4) by(nonlinear_arith) requires m == r1 * r1;
        assert(m >= 4) by(nonlinear_arith) requires m == r1 * r1, r1 >= 2;
        assert(4 * r2 <= x) by(nonlinear_arith) requires x == m * r2 + x % m, x % m >= 0, m >= 4, r2 >= 0;
    }
}
pub proof fn lemma_cnewton_step(x: int, r0: int, r1: int, r2: int)
    requires x >= 2, x < 0x1_0000_0000_0000_0000, cinv(x, r0, r1, r2), ccont(r0, r1, r2),
    ensures ({ let n = (r1 + r1 + r2) / 3; cinv(x, r1, n, x / (n * n)) && cmeas(x, r1, n, x / (n * n)) < cmeas(x, r0, r1, r2) && n > 0 && n * n > 0 }),
{
    let r = the_cbroot(x); let m = r1 * r1; let n = (r1 + r1 + r2) / 3; let s = r1 + r1 + r2 + 1;
    lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m);
    assert(x < m * (r2 + 1)) by(nonlinear_arith) requires x == m * r2 + x % m, x % m < m;
    // AM-GM: s^3 >= 27 * r1 * r1 * (r2 + 1)
    let b = r2 + 1;
    assert(s * s * s - 27 * (m * b) == (b - r1) * (b - r1) * (b + 8 * r1)) by(nonlinear_arith) requires s == r1 + r1 + b, m == r1 * r1;
    assert((b - r1) * (b - r1) * (b + 8 * r1) >= 0) by {
        let sq = (b - r1) * (b - r1);
        assert(sq >= 0) by(nonlinear_arith) requires sq == (b - r1) * (b - r1);
        assert(sq * (b + 8 * r1) >= 0) by(nonlinear_arith) requires sq >= 0, b + 8 * r1 >= 0;
    }
    assert(s <= 3 * (n + 1));
    lemma_cb_mono(s, 3 * (n + 1));
    assert(cube(3 * (n + 1)) == 27 * cube(n + 1)) by(nonlinear_arith) requires cube(3 * (n + 1)) == (3 * (n + 1)) * (3 * (n + 1)) * (3 * (n + 1)), cube(n + 1) == (n + 1) * (n + 1) * (n + 1);
    assert(x < cube(n + 1));
    if n < r { lemma_cb_mono(n + 1, r); }
    assert(n >= r);
    if r1 == r {
        assert(cube(r + 1) == cube(r) + 3 * m + 3 * r + 1) by(nonlinear_arith) requires cube(r + 1) == (r + 1) * (r + 1) * (r + 1), cube(r) == r * r * r, m == r * r;
        assert(cube(r) == m * r);
        if r == 1 { assert(x <= 3); assert(m == 1) by(nonlinear_arith) requires m == r1 * r1, r1 == 1; lemma_fundamental_div_mod_converse(x, 1, x, 0); assert(r2 == x); assert(n == 1); }
        else {
            if r2 >= r + 5 {
                assert(m * r2 >= m * r + 5 * m) by(nonlinear_arith) requires r2 >= r + 5, m > 0;
                assert(2 * m >= 4 * r) by(nonlinear_arith) requires m == r * r, r >= 2;
            }
            assert(n <= r + 1);
            if n == r + 1 {
                assert(r2 >= r + 3);
                assert(m * r2 >= m * r + 3 * m) by(nonlinear_arith) requires r2 >= r + 3, m > 0;
                let k = n * n;
                assert(k == m + 2 * r + 1) by(nonlinear_arith) requires k == n * n, n == r + 1, m == r * r;
                assert(3 * m >= 3 * r + 1 && m >= 2 * r) by(nonlinear_arith) requires m == r * r, r >= 2;
                assert(k * r == m * r + 2 * m + r) by(nonlinear_arith) requires k == m + 2 * r + 1, m == r * r;
                assert(k * r <= x); assert(k <= k * r) by(nonlinear_arith) requires r >= 1, k >= 0;
                lemma_cinv_r2(x, r1, n);
                let t = x / k;
                lemma_fundamental_div_mod(x, k); lemma_mod_bound(x, k);
                assert(t >= r) by(nonlinear_arith) requires k * r <= x, x == k * t + x % k, x % k < k, k > 0;
            }
        }
    } else {
        assert(n < r1);
        lemma_sq_mono(n, r1);
        if n == 1 { assert(r1 <= 2); if r1 == 2 { assert(m == 4) by(nonlinear_arith) requires m == r1 * r1, r1 == 2; assert(r2 == 0); assert(x < 4); } }
    }
    if n == r1 { assert(m == n * n); }
    lemma_cinv_r2(x, r1, n);
    assert(n * n > 0) by(nonlinear_arith) requires n > 0;
}
pub proof fn lemma_cnewton_exit(x: int, r0: int, r1: int, r2: int)
    requires x >= 2, cinv(x, r0, r1, r2), r1 == r0 || (r1 <= r2 + 1 && r2 <= r1 + 1),
    ensures is_cbroot(x, if r1 < r2 { r1 } else { r2 }),
{
    let r = the_cbroot(x); let m = r1 * r1;
    if r1 > r {
        assert(r2 == r1 - 1);
        lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m);
        if r1 >= r + 2 {
            lemma_sq_mono(r + 1, r1);
            assert(m * r2 >= cube(r + 1)) by(nonlinear_arith) requires m >= (r + 1) * (r + 1), r2 >= r + 1, r >= 0, cube(r + 1) == (r + 1) * (r + 1) * (r + 1);
        }
    }
}
pub proof fn lemma_cnewton_start(x: int, r1: int)
    requires x >= 2, x < 0x1_0000_0000_0000_0000, is_root(x, r1),
    ensures cinv(x, 0, r1, x / (r1 * r1)), cmeas(x, 0, r1, x / (r1 * r1)) <= r1 + 2,
{
    lemma_cbroot_exists(x);
    let r = the_cbroot(x);
    if r < 1 { assert(r == 0); assert(cube(1) == 1) by(compute); }
    assert(r * r <= cube(r)) by(nonlinear_arith) requires r >= 0, cube(r) == r * r * r;
    if r1 < r { lemma_sq_mono(r1 + 1, r); }
    if r1 == 1 { assert(x < 4) by(nonlinear_arith) requires x < (r1 + 1) * (r1 + 1), r1 == 1; }
    lemma_cinv_r2(x, 0, r1);
}
"""
HI = {"i8": 2 ** 7 - 1, "u8": 2 ** 8 - 1, "i16": 2 ** 15 - 1, "u16": 2 ** 16 - 1, "i32": 2 ** 31 - 1, "u32": 2 ** 32 - 1, "i64": 2 ** 63 - 1, "u64": 2 ** 64 - 1}


def core():
    cs = []
    B62, C31 = "0x4000_0000_0000_0000", "(0x7fff_ffff * 0x7fff_ffff)"
    cs.append(Contract("isq", MM + "isq", params=["x"], requires=["-0x1_0000_0000 < x < 0x1_0000_0000", "x as int * x as int <= 0x7fff_ffff_ffff_ffff"], ensures=["r == x as int * x as int"],
                       hints={"entry": "proof { assert(x as int * x as int >= 0) by(nonlinear_arith); }"}))
    cs.append(Contract("icb", MM + "icb", params=["x"], requires=["-0x20_0000 < x < 0x20_0000"], ensures=["r == cube(x as int)"],
                       hints={"entry": "proof { let a = iabs(x as int); lemma_cb_mono(a, 0x1f_ffff); lemma_cube_neg(x as int); assert(x as int * x as int == a * a) by(nonlinear_arith) requires a == x || a == -x; lemma_sq_mono(0, a); }"}))
    cs.append(Contract("isqrtu", MM + "isqrtu", params=["x"], ensures=["is_root(x as int, r as int)"],
        loops={0: dict(invariant=["q >= 0"], decreases="q"),
               1: dict(invariant=["(q as int) * (q as int) <= x", "q < 0x1_0000_0000"], decreases="0x1_0000_0000 - q")},
        hints={"L0.before": "proof { if q > 0 { lemma_sq_div(x as int, q as int); } }",
               "L0.end": "proof { if q > 0 { lemma_sq_div(x as int, q as int); } }",
               "L0.after": "proof { if q > 0 { lemma_sq_div(x as int, q as int); } if q >= 0x1_0000_0000 { lemma_sq_mono(0x1_0000_0000, q as int); } lemma_sq_mono(0, q as int); assert(q as int * q as int <= x) by(nonlinear_arith) requires q == 0 || q as int * q as int <= x, x >= 0; }",
               "L1.after": "proof { lemma_sq_div(x as int, q as int + 1); }",
               "L1.begin": "proof { lemma_sq_div(x as int, q as int + 1); if q + 1 >= 0x1_0000_0000 { lemma_sq_mono(0x1_0000_0000, q as int + 1); } }",
               "L1.end": "proof { lemma_sq_div(x as int, q as int + 1); }"}))
    cs.append(Contract("icbrtu", MM + "icbrtu", params=["x"], ensures=["is_cbroot(x as int, r as int)"],
        loops={0: dict(invariant=["q >= 0"], decreases="q"),
               1: dict(invariant=["cube(q as int) <= x", "q < 0x40_0000"], decreases="0x40_0000 - q")},
        hints={"L0.before": "proof { if q > 0 { lemma_cb_div(x as int, q as int); } }",
               "L0.end": "proof { if q > 0 { lemma_cb_div(x as int, q as int); } }",
               "L0.after": "proof { if q > 0 { lemma_cb_div(x as int, q as int); } if q >= 0x40_0000 { lemma_cb_mono(0x40_0000, q as int); } assert(cube(q as int) <= x) by(nonlinear_arith) requires q == 0 || cube(q as int) <= x, x >= 0, cube(q as int) == q as int * q as int * q as int; }",
               "L1.after": "proof { lemma_cb_div(x as int, q as int + 1); }",
               "L1.begin": "proof { lemma_cb_div(x as int, q as int + 1); if q + 1 >= 0x40_0000 { lemma_cb_mono(0x40_0000, q as int + 1); } }",
               "L1.end": "proof { lemma_cb_div(x as int, q as int + 1); }"}))
    cs.append(Contract("isqrt", MM + "isqrt", params=["x"], requires=["-%s < x < %s" % (B62, B62)], ensures=["sroot(x as int, r as int)", "iabs(r as int) < 0x8000_0000"], decreases="(if x < 0 { 1int } else { 0int })",
                       hints={"use:isqrtu.before": ""}))
    cs.append(Contract("icbrt", MM + "icbrt", params=["x"], requires=["x > i64::MIN"], ensures=["scbroot(x as int, r as int)", "iabs(r as int) <= 2097151"], decreases="(if x < 0 { 1int } else { 0int })"))
    for c in cs[-2:]:
        c.hints = {"entry": "proof { assert forall|r: int| #[trigger] is_%s(x as int, r) implies r < 0x8000_0000 %s by { lemma_%s_bits(x as int, r); } }" % (("root", "", "root") if c.rust == "isqrt" else ("cbroot", "&& r <= 2097151", "cbroot"))}
    cs.append(Contract("isqrtc", MM + "isqrtc", params=["x"], requires=["-%s <= x <= %s" % (C31, C31)], ensures=["srootc(x as int, r as int)", "iabs(r as int) < 0x8000_0000"], decreases="(if x < 0 { 1int } else { 0int })",
        loops={0: dict(invariant=["q >= 0", "0 <= q as int * q as int <= 0x3fff_ffff_0000_0001"], decreases="0x8000_0000 - q"), 1: dict(invariant=["q >= 0", "x <= q as int * q as int", "q > 0 ==> 0 <= (q as int - 1) * (q as int - 1) <= 0x3fff_ffff_0000_0001"], decreases="q")},
        hints={"L0.before": "proof { lemma_sq_mono(0, q as int); lemma_sq_mono(q as int, 0x7fff_ffff); }", "L0.begin": "proof { if q == 0x7fff_ffff { } }",
               "L0.end": "proof { lemma_sq_mono(q as int, 0x7fff_ffff); lemma_sq_mono(0, q as int); }",
               "L1.before": "proof { if q > 0 { lemma_sq_mono(q as int - 1, 0x7fff_ffff); lemma_sq_mono(0, q as int - 1); } }",
               "L1.end": "proof { if q > 0 { lemma_sq_mono(q as int - 1, 0x7fff_ffff); lemma_sq_mono(0, q as int - 1); } }"}))
    cs.append(Contract("icbrtc", MM + "icbrtc", params=["x"], requires=["x > i64::MIN"], ensures=["scbrootc(x as int, r as int)", "iabs(r as int) <= 2097152"], decreases="(if x < 0 { 1int } else { 0int })",
        hints={"use:icbrt.after": "proof { lemma_cbroot_bits(x as int, q as int); lemma_ceil_cb(x as int, q as int); }"}))
    return cs


def generic(types, ll=False):
    cs = []
    for t, c in types.items():
        sg = t[0] == "i"
        mn = ["x > %s::MIN" % t] if sg and t == "i64" else []
        n = ("ll_" if ll else "") + t
        S = "{0} ({0}, {0}, unsigned long)".format(c)
        pr = mn + ([] if not ll else ["eps == 1", "max_iter == 0"])
        ee = "proof { let a = iabs(x as int); assert forall|r: int| #[trigger] sroot(x as int, r) implies iabs(r) <= a && iabs(r) < 0x1_0000_0000 && (a <= 0x8000_0000_0000_0000 ==> iabs(r) <= 3037000499) && (a <= 0x8000_0000 ==> iabs(r) <= 46340) && (a <= 0x8000 ==> iabs(r) <= 181) && (a <= 0x80 ==> iabs(r) <= 11) && (a <= 0xff ==> iabs(r) <= 15) && (a <= 0xffff ==> iabs(r) <= 255) by { lemma_root_bits(a, iabs(r)); } }"
        e3 = "proof { let a = iabs(x as int); assert forall|r: int| #[trigger] scbroot(x as int, r) implies iabs(r) <= a && iabs(r) <= 2642245 && (a <= 0x8000 ==> iabs(r) <= 32) && (a < 0x1_0000 ==> iabs(r) <= 40) by { lemma_cbroot_bits(a, iabs(r)); } assert forall|r: int| #[trigger] is_cbroot(x as int, r) implies r <= x && r <= 2642245 && (x < 0x1_0000 ==> r <= 40) by { lemma_cbroot_bits(x as int, r); } }"
        d = dict(decreases="(if x < 0 { 1int } else { 0int })") if ll and sg else {}
        if ll:
            newton = dict(loops={0: dict(invariant=["x >= 2", "eps == 1", "q1 > 0", "above(x as int, q1 as int)", "q2 as int == x as int / q1 as int", "q2 >= 0", "q1 <= x", "q1 + q2 <= x as int / 2 + 3",
                                                    "nmeas(q1 as int, q2 as int) >= 0", "gk >= 0", "gk + nmeas(q1 as int, q2 as int) <= x as int / 2 + 2", "max_iter as int == (if gk == 0 { 0int } else { 0x1_0000_0000_0000_0000 - gk })"],
                                         ensures="q1 <= q2 + 1 && q2 <= q1 + 1" if False else None, decreases="nmeas(q1 as int, q2 as int)")},
                          hints={"L0.before": "let ghost mut gk: int = 0; proof { lemma_newton_start(x as int); lemma_sq_div(x as int, x as int / 2); }",
                                 "L0.begin": "proof { gk = gk + 1; lemma_newton_step(x as int, q1 as int, q2 as int); }",
                                 "L0.after": "proof { lemma_newton_exit(x as int, q1 as int, q2 as int); lemma_root_bits(x as int, (if q1 < q2 { q1 } else { q2 }) as int); }"})
            newton["loops"][0].pop("ensures")
        else:
            newton = dict(hints={})
        newton["hints"]["entry"] = ee + (" proof { assert(is_root(1, 1)) by(compute); assert(is_root(0, 0)) by(compute); }" if ll else "")
        cs.append(Contract("sqrtT_" + n, MM + "sqrtT", sig=S, params=["x", "eps", "max_iter"], requires=pr, ensures=["sroot(x as int, r as int)"], **newton, **d))
        cs.append(Contract("sqT_" + n, MM + "sqT", targs=[c], params=["x"], requires=["0 <= x as int * x as int <= %s::MAX" % t], ensures=["r as int == x as int * x as int"]))
        cs.append(Contract("is_square_" + n, MM + "is_square", targs=[c], params=["x"], requires=mn, ensures=["r == is_sq(x as int)"],
                           hints={"entry": "proof { assert forall|r: int| #[trigger] sroot(x as int, r) implies ((r * r == x) <==> is_sq(x as int)) && 0 <= r * r <= iabs(x as int) && r * r <= %s::MAX by { lemma_is_sq(x as int, r); if %s { lemma_sq_fit(x as int, r); } } }" % (t, "true" if sg else "false")}))
        spec = not ll and t not in ("i8", "u8")
        if spec:
            c3 = dict(hints={"entry": e3})
        else:
            c3 = dict(loops={0: dict(invariant=["x >= 2", "eps == 1", "cinv(x as int, r0 as int, r1 as int, r2 as int)", "0 <= r0 <= x", "gk >= 0", "gk + cmeas(x as int, r0 as int, r1 as int, r2 as int) <= 0x1_0000_0002", "max_iter as int == (if gk == 0 { 0int } else { 0x1_0000_0000_0000_0000 - gk })"],
                                      decreases="cmeas(x as int, r0 as int, r1 as int, r2 as int)")},
                      hints={"entry": e3 + " proof { assert(is_cbroot(1, 1)) by(compute); assert(is_cbroot(0, 0)) by(compute); }",
                             "use:sqrtT.after": "proof { lemma_cnewton_start(x as int, r1 as int); }",
                             "L0.before": "let ghost mut gk: int = 0;",
                             "L0.begin": "proof { gk = gk + 1; lemma_cnewton_step(x as int, r0 as int, r1 as int, r2 as int); }",
                             "L0.after": "proof { lemma_cnewton_exit(x as int, r0 as int, r1 as int, r2 as int); }"})
        mn3 = ["x > %s::MIN" % t] if sg and (t == "i64" or not spec) else []
        pr3 = mn3 + ([] if spec else ["eps == 1", "max_iter == 0"])
        d3 = d if spec else (dict(decreases="(if x < 0 { 1int } else { 0int })") if sg else {})
        cs.append(Contract("cbrtT_" + n, MM + "cbrtT", sig=S, params=["x", "eps", "max_iter"], requires=pr3, ensures=["scbroot(x as int, r as int)"], **c3, **d3))
        cs.append(Contract("cbT_" + n, MM + "cbT", targs=[c], params=["x"], requires=["%s::MIN <= cube(x as int) <= %s::MAX" % (t, t), "iabs(x as int) <= 2642245"], ensures=["r as int == cube(x as int)"],
                           hints={"entry": "proof { lemma_cbT_sq(x as int); lemma_sq_mono(iabs(x as int), 2642245); }"}))
        cs.append(Contract("is_cube_" + n, MM + "is_cube", targs=[c], params=["x"], requires=mn3, ensures=["r == is_cb(x as int)"],
                           hints={"entry": "proof { assert forall|r: int| #[trigger] scbroot(x as int, r) implies ((cube(r) == x) <==> is_cb(x as int)) && iabs(r) <= 2642245 && %s::MIN <= cube(r) <= %s::MAX by { lemma_cbroot_bits(iabs(x as int), iabs(r)); lemma_is_cb(x as int, r); lemma_cb_fit(x as int, r); } }" % (t, t)}))
    return cs


def tu(types=NT):
    o = []
    for t, c in types.items():
        o.append("inline {0} w_a({0} x) {{ return sqrtT<{0}>(x); }} inline bool w_b({0} x) {{ return is_square<{0}>(x); }} inline {0} w_c({0} x) {{ return cbrtT<{0}>(x); }} inline bool w_d({0} x) {{ return is_cube<{0}>(x); }}".format(c))
    return "namespace altruct { namespace math {\n%s\n}}\n" % "\n".join(o)


def units():
    inc = ["altruct/algorithm/math/base.h", "src/algorithm/math/base.cpp"]
    u = Unit("roots", inc, tu(), core() + generic(NT), SPEC)
    v = Unit("rootsll", inc, tu(LL), core() + generic(LL, True), SPEC)
    return [fp.setup(u), fp.setup(v)]
