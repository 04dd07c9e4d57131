"""Floating point as an opaque type: only the sign is tracked; a value converted to an integer type is assumed to be in range."""
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { v: f64 }
/// the value is known to be non-negative (and not NaN)
pub uninterp spec fn nn(x: F64) -> bool;
#[verifier::external_body]
pub fn f64_lit() -> (r: F64) ensures nn(r) { F64 { v: 0.0 } }
#[verifier::external_body]
pub fn f64_add(a: F64, b: F64) -> (r: F64) ensures nn(a) && nn(b) ==> nn(r) { a }
#[verifier::external_body]
pub fn f64_sub(a: F64, b: F64) -> (r: F64) { a }
#[verifier::external_body]
pub fn f64_mul(a: F64, b: F64) -> (r: F64) ensures nn(a) && nn(b) ==> nn(r) { a }
#[verifier::external_body]
pub fn f64_div(a: F64, b: F64) -> (r: F64) ensures nn(a) && nn(b) ==> nn(r) { a }
#[verifier::external_body]
pub fn f64_pow(a: F64, b: F64) -> (r: F64) ensures nn(a) ==> nn(r) { a }
"""
TRUSTED = ["floating point is opaque: sqrt/cbrt/pow/floor/ceil/round of non-negative values, their sums, products and quotients, and conversions from non-negative integers are assumed non-negative",
           "a non-negative floating point value converted to an integer type is assumed to be in that type's range (the value itself is arbitrary)"]


class Lit:
    def float_literal(self, e):
        return "f64_lit()" if not str(e.get("value", "")).startswith("-") else "f64_sub(f64_lit(), f64_lit())"


def setup(u):
    u.hooks.append(Lit())
    s = SPEC
    for n in ("sqrt", "cbrt", "floor", "ceil", "round", "trunc"):
        s += "#[verifier::external_body]\npub fn f64_%s(a: F64) -> (r: F64) ensures nn(a) ==> nn(r) { a }\n" % n
        u.externs[n] = "f64_" + n
    u.externs["pow"] = "f64_pow"
    for t in ("i32", "u32", "i64", "u64"):
        s += "#[verifier::external_body]\npub fn f64_from_%s(x: %s) -> (r: F64) ensures x >= 0 ==> nn(r) { F64 { v: x as f64 } }\n" % (t, t)
        s += "#[verifier::external_body]\npub fn f64_to_%s(a: F64) -> (r: %s) requires nn(a), ensures r >= 0 { a.v as %s }\n" % (t, t, t)
        u.convs[(t, "F64")] = "f64_from_" + t
        u.convs[("F64", t)] = "f64_to_" + t
    for t in ("double", "float", "long double"):
        u.type_map[t] = "F64"
    u.copy_types.add("F64")
    for o, n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div")):
        u.floatops[(o, "F64")] = "f64_" + n
    u.specs = s + u.specs
    u.trusted += TRUSTED
    return u
