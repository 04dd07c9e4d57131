"""bounded random numbers and the xorshift generators (random.h, xorshift.h)"""
from unit import Unit, Contract
NT = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
BITS = {t: int(t[1:]) for t in NT}
R = "altruct::random::"
SPEC = r"""
/// number of integers in [min, max]
pub open spec fn width(min: int, max: int) -> int { max - min + 1 }
/// outputs of the generator behind `next`, by call number (any sequence whatsoever)
pub uninterp spec fn stream(k: int) -> int;
pub struct Gen { pub k: Ghost<int> }
/// output accepted by the rejection rule for an interval of width w over 2^L values
pub open spec fn accepted(v: int, w: int, full: int) -> bool { v < full - full % w }
/// r comes from the first accepted output, or from the 20th
pub open spec fn drawn(r: int, k0: int, k1: int, min: int, w: int, full: int) -> bool {
    k0 < k1 <= k0 + 20 && r == min + stream(k1 - 1) % w && (forall|i: int| k0 <= i < k1 - 1 ==> !#[trigger] accepted(stream(i), w, full)) && (accepted(stream(k1 - 1), w, full) || k1 == k0 + 20)
}
pub proof fn lemma_mult(w: int, full: int) requires 1 <= w <= full, ensures (full - (full - w) % w) == full - full % w, full - full % w > 0, 0 <= (full - w) % w < w
{ vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(full, w); assert(full % w < w); }
/// the documented recurrence of xorshift64*
pub open spec fn xs64(x: u64) -> u64 { let a = x ^ (x >> 12u64); let b = a ^ (a << 25u64); b ^ (b >> 27u64) }
pub open spec fn xs64_out(x: u64) -> int { (x * 2685821657736338717int) % 0x1_0000_0000_0000_0000 }
/// n steps of the recurrence
pub open spec fn xs64_n(x: u64, n: nat) -> u64 decreases n { if n == 0 { x } else { xs64(xs64_n(x, (n - 1) as nat)) } }
/// the documented recurrence of xorshift1024*
pub open spec fn xs1024(s0: u64, s1: u64) -> u64 { let a = s1 ^ (s1 << 31u64); let b = a ^ (a >> 11u64); let c = s0 ^ (s0 >> 30u64); c ^ b }
""" + "".join("""
#[verifier::external_body] pub fn gcall_{t}(g: &mut Gen) -> (r: {t}) ensures r == stream(old(g).k@), final(g).k@ == old(g).k@ + 1, 0 <= stream(old(g).k@) <= {t}::MAX {{ 0 }}
""".format(t=t) for t in NT if t[0] == "u")


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator()" and obj is not None:
            s = tr.strip_callee(obj)
            t = s["type"].get("desugaredQualType", s["type"]["qualType"])
            for r, c in NT.items():
                if t.replace("const ", "").replace("std::__1::", "std::").startswith("std::function<%s (" % c) or ("function<%s (" % c) in t:
                    return "gcall_%s(g)" % r
        return None


def units():
    cs, tu = [], "namespace altruct { namespace random {\n"
    for ut, uc in NT.items():
        if ut[0] != "u":
            continue
        F = "%dint" % (2 ** BITS[ut])
        for vt, vc in NT.items():
            tu += "template {v} integer_to_range<{u}, {v}>({u}, {v}, {v});\n".format(u=uc, v=vc)
            cs.append(Contract("range_%s_%s" % (ut, vt), R + "integer_to_range", targs=[uc, vc], params=["val", "min", "max"], requires=["min <= max"],
                               ensures=["min <= r <= max", "width(min as int, max as int) < %sint ==> r == min + val as int %% width(min as int, max as int)" % (2 ** BITS[vt])] + (["width(min as int, max as int) == %sint ==> r == val as int %% %sint" % (2 ** BITS[vt], 2 ** BITS[vt])] if vt[0] == "u" else [])))
        cs.append(Contract("neg_" + ut, R + "neg", targs=[uc], params=["val"], ensures=["val == 0 ==> r == 0", "val > 0 ==> r == %s - val" % F]))
        cs.append(Contract("big_" + ut, R + "biggest_multiple", targs=[uc], params=["width"], ensures=["width == 0 ==> r == 0", "width > 0 ==> r == ({0} - {0} % (width as int)) % {0}".format(F)],
                           hints={"entry": "proof { if width > 0 { lemma_mult(width as int, %s); } }" % F}))
        tu += "template {u} neg<{u}>(const {u}&); template {u} biggest_multiple<{u}>({u}); template {u} uniform_next<{u}>(std::function<{u}(void)>, {u}, {u});\n".format(u=uc)
        cs.append(Contract("uniform_" + ut, R + "uniform_next", targs=[uc], params=["next", "min", "max"], extra=["g: &mut Gen"], requires=["min <= max"],
                           ensures=["min <= r <= max", "drawn(r as int, old(g).k@, final(g).k@, min as int, width(min as int, max as int), %s)" % F],
                           hints={"entry": "let ghost w = width(min as int, max as int); proof { lemma_mult(w, %s); } let ghost k0 = g.k@;" % F,
                                  "L0.after": "proof { assert(val == stream(g.k@ - 1)); if w == %s { assert(val as int %% w == val); } }" % F},
                           loops={0: dict(invariant_except_break=["0 <= iter < 20", "g.k@ == k0 + iter", "forall|i: int| k0 <= i < g.k@ ==> !#[trigger] accepted(stream(i), w, %s)" % F],
                                          invariant=["multiple == (if w == {0} {{ 0 }} else {{ ({0} - {0} % w) % {0} }})".format(F)],
                                          ensures=["k0 < g.k@ <= k0 + 20", "val == stream(g.k@ - 1)", "forall|i: int| k0 <= i < g.k@ - 1 ==> !#[trigger] accepted(stream(i), w, %s)" % F, "accepted(stream(g.k@ - 1), w, %s) || g.k@ == k0 + 20" % F],
                                          decreases="20 - iter")}, attrs=["#[verifier::allow_complex_invariants]"]))
    tu += "}}\n"
    u = Unit("rnd", ["altruct/algorithm/random/random.h"], tu, cs, SPEC)
    u.hooks.append(Hook())
    for c in NT.values():
        for p in ("std::", "std::__1::", ""):
            u.type_map["%sfunction<%s ()>" % (p, c)] = "()"; u.type_map["%sfunction<%s (void)>" % (p, c)] = "()"
    X = "altruct::random::xorshift_64star::"
    Y = "altruct::random::xorshift_1024star::"
    nparm = lambda k: (lambda f: len([x for x in f["inner"] if x.get("kind") == "ParmVarDecl"]) == k)
    OX, FX = "old(self_)", "final(self_)"
    st = ["final(self_).x_ == xs64(old(self_).x_)"]
    cs = [
        Contract("range_u64_u64", R + "integer_to_range", targs=["unsigned long", "unsigned long"], params=["val", "min", "max"], requires=["min <= max"],
                 ensures=["min <= r <= max", "width(min as int, max as int) < 0x1_0000_0000_0000_0000 ==> r == min + val as int % width(min as int, max as int)", "width(min as int, max as int) == 0x1_0000_0000_0000_0000 ==> r == val"]),
        Contract("x64_seed", X + "seed", params=["state"], ensures=["final(self_).x_ == state"]),
        Contract("x64_new", R + "x64_new", params=["state"], ensures=["r.x_ == state"]),
        Contract("x64_next", X + "next", pred=nparm(0), params=[], ensures=st + ["r == xs64_out(final(self_).x_)"], bits=True),
        Contract("x64_op", X + "operator()", pred=nparm(0), params=[], ensures=st + ["r == xs64_out(final(self_).x_)"]),
        Contract("x64_range", X + "next", pred=nparm(2), params=["min", "max"], requires=["min <= max"], ensures=st + ["min <= r <= max", "width(min as int, max as int) < 0x1_0000_0000_0000_0000 ==> r == min + xs64_out(final(self_).x_) % width(min as int, max as int)"]),
        Contract("x1k_seed", Y + "seed", sig="void (uint64_t)", params=["state64"], ensures=["final(self_).wf()", "final(self_).p_ == 0", "forall|i: int| 0 <= i < 16 ==> #[trigger] final(self_).s_@[i] == xs64_out(xs64_n(state64, (i + 1) as nat))"],
                 loops={0: dict(invariant=["0 <= i <= 16", "self_.s_@.len() == 16", "xs64.x_ == xs64_n(state64, i as nat)", "forall|j: int| 0 <= j < i ==> #[trigger] self_.s_@[j] == xs64_out(xs64_n(state64, (j + 1) as nat))"], decreases="16 - i")}),
        Contract("x1k_next", Y + "next", pred=nparm(0), params=[], requires=["old(self_).wf()"],
                 ensures=["final(self_).wf()", "final(self_).p_ == (old(self_).p_ + 1) % 16", "final(self_).s_@ == old(self_).s_@.update(final(self_).p_ as int, xs1024(old(self_).s_@[old(self_).p_ as int], old(self_).s_@[final(self_).p_ as int]))",
                          "r == (final(self_).s_@[final(self_).p_ as int] * 1181783497276652981int) % 0x1_0000_0000_0000_0000"], bits=True,
                 hints={"entry": "proof { assert(forall|v: i32| 1 <= v <= 16 ==> #[trigger] (v & 15i32) == (if v == 16 { 0i32 } else { v })) by (bit_vector); }"}),
        Contract("x1k_range", Y + "next", pred=nparm(2), params=["min", "max"], requires=["old(self_).wf()", "min <= max"], ensures=["final(self_).wf()", "min <= r <= max"]),
    ]
    tu = "namespace altruct { namespace random { inline xorshift_64star x64_new(uint64_t state) { return xorshift_64star(state); } inline void use(xorshift_64star& x, xorshift_1024star& y) { x.seed(1); x.next(); x(); x.next(1, 2); y.seed(uint64_t(1)); y.next(); y.next(1, 2); } }}\n"
    v = Unit("xorshift", ["altruct/algorithm/random/xorshift.h"], tu, cs, SPEC + "impl Xorshift_1024star { pub open spec fn wf(self) -> bool { self.s_@.len() == 16 && 0 <= self.p_ < 16 } }\n")
    return [u, v]
