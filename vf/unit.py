"""A verification unit: one C++ TU with instantiations + contracts -> one Verus file."""
import os, re, json, hashlib
import astindex
from astindex import ExtractError, REPO
from translate import Translator, cxx_type, split_targs, INT, RUSTINT, Bind
import prelude


class Contract:
    def __init__(self, rust, qual, sig=None, targs=None, params=None, modes=None, requires=(), ensures=(), decreases=None,
                 loops=None, hints=None, ret="r", ret_type=None, unsigned="wrap", bits=False, attrs=(), pred=None,
                 rename_locals=None, file=None, rlimit=None, isolation=False, assumed=False, variants=None, wrapper=None,
                 tparams="", extra=(), ret_mut=False, throws=False, ret_alias=None):
        self.ret_alias = ret_alias                       # the C++ function returns a reference to this parameter
        self.ret_mut, self.throws = ret_mut, throws      # returns a C++ reference; "throws": the throw statement may be reached
        self.extra = list(extra)
        self.rust, self.qual, self.sig, self.targs, self.params = rust, qual, sig, targs, params
        self.modes = modes or {}
        self.requires, self.ensures = self._l(requires), self._l(ensures)
        self.decreases = decreases
        self.loops = loops or {}
        if isinstance(self.loops, (list, tuple)):
            self.loops = dict(enumerate(self.loops))
        self.hints = hints or {}
        self.ret, self.ret_type = ret, ret_type
        self.unsigned, self.bits, self.attrs, self.pred = unsigned, bits, list(attrs), pred
        self.rename_locals = rename_locals or {}
        self.rename = {}
        self.rlimit, self.isolation = rlimit, isolation
        self.assumed = assumed
        self.tparams = tparams
        self.fn = None

    @staticmethod
    def _l(x):
        return [x] if isinstance(x, str) else list(x)


class Unit:
    """name; includes: list of headers; tu: C++ text with the instantiations; contracts; specs: Verus spec/proof text"""

    def __init__(self, name, includes, tu, contracts, specs="", types=None, extra_flags=(), funcs=None):
        self.name, self.includes, self.tu = name, includes, tu
        self.contracts, self.specs = contracts, specs
        self.type_map = dict(types or {})        # C++ base type string (or regex) -> rust type
        self.type_alias = []
        self.copy_types = set()
        self.structs = {}
        self.externs = {}
        self.convs = {}
        self.floatops = {}
        self.functors = {}                       # C++ callable type or member name -> rust function
        self.hooks = []
        self.arbs = {}
        self.zeros = {}
        self.enum_vals = {}
        self.globals = {}
        self.ast_specs = []                      # callables (unit with .ix loaded) -> specification text read off the AST
        self.ast_text = ""
        self.no_termination = set()
        self.inlined = set()
        self.struct_same = set()
        self.struct_over = {}
        self.extra_flags = list(extra_flags)
        self.lib = funcs or []
        self.trusted = []

    # ------------------------------------------------------------ types
    def rust_type(self, base):
        base = base.strip()
        for k, v in self.type_alias:
            base = re.sub(k, v, base)
        for k, v in self.type_map.items():
            if base == k or (k.startswith("^") and re.match(k, base)):
                return v
        if base == "bool":
            return "bool"
        if re.match(r"^(const )?(std::__1::|std::)?__bit_(const_)?reference<", base):
            return "bool"
        if base in INT:
            return INT[base]
        b = base
        for p in ("std::__1::", "std::"):
            if b.startswith(p):
                b = b[len(p):]
        m = re.match(r"^vector<(.*)>$", b)
        if m:
            et = self.rust_type(cxx_type(split_targs(m.group(1))[0])[0])
            return "Vec<%s>" % et
        if b == "string" or b.startswith("basic_string<char"):
            return "Vec<i8>"
        m = re.match(r"^unordered_map<(.*)>$", b)
        if m:
            a = [self.rust_type(cxx_type(x)[0]) for x in split_targs(m.group(1))[:2]]
            return "UMap<%s, %s>" % tuple(a)
        m = re.match(r"^array<(.*)>$", b)
        if m:
            a = split_targs(m.group(1))
            n = re.match(r"^(\d+)(?:U?L*)$", a[1])
            if n:
                return "[%s; %s]" % (self.rust_type(cxx_type(a[0])[0]), n.group(1))
        m = re.match(r"^pair<(.*)>$", b)
        if m:
            a = [self.rust_type(cxx_type(x)[0]) for x in split_targs(m.group(1))[:2]]
            return "(%s, %s)" % tuple(a)
        if "::value_type" in base or "reference" in base or "::size_type" in base:
            m = re.match(r"^.*vector<(.*)>::(size_type|difference_type)$", base)
            if m:
                return "u64" if m.group(2) == "size_type" else "i64"
            m = re.match(r"^(?:std::__1::|std::)?(vector<.*>)::(value_type|const_reference|reference)$", base)
            if m:
                return self.rust_type(m.group(1))[4:-1]
        m = re.match(r"^(.*)\[(\d+)\]$", base)
        if m:
            return "[%s; %s]" % (self.rust_type(m.group(1)), m.group(2))
        d = self.find_class(base)
        if d is not None:
            return self.struct_for(d)
        if base in self.enum_names():
            return "i32"
        raise ExtractError("type %s" % base)

    def is_copy(self, rt):
        if rt in RUSTINT or rt in ("bool", "()") or rt in self.copy_types:
            return True
        if rt.startswith("Vec<"):
            return False
        if rt.startswith("("):
            return all(self.is_copy(x) for x in split_targs(rt[1:-1]))
        if rt.startswith("["):
            return self.is_copy(rt[1:rt.rindex(";")])
        if rt in self.structs:
            return self.structs[rt]["copy"]
        return False

    def zero(self, rt):
        if rt in self.zeros:
            return self.zeros[rt]
        if rt in RUSTINT:
            return "0" + rt
        if rt == "bool":
            return "false"
        if rt.startswith("Vec<"):
            return "Vec::new()"
        if rt.startswith("UMap<"):
            return "UMap::new()"
        if rt.startswith("("):
            return "(%s)" % ", ".join(self.zero(x) for x in split_targs(rt[1:-1]))
        raise ExtractError("zero value of " + rt)

    def arbitrary(self, rt):
        if rt in self.arbs:
            return self.arbs[rt]
        if rt in RUSTINT or rt == "bool":
            return "any_%s()" % rt
        if rt.startswith("Vec<"):
            return "Vec::new()"
        if rt.startswith("UMap<"):
            return "UMap::new()"
        if rt.startswith("("):
            return "(%s)" % ", ".join(self.arbitrary(x) for x in split_targs(rt[1:-1]))
        m = re.match(r"^\[(.*); (\d+)\]$", rt)
        if m:
            return "[%s]" % ", ".join([self.arbitrary(m.group(1))] * int(m.group(2)))
        if rt in self.structs:
            st = self.structs[rt]
            if st.get("default"):
                return st["default"]
            return "%s { %s }" % (rt, ", ".join("%s: %s" % (f, self.arbitrary(t)) for f, t in st["fields"]))
        if rt in self.copy_types:
            return "any_%s()" % rt
        raise ExtractError("arbitrary value of " + rt)

    def enum_names(self):
        if not hasattr(self.ix, "_enums"):
            self.ix._enums = {self.ix.qual[i] for i, d in self.ix.byid.items() if d.get("kind") == "EnumDecl" and i in self.ix.qual}
        return self.ix._enums

    # ------------------------------------------------------------ classes
    def find_class(self, base):
        b = base.replace(" ", "")
        for p in ("altruct::",):
            pass
        for nid, q in self.ix.qual.items():
            d = self.ix.byid.get(nid)
            if d is None or d["kind"] not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") or not d.get("completeDefinition"):
                continue
            qq = q.replace(" ", "")
            if qq == b or qq.endswith("::" + b) or b.endswith("::" + qq):
                if d["kind"] == "CXXRecordDecl":
                    par = self.ix.parent.get(nid)
                    if par is not None and par["kind"] == "ClassTemplateDecl":
                        continue
                return d
        return None

    def struct_for(self, decl):
        q = self.ix.qual[decl["id"]]
        name = re.sub(r"altruct::(\w+::)*", "", q)
        name = re.sub(r"[^A-Za-z0-9]+", "_", name).strip("_")
        name = name[0].upper() + name[1:]
        if name in self.struct_same:  # a derived class without members of its own
            assert len(decl.get("bases", [])) == 1 and not any(c.get("kind") == "FieldDecl" for c in decl.get("inner", []))
            return self.rust_type(cxx_type(decl["bases"][0]["type"].get("desugaredQualType", decl["bases"][0]["type"]["qualType"]))[0])
        if name in self.structs:
            return name
        self.structs[name] = {"decl": decl, "fields": [], "copy": True}
        fields = []
        self.collect_fields(decl, fields)
        ov = self.struct_over.get(name, {})
        fl = []
        for fname, ftype in fields:
            if fname in ov.get("drop", ()):
                continue
            fn = Translator.field(None, fname)
            if fname in ov.get("types", {}):
                fl.append((fn, ov["types"][fname]))
            else:
                fl.append((fn, self.rust_type(cxx_type(ftype)[0])))
        self.structs[name]["fields"] = fl
        self.structs[name]["copy"] = ov.get("copy", all(self.is_copy(t) for _, t in fl))
        self.structs[name]["default"] = ov.get("default")
        return name

    def collect_fields(self, decl, out):
        for b in decl.get("bases", []):
            t = b["type"].get("desugaredQualType", b["type"]["qualType"])
            d = self.find_class(cxx_type(t)[0])
            if d is not None:
                self.collect_fields(d, out)
        for c in decl.get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append((c["name"], c["type"].get("desugaredQualType", c["type"]["qualType"])))

    def class_of(self, fn):
        p = self.ix.parent.get(fn["id"])
        while p is not None and p["kind"] not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            p = self.ix.parent.get(p.get("id"))
        return p

    def find_ctor(self, cls, e, args):
        want = e.get("ctorType", {}).get("qualType")
        want = want and re.sub(r"std::__wrap_iter<([^<>]*)>", r"\1", want)  # our <vector>: an alias of the pointer type
        cands = []
        def scan(d):
            for c in d.get("inner", []):
                if c.get("kind") == "CXXConstructorDecl":
                    cands.append(c)
                elif c.get("kind") == "FunctionTemplateDecl":
                    for cc in c.get("inner", []):
                        if cc.get("kind") == "CXXConstructorDecl" and any(x.get("kind") == "TemplateArgument" for x in cc.get("inner", [])):
                            cands.append(cc)
        scan(cls)
        for c in cands:
            c2 = self.ix.byid.get(c["id"], c)
            if c2["type"]["qualType"] == want and (self.ix.has_body(c2) or any(x.get("kind") == "CXXCtorInitializer" for x in c2.get("inner", []))):
                return c2
        return None

    def base_decl(self, ini, be):
        t = be["type"].get("desugaredQualType", be["type"]["qualType"])
        d = self.find_class(cxx_type(t)[0])
        if d is None:
            raise ExtractError("base class " + t)
        return d

    def default_init(self, rt, f):
        for c in self.structs[rt]["decl"].get("inner", []):
            if c.get("kind") == "FieldDecl" and Translator.field(None, c["name"]) == f and c.get("inner"):
                return c["inner"][0]
        raise ExtractError("default member initialiser")

    # ------------------------------------------------------------ hooks (overridable by contract modules)
    def ptr_field(self, tr, e):
        for h in self.hooks:
            if hasattr(h, "ptr_field"):
                r = h.ptr_field(tr, e)
                if r is not None:
                    return r
        return None

    def member_hook(self, tr, e, base):
        for h in self.hooks:
            if hasattr(h, "member"):
                r = h.member(tr, e, base)
                if r is not None:
                    return r
        return None

    def call_hook(self, tr, e, name, obj, args, fdef, stmt):
        for h in self.hooks:
            if hasattr(h, "call"):
                r = h.call(tr, e, name, obj, args, fdef, stmt)
                if r is not None:
                    return r
        return None

    def construct_hook(self, tr, e, rt, args):
        for h in self.hooks:
            if hasattr(h, "construct"):
                r = h.construct(tr, e, rt, args)
                if r is not None:
                    return r
        return None

    def functor(self, tr, obj):
        """rust function for a call through the callable object expression"""
        s = tr.strip_callee(obj)
        if s["kind"] == "MemberExpr" and s.get("name") in self.functors:
            return self.functors[s["name"]]
        try:
            t = s["type"].get("desugaredQualType", s["type"]["qualType"])
        except KeyError:
            return None
        b = cxx_type(t)[0]
        return self.functors.get(b)

    def functor_value(self, tr, a):
        """a (stateless) functor object or function passed as an argument"""
        s = tr.strip_callee(a)
        t = s.get("type", {})
        b = cxx_type(t.get("desugaredQualType", t.get("qualType", "")))[0]
        if b in self.functors:
            return self.functors[b]
        if s["kind"] == "DeclRefExpr" and s["referencedDecl"]["kind"] == "FunctionDecl":
            f = self.functors.get(s["referencedDecl"]["name"])
            if f:
                return f
        return None

    def enum_const(self, rd):
        d = self.ix.byid.get(rd["id"])
        if d is not None:
            for c in d.get("inner", []):
                if "value" in c:
                    return "%si32" % c["value"]
        # position in its enum
        for nid, n in self.ix.byid.items():
            if n.get("kind") == "EnumDecl":
                v = -1
                for c in n.get("inner", []):
                    if c.get("kind") == "EnumConstantDecl":
                        v += 1
                        for x in c.get("inner", []):
                            if "value" in x:
                                v = int(x["value"])
                        if c["id"] == rd["id"]:
                            return "%di32" % v
        raise ExtractError("enum constant " + rd.get("name", ""))

    def table(self, name, rt, n):
        """spec function with the initial contents of a global array, read from its declaration"""
        for d in self.ix.byid.values():
            if d.get("kind") == "VarDecl" and d.get("name") == name:
                m = re.search(r"\[(\d+)\]$", d["type"].get("desugaredQualType", d["type"]["qualType"]))
                if not m:
                    continue
                vals = []
                def lit(e):
                    while e.get("kind") not in ("IntegerLiteral",):
                        if e.get("kind") == "ImplicitValueInitExpr":
                            return 0
                        k = [c for c in e.get("inner", []) if isinstance(c, dict) and c.get("kind")]
                        v = e.get("opcode")
                        if v == "-":
                            return -lit(k[0])
                        e = k[-1]
                    return int(e["value"])
                for c in d.get("inner", []):
                    if c.get("kind") == "InitListExpr":
                        vals = [lit(x) for x in c.get("inner", c.get("array_filler", []))]
                size = int(m.group(1))
                if not vals:
                    return "pub open spec fn %s() -> Seq<%s> { Seq::new(%d, |i: int| 0) }" % (n, rt, size)
                vals += [0] * (size - len(vals))
                return "pub open spec fn %s() -> Seq<%s> { seq![%s] }" % (n, rt, ", ".join("%d%s" % (v, rt) for v in vals))
        return "pub uninterp spec fn %s() -> Seq<%s>;" % (n, rt)

    def global_place(self, rd):
        return self.globals.get(rd.get("name"))

    def float_literal(self, e):
        for h in self.hooks:
            if hasattr(h, "float_literal"):
                return h.float_literal(e)
        raise ExtractError("floating point literal")

    # ------------------------------------------------------------ sources
    def annotate_lines(self, docs):
        pass

    def source_text(self, node):
        r = node.get("range")
        if not r:
            return ""
        b, e = r["begin"], r["end"]
        f = node.get("_file")
        if "offset" not in b or "offset" not in e or not f:
            return ""
        t = self.files.get(f)
        if t is None:
            try:
                t = open(f, errors="replace", newline="").read()
            except OSError:
                t = ""
            self.files[f] = t
        return t[b["offset"]:e["offset"] + e.get("tokLen", 0)]

    # ------------------------------------------------------------ contracts
    def contract_for(self, fdef, tr, args):
        cs = self.by_id.get(fdef["id"])
        if not cs:
            return None
        if len(cs) == 1 and not any(m == "null" for m in cs[0].modes.values()):
            # still check nullness
            pass
        ps = self.ix.params(fdef)
        nulls = set()
        for i, p in enumerate(ps):
            t = p["type"].get("desugaredQualType", p["type"]["qualType"])
            base, ref, rref, ptr, const = cxx_type(t)
            if ptr and not ref:
                a = args[i] if i < len(args) else None
                if a is None or a["kind"] == "CXXDefaultArgExpr":
                    a = tr.default_arg(fdef, i)
                b, _ = tr.ptr(a)
                if b is None:
                    nulls.add(i)
        for c in cs:
            want = {i for i, p in enumerate(ps) if c.modes.get(c.params[i] if c.params else p.get("name")) == "null"}
            if want == nulls:
                return c
        return None

    def build(self, workdir, vac=False):
        os.makedirs(workdir, exist_ok=True)
        tu = os.path.join(workdir, self.name + ".cpp")
        with open(tu, "w") as f:
            f.write("".join('#include "%s"\n' % i for i in self.includes) + self.tu)
        self.files = {}
        self.ix = astindex.load(tu, self.extra_flags)
        self.ast_text = "\n".join(f(self) for f in self.ast_specs)
        self.by_id = {}
        for c in self.contracts:
            c.fn = None
            fs = self.ix.find(c.qual, c.sig, c.targs, c.pred)
            if len(fs) != 1:
                c.error = "function not found" if not fs else "%d candidates: %s" % (len(fs), [f["type"]["qualType"] for f in fs])
                continue
            c.error = None
            c.fn = fs[0]
            self.by_id.setdefault(c.fn["id"], []).append(c)
        self.functions = []
        bodies = []
        self.report = {}
        for c in self.contracts:
            if c.fn is None:
                self.report[c.rust] = {"status": "missing", "error": c.error, "qual": c.qual}
                continue
            try:
                tr = Translator(self, c, c.fn)
                sig, rett, lines = tr.translate()
                unused = set(c.hints) - tr.hint_used
                missing_loops = set(c.loops) - set(tr.loops_seen)
                bodies.append((c, sig, rett, lines, tr))
                self.report[c.rust] = {"status": "extracted", "qual": c.qual, "type": c.fn["type"]["qualType"],
                                       "loops": len(tr.loops_seen), "unused_hints": sorted(unused),
                                       "missing_loops": sorted(missing_loops), "locals": tr.locals,
                                       "file": c.fn.get("_file"), "line": c.fn.get("_line"),
                                       "literals": sorted(tr.literals)}
            except ExtractError as ex:
                self.report[c.rust] = {"status": "unsupported", "error": str(ex), "qual": c.qual}
                # keep the contract available to callers as an (unproved) assumption
        return bodies

    def emit(self, bodies, vac=False):
        o = ["#![allow(unused_imports, unused_variables, unused_mut, unused_parens, dead_code, non_snake_case, unused_assignments, unreachable_code, non_camel_case_types)]",
             "use vstd::prelude::*;", "use vstd::arithmetic::power2::*;", "use vstd::arithmetic::power::*;",
             "use vstd::arithmetic::div_mod::*;", "use vstd::arithmetic::mul::*;", "use vstd::seq_lib::*;", "use vstd::multiset::*;",
             "verus! {", prelude.prelude()]
        for n, s in self.structs.items():
            if s.get("opaque"):
                continue
            if s["copy"]:
                o.append("#[derive(Clone, Copy)]")
            o.append("pub struct %s { %s }" % (n, ", ".join("pub %s: %s" % f for f in s["fields"])))
        o.append(self.specs)
        if self.ast_text:
            o.append(self.ast_text)
        done = set()
        self.ranges = []
        for c, sig, rett, lines, tr in bodies:
            done.add(c.rust)
            o.append(self.fn_text(c, sig, rett, lines))
        for c in self.contracts:
            if c.rust not in done and c.fn is not None and not vac:
                t = self.stub_text(c)
                if t:
                    o.append(t)
        if vac:
            for c, sig, rett, lines, tr in bodies:
                o.append(self.vac_text(c, sig, rett, lines))
        o.append("fn main() {}\n} // verus!\n")
        return "\n".join(o)

    def head(self, c, sig, rett, name=None, ens=True, extra_ens=()):
        o = []
        for a in c.attrs:
            o.append(a)
        if not c.isolation:
            o.append("#[verifier::loop_isolation(false)]")
        if c.rlimit:
            o.append("#[verifier::rlimit(%s)]" % c.rlimit)
        r = "" if rett == "()" else " -> (%s: %s)" % (c.ret, rett)
        o.append("pub fn %s%s(%s)%s" % (name or c.rust, c.tparams, ", ".join(sig), r))
        if c.requires:
            o.append("    requires\n" + "".join("        (%s),\n" % x for x in c.requires))
        e = (c.ensures if ens else []) + list(extra_ens)
        if e:
            o.append("    ensures\n" + "".join("        (%s),\n" % x for x in e))
        if c.decreases:
            o.append("    decreases %s," % c.decreases)
        return o

    def fn_text(self, c, sig, rett, lines):
        o = ["// ---- FUNCTION %s  <=  %s [%s]" % (c.rust, c.qual, c.fn["type"]["qualType"])]
        h = self.head(c, sig, rett)
        if self.recursive(c, lines) and not c.decreases:
            o.append("#[verifier::exec_allows_no_decreases_clause]")
            self.no_termination.add(c.rust)
        return "\n".join(o + h + ["{"] + lines + ["}", ""])

    def recursive(self, c, lines):
        return any(re.search(r"\b%s\(" % re.escape(c.rust), l) for l in lines)

    def stub_text(self, c):
        """callee whose body could not be extracted this time: contract assumed, reported as not proved"""
        try:
            tr = Translator(self, c, c.fn)
            sig = None
            body = {"kind": "CompoundStmt", "inner": []}
            fn2 = dict(c.fn)
            fn2["inner"] = [x for x in c.fn["inner"] if x.get("kind") != "CompoundStmt"] + [body]
            tr.fn = fn2
            hints, c.hints = c.hints, {}
            try:
                sig, rett, lines = tr.translate()
            finally:
                c.hints = hints
        except ExtractError:
            return None
        return "\n".join(["// ---- STUB " + c.rust, "#[verifier::external_body]"] + [x for x in self.head(c, sig, rett) if "loop_isolation" not in x]
                         + ["{ unimplemented!() }", ""])

    def vac_text(self, c, sig, rett, lines):
        """must fail: is the precondition (with all axioms in scope) satisfiable and an exit reachable?"""
        c2 = c
        h = self.head(c, sig, rett, name=c.rust + "__vac", ens=False, extra_ens=["false"])
        o = ["// ---- VAC %s" % c.rust]
        if self.recursive(c, lines) and not c.decreases:
            o.append("#[verifier::exec_allows_no_decreases_clause]")
        # keep decreases only when recursive calls go to the original
        h = [x for x in h if not (x.startswith("    decreases") )] if True else h
        ls = lines
        return "\n".join(o + h + ["{"] + ls + ["}", ""])
