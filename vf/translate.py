"""Mechanical translation of instantiated C++ functions (clang AST) into Verus exec functions.

The bodies come from /repo's current source on every run; requires/ensures/invariants/hints are spliced in from
/verif/contracts.  Anything outside the supported subset raises ExtractError."""
import re
from astindex import ExtractError, FUNCS

INT = {"bool": None, "char": "i8", "signed char": "i8", "unsigned char": "u8", "short": "i16", "unsigned short": "u16",
       "int": "i32", "unsigned int": "u32", "long": "i64", "unsigned long": "u64", "long long": "i64",
       "unsigned long long": "u64", "__int128": "i128", "unsigned __int128": "u128", "unsigned": "u32",
       "int8_t": "i8", "uint8_t": "u8", "int16_t": "i16", "uint16_t": "u16", "int32_t": "i32", "uint32_t": "u32",
       "int64_t": "i64", "uint64_t": "u64", "size_t": "u64", "ptrdiff_t": "i64", "std::size_t": "u64"}
RUSTINT = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"}
WIDTH = {t: int(t[1:]) for t in RUSTINT}
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref "
               "return self Self static struct super trait true type unsafe use where while async await dyn abstract become "
               "box do final macro override priv typeof unsized virtual yield try spec proof exec open closed tracked ghost "
               "int nat forall exists choose assert assume requires ensures invariant decreases is has old".split())


def cxx_type(t):
    """(base string without cv/ref/ptr, is_ref, is_rvalue_ref, ptr depth, const_pointee)"""
    s = t.strip()
    ref = rref = False
    if s.endswith("&&"):
        rref, s = True, s[:-2].strip()
    elif s.endswith("&"):
        ref, s = True, s[:-1].strip()
    ptr, const = 0, False
    while True:
        s0 = s
        if s.endswith("*const"):
            s = s[:-5].strip()
        if s.endswith("*"):
            ptr += 1
            s = s[:-1].strip()
        if s.endswith(" const"):
            s, const = s[:-6].strip(), True
        if s.startswith("const "):
            s, const = s[6:].strip(), True
        if s.startswith("volatile "):
            s = s[9:].strip()
        for k in ("struct ", "class ", "enum ", "typename "):
            if s.startswith(k):
                s = s[len(k):].strip()
        if s == s0:
            break
    return s, ref, rref, ptr, const


def split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Bind:
    """what a C++ name denotes: place (a Rust place expression), null pointer, array pointer, lambda"""
    def __init__(self, kind, place=None, ty=None, **kw):
        self.kind, self.place, self.ty = kind, place, ty
        self.__dict__.update(kw)


class Ret(Exception):
    pass


class Translator:
    """translates one function instance"""

    def __init__(self, unit, contract, fn, suffix=""):
        self.u, self.ix, self.c, self.fn = unit, unit.ix, contract, fn
        self.scopes = {}
        self.names = set()
        self.locals = []          # (name, type) in order of declaration
        self.loopno = 0
        self.inline_stack = []
        self.tmp = 0
        self.this = None
        self.loops_seen = []
        self.literals = set()
        self.callees = set()
        self.loop_stack = []
        self.markers = []
        self.modified_cache = {}
        self.hint_used = set()
        self.stmt_hints = [(re.compile(k[5:k.rindex(".")]), k.rsplit(".", 1)[1], k) for k in self.c.hints
                           if k.startswith("stmt:")]

        # use:<callee>[#n].before|after - (the n-th of) the simple statements that call <callee>
        self.use_hints, self.use_count = [], {}
        for k in self.c.hints:
            if k.startswith("use:"):
                nm, where = k[4:].rsplit(".", 1)
                nm, _, no = nm.partition("#")
                self.use_hints.append((nm, int(no) if no else None, where, k))

    def called(self, node):
        out, st = set(), [node]
        while st:
            n = st.pop()
            if n.get("kind") in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                c = n["inner"][0]
                while c.get("kind") in ("ImplicitCastExpr", "ParenExpr") and c.get("inner"):
                    c = c["inner"][0]
                out.add(c.get("referencedDecl", {}).get("name") or c.get("name"))
            st += [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]
        return out

    # ---------------------------------------------------------------- types
    def ty(self, node_or_str):
        if isinstance(node_or_str, dict):
            t = node_or_str["type"]
            s = t.get("desugaredQualType", t["qualType"])
        else:
            s = node_or_str
        base, ref, rref, ptr, const = cxx_type(s)
        return self.rbase(base)

    def rbase(self, base):
        return self.u.rust_type(base)

    def is_copy(self, rt):
        return self.u.is_copy(rt)

    def fresh(self, p="t"):
        self.tmp += 1
        return "%s__%d" % (p, self.tmp)

    def declare(self, node, ty, mut=True, record=True):
        name = node.get("name") or self.fresh("anon")
        base = name
        if self.inline_stack:
            rn = self.c.rename.get((self.fn_path(), name))
        base = self.c.rename_locals.get(base, base)
        if base in KEYWORDS:
            base += "_"
        if base.startswith("_"):
            base = "v" + base
        nm, k = base, 1
        while nm in self.names:
            k += 1
            nm = "%s_%d" % (base, k)
        self.names.add(nm)
        if record:
            self.locals.append((nm, ty))
        return nm

    def fn_path(self):
        return "/".join(f.get("name", "?") for f in self.inline_stack)

    def err(self, node, msg):
        ln = node.get("_line") if isinstance(node, dict) else None
        raise ExtractError("%s: %s (%s line %s)" % (self.c.rust, msg, node.get("kind") if isinstance(node, dict) else "", ln))

    # ---------------------------------------------------------------- function
    def translate(self):
        fn, c = self.fn, self.c
        params = self.ix.params(fn)
        sig, pre = [], []
        body = self.ix.body(fn)
        if body is None:
            self.err(fn, "no body")
        modified = self.modified(body)
        if c.params is not None and len(c.params) != len(params):
            self.err(fn, "parameter count differs from the contract's")
        is_method = fn["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and fn.get("storageClass") != "static"
        if fn["kind"] == "CXXConstructorDecl":
            self.err(fn, "constructor under contract must go through a wrapper")
        if is_method:
            cls = self.u.class_of(fn)
            rt = self.u.struct_for(cls)
            const = self.is_const_method(fn)
            sig.append("self_: %s%s" % ("&" if const else "&mut ", rt))
            self.this = Bind("place", "(*self_)" if False else "self_", rt)
            self.names.add("self_")
        seen_bases = {}
        for i, p in enumerate(params):
            cname = c.params[i] if c.params else (p.get("name") or "arg%d" % i)
            t = p["type"].get("desugaredQualType", p["type"]["qualType"])
            base, ref, rref, ptr, const = cxx_type(t)
            mode = c.modes.get(cname)
            if mode == "null":
                self.scopes[p["id"]] = Bind("null")
                continue
            self.names.add(cname)
            if mode == "op" or mode == "erase":
                self.scopes[p["id"]] = Bind("functor", cname, base)
                continue
            if ptr == 1 and not ref:
                et = self.rbase(base)
                if mode == "out":
                    sig.append("%s: &mut %s" % (cname, et))
                    self.scopes[p["id"]] = Bind("outptr", "(*%s)" % cname, et)
                    continue
                if mode is not None and mode.startswith("ptr:"):
                    a = mode[4:]
                    if a not in seen_bases:
                        seen_bases[a] = 1
                        sig.append("%s: &%sVec<%s>" % (a, "" if const else "mut ", et))
                        self.names.add(a)
                    sig.append("%s: i64" % cname)
                    if p["id"] in modified:
                        pre.append("let ghost %s_0 = %s; let mut %s = %s;" % ((cname,) * 4))
                    self.scopes[p["id"]] = Bind("ptr", cname, et, base=a)
                    continue
                # array parameter
                sig.append("%s: &%sVec<%s>" % (cname, "" if const else "mut ", et))
                self.scopes[p["id"]] = Bind("ptr", None, et, base=cname)
                continue
            if ptr:
                self.err(p, "pointer parameter")
            rt = self.rbase(base)
            if ref and not const:
                sig.append("%s: &mut %s" % (cname, rt))
                self.scopes[p["id"]] = Bind("place", "(*%s)" % cname, rt)
            elif (ref or rref) and not self.is_copy(rt):
                sig.append("%s: &%s" % (cname, rt))
                self.scopes[p["id"]] = Bind("place", "(*%s)" % cname, rt)
            else:
                sig.append("%s: %s" % (cname, rt))
                self.scopes[p["id"]] = Bind("place", cname, rt)
                if p["id"] in modified:
                    pre.append("let ghost %s_0 = %s; let mut %s = %s;" % ((cname,) * 4))
        for x in c.extra:
            sig.append(x)
            self.names.add(x.split(":")[0])
        rett = self.ret_type(fn)
        self.rett = rett
        lines = self.hint("entry") + pre + self.hint("entry2")
        stmts = body.get("inner", [])
        lines += self.stmts(stmts, mode="fn")
        if rett == "()":
            if not (lines and lines[-1].startswith("return")):
                lines += self.hint("exit")
        return sig, rett, lines

    def ret_type(self, fn):
        t = fn["type"]["qualType"]
        if fn["kind"] == "CXXConstructorDecl":
            return "()"
        # return type is the part before the parameter list
        depth = 0
        i = len(t)
        # find matching '(' of the trailing parameter list
        j = t.rfind(")")
        d = 0
        while j >= 0:
            if t[j] == ")":
                d += 1
            elif t[j] == "(":
                d -= 1
                if d == 0:
                    break
            j -= 1
        r = t[:j].strip()
        if r == "auto" or r == "decltype(auto)":
            r = self.ret_from_body(fn)
        base, ref, rref, ptr, const = cxx_type(r)
        if base == "void" and not ptr:
            return "()"
        if self.c.ret_type and fn is self.fn:
            return self.c.ret_type
        if ref and not const and fn is self.fn and self.c.ret_mut:
            return "&mut " + self.rbase(base)
        if ref and not const and fn is self.fn:
            return "()"       # reference returns are dropped (assignment operators returning *this)
        try:
            return self.rbase(base)
        except ExtractError:
            m = self.body_ret_type(fn)
            if m:
                return m
            raise

    def body_ret_type(self, fn):
        b = self.ix.body(fn)
        st = [b]
        while st:
            n = st.pop(0)
            if n.get("kind") == "ReturnStmt" and n.get("inner"):
                return self.ty(n["inner"][0])
            st = [c for c in n.get("inner", []) if isinstance(c, dict) and c] + st
        return None

    def ret_from_body(self, fn):
        b = self.ix.body(fn)
        st = [b]
        while st:
            n = st.pop(0)
            if n.get("kind") == "ReturnStmt" and n.get("inner"):
                t = n["inner"][0]["type"]
                return t.get("desugaredQualType", t["qualType"])
            st = [c for c in n.get("inner", []) if isinstance(c, dict) and c] + st
        return "void"

    @staticmethod
    def is_const_method(fn):
        t = fn["type"]["qualType"].replace(" noexcept", "")
        return t.rstrip().endswith("const")

    def modified(self, node, strict=False):
        """ids of variables possibly modified inside node (strict: a write through a pointer does not modify the pointer)"""
        key = (id(node), True) if strict else id(node)
        if key in self.modified_cache:
            return self.modified_cache[key]
        out = set()
        def root(e):
            while True:
                k = e.get("kind")
                if k == "DeclRefExpr":
                    out.add(e["referencedDecl"]["id"])
                    return
                if k in ("ParenExpr", "ImplicitCastExpr", "MemberExpr", "ArraySubscriptExpr", "MaterializeTemporaryExpr",
                         "ExprWithCleanups", "SubstNonTypeTemplateParmExpr"):
                    if strict and k == "ImplicitCastExpr" and e.get("castKind") == "LValueToRValue":
                        return
                    e = e["inner"][0]
                    continue
                if k == "CXXOperatorCallExpr":
                    e = e["inner"][1]
                    continue
                if k == "UnaryOperator" and e.get("opcode") in ("*", "++", "--"):
                    e = e["inner"][0]
                    continue
                if k == "ConditionalOperator":
                    root(e["inner"][1]); root(e["inner"][2])
                return
        def walk(n):
            k = n.get("kind")
            inner = [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]
            if k == "BinaryOperator" and n.get("opcode") == "=":
                root(inner[0])
            elif k == "CompoundAssignOperator":
                root(inner[0])
            elif k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
                root(inner[0])
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                for a in inner:
                    a2 = a
                    if a2.get("valueCategory") in ("lvalue", "xvalue") and not self.constq(a2):
                        root(a2)
                    if a2.get("kind") == "MemberExpr" and a2.get("inner"):
                        root(a2["inner"][0])
            elif k == "LambdaExpr":
                pass
            elif k == "CXXForRangeStmt":
                ds = [d for c in inner if c["kind"] == "DeclStmt" for d in c.get("inner", []) if d.get("kind") == "VarDecl"]
                rg = [d for d in ds if d.get("name", "").startswith("__range")]
                lv = [d for d in ds if not d.get("name", "").startswith("__")]
                if rg and lv and lv[-1]["type"]["qualType"].rstrip().endswith("&") and not lv[-1]["type"]["qualType"].startswith("const "):
                    for i in rg[0].get("inner", []):
                        root(i)
            for c in inner:
                walk(c)
        walk(node)
        self.modified_cache[key] = out
        return out

    @staticmethod
    def constq(n):
        t = n.get("type", {}).get("qualType", "")
        return t.startswith("const ") or t.endswith(" const")

    # ---------------------------------------------------------------- hints
    def hint(self, key):
        h = self.c.hints.get(key)
        if h is None:
            return []
        self.hint_used.add(key)
        return [self.xp(h)]

    def xp(self, text):
        """$name in a contract = the Rust name of the innermost C++ variable of that name in scope"""
        if "$" not in text:
            return text
        def sub(m):
            w = m.group(1)
            if w == "this":
                return self.this.place
            for i in reversed(list(self.scopes)):
                d = self.ix.byid.get(i)
                n = (d or {}).get("name")
                if n is not None and self.c.rename_locals.get(n, n) == w:
                    b = self.scopes[i]
                    return b.place if b.place is not None else "0"
            return m.group(0)
        return re.sub(r"\$(\w+)", sub, text)

    def src(self, node):
        return self.u.source_text(node)

    # ---------------------------------------------------------------- statements
    def returns_always(self, n):
        k = n.get("kind")
        if k == "ReturnStmt":
            return True
        if k == "CompoundStmt":
            return any(self.returns_always(c) for c in n.get("inner", []))
        if k == "IfStmt" and n.get("hasElse"):
            return self.returns_always(n["inner"][-1]) and self.returns_always(n["inner"][-2])
        return False

    def contains(self, n, kind, stop=("LambdaExpr",)):
        if n.get("kind") == kind:
            return True
        if n.get("kind") in stop:
            return False
        return any(self.contains(c, kind, stop) for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind"))

    def stmts(self, lst, mode):
        """mode: 'fn' (Rust returns), 'inline' (value of the block is the result), 'void' (no returns allowed inside)"""
        out = []
        for i, s in enumerate(lst):
            if mode == "inline" and self.contains(s, "ReturnStmt"):
                rest = lst[i + 1:]
                out += self.tail(s, rest)
                return out
            out += self.stmt(s, mode)
        return out

    def tail(self, s, rest):
        k = s["kind"]
        if k == "ReturnStmt":
            pre = []
            if self.stmt_hints:
                txt = self.src(s)
                for rx, where, key in self.stmt_hints:
                    if where == "before" and rx.search(txt):
                        self.hint_used.add(key)
                        pre.append(self.xp(self.c.hints[key]))
            if s.get("inner"):
                return pre + [self.inline_ret(s)]
            return pre + ["()"]
        if k == "CompoundStmt":
            return self.stmts(s.get("inner", []) + (rest if not self.returns_always(s) else []), "inline")
        if k == "IfStmt":
            parts = s["inner"]
            if s.get("hasInit") or s.get("hasVar"):
                self.err(s, "if with initializer")
            cond = self.cond(parts[0])
            save = dict(self.scopes)
            th = self.stmts([parts[1]] + ([] if self.returns_always(parts[1]) else rest), "inline")
            self.scopes = dict(save)
            if s.get("hasElse"):
                el = self.stmts([parts[2]] + ([] if self.returns_always(parts[2]) else rest), "inline")
            else:
                el = self.stmts(rest, "inline")
            if cond == "true":
                return th
            if cond == "false":
                return el
            return ["if %s {" % cond] + th + ["} else {"] + el + ["}"]
        self.err(s, "return inside a loop of an inlined function")

    def inline_ret(self, s):
        e = s["inner"][0]
        if self.inline_ref:
            # reference-returning inlined function: yields nothing, place recorded
            pre = []
            self.inline_place = self.place(e, pre)
            return "\n".join(pre + ["()"])
        return self.ex(e)

    def stmt(self, s, mode):
        k = s["kind"]
        pre, post = [], []
        if self.stmt_hints and k not in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
            txt = self.src(s)
            for rx, where, key in self.stmt_hints:
                if rx.search(txt):
                    self.hint_used.add(key)
                    (pre if where == "before" else post).append(self.xp(self.c.hints[key]))
        if self.use_hints and k not in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
            called = self.called(s)
            for nm, no, where, key in self.use_hints:
                if nm in called:
                    self.use_count[key] = self.use_count.get(key, 0) + 1
                    if no is None or self.use_count[key] == no:
                        self.hint_used.add(key)
                        (pre if where == "before" else post).append(self.xp(self.c.hints[key]))
        mark = "/*@%s*/" % s.get("_line", "?")
        r = self.stmt0(s, mode)
        if r and k not in ("CompoundStmt",):
            r = [mark + " " + r[0]] + r[1:]
        return pre + r + post

    def ret_place(self, e, h):
        """return of a C++ reference"""
        e = self.strip(e)
        if e["kind"] == "ConditionalOperator":
            c = self.cond(e["inner"][0])
            return ["if %s {" % c] + self.ret_place(e["inner"][1], h) + ["} else {"] + self.ret_place(e["inner"][2], h) + ["}"]
        if e["kind"] == "BinaryOperator" and e["opcode"] == ",":
            return self.exstmt(e["inner"][0]) + self.ret_place(e["inner"][1], h)
        pre = []
        pl = self.place(e, pre)
        m = re.match(r"^\(\*(.*)\)$", pl)
        if m and m.group(1).endswith(")"):
            return pre + h + ["return %s;" % m.group(1)]
        return pre + h + ["return &mut %s;" % pl]

    def stmt0(self, s, mode):
        k = s["kind"]
        inner = [c for c in s.get("inner", [])]
        if k == "CompoundStmt":
            save = dict(self.scopes)
            r = self.stmts(inner, mode)
            self.scopes = save
            return ["{"] + r + ["}"]
        if k == "NullStmt":
            return []
        if k == "DeclStmt":
            out = []
            for d in inner:
                out += self.decl(d)
            return out
        if k == "ReturnStmt":
            if mode == "fn":
                h = self.hint("exit")
                if not inner:
                    return h + ["return;"]
                if self.rett == "()":
                    e = self.strip(inner[0])
                    if self.c.ret_alias:
                        pre = []
                        pl = self.place(e, pre)
                        own = [self.scopes[q["id"]].place for q in self.ix.params(self.fn) if self.scopes.get(q["id"]) is not None and self.c.params[self.ix.params(self.fn).index(q)] == self.c.ret_alias]
                        if [pl] != own:
                            self.err(s, "returned reference is not the parameter " + self.c.ret_alias)
                        return pre + h + ["return;"]
                    if e["kind"] in ("DeclRefExpr", "MemberExpr", "CXXThisExpr") or (e["kind"] == "UnaryOperator" and e.get("opcode") == "*" and self.strip(e["inner"][0])["kind"] == "CXXThisExpr"):
                        return h + ["return;"]
                    return self.exstmt(e) + h + ["return;"]
                if self.c.ret_mut and self.rett.startswith("&mut "):
                    return self.ret_place(inner[0], h)
                v = self.ex(inner[0])
                if h:
                    return ["let ret__v = %s;" % v] + h + ["return ret__v;"]
                return ["return %s;" % v]
            self.err(s, "return in an unsupported position")
        if k == "IfStmt":
            if s.get("hasInit") or s.get("hasVar"):
                self.err(s, "if with initializer")
            cond = self.cond(inner[0])
            if cond == "true":
                return self.block(inner[1], mode)
            if cond == "false":
                return self.block(inner[2], mode) if s.get("hasElse") else []
            r = ["if %s {" % cond] + self.block(inner[1], mode) + ["}"]
            if s.get("hasElse"):
                r += ["else {"] + self.block(inner[2], mode) + ["}"]
            return r
        if k == "WhileStmt":
            return self.loop(None, inner[0], None, inner[1], mode, s)
        if k == "ForStmt":
            init, var, cond, inc, body = inner
            save = dict(self.scopes)
            out = []
            if init and init.get("kind"):
                out += self.stmt(init, "void") if init["kind"] == "DeclStmt" else self.exstmt(init)
            out += self.loop(None, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body, mode, s)
            self.scopes = save
            return ["{"] + out + ["}"]
        if k == "DoStmt":
            return self.loop("do", inner[1], None, inner[0], mode, s)
        if k == "CXXForRangeStmt":
            return self.range_for(s, mode)
        if k == "BreakStmt":
            if self.loop_stack and self.loop_stack[-1].get("switch"):
                self.err(s, "break in switch")
            return self.hint("L%d.break" % self.loop_stack[-1]["no"]) + ["break;"]
        if k == "ContinueStmt":
            l = self.loop_stack[-1]
            r = self.hint("L%d.continue" % l["no"]) + list(self.hint("L%d.end" % l["no"]))
            if l.get("inc"):
                r += self.exstmt(l["inc"])
            if l.get("incraw"):
                r += l["incraw"]
            return r + ["continue;"]
        if k == "SwitchStmt":
            return self.switch(s, mode)
        # expression statement
        return self.exstmt(s)

    def switch(self, s, mode):
        cond, body = s["inner"][-2], s["inner"][-1]
        groups, cur, labels = [], None, []
        def flat(n):
            nonlocal cur
            if n["kind"] in ("CaseStmt", "DefaultStmt"):
                lab = None if n["kind"] == "DefaultStmt" else self.ex(n["inner"][0])
                if cur is None or cur["body"]:
                    cur = {"labels": [], "body": []}
                    groups.append(cur)
                cur["labels"].append(lab)
                flat(n["inner"][-1])
            elif cur is not None:
                cur["body"].append(n)
        for n in body.get("inner", []):
            flat(n)
        t = self.fresh("sw")
        out = ["let %s = %s;" % (t, self.ex(cond))]
        chain = []
        default = None
        for gi, g in enumerate(groups):
            b = g["body"]
            # expand fallthrough
            stm, gj = [], gi
            while True:
                stm2, ended = [], False
                for x in groups[gj]["body"]:
                    if x["kind"] == "BreakStmt":
                        ended = True
                        break
                    stm2.append(x)
                    if self.returns_always(x):
                        ended = True
                        break
                stm += stm2
                if ended or gj + 1 >= len(groups):
                    break
                gj += 1
            if any(self.contains(x, "BreakStmt", ("LambdaExpr", "ForStmt", "WhileStmt", "DoStmt")) for x in stm):
                self.err(s, "nested break in switch")
            save = dict(self.scopes)
            code = self.stmts(stm, mode)
            self.scopes = save
            if None in g["labels"]:
                default = code
            else:
                chain.append((" || ".join("%s == %s" % (t, l) for l in g["labels"]), code))
        r = []
        for i, (cnd, code) in enumerate(chain):
            r += [("else " if i else "") + "if %s {" % cnd] + code + ["}"]
        if default is not None:
            r += (["else {"] if chain else ["{"]) + default + ["}"]
        return ["{"] + out + r + ["}"]

    def block(self, s, mode):
        save = dict(self.scopes)
        r = self.stmts(s.get("inner", []) if s["kind"] == "CompoundStmt" else [s], mode)
        self.scopes = save
        return r

    def loop(self, kind, cond, inc, body, mode, s):
        no = self.loopno
        self.loopno += 1
        L = self.c.loops.get(no, {})
        self.loops_seen.append(no)
        save = dict(self.scopes)
        pre = self.hint("L%d.before" % no)
        clauses = []
        def cl(name):
            v = L.get(name)
            if v:
                if isinstance(v, str):
                    v = [v]
                clauses.append("    %s %s" % (name, ", ".join("(%s)" % self.xp(x) if name != "decreases" else self.xp(x) for x in v) + ","))
        simple = kind is None and cond is not None
        c = self.cond(cond) if cond is not None else "true"
        pure = simple and "{" not in c
        self.loop_stack.append({"no": no, "inc": inc})
        has_break = self.contains(body, "BreakStmt", ("LambdaExpr", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt"))
        if L.get("invariant_except_break") or L.get("ensures"):
            pass
        b = self.hint("L%d.begin" % no) + self.block(body, mode if mode == "fn" else ("loopvoid" if mode == "inline" else mode))
        b += self.hint("L%d.end" % no)
        if inc is not None:
            b += self.exstmt(inc)
        b += self.hint("L%d.end2" % no)
        self.loop_stack.pop()
        for n in ("invariant_except_break", "invariant", "ensures", "decreases"):
            cl(n)
        attr = []
        if "decreases" not in L:
            attr = ["#[verifier::exec_allows_no_decreases_clause]"]
            self.u.no_termination.add(self.c.rust)
        if pure and kind is None:
            out = pre + ["while %s" % c] + clauses + ["{"] + b + ["}"]
        elif kind is None:
            # invariants given for a `while` hold at loop head; for `loop` they are required at break as well
            out = pre + ["loop"] + clauses + ["{", "if !(%s) { break; }" % c] + b + ["}"]
        else:
            out = pre + ["loop"] + clauses + ["{"] + b + ["if !(%s) { break; }" % c, "}"]
        out += self.hint("L%d.after" % no)
        self.scopes = save
        return out

    def range_for(self, s, mode):
        """for (auto x : vec)  ->  index loop"""
        inner = [c for c in s["inner"] if isinstance(c, dict) and c.get("kind")]
        decls = [c for c in inner if c["kind"] == "DeclStmt"]
        rng = [d for d in decls if d["inner"][0].get("name", "").startswith("__range")][0]["inner"][0]
        var = decls[-1]["inner"][0]
        body = inner[-1]
        rinit = rng["inner"][0]
        t = self.ty(rinit)
        m = re.match(r"Vec<(.*)>$", t)
        if not m:
            self.err(s, "range-for over " + t)
        out, base = [], None
        e = self.strip(rinit)
        if e.get("valueCategory") == "lvalue":
            base = self.place(e)
        else:
            base = self.fresh("rng")
            out.append("let mut %s = %s;" % (base, self.ex(rinit)))
        iname = self.declare({"name": "idx"}, "u64", record=True)
        out.append("let mut %s: u64 = 0u64;" % iname)
        vt = var["type"]["qualType"]
        _, ref, rref, ptr, const = cxx_type(var["type"].get("desugaredQualType", vt))
        no = self.loopno
        self.loopno += 1
        L = self.c.loops.get(no, {})
        self.loops_seen.append(no)
        elem = "%s[%s as usize]" % (base, iname)
        save = dict(self.scopes)
        if ref or rref:
            self.scopes[var["id"]] = Bind("place", elem, m.group(1))
            b = []
        else:
            nm = self.declare(var, m.group(1))
            self.scopes[var["id"]] = Bind("place", nm, m.group(1))
            b = ["let mut %s = %s;" % (nm, self.copyof(elem, m.group(1)))]
        incraw = ["%s = %s + 1;" % (iname, iname)]
        self.loop_stack.append({"no": no, "incraw": incraw})
        b = self.hint("L%d.begin" % no) + b + self.block(body, mode if mode == "fn" else ("loopvoid" if mode == "inline" else mode)) \
            + self.hint("L%d.end" % no) + incraw + self.hint("L%d.end2" % no)
        self.loop_stack.pop()
        clauses = []
        for n in ("invariant_except_break", "invariant", "ensures", "decreases"):
            v = L.get(n)
            if v:
                v = [v] if isinstance(v, str) else v
                clauses.append("    %s %s," % (n, ", ".join(self.xp(x) if n == "decreases" else "(%s)" % self.xp(x) for x in v)))
        if "decreases" not in L:
            clauses.append("    decreases %s@.len() - %s," % (re.sub(r"\[(\w+) as usize\]", r"@[\1 as int]", base), iname))
        out += self.hint("L%d.before" % no)
        out += ["while %s < %s.len() as u64" % (iname, base)] + clauses + ["{"] + b + ["}"]
        out += self.hint("L%d.after" % no)
        self.scopes = save
        return ["{"] + out + ["}"]

    def copyof(self, place, rt):
        return place if self.is_copy(rt) else "%s.clone_c()" % place

    def decl(self, d):
        if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl"):
            return []
        if d["kind"] != "VarDecl":
            self.err(d, "local declaration")
        init = None
        for c in d.get("inner", []):
            if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Attr"):
                init = c
        t = d["type"].get("desugaredQualType", d["type"]["qualType"])
        base, ref, rref, ptr, const = cxx_type(t)
        if d.get("storageClass") == "static":
            # a static scratch array: whatever earlier calls have left in it
            m = re.match(r"^(.*)\[(\d+)\]$", base)
            at = "[%s; %s]" % (self.rbase(m.group(1).strip()), m.group(2)) if m else None
            if at not in self.u.arbs or ref or rref or ptr or const or init is not None:
                self.err(d, "static local")
            nm = self.declare(d, at)
            self.scopes[d["id"]] = Bind("ptr", None, self.rbase(m.group(1).strip()), base=nm)
            return ["let mut %s: %s = %s;" % (nm, at, self.u.arbs[at])]
        lam = self.strip(init) if init is not None else None
        while lam is not None and lam.get("kind") == "CXXConstructExpr" and lam.get("elidable") and len(lam.get("inner", [])) == 1:
            lam = self.strip(lam["inner"][0])  # the (elided) move of a closure into its variable
        if lam is not None and lam.get("kind") == "LambdaExpr":
            self.scopes[d["id"]] = Bind("lambda", node=lam)
            return []
        if ptr:
            if init is None:
                # any offset into the one array that the pointers of this type point into (assignments are checked to stay in it)
                bs = [x for x in self.scopes.values() if x.kind == "ptr" and x.base and x.ty == self.rbase(base)]
                if not getattr(self.u, "uninit_ptr", False) or len({x.base for x in bs}) != 1:
                    self.err(d, "uninitialised pointer")
                nm = self.declare(d, "i64")
                self.scopes[d["id"]] = Bind("ptr", nm, bs[0].ty, base=bs[0].base)
                return ["let mut %s: i64 = any_i64();" % nm]
            b, off = self.ptr(init)
            if b is None:
                self.scopes[d["id"]] = Bind("null")
                return []
            if b.kind == "outptr":
                self.scopes[d["id"]] = b
                return []
            nm = self.declare(d, "i64")
            self.scopes[d["id"]] = Bind("ptr", nm, b.ty, base=b.base)
            return ["let mut %s: i64 = %s;" % (nm, off)]
        m = re.match(r"^(.*)\[(\d+)\]$", base)
        if m and not ref:
            et = self.rbase(m.group(1).strip())
            rt = "[%s; %s]" % (et, m.group(2))
            nm = self.declare(d, rt)
            self.scopes[d["id"]] = Bind("ptr", None, et, base=nm)
            if init is None:
                self.err(d, "uninitialised array")
            vals = self.initlist(init, et)
            while len(vals) < int(m.group(2)):
                vals.append(self.u.zero(et))
            return ["let mut %s: %s = [%s];" % (nm, rt, ", ".join(vals))]
        if (ref or rref) and init is not None:
            e = self.strip(init)
            if e.get("valueCategory") in ("lvalue",) and e.get("kind") not in ("ConditionalOperator",):
                pre = []
                pl = self.place(e, pre)
                rt = self.ty(e)
                self.scopes[d["id"]] = Bind("place", pl, rt)
                return pre
        rt = self.rbase(base)
        if init is None:
            v = self.u.arbitrary(rt)
        else:
            v = self.ex(init)
        nm = self.declare(d, rt)
        self.scopes[d["id"]] = Bind("place", nm, rt)
        return ["let mut %s: %s = %s;" % (nm, rt, v)]

    def initlist(self, init, et):
        e = self.strip(init)
        if e["kind"] != "InitListExpr":
            self.err(e, "array initialiser")
        if e.get("array_filler"):
            els = [x for x in e["array_filler"] if x.get("kind") and x["kind"] != "ImplicitValueInitExpr"]
            return [self.ex(x) for x in els]
        return [self.ex(x) for x in e.get("inner", [])]

    # ---------------------------------------------------------------- expressions
    TRANSP = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
              "SubstNonTypeTemplateParmExpr", "ConstantExpr", "FullExpr", "CXXRewrittenBinaryOperator")

    def strip(self, e):
        while True:
            k = e.get("kind")
            if k in self.TRANSP:
                e = [c for c in e["inner"] if c.get("kind") and not c["kind"].endswith("Decl")][-1]
            elif k == "ImplicitCastExpr" and e.get("castKind") in ("NoOp",):
                e = e["inner"][0]
            else:
                return e

    def exstmt(self, e):
        """expression for its side effects"""
        e = self.strip(e)
        k = e["kind"]
        if k == "BinaryOperator" and e["opcode"] == "=":
            return self.assign(e)
        if k == "BinaryOperator" and e["opcode"] == ",":
            return self.exstmt(e["inner"][0]) + self.exstmt(e["inner"][1])
        if k == "CompoundAssignOperator":
            return self.compound(e)
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            return self.incdec(e)
        if k == "CStyleCastExpr" and e.get("castKind") == "ToVoid":
            return self.exstmt(e["inner"][0])
        if k == "ConditionalOperator":
            c = self.cond(e["inner"][0])
            return ["if %s {" % c] + self.exstmt(e["inner"][1]) + ["} else {"] + self.exstmt(e["inner"][2]) + ["}"]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            r = self.call(e, stmt=True)
            if isinstance(r, list):
                return r
            return [r + ";"]
        if k == "CXXThrowExpr":
            return ["throw_ok_();" if self.c.throws else "throw_();"]
        if k in ("DeclRefExpr", "IntegerLiteral", "CXXBoolLiteralExpr", "CXXThisExpr"):
            return []
        if k == "ImplicitCastExpr" and e.get("castKind") in ("LValueToRValue",):
            return self.exstmt(e["inner"][0])
        v = self.ex(e)
        return ["let _ = %s;" % v]

    def assign(self, e):
        lhs, rhs = e["inner"]
        ls = self.strip(lhs)
        b = self.ptr_lv(ls)
        if b is not None and b.kind == "ptr" and b.place:
            b2, off = self.ptr(rhs)
            if b2 is None or b2.base != b.base:
                self.err(e, "pointer re-based")
            return ["%s = %s;" % (b.place, off)]
        r = self.strip(rhs)
        out = []
        # chained assignment
        if r["kind"] == "BinaryOperator" and r["opcode"] == "=":
            out += self.assign(r)
            v = self.read_place(self.place(r["inner"][0]), self.ty(r))
        else:
            v = self.ex(rhs)
        pre = []
        pl = self.place(lhs, pre)
        if pre or ("[" in pl and "{" in v):
            t = self.fresh("rv")
            return out + ["let %s = %s;" % (t, v)] + pre + ["%s = %s;" % (pl, t)]
        return out + ["%s = %s;" % (pl, v)]

    def compound(self, e):
        op = e["opcode"][:-1]
        lhs, rhs = e["inner"]
        b = self.ptr_lv(self.strip(lhs))
        if b is not None and b.kind == "ptr" and b.place:
            v = self.ex(rhs)
            v = self.cast(v, self.ty(rhs), "i64")
            return ["%s = (%s %s %s);" % (b.place, b.place, op, v)]
        lt = self.ty(lhs)
        def tyof(key):
            t = e.get(key) or e["type"]
            return self.rbase(cxx_type(t.get("desugaredQualType", t["qualType"]))[0])
        if lt == "bool" and op in "&|":
            rb = rhs
            while rb.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups") and self.ty(rb) != "bool":
                rb = rb["inner"][0]
            if self.ty(rb) == "bool":
                v = self.exval(rb)
                pre = []
                pl = self.place(lhs, pre)
                return pre + ["let b__c = %s;" % v, "%s = %s %s b__c;" % (pl, pl, op * 2)]
        ct, rt = tyof("computeLHSType"), tyof("computeResultType")
        v = self.ex(rhs)
        pre = []
        pl = self.place(lhs, pre)
        val = self.arith(op, self.cast(pl, lt, ct), v, rt, self.ty(rhs), rhs)
        out = self.cast(val, rt, lt)
        if pre:
            return pre + ["%s = %s;" % (pl, out)]
        return ["%s = %s;" % (pl, out)]

    def incdec(self, e):
        if "reverse_iterator" in str(e["inner"][0].get("type")) and self.ty(e["inner"][0]) == "RevIt":
            p = self.place(e["inner"][0])
            return ["%s.o = %s.o %s 1;" % (p, p, "-" if e["opcode"] == "++" else "+")]
        x = e["inner"][0]
        op = "+" if e["opcode"] == "++" else "-"
        b = self.ptr_lv(self.strip(x))
        if b is not None and b.kind == "ptr" and b.place:
            return ["%s = %s %s 1;" % (b.place, b.place, op)]
        t = self.ty(x)
        pre = []
        pl = self.place(x, pre)
        if t not in RUSTINT:
            self.err(e, "++ on " + t)
        if WIDTH[t] < 32:
            v = self.cast("(%s %s 1i32)" % (self.cast(pl, t, "i32"), op), "i32", t)
        else:
            v = self.arith(op, pl, "1" + t, t, t, None)
        return pre + ["%s = %s;" % (pl, v)]

    def arith(self, op, a, b, t, bt, bnode):
        """machine arithmetic at type t; bt: type of the right operand (shifts)"""
        if t not in RUSTINT:
            raise ExtractError("%s: arithmetic %s at type %s" % (self.c.rust, op, t))
        uns = t[0] == "u"
        if op in ("+", "-", "*"):
            if uns and self.c.unsigned == "checked":
                return "(%s %s %s)" % (a, op, b)
            if uns:
                return "%s_%s(%s, %s)" % (t, {"+": "add", "-": "sub", "*": "mul"}[op], a, b)
            return "(%s %s %s)" % (a, op, b)
        if op in ("/", "%"):
            if uns:
                return "(%s %s %s)" % (a, op, b)
            return "%s_%s(%s, %s)" % (t, "div" if op == "/" else "rem", a, b)
        if op in ("&", "|", "^"):
            if self.c.bits:
                return "(%s %s %s)" % (a, op, b)
            return "%s_%s(%s, %s)" % (t, {"&": "and", "|": "or", "^": "xor"}[op], a, b)
        if op in ("<<", ">>"):
            sh = self.cast(b, bt, "u32")
            return "%s_%s(%s, %s)" % (t, "shl" if op == "<<" else "shr", a, sh)
        raise ExtractError("operator " + op)

    def cast(self, v, a, b):
        if a == b:
            return v
        if a == "bool" and b in RUSTINT:
            return "(if %s { 1%s } else { 0%s })" % (v, b, b)
        if b == "bool" and a in RUSTINT:
            return "(%s != 0)" % v
        if a in RUSTINT and b in RUSTINT:
            m = re.match(r"^\(?(-?\d+)%s\)?$" % a, v)
            if m:
                n = int(m.group(1))
                lo, hi = (0, 2 ** WIDTH[b] - 1) if b[0] == "u" else (-2 ** (WIDTH[b] - 1), 2 ** (WIDTH[b] - 1) - 1)
                if lo <= n <= hi:
                    return "%d%s" % (n, b) if n >= 0 else "(%d%s)" % (n, b)
            if (a[0] == b[0] and WIDTH[a] <= WIDTH[b]) or (a[0] == "u" and WIDTH[a] < WIDTH[b]):
                return "(%s as %s)" % (v, b)
            return "cast_%s_%s(%s)" % (a, b, v)
        f = self.u.convs.get((a, b))
        if f:
            return "%s(%s)" % (f, v)
        raise ExtractError("%s: conversion %s -> %s" % (self.c.rust, a, b))

    def cond(self, e):
        return self.ex(e)

    def const_init(self, rd):
        """value of a constant of namespace or class scope (its initialiser)"""
        if rd.get("kind") != "VarDecl" or rd["id"] in self.scopes or self.u.global_place(rd):
            return None
        d = self.ix.byid.get(rd["id"])
        if d is None or not (d.get("constexpr") or d["type"]["qualType"].startswith("const ")):
            return None
        par = self.ix.parent.get(rd["id"])
        if par is None or par.get("kind") not in ("NamespaceDecl", "TranslationUnitDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            return None
        while d is not None:
            for c in d.get("inner", []):
                if isinstance(c, dict) and c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")):
                    return self.ex(c)
            d = self.ix.byid.get(d.get("previousDecl"))        # out-of-line definition of a static member
        return None

    def read_place(self, pl, rt):
        return pl if self.is_copy(rt) else pl

    def ex(self, e):
        k = e["kind"]
        inner = [c for c in e.get("inner", []) if isinstance(c, dict) and c.get("kind")]
        if k in self.TRANSP:
            return self.ex([c for c in inner if not c["kind"].endswith("Decl")][-1])
        if k == "IntegerLiteral":
            self.literals.add(int(e["value"]))
            return "%s%s" % (e["value"], self.ty(e))
        if k == "CXXBoolLiteralExpr":
            return "true" if e["value"] else "false"
        if k == "CharacterLiteral":
            t = self.ty(e)
            v = int(e["value"])
            return "%d%s" % (v, t) if v >= 0 else "(%d%s)" % (v, t)
        if k == "FloatingLiteral":
            return self.u.float_literal(e)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            return self.castexpr(e, inner)
        if k == "DeclRefExpr":
            rd = e["referencedDecl"]
            if rd["kind"] == "EnumConstantDecl":
                return self.u.enum_const(rd)
            ci = self.const_init(rd)
            if ci is not None:
                return ci
            if rd["kind"] in ("CXXMethodDecl", "FunctionDecl") and rd.get("name") in getattr(self.u, "fnvals", {}):
                return self.u.fnvals[rd["name"]]
            return self.place(e)
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            return self.rvalue_place(e)
        if k == "CXXThisExpr":
            self.err(e, "this as a value")
        if k == "UnaryOperator":
            op = e["opcode"]
            if op == "-":
                t = self.ty(e)
                v = self.ex(inner[0])
                if t[0] == "u":
                    return "%s_sub(0%s, %s)" % (t, t, v)
                if re.match(r"^\d+i\d+$", v):
                    return "(-%s)" % v
                if t not in RUSTINT:
                    self.err(e, "negation of " + t)
                return "(-%s)" % v
            if op == "+":
                return self.ex(inner[0])
            if op == "!":
                v = self.ex(inner[0])
                return {"true": "false", "false": "true"}.get(v) or "!(%s)" % v
            if op == "~":
                return "(!%s)" % self.ex(inner[0])
            if op == "*":
                return self.place(e)
            if op in ("++", "--"):
                if e.get("isPostfix"):
                    b = self.ptr_lv(self.strip(inner[0]))
                    t = self.fresh()
                    pl = self.place(inner[0])
                    return "{ let %s = %s; %s %s }" % (t, pl, " ".join(self.incdec(e)), t)
                return "{ %s %s }" % (" ".join(self.incdec(e)), self.place(inner[0]))
        if k == "BinaryOperator":
            op = e["opcode"]
            if op == "=":
                st = self.assign(e)
                return "{ %s %s }" % (" ".join(st), self.place(inner[0]))
            if op == ",":
                return "{ %s %s }" % (" ".join(self.exstmt(inner[0])), self.ex(inner[1]))
            if op in ("&&", "||"):
                a, b = self.ex(inner[0]), self.ex(inner[1])
                if a == "true":
                    return b if op == "&&" else "true"
                if a == "false":
                    return "false" if op == "&&" else b
                return "(%s %s %s)" % (a, op, b)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                pa = self.isptr(inner[0])
                if pa:
                    (b1, o1), (b2, o2) = self.ptr(inner[0]), self.ptr(inner[1])
                    if b1 is None or b2 is None:
                        if op in ("==", "!="):
                            r = (b1 is None) == (b2 is None)
                            return "true" if r == (op == "==") else "false"
                        self.err(e, "pointer comparison with null")
                    if b1.base != b2.base:
                        if op in ("==", "!=") and getattr(self.u, "distinct_arrays", False):
                            # separate array parameters are separate &mut slices; the aliased calls are checked as functions of their own
                            return "true" if op == "!=" else "false"
                        self.err(e, "comparison of pointers into different arrays")
                    return "(%s %s %s)" % (o1, op, o2)
                t1 = self.ty(inner[0])
                a, b = self.ex(inner[0]), self.ex(inner[1])
                if t1 == "bool" and op in ("==", "!="):
                    return "(%s %s %s)" % (a, op, b)
                if t1 not in RUSTINT and t1 != "bool":
                    f = self.u.floatops.get((op, t1))
                    if not f:
                        self.err(e, "comparison at type " + t1)
                    return "%s(%s, %s)" % (f, a, b)
                return "(%s %s %s)" % (a, op, b)
            if self.isptr(inner[0]) and self.isptr(inner[1]) and op == "-":
                (b1, o1), (b2, o2) = self.ptr(inner[0]), self.ptr(inner[1])
                return "(%s - %s)" % (o1, o2)
            t = self.ty(e)
            a, b = self.ex(inner[0]), self.ex(inner[1])
            if t not in RUSTINT:
                f = self.u.floatops.get((op, t))
                if f:
                    return "%s(%s, %s)" % (f, a, b)
            return self.arith(op, a, b, t, self.ty(inner[1]), inner[1])
        if k == "CompoundAssignOperator":
            return "{ %s %s }" % (" ".join(self.compound(e)), self.place(inner[0]))
        if k == "ConditionalOperator":
            c = self.cond(inner[0])
            if c == "true":
                return self.ex(inner[1])
            if c == "false":
                return self.ex(inner[2])
            rt = self.ty(e)
            return "(if %s { %s } else { %s })" % (c, self.exval(inner[1]), self.exval(inner[2]))
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.call(e)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(e, inner)
        if k == "InitListExpr":
            return self.initlist_val(e, inner)
        if k in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return self.u.zero(self.ty(e))
        if k == "UnaryExprOrTypeTraitExpr" and e.get("name") == "sizeof":
            t = self.ty(e["argType"]["qualType"]) if "argType" in e else self.ty(inner[0])
            if t == "bool":
                return "1u64"
            ma = re.match(r"^\[(\w+); (\d+)\]$", t)
            if ma:
                return "%du64" % (WIDTH[ma.group(1)] // 8 * int(ma.group(2)))
            return "%du64" % (WIDTH[t] // 8)
        if k == "CXXDefaultArgExpr":
            self.err(e, "default argument out of context")
        if k == "CXXStdInitializerListExpr":
            return self.ex(inner[0])
        if k == "TypeTraitExpr":
            return "true" if e.get("value") else "false"
        self.err(e, "expression kind " + k)

    def exval(self, e):
        """value of possibly non-copy expression"""
        v = self.ex(e)
        s = self.strip(e)
        if s.get("valueCategory") == "lvalue":
            rt = self.ty(e)
            if not self.is_copy(rt):
                return v + ".clone_c()"
        return v

    def initlist_val(self, e, inner):
        rt = self.ty(e)
        if rt in RUSTINT or rt == "bool":
            return self.ex(inner[0]) if inner else self.u.zero(rt)
        s = self.u.structs.get(rt)
        if s:
            vals = [self.exval(x) for x in inner]
            return "%s { %s }" % (rt, ", ".join("%s: %s" % (f, v) for (f, _), v in zip(s["fields"], vals)))
        self.err(e, "initializer list of " + rt)

    def castexpr(self, e, inner):
        ck = e.get("castKind")
        sub = [c for c in inner if not c["kind"].endswith("Decl")][-1]
        if ck in ("LValueToRValue",):
            return self.ex(sub)
        if ck in ("NoOp", "FunctionToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion"):
            return self.ex(sub)
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            return self.cast(self.ex(sub), self.ty(sub), self.ty(e))
        if ck == "PointerToBoolean":
            b, off = self.ptr(sub)
            return "false" if b is None else "true"
        if ck in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
            return self.cast(self.ex(sub), self.ty(sub), self.ty(e))
        if ck == "ToVoid":
            return "{ %s }" % " ".join(self.exstmt(sub))
        self.err(e, "cast kind %s" % ck)

    # ---------------------------------------------------------------- pointers
    def isptr(self, e):
        t = e["type"].get("desugaredQualType", e["type"]["qualType"])
        return cxx_type(t)[3] > 0 or "nullptr_t" in t or bool(re.search(r"\[\d+\]$", t))

    def ptr_lv(self, e):
        e = self.strip(e)
        if e.get("kind") == "DeclRefExpr":
            b = self.scopes.get(e["referencedDecl"]["id"])
            if b is not None and b.kind in ("ptr", "outptr", "null"):
                return b
        if e.get("kind") == "MemberExpr":
            f = self.u.ptr_field(self, e)
            if f is not None:
                return f
        return None

    def ptr(self, e):
        """(binding or None for null, offset expression)"""
        e = self.strip(e)
        k = e["kind"]
        if k == "ImplicitCastExpr":
            ck = e["castKind"]
            if ck == "ArrayToPointerDecay":
                x = self.strip(e["inner"][0])
                m = re.match(r"^(.*?)\s*\[\d+\]$", x["type"].get("desugaredQualType", x["type"]["qualType"]))
                if m and (x["kind"] in ("MemberExpr", "ArraySubscriptExpr") or x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] not in self.scopes and self.u.global_place(x["referencedDecl"])):
                    return Bind("ptr", None, self.rbase(cxx_type(m.group(1))[0]), base=self.place(x)), "0i64"
            if ck in ("LValueToRValue", "NoOp", "ArrayToPointerDecay", "BitCast", "ConstructorConversion"):
                return self.ptr(e["inner"][0])
            if ck == "NullToPointer":
                return None, None
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return None, None
        b = self.ptr_lv(e)
        if b is not None:
            if b.kind == "null":
                return None, None
            return b, (b.place if b.kind == "ptr" and b.place else "0i64")
        if k == "BinaryOperator" and e["opcode"] in ("+", "-"):
            l, r = e["inner"]
            if self.isptr(l):
                b, o = self.ptr(l)
                return b, "(%s %s %s)" % (o, e["opcode"], self.cast(self.ex(r), self.ty(r), "i64"))
            b, o = self.ptr(r)
            return b, "(%s + %s)" % (self.cast(self.ex(l), self.ty(l), "i64"), o)
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            x = e["inner"][0]
            b, o = self.ptr(x)
            if e.get("isPostfix"):
                t = self.fresh()
                return b, "{ let %s = %s; %s %s }" % (t, o, " ".join(self.incdec(e)), t)
            return b, "{ %s %s }" % (" ".join(self.incdec(e)), o)
        if k == "UnaryOperator" and e["opcode"] == "&":
            x = self.strip(e["inner"][0])
            if x["kind"] == "ArraySubscriptExpr":
                b, o = self.ptr(x["inner"][0])
                return b, "(%s + %s)" % (o, self.cast(self.ex(x["inner"][1]), self.ty(x["inner"][1]), "i64"))
            if x["kind"] == "CXXOperatorCallExpr" and self.callee_name(x) == "operator[]":
                base = self.place(x["inner"][1])
                return Bind("ptr", None, self.ty(x), base=base), self.cast(self.ex(x["inner"][2]), self.ty(x["inner"][2]), "i64")
            pl = self.place(x)
            return Bind("outptr", pl, self.ty(x)), None
        if k == "CXXMemberCallExpr" and self.callee_name(e) in ("data", "begin", "end", "c_str"):
            m = self.strip_callee(e["inner"][0])
            base = self.place(m["inner"][0])
            off = "0i64" if self.callee_name(e) != "end" else "(vec_len(&%s) as i64)" % base
            t = self.ty(m["inner"][0])
            mm = re.match(r"Vec<(.*)>$", t)
            return Bind("ptr", None, mm.group(1) if mm else "?", base=base), off
        if k == "CXXOperatorCallExpr" and self.callee_name(e) in ("operator+", "operator-") and len(e["inner"]) == 3:
            b, o = self.ptr(e["inner"][1])
            return b, "(%s %s %s)" % (o, self.callee_name(e)[-1], self.cast(self.ex(e["inner"][2]), self.ty(e["inner"][2]), "i64"))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([c for c in e.get("inner", []) if c.get("kind") != "CXXDefaultArgExpr"]) == 1:
            return self.ptr(e["inner"][0])
        if k == "BinaryOperator" and e["opcode"] == "=":
            st = self.assign(e)
            b, o = self.ptr(e["inner"][0])
            return b, "{ %s %s }" % (" ".join(st), o)
        if k == "ConditionalOperator":
            c = self.cond(e["inner"][0])
            b1, o1 = self.ptr(e["inner"][1])
            b2, o2 = self.ptr(e["inner"][2])
            if c == "true":
                return b1, o1
            if c == "false":
                return b2, o2
            if b1 and b2 and b1.base == b2.base:
                return b1, "(if %s { %s } else { %s })" % (c, o1, o2)
        if k == "CallExpr":
            for h in self.u.hooks:
                r = h.ptr_call(self, e, self.callee_name(e), e["inner"][1:]) if hasattr(h, "ptr_call") else None
                if r is not None:
                    return r
        self.err(e, "pointer expression")

    # ---------------------------------------------------------------- places
    def place(self, e, pre=None):
        """Rust place expression for a C++ lvalue.  With `pre` given, effects of index expressions are hoisted into it."""
        e = self.strip(e)
        k = e["kind"]
        inner = [c for c in e.get("inner", []) if isinstance(c, dict) and c.get("kind")]
        if k == "ImplicitCastExpr" and e.get("castKind") in ("LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "NoOp"):
            return self.place(inner[0], pre)
        if k == "DeclRefExpr":
            rid = e["referencedDecl"]["id"]
            b = self.scopes.get(rid)
            if b is None:
                g = self.u.global_place(e["referencedDecl"])
                if g:
                    return g
                self.err(e, "unbound name " + str(e["referencedDecl"].get("name")))
            if b.kind in ("place",):
                return b.place
            if b.kind == "functor":
                return b.place
            self.err(e, "name %s used as a place (%s)" % (e["referencedDecl"].get("name"), b.kind))
        if k == "CXXThisExpr":
            return self.this.place
        if k == "MemberExpr":
            nm = e.get("name", "")
            if not inner:
                self.err(e, "member")
            base = inner[0]
            g = self.u.member_hook(self, e, base)
            if g is not None:
                return g
            if e.get("isArrow") and self.strip(base)["kind"] != "CXXThisExpr":
                b, off = self.ptr(base)
                if b is None:
                    self.err(e, "null dereference")
                if b.kind == "outptr":
                    return "%s.%s" % (b.place, self.field(nm))
                return "%s[(%s) as usize].%s" % (b.base, off, self.field(nm))
            if nm in ("first", "second"):
                try:
                    bt = self.ty(base)
                except ExtractError:
                    bt = "(" if "pair<" in base["type"].get("desugaredQualType", base["type"]["qualType"]) else ""
                if bt.startswith("("):
                    nm = "0" if nm == "first" else "1"
            return "%s.%s" % (self.place(base, pre), self.field(nm))
        if k == "ArraySubscriptExpr":
            if not self.isptr(inner[0]):
                inner = [inner[1], inner[0]]
            b, off = self.ptr(inner[0])
            if b is None:
                self.err(e, "null subscript")
            if b.kind == "outptr":
                self.err(e, "subscript of out pointer")
            idx = self.ex(inner[1])
            it = self.ty(inner[1])
            if off != "0i64":
                idx = "(%s + %s)" % (off, self.cast(idx, it, "i64"))
                it = "i64"
            return "%s[%s]" % (b.base, self.index(idx, it, pre))
        if k == "UnaryOperator" and e["opcode"] == "*":
            if self.strip(inner[0])["kind"] == "CXXThisExpr":
                return "(*self_)" if self.this.place == "self_" else self.this.place
            if "reverse_iterator" in str(inner[0].get("type")) and self.ty(inner[0]) == "RevIt":
                # reverse iterator at position o: the element before it
                return "%s[(%s.o - 1) as usize]" % (self.u.revbase, self.place(inner[0], pre))
            b, off = self.ptr(inner[0])
            if b is None:
                self.err(e, "null dereference")
            if b.kind == "outptr":
                return b.place
            return "%s[%s]" % (b.base, self.index(off, "i64", pre))
        if k == "UnaryOperator" and e["opcode"] in ("++", "--") and not e.get("isPostfix"):
            if pre is not None:
                pre.extend(self.incdec(e))
                return self.place(inner[0], pre)
        if k == "CXXOperatorCallExpr" and self.callee_name(e) == "operator[]":
            ot = self.ty(inner[1])
            if ot.startswith("Vec<") or ot.startswith("["):
                base = self.place(inner[1], pre) if self.strip(inner[1]).get("valueCategory") == "lvalue" else self.ex(inner[1])
                return "%s[%s]" % (base, self.index(self.ex(inner[2]), self.ty(inner[2]), pre))
        if k in ("CXXOperatorCallExpr", "CallExpr", "CXXMemberCallExpr") and e.get("valueCategory") == "lvalue":
            return self.call(e, want_place=True, pre=pre)
        if k == "BinaryOperator" and e["opcode"] == "=" and pre is not None:
            pre.extend(self.assign(e))
            return self.place(inner[0], pre)
        if k == "CompoundAssignOperator" and pre is not None:
            pre.extend(self.compound(e))
            return self.place(inner[0], pre)
        if e.get("valueCategory") in ("prvalue", "xvalue") or k in ("ConditionalOperator",):
            v = self.ex(e)
            if pre is not None:
                t = self.fresh("v")
                pre.append("let mut %s = %s;" % (t, v))
                return t
            return v
        self.err(e, "lvalue kind " + k)

    def field(self, nm):
        return nm + "_" if nm in KEYWORDS else ("f" + nm if nm.startswith("_") else nm)

    def index(self, idx, it, pre):
        if it in RUSTINT and it[0] == "i":
            idx = "idx_%s(%s)" % (it, idx)
        else:
            idx = "%s as usize" % idx if re.match(r"^[\w.]+$", idx) else "(%s) as usize" % idx
        if pre is not None and ("{" in idx or self.effectful(idx)):
            t = self.fresh("ix")
            pre.append("let %s: usize = %s;" % (t, idx))
            if self.effectful(idx):
                pre.extend(self.hint("hoist"))
            idx = t
        return idx

    def effectful(self, txt):
        """does the expression call a contracted function that takes something by mutable reference?"""
        for m in re.finditer(r"\b(\w+)\(", txt):
            for c in self.u.contracts:
                if c.rust == m.group(1) and c.fn is not None:
                    if c.fn["kind"] == "CXXMethodDecl" and not self.is_const_method(c.fn):
                        return True
                    if "&mut" in txt:
                        return True
        return False

    def rvalue_place(self, e):
        tmp = self.tmp
        p = self.place(e)
        if not self.effectful(p):
            return p
        self.tmp = tmp
        pre = []
        p = self.place(e, pre)
        return "{ %s %s }" % (" ".join(pre), p) if pre else p

    # ---------------------------------------------------------------- calls
    def strip_callee(self, c):
        c = self.strip(c)
        while c.get("kind") == "ImplicitCastExpr":
            c = self.strip(c["inner"][0])
        return c

    def callee_name(self, e):
        c = self.strip_callee(e["inner"][0])
        if c["kind"] == "DeclRefExpr":
            return c["referencedDecl"].get("name")
        return c.get("name", "").lstrip(">-.")

    def callee_id(self, e):
        c = self.strip_callee(e["inner"][0])
        if c["kind"] == "DeclRefExpr":
            return c["referencedDecl"].get("id")
        return c.get("referencedMemberDecl")

    def call(self, e, stmt=False, want_place=False, pre=None):
        k = e["kind"]
        inner = [c for c in e["inner"] if isinstance(c, dict) and c.get("kind")]
        name = self.callee_name(e)
        fid = self.callee_id(e)
        fdef = self.ix.resolve(fid) if fid else None
        obj = None
        args = inner[1:]
        if k == "CallExpr" and getattr(self.u, "fnptr", None):  # a call through a function pointer
            c0 = self.strip_callee(inner[0])
            if c0["kind"] == "DeclRefExpr" and c0["referencedDecl"]["kind"] in ("ParmVarDecl", "VarDecl") and c0["referencedDecl"]["id"] in self.scopes and self.ty(c0) == self.u.fnptr[0]:
                return "%s(%s)" % (self.u.fnptr[1], ", ".join([self.exval(c0)] + [self.exval(a) for a in args]))
        if k == "CXXMemberCallExpr":
            m = self.strip_callee(inner[0])
            obj = m["inner"][0]
        elif k == "CXXOperatorCallExpr":
            if fdef is not None:
                if fdef["kind"] == "CXXMethodDecl":
                    obj, args = args[0], args[1:]
            else:
                c = self.strip_callee(inner[0])
                if c.get("referencedDecl", {}).get("kind") == "CXXMethodDecl":
                    obj, args = args[0], args[1:]
        # lambda / functor objects
        if k == "CXXOperatorCallExpr" and name == "operator()" and obj is not None:
            s = self.strip_callee(obj)
            if s["kind"] == "DeclRefExpr":
                b = self.scopes.get(s["referencedDecl"]["id"])
                if b is not None and b.kind == "lambda":
                    return self.inline_lambda(b.node, args, stmt)
                if b is not None and b.kind == "functor" and b.__dict__.get("rust"):
                    return "%s(%s)" % (b.rust, ", ".join(self.exval(a) for a in args))
            f = self.u.functor(self, obj)
            if f:
                return "%s(%s)" % (f, ", ".join(self.functor_arg(a) for a in args))
        # hooks of the contract module
        h = self.u.call_hook(self, e, name, obj, args, fdef, stmt)
        if h is not None:
            return h
        # std::vector<bool>: elements are accessed through proxies
        if name == "operator bool" and obj is not None and self.is_bit(obj):
            return self.ex(obj)
        if name == "operator=" and obj is not None and self.is_bit(obj):
            v = self.exval(args[0])
            pl = self.place(obj)
            if stmt:
                return ["%s = %s;" % (pl, v)]
            return "{ let t = %s; %s = t; t }" % (v, pl)
        # std:: members and functions
        r = self.std_call(e, name, obj, args, fdef, stmt, pre, want_place)
        if r is not None:
            return r
        if fdef is None:
            self.err(e, "call of unknown function %s" % name)
        con = self.u.contract_for(fdef, self, args)
        self.callees.add(fdef.get("_qual", name))
        if con is not None and con.ret_alias and not self.aliases(fdef, obj, args, con):
            lines = self.contract_call(con, fdef, obj, args, True)
            if stmt:
                return lines
            a = args[con.params.index(con.ret_alias)]
            pl = self.place(a)
            if want_place and pre is not None:
                pre.extend(lines)
                return pl
            return "{ %s %s }" % (" ".join(lines), pl if self.is_copy(self.ty(e)) else pl + ".clone_c()")
        if con is not None and not want_place and not self.aliases(fdef, obj, args, con):
            if obj is not None and not stmt and fdef["kind"] == "CXXMethodDecl" and fdef.get("storageClass") != "static" and not self.is_const_method(fdef):
                so = self.strip_callee(obj)
                t = fdef["type"]["qualType"]
                if so["kind"] != "CXXThisExpr" and so.get("valueCategory") != "lvalue" and cxx_type(t[:t.find("(")])[1] and not con.ret_mut and not con.ret_type and self.ret_type(fdef) == self.ty(obj):
                    # a member returning *this&, called on a temporary: the temporary is updated and is the value
                    tm = self.fresh("obj")
                    pre = "let mut %s = %s;" % (tm, self.exval(obj))
                    return "{ %s %s %s }" % (pre, " ".join(self.contract_call(con, fdef, obj, args, True, place=tm)), tm)
            return self.contract_call(con, fdef, obj, args, stmt)
        return self.inline(fdef, obj, args, stmt, want_place, pre, e)

    @staticmethod
    def is_bit(e):
        t = e["type"].get("desugaredQualType", e["type"]["qualType"])
        return "__bit_reference<" in t or "__bit_const_reference<" in t or "vector<bool" in t and t.endswith("reference")

    def functor_arg(self, a):
        return self.exval(a)

    def aliases(self, fdef, obj, args, con):
        """does a by-reference written argument share its root with another reference argument?"""
        ps = self.ix.params(fdef)
        muts, refs = [], []
        if obj is not None:
            (refs if self.is_const_method(fdef) else muts).append(self.rootname(obj))
        for p, a in zip(ps, args):
            t = p["type"].get("desugaredQualType", p["type"]["qualType"])
            base, ref, rref, ptr, const = cxx_type(t)
            if ref and const:
                if not self.is_copy(self.rbase(base)):
                    refs.append(self.rootname(a))
                elif self.strip(a).get("valueCategory") == "lvalue":
                    refs.append(self.rootname(a))
            elif ref:
                muts.append(self.rootname(a))
        muts = [m for m in muts if m]
        return any(m in refs for m in muts) or len(set(muts)) < len(muts)

    def rootname(self, e):
        try:
            e = self.strip(e)
            if e.get("valueCategory") not in ("lvalue", "xvalue") and e.get("kind") != "CXXThisExpr":
                return None
            p = self.place(e)
            m = re.match(r"^\(?\*?(\w+)", p)
            return re.sub(r"\(\*(\w+)\)", r"\1", p) if m else None
        except ExtractError:
            return None

    def contract_call(self, con, fdef, obj, args, stmt, place=None):
        ps = self.ix.params(fdef)
        out, post, pre = [], [], []
        const_self = True
        if obj is not None:
            const = const_self = self.is_const_method(fdef)
            pl = place if place else self.place(obj) if self.strip_callee(obj).get("valueCategory") == "lvalue" or self.strip_callee(obj)["kind"] in ("CXXThisExpr",) else self.ex(obj)
            if self.this is not None and pl == self.this.place and pl == "self_":
                out.append("self_")
            else:
                out.append(("&" if const else "&mut ") + pl)
        seen_bases = {}
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            if a is None or a["kind"] == "CXXDefaultArgExpr":
                a = self.default_arg(fdef, i)
            t = p["type"].get("desugaredQualType", p["type"]["qualType"])
            base, ref, rref, ptr, const = cxx_type(t)
            cname = con.params[i] if con.params else p.get("name")
            mode = con.modes.get(cname)
            if mode in ("null", "op", "erase"):
                continue
            if ptr == 1 and not ref:
                b, off = self.ptr(a)
                if b is None:
                    self.err(a, "null passed to non-null parameter")
                if mode == "out":
                    if b.kind != "outptr":
                        pl = "%s[(%s) as usize]" % (b.base, off)
                    else:
                        pl = b.place
                    out.append("&mut " + pl)
                elif mode and mode.startswith("ptr:"):
                    if mode not in seen_bases:
                        seen_bases[mode] = 1
                        out.append(self.borrow(b.base, const))
                    out.append(off)
                else:
                    if off != "0i64":
                        self.err(a, "array argument with an offset")
                    out.append(self.borrow(b.base, const))
                continue
            rt = self.rbase(base)
            if ref and not const:
                out.append("&mut " + self.place(a))
            elif (ref or rref) and not self.is_copy(rt):
                s = self.strip(a)
                if s.get("valueCategory") == "lvalue":
                    out.append("&" + self.place(a))
                else:
                    out.append("&" + self.ex(a))
            else:
                out.append(self.exval(a))
        # values read from places that are lent out by the same call are read first
        roots = set()
        if obj is not None and out and out[0] == "self_" and not const_self:
            roots.add("self_")
        for x in out:
            m = re.match(r"^&mut \(?\*?(\w+)", x)
            if m:
                roots.add(m.group(1))
        lets = []
        for i, x in enumerate(out):
            if not x.startswith("&") and not re.match(r"^\w+$", x) and any(re.search(r"\b%s\b" % r, x) for r in roots):
                tm = self.fresh("a")
                lets.append("let %s = %s;" % (tm, x))
                out[i] = tm
        out += [x.split(":")[0] for x in con.extra]
        r = "%s(%s)" % (con.rust, ", ".join(out))
        if lets and not stmt:
            r = "{ %s %s }" % (" ".join(lets), r)
        elif lets:
            pre = lets
        h = []
        if stmt:
            h1 = self.hint("call:%s.before" % con.rust)
            h2 = self.hint("call:%s.after" % con.rust)
            rt = self.ret_type(fdef) if not con.ret_type else con.ret_type
            return pre + h1 + [("let _ = " if rt != "()" else "") + r + ";"] + h2
        return r

    def borrow(self, base, const):
        if base in self.param_vecs():
            return base
        return ("&" if const else "&mut ") + base

    def param_vecs(self):
        if not hasattr(self, "_pv"):
            self._pv = set()
            for p in self.ix.params(self.fn):
                b = self.scopes.get(p["id"])
                if b is not None and b.kind == "ptr":
                    self._pv.add(b.base)
        return self._pv

    def default_arg(self, fdef, i):
        p = self.ix.params(fdef)[i]
        for c in p.get("inner", []):
            if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Attr"):
                return c
        # look at other declarations of the same function
        for g in self.ix.funcs:
            if g["_qual"] == fdef["_qual"]:
                ps = self.ix.params(g)
                if len(ps) > i:
                    for c in ps[i].get("inner", []):
                        if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Attr"):
                            return c
        self.err(p, "default argument")

    def bind_args(self, fdef, args):
        """bindings for inlining; returns prelude lines"""
        pre = []
        body = self.ix.body(fdef)
        mod = self.modified(body)
        pmod = self.modified(body, True) if getattr(self.u, "distinct_arrays", False) else mod
        newb = {}
        for i, p in enumerate(self.ix.params(fdef)):
            a = args[i] if i < len(args) else None
            if a is None or a["kind"] == "CXXDefaultArgExpr":
                a = self.default_arg(fdef, i)
            t = p["type"].get("desugaredQualType", p["type"]["qualType"])
            base, ref, rref, ptr, const = cxx_type(t)
            s = self.strip_callee(a)
            if s["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and s.get("inner"):
                s1 = self.strip_callee(s["inner"][0])
                if s1["kind"] in ("LambdaExpr",) or (s1["kind"] == "DeclRefExpr" and self.scopes.get(s1["referencedDecl"]["id"], Bind("x")).kind in ("lambda", "functor")):
                    s = s1
            if s["kind"] == "LambdaExpr":
                newb[p["id"]] = Bind("lambda", node=s)
                continue
            if s["kind"] == "DeclRefExpr":
                b = self.scopes.get(s["referencedDecl"]["id"])
                if b is not None and b.kind in ("lambda", "functor"):
                    newb[p["id"]] = b
                    continue
            fn = self.u.functor_value(self, a)
            if fn:
                newb[p["id"]] = Bind("functor", fn, base, rust=fn)
                continue
            if ptr and not ref:
                b, off = self.ptr(a)
                if b is None:
                    newb[p["id"]] = Bind("null")
                elif b.kind == "outptr":
                    newb[p["id"]] = b
                elif p["id"] in pmod or "{" in off:
                    nm = self.declare(p, "i64")
                    pre.append("let mut %s: i64 = %s;" % (nm, off))
                    newb[p["id"]] = Bind("ptr", nm, b.ty, base=b.base)
                else:
                    if off == "0i64":
                        newb[p["id"]] = Bind("ptr", None, b.ty, base=b.base)
                    else:
                        nm = self.declare(p, "i64")
                        pre.append("let %s: i64 = %s;" % (nm, off))
                        newb[p["id"]] = Bind("ptr", nm, b.ty, base=b.base)
                continue
            if ref and self.strip(a).get("valueCategory") in ("lvalue", "xvalue") and \
                    (self.strip(a)["kind"] != "ConditionalOperator"):
                pl = self.place(a, pre)
                newb[p["id"]] = Bind("place", pl, self.ty(a))
                continue
            rt = self.rbase(base)
            v = self.exval(a)
            nm = self.declare(p, rt)
            pre.append("let mut %s: %s = %s;" % (nm, rt, v))
            newb[p["id"]] = Bind("place", nm, rt)
        return pre, newb

    def inline(self, fdef, obj, args, stmt, want_place, pre_out, e):
        body = self.ix.body(fdef)
        if body is None:
            if fdef.get("name") == "operator=" and obj is not None:
                return self.trivial_assign(obj, args[0], stmt)
            self.err(e, "no body for %s" % fdef.get("_qual"))
        if len(self.inline_stack) > 12 or any(f is fdef for f in self.inline_stack):
            self.err(e, "recursion through a function without contract: %s" % fdef.get("_qual"))
        if fdef is self.fn:
            self.err(e, "recursive call without contract")
        if fdef.get("name") == "operator=" and not body.get("inner") and fdef.get("isImplicit"):
            return self.trivial_assign(obj, args[0], stmt)
        if fdef.get("name") == "operator=" and fdef.get("isImplicit"):
            return self.trivial_assign(obj, args[0], stmt)
        self.u.inlined.add(fdef.get("_qual", ""))
        pre, newb = self.bind_args(fdef, args)
        save, savethis = dict(self.scopes), self.this
        saveref = getattr(self, "inline_ref", False), getattr(self, "inline_place", None)
        if obj is not None and not (fdef.get("storageClass") == "static"):
            so = self.strip_callee(obj)
            if so["kind"] == "CXXThisExpr":
                pl = self.this.place
            elif so.get("valueCategory") == "lvalue":
                pl = self.place(obj, pre)
            else:
                pl = self.fresh("obj")
                pre.append("let mut %s = %s;" % (pl, self.ex(obj)))
            self.this = Bind("place", pl, self.ty(obj) if so["kind"] != "CXXThisExpr" else self.this.ty)
        self.scopes = dict(save)
        self.scopes.update(newb)
        self.inline_stack.append(fdef)
        rt_s = fdef["type"]["qualType"]
        j = rt_s.find("(")
        rbase, rref, _, rptr, rconst = cxx_type(rt_s[:j])
        isref = rref
        self.inline_ref, self.inline_place = isref, None
        save_ls = self.loop_stack
        self.loop_stack = []
        try:
            lines = self.stmts(body.get("inner", []), "inline")
        finally:
            self.inline_stack.pop()
            self.loop_stack = save_ls
        place = self.inline_place
        self.inline_ref, self.inline_place = saveref
        self.scopes, self.this = save, savethis
        if isref:
            if lines and (lines[-1] == "()" or lines[-1].endswith("\n()")):
                lines = lines[:-1] + ([lines[-1][:-3]] if lines[-1] != "()" else [])
            if want_place:
                allp = pre + lines
                if allp:
                    if pre_out is None:
                        if place is not None and not any(l for l in allp):
                            return place
                        # effects then place, as an expression
                        if self.is_copy(self.ty(e)):
                            return "{ %s %s }" % (" ".join(allp), place)
                        self.err(e, "effects inside an lvalue call")
                    pre_out.extend(allp)
                return place
            if stmt:
                return pre + lines
            if not pre and not lines:
                return place
            return "{ %s %s }" % ("\n".join(pre + lines), place)
        if stmt:
            if rbase == "void":
                return ["{"] + pre + lines + ["}"]
            return ["{ let _ = {"] + pre + lines + ["}; }"]
        if len(lines) == 1 and not pre and not lines[0].rstrip().endswith(";"):
            return lines[0]
        return "{ %s }" % "\n".join(pre + lines)

    def trivial_assign(self, obj, a, stmt):
        v = self.exval(a)
        pre = []
        pl = self.place(obj, pre)
        if stmt:
            return pre + ["%s = %s;" % (pl, v)]
        return "{ %s %s = %s; %s }" % (" ".join(pre), pl, v, pl)

    def inline_lambda(self, node, args, stmt):
        op = None
        for c in node["inner"]:
            if c.get("kind") == "CXXRecordDecl":
                for m in c.get("inner", []):
                    if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                        op = m
        if op is None:
            self.err(node, "lambda without operator()")
        if any(f is op for f in self.inline_stack):
            self.err(node, "recursive lambda")
        body = self.ix.body(op)
        if body is None:
            for c in node["inner"]:
                if c.get("kind") == "CompoundStmt":
                    body = c
        pre, newb = self.bind_args({**op, "inner": [c for c in op["inner"] if c.get("kind") != "CompoundStmt"] + [body]}, args)
        save = dict(self.scopes)
        self.scopes.update(newb)
        self.inline_stack.append(op)
        saveref = getattr(self, "inline_ref", False), getattr(self, "inline_place", None)
        self.inline_ref = False
        lines = self.stmts(body.get("inner", []), "inline")
        self.inline_ref, self.inline_place = saveref
        self.inline_stack.pop()
        self.scopes = save
        if stmt:
            return ["{ let _ = {"] + pre + lines + ["}; }"]
        if len(lines) == 1 and not pre and not lines[0].rstrip().endswith(";"):
            return lines[0]
        return "{ %s }" % "\n".join(pre + lines)

    def construct(self, e, inner):
        rt = self.ty(e)
        if rt.startswith("UMap<") and not [c for c in inner if c["kind"] != "CXXDefaultArgExpr"]:
            return "UMap::new()"
        if rt in RUSTINT or rt == "bool":
            return self.ex(inner[0]) if inner else self.u.zero(rt)
        args = inner
        # copy / move construction
        if len(args) == 1:
            try:
                at = self.ty(args[0])
            except ExtractError:
                at = None
            if at == rt:
                return self.exval(args[0])
        if rt.startswith("Vec<"):
            et = rt[4:-1]
            a = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
            if not a:
                return "Vec::new()"
            il = a[0] if len(a) == 1 else None
            while il is not None and il["kind"] in self.TRANSP + ("CXXStdInitializerListExpr",):
                if il["kind"] == "CXXStdInitializerListExpr":
                    il = self.strip(il["inner"][0])
                    if il["kind"] == "InitListExpr" and 1 <= len(il["inner"]) <= 3 and not il.get("array_filler"):
                        return "vec_of%d(%s)" % (len(il["inner"]), ", ".join(self.exval(x) for x in il["inner"]))
                    self.err(e, "initializer list")
                il = (il.get("inner") or [None])[0]
            if len(a) == 1 and self.ty(a[0]) in RUSTINT and et.startswith("Vec<"):
                return "vec_new_vv::<%s>(%s)" % (et[4:-1], self.cast(self.ex(a[0]), self.ty(a[0]), "u64"))  # defined by the unit
            if len(a) == 1 and self.ty(a[0]) in RUSTINT:
                return "vec_new_n::<%s>(%s, %s)" % (et, self.cast(self.ex(a[0]), self.ty(a[0]), "u64"), self.u.zero(et))
            if len(a) == 2 and self.ty(a[0]) in RUSTINT and et.startswith("Vec<"):
                return "vec_new_vvn::<%s>(%s, %s)" % (et[4:-1], self.cast(self.ex(a[0]), self.ty(a[0]), "u64"), self.exval(a[1]))  # defined by the unit
            if len(a) == 2 and self.ty(a[0]) in RUSTINT:
                return "vec_new_n::<%s>(%s, %s)" % (et, self.cast(self.ex(a[0]), self.ty(a[0]), "u64"), self.exval(a[1]))
            if len(a) == 2 and self.isptr(a[0]) and self.isptr(a[1]):
                b1, o1 = self.ptr(a[0])
                b2, o2 = self.ptr(a[1])
                if b1 is not None and b2 is not None and b1.base == b2.base:
                    return "vec_from_range(&%s, %s, %s)" % (b1.base, o1, o2)
            self.err(e, "vector constructor")
        if rt.startswith("("):
            if len(args) == 2:
                return "(%s, %s)" % (self.exval(args[0]), self.exval(args[1]))
            if not args:
                return self.u.zero(rt)
        if rt.startswith("[") and not args:
            return self.u.arbitrary(rt)
        h = self.u.construct_hook(self, e, rt, args)
        if h is not None:
            return h
        if rt in self.u.structs:
            return self.ctor(e, rt, args)
        self.err(e, "construction of " + rt)

    def ctor(self, e, rt, args):
        cls = self.u.structs[rt]["decl"]
        ctor = self.u.find_ctor(cls, e, args)
        if ctor is None:
            self.err(e, "constructor not found for " + rt)
        return self.inline_ctor(ctor, rt, args)

    def inline_ctor(self, ctor, rt, args):
        st = self.u.structs[rt]
        pre, newb = self.bind_args(ctor, args)
        save, savethis = dict(self.scopes), self.this
        self.scopes.update(newb)
        self.inline_stack.append(ctor)
        t = self.fresh("o")
        vals = {}
        lines = []
        self.this = Bind("place", t, rt)
        for f, ft in st["fields"]:
            vals[f] = None
        lines.append("let mut %s = %s { %s };" % (t, rt, ", ".join("%s: %s" % (f, self.u.arbitrary(ft)) for f, ft in st["fields"])))
        self.ctor_inits(ctor, t, rt, lines)
        b = self.ix.body(ctor)
        if b is not None:
            lines += self.stmts(b.get("inner", []), "inline")
        self.inline_stack.pop()
        self.scopes, self.this = save, savethis
        return "{ %s %s }" % ("\n".join(pre + lines), t)

    def ctor_inits(self, ctor, t, rt, lines):
        st = self.u.structs[rt]
        done = set()
        for ini in ctor.get("inner", []):
            if ini.get("kind") != "CXXCtorInitializer":
                continue
            ie = ini["inner"][0]
            if "anyInit" in ini:
                f = self.field(ini["anyInit"]["name"])
                done.add(f)
                if ie["kind"] == "CXXDefaultInitExpr":
                    fd = self.u.default_init(rt, f)
                    lines.append("%s.%s = %s;" % (t, f, self.ex(fd)))
                    continue
                lines.append("%s.%s = %s;" % (t, f, self.exval(ie)))
            elif "baseInit" in ini or "delegatingInit" in ini:
                be = self.strip(ie)
                bargs = [c for c in be.get("inner", []) if isinstance(c, dict) and c.get("kind")]
                bcls = self.u.base_decl(ini, be)
                bct = self.u.find_ctor(bcls, be, bargs)
                if bct is None:
                    self.err(ctor, "base constructor")
                pre, newb = self.bind_args(bct, bargs)
                save = dict(self.scopes)
                lines.extend(pre)
                self.scopes.update(newb)
                self.ctor_inits(bct, t, rt, lines)
                b = self.ix.body(bct)
                if b is not None:
                    lines.extend(self.stmts(b.get("inner", []), "inline"))
                self.scopes = save
            else:
                self.err(ctor, "constructor initializer")

    # ---------------------------------------------------------------- standard library
    def vec_fill(self, fn, pl, n, v):
        n = self.cast(self.ex(n), self.ty(n), "u64")
        tn, tv = self.fresh("n"), self.fresh("v")
        return ["{", "let %s: u64 = %s;" % (tn, n), "let %s = %s;" % (tv, v), "%s(&mut %s, %s, %s);" % (fn, pl, tn, tv), "}"]

    def std_call(self, e, name, obj, args, fdef, stmt, pre=None, want_place=False):
        if fdef is not None and self.ix.has_body(fdef):
            return None
        if obj is not None:
            try:
                ot = self.ty(obj)
            except ExtractError:
                ot = ""
            if ot.startswith("UMap<"):
                pl = self.place(obj, pre) if self.strip_callee(obj).get("valueCategory") == "lvalue" else self.ex(obj)
                kt, vt = split_targs(ot[5:-1])[:2]
                if name == "insert" and len(args) == 1 and self.ty(args[0]).startswith("("):
                    t = self.fresh("kv")
                    return "{ let %s = %s; ((), %s.insert(%s.0, %s.1)) }" % (t, self.exval(args[0]), pl, t, t)
                if name == "operator=":
                    return self.trivial_assign(obj, args[0], stmt)
                k = self.exval(args[0]) if args else None
                if name in ("count", "erase"):
                    return "%s.%s(%s)" % (pl, name, k)
                const = "const" in self.strip_callee(obj)["type"]["qualType"].split("<")[0] or e.get("type", {}).get("qualType", "").startswith("const") 
                if name == "at":
                    return "%s.get_at(%s)" % (pl, k) if const or not want_place else "(*%s.at_mut(%s))" % (pl, k)
                if name == "operator[]":
                    return "(*%s.index_mut(%s, %s))" % (pl, k, self.u.zero(vt.strip()))
                if name == "clear":
                    return ["%s = UMap::new();" % pl]
            if ot.startswith("Vec<"):
                et = ot[4:-1]
                pl = self.place(obj) if self.strip_callee(obj).get("valueCategory") == "lvalue" else self.ex(obj)
                n = name
                if n == "size":
                    return "vec_len(&%s)" % pl
                if n == "empty":
                    return "(%s.len() == 0)" % pl
                if n in ("push_back", "emplace_back"):
                    return ["%s.push(%s);" % (pl, self.exval(args[0]))]
                if n == "pop_back":
                    return ["vec_pop(&mut %s);" % pl]
                if n == "back" and pre is not None:
                    t = self.fresh("bk")
                    pre.append("let %s: usize = %s.len() - 1;" % (t, pl))
                    return "%s[%s]" % (pl, t)
                if n == "back":
                    return "%s[%s.len() - 1]" % (pl, pl)
                if n == "front":
                    return "%s[0usize]" % pl
                if n == "clear":
                    return ["%s.clear();" % pl]
                if n == "resize":
                    v = self.exval(args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else self.u.zero(et)
                    return self.vec_fill("vec_resize", pl, args[0], v)
                if n == "assign":
                    if self.ty(args[0]) in RUSTINT:
                        return self.vec_fill("vec_assign", pl, args[0], self.exval(args[1]))
                if n == "reserve":
                    return ["{ let _ = %s; }" % self.ex(args[0])]
                if n == "operator[]" or n == "at":
                    pre = []
                    ix = self.index(self.ex(args[0]), self.ty(args[0]), pre)
                    if pre and self.effectful(" ".join(pre)):
                        return "{ %s %s[%s] }" % (" ".join(pre), pl, ix)
                    return "%s[%s]" % (pl, self.index(self.ex(args[0]), self.ty(args[0]), None))
                if n == "operator=":
                    return self.trivial_assign(obj, args[0], stmt)
                if n == "swap":
                    return ["vec_swap_all(&mut %s, &mut %s);" % (pl, self.place(args[0]))]
            if ot.startswith("[") and name == "operator[]":
                pl = self.place(obj) if self.strip_callee(obj).get("valueCategory") == "lvalue" else self.ex(obj)
                return "%s[%s]" % (pl, self.index(self.ex(args[0]), self.ty(args[0]), None))
            if ot.startswith("[") and name == "size":
                return ot[ot.rindex(";") + 2:-1] + "u64"
            if ot.startswith("(") and name == "operator=":
                return self.trivial_assign(obj, args[0], stmt)
            if name == "operator=" and self.is_copy(ot):
                return self.trivial_assign(obj, args[0], stmt)
        if name in ("move", "forward") and len(args) == 1:
            return self.exval(args[0])
        if name == "distance" and len(args) == 2:
            b1, o1 = self.ptr(args[0])
            b2, o2 = self.ptr(args[1])
            if b1.base != b2.base:
                self.err(e, "distance between different sequences")
            return "(%s - %s)" % (o2, o1)
        if name in ("copy", "fill", "reverse") and len(args) in (2, 3) and stmt:
            b1, o1 = self.ptr(args[0])
            b2, o2 = self.ptr(args[1])
            if b1.base != b2.base:
                self.err(e, "range over different sequences")
            ti, tj = self.fresh("ri"), self.fresh("rj")
            out = ["{", "let %s: i64 = %s; let %s: i64 = %s;" % (ti, o1, tj, o2)]
            if name == "reverse":
                return out + ["vec_reverse_range(%s, %s, %s);" % (self.borrow(b1.base, False), ti, tj), "}"]
            if name == "fill":
                tv = self.fresh("rv")
                return out + ["let %s = %s;" % (tv, self.exval(args[2])), "vec_fill_range(&mut %s, %s, %s, %s);" % (b1.base, ti, tj, tv), "}"]
            b3, o3 = self.ptr(args[2])
            if b3.base == b1.base:
                self.err(e, "copy within a sequence")
            tk = self.fresh("rk")
            return out + ["let %s: i64 = %s;" % (tk, o3), "vec_copy_range(&%s, %s, %s, &mut %s, %s);" % (b1.base, ti, tj, b3.base, tk), "}"]
        if name in ("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow") and len(args) == 3:
            t = self.ty(args[0])
            b, off = self.ptr(args[2])
            if b is None or b.kind != "outptr" or b.ty != t or self.ty(args[1]) != t:
                self.err(e, name)
            v = self.fresh("ov")
            return "{ let %s = %s_%so(%s, %s); %s = %s.0; %s.1 }" % (v, t, name[10:13], self.ex(args[0]), self.ex(args[1]), b.place, v, v)
        if name == "swap" and len(args) == 2:
            t = self.fresh("sw")
            pre = []
            a, b = self.place(args[0], pre), self.place(args[1], pre)
            rt = self.ty(args[0])
            if self.is_copy(rt):
                return ["{"] + pre + ["let %s = %s; %s = %s; %s = %s;" % (t, a, a, b, b, t), "}"]
            return ["{"] + pre + ["let %s = %s.clone_c(); %s = %s.clone_c(); %s = %s;" % (t, a, a, b, b, t), "}"]
        if name in ("min", "max") and len(args) == 2:
            t = self.ty(args[0])
            if t in RUSTINT:
                return "%s_%s(%s, %s)" % (t, name, self.ex(args[0]), self.ex(args[1]))
        if name == "abs" and len(args) == 1 and self.ty(args[0]) in RUSTINT:
            t = self.ty(args[0])
            return "%s_abs(%s)" % (t, self.ex(args[0]))
        f = self.u.externs.get(name)
        if f:
            return "%s(%s)" % (f, ", ".join(self.exval(a) for a in args))
        return None
