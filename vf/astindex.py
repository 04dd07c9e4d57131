"""Index of clang's JSON AST for one translation unit, restricted to the declarations of the code under test."""
import json, subprocess, os, re

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-stdlib=libc++", "-std=gnu++14", "-pthread", "-w", "-fms-extensions", "-fms-compatibility",
         "-fms-compatibility-version=19.30", "-U_MSC_VER", "-fno-delayed-template-parsing",
         "-include", os.path.join(HERE, "gnuc_macros.h"), "-include", "utility",
         "-I" + REPO + "/include", "-I" + REPO + "/experimental/include", "-I" + REPO + "/src", "-I" + REPO]


class ExtractError(Exception):
    """The code could not be brought into the verifier's language (never a violation by itself)."""


def load(tu_path, extra=()):
    cmd = ["clang++"] + FLAGS + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
                                              "-Xclang", "-ast-dump-filter=altruct", tu_path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise ExtractError("clang failed: " + p.stderr.decode()[-2000:])
    txt = p.stdout.decode()
    dec = json.JSONDecoder()
    docs, pos, n = [], 0, len(txt)
    while pos < n:
        while pos < n and txt[pos].isspace():
            pos += 1
        if pos >= n:
            break
        d, pos = dec.raw_decode(txt, pos)
        docs.append(d)
    _annotate(docs)
    for d in docs:
        _iterators(d)
    return Index(docs)


SCOPES = {"NamespaceDecl", "CXXRecordDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl",
          "ClassTemplatePartialSpecializationDecl", "FunctionTemplateDecl", "FunctionDecl", "CXXMethodDecl",
          "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl", "EnumDecl", "LinkageSpecDecl"}
FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"}


TD = {"int8_t": "signed char", "uint8_t": "unsigned char", "int16_t": "short", "uint16_t": "unsigned short", "int32_t": "int",
      "uint32_t": "unsigned int", "int64_t": "long", "uint64_t": "unsigned long", "size_t": "unsigned long"}


def canon(t):
    return re.sub(r"\b(?:std::)?(u?int(?:8|16|32|64)_t|size_t)\b", lambda m: TD[m.group(1)], t)


class Index:
    def __init__(self, docs):
        self.byid = {}
        self.qual = {}
        self.parent = {}
        self.funcs = []
        self.fields = {}
        for d in docs:
            self._walk(d, None, "")

    def targs(self, node):
        out = []
        for c in node.get("inner", []):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    out.append(c["type"].get("desugaredQualType", c["type"]["qualType"]))
                elif "value" in c:
                    out.append(str(c["value"]))
                elif "inner" in c and c["inner"]:
                    out.append(str(c["inner"][0].get("value", "?")))
                else:
                    out.append("?")
        return out

    def _walk(self, node, parent, q):
        kind = node.get("kind")
        if kind is None:
            return
        nid = node.get("id")
        if nid and kind.endswith("Decl"):
            old = self.byid.get(nid)
            if old is None or (not self.has_body(old)):
                self.byid[nid] = node
            if parent is not None:
                self.parent[nid] = parent
            elif "parentDeclContextId" in node:
                pass
        if kind in SCOPES or kind in ("ClassTemplateSpecializationDecl",):
            name = node.get("name", "")
            if kind in ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl"):
                nq = q
            else:
                nm = name
                if kind == "ClassTemplateSpecializationDecl":
                    nm = name + "<" + ",".join(self.targs(node)) + ">"
                nq = (q + "::" + nm) if q else nm
            if nid:
                if not q and "parentDeclContextId" in node and node["parentDeclContextId"] in self.qual:
                    nq = self.qual[node["parentDeclContextId"]] + "::" + node.get("name", "")
                self.qual[nid] = nq
            if kind in FUNCS:
                node["_qual"] = nq
                node["_targs"] = self.targs(node)
                self.funcs.append(node)
        else:
            nq = q
        for c in node.get("inner", []):
            if isinstance(c, dict) and c.get("kind"):
                if kind in FUNCS and not c["kind"].endswith("Decl"):
                    self._decls_in(c, node, nq)
                    continue
                self._walk(c, node, nq)

    def _decls_in(self, node, parent, q):
        """bodies: register local declarations and lambda classes"""
        stack = [node]
        while stack:
            n = stack.pop()
            k = n.get("kind")
            if not k:
                continue
            if k.endswith("Decl") and n.get("id"):
                self.byid.setdefault(n["id"], n)
            stack.extend(c for c in n.get("inner", []) if isinstance(c, dict))

    @staticmethod
    def body(fn):
        for c in fn.get("inner", []):
            if c.get("kind") == "CompoundStmt":
                return c
        return None

    @classmethod
    def has_body(cls, fn):
        return any(isinstance(c, dict) and c.get("kind") == "CompoundStmt" for c in fn.get("inner", []))

    @staticmethod
    def params(fn):
        return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]

    def find(self, qual, sig=None, targs=None, pred=None):
        """functions with a body whose qualified name is `qual`"""
        res, seen = [], set()
        for f in self.funcs:
            if f["_qual"] != qual or not self.has_body(f):
                continue
            t = f["type"].get("desugaredQualType", f["type"]["qualType"])
            if sig is not None and not (t == sig or f["type"]["qualType"] == sig or canon(f["type"]["qualType"]) == sig):
                continue
            if targs is not None and f["_targs"] != list(targs):
                continue
            if pred and not pred(f):
                continue
            if self._is_pattern(f):
                continue
            if f["id"] in seen:
                continue
            seen.add(f["id"])
            res.append(f)
        return res

    def _is_pattern(self, f):
        """an uninstantiated template pattern"""
        p = self.parent.get(f["id"])
        if p is not None and p.get("kind") == "FunctionTemplateDecl" and not f["_targs"]:
            return True
        while p is not None:
            if p.get("kind") in ("ClassTemplateDecl",):
                return True
            if p.get("kind") == "ClassTemplatePartialSpecializationDecl":
                return True
            if p.get("kind") == "ClassTemplateSpecializationDecl":
                return False
            p = self.parent.get(p.get("id"))
        return False

    def resolve(self, ref):
        """definition for a referenced declaration id"""
        f = self.byid.get(ref)
        if f is None:
            return None
        if f.get("kind") in FUNCS and not self.has_body(f):
            q = f.get("_qual") or self.qual.get(ref)
            for g in self.funcs:
                if g["_qual"] == q and self.has_body(g) and g["type"]["qualType"] == f["type"]["qualType"] \
                        and not self._is_pattern(g) and g["_targs"] == f.get("_targs", []):
                    return g
        return f


WI = re.compile(r"(?:const )?(?:std::)?(?:__1::)?(?:class )?__wrap_iter<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*)>")


def _iterators(d):
    """vector iterators are thin wrappers around pointers: their operator calls become the built-in pointer operators"""
    def sub(t):
        was = False
        for k in ("qualType", "desugaredQualType"):
            if k in t and "__wrap_iter" in t[k]:
                t[k], was = WI.sub(lambda m: m.group(1), t[k]), True
        if was and "desugaredQualType" in t:
            t["qualType"] = t["desugaredQualType"]
        return was

    def callee(n):
        c = n["inner"][0]
        while c.get("inner") and c.get("kind") != "DeclRefExpr":
            c = c["inner"][0]
        return c.get("referencedDecl", {}).get("name", "") if c.get("kind") == "DeclRefExpr" else ""

    def walk(n):
        it = False
        if isinstance(n.get("type"), dict):
            it = sub(n["type"])
        if isinstance(n.get("referencedDecl"), dict) and isinstance(n["referencedDecl"].get("type"), dict):
            sub(n["referencedDecl"]["type"])
        its = []
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind"):
                its.append(walk(c))
        k = n.get("kind")
        if k == "CXXOperatorCallExpr" and len(its) > 1 and any(its[1:]):
            op, args = callee(n)[8:].strip(), n["inner"][1:]
            if op in ("++", "--"):
                n.update(kind="UnaryOperator", opcode=op, isPostfix=len(args) == 2, inner=args[:1])
            elif op == "*" and len(args) == 1:
                n.update(kind="UnaryOperator", opcode="*", inner=args)
            elif op == "->":
                n.update(kind="ParenExpr", inner=args, type=args[0]["type"])
                return True
            elif op == "[]":
                n.update(kind="ArraySubscriptExpr", inner=args)
            elif op in ("==", "!=", "<", "<=", ">", ">=", "+", "-", "="):
                n.update(kind="BinaryOperator", opcode=op, inner=args)
            elif op in ("+=", "-="):
                n.update(kind="CompoundAssignOperator", opcode=op, inner=args)
        elif k == "CallExpr" and len(its) == 3 and callee(n) == "distance" and all(its[1:]):
            a, b = n["inner"][1:]
            n.update(kind="BinaryOperator", opcode="-", inner=[b, a])
        elif k == "CXXConstructExpr" and it and len(n.get("inner", [])) == 1:
            n.update(kind="ImplicitCastExpr", castKind="NoOp")
        elif k in ("MaterializeTemporaryExpr", "ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr") and its:
            it = it or its[-1]
        return it
    walk(d)


def _annotate(docs):
    """absolute file/line for every node (clang omits repeated values)"""
    cur = {"file": None, "line": None}

    def loc(d):
        if not isinstance(d, dict):
            return None
        if "spellingLoc" in d or "expansionLoc" in d:
            s = loc(d.get("spellingLoc", {}))
            e = loc(d.get("expansionLoc", {}))
            for k in ("offset", "tokLen"):
                if "expansionLoc" in d and k in d["expansionLoc"]:
                    d[k] = d["expansionLoc"][k]
            return e or s
        if "offset" not in d:
            return None
        if "file" in d:
            cur["file"] = d["file"]
        if "line" in d:
            cur["line"] = d["line"]
        return cur["file"], cur["line"]

    def walk(n):
        l = None
        if "loc" in n:
            l = loc(n["loc"])
        if "range" in n:
            b = loc(n["range"].get("begin", {}))
            e = loc(n["range"].get("end", {}))
            l = b or l
        if l:
            n["_file"], n["_line"] = l
        for k, v in list(n.items()):
            if k in ("loc", "range"):
                continue
            if isinstance(v, list):
                for c in v:
                    if isinstance(c, dict):
                        walk(c)
            elif isinstance(v, dict) and "kind" in v and k not in ("type",):
                walk(v)
    for d in docs:
        walk(d)
