"""Front end: dumps clang's typed AST of /repo's current sources and indexes it.

Nothing here is written by hand about the code under verification: functions, records, enums, typedefs and template
instantiations are read from the AST that clang produces from /repo on this run.
"""
import sys
sys.setrecursionlimit(20000)
import json, os, subprocess, tempfile, hashlib, re, sys, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
FLAGS = ["-std=gnu++20", "-DENABLE_BOOST_GRAPH_SEARCH", "-I%s/external/ordered-map/include" % REPO,
         "-I%s/external/json/include" % REPO, "-I%s/external/include" % REPO, "-I%s/include" % REPO,
         "-I/usr/include/postgresql"]

ALL_SOURCES = """dag/directed_graph dag/domain_dags gates/parse_gates gates/gates gates/gate_approximator
gates/decompose_rotation_stream patches/dense_slice patches/dense_patch_computation patches/patches
patches/sparse_slice patches/slices_to_json patches/slice_stats layout/dynamic_layouts/determine_exposed_operators
layout/graph_search/custom_graph_search layout/router layout/layout
ls_instructions/boundary_rotation_injection_stream ls_instructions/ls_instructions_from_gates
ls_instructions/ls_instructions_parse ls_instructions/ls_instruction_stream ls_instructions/ls_instructions
ls_instructions/parse_utils ls_instructions/teleported_s_gate_injection_stream
ls_instructions/catalytic_s_gate_injection_stream ls_instructions/local_instructions
scheduler/wave_scheduler""".split()


class FrontError(Exception):
    pass


def dump_ast(sources, workdir):
    """One translation unit that includes the real .cpp files; returns the list of AST documents."""
    tu = os.path.join(workdir, "unity_%s.cpp" % hashlib.sha1(" ".join(sources).encode()).hexdigest()[:8])
    with open(tu, "w") as f:
        for s in sources:
            p = os.path.join(REPO, "src", s + ".cpp")
            if os.path.exists(p):
                f.write('#include "%s"\n' % p)
    out = tu + ".json"
    cmd = [CLANG] + FLAGS + ["-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=ls", tu]
    with open(out, "w") as fo:
        r = subprocess.run(cmd, stdout=fo, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise FrontError("clang failed: " + r.stderr[:2000])
    s = open(out).read()
    os.unlink(out)
    d = json.JSONDecoder()
    docs, i, n = [], 0, len(s)
    ws = re.compile(r"\s*")
    cur = [None, None]
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        _track(o, cur)
        if o.get("kind") == "NamespaceDecl" and o.get("name") in ("lsqecc", "lstk"):
            docs.append(o)
    return docs


def _track(o, cur):
    """clang prints a location's file and line only when they change; make them explicit again"""
    for k, v in o.items():
        if k == "inner":
            for c in v:
                if c:
                    _track(c, cur)
        elif k == "loc" or k == "begin" or k == "end":
            _loc(v, cur)
        elif k == "range":
            for x in v.values():
                _loc(x, cur)


def _loc(v, cur):
    if "offset" in v:
        if "file" in v:
            cur[0] = v["file"]
        if "line" in v:
            cur[1] = v["line"]
        v["file"], v["line"] = cur
    else:
        for k in v:
            if k in ("spellingLoc", "expansionLoc"):
                _loc(v[k], cur)


# ---------------------------------------------------------------- C++ type strings
class Ty:
    __slots__ = ("kind", "name", "args", "inner", "const", "n")

    def __init__(self, kind, name=None, args=None, inner=None, const=False, n=None):
        self.kind, self.name, self.args, self.inner, self.const, self.n = kind, name, args or [], inner, const, n

    def key(self):
        if self.kind == "named":
            return self.name + ("<" + ",".join(a.key() if isinstance(a, Ty) else str(a) for a in self.args) + ">" if self.args else "")
        if self.kind == "arr":
            return self.inner.key() + "[%s]" % self.n
        if self.kind == "fun":
            return self.inner.key() + "(" + ",".join(a.key() for a in self.args) + ")"
        return self.inner.key() + {"ptr": "*", "ref": "&"}[self.kind]

    def strip(self):
        t = self
        while t.kind == "ref":
            t = t.inner
        return t

    def __repr__(self):
        return "Ty(%s)" % self.key()


_tok = re.compile(r"\s*(\(lambda at [^)]*\)|\(unnamed [^)]*\)|\(anonymous [^)]*\)|::|[A-Za-z_][A-Za-z_0-9]*|\d+[UL]*|'.'|\.\.\.|[<>,&*()\[\]=!:\-+.|~{}])")
_tycache = {}


def parse_type(s):
    if s in _tycache:
        return _tycache[s]
    toks, i = [], 0
    while i < len(s):
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise FrontError("type? " + s)
        toks.append(m.group(1))
        i = m.end()
    p = _TP(toks, s)
    try:
        t = p.type()
    except IndexError:
        t = Ty("named", s)
    _tycache[s] = t
    return t


class _TP:
    def __init__(self, toks, src):
        self.t, self.i, self.src = toks, 0, src

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def type(self):
        const = False
        words = []
        while self.peek() in ("const", "volatile", "struct", "class", "enum", "typename"):
            if self.next() == "const":
                const = True
        base = None
        prim = {"unsigned", "signed", "int", "long", "short", "char", "bool", "void", "float", "double", "auto", "__int128"}
        if self.peek() in prim:
            while self.peek() in prim or self.peek() == "const":
                w = self.next()
                if w == "const":
                    const = True
                else:
                    words.append(w)
            base = Ty("named", " ".join(words), const=const)
        else:
            name = ""
            args = []
            if self.peek() == "::":
                self.next()
            while True:
                tk = self.next()
                if tk is None:
                    break
                if tk == "(" :
                    # '(anonymous namespace)' etc. already single tokens
                    self.i -= 1
                    break
                name += tk
                if self.peek() == "<":
                    self.next()
                    args = []
                    while self.peek() != ">":
                        args.append(self.targ())
                        if self.peek() == ",":
                            self.next()
                    self.next()
                if self.peek() == "::":
                    self.next()
                    if args:
                        name += "<" + ",".join(a.key() if isinstance(a, Ty) else str(a) for a in args) + ">"
                        args = []
                    name += "::"
                    continue
                break
            base = Ty("named", name, args, const=const)
        return self.suffix(base)

    def suffix(self, t):
        while True:
            k = self.peek()
            if k == "const" or k == "volatile":
                self.next()
                t = Ty(t.kind, t.name, t.args, t.inner, True, t.n)
            elif k == "*":
                self.next()
                t = Ty("ptr", inner=t)
            elif k == "&":
                self.next()
                if self.peek() == "&":
                    self.next()
                t = Ty("ref", inner=t)
            elif k == "[":
                self.next()
                n = self.next() if self.peek() != "]" else None
                if self.peek() == "]":
                    self.next()
                t = Ty("arr", inner=t, n=int(re.sub("[UL]", "", n)) if n and n[0].isdigit() else None)
            elif k == "(":
                # function type / pointer to function / reference to array
                save = self.i
                self.next()
                if self.peek() in ("*", "&"):
                    r = self.next()
                    if self.peek() == "&":
                        self.next()
                    if self.peek() == "const":
                        self.next()
                    if self.peek() == ")":
                        self.next()
                        inner = self.suffix(t)
                        t = Ty("ptr" if r == "*" else "ref", inner=inner)
                        continue
                    self.i = save
                    return t
                args = []
                while self.peek() != ")":
                    if self.peek() == "...":
                        self.next()
                        continue
                    args.append(self.type())
                    if self.peek() == ",":
                        self.next()
                self.next()
                while self.peek() in ("const", "noexcept", "&", "volatile"):
                    self.next()
                    if self.peek() == "(":
                        d = 0
                        while True:
                            x = self.next()
                            d += (x == "(") - (x == ")")
                            if d == 0:
                                break
                if self.peek() == "-":   # trailing return
                    self.next(); self.next()
                    t = self.type()
                t = Ty("fun", inner=t, args=args)
            else:
                return t

    def targ(self):
        k = self.peek()
        if k and (k[0].isdigit() or k == "-"):
            s = self.next()
            if s == "-":
                s += self.next()
            return int(re.sub("[UL]", "", s))
        if k in ("true", "false"):
            return self.next() == "true"
        if k == "(" and False:
            pass
        return self.type()


# ---------------------------------------------------------------- program index
FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl")


class Func:
    def __init__(self, node, qual, cls):
        self.node, self.qual, self.cls = node, qual, cls
        self.params = [c for c in node.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        self.body = next((c for c in node.get("inner", []) if c.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
        self.inits = [c for c in node.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]

    @property
    def ty(self):
        return self.node["type"].get("qualType", "")

    @property
    def static(self):
        return self.node.get("storageClass") == "static"


class Record:
    def __init__(self, name):
        self.name = name
        self.fields = []     # (name, typestring, FieldDecl node)
        self.bases = []      # type strings
        self.abstract = False
        self.node = None
        self.methods = {}


class Program:
    def __init__(self, docs):
        self.by_id = {}
        self.canon = {}        # id -> canonical id (first declaration)
        self.defs = {}         # canonical id -> Func with body
        self.decl = {}         # id -> Func (any)
        self.funcs = {}        # qualified name -> [Func with body]
        self.records = {}      # qualified name -> Record
        self.rec_last = {}     # last component -> [qualified]
        self.enums = {}        # qualified -> {const: value}
        self.enum_last = {}
        self.enum_under = {}
        self.enum_const = {}   # decl id -> (enum, value)
        self.typedefs = {}     # last component -> [(qualified, typestring)]
        self.alias_templates = {}
        self.globals = {}      # id -> VarDecl node
        self.loopvars = None
        self.files = {}
        for d in docs:
            self._walk(d, [], None)
        for fid, f in list(self.decl.items()):
            if f.body is not None:
                c = self._canon(fid)
                self.defs[c] = f
                self.funcs.setdefault(f.qual, [])
                if f not in self.funcs[f.qual]:
                    self.funcs[f.qual].append(f)
                self.number_loops(f)

    def _canon(self, i):
        seen = set()
        while i in self.canon and i not in seen:
            seen.add(i)
            i = self.canon[i]
        return i

    def _walk(self, n, scope, cls):
        k = n.get("kind")
        nid = n.get("id")
        if nid:
            self.by_id[nid] = n
        if k == "NamespaceDecl":
            for c in n.get("inner", []):
                self._walk(c, scope + [n.get("name", "")], cls)
            return
        if k in ("LinkageSpecDecl",):
            for c in n.get("inner", []):
                self._walk(c, scope, cls)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            self._record(n, scope)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "ClassTemplateSpecializationDecl":
                    self._record(c, scope)
            return
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") in FUNC_KINDS:
                    isinst = any(x.get("kind") == "TemplateArgument" for x in c.get("inner", []))
                    self._func(c, scope, cls, template=not isinst)
            return
        if k in FUNC_KINDS:
            self._func(n, scope, cls)
            return
        if k == "EnumDecl":
            self._enum(n, scope)
            return
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = n["type"]
            self.typedefs.setdefault(n["name"], []).append(("::".join(scope + [n["name"]]), t.get("desugaredQualType", t["qualType"])))
            return
        if k == "TypeAliasTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "TypeAliasDecl":
                    self.alias_templates[n["name"]] = (c["type"]["qualType"], [x["name"] for x in n["inner"] if x.get("kind") == "TemplateTypeParmDecl" and x.get("name")])
            return
        if k == "VarDecl":
            self.globals[nid] = (n, "::".join(scope + [n.get("name", "")]))
            return
        if k == "VarTemplateDecl":
            return

    def _enum(self, n, scope):
        q = "::".join(scope + [n.get("name", "(anon)")])
        vals, cur = {}, -1
        for c in n.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                v = _const_value(c)
                cur = v if v is not None else cur + 1
                vals[c["name"]] = cur
                self.enum_const[c["id"]] = (q, cur)
        if vals:
            self.enums[q] = vals
            self.enum_under[q] = n.get("fixedUnderlyingType", {}).get("desugaredQualType") or n.get("fixedUnderlyingType", {}).get("qualType", "int")
            self.enum_last.setdefault(q.split("::")[-1], []).append(q)

    def _record(self, n, scope):
        name = n.get("name", "(anon)")
        if n.get("kind") == "ClassTemplateSpecializationDecl":
            args = []
            for c in n.get("inner", []):
                if c.get("kind") == "TemplateArgument":
                    if "type" in c:
                        args.append(parse_type(c["type"].get("desugaredQualType", c["type"]["qualType"])).key())
                    elif "value" in c:
                        args.append(str(c["value"]))
            name += "<" + ",".join(args) + ">"
        q = "::".join(scope + [name])
        isdef = n.get("completeDefinition", False)
        sub = scope + [name]
        if isdef:
            r = self.records.get(q)
            if r is None or not r.fields:
                r = Record(q)
                r.node = n
                self.records[q] = r
                self.rec_last.setdefault(name, []).append(q)
            r.bases = [b["type"].get("desugaredQualType", b["type"]["qualType"]) for b in n.get("bases", [])]
            r.abstract = bool(n.get("definitionData", {}).get("isAbstract"))
            r.fields = []
            for c in n.get("inner", []):
                if c.get("kind") == "FieldDecl":
                    t = c["type"]
                    r.fields.append((c.get("name", ""), t.get("desugaredQualType", t["qualType"]), c))
                    self.by_id[c["id"]] = c
        for c in n.get("inner", []):
            if c.get("kind") == "CXXRecordDecl" and c.get("isImplicit"):
                continue
            self._walk(c, sub, q)

    def _func(self, n, scope, cls, template=False):
        nid = n["id"]
        self.by_id[nid] = n
        pd = n.get("previousDecl")
        if pd:
            self.canon[nid] = pd
        qual = None
        if pd and pd in self.decl:
            qual = self.decl[pd].qual
            cls = self.decl[pd].cls
        if qual is None:
            qual = "::".join(scope + [n.get("name", "")])
        f = Func(n, qual, cls)
        if template:
            f.body = None
        self.decl[nid] = f
        # local records / lambdas inside bodies are handled when executed; index local record definitions
        if f.body is not None and not template:
            for dd in _find_local_records(f.body):
                self._record(dd, scope + [n.get("name", "") + "()"])
        for p in f.params:
            self.by_id[p["id"]] = p

    def source_text(self, node):
        """text of the node's source range"""
        r = node.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        b = b.get("expansionLoc", b)
        e = e.get("expansionLoc", e)
        if "offset" not in b or "offset" not in e:
            return ""
        f = b["file"]
        if f not in self.files:
            try:
                self.files[f] = open(f, "rb").read()
            except OSError:
                return ""
        return self.files[f][b["offset"]:e["offset"] + e.get("tokLen", 1)].decode("utf8", "replace")

    def short_text(self, node):
        return " ".join(self.source_text(node).split())[:60]

    def line(self, node):
        b = node.get("range", {}).get("begin", {})
        b = b.get("expansionLoc", b)
        if "line" in b:
            return "%s:%d" % (str(b["file"]).replace(REPO + "/", ""), b["line"])
        return "?"

    def number_loops(self, f):
        k = 0
        st = [f.body]
        while st:
            x = st.pop()
            if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                x["_ord"] = k
                k += 1
            if x.get("kind") == "LambdaExpr":
                continue
            st.extend(c for c in reversed(x.get("inner", [])) if isinstance(c, dict))

    def definition(self, declid):
        c = self._canon(declid)
        return self.defs.get(c)

    def get_func(self, qual, sig=None, nparams=None, const=None):
        fs = self.funcs.get(qual, [])
        if sig is not None:
            fs = [f for f in fs if sig in f.ty]
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if const is not None:
            fs = [f for f in fs if f.ty.rstrip().endswith("const") == const]
        if len(fs) != 1:
            raise FrontError("function %s (sig=%s): %d definitions" % (qual, sig, len(fs)))
        return fs[0]


def _find_local_records(n):
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.get("kind") == "LambdaExpr":
            # do not enter the closure class twice
            for c in x.get("inner", []):
                if c.get("kind") != "CXXRecordDecl":
                    st.append(c)
            continue
        if x.get("kind") == "CXXRecordDecl" and x.get("completeDefinition") and not x.get("isImplicit"):
            out.append(x)
        st.extend(c for c in x.get("inner", []) if isinstance(c, dict))
    return out


def _const_value(n):
    for c in n.get("inner", []):
        if c.get("kind") == "ConstantExpr" and "value" in c:
            try:
                return int(c["value"])
            except ValueError:
                return None
        if c.get("kind") == "IntegerLiteral":
            return int(c["value"])
        v = _const_value(c)
        if v is not None:
            return v
    return None


def load(workdir, sources=None):
    return Program(dump_ast(sources or ALL_SOURCES, workdir))


if __name__ == "__main__":
    import time
    t = time.time()
    p = load("/tmp/ast")
    print(time.time() - t, len(p.funcs), len(p.records), len(p.enums))
    for q in sorted(p.records):
        r = p.records[q]
        print(q, r.abstract, r.bases, [(a, b) for a, b, _ in r.fields][:6])
