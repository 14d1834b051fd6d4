"""C++ types -> logical sorts.  Every C++ type that occurs in the code under contract is mapped to one CT (canonical type)
with a z3 sort: machine integers are Int with their exact range, records are datatypes with one accessor per field, ..."""
import z3
from front import Ty, parse_type, FrontError


class Unsupported(Exception):
    pass


INTS = {
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False), "long": (64, True), "long int": (64, True),
    "unsigned long": (64, False), "long unsigned int": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "size_t": (64, False), "std::size_t": (64, False), "uint64_t": (64, False), "uint32_t": (32, False), "uint16_t": (16, False),
    "uint8_t": (8, False), "int64_t": (64, True), "int32_t": (32, True), "int16_t": (16, True), "int8_t": (8, True),
    "std::uint64_t": (64, False), "std::uint32_t": (32, False), "std::int32_t": (32, True), "std::ptrdiff_t": (64, True),
    "ptrdiff_t": (64, True), "__int128": (128, True), "long unsigned": (64, False), "short int": (16, True), "short unsigned int": (16, False),
}


class CT:
    """kind: int bool enum real str rec vec opt var tup map set ptr refw fun opq void null arr"""
    __slots__ = ("kind", "key", "name", "args", "bits", "signed", "n", "_sort", "con", "acc", "fields", "flavor", "is_", "_low")

    def __init__(self, kind, key, name=None, args=(), bits=None, signed=None, n=None, flavor=None):
        self.kind, self.key, self.name, self.args = kind, key, name, tuple(args)
        self.bits, self.signed, self.n, self.flavor = bits, signed, n, flavor
        self._sort = None
        self._low = None
        self.fields = None

    def __repr__(self):
        return "CT(%s)" % self.key

    @property
    def elem(self):
        return self.args[0]

    def range(self):
        if self.signed:
            return -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1
        return 0, (1 << self.bits) - 1


OPAQUE_NS = ("std::chrono",)


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.bykey = {}
        self.sorts = {}
        self._fresh = 0
        self._bset = set()
        self.lits = {}
        self.BOOL = self._mk("bool", "bool")
        self.VOID = self._mk("void", "void")
        self.STR = self._mk("str", "str")
        self.REAL = self._mk("real", "real")
        self.INT = self._mk("int", "int", bits=32, signed=True)
        self.SIZE = self._mk("int", "unsigned long", bits=64, signed=False)
        self.CHAR = self._mk("int", "char", bits=8, signed=True)
        self.EXC = self._mk("opq", "exc", name="exc")

    def _mk(self, kind, key, **kw):
        if key in self.bykey:
            return self.bykey[key]
        t = CT(kind, key, **kw)
        self.bykey[key] = t
        return t

    # -------------------------------------------------- from AST node
    def of(self, node):
        t = node["type"]
        return self.parse(t.get("desugaredQualType") or t["qualType"])

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self.norm(parse_type(s))
        self.cache[s] = t
        return t

    def vec(self, el, flavor="vector"):
        return self._mk("vec", "vec<%s>" % el.key, args=(el,), flavor=flavor)

    def opt(self, el):
        return self._mk("opt", "opt<%s>" % el.key, args=(el,))

    def ptr(self, el):
        return self._mk("ptr", el.key + "*", args=(el,))

    def opq(self, name):
        return self._mk("opq", "opq:" + name, name=name)

    def tup(self, els):
        return self._mk("tup", "tup<%s>" % ",".join(e.key for e in els), args=tuple(els))

    def norm(self, t):
        k = t.kind
        if k == "ref":
            return self.norm(t.inner)       # reference-ness is handled by the caller through is_ref()
        if k == "ptr":
            if t.inner.kind == "fun":
                return self.opq("fun")
            i = self.norm(t.inner)
            return self.ptr(i)
        if k == "arr":
            el = self.norm(t.inner)
            return self.vec(el, "carray")
        if k == "fun":
            return self.opq("fun")
        n = t.name
        if n == "bool":
            return self.BOOL
        if n == "void":
            return self.VOID
        if n in INTS:
            b, s = INTS[n]
            key = {(32, True): "int", (64, False): "unsigned long"}.get((b, s), ("i%d" if s else "u%d") % b)
            if n == "char":
                key = "char"
            return self._mk("int", key, bits=b, signed=s)
        if n in ("float", "double", "long double"):
            return self.REAL
        if n in ("std::string", "std::basic_string", "std::__cxx11::basic_string", "std::string_view", "std::basic_string_view",
                 "string", "basic_string", "std::__cxx11::string", "string_view"):
            return self.STR
        base = n[5:] if n.startswith("std::") else n
        a = t.args
        if base in ("vector", "deque", "initializer_list", "queue", "list", "stack", "span") and a:
            return self.vec(self.norm(a[0]), base)
        if base == "array" and a and len(a) == 2:
            el = self.norm(a[0])
            return self._mk("vec", "arr<%s,%s>" % (el.key, a[1]), args=(el,), flavor="array", n=a[1] if isinstance(a[1], int) else None)
        if base == "optional" and a:
            return self.opt(self.norm(a[0]))
        if base in ("unique_ptr", "shared_ptr") and a:
            el = self.norm(a[0])
            return self._mk("opt", "%s<%s>" % (base, el.key), args=(el,), flavor="smart")
        if base == "variant" and a:
            els = [self.norm(x) for x in a]
            return self._mk("var", "var<%s>" % ",".join(e.key for e in els), args=tuple(els))
        if base in ("pair", "tuple") and a:
            return self.tup([self.norm(x) for x in a])
        if base in ("map", "unordered_map") or n in ("tsl::ordered_map",) and a:
            if a:
                return self._mk("map", "%s<%s,%s>" % (n, self.norm(a[0]).key, self.norm(a[1]).key), args=(self.norm(a[0]), self.norm(a[1])), flavor=n)
        if (base in ("set", "unordered_set") or n in ("tsl::ordered_set",)) and a:
            return self._mk("set", "%s<%s>" % (n, self.norm(a[0]).key), args=(self.norm(a[0]),), flavor=n)
        if base == "reference_wrapper" and a:
            el = self.norm(a[0])
            return self._mk("refw", "refw<%s>" % el.key, args=(el,))
        if base == "function":
            return self.opq("fun")
        if base in ("nullptr_t",):
            return self._mk("null", "null")
        if base in ("nullopt_t",):
            return self._mk("null", "null")
        if base in ("runtime_error", "logic_error", "exception", "invalid_argument", "out_of_range", "domain_error", "length_error", "bad_optional_access", "bad_variant_access"):
            return self.EXC
        if base in ("monostate",):
            return self._mk("rec", "std::monostate", name="std::monostate")
        # enums, records, typedefs of the project
        q = self._find(self.prog.enums, n)
        if q:
            under = self.prog.enum_under.get(q, "int")
            return self._mk("enum", q, name=q)
        full = n + ("<" + ",".join(x.key() if isinstance(x, Ty) else ("True" if x is True else "False" if x is False else str(x)) for x in a) + ">" if a else "")
        q = self._find(self.prog.records, full)
        if q:
            r = self.prog.records[q]
            if r.abstract:
                return self.opq(q)
            return self._mk("rec", q, name=q)
        if a:
            q = self._find_canon(full)
            if q:
                r = self.prog.records[q]
                return self.opq(q) if r.abstract else self._mk("rec", q, name=q)
        last = n.split("::")[-1]
        if last in self.prog.alias_templates and a:
            import re
            body, names = self.prog.alias_templates[last]
            if len(names) == len(a) and all(isinstance(x, Ty) for x in a):
                sub = dict(zip(names, (x.key() for x in a)))
                return self.parse(re.sub(r"\b(%s)\b" % "|".join(map(re.escape, names)), lambda m: sub[m.group(1)], body))
        if last in self.prog.typedefs and not a:
            c = [ts for (qq, ts) in self.prog.typedefs[last] if qq == n or qq.endswith("::" + n)] or [ts for _, ts in self.prog.typedefs[last]]
            if len(set(c)) >= 1 and c[0] != n:
                return self.parse(c[0])
        if last in ("size_type", "difference_type"):
            return self.SIZE
        if last in ("value_type", "reference", "const_reference") and False:
            pass
        return self.opq(t.key())

    def canon_name(self, s):
        """template-id with namespaces, bool and enumerator spellings normalised"""
        import re
        s = s.replace(" ", "")
        for q, vals in self.prog.enums.items():
            b = q.split("::")[-1]
            for e, v in vals.items():
                s = re.sub(r"(?:\w+::)*%s::%s\b" % (re.escape(b), re.escape(e)), str(v), s)
        s = re.sub(r"\b(?:\w+::)+", "", s)
        s = re.sub(r"\b[Tt]rue\b", "1", s)
        s = re.sub(r"\b[Ff]alse\b", "0", s)
        s = re.sub(r"(?<=[<,])-1(?=[,>])", "1", s)
        return s

    def _find_canon(self, full):
        if not hasattr(self, "_canon"):
            self._canon = {}
            for q in self.prog.records:
                if "<" in q:
                    self._canon.setdefault(self.canon_name(q), q)
        return self._canon.get(self.canon_name(full))

    def _find(self, table, n):
        if n in table:
            return n
        for pre in ("lsqecc::", "lstk::"):
            if pre + n in table:
                return pre + n
        c = [q for q in table if q.endswith("::" + n)]
        if len(c) == 1:
            return c[0]
        c2 = [q for q in c if q.startswith("lsqecc::")]
        if len(c2) == 1:
            return c2[0]
        return None

    # -------------------------------------------------- records
    def fields(self, ct):
        """ordered list of (field name, CT); base classes first as '@Base'"""
        if ct.fields is None:
            r = self.prog.records.get(ct.name)
            fs = []
            if r is not None:
                for b in r.bases:
                    bt = self.parse(b)
                    if bt.kind == "rec":
                        fs.append(("@" + bt.name.split("::")[-1], bt))
                for name, ts, nd in r.fields:
                    fs.append((name, self.parse(ts)))
            ct.fields = fs
        return ct.fields

    def field_is_ref(self, ct, fname):
        r = self.prog.records.get(ct.name)
        for name, ts, nd in r.fields:
            if name == fname:
                return parse_type(ts).kind == "ref"
        return False

    def find_field(self, ct, fname, depth=0):
        """path (list of field names) leading to field fname, searching bases"""
        for n, t in self.fields(ct):
            if n == fname:
                return [n]
        for n, t in self.fields(ct):
            if n.startswith("@"):
                p = self.find_field(t, fname)
                if p:
                    return [n] + p
        return None

    def field_ct(self, ct, fname):
        for n, t in self.fields(ct):
            if n == fname:
                return t
        raise Unsupported("field %s of %s" % (fname, ct.key))

    # -------------------------------------------------- sorts
    def sort(self, ct):
        if ct._sort is not None:
            return ct._sort
        if ct.key in self._bset:
            raise Unsupported("recursive type " + ct.key)
        self._bset.add(ct.key)
        try:
            s = self._sort(ct)
        finally:
            self._bset.discard(ct.key)
        ct._sort = s
        return s

    def _dt(self, ct, name, con_specs):
        """con_specs: list of (conname, [(acc, sort)])"""
        d = z3.Datatype(name)
        for cn, accs in con_specs:
            d.declare(cn, *accs)
        s = d.create()
        ct.con = [s.constructor(i) for i in range(s.num_constructors())]
        ct.is_ = [s.recognizer(i) for i in range(s.num_constructors())]
        ct.acc = [[s.accessor(i, j) for j in range(s.constructor(i).arity())] for i in range(s.num_constructors())]
        return s

    def uniq(self, key):
        self._fresh += 1
        short = "".join(c if c.isalnum() else "_" for c in key)[:40]
        return "%s_%d" % (short, self._fresh)

    def _sort(self, ct):
        k = ct.kind
        if k in ("int", "enum", "str"):
            return z3.IntSort()
        if k == "bool":
            return z3.BoolSort()
        if k == "real":
            return z3.RealSort()
        if k in ("opq", "ptr", "refw", "null", "void"):
            return z3.DeclareSort(self.uniq("O_" + ct.key))
        nm = self.uniq(ct.key)
        if k == "rec":
            fs = []
            for n, t in self.fields(ct):
                try:
                    fs.append(("%s_%s" % (nm, n.replace("@", "B_")), self.sort(t)))
                except Unsupported:
                    t2 = self.opq("rec:" + t.key)
                    fs.append(("%s_%s" % (nm, n.replace("@", "B_")), self.sort(t2)))
                    ct.fields = [(a, (t2 if a == n else b)) for a, b in ct.fields]
            return self._dt(ct, nm, [("mk_" + nm, fs)])
        if k == "vec":
            return self._dt(ct, nm, [("mk_" + nm, [("data_" + nm, z3.ArraySort(z3.IntSort(), self.sort(ct.elem))), ("len_" + nm, z3.IntSort())])])
        if k == "opt":
            return self._dt(ct, nm, [("none_" + nm, []), ("some_" + nm, [("val_" + nm, self.sort(ct.elem))])])
        if k == "var":
            return self._dt(ct, nm, [("alt%d_%s" % (i, nm), [("v%d_%s" % (i, nm), self.sort(a))]) for i, a in enumerate(ct.args)])
        if k == "tup":
            return self._dt(ct, nm, [("mk_" + nm, [("t%d_%s" % (i, nm), self.sort(a)) for i, a in enumerate(ct.args)])])
        if k == "set":
            K = self.sort(ct.args[0])
            return self._dt(ct, nm, [("mk_" + nm, [("mem_" + nm, z3.ArraySort(K, z3.BoolSort())), ("seq_" + nm, z3.ArraySort(z3.IntSort(), K)),
                                                   ("pos_" + nm, z3.ArraySort(K, z3.IntSort())), ("n_" + nm, z3.IntSort())])])
        if k == "map":
            K, V = self.sort(ct.args[0]), self.sort(ct.args[1])
            return self._dt(ct, nm, [("mk_" + nm, [("mem_" + nm, z3.ArraySort(K, z3.BoolSort())), ("val_" + nm, z3.ArraySort(K, V)),
                                                   ("seq_" + nm, z3.ArraySort(z3.IntSort(), K)), ("pos_" + nm, z3.ArraySort(K, z3.IntSort())),
                                                   ("n_" + nm, z3.IntSort())])])
        raise Unsupported("sort of " + ct.key)

    def enum_range(self, ct):
        v = self.prog.enums[ct.name].values()
        return min(v), max(v)

    def lit(self, s):
        """string literals are distinct integers; 0 is the empty string"""
        if s == "":
            return 0
        if s not in self.lits:
            self.lits[s] = -(len(self.lits) + 1)
        return self.lits[s]
