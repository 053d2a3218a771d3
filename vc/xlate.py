"""Translate real C++ functions (clang AST) into Verus functions over ghost values.

Every C++ object is a mathematical value; references/iterators are lvalue paths; a statement is
translated one to one.  What is dropped is listed in DROPPED (copied to DESIGN.md/evidence)."""
import re
from ctypes_ import T, TypeEnv
from cxxast import ExtractError, body_of, params_of, demangle, FUNC_KINDS

DROPPED = [
 "object identity/addresses: C++ objects become mathematical values, references and iterators become paths to them",
 "allocation failure, container capacity (vectors and bit vectors hold fewer than 2^32 elements, strings fewer than 2^62 bytes)",
 "code compiled out by NDEBUG (assert) and LLVM_DEBUG blocks, diagnostics text",
 "exceptions (the project is built with -fno-exceptions)",
]

RESERVED = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try
int nat real spec proof exec ghost tracked requires ensures invariant decreases recommends forall exists choose assert assume via when by opens_invariants broadcast is has matches""".split())

LIBFUN = set("move forward as_const min max lowest llvm_unreachable_internal __builtin_unreachable to_string get pow abs make_pair make_tuple tie ArrayRef make_optional optional makeArrayRef all_of any_of none_of count_if make_unique isspace isdigit isalpha isalnum empty append_range sort stable_sort is_contained swap zip zip_equal zip_first enumerate begin end next prev size".split())

class Unsupported(ExtractError):
    pass

def mangle_ident(s):
    if s in RESERVED: return s + "_"
    return s

SMIN = {8: "-128", 16: "-32768", 32: "-2147483648", 64: "-9223372036854775808"}
SMAX = {8: "127", 16: "32767", 32: "2147483647", 64: "9223372036854775807"}
UMAX = {8: "255", 16: "65535", 32: "4294967295", 64: "18446744073709551615"}

class LV:
    """lvalue: root ghost variable + projections."""
    def __init__(self, root, proj=(), ty=None, const=False):
        self.root = root; self.proj = tuple(proj); self.ty = ty; self.const = const
    def field(self, rec, f, ty): return LV(self.root, self.proj + (("f", rec, f),), ty, self.const)
    def index(self, i, ty): return LV(self.root, self.proj + (("i", i),), ty, self.const)
    def some(self, ty): return LV(self.root, self.proj + (("s",),), ty, self.const)
    def tup(self, k, n, ty): return LV(self.root, self.proj + (("t", k, n),), ty, self.const)
    def read(self):
        s = self.root
        for p in self.proj: s = _proj_read(s, p)
        return s
    def write_expr(self, val):
        def go(base, projs):
            if not projs: return val
            p = projs[0]
            inner = go(_proj_read(base, p), projs[1:])
            if p[0] == "f": return "%s { %s: %s, ..%s }" % (p[1], p[2], inner, base)
            if p[0] == "i": return "%s.update(%s, %s)" % (base, p[1], inner)
            if p[0] == "m": return "%s.insert(%s, %s)" % (base, p[1], inner)
            if p[0] == "s": return "Some(%s)" % inner
            if p[0] == "t":
                return "(" + ", ".join(inner if j == p[1] else "%s.%d" % (base, j) for j in range(p[2])) + ")"
        return go(self.root, list(self.proj))

def _proj_read(s, p):
    if p[0] == "f": return "%s.%s" % (s, p[2])
    if p[0] == "i": return "%s[%s]" % (s, p[1])
    if p[0] == "m": return "%s[%s]" % (s, p[1])
    if p[0] == "s": return "%s->0" % s
    if p[0] == "t": return "%s.%d" % (s, p[1])

class IterVal:
    """static knowledge about an iterator value: container text + index text"""
    def __init__(self, cont, idx, elem, lv=None): self.cont = cont; self.idx = idx; self.elem = elem; self.lv = lv

class LambdaFrame(dict):
    """frame of an inlined lambda: loops are numbered in the enclosing function"""
    def __init__(self, up): dict.__init__(self); self.up = up; self["names"] = dict(up["names"])
    def __getitem__(self, k): return dict.__getitem__(self, k) if k == "names" else self.up[k]
    def __setitem__(self, k, v):
        if k == "names": dict.__setitem__(self, k, v)
        else: self.up[k] = v

def strip_parens(v):
    v = v.strip()
    while v.startswith('(') and v.endswith(')'): v = v[1:-1].strip()
    return v

class Prog:
    ctxrec = None
    def __init__(self, unit, tus):
        self.unit = unit; self.tus = tus
        self.aliases = dict(unit.aliases)
        self.funcs = {}; self.decls = {}
        for tu in tus:
            for m, n in tu.funcs.items(): self.funcs.setdefault(m, n)
            for m, n in tu.decls.items(): self.decls.setdefault(m, n)
        dm = demangle(set(self.funcs) | set(self.decls))
        self.dm = dm
        self.bykey = {}
        self.records = {}; self.enums = {}
        for tu in tus:
            for nm, ns in tu.records.items():
                for n in ns:
                    key = self._ctxname(n)
                    if n["kind"] == "ClassTemplateSpecializationDecl" and self.records.get(key, n)["kind"] == "CXXRecordDecl": self.records[key] = n  # an instance instead of its pattern
                    self.records.setdefault(key, n)
            for nm, ns in tu.enums.items():
                for n in ns: self.enums.setdefault(self._ctxname(n), n)
        for m in dm: dm[m] = self.enum_args(dm[m])
        for m in self.funcs: self.bykey.setdefault(dm[m], m)
        self._collect_aliases()
        self.te = TypeEnv(self.aliases, self.known)
        self.poly = unit.options.get("poly", {}); self.boxed = unit.options.get("boxed", set())
        self.used_records = []; self.used_enums = []; self.variants = []
        self.worklist = []; self.done = {}
        self.fntext = {}
        self.recfields_cache = {}
        self.obl = {"ensures": 0, "asserts": 0, "inv": 0, "calls": 0, "assume_ty": 0}
        self.inlined = set(); self.modelled = set()
        self.skeleton = {}
        self.structeq_used = {}; self.structeq_done = set(); self.extra = []

    def enum_args(self, key):
        """template arguments of enum type by name: scan<(A::State)2> -> scan<State::Normal>"""
        def f(m):
            nm = m.group(1); short = nm.split("::")[-1]
            c = [e for k, e in self.enums.items() if k.split("::")[-1] == short and nm.endswith(k)]
            if len(c) != 1: return m.group(0)
            vals = [x["name"] for x in c[0].get("inner", []) if x.get("kind") == "EnumConstantDecl"]
            i = int(m.group(2))
            return "%s::%s" % (short, vals[i]) if i < len(vals) else m.group(0)
        key = re.sub(r"\(([\w:]+)\)(\d+)", f, key) if ")" in key else key
        # the demangled name of a template instance starts with its return type
        d = 0; cut = 0; k = key.replace("(anonymous namespace)", "{anonymous~namespace}")
        for i, ch in enumerate(k):
            if ch in "<({[": 
                if ch == "(" and d == 0: break
                d += 1
            elif ch in ">)}]": d -= 1
            elif ch == " " and d == 0: cut = i + 1
        if cut and ">(" in k and "operator" not in k[:i]: key = k[cut:].replace("{anonymous~namespace}", "(anonymous namespace)")
        return key

    def outside(self, tu, e):
        """declaration of a function outside the dumped namespaces"""
        rd = e.get("referencedDecl", {})
        if rd.get("kind") != "FunctionDecl": return None
        fn = tu.outside(rd.get("name"), rd.get("type", {}).get("qualType"))
        if fn is None: return None
        m = fn["mangledName"]
        if m not in self.funcs:
            self.funcs[m] = fn; self.decls[m] = fn
            self.dm.update(demangle([m])); self.bykey.setdefault(self.dm[m], m)
        tu.byid[rd["id"]] = fn
        return fn

    def _ctxname(self, n):
        ctx = [c for c in n.get("_ctx", []) if c and c not in ("marco", "modeling", "vf", "parser", "bmodelica", "ast", "lexer", "internal", "impl", "mlir")]
        return "::".join(ctx + [n.get("name", "")])

    def _collect_aliases(self):
        for tu in self.tus:
            def walk(n, ctx):
                if not isinstance(n, dict): return
                k = n.get("kind")
                if k in ("TypeAliasDecl", "TypedefDecl"):
                    t = n.get("type", {}); tgt = t.get("desugaredQualType") or t.get("qualType")
                    nm = n.get("name")
                    for j in range(len(ctx) + 1):
                        q = "::".join(ctx[j:] + [nm])
                        if j < len(ctx):
                            self.aliases.setdefault(q, tgt if tgt not in ("data_type",) else "long")
                    return
                c2 = ctx
                if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl"): c2 = ctx + [n.get("name", "")]
                if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"): return
                for c in n.get("inner", []) or []: walk(c, c2)
            for r in tu.roots: walk(r, [])

    def known(self, s):
        r = self.known0(s)
        if r is not None and r.k == "rec": r = T("rec", (self.merged(r.a[0]),))
        return r

    def merged(self, key): return self.unit.options.get("merge", {}).get(key, key)

    def known0(self, s):
        s0 = s
        s = re.sub(r"\b(mlir|marco|modeling|vf|parser|bmodelica|ast|lexer|internal|impl)::", "", s)
        s = s.lstrip(":")
        if self.ctxrec and re.match(r"^\w+$", s):
            pre = self.ctxrec.split("::")
            for j in range(len(pre), 0, -1):
                q = "::".join(pre[:j] + [s])
                if q in self.records: return T("rec", (q,))
                if q in self.enums: return T("enum", (q,))
                if q in self.aliases and self.aliases[q] != s0 and q not in self.te.busy:
                    self.te.busy.add(q)
                    try: return self.te.parse(self.aliases[q]).val()
                    finally: self.te.busy.discard(q)
        gt = self.unit.options.get("ghosttype", {})
        if s in gt: return T("ghost", (gt[s],))
        if s in self.poly: return T("rec", (s,))
        if s in self.records: return T("rec", (s,))
        if s in self.enums: return T("enum", (s,))
        if s in self.aliases and self.aliases[s] != s0: return self.te.parse(self.aliases[s]).val()
        cands = [r for r in self.records if r.endswith("::" + s)]
        if len(cands) == 1: return T("rec", (cands[0],))
        cands = [r for r in self.enums if r.endswith("::" + s)]
        if len(cands) == 1: return T("enum", (cands[0],))
        return None

    # ---- Verus types
    def vt(self, t):
        k = t.k
        if k == "int": return "int"
        if k == "bool": return "bool"
        if k == "real": return "Real"
        if k == "map": return "Map<%s, %s>" % (self.vt(t.a[0]), self.vt(t.a[1]))
        if k == "mapit": return "Option<(%s, %s)>" % (self.vt(t.a[0]), self.vt(t.a[1]))
        if k == "variant":
            if t.a not in self.variants: self.variants.append(t.a)
            for x in t.a: self.vt(x)
            return self.variant_name(t.a)
        if k == "unit": return "()"
        if k == "seq": return "Seq<%s>" % self.vt(t.a[0])
        if k == "str": return "Seq<int>"
        if k == "bits": return "Seq<bool>"
        if k in ("opt", "nptr"): return "Option<%s>" % self.vt(t.a[0])
        if k == "tup": return "(" + ", ".join(self.vt(x) for x in t.a) + ("," if len(t.a) == 1 else "") + ")"
        if k == "rec":
            self.use_record(t.a[0]); return self.rname(t.a[0])
        if k == "enum":
            self.use_enum(t.a[0]); return self.rname(t.a[0])
        if k == "ghost": return t.a[0]
        if k == "ptr":
            return self.vt(t.a[0])
        raise Unsupported("type %r has no value translation" % (t,))

    def variant_name(self, a): return "Variant_" + "_".join(re.sub(r"\W+", "", self.vt(x)) for x in a)
    def rname(self, key): return mangle_ident(key.replace("::", "_"))

    def use_record(self, key):
        if key not in self.used_records: 
            self.used_records.append(key)
            if key in self.poly:
                for d in self.poly[key]: self.use_record(d)
            else:
                for f, t in self.fields(key): self.vt(t)

    def use_enum(self, key):
        if key not in self.used_enums: self.used_enums.append(key)

    def fields(self, key):
        if key in self.recfields_cache: return self.recfields_cache[key]
        n = self.records[key]
        out = []
        drop = self.unit.options.get("drop", set())
        for b in n.get("bases", []) or []:
            bt = self.te.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            if bt.k == "ghost":     # a class that is seen abstractly elsewhere
                bn = b["type"]["qualType"].split("::")[-1]
                if bn in self.records: bt = T("rec", (bn,))
            if bt.k == "rec" and bt.a[0] == key:
                for k0, k1 in self.unit.options.get("merge", {}).items():
                    if k1 == key and k0 in self.records: out += self._fields_of(self.records[k0], key)
            elif bt.k == "rec" and bt.a[0] in self.records and bt.a[0] not in self.poly:
                out += self.fields(bt.a[0])
            elif bt.k == "rec" and bt.a[0] in self.poly:
                out += self._fields_of(self.records[bt.a[0]], bt.a[0])
        out += self._fields_of(n, key)
        self.recfields_cache[key] = out
        return out

    def _fields_of(self, n, key):
        out = []
        drop = self.unit.options.get("drop", set())
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                f = c["name"]
                if key + "." + f in drop: continue
                t = self.te.parse(c["type"].get("desugaredQualType") or c["type"]["qualType"])
                t = t.val()
                if t.k == "ptr" and key + "." + f in self.unit.options.get("nullable", set()): t = T("nptr", t.a)
                out.append((f, t))
        for f, g in self.unit.options.get("ghostfield", {}).get(key, {}).items(): out.append((f, T("ghost", (g,))))
        return out

    # ---- "machine values are in range" facts
    def ty(self, t, x, depth=0):
        k = t.k
        if k == "int":
            b, s = t.a
            return ["%s <= %s <= %s" % (SMIN[b] if s else "0", x, SMAX[b] if s else UMAX[b])]
        if k in ("seq", "str", "bits"):
            r = ["%s.len() < %s" % (x, "0x4000_0000_0000_0000" if k == "str" else "0x1_0000_0000")]
            if k == "seq":
                e = self.ty(t.a[0], "%s[i_]" % x, depth + 1)
                if e and depth < 2:
                    r.append("forall|i_: int| 0 <= i_ < %s.len() ==> %s" % (x, self.tycall(t.a[0], "#[trigger] %s[i_]" % x)))
            return r
        if k == "rec":
            self.use_record(t.a[0])
            return ["ty_%s(%s)" % (self.rname(t.a[0]), x)] if t.a[0] not in self.poly else []
        if k in ("opt", "nptr"):
            e = self.ty(t.a[0], "(%s->0)" % x, depth + 1)
            return ["(%s is Some ==> (%s))" % (x, " && ".join(e))] if e else []
        if k == "tup":
            r = []
            for j, e in enumerate(t.a): r += self.ty(e, "%s.%d" % (x, j), depth)
            return r
        if k == "ptr": return self.ty(t.a[0], x, depth)
        return []

    def tycall(self, t, x):
        if t.k == "int":
            return "ty_int%d%s(%s)" % (t.a[0], "s" if t.a[1] else "u", x)
        if t.k == "rec" and t.a[0] not in self.poly: return "ty_%s(%s)" % (self.rname(t.a[0]), x)
        e = self.ty(t, x.replace("#[trigger] ", ""), 1)
        return " && ".join("(%s)" % y for y in e) if e else "true"

    # ---- records text
    def emit_records(self):
        out = []
        # dependency closure is already in used_records
        for key in list(self.used_records):
            if key in self.poly:
                out.append("pub enum %s { %s }" % (self.rname(key), ", ".join("%s(%s)" % (self.rname(d), ("Box<%s>" if key in self.boxed else "%s") % self.rname(d)) for d in self.poly[key])))
                continue
            fs = self.fields(key)
            out.append("pub struct %s { %s }" % (self.rname(key), ", ".join("pub %s: %s" % (mangle_ident(f), self.vt(t)) for f, t in fs)))
        for key in list(self.used_records):
            if key in self.poly: continue
            fs = self.fields(key)
            c = []
            for f, t in fs: c += self.ty(t, "x.%s" % mangle_ident(f))
            # recursive record types: skip nested recursion
            c = [y for y in c if "ty_%s(" % self.rname(key) not in y]
            out.append("pub open spec fn ty_%s(x: %s) -> bool { %s }" % (self.rname(key), self.rname(key), " && ".join("(%s)" % y for y in c) if c else "true"))
        for a in self.variants:
            out.append("pub enum %s { %s }" % (self.variant_name(a), ", ".join("A%d(%s)" % (j, self.vt(x)) for j, x in enumerate(a))))
        for key in self.used_enums:
            n = self.enums[key]
            vals = [c["name"] for c in n.get("inner", []) if c.get("kind") == "EnumConstantDecl"]
            out.append("pub enum %s { %s }" % (self.rname(key), ", ".join(mangle_ident(v) for v in vals)))
        for b in (8, 16, 32, 64):
            for s in (True, False):
                out.append("pub open spec fn ty_int%d%s(x: int) -> bool { %s <= x <= %s }" % (b, "s" if s else "u", SMIN[b] if s else "0", SMAX[b] if s else UMAX[b]))
        return "\n".join(out)

    # ---- functions
    def find(self, key):
        m = self.bykey.get(key)
        if m is None and not key.startswith("marco::"):
            nm = re.match(r"^(?:\(anonymous namespace\)::)?(\w+)\(", key)
            for tu in self.tus if nm else []:
                for fn in tu.outside_all(nm.group(1)):
                    m = fn["mangledName"]
                    if m not in self.funcs:
                        self.funcs[m] = fn; self.decls[m] = fn
                        self.dm.update(demangle([m])); self.bykey.setdefault(self.dm[m], m)
            m = self.bykey.get(key)
        if m is None: raise Unsupported("function under contract not found in the sources: " + key)
        return self.funcs[m]

    def modular(self, key):
        c = self.unit.contracts.get(key)
        return c is not None and not c.inline

    def request(self, key):
        if key not in self.done and key not in self.worklist: self.worklist.append(key)

    def vname(self, key):
        c = self.unit.contracts[key]
        if c.name: return c.name
        return re.sub(r"_+", "_", re.sub(r"[^A-Za-z0-9]", "_", key.replace("marco::modeling::", "").replace("marco::", "").split("(")[0]))

    def run(self, roots):
        for r in roots:
            if self.unit.contracts[r].optional:
                try: self.find(r)
                except Unsupported: continue
            self.request(r)
        while self.worklist:
            key = self.worklist.pop(0)
            if key in self.done: continue
            c = self.unit.contracts[key]
            n = self.find(key)
            fx = FnX(self, key, n, c)
            self.done[key] = True
            self.fntext[key] = fx.translate()
            self.skeleton[key] = fx.skel
            for r, (ek, se) in list(self.structeq_used.items()):
                if r not in self.structeq_done:
                    self.structeq_done.add(r)
                    rn = self.rname(r); self.obl["asserts"] += 1
                    self.extra.append("//@fn structural equality of %s\nfn structeq_%s(Ghost(a): Ghost<%s>, Ghost(b): Ghost<%s>)\n    requires (%s), (%s),\n{ let Ghost(r) = %s(Ghost(a), Ghost(b)); assert(r == (a == b)); //@ob structeq %s\n}" % (
                        ek, rn, rn, rn, se.replace("$x", "a"), se.replace("$x", "b"), self.vname(ek), r))
        return self

def is_expr(c):
    k = c.get("kind", "")
    return bool(k) and not k.endswith(("Attr", "Comment", "Decl"))

class Emitter:
    def __init__(self): self.lines = []; self.ind = 1
    def __call__(self, s): self.lines.append("    " * self.ind + s)

PASS_EXPR = {"ImplicitCastExpr_skip"}

def tystr(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""

class FnX:
    def __init__(self, prog, key, node, contract):
        self.p = prog; self.key = key; self.node = node; self.c = contract
        self.tu = node["_tu"]
        self.em = Emitter(); self.vars = {}; self.n = 0; self.loopn = 0
        self.assigned = [set()]
        self.loopstack = []
        self.inline_depth = 0
        self.retmode = None
        self.skel = []
        self.names = {}
        self.locals = []     # (name, type) declared locals in order
        self.frames = [{"c": contract, "loopn": 0, "names": {}}]

    @property
    def rec(self): return self._rec
    @rec.setter
    def rec(self, v): self._rec = v; self.p.ctxrec = v

    # ---- helpers
    def fresh(self, b="t"):
        self.n += 1; return "%s_%d" % (b, self.n)

    def ob(self, cond, kind, what=""):
        self.p.obl["asserts"] += 1
        self.em("assert(%s); //@ob %s %s" % (cond, kind, what))

    def temp(self, txt, t=None):
        if re.match(r"^[A-Za-z_]\w*$", txt) or re.match(r"^\d+$", txt): return txt
        v = self.fresh()
        self.em("let ghost %s = %s;" % (v, txt))
        return v

    def hook(self, txt):
        """proof text of a contract; `let ghost` lines stay visible to later hooks of the same block"""
        g = [l for l in txt.split("\n") if l.startswith("let ghost ")]
        rest = "\n".join(l for l in txt.split("\n") if not l.startswith("let ghost "))
        for l in g: self.em(l)
        if rest.strip():
            ls = rest.strip().split("\n")
            if len(ls) == 1: self.em("proof { %s }" % ls[0])
            else:
                self.em("proof {")
                for l in ls: self.em("    " + l)
                self.em("}")

    def assume_ty(self, t, x):
        fs = self.p.ty(t, x)
        if fs:
            self.p.obl["assume_ty"] += 1
            self.em("proof { assume(%s); } //@ty" % " && ".join("(%s)" % f for f in fs))

    def sub(self, f, *a):
        """run f with a nested emitter; returns (result, lines)"""
        old = self.em; self.em = Emitter(); self.em.ind = old.ind + 1
        try:
            r = f(*a)
            return r, self.em.lines
        finally:
            self.em = old

    def assign(self, lv, val):
        if lv.root is None: raise Unsupported("assignment to a temporary")
        for s in self.assigned: s.add(lv.root)
        self.em("proof { %s = %s; }" % (lv.root, lv.write_expr(val)))

    # ---- function level
    def translate(self):
        p = self.p; n = self.node
        p.ctxrec = None
        ft = n["type"]["qualType"]
        self.is_ctor = n["kind"] == "CXXConstructorDecl"
        self.is_method = n["kind"] in ("CXXMethodDecl", "CXXConversionDecl") and n.get("storageClass") != "static"
        first = self.tu.byid.get(n.get("previousDecl"), n)
        if first.get("storageClass") == "static": self.is_method = False
        params = []
        self.outs = []
        pre = []
        if self.is_method or self.is_ctor:
            rec = self.record_of(n)
            self.rec = rec
            self.thisT = T("rec", (rec,))
        if self.is_method:
            isconst = bool(re.search(r"\)\s*const\b", ft))
            params.append(("this", self.thisT))
            if not isconst:
                self.outs.append(("this", self.thisT))
                pre.append("let ghost old_this = this;"); pre.append("let ghost mut this = this;")
        for q in params_of(n):
            nm = mangle_ident(q.get("name") or self.fresh("unnamed"))
            t = p.te.parse(tystr(q))
            if t.k == "ptr" and nm in self.c.nullargs: t = T("nptr", t.a, t.ref, t.const)
            if t.k == "lambda" or (t.k == "opaque" and "function_ref" in t.a[0]): raise Unsupported("function parameter")
            if t.val().k == "opaque":  # nothing can be read from it: it is only passed on
                self.vars[q["id"]] = LV(nm, (), t.val(), const=True); continue
            mutable = t.ref == "&" and not t.const
            params.append((nm, t.val()))
            self.vars[q["id"]] = LV(nm, (), t.val(), const=(t.ref is not None and t.const))
            if mutable:
                self.outs.append((nm, t.val()))
                pre.append("let ghost old_%s = %s;" % (nm, nm)); pre.append("let ghost mut %s = %s;" % (nm, nm))
            elif t.ref is None or t.ref == "&&":
                pre.append("let ghost mut %s = %s;" % (nm, nm))
        rt = self.rettype(ft)
        if self.is_ctor: rt = T("rec", (self.rec,))
        self.retref = rt.ref
        self.selfret = self.is_method and rt.ref == "&" and not rt.const and rt.k == "rec" and rt.a[0] == self.rec and any(o[0] == "this" for o in self.outs)
        self.rt = T("unit") if self.selfret else rt.val()
        self.params = params
        comps = ([] if self.rt.k == "unit" else [p.vt(self.rt)]) + [p.vt(t) for _, t in self.outs]
        if len(comps) == 0: self.pack = "()"
        elif len(comps) == 1: self.pack = comps[0]
        else: self.pack = "(" + ", ".join(comps) + ")"
        # body
        if self.c.elsewhere: return self.render()
        for l in pre: self.em(l)
        if self.is_method: self.assume_ty(self.thisT, "this")
        for nm, t in params:
            if nm != "this": self.assume_ty(t, nm)
        self.em("//@entry")
        if self.c.entry.strip(): self.hook(self.c.entry.strip())
        if self.is_ctor: self.ctor_init(n)
        if self.c.trusted is None:
            ended = self.stmts(body_of(n).get("inner", []))
            if not ended and (self.rt.k == "unit" or self.is_ctor):
                self.emit_return("this" if self.is_ctor else None)
        return self.render()

    def record_of(self, n):
        pid = n.get("parentDeclContextId") or self.tu.parent.get(n["id"])
        r = self.tu.byid.get(pid)
        if r is None or "name" not in r: raise Unsupported("record of method")
        key = None
        for tu in self.p.tus:
            pass
        if "_ctx" in r: return self.p.merged(self.p._ctxname(r))
        # partial decl: look for complete one with the same name
        c = [k for k in self.p.records if k == r["name"] or k.endswith("::" + r["name"])]
        if len(c) == 1: return self.p.merged(c[0])
        raise Unsupported("ambiguous record " + r.get("name", "?"))

    def deref(self, l):
        """the pointee of a pointer (a null pointer is an obligation)"""
        if l is None or l.ty.k not in ("ptr", "nptr"): return l
        if l.ty.k == "ptr": return LV(l.root, l.proj, l.ty.a[0], l.const)
        self.ob("%s is Some" % l.read(), "nullptr", "pointer dereference")
        return l.some(l.ty.a[0])

    def rettype(self, ft):
        # "R (args) const"
        d = 0
        for i, ch in enumerate(ft):
            if ch == "<": d += 1
            elif ch == ">": d -= 1
            elif ch == "(" and d == 0: break
        r = ft[:i].strip()
        if r == "auto" or "decltype" in r:
            m = re.search(r"->\s*(.*)$", ft)
            if m: r = m.group(1)
        key_ctx = []
        t = self.p.te.parse(r)
        if t.k == "opaque":
            # try nested in record
            if getattr(self, "rec", None):
                t2 = self.p.te.parse(self.rec + "::" + r.rstrip("&* ").replace("const ", ""))
                if t2.k != "opaque":
                    return T(t2.k, t2.a, "&" if r.endswith("&") else None, r.startswith("const "))
        return t

    def ctor_init(self, n):
        p = self.p
        fs = p.fields(self.rec)
        inits = {}
        for c in n.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer":
                if "anyInit" in c:
                    nm = c["anyInit"]["name"]
                    t = dict(fs).get(nm)
                    if t is None or c["inner"][0].get("kind") == "CXXDefaultInitExpr": continue
                    inits[nm] = self.conv(self.rv(c["inner"][0]), t)
                else:
                    e = c["inner"][0]
                    if "baseInit" in c:
                        # a base merged into this record: its defaulted constructor leaves the field defaults
                        if self.rec in self.p.unit.options.get("merge", {}).values() and self.strip(e).get("kind") == "CXXConstructExpr" and not self.strip(e).get("inner"): continue
                        self.base_init(c, inits, fs); continue
                    # delegating constructor
                    v, _ = self.rv(e)
                    self.em("let ghost mut this = %s;" % v)
                    return
        parts = []
        recn = self.find_record(); p.use_record(self.rec)
        for f, t in fs:
            if f in inits: v = inits[f]
            else: v = self.field_default(recn, f, t)
            parts.append("%s: %s" % (mangle_ident(f), v))
        self.em("let ghost mut this = %s { %s };" % (p.rname(self.rec), ", ".join(parts)))

    def find_record(self): return self.p.records[self.rec]

    def merged_records(self, recn):
        key = self.p._ctxname(recn) if "_ctx" in recn else None
        return [recn] + [self.p.records[a] for a, b in self.p.unit.options.get("merge", {}).items() if b == key and a in self.p.records]

    def field_default(self, recn, f, t):
        for c in [c for r in self.merged_records(recn) for c in r.get("inner", [])]:
            if c.get("kind") == "FieldDecl" and c.get("name") == f and c.get("inner"):
                for e in c["inner"]:
                    if is_expr(e):
                        if t.k == "nptr" and "CXXNullPtrLiteralExpr" in str(e): return "None"
                        return self.conv(self.rv(e), t)
        return self.default(t)

    def default(self, t):
        k = t.k
        if k in ("seq", "str", "bits"): return "Seq::empty()"
        if k == "map": return "Map::empty()"
        if k == "variant": return "%s::A0(%s)" % (self.p.vt(t), self.default(t.a[0]))
        if k in ("opt", "nptr"): return "None"
        if k == "int": return "arbitrary()"
        if k == "bool": return "arbitrary()"
        if k == "rec":
            # default constructor: only when all fields default-able
            fs = self.p.fields(t.a[0])
            recn = self.p.records[t.a[0]]; self.p.use_record(t.a[0])
            return "%s { %s }" % (self.p.rname(t.a[0]), ", ".join("%s: %s" % (mangle_ident(f), self.field_default(recn, f, ft)) for f, ft in fs))
        if k == "tup": return "(" + ", ".join(self.default(x) for x in t.a) + ")"
        return "arbitrary()"

    def render(self):
        p = self.p; c = self.c
        nm = p.vname(self.key)
        ps = ", ".join(["Ghost(%s): Ghost<%s>" % (q, p.vt(t)) for q, t in self.params] + ["Ghost(%s): Ghost<%s>" % g for g in c.ghosts])
        out = ["//@fn %s" % self.key]
        if c.trusted is not None or c.elsewhere: out.append("#[verifier::external_body]")
        out.append("#[verifier::loop_isolation(false)]")
        for a in c.attrs: out.append(a)
        out.append("fn %s(%s) -> (ret_: Ghost<%s>)" % (nm, ps, self.pack))
        if c.req:
            out.append("    requires")
            for lab, r in c.req: out.append("        (%s), //@req %s" % (r.replace("\n", " "), lab or ""))
        if not c.elsewhere: self.p.obl["ensures"] += len(c.ens)
        if c.ens:
            out.append("    ensures")
            binds = self.bindings("ret_@")
            for j, (lab, e) in enumerate(c.ens):
                out.append("        ({ %s %s }), //@ens %s" % (binds, e.replace("\n", " "), lab or ("post%d" % (j + 1))))
        if c.dec:
            out.append("    decreases " + ", ".join(d for _, d in c.dec) + ",")
        out.append("{")
        if c.trusted is not None or c.elsewhere: out.append("    unimplemented!()")
        else: out += self.em.lines
        out.append("}")
        return "\n".join(out)

    def bindings(self, src):
        comps = ([] if self.rt.k == "unit" else ["ret"]) + ["post_" + o for o, _ in self.outs]
        if len(comps) == 0: return ""
        if len(comps) == 1: return "let %s = %s;" % (comps[0], src)
        return " ".join("let %s = %s.%d;" % (cn, src, j) for j, cn in enumerate(comps))

    def emit_return(self, val):
        if self.retmode is not None:
            self.retmode(val); return
        comps = []
        if self.rt.k != "unit":
            if val is None: raise Unsupported("return without a value")
            self.em("let ghost ret = %s;" % val); comps.append("ret")
        for o, _ in self.outs:
            self.em("let ghost post_%s = %s;" % (o, o)); comps.append("post_" + o)
        if self.c.exit.strip(): self.hook(self.c.exit.strip())
        self.em("//@exit")
        v = "()" if not comps else comps[0] if len(comps) == 1 else "(" + ", ".join(comps) + ")"
        self.em("return Ghost(%s);" % v)

    # ---- statements
    def stmts(self, lst):
        i = 0
        while i < len(lst):
            s = lst[i]
            if self.retmode is not None and self.has_return(s) and not (getattr(self, "in_loopret", 0) and s.get("kind") in ("IfStmt", "ReturnStmt", "CompoundStmt")):
                # inlined function: the rest becomes the continuation
                self.inline_stmt(s, lst[i + 1:]); return True
            ended = self.stmt(s)
            if ended: return True
            i += 1
        return False

    def has_return(self, s):
        if not isinstance(s, dict): return False
        if s.get("kind") == "LambdaExpr": return False
        if s.get("kind") == "ReturnStmt": return True
        return any(self.has_return(c) for c in s.get("inner", []) or [])

    def inline_stmt(self, s, rest):
        k = s.get("kind")
        if k == "ReturnStmt": self.stmt(s); return
        if k == "CompoundStmt":
            self.stmts(list(s.get("inner", [])) + list(rest)); return
        if k == "IfStmt":
            init, cond, then, els = self.if_parts(s)
            for x in init: self.stmt(x)
            c = self.cond(cond)
            self.em("if reify(Ghost(%s)) {" % c); self.em.ind += 1
            saved = dict(self.vars)
            self.stmts([then] + list(rest))
            self.vars = dict(saved)
            self.em.ind -= 1; self.em("} else {"); self.em.ind += 1
            self.stmts(([els] if els else []) + list(rest))
            self.vars = saved
            self.em.ind -= 1; self.em("}")
            return
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            flag = self.fresh("retd")
            self.em("let ghost mut %s: bool = false;" % flag)
            self.locals.append((flag, T("bool")))
            old = self.retmode; oldflag = getattr(self, "loopret", None)
            inner_ret = old
            def ret(val):
                inner_ret(val)
                for a in self.assigned: a.add(flag)
                self.em("proof { %s = true; }" % flag)
                if len(self.loopstack) != depth + 1: raise Unsupported("return inside nested loops of an inlined function")
                L = self.loopstack[-1]; L["breaks"] = True
                self.em("break;")
            depth = len(self.loopstack)
            self.retmode = ret; self.retflag = flag
            try:
                self.stmt_loopret(s, flag)
            finally:
                self.retmode = old
            self.em("if reify(Ghost(!%s)) {" % flag); self.em.ind += 1
            self.stmts(list(rest))
            self.em.ind -= 1; self.em("}")
            return
        if k == "SwitchStmt":
            self.switch(s, rest); return
        raise Unsupported("return inside %s of an inlined function" % k)

    def stmt_loopret(self, s, flag):
        self.in_loopret = getattr(self, "in_loopret", 0) + 1
        try: self.stmt(s)
        finally: self.in_loopret -= 1

    def if_parts(self, s):
        inner = [c for c in s.get("inner", [])]
        init = []
        if s.get("hasInit"): init.append(inner.pop(0))
        if s.get("hasVar"): init.append(inner.pop(0))
        cond = inner[0]; then = inner[1]; els = inner[2] if len(inner) > 2 else None
        return init, cond, then, els

    def scope(self, f):
        saved = dict(self.vars); nl = len(self.locals)
        self.em.ind += 1
        r = f()
        self.em.ind -= 1
        self.vars = saved; del self.locals[nl:]
        return r

    def stmt(self, s):
        k = s.get("kind")
        if k is None or k == "NullStmt": return False
        if k == "CompoundStmt":
            self.em("{")
            r = self.scope(lambda: self.stmts(s.get("inner", [])))
            self.em("}")
            return r
        if k == "DeclStmt":
            for d in s.get("inner", []): self.decl(d)
            return False
        if k == "ReturnStmt":
            inner = s.get("inner", [])
            if self.selfret_current(): 
                self.em_side(inner[0]); self.emit_return(None); return True
            if inner:
                v = self.conv(self.rv(inner[0]), self.cur_rt())
                self.emit_return(v)
            else: self.emit_return("this" if (self.is_ctor and self.inline_depth == 0) else None)
            return True
        if k == "IfStmt":
            init, cond, then, els = self.if_parts(s)
            wrapped = bool(init)
            saved = dict(self.vars)
            if wrapped: self.em("{"); self.em.ind += 1
            for x in init: self.stmt(x)
            c = self.cond(cond)
            self.em("if reify(Ghost(%s)) {" % c)
            r1 = self.scope(lambda: self.stmts(self.blk(then)))
            r2 = False
            if els is not None:
                self.em("} else {")
                r2 = self.scope(lambda: self.stmts(self.blk(els)))
            self.em("}")
            if wrapped: self.em.ind -= 1; self.em("}")
            self.vars = saved
            return r1 and r2 and els is not None
        if k == "ForStmt": return self.for_stmt(s)
        if k == "WhileStmt" and self.const_false(s["inner"][0]): return False
        if k == "WhileStmt": return self.while_stmt(s)
        if k == "DoStmt" and self.const_false(s["inner"][1]) and not self.has_jump(s["inner"][0]):
            return self.stmt(s["inner"][0])  # do { ... } while (0) runs once
        if k == "DoStmt": return self.do_stmt(s)
        if k == "CXXForRangeStmt": return self.range_for(s)
        if k == "BreakStmt":
            if self.loopstack and self.loopstack[-1] == "switch": raise Unsupported("break in switch")
            L = self.loopstack[-1]
            L["breaks"] = True
            if L.get("onbreak"): L["onbreak"]()
            self.em("break;"); return True
        if k == "ContinueStmt":
            L = self.loopstack[-1]
            if L.get("inc"): L["inc"]()
            if L.get("end"): self.hook(L["end"])
            self.em("continue;"); return True
        if k == "SwitchStmt": return self.switch(s)
        if k in ("DeclRefExpr",): return False
        # expression statement
        self.em_side(s)
        return False

    def const_false(self, e):
        while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr") and e.get("inner"): e = e["inner"][0]
        return (e.get("kind") == "CXXBoolLiteralExpr" and e.get("value") in (False, "false")) or (e.get("kind") == "IntegerLiteral" and str(e.get("value")) == "0")

    def has_jump(self, s):
        if not isinstance(s, dict) or s.get("kind") == "LambdaExpr": return False
        if s.get("kind") in ("BreakStmt", "ContinueStmt"): return True
        return any(self.has_jump(c) for c in s.get("inner", []) or [])

    def selfret_current(self): return self.inline_depth == 0 and self.selfret
    def cur_rt(self): return self.inl_rt[-1] if self.inline_depth else self.rt
    def blk(self, s): return s.get("inner", []) if s.get("kind") == "CompoundStmt" else [s]

    def cond(self, e):
        t, ty = self.rv(e)
        if ty.k == "bool": return t
        if ty.k in ("opt", "nptr"): return "(%s is Some)" % t
        if ty.k == "int": return "(%s != 0)" % t
        g = ty.a[0] if ty.k == "ptr" else ty
        if g.k == "ghost" and g.a[0] in self.p.unit.options.get("extbool", {}): return "(%s)" % self.p.unit.options["extbool"][g.a[0]].replace("$x", "(%s)" % t)
        raise Unsupported("condition of type %r" % ty)

    def declare(self, d, name, t):
        nm = mangle_ident(name)
        if self.inline_depth: nm = "%s_in%d" % (nm, self.inline_id[-1])
        self.locals.append((nm, t))
        self.frames[-1]["names"][name] = nm
        return nm

    def at(self, x):
        """@name in a contract text = the current value of that local (also inside inlined functions)"""
        def f(m):
            n = m.group(1)
            if n == "this":
                if self.inline_depth and self.inl_this[-1] is not None: return self.inl_this[-1].read()
                return "this"
            if n in self.frames[-1]["names"]: return self.frames[-1]["names"][n]
            if n in [q for q, _ in self.params]: return n
            raise Unsupported("contract mentions unknown local @" + n)
        return re.sub(r"@(\w+)", f, x)

    def decl(self, d):
        k = d.get("kind")
        if k in ("StaticAssertDecl", "TypeAliasDecl", "UsingDecl", "TypedefDecl", "EmptyDecl"): return
        if k == "VarDecl":
            t = self.p.te.parse(tystr(d))
            init = [c for c in d.get("inner", []) if is_expr(c)]
            if t.k == "lambda" or (init and self.strip(init[0]).get("kind") == "LambdaExpr"):
                self.vars[d["id"]] = ("lambda", self.strip(init[0])); return
            if t.ref in ("&", "&&") and init:
                lv = self.lv(init[0])
                if lv is not None:
                    self.vars[d["id"]] = self.freeze(lv); 
                    return
                it = None
            if init and (t.k == "opaque" or tystr(d).endswith("iterator")):
                mi = self.mapit(init[0])
                if mi is not None and mi[0] != "$end":
                    nm = self.declare(d, d["name"], mi[1])
                    self.em("let ghost mut %s: %s = %s;" % (nm, self.p.vt(mi[1]), mi[0]))
                    self.vars[d["id"]] = LV(nm, (), mi[1]); return
            if init:
                it = self.iterv(init[0]) if self.is_iter_type(tystr(d)) else None
                if it is not None:
                    nm = self.declare(d, d["name"], T("int", (64, True)))
                    self.em("let ghost mut %s: int = %s;" % (nm, it.idx))
                    self.vars[d["id"]] = ("iter", nm, it.cont, it.elem, it.lv); return
                v, vt_ = self.rv(init[0])
                if t.k in ("opaque",) or (t.k == "ptr" and vt_.k == "nptr"): t = vt_
                v = self.conv((v, vt_), t.val())
            else:
                v = self.default(t)
            nm = self.declare(d, d["name"], t.val())
            self.em("let ghost mut %s: %s = %s;" % (nm, self.p.vt(t.val()), v))
            self.vars[d["id"]] = LV(nm, (), t.val())
            self.after_decl(d["name"])
            return
        if k == "DecompositionDecl":
            init = [c for c in d.get("inner", []) if c.get("kind") != "BindingDecl"]
            bs = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
            v, t = self.rv(init[0])
            tv = self.temp(v)
            self.bind_decomp(bs, tv, t); return
        raise Unsupported("declaration " + str(k))

    def after_decl(self, name):
        c = self.frames[-1]["c"]
        h = c.afterdecl.get(name) if c is not None else None
        if h: self.hook(self.at(h))

    def bind_decomp(self, bs, tv, t):
        if t.k == "tup":
            for j, b in enumerate(bs): self.vars[b["id"]] = LV("%s.%d" % (tv, j), (), t.a[j], const=True)
        elif t.k == "rec":
            for (f, ft), b in zip(self.p.fields(t.a[0]), bs): self.vars[b["id"]] = LV("%s.%s" % (tv, f), (), ft, const=True)
        else: raise Unsupported("structured binding of %r" % t)

    def freeze(self, lv):
        """capture index expressions of a reference at binding time"""
        proj = []
        for p in lv.proj:
            if p[0] == "i" and not re.match(r"^\d+$", p[1]): proj.append(("i", self.temp2(p[1])))
            else: proj.append(p)
        return LV(lv.root, proj, lv.ty, lv.const)

    def temp2(self, txt):
        v = self.fresh(); self.em("let ghost %s = %s;" % (v, txt)); return v

    # ---- loops
    def loop_contract(self):
        fr = self.frames[-1]
        fr["loopn"] += 1
        L = fr["c"].loops.get(fr["loopn"]) if fr["c"] is not None else None
        return fr["loopn"], L

    def run_loop(self, kind, cond_fn, body_fn, inc_fn, subst, auto_inv, auto_dec, post_fn=None):
        """kind: while-like.  subst: $-names."""
        no, L = self.loop_contract()
        self.skel.append(kind)
        if L is None:
            if self.frames[-1]["c"] is None: raise Unsupported("loop inside an inlined function")
            from contracts import Loop
            L = Loop()
        idx = self.frames[-1].setdefault("idx", {}); idx[no] = subst
        def sb(x):
            # $i_N, $seq_N: position and sequence of the enclosing loop N
            x = re.sub(r"\$(i|seq|n)_(\d+)\b", lambda m: str(idx.get(int(m.group(2)), {}).get("$" + m.group(1), m.group(0))), x)
            for a, b in sorted(subst.items(), key=lambda kv: -len(kv[0])): x = x.replace(a, b)
            x = self.at(x)
            if re.search(r"\$[A-Za-z]", x): raise Unsupported("loop %d: contract does not fit the loop (%s)" % (no, re.findall(r"\$\w+", x)))
            return x
        if getattr(self, "in_loopret", 0):
            subst = dict(subst); subst["$done"] = self.retflag
            subst["$ret"] = self.inl_res[-1] if getattr(self, "inl_res", None) else "()"
        saved_vars = dict(self.vars)
        if L.before.strip(): self.hook(sb(L.before.strip()))
        rec = {"breaks": False, "inc": None, "end": sb(L.end.strip()) if L.end.strip() else None}
        if inc_fn: rec["inc"] = inc_fn
        self.loopstack.append(rec); self.assigned.append(set())
        # condition
        condlines = []
        (c, clines) = self.sub(cond_fn) if cond_fn else ("true", [])
        pure = all("assert(" in l for l in clines) if clines else True
        def body():
            if L.begin.strip(): self.hook(sb(L.begin.strip()))
            ended = body_fn()
            if not ended:
                if inc_fn: inc_fn()
                if L.end.strip(): self.hook(sb(L.end.strip()))
        old = self.em; self.em = Emitter(); self.em.ind = old.ind + 1
        self.vars = dict(saved_vars); nl = len(self.locals)
        body()
        del self.locals[nl:]
        blines = self.em.lines; self.em = old
        self.vars = saved_vars
        self.loopstack.pop(); asg = self.assigned.pop()
        for s in self.assigned: s |= asg
        simple = (not clines) and not rec["breaks"]
        tyfacts = []
        roots_ty = self.root_types()
        for r in sorted(asg):
            if r in roots_ty: tyfacts += self.p.ty(roots_ty[r], r)
        invs = list(auto_inv) + [sb(x) for _, x in L.inv]
        labs = [None] * len(auto_inv) + [l for l, _ in L.inv]
        self.p.obl["inv"] += 2 * len(invs)
        if rec["breaks"] or (not simple and L.ens): self.em("#[verifier::allow_complex_invariants]")
        if simple: self.em("while reify(Ghost(%s))" % c)
        else: self.em("loop")
        iname = "invariant" if not rec["breaks"] else "invariant_except_break"
        self.em("    %s" % iname)
        for x, l in zip(invs or ["true"], labs or [None]): self.em("        (%s), //@inv loop %d%s" % (x.replace("\n", " "), no, ": " + l if l else ""))
        ens = [sb(x) for _, x in L.ens]
        if not simple:
            if not rec["breaks"]: ens = ["!(%s)" % c] + ens if (not clines) else ens
            if ens:
                self.em("    ensures")
                for x in ens: self.em("        (%s), //@inv loop %d exit" % (x.replace("\n", " "), no))
        dec = [sb(d) for _, d in L.dec] or auto_dec
        if not dec: raise Unsupported("loop %d without a termination measure" % no)
        self.em("    decreases " + ", ".join(dec) + ",")
        self.em("{")
        if tyfacts: self.em("    proof { assume(%s); } //@ty" % " && ".join("(%s)" % f for f in tyfacts)); self.p.obl["assume_ty"] += 1
        if not simple:
            self.em.lines += clines
            if c != "true": self.em("    if !reify(Ghost(%s)) { break; }" % c)
        self.em("    //@loopbody")
        self.em.lines += blines
        self.em("}")
        if tyfacts: self.em("proof { assume(%s); } //@ty" % " && ".join("(%s)" % f for f in tyfacts))
        if L.after.strip(): self.hook(sb(L.after.strip()))
        return False

    def root_types(self):
        d = {n: t for n, t in self.params}
        for n, t in self.locals: d[n] = t
        if self.is_ctor: d["this"] = self.thisT
        return d

    def for_stmt(self, s):
        inner = s.get("inner", [])
        init, var, cond, inc, body = (list(inner) + [{}] * 5)[:5]
        self.em("{"); self.em.ind += 1
        saved = dict(self.vars)
        ivs = []
        subst = {}
        auto = []; dec = []
        ind = None
        if init and init.get("kind"):
            self.stmt(init)
            if init.get("kind") == "DeclStmt":
                for d in init["inner"]:
                    if d.get("kind") == "VarDecl" and d["id"] in self.vars: ivs.append((d, self.vars[d["id"]]))
        if ivs and isinstance(ivs[0][1], LV) and ivs[0][1].ty.k == "int" and inc.get("kind") == "UnaryOperator" and inc.get("opcode") == "++":
            nm = ivs[0][1].root
            ind = nm; subst["$i"] = nm
            start = self.temp2(nm)
            auto.append("%s <= %s" % (start, nm))
            cs = self.strip(cond)
            if cs.get("kind") == "BinaryOperator" and cs.get("opcode") in ("<", "!=", "<="):
                lim, ll = self.sub(lambda: self.rv(cs["inner"][1])[0])
                lhs = self.strip(cs["inner"][0])
                if not ll and lhs.get("kind") == "DeclRefExpr" and self.vars.get(lhs["referencedDecl"]["id"]) is ivs[0][1]:
                    plus = "" if cs["opcode"] != "<=" else " + 1"
                    subst["$n"] = "(%s%s)" % (lim, plus)
                    if cs["opcode"] == "!=":
                        auto.append("%s <= %s" % (nm, lim))
                    else:
                        auto.append("%s <= %s || %s == %s" % (nm, lim + plus, nm, start))
                    dec = ["%s%s - %s" % (lim, plus, nm)]
        elif ivs and isinstance(ivs[0][1], LV) and ivs[0][1].ty.k == "int" and inc.get("kind") == "UnaryOperator" and inc.get("opcode") == "--":
            nm = ivs[0][1].root; subst["$i"] = nm
            dec = ["%s" % nm]
        elif ivs and isinstance(ivs[0][1], tuple) and ivs[0][1][0] == "iter":
            nm = ivs[0][1][1]; subst["$i"] = nm; subst["$seq"] = ivs[0][1][2]
            auto.append("0 <= %s <= %s.len()" % (nm, ivs[0][1][2])); dec = ["%s.len() - %s" % (ivs[0][1][2], nm)]
        cf = (lambda: self.cond(cond)) if cond and cond.get("kind") else None
        incf = (lambda: self.em_side(inc)) if inc and inc.get("kind") else None
        r = self.run_loop("for", cf, lambda: self.body_block(body), incf, subst, auto, dec)
        self.em.ind -= 1; self.em("}")
        self.vars = saved
        return r

    def body_block(self, body):
        return self.stmts(self.blk(body))

    def while_stmt(self, s):
        inner = s.get("inner", [])
        if s.get("hasVar"): raise Unsupported("while with declaration")
        cond, body = inner[0], inner[1]
        return self.run_loop("while", lambda: self.cond(cond), lambda: self.body_block(body), None, {}, [], [])

    def do_stmt(self, s):
        body, cond = s["inner"][0], s["inner"][1]
        flag = self.fresh("again")
        self.em("let ghost mut %s = true;" % flag)
        def inc():
            c = self.cond(cond)
            for a in self.assigned: a.add(flag)
            self.em("proof { %s = %s; }" % (flag, c))
        return self.run_loop("do", lambda: flag, lambda: self.body_block(body), inc, {"$again": flag}, [], [])

    def range_for(self, s):
        inner = s.get("inner", [])
        init = inner[0]
        rangedecl = inner[1]["inner"][0]
        loopvar = None
        for c in inner[2:]:
            if c.get("kind") == "DeclStmt":
                d = c["inner"][0]
                if d.get("isImplicit") or d.get("name", "").startswith("__"): continue
                loopvar = d
        body = inner[-1]
        if loopvar is None: raise Unsupported("range-for variable")
        self.em("{"); self.em.ind += 1
        saved = dict(self.vars)
        if init and init.get("kind"): self.stmt(init)
        rexpr = [c for c in rangedecl.get("inner", [])][0]
        view = self.range_view(rexpr)          # list of (seqtext, elemT, lv or None), kind
        iv = self.fresh("i")
        self.locals.append((iv, T("int", (64, True))))
        self.em("let ghost mut %s: int = 0;" % iv)
        length = view["len"]
        subst = {"$i": iv, "$n": length}
        for j, (q, et, lv) in enumerate(view["seqs"]): subst["$seq%d" % j] = q
        if view["seqs"]: subst["$seq"] = view["seqs"][0][0]
        mutate = []
        def body_fn():
            t = self.p.te.parse(tystr(loopvar)) if loopvar["kind"] == "VarDecl" else None
            if loopvar["kind"] == "VarDecl":
                q, et, lv = view["seqs"][0]
                if view["kind"] == "enumerate":
                    self.__dict__.setdefault("enumvars", {})[loopvar["id"]] = (iv, q, et)
                    return self.body_block(body)
                if t.ref == "&" and not t.const and lv is not None:
                    self.vars[loopvar["id"]] = LV(lv.root, lv.proj + (("i", iv),), et, lv.const)
                else:
                    nm = self.declare(loopvar, loopvar["name"], et)
                    self.em("let ghost mut %s: %s = %s[%s];" % (nm, self.p.vt(et), q, iv))
                    self.vars[loopvar["id"]] = LV(nm, (), et)
                    self.assume_ty(et, nm)
            else:
                bs = [c for c in loopvar.get("inner", []) if c.get("kind") == "BindingDecl"]
                seqs = view["seqs"]
                off = 0
                if view["kind"] == "enumerate":
                    nm = self.declare(bs[0], bs[0]["name"], T("int", (64, False)))
                    self.em("let ghost %s: int = %s;" % (nm, iv))
                    self.vars[bs[0]["id"]] = LV(nm, (), T("int", (64, False)), const=True); off = 1
                elif len(seqs) == 1 and len(bs) > 1:
                    q, et, lv = seqs[0]
                    tv = self.temp("%s[%s]" % (q, iv))
                    self.bind_decomp(bs, tv, et)
                    return self.body_block(body)
                for b, (q, et, lv) in zip(bs[off:], seqs):
                    nm = self.declare(b, b["name"], et)
                    if lv is not None:
                        self.vars[b["id"]] = LV(lv.root, lv.proj + (("i", iv),), et, lv.const)
                        self.em("let ghost %s: %s = %s[%s];" % (nm, self.p.vt(et), q, iv))
                    else:
                        self.em("let ghost %s: %s = %s[%s];" % (nm, self.p.vt(et), q, iv))
                        self.vars[b["id"]] = LV(nm, (), et, const=True)
                    self.assume_ty(et, nm)
            return self.body_block(body)
        def inc():
            for a in self.assigned: a.add(iv)
            self.em("proof { %s = %s + 1; }" % (iv, iv))
        self.run_loop("for", lambda: "%s < %s" % (iv, length), body_fn, inc, subst,
                      ["0 <= %s <= %s" % (iv, length)], ["%s - %s" % (length, iv)])
        self.em.ind -= 1; self.em("}")
        self.vars = saved
        return False

    def range_view(self, e):
        e0 = self.strip(e)
        if e0.get("kind") == "CallExpr":
            nm = self.callee_name(e0)
            if nm in ("zip", "zip_equal", "zip_first"):
                seqs = [self.seq_of(a) for a in e0["inner"][1:]]
                ln = "%s.len()" % seqs[0][0]
                if nm == "zip":
                    for q in seqs[1:]: ln = "min_(%s as int, %s.len() as int)" % (ln, q[0])
                elif nm == "zip_equal":
                    for q in seqs[1:]: self.ob("%s.len() == %s.len()" % (seqs[0][0], q[0]), "bounds", "zip_equal")
                else:
                    for q in seqs[1:]: self.ob("%s.len() <= %s.len()" % (seqs[0][0], q[0]), "bounds", "zip_first")
                return {"kind": "zip", "seqs": seqs, "len": "(%s as int)" % ln}
            if nm == "enumerate":
                seqs = [self.seq_of(a) for a in e0["inner"][1:]]
                return {"kind": "enumerate", "seqs": seqs, "len": "(%s.len() as int)" % seqs[0][0]}
        q = self.seq_of(e)
        return {"kind": "plain", "seqs": [q], "len": "(%s.len() as int)" % q[0]}

    def seq_of(self, e):
        """(text, element type, lvalue or None) of something that can be iterated."""
        r = self.iter_pair(e)
        if r is not None: return r
        lv = self.lv(e)
        if lv is not None:
            t = lv.ty
            txt = lv.read()
        else:
            txt, t = self.rv(e); txt = self.temp(txt)
        if t.k == "seq":
            # freeze if the container is not modified: text stays symbolic
            return (txt, t.a[0], lv)
        if t.k == "str": return (txt, T("int", (8, True)), lv)
        if t.k in ("rec", "ghost"):
            v = self.p.unit.options.get("iterview", {}).get(t.a[0])
            if v:
                ex, et = v.split(":", 1)
                et = self.p.te.parse(et.strip())
                return (ex.strip().replace("$x", txt), et.val(), None)
            r = self.forwarded_iter(txt, t) if t.k == "rec" else None
            if r is not None: return r
        raise Unsupported("iteration over %r" % t)

    def iter_pair(self, e):
        """llvm::make_range(x.first(), x.last()): %iterpair Rec.first Rec.last = expression over $x : element type"""
        e0 = self.strip(e)
        if e0.get("kind") != "CallExpr" or self.callee_name(e0) != "make_range": return None
        objs, names = [], []
        for a in e0["inner"][1:]:
            a = self.strip(a)
            if a.get("kind") == "CXXConstructExpr" and len(a.get("inner", [])) == 1: a = self.strip(a["inner"][0])
            if a.get("kind") != "CXXMemberCallExpr" or len(a.get("inner", [])) != 1: return None
            me = a["inner"][0]
            if me.get("kind") != "MemberExpr": return None
            names.append(me.get("name", "").split("::")[-1]); objs.append(self.rv(me["inner"][0]))
        if len(objs) != 2 or objs[0][0] != objs[1][0]: return None
        rec = objs[0][1]
        if rec.k in ("ptr",): rec = rec.a[0]
        v = self.p.unit.options.get("iterpair", {}).get("%s.%s %s.%s" % (rec.a[0], names[0], rec.a[0], names[1]))
        if v is None: return None
        ex, et = v.split(":", 1)
        et = self.p.te.parse(et.strip())
        return (self.temp(ex.strip().replace("$x", objs[0][0])), et.val(), None)

    def forwarded_iter(self, txt, t):
        """record whose begin()/end() forward to a member container"""
        out = []
        for nm in ("begin", "end"):
            c = [(m, n) for m, n in self.p.funcs.items() if n.get("name") == nm and not params_of(n) and self.safe_rec(n) == t.a[0]
                 and re.search(r"\)\s*const", n["type"]["qualType"])]
            if len(c) != 1: return None
            m, fn = c[0]
            st = [x for x in body_of(fn).get("inner", []) if x.get("kind") != "NullStmt"]
            if len(st) != 1 or st[0]["kind"] != "ReturnStmt": return None
            saved = dict(self.vars)
            self.push_inline(fn, LV(txt, (), t, const=True), [], T("unit"))
            try: it = self.iterv(st[0]["inner"][0])
            finally: self.pop_inline(); self.vars = saved
            if it is None: return None
            self.p.inlined.add(self.p.dm[m]); out.append(it)
        b, e = out
        if b.cont == e.cont and b.idx == "0" and e.idx == "(%s.len() as int)" % b.cont: return (b.cont, b.elem, None)
        return None

    def no_break(self, st):
        """statements of a case without the final break; a break elsewhere is not supported"""
        st = [x for x in st if x.get("kind")]
        if st and st[-1].get("kind") == "CompoundStmt" : return st[:-1] + [dict(st[-1], inner=self.no_break(st[-1].get("inner", [])))] 
        if st and st[-1].get("kind") == "BreakStmt": st = st[:-1]
        if any(self.has_break(x) for x in st): raise Unsupported("break inside a switch case")
        return st

    def has_break(self, n):
        if not isinstance(n, dict): return False
        if n.get("kind") == "BreakStmt": return True
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "LambdaExpr"): return False
        return any(self.has_break(c) for c in n.get("inner", []) or [])

    def switch(self, s, rest=None):
        cond, body = s["inner"][-2], s["inner"][-1]
        v, t = self.rv(cond); v = self.temp(v)
        cases = []   # (labels|None, stmts)
        cur = None
        for st in body.get("inner", []):
            labs = []
            while st.get("kind") in ("CaseStmt", "DefaultStmt"):
                if st["kind"] == "CaseStmt":
                    labs.append(self.rv(st["inner"][0])[0]); st = st["inner"][-1]
                else:
                    labs.append(None); st = st["inner"][-1]
            if labs:
                cur = [labs, []]; cases.append(cur)
            if cur is None: raise Unsupported("switch statement before a label")
            cur[1].append(st)
        # fall-through: the statements of the next cases follow
        for j in range(len(cases) - 2, -1, -1):
            if not self.terminates(cases[j][1]): cases[j][1] = cases[j][1] + cases[j + 1][1]
        for c in cases: c[1] = self.no_break(c[1])
        # default last
        dflt = [c for c in cases if None in c[0]]
        others = [c for c in cases if None not in c[0]]
        saved = dict(self.vars)
        def emit(cs):
            if not cs:
                if rest is not None: return self.stmts((dflt[0][1] if dflt else []) + list(rest))
                if dflt:
                    return self.switch_body(dflt[0][1])
                return False
            labs, st = cs[0]
            self.em("if reify(Ghost((%s))) {" % " || ".join("(%s == %s)" % (v, l) for l in labs))
            r1 = self.scope(lambda: self.switch_body(st) if rest is None else self.stmts(list(st) + list(rest)))
            self.em("} else {")
            r2 = self.scope(lambda: emit(cs[1:]))
            self.em("}")
            return r1 and r2
        r = emit(others)
        self.vars = saved
        return r

    def switch_body(self, st):
        return self.stmts(st)

    def terminates(self, st):
        if not st: return False
        l = st[-1]
        if l.get("kind") in ("BreakStmt", "ReturnStmt", "ContinueStmt"): return True
        if l.get("kind") == "CompoundStmt": return self.terminates(l.get("inner", []))
        if l.get("kind") == "IfStmt":
            _, _, then, els = self.if_parts(l)
            return els is not None and self.terminates([then]) and self.terminates([els])
        return False

    # ---- expressions
    SKIP = {"ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr",
            "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr", "FullExpr", "CXXStaticCastExpr"}

    def strip(self, e):
        while e.get("kind") in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr") :
            if e["kind"] == "ImplicitCastExpr" and e.get("castKind") in ("IntegralCast", "IntegralToBoolean", "UserDefinedConversion", "ConstructorConversion", "IntegralToFloating", "FloatingToIntegral"):
                break
            if e["kind"] == "ParenExpr" or "inner" in e: e = e["inner"][0]
            else: break
        # move-like wrappers
        if e.get("kind") == "CXXConstructExpr" and len(e.get("inner", [])) == 1 and self.is_copy_ctor(e):
            return self.strip(e["inner"][0])
        if e.get("kind") == "CallExpr" and self.callee_name(e) in ("move", "forward", "as_const"):
            return self.strip(e["inner"][1])
        return e

    def ety(self, e):
        """static type of an expression, derived-to-base adjustments on library types undone"""
        while e.get("kind") == "ImplicitCastExpr" and e.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp", "LValueToRValue"): e = e["inner"][0]
        return self.p.te.parse(tystr(e))

    def is_copy_ctor(self, e):
        t = self.p.te.parse(tystr(e)); a = self.ety(e["inner"][0])
        if t.k == "opaque": return tystr(e).replace("const ", "") == tystr(e["inner"][0]).replace("const ", "")
        if t.k in ("seq", "bits", "str") and a.k == t.k: return True
        if t.k == "opt" and a.k == "opt" and a.a == t.a: return True
        return t == a and t.k in ("rec", "opt", "tup", "ptr", "ghost", "enum", "int")

    def callee_decl(self, e):
        f = e["inner"][0]
        while f.get("kind") in ("ImplicitCastExpr", "ParenExpr"): f = f["inner"][0]
        return f

    def callee_name(self, e):
        f = self.callee_decl(e)
        if f.get("kind") == "DeclRefExpr": return f["referencedDecl"].get("name")
        if f.get("kind") == "MemberExpr": return f.get("name")
        return None

    def lv(self, e):
        """lvalue path of e or None (may emit index obligations)."""
        e = self.strip(e)
        k = e.get("kind")
        if k == "DeclRefExpr":
            v = self.vars.get(e["referencedDecl"]["id"])
            if isinstance(v, LV): return v
            return None
        if k == "CXXThisExpr":
            if self.inline_depth and self.inl_this[-1] is not None: return self.inl_this[-1]
            return LV("this", (), self.thisT)
        if k == "UnaryOperator" and e.get("opcode") == "*":
            x = self.strip(e["inner"][0])
            if x.get("kind") == "CXXThisExpr": return self.lv(x)
            it = self.iterv(x)
            if it is not None and it.cont is not None:
                self.ob("0 <= %s < %s.len()" % (it.idx, it.cont), "bounds", "iterator dereference")
                return LV("%s[%s]" % (it.cont, it.idx), (), it.elem, const=True)
            l = self.lv(x)
            if l is not None and l.ty.k in ("ptr", "nptr"): return self.deref(l)
            return None
        if k == "UnaryOperator" and e.get("opcode") == "&":
            l = self.lv(e["inner"][0])
            return l
        if k == "CXXStaticCastExpr":
            l = self.lv(e["inner"][0])
            return l if l is not None and l.ty == self.p.te.parse(tystr(e)).val() else None
        if k == "MemberExpr":
            base = e["inner"][0]
            d = self.member_decl(e)
            if d is not None and d.get("kind") not in ("FieldDecl", None): return None
            l = self.lv(base)
            if l is None:
                t = self.ety(base)
                if t.k in ("rec", "ptr", "tup") or t.k == "opaque" and self.strip(base).get("kind") == "CXXOperatorCallExpr" and self.mapit(self.strip(base)["inner"][1]) is not None:
                    v, vt_ = self.rv(base)
                    l = self.deref(LV(self.temp(v), (), vt_, const=True))
                else: return None
            if l.ty.k == "nptr": l = self.deref(l)
            t = l.ty
            if t.k == "ptr": t = t.a[0]
            if t.k == "tup" and e["name"] in ("first", "second"):
                j = 0 if e["name"] == "first" else 1
                return l.tup(j, len(t.a), t.a[j])
            if t.k == "rec":
                fs = dict(self.p.fields(t.a[0]))
                if e["name"] in fs: return l.field(self.p.rname(t.a[0]), mangle_ident(e["name"]), fs[e["name"]])
            return None
        if k == "ArraySubscriptExpr":
            l = self.lv(e["inner"][0])
            if l is not None and l.ty.k == "seq":
                i = self.rv(e["inner"][1])[0]
                self.ob("0 <= %s < %s.len()" % (i, l.read()), "bounds", "array subscript")
                return l.index(i, l.ty.a[0])
            return None
        if k == "CXXOperatorCallExpr":
            op = self.callee_name(e)
            args = e["inner"][1:]
            if op == "operator[]":
                t = self.ety(args[0])
                if t.k in ("seq", "bits", "str"):
                    l = self.lv(args[0])
                    if l is None: return None
                    i = self.rv(args[1])[0]
                    self.ob("0 <= %s < %s.len()" % (i, l.read()), "bounds", "subscript")
                    et = t.a[0] if t.k == "seq" else T("bool") if t.k == "bits" else T("int", (8, True))
                    return l.index(i, et)
                if t.k == "map":
                    mw = getattr(self, "map_write", False); self.map_write = False
                    try:
                        l = self.lv(args[0])
                        if l is None: return None
                        key = self.temp2(self.conv(self.rv(args[1]), t.a[0]))
                    finally: self.map_write = mw
                    if not mw:
                        # reading or changing an element creates it, value-initialised
                        if t.a[1].k not in ("seq", "str", "map", "opt", "int", "bool", "bits"): raise Unsupported("map element of type %r" % (t.a[1],))
                        d = {"int": "0", "bool": "false"}.get(t.a[1].k) or self.default(t.a[1])
                        m = l.read()
                        self.assign(l, "(if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) })" % (m, key, m, m, key, d))
                    return LV(l.root, l.proj + (("m", key),), t.a[1], l.const)
                if t.k == "rec": return self.inline_lv(e)
                return None
            if op in ("operator*", "operator->"):
                t = self.ety(args[0])
                if t.k == "opt":
                    l = self.lv(args[0])
                    if l is None: return None
                    self.ob("%s is Some" % l.read(), "nullopt", "optional dereference")
                    return l.some(t.a[0])
                if t.k == "ptr":
                    l = self.lv(args[0])
                    if l is not None: return self.deref(l)
                it = self.iterv(args[0])
                if it is not None and it.cont is not None:
                    self.ob("0 <= %s < %s.len()" % (it.idx, it.cont), "bounds", "iterator dereference")
                    if it.lv is not None and not it.lv.const: return self.deref(it.lv.index(it.idx, it.elem))
                    return LV("%s[%s]" % (it.cont, it.idx), (), it.elem, const=True)
            if op in ("operator=", "operator++", "operator--", "operator+=", "operator-="):
                return None
            return None
        if k == "CXXMemberCallExpr":
            f = self.callee_decl(e)
            base = f["inner"][0] if f.get("inner") else None
            nm = f.get("name")
            if base is not None:
                t = self.ety(base)
                if t.k == "ptr": t = t.a[0]
                if t.k == "seq" and nm in ("front", "back"):
                    l = self.lv(base)
                    if l is None: return None
                    self.ob("%s.len() > 0" % l.read(), "bounds", nm)
                    i = "0" if nm == "front" else "%s.len() - 1" % l.read()
                    return l.index(i, t.a[0])
                if t.k == "seq" and nm == "emplace_back":      # the reference to the new element
                    l = self.lv(base)
                    if l is None or l.const: return None
                    self.std_method(t, nm, base, e["inner"][1:], e)
                    return l.index(self.temp("(%s.len() - 1)" % l.read()), t.a[0])
                if t.k == "opt" and nm == "value":
                    l = self.lv(base)
                    if l is None: return None
                    self.ob("%s is Some" % l.read(), "nullopt", "value()")
                    return l.some(t.a[0])
                if t.k == "ptr" and nm == "get":
                    return self.lv(base)
                if t.k == "rec": return self.inline_lv(e)
            return None
        return None

    def is_dropped(self, e):
        e = self.strip(e)
        if e.get("kind") != "MemberExpr": return False
        t = self.ety(e["inner"][0])
        if t.k == "ptr": t = t.a[0]
        while t.k == "rec":
            if t.a[0] + "." + e["name"] in self.p.unit.options.get("drop", set()): return True
            bs = (self.p.records.get(t.a[0]) or {}).get("bases") or []
            if len(bs) != 1: return False
            b = self.p.te.parse(bs[0]["type"].get("desugaredQualType") or bs[0]["type"]["qualType"])
            if b == t: return False
            t = b
        return False

    def member_decl(self, e):
        return self.tu.byid.get(e.get("referencedMemberDecl"))

    def inline_lv(self, e):
        """call returning a reference into an object: inline `return <lvalue>`"""
        d, objexpr, args = self.call_parts(e)
        if d is None: return None
        fn = self.p.funcs.get(d.get("mangledName"))
        if fn is None: return None
        key = self.p.dm.get(d["mangledName"])
        if self.p.modular(key): return None
        rt = self.rettype_of(fn)
        if rt.ref != "&": return None
        st = [x for x in body_of(fn).get("inner", []) if x.get("kind") not in ("NullStmt", "DeclStmt") and not self.is_noop(x)]
        if len(st) != 1 or st[0]["kind"] != "ReturnStmt": return None
        objlv = self.lv(objexpr) if objexpr is not None else None
        if objexpr is not None and objlv is None:
            v, vt_ = self.rv(objexpr); objlv = LV(self.temp(v), (), vt_, const=True)
        objlv = self.deref(objlv)
        saved = dict(self.vars)
        self.push_inline(fn, objlv, args, T("unit"))
        try:
            r = self.lv(st[0]["inner"][0])
            if r is not None: self.p.inlined.add(key)
            return r
        finally:
            self.pop_inline(); self.vars = saved

    @staticmethod
    def is_noop(x):
        """what is left of an assertion: a literal cast to void"""
        while x.get("kind") == "ParenExpr": x = x["inner"][0]
        if x.get("kind") not in ("CStyleCastExpr", "CXXStaticCastExpr") or x.get("castKind") != "ToVoid": return False
        y = x["inner"][0]
        while y.get("kind") in ("ParenExpr", "ImplicitCastExpr"): y = y["inner"][0]
        return y.get("kind") == "IntegerLiteral"

    def rettype_of(self, fn):
        old = getattr(self, "rec", None)
        try:
            try: self.rec = self.record_of(fn)
            except Unsupported: pass
            return self.rettype(fn["type"]["qualType"])
        finally:
            if old is not None: self.rec = old

    inl_this = None
    def push_inline(self, fn, objlv, args, rt):
        if self.inl_this is None: self.inl_this = []; self.inl_rt = []; self.inline_id = []; self.inl_tu = []; self.inl_rec = []
        vals = []
        ps = params_of(fn)
        for q, a in zip(ps, args):
            if a.get("kind") == "CXXDefaultArgExpr":
                a = [c for c in q.get("inner", []) if c.get("kind")][0] if q.get("inner") else None
                if a is None:
                    raise Unsupported("default argument")
            t = self.p.te.parse(tystr(q))
            ic = self.p.unit.contracts.get(self.p.dm.get(fn.get("mangledName")))
            if ic is not None and t.k == "ptr" and mangle_ident(q.get("name", "")) in ic.nullargs: t = T("nptr", t.a, t.ref, t.const)
            st = self.strip(a)
            while st.get("kind") in ("CXXConstructExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr") and len([c for c in st.get("inner", []) if c.get("kind") != "CXXDefaultArgExpr"]) == 1 and (t.k == "opaque" or t.k == "lambda"):
                st = self.strip(st["inner"][0])
            if st.get("kind") == "LambdaExpr": vals.append((q, ("lambda", st, dict(self.vars)))); continue
            if st.get("kind") == "DeclRefExpr" and isinstance(self.vars.get(st["referencedDecl"]["id"]), tuple) and self.vars[st["referencedDecl"]["id"]][0] == "lambda":
                vals.append((q, self.vars[st["referencedDecl"]["id"]])); continue
            l = self.lv(a) if t.ref == "&" else None
            if l is not None: vals.append((q, self.freeze(l)))
            else:
                v = self.conv(self.rv(a), t.val())
                vals.append((q, (v, t.val())))
        self.inline_depth += 1
        if self.inline_depth > 12: raise Unsupported("inlining too deep")
        ic = self.p.unit.contracts.get(self.p.dm.get(fn.get("mangledName")))
        self.frames.append({"c": ic if ic is not None and ic.inline else None, "loopn": 0, "names": {}})
        self.n += 1
        self.inline_id.append(self.n)
        self.inl_this.append(objlv); self.inl_rt.append(rt)
        self.inl_tu.append(self.tu); self.tu = fn["_tu"]
        self.inl_rec.append((getattr(self, "rec", None), getattr(self, "thisT", None)))
        if objlv is not None:
            self.thisT = objlv.ty
            if objlv.ty.k == "rec": self.rec = objlv.ty.a[0]
        for q, v in vals:
            if isinstance(v, LV) or (isinstance(v, tuple) and v[0] == "lambda"): self.vars[q["id"]] = v
            else:
                nm = self.declare(q, q.get("name", "u"), v[1])
                self.em("let ghost mut %s: %s = %s;" % (nm, self.p.vt(v[1]), v[0]))
                self.vars[q["id"]] = LV(nm, (), v[1])

    def pop_inline(self):
        self.frames.pop()
        self.inline_depth -= 1
        self.inline_id.pop(); self.inl_this.pop(); self.inl_rt.pop(); self.tu = self.inl_tu.pop()
        r, t = self.inl_rec.pop()
        if r is not None: self.rec = r
        if t is not None: self.thisT = t

    def inline_call(self, fn, objlv, args, key):
        if key in self.p.unit.options.get("noinline", ()): raise Unsupported("needs a contract: " + key)
        rt = self.rettype_of(fn)
        ic = self.p.unit.contracts.get(key)
        if ic is not None and "return" in ic.nullargs and rt.k == "ptr": rt = T("nptr", rt.a)
        st = [x for x in body_of(fn).get("inner", []) if x.get("kind") != "NullStmt"]
        saved = dict(self.vars)
        self.p.inlined.add(key)
        if fn["kind"] == "CXXConstructorDecl": raise Unsupported("constructor needs contract or trivial body: " + key)
        if len(st) == 1 and st[0]["kind"] == "ReturnStmt":
            self.push_inline(fn, objlv, args, rt.val())
            try:
                if not st[0].get("inner"): return ("()", T("unit"))
                r = self.rv(st[0]["inner"][0])
                if r[1].k == "nptr" and rt.k == "ptr": return r
                return (self.conv(r, rt.val()), rt.val() if rt.k != "opaque" else r[1])
            finally:
                self.pop_inline(); self.vars = saved
        # general, loop-free returns
        res = self.fresh("r")
        isunit = rt.k == "unit" or (rt.ref == "&" and not rt.const and rt.k == "rec")
        if not isunit:
            self.em("let ghost mut %s: %s = arbitrary();" % (res, self.p.vt(rt.val())))
        self.em("{"); self.em.ind += 1
        self.push_inline(fn, objlv, args, rt.val())
        oldret = self.retmode; oldlr = getattr(self, "in_loopret", 0); self.in_loopret = 0
        self.inl_res = getattr(self, "inl_res", []) + [res]
        def ret(val):
            if val is not None and not isunit:
                for a in self.assigned: a.add(res)
                self.em("proof { %s = %s; }" % (res, val))
        self.retmode = ret
        try:
            self.stmts(st)
        finally:
            self.retmode = oldret; self.in_loopret = oldlr; self.inl_res = self.inl_res[:-1]
            self.pop_inline(); self.vars = saved
        self.em.ind -= 1; self.em("}")
        if isunit: return ("()", T("unit"))
        return (res, rt.val())

    def call_parts(self, e):
        """(decl node, object expr or None, args) of a call expression"""
        k = e["kind"]
        f = self.callee_decl(e)
        if k == "CXXMemberCallExpr":
            if f.get("kind") != "MemberExpr": return None, None, []
            d = self.member_decl(f)
            return d, f["inner"][0], e["inner"][1:]
        if k == "CXXOperatorCallExpr":
            d = self.tu.byid.get(f["referencedDecl"]["id"])
            rd = f["referencedDecl"]
            if rd["kind"] == "CXXMethodDecl": return d, e["inner"][1], e["inner"][2:]
            return d, None, e["inner"][1:]
        if k == "CallExpr":
            if f.get("kind") == "DeclRefExpr":
                return self.tu.byid.get(f["referencedDecl"]["id"]), None, e["inner"][1:]
        return None, None, []

    def arg_values(self, fn, args):
        out = []
        for q, a in zip(params_of(fn), args):
            if a.get("kind") == "CXXDefaultArgExpr":
                inner = [c for c in q.get("inner", []) if c.get("kind")]
                if not inner:
                    # default is on the first declaration
                    raise Unsupported("default argument")
                a = inner[0]
            t = self.p.te.parse(tystr(q))
            if t.k == "ptr" and self.p.unit.contracts.get(self.p.dm.get(fn.get("mangledName"))) is not None and mangle_ident(q.get("name", "")) in self.p.unit.contracts[self.p.dm[fn["mangledName"]]].nullargs: t = T("nptr", t.a, t.ref, t.const)
            mut = t.ref == "&" and not t.const
            if mut:
                l = self.lv(a)
                if l is None: raise Unsupported("mutable reference argument")
                l = self.freeze(l)
                out.append((l.read(), l, t.val()))
            else:
                out.append((self.conv(self.rv(a), t.val()), None, t.val()))
        return out

    def call_contract(self, key, fn, objexpr, args, objval=None):
        p = self.p; c = p.unit.contracts[key]
        p.request(key)
        callee = FnX.signature(p, key, fn, c)
        actuals = []; outs = []
        if callee["method"]:
            if objval is not None: l, v = None, objval
            else:
                l = self.deref(self.lv(objexpr))
                if callee["mut"]:
                    if l is None: raise Unsupported("mutating method on a temporary: " + key)
                    l = self.freeze(l)
                    outs.append(l)
                if l is not None: v = l.read()
                else:
                    v, vt_ = self.rv(objexpr)
                    if vt_.k == "nptr": v = self.deref(LV(self.temp(v), (), vt_, const=True)).read()
            actuals.append(v)
            if l is not None and l.ty.k == "rec" and l.ty.a[0] != callee["rec"] and callee["rec"] not in p.poly:
                # a derived object: the call works on its base subobject
                bf = p.fields(callee["rec"]); p.use_record(callee["rec"])
                if any(f not in dict(p.fields(l.ty.a[0])) for f, _ in bf): raise Unsupported("method of an unrelated class: " + key)
                actuals[-1] = self.temp2("%s { %s }" % (p.rname(callee["rec"]), ", ".join("%s: %s.%s" % (mangle_ident(f), v, mangle_ident(f)) for f, _ in bf)))
                if outs and outs[-1] is l: outs[-1] = ("up", l, [f for f, _ in bf])
        for v, l, t in self.arg_values(fn, args):
            actuals.append(v)
            if l is not None: outs.append(l)
        nreal = len(actuals)
        ghosts = []
        wm = self.frames[-1]["c"].with_.get(p.vname(key), {}) if self.frames[-1]["c"] is not None else {}
        for g, _ in c.ghosts: ghosts.append(self.at(wm.get(g, g)))
        p.obl["calls"] += len(c.req)
        r = self.fresh("r")
        nm = p.vname(key)
        h = self.c.beforecall.get(nm)
        if h:
            for j, a in enumerate(actuals): h = h.replace("$%d" % (j + 1), "(%s)" % a)
            self.hook(self.at(h))
        self.em("let Ghost(%s) = %s(%s); //@call %s" % (r, nm, ", ".join("Ghost(%s)" % a for a in actuals + ghosts), key))
        ncomp = (0 if callee["rt"].k == "unit" else 1) + len(outs)
        pos = 0
        res = ("()", T("unit"))
        if callee["rt"].k != "unit":
            txt = r if ncomp == 1 else "%s.0" % r
            res = (txt, callee["rt"]); pos = 1
            self.assume_ty(callee["rt"], txt)
        for j, l in enumerate(outs):
            rv_ = r if ncomp == 1 else "%s.%d" % (r, pos + j)
            if isinstance(l, tuple):
                _, l, bf = l
                self.assign(l, "%s { %s, ..%s }" % (p.rname(l.ty.a[0]), ", ".join("%s: %s.%s" % (mangle_ident(f), rv_, mangle_ident(f)) for f in bf), l.read()))
            else: self.assign(l, rv_)
        h = self.c.aftercall.get(nm)
        if h:
            hh = h.replace("$ret", res[0]).replace("$post", (r if ncomp == 1 else "%s.%d" % (r, pos)) if outs else "()")
            for j, a in enumerate(actuals): hh = hh.replace("$%d" % (j + 1), "(%s)" % a)
            self.hook(hh)
        if callee["selfret"]: return ("$self", outs[0])
        return res

    @staticmethod
    def signature(p, key, fn, c):
        fx = FnX.__new__(FnX)
        FnX.__init__(fx, p, key, fn, c)
        octx = p.ctxrec
        try: return FnX.signature2(fx, p, key, fn, c)
        finally: p.ctxrec = octx

    @staticmethod
    def signature2(fx, p, key, fn, c):
        is_ctor = fn["kind"] == "CXXConstructorDecl"
        first = fx.tu.byid.get(fn.get("previousDecl"), fn)
        method = fn["kind"] in ("CXXMethodDecl", "CXXConversionDecl") and fn.get("storageClass") != "static" and first.get("storageClass") != "static"
        if method or is_ctor: fx.rec = fx.record_of(fn)
        mut = method and not re.search(r"\)\s*const\b", fn["type"]["qualType"])
        rt = T("rec", (fx.rec,)) if is_ctor else fx.rettype(fn["type"]["qualType"])
        selfret = mut and rt.ref == "&" and not rt.const and rt.k == "rec" and rt.a[0] == fx.rec
        return {"rec": getattr(fx, "_rec", None), "method": method, "mut": mut, "rt": T("unit") if selfret else rt.val(), "selfret": selfret}

    def mapit(self, e):
        """iterator of a map: Option<(key, value)>, "$end" for end()"""
        e = self.strip(e)
        while e.get("kind") in ("CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr") and len(e.get("inner", [])) == 1: e = self.strip(e["inner"][0])
        if e.get("kind") == "DeclRefExpr":
            v = self.vars.get(e["referencedDecl"]["id"])
            if isinstance(v, LV) and v.ty.k == "mapit": return (v.read(), v.ty)
            return None
        if e.get("kind") == "CXXOperatorCallExpr" and self.callee_name(e) == "operator->" and len(e["inner"]) == 2:
            return self.mapit(e["inner"][1])   # pointer proxy of an iterator facade
        if e.get("kind") == "CXXMemberCallExpr":
            f = self.callee_decl(e)
            if not f.get("inner"): return None
            t = self.ety(f["inner"][0])
            if t.k == "ptr": t = t.a[0]
            if t.k != "map": return None
            if f.get("name") == "end": return ("$end", T("mapit", t.a))
            if f.get("name") == "find":
                m = self.rv(f["inner"][0])[0]; k = self.temp(self.conv(self.rv(e["inner"][1]), t.a[0]))
                return ("(if %s.dom().contains(%s) { Some((%s, %s[%s])) } else { None })" % (m, k, k, m, k), T("mapit", t.a))
        return None

    # iterators --------------------------------------------------------
    def is_iter_type(self, s):
        return bool(re.search(r"iterator|\*$|\* ?const$", s.strip()))

    def iterv(self, e):
        e = self.strip(e)
        k = e.get("kind")
        if k == "DeclRefExpr":
            v = self.vars.get(e["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "iter": return IterVal(v[2], v[1], v[3], v[4] if len(v) > 4 else None)
            return None
        if k == "CallExpr" and self.callee_name(e) == "find_if" and len(e["inner"]) == 4: return self.find_if(e)
        if k == "CXXConstructExpr" and len(e.get("inner", [])) == 1: return self.iterv(e["inner"][0])
        if k == "CXXMemberCallExpr":
            f = self.callee_decl(e)
            nm = f.get("name")
            if nm in ("begin", "end", "cbegin", "cend"):
                base = f["inner"][0]
                try: q = self.seq_of(base)
                except Unsupported: return None
                blv = None
                if self.ety(base).val().k == "seq":
                    blv = self.lv(base)
                    if blv is not None and blv.read() != q[0]: blv = None
                return IterVal(q[0], "0" if "begin" in nm else "(%s.len() as int)" % q[0], q[1], blv)
            return None
        if k == "CallExpr" and self.callee_name(e) in ("begin", "end") and len(e["inner"]) == 2:
            try: q = self.seq_of(e["inner"][1])
            except Unsupported: return None
            return IterVal(q[0], "0" if self.callee_name(e) == "begin" else "(%s.len() as int)" % q[0], q[1])
        if k == "CallExpr" and self.callee_name(e) in ("next", "prev"):
            it = self.iterv(e["inner"][1])
            if it is None: return None
            n = "1"
            if len(e["inner"]) > 2 and e["inner"][2].get("kind") != "CXXDefaultArgExpr": n = self.rv(e["inner"][2])[0]
            return IterVal(it.cont, "(%s %s %s)" % (it.idx, "+" if self.callee_name(e) == "next" else "-", n), it.elem)
        if k == "BinaryOperator" and e.get("opcode") in ("+", "-"):
            it = self.iterv(e["inner"][0])
            if it is None: return None
            return IterVal(it.cont, "(%s %s %s)" % (it.idx, e["opcode"], self.rv(e["inner"][1])[0]), it.elem)
        if k == "CXXOperatorCallExpr" and self.callee_name(e) in ("operator+", "operator-"):
            it = self.iterv(e["inner"][1])
            if it is None: return None
            return IterVal(it.cont, "(%s %s %s)" % (it.idx, self.callee_name(e)[-1], self.rv(e["inner"][2])[0]), it.elem)
        return None

    # conversions -------------------------------------------------------
    def conv(self, vt_, t):
        v, s = vt_
        if v == "$self": v, s = s.read(), s.ty
        if s == t or t.k == "opaque" or s.k == "opaque": return v
        if t.k == "opt" and s.k == "opt" and s.a[0].k == "unit": return "None"
        if t.k == "opt" and s.k != "opt": return "Some(%s)" % self.conv((v, s), t.a[0])
        if t.k == "int" and s.k == "int": return self.int_conv(v, s, t)
        if t.k == "bool" and s.k == "int": return "(%s != 0)" % v
        if t.k == "int" and s.k == "bool": return "(if %s { 1int } else { 0int })" % v
        if t.k == "tup" and s.k == "tup" and len(t.a) == len(s.a):
            tv = self.temp(v)
            return "(" + ", ".join(self.conv(("%s.%d" % (tv, j), s.a[j]), t.a[j]) for j in range(len(t.a))) + ")"
        if s.k == "nullptr":
            g = t.a[0] if t.k == "ptr" else t
            if g.k == "ghost" and g.a[0] in self.p.unit.options.get("extnull", {}): return self.p.unit.options["extnull"][g.a[0]]
        if t.k == "nptr":
            if s.k == "nullptr": return "None"
            if s.k == "nptr": return v
            return "Some(%s)" % self.conv((v, s), t.a[0])
        if s.k == "nptr":
            v = self.temp(v)
            self.ob("%s is Some" % v, "nullptr", "pointer taken as not null")
            return self.conv(("%s->0" % v, s.a[0]), t)
        if t.k == "ptr" and s == t.a[0]: return v
        if s.k == "ptr" and s.a[0] == t: return v
        if t.k == "seq" and s.k == "seq":
            if t.a[0] == s.a[0]: return v
        if t.k == "rec" and t.a[0] in self.p.poly and s.k == "rec" and s.a[0] in self.p.poly[t.a[0]]:
            return "%s::%s(%s)" % (self.p.rname(t.a[0]), self.p.rname(s.a[0]), "Box::new(%s)" % v if t.a[0] in self.p.boxed else v)
        if t.k == "ghost" and s.k == "rec" and s.a[0] in self.p.unit.options.get("ghostup", {}):  # a class seen as the model of its hierarchy
            v = self.temp(v); return self.p.unit.options["ghostup"][s.a[0]].replace("$x", v)
        if t.k == "rec" and s.k == "rec" and t.a[0] in self.p.records and s.a[0] in self.p.records:  # an object seen as its base class: the base's fields
            ft, fs = self.p.fields(t.a[0]), {q[0] for q in self.p.fields(s.a[0])}
            if ft and all(q[0] in fs for q in ft):
                v = self.temp(v)
                return "%s { %s }" % (self.p.rname(t.a[0]), ", ".join("%s: %s.%s" % (q[0], v, q[0]) for q in ft))
        if t.k == "ptr": return self.conv((v, s), t.a[0])
        if s.k == "ptr": return self.conv((v, s.a[0]), t)
        if t.k == "str" and s.k == "seq": return v
        if t.k == "unit": return v
        if t.k == "variant":
            for j, x in enumerate(t.a):
                if x == s: return "%s::A%d(%s)" % (self.p.vt(t), j, v)
        if t.k == "real" and s.k == "int": return "real_of_int(%s)" % v
        raise Unsupported("conversion %r -> %r" % (s, t))

    def int_conv(self, v, s, t):
        sb, ss = s.a; tb, ts = t.a
        if (sb, ss) == (tb, ts): return v
        if re.match(r"^-?\d+$", v):
            x = int(v)
            lo, hi = (int(SMIN[tb]), int(SMAX[tb])) if ts else (0, int(UMAX[tb]))
            if lo <= x <= hi: return v
            x = x % (1 << tb)
            if ts and x > hi: x -= 1 << tb
            return "(%d)" % x if x < 0 else "%d" % x
        slo, shi = (int(SMIN[sb]), int(SMAX[sb])) if ss else (0, int(UMAX[sb]))
        tlo, thi = (int(SMIN[tb]), int(SMAX[tb])) if ts else (0, int(UMAX[tb]))
        if tlo <= slo and shi <= thi: return v
        return "%s%d(%s)" % ("swrap" if ts else "uwrap", tb, v)

    def arith(self, op, a, b, t):
        if t.k == "real":
            return "%s(%s, %s)" % ({"+": "real_add", "-": "real_sub", "*": "real_mul", "/": "real_div"}[op], a, b)
        bits, signed = t.a
        if op in ("+", "-", "*"):
            e = "(%s %s %s)" % (a, op, b)
            if signed:
                self.ob("%s <= %s <= %s" % (SMIN[bits], e, SMAX[bits]), "overflow", e)
                return e
            return "uwrap%d%s" % (bits, e)
        if op in ("/", "%"):
            self.ob("%s != 0" % b, "div0", "")
            if signed: 
                self.ob("!(%s == %s && %s == -1)" % (a, SMIN[bits], b), "overflow", "division")
                return "(%s(%s, %s))" % ("tdiv" if op == "/" else "tmod", a, b)
            return "(%s(%s, %s))" % ("udiv" if op == "/" else "umod", a, b)
        if op in ("<<", ">>", "&", "|", "^"): raise Unsupported("bit operation " + op)
        raise Unsupported("operator " + op)

    CMP = {"<", ">", "<=", ">=", "==", "!="}

    def rv(self, e):
        k = e.get("kind")
        m = getattr(self, "e_" + k, None) if k else None
        if m is None: raise Unsupported("expression " + str(k))
        return m(e)

    def e_ExprWithCleanups(self, e): return self.rv(e["inner"][0])
    e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = e_ExprWithCleanups
    def e_SubstNonTypeTemplateParmExpr(self, e): return self.rv(e["inner"][-1])

    def e_ImplicitCastExpr(self, e):
        ck = e.get("castKind")
        x = e["inner"][0]
        if ck in ("IntegralCast",):
            v, s = self.rv(x); t = self.p.te.parse(tystr(e))
            if s.k == "bool": return ("(if %s { 1int } else { 0int })" % v, t.val())
            if s.k == "enum" or t.k != "int": return (v, s)
            return (self.int_conv(v, s, t), t.val())
        if ck == "IntegralToBoolean":
            v, s = self.rv(x); return ("(%s != 0)" % v, T("bool"))
        if ck == "PointerToBoolean":
            v, s = self.rv(x)
            if s.k == "nptr": return ("(%s is Some)" % v, T("bool"))
            if s.k == "ptr": return ("true", T("bool"))
            raise Unsupported("pointer test")
        if ck in ("NullToPointer",): return ("$null", T("nullptr"))
        if ck == "IntegralToFloating":
            v, s = self.rv(x); return ("real_of_int(%s)" % v, T("real"))
        if ck == "FloatingCast": return self.rv(x)
        if ck == "FloatingToIntegral": raise Unsupported("floating point to integer")
        return self.rv(x)

    def enum_plain(self, key):
        self.p.use_enum(key)
        cs = [c for c in self.p.enums[key].get("inner", []) if c.get("kind") == "EnumConstantDecl"]
        if any(c.get("inner") for c in cs): raise Unsupported("enumeration with explicit values " + key)
        return [c["name"] for c in cs]

    def e_CXXStaticCastExpr(self, e):
        t = self.p.te.parse(tystr(e))
        v, s = self.rv(e["inner"][0])
        if t.k == "int" and s.k == "int": return (self.int_conv(v, s, t), t.val())
        if t.k == "int" and s.k == "bool": return ("(if %s { 1int } else { 0int })" % v, t.val())
        if t.k == "real" and s.k == "int": return ("real_of_int(%s)" % v, T("real"))
        if t.k == "int" and s.k == "enum":
            self.enum_plain(s.a[0])
            return ("(%s as int)" % v, t.val())
        if t.k == "enum" and s.k == "int":
            x = strip_parens(v); x = x[:-3] if x.endswith("int") else x
            vals = self.enum_plain(t.a[0])
            if not x.isdigit() or int(x) >= len(vals): raise Unsupported("integer to enumeration")
            return ("%s::%s" % (self.p.rname(t.a[0]), mangle_ident(vals[int(x)])), t.val())
        if t == s or t.k == "ptr" or t.k == "rec" or t.k=="enum": return (self.conv((v, s), t.val()), t.val())
        if t.k == "unit": return ("()", T("unit"))
        raise Unsupported("static_cast %r -> %r" % (s, t))
    e_CStyleCastExpr = e_CXXStaticCastExpr
    def e_CXXFunctionalCastExpr(self, e):
        x = e["inner"][0]
        t = self.p.te.parse(tystr(e))
        v, s = self.rv(x)
        if t.k in ("int", "bool") and s.k in ("int", "bool"): return (self.conv((v, s), t.val()), t.val())
        if t.k == "opaque": return (v, s)
        return (self.conv((v, s), t.val()), t.val())

    def e_IntegerLiteral(self, e):
        t = self.p.te.parse(tystr(e)); return (e["value"], t.val())
    def e_FloatingLiteral(self, e):
        import struct
        return ("real_lit(%d)" % struct.unpack("<Q", struct.pack("<d", float(e["value"])))[0], T("real"))
    def e_CharacterLiteral(self, e): 
        v = int(e["value"])
        return (("(%d)" % v) if v < 0 else str(v), T("int", (8, True)))
    def e_CXXBoolLiteralExpr(self, e): return ("true" if e["value"] in (True, "true") else "false", T("bool"))
    def e_StringLiteral(self, e):
        s = e["value"]
        import ast as pyast
        try: raw = pyast.literal_eval(s).encode("utf-8")
        except Exception: raise Unsupported("string literal")
        return ("seq![%s]" % ", ".join("%dint" % c for c in raw) if raw else "Seq::<int>::empty()", T("str"))
    def e_CXXNullPtrLiteralExpr(self, e): return ("$null", T("nullptr"))
    def e_ImplicitValueInitExpr(self, e):
        t = self.p.te.parse(tystr(e)); return (self.zero(t), t.val())
    def e_CXXScalarValueInitExpr(self, e): return self.e_ImplicitValueInitExpr(e)
    def zero(self, t):
        if t.k == "int": return "0int"
        if t.k == "bool": return "false"
        return self.default(t)
    def e_CXXThisExpr(self, e):
        l = self.lv(e); return (l.read(), l.ty)
    def e_CXXDefaultArgExpr(self, e):
        if e.get("inner"): return self.rv(e["inner"][0])
        raise Unsupported("default argument")

    def e_DeclRefExpr(self, e):
        rd = e["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            t = self.p.te.parse(tystr(e))
            if t.k == "enum":
                self.p.use_enum(t.a[0])
                return ("%s::%s" % (self.p.rname(t.a[0]), mangle_ident(rd["name"])), t.val())
            if t.k == "ghost":
                c = self.p.unit.options.get("extconst", {}).get(t.a[0] + " " + rd["name"])
                if c: return (c, t.val())
        v = self.vars.get(rd["id"])
        if isinstance(v, LV): return (v.read(), v.ty)
        if isinstance(v, tuple) and v[0] == "iter": return (v[1], T("iter", (v[2],)))
        if rd["name"] == "nullopt": return ("None", T("opt", (T("unit"),)))
        if rd["kind"] == "VarDecl":
            d = self.tu.byid.get(rd["id"])
            if d is not None and d.get("inner") and (d.get("constexpr") or "const" in tystr(d) and self.p.te.parse(tystr(d)).k in ("int", "bool") and self.p.te.parse(tystr(d)).ref is None):
                return self.rv([c for c in d["inner"] if c.get("kind")][0])
        raise Unsupported("reference to " + rd.get("name", "?"))

    def e_MemberExpr(self, e):
        l = self.lv(e)
        if l is not None: return (l.read(), l.ty)
        d = self.member_decl(e)
        if d is not None and d.get("kind") == "VarDecl" and d.get("inner"):
            return self.rv([c for c in d["inner"] if c.get("kind")][0])
        raise Unsupported("member " + e.get("name", "?"))

    def e_ArraySubscriptExpr(self, e):
        l = self.lv(e)
        if l is None: raise Unsupported("array subscript")
        return (l.read(), l.ty)

    def e_UnaryOperator(self, e):
        op = e["opcode"]; x = e["inner"][0]
        t = self.p.te.parse(tystr(e))
        if op == "!": return ("!(%s)" % self.cond(x), T("bool"))
        if op == "-":
            v, s = self.rv(x)
            if s.k == "real": return ("real_neg(%s)" % v, s)
            if re.match(r"^\d+$", v): return ("(-%s)" % v, t.val())
            if s.a[1]:
                self.ob("%s != %s" % (v, SMIN[s.a[0]]), "overflow", "negation")
                return ("(-%s)" % v, s)
            return ("uwrap%d(0 - %s)" % (s.a[0], v), s)
        if op == "+": return self.rv(x)
        if op in ("++", "--"):
            xs = self.strip(x)
            if xs.get("kind") == "DeclRefExpr":
                w = self.vars.get(xs["referencedDecl"]["id"])
                if isinstance(w, tuple) and w[0] == "iter":
                    old = self.temp2(w[1]) if e.get("isPostfix") else None
                    if op == "++": self.ob("%s < %s.len()" % (w[1], w[2]), "bounds", "iterator increment")
                    for a in self.assigned: a.add(w[1])
                    self.em("proof { %s = %s %s 1; }" % (w[1], w[1], op[0]))
                    return (old or w[1], T("iter", (w[2],)))
            l = self.lv(x)
            if l is None: raise Unsupported("++ on a temporary")
            l = self.freeze(l)
            old = self.temp2(l.read()) if e.get("isPostfix") else None
            nv = self.arith(op[0], l.read(), "1", l.ty)
            self.assign(l, nv)
            return (old or l.read(), l.ty)
        if op in ("*", "&"):
            l = self.lv(e)
            if l is not None: return (l.read(), l.ty)
            v, s = self.rv(x)
            if s.k == "nptr" and op == "*": l = self.deref(LV(self.temp(v), (), s, const=True)); return (l.read(), l.ty)
            if s.k == "ptr": return (v, s.a[0])
            return (v, s)
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, e):
        op = e["opcode"]; a, b = e["inner"]
        if op in ("&&", "||"):
            av = self.cond(a)
            (bv, lines) = self.sub(lambda: self.cond(b))
            g = av if op == "&&" else "!(%s)" % av
            if not lines: return ("(%s %s %s)" % (av, op, bv), T("bool"))
            if all(re.match(r"^\s*assert\(", l) for l in lines):
                for l in lines:
                    m = re.match(r"^\s*assert\((.*)\); //@ob (.*)$", l)
                    self.em("assert((%s) ==> (%s)); //@ob %s" % (g, m.group(1), m.group(2)))
                return ("(%s %s %s)" % (av, op, bv), T("bool"))
            t = self.fresh("b")
            self.em("let ghost mut %s: bool = %s;" % (t, av))
            self.em("if reify(Ghost(%s)) {" % (t if op == "&&" else "!%s" % t))
            self.em.lines += lines
            self.em("    proof { %s = %s; }" % (t, bv))
            self.em("}")
            return (t, T("bool"))
        if op == ",":
            self.em_side(a); return self.rv(b)
        if op == "=":
            if self.is_dropped(a): self.rv(b); return ("()", T("unit"))
            self.map_write = True
            try: l = self.lv(a)
            finally: self.map_write = False
            if l is None: raise Unsupported("assignment target")
            v = self.conv(self.rv(b), l.ty)
            l = self.freeze(l)
            self.assign(l, v)
            return (l.read(), l.ty)
        if op in self.CMP:
            ia = self.iterv(a) if self.is_iter_type(tystr(a)) else None
            if ia is not None:
                ib = self.iterv(b)
                if ib is not None: return ("(%s %s %s)" % (ia.idx, op, ib.idx), T("bool"))
            (x, s), (y, t) = self.rv(a), self.rv(b)
            if s.k in ("int", "bool", "enum") and t.k in ("int", "bool", "enum"): return ("(%s %s %s)" % (x, op, y), T("bool"))
            if s.k == "ghost" and s == t and op in ("==", "!="): return ("(%s %s %s)" % (x, op, y), T("bool"))
            if s.k == "real" and t.k == "real":
                f = {"<": "real_lt(%s, %s)", "<=": "real_le(%s, %s)", ">": "real_lt(%s, %s)", ">=": "real_le(%s, %s)", "==": "real_eq(%s, %s)", "!=": "!real_eq(%s, %s)"}[op]
                return (f % ((y, x) if op[0] == ">" else (x, y)), T("bool"))
            if op in ("==", "!="):
                r = self.null_compare(x, s, y, t)
                if r is not None: return (r if op == "==" else "!%s" % r, T("bool"))
            raise Unsupported("comparison of %r and %r" % (s, t))
        ia = None
        if op == "-" and self.is_iter_type(tystr(a)):
            ia = self.iterv(a); ib = self.iterv(b)
            if ia is not None and ib is not None: return ("(%s - %s)" % (ia.idx, ib.idx), T("int", (64, True)))
        (x, s), (y, t) = self.rv(a), self.rv(b)
        rt = self.p.te.parse(tystr(e))
        if rt.k not in ("int", "real"): raise Unsupported("binary %s on %r" % (op, rt))
        return (self.arith(op, x, y, rt), rt.val())

    def null_compare(self, x, s, y, t):
        """pointers have no address here: one side must be null"""
        if t.k in ("nptr", "ptr") and s.k == "nullptr": x, s, y, t = y, t, x, s
        if s.k == "nptr" and t.k == "nullptr": return "(%s is None)" % x
        if s.k == "ptr" and t.k == "nullptr": return "false"
        if s.k == "nptr" and t.k == "nptr":
            self.ob("%s is None || %s is None" % (x, y), "nullptr", "pointers compared")
            return "(%s is None && %s is None)" % (x, y)
        return None

    def e_CompoundAssignOperator(self, e):
        op = e["opcode"][:-1]
        l = self.lv(e["inner"][0])
        if l is None: raise Unsupported("compound assignment target")
        r0 = e["inner"][1]
        while r0.get("kind") in ("ImplicitCastExpr", "ParenExpr") and self.ety(r0).val().k == "int": r0 = r0["inner"][0]
        if l.ty.k == "bool" and op in ("|", "&") and self.ety(r0).val().k == "bool":
            v, s = self.rv(r0); l = self.freeze(l)
            self.assign(l, "(%s %s %s)" % (l.read(), op * 2, v))
            return (l.read(), l.ty)
        v, s = self.rv(e["inner"][1])
        l = self.freeze(l)
        ct = self.p.te.parse(e.get("computeResultType", {}).get("qualType") or tystr(e))
        if l.ty.k == "bool": raise Unsupported("bool compound assignment")
        a = self.int_conv(l.read(), l.ty, ct) if ct.k == "int" else l.read()
        r = self.arith(op, a, v, ct)
        if ct.k == "int": r = self.int_conv(r, ct, l.ty)
        self.assign(l, r)
        return (l.read(), l.ty)

    def e_ConditionalOperator(self, e):
        c, a, b = e["inner"]
        cv = self.cond(c)
        (ra, la) = self.sub(lambda: self.rv(a))
        (rb, lb) = self.sub(lambda: self.rv(b))
        t = self.p.te.parse(tystr(e)).val()
        if t.k == "opaque": t = ra[1]
        if not la and not lb:
            return ("(if %s { %s } else { %s })" % (cv, self.conv(ra, t), self.conv(rb, t)), t)
        v = self.fresh("c")
        self.em("let ghost mut %s: %s = arbitrary();" % (v, self.p.vt(t)))
        self.em("if reify(Ghost(%s)) {" % cv)
        self.em.lines += la; self.em("    proof { %s = %s; }" % (v, self.conv(ra, t)))
        self.em("} else {")
        self.em.lines += lb; self.em("    proof { %s = %s; }" % (v, self.conv(rb, t)))
        self.em("}")
        return (v, t)

    def em_side(self, e):
        """expression statement"""
        e = self.strip(e)
        k = e.get("kind")
        if k in ("DeclRefExpr", "IntegerLiteral"): return
        if k == "CXXOperatorCallExpr" and self.callee_name(e) == "operator<<": raise Unsupported("stream output")
        self.rv(e)

    # ---- construction
    def e_CXXConstructExpr(self, e):
        args = [a for a in e.get("inner", [])]
        t = self.p.te.parse(tystr(e)).val()
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"] if t.k != "rec" else args
        if t.k == "ptr" and len(args) == 1 and self.strip(args[0]).get("kind") == "CXXNullPtrLiteralExpr": return self.rv(args[0])
        return (self.construct(t, args, e), t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, args, e=None):
        if len(args) == 1 and (e is None or self.is_copy_ctor(e) or True):
            at = self.ety(args[0]).val()
            if at == t and t.k != "seq": 
                return self.rv(args[0])[0]
        if t.k == "seq":
            if not args: return "Seq::<%s>::empty()" % self.p.vt(t.a[0])
            if len(args) == 1:
                v, s = self.rv(args[0])
                if s.k == "seq": return v
                if s == t.a[0]: return "Seq::empty().push(%s)" % v
                if s.k == "int": return "Seq::new(%s as nat, |i_: int| %s)" % (v, self.zero(t.a[0]))
                if s.k == "rec":
                    q = self.seq_of(args[0]); return q[0]
            if len(args) == 2:
                ia = self.iterv(args[0]); 
                if ia is not None:
                    ib = self.iterv(args[1])
                    if ib is not None and ia.cont == ib.cont:
                        if ia.idx == "0" and ib.idx == "(%s.len() as int)" % ia.cont: return ia.cont
                        self.ob("0 <= %s <= %s <= %s.len()" % (ia.idx, ib.idx, ia.cont), "bounds", "iterator range")
                        return "%s.subrange(%s, %s)" % (ia.cont, ia.idx, ib.idx)
                v, s = self.rv(args[0])
                if s.k == "int":
                    x = self.conv(self.rv(args[1]), t.a[0])
                    return "Seq::new(%s as nat, |i_: int| %s)" % (v, x)
            raise Unsupported("container construction")
        if t.k == "opt":
            if not args: return "None"
            return self.conv(self.rv(args[0]), t)
        if t.k == "tup":
            if len(args) == len(t.a): return "(" + ", ".join(self.conv(self.rv(a), x) for a, x in zip(args, t.a)) + ")"
            if not args: return self.default(t)
            if len(args) == 1: return self.conv(self.rv(args[0]), t)
            raise Unsupported("pair construction")
        if t.k == "str":
            if not args: return "Seq::<int>::empty()"
            v, s = self.rv(args[0])
            if s.k == "str": return v
            raise Unsupported("string construction")
        if t.k == "bits":
            if not args: return "Seq::<bool>::empty()"
            if len(args) == 1: return "Seq::new(%s as nat, |i_: int| false)" % self.rv(args[0])[0]
            if len(args) == 2: return "Seq::new(%s as nat, |i_: int| %s)" % (self.rv(args[0])[0], self.cond(args[1]))
        if t.k == "int" and len(args) == 1: return self.conv(self.rv(args[0]), t)
        if t.k == "ptr" and len(args) == 1: return self.conv(self.rv(args[0]), t)
        if t.k == "variant": return self.conv(self.rv(args[0]), t) if args else self.default(t)
        if t.k == "map" and not args: return "Map::empty()"
        if t.k == "rec": return self.construct_rec(t, args, e)
        raise Unsupported("construction of %r" % t)

    def ctor_candidates(self, rec):
        out = []
        for m, n in self.p.decls.items():
            if n["kind"] == "CXXConstructorDecl":
                fn = self.p.funcs.get(m)
                src = fn or n
                try:
                    fx = FnX.__new__(FnX); fx.p = self.p; fx.tu = src["_tu"]
                    if fx.record_of(src) == rec: out.append((m, src, fn))
                except Unsupported: pass
        return out

    def construct_rec(self, t, args, e):
        rec = t.a[0]
        if rec in self.p.poly: raise Unsupported("construction of polymorphic base")
        ct = (e or {}).get("ctorType", {}).get("qualType")
        cands = self.p.__dict__.setdefault("_ctors", {})
        if rec not in cands: cands[rec] = self.ctor_candidates(rec)
        best = None
        octx = self.p.ctxrec; self.p.ctxrec = rec
        for m, n, fn in cands[rec]:
            if ct is not None and self.sig_eq(n["type"]["qualType"], ct, n): best = (m, n, fn)
        if best is None and ct is not None:
            loose = [c for c in cands[rec] if self.sig_eq(c[1]["type"]["qualType"], ct, c[1], loose=True)]
            loose = [c for c in loose if c[2] is not None] or loose
            if len(loose) == 1: best = loose[0]
        if best is None and ct is None:
            same = [c for c in cands[rec] if len(params_of(c[1])) == len(args)]
            ok = []
            for c in same:
                good = True
                for q, a in zip(params_of(c[1]), args):
                    tq = self.p.te.parse(tystr(q)).val(); ta = self.ety(a).val()
                    tq, ta = (x.a[0] if x.k == "ptr" else x for x in (tq, ta))
                    if tq != ta and not (tq.k == "int" and ta.k == "int") and not (tq.k == "ghost" and ta.k == "rec" and ta.a[0] in self.p.unit.options.get("ghostup", {})): good = False
                if good: ok.append(c)
            if len(ok) > 1: ok = [c for c in ok if re.search(r"\b%s::~?\w+\(" % rec.split("::")[-1], self.p.dm[c[0]])]
            if len(ok) == 1: best = ok[0]
        self.p.ctxrec = octx
        if best is None: raise Unsupported("constructor of %s (%s)" % (rec, ct))
        m, n, fn = best
        key = self.p.dm[m]
        if fn is None: raise Unsupported("constructor without body: " + key)
        if self.p.modular(key):
            return self.call_contract(key, fn, None, args)[0]
        b = [x for x in body_of(fn).get("inner", []) if x.get("kind") not in ("NullStmt",) and not (x.get("kind") == "CXXStaticCastExpr")]
        # inline constructor
        saved = dict(self.vars)
        fs = self.p.fields(rec); self.p.use_record(rec)
        self.push_inline(fn, None, args, t)
        orec, oth = getattr(self, "rec", None), getattr(self, "thisT", None)
        self.rec = rec
        try:
            inits = {}; deleg = None
            for c in fn.get("inner", []):
                if c.get("kind") == "CXXCtorInitializer":
                    if "anyInit" in c:
                        f = c["anyInit"]["name"]
                        if f in dict(fs) and c["inner"][0].get("kind") != "CXXDefaultInitExpr": inits[f] = self.conv(self.rv(c["inner"][0]), dict(fs)[f])
                    elif "baseInit" in c:
                        self.base_init(c, inits, fs)
                    else:
                        deleg = self.rv(c["inner"][0])[0]
            recn = self.p.records[rec]
            v = deleg or "%s { %s }" % (self.p.rname(rec), ", ".join("%s: %s" % (mangle_ident(f), inits.get(f) or self.field_default(recn, f, ft)) for f, ft in fs))
            if not b:
                return self.temp(v)
            nm = self.fresh("obj")
            self.em("let ghost mut %s: %s = %s;" % (nm, self.p.vt(t), v))
            self.locals.append((nm, t))
            self.inl_this[-1] = LV(nm, (), t); self.thisT = t
            if any(self.has_return(x) for x in b): raise Unsupported("return in inlined constructor")
            self.stmts(b)
            return nm
        finally:
            self.pop_inline(); self.vars = saved
            if orec is not None: self.rec = orec
            if oth is not None: self.thisT = oth

    def base_init(self, c, inits, fs):
        # base constructor arguments initialise base fields via its own initialisers
        e = self.strip(c["inner"][0])
        t = self.p.te.parse(tystr(e)).val()
        if t.k != "rec": return
        if t.a[0] not in self.p.poly and e.get("kind") == "CXXConstructExpr" and t.a[0] not in self.p.unit.options.get("merge", {}) and t.a[0] not in self.p.unit.options.get("merge", {}).values():
            v = self.temp(self.construct_rec(t, e.get("inner", []), e))
            for f, _ in self.p.fields(t.a[0]):
                if f in dict(fs): inits[f] = "%s.%s" % (v, mangle_ident(f))
            return
        cands = self.p.__dict__.setdefault("_ctors", {})
        if t.a[0] not in cands: cands[t.a[0]] = self.ctor_candidates(t.a[0])
        ct = e.get("ctorType", {}).get("qualType")
        raw = re.sub(r"<.*", "", tystr(e).replace("const ", "")).split("::")[-1].strip()
        named = [c for c in cands[t.a[0]] if re.search(r"\b%s(<.*>)?::\w+\(" % re.escape(raw), self.p.dm[c[0]])]
        for m, n, fn in named or cands[t.a[0]]:
            if fn is not None and self.sig_eq(n["type"]["qualType"], ct, n):
                if [x for x in body_of(fn).get("inner", []) if x.get("kind") != "NullStmt"]: raise Unsupported("base constructor with a body")
                saved = dict(self.vars)
                for q, a in zip(params_of(fn), e.get("inner", [])):
                    tq = self.p.te.parse(tystr(q))
                    try: val = self.conv(self.rv(a), tq.val())
                    except Unsupported: continue
                    nm = self.fresh("ba"); 
                    self.em("let ghost %s = %s;" % (nm, val)); self.vars[q["id"]] = LV(nm, (), tq.val(), const=True)
                for ci in fn.get("inner", []):
                    if ci.get("kind") == "CXXCtorInitializer" and "anyInit" in ci:
                        f = ci["anyInit"]["name"]
                        if f in dict(fs) and ci["inner"][0].get("kind") != "CXXDefaultInitExpr": inits[f] = self.conv(self.rv(ci["inner"][0]), dict(fs)[f])
                    elif ci.get("kind") == "CXXCtorInitializer" and "baseInit" in ci and self.strip(ci["inner"][0]).get("inner"):
                        self.base_init(ci, inits, fs)   # the base of the base
                self.vars = saved
                return

    def sig_eq(self, a, b, n, loose=False):
        def args(s):
            d = 0
            for i, ch in enumerate(s):
                if ch in "<": d += 1
                elif ch in ">": d -= 1
                elif ch == "(" and d == 0: break
            from ctypes_ import split_args
            inner = s[i + 1:s.rindex(")")]
            return [self.p.te.parse(x) for x in split_args(inner) if x and x != "void"]
        if a == b: return True
        x, y = args(a), args(b)
        if len(x) != len(y): return False
        return all((p.val() == q.val() or loose and "opaque" in (p.k, q.k)) and p.ref == q.ref for p, q in zip(x, y))

    def e_InitListExpr(self, e):
        t = self.p.te.parse(tystr(e)).val()
        args = e.get("inner", [])
        if t.k == "seq":
            if "array_filler" in e: raise Unsupported("array filler")
            return (self.seqlit([self.conv(self.rv(a), t.a[0]) for a in args], t.a[0]), t)
        if t.k == "rec":
            fs = self.p.fields(t.a[0])
            return ("%s { %s }" % (self.p.rname(t.a[0]), ", ".join("%s: %s" % (mangle_ident(f), self.conv(self.rv(a), ft)) for (f, ft), a in zip(fs, args))), t)
        if t.k == "tup": return ("(" + ", ".join(self.conv(self.rv(a), x) for a, x in zip(args, t.a)) + ")", t)
        if len(args) == 1: return (self.conv(self.rv(args[0]), t), t)
        if not args: return (self.default(t), t)
        raise Unsupported("init list")

    def seqlit(self, vs, et):
        if not vs: return "Seq::<%s>::empty()" % self.p.vt(et)
        return "seq![%s]" % ", ".join("(%s) as int" % v if et.k == "int" else v for v in vs)

    def e_CXXStdInitializerListExpr(self, e): return self.rv(e["inner"][0])

    # ---- calls
    def ext_call(self, e, nm, args, deftypes=None):
        """call of a function outside the project with an assumed contract (%extfn), or None"""
        ex = self.p.unit.options.get("extfn")
        if not ex or not nm: return None
        cand = [(k, g) for k, g in ex.items() if k[0] == nm]
        if not cand: return None
        t0 = None
        if args:
            t0 = self.ety(args[0]).val()
            b0 = args[0]
            while b0.get("kind") in ("ImplicitCastExpr", "ParenExpr") and b0.get("inner"): b0 = b0["inner"][0]
            if b0.get("kind") == "CXXThisExpr":
                v0, t0 = self.rv(args[0])
                if v0 == "$self": t0 = v0 and t0.ty
            if t0.k == "ptr": t0 = t0.a[0]
            try: t0 = self.p.vt(t0).replace(" ", "")
            except Unsupported: t0 = "?"
        rs = tystr(e); al = {k for k, v in self.p.unit.aliases.items()}
        for k, g in cand:
            if k[1] != "*" and k[1].split("/")[0] != t0: continue
            if ":" in k[1] and args[1:]:
                t1 = self.ety(args[1]).val()
                if t1.k == "ptr": t1 = t1.a[0]
                try: t1 = self.p.vt(t1).replace(" ", "")
                except Unsupported: t1 = "?"
                if t1 != k[1].split(":")[1]: continue
            if "/" in k[1] and int(k[1].split("/")[1].split(":")[0]) != len([a for a in args if a.get("kind") != "CXXDefaultArgExpr"]): continue
            if k[2] and not re.search(k[2], rs if rs != "bool" else self.src_of(e).rsplit("(", 1)[0].rsplit(".", 1)[-1].rsplit("->", 1)[-1] if self.src_of(e).endswith("()") else self.src_of(e).split("(")[0]): continue
            if g == "$arg": return self.rv(args[0])
            vs = []
            for a in args:
                if a.get("kind") == "CXXDefaultArgExpr": continue
                v, t = self.rv(a)
                if v == "$self": v, t = t.read(), t.ty
                if t.k in ("opaque", "nullptr"): continue
                if t.k == "ptr": t = t.a[0]
                vs.append(v)
            rt = self.p.te.parse(rs).val()
            self.p.modelled.add("assumed contract: %s stands for %s" % (g, nm))
            r = self.fresh("r"); mut = None
            if re.match(r"\d=", g): mut, g = int(g[0]), g[2:]     # the value is the new value of that argument
            self.em("let Ghost(%s) = %s(%s); //@call %s" % (r, g, ", ".join("Ghost(%s)" % v for v in vs), nm))
            if mut is not None:
                ml = self.lv(args[mut])
                if ml is None: raise Unsupported("argument changed by " + nm)
                ml = self.deref(ml)
                self.assign(ml, r); self.assume_ty(ml.ty, ml.read())
                h = self.c.aftercall.get(g)
                if h:
                    h = h.replace("$ret", r)
                    for j, a in enumerate(vs): h = h.replace("$%d" % (j + 1), "(%s)" % a)
                    self.hook(self.at(h))
                return (ml.read(), ml.ty) if mut == 0 else ("()", T("unit"))
            if rt.k == "opaque": raise Unsupported("result of %s has no translation: %s" % (nm, rs))
            if rt.k == "ptr" and g.endswith("_opt"): rt = T("nptr", rt.a)
            self.assume_ty(rt, r)
            h = self.c.aftercall.get(g)
            if h:
                h = h.replace("$ret", r)
                for j, a in enumerate(vs): h = h.replace("$%d" % (j + 1), "(%s)" % a)
                self.hook(self.at(h))
            return (r, rt)
        return None

    def src_of(self, e):
        """source text of an expression of the main file"""
        r = e.get("range", {}); b, t = r.get("begin", {}), r.get("end", {})
        if "offset" not in b or "offset" not in t: return ""
        data = self.tu.__dict__.setdefault("_src", None) or open(self.tu.path, "rb").read(); self.tu._src = data
        return data[b["offset"]:t["offset"] + t.get("tokLen", 1)].decode(errors="replace")

    def poly_cast(self, e, nm, base):
        """isa / cast / dyn_cast on a class hierarchy declared with %poly"""
        if nm not in ("isa", "cast", "dyn_cast"): return None
        t = self.ety(base).val()
        while t.k in ("ptr", "nptr"): t = t.a[0]
        if t.k != "rec" or t.a[0] not in self.p.poly: return None
        if nm == "isa":
            m = re.search(r"\bisa<([\w:]+)>\(\)$", self.src_of(e)); d = self.p.te.parse(m.group(1)).val() if m else None
        else:
            d = self.p.te.parse(tystr(e)).val()
            if d.k in ("ptr", "nptr"): d = d.a[0]
        if d is None or d.k != "rec" or d.a[0] not in self.p.poly[t.a[0]]: raise Unsupported("%s on %r" % (nm, t))
        v, s = self.rv(base)
        if s.k == "nptr": v, s = self.conv((v, s), s.a[0]), s.a[0]
        v = self.temp(v); n = self.p.rname(d.a[0])
        get = "%s(%s->%s_0)" % ("*" if t.a[0] in self.p.boxed else "", v, n)
        self.p.use_record(t.a[0])
        if nm == "isa": return ("(%s is %s)" % (v, n), T("bool"))
        if nm == "cast":
            self.ob("%s is %s" % (v, n), "cast", ""); return (get, d)
        return ("(if %s is %s { Some(%s) } else { None })" % (v, n, get), T("nptr", (d,)))

    def e_CXXMemberCallExpr(self, e):
        f = self.callee_decl(e)
        pc = self.poly_cast(e, f.get("name"), f["inner"][0]) if f.get("inner") else None
        if pc is not None: return pc
        if f.get("name") == "operator bool" and f.get("inner"):
            t = self.ety(f["inner"][0]).val(); t = t.a[0] if t.k == "ptr" else t
            if t.k == "ghost" and t.a[0] in self.p.unit.options.get("extbool", {}): return (self.cond(f["inner"][0]), T("bool"))
        xc = self.ext_call(e, f.get("name"), [f["inner"][0]] + e["inner"][1:]) if f.get("inner") else None
        if xc is not None: return xc
        nm = f.get("name"); base = f["inner"][0]; args = e["inner"][1:]
        if nm in ("value", "index") and getattr(self, "enumvars", None):
            b = self.strip(base)
            if b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] in self.enumvars:
                ei, eq, et = self.enumvars[b["referencedDecl"]["id"]]
                if nm == "index": return (ei, T("int", (64, False)))
                v = self.temp("%s[%s]" % (eq, ei)); self.assume_ty(et, v)
                return (v, et)
        t = self.ety(base).val()
        if t.k == "ptr" and not f.get("isArrow") and nm in ("get", "operator bool"): return self.std_method(t, nm, base, args, e)
        if t.k == "ptr": t = t.a[0]
        if nm in ("getValue", "getKey") and t.k == "opaque":
            b = self.strip(base)
            if b.get("kind") == "CXXOperatorCallExpr" and self.callee_name(b) == "operator->":
                v, s = self.rv(b)
                if s.k == "tup": return ("%s.%d" % (v, 1 if nm == "getValue" else 0), s.a[1 if nm == "getValue" else 0])
        if t.k in ("seq", "str", "bits", "opt", "ptr", "map"):
            return self.std_method(t, nm, base, args, e)
        d, obj, args = self.call_parts(e)
        return self.user_call(e, d, obj, args)

    def user_call(self, e, d, obj, args):
        if d is None: raise Unsupported("call to unknown function %s on %r %s" % (self.callee_name(e), self.ety(e["inner"][0].get("inner", [e])[0]), tystr(e["inner"][0].get("inner", [e])[0])))
        m = d.get("mangledName")
        key = self.p.dm.get(m)
        fn = self.p.funcs.get(m)
        fc = self.frames[-1]["c"]
        dsp = dict(self.p.unit.options.get("dispatch", {}), **(fc.dispatch if fc is not None else {}))
        if key in dsp:
            # a virtual call, resolved for the dynamic type under verification, or stated to meet the contract of one override
            k2 = dsp[key]
            fn = next((self.p.funcs[q] for q, k in self.p.dm.items() if k == k2 and q in self.p.funcs), None)
            if fn is None: raise Unsupported("no body for " + k2)
            self.p.modelled.add("virtual call of %s dispatches to %s" % (key, k2)); key = k2
        if self.p.modular(key) and fn is not None:
            r = self.call_contract(key, fn, obj, args)
            return r if r[0] != "$self" else (r[1].read(), r[1].ty)
        if fn is None: raise Unsupported("no body for %s" % (key or d.get("name")))
        l = self.inline_lv(e) if e["kind"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else None
        if l is not None: return (l.read(), l.ty)
        objlv = None
        if obj is not None:
            objlv = self.lv(obj)
            if objlv is None:
                v, t = self.rv(obj); objlv = LV(self.temp(v), (), t, const=True)
            objlv = self.deref(objlv)
        if key == self.key: raise Unsupported("recursion without contract")
        return self.inline_call(fn, objlv, args, key)

    def e_CXXOperatorCallExpr(self, e):
        op = self.callee_name(e); args = e["inner"][1:]
        xc = self.ext_call(e, op, args)
        if xc is not None: return xc
        f = self.callee_decl(e)
        # lambda call
        a0 = self.strip(args[0])
        if op == "operator()" and a0.get("kind") == "MemberExpr" and self.frames[-1]["c"] is not None and a0["name"] in self.frames[-1]["c"].models and len(args) == 1:
            self.p.modelled.add("%s() in %s" % (a0["name"], self.key))
            return (self.at(self.frames[-1]["c"].models[a0["name"]]), self.p.te.parse(tystr(e)).val())
        if op == "operator()":
            return self.lambda_call(a0, args[1:])
        t0 = self.ety(args[0]).val()
        if op == "operator[]" or op in ("operator*", "operator->") and len(args) == 1:
            l = self.lv(e)
            if l is not None: return (l.read(), l.ty)
            if t0.k in ("seq", "bits", "str"):
                v, s = self.rv(args[0]); v = self.temp(v)
                i = self.rv(args[1])[0]
                self.ob("0 <= %s < %s.len()" % (i, v), "bounds", "subscript")
                return ("%s[%s]" % (v, i), s.a[0] if s.k == "seq" else T("bool") if s.k == "bits" else T("int", (8, True)))
            if t0.k == "opt":
                v, s = self.rv(args[0]); v = self.temp(v)
                self.ob("%s is Some" % v, "nullopt", "optional dereference")
                return ("%s->0" % v, s.a[0])
            if t0.k == "ptr":
                v, s = self.rv(args[0]); return (v, t0.a[0])
        if op == "operator+" and len(args) == 2 and self.p.te.parse(tystr(e)).val().k == "str":
            vs = []
            for a in args:
                v, t = self.rv(a)
                vs.append("seq![%s]" % v if t.k == "int" else self.conv((v, t), T("str")))
            return ("(%s + %s)" % tuple(vs), T("str"))
        if op == "operator->" and len(args) == 1 and self.mapit(args[0]) is not None:
            v, s = self.mapit(args[0]); v = self.temp(v)
            self.ob("%s is Some" % v, "bounds", "map iterator dereference")
            return ("(%s->0)" % v, T("tup", s.a))
        if op in ("operator==", "operator!=") and len(args) == 2 and self.mapit(args[0]) is not None and self.mapit(args[1]) is not None:
            a, b = self.mapit(args[0])[0], self.mapit(args[1])[0]
            if "$end" in (a, b):
                o = b if a == "$end" else a
                return ("(%s is %s)" % (o, "None" if op == "operator==" else "Some"), T("bool"))
        if op in ("operator==", "operator!=") and len(args) == 2:
            t1 = self.ety(args[1]).val()
            if t0.k in ("seq", "str", "bits") and t1.k in ("seq", "str", "bits"):
                if t0.k == "seq" and t0.a[0].k not in ("int", "bool", "enum") and not (t0.a[0].k == "rec" and t0.a[0].a[0] in self.p.unit.options.get("structeq", ())):
                    return self.seq_compare(op, t0.a[0], args)
                x = self.rv(args[0])[0]; y = self.rv(args[1])[0]
                r = "(%s =~= %s)" % (x, y)
                return (r if op == "operator==" else "!%s" % r, T("bool"))
            if t0.k == "opt" or t1.k == "opt":
                raise Unsupported("optional comparison")
            ia = self.iterv(args[0])
            if ia is not None:
                ib = self.iterv(args[1])
                if ib is not None: return ("(%s %s %s)" % (ia.idx, op[8:], ib.idx), T("bool"))
        if op in ("operator++", "operator--"):
            w = self.vars.get(a0.get("referencedDecl", {}).get("id")) if a0.get("kind") == "DeclRefExpr" else None
            if isinstance(w, tuple) and w[0] == "iter":
                if op == "operator++": self.ob("%s < %s.len()" % (w[1], w[2]), "bounds", "iterator increment")
                for a in self.assigned: a.add(w[1])
                self.em("proof { %s = %s %s 1; }" % (w[1], w[1], "+" if op[-1] == "+" else "-"))
                return (w[1], T("iter", (w[2],)))
        if op == "operator=":
            l = self.lv(args[0])
            d, obj, cargs = self.call_parts(e)
            fn = self.p.funcs.get((d or {}).get("mangledName")) if d else None
            if fn is None or d.get("isImplicit") or d.get("explicitlyDefaulted"):
                if l is None: raise Unsupported("assignment target")
                v = self.conv(self.rv(args[1]), l.ty)
                l = self.freeze(l)
                self.assign(l, v); return (l.read(), l.ty)
        if op == "operator+=" and t0.k == "str":
            l = self.lv(args[0]); v, s = self.rv(args[1])
            self.assign(l, "%s + %s" % (l.read(), v) if s.k == "str" else "%s.push(%s)" % (l.read(), v)); return (l.read(), l.ty)
        if op == "operator+" and t0.k == "str":
            x = self.rv(args[0])[0]; y, s = self.rv(args[1])
            return ("(%s + %s)" % (x, y) if s.k == "str" else "%s.push(%s)" % (x, y), T("str"))
        d, obj, cargs = self.call_parts(e)
        return self.user_call(e, d, obj, cargs)

    def seq_compare(self, op, et, args):
        """element-wise == through the element's own operator=="""
        x = self.temp(self.rv(args[0])[0]); y = self.temp(self.rv(args[1])[0])
        if et.k != "rec": raise Unsupported("container comparison of %r" % et)
        cand = [(m, n) for m, n in self.p.funcs.items() if n.get("name") == "operator==" and len(params_of(n)) == 1
                and self.p.te.parse(tystr(params_of(n)[0])).val() == et]
        cand = [(m, n) for m, n in cand if self.safe_rec(n) == et.a[0]]
        if len(cand) != 1: raise Unsupported("operator== of %s" % et.a[0])
        m, fn = cand[0]; key = self.p.dm[m]
        q = self.fresh("q")
        if self.p.modular(key):
            se = self.p.unit.options.get("structeq", {}).get(et.a[0])
            if se is None: raise Unsupported("container comparison of %r" % et)
            self.p.structeq_used[et.a[0]] = (key, se); self.p.request(key)
            for z in (x, y):
                self.ob("forall|%s: int| 0 <= %s < %s.len() ==> (%s)" % (q, q, z, se.replace("$x", "(#[trigger] %s[%s])" % (z, q), 1).replace("$x", "%s[%s]" % (z, q))), "wf", "elements compared with ==")
            r = "(%s =~= %s)" % (x, y)
        else:
            q_d = params_of(fn)[0]
            saved = dict(self.vars)
            def go():
                self.push_inline(fn, LV("%s[%s]" % (x, q), (), et, const=True), [], T("bool"))
                try:
                    self.vars[q_d["id"]] = LV("%s[%s]" % (y, q), (), et, const=True)
                    st = [z for z in body_of(fn).get("inner", []) if z.get("kind") != "NullStmt"]
                    if len(st) != 1 or st[0]["kind"] != "ReturnStmt": raise Unsupported("operator== body")
                    return self.rv(st[0]["inner"][0])[0]
                finally:
                    self.pop_inline(); self.vars = saved
            (c, lines) = self.sub(go)
            if lines: raise Unsupported("operator== is not a pure expression")
            self.p.inlined.add(key)
            r = "(%s.len() == %s.len() && (forall|%s: int| 0 <= %s < %s.len() ==> (%s)))" % (x, y, q, q, x, c)
        return (r if op == "operator==" else "!%s" % r, T("bool"))

    def safe_rec(self, n):
        try:
            fx = FnX.__new__(FnX); fx.p = self.p; fx.tu = n["_tu"]
            return fx.record_of(n)
        except Unsupported: return None

    def lambda_call(self, a0, args):
        if a0.get("kind") != "DeclRefExpr": raise Unsupported("call of a function object")
        v = self.vars.get(a0["referencedDecl"]["id"])
        if not (isinstance(v, tuple) and v[0] == "lambda"): raise Unsupported("call of a function object")
        return self.inline_lambda(v[1], args=args, env=v[2] if len(v) > 2 else None)

    def lambda_parts(self, lam):
        rec = lam["inner"][0]
        meth = [c for c in rec.get("inner", []) if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not meth:
            tm = [c for c in rec.get("inner", []) if c.get("kind") == "FunctionTemplateDecl"]
            insts = [c for t in tm for c in t.get("inner", []) if c.get("kind") == "CXXMethodDecl" and body_of(c)]
            if len(insts) >= 1:
                insts = [c for c in insts if "auto" not in c["type"]["qualType"]] or insts
                return params_of(insts[-1]), body_of(insts[-1]), insts[-1]
            raise Unsupported("generic lambda")
        body = [c for c in lam["inner"] if c.get("kind") == "CompoundStmt"]
        return params_of(meth[0]), body[-1] if body else body_of(meth[0]), meth[0]

    def inline_lambda(self, lam, args=None, vals=None, env=None):
        ps, body, meth = self.lambda_parts(lam)
        saved = dict(self.vars)
        rt = self.rettype(meth["type"]["qualType"])
        self.n += 1; uid = self.n
        if args is not None:
            vals = []
            for q, a in zip(ps, args):
                t = self.p.te.parse(tystr(q))
                l = self.lv(a) if t.ref == "&" else None
                vals.append(self.freeze(l) if l is not None else (self.conv(self.rv(a), t.val()), t.val()))
        if env is not None: self.vars = dict(env)
        if self.inl_this is None: self.inl_this = []; self.inl_rt = []; self.inline_id = []; self.inl_tu = []; self.inl_rec = []
        self.frames.append(LambdaFrame(self.frames[-1]))
        self.inline_depth += 1; self.inline_id.append(uid)
        self.inl_this.append(self.inl_this[-1] if self.inl_this else None); self.inl_rt.append(rt.val())
        self.inl_tu.append(self.tu); self.inl_rec.append((getattr(self, "rec", None), getattr(self, "thisT", None)))
        try:
            for q, v in zip(ps, vals):
                if isinstance(v, LV): self.vars[q["id"]] = v
                else:
                    nm = self.declare(q, q.get("name", "u"), v[1])
                    self.em("let ghost mut %s: %s = %s;" % (nm, self.p.vt(v[1]), v[0]))
                    self.vars[q["id"]] = LV(nm, (), v[1])
            st = [x for x in body.get("inner", []) if x.get("kind") != "NullStmt"]
            if len(st) == 1 and st[0]["kind"] == "ReturnStmt" and st[0].get("inner"):
                r = self.rv(st[0]["inner"][0])
                if rt.k == "rec" and r[1].k == "rec" and rt != r[1] and rt.a[0] not in self.p.poly: return r   # deduced return type
                return (self.conv(r, rt.val()), rt.val() if rt.k != "opaque" else r[1])
            res = self.fresh("r")
            isunit = rt.k == "unit"
            if not isunit: self.em("let ghost mut %s: %s = arbitrary();" % (res, self.p.vt(rt.val())))
            self.em("{"); self.em.ind += 1
            old = self.retmode; oldlr = getattr(self, "in_loopret", 0); self.in_loopret = 0
            self.inl_res = getattr(self, "inl_res", []) + [res]
            def ret(val):
                if val is not None and not isunit:
                    for a in self.assigned: a.add(res)
                    self.em("proof { %s = %s; }" % (res, val))
            self.retmode = ret
            try: self.stmts(st)
            finally: self.retmode = old; self.in_loopret = oldlr; self.inl_res = self.inl_res[:-1]
            self.em.ind -= 1; self.em("}")
            return (res, rt.val()) if not isunit else ("()", T("unit"))
        finally:
            self.pop_inline(); self.vars = saved

    def e_CallExpr(self, e):
        nm = self.callee_name(e); args = e["inner"][1:]
        xc = self.ext_call(e, nm, args)
        if xc is not None: return xc
        f = self.callee_decl(e)
        d = self.tu.byid.get(f.get("referencedDecl", {}).get("id")) if f.get("kind") == "DeclRefExpr" else None
        if d is None and f.get("kind") == "DeclRefExpr" and nm not in LIBFUN: d = self.p.outside(self.tu, f)
        if d is None and f.get("kind") == "DeclRefExpr" and f.get("referencedDecl", {}).get("kind") == "CXXMethodDecl": d = self.static_method(e, f)
        if d is not None and self.p.funcs.get(d.get("mangledName")) is not None:
            return self.user_call(e, d, None, args)
        if nm in ("move", "forward", "as_const"): return self.rv(args[0])
        if nm in ("min", "max", "lowest") and not args:
            t = self.p.te.parse(tystr(e)).val()
            if t.k == "int": return ((SMAX if t.a[1] else UMAX)[t.a[0]] if nm == "max" else (SMIN[t.a[0]] if t.a[1] else "0"), t)
        if nm in ("llvm_unreachable_internal", "__builtin_unreachable"):
            self.ob("false", "unreachable", ""); return ("()", T("unit"))
        if nm == "to_string" and len(args) == 1:
            v, s = self.rv(args[0])
            if s.k == "int": return ("dec_string(%s)" % v, T("str"))
        if nm == "get" and len(args) == 1 and self.ety(args[0]).k == "variant":
            v, s = self.rv(args[0]); t = self.p.te.parse(tystr(e)).val()
            for j, x in enumerate(s.a):
                if x == t:
                    self.ob("%s is A%d" % (v, j), "variant", "std::get"); return ("%s->A%d_0" % (v, j), t)
        if nm == "pow" and len(args) == 2: return ("real_pow(%s, %s)" % tuple(self.conv(self.rv(a), T("real")) for a in args), T("real"))
        if nm in ("min", "max") and len(args) == 2:
            (a, s), (b, t) = self.rv(args[0]), self.rv(args[1])
            return ("%s_(%s, %s)" % (nm, a, b), s)
        if nm == "abs" and len(args) == 1:
            a, s = self.rv(args[0]); return ("(if %s < 0 { -%s } else { %s })" % (a, a, a), s)
        if nm in ("make_pair", "make_tuple", "tie"):
            vs = [self.rv(a) for a in args]
            t = self.p.te.parse(tystr(e)).val()
            if t.k == "tup": return ("(" + ", ".join(self.conv(v, x) for v, x in zip(vs, t.a)) + ")", t)
            return ("(" + ", ".join(v for v, _ in vs) + ")", T("tup", [s for _, s in vs]))
        if nm in ("ArrayRef", "make_optional", "optional", "makeArrayRef"):
            t = self.p.te.parse(tystr(e)).val()
            return (self.conv(self.rv(args[0]), t), t)
        if nm == "count_if" and len(args) in (2, 3): return self.count_if(args)
        if nm in ("all_of", "any_of", "none_of") and len(args) == 2:
            return self.quant(nm, args)
        if nm == "make_unique":
            t = self.p.te.parse(tystr(e)).val()
            inner = t.a[0] if t.k == "ptr" else t
            return (self.construct(inner, args, None), t)
        if nm in ("isspace", "isdigit", "isalpha", "isalnum"):
            v, s = self.rv(args[0]); return ("c_%s(%s)" % (nm, v), T("int", (32, True)))
        if nm == "distance":
            ia, ib = self.iterv(args[0]), self.iterv(args[1])
            if ia and ib and ia.cont == ib.cont: return ("(%s - %s)" % (ib.idx, ia.idx), T("int", (64, True)))
        if nm == "empty" and len(args) == 1:
            q = self.seq_of(args[0]); return ("(%s.len() == 0)" % q[0], T("bool"))
        if nm == "append_range":
            l = self.lv(args[0]); q = self.seq_of(args[1])
            self.assign(l, "%s + %s" % (l.read(), q[0])); return ("()", T("unit"))
        if nm in ("sort", "stable_sort") and len(args) in (1, 2):
            l = self.lv(args[0])
            if l is not None and l.ty.k == "seq":
                # the library sorts: the result is a permutation of the sequence
                x = self.fresh("srt")
                self.em("let ghost %s: %s = arbitrary();" % (x, self.p.vt(l.ty)))
                self.em("proof { assume(is_perm(%s, %s)); } //@lib sort permutes its argument" % (x, l.read()))
                self.assign(l, x); return ("()", T("unit"))
        if nm == "is_contained":
            q = self.seq_of(args[0]); v = self.rv(args[1])
            if q[1].k in ("int", "bool", "enum"): return ("%s.contains(%s)" % (q[0], self.conv(v, q[1])), T("bool"))
        if nm == "swap" and len(args) == 2:
            a, b = self.lv(args[0]), self.lv(args[1])
            if a is not None and b is not None:
                a, b = self.freeze(a), self.freeze(b)
                x = self.temp2(a.read()); y = self.temp2(b.read())
                self.assign(a, y); self.assign(b, x); return ("()", T("unit"))
        raise Unsupported("call to %s" % nm)

    def static_method(self, e, f):
        """a static method named with its class from a function outside the dumped namespaces"""
        rd = f["referencedDecl"]; m = re.match(r"([\w:]+)::%s\(" % re.escape(rd["name"]), self.src_of(e))
        if not m: return None
        t = self.p.te.parse(m.group(1)).val()
        cls = m.group(1).split("::")[-1]
        out = []
        for mn, n in self.p.decls.items():
            if n["kind"] != "CXXMethodDecl" or n.get("name") != rd["name"] or self.p.funcs.get(mn) is None: continue
            if not re.search(r"(^|::)%s::%s\(" % (re.escape(cls), re.escape(rd["name"])), self.p.dm.get(mn, "")): continue
            octx = self.p.ctxrec; self.p.ctxrec = t.a[0] if t.k == "rec" else octx
            try:
                if self.sig_eq(n["type"]["qualType"], rd["type"]["qualType"], n): out.append(n)
            finally: self.p.ctxrec = octx
        return out[0] if len(out) == 1 else None

    def find_if(self, e):
        """std::find_if over a whole container: the index of the first element that satisfies the predicate"""
        a, b = self.iterv(e["inner"][1]), self.iterv(e["inner"][2])
        if a is None or b is None or a.cont != b.cont or a.idx != "0" or b.idx != "(%s.len() as int)" % a.cont: raise Unsupported("find_if over part of a container")
        lam = self.strip(e["inner"][3])
        if lam.get("kind") != "LambdaExpr": raise Unsupported("predicate of find_if")
        q, et = a.cont, a.elem
        iv = self.fresh("q"); acc = self.fresh("acc")
        self.locals.append((iv, T("int", (64, True)))); self.locals.append((acc, T("bool")))
        self.em("let ghost mut %s: bool = false;" % acc)
        self.em("let ghost mut %s: int = 0;" % iv)
        def bodyf():
            c = self.inline_lambda(lam, vals=[LV("%s[%s]" % (q, iv), (), et, const=True)])[0]
            for x in self.assigned: x.add(acc)
            self.em("proof { %s = %s; }" % (acc, c))
            return False
        def inc():
            for x in self.assigned: x.add(iv)
            self.em("proof { if !%s { %s = %s + 1; } }" % (acc, iv, iv))
        self.run_loop("find_if", lambda: "(%s < %s.len() && !%s)" % (iv, q, acc), bodyf, inc,
                      {"$i": iv, "$seq": q, "$acc": acc, "$n": "%s.len()" % q},
                      ["0 <= %s <= %s.len()" % (iv, q), "%s ==> %s < %s.len()" % (acc, iv, q)], ["%s.len() - %s + (if %s { 0int } else { 1int })" % (q, iv, acc)])
        return IterVal(q, iv, et, a.lv)

    def count_if(self, args):
        """std::count_if / llvm::count_if: a loop that counts the elements for which the predicate holds"""
        if len(args) == 3:
            a, b = self.iterv(args[0]), self.iterv(args[1])
            if a is None or b is None or a.cont != b.cont or a.idx != "0" or b.idx != "(%s.len() as int)" % a.cont: raise Unsupported("count_if over part of a container")
            q, et = a.cont, a.elem
        else: q, et, _ = self.seq_of(args[0])
        lam = self.strip(args[-1])
        if lam.get("kind") == "DeclRefExpr":
            v = self.vars.get(lam["referencedDecl"]["id"])
            lam = v[1] if isinstance(v, tuple) and v[0] == "lambda" else lam
        if lam.get("kind") != "LambdaExpr": raise Unsupported("predicate of count_if")
        iv = self.fresh("q"); acc = self.fresh("acc")
        self.locals.append((iv, T("int", (64, True)))); self.locals.append((acc, T("int", (64, True))))
        self.em("let ghost mut %s: int = 0;" % acc)
        self.em("let ghost mut %s: int = 0;" % iv)
        def bodyf():
            c = self.inline_lambda(lam, vals=[LV("%s[%s]" % (q, iv), (), et, const=True)])[0]
            for x in self.assigned: x.add(acc)
            self.em("proof { if %s { %s = %s + 1; } }" % (c, acc, acc))
            return False
        def inc():
            for x in self.assigned: x.add(iv)
            self.em("proof { %s = %s + 1; }" % (iv, iv))
        self.run_loop("count_if", lambda: "%s < %s.len()" % (iv, q), bodyf, inc,
                      {"$i": iv, "$seq": q, "$acc": acc, "$n": "%s.len()" % q},
                      ["0 <= %s <= %s.len()" % (iv, q), "0 <= %s <= %s" % (acc, iv)], ["%s.len() - %s" % (q, iv)])
        return (acc, T("int", (64, True)))

    def quant(self, nm, args):
        """all_of / any_of / none_of with a side-effect free predicate: lowered to its quantified meaning
        when the predicate is a pure expression, otherwise to a loop with the annotated invariant."""
        lam = self.strip(args[1])
        if lam.get("kind") == "DeclRefExpr":
            v = self.vars.get(lam["referencedDecl"]["id"])
            lam = v[1] if isinstance(v, tuple) and v[0] == "lambda" else lam
        if lam.get("kind") != "LambdaExpr": raise Unsupported("predicate of " + nm)
        q, et, lv = self.seq_of(args[0])
        ps, body, meth = self.lambda_parts(lam)
        st = [x for x in body.get("inner", []) if x.get("kind") != "NullStmt"]
        iv = self.fresh("q")
        if len(st) == 1 and st[0]["kind"] == "ReturnStmt":
            saved = dict(self.vars)
            self.vars[ps[0]["id"]] = LV("%s[%s]" % (q, iv), (), et, const=True)
            (r, lines) = self.sub(lambda: self.cond(st[0]["inner"][0]))
            self.vars = saved
            if not lines:
                rng = "0 <= %s < %s.len()" % (iv, q)
                trig = "#[trigger] %s[%s]" % (q, iv)
                if nm == "any_of": return ("(exists|%s: int| %s && (%s))" % (iv, rng, r), T("bool"))
                neg = "!" if nm == "none_of" else ""
                return ("(forall|%s: int| %s ==> %s(%s))" % (iv, rng, neg, r), T("bool"))
        # loop form: the annotated loop contract speaks about $i, $seq and $acc
        if not re.fullmatch(r"\w+", q): q = self.temp(q)
        acc = self.fresh("acc")
        self.locals.append((iv, T("int", (64, True)))); self.locals.append((acc, T("bool")))
        init = "false" if nm == "any_of" else "true"
        self.em("let ghost mut %s: bool = %s;" % (acc, init))
        self.em("let ghost mut %s: int = 0;" % iv)
        def bodyf():
            if len(st) == 1 and st[0]["kind"] == "ReturnStmt" and st[0].get("inner") and self.ety(st[0]["inner"][0]).val().k in ("ptr", "nptr"):
                saved = dict(self.vars)
                self.vars[ps[0]["id"]] = LV("%s[%s]" % (q, iv), (), et, const=True)
                c = self.temp(self.cond(st[0]["inner"][0])); self.vars = saved
            else: c = self.inline_lambda(lam, vals=[LV("%s[%s]" % (q, iv), (), et, const=True)])[0]
            for a in self.assigned: a.add(acc)
            if nm == "any_of": self.em("proof { %s = %s; }" % (acc, c))
            elif nm == "all_of": self.em("proof { %s = %s; }" % (acc, c))
            else: self.em("proof { %s = !(%s); }" % (acc, c))
            return False
        def inc():
            for a in self.assigned: a.add(iv)
            self.em("proof { %s = %s + 1; }" % (iv, iv))
        # stop at the first decisive element, as the library does
        cond = "(%s < %s.len() && %s)" % (iv, q, "!%s" % acc if nm == "any_of" else acc)
        self.run_loop(nm, lambda: cond, bodyf, inc, {"$i": iv, "$seq": q, "$acc": acc, "$n": "%s.len()" % q},
                      ["0 <= %s <= %s.len()" % (iv, q)], ["%s.len() - %s" % (q, iv)])
        return (acc, T("bool"))

    def e_LambdaExpr(self, e): raise Unsupported("lambda value")

    def std_method(self, t, nm, base, args, e):
        l = self.lv(base)
        if l is None:
            v, s = self.rv(base); v = self.temp(v); l = LV(v, (), s, const=True)
        if l.ty.k == "nptr" and nm == "operator bool": return ("(%s is Some)" % l.read(), T("bool"))
        if l.ty.k == "nptr" and nm == "get": return (l.read(), l.ty)
        if l.ty.k == "nptr": l = self.deref(l)
        elif l.ty.k == "ptr" and t.k != "ptr": l = LV(l.root, l.proj, l.ty.a[0], l.const)
        x = l.read()
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        U64 = T("int", (64, False))
        U = ("()", T("unit"))
        if t.k == "str" and nm == "isValid" and not args: return ("regex_valid(%s)" % x, T("bool"))
        if t.k == "opt":
            if nm in ("has_value", "operator bool"): return ("(%s is Some)" % x, T("bool"))
            if nm == "value":
                self.ob("%s is Some" % x, "nullopt", "value()"); return ("%s->0" % x, t.a[0])
            if nm == "reset": self.assign(l, "None"); return U
            if nm == "value_or": return ("(if %s is Some { %s->0 } else { %s })" % (x, x, self.conv(self.rv(args[0]), t.a[0])), t.a[0])
            raise Unsupported("optional::" + nm)
        et = t.a[0] if t.k == "seq" else T("bool") if t.k == "bits" else T("int", (8, True))
        if nm in ("size", "length"): return ("(%s.len() as int)" % x, U64)
        if nm == "empty": return ("(%s.len() == 0)" % x, T("bool"))
        if nm in ("front", "back"):
            self.ob("%s.len() > 0" % x, "bounds", nm)
            return ("%s[%s]" % (x, "0" if nm == "front" else "%s.len() - 1" % x), et)
        if nm == "pop" and t.k == "seq" and not args:      # std::queue
            self.ob("%s.len() > 0" % x, "bounds", nm); self.assign(l, "%s.drop_first()" % x); return U
        if nm in ("push_back", "push"):
            v = self.conv(self.rv(args[0]), et)
            self.assign(l, "%s.push(%s)" % (l.read(), v)); return U
        if nm == "emplace_back":
            v = self.construct(et, args) if not (len(args) == 1 and self.ety(args[0]).val() == et) else self.rv(args[0])[0]
            if et.k == "int" and len(args) == 1: v = self.conv(self.rv(args[0]), et)
            self.assign(l, "%s.push(%s)" % (l.read(), v)); return U
        if nm in ("pop_back", "pop_back_val"):
            self.ob("%s.len() > 0" % x, "bounds", nm)
            r = self.temp2("%s.last()" % x)
            self.assign(l, "%s.drop_last()" % x)
            return (r, et) if nm == "pop_back_val" else U
        if nm == "clear": self.assign(l, "Seq::empty()"); return U
        if nm in ("reserve", "shrink_to_fit"): 
            return U
        if nm == "str" : return (x, t)
        if nm == "resize":
            n = self.rv(args[0])[0]
            fill = self.conv(self.rv(args[1]), et) if len(args) > 1 else self.zero(et)
            self.assign(l, "seq_resize(%s, %s, %s)" % (x, n, fill)); return U
        if nm == "append":
            if len(args) == 1:
                v, s = self.rv(args[0])
                if s.k == "rec": v = self.seq_of(args[0])[0]
                self.assign(l, "%s + %s" % (l.read(), v)); return U
            ia = self.iterv(args[0])
            if ia is not None:
                v = self.construct(t, args)
                self.assign(l, "%s + %s" % (l.read(), v)); return U
            n = self.rv(args[0])[0]; v = self.conv(self.rv(args[1]), et)
            self.assign(l, "%s + Seq::new(%s as nat, |i_: int| %s)" % (x, n, v)); return U
        if nm == "insert":
            ia = self.iterv(args[0])
            if ia is not None and ia.cont == x:
                if len(args) == 2:
                    v = self.conv(self.rv(args[1]), et)
                    self.ob("0 <= %s <= %s.len()" % (ia.idx, x), "bounds", "insert")
                    self.assign(l, "%s.insert(%s, %s)" % (x, ia.idx, v)); return U
                v = self.construct(t, args[1:])
                self.ob("0 <= %s <= %s.len()" % (ia.idx, x), "bounds", "insert")
                self.assign(l, "%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int)" % (x, ia.idx, v, x, ia.idx, x)); return U
        if nm in ("take_front", "take_back", "drop_front", "drop_back"):
            n = self.rv(args[0])[0] if args else "1"
            if nm.startswith("take"):
                # llvm::ArrayRef::take_* returns everything when n is larger
                if nm == "take_front": return ("(if %s.len() <= %s { %s } else { %s.subrange(0, %s) })" % (x, n, x, x, n), t)
                return ("(if %s.len() <= %s { %s } else { %s.subrange(%s.len() - %s, %s.len() as int) })" % (x, n, x, x, x, n, x), t)
            self.ob("%s <= %s.len()" % (n, x), "bounds", nm)
            if nm == "drop_front": return ("%s.subrange(%s, %s.len() as int)" % (x, n, x), t)
            return ("%s.subrange(0, %s.len() - %s)" % (x, x, n), t)
        if nm == "slice":
            a = self.rv(args[0])[0]
            if len(args) == 1:
                self.ob("%s <= %s.len()" % (a, x), "bounds", nm); return ("%s.subrange(%s, %s.len() as int)" % (x, a, x), t)
            n = self.rv(args[1])[0]
            self.ob("%s + %s <= %s.len()" % (a, n, x), "bounds", nm)
            return ("%s.subrange(%s, %s + %s)" % (x, a, a, n), t)
        if nm == "erase" and len(args) == 1:
            ia = self.iterv(args[0])
            if ia is not None and ia.cont == x:
                self.ob("0 <= %s < %s.len()" % (ia.idx, x), "bounds", "erase")
                self.assign(l, "%s.remove(%s)" % (x, ia.idx)); return U
        if t.k == "bits":
            if nm == "test":
                i = self.rv(args[0])[0]; self.ob("0 <= %s < %s.len()" % (i, x), "bounds", "test"); return ("%s[%s]" % (x, i), T("bool"))
            if nm in ("set", "reset") and len(args) == 1:
                i = self.rv(args[0])[0]; self.ob("0 <= %s < %s.len()" % (i, x), "bounds", nm)
                self.assign(l, "%s.update(%s, %s)" % (x, i, "true" if nm == "set" else "false")); return U
            if nm == "all": return ("(forall|i_: int| 0 <= i_ < %s.len() ==> %s[i_])" % (x, x), T("bool"))
            if nm == "any": return ("(exists|i_: int| 0 <= i_ < %s.len() && %s[i_])" % (x, x), T("bool"))
            if nm == "none": return ("(forall|i_: int| 0 <= i_ < %s.len() ==> !%s[i_])" % (x, x), T("bool"))
            if nm == "count": return ("bits_count(%s)" % x, T("int", (32, False)))
        if t.k == "seq" and nm == "data": raise Unsupported("data()")
        if t.k == "ptr" and nm == "get": return (x, t)
        if t.k == "ptr" and nm == "operator bool": return ("true", T("bool"))
        raise Unsupported("%s::%s" % (t.k, nm))
