"""C++ type strings -> value types used by the translation."""
import re
from functools import lru_cache

class T:
    __slots__ = ("k", "a", "ref", "const")
    def __init__(self, k, a=(), ref=None, const=False):
        self.k = k; self.a = tuple(a); self.ref = ref; self.const = const
    def __eq__(self, o): return isinstance(o, T) and self.k == o.k and self.a == o.a
    def __hash__(self): return hash((self.k, self.a))
    def __repr__(self): return "%s%s" % (self.k, list(self.a) if self.a else "")
    def val(self): return T(self.k, self.a)

INTS = {
 "bool": ("bool",),
 "char": ("int", 8, True), "signed char": ("int", 8, True), "unsigned char": ("int", 8, False),
 "short": ("int", 16, True), "unsigned short": ("int", 16, False),
 "int": ("int", 32, True), "unsigned int": ("int", 32, False), "unsigned": ("int", 32, False),
 "long": ("int", 64, True), "unsigned long": ("int", 64, False),
 "long long": ("int", 64, True), "unsigned long long": ("int", 64, False),
 "int64_t": ("int", 64, True), "uint64_t": ("int", 64, False), "size_t": ("int", 64, False),
 "std::size_t": ("int", 64, False), "ptrdiff_t": ("int", 64, True), "std::ptrdiff_t": ("int", 64, True),
 "int32_t": ("int", 32, True), "uint32_t": ("int", 32, False), "uint8_t": ("int", 8, False), "int8_t": ("int", 8, True),
 "uint_fast8_t": ("int", 8, False), "double": ("real",), "float": ("real",),
 "difference_type": ("int", 64, True), "size_type": ("int", 64, False),
}
SEQ = {"llvm::SmallVector", "llvm::SmallVectorImpl", "llvm::ArrayRef", "llvm::MutableArrayRef", "std::vector",
       "std::initializer_list", "SmallVector", "SmallVectorImpl", "ArrayRef", "vector", "initializer_list", "std::array", "array", "std::queue", "queue"}
STR = {"std::string", "llvm::StringRef", "StringRef", "string", "std::basic_string", "std::__cxx11::basic_string", "basic_string"}
OPT = {"std::optional", "optional"}
PAIR = {"std::pair", "pair", "std::tuple", "tuple"}
BITS = {"llvm::BitVector", "llvm::SmallBitVector", "BitVector", "SmallBitVector"}

def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<({[": d += 1
        elif ch in ">)}]": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def norm_name(s):
    return re.sub(r"\s+", " ", s).strip()

class TypeEnv:
    """aliases: record/qualified alias resolution supplied by the unit config."""
    def __init__(self, aliases=None, records=None):
        self.aliases = aliases or {}
        self.known = records     # callable name -> canonical record name or None
        self.cache = {}; self.busy = set()
        self.owner = getattr(records, "__self__", None)

    def parse(self, s):
        k = (s, self.owner.ctxrec if self.owner is not None else None)
        if k in self.cache: return self.cache[k]
        t = self._parse(s)
        self.cache[k] = t
        return t

    def _parse(self, s):
        s = norm_name(s)
        for kw in ("class ", "struct ", "enum ", "typename "):
            s = s.replace(kw, "")
        ref = None; const = False
        while True:
            s = s.strip()
            if s.endswith("&&"): ref = "&&"; s = s[:-2]
            elif s.endswith("&"): ref = "&"; s = s[:-1]
            elif s.endswith("*const"): s = s[:-5]
            elif s.endswith("* const"): s = s[:-6]
            elif s.endswith(" const"): const = True; s = s[:-6]
            elif s.startswith("const "): const = True; s = s[6:]
            elif s.startswith("volatile "): s = s[9:]
            else: break
        s = s.strip()
        if s.endswith("*"):
            inner = self._parse(s[:-1])
            return T("ptr", (inner.val(),), ref, const)
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            return T("seq", (self._parse(m.group(1)).val(),), ref, const)
        t = self._base(s)
        return T(t.k, t.a, ref, const)

    def _base(self, s):
        if s in INTS:
            a = INTS[s]
            return T(a[0], a[1:])
        if s == "void": return T("unit")
        if s in self.aliases and s not in self.busy:
            self.busy.add(s)      # an alias may hide an equally named type of an outer scope
            try: return self.parse(self.aliases[s]).val()
            finally: self.busy.discard(s)
        m = re.match(r"^([\w:~ ]+?)\s*<(.*)>(::[\w:]+)?$", s)
        if m and m.group(3) is None:
            name, args = m.group(1), split_args(m.group(2))
            if name in SEQ: return T("seq", (self.parse(args[0]).val(),))
            if name in STR: return T("str")
            if name in OPT: return T("opt", (self.parse(args[0]).val(),))
            if name in PAIR: return T("tup", [self.parse(a).val() for a in args])
            if name in ("std::unique_ptr", "unique_ptr", "std::shared_ptr", "shared_ptr"):
                return T("ptr", (self.parse(args[0]).val(),))
            if name in ("llvm::StringMap", "StringMap"): return T("map", (T("str"), self.parse(args[0]).val()))
            if name in ("std::map", "map"): return T("map", (self.parse(args[0]).val(), self.parse(args[1]).val()))
            if name == "llvm::DenseMap": return T("opaque", (s,))
            if name in ("std::variant", "variant"): return T("variant", [self.parse(a).val() for a in args])
            if name in ("std::reference_wrapper", "reference_wrapper"):
                return self.parse(args[0]).val()
        if s in STR or s == "llvm::Regex": return T("str")
        if s in BITS: return T("bits")
        if s in ("std::nullopt_t", "nullopt_t"): return T("opt", (T("unit"),))
        if s in ("nullptr_t", "std::nullptr_t"): return T("nullptr")
        r = self.known(s) if self.known else None
        if r is not None: return r
        if m and m.group(3) is None and self.known:
            r = self.known(m.group(1))     # instance of a class template of the project
            if r is not None: return r
        if s.startswith("(lambda"): return T("lambda", (s,))
        return T("opaque", (s,))
