"""Load the clang AST (JSON) of real /repo translation units and index it."""
import json, os, subprocess, hashlib, re, sys

CLANG = "clang++-20"
BASEFLAGS = ["-std=gnu++17", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-w",
             "-I/repo/include", "-I/usr/lib/llvm-20/include"]

class ExtractError(Exception):
    pass

def _parse_stream(s):
    dec = json.JSONDecoder(); i = 0; out = []; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        if s[i] != '{':
            j = s.find('\n', i)
            if j < 0: break
            i = j; continue
        o, i = dec.raw_decode(s, i); out.append(o)
    return out

def dump_text(path, filt, extra=()):
    cmd = [CLANG] + BASEFLAGS + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError("clang failed on %s:\n%s" % (path, r.stderr.decode()[-2000:]))
    return r.stdout.decode()

def dump(path, filt, extra=()): return _parse_stream(dump_text(path, filt, extra))

FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"}

class TU:
    """One translation unit: declarations by id, functions by mangled name."""
    def __init__(self, path, filt="marco::", extra=()):
        self.path = path
        self.roots = dump(path, filt, extra)
        self.byid = {}
        self.parent = {}       # decl id -> enclosing decl id
        self.funcs = {}        # mangled -> node with body
        self.decls = {}        # mangled -> any node
        self.records = {}      # short key -> node (complete)
        self.enums = {}
        self.extra = extra; self.seconds = {}
        for r in self.roots:
            self._index(r, None, [])

    def outside(self, name, qual):
        """a free function outside the dumped namespaces (static / anonymous): dumped on demand"""
        c = [r for r in self.outside_all(name) if r.get("type", {}).get("qualType") == qual]
        return c[0] if len({x["mangledName"] for x in c}) == 1 else None

    def outside_all(self, name):
        if name not in self.seconds:
            txt = re.sub(r'"0x', '"s%d:0x' % len(self.seconds), dump_text(self.path, name, self.extra))
            got = []
            for r in _parse_stream(txt):
                self._index(r, None, [])
                got.append(r)
            self.seconds[name] = got
        return [r for r in self.seconds[name] if r.get("kind") == "FunctionDecl" and r.get("name") == name and r.get("mangledName") and body_of(r)]

    def _index(self, n, parent, ctx):
        if not isinstance(n, dict): return
        k = n.get("kind", "")
        i = n.get("id")
        isdecl = k.endswith("Decl")
        if isdecl and i:
            if i not in self.byid or "inner" in n:
                self.byid[i] = n
            if parent is not None: self.parent.setdefault(i, parent)
            n["_tu"] = self
        nctx = ctx
        if k in FUNC_KINDS and n.get("mangledName"):
            m = n["mangledName"]
            body = any(isinstance(c, dict) and c.get("kind") == "CompoundStmt" for c in n.get("inner", []))
            if body and m not in self.funcs: self.funcs[m] = n
            self.decls.setdefault(m, n)
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition"):
            nctx = ctx + [n.get("name", "")]
            self.records.setdefault(n.get("name", ""), []).append(n)
            n["_ctx"] = ctx
        elif k == "NamespaceDecl":
            nctx = ctx + [n.get("name", "")]
        elif k == "EnumDecl":
            self.enums.setdefault(n.get("name", ""), []).append(n)
            n["_ctx"] = ctx
        pid = i if isdecl else parent
        for c in n.get("inner", []) or []:
            self._index(c, pid, nctx)

BASIC_STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"

def demangle(names):
    names = list(names)
    if not names: return {}
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, (x.replace(BASIC_STRING, "std::string").replace("[abi:cxx11]", "") for x in r.stdout.decode().split("\n"))))

def body_of(fn):
    for c in fn.get("inner", []):
        if c.get("kind") == "CompoundStmt": return c
    return None

def params_of(fn):
    return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]
