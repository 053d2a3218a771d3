"""Parser for the contract files (/verif/contracts/*.vc)."""
import re

class Loop:
    def __init__(self): self.inv = []; self.dec = []; self.begin = ""; self.end = ""; self.after = ""; self.before = ""; self.ens = []

class Contract:
    def __init__(self, key):
        self.key = key; self.name = None; self.req = []; self.ens = []; self.entry = ""; self.exit = ""
        self.loops = {}; self.aftercall = {}; self.beforecall = {}; self.dec = []; self.attrs = []; self.file = None; self.trusted = None; self.elsewhere = False
        self.lambdas = {}; self.outs = None; self.final = ""; self.afterdecl = {}; self.inline = False; self.optional = False
        self.ghosts = []; self.with_ = {}; self.models = {}; self.nullargs = set(); self.dispatch = {}

def _clauses(lines):
    out = []; cur = None
    for l in lines:
        if l.startswith("- "):
            if cur is not None: out.append(cur)
            cur = l[2:]
        elif cur is not None: cur += "\n" + l
        elif l.strip() and not l.strip().startswith("//"): raise ValueError("clause must start with '- ': " + l)
    if cur is not None: out.append(cur)
    res = []
    for c in out:
        c = c.rstrip()
        label = None
        m = re.match(r"^\[([^\]]+)\]\s*(.*)$", c, re.S)
        if m: label, c = m.group(1), m.group(2)
        res.append((label, c.strip().rstrip(",")))
    return res

def _expand(lines):
    """%foreach X = a b c ... %endforeach repeats a block; %foreach X = 2..36 counts."""
    out = []; i = 0
    lines = [re.sub(r'\bstr"([^"]*)"', lambda m: "seq![%s]" % ", ".join("%dint" % c for c in m.group(1).encode()), l) for l in lines]
    while i < len(lines):
        m = re.match(r"^%foreach (\w+) = (.*)$", lines[i])
        if not m: out.append(lines[i]); i += 1; continue
        j = lines.index("%endforeach", i); vals = []
        for v in m.group(2).split():
            r = re.match(r"^(\d+)\.\.(\d+)$", v)
            vals += [str(k) for k in range(int(r.group(1)), int(r.group(2)) + 1)] if r else [v]
        for v in vals: out += [l.replace("$" + m.group(1), v) for l in lines[i + 1:j]]
        i = j + 1
    return out

class Unit:
    def __init__(self):
        self.prelude = ""; self.contracts = {}; self.records = {}; self.aliases = {}; self.options = {}

def load(path):
    u = Unit()
    lines = _expand(open(path).read().split("\n"))
    i = 0; cur = None; loop = None; sec = None; buf = []; abbr = {}
    def flush():
        nonlocal buf, sec
        if sec is None: buf = []; return
        txt = "\n".join(buf)
        if sec == "prelude": u.prelude += txt + "\n"
        elif sec == "req": cur.req += _clauses(buf)
        elif sec == "ens": cur.ens += _clauses(buf)
        elif sec == "dec": (loop.dec if loop else cur.dec).extend(_clauses(buf))
        elif sec == "inv": loop.inv += _clauses(buf)
        elif sec == "loopens": loop.ens += _clauses(buf)
        elif sec == "begin": loop.begin += txt + "\n"
        elif sec == "end": loop.end += txt + "\n"
        elif sec == "after": loop.after += txt + "\n"
        elif sec == "before": loop.before += txt + "\n"
        elif sec == "entry": cur.entry += txt + "\n"
        elif sec == "exit": cur.exit += txt + "\n"
        elif isinstance(sec, tuple) and sec[0] == "aftercall": cur.aftercall[sec[1]] = txt
        elif isinstance(sec, tuple) and sec[0] == "beforecall": cur.beforecall[sec[1]] = txt
        elif isinstance(sec, tuple) and sec[0] == "afterdecl": cur.afterdecl[sec[1]] = txt
        buf = []; sec = None
    for l in lines:
        if l.startswith("%"):
            flush()
            w = l[1:].split(None, 1)
            cmd = w[0]; arg = w[1].strip() if len(w) > 1 else ""
            if cmd == "prelude": sec = "prelude"
            elif cmd == "end" and cur is None: sec = None
            elif cmd == "fn":
                for a, b in abbr.items(): arg = arg.replace(a, b)
                cur = Contract(arg); cur.file = path; u.contracts[arg] = cur; loop = None
            elif cmd == "name": cur.name = arg
            elif cmd == "attr": cur.attrs.append(arg)
            elif cmd == "inline": cur.inline = True
            elif cmd == "optional": cur.optional = True
            elif cmd == "ghost":
                for g in arg.split(","):
                    a, b = g.split(":", 1); cur.ghosts.append((a.strip(), b.strip()))
            elif cmd == "with":
                f, rest = arg.split(None, 1); d = cur.with_.setdefault(f, {})
                for g in rest.split(";"):
                    if g.strip():
                        a, b = g.split("=", 1); d[a.strip()] = b.strip()
            elif cmd == "model":
                a, b = arg.split(" = ", 1); cur.models[a.strip()] = b.strip()
            elif cmd == "trusted": cur.trusted = arg or "trusted"
            elif cmd == "loop":
                loop = Loop(); cur.loops[int(arg)] = loop
            elif cmd == "endloop": loop = None
            elif cmd == "endfn": cur = None; loop = None
            elif cmd in ("req", "ens", "dec", "inv", "begin", "end", "after", "before", "entry", "exit", "loopens"): sec = cmd
            elif cmd in ("aftercall", "beforecall", "afterdecl"): sec = (cmd, arg)
            elif cmd == "alias":
                a, b = arg.split("=", 1); u.aliases[a.strip()] = b.strip()
            elif cmd == "drop":
                u.options.setdefault("drop", set()).add(arg)
            elif cmd == "ghostfield":
                a, b = arg.split(":", 1); r, f = a.strip().rsplit(".", 1); u.options.setdefault("ghostfield", {}).setdefault(r, {})[f] = b.strip()
            elif cmd == "ghosttype":
                a, b = arg.split("=", 1); u.options.setdefault("ghosttype", {})[a.strip()] = b.strip()
            elif cmd == "extfn":
                # %extfn <name> <type of the first argument, as Verus type | *> [C++ result type regexp] = <assumed function>
                a, b = arg.split(" = ", 1); a = a.split(None, 2); u.options.setdefault("extfn", {})[(a[0], a[1], a[2] if len(a) > 2 else "", len(u.options.get("extfn", {})), path)] = b.strip()
            elif cmd in ("extconst", "extbool", "extnull", "ghostup"):
                a, b = arg.split(" = ", 1); u.options.setdefault(cmd, {})[a.strip()] = b.strip()
            elif cmd == "iterview":
                a, b = arg.split("=", 1); u.options.setdefault("iterview", {})[a.strip()] = b.strip()
            elif cmd == "iterpair":
                a, b = arg.split("=", 1); u.options.setdefault("iterpair", {})[a.strip()] = b.strip()
            elif cmd == "poly":
                a, b = arg.split("=", 1); u.options.setdefault("poly", {})[a.strip()] = [x.strip() for x in b.split("|")]
            elif cmd == "structeq":
                a, b = arg.split(" : ", 1); u.options.setdefault("structeq", {})[a.strip()] = b.strip()
            elif cmd == "abbr":
                a, b = arg.split(" = ", 1); abbr[a.strip()] = b.strip()
            elif cmd == "boxed": u.options.setdefault("boxed", set()).add(arg)
            elif cmd == "merge":
                a, b = arg.split("=", 1); u.options.setdefault("merge", {})[a.strip()] = b.strip()
            elif cmd == "nullable": u.options.setdefault("nullable", set()).add(arg)
            elif cmd == "nullarg": cur.nullargs.add(arg)
            elif cmd == "dispatch":
                for a, b in abbr.items(): arg = arg.replace(a, b)
                a, b = arg.split(" => "); (cur.dispatch if cur is not None else u.options.setdefault("dispatch", {}))[a.strip()] = b.strip()
            elif cmd == "noinline": u.options.setdefault("noinline", set()).add(arg)
            elif cmd == "tydeep": u.options.setdefault("tydeep", set()).add(arg)
            else: raise ValueError("unknown directive %%%s in %s" % (cmd, path))
        else:
            if sec is not None: buf.append(l)
    flush()
    return u
