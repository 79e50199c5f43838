"""Program model over the exported facts: classes, functions, CFG, loops."""
import re
from facts import AnalysisError

_PROT = [("operator<<=", "operator@shle"), ("operator>>=", "operator@shre"), ("operator<<", "operator@shl"), ("operator>>", "operator@shr"),
         ("operator<=", "operator@le"), ("operator>=", "operator@ge"), ("operator<", "operator@lt"), ("operator->", "operator@arrow"),
         ("operator>", "operator@gt"), ("operator()", "operator@call")]
_base_cache = {}
def basename(dem):
    """Demangled name without template arguments, parameters and return type."""
    r = _base_cache.get(dem)
    if r is not None: return r
    s = dem
    for a, b in _PROT: s = s.replace(a, b)
    while True:
        t = re.sub(r"<[^<>]*>", "", s)
        if t == s: break
        s = t
    # cut the parameter list: first '(' at depth 0 that is not part of a name
    m = re.search(r"\(", s)
    if m: s = s[:m.start()]
    s = s.strip()
    s = s.replace("unsigned long", "ulong").replace("operator bool", "operator@bool")
    s = s.replace("operator new", "operator@new").replace("operator delete", "operator@delete")
    if " " in s: s = s.split(" ")[-1]
    s = s.replace("std::__cxx11::", "std::")
    _base_cache[dem] = s
    return s

class Func:
    __slots__ = ("p", "name", "dem", "base", "file", "line", "cls", "args", "blocks", "types", "internal", "nvals", "vars",
                 "_succ", "_pred", "_rpo", "_inst", "_live", "_pdom", "_cdep", "_loops", "_dom", "short", "const", "ret", "method", "_uses")
    def __init__(self, p, d):
        self.p = p; self.name = d["name"]; self.dem = d["dem"]; self.base = basename(self.dem)
        self.file = d["file"]; self.line = d["line"]; self.cls = d["cls"]
        self.args = d["args"]; self.blocks = d["blocks"]; self.types = d.get("types") or []
        self.internal = d["internal"]; self.nvals = d["nvals"]
        self.vars = {}
        for i, n, t in d.get("vars", []): self.vars.setdefault(i, (n, t))
        self._succ = self._pred = self._rpo = self._inst = self._live = self._pdom = self._cdep = self._loops = self._dom = self._uses = None
        self.short = re.sub(r"\(.*", "", self.dem) if "operator()" not in self.dem else self.dem
        self.const = self.dem.endswith(" const")
        self.ret = self.types[0] if self.types else "void"
        self.method = bool(self.cls) and any(a["name"] == "this" for a in self.args)
    def rel(self):
        r = self.p.root + "/"
        return self.file[len(r):] if self.file.startswith(r) else self.file
    def where(self, inst=None):
        l = inst.get("l") if inst else None
        return "%s:%s" % (self.rel(), l or self.line)
    @property
    def succ(self):
        if self._succ is None:
            self._succ = []
            for b in self.blocks:
                if not b: self._succ.append([]); continue
                t = b[-1]
                if t["op"] == "br": s = list(dict.fromkeys(t["t"]))
                elif t["op"] == "switch": s = list(dict.fromkeys([c[1] for c in t["cases"]] + [t["def"]]))
                elif t["op"] == "call" and "next" in t: s = [t["next"]]
                else: s = []
                self._succ.append(s)
        return self._succ
    @property
    def pred(self):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ):
                for s in ss: self._pred[s].append(i)
        return self._pred
    @property
    def rpo(self):
        """block -> reverse post order number (reachable blocks only)"""
        if self._rpo is None:
            seen = set(); order = []
            st = [(0, iter(self.succ[0]))]; seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ[s]))); break
                else:
                    order.append(b); st.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo
    @property
    def inst(self):
        if self._inst is None:
            self._inst = {}
            for bi, b in enumerate(self.blocks):
                for x in b: self._inst[x["id"]] = (bi, x)
        return self._inst
    def insts(self):
        for bi in self.rpo:
            for x in self.blocks[bi]: yield bi, x
    @property
    def uses(self):
        if self._uses is None:
            self._uses = {}
            for bi, x in self.insts():
                for v in operand_ids(x): self._uses.setdefault(v, []).append((bi, x))
        return self._uses
    @property
    def live(self):
        """block -> set of SSA ids live on entry (phi operands count as live out of the predecessor)"""
        if self._live is None:
            n = len(self.blocks); use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; phiin = [dict() for _ in range(n)]
            for b in self.rpo:
                for x in self.blocks[b]:
                    if x["op"] == "phi":
                        for o, pb in zip(x["o"], x["in"]):
                            if o[0] == "v": phiin[b].setdefault(pb, set()).add(o[1])
                    else:
                        for v in operand_ids(x):
                            if v not in de[b]: use[b].add(v)
                    de[b].add(x["id"])
            li = [set() for _ in range(n)]
            ch = True
            order = sorted(self.rpo, key=lambda b: -self.rpo[b])
            while ch:
                ch = False
                for b in order:
                    out = set()
                    for s in self.succ[b]:
                        out |= li[s] - {x["id"] for x in self.blocks[s] if x["op"] == "phi"}
                        out |= phiin[s].get(b, set())
                    new = use[b] | (out - de[b])
                    new |= {x["id"] for x in self.blocks[b] if x["op"] == "phi"}
                    if new != li[b]: li[b] = new; ch = True
            self._live = li
        return self._live
    def _domsets(self, preds, order, roots):
        allb = set(order); dom = {b: set(allb) for b in order}
        for r in roots: dom[r] = {r}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b in roots: continue
                ps = [dom[p] for p in preds(b) if p in dom]
                new = set.intersection(*ps) if ps else set()
                new = new | {b}
                if new != dom[b]: dom[b] = new; ch = True
        return dom
    @property
    def dom(self):
        if self._dom is None:
            self._dom = self._domsets(lambda b: self.pred[b], sorted(self.rpo, key=self.rpo.get), {0})
        return self._dom
    @property
    def pdom(self):
        if self._pdom is None:
            exits = {b for b in self.rpo if not self.succ[b]}
            self._pdom = self._domsets(lambda b: self.succ[b], sorted(self.rpo, key=lambda b: -self.rpo[b]), exits)
        return self._pdom
    @property
    def cdep(self):
        """block -> set of branch blocks it is control dependent on (transitively closed)"""
        if self._cdep is None:
            direct = {b: set() for b in self.rpo}
            for a in self.rpo:
                if len(self.succ[a]) < 2: continue
                for s in self.succ[a]:
                    for b in self.pdom.get(s, ()):
                        if b == a or b not in self.pdom[a]: direct[b].add(a)
            clo = {}
            for b in direct:
                seen = set(); st = list(direct[b])
                while st:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x); st.extend(direct[x])
                clo[b] = seen
            self._cdep = clo
        return self._cdep
    @property
    def loops(self):
        """header -> (set of body blocks, list of latches)"""
        if self._loops is None:
            self._loops = {}
            for b in self.rpo:
                for s in self.succ[b]:
                    if s in self.dom[b]:
                        body = {s}; st = [b]
                        while st:
                            x = st.pop()
                            if x in body: continue
                            body.add(x); st.extend(p for p in self.pred[x] if p in self.rpo)
                        o = self._loops.setdefault(s, (set(), []))
                        o[0].update(body); o[1].append(b)
        return self._loops

def operand_ids(x):
    out = []
    def rec(o):
        if not isinstance(o, list) or not o: return
        if o[0] == "v": out.append(o[1])
        elif o[0] == "ge":
            rec(o[1])
            for s in o[2]:
                if s[0] in ("A", "P"): rec(s[1])
        elif o[0] == "ce": rec(o[2])
    for o in x.get("o", ()): rec(o)
    if x["op"] == "getelementptr":
        for s in x["s"]:
            if s[0] in ("A", "P"): rec(s[1])
    if x["op"] == "call" and isinstance(x["f"], list): rec(x["f"])
    return out

class Cls:
    def __init__(self, name, d):
        self.name = name; self.file = d["file"]; self.line = d["line"]; self.bases = d["bases"]; self.members = d["members"]; self.methods = d["methods"]
        self.bylink = {m["link"]: m for m in self.methods if m["link"]}
        self.struct = d["struct"]

class Program:
    def __init__(self, d, minimum=400):
        self.raw = d; self.root = d["repo_root"]
        self.classes = {n: Cls(n, c) for n, c in d["classes"].items()}
        self.enums = d["enums"]
        self.funcs = {}; self.decl = {}
        for f in d["functions"]:
            if "blocks" in f and (f["repo"] or f["file"] == ""):
                self.funcs[f["name"]] = Func(self, f)
            self.decl[f["name"]] = f
        # complete-object constructors/destructors are aliases of the base-object ones (no virtual bases here)
        alias = {}
        for n in self.decl:
            if n in self.funcs: continue
            for m in re.finditer(r"[CD]1E", n):
                k = n[:m.start()] + n[m.start()] + "2E" + n[m.end():]
                if k in self.funcs: alias[n] = k
        if alias:
            for f in self.funcs.values():
                for b in f.blocks:
                    for x in b:
                        if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in alias: x["f"] = alias[x["f"]]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.vtables = {}
        for g in d["globals"]:
            if "vtable" in g and g["dem"].startswith("vtable for "):
                self.vtables[g["dem"][len("vtable for "):]] = g["vtable"][2:]
        self.structs = d["structs"]
        self._field = {}
        if len(self.funcs) < minimum or len(self.classes) < minimum // 10:
            raise AnalysisError("program facts too small: %d functions, %d classes" % (len(self.funcs), len(self.classes)))
        self._tmap = {}
    def base_chain(self, c):
        out = [c]
        while c in self.classes and self.classes[c].bases:
            c = self.classes[c].bases[0]; out.append(c)
        return out
    def subclasses(self, c):
        return [k for k in self.classes if c in self.base_chain(k)]
    def struct_field(self, st, idx):
        """component of an access path for element idx of LLVM struct st; None = base subobject (no component)"""
        k = (st, idx)
        if k in self._field: return self._field[k]
        s = self.structs.get(st); r = "#%d" % idx
        if s:
            c = self._class_of_struct(s["name"])
            if c:
                off = s["elems"][idx][0]
                for m in self.classes[c].members:
                    if m["off"] == off: r = m["name"]; break
                else:
                    ety = s["elems"][idx][1]
                    if self.classes[c].bases and idx <= 1 and ("class." in ety or "struct." in ety): r = None
        self._field[k] = r
        return r
    def _class_of_struct(self, n):
        if n in self.classes: return n
        if n in self._tmap: return self._tmap[n]
        r = None
        # templates: Point3d in LLVM is class.Point3d, in debug info Point3d<double>
        c = [k for k in self.classes if k.split("<")[0] == n]
        if len(c) == 1: r = c[0]
        elif len(c) > 1: r = c[0]
        self._tmap[n] = r
        return r
    def member(self, cls, name):
        for c in self.base_chain(cls):
            if c in self.classes:
                for m in self.classes[c].members:
                    if m["name"] == name: return c, m
        return None
    def methods_of(self, cls, inherited=True):
        """concrete functions callable on cls: list of (Func, method record, declaring class)"""
        out = []; seen = set()
        for c in self.base_chain(cls) if inherited else [cls]:
            if c not in self.classes: continue
            for f in self.funcs.values():
                if f.cls == c and f.name not in seen:
                    m = self.classes[c].bylink.get(f.name) or self.access_of(f)
                    key = (f.base.split("::")[-1], f.dem.split("(", 1)[1] if "(" in f.dem else "")
                    if key in seen: continue
                    seen.add(key); seen.add(f.name)
                    out.append((f, m, c))
        return out
    def access_of(self, f):
        c = self.classes.get(f.cls)
        if not c: return None
        if f.name in c.bylink: return c.bylink[f.name]
        # constructors / destructors: declarations have no linkage name
        nm = f.base.split("::")[-1]
        for m in c.methods:
            if m["name"] == nm and len(m["types"]) == len(f.types): 
                if m["types"][1:] == f.types[1:]: return m
        for m in c.methods:
            if m["name"] == nm: return m
        return None
    def is_ctor(self, f):
        return bool(f.cls) and f.base.split("::")[-1] == f.cls.split("::")[-1].split("<")[0]
    def is_dtor(self, f):
        return bool(f.cls) and f.base.split("::")[-1].startswith("~")
    def is_assign(self, f):
        return bool(f.cls) and f.base.split("::")[-1] == "operator="
    def is_copy(self, f):
        """copy/move constructor or assignment"""
        if not f.cls: return False
        ps = f.types[2:]
        if len(ps) != 1: return False
        t = ps[0].replace("const ", "").rstrip("&")
        return (self.is_ctor(f) or self.is_assign(f)) and t == f.cls
    def get(self, dem_prefix):
        return [f for f in self.funcs.values() if f.short == dem_prefix]

def _defop(f, o):
    """where an address operand comes from: ('m', member name) / 'local' / '?'"""
    seen = 0
    while True:
        seen += 1
        if seen > 20: return "?"
        if o[0] == "ge":
            for s in reversed(o[2]):
                if s[0] == "S":
                    c = f.p.struct_field(s[1], s[2])
                    if c is not None: return ("m", c)
            o = o[1]; continue
        if o[0] != "v": return "?" if o[0] == "g" else "local"
        d = f.inst.get(o[1])
        if d is None: return "?"          # argument
        x = d[1]
        if x["op"] == "alloca": return "local"
        if x["op"] == "getelementptr":
            for s in reversed(x["s"]):
                if s[0] == "S":
                    c = f.p.struct_field(s[1], s[2])
                    if c is not None: return ("m", c)
            o = x["o"][0]; continue
        return "?"

def footprints(p):
    """function -> (member names touched, member names touched as a whole subtree, touches an argument's whole subtree)"""
    fp = {}; 
    slots = {}
    for vt in p.vtables.values():
        for i, n in enumerate(vt): slots.setdefault(i, set()).add(n)
    calls = {}
    for f in p.funcs.values():
        m = set(); w = set(); q = False; cs = set()
        for bi, x in f.insts():
            st = list(x.get("s", ())) if x["op"] == "getelementptr" else []
            for o in x.get("o", ()):
                if isinstance(o, list) and o and o[0] == "ge": st += o[2]
            for s in st:
                if s[0] == "S":
                    c = p.struct_field(s[1], s[2])
                    if c is not None: m.add(c)
            if x["op"] == "call":
                n = x["f"]
                if isinstance(n, list):
                    for vt in slots.values(): cs |= vt
                    continue
                if n in p.funcs: cs.add(n); continue
                for o in x["o"]:
                    d = _defop(f, o)
                    if d == "?": q = True
                    elif isinstance(d, tuple): w.add(d[1])
        fp[f.name] = (m, w, q); calls[f.name] = cs
    ch = True
    while ch:
        ch = False
        for n in fp:
            m, w, q = fp[n]; a, b, c = len(m), len(w), q
            for k in calls[n]:
                if k in fp:
                    m |= fp[k][0]; w |= fp[k][1]; q = q or fp[k][2]
            if (len(m), len(w), q) != (a, b, c): fp[n] = (m, w, q); ch = True
    return fp

def cache_flags(p):
    """(class, member) of the bool members that const member functions write: the 'up to date' flags"""
    r = getattr(p, "_flags", None)
    if r is not None: return r
    r = set()
    for f in p.funcs.values():
        if not (f.cls and f.const): continue
        for bi, x in f.insts():
            if x["op"] != "store": continue
            d = _defop(f, x["o"][1])
            if isinstance(d, tuple):
                for c in p.base_chain(f.cls):
                    if c in p.classes:
                        for m in p.classes[c].members:
                            if m["name"] == d[1] and m["type"] in ("bool", "_Bool"): r.add((c, d[1]))
    p._flags = r
    return r

def written_names(p):
    """function -> member names it may store to, transitively (class copies count as storing everything: '*')"""
    r = getattr(p, "_wn", None)
    if r is not None: return r
    wn = {}; calls = {}; slots = set()
    for vt in p.vtables.values(): slots |= set(vt)
    for f in p.funcs.values():
        w = set(); cs = set()
        for bi, x in f.insts():
            if x["op"] == "store":
                d = _defop(f, x["o"][1])
                w.add(d[1] if isinstance(d, tuple) else d)
            elif x["op"] == "call":
                n = x["f"]
                if isinstance(n, list): cs |= slots; continue
                if n in p.funcs: cs.add(n); continue
                if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                    d = _defop(f, x["o"][0])
                    w.add("*" if d != "local" else "local")
        wn[f.name] = w; calls[f.name] = cs
    ch = True
    while ch:
        ch = False
        for n in wn:
            a = len(wn[n])
            for k in calls[n]:
                if k in wn: wn[n] |= wn[k]
            if len(wn[n]) != a: ch = True
    p._wn = wn
    return wn
