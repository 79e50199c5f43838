"""Static types of access paths and inferred pointer invariants of classes."""
import re
from absint import Engine, State, Ctx, mentions
from facts import AnalysisError

def strip(t):
    t = t.strip()
    while t.startswith("const "): t = t[6:].strip()
    return t
def elem_type(t):
    """element type of a std container type string"""
    m = re.match(r"std::(?:__cxx11::)?(?:vector|list|deque)<(.*)>$", strip(t))
    if not m: return None
    s = m.group(1); d = 0
    for i, c in enumerate(s):
        if c in "<(": d += 1
        elif c in ">)": d -= 1
        elif c == "," and d == 0: return s[:i].strip()
    return s.strip()
def ptr_base(t):
    t = t.strip()
    if t.endswith("*") or t.endswith("&"): return strip(t[:-1].rstrip().replace(" const", "") if False else t[:-1])
    return None

class Typed(Engine):
    """Engine that knows the static type of locations and uses class invariants."""
    def __init__(self, prog, roots=None, inv=None, **kw):
        super().__init__(prog, **kw)
        self.roots = dict(roots or {}); self.inv = inv or {}; self.cond = {}; self._tp = {}; self._ic = {}
        self.symtype = {}
    def mem_key(self, path): return path[0][0] == "a" and (len(path) == 1 or not self.coarse)
    def fact_relevant(self, s):
        if not self.coarse: return True
        t = self.val_type(s)
        return (t is not None and t.endswith("*")) or s[1][0] == "sz"
    def keep_const(self, q):
        t = self.path_type(q)
        return t is None or t.endswith("*")
    def ver(self, st, path):
        for i in range(len(path), 0, -1):
            h = st.hav.get(path[:i])
            if h is not None: return h
        return None
    def implied(self, st, path, first=1):
        """is the unknown pointer at path non-null because of a proved class condition"""
        for i in range(first, len(path)):
            t = self.path_type(path[:i])
            if t is None: continue
            for c in self.p.base_chain(strip(t)):
                ms = self.cond.get(c, {}).get(path[i:])
                if not ms: continue
                for m in ms:
                    if holds(self, st, ante(self, st, path[:i], m)): return True
        return False
    def pointee(self, st, v, inst, ctx):
        if v is not None and v[0] == "s" and v[1][0] == "L" and self.cond:
            f = st.facts.get(v)
            if not (f is not None and f[0] == "ne" and 0 in f[1]) and v[1][2] == self.ver(st, v[1][1]) and self.implied(st, v[1][1]):
                st.facts[v] = ("ne", (f[1] if f and f[0] == "ne" else frozenset()) | {0})
        return super().pointee(st, v, inst, ctx)
    def root_type(self, path): return self.dyn.get(path) or self.path_type(path)
    def sym_type(self, v): return self.val_type(v)
    def path_type(self, path):
        r = self._tp.get(path)
        if r is None:
            r = self._ptype(path); 
            if r is not None: self._tp[path] = r
        return r
    def val_type(self, sym):
        """type of an unknown pointer value"""
        if sym[0] != "s": return None
        k = sym[1]
        if k[0] == "L": return self.path_type(k[1])
        if k[0] == "arg": return self.roots.get(k)
        if k[0] == "U": return k[2]
        if k[0] == "I" and len(k) == 5: return k[4]
        return self.symtype.get(k)
    def _ptype(self, path):
        if len(path) == 1:
            r = path[0]
            if r[0] == "A" or (r[0] == "a" and r[1][0] == "@"): return r[2]
            if r[0] == "*":
                t = self.val_type(r[1])
                return ptr_base(t) if t else None
            if r[0] == "a":
                f = self.p.funcs.get(r[1])
                if f: 
                    x = f.inst[r[2]][1]
                    m = re.match(r'%"?(?:class|struct)\.([^"]*?)"?$', x["aty"])
                    if m:
                        n = re.sub(r"\.\d+$", "", m.group(1))
                        return self.p._class_of_struct(n) or None
            return self.roots.get(r)
        t = self._ptype_parent(path)
        return t
    def _ptype_parent(self, path):
        pt = self.path_type(path[:-1]); c = path[-1]
        if pt is None: return None
        pt = strip(pt)
        if isinstance(c, tuple): return elem_type(pt)
        m = self.p.member(pt, c)
        return m[1]["type"] if m else None
    def copytree(self, st, d, s, x, ctx, fn, b):
        """copies of objects keep their pointers and flags"""
        t = self.path_type(s) or self.path_type(d)
        if not self.coarse or t is None: return super().copytree(st, d, s, x, ctx, fn, b)
        sib = [((), t)]
        n = x["o"][2][1] if x["op"] == "call" and x["f"].startswith("llvm.mem") and len(x["o"]) > 2 and x["o"][2][0] == "i" else None
        if n is not None and len(s) > 1 and strip(t) not in self.p.classes and isinstance(s[-1], str):
            pt = self.path_type(s[:-1])
            m0 = self.p.member(strip(pt), s[-1]) if pt else None
            if m0:
                ms = [m for m in self.p.classes[m0[0]].members if not m.get("static") and m["off"] is not None and m0[1]["off"] <= m["off"] < m0[1]["off"] + n]
                sib = [(m["name"], m["type"]) for m in ms] or sib
        for name, ty in sib:
            dd, ss = (d[:-1] + (name,), s[:-1] + (name,)) if name != () else (d, s)
            cells = list(self.scalars(ty, 0))
            vals = [(q, self.load(st, ss + q)) for q in cells]
            super().copytree(st, dd, ss, x, ctx, fn, b)
            for q, v in vals:
                if v is not None and dd + q not in st.mem: st.mem[dd + q] = v
    def scalars(self, ty, depth):
        """pointer and flag cells of a type"""
        t = strip(ty)
        if t.endswith("*") or t == "bool": yield ()
        elif t in self.p.classes and depth < 3:
            for c in self.p.base_chain(t):
                if c not in self.p.classes: continue
                for m in self.p.classes[c].members:
                    if not m.get("static"):
                        for q in self.scalars(m["type"], depth + 1): yield (m["name"],) + q
    def static_class(self, path):
        t = self.path_type(path)
        return strip(t) if t else None
    def default(self, st, path):
        for i in range(1, len(path)):
            t = self.path_type(path[:i])
            if t is None: continue
            iv = self.inv.get(strip(t))
            if iv is not None:
                v = iv.get(path[i:])
                if v is not None:
                    if v[0] == "self": return ("p", path[:i] + v[1])
                    if v[0] == "k" or v[0] == "t": return v
                    if v[0] == "nn":
                        s = super().default(st, path)
                        st.facts.setdefault(s, ("ne", frozenset([0])))
                        return s
        return super().default(st, path)

def this_state(fn, cls, prog, roots=None):
    """entry state and arguments for a method of cls: everything unknown"""
    st = State(); args = []; rts = {("this",): cls}
    rts.update(roots or {})
    for i, a in enumerate(fn.args):
        sh = sum(1 for b in fn.args[:i + 1] if b["sret"])
        k = i - sh + 1
        ty = fn.types[k] if 0 < k < len(fn.types) else None
        if a["sret"]: args.append(("p", (("ret",),))); rts[("ret",)] = strip(fn.ret)
        elif a["name"] == "this": args.append(("p", (("this",),)))
        elif ty and ty.endswith("&"):
            args.append(("p", (("arg", a["name"]),))); rts[("arg", a["name"])] = strip(ty[:-1])
        elif a["ty"] == "ptr" and a.get("byval"):
            args.append(("p", (("arg", a["name"]),))); rts[("arg", a["name"])] = strip(ty or "")
        elif a["ty"] == "ptr" and ty and not ty.endswith("*"):
            # class passed by hidden reference
            args.append(("p", (("arg", a["name"]),))); rts[("arg", a["name"])] = strip(ty)
        else:
            args.append(("s", ("arg", a["name"]))); rts[("arg", a["name"])] = ty
    return st, args, rts

def infer_invariants(prog, classes=None):
    """per class: {relative path: ('self', path) | ('nn',)} pointer members that always refer to
    another member of the same object / are never null, verified over every constructor and
    every member function (greatest fixpoint)."""
    inv = {}
    order = sorted(prog.classes)
    # candidate generation from constructors
    for c in order:
        fs = [f for f in prog.funcs.values() if f.cls == c]
        ctors = [f for f in fs if prog.is_ctor(f) and not prog.is_copy(f)]
        if not ctors: continue
        cand = None
        for f in ctors:
            st, args, rts = this_state(f, c, prog)
            e = Typed(prog, rts, {})
            e.dyn[(("this",),)] = c
            for v, t, s in e.run(f, args, st):
                cur = {}
                for q, v in s.mem.items():
                    if q[0] == ("this",) and v is not None and v[0] == "p":
                        if v[1][0] == ("this",): cur[q[1:]] = ("self", v[1][1:])
                        elif v[1][0][0] not in ("a", "g"): cur[q[1:]] = ("nn",)
                        elif v[1][0][0] == "g": pass
                if cand is None: cand = cur
                else: cand = {q: x for q, x in cand.items() if cur.get(q) == x}
        if cand: inv[c] = cand
    # verification
    changed = True; rounds = 0
    while changed:
        changed = False; rounds += 1
        if rounds > 12: raise AnalysisError("invariant inference does not converge")
        for c in list(inv):
            if not inv[c]: continue
            # every function of the class and its subclasses that can write to the object
            for k in prog.subclasses(c):
              for f in prog.funcs.values():
                if f.cls != k or not f.method or prog.is_dtor(f) or (prog.is_ctor(f) and not prog.is_copy(f)): continue
                m = prog.access_of(f)
                if m is not None and m["access"] != "public" : continue
                st, args, rts = this_state(f, k, prog)
                e = Typed(prog, rts, inv); e.dyn[(("this",),)] = k
                for v, t, s in e.run(f, args, st):
                    for q, x in list(inv[c].items()):
                        p = (("this",),) + q
                        ok = True
                        if prog.is_ctor(f) or p in s.mem:
                            v = e.load(s, p)
                            if x[0] == "self": ok = v == ("p", (("this",),) + x[1])
                            else: ok = v is not None and (v[0] == "p" or (v[0] == "s" and (s.facts.get(v) or ("",))[0] == "ne" and 0 in s.facts[v][1]))
                        if not ok: del inv[c][q]; changed = True
    return {c: i for c, i in inv.items() if i}

def pointer_paths(prog, cls, depth=2):
    """relative paths of the pointer members of cls, including those of members held by value"""
    out = []
    for c in prog.base_chain(cls):
        if c not in prog.classes: continue
        for m in prog.classes[c].members:
            t = strip(m["type"])
            if t.endswith("*"): out.append((m["name"],))
            elif depth > 1 and t in prog.classes:
                out += [(m["name"],) + q for q in pointer_paths(prog, t, depth - 1)]
    return out

def nonnull(e, s, path):
    v = e.load(s, path)
    if v is None: return False
    if v[0] in ("p", "it"): return True
    if v[0] == "s":
        f = s.facts.get(v)
        return f is not None and (f[0] == "ne" and 0 in f[1] or f[0] == "eq" and f[1] != 0)
    return v[0] == "k" and v[1] != 0
def isnull(e, s, path):
    v = e.load(s, path)
    if v is None: return False
    if v[0] in ("k", "t"): return v[1] == 0
    if v[0] == "s":
        f = s.facts.get(v)
        return f is not None and f[0] == "eq" and f[1] == 0
    return False

def ante(e, st, base, m):
    """the cell of antecedent m of the object at base; "->" follows a pointer"""
    if "->" not in m: return base + m
    i = m.index("->"); v = e.load(st, base + m[:i])
    if v is None or isnull(e, st, base + m[:i]): return None
    if v[0] == "p": return v[1] + m[i + 1:]
    if v[0] == "s": return (("*", v),) + m[i + 1:]
    return None
def holds(e, s, path):
    if path is None: return False
    return e.load(s, path) == ("t", 1) or nonnull(e, s, path)
def fails(e, s, path):
    if path is None: return True
    v = e.load(s, path)
    if v is not None and v[0] == "s":
        f = s.facts.get(v)
        if f is not None and f[0] == "ne" and 1 in f[1] and strip(e.path_type(path) or "") == "bool": return True
    return v == ("t", 0) or isnull(e, s, path)
def bool_paths(prog, cls, depth=2):
    for c in prog.base_chain(cls):
        if c not in prog.classes: continue
        for m in prog.classes[c].members:
            if m.get("static"): continue
            t = strip(m["type"])
            if t == "bool": yield (m["name"],)
            elif depth > 1 and t in prog.classes:
                for q in bool_paths(prog, t, depth - 1): yield (m["name"],) + q
def antecedents(prog, c, deep=False):
    """pointers and bools of the class, and bools of the objects its pointers refer to"""
    out = [q for q in pointer_paths(prog, c) if len(q) == 1] + [q for q in bool_paths(prog, c, 1)]
    for q in pointer_paths(prog, c, 1) if deep else ():
        m = prog.member(c, q[0])
        t = strip(ptr_base(m[1]["type"]) or "") if m else ""
        if t in prog.classes: out += [q + ("->",) + r for r in bool_paths(prog, t)]
    return out

def infer_conditions(prog, inv, make):
    """per class {q: [m, ...]}: pointer path q is never null while member m (pointer or flag) is set.
    Candidates come from the mutators; each is proved for constructors and every public member function
    that can write to it."""
    from ir import written_names, cache_flags
    wn = written_names(prog); flags = cache_flags(prog); cond = {}; pubs = {}
    def methods(c):
        if c not in pubs:
            pubs[c] = [f for f in prog.funcs.values() if f.cls == c and f.method and not prog.is_dtor(f) and
                       (prog.is_ctor(f) or (prog.access_of(f) or {"access": "public"})["access"] == "public")]
        return pubs[c]
    for c in sorted(prog.classes):
        pp = pointer_paths(prog, c)
        if len(pp) < 1: continue
        ants = antecedents(prog, c); bools = [m for m in ants if ("->" in m or prog.member(c, m[0])[1]["type"] == "bool") and not (c, m[-1]) in flags]
        cand = set()
        for f in methods(c):
            if prog.is_ctor(f) or not (wn[f.name] & {q[-1] for q in pp}): continue
            st, args, rts = this_state(f, c, prog)
            e = make(rts, inv, {}); e.dyn[(("this",),)] = c
            for a in args:
                if a[0] == "s" and (rts.get(a[1]) or "").endswith("*"): st.facts[a] = ("ne", frozenset([0]))
            for v, t, s in e.run(f, args, st):
                nn = [q for q in pp if (("this",),) + q in s.mem and nonnull(e, s, (("this",),) + q)]
                an = [m for m in ants if (("this",), m[0]) in s.mem and (not fails(e, s, ante(e, s, (("this",),), m)) if m in bools else holds(e, s, ante(e, s, (("this",),), m)))]
                cand |= {(m, q) for m in an for q in nn if m[:1] != q[:1]}
        if cand: cond[c] = cand
    while True:
        cur = {c: {q: [m for m, q2 in sorted(x) if q2 == q] for q in {q for _, q in x}} for c, x in cond.items()}
        changed = False
        for c in sorted(cond):
            names = {m[-1] for m, q in cond[c]} | {q[-1] for m, q in cond[c]}
            for k in prog.subclasses(c):
                for f in methods(k):
                    if not cond[c]: break
                    if not prog.is_ctor(f) and not (wn[f.name] & (names | {"*", "?"})): continue
                    st0, args, rts = this_state(f, k, prog)
                    e = make(rts, inv, cur); e.dyn[(("this",),)] = k
                    # pointer arguments: unset and set
                    sts = [st0]
                    for a in args:
                        if a[0] == "s" and (rts.get(a[1]) or "").endswith("*"):
                            nxt = []
                            for s0 in sts:
                                for fact in (("eq", 0), ("ne", frozenset([0]))):
                                    s1 = s0.copy(); s1.facts[a] = fact; nxt.append(s1)
                            sts = nxt
                    for s in [s for st in sts for v, t, s in e.run(f, args, st)]:
                        for m, q in list(cond[c]):
                            pm, pq = (("this",),) + m, (("this",),) + q
                            pc = pm
                            if "->" in m: pc = pm[:pm.index("->")]
                            if not prog.is_ctor(f) and pc not in s.mem and pq not in s.mem and e.ver(s, pc) is None and e.ver(s, pq) is None: continue
                            if fails(e, s, ante(e, s, (("this",),), m)) or nonnull(e, s, pq): continue
                            if pq not in s.mem and e.implied(s, pq, 2): continue
                            a, b = s.mem.get(pc), s.mem.get(pq)      # both copied from one object of the class, which keeps the condition
                            if a and b and a[0] == b[0] == "s" and a[1][0] == b[1][0] == "L" and a[1][2] == b[1][2] and \
                               a[1][1][1-len(pc):] == pc[1:] and b[1][1][-len(q):] == q and a[1][1][:1-len(pc)] == b[1][1][:-len(q)] and \
                               a[1][1][0][0] in ("arg", "*") : continue
                            cond[c].discard((m, q)); changed = True
        if not changed: return cur
