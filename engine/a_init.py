"""C07: every constructor gives every scalar member a defined value, and nothing reads a member or local before that.

Forward must-assignment dataflow per constructor over the member paths of *this (nested members through their own
constructors' summaries, helpers through theirs), meet = intersection over paths; upward-exposed reads are tracked the
same way. Local records without a constructor and scalar locals (undef reaching a use in SSA form) are checked too."""
import re, ir, dfa, facts

SCALAR = re.compile(r"^(?:const )?(?:(?:unsigned |signed )?(?:int|long|short|char|long long)|unsigned|double|float|bool|_Bool|long int|long unsigned int|unsigned int|unsigned long|unsigned char|enum .*|.*\*|.*&)(?:\[\])?$")
SIZE = {"double": 8, "int": 4, "bool": 1, "_Bool": 1}

class Leaves:
    def __init__(self, p): self.p = p; self.memo = {}
    def of(self, cls):
        """{path: byte offset} of the scalar leaves of cls, base subobjects included"""
        if cls in self.memo: return self.memo[cls]
        out = self.memo[cls] = {}
        c = self.p.classes.get(cls)
        if c is None: return out
        for b in c.bases:
            for q, o in self.of(b).items(): out[q] = o        # single inheritance: base at offset 0
        for m in c.members:
            if m["name"].startswith("_vptr"): continue
            t = m["type"].replace("const ", "") if not m["type"].endswith("*") else m["type"]
            if t in self.p.classes:
                for q, o in self.of(t).items(): out[(m["name"],) + q] = m["off"] + o
            elif SCALAR.match(m["type"]): out[(m["name"],)] = m["off"]
        return out
    def offset(self, cls, path):
        off = 0
        for k in path:
            mm = self.p.member(cls, k)
            if mm is None: return None
            off += mm[1]["off"]; cls = mm[1]["type"].replace("const ", "")
        return off

class Init:
    def __init__(self, p):
        self.p = p; self.lv = Leaves(p); self.memo = {}; self.prog = set(); self.applied = 0
    def cls_of_param(self, f, name):
        if name == "this": return f.cls
        t = dfa.argtype(f, name) or ""
        t = t.replace("const ", "").rstrip("&*")
        return t
    def summary(self, f, name):
        """(paths assigned on every return, paths possibly read before assignment) relative to pointer parameter name"""
        k = (f.name, name)
        if k in self.memo: return self.memo[k]
        if k in self.prog: return frozenset(), {}
        self.prog.add(k)
        r = self.flow(f, ("arg", name), self.cls_of_param(f, name))
        self.prog.discard(k); self.memo[k] = r
        return r
    def under(self, cls, path):
        lv = self.lv.of(cls); n = len(path)
        return {q for q in lv if q[:n] == path}
    def flow(self, f, root, cls, trace=None):
        lv = self.lv.of(cls)
        reads = {}
        IN = {0: frozenset()}; work = [0]; OUT = {}
        top = None
        n = 0
        while work:
            b = work.pop(0); n += 1
            if n > 20000: break
            A = set(IN[b])
            for x in f.blocks[b]: self.step(f, x, root, cls, lv, A, None)
            A = frozenset(A)
            if OUT.get(b) == A: continue
            OUT[b] = A
            for s in f.succ[b]:
                if s not in IN: IN[s] = A; work.append(s)
                else:
                    m = IN[s] & A
                    if m != IN[s]: IN[s] = m; work.append(s)
        res = None
        for b in f.rpo:
            if b not in IN: continue
            A = set(IN[b])
            for x in f.blocks[b]: self.step(f, x, root, cls, lv, A, reads)
            if f.blocks[b] and f.blocks[b][-1]["op"] == "ret": res = frozenset(A) if res is None else res & frozenset(A)
        return (res if res is not None else frozenset(lv)), reads
    def step(self, f, x, root, cls, lv, A, reads):
        op = x["op"]
        def read(q):
            if reads is None: return
            for l in self.under(cls, q):
                if l not in A: reads.setdefault(l, f.where(x))
        if op == "store":
            r, q = dfa.addr(f, x["o"][1])
            if r == root: A |= self.under(cls, q)
        elif op == "load":
            r, q = dfa.addr(f, x["o"][0])
            if r == root and q in lv: read(q)
        elif op == "call":
            n = x["f"]
            if not isinstance(n, str): return
            self.applied += 1
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                if not n.startswith("llvm.memset"):
                    r, q = dfa.addr(f, x["o"][1])
                    if r == root: 
                        for l in self.covered(cls, q, x["o"][2]): read(l)
                r, q = dfa.addr(f, x["o"][0])
                if r == root: A |= self.covered(cls, q, x["o"][2])
                return
            g = self.p.funcs.get(n)
            for i, o in enumerate(x["o"]):
                r, q = dfa.addr(f, o) if dfa.is_ptr(f, o) else (None, None)
                if r != root: continue
                if g is not None and i < len(g.args):
                    if g.args[i].get("sret"): A |= self.under(cls, q); continue
                    asg, rd = self.summary(g, g.args[i]["name"])
                    if reads is not None:
                        for l, w in rd.items():
                            if q + l in lv and q + l not in A: reads.setdefault(q + l, f.where(x) + " -> " + w)
                    A |= {q + l for l in asg if q + l in lv}
                elif g is None and i == 0 and x.get("sret"): A |= self.under(cls, q)
                elif q in lv and g is None:
                    pass
    def covered(self, cls, q, szop):
        u = self.under(cls, q)
        if szop[0] != "i": return u
        lv = self.lv.of(cls); base = self.lv.offset(cls, q)
        if base is None: return u
        return {l for l, o in lv.items() if base <= o < base + szop[1]}

def analyse(p, res, thorough):
    I = Init(p)
    nct = nm = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.cls not in p.classes or not p.is_ctor(f): continue
        nct += 1
        asg, reads = I.summary(f, "this")
        lv = I.lv.of(f.cls); nm += len(lv)
        for l in sorted(lv):
            ok = l in asg
            res.oblige(1, ok)
            if not ok:
                res.violate("uninit:%s:%s" % (f.short if not p.is_copy(f) else f.short + "(copy)", ".".join(l)), f.where(),
                            "constructor %s leaves %s without a value" % (f.dem, ".".join(l)))
        res.oblige(1, not reads)
        for l, w in sorted(reads.items()):
            res.violate("readfirst:%s:%s" % (f.short, ".".join(l)), w, "constructor %s reads %s before giving it a value" % (f.dem, ".".join(l)))
    # classes that rely on the compiler's constructor
    havector = {f.cls for f in p.funcs.values() if p.is_ctor(f) and not p.is_copy(f)}
    for n, c in sorted(p.classes.items()):
        own = [m for m in c.methods if m["name"] == n.split("::")[-1].split("<")[0] and not m["artificial"]]
        if n in havector or own: continue
        lv = I.lv.of(n)
        if not lv: continue
        # the library never creates one: compile (not run) a definition to see what the compiler's constructor does
        hdr = c.file.split("/include/", 1)[-1]
        mini = facts.probe(p.root, '#include "%s"\n%s* verif_probe() { return new %s; }\n' % (hdr, n, n))
        q = ir.Program(mini, 0)
        J = Init(q); done = set()
        for g in q.funcs.values():
            if g.cls == n and q.is_ctor(g) and not q.is_copy(g): done, _ = J.summary(g, "this")
        bad = sorted(l for l in lv if l not in done)
        w = "%s:%d" % (c.file[len(p.root) + 1:], c.line)
        res.oblige(1, not bad)
        if bad: res.violate("implicit:%s" % n, w, "%s has no constructor: a new one has indeterminate %s" % (n, ", ".join(".".join(l) for l in bad)))
    # local records: everything read or copied was assigned first
    nloc = 0
    for f in p.funcs.values():
        if not f.file.startswith(p.root): continue
        for bi, x in f.insts():
            if x["op"] == "alloca":
                m = re.match(r'%"?(?:class|struct)\.([^"]+?)"?$', x["aty"])
                if not m: continue
                c = p._class_of_struct(re.sub(r"\.\d+$", "", m.group(1)))
                if c is None or not I.lv.of(c): continue
                nloc += 1
                asg, reads = I.flow(f, ("alloca", x["id"]), c)
                res.oblige(1, not reads)
                for l, w in sorted(reads.items()):
                    res.violate("local:%s:%s.%s" % (f.short, c, ".".join(l)), w, "%s uses %s of its local %s before giving it a value" % (f.short, ".".join(l), c))
            elif x["op"] == "phi" and x["id"] in f.vars and any(o[0] == "u" for o in x["o"]):
                u = uses_value(f, x)
                res.oblige(1, u is None)
                if u is not None:
                    nm_ = f.vars.get(x["id"], ("value",))[0]
                    res.violate("undef:%s:%s" % (f.short, nm_), f.where(u), "%s may use the local %s before it is assigned" % (f.short, nm_))
            elif x["op"] in ("store", "ret", "fcmp", "icmp", "fadd", "fsub", "fmul", "fdiv", "br", "switch", "fneg", "add", "sub", "mul") and any(isinstance(o, list) and o and o[0] == "u" for o in x.get("o", ())):
                res.oblige(1, False)
                res.violate("undef:%s:%s" % (f.short, x["op"]), f.where(x), "%s uses a local that was never assigned" % f.short)
    res.coverage.update({"constructors": nct, "member_obligations": nm, "local_records": nloc, "calls_summarised": I.applied})
    res.samples += ["%s: %d scalar members assigned on every path" % (f.dem, len(I.lv.of(f.cls))) for f in list(p.funcs.values()) if p.is_ctor(f) and f.cls in p.classes][:10]

def uses_value(f, phi):
    """a real use of a phi that may carry an unassigned local, unless the use is guarded by a flag merged at the same points"""
    seen = set(); st = [phi["id"]]
    flags = set()
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        bi = f.inst[v][0]
        for y in f.blocks[bi]:
            if y["op"] == "phi" and y["id"] != v: flags.add(y["id"])
        for b, u in f.uses.get(v, ()):
            if u["op"] == "phi": st.append(u["id"]); continue
            if u["op"] == "switch": continue
            guarded = False
            for c in f.cdep.get(b, ()):
                t = f.blocks[c][-1]
                if t["op"] in ("br", "switch") and t.get("o"):
                    for k, e in dfa.slice_back(f, t["o"][0]):
                        if k == "inst" and e["id"] in flags: guarded = True
            if not guarded: return u
    return None
