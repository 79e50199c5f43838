"""C06: copies own their storage, nothing refers to storage that ends with the call (see cache.py own_mode)."""
import os, multiprocessing, dfa, ir, cache

_p = None
def classes(p):
    return [c for c in sorted(p.classes) if "<" not in c and any(f.cls == c for f in p.funcs.values())]

def one(c):
    """exploration of one class; nothing when it and its embedded objects hold no pointer"""
    i = cache.info(_p, c)
    if not i.ptrs: return c, None
    e = cache.Engine(_p, i); e.own_mode = True
    e.explore()
    return c, dict(flags=i.flags, ptrs=sorted(i.ptrs), public=len(e.public), states=len(e.states), steps=e.steps, derived=set(i.derived),
                   dangling=[(l, t, f.name, path) for (l, t), (f, path) in sorted(e.dangling.items())],
                   selfptr={l: {t: f.name for t, f in d.items()} for l, d in e.selfptr.items()},
                   retlocal=sorted(e.retlocal.items()), copies=copy_results(c, e) if e.selfptr else {})

def copy_results(c, e):
    x = dict(selfptr={l: set(d) for l, d in e.selfptr.items()}, derived=set(e.i.derived))
    return {k: judge_copy(_p, c, g, x) for k, g in copies(_p, c).items()}

def results(p):
    global _p
    _p = p
    cs = classes(p)
    cs.sort(key=lambda c: -sum(len(p.classes[k].members) for k in p.base_chain(c) if k in p.classes) - 100 * c.startswith("LineCable"))
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return {c: x for c, x in pool.map(one, cs, chunksize=1) if x}


NEW = ("_Znwm", "_Znam"); DEL = ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")

def copies(p, c):
    """(copy constructor, copy assignment): Func, 'deleted', or None when the compiler generates it"""
    out = {}
    ms = p.classes[c].methods
    short = c.split("::")[-1].split("<")[0]
    for kind, nm in (("ctor", short), ("assign", "operator=")):
        out[kind] = None
        for m in ms:
            if m["name"] != nm or len(m["types"]) != 3 or m["types"][2].replace("const ", "").rstrip("&") != c or m["types"][2].endswith("&&"): continue
            if m.get("deleted"): out[kind] = "deleted"
    for f in p.funcs.values():
        if f.cls == c and p.is_copy(f) and not cache.implicit(p, f) and not f.types[2].endswith("&&"): out["assign" if p.is_assign(f) else "ctor"] = f
    if noncopy(p, c): out = {k: v or "deleted" for k, v in out.items()}
    return out
def noncopy(p, c, depth=0):
    """a member that cannot be copied makes the class not copyable"""
    for k in p.base_chain(c):
        for m in (p.classes[k].members if k in p.classes else ()):
            t = m["type"].replace("const ", "")
            if "unique_ptr<" in t and not t.endswith(("*", "&")): return True
            if t in p.classes and depth < 5 and (noncopy(p, t, depth + 1) or any(x.get("deleted") and x["name"] == t and len(x["types"]) == 3 for x in p.classes[t].methods)): return True
    return False

# ---- objects from operator new kept in a member
class Own:
    """states of an owning member: U never set, N null, V owned or null, D freed; '+': the object it owned before is only
    held by a local variable and still to be freed"""
    def __init__(self, p, cls, m): self.p = p; self.cls = cls; self.m = m; self.bad = []; self.memo = {}; self.n = 0; self.stack = []
    def isfield(self, f, o, who="this"):
        r, q = dfa.addr(f, o)
        return r == ("arg", who) and q == (self.m,)
    def value(self, f, o):
        """what a stored pointer is"""
        if o == ["n"] or o[0] == "n": return "null"
        d = dfa.defn(f, o)
        if d is None: return "arg"
        if d["op"] == "call" and d["f"] in NEW: return "new"
        if d["op"] == "load":
            r, q = dfa.addr(f, d["o"][0])
            if q and q[-1] == self.m and r != ("arg", "this"): return "other"
            if q == (self.m,) and r == ("arg", "this"): return "self"
        if d["op"] in ("phi", "select"):
            vs = {self.value(f, o2) for o2 in d["o"] if isinstance(o2, list) and not (d["op"] == "select" and o2 is d["o"][0])}
            return vs.pop() if len(vs) == 1 else "mixed"
        return "unknown"
    def err(self, f, x, what): 
        k = (f.short, what)
        if k not in {b[0] for b in self.bad}: self.bad.append((k, f.where(x), what))
    def run(self, f, s0):
        k = (f.name, s0)
        if k in self.memo: return self.memo[k]
        if f.name in self.stack or len(self.stack) > 10: return {s0}
        self.stack.append(f.name)
        out = set(); seen = set(); work = [(0, s0)]
        copy = next((a["name"] for a in f.args if a["name"] not in ("this",) and self.p.is_copy(f)), None)
        while work:
            b, s = work.pop()
            if (b, s) in seen: continue
            seen.add((b, s)); cur = {s}
            blk = f.blocks[b]; self.n += 1
            for x in blk:
                nxt = set()
                for s in cur:
                    if x["op"] == "store" and self.isfield(f, x["o"][1]):
                        v = self.value(f, x["o"][0])
                        if v == "self": nxt.add(s); continue
                        if s == "V" and self.held(f, x): pend = "+"
                        else:
                            pend = s[1:]
                            if s[0] == "V": self.err(f, x, "replaces %s without freeing the object it owns" % self.m)
                        if v == "null": nxt.add("N" + pend)
                        elif v == "new": nxt.add("V" + pend)
                        else:
                            if v == "other": self.err(f, x, "takes over %s of another object, which frees it too" % self.m)
                            elif v in ("arg", "unknown", "mixed"): self.err(f, x, "stores into the owning member %s a pointer it does not own" % self.m)
                            nxt.add("V" + pend)
                    elif x["op"] == "call" and x["f"] in DEL:
                        d = dfa.defn(f, x["o"][0])
                        if d is not None and d["op"] == "load" and self.isfield(f, d["o"][0]):
                            if s[1:]: nxt.add(s[0]); continue
                            if any(y["op"] == "store" and d["id"] < y["id"] < x["id"] and self.isfield(f, y["o"][1]) for bi, y in f.insts()): nxt.add(s); continue   # an earlier value, null here
                            if s == "D": self.err(f, x, "frees %s twice" % self.m)
                            if s == "U": self.err(f, x, "frees %s before it was set" % self.m)
                            nxt.add("D" if s in ("V", "D") else s)
                        else: nxt.add(s)
                    elif x["op"] == "call" and isinstance(x["f"], str) and x["f"].startswith("llvm.mem") and dfa.addr(f, x["o"][0])[0] == ("arg", "this") and dfa.addr(f, x["o"][0])[1] in ((), (self.m,)) and copy:
                        self.err(f, x, "copies %s byte for byte" % self.m); nxt.add("V")
                    elif x["op"] == "call" and x["o"] and dfa.is_ptr(f, x["o"][0]) and dfa.addr(f, x["o"][0]) == (("arg", "this"), ()) and isinstance(x["f"], str) and x["f"] in self.p.funcs and self.p.funcs[x["f"]].cls == self.cls:
                        nxt |= self.run(self.p.funcs[x["f"]], s)
                    elif s == "D" and x["op"] == "load" and self.isfield(f, x["o"][0]) and not self.onlytest(f, x):
                        self.err(f, x, "uses %s after freeing it" % self.m); nxt.add(s)
                    else: nxt.add(s)
                cur = nxt
                if x["op"] == "ret":
                    for s in cur:
                        if s[1:]: self.err(f, x, "replaces %s without freeing the object it owns" % self.m)
                    out |= {s[0] for s in cur}
            t = blk[-1] if blk else {"op": "unreachable"}
            if t["op"] in ("ret", "unreachable", "resume"): continue
            for s in cur:
                tg = f.succ[b]
                if t["op"] == "br" and t.get("o"):
                    c = dfa.defn(f, t["o"][0])
                    if c is not None and c["op"] == "icmp" and any(o[0] == "n" for o in c["o"]):
                        d = next((dfa.defn(f, o) for o in c["o"] if o[0] != "n"), None)
                        if d is not None and d["op"] == "load" and self.isfield(f, d["o"][0]) and s[1:]:
                            eq = t["t"][0] if c["p"] == "eq" else t["t"][1]
                            for z in t["t"]: work.append((z, s[0] if z == eq and t["t"][0] != t["t"][1] else s))
                            continue
                        if d is not None and d["op"] == "load" and self.isfield(f, d["o"][0]) and s == "V":
                            eq = t["t"][0] if c["p"] == "eq" else t["t"][1]
                            for z in t["t"]: work.append((z, "N" if z == eq and t["t"][0] != t["t"][1] else "V"))
                            continue
                        if d is not None and d["op"] == "load" and self.isfield(f, d["o"][0]) and s == "N":
                            work.append((t["t"][0] if c["p"] == "eq" else t["t"][1], "N")); continue
                for z in tg: work.append((z, s))
        self.stack.pop()
        self.memo[k] = out
        return out
    def held(self, f, x):
        """is the pointer about to be overwritten kept in a local variable that is freed afterwards"""
        for bi, y in f.insts():
            if y["op"] == "load" and self.isfield(f, y["o"][0]) and y["id"] < x["id"]:
                if any(u["op"] == "call" and u["f"] in DEL and u["id"] > x["id"] for b2, u in f.uses.get(y["id"], ())): return True
        return False
    def onlytest(self, f, x):
        return all(u["op"] == "icmp" or (u["op"] == "call" and (u["f"] in DEL or (isinstance(u["f"], str) and u["f"] in self.p.funcs and self.p.is_dtor(self.p.funcs[u["f"]])))) for bi, u in f.uses.get(x["id"], ()))

def owned(p):
    out = {}
    for f in p.funcs.values():
        for bi, x in f.insts():
            if x["op"] == "store":
                d = dfa.defn(f, x["o"][0])
                if d is not None and d["op"] == "call" and d["f"] in NEW:
                    r, q = dfa.addr(f, x["o"][1])
                    if r == ("arg", "this") and len(q) == 1 and f.cls: out.setdefault((f.cls, q[0]), []).append((f, x))
    return out

def loose(p):
    """operator new whose result is neither kept in a member nor freed on every path: [(f, new, exit)] and the number of news"""
    bad = []; n = 0
    for f in p.funcs.values():
        if not f.rel().startswith(("src/", "include/")): continue
        for bi, x in f.insts():
            if x["op"] != "call" or x["f"] not in NEW: continue
            n += 1
            def consumes(y):
                if y["op"] == "store" and y["o"][0] == ["v", x["id"]]: return True
                if y["op"] == "call" and y["f"] in DEL and y["o"][0] == ["v", x["id"]]: return True
                if y["op"] == "call" and any(o == ["v", x["id"]] for o in y["o"][1:]): return True
                return False
            seen = set(); work = [(bi, [k for k, y in enumerate(f.blocks[bi]) if y is x][0] + 1)]; leak = None
            while work and leak is None:
                b, i = work.pop()
                for y in f.blocks[b][i:]:
                    if consumes(y): break
                    if y["op"] == "ret": leak = y; break
                else:
                    if f.blocks[b] and f.blocks[b][-1]["op"] not in ("unreachable", "resume"):
                        for z in f.succ[b]:
                            if z not in seen: seen.add(z); work.append((z, 0))
            if leak is not None: bad.append((f, x, leak))
    return bad, n

def analyse(p, res, thorough):
    nown = 0
    for (c, m), sites in sorted(owned(p).items()):
        o = Own(p, c, m); cp = copies(p, c)
        mine = [f for f in p.funcs.values() if f.cls == c and not (p.is_copy(f) and cache.implicit(p, f))]
        for f in mine:
            acc = p.access_of(f)
            if p.is_dtor(f):
                if "V" in o.run(f, "V"): o.err(f, None, "destruction does not free %s" % m)
            elif p.is_ctor(f):
                r = o.run(f, "U")
                if "U" in r: o.err(f, None, "leaves %s unset" % m)
                if "D" in r: o.err(f, None, "returns with %s freed but still set" % m)
            elif acc is None or acc["access"] == "public" or p.is_assign(f):
                for s in ("V", "N"):
                    if "D" in o.run(f, s): o.err(f, None, "returns with %s freed but still set" % m)
            nown += 1
        if not any(p.is_dtor(f) for f in mine): o.bad.append(((c, "dtor"), "%s:%s" % (p.classes[c].file.replace(p.root + "/", ""), p.classes[c].line), "has no destructor that frees %s" % m))
        for k, name in (("ctor", "copy constructor"), ("assign", "copy assignment")):
            if cp[k] is None: o.bad.append(((c, k), "%s:%s" % (p.classes[c].file.replace(p.root + "/", ""), p.classes[c].line), "its compiler-generated %s shares %s between two objects that both free it" % (name, m)))
        res.oblige(len(mine) + 2 - len(o.bad), True)
        for key, where, what in o.bad:
            res.oblige(1, False)
            res.violate("own:%s:%s:%s" % (c, m, key[1] if key[0] == c else "%s %s" % key), where, "%s: %s" % (key[0], what))
        res.samples.append("%s::%s owns an object from operator new: %d functions followed" % (c, m, len(mine)))
    bad, n = loose(p)
    res.oblige(n - len(bad), True)
    for f, x, y in bad:
        res.oblige(1, False); res.violate("leak:%s" % f.short, f.where(x), "%s: the object created here is neither freed nor kept on a path to the return at %s" % (f.short, f.where(y)))
    # every delete frees something owned
    nd = 0
    own = set(owned(p))
    for f in p.funcs.values():
        if not f.rel().startswith(("src/", "include/")): continue
        for bi, x in f.insts():
            if x["op"] == "call" and x["f"] in DEL:
                nd += 1
                d = dfa.defn(f, x["o"][0]); ok = False
                if d is not None and d["op"] == "load":
                    r, q = dfa.addr(f, d["o"][0]); ok = r == ("arg", "this") and len(q) == 1 and (f.cls, q[0]) in own
                elif d is not None and d["op"] == "call" and d["f"] in NEW: ok = True
                elif f.dem.startswith(f.cls + "::~") and dfa.addr(f, x["o"][0]) == (("arg", "this"), ()): ok = True     # deleting destructor
                res.oblige(1, ok)
                if not ok: res.violate("free:%s" % f.short, f.where(x), "%s frees an object it does not own" % f.short)
    r = results(p)
    nptr = 0; nself = 0
    for c in sorted(r):
        x = r[c]; nptr += len(x["ptrs"])
        bad = {}
        for l, t, fn, path in x["dangling"]: bad.setdefault((l, t), (fn, path))
        res.oblige(len(x["ptrs"]) * x["public"] - len(bad), True)
        for (l, t), (fn, path) in sorted(bad.items()):
            f = p.funcs[fn]; res.oblige(1, False)
            what = "the local variable %s" % t[1] if t[0] == "&local" else "its reference parameter %s, which may be a temporary" % t[1]
            res.violate("dangling:%s:%s" % (c, ".".join(l)), f.where(), "%s returns with %s pointing to %s" % (f.short, ".".join(l), what), path=["reached by " + " -> ".join(path)])
        for fn, i in x["retlocal"]:
            f = p.funcs[fn]; res.oblige(1, False)
            res.violate("retlocal:%s" % f.short, f.where(i), "%s returns the address of a local variable" % f.short)
        if x["selfptr"]:
            nself += len(x["selfptr"])
            cp = copies(p, c)
            for k, name in (("ctor", "copy constructor"), ("assign", "copy assignment")):
                why = x["copies"][k]
                res.oblige(len(x["selfptr"]) - len(why), True)
                for l, w in sorted(why.items()):
                    res.oblige(1, False)
                    tgt = ".".join(sorted(x["selfptr"][l])[0]) or "the object itself"
                    where = cp[k].where() if isinstance(cp[k], ir.Func) else "%s:%s" % (p.classes[c].file.replace(p.root + "/", ""), p.classes[c].line)
                    res.violate("selfptr:%s:%s:%s" % (c, k, ".".join(l)), where, "%s: %s points to the object's own %s; %s" % (c, ".".join(l), tgt, w))
            res.samples.append("%s: %s point into the object itself" % (c, ", ".join(".".join(l) for l in sorted(x["selfptr"]))))
    res.coverage.update({"classes_with_pointers": len(r), "pointer_cells": nptr, "self_pointing_cells": nself, "object_states": sum(x["states"] for x in r.values()), "block_evaluations": sum(x["steps"] for x in r.values()), "owning_members": len(own), "functions_of_owners": nown, "new_expressions": n, "delete_expressions": nd})

def judge_copy(p, c, g, x):
    """self-pointing cells that a copy leaves pointing into the original: {cell: reason}"""
    if g == "deleted": return {}
    if g is None: return {l: "the compiler-generated copy leaves it pointing into the original" for l in x["selfptr"]}
    i = cache.info(p, c)
    e = cache.Engine(p, i); e.own_mode = True
    out = {}
    starts = [()]
    for k in range(len(i.flags)): starts = [s + (v,) for s in starts for v in (0, 1)]
    e.inctor = p.is_ctor(g)
    for fl in ([(0,) * len(i.flags)] if p.is_ctor(g) else starts):
        for st, v, am in e.run(g, cache.St(fl, 0, (), {}), e.pubargs(g), (0, 0)):
            for l in x["selfptr"]:
                n = i.leaves.index(l)
                if l in x["derived"]:
                    if i.flags and not any(st.flags): continue         # recomputed, and with it the pointer, before it is used
                    pt = st.cells.get(n, cache.ZERO)[2]
                else: pt = st.cells.get(("p", n), cache.ZERO)[2]
                if pt and all(z and z != ("*",) and not z[0].startswith("&") for z in pt): continue
                out[l] = "after %s the copy may use the pointer of the original" % g.short
    return out
