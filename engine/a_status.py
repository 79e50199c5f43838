"""C18: a failing step fails the whole computation.

For every call of a step (a repository function that returns a bool status and has an effect, or a validation made by
a computation) the caller is evaluated forward from the call under 'the status is false': conditional constant
propagation over the edges executable from there, with store-to-load forwarding of flags. Every return reachable must
give the caller's failure answer, and the failure may not be dropped unread."""
import re, ir, dfa
from a_enum import ERR, is_validator

MUT = re.compile(r"^(push_back|emplace_back|clear|insert|erase|resize|assign|operator=|pop_back|splice|remove|sort|swap)$")

def impure(p):
    """functions with an effect outside their own frame"""
    c = getattr(p, "_impure", None)
    if c is not None: return c
    imp = set()
    for f in p.funcs.values():
        for bi, x in f.insts():
            if x["op"] == "store" and dfa.addr(f, x["o"][1])[0][0] not in ("alloca",):
                r = dfa.addr(f, x["o"][1])[0]
                if r[0] == "arg" and any(a["name"] == r[1] and a.get("sret") for a in f.args): continue
                imp.add(f.name); break
            if x["op"] == "call" and isinstance(x["f"], str) and x["f"] not in p.funcs and x["o"] and MUT.match(dfa.base(p, x).split("::")[-1]):
                if dfa.addr(f, x["o"][0])[0][0] not in ("alloca", "arg") or (dfa.addr(f, x["o"][0])[0] == ("arg", "this")): imp.add(f.name); break
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.name in imp: continue
            for bi, x in f.insts():
                if x["op"] != "call": continue
                for n in dfa.callees(p, f, x):
                    if n in imp and not p.is_ctor(p.funcs[n]) and not p.is_dtor(p.funcs[n]):
                        if p.funcs[n].args and p.funcs[n].args[0]["name"] == "this" and dfa.addr(f, x["o"][0])[0][0] == "alloca": continue
                        imp.add(f.name); ch = True; break
                if f.name in imp: break
    p._impure = imp
    return imp

BOT = object()
def join(a, b):
    if a is BOT: return b
    if b is BOT: return a
    return a if a == b and type(a) == type(b) else None

class Forward:
    """values are numbers, None = unknown, BOT = not reached; memory facts: {(root, path): value}"""
    def __init__(self, p, f, call, value, edges=None, val=None, mem=None, within=None):
        """from the instruction 'call' having the given value, or from the given edges with known values and memory"""
        self.p, self.f, self.call, self.value = p, f, call, value
        self.val = dict(val or {})
        self.edges = set(); self.taken = set(); self.inb = {}; self.ret = []; self.blocks = set(); self.visited = set(); self.within = within
        b0 = None
        if edges is None:
            self.val[call["id"]] = value
            b0 = f.inst[call["id"]][0]
            i0 = f.blocks[b0].index(call)
            work = self.block(b0, i0 + 1, dict(mem or {}))
        else: work = [(b, dict(mem or {}), a) for a, b in edges]
        n = 0
        while work and n < 5000:
            n += 1
            b, mem, frm = work.pop(0)
            e = (frm, b)
            if within is not None and b not in within: self.edges.add(e); continue
            old = self.inb.get(b)
            new = mem if old is None else {k: v for k, v in old.items() if k in mem and mem[k] == v}
            ch = old is None or new != old or e not in self.edges or self.changed
            self.edges.add(e)
            if not ch: continue
            self.inb[b] = new; self.changed = False
            if b0 is not None and b == b0 and self.val.get(call["id"]) is not None: self.val[call["id"]] = None
            work += self.block(b, 0, dict(new))
    changed = False

    def setv(self, i, v):
        old = self.val.get(i, BOT)
        nv = join(old, v)
        if i not in self.val or nv != old:
            self.val[i] = nv; self.changed = True

    def ev(self, o):
        if o[0] == "i": return o[1]
        if o[0] in ("f", "d"): return float(o[1])
        if o[0] == "v": return self.val.get(o[1])
        return None

    def block(self, b, i, mem):
        f, p = self.f, self.p
        self.blocks.add(b)
        for x in f.blocks[b][i:]:
            self.visited.add(x["id"])
            op = x["op"]
            if op == "phi":
                v = BOT
                for o, pb in zip(x["o"], x["in"]):
                    if (pb, b) in self.edges: v = join(v, self.ev(o))
                if v is not BOT: self.setv(x["id"], v)
            elif op == "icmp":
                a, c = self.ev(x["o"][0]), self.ev(x["o"][1])
                self.setv(x["id"], None if a is None or c is None else int({"eq": a == c, "ne": a != c, "slt": a < c, "sle": a <= c, "sgt": a > c, "sge": a >= c, "ult": a < c, "ule": a <= c, "ugt": a > c, "uge": a >= c}[x["p"]]))
            elif op in ("zext", "trunc", "freeze", "sext"): self.setv(x["id"], self.ev(x["o"][0]))
            elif op == "xor":
                a, c = self.ev(x["o"][0]), self.ev(x["o"][1])
                self.setv(x["id"], None if a is None or c is None else (int(a) ^ int(c)) & 1)
            elif op in ("and", "or"):
                a, c = self.ev(x["o"][0]), self.ev(x["o"][1])
                z = 0 if op == "and" else 1
                self.setv(x["id"], z if z in (a, c) and (a is not None or c is not None) and (a == z or c == z) else (None if a is None or c is None else a & c if op == "and" else a | c))
            elif op == "select":
                c = self.ev(x["o"][0])
                self.setv(x["id"], self.ev(x["o"][1 if c else 2]) if c is not None else join(self.ev(x["o"][1]), self.ev(x["o"][2])))
            elif op == "store":
                r, q = dfa.addr(f, x["o"][1])
                v = self.ev(x["o"][0])
                mem.pop((r, q), None)
                if r[0] in ("arg", "alloca") and "[]" not in q and v is not None: mem[(r, q)] = v
            elif op == "load":
                self.setv(x["id"], mem.get(dfa.addr(f, x["o"][0])))
            elif op in ("add", "sub", "mul") and x["ty"][:1] == "i":
                a, c = self.ev(x["o"][0]), self.ev(x["o"][1])
                self.setv(x["id"], None if a is None or c is None else {"add": a + c, "sub": a - c, "mul": a * c}[op])
            elif op == "sitofp":
                a = self.ev(x["o"][0]); self.setv(x["id"], None if a is None else float(a))
            elif op == "call" and x is not self.call:
                mem = self.kill(x, mem)
                self.setv(x["id"], None)
            elif op == "call":
                mem = self.kill(x, mem)
            elif op == "ret":
                self.ret.append(x)
        t = f.blocks[b][-1]; tg = f.succ[b]
        if t["op"] == "br" and t.get("o"):
            c = self.ev(t["o"][0])
            if c is not None: tg = [t["t"][0] if c else t["t"][1]]
        elif t["op"] == "switch":
            c = self.ev(t["o"][0])
            if c is not None: tg = [next((d for k, d in t["cases"] if k == c), t["def"])]
        self.taken |= {(b, s) for s in tg}
        return [(s, mem, b) for s in tg]

    def kill(self, x, mem):
        p, f = self.p, self.f
        if not mem: return mem
        hit = set()
        for o in x["o"]:
            if dfa.is_ptr(f, o):
                r, q = dfa.addr(f, o)
                hit.add((r, q))
        g = [p.funcs[n] for n in dfa.callees(p, f, x)]
        out = {}
        for (r, q), v in mem.items():
            gone = False
            for (r2, q2) in hit:
                if r2 == r and (q[:len(q2)] == q2):
                    # the callee is given an object containing the flag: gone unless it cannot write that flag
                    if not (g and r == ("arg", "this") and q2 == () and all(not writes(p, h, q[0]) for h in g)): gone = True
            if not gone: out[(r, q)] = v
        return out

def writes(p, f, m, seen=None):
    """may f (called on this) write member m of this, directly or through members of the same object"""
    cache = p.__dict__.setdefault("_wr", {})
    if (f.name, m) in cache: return cache[f.name, m]
    cache[f.name, m] = False
    r = False
    for bi, x in f.insts():
        if x["op"] == "store":
            a, q = dfa.addr(f, x["o"][1])
            if a == ("arg", "this") and q and q[0] == m: r = True
        elif x["op"] == "call":
            for o, k in zip(x["o"], range(99)):
                if not dfa.is_ptr(f, o): continue
                a, q = dfa.addr(f, o)
                if a != ("arg", "this"): continue
                if q and q[0] == m: r = True
                if not q:
                    cs = dfa.callees(p, f, x)
                    if not cs and not (isinstance(x["f"], str) and x["f"].startswith("llvm.")): r = r or k == 0
                    for n in cs:
                        if writes(p, p.funcs[n], m): r = True
        if r: break
    cache[f.name, m] = r
    return r

def failing(p, f, fw):
    """None if every return reachable gives the failure answer; else (why, instruction)"""
    sret = next((a for a in f.args if a.get("sret")), None)
    if sret is not None or f.ret == "void":
        for b in sorted(fw.blocks):
            for x in f.blocks[b]:
                if x["id"] not in fw.visited or x["id"] == fw.call["id"]: continue
                if x["op"] == "store":
                    r, q = dfa.addr(f, x["o"][1])
                    if (sret and r == ("arg", sret["name"])) or (not sret and r == ("arg", "this")): return ("goes on to store a result", x)
                if x["op"] == "call":
                    gs = [p.funcs[n] for n in dfa.callees(p, f, x)]
                    if any(p.is_dtor(g) for g in gs): continue
                    if any(p.is_ctor(g) and len(g.args) == 1 for g in gs): continue
                    for k, o in enumerate(x["o"]):
                        if not dfa.is_ptr(f, o): continue
                        r, q = dfa.addr(f, o)
                        base = dfa.base(p, x).split("::")[-1]
                        if sret and r == ("arg", sret["name"]) and (any((not g.const) for g in gs) and k == 0 or (not gs and MUT.match(base))): return ("goes on to fill the result", x)
                        if not sret and r == ("arg", "this") and k == 0 and (any(not g.const for g in gs) or (not gs and MUT.match(base) and q)): return ("goes on to modify the object", x)
        return None
    ret = f.ret.replace("const ", "")
    want = ERR.get(ret)
    if want is None and f.ret.endswith("*"): want = (0,)
    if want is None and f.ret.startswith("enum "): want = (0,)
    if want is None: return None
    seen = set()
    for r in fw.ret:
        if not r["o"] or r["id"] in seen: continue
        seen.add(r["id"])
        o = r["o"][0]
        if f.ret.endswith("*"):
            if o[0] == "n": continue
            x = dfa.defn(f, o)
            if x is not None and x["op"] == "phi":
                for a, pb in zip(x["o"], x["in"]):
                    if (pb, f.inst[x["id"]][0]) in fw.edges and a[0] != "n": return ("still returns a result", r)
                continue
            return ("still returns a result", r)
        v = fw.ev(o)
        if v is None: return ("can still answer with a computed value", r)
        if v not in want: return ("answers %s" % v, r)
    return None

def never_fails(p):
    """steps whose every return is true, or the status of a step that never fails"""
    good = {f.name for f in p.funcs.values() if f.ret == "bool"}
    def okv(f, o, seen):
        if o[0] == "i": return o[1] == 1
        x = dfa.defn(f, o)
        if x is None or x["id"] in seen: return x is not None
        seen.add(x["id"])
        if x["op"] in ("phi",): return all(okv(f, a, seen) for a in x["o"])
        if x["op"] == "select": return okv(f, x["o"][1], seen) and okv(f, x["o"][2], seen)
        if x["op"] in ("zext", "trunc", "freeze"): return okv(f, x["o"][0], seen)
        if x["op"] == "call":
            cs = dfa.callees(p, f, x)
            return bool(cs) and all(c in good for c in cs)
        return False
    ch = True
    while ch:
        ch = False
        for n in sorted(good):
            f = p.funcs[n]
            if not all(okv(f, x["o"][0], set()) for bi, x in f.insts() if x["op"] == "ret"):
                good.discard(n); ch = True
    return good

def analyse(p, res, thorough):
    sure = never_fails(p)
    imp = impure(p)
    steps = {f.name for f in p.funcs.values() if f.ret == "bool" and f.file.startswith(p.root) and (f.name in imp or is_validator(f))}
    ncall = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.file.startswith(p.root): continue
        fv = is_validator(f)
        for bi, x in f.insts():
            if x["op"] != "call": continue
            cs = [n for n in dfa.callees(p, f, x) if n in steps]
            if not cs: continue
            g = p.funcs[cs[0]]
            if is_validator(g) and fv: continue      # nested validation: C04
            if is_validator(g) and f.ret == "void": continue  # used as a test by a modifier
            if not g.const and not f.const and not is_validator(g): continue  # modifiers of a modifier: C14
            ncall += 1
            if all(n in sure for n in cs): res.oblige(); continue
            key = "%s->%s" % (f.short, g.short)
            used = f.uses.get(x["id"])
            if not used:
                res.oblige(1, False)
                res.violate("dropped:" + key, f.where(x), "%s ignores the status of %s" % (f.short, g.short)); continue
            fw = Forward(p, f, x, 0)
            bad = failing(p, f, fw)
            res.oblige(1, bad is None)
            if bad: res.violate("continues:" + key, f.where(x), "%s: when %s fails, it %s (line %s)" % (f.short, g.short, bad[0], bad[1].get("l")))
            elif len(res.samples) < 12: res.samples.append("%s at %s" % (key, f.where(x)))
    res.coverage.update({"steps": len(steps), "step_calls": ncall})
