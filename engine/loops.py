"""Ranking arguments for loops: a counter or iterator that moves one way on every round, tested on every round
against a bound that is fixed while the loop runs."""
import re, ir, dfa
from a_status import Forward, writes
INF = float("inf")
GROW = re.compile(r"^(push_back|push_front|emplace\w*|insert|resize|assign|operator=|splice|merge|swap|append|operator\+=|reserve)$")
ITER = re.compile(r"_iterator")
PURE_IT = re.compile(r"^(operator(!=|==|\*|->|-|<|>|<=|>=|\+)|base|\w*_const_cast\w*)$")

def params(dem):
    """parameter types of a demangled signature"""
    i = dem.find("("); 
    if dem.startswith("operator()") or "operator()(" in dem: i = dem.find("(", dem.find("operator()") + 10)
    s = dem[i + 1:dem.rfind(")")]
    out = []; d = 0; cur = ""
    for c in s:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def last(p, x): return re.sub(r"^.*::", "", dfa.base(p, x)) if "operator" not in dfa.base(p, x) else dfa.base(p, x)[dfa.base(p, x).rfind("operator"):]

def constarg(p, f, x, k):
    """is argument k of the call passed so that the callee may not change it"""
    n = x["f"]
    if not isinstance(n, str): return False
    if n in p.funcs:
        g = p.funcs[n]; a = g.args[k] if k < len(g.args) else None
        if a is None: return False
        if a["name"] == "this": return g.const
        t = dfa.argtype(g, a["name"]) or ""
        return "const" in t
    d = p.decl.get(n)
    if d is None: return n.startswith("llvm.lifetime") or n.startswith("llvm.dbg")
    dem = d["dem"]; ps = params(dem)
    meth = len(x["o"]) == len(ps) + 1
    if meth and k == 0: return dem.rstrip().endswith("const")
    i = k - (1 if meth else 0)
    return i < len(ps) and "const&" in ps[i].replace(" &", "&")

class Deltas:
    def __init__(self, p, f, h, body):
        self.p, self.f, self.h, self.body = p, f, h, body
        self.keys()
        self.solve()

    def keys(self):
        f = self.f; self.phis = [x for x in f.blocks[self.h] if x["op"] == "phi" and x["ty"][:1] in "id"]
        self.mem = set(); self.iters = {}
        for b in self.body:
            for x in f.blocks[b]:
                if x["op"] == "store":
                    r, q = dfa.addr(f, x["o"][1])
                    if r[0] in ("alloca", "arg") and "[]" not in q: self.mem.add((r, q))
                if x["op"] == "call" and x["o"] and dfa.is_ptr(f, x["o"][0]):
                    r, q = dfa.addr(f, x["o"][0])
                    if r[0] == "alloca" and not q:
                        t = f.inst[r[1]][1].get("aty", "")
                        if ITER.search(t): self.iters[r] = t

    def val(self, o, vals):
        if o[0] != "v": return None
        return vals.get(o[1])

    def solve(self):
        f = self.f; body = self.body
        self.vals = {}; ins = {self.h: {k: (0, 0) for k in list(self.mem) + [("it", r) for r in self.iters]}}
        self.latch = {}; cnt = {}
        work = [self.h]; n = 0
        self.at = {}
        while work and n < 3000:
            n += 1
            b = work.pop(0)
            st = dict(ins[b])
            cnt[b] = cnt.get(b, 0) + 1
            st = self.block(b, st)
            for s in f.succ[b]:
                if s == self.h: self.latch[b] = (dict(st)); continue
                if s not in body: continue
                old = ins.get(s)
                if old is None: ins[s] = dict(st); work.append(s); continue
                new = {}
                for k in st:
                    a, c = old[k], st[k]
                    lo, hi = min(a[0], c[0]), max(a[1], c[1])
                    if cnt.get(s, 0) > 8:
                        if lo < a[0]: lo = -INF
                        if hi > a[1]: hi = INF
                    new[k] = (lo, hi)
                if new != old or self.changed:
                    ins[s] = new
                    if s not in work: work.append(s)
        self.ins = ins
    changed = False

    def setv(self, i, v):
        old = self.vals.get(i, "none")
        if old == "none": self.vals[i] = v; self.changed = True; return
        if old is None or v is None or old[0] != v[0]: nv = None
        else: nv = (old[0], (min(old[1][0], v[1][0]), max(old[1][1], v[1][1])))
        if nv != old:
            self.n = getattr(self, "n", {}); self.n[i] = self.n.get(i, 0) + 1
            if self.n[i] > 12 and nv is not None: nv = (nv[0], (-INF if nv[1][0] < old[1][0] else nv[1][0], INF if nv[1][1] > old[1][1] else nv[1][1]))
            self.vals[i] = nv; self.changed = True

    def block(self, b, st):
        f, p, vals = self.f, self.p, self.vals
        self.changed = False; self.b = b
        for x in f.blocks[b]:
            op = x["op"]
            if op == "phi":
                if b == self.h:
                    if x in self.phis: vals[x["id"]] = (("phi", x["id"]), (0, 0))
                    continue
                vs = [self.val(o, vals) if o[0] == "v" else None for o, pb in zip(x["o"], x["in"]) if pb in self.ins_seen(pb)]
                if vs and all(v is not None and v[0] == vs[0][0] for v in vs):
                    self.setv(x["id"], (vs[0][0], (min(v[1][0] for v in vs), max(v[1][1] for v in vs))))
            elif op in ("add", "sub", "fadd", "fsub"):
                a, c = x["o"]
                va = self.val(a, vals)
                k = None
                if c[0] in ("i", "f", "d"): k = float(c[1]) if c[0] != "i" else c[1]
                if va is None and op in ("add", "fadd") and a[0] in ("i", "f", "d"):
                    va = self.val(c, vals); k = float(a[1]) if a[0] != "i" else a[1]
                if va is not None and k is not None:
                    if op in ("sub", "fsub"): k = -k
                    self.setv(x["id"], (va[0], (va[1][0] + k, va[1][1] + k)))
            elif op in ("sext", "zext", "trunc", "freeze", "sitofp", "uitofp"):
                va = self.val(x["o"][0], vals)
                if va is not None: self.setv(x["id"], va)
            elif op == "select":
                vs = [self.val(o, vals) for o in x["o"][1:]]
                if all(v is not None and v[0] == vs[0][0] for v in vs): self.setv(x["id"], (vs[0][0], (min(v[1][0] for v in vs), max(v[1][1] for v in vs))))
            elif op == "load":
                k = dfa.addr(f, x["o"][0])
                if k in st: self.setv(x["id"], (k, st[k]))
            elif op == "store":
                k = dfa.addr(f, x["o"][1])
                v = self.val(x["o"][0], vals)
                for m in list(st):
                    if m == k: st[m] = v[1] if v is not None and v[0] == k else (-INF, INF)
                    elif m[0] == "it" and m[1] == k[0]:
                        st[m] = self.assigned(x["o"][0], m, st)
            elif op == "call":
                self.call(x, st)
        return st

    def ins_seen(self, pb): return (pb,) if pb in self.body else ()

    def assigned(self, o, m, st):
        """iterator given a new value: the successor returned by erase counts as a step forward"""
        r0 = dfa.addr(self.f, o)[0] if dfa.is_ptr(self.f, o) else None
        for e in [e for a in [o] + (sources(self.f, r0) if r0 and r0[0] == "alloca" else []) for e in dfa.slice_back(self.f, a)]:
            if e[0] == "inst" and e[1]["op"] == "call" and last(self.p, e[1]) == "erase":
                for a in e[1]["o"]:
                    r = dfa.addr(self.f, a)[0]
                    while r[0] == "load": r = r[1]
                    if r == m[1] or any(k == "inst" and y["id"] == m[1][1] for k, y in dfa.slice_back(self.f, a) if k == "inst"):
                        return (st[m][0] + 1, st[m][1] + 1)
            # restored to its own position after an entry at that position was removed
            if e[0] == "inst" and e[1]["op"] == "call" and last(self.p, e[1]) in ("distance", "__distance") and self.b is not None:
                own = any(r == m[1] or (r[0] == "load" and r[1] == m[1]) for a in e[1]["o"] if dfa.is_ptr(self.f, a) for r in [dfa.addr(self.f, a)[0]] + [dfa.addr(self.f, z)[0] for z in sources(self.f, dfa.addr(self.f, a)[0]) if dfa.is_ptr(self.f, z)])
                if own:
                    for b in self.body:
                        if b not in self.f.dom[self.b]: continue
                        for y in self.f.blocks[b]:
                            if y["op"] == "call" and any(shrinks(self.p, self.p.funcs[n]) for n in dfa.callees(self.p, self.f, y)):
                                return (st[m][0] + 1, st[m][1] + 1)
        return (-INF, INF)

    def call(self, x, st):
        f, p = self.f, self.p
        nm = last(p, x)
        for k, o in enumerate(x["o"]):
            if not dfa.is_ptr(f, o): continue
            r, q = dfa.addr(f, o)
            m = ("it", r)
            if m in st and not q:
                if nm == "operator++" and k == 0: st[m] = (st[m][0] + 1, st[m][1] + 1)
                elif nm == "operator--" and k == 0: st[m] = (st[m][0] - 1, st[m][1] - 1)
                elif isinstance(x["f"], str) and (x["f"].startswith("llvm.memcpy") or (nm == "operator=" )) and k == 0: st[m] = self.assigned(x["o"][1], m, st)
                elif isinstance(x["f"], str) and x["f"].startswith("llvm.memcpy") : pass
                elif PURE_IT.match(nm) or constarg(p, f, x, k): pass
                elif k == 0 and len(x["o"]) > 1 and ITER.search(dfa.base(p, x)): st[m] = self.assigned(x["o"][1], m, st)
                else: st[m] = (-INF, INF)
            for key in self.mem:
                if key[0] == r and key[1][:len(q)] == q and key in st:
                    if constarg(p, f, x, k) and not (r == ("arg", "this") and not q): continue
                    if r == ("arg", "this") and not q and not q:
                        gs = [p.funcs[n] for n in dfa.callees(p, f, x)]
                        if gs and key[1] and all(not writes(p, g, key[1][0]) for g in gs): continue
                    st[key] = (-INF, INF)

def same_addr(f, a, b): return dfa.addr(f, a) == dfa.addr(f, b)

def grows(p, f, body, root, path):
    """an instruction of the loop that may change the size of the container at the address"""
    for b in body:
        for x in f.blocks[b]:
            if x["op"] != "call": continue
            for k, o in enumerate(x["o"]):
                if not dfa.is_ptr(f, o): continue
                r, q = dfa.addr(f, o)
                if r != root: continue
                n = min(len(q), len(path))
                if q[:n] != path[:n]: continue
                if isinstance(x["f"], str) and x["f"] not in p.funcs:
                    if k == 0 and GROW.match(last(p, x)) and len(q) <= len(path): return x
                    continue
                for g in [p.funcs[c] for c in dfa.callees(p, f, x)]:
                    if k < len(g.args) and g.args[k]["name"] == "this":
                        if len(q) >= len(path) and q == path and not g.const: return x
                        if len(q) < len(path) and grow_member(p, g, path[len(q)]): return x
                    elif not constarg(p, f, x, k): return x
    return None

def grow_member(p, g, m):
    """may the method (transitively) grow the container member m of its object; m None: any member"""
    c = p.__dict__.setdefault("_grow", {})
    if (g.name, m) in c: return c[g.name, m]
    c[g.name, m] = False
    r = False
    for bi, x in g.insts():
        if x["op"] != "call" or not x["o"]: continue
        for k, o in enumerate(x["o"]):
            if not dfa.is_ptr(g, o): continue
            a, q = dfa.addr(g, o)
            if a != ("arg", "this"): continue
            if q and (m is None or q[0] == m):
                if isinstance(x["f"], str) and x["f"] not in p.funcs:
                    if k == 0 and GROW.match(last(p, x)): r = True
                elif not constarg(p, g, x, k): r = True
            if not q and any(grow_member(p, p.funcs[n], m) for n in dfa.callees(p, g, x)): r = True
    c[g.name, m] = r
    return r

def shrinks(p, g, seen=None):
    """does the function (transitively) erase from a container"""
    seen = seen if seen is not None else set()
    if g.name in seen: return False
    seen.add(g.name)
    for bi, x in g.insts():
        if x["op"] != "call": continue
        if isinstance(x["f"], str) and x["f"] not in p.funcs:
            if last(p, x) in ("erase", "pop_back", "pop_front", "remove"): return True
        elif any(shrinks(p, p.funcs[n], seen) for n in dfa.callees(p, g, x)): return True
    return False

def stored(p, f, body, key):
    for b in body:
        for x in f.blocks[b]:
            if x["op"] == "store":
                if dfa.addr(f, x["o"][1]) == key: return x
            elif x["op"] == "call":
                for k, o in enumerate(x["o"]):
                    if not dfa.is_ptr(f, o): continue
                    r, q = dfa.addr(f, o)
                    if r != key[0] or key[1][:len(q)] != q: continue
                    if r == ("arg", "this") and not q:
                        gs = [p.funcs[n] for n in dfa.callees(p, f, x)]
                        if gs and key[1] and all(not writes(p, g, key[1][0]) for g in gs): continue
                    elif constarg(p, f, x, k): continue
                    return x
    return None

def invariant(p, f, body, o, depth=0):
    """None if the bound operand does not change while the loop runs; else the reason"""
    if depth > 20: return "is too complex"
    if o[0] in ("i", "f", "d", "n", "g"): return None
    if o[0] != "v": return "is unknown"
    if o[1] not in f.inst: return None
    b, x = f.inst[o[1]]
    if x["op"] == "alloca": return None
    if b not in body: return None
    if x["op"] in ("sext", "zext", "trunc", "freeze", "sitofp", "uitofp", "add", "sub", "mul", "sdiv", "udiv", "fadd", "fsub", "fmul", "fdiv", "shl", "ashr", "lshr"):
        for a in x["o"]:
            w = invariant(p, f, body, a, depth + 1)
            if w: return w
        return None
    if x["op"] == "load":
        k = dfa.addr(f, x["o"][0])
        r = k[0]
        if r[0] in ("arg", "alloca"):
            y = stored(p, f, body, k)
            if y is None: return None
            return "is changed in the loop (line %s)" % y.get("l")
        if r[0] == "load" and r[1][0] in ("arg", "alloca"):
            # through a pointer: the pointer and the memory it names must stay put; const objects are not changed by others
            y = stored(p, f, body, (r[1], r[2]))
            if y is not None: return "is reached through a pointer changed in the loop (line %s)" % y.get("l")
            for bb in body:
                for y in f.blocks[bb]:
                    if y["op"] == "store" and dfa.addr(f, y["o"][1]) == k: return "is changed in the loop (line %s)" % y.get("l")
            return None
        if r[0] == "glob": return None
        if r[0] == "call":
            return invariant(p, f, body, ["v", r[1]], depth + 1)
        return "is read from memory that may change"
    if x["op"] == "call":
        nm = last(p, x)
        if isinstance(x["f"], str) and x["f"] in p.funcs:
            g = p.funcs[x["f"]]
            if not g.const: return "is computed by %s" % g.short
            r, q = dfa.addr(f, x["o"][0])
            for bb in body:
                for y in f.blocks[bb]:
                    if y["op"] != "call" or y is x: continue
                    for k, a in enumerate(y["o"]):
                        if dfa.is_ptr(f, a) and dfa.addr(f, a) == (r, q) and not constarg(p, f, y, k): return "is asked of an object the loop modifies (line %s)" % y.get("l")
            for a in x["o"][1:]:
                w = invariant(p, f, body, a, depth + 1)
                if w: return w
            return None
        if nm in ("size", "length", "empty", "front", "back", "capacity", "operator[]", "at"):
            r, q = dfa.addr(f, x["o"][0])
            y = grows(p, f, body, r, q)
            return "is the size of a container the loop may grow (line %s)" % y.get("l") if y is not None else None
        return "is computed by %s" % dfa.base(p, x)
    return "is computed in the loop (%s)" % x["op"]

def sources(f, r, depth=0):
    """operands a local object is given as its value"""
    out = []
    for bi, x in f.insts():
        if x["op"] == "store" and dfa.addr(f, x["o"][1])[0] == r: out.append(x["o"][0])
        elif x["op"] == "call" and x["o"] and dfa.is_ptr(f, x["o"][0]) and dfa.addr(f, x["o"][0])[0] == r and dfa.addr(f, x["o"][0])[1] == ():
            for a in x["o"][1:]:
                out.append(a)
                if depth < 3 and dfa.is_ptr(f, a):
                    q = dfa.addr(f, a)[0]
                    if q[0] == "alloca" and q != r: out += sources(f, q, depth + 1)
    return out

def end_of(p, f, body, o, counter):
    """the other side of an iterator comparison: is it the end of a container that does not grow"""
    r, q = dfa.addr(f, o)
    ops = [o] + (sources(f, r) if r[0] == "alloca" else [])
    calls = [e[1] for a in ops for e in dfa.slice_back(f, a) if e[0] == "inst" and e[1]["op"] == "call" and last(p, e[1]) in ("end", "cend", "begin", "cbegin", "rend", "crend", "rbegin", "crbegin")]
    if not calls: return "is not the end of a container"
    for c in calls:
        cr, cq = dfa.addr(f, c["o"][0])
        y = grows(p, f, body, cr, cq)
        if y is not None: return "is the end of a container the loop may grow (line %s)" % y.get("l")
        if cr[0] == "call":
            # a container obtained from an accessor: the object must not grow it in the loop either
            acc = f.inst[cr[1]][1]
            if acc["o"] and dfa.is_ptr(f, acc["o"][0]):
                own = dfa.addr(f, acc["o"][0])
                for b in body:
                    for z in f.blocks[b]:
                        if z["op"] != "call" or not z["o"] or z is acc: continue
                        if dfa.is_ptr(f, z["o"][0]) and dfa.addr(f, z["o"][0]) == own and any(not p.funcs[n].const and grow_member(p, p.funcs[n], None) for n in dfa.callees(p, f, z)):
                            return "is the end of a container the loop may grow (line %s)" % z.get("l")
    return None

def every_round(f, h, body, latches, b):
    """block b lies on every executable path from the header back to the header"""
    if b == h: return True
    fw = Forward(f.p, f, {"id": -1}, None, edges=[(pb, h) for pb in f.pred[h] if pb not in body][:1] + [(pb, h) for pb in latches], within=set(body) - {b})
    return not any(y == h and x in body and x in fw.blocks for x, y in fw.edges if x in fw.blocks and x != b and (x, y) in fw.taken)

def forced(p, f, h, body, t, v):
    """does the loop end when instruction t has value v"""
    fw = Forward(p, f, t, v, within=body)
    return not any(s == h for a, s in fw.edges), fw

NEG = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq",
       "olt": "oge", "ole": "ogt", "ogt": "ole", "oge": "olt"}
SWAP = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "eq": "eq", "ne": "ne", "olt": "ogt", "ole": "oge", "ogt": "olt", "oge": "ole"}

def ranking(p, f, h):
    """(list of arguments, list of reasons why candidates fail). argument: dict(test, kind, key, bound, exit value, edges)"""
    body, latches = f.loops[h]
    d = Deltas(p, f, h, body)
    good = []; why = []
    def progress(key):
        if key[0] == "phi":
            ds = []
            ph = f.inst[key[1]][1]
            for o, pb in zip(ph["o"], ph["in"]):
                if pb not in body: continue
                v = d.vals.get(o[1]) if o[0] == "v" else None
                if v is None or v[0] != key: return None
                ds.append(v[1])
        else: ds = [st.get(key, (-INF, INF)) for st in d.latch.values()]
        if not ds: return None
        return (min(x[0] for x in ds), max(x[1] for x in ds))
    for b in sorted(body):
        for x in f.blocks[b]:
            cand = []
            if x["op"] in ("icmp", "fcmp"):
                for i in (0, 1):
                    o = x["o"][i]
                    v = d.vals.get(o[1]) if o[0] == "v" else None
                    if v is not None: cand.append((v[0], x["p"] if i == 0 else SWAP.get(x["p"]), x["o"][1 - i], v[1]))
            elif x["op"] == "call" and last(p, x) in ("operator!=", "operator=="):
                for i in (0, 1):
                    r, q = dfa.addr(f, x["o"][i])
                    if ("it", r) in d.ins[d.h]: cand.append((("it", r), "ne" if last(p, x) == "operator!=" else "eq", x["o"][1 - i], (0, 0)))
            elif x["op"] == "call" and dfa.base(p, x).endswith("operator@bool") or (x["op"] == "call" and "basic_ios" in dfa.base(p, x) and "operator!" in dfa.base(p, x)):
                # a loop that reads from a string stream until the stream is exhausted
                r, q = dfa.addr(f, x["o"][0])
                src = [e[1] for e in dfa.slice_back(f, x["o"][0]) if e[0] == "inst" and e[1]["op"] == "call"]
                reads = [c for c in src if last(p, c) in ("getline", "operator@shr", "getline")]
                if reads and all(f.inst[c["id"]][0] in body for c in reads):
                    v = 0 if "operator@bool" in dfa.base(p, x) else 1
                    ok, fw = forced(p, f, h, body, x, v)
                    if ok and every_round(f, h, body, latches, b): good.append(dict(test=x, kind="stream", key=None, bound=None, v=v, fw=fw))
            for key, pred, bound, cur in cand:
                if pred is None: continue
                pr = progress(key)
                if pr is None: continue
                for v in (0, 1):
                    ok, fw = forced(p, f, h, body, x, v)
                    if not ok: continue
                    stay = pred if v == 0 else NEG.get(pred)      # relation that keeps the loop running
                    up, down = pr[0] >= 1, pr[1] <= -1
                    if not up and not down:
                        if pr[0] > -INF and pr[1] < INF or key[0] == "it": why.append((x, "its counter does not advance on every round" if pr != (0, 0) else "its counter never advances"))
                        else: why.append((x, "its counter is changed in a way that does not always advance"))
                        continue
                    if key[0] == "it": w = end_of(p, f, body, bound, key)
                    else: w = invariant(p, f, body, bound)
                    if w: why.append((x, "its bound " + w)); continue
                    if up and stay in ("slt", "sle", "ult", "ule", "olt", "ole") or down and stay in ("sgt", "sge", "ugt", "uge", "ogt", "oge") or \
                       stay == "ne" and (key[0] == "it" or (pr in ((1, 1), (-1, -1)) and startok(f, key, bound, pr))):
                        if not every_round(f, h, body, latches, b): why.append((x, "its bound is not tested on every round")); continue
                        good.append(dict(test=x, kind="iterator" if key[0] == "it" else "counter", key=key, bound=bound, v=v, fw=fw, delta=pr, stay=stay, cur=cur))
                    else: why.append((x, "its counter moves away from the bound"))
    return good, why

def startok(f, key, bound, pr):
    if key[0] != "phi" or bound[0] != "i": return False
    ph = f.inst[key[1]][1]
    return all(o[0] != "i" or (o[1] <= bound[1] if pr[0] > 0 else o[1] >= bound[1]) for o in ph["o"]) and any(o[0] == "i" for o in ph["o"])
