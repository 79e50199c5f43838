"""On-demand results: abstract interpretation of one class at a time.

The state of an object is the valuation of its 'up to date' flags (bool members that const methods write), a ghost bit
'the last update failed', and for every other scalar cell of the object the set of inputs its content was computed from,
split into current ones and replaced ones. Public methods are applied in any order until nothing new appears. Own
methods are executed in line (every path, flags tracked exactly), embedded objects contribute the cells that are their
inputs (their own caches are coherent by their own obligation), everything else is a function of its arguments."""
import re, dfa, ir

ACC = re.compile(r"^(begin|end|cbegin|cend|rbegin|rend|front|back|at|operator\[\]|find|data|operator\*|operator@arrow|operator\+\+|operator--|operator\+|operator-|operator\+=|next|prev|advance|insert|erase|__normal_iterator|_List_iterator|_List_const_iterator|base|get|c_str)$")
STRONG = re.compile(r"^(operator=|assign|clear|resize|~?(vector|list|string|basic_string))$")
WEAK = re.compile(r"^(push_back|emplace_back|push_front|insert|erase|pop_back|pop_front|splice|remove|sort|swap|merge|reverse|unique|operator\+=|append)$")
FAIL = 1      # bit 0 of taints: content is a derived cell

class Val:
    __slots__ = ("c", "cur", "old", "org", "in_")
    def __init__(self, c=None, cur=0, old=0, org=frozenset(), in_=frozenset()):
        self.c = c; self.cur = cur; self.old = old; self.org = org; self.in_ = in_
    def key(self): return (self.c, self.cur, self.old, self.org, self.in_)
    def __eq__(self, o): return o is not None and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return "<%s %x/%x %s>" % (self.c, self.cur, self.old, sorted(self.org, key=str))
NONE = Val()
def vjoin(a, b):
    if a is b or a == b: return a
    return Val(a.c if a.c == b.c else None, a.cur | b.cur, a.old | b.old, a.org | b.org, a.in_ | b.in_)
def taint(*vs):
    cur = old = 0
    for v in vs: cur |= v.cur; old |= v.old
    return Val(None, cur, old)

class St:
    """state of the object: flags, failed, cells"""
    __slots__ = ("flags", "fail", "facts", "cells")
    def __init__(self, flags, fail, facts, cells): self.flags = flags; self.fail = fail; self.facts = facts; self.cells = cells
    def key(self): return (self.flags, self.fail, self.facts)
    def full(self): return (self.flags, self.fail, self.facts, frozenset(self.cells.items()))
    def copy(self): return St(self.flags, self.fail, self.facts, dict(self.cells))
    def with_(self, cells): return St(self.flags, self.fail, self.facts, cells)

ZERO = (0, 0, frozenset(), 0)
def cjoin(a, b):
    """join of two cell maps; (joined, changed with respect to a)"""
    ch = False; r = a
    for k, n in b.items():
        m = r.get(k)
        if m is None:
            if not ch: r = dict(a); ch = True
            r[k] = n
        elif m != n:
            j = (m[0] | n[0], m[1] | n[1], m[2] | n[2], m[3] | n[3])
            if j != m:
                if not ch: r = dict(a); ch = True
                r[k] = j
    return r, ch

_info = {}
class Info:
    """cells of a class"""
    def __init__(self, p, cls):
        self.p = p; self.cls = cls
        self.flags = []
        self.leaves = []; self.ptrs = set()
        fl = ir.cache_flags(p)
        self.nested = {}         # prefix -> class of embedded repository object
        for c in p.base_chain(cls):
            if c not in p.classes: continue
            for m in p.classes[c].members:
                if m.get("static"): continue
                if (c, m["name"]) in fl: self.flags.append(m["name"]); continue
                self.add((m["name"],), m["type"], 0)
        self.flags.sort()
        self.index = {l: i for i, l in enumerate(self.leaves)}
    def add(self, path, ty, depth):
        t = ty.replace("const ", "").strip()
        if t in self.p.classes and depth < 5:
            self.nested[path] = t
            sub = info(self.p, t)
            for q in sub.inputs:
                self.leaves.append(path + q)
                if q in sub.ptrs: self.ptrs.add(path + q)
            for q, c in sub.nested.items(): self.nested[path + q] = c
        else:
            self.leaves.append(path)
            if t.endswith("*"): self.ptrs.add(path)
    def match(self, path):
        r = self._m.get(path) if hasattr(self, "_m") else None
        if r is None:
            if not hasattr(self, "_m"): self._m = {}
            k = path
            r = tuple(i for i, l in enumerate(self.leaves) if l[:len(k)] == k or k[:len(l)] == l)
            self._m[path] = r
        return r
    def nest(self, path):
        """innermost embedded object a path lies in"""
        for n in range(len(path), 0, -1):
            if path[:n] in self.nested: return path[:n]
        return ()

def links(p, cls):
    """pointer member -> own members handed to the object behind it: reading through the pointer reads them too"""
    out = {}
    for c in p.base_chain(cls):
        for f in p.funcs.values():
            if f.cls != c: continue
            for bi, x in f.insts():
                if x["op"] != "call" or not x["o"] or not dfa.is_ptr(f, x["o"][0]): continue
                r, q = dfa.addr(f, x["o"][0])
                if r[0] != "load" or r[1] != ("arg", "this") or q: continue
                if not any(n in p.funcs for n in dfa.callees(p, f, x)): continue
                for o in x["o"][1:]:
                    if not dfa.is_ptr(f, o): continue
                    a, w = dfa.addr(f, o)
                    if a == ("arg", "this") and w: out.setdefault(r[2], set()).add(w)
    return out

def info(p, cls):
    """cells of the class with .inputs (cells no const method writes) and .derived"""
    k = (id(p), cls)
    if k in _info: return _info[k]
    i = Info(p, cls)
    i.inputs = list(i.leaves); i.derived = []; i.links = links(p, cls)
    _info[k] = i
    touched = const_written(p, cls)
    if touched:
        e = Engine(p, i, collect=True)
        e.explore()
        d = {i.leaves[x] for x in e.const_writes}
        i.inputs = [l for l in i.leaves if l not in d]; i.derived = [l for l in i.leaves if l in d]
    return i

def const_written(p, cls):
    """does a const method of the class write to the object"""
    for c in p.base_chain(cls):
        for f in p.funcs.values():
            if f.cls != c or not f.const: continue
            for bi, x in f.insts():
                if x["op"] == "store" and dfa.addr(f, x["o"][1])[0] == ("arg", "this"): return True
                if x["op"] == "call" and x["o"] and dfa.is_ptr(f, x["o"][0]):
                    r, q = dfa.addr(f, x["o"][0])
                    if r == ("arg", "this") and q:
                        cs = dfa.callees(p, f, x)
                        if cs and any(not p.funcs[n].const for n in cs): return True
                        if not cs and (STRONG.match(dfa.base(p, x).split("::")[-1]) or WEAK.match(dfa.base(p, x).split("::")[-1])): return True
    return False

class Engine:
    def __init__(self, p, info_, collect=False):
        self.p = p; self.i = info_; self.cls = info_.cls; self.collect = collect
        self.const_writes = set(); self.inputbit = {}; self.reports = {}
        self.inconst = False; self.inctor = False
        self.argtok = [{}]; self.nexttok = {}; self.dangling = {}; self.selfptr = {}; self.retlocal = {}
        self.constidx = False; self.upd = []; self.memo = {}; self.stack = []; self.steps = 0
        self.nout = self.nfailed = self.nquiet = 0
        if not collect:
            ins = set(info_.inputs)
            for k, l in enumerate(info_.leaves):
                if l in ins: self.inputbit[k] = 1 << (len(self.inputbit) + 1)
        self.public = []
        for f, m, c in p.methods_of(self.cls):
            if m is None or m["access"] != "public" or p.is_ctor(f) or p.is_dtor(f): continue
            if p.is_copy(f) and (m.get("artificial") or implicit(p, f)): continue
            self.public.append(f)

    # ---- cells
    def content(self, st, mem, v, depth=0):
        """what reading through a pointer gives"""
        cur, old = v.cur, v.old; org = set(); seen = set()
        todo = list(v.org); cc = None
        for o in todo:
            if o[0] == "own":
                for k in self.i.match(o[1]):
                    b = self.inputbit.get(k)
                    if b: cur |= b
                    else:
                        cur |= FAIL
                        for q in self.cellkeys(st, k, o[1]):
                            c, d = st.cells[q][:2]
                            cur |= c; old |= d
                        for a in self.i.links.get(self.i.leaves[k], ()):
                            if depth < 3:
                                w = self.content(st, mem, Val(org=frozenset([("own", a)])), depth + 1)
                                cur |= w.cur; old |= w.old
                n = self.i.nest(o[1])
                if n and not self.i.match(o[1]):      # a cache of an embedded object: a function of its inputs
                    w = self.content(st, mem, Val(org=frozenset([("own", n)])))
                    cur |= w.cur; old |= w.old
            else:
                w = mem.get(o)
                if w is not None:
                    cur |= w.cur; old |= w.old; org |= w.in_
                    if len(todo) == 1: cc = w.c
        return Val(cc, cur, old, frozenset(org))

    def cellkeys(self, st, k, path):
        """cells of leaf k that a path denotes: the whole and the elements with a constant index"""
        n = len(self.i.leaves[k])
        ix = path[n] if len(path) > n and path[n].startswith("#") else None
        return [q for q in st.cells if q == k or (isinstance(q, tuple) and q[0] == k and (ix is None or q[1] == ix))]
    def write(self, st, mem, v, val, strong):
        """store val through pointer v; returns the new (st, mem)"""
        orgs = v.org
        single = len(orgs) == 1
        for o in orgs:
            if o[0] == "own":
                ks = self.i.match(o[1])
                if not ks: continue
                st = st.copy()
                for k in ks:
                    if self.inconst: self.const_writes.add(k)
                    b = self.inputbit.get(k)
                    if self.i.leaves[k] in self.i.ptrs and self.own_mode and b:
                        tk = self.tokens(val.org); q = ("p", k)
                        if strong and single: st.cells.pop(q, None)
                        if tk: st.cells[q] = (0, 0, tk | st.cells.get(q, ZERO)[2], 0)
                    if b:
                        if not self.inctor:
                            for d, (c, q, pt, w) in list(st.cells.items()):
                                if c & b: st.cells[d] = (c & ~b, q | b, pt, w)
                            st.fail = 0
                            top = self.i.leaves[k][0]
                            st.facts = tuple(z for z in st.facts if z[0][0][0] != top)
                    else:
                        s = strong and single
                        n = len(self.i.leaves[k])
                        ck = (k, o[1][n]) if len(o[1]) > n and o[1][n].startswith("#") else k
                        if s and ck == k:
                            for z in [z for z in st.cells if isinstance(z, tuple) and z[0] == k]: del st.cells[z]
                        c, q, pt, w = st.cells.get(ck, ZERO) if not s else ZERO
                        npt = frozenset(z[1] if z[0] == "own" else ("*",) for z in val.org)
                        if self.own_mode and self.i.leaves[k] in self.i.ptrs: npt |= self.tokens(val.org)
                        st.cells[ck] = (c | val.cur & ~FAIL, q | val.old, pt | npt, int(not self.upd and self.inconst) | w)
            else:
                mem = dict(mem)
                w = mem.get(o)
                inn = val.org | val.in_
                nv = Val(val.c if strong and single else None, val.cur, val.old, frozenset(), inn)
                mem[o] = nv if (strong and single and o[0] != "arg") or w is None else vjoin(w, nv)
        return st, mem

    own_mode = False
    def tokens(self, org):
        """where the storage behind an address lives: own cell paths, locals of a running function, reference parameters"""
        t = set()
        for z in org:
            if z[0] == "own": t.add(z[1])
            elif z[0] == "al" and self.stack:
                f = self.p.funcs[self.stack[-1]]
                if f.inst[z[1]][1]["op"] == "alloca": t.add(("&local", f.vars.get(z[1], ("?",))[0] + " in " + f.short))
            elif z[0] == "arg": t |= self.argtok[-1].get(z[1], frozenset())
        return frozenset(t)

    # ---- functions
    def run(self, f, st, args, pc):
        """outcomes [(St, Val, {arg index: Val})] of executing f"""
        tok, self.nexttok = self.nexttok, {}
        k = (f.name, st.full(), tuple(a.key() for a in args), pc, self.inconst, self.inctor, bool(self.upd), tuple(sorted(tok.items())))
        if k in self.memo: return self.memo[k]
        if f.name in self.stack or len(self.stack) > 12:
            return [(st, taint(*args), {})]
        self.stack.append(f.name); self.argtok.append(tok)
        try: r = self.body(f, st, args, pc)
        finally: self.stack.pop(); self.argtok.pop()
        self.memo[k] = r
        return r

    def body(self, f, st0, args, pc):
        p = self.p
        env = {}; mem = {}
        for a, v in zip(f.args, args):
            k = f.args.index(a)
            loc = [o for o in v.org if o[0] != "own"]
            if loc or v.in_ or not v.org: mem[("arg", k)] = Val(None, v.cur, v.old, frozenset(), v.in_)
            env[a["id"]] = Val(v.c, v.cur, v.old, frozenset([o for o in v.org if o[0] == "own"]) | (frozenset([("arg", k)]) if loc or a["ty"] == "ptr" and not v.org else frozenset()))
        inb = {}; out = {}
        live = f.live
        work = [(0, None, st0, env, mem)]
        while work:
            b, frm, st, env, mem = work.pop()
            self.steps += 1
            # phis first
            blk = f.blocks[b]; n = 0
            new = {}
            for x in blk:
                if x["op"] != "phi": break
                n += 1
                v = None
                for o, pb in zip(x["o"], x["in"]):
                    if pb == frm:
                        w = self.ev(f, env, o)
                        v = w if v is None else vjoin(v, w)
                v = v or NONE
                t = self.phitaint(f, env, x, b)
                new[x["id"]] = Val(v.c, v.cur | t.cur, v.old | t.old, v.org, v.in_) if t.cur or t.old else v
            if new: env = dict(env); env.update(new)
            consts = tuple(sorted((i, v.c) for i, v in env.items() if v.c is not None and i in live[b] and self.isbool(f, i)))
            key = (b, st.key(), consts)
            if key in inb:
                s0, e0, m0 = inb[key]
                c1, ch = cjoin(s0.cells, st.cells)
                e1 = e0
                for i, v in env.items():
                    w = e0.get(i)
                    if w is None: 
                        if e1 is e0: e1 = dict(e0)
                        e1[i] = v; ch = ch or i in live[b]
                    elif w != v:
                        j = vjoin(w, v)
                        if j != w:
                            if e1 is e0: e1 = dict(e0)
                            e1[i] = j; ch = ch or True
                m1 = m0
                for i, v in mem.items():
                    w = m0.get(i)
                    j = v if w is None else vjoin(w, v)
                    if w is None or j != w:
                        if m1 is m0: m1 = dict(m0)
                        m1[i] = j; ch = True
                if not ch: continue
                st = st.with_(c1); env = e1; mem = m1
            inb[key] = (st, env, mem)
            self.block(f, b, n, st, dict(env), mem, pc, work, out)
        return [(St(*k[0], v[0]), v[1], v[2]) for k, v in out.items()]

    def isbool(self, f, i):
        d = f.inst.get(i)
        return d is not None and d[1]["ty"] in ("i1", "i8")

    def phitaint(self, f, env, x, b):
        cur = old = 0
        cd = f.cdep
        own = cd.get(b, ()) if hasattr(cd, "get") else cd[b]
        for pb in x["in"]:
            for c in (cd.get(pb, ()) if hasattr(cd, "get") else cd[pb]):
                if c in own: continue
                v = self.cond(f, env, c)
                cur |= v.cur; old |= v.old
            t = f.blocks[pb][-1]
            if t["op"] in ("br", "switch") and len(f.succ[pb]) > 1:
                v = self.cond(f, env, pb); cur |= v.cur; old |= v.old
        return Val(None, cur & ~FAIL, old)
    def cond(self, f, env, b):
        t = f.blocks[b][-1]
        if t["op"] in ("br", "switch") and t.get("o"): return self.ev(f, env, t["o"][0])
        return NONE

    def ev(self, f, env, o):
        if o[0] == "i": return Val(o[1])
        if o[0] == "v": return env.get(o[1], NONE)
        if o[0] == "n": return Val(0)
        if o[0] == "ge":
            return self.ev(f, env, o[1])
        return NONE

    def ptr(self, f, env, o):
        """pointer operand with the path applied: own cells keep their path"""
        if not isinstance(o, list): return NONE
        if o[0] == "ge":
            b = self.ptr(f, env, o[1]); return self.extend(b, dfa.steps(f, o[2]))
        return self.ev(f, env, o)
    def extend(self, b, path):
        if not path: return b
        return Val(None, b.cur, b.old, frozenset(("own", o[1] + path) if o[0] == "own" else o for o in b.org), b.in_)

    def block(self, f, b, i, st, env, mem, pc, work, out):
        p = self.p; blk = f.blocks[b]
        while i < len(blk):
            x = blk[i]; op = x["op"]; i += 1
            if op == "alloca": env[x["id"]] = Val(None, 0, 0, frozenset([("al", x["id"])]))
            elif op == "getelementptr":
                base = self.ptr(f, env, x["o"][0])
                idx = taint(*[self.ev(f, env, s[1]) for s in x["s"] if s[0] in ("A", "P") and isinstance(s[1], list)] or [NONE])
                v = self.extend(base, dfa.steps(f, x["s"]))
                env[x["id"]] = Val(None, v.cur | idx.cur, v.old | idx.old, v.org, v.in_)
            elif op == "load":
                a = self.ptr(f, env, x["o"][0])
                fl = self.flagof(a)
                if fl is not None: env[x["id"]] = Val(st.flags[fl]); continue
                v = self.content(st, mem, a)
                if x["ty"] == "ptr":
                    pass
                env[x["id"]] = v
            elif op == "store":
                a = self.ptr(f, env, x["o"][1]); v = self.ptr(f, env, x["o"][0])
                fl = self.flagof(a)
                if fl is not None:
                    if v.c is None:
                        for c in (0, 1):
                            s2 = st.copy(); s2.flags = st.flags[:fl] + (c,) + st.flags[fl + 1:]
                            e2 = dict(env)
                            if x["o"][0][0] == "v":
                                self.refine(f, e2, x["o"][0], c)
                            self.block(f, b, i, s2, e2, mem, pc, work, out)
                        return
                    st = st.copy(); st.flags = st.flags[:fl] + (int(v.c) & 1,) + st.flags[fl + 1:]
                    continue
                t = self.ctl(f, env, b, pc)
                if any(o[0] == "own" for o in v.org):    # the address of an own cell stands for its content
                    w = self.content(st, mem, v); v = Val(None, v.cur | w.cur, v.old | w.old, v.org, v.in_)
                elif any(o[0] != "own" for o in v.org):
                    w = self.content(st, mem, v); v = Val(None, v.cur | w.cur, v.old | w.old, v.org, v.in_ | w.org)
                v = Val(v.c, v.cur | t.cur, v.old | t.old, v.org, v.in_)
                self.constidx = len(a.org) == 1 and any(z.startswith("#") for o in a.org if o[0] == "own" for z in o[1])
                st, mem = self.write(st, mem, a, v, self.exact(f, x, b))
            elif op == "call":
                res = self.call(f, b, x, st, env, mem, pc)
                if len(res) == 1:
                    st, v, mem = res[0]; env[x["id"]] = v
                else:
                    for s2, v, m2 in res:
                        e2 = dict(env); e2[x["id"]] = v
                        self.block(f, b, i, s2, e2, m2, pc, work, out)
                    return
            elif op == "ret":
                v = self.ptr(f, env, x["o"][0]) if x["o"] else NONE
                if self.own_mode and returns_ref(f) and any(o[0] == "al" and f.inst[o[1]][1]["op"] == "alloca" for o in v.org): self.retlocal.setdefault(f.name, x)
                w = self.content(st, mem, Val(None, 0, 0, frozenset(o for o in v.org if o[0] == "al"))) if v.org else NONE
                v = Val(v.c if f.ret == "bool" or v.c == 0 else None, v.cur | w.cur, v.old | w.old, frozenset(o for o in v.org if o[0] != "al"), v.in_)
                am = {k: mem[("arg", k)] for k in range(len(f.args)) if ("arg", k) in mem}
                key = (st.key(), v.c)
                if key in out:
                    c0, v0, a0 = out[key]
                    c1, ch = cjoin(c0, st.cells)
                    a1 = dict(a0)
                    for k, w in am.items(): a1[k] = vjoin(a1[k], w) if k in a1 else w
                    out[key] = (c1, vjoin(v0, v), a1)
                else: out[key] = (st.cells, v, am)
                return
            elif op == "br":
                tg = x["t"]
                if x.get("o"):
                    c = self.ev(f, env, x["o"][0]).c
                    if c is not None: tg = [x["t"][0] if c else x["t"][1]]
                    elif x["t"][0] != x["t"][1]:
                        for k, s in ((1, x["t"][0]), (0, x["t"][1])):
                            e2 = dict(env); self.refine(f, e2, x["o"][0], k)
                            work.append((s, b, st, e2, mem))
                        return
                for s in dict.fromkeys(tg): work.append((s, b, st, env, mem))
                return
            elif op == "switch":
                c = self.ev(f, env, x["o"][0]).c
                tg = f.succ[b] if c is None else [next((d for k, d in x["cases"] if k == c), x["def"])]
                for s in tg: work.append((s, b, st, env, mem))
                return
            elif op == "unreachable": return
            else: env[x["id"]] = self.pure(f, env, x)
        t = blk[-1]
        if t["op"] == "call" and "next" in t: work.append((t["next"], b, st, env, mem))

    def refine(self, f, env, o, c):
        """the i1/i8 value o is now known to be c"""
        for _ in range(6):
            if o[0] != "v": return
            v = env.get(o[1], NONE)
            env[o[1]] = Val(c, v.cur, v.old, v.org, v.in_)
            x = dfa.defn(f, o)
            if x is None: return
            if x["op"] in ("zext", "trunc", "freeze"): o = x["o"][0]; continue
            if x["op"] == "icmp" and x["p"] in ("eq", "ne") and x["o"][1][0] == "i" and x["o"][1][1] in (0, 1):
                y = dfa.defn(f, x["o"][0])
                if y is None or y["op"] not in ("zext", "trunc", "load", "call", "phi") or (y["op"] in ("load", "call", "phi") and y["ty"] not in ("i1", "i8")): return
                k = x["o"][1][1]; eq = (x["p"] == "eq") == bool(c)
                c = k if eq else 1 - k
                o = x["o"][0]; continue
            if x["op"] == "xor" and x["o"][1][0] == "i": c = 1 - c; o = x["o"][0]; continue
            return

    def pure(self, f, env, x):
        op = x["op"]
        vs = [self.ptr(f, env, o) for o in x["o"]]
        t = taint(*vs) if vs else NONE
        c = None
        if op == "icmp":
            a, d = vs
            if x["o"][1][0] == "n" or x["o"][0][0] == "n":
                o = x["o"][0] if x["o"][1][0] == "n" else x["o"][1]
                w = vs[0] if x["o"][1][0] == "n" else vs[1]
                if w.c is not None and w.c == 0: c = int(x["p"] == "eq")
                else: c = int(x["p"] == "ne")       # references are taken to be set
                return Val(c)
            if a.c is not None and d.c is not None:
                c = int({"eq": a.c == d.c, "ne": a.c != d.c, "slt": a.c < d.c, "sle": a.c <= d.c, "sgt": a.c > d.c, "sge": a.c >= d.c, "ult": a.c < d.c, "ule": a.c <= d.c, "ugt": a.c > d.c, "uge": a.c >= d.c}[x["p"]])
        elif op in ("zext", "trunc", "freeze"): c = vs[0].c; c = None if c is None else c & 1 if op == "trunc" and x["ty"] == "i1" else c
        elif op == "xor" and vs[0].c is not None and vs[1].c is not None: c = (vs[0].c ^ vs[1].c) & 1
        elif op in ("and", "or"):
            z = 0 if op == "and" else 1
            if vs[0].c == z or vs[1].c == z: c = z
            elif vs[0].c is not None and vs[1].c is not None: c = vs[0].c & vs[1].c if op == "and" else vs[0].c | vs[1].c
        elif op == "select":
            if vs[0].c is not None:
                w = vs[1] if vs[0].c else vs[2]
                return Val(w.c, w.cur | vs[0].cur, w.old | vs[0].old, w.org, w.in_)
            w = vjoin(vs[1], vs[2]); return Val(w.c, t.cur, t.old, w.org, w.in_)
        org = frozenset().union(*[v.org for v in vs]) if op in ("extractvalue", "insertvalue", "freeze", "bitcast", "inttoptr", "ptrtoint") and vs else frozenset()
        return Val(c, t.cur, t.old, org)

    def flagof(self, a):
        if len(a.org) == 1:
            o = next(iter(a.org))
            if o[0] == "own" and len(o[1]) == 1 and o[1][0] in self.i.flags: return self.i.flags.index(o[1][0])
        return None

    def exact(self, f, x, b):
        """does the store replace the whole cell"""
        r, q = dfa.addr(f, x["o"][1])
        if r[0] == "alloca" and q: return False
        if self.constidx: return True
        if "[]" in q or r[0] == "call":
            return any(b in body for body, l in f.loops.values())
        return True

    def ctl(self, f, env, b, pc):
        if any("ErrorMessage" in t for t in f.types): return NONE     # what a validation probes and puts back
        cur, old = pc
        seen = set(); st = [b]
        cd = f.cdep
        while st:
            k = st.pop()
            for c in (cd.get(k, ()) if hasattr(cd, "get") else cd[k]):
                if c in seen: continue
                seen.add(c); st.append(c)
                v = self.cond(f, env, c)
                cur |= v.cur; old |= v.old
        return Val(None, cur & ~FAIL, old)

    # ---- calls
    def call(self, f, b, x, st, env, mem, pc):
        """[(St, Val, mem)]"""
        p = self.p
        args = [self.ptr(f, env, o) for o in x["o"]]
        n = x["f"]
        ptys = None
        if isinstance(n, str) and n.startswith("llvm."):
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                v = self.content(st, mem, args[1]); t = self.ctl(f, env, b, pc)
                r, q = dfa.addr(f, x["o"][0])
                st, mem = self.write(st, mem, args[0], Val(None, v.cur | t.cur, v.old | t.old, v.org, frozenset()), not (r[0] == "alloca" and q))
                return [(st, NONE, mem)]
            if n.startswith("llvm.memset"):
                st, mem = self.write(st, mem, args[0], NONE, True)
                return [(st, NONE, mem)]
            return [(st, taint(*args) if args else NONE, mem)]
        cs = [n] if isinstance(n, str) and n in p.funcs else []
        if isinstance(n, list): cs = self.virtual(f, x, args)
        full = [self.join_content(st, mem, a) for a in args]
        t = self.ctl(f, env, b, pc)
        if cs:
            res = []
            for g in cs: res += self.repo(f, b, x, p.funcs[g], st, env, mem, args, full, t)
            return self.merge(res)
        nm = dfa.base(p, x)
        last = nm.split("::")[-1] if "operator" not in nm else nm[nm.rfind("operator"):]
        allv = taint(*full) if full else NONE
        al = Val(None, allv.cur | t.cur, allv.old | t.old)
        org = frozenset(); inn = frozenset()
        for a, w in zip(args, full): org |= a.org | w.in_ | w.org
        if args and args[0].org:
            rest = taint(*full[1:]) if full[1:] else NONE
            inn = frozenset().union(*[w.in_ | w.org | a.org for a, w in zip(args[1:], full[1:])]) if full[1:] else frozenset()
            w = Val(None, rest.cur | t.cur, rest.old | t.old, frozenset(), inn)
            isstd = isinstance(n, str) and n not in p.funcs
            hasown = any(o[0] == "own" for o in args[0].org)
            cl = nm.split("::")[-2] if "::" in nm else ""
            ctor = last == cl
            if STRONG.match(last) or ctor or last.startswith("~"): st, mem = self.write(st, mem, args[0], w, True)
            elif WEAK.match(last): st, mem = self.write(st, mem, args[0], w, False)
            elif last == "sort":
                o2 = frozenset(o for a, z in zip(args, full) for o in (z.in_ | z.org | a.org) if o[0] == "own")
                st, mem = self.write(st, mem, Val(org=o2), w, False)
            elif not hasown and (x["ty"] == "void" or (last in ("getline",))):     # fills its first argument (sret or output)
                st, mem = self.write(st, mem, args[0], Val(None, al.cur, al.old, frozenset(), inn), False)
        if last.startswith("operator@new") or last == "operator new": return [(st, Val(None, 0, 0, frozenset([("al", x["id"])])), mem)]
        keep = org if ACC.match(last) else frozenset()
        if last in ("operator[]", "at") and len(args) == 2 and args[1].c is None and len(args[0].org) == 1:
            w = full[1]
            k = w.c if w.c is not None else None
            if k is not None: keep = self.extend(args[0], ("#%d" % k,)).org
        elif last in ("operator[]", "at") and len(args) == 2 and args[1].c is not None and len(args[0].org) == 1:
            keep = self.extend(args[0], ("#%d" % args[1].c,)).org
        return [(st, Val(None, allv.cur, allv.old, keep, inn if ACC.match(last) else frozenset()), mem)]

    def join_content(self, st, mem, a):
        if not a.org: return a
        w = self.content(st, mem, a)
        return Val(w.c, a.cur | w.cur, a.old | w.old, frozenset(), w.org | a.in_)

    def virtual(self, f, x, args):
        p = self.p
        d = dfa.defn(f, x["f"]); slot = None
        if d is not None and d["op"] == "load":
            a = dfa.defn(f, d["o"][0]); slot = 0
            if a is not None and a["op"] == "getelementptr":
                for s in a["s"]:
                    if s[0] == "P" and s[1][0] == "i": slot = s[1][1]
        if args and args[0].org == frozenset([("own", ())]) and slot is not None:
            vt = p.vtables.get(self.cls)
            if vt and slot < len(vt) and vt[slot] in p.funcs: return [vt[slot]]
        return dfa.virtual_targets(p, f, x)

    def repo(self, f, b, x, g, st, env, mem, args, full, t):
        p = self.p
        a0 = args[0] if args else NONE
        k0 = next((k for k, a in enumerate(g.args) if a["name"] == "this"), None)
        tv = args[k0] if k0 is not None and k0 < len(args) else NONE
        own = [o for o in tv.org if o[0] == "own"]
        if k0 is not None and len(tv.org) == 1 and own:
            pre = own[0][1]
            if pre == () and g.cls in p.base_chain(self.cls):
                return self.inline(f, x, g, st, mem, args, full, t)
            if pre != ():
                if p.is_ctor(g) or p.is_assign(g) or p.is_dtor(g):
                    rest = taint(*[w for k, w in enumerate(full) if k != k0]) if len(full) > 1 else NONE
                    st, mem = self.write(st, mem, tv, Val(None, rest.cur | t.cur, rest.old | t.old), True)
                    return [(st, tv, mem)]
                X = self.i.nested.get(pre)
                if X is not None:
                    if g.const and touches_cache(p, g, X):
                        r = taint(*full)
                        st, mem = self.fill(g, x, st, mem, args, r, k0)
                        return [(st, Val(None, r.cur, r.old), mem)]
                    return self.inline(f, x, g, st, mem, args, full, t, nested=True)
                # element of a container
                r = taint(*full)
                st, mem = self.fill(g, x, st, mem, args, Val(None, r.cur | t.cur, r.old | t.old), k0)
                if not g.const: st, mem = self.write(st, mem, tv, Val(None, r.cur | t.cur, r.old | t.old), False)
                return [(st, Val(None, r.cur, r.old, tv.org if returns_ref(g) else frozenset()), mem)]
        # somebody else's code; a question asked of a referenced object has the same answer until the reference is replaced
        fk = self.factkey(f, x, g, st, env, mem)
        if fk is not None:
            kn = dict(st.facts).get(fk)
            r = taint(*full)
            if kn is not None: return [(st, Val(kn, r.cur, r.old), mem)]
            out = []
            for c in (0, 1):
                s2 = st.copy(); s2.facts = tuple(sorted(st.facts + ((fk, c),), key=str)); out.append((s2, Val(c, r.cur, r.old), mem))
            return out
        r = taint(*full) if full else NONE
        w = Val(None, r.cur | t.cur, r.old | t.old)
        if k0 is not None and not g.const and tv.org:
            inn = frozenset().union(*[z.in_ | z.org | a.org for a, z in zip(args, full)]) if args else frozenset()
            strong = p.is_ctor(g) or p.is_assign(g)
            if strong:
                rest = taint(*[z for k, z in enumerate(full) if k != k0]) if len(full) > 1 else NONE
                w = Val(None, rest.cur | t.cur, rest.old | t.old)
            st, mem = self.write(st, mem, tv, Val(None, w.cur, w.old, frozenset(), inn), strong)
        st, mem = self.fill(g, x, st, mem, args, w, k0)
        org = frozenset(o for k, a in enumerate(args) for o in a.org if not self.own_mode or may_answer(p, g, k)) if returns_ref(g) else frozenset()
        return [(st, Val(None, r.cur, r.old, org), mem)]

    def factkey(self, f, x, g, st, env, mem):
        if g.ret != "bool" or not g.const or not x["o"]: return None
        d = dfa.defn(f, x["o"][0])
        if d is None or d["op"] != "load": return None
        a = self.ptr(f, env, d["o"][0])
        if len(a.org) != 1: return None
        o = next(iter(a.org))
        if o[0] != "own" or len(self.i.match(o[1])) != 1 or self.i.match(o[1])[0] not in self.inputbit and not self.collect: return None
        ks = []
        for y in x["o"][1:]:
            v = self.ptr(f, env, y)
            if v.c is None: v = self.join_content(st, mem, v)
            if v.c is None: return None
            ks.append(v.c)
        return (o[1], g.short, tuple(ks))
    def fill(self, g, x, st, mem, args, w, k0):
        """output arguments of a call that is not followed"""
        j = 0
        for k, (a, v) in enumerate(zip(g.args, args)):
            if a.get("sret"): st, mem = self.write(st, mem, v, w, True); continue
            j += 1
            ty = g.types[j] if j < len(g.types) else ""
            if k == k0: continue
            if (ty.endswith("*") or ty.endswith("&")) and not ty.startswith("const ") and v.org and "ErrorMessage" not in ty:
                st, mem = self.write(st, mem, v, w, False)
        return st, mem

    def inline(self, f, x, g, st, mem, args, full, t, nested=False):
        av = []
        for a, w in zip(args, full):
            own = frozenset(o for o in a.org if o[0] == "own")
            loc = any(o[0] != "own" for o in a.org)
            if loc: av.append(Val(a.c, w.cur, w.old, own | frozenset([("arg", -1)]), w.in_ | w.org))
            else: av.append(Val(a.c, a.cur, a.old, own, a.in_))
        up = not nested and is_updater(self.p, g)
        sure = up and not self.upd and st.fail == g.short
        if up: self.upd.append(g.name)
        if self.own_mode:
            for k, a in enumerate(args):
                tk = frozenset(z for z in self.tokens(frozenset(o for o in a.org if o[0] != "own")))
                if tk: self.nexttok[k] = tk
        res = self.run(g, st, av, (t.cur, t.old))
        if up: self.upd.pop()
        out = []
        for s2, v, am in res:
            m2 = mem
            for k, w in am.items():
                if k < len(args) and any(o[0] != "own" for o in args[k].org):
                    s3, m2 = self.write(s2, m2, Val(org=frozenset(o for o in args[k].org if o[0] != "own")), w if g.args[k].get("sret") else w, bool(g.args[k].get("sret")))
            org = set()
            for o in v.org:
                if o[0] == "arg": org |= args[o[1]].org if o[1] < len(args) else set()
                else: org.add(o)
            nv = Val(v.c, v.cur, v.old, frozenset(org), v.in_)
            if up:
                for c in ((v.c,) if v.c is not None else (0, 1)):
                    if sure and not c: continue      # it succeeded with the same inputs before
                    s4 = s2.copy(); s4.fail = 1 if not c else 0 if self.upd else g.short
                    out.append((s4, Val(c, nv.cur, nv.old, nv.org, nv.in_), m2))
            elif g.ret == "bool" and v.c is None and not nested:
                for c in (0, 1): out.append((s2, Val(c, nv.cur, nv.old, nv.org, nv.in_), m2))
            else: out.append((s2, nv, m2))
        return out

    def merge(self, res):
        d = {}
        for st, v, mem in res:
            k = (st.key(), v.c)
            if k in d:
                s0, v0, m0 = d[k]
                c, ch = cjoin(s0.cells, st.cells)
                m = dict(m0)
                for i, w in mem.items(): m[i] = vjoin(m[i], w) if i in m else w
                d[k] = (st.with_(c), vjoin(v0, v), m)
            else: d[k] = (st, v, mem)
        return list(d.values())

    # ---- exploration
    def explore(self):
        p = self.p
        n = len(self.i.flags)
        states = {}
        todo = []
        def add(st, path):
            k = st.key()
            if k in states:
                c, ch = cjoin(states[k][0].cells, st.cells)
                if not ch: return
                states[k] = (st.with_(c), states[k][1])
            else: states[k] = (st, path)
            if k not in todo: todo.append(k)
        ctors = [f for f in p.funcs.values() if f.cls == self.cls and p.is_ctor(f) and not p.is_copy(f)]
        self.inctor = True
        for f in ctors or [None]:
            st = St((0,) * n, 0, (), {})
            if f is None: add(st, ()); continue
            for s, v, am in self.run(f, st, self.pubargs(f), (0, 0)):
                if self.own_mode: self.note(f, s, ())
                s = s.copy(); s.fail = 0; add(s, (f.short.split("::")[-1],))
        self.inctor = False
        rounds = 0
        while todo and rounds < 200:
            k = todo.pop(0); rounds += 1
            st, path = states[k]
            for f in self.public:
                self.inconst = f.const
                for s, v, am in self.apply(f, st):
                    self.judge(f, st, s, v, am, path)
                    if self.own_mode: self.note(f, s, path)
                    if v.c is None and f.const and not v.c and s.fail and f.ret != "bool": pass
                    add(s, path + (f.base.split("::")[-1],) if len(path) < 6 else path)
        self.inconst = False
        self.states = states
    def note(self, f, st, path):
        for k, z in st.cells.items():
            n = k if isinstance(k, int) else k[1] if k[0] == "p" else k[0]
            l = self.i.leaves[n]
            if l not in self.i.ptrs: continue
            for t in z[2]:
                if not t or t == ("*",): 
                    if t == (): self.selfptr.setdefault(l, {}).setdefault((), f)
                elif t[0][0] == "&": self.dangling.setdefault((l, t), (f, path))
                else: self.selfptr.setdefault(l, {}).setdefault(t, f)
    def apply(self, f, st):
        p = self.p
        if p.is_copy(f):
            # the other object: any reachable state; its cells are coherent when its flags say so
            return self.copyfrom(f, st)
        st = st.copy()
        for k, z in st.cells.items():
            if z[3]: st.cells[k] = z[:3] + (0,)
        return self.run(f, st, self.pubargs(f), (0, 0))
    def copyfrom(self, f, st):
        """a hand-written assignment: cells not written keep results of the replaced inputs; flags are taken over as they are read"""
        return self.run(f, st.copy(), self.pubargs(f), (0, 0))
    def pubargs(self, f):
        av = []
        if self.own_mode:
            j = 0
            for k, a in enumerate(f.args):
                if a.get("sret"): continue
                j += 1
                if a["name"] != "this" and j < len(f.types) and f.types[j].endswith("&"): self.nexttok[k] = frozenset([("&param", a["name"])])
        for k, a in enumerate(f.args):
            if a["name"] == "this": av.append(Val(org=frozenset([("own", ())])))
            elif "ErrorMessage" in (dfa.argtype(f, a["name"]) or ""): av.append(Val(0))
            else: av.append(NONE)
        return av
    def cellname(self, d):
        return ".".join(self.i.leaves[d if isinstance(d, int) else d[0]])
    def judge(self, f, before, st, v, am, path):
        if self.collect: return
        if p_copy(self.p, f): return
        vals = [v] if v.c is None else []
        if v.org: vals.append(self.content(st, {}, v))
        for k, a in enumerate(f.args):
            if a.get("sret") and k in am: vals.append(am[k])
        if st.fail == 1: self.nfailed += 1
        if f.const and before.flags and all(before.flags):
            self.nquiet += 1
            for k, z in st.cells.items():
                if z[3] and not (z[2] and z[2] == before.cells.get(k, ZERO)[2] and ("*",) not in z[2]):
                    self.reports.setdefault(("probe", f.short.split("::")[-1], self.cellname(k)), (f, before.flags, path, []))
        for w in vals:
            self.nout += 1
            if w.old:
                for k, bit in self.inputbit.items():
                    if w.old & bit:
                        cells = sorted(self.cellname(d) for d, z in before.cells.items() if z[1] & bit)
                        self.reports.setdefault(("stale", f.short.split("::")[-1], ".".join(self.i.leaves[k])), (f, before.flags, path, cells))
            if st.fail == 1 and w.cur & FAIL and f.const:
                self.reports.setdefault(("failed", f.short.split("::")[-1], ""), (f, before.flags, path, []))

def p_copy(p, f): return p.is_copy(f)
def returns_ref(g): return g.ret.endswith("*") or g.ret.endswith("&")
def may_answer(p, g, k):
    """can the address returned lie in argument k: the object itself, or something of the returned or of a class type"""
    if g.args[k]["name"] == "this": return True
    j = k + 1 - sum(1 for a in g.args[:k] if a.get("sret"))
    t = (g.types[j] if j < len(g.types) else "").replace("const ", "").rstrip("*&")
    return t == g.ret.replace("const ", "").rstrip("*&") or t in p.classes or t.startswith("std::")
def implicit(p, f):
    """compiler-generated copy: its definition lies on the line of the class"""
    c = p.classes.get(f.cls)
    return c is not None and f.line == c.line and f.file == c.file
def is_updater(p, g):
    """a private const step that computes cached cells and reports success"""
    if g.ret != "bool" or not g.const: return False
    c = p.__dict__.setdefault("_upd", {})
    if g.name not in c:
        m = p.access_of(g)
        c[g.name] = m is not None and m["access"] != "public" and const_writer(p, g) and not any("ErrorMessage" in t for t in g.types)
    return c[g.name]
def const_writer(p, g, seen=None):
    seen = seen if seen is not None else set()
    if g.name in seen: return False
    seen.add(g.name)
    for bi, x in g.insts():
        if x["op"] == "store" and dfa.addr(g, x["o"][1])[0] == ("arg", "this"): return True
        if x["op"] == "call" and x["o"] and dfa.is_ptr(g, x["o"][0]):
            r, q = dfa.addr(g, x["o"][0])
            if r != ("arg", "this"): continue
            cs = dfa.callees(p, g, x)
            if q:
                if any(not p.funcs[n].const for n in cs): return True
                last = dfa.base(p, x).split("::")[-1]
                if not cs and (STRONG.match(last) or WEAK.match(last)): return True
            elif any(const_writer(p, p.funcs[n], seen) for n in cs): return True
    return False
def touches_cache(p, g, X, seen=None):
    """does the method (of an embedded object) read cells that the object computes itself"""
    c = p.__dict__.setdefault("_tc", {})
    k = (g.name, X)
    if k in c: return c[k]
    c[k] = False
    i = info(p, X)
    bad = set(i.flags) | {l[0] for l in i.derived}
    r = False
    for bi, x in g.insts():
        for o in x.get("o", ()):
            if isinstance(o, list) and o and o[0] in ("v", "ge"):
                a, q = dfa.addr(g, o)
                if a == ("arg", "this") and q and q[0] in bad: r = True
        if x["op"] == "call" and x["o"] and dfa.is_ptr(g, x["o"][0]) and dfa.addr(g, x["o"][0]) == (("arg", "this"), ()):
            for n in dfa.callees(p, g, x):
                if touches_cache(p, p.funcs[n], X): r = True
        if r: break
    c[k] = r
    return r
