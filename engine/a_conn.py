"""C15: line cables only refer to structures the line owns.

A protocol over the public operations of TransmissionLine, followed path-sensitively on the machine of index.py:
  - a structure leaves the list only after every connection to it was looked for and removed, and before the operation
    returns the cables that became incomplete are removed;
  - after a structure is overwritten, connections to attachments it no longer has are removed, then incomplete cables;
  - a cable enters the list only if its connections were validated and, each of them, found owned by the line and free
    (or if it was in the list before);
  - after the alignment lost an end point, the structures outside of it are removed.
Loops that do one of these jobs are recognised by what they do (which list they walk, what they erase, under which
outcome of which comparison), and count at the point their head is reached."""
import multiprocessing, os, dfa, index, lists
from lists import ZERO

EV = ("ev",)
CLS = "TransmissionLine"

def dem(p, x):
    n = x["f"]
    if not isinstance(n, str): return ""
    return p.decl[n]["dem"] if n in p.decl else ""
def is_list(p, x, elem, names):
    d = dem(p, x)
    return d.startswith("std::__cxx11::list<%s," % elem) and dfa.base(p, x).split("::")[-1] in names
DROP = ("erase", "clear", "pop_back", "pop_front", "remove_if", "remove")
PUT = ("insert", "push_back", "push_front", "emplace", "emplace_back", "emplace_front", "splice", "merge")

class Roles:
    def __init__(self, p):
        self.p = p; self.memo = {}; self.loops_memo = {}; self.und = set()
    def drops(self, g, elem, seen=None):
        """does g, or anything it calls, erase from a list of elem"""
        k = (g.name, elem)
        if k in self.memo: return self.memo[k]
        seen = seen or set()
        if g.name in seen: return False
        seen.add(g.name); r = False
        for bi, x in g.insts():
            if x["op"] != "call": continue
            if is_list(self.p, x, elem, DROP): r = True; break
            if isinstance(x["f"], str) and x["f"] in self.p.funcs and self.drops(self.p.funcs[x["f"]], elem, seen): r = True; break
        self.memo[k] = r; return r
    def reads(self, g, member, seen=None):
        """does g, or a const method it calls, use the member"""
        seen = seen or set()
        if g.name in seen: return False
        seen.add(g.name)
        for bi, x in g.insts():
            if x["op"] == "getelementptr" and member in dfa.steps(g, x["s"]): return True
            if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in self.p.funcs and self.reads(self.p.funcs[x["f"]], member, seen): return True
        return False
    # ---------------------------------------------------------------- one round of a loop under a scenario
    def atom(self, f, o, sc, phi, depth=0):
        """value of an integer operand in the scenario, None if open"""
        if o[0] == "i": return o[1]
        x = dfa.defn(f, o)
        if x is None or depth > 12: return None
        op = x["op"]
        if op in ("trunc", "zext", "sext", "freeze"): return self.atom(f, x["o"][0], sc, phi, depth + 1)
        if op == "phi":
            return phi.get(x["id"])
        if op == "xor":
            a, b = self.atom(f, x["o"][0], sc, phi, depth + 1), self.atom(f, x["o"][1], sc, phi, depth + 1)
            return a ^ b if a is not None and b is not None else None
        if op in ("and", "or"):
            a, b = self.atom(f, x["o"][0], sc, phi, depth + 1), self.atom(f, x["o"][1], sc, phi, depth + 1)
            if op == "and": return 0 if 0 in (a, b) else a & b if None not in (a, b) else None
            return 1 if (a or b) and 1 in (a, b) else a | b if None not in (a, b) else None
        if op in ("add", "sub"):
            a, b = self.atom(f, x["o"][0], sc, phi, depth + 1), self.atom(f, x["o"][1], sc, phi, depth + 1)
            return None if a is None or b is None else a + b if op == "add" else a - b
        if op == "select":
            c = self.atom(f, x["o"][0], sc, phi, depth + 1)
            return self.atom(f, x["o"][1 if c else 2], sc, phi, depth + 1) if c is not None else None
        if op == "icmp":
            if self.is_ptr_test(f, x):
                v = sc.get("same"); return None if v is None else int(v == (x["p"] == "eq"))
            a, b = self.atom(f, x["o"][0], sc, phi, depth + 1), self.atom(f, x["o"][1], sc, phi, depth + 1)
            if a is None or b is None: return None
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[x["p"]])
        if op == "load":
            r, q = dfa.addr(f, x["o"][0])
            if r[0] == "alloca" and q == ():
                w = [y for b, y in f.insts() if y["op"] == "store" and dfa.addr(f, y["o"][1]) == (r, ())]
                return self.atom(f, w[0]["o"][0], sc, phi, depth + 1) if len(w) == 1 else None
            if r[0] == "arg" and q == (): return sc.get("arg")
            return sc.get(q[-1]) if q and isinstance(q[-1], str) else None
        if op == "call":
            for fn, v in sc.get("calls", ()):
                if fn(x): return v
        return None
    def is_ptr_test(self, f, x):
        if x["op"] != "icmp" or x["p"] not in ("eq", "ne"): return False
        return any(self.conn_ptr(f, o) for o in x["o"]) and not any(o[0] == "n" for o in x["o"])
    def conn_ptr(self, f, o):
        y = dfa.defn(f, o)
        return y is not None and y["op"] == "load" and dfa.addr(f, y["o"][0])[1][-1:] == ("line_structure",)
    def round(self, f, h, sc, goal):
        """how one round of the loop can end when the loop goes on: does it reach a block of goal, return to the head or leave"""
        body = f.loops[h][0]; out = set(); seen = set()
        st = [(h, None, False, ())]
        while st:
            b, prev, hit, ph = st.pop()
            phi = dict(ph)
            new = {}
            for x in f.blocks[b]:
                if x["op"] != "phi": break
                if prev is not None and prev in x["in"]:
                    v = self.atom(f, x["o"][x["in"].index(prev)], sc, phi)
                    new[x["id"]] = v
            phi.update({k: v for k, v in new.items()})
            hit = hit or b in goal
            k = (b, hit, tuple(sorted((i, v) for i, v in phi.items() if v is not None)))
            if k in seen: continue
            seen.add(k)
            if len(seen) > 4000: return {"?"}
            t = f.blocks[b][-1]; succ = list(f.succ[b])
            if sc.get("leave") and b in sc["leave"]: out.add("put"); continue
            if sc.get("leave") and not succ:
                out.add("out" if t["op"] != "ret" or not sc.get("value") else ("ret", self.atom(f, t["o"][0], sc, phi))); continue
            if t["op"] == "br" and t.get("o"):
                v = self.atom(f, t["o"][0], sc, phi)
                if v is not None: succ = [t["t"][0 if v else 1]]
                elif b == h or not sc.get("leave"):
                    ins = [z for z in succ if z in body]
                    if b == h and ins: succ = ins           # the loop goes on
            for z in succ:
                if z == h: out.add("goal" if hit else "next")
                elif sc.get("leave"): st.append((z, b, hit, tuple(sorted((i, v) for i, v in phi.items() if v is not None))))
                elif z not in body: out.add("goal" if hit else ("leave", z))
                else: st.append((z, b, hit, tuple(sorted((i, v) for i, v in phi.items() if v is not None))))
        return out
    def inner(self, f, b, want=lambda h: True):
        c = [h for h, (body, l) in f.loops.items() if b in body and want(h)]
        return min(c, key=lambda h: len(f.loops[h][0])) if c else None
    def walks(self, f, h, elem):
        """the loop moves along a list of elem"""
        for b in f.loops[h][0]:
            for x in f.blocks[b]:
                if x["op"] == "call":
                    d = dem(self.p, x)
                    if ("_iterator<%s>::operator++" % elem) in d or ("_iterator<%s>" % elem) in d and "advance" in d or is_list(self.p, x, elem, ("erase", "begin", "cbegin", "end", "cend")): return True
        return False
    def returns_from(self, f, b):
        """blocks reachable from b"""
        seen = set(); st = [b]
        while st:
            z = st.pop()
            if z in seen: continue
            seen.add(z); st.extend(f.succ[z])
        return seen
    def partial(self, f, h):
        """the loop leaves out elements at the front or the back: its end test compares with a position before end(), or it starts after begin()"""
        body = f.loops[h][0]; p = self.p
        def it(x): return isinstance(x["f"], str) and "_List_" in dem(p, x)
        def chain(o, start):
            """(moved by a constant, roots) of the iterator behind operand o; start: look at what happens before the loop only"""
            seen = set(); st = [dfa.addr(f, o)[0]]; moved = 0; roots = set()
            while st:
                a = st.pop()
                if a in seen or a[0] != "alloca": continue
                seen.add(a)
                for b, y in f.insts():
                    if start and (b in body or {k for k in f.loops if b in f.loops[k][0]} != {k for k in f.loops if h in f.loops[k][0] and k != h}): continue
                    if y["op"] == "call" and isinstance(y["f"], str) and y["f"].startswith("llvm.memcpy") and dfa.addr(f, y["o"][0])[0] == a: st.append(dfa.addr(f, y["o"][1])[0])
                    if y["op"] == "store" and dfa.addr(f, y["o"][1])[0] == a:
                        v = dfa.defn(f, y["o"][0])
                        if v is None: roots.add("?")
                        elif v["op"] == "load": st.append(dfa.addr(f, v["o"][0])[0])
                        elif v["op"] == "call": roots.add(dfa.base(p, v).split("::")[-1])
                        else: roots.add("?")
                    if y["op"] == "call" and y["o"] and it(y) and y["o"][0][0] == "v":
                        d = dem(p, y); w = dfa.defn(f, y["o"][0])
                        if w is None or w["op"] not in ("alloca", "getelementptr") or dfa.addr(f, y["o"][0])[0] != a: continue
                        if "operator++" in d: moved += 1
                        elif "operator--" in d: moved -= 1
                        elif "advance" in d: moved += self.atom(f, y["o"][1], {}, {}) or 0
            return moved, roots
        for b in body:
            t = f.blocks[b][-1]
            if t["op"] != "br" or not t.get("o") or all(z in body for z in f.succ[b]): continue
            x = dfa.defn(f, t["o"][0])
            while x is not None and x["op"] in ("xor", "zext", "trunc", "freeze"): x = dfa.defn(f, x["o"][0])
            if x is None: continue
            if x["op"] == "icmp" and x["p"] in ("ne", "eq") and not self.is_ptr_test(f, x) and x["o"][1] == ["i", 0, x["o"][1][-1]]:
                y = dfa.defn(f, x["o"][0])
                while y is not None and y["op"] in ("zext", "trunc"): y = dfa.defn(f, y["o"][0])
                if y is not None and y["op"] == "call": x = y
            if x["op"] == "call" and it(x) and ("operator!=" in dem(p, x) or "operator==" in dem(p, x)) and len(x["o"]) == 2:
                cs = [(chain(o, False), chain(o, True)) for o in x["o"]]
                for (a, r), (sa, sr) in cs:
                    if r and r <= {"end", "cend"} and a: return True
                    if sr and sr <= {"begin", "cbegin"} and r - {"end", "cend"} and sa: return True
            if x["op"] == "icmp":
                for k, o in enumerate(x["o"]):
                    c = counter(f, o, h) if b == h else None
                    d = bounded(f, x["o"][1 - k], p)
                    if c is None or d is None: continue
                    if d < (-1 if x["p"] in (("sle", "sgt", "ule", "ugt") if k == 0 else ("sge", "slt", "uge", "ult")) else 0): return True
                    if any(v[0] == "i" and v[1] > 0 for v, e in zip(c["o"], c["in"]) if e not in body): return True
        return False
    def whole(self, f, b, h=None):
        """all loops around b up to h reach every element"""
        for k, (body, l) in f.loops.items():
            if b in body and (h is None or k in f.loops[h][0]) and (self.walks(f, k, "LineCable") or self.walks(f, k, "LineCableConnection")) and self.partial(f, k): return False
        return True
    # ---------------------------------------------------------------- events at loop heads
    def events(self, f):
        r = self.loops_memo.get(f.name)
        if r is not None: return r
        p = self.p; out = {}
        if f.loops:
            heads = f.loops
            for bi, x in f.insts():
                if x["op"] != "call": continue
                g = p.funcs.get(x["f"]) if isinstance(x["f"], str) else None
                # connections removed
                if is_list(p, x, "LineCableConnection", DROP) or g is not None and g.cls != CLS and self.drops(g, "LineCableConnection") and g.method or \
                   g is not None and not g.method and self.drops(g, "LineCableConnection"):
                    h = self.inner(f, bi, lambda h: self.walks(f, h, "LineCable"))
                    if h is None or not self.whole(f, bi, h) or g is not None and any(self.partial(g, k) for k in g.loops): continue
                    i = self.inner(f, bi)
                    kind, where = self.disc_kind(f, i, bi, h, g)
                    if kind: out.setdefault(h, []).append((kind, where))
                # incomplete cables removed
                if is_list(p, x, "LineCable", DROP):
                    h = self.inner(f, bi, lambda h: self.walks(f, h, "LineCable"))
                    if h is not None and self.whole(f, bi, h) and self.prunes(f, h, bi): out.setdefault(h, []).append(("prune", None))
                # structures outside removed
                if is_list(p, x, "LineStructure", DROP):
                    h = self.inner(f, bi, lambda h: self.walks(f, h, "LineStructure"))
                    if h is not None and self.sprunes(f, h, bi): out.setdefault(h, []).append(("sprune", None))
            puts = {bi for bi, x in f.insts() if x["op"] == "call" and (is_list(p, x, "LineCable", PUT) or isinstance(x["f"], str) and x["f"] in p.funcs and p.funcs[x["f"]].cls == CLS and not p.funcs[x["f"]].const)}
            for h in heads:
                if not self.walks(f, h, "LineCableConnection"): continue
                for e in self.checks(f, h, puts): out.setdefault(h, []).append((e, None))
        self.loops_memo[f.name] = out
        return out
    def disc_kind(self, f, i, bi, h, g):
        """what a loop that removes connections removes: all connections to a structure, or those past its attachments"""
        tests = [x for b in f.loops[h][0] for x in f.blocks[b] if self.is_ptr_test(f, x)]
        if not tests: return ("disc", None) if g is not None and any(self.is_ptr_test(g, x) for b, x in g.insts()) else (None, None)
        x = tests[0]; other = [o for o in x["o"] if not self.conn_ptr(f, o)]
        size = [(lambda y: y["op"] == "call" and dfa.base(self.p, y).endswith("::size") and "LineCable" not in dem(self.p, y), None)]
        def sc(same, n, m): return {"same": same, "index_attachment": m, "calls": [(size[0][0], n)]}
        r = self.round(f, i, sc(True, 5, 9), {bi})
        if not r or "goal" not in r: return (None, None)
        if r != {"goal"}: self.und.add("%s: connections are removed under a further condition" % f.where(f.blocks[bi][0]))
        full = self.round(f, i, sc(True, 9, 2), {bi})
        if "goal" in full: return ("disc", other[0] if other else None)
        if "goal" in self.round(f, i, sc(True, 5, 5), {bi}): return ("trim", other[0] if other else None)
        return (None, None)
    def prunes(self, f, h, bi):
        p = self.p
        def valid(y):
            g = p.funcs.get(y["f"]) if isinstance(y["f"], str) else None
            return g is not None and g.cls == "LineCable" and g.const and g.ret == "bool" and self.reads(g, "connections_")
        def size(y): return is_list(p, y, "LineCableConnection", ("size",))
        i = self.inner(f, bi)
        r = self.round(f, i, {"calls": [(valid, 0), (size, 1)]}, {bi})
        return "goal" in r
    def sprunes(self, f, h, bi):
        p = self.p
        def valid(y):
            g = p.funcs.get(y["f"]) if isinstance(y["f"], str) else None
            return g is not None and g.cls == "Alignment" and g.const and g.ret == "bool"
        return "goal" in self.round(f, self.inner(f, bi), {"calls": [(valid, 0)]}, {bi})
    def checks(self, f, h, puts):
        """own: a connection to a structure outside the line ends the loop before anything is put in; free: so does a taken attachment"""
        p = self.p; out = []
        if self.partial(f, h): return out
        def own(y):
            g = p.funcs.get(y["f"]) if isinstance(y["f"], str) else None
            return g is not None and g.cls == CLS and g.const and g.ret == "int" and self.reads(g, "line_structures_")
        def ownb(y):
            g = p.funcs.get(y["f"]) if isinstance(y["f"], str) else None
            return g is not None and g.cls == CLS and g.const and g.ret == "bool" and self.reads(g, "line_structures_") and not self.reads(g, "line_cables_")
        def busy(y):
            g = p.funcs.get(y["f"]) if isinstance(y["f"], str) else None
            return g is not None and g.cls == CLS and g.const and g.ret == "bool" and self.reads(g, "line_cables_")
        calls = [x for b in f.loops[h][0] for x in f.blocks[b] if x["op"] == "call"]
        nested = [k for k in f.loops if k != h and k in f.loops[h][0]]
        def stops(sc):
            return self.round(f, h, dict(sc, leave=puts or {-1}), set()) == {"out"}
        def goes(sc):
            return "next" in self.round(f, h, dict(sc, leave=puts or {-1}), set())
        good = [(own, 0), (ownb, 1), (busy, 0)]
        if any(own(x) or ownb(x) for x in calls):
            if stops({"calls": [(own, -1), (ownb, 0), (busy, 0)]}) and goes({"calls": good}): out.append("own")
        elif any(self.walks(f, k, "LineStructure") for k in nested): out.append("own"); self.und.add("%s: ownership tested in place" % f.short)
        if any(busy(x) for x in calls):
            gs = {x["f"] for x in calls if busy(x)}
            if all(self.finds(p.funcs[g]) for g in gs) and stops({"calls": [(own, 0), (ownb, 1), (busy, 1)]}) and goes({"calls": good}): out.append("free")
        elif any(self.walks(f, k, "LineCable") for k in nested): out.append("free"); self.und.add("%s: open attachments tested in place" % f.short)
        return out

    def finds(self, g):
        """a taken attachment is answered with true: in the loop that compares structure pointers, equal pointer and equal index"""
        for bi, x in g.insts():
            if self.is_ptr_test(g, x):
                h = self.inner(g, bi)
                if h is None: continue
                if not self.whole(g, bi): return False
                r = self.round(g, h, {"same": True, "arg": 3, "index_attachment": 3, "leave": {-1}, "value": True}, set())
                if "next" in r and len(r) == 1 or ("ret", 0) in r: return False
        return True

class ConnMachine(index.IndexMachine):
    def __init__(self, p, roles, S, L, A):
        index.IndexMachine.__init__(self, p, CLS)
        self.roles = roles; self.S = S; self.L = L; self.A = A
        self.bad = {}; self.seen = {}
    def ev(self, s, n): return s.mem.get((EV, (n,)))
    def put(self, s, n, v):
        if v is None: s.mem.pop((EV, (n,)), None)
        else: s.mem[(EV, (n,))] = v
    def fault(self, f, x, key, what): self.bad.setdefault(key, (f.where(x) if x is not None else "%s:%s" % (f.file.replace(self.p.root + "/", ""), f.line), what))
    def count(self, k): self.seen[k] = self.seen.get(k, 0) + 1

    def block(self, f, bi, i, env, s, depth):
        if f.loops and bi in f.loops and f.file.startswith(self.p.root) and f.cls == CLS:
            for kind, o in self.roles.events(f).get(bi, ()):
                s = s.copy(); self.count(kind)
                if kind in ("disc", "trim"):
                    v = self.val(f, env, depth, o) if o is not None else None
                    v = v if v is not None and v[0] == "addr" else ("i", 1)
                    if kind == "disc": self.put(s, "disc", v)
                    self.put(s, "modified", None if self.same(s, v, self.ev(s, "modified")) is not False else self.ev(s, "modified"))
                    self.put(s, "prune", ("i", 1))
                elif kind == "prune": self.put(s, "prune", None)
                elif kind == "sprune": self.put(s, "narrow", None)
                elif kind in ("own", "free"): self.put(s, kind, ("i", 1))
        yield from index.IndexMachine.block(self, f, bi, i, env, s, depth)
    def at(self, v):
        """position of an element address of the structures"""
        if v is None or v[0] != "addr" or v[1] != ("this",) or v[2][:len(self.S)] != self.S or len(v[2]) <= len(self.S): return None
        q = v[2][len(self.S)]
        return q[1] if isinstance(q, tuple) and q[:1] == ("[]",) else None
    def same(self, s, a, b):
        if a is None or b is None: return True
        a, b = self.at(a), self.at(b)
        if a is None or b is None: return None
        if self.le(s, a, b) is True and self.le(s, b, a) is True: return True
        if a[0] == b[0]: return a[1] == b[1]
        if a[0][0] == "d" or b[0][0] == "d": return None
        return False

    def call(self, f, x, env, s, depth):
        p = self.p; name = x["f"]
        A = None
        if isinstance(name, str):
            elem = next((e for e in ("LineStructure", "LineCable", "AlignmentPoint") if dem(p, x).startswith("std::__cxx11::list<%s," % e)), None)
            short = dfa.base(p, x).split("::")[-1].replace("@", "")
            if elem:
                A = [self.val(f, env, depth, o) for o in x["o"]]
                a = self.norm(A[1] if x.get("sret") else A[0]) if A else None
                own = a is not None and a[1] == ("this",) and a[2]
                if elem == "LineStructure" and own == self.S and short in DROP:
                    s = s.copy(); self.count("structure erased")
                    d = self.ev(s, "disc")
                    if d is None: self.fault(f, x, "%s:erase" % f.short, "a line structure is removed without its connections having been looked for in the line cables")
                    else:
                        v = self.lit(s, A[1]) if len(A) > 1 else None
                        if v is not None and v[2] is not None and self.same(s, d, self.elem(s, self.norm(v[1]), v[2])) is False:
                            self.fault(f, x, "%s:erase-other" % f.short, "the line structure removed is not the one whose connections were removed")
                    self.put(s, "disc", None)
                if elem == "LineCable" and own == self.L and short in PUT:
                    s = s.copy(); self.count("cable inserted")
                    if not self.held(f, x):
                        miss = [t for k, t in (("own", "every connection being to a structure of the line"), ("free", "every attachment being free"), ("valid", "its connections being valid")) if self.ev(s, k) is None]
                        if miss: self.fault(f, x, "%s:insert" % f.short, "a line cable is added without " + " and ".join(miss))
                if elem == "AlignmentPoint" and own == self.A and short in DROP:
                    s = s.copy(); self.count("alignment point erased")
                    v = self.lit(s, A[1]) if short == "erase" and len(A) > 1 else None
                    n = self.lin(v[2]) if v is not None and v[2] is not None else None
                    self.put(s, "narrow", ("at", n) if n is not None else ("at", (("?",), 0)))
                if elem == "AlignmentPoint" and own == self.A and short in ("operator=", "swap"):
                    s = s.copy(); self.put(s, "narrow", None)
            g = p.funcs.get(name)
            if g is not None and g.cls == "LineStructure" and g.method and not g.const and not p.is_ctor(g) and not p.is_dtor(g):
                A = [self.val(f, env, depth, o) for o in x["o"]]
                if A and A[0] is not None and self.at(A[0]) is not None and (p.is_copy(g) or "structure_" in written(p, g)):
                    s = s.copy(); self.count("structure overwritten")
                    self.put(s, "modified", ("addr", A[0][1], A[0][2][:len(self.S) + 1]))
            if g is not None and g.cls == "LineCable" and g.const and g.ret == "bool" and self.roles.reads(g, "connections_"):
                A = [self.val(f, env, depth, o) for o in x["o"]]
                if A and A[0] is not None and A[0][0] == "addr" and A[0][1][0] == "arg":
                    t = s.copy(); self.put(t, "valid", ("i", 1))
                    yield ("i", 1), env, t
                    yield ("i", 0), env, s.copy(); return
        yield from index.IndexMachine.call(self, f, x, env, s, depth)
    def held(self, f, x):
        """the cable put in is a copy of one taken from the list, or the list of another line is taken over"""
        for o in x["o"][1:]:
            y = dfa.defn(f, o)
            if y is not None and y["op"] == "alloca":
                for b, z in f.insts():
                    if z["op"] == "call" and isinstance(z["f"], str) and z["f"] in self.p.funcs and self.p.is_copy(self.p.funcs[z["f"]]) and z["o"] and z["o"][0] == ["v", y["id"]]:
                        w = dfa.defn(f, z["o"][1])
                        if w is not None and w["op"] == "call" and "_iterator<LineCable>" in dem(self.p, w) or w is not None and w["op"] == "call" and is_list(self.p, w, "LineCable", ("front", "back")): return True
        return False

def below(m, s, a, b):
    """a < b is known"""
    if m.le(s, (a[0], a[1] + 1), b) is True: return True
    return m.le(s, a, b) is True and any(("ne",) + t in s.cmpf for k in range(-2, 3) for t in (((a[0], a[1] + k), (b[0], b[1] + k)), ((b[0], b[1] + k), (a[0], a[1] + k))))

def relinked(p, roles, g, S, L):
    """the copy of a line turns every connection of every cable to its own structures: what is plainly left out"""
    seen = {}; st = [g]
    while st:
        f = st.pop()
        if f.name in seen: continue
        seen[f.name] = f
        for bi, x in f.insts():
            h = p.funcs.get(x["f"]) if x["op"] == "call" and isinstance(x["f"], str) else None
            if h is not None and h.file.startswith(p.root) and h.cls in (CLS, None, "") and not h.const: st.append(h)
    where = lambda f, x=None: f.where(x) if x is not None else "%s:%s" % (f.file.replace(p.root + "/", ""), f.line)
    stores = [(f, bi, x) for f in seen.values() for bi, x in f.insts() if x["op"] == "store" and dfa.addr(f, x["o"][1])[1][-1:] == ("line_structure",)]
    puts = []
    for f in seen.values():
        for bi, x in f.insts():
            h = p.funcs.get(x["f"]) if x["op"] == "call" and isinstance(x["f"], str) else None
            if h is not None and h.cls == "LineCable" and not h.const and h.method and not p.is_ctor(h) and not p.is_dtor(h) and not p.is_copy(h) and roles.inner(f, bi, lambda k: roles.walks(f, k, "LineCable")) is not None: puts.append((f, bi, x))
    if not puts and not any(roles.inner(f, bi, lambda k: roles.walks(f, k, "LineCable")) is not None for f, bi, x in stores):
        return [("relink", where(g), "the copy keeps connections to the structures of the line copied from: no connection of its cables is replaced")]
    bad = []
    if not stores: bad.append(("relink", where(*puts[0][::2]), "the connections of the copy are written back without being given the copy's structures"))
    for f in seen.values():
        for bi, x in f.insts():
            h = p.funcs.get(x["f"]) if x["op"] == "call" and isinstance(x["f"], str) else None
            if h is not None and h.cls == CLS and h.const and h.ret == "int" and roles.reads(h, S) and dfa.addr(f, x["o"][0]) == (("arg", "this"), ()) and f.name == g.name and roles.inner(f, bi) is not None:
                bad.append(("search", where(f, x), "a structure of the line copied from is searched among the copy's structures"))
    for f, bi, x in puts:
        for k, (body, latches) in f.loops.items():
            if bi not in body: continue
            t = f.blocks[k][-1]
            c = dfa.defn(f, t["o"][0]) if t["op"] == "br" and t.get("o") else None
            if c is None or c["op"] != "icmp": continue
            for n, o in enumerate(c["o"]):
                ph = counter(f, o, k)
                if ph is None: continue
                start = [v for v, pb in zip(ph["o"], ph["in"]) if pb not in body]; step = [dfa.defn(f, v) for v, pb in zip(ph["o"], ph["in"]) if pb in body]
                if len(start) != 1 or start[0][0] != "i" or not step or any(z is None or z["op"] != "add" for z in step): continue
                if start[0][1] > 0: bad.append(("first", where(f, c), "the first connections of a cable are left with the structures of the line copied from"))
                elif bounded(f, c["o"][1 - n], p) is not None and c["p"] in ("slt", "sgt", "ult", "ugt", "ne") and bounded(f, c["o"][1 - n], p) < 0: bad.append(("last", where(f, c), "the last connections of a cable are left with the structures of the line copied from"))
    return bad
def counter(f, o, k):
    x = dfa.defn(f, o)
    while x is not None and x["op"] in ("sext", "zext", "trunc"): x = dfa.defn(f, x["o"][0])
    return cell_phi(f, x, k)
def cell_phi(f, x, k):
    """the phi of the loop head, or the single cell a counter taken by reference lives in"""
    if x is None: return None
    if x["op"] == "phi" and any(y is x for y in f.blocks[k]): return x
    if x["op"] == "load":
        r, q = dfa.addr(f, x["o"][0])
        if r[0] != "alloca" or q: return None
        body = f.loops[k][0]
        w = [(b, y) for b, y in f.insts() if y["op"] == "store" and dfa.addr(f, y["o"][1]) == (r, ())]
        if len([1 for b, y in w if b not in body]) != 1: return None
        return {"o": [y["o"][0] for b, y in w], "in": [b if b in body else -1 for b, y in w]}
    return None
def bounded(f, o, p):
    """offset d when the operand is size() + d"""
    d = 0
    while True:
        x = dfa.defn(f, o)
        if x is None: return None
        if x["op"] in ("sext", "zext", "trunc"): o = x["o"][0]; continue
        if x["op"] in ("add", "sub") and x["o"][1][0] == "i": d += x["o"][1][1] if x["op"] == "add" else -x["o"][1][1]; o = x["o"][0]; continue
        if x["op"] == "call" and dfa.base(p, x).endswith("::size"): return d
        return None

def written(p, g):
    return {q[-1] for bi, x in g.insts() if x["op"] == "store" for q in [dfa.addr(g, x["o"][1])[1]] if q and isinstance(q[-1], str)}

_ctx = None
def one(fn):
    p, S, L, A = _ctx
    f = p.funcs[fn]; roles = Roles(p); m = ConnMachine(p, roles, S, L, A)
    try: rs = m.explore(f)
    except lists.Undecided as e: return fn, 0, {}, {}, m.steps, str(e), roles.und
    except (TypeError, KeyError, IndexError, RecursionError) as e: return fn, 0, {}, {}, m.steps, "engine: %r" % e, roles.und
    for v, s in rs:
        fail = f.ret in ("int", "bool") and (v == ("i", -1) or f.ret == "bool" and v == ("i", 0))
        if m.ev(s, "modified") is not None: m.fault(f, None, "%s:modify" % f.short, "a line structure is overwritten and its connections past the new attachments stay")
        if m.ev(s, "prune") is not None: m.fault(f, None, "%s:prune" % f.short, "connections are removed and line cables left incomplete stay")
        n = m.ev(s, "narrow")
        if n is not None and not fail:
            n = n[1]; size = ("fld", ("this",), A + (index.N,))
            if n[0] != ("?",) and not (below(m, s, (ZERO, 0), n) and below(m, s, n, (size, -1))):
                m.fault(f, None, "%s:narrow" % f.short, "the first or last alignment point is removed and the structures outside of the alignment stay")
    return fn, len(rs), m.bad, m.seen, m.steps, None, roles.und

def analyse(p, res, thorough=False):
    roles = Roles(p); total = {}; und = []; steps = 0; ops = 0
    c = p.classes[CLS]
    def of(t): return next((m["name"] for m in c.members if t in m["type"].replace(" ", "")), None)
    S, L = of("list<LineStructure"), of("list<LineCable"); al = next((m["name"] for m in c.members if m["type"].split("::")[-1] == "Alignment"), None)
    pts = next((m["name"] for m in p.classes["Alignment"].members if "list<AlignmentPoint" in m["type"].replace(" ", "")), None)
    if not (S and L and al and pts): raise Exception("the lists of TransmissionLine were not found")
    jobs = []
    for f, meth, k in sorted(p.methods_of(CLS), key=lambda t: (t[0].line, t[0].name)):
        if k != CLS or f.const or p.is_ctor(f) or p.is_copy(f) or p.is_dtor(f) or not f.file.startswith(p.root): continue
        if meth is not None and meth.get("access") not in (None, "public"): continue
        jobs.append(f.name)
    global _ctx
    _ctx = (p, (S,), (L,), (al, pts)); index.filled(p)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool: rs = pool.map(one, jobs, chunksize=1)
    for fn, ways, bad, seen, st, give, open_ in rs:
        f = p.funcs[fn]; ops += 1; steps += st; roles.und |= open_
        if give: und.append("%s: %s" % (f.short, give)); continue
        for k2, n in seen.items(): total[k2] = total.get(k2, 0) + n
        res.oblige(ways, not bad)
        for key, (where, what) in sorted(bad.items()): res.violate(key, where, what, path=["in %s" % f.short])
        if len(res.samples) < 20: res.samples.append("%s: %d ways to return, %s" % (f.short, ways, ", ".join("%s %d" % t for t in sorted(seen.items())) or "no list touched"))
    for g in sorted((g for g in p.funcs.values() if g.cls == CLS and p.is_copy(g) and g.file.startswith(p.root)), key=lambda g: g.name):
        bad = relinked(p, roles, g, S, L)
        res.oblige(1, not bad)
        for k, where, what in bad: res.violate("%s:%s" % (g.short, k), where, what, path=["in %s" % g.short])
    res.coverage.update(operations=ops, events=total, block_evaluations=steps, given_up=und, conditions_not_decided=sorted(roles.und))
