"""Bounds of element accesses: the path-sensitive machine of lists.py with one number per container (its size).

Every container (std::vector, std::list) at any address has a symbolic size; sizes, indexes and iterator positions are
linear terms, compared through difference bounds collected from the tests on the path."""
import dfa, lists
from lists import Machine, Undecided, Dead, ZERO, walk

N = "#n"
EXACT = 3
LIMIT = 80000

class IndexMachine(Machine):
    small = 1
    def __init__(self, p, cls):
        Machine.__init__(self, p, cls)
        self.conts = {}
        self.size_members = None
        self.acc = {}            # (function, line, kind) -> [verdicts]

    def explore(self, f):
        self.stack = []; self.rel_memo = getattr(self, "rel_memo", {})
        args = {}
        for a in f.args:
            args[a["id"]] = ("addr", ("this",), ()) if a["name"] == "this" else ("addr", ("l", -1, "ret"), ()) if a.get("sret") else ("addr", ("arg", a["name"]), ()) if a["ty"] == "ptr" else ("fld", ("arg", a["name"]), ())
        return self.run(f, args, self.initial(), 0)

    # ---------------------------------------------------------------- sizes
    def norm(self, a):
        if a is None: return None
        if a[0] == "fld": a = ("addr", ("via", a), ())
        return a if a[0] == "addr" else None
    def newsym(self, s):
        sy = ("d", s.fresh()); s.facts[(ZERO, sy)] = 0
        return self.mk(sy, 0)
    def sz(self, s, a):
        """size of the container at address a (may record a new symbol in s)"""
        a = self.norm(a)
        if a is None: return None
        root, path = a[1], a[2] + (N,)
        if root[0] == "l":
            v = s.mem.get((root, path))
            if v is None:
                for n in range(len(a[2]), -1, -1):
                    w = s.mem.get((root, path[:n]))
                    if w is not None and w[0] == "copy" and w[1] is not None: v = ("fld", w[1], path[n:]); break
            if v is None:
                v = self.newsym(s)
                if not indexed(path): s.mem[(root, path)] = v
        elif root == ("this",):
            if path in s.mod: v = s.mod[path]
            elif any(path[:n] in s.mod for n in range(len(path))) or self.smeared(s, path): v = None
            else: v = ("fld", root, path)
            if v is None: v = self.newsym(s); s.mod[path] = v
        else:
            v = self.fld(root, path)
            if v is None: return None
        n = self.lin(v)
        if n is not None and n[0] != ZERO and self.bound(s, ZERO, n[0]) is None: s.facts[(ZERO, n[0])] = 0
        return v
    def setsz(self, s, a, v):
        a = self.norm(a)
        if a is None: return
        root, path = a[1], a[2] + (N,)
        if v is None: v = self.newsym(s)
        if root[0] == "l":
            if not indexed(path): s.mem[(root, path)] = v
        elif root == ("this",): s.mod[path] = v
    def store(self, s, a, v, env):
        if a is not None and a[0] == "addr" and a[1][0] == "l" and indexed(a[2]): return env      # elements of local collections are not remembered
        return Machine.store(self, s, a, v, env)
    def touched(self, s, a):
        """the content of the container is replaced"""
        a = self.norm(a)
        if a is None: return
        if a[1][0] == "l": self.store(s, a, None, {})
        elif a[1] == ("this",): self.modify(s, a[2], None)
    def elem(self, s, a, idx):
        """address of an element: its index is part of the path"""
        n = self.lin(idx) if idx is not None else None
        if n is None: n = (("d", s.fresh()), 0)
        return ("addr", a[1], a[2] + (("[]", n),))
    def modify(self, s, path, v=None):
        i = next((i for i, q in enumerate(path) if isinstance(q, tuple) and q[:1] == ("[]",)), None)
        if i is not None:
            # an element: whatever is known of any element may be of this one
            for k in [k for k in s.mod if len(k) > i and k[:i] == path[:i] and isinstance(k[i], tuple)]: del s.mod[k]
            s.mod[path[:i] + ("[*]",)] = None
            return
        Machine.modify(self, s, path, v)
    def load(self, s, a):
        a2 = self.norm(a)
        if a2 is not None and a2[1] == ("this",) and self.smeared(s, a2[2]) and a2[2] not in s.mod: return None
        v = Machine.load(self, s, a)
        if v is None and a2 is not None and a2[1] == ("this",) and self.sizelike(a2[2]):
            v = self.mk(("d", s.fresh()), 0); s.mod[a2[2]] = v
        return v
    def smeared(self, s, path):
        return any(isinstance(q, tuple) and q[:1] == ("[]",) and path[:i] + ("[*]",) in s.mod for i, q in enumerate(path))
    def plus(self, v, d):
        n = self.lin(v) if v is not None else None
        return self.mk(n[0], n[1] + d) if n is not None else None

    def icmp(self, s, p, a, b):
        if a is not None and b is not None:
            # a difference against a number: the two sides against each other
            if b[0] == "dif" and a[0] == "i" and p[0] != "u": a, b = b, a; p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
            if a[0] == "dif": return self.icmp(s, p, self.mk(*a[1]), self.mk(a[2][0], a[2][1] + b[1])) if b[0] == "i" and p[0] != "u" else None
            if p in ("ult", "uge", "ugt", "ule"):
                x, y = (a, b) if p in ("ult", "uge") else (b, a)
                lx, ly = self.lin(x), self.lin(y)
                if lx is None or ly is None or self.le(s, (ZERO, 0), ly) is not True: return None
                if self.le(s, (ZERO, 0), lx) is not True: return ("cmp", "ult", x, y) if p in ("ult", "ugt") else ("not", ("cmp", "ult", x, y))
        return Machine.icmp(self, s, p, a, b)
    def assume(self, s, v, truth):
        """only tests of numbers are remembered"""
        if v is not None and v[0] == "cmp" and v[1] == "ult":
            s = s.copy(); x, y = self.lin(v[2]), self.lin(v[3])
            try:
                if truth: self.assume_le(s, (ZERO, 0), x); self.assume_le(s, (x[0], x[1] + 1), y)
                elif self.le(s, (ZERO, 0), x) is True: self.assume_le(s, y, x)
                self.tidy(s)
            except Dead: return []
            return [s]
        if v is not None and (v[0] in ("fcmp", "fld") or v[0] == "cmp" and v[1] not in ("le", "ieq")): return [s.copy()]
        return Machine.assume(self, s, v, truth)

    # ---------------------------------------------------------------- joins: one state per block and content, with the facts all paths share
    def gc(self, s, env):
        used = set()
        def fn(v):
            if v[:1] == ("[]",) and len(v) == 2: used.add(v)
        for v in env.values(): walk(v, fn)
        for v in s.mem.values(): walk(v, fn)
        def gone(v):
            out = []
            def g(y):
                if y[:1] == ("[]",) and len(y) == 2 and y not in used: out.append(1)
            walk(v, g); return bool(out)
        for k in [k for k in s.mod if gone(k)]: del s.mod[k]
        for k in [k for k in s.facts if gone(k)]: del s.facts[k]
        for k in [k for k in s.cmpf if gone(k)]: del s.cmpf[k]
        Machine.gc(self, s, env)
        live = {k[0] for k, v in s.mem.items() if v is not None}
        for k in [k for k in s.mem if k[0] not in live]: del s.mem[k]
    def known(self, seen, bi, s, env):
        """states with the same values are joined: facts both imply, members both agree on"""
        syms = {}
        def r(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "d" and not isinstance(v[1], tuple): return ("d", syms.setdefault(v[1], len(syms)))
                return tuple(r(x) for x in v)
            return v
        e = tuple((k, r(env[k])) for k in sorted(env))
        m = tuple((r(k), r(s.mem[k])) for k in sorted(s.mem, key=repr))
        key = (bi, e, m)
        md = {}
        for k in sorted(s.mod, key=repr):
            # a number only a member holds is named after the member
            q = r(k); v = s.mod[k]; n = self.lin(v) if v is not None else None
            if n is not None and n[0][0] == "d" and n[0][1] not in syms: syms[n[0][1]] = ("md",) + q
            md[q] = r(v)
        fc = {(r(a), r(b)): c for (a, b), c in s.facts.items()}
        cf = {r(k): v for k, v in s.cmpf.items()}
        self.last = (key, False)
        if not s.joined and (len(self.stack) <= 1 and self.steps < 1500):
            # the first few ways to get here are followed as they are; only what comes later is joined
            E = seen.setdefault((key, "exact"), [])
            if (fc, cf, md) in E: return True
            if len(E) < EXACT: E.append((fc, cf, md)); self.last = (key, len(E)); return False
        old = seen.get(key)
        if old is None: seen[key] = (fc, cf, 0, md); return False
        of, oc, times, om = old
        nm = {}
        for q in set(om) | set(md):
            if q in om and q in md and om[q] == md[q]: nm[q] = om[q]
            else: nm[q] = None
        nf = {}
        for q in set(of) | set(fc):
            a, b = implied(of, q), implied(fc, q)
            if a is not None and b is not None and (times < 6 or q in of and a == of[q] and b <= a): nf[q] = max(a, b)
        nc = {q: v for q, v in oc.items() if cf.get(q) == v}
        if nf == of and nc == oc and nm == om: return True
        seen[key] = (nf, nc, times + 1, nm); s.joined = True
        inv = {("d", v): ("d", n) for n, v in syms.items()}
        def back(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "d": return inv.get(v, ("d", ("gone", v[1])))
                return tuple(back(x) for x in v)
            return v
        lost = set(nm) - set(md)
        s.mod = {back(q): (back(v) if v is not None else None) for q, v in nm.items()}
        s.facts = {back(q): c for q, c in nf.items()}; s.cmpf = {back(q): v for q, v in nc.items()}
        return False
    def result(self, out, v, s):
        key = self.last
        out = [z for z in out if z[2] != key]
        out.append((v, s, key)); return out
    def run(self, f, args, s, depth):
        if self.steps > LIMIT: raise Undecided("too many paths")
        return [(z[0], z[1]) for z in Machine.run(self, f, args, s, depth)]

    # ---------------------------------------------------------------- verdicts
    def origin(self, v):
        """where an index comes from"""
        n = self.lin(v)
        if n is None: return "unknown"
        y = n[0]
        if y == ZERO: return "constant"
        if y[0] == "fld": return "argument" if y[1][0] == "arg" and y[2] == () else "size" if y[2][-1:] == (N,) else "member" if y[1] == ("this",) and len(y[2]) == 1 else "data"
        return "counter"
    def holder(self, a):
        """who fills the container: a local of the operation, a list the class's own users fill, an object the class is
        pointed at, the class itself (a cache, whose size is the class's own affair), or deeper data"""
        a = self.norm(a)
        if a is None: return "unknown"
        r, q = a[1], a[2]; via = 0
        while r[0] == "via" and len(r) > 1 and r[1][0] == "fld": q = r[1][2] + q; r = r[1][1]; via += 1
        if any(isinstance(y, tuple) for y in q): return "data"
        if r[0] == "l": return "local"
        if r[0] == "arg": return "local" if q == () else "data"
        if r == ("this",):
            if "*" in q or via: return "pointed"
            return "filled" if q[-1:] and (q[-1] in filled(self.p)) else "cache"
        return "unknown"
    def owner(self, y):
        return y[2][-2] if y[0] == "fld" and y[1] == ("this",) and len(y[2]) == 2 and y[2][-1] == N and y[2][0] in filled(self.p) else None
    def ispath(self, k):
        """a size, or a member that caches one"""
        q = k[1] if len(k) == 2 and isinstance(k[0], tuple) and isinstance(k[1], tuple) and k[0][:1] != ("[]",) else k
        return q[-1:] == (N,) or self.sizelike(q)
    def sizelike(self, path):
        """int members some method sets to the size of a container"""
        if len(path) != 1 or not isinstance(path[0], str): return False
        if self.size_members is None:
            out = set()
            for g in self.p.funcs.values():
                if g.cls != self.cls: continue
                for bi, x in g.insts():
                    if x["op"] == "store":
                        m = dfa.this_member(g, x["o"][1]); v = strip(g, x["o"][0])
                        if m and v is not None and v["op"] == "call" and isinstance(v["f"], str) and dfa.base(self.p, v).endswith("::size"): out.add(m)
                    elif x["op"] == "call" and isinstance(x["f"], str) and dfa.base(self.p, x) in ("std::vector::resize", "std::vector::assign"):
                        v = strip(g, x["o"][1])
                        if v is not None and v["op"] == "load":
                            m = dfa.this_member(g, v["o"][0])
                            if m: out.add(m)
            self.size_members = out
        return path[0] in self.size_members
    def text(self, a):
        a = self.norm(a)
        if a is None: return "a container"
        q = tuple(x for x in a[2] if isinstance(x, str) and x not in ("*", N))
        r = a[1]
        while r[0] == "via" and len(r) > 1 and r[1][0] == "fld": q = tuple(x for x in r[1][2] if isinstance(x, str) and x != "*") + q; r = r[1][1]
        if r[0] == "arg": q = (r[1],) + q
        return ".".join(str(x) for x in q) or "a container"
    def access(self, f, x, s, a, idx, last, what):
        """an access needs 0 <= idx <= size - 1 (last = 1) or, for positions, idx <= size (last = 0)"""
        key = (f.name, f.where(x), what, self.text(a)); self.events += 1
        R = self.acc.setdefault(key, set()); og = self.origin(idx) + "/" + self.holder(a)
        n = self.lin(idx) if idx is not None else None
        size = self.sz(s, a)
        if n is None or size is None: R.add(("?", og, "")); return
        m = self.lin(size)
        lo = self.le(s, (ZERO, 0), n); hi = self.le(s, n, (m[0], m[1] - last))
        if lo is True and hi is True: R.add(("ok", og, "")); return
        if lo is True or n[0] == ZERO and n[1] >= 0:
            # bounded by the size of another container
            best = None; own = self.owner(m[0])
            sizes = {self.lin(v)[0] for mm in (s.mod, s.mem) for k, v in mm.items() if v is not None and self.lin(v) is not None and self.ispath(k)}
            for y in {y for k in s.facts for y in k}:
                if y == m[0] or y == n[0] or y == ZERO: continue
                if y not in sizes and not (y[0] == "fld" and (y[2][-1:] == (N,) or y[1] == ("this",) and self.sizelike(y[2])) or y[0] == "n0"): continue
                if own is not None and self.owner(y) not in (None, own): continue      # two lists filled separately
                b = self.bound(s, n[0], y)
                if b is not None and (best is None or b + n[1] < best): best = b + n[1]
            if best is not None and best <= -last: R.add(("other", og, "")); return
            b = self.bound(s, n[0], m[0])
            over = best if b is None else b + n[1] - m[1]
            R.add(("high" if s.joined else "high!", og, "the index may reach the size" if over is not None else "nothing bounds the index" if not og.startswith("constant") else "the container may be too small"))
        else:
            b = self.bound(s, ZERO, n[0])
            R.add(("low" if s.joined else "low!", og, "the index may be negative" if b is not None else "nothing keeps the index from being negative"))

    # ---------------------------------------------------------------- iterators: ("lit", address, position)
    def lit(self, s, v):
        if v is None: return None
        if v[0] == "lit": return v
        if v[0] == "addr":
            root, path = v[1], v[2]
            for k in ((root, path), (root, path + ("#0",)), (root, path + ("_M_node",)), (root, path + ("_M_current",))):
                r = s.mem.get(k)
                if r is not None: return r if r[0] == "lit" else None
            for k, r in s.mem.items():
                if k[0] == root and k[1][:len(path)] == path: return r if r is not None and r[0] == "lit" else None
        return None
    def itval(self, s, v): return self.lit(s, v)

    def move(self, f, x, s, it, d):
        """it + d: must stay within [0, size]"""
        if it is None or it[2] is None: return ("lit", it[1], None) if it is not None else None
        n, k = self.lin(it[2]), self.lin(d) if d is not None else None
        if n is None or k is None: return ("lit", it[1], None)
        if n[0] == ZERO: pos = self.mk(k[0], k[1] + n[1])
        elif k[0] == ZERO: pos = self.mk(n[0], n[1] + k[1])
        else: return ("lit", it[1], None)
        return ("lit", it[1], pos)

    def call(self, f, x, env, s, depth):
        p = self.p; name = x["f"]
        if not isinstance(name, str) or name in p.funcs:
            yield from Machine.call(self, f, x, env, s, depth); return
        b = dfa.base(p, x); short = b.split("::")[-1].replace("@", "")
        A = [self.val(f, env, depth, o) for o in x["o"]]
        it = b.startswith(("std::_List_iterator", "std::_List_const_iterator", "__gnu_cxx::__normal_iterator"))
        if b.startswith(("std::vector::", "std::list::")):
            yield from self.container(f, x, short, A, env, s.copy()); return
        if it and short == "operator*" or it and short == "operator->" or it and short == "operatorarrow":
            s = s.copy(); v = self.lit(s, A[0])
            if v is None: yield None, env, s; return
            if v[2] is not None: self.access(f, x, s, v[1], v[2], 1, "element")
            yield self.elem(s, self.norm(v[1]), v[2]), env, s; return
        if it and short in ("operator++", "operator--"):
            s = s.copy(); v = self.lit(s, A[0]); w = self.move(f, x, s, v, ("i", 1 if short.endswith("++") else -1)) if v else None
            self.setit(s, A[0], w); yield (v if len(A) > 1 else A[0]), env, s; return
        if it and short in ("operator+", "operator-", "operator+=", "operator-=") and len(A) > 1 and self.lit(s, A[1]) is None:
            s = s.copy(); v = self.lit(s, A[0]); d = A[1]; n = self.lin(d) if d is not None else None
            if short.startswith("operator-"): d = ("i", -n[1]) if n is not None and n[0] == ZERO else None
            w = self.move(f, x, s, v, d) if v else None
            if short.endswith("="): self.setit(s, A[0], w); yield A[0], env, s
            else: yield w, env, s
            return
        if it and short.startswith("_M_const_cast"): yield self.lit(s, A[0]), env, s; return
        if it and (short == "operator=" or short.endswith("iterator")):
            s = s.copy(); self.setit(s, A[0], self.lit(s, A[1]) if len(A) > 1 else None); yield A[0], env, s; return
        if short in ("operator!=", "operator==") and len(A) == 2:
            i, j = self.lit(s, A[0]), self.lit(s, A[1])
            if i and j and i[1] == j[1] and i[2] is not None and j[2] is not None:
                v = self.icmp(s, "ne" if short == "operator!=" else "eq", i[2], j[2]); yield v, env, s; return
            yield None, env, s; return
        if b in ("std::__advance", "std::advance"):
            s = s.copy(); v = self.lit(s, A[0])
            if v is None: self.setit(s, A[0], None); yield None, env, s; return
            w = self.move(f, x, s, v, A[1])
            if v[2] is not None: self.access(f, x, s, v[1], w[2] if w else None, 0, "position")
            self.setit(s, A[0], w); yield None, env, s; return
        if b in ("std::__distance", "std::distance") or it and short == "operator-":
            i, j = self.lit(s, A[0]), self.lit(s, A[1])
            if it: i, j = j, i
            if i and j and i[2] == ("i", 0) and j[2] is not None: yield j[2], env, s; return
            s = s.copy(); yield self.newsym(s) , env, s; return
        if b == "std::sort" or b in ("std::min_element", "std::max_element", "std::find", "std::find_if", "std::lower_bound", "std::upper_bound"): yield None, env, s; return
        yield from Machine.call(self, f, x, env, s, depth)

    def container(self, f, x, short, A, env, s):
        if x.get("sret"): A = A[1:] + A[:1]
        a = self.norm(A[0]) if A else None
        if a is None: yield None, env, s; return
        if short in ("begin", "cbegin"): yield ("lit", a, ("i", 0)), env, s; return
        if short in ("end", "cend"): yield ("lit", a, self.sz(s, a)), env, s; return
        if short == "size": yield self.sz(s, a), env, s; return
        if short == "empty":
            v = self.icmp(s, "eq", self.sz(s, a), ("i", 0)); yield v, env, s; return
        if short in ("at", "operator[]"):
            self.access(f, x, s, a, A[1], 1, "element"); yield self.elem(s, a, A[1]), env, s; return
        if short == "front": self.access(f, x, s, a, ("i", 0), 1, "element"); yield self.elem(s, a, ("i", 0)), env, s; return
        if short == "back": self.access(f, x, s, a, ("i", 0), 1, "element"); yield self.elem(s, a, self.plus(self.sz(s, a), -1)), env, s; return
        if short in ("push_back", "emplace_back", "push_front", "insert", "emplace"):
            n = self.plus(self.sz(s, a), 1 if short != "insert" or len(A) == 3 else None) if short != "insert" or len(A) <= 3 else None
            self.setsz(s, a, n)
            if short in ("insert", "emplace"):
                v = self.lit(s, A[1]); yield ("lit", a, v[2] if v else None), env, s; return
            yield None, env, s; return
        if short in ("pop_back", "pop_front", "erase"):
            if short == "erase" and len(A) > 2: self.setsz(s, a, None); yield None, env, s; return
            v = self.lit(s, A[1]) if short == "erase" else None
            if short == "erase":
                if v and v[2] is not None: self.access(f, x, s, a, v[2], 1, "element")
            else: self.access(f, x, s, a, ("i", 0), 1, "element")
            self.setsz(s, a, self.plus(self.sz(s, a), -1))
            yield ("lit", a, v[2] if v else None), env, s; return
        if short == "clear": self.setsz(s, a, ("i", 0)); yield None, env, s; return
        if short == "resize": self.setsz(s, a, A[1] if len(A) > 1 and self.lin(A[1]) is not None else None); yield None, env, s; return
        if short == "assign": self.setsz(s, a, A[1] if len(A) == 3 and self.lin(A[1]) is not None else None); yield None, env, s; return
        if short in ("vector", "list"):
            k = self.norm(A[1]) if len(A) > 1 else None
            if k is not None and len(A) == 2 or k is not None and "vector" in str(x.get("f")): self.setsz(s, a, self.sz(s, k) if self.copying(x) else None)
            elif len(A) == 1: self.setsz(s, a, ("i", 0))
            else: self.setsz(s, a, A[1] if self.lin(A[1]) is not None else None)
            yield None, env, s; return
        if short == "operator=":
            k = self.norm(A[1]) if len(A) > 1 else None
            n = self.sz(s, k) if k is not None and self.copying(x) else None
            self.touched(s, a); self.setsz(s, a, n); yield A[0], env, s; return
        if short in ("reverse", "sort"): yield None, env, s; return
        if short.startswith("~") or short in ("cbegin", "data", "reserve", "max_size", "get_allocator", "capacity", "shrink_to_fit", "rbegin", "rend", "crbegin", "crend"): yield None, env, s; return
        self.setsz(s, a, None); yield None, env, s

    def copying(self, x): return "initializer_list" not in str(x["f"])

    def relevant(self, g):
        """const methods followed into: answers that can bound an index, and private helpers that read containers"""
        r = self.rel_memo.get(g.name)
        if r is None:
            r = len(g.blocks) <= 8 and g.ret in ("bool", "int") or len(g.blocks) <= 3
            if not r and g.method:
                m = self.p.access_of(g)
                r = m is not None and m.get("access") not in (None, "public") and touches(self.p, g)
            self.rel_memo[g.name] = r
        return r
    def repo_call(self, f, x, g, A, env, s, depth):
        isthis = g.method and A and A[0] is not None and A[0] == ("addr", ("this",), ())
        if isthis and g.const and not self.relevant(g) and not (len(g.blocks) <= 2 and sum(len(b) for b in g.blocks) <= 8) and self.cache_members:
            s = s.copy()
            for c in sorted(self.cache_members): self.modify(s, (c,), None)
        if not isthis and not x.get("sret") and not (A and A[0] is not None and A[0][0] == "addr" and A[0][1] == ("this",)) and (not g.method or g.const) \
           and not self.p.is_ctor(g) and not self.p.is_dtor(g) and not self.p.is_copy(g) and g.ret in ("bool", "int") and len(g.blocks) <= 8 and depth < 6 and not g.loops:
            args = {a["id"]: v for a, v in zip(g.args, A)}
            self.stack.append(env)
            try: rs = self.run(g, args, s.copy(), depth + 1)
            finally: self.stack.pop()
            for v, t in rs: yield v, self.fix(env, t), t
            return
        yield from Machine.repo_call(self, f, x, g, A, env, s, depth)

GROW = ("push_back", "push_front", "insert", "emplace", "emplace_back", "erase", "pop_back", "pop_front", "clear", "operator=", "operator[]", "at")
def filled(p):
    """members of container type that public non-const methods fill or empty directly"""
    r = getattr(p, "filled_memo", None)
    if r is None:
        r = set()
        for g in p.funcs.values():
            if not g.cls or g.const or p.is_copy(g) or p.is_ctor(g) or p.is_dtor(g): continue
            m = p.access_of(g)
            if m is None or m.get("access") not in (None, "public"): continue
            for bi, x in g.insts():
                if x["op"] == "call" and isinstance(x["f"], str) and x["f"] not in p.funcs:
                    b = dfa.base(p, x)
                    if b.startswith(("std::vector::", "std::list::")) and b.split("::")[-1] in GROW[:-2]:
                        m = dfa.this_member(g, x["o"][0])
                        if m: r.add(m)
        p.filled_memo = r
    return r

def indexed(path): return any(isinstance(q, tuple) and q[:1] == ("[]",) for q in path)

def strip(f, o):
    x = dfa.defn(f, o)
    while x is not None and x["op"] in ("sext", "zext", "trunc"): x = dfa.defn(f, x["o"][0])
    return x

def implied(facts, q):
    """least c with q[0] <= q[1] + c in a set of facts, through at most one other term"""
    best = facts.get(q)
    for (x, y), c in facts.items():
        if x == q[0]:
            d = facts.get((y, q[1]))
            if d is not None and (best is None or c + d < best): best = c + d
    return best

def touches(p, g):
    return any(x["op"] == "call" and isinstance(x["f"], str) and x["f"] not in p.funcs and dfa.base(p, x).startswith(("std::vector::", "std::list::")) for bi, x in g.insts())
