"""Path-sensitive abstract interpreter over the SSA facts.

Nothing of the program is executed: every value is abstract.
Abstract values:
  ('k', n)            integer / null constant          ('t', 0|1)  boolean constant
  ('p', path)         address of an abstract location (never null)
  ('s', key)          unknown value identified by key (so that equal unknowns compare equal)
  ('lin', key, off)   unknown integer plus constant
  ('c', pred, a, b)   comparison, ('not', c) its negation
  ('it', path, pos)   iterator into the container at path
  None                anything
Locations are access paths: a root followed by member names / container elements.
States are kept apart at a block when their boolean constants (and the
analysis' own key) differ, and joined otherwise (property simulation)."""
import sys
from ir import basename, operand_ids
from facts import AnalysisError
sys.setrecursionlimit(20000)

EMPTY = frozenset()
def cval(v):
    return v[1] if v is not None and v[0] in ("k", "t") else None
def isbool(v): return v is not None and v[0] == "t"

class State:
    __slots__ = ("env", "mem", "facts", "aux", "hav", "tenv", "tmem", "br", "pc", "num")
    def __init__(s):
        s.env = {}; s.mem = {}; s.facts = {}; s.aux = None; s.hav = {}; s.tenv = {}; s.tmem = {}; s.br = {}; s.pc = EMPTY; s.num = None
    def copy(s):
        t = State.__new__(State)
        t.env = dict(s.env); t.mem = dict(s.mem); t.facts = dict(s.facts); t.aux = s.aux; t.hav = dict(s.hav)
        t.tenv = dict(s.tenv); t.tmem = dict(s.tmem); t.br = dict(s.br); t.pc = s.pc
        t.num = s.num.copy() if s.num is not None else None
        return t
    def frz(s):
        return (frozenset(s.mem.items()), frozenset(s.facts.items()), s.aux, frozenset(s.hav.items()), frozenset(s.tmem.items()), s.pc,
                s.num.frz() if s.num is not None else None)

def mentions(v, pred):
    """does abstract value / path / key v contain a sub-term satisfying pred"""
    if isinstance(v, tuple):
        if pred(v): return True
        for x in v:
            if isinstance(x, tuple) and mentions(x, pred): return True
    return False

SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}

class Ctx:
    """call stack for reports"""
    __slots__ = ("fn", "parent", "inst", "depth")
    def __init__(s, fn, parent=None, inst=None):
        s.fn = fn; s.parent = parent; s.inst = inst; s.depth = parent.depth + 1 if parent else 0
    def chain(s):
        out = []; c = s
        while c.parent is not None:
            out.append("%s called at %s (%s)" % (c.fn.short, c.parent.fn.where(c.inst), c.parent.fn.short)); c = c.parent
        return out
    def names(s):
        c = s
        while c is not None:
            yield c.fn.name; c = c.parent

class Renaming:
    def __init__(self, eng, args, st, ctx):
        self.e = eng; self.st = st; self.ctx = ctx
        self.pm = {}; self.inv = {}; self.cache = {}; self.us = {}; self.uback = {}
        paths = sorted({v[1] for v in args if v is not None and v[0] in ("p", "it")}, key=len)
        mins = []
        for p in paths:
            if not any(p[:len(m)] == m for m in mins): mins.append(p)
        for v in args:
            if v is None or v[0] not in ("p", "it"): continue
            p = v[1]
            m = next(m for m in mins if p[:len(m)] == m)
            if m in self.pm or m[0][0] == "g": continue
            n = len(self.pm); ty = eng.root_type(m)
            root = ("a", "@%d" % n, ty) if len(m) == 1 and m[0][0] == "a" else ("A", n, ty)
            self.pm[m] = (root,); self.inv[root] = m
    def ver(self, path):
        hav = self.st.hav
        for i in range(len(path), 0, -1):
            h = hav.get(path[:i])
            if h is not None: return h
        return None
    def path(self, p):
        r = self.cache.get(p)
        if r is not None: return r
        for i in range(1, len(p) + 1):
            m = self.pm.get(p[:i])
            if m is not None:
                r = m + tuple(self.comp(c) for c in p[i:]); break
        else:
            h = p[0]
            if h[0] == "*": h = ("*", self.val(h[1]))
            r = (h,) + tuple(self.comp(c) for c in p[1:])
        self.cache[p] = r
        return r
    def comp(self, c):
        if isinstance(c, tuple) and c[0] == "[" and isinstance(c[1], tuple): return ("[", self.any(c[1]))
        return c
    def any(self, v):
        """index inside an element component: abstract value or ('iter', path)"""
        if v[0] == "iter": return ("iter", self.path(v[1]))
        return self.val(v)
    def unknown(self, v):
        r = self.us.get(v)
        if r is None:
            r = ("s", ("U", len(self.us), self.e.sym_type(v))); self.us[v] = r; self.uback[r] = v
        return r
    def val(self, v):
        if v is None: return None
        k = v[0]
        if k in ("k", "t", "f"): return v
        if k == "s":
            key = v[1]
            if key[0] == "L" and key[2] == self.ver(key[1]): return ("s", ("L", self.path(key[1]), None))
            if key[0] == "sz" and key[1][1] == self.ver(key[1][0]): return ("s", ("sz", (self.path(key[1][0]), None)))
            return self.unknown(v)
        if k == "p": return ("p", self.path(v[1]))
        if k == "it": return ("it", self.path(v[1]), self.any(v[2]) if isinstance(v[2], tuple) and v[2] and v[2][0] in ("k", "s", "lin", "iter") else v[2])
        if k == "c": return ("c", v[1], self.val(v[2]), self.val(v[3]))
        if k == "not": return ("not", self.val(v[1]))
        if k == "lin": return ("lin", self.val(("s", v[1]))[1], v[2])
        if k == "agg": return ("agg", tuple((i, self.val(x)) for i, x in v[1]))
        return v
    def args(self, args): return [self.val(v) for v in args]
    def state(self):
        st = self.st; c = State()
        for q in sorted(st.mem, key=repr): c.mem[self.path(q)] = self.val(st.mem[q])
        self.held = {}
        for s, f in st.facts.items():
            if not self.e.fact_relevant(s): self.held[s] = f
            elif s in self.us: c.facts[self.us[s]] = f
            else:
                k = s[1]
                if (k[0] == "L" and k[2] == self.ver(k[1])) or (k[0] == "sz" and k[1][1] == self.ver(k[1][0])): c.facts[self.val(s)] = f
                else: self.held[s] = f
        for q, t in st.tmem.items(): c.tmem[self.path(q)] = t
        c.aux = self.e.aux_rename(st.aux, self); c.pc = st.pc; c.num = st.num
        return c
    # ---- results back in the caller's names
    def back(self, v, s):
        cache = {}; fn = self.ctx.parent.fn.name; iid = self.ctx.inst["id"]; news = {}
        vers = {}
        def bver(pc, p, ver):
            if ver is None: return self.ver(p)
            r = vers.get((p, ver))
            if r is None:
                o = self.ver(p)
                r = ver
                if o == ver: r = (ver, "+")
                vers[(p, ver)] = r
            return r
        def bpath(p):
            r = cache.get(p)
            if r is None:
                h = p[0]
                if h in self.inv: pre = self.inv[h]
                elif h[0] == "*": pre = (("*", bval(h[1])),)
                else: pre = (h,)
                r = cache[p] = pre + tuple(("[", bany(c[1])) if isinstance(c, tuple) and c[0] == "[" and isinstance(c[1], tuple) else c for c in p[1:])
            return r
        def bany(x):
            if x[0] == "iter": return ("iter", bpath(x[1]))
            return bval(x)
        def bval(x):
            if x is None: return None
            k = x[0]
            if k == "s":
                key = x[1]
                if key[0] == "L":
                    p = bpath(key[1]); return ("s", ("L", p, bver(key[1], p, key[2])))
                if key[0] == "sz":
                    p = bpath(key[1][0]); return ("s", ("sz", (p, bver(key[1][0], p, key[1][1]))))
                if x in self.uback: return self.uback[x]
                if key[0] in ("I", "J"):
                    r = news.get(x)
                    if r is None:
                        r = news[x] = ("s", ("I", fn, iid, len(news), self.e.sym_type(x)))
                    return r
                return x
            if k == "p": return ("p", bpath(x[1]))
            if k == "it": return ("it", bpath(x[1]), bany(x[2]) if isinstance(x[2], tuple) and x[2] and x[2][0] in ("k", "s", "lin", "iter") else x[2])
            if k == "c": return ("c", x[1], bval(x[2]), bval(x[3]))
            if k == "not": return ("not", bval(x[1]))
            if k == "lin": 
                y = bval(("s", x[1])); return ("lin", y[1], x[2])
            if k == "agg": return ("agg", tuple((i, bval(y)) for i, y in x[1]))
            return x
        r = State(); st = self.st
        r.hav = dict(st.hav)
        for qc, ver in s.hav.items():
            q = bpath(qc); n = len(q)
            for o in [o for o in r.hav if len(o) > n and o[:n] == q and o in st.hav]: del r.hav[o]
        for qc, ver in s.hav.items():
            q = bpath(qc); r.hav[q] = bver(qc, q, ver)
        rv = bval(v)
        for q in sorted(s.mem, key=repr): r.mem[bpath(q)] = bval(s.mem[q])
        for x, f in s.facts.items(): 
            y = bval(x)
            if y[0] == "s": r.facts[y] = f
        for x, f in self.held.items(): r.facts.setdefault(x, f)
        for q, t in s.tmem.items(): r.tmem[bpath(q)] = t
        r.aux = self.e.aux_back(s.aux, bpath); r.pc = s.pc; r.num = s.num
        return rv, r

CONST_ELEM = {"operator[]", "at", "front", "back", "operator*", "operator@arrow", "data"}
class Engine:
    def __init__(self, prog, taint=False, maxstates=48, numeric=None):
        self.p = prog; self.taint = taint; self.maxstates = maxstates; self.numeric = numeric
        self.memo = {}; self.dyn = {}          # dyn: path -> dynamic class for virtual dispatch
        self.steps = 0; self.visited = set(); self.callsites = set(); self.maxdepth = 40
        self.cur = None
        self.unresolved = []; self._kid = {}; self.fp = None; self.fcache = {}; self.floats = False; self.skip_dtors = True; self.coarse = False; self.rename_calls = False

    def kid(self, k):
        return self._kid.setdefault(k, len(self._kid))
    def root_type(self, path): return None
    def sym_type(self, v): return None
    def fact_relevant(self, s): return True
    def aux_rename(self, aux, rn): return aux
    def aux_back(self, aux, bpath): return aux
    # ---- hooks (overridden by analyses)
    def elem(self, i): return i
    def on_deref(self, st, v, inst, ctx): pass
    def on_load(self, st, path, v, inst, ctx): return v
    def on_store(self, st, path, v, inst, ctx): pass
    def on_havoc(self, st, path, inst, ctx, name): pass
    def on_call(self, st, callee, args, inst, ctx): return None
    def on_std(self, st, name, args, inst, ctx): return NotImplemented
    def on_edge(self, st, fn, a, b, ctx): pass
    def on_inst(self, st, inst, ctx): pass
    def aux_key(self, aux): return aux
    def aux_join(self, a, b): return a
    def mem_key(self, path): return True
    def key_value(self, st, v): return v if isbool(v) else None

    # ---- values
    def val(self, st, o, ctx):
        t = o[0]
        if t == "v": return st.env.get(o[1])
        if t == "i": return ("t", o[1] & 1) if o[2] == 1 or (o[2] == 8 and o[1] in (0, 1)) else ("k", o[1])
        if t == "n" or t == "z": return ("k", 0)
        if t == "g": return ("p", (("g", o[1]),))
        if t == "ge":
            b = self.val(st, o[1], ctx)
            return self.gep(st, b, o[2], "", None, ctx)
        if t == "f": return ("f", o[1])
        return None
    def tval(self, st, o):
        if o[0] == "v": return st.tenv.get(o[1], EMPTY)
        return EMPTY
    def pointee(self, st, v, inst, ctx):
        """location addressed by pointer value v (reports possible null), or None"""
        if v is None: return None
        k = v[0]
        if k == "p": return v[1]
        if k == "k":
            if v[1] == 0: self.on_deref(st, v, inst, ctx)
            return None
        if k == "s":
            f = st.facts.get(v)
            if not (f is not None and f[0] == "ne" and 0 in f[1]):
                self.on_deref(st, v, inst, ctx)
                st.facts[v] = ("ne", (f[1] if f and f[0] == "ne" else EMPTY) | {0})
            return (("*", v),)
        if k == "it": return v[1] + (("[", self.elem("raw")),)
        return None
    def gep(self, st, b, steps, sty, inst, ctx):
        path = self.pointee(st, b, inst, ctx)
        if path is None: return None
        for s in steps:
            if s[0] == "S":
                c = self.p.struct_field(s[1], s[2])
                if c is not None: path = path + (c,)
            else:
                i = self.val(st, s[1], ctx)
                path = path + (("[", self.elem(i if i is not None else "*")),)
        return ("p", path)
    def default(self, st, path):
        ver = None
        for i in range(len(path), 0, -1):
            h = st.hav.get(path[:i])
            if h is not None: ver = h; break
        return ("s", ("L", path, ver))
    def load(self, st, path):
        if path is None: return None
        v = st.mem.get(path)
        if v is None and path not in st.mem: v = self.default(st, path)
        return v
    def ltaint(self, st, path):
        if path is None: return EMPTY
        t = st.tmem.get(path, EMPTY)
        for i in range(1, len(path)):
            t |= st.tmem.get(path[:i], EMPTY)
        for q, x in st.tmem.items():
            if len(q) > len(path) and q[:len(path)] == path: t |= x
        return t
    def store(self, st, path, v, taint=EMPTY):
        if path is None: return
        # facts about the overwritten cell's elements
        n = len(path)
        for q in [q for q in st.mem if len(q) > n and q[:n] == path]: del st.mem[q]
        st.mem[path] = v
        if self.taint:
            for q in [q for q in st.tmem if len(q) > n and q[:n] == path]: del st.tmem[q]
            st.tmem[path] = taint
    def havoc(self, st, path, site):
        if path is None: return
        n = len(path)
        for q in [q for q in st.mem if len(q) >= n and q[:n] == path]: del st.mem[q]
        for q in [q for q in st.hav if len(q) > n and q[:n] == path]: del st.hav[q]
        st.hav[path] = site
        self.killsym(st, lambda t: len(t) == 3 and t[0] == "L" and t[2] == site and t[1][:n] == path)
        self.killsym(st, lambda t: len(t) == 2 and t[0] == "sz" and isinstance(t[1], tuple) and t[1][0][:n] == path)
    def killsym(self, st, pred):
        """forget everything known about unknowns whose key satisfies pred"""
        dead = [s for s in st.facts if mentions(s, pred)]
        for s in dead: del st.facts[s]
        for q in [q for q in st.mem if mentions(q, pred)]: del st.mem[q]
        if st.num is not None: st.num.forget(lambda key: mentions(key, pred))

    # ---- facts
    def fact_eq(self, st, s, n):
        f = st.facts.get(s)
        if f is None: return None
        if f[0] == "eq": return f[1] == n
        return False if n in f[1] else None
    def evalcond(self, st, c):
        """True / False / None"""
        if c is None: return None
        k = c[0]
        if k in ("k", "t"): return bool(c[1])
        if k == "not":
            r = self.evalcond(st, c[1]); return None if r is None else not r
        if k == "s":
            r = self.fact_eq(st, c, 0)
            if r is not None: return not r
            return None
        if k == "p": return True
        if k == "c":
            return self.compare(st, c[1], c[2], c[3])
        return None
    def compare(self, st, pred, a, b):
        if a is None or b is None: return None
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None:
            if pred[0] == "u" and (ca < 0 or cb < 0): ca &= 2**64 - 1; cb &= 2**64 - 1
            return {"eq": ca == cb, "ne": ca != cb, "slt": ca < cb, "sle": ca <= cb, "sgt": ca > cb, "sge": ca >= cb,
                    "ult": ca < cb, "ule": ca <= cb, "ugt": ca > cb, "uge": ca >= cb}[pred]
        if pred in ("eq", "ne"):
            r = None
            if a == b: r = True
            elif ca is not None or cb is not None:
                x, n = (b, ca) if ca is not None else (a, cb)
                if x[0] == "p" and n == 0: r = False
                elif x[0] == "s": r = self.fact_eq(st, x, n)
                elif x[0] in ("c", "not"):
                    e = self.evalcond(st, x)
                    if e is not None: r = (int(e) == n)
            elif a[0] == "p" and b[0] == "p":
                ra, rb = a[1][0], b[1][0]
                if ra[0] == "a" and rb[0] == "a" and ra != rb: r = False
            if r is None and st.num is not None: r = st.num.query(pred, a, b)
            if r is None: return None
            return r if pred == "eq" else not r
        if st.num is not None: return st.num.query(pred, a, b)
        if a == b: return pred in ("sle", "sge", "ule", "uge")
        return None
    def assume(self, st, c, truth):
        """refine st with c == truth; False when infeasible"""
        r = self.evalcond(st, c)
        if r is not None:
            return r == truth
        if c is None: return True
        k = c[0]
        if k == "not": return self.assume(st, c[1], not truth)
        if k == "s":
            f = st.facts.get(c)
            if truth:
                st.facts[c] = ("ne", (f[1] if f and f[0] == "ne" else EMPTY) | {0})
            else: st.facts[c] = ("eq", 0)
            return True
        if k == "c":
            pred, a, b = c[1], c[2], c[3]
            if not truth: pred = NEG[pred]
            if a is None or b is None: return True
            if st.num is not None:
                if not st.num.assume(pred, a, b): return False
            if pred in ("eq", "ne"):
                ca, cb = cval(a), cval(b)
                if ca is not None or cb is not None:
                    x, n = (b, ca) if ca is not None else (a, cb)
                    if x[0] == "s":
                        f = st.facts.get(x)
                        if pred == "eq":
                            if f is not None and ((f[0] == "eq" and f[1] != n) or (f[0] == "ne" and n in f[1])): return False
                            st.facts[x] = ("eq", n)
                        else:
                            if f is None or f[0] == "ne": st.facts[x] = ("ne", (f[1] if f else EMPTY) | {n})
                    elif x[0] in ("c", "not"):
                        # comparison result compared with 0/1
                        want = (n != 0) if pred == "eq" else (n == 0)
                        if n in (0, 1): return self.assume(st, x, want)
                elif pred == "eq" and a[0] == "s" and b[0] == "s":
                    fa, fb = st.facts.get(a), st.facts.get(b)
                    if fa and not fb: st.facts[b] = fa
                    elif fb and not fa: st.facts[a] = fb
                elif pred == "eq":
                    # symbol equal to an address is not null
                    x = a if a[0] == "s" else b if b[0] == "s" else None
                    y = b if x is a else a
                    if x is not None and y[0] == "p":
                        f = st.facts.get(x); st.facts[x] = ("ne", (f[1] if f and f[0] == "ne" else EMPTY) | {0})
            return True
        return True

    # ---- joining
    def state_key(self, st, fn, block):
        live = fn.live[block] if block is not None else ()
        e = tuple((i, kv) for i in sorted(live) for kv in (self.key_value(st, st.env.get(i)),) if kv is not None)
        m = tuple(sorted(((q, v) for q, v in st.mem.items() if isbool(v) and self.mem_key(q)), key=repr))
        return (e, m, self.aux_key(st.aux))
    def join(self, a, b, tag):
        """a, b joined into a new state; tag names the program point"""
        r = State.__new__(State)
        r.env = {}; r.mem = {}; r.br = {}
        ren_a = {}; ren_b = {}
        def jv(x, y, nm):
            if x == y: return x
            if x is None or y is None: return None
            if x[0] == "it" and y[0] == "it" and x[1] == y[1]: return ("it", x[1], None)
            s = ("s", ("J", tag, nm))
            ren_a[s] = x; ren_b[s] = y
            return s
        for i in a.env:
            if i in b.env: r.env[i] = jv(a.env[i], b.env[i], i)
        for q in a.mem.keys() | b.mem.keys():
            ia, ib = q in a.mem, q in b.mem
            x = a.mem[q] if ia else self.default(a, q)
            y = b.mem[q] if ib else self.default(b, q)
            if ia and ib and x == y: r.mem[q] = x
            elif x == y: pass
            else: r.mem[q] = jv(x, y, q)
        r.hav = dict(a.hav)
        for q, h in b.hav.items():
            o = r.hav.get(q)
            r.hav[q] = h if o is None else max(o, h, key=repr)
        # facts
        r.facts = {}
        def fact_of(st, v):
            if v[0] in ("k", "t"): return ("eq", v[1])
            if v[0] == "p": return ("ne", frozenset([0]))
            if v[0] == "s": return st.facts.get(v)
            return None
        def jf(f, g):
            if f is None or g is None: return None
            if f == g: return f
            if f[0] == "eq" and g[0] == "eq": 
                return None if 0 in (f[1], g[1]) else ("ne", frozenset([0]))
            if f[0] == "eq": return ("ne", g[1]) if False else (("ne", frozenset(x for x in g[1] if x != f[1])) if any(x != f[1] for x in g[1]) else None)
            if g[0] == "eq": return jf(g, f)
            x = f[1] & g[1]
            return ("ne", x) if x else None
        news = set(ren_a)
        for s in a.facts:
            if s in news: continue
            f = jf(a.facts[s], b.facts.get(s))
            if f: r.facts[s] = f
        for s in news:
            f = jf(fact_of(a, ren_a[s]), fact_of(b, ren_b[s]))
            if f: r.facts[s] = f
        r.aux = self.aux_join(a.aux, b.aux)
        r.tenv = {}; r.tmem = {}
        if self.taint:
            for i in a.tenv.keys() | b.tenv.keys():
                r.tenv[i] = a.tenv.get(i, EMPTY) | b.tenv.get(i, EMPTY)
            for i in a.tmem.keys() | b.tmem.keys():
                r.tmem[i] = a.tmem.get(i, EMPTY) | b.tmem.get(i, EMPTY)
        for i in a.br.keys() | b.br.keys():
            r.br[i] = a.br.get(i, EMPTY) | b.br.get(i, EMPTY)
        r.pc = a.pc | b.pc
        r.num = None
        if a.num is not None:
            r.num = a.num.join_with(b.num, ren_a, ren_b)
        return r
    def same(self, a, b):
        return (a.env == b.env and a.mem == b.mem and a.facts == b.facts and a.aux == b.aux and a.hav == b.hav and
                a.tenv == b.tenv and a.tmem == b.tmem and a.br == b.br and (a.num is None or a.num.same(b.num)))

    # ---- running a function
    def run(self, fn, args, st, ctx=None, targs=None):
        """args: abstract values; returns list of (ret value, ret taint, State)"""
        if ctx is None: ctx = Ctx(fn)
        if self.rename_calls and ctx.parent is not None: return self.run_renamed(fn, args, st, ctx, targs)
        st, held = self.frame(fn, args, st)
        return self.run_framed(fn, args, st, held, ctx, targs)
    def run_renamed(self, fn, args, st, ctx, targs):
        """runs the callee on a copy of what it can reach, with objects named by the arguments that lead to
        them, so that the same situation at different call sites is analysed once"""
        st, held = self.frame(fn, args, st)
        rn = Renaming(self, args, st, ctx)
        cargs, cst = rn.args(args), rn.state()
        outs = self.run_framed(fn, cargs, cst, None, ctx, targs)
        res = []
        for v, t, s in outs:
            v2, s2 = rn.back(v, s)
            res.append((v2, t, self.unframe(s2, held)))
        return res
    def run_framed(self, fn, args, st, held, ctx, targs):
        mk = (fn.name, tuple(args), tuple(targs or ()), st.frz())
        hit = self.memo.get(mk)
        if hit is not None:
            return [(v, t, self.unframe(s.copy(), held)) for v, t, s in hit]
        self.visited.add(fn.name)
        s0 = State.__new__(State)
        s0.env = {}; s0.mem = dict(st.mem); s0.facts = dict(st.facts); s0.aux = st.aux; s0.hav = dict(st.hav)
        s0.tenv = {}; s0.tmem = dict(st.tmem); s0.br = {}; s0.pc = st.pc; s0.num = st.num.copy() if st.num is not None else None
        for i, (a, v) in enumerate(zip(fn.args, args)):
            s0.env[a["id"]] = v
            if targs: s0.tenv[a["id"]] = targs[i]
        wl = {0: {self.state_key(s0, fn, 0): s0}}
        seen = {0: dict(wl[0])}
        visits = {}
        pend = {(0, k) for k in wl[0]}
        exits = {}
        rpo = fn.rpo
        while pend:
            b, k = min(pend, key=lambda x: rpo[x[0]])
            pend.discard((b, k))
            cur = seen[b].get(k)
            if cur is None: continue
            visits[(b, k)] = visits.get((b, k), 0) + 1
            outs = self.block(fn, b, cur.copy(), ctx)
            for kind, tgt, s2 in outs:
                if kind == "ret":
                    v, t = tgt
                    ek = (self.key_value(s2, v), self.state_key(s2, fn, None))
                    if ek in exits:
                        ov, ot, os = exits[ek]
                        s2.env = {"r": v}; os.env = {"r": ov}
                        j = self.join(os, s2, (fn.name, "ret", self.kid(ek)))
                        exits[ek] = (j.env.get("r"), ot | t, j)
                    else: exits[ek] = (v, t, s2)
                    continue
                # edge b -> tgt: phis
                self.edge(fn, b, tgt, s2, ctx)
                # prune env
                lv = fn.live[tgt]
                s2.env = {i: v for i, v in s2.env.items() if i in lv}
                if self.taint: s2.tenv = {i: v for i, v in s2.tenv.items() if i in lv}
                nk = self.state_key(s2, fn, tgt)
                d = seen.setdefault(tgt, {})
                if nk not in d and len(d) >= self.maxstates:
                    nk = self.overflow(d, s2, nk)
                old = d.get(nk)
                if old is None:
                    d[nk] = s2; pend.add((tgt, nk))
                else:
                    j = self.join(old, s2, (fn.name, tgt, self.kid(nk)))
                    if visits.get((tgt, nk), 0) > 3 and j.num is not None: j.num.widen_from(old.num)
                    if not self.same(j, old):
                        d[nk] = j
                        if visits.get((tgt, nk), 0) > 60: raise AnalysisError("no fixpoint in %s block %s" % (fn.dem, tgt))
                        pend.add((tgt, nk))
        out = []
        for v, t, s in exits.values():
            self.cleanup(fn, s, v)
            out.append((v, t, s))
        self.memo[mk] = [(v, t, s.copy()) for v, t, s in out]
        for v, t, s in out: self.unframe(s, held)
        return out
    def frame(self, fn, args, st):
        """splits off the part of the state the callee cannot touch"""
        st = self.canon(st, args)
        if self.fp is None:
            from ir import footprints
            fp = getattr(self.p, "_fp", None)
            if fp is None: fp = self.p._fp = footprints(self.p)
            self.fp = fp
        M, W, Q = self.fp[fn.name]
        # what the callee can reach: the objects its arguments address and, from there, whatever stored
        # or symbolic pointers lead to
        pre = set(); syms = set(); todo = []
        def add(v):
            if v is None: return
            k = v[0]
            if k in ("p", "it"):
                if v[1] not in pre: pre.add(v[1]); todo.append(v[1])
            elif k == "s":
                if v not in syms:
                    syms.add(v); r = (("*", v),)
                    if r not in pre: pre.add(r); todo.append(r)
            elif k == "agg":
                for _, x in v[1]: add(x)
            elif k in ("c", "not", "lin"): use(v)
        def use(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "s": add(v)
                for x in v:
                    if isinstance(x, tuple): use(x)
        AP = []
        for v in args:
            add(v)
            if v is not None and v[0] in ("p", "it"): AP.append(v[1])
        cells = [(q, v) for q, v in st.mem.items()]
        bypre = {}
        for q, v in cells:
            for n in range(1, len(q) + 1): bypre.setdefault(q[:n], []).append((q, v))
        # objects that only facts mention are named by the pointers that lead to them
        froots = set()
        def froot(k):
            if isinstance(k, tuple):
                if len(k) == 2 and k[0] == "*": froots.add(k)
                for x in k:
                    if isinstance(x, tuple): froot(x)
        for s in st.facts: froot(s)
        symroots = [(r, r[1][1][1]) for r in {q[0] for q in st.mem} | {q[0] for q in st.tmem} | {q[0] for q in st.hav} | froots if r[0] == "*" and r[1][0] == "s" and r[1][1][0] == "L"]
        def reach(q):
            for n in range(1, len(q) + 1):
                if q[:n] in pre: return True
            return False
        while True:
            while todo:
                p0 = todo.pop()
                for q, v in bypre.get(p0, ()): add(v); use(q)
                # an element address may be stepped to its neighbours
                use(p0)
            n0 = len(pre)
            for r, lp in symroots:
                if (r,) not in pre and reach(lp): pre.add((r,)); todo.append((r,))
            # facts about symbolic pointers loaded from reachable places name further objects
            if len(pre) == n0: break
        cache = self.fcache.setdefault(fn.name, {})
        def untouched(q):
            r = cache.get(q)
            if r is None:
                last = None; anyw = False
                for c in q[1:]:
                    if isinstance(c, str):
                        last = c
                        if c in W: anyw = True
                r = cache[q] = (last is not None and last not in M and not anyw)
            if r and Q:
                for a in AP:
                    if q[:len(a)] == a: return False
            return r
        def out(q): return not reach(q) or untouched(q)
        def hout(q):
            if not reach(q):
                # an unknown region that encloses something reachable
                for a in pre:
                    if a[:len(q)] == q: return False
                return True
            if q[0][0] == "a" or len(q) == 1: return False
            if not untouched(q): return False
            for a in AP:
                if a[:len(q)] == q: return False
            return True
        hm = {q: v for q, v in st.mem.items() if out(q)}
        ht = {q: v for q, v in st.tmem.items() if out(q) and not any(a[:len(q)] == q for a in pre)}
        hh = {q: v for q, v in st.hav.items() if hout(q)}
        hf = {}
        for s, f in st.facts.items():
            if s in syms: continue
            k = s[1]
            if k[0] in ("I", "J", "arg"): hf[s] = f
            elif k[0] == "L" and out(k[1]): hf[s] = f
            elif k[0] == "sz" and isinstance(k[1], tuple) and out(k[1][0]): hf[s] = f
        if not (hm or ht or hh or hf): return st, None
        s2 = st.copy()
        for q in hm: del s2.mem[q]
        for q in ht: del s2.tmem[q]
        for q in hh: del s2.hav[q]
        for q in hf: del s2.facts[q]
        return s2, (hm, ht, hh, hf)
    def canon(self, st, args):
        """renames unknown contents of memory to location-based names, so that equal situations look equal"""
        cnt = {}
        def use(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "s": cnt[v] = cnt.get(v, 0) + 1
                for x in v:
                    if isinstance(x, tuple): use(x)
        for v in args: use(v)
        for q, v in st.mem.items(): use(v); use(q)
        for q in st.hav: use(q)
        todo = []
        for q, v in st.mem.items():
            if v is None: todo.append((q, None)); continue
            if len(q) < 2 or (q[0][0] == "a" and not self.coarse): continue
            if v[0] == "s" and v[1][0] in ("J", "I") and cnt[v] == 1: todo.append((q, st.facts.get(v)))
            elif self.coarse and v[0] in ("t", "k") and not (v[0] == "k" and self.keep_const(q)): todo.append((q, None))
        if not todo: return st
        st = st.copy()
        for q, f in todo:
            self.havoc(st, q, "jn")
            if f is not None: st.facts[("s", ("L", q, "jn"))] = f
        return st
    def keep_const(self, q): return True
    def unframe(self, s, held):
        if held:
            s.mem.update(held[0]); s.tmem.update(held[1]); s.hav.update(held[2])
            for k, f in held[3].items(): s.facts.setdefault(k, f)
        return s
    def overflow(self, d, s2, nk):
        for k in d:
            if k[2] == nk[2]: return k
        return nk
    def cleanup(self, fn, s, v):
        nm = fn.name
        def loc(t): return len(t) == 3 and t[0] == "a" and t[1] == nm
        for q in [q for q in s.mem if mentions(q, loc)]: del s.mem[q]
        for q in [q for q in s.tmem if mentions(q, loc)]: del s.tmem[q]
        for q in [q for q in s.hav if mentions(q, loc)]: del s.hav[q]
        keep = set()
        def own(t): return len(t) >= 2 and t[0] in ("I", "J") and (t[1] == nm or (isinstance(t[1], tuple) and t[1][0] == nm))
        def use(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "s": keep.add(x)
                for y in x:
                    if isinstance(y, tuple): use(y)
        if v is not None: use(v)
        for q, x in s.mem.items():
            if x is not None and not mentions(q, own): use(x)
        # objects only reachable through unknowns of this call
        def lost(q): return q[0][0] == "*" and q[0][1] not in keep and mentions(q[0], own)
        for m in (s.mem, s.tmem, s.hav):
            for q in [q for q in m if lost(q)]: del m[q]
        for f in [f for f in s.facts if f not in keep and mentions(f, lambda t: loc(t) or (len(t) >= 2 and t[0] in ("I", "J") and (t[1] == nm or (isinstance(t[1], tuple) and t[1][0] == nm))))]:
            del s.facts[f]
        if s.num is not None:
            s.num.forget(lambda key: mentions(key, lambda t: loc(t) or (len(t) >= 2 and t[0] in ("I", "J") and (t[1] == nm or (isinstance(t[1], tuple) and t[1][0] == nm)))) and ("s", key) not in keep
                         and not (v is not None and mentions(v, lambda t: t == key)))
        s.env = {}; s.tenv = {}; s.br = {}
    def edge(self, fn, a, b, st, ctx):
        phis = [x for x in fn.blocks[b] if x["op"] == "phi"]
        if phis:
            vals = []
            for x in phis:
                for o, pb in zip(x["o"], x["in"]):
                    if pb == a:
                        vals.append((x, self.val(st, o, ctx), self.tval(st, o))); break
            for x, v, t in vals:
                if x["ty"] == "double" and not self.floats: v = None
                elif v is None: v = self.fresh(st, fn, x)
                st.env[x["id"]] = v
                if self.taint:
                    for c in fn.cdep.get(a, ()): t |= st.br.get(c, EMPTY)
                    if len(fn.succ[a]) > 1: t |= st.br.get(a, EMPTY)
                    st.tenv[x["id"]] = t
        self.on_edge(st, fn, a, b, ctx)
    def fresh(self, st, fn, x):
        s = ("s", ("I", fn.name, x["id"]))
        self.forget_site(st, fn, x)
        return s
    def forget_site(self, st, fn, x):
        """unknowns created earlier at this instruction get a new value: nothing may be assumed about the old ones"""
        nm = fn.name; xi = x["id"]
        def old(t): return len(t) >= 3 and t[0] == "I" and t[1] == nm and t[2] == xi
        self.killsym(st, old)
        for i, v in list(st.env.items()):
            if v is not None and i != xi and mentions(v, old): st.env[i] = None
        for q, v in list(st.mem.items()):
            if v is not None and mentions(v, old): st.mem[q] = None
    def pctaint(self, st, fn, b):
        t = st.pc
        for c in fn.cdep.get(b, ()): t |= st.br.get(c, EMPTY)
        return t

    def block(self, fn, b, st, ctx):
        """interpret block b; returns list of (kind, target, state)"""
        return self.insts(fn, b, 0, st, ctx)
    def insts(self, fn, b, start, st, ctx):
        blk = fn.blocks[b]
        for n in range(start, len(blk)):
            x = blk[n]; op = x["op"]
            self.steps += 1
            if op == "phi": continue
            self.on_inst(st, x, ctx)
            if op == "br":
                if "o" not in x: return [("br", x["t"][0], st)]
                c = self.val(st, x["o"][0], ctx)
                if self.taint: st.br[b] = st.br.get(b, EMPTY) | self.tval(st, x["o"][0])
                out = []
                if x["t"][0] == x["t"][1]: return [("br", x["t"][0], st)]
                s1 = st.copy()
                if self.assume(s1, c, True):
                    self.bindbool(s1, x["o"][0], 1); out.append(("br", x["t"][0], s1))
                s2 = st
                if self.assume(s2, c, False):
                    self.bindbool(s2, x["o"][0], 0); out.append(("br", x["t"][1], s2))
                return out
            if op == "switch":
                v = self.val(st, x["o"][0], ctx)
                if self.taint: st.br[b] = st.br.get(b, EMPTY) | self.tval(st, x["o"][0])
                out = []
                rest = st.copy(); feas = True
                for cv, t in x["cases"]:
                    s1 = rest.copy()
                    if self.assume(s1, ("c", "eq", v, ("k", cv)) if v is not None else None, True): out.append(("br", t, s1))
                    if feas and not self.assume(rest, ("c", "ne", v, ("k", cv)) if v is not None else None, True): feas = False; break
                if feas: out.append(("br", x["def"], rest))
                return out
            if op == "ret":
                if x["o"]:
                    v = self.val(st, x["o"][0], ctx); t = self.tval(st, x["o"][0])
                    if self.taint: t |= self.pctaint(st, fn, b)
                else: v = None; t = EMPTY
                return [("ret", (v, t), st)]
            if op == "unreachable": return []
            if op == "call":
                res = self.call(fn, b, x, st, ctx)
                if "next" in x:
                    out = []
                    for s in res: out.append(("br", x["next"], s))
                    return out
                if len(res) == 1: st = res[0]; continue
                out = []
                for s in res: out.extend(self.insts(fn, b, n + 1, s, ctx))
                return out
            self.simple(fn, b, x, st, ctx)
        return []
    def bindbool(self, st, o, n):
        if o[0] == "v": st.env[o[1]] = ("t", n)
    def simple(self, fn, b, x, st, ctx):
        op = x["op"]; i = x["id"]; v = None
        if op == "alloca":
            v = ("p", (("a", fn.name, i),))
            # a loop may re-enter the allocation's lifetime only via the entry block: nothing to kill
        elif op == "load":
            a = self.val(st, x["o"][0], ctx); path = self.pointee(st, a, x, ctx)
            if path is not None:
                v = self.load(st, path)
                if x["ty"] in ("i8", "i1") and v is not None and v[0] == "k" and v[1] in (0, 1): v = ("t", v[1])
                v = self.on_load(st, path, v, x, ctx)
            if self.taint: st.tenv[i] = self.tval(st, x["o"][0]) | (self.ltaint(st, path) if path is not None else EMPTY) | self.load_taint(st, path, x, ctx)
            if x["ty"] == "double" and not self.floats: v = None
            elif v is None: v = self.fresh(st, fn, x)
            st.env[i] = v; return
        elif op == "store":
            v = self.val(st, x["o"][0], ctx) if x.get("vty") != "double" or self.floats else None
            a = self.val(st, x["o"][1], ctx); path = self.pointee(st, a, x, ctx)
            if x.get("vty") == "i8" and v is not None and v[0] == "k" and v[1] in (0, 1): v = ("t", v[1])
            if path is not None:
                t = EMPTY
                if self.taint: t = self.tval(st, x["o"][0]) | self.pctaint(st, fn, b)
                self.on_store(st, path, v, x, ctx) if not self.taint else self.on_store_t(st, path, v, t, x, ctx)
                self.store(st, path, v, t)
                if x.get("vty") == "double" and not self.floats: st.mem.pop(path, None)
            return
        elif op == "getelementptr":
            v = self.gep(st, self.val(st, x["o"][0], ctx), x["s"], x.get("sty"), x, ctx)
        elif op == "icmp":
            a = self.val(st, x["o"][0], ctx); c = self.val(st, x["o"][1], ctx)
            if a is not None and c is not None:
                r = self.compare(st, x["p"], a, c)
                if r is not None: v = ("t", int(r))
                else:
                    # comparing a boolean with 0/1 is the boolean or its negation
                    cb = cval(c); ca = cval(a)
                    if x["p"] in ("eq", "ne") and cb in (0, 1) and a[0] in ("c", "not"):
                        v = a if (x["p"] == "ne") == (cb == 0) else ("not", a)
                    elif x["p"] in ("eq", "ne") and ca in (0, 1) and c[0] in ("c", "not"):
                        v = c if (x["p"] == "ne") == (ca == 0) else ("not", c)
                    else: v = ("c", x["p"], a, c)
        elif op in ("zext", "sext", "trunc"):
            a = self.val(st, x["o"][0], ctx)
            v = a
            if a is not None and a[0] == "t" and op != "trunc": v = ("t", a[1])
            if a is not None and a[0] == "k" and op == "trunc" and x["ty"] == "i1": v = ("t", a[1] & 1)
            if st.num is not None: v = st.num.cast(op, a, x, fn)
        elif op in ("add", "sub"):
            a = self.val(st, x["o"][0], ctx); c = self.val(st, x["o"][1], ctx)
            v = self.addsub(st, op, a, c, x)
        elif op == "xor":
            a = self.val(st, x["o"][0], ctx); c = self.val(st, x["o"][1], ctx)
            if cval(c) == 1 and x["ty"] == "i1" and a is not None:
                if a[0] == "t": v = ("t", 1 - a[1])
                else: v = a[1] if a[0] == "not" else ("not", a)
        elif op == "select":
            c = self.val(st, x["o"][0], ctx); r = self.evalcond(st, c)
            if r is not None: v = self.val(st, x["o"][1 if r else 2], ctx)
            else:
                p, q = self.val(st, x["o"][1], ctx), self.val(st, x["o"][2], ctx)
                v = p if p == q else None
        elif op in ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"):
            v = self.val(st, x["o"][0], ctx)
        elif op == "extractvalue":
            a = self.val(st, x["o"][0], ctx)
            if a is not None and a[0] == "agg": v = dict(a[1]).get(x["ix"][0])
        elif op == "insertvalue":
            a = self.val(st, x["o"][0], ctx); d = dict(a[1]) if a is not None and a[0] == "agg" else {}
            d[x["ix"][0]] = self.val(st, x["o"][1], ctx); v = ("agg", tuple(sorted(d.items(), key=lambda kv: kv[0])))
        elif op in ("and", "or") and x["ty"] == "i1":
            a = self.val(st, x["o"][0], ctx); c = self.val(st, x["o"][1], ctx)
            ra, rc = self.evalcond(st, a), self.evalcond(st, c)
            if op == "and":
                if ra is False or rc is False: v = ("t", 0)
                elif ra and rc: v = ("t", 1)
            else:
                if ra or rc: v = ("t", 1)
                elif ra is False and rc is False: v = ("t", 0)
        else:
            v = self.other(st, fn, x, ctx)
        if self.taint:
            t = EMPTY
            for o in x.get("o", ()): t |= self.tval(st, o)
            if op == "getelementptr":
                for s in x["s"]:
                    if s[0] != "S": t |= self.tval(st, s[1])
            st.tenv[i] = t
        if x["ty"] == "double" and not self.floats: v = None
        elif v is None and x["ty"] != "void": v = self.fresh(st, fn, x)
        st.env[i] = v
    def other(self, st, fn, x, ctx): return None
    def addsub(self, st, op, a, c, x):
        if a is None or c is None: return None
        sg = 1 if op == "add" else -1
        ca, cc = cval(a), cval(c)
        if ca is not None and cc is not None: return ("k", ca + sg * cc)
        if cc is not None:
            if a[0] == "s": return ("lin", a[1], sg * cc)
            if a[0] == "lin": return ("lin", a[1], a[2] + sg * cc) if a[2] + sg * cc else ("s", a[1])
        if ca is not None and sg == 1:
            return self.addsub(st, op, c, a, x)
        return None
    def load_taint(self, st, path, x, ctx): return EMPTY
    def on_store_t(self, st, path, v, t, x, ctx): self.on_store(st, path, v, x, ctx)

    # ---- calls
    def resolve_virtual(self, st, fn, x, ctx):
        """callee of an indirect call through a vtable slot"""
        o = x["f"]
        if o[0] != "v": return None
        d = fn.inst.get(o[1])
        if not d or d[1]["op"] != "load": return None
        slot = 0; g = d[1]["o"][0]
        gd = fn.inst.get(g[1]) if g[0] == "v" else None
        if gd and gd[1]["op"] == "getelementptr":
            st0 = gd[1]["s"]
            slot = st0[0][1][1] if st0 else 0
        this = self.val(st, x["o"][0], ctx)
        if this is None or this[0] != "p": return None
        k = self.dyn.get(this[1])
        if k is None: k = self.static_class(this[1])
        if k is None: return None
        for c in self.p.base_chain(k):
            vt = self.p.vtables.get(c)
            if vt and slot < len(vt): return self.p.funcs.get(vt[slot])
        return None
    def static_class(self, path): return None
    def call(self, fn, b, x, st, ctx):
        """returns list of successor states (env updated with the result)"""
        f = x["f"]
        args = [self.val(st, o, ctx) for o in x["o"]]
        targs = [self.tval(st, o) for o in x["o"]] if self.taint else None
        if isinstance(f, list):
            cal = self.resolve_virtual(st, fn, x, ctx)
            if cal is None:
                self.unresolved.append((fn.name, x["id"]))
                return self.opaque(fn, b, x, st, ctx, "indirect", args, targs)
            f = cal.name
        self.callsites.add((fn.name, x["id"]))
        cal = self.p.funcs.get(f)
        if cal is not None:
            # member call through a pointer / reference binding: the pointer must not be null
            for i, (a, v) in enumerate(zip(cal.args, args)):
                ref = (a["name"] == "this") or a["sret"] or self.refparam(cal, i)
                if ref and v is not None and v[0] in ("s", "k"):
                    pth = self.pointee(st, v, x, ctx)
                    args[i] = ("p", pth) if pth is not None else None
            if targs is not None:
                targs = [self.arg_taint(st, v, t) for v, t in zip(args, targs)]
            if self.skip_dtors and self.p.is_dtor(cal): return [st]
            r = self.on_call(st, cal, args, x, ctx) if targs is None else self.on_call_t(st, cal, args, targs, x, ctx)
            if r is None:
                if cal.name in ctx.names() or ctx.depth > self.maxdepth:
                    return self.opaque(fn, b, x, st, ctx, cal.base, args, targs)
                pc0 = st.pc
                if self.taint: st.pc = self.pctaint(st, fn, b)
                if self.rename_calls: self.forget_site(st, fn, x)
                outs = self.run(cal, args, st, Ctx(cal, ctx, x), targs)
                st.pc = pc0
                r = []
                for v, t, s in outs:
                    s.env = dict(st.env); s.tenv = dict(st.tenv); s.br = dict(st.br); s.pc = pc0
                    r.append((v, t, s))
            out = []
            for v, t, s in r:
                if x["ty"] != "void":
                    if x["ty"] == "double" and not self.floats: v = None
                    elif v is None: v = self.fresh(s, fn, x)
                    if x["ty"] == "i1" and v is not None and v[0] == "k": v = ("t", v[1] & 1)
                    s.env[x["id"]] = v
                if self.taint: s.tenv[x["id"]] = t
                out.append(s)
            return out
        d = self.p.decl.get(f)
        name = basename(d["dem"]) if d else f
        return self.stdcall(fn, b, x, st, ctx, name, args, targs)
    def refparam(self, cal, i):
        # parameter types: types[0] is the return type, then this, ...; sret shifts the IR arguments
        sh = sum(1 for a in cal.args[:i + 1] if a["sret"])
        k = i - sh + 1
        return 0 < k < len(cal.types) and cal.types[k].endswith("&")
    def arg_taint(self, st, v, t):
        """taint carried by an argument: an address carries what it points to"""
        if v is not None and v[0] == "p": t = t | self.ltaint(st, v[1]) | self.load_taint(st, v[1], None, None)
        return t
    def on_call_t(self, st, cal, args, targs, x, ctx): return self.on_call(st, cal, args, x, ctx)
    def opaque(self, fn, b, x, st, ctx, name, args, targs):
        for a in args:
            if a is not None and a[0] == "p": self.havoc(st, a[1], ("hv", fn.name, x["id"]))
        if x["ty"] != "void":
            st.env[x["id"]] = self.fresh(st, fn, x)
            if self.taint: st.tenv[x["id"]] = frozenset().union(*targs) if targs else EMPTY
        return [st]

    # ---- the standard library
    def iterval(self, st, path):
        """iterator stored in the object at path"""
        if path is None: return None
        for q, v in st.mem.items():
            if len(q) >= len(path) and q[:len(path)] == path and v is not None and v[0] == "it": return q, v
        return None
    def stdcall(self, fn, b, x, st, ctx, name, args, targs):
        r = self.on_std(st, name, args, x, ctx) if targs is None else self.on_std_t(st, name, args, targs, x, ctx)
        if r is not NotImplemented:
            return self.finish(fn, x, st, r, targs)
        leaf = name.split("::")[-1]
        site = ("hv", fn.name, x["id"])
        def ploc(i):
            return self.pointee(st, args[i], x, ctx) if i < len(args) else None
        tall = frozenset().union(*targs) if targs else EMPTY
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                d, s = ploc(0), ploc(1)
                if d is not None and s is not None:
                    self.copytree(st, d, s, x, ctx, fn, b)
                return [st]
            if name.startswith("llvm.memset"):
                d = ploc(0)
                if d is not None: self.wr(st, d, site, x, ctx, name, tall, fn, b)
                return [st]
            return self.finish(fn, x, st, None, targs)
        if name.startswith("__gnu_cxx::__normal_iterator::") or name.startswith("std::_List_iterator::") or name.startswith("std::_List_const_iterator::") or name.startswith("std::reverse_iterator"):
            if leaf in ("operator*", "operator@arrow"):
                pth = ploc(0); it = self.iterval(st, pth)
                if it:
                    el = it[1][1] + (("[", self.elem(("iter", it[0]))),)
                    if self.taint:
                        t = self.ltaint(st, el) | self.load_taint(st, el, x, ctx); targs = list(targs) + [t]
                    return self.finish(fn, x, st, ("p", el), targs)
                return self.finish(fn, x, st, None, targs)
            if leaf in ("operator++", "operator--", "operator+=", "operator-="):
                pth = ploc(0); it = self.iterval(st, pth)
                if it:
                    q, v = it
                    self.killsym(st, lambda t: t == ("iter", q))
                    st.mem[q] = ("it", v[1], None)
                    self.on_advance(st, q, v, leaf, x, ctx)
                    return self.finish(fn, x, st, v if len(args) > 1 and leaf in ("operator++", "operator--") else args[0], targs)
                return self.finish(fn, x, st, None, targs)
            if leaf in ("operator+", "operator-") and "normal_iterator" in name:
                pth = ploc(0); it = self.iterval(st, pth)
                return self.finish(fn, x, st, ("it", it[1][1], None) if it else None, targs)
            if leaf in ("_List_const_iterator", "_List_iterator", "__normal_iterator", "reverse_iterator"):
                d, s = ploc(0), None
                if len(args) > 1:
                    v = args[1]
                    if v is not None and v[0] == "it": st.mem[d] = v
                    elif v is not None and v[0] == "p":
                        it = self.iterval(st, v[1])
                        if it and d is not None: st.mem[d] = it[1]
                        if self.taint and d is not None: st.tmem[d] = targs[1] | self.ltaint(st, v[1])
                return self.finish(fn, x, st, None, targs)
            if leaf == "base":
                it = self.iterval(st, ploc(0)); return self.finish(fn, x, st, it[1] if it else None, targs)
            return self.finish(fn, x, st, None, targs)
        if name == "std::__advance":
            it = self.iterval(st, ploc(0))
            if it:
                q, v = it
                self.killsym(st, lambda t: t == ("iter", q))
                st.mem[q] = self.advanced(st, v, args[1] if len(args) > 1 else None, x, ctx)
                if self.taint: st.tmem[q] = st.tmem.get(q, EMPTY) | tall
            return self.finish(fn, x, st, None, targs)
        if name in ("std::next", "std::prev"):
            v = args[0] if args else None
            return self.finish(fn, x, st, ("it", v[1], None) if v and v[0] == "it" else None, targs)
        cont = name.startswith("std::vector::") or name.startswith("std::list::") or name.startswith("std::basic_string::") or name.startswith("std::map") or name.startswith("std::set") or name.startswith("std::deque")
        if cont:
            this = ploc(0 if not x.get("sret") else 1)
            if this is None: return self.finish(fn, x, st, None, targs)
            if leaf in ("size", "length", "empty", "capacity"):
                ver = None
                for i in range(len(this), 0, -1):
                    h = st.hav.get(this[:i])
                    if h is not None: ver = h; break
                sz = ("s", ("sz", (this, ver)))
                if self.taint: targs = [t | self.load_taint(st, this, x, ctx) | self.ltaint(st, this) for t in targs]
                if leaf == "empty":
                    r = self.compare(st, "eq", sz, ("k", 0))
                    return self.finish(fn, x, st, ("t", int(r)) if r is not None else ("c", "eq", sz, ("k", 0)), targs)
                return self.finish(fn, x, st, sz, targs)
            if leaf in CONST_ELEM:
                idx = args[1] if len(args) > 1 else leaf
                self.on_elem(st, this, leaf, args[1] if len(args) > 1 else None, x, ctx)
                el = this + (("[", self.elem(idx if idx is not None else ("s", ("I", fn.name, x["id"])))),)
                if self.taint: targs = [t | self.load_taint(st, el, x, ctx) | self.ltaint(st, el) for t in targs]
                return self.finish(fn, x, st, ("p", el), targs)
            if leaf in ("begin", "cbegin", "end", "cend", "rbegin", "rend", "crbegin", "crend", "find"):
                if self.taint: targs = [t | self.load_taint(st, this, x, ctx) | self.ltaint(st, this) for t in targs]
                return self.finish(fn, x, st, ("it", this, leaf.lstrip("c") if leaf != "find" else None), targs)
            if leaf == name.split("::")[-2] or leaf in ("vector", "list", "basic_string"):
                # constructors
                if len(args) > 1 and args[1] is not None and args[1][0] == "p" and ("const&" in (self.p.decl.get(x["f"]) or {}).get("dem", "") and ("list(std" in self.p.decl[x["f"]]["dem"] or "vector(std" in self.p.decl[x["f"]]["dem"] or "string(std" in self.p.decl[x["f"]]["dem"])):
                    self.copytree(st, this, args[1][1], x, ctx, fn, b)
                    return self.finish(fn, x, st, None, targs)
                self.wr(st, this, site, x, ctx, name, tall, fn, b)
                if len(args) == 1: self.set_size(st, this, 0)
                return self.finish(fn, x, st, None, targs)
            if leaf.startswith("~"):
                return self.finish(fn, x, st, None, targs)
            if leaf == "operator=" and len(args) > 1 and args[1] is not None and args[1][0] == "p":
                self.copytree(st, this, args[1][1], x, ctx, fn, b)
                return self.finish(fn, x, st, args[0], targs)
            if leaf in ("compare", "substr", "c_str", "find_first_of", "str"):
                return self.finish(fn, x, st, None, targs)
            # mutators
            self.on_mutate(st, this, leaf, args, x, ctx)
            self.wr(st, this, site, x, ctx, name, tall, fn, b)
            if leaf == "clear": self.set_size(st, this, 0)
            if leaf in ("insert", "erase", "emplace"):
                return self.finish(fn, x, st, ("it", this, None), targs)
            return self.finish(fn, x, st, None, targs)
        if leaf in ("operator@new", "operator@new[]"):
            p = (("heap", fn.name, x["id"]),)
            self.havoc(st, p, site)
            return self.finish(fn, x, st, ("p", p), targs)
        if leaf in ("operator@delete", "__clang_call_terminate"): return self.finish(fn, x, st, None, targs)
        if leaf == "sort":
            v = args[0] if args else None
            if v and v[0] == "it": self.wr(st, v[1], site, x, ctx, name, tall, fn, b)
            return self.finish(fn, x, st, None, targs)
        if name in ("std::operator!=", "std::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator==", "std::__distance", "__gnu_cxx::operator-"):
            return self.finish(fn, x, st, self.itercmp(st, name, args, x, ctx, fn), targs)
        if name == "std::max" or name == "std::min":
            return self.finish(fn, x, st, args[0] if args[0] == args[1] else None, targs)
        if x["ty"] == "ptr" and args and args[0] is not None and args[0][0] == "p" and name.startswith("std::") : 
            return self.finish(fn, x, st, args[0], targs)
        return self.finish(fn, x, st, None, targs)
    def on_std_t(self, st, name, args, targs, x, ctx): return self.on_std(st, name, args, x, ctx)
    def on_elem(self, st, cont, leaf, idx, x, ctx): pass
    def on_advance(self, st, q, v, leaf, x, ctx): pass
    def on_mutate(self, st, cont, leaf, args, x, ctx): pass
    def advanced(self, st, v, n, x, ctx): return ("it", v[1], None)
    def itercmp(self, st, name, args, x, ctx, fn): return None
    def set_size(self, st, cont, n):
        ver = None
        for i in range(len(cont), 0, -1):
            h = st.hav.get(cont[:i])
            if h is not None: ver = h; break
        st.facts[("s", ("sz", (cont, ver)))] = ("eq", n)
    def wr(self, st, path, site, x, ctx, name, t, fn, b):
        """the object at path is modified by a library call"""
        if self.taint:
            tt = t | self.pctaint(st, fn, b)
            self.on_modify_t(st, path, tt, x, ctx, name)
            st.tmem[path] = self.ltaint(st, path) | tt
        self.on_havoc(st, path, x, ctx, name)
        self.havoc(st, path, site)
    def on_modify_t(self, st, path, t, x, ctx, name): pass
    def copytree(self, st, d, s, x, ctx, fn, b):
        site = ("hv", fn.name, x["id"])
        n = len(s)
        items = [(q[n:], v) for q, v in st.mem.items() if len(q) > n and q[:n] == s] 
        own = st.mem.get(s)
        t = EMPTY
        if self.taint:
            t = self.ltaint(st, s) | self.load_taint(st, s, x, ctx) | self.pctaint(st, fn, b)
        self.on_copy(st, d, s, t, x, ctx)
        self.havoc(st, d, site)
        for rest, v in items: st.mem[d + rest] = v
        if own is not None: st.mem[d] = own
        if self.taint:
            m = len(d)
            for q in [q for q in st.tmem if len(q) > m and q[:m] == d]: del st.tmem[q]
            st.tmem[d] = t
    def on_copy(self, st, d, s, t, x, ctx):
        self.on_havoc(st, d, x, ctx, "copy")
    def finish(self, fn, x, st, v, targs):
        if x["ty"] != "void":
            if x["ty"] == "double" and not self.floats: v = None
            elif v is None: v = self.fresh(st, fn, x)
            st.env[x["id"]] = v
            if self.taint: st.tenv[x["id"]] = frozenset().union(*targs) if targs else EMPTY
        elif self.taint: pass
        return [st]
