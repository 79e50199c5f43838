"""C03: no null reference is dereferenced by any Validate, whatever is unset."""
from absint import EMPTY, NEG, mentions
from heap import Typed, this_state, infer_invariants, infer_conditions, pointer_paths, ptr_base, strip
import time
from ir import cache_flags
from a_validate import validators, is_public, has_messages

def describe(v):
    """readable name of an unknown pointer"""
    if v is None: return "?"
    if v[0] == "k": return "null"
    def path(p):
        out = []
        for c in p:
            if isinstance(c, tuple):
                if c[0] == "this": out.append("this")
                elif c[0] == "*": out.append("(%s)->" % sym(c[1]))
                elif c[0] == "[": out.append("[]")
                elif c[0] == "arg": out.append(c[1])
                else: out.append(str(c[0]))
            else: out.append("." + c if out and not out[-1].endswith(">") else c)
        return "".join(out)
    def sym(s):
        if s[0] == "s" and s[1][0] == "L": return path(s[1][1])
        if s[0] == "s" and s[1][0] == "arg": return s[1][1]
        return "value"
    return sym(v) if v[0] == "s" else path(v[1]) if v[0] == "p" else "?"

def inside(s, conts):
    """does a path in s lead through an element of one of the containers"""
    if not isinstance(s, tuple): return False
    for i, c in enumerate(s):
        if isinstance(c, tuple):
            if len(c) == 2 and c[0] == "[" and s[:i] in conts: return True
            if inside(c, conts): return True
    return False

# Pointers the owner of the object keeps set, in step with settings this analysis does not relate to them: judged only where the
# object itself is validated (line cables: not in local copies).
TRUSTED = {"CableComponentElongationModel": {"component_", "state_", "state_stretch_", "temperature_reference_"},
           "CableElongationModel": {"cable_"}, "SagTensionCableComponent": {"component_base_"}, "Polynomial": {"coefficients_"},
           "LineCableConnection": {"line_structure"}, "LineCable": {"weathercase_stretch_creep_", "weathercase_stretch_load_"}}

class NullEngine(Typed):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.derefs = set(); self.bad = {}; self.flags = cache_flags(self.p)
    def on_deref(self, st, v, inst, ctx):
        if inst is None: return
        self.derefs.add((ctx.fn.name, inst["id"]))
        if v[0] == "s":
            k = v[1]
            if k[0] in ("I", "J") or (k[0] == "L" and self.ignore(k[1])): 
                self.unknown.add((ctx.fn.name, inst["id"])) if hasattr(self, "unknown") else None
                return
            t = self.val_type(v)
            if k[0] == "L" and (t is None or not t.endswith("*")): return
            if k[0] == "arg" and not (t or "").endswith("*"): return
        key = (ctx.fn.name, inst["id"])
        if key not in self.bad: self.bad[key] = (v, ctx, inst)
    def on_load(self, st, path, v, inst, ctx):
        if inst["ty"] == "i8" and isinstance(path[-1], str) and (v is None or v[0] != "t"):
            # an unknown 'up to date' flag is taken as stale: a set flag only skips work that was done successfully before
            t = self.path_type(path[:-1])
            if t:
                m = self.p.member(strip(t), path[-1])
                if m and (m[0], path[-1]) in self.flags: return ("t", 0)
        return v
    def ignore(self, path):
        if not isinstance(path[-1], str) or len(path) < 2: return False
        t = strip(self.path_type(path[:-1]) or "")
        if t == "LineCableConnection": return self.dyn.get((("this",),)) == "CablePositionLocator" and path[-1] in TRUSTED[t]
        if t == "LineCable": return path[0][0] == "a" and path[-1] in TRUSTED[t]
        return path[-1] in TRUSTED.get(t, ()) and self.dyn.get((("this",),)) not in self.p.subclasses(t)
    def pointee(self, st, v, inst, ctx):
        if v is not None and v[0] == "s" and inst is not None:
            self.derefs.add((ctx.fn.name, inst["id"]))
        return super().pointee(st, v, inst, ctx)

    # the elements of a container are described by one summary element
    def elem(self, i): return "*"
    def assume(self, st, c, truth):
        if not super().assume(st, c, truth): return False
        if c is not None and c[0] == "c":
            pred, a, b = c[1] if truth else NEG[c[1]], c[2], c[3]
            if a is not None and a[0] in ("k", "t"): a, b, pred = b, a, {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(pred, pred)
            if a is not None and b is not None and a[0] == "s" and a[1][0] == "sz" and b[0] == "k":
                if (pred in ("sge", "uge") and b[1] >= 1) or (pred in ("sgt", "ugt") and b[1] >= 0):
                    f = st.facts.get(a)
                    if f == ("eq", 0): return False
                    if f is None or f[0] == "ne": st.facts[a] = ("ne", (f[1] if f else frozenset()) | {0})
        return True
    def join(self, a, b, tag):
        r = super().join(a, b, tag)
        # what holds for the elements of a container holds for those of an empty one
        for x, y in ((a, b), (b, a)):
            empty = {s[1][1][0] for s, f in y.facts.items() if s[1][0] == "sz" and f == ("eq", 0) and isinstance(s[1][1], tuple)}
            if not empty: continue
            for s, f in x.facts.items():
                if s not in r.facts and s not in y.facts and inside(s, empty): r.facts[s] = f
        return r
    # iterators: at the first element, or moved past it
    def on_advance(self, st, q, v, leaf, x, ctx):
        if leaf == "operator++" and v[2] in ("begin", "+"): st.mem[q] = ("it", v[1], "+")
    def itercmp(self, st, name, args, x, ctx, fn):
        m = []
        for a in args[:2]:
            q = self.pointee(st, a, x, ctx)
            it = (None, a) if a is not None and a[0] == "it" else self.iterval(st, q)
            if not it: return None
            m.append(it[1])
        if len(m) == 2 and m[0][1] == m[1][1] and {m[0][2], m[1][2]} == {"begin", "end"}:
            # an iterator at the first element meets the end only in an empty container
            c = m[0][1]; ver = next((st.hav[c[:i]] for i in range(len(c), 0, -1) if st.hav.get(c[:i]) is not None), None)
            sz = ("s", ("sz", (c, ver))); eq = name.endswith("==")
            r = self.compare(st, "eq", sz, ("k", 0))
            return ("t", int(r == eq)) if r is not None else ("c", "eq" if eq else "ne", sz, ("k", 0))
        if len(m) != 2 or m[0][1] != m[1][1] or name.split("::")[-1] not in ("operator!=", "operator=="): return None
        same = {frozenset(["begin"]): 1, frozenset(["begin", "+"]): 0}.get(frozenset(v[2] for v in m))
        if same is None: return None
        return ("t", same if name.endswith("==") else 1 - same)
    entry = None; _pt = {}
    def run(self, f, *a, **k):
        if self.entry is None: self.entry = f
        return super().run(f, *a, **k)
    def pointed(self, c):
        if c not in self._pt: self._pt[c] = {strip(ptr_base(self.p.member(c, q[0])[1]["type"]) or "") for q in pointer_paths(self.p, c, 1)} if c else set()
        return self._pt[c]
    def switch(self, v, fn):
        """v is a setting of an object a member of the class of fn, or an argument of fn, points to"""
        if v[1][0] != "L": return False
        p = v[1][1]
        if p[0][0] not in ("*", "A") or len(p) < 2 or strip(self.path_type(p) or "") != "bool": return False
        if p[0][0] == "A": return strip(p[0][2] or "") in self.pointed(fn.cls)
        o = p[0][1]
        if o[0] != "s": return False
        if o[1][0] == "arg": return fn is self.entry
        if o[1][0] != "L": return False
        own = o[1][1]
        if len(own) < 2: return False
        t = self.path_type(own[:-1])
        return t is not None and fn.cls is not None and strip(t) in self.p.base_chain(fn.cls)
    def state_key(self, st, fn, block):
        it = tuple(sorted(((q, v[2]) for q, v in st.mem.items() if v is not None and v[0] == "it" and q[0][0] == "a" and q[0][1] == fn.name and v[2] in ("begin", "+")), key=repr))
        # settings of the objects referred to are told apart
        if block is None and fn is not self.entry: return super().state_key(st, fn, block) + (it,)
        sw = tuple(sorted(((v, f) for v, f in st.facts.items() if self.switch(v, fn)), key=repr))
        return super().state_key(st, fn, block) + (it, sw)

def analyse(prog, res, thorough):
    inv = infer_invariants(prog)
    def make(rts, inv, cond):
        e = NullEngine(prog, rts, inv); e.coarse = True; e.rename_calls = True; e.cond = cond
        return e
    t0 = time.time(); cond = infer_conditions(prog, inv, make); t1 = time.time() - t0
    vs = [f for f in validators(prog) if is_public(prog, f)]
    total = set(); funcs = set(); unres = set()
    for f in vs:
        for k in (prog.subclasses(f.cls) if f.cls else [None]):
            if k != f.cls and not any(g.cls in prog.base_chain(k) for g in [f]): continue
            st, args, rts = this_state(f, k or "", prog)
            e = make(rts, inv, cond); e.dyn[(("this",),)] = k
            e.run(f, args, st)
            total |= e.derefs; funcs |= e.visited; unres |= set(e.unresolved)
            n = len(e.derefs)
            res.oblige(n - len(e.bad)); res.oblige(len(e.bad), False)
            for (fn, i), (v, ctx, inst) in e.bad.items():
                g = ctx.fn
                res.violate("C03:%s:%s:%s" % ((k or "") + "::" + f.base.split("::")[-1], g.short, describe(v)), g.where(inst),
                            "%s::%s dereferences %s, which may be null, in %s" % (k, f.base.split("::")[-1], describe(v), g.short), ctx.chain())
            if len(res.samples) < 12: res.samples.append({"entry": f.dem, "as": k, "dereferences": n, "functions": len(e.visited)})
    res.coverage.update({"entry_points": len(vs), "dereference_sites": len(total), "functions_analysed": len(funcs), "unresolved_calls": len(unres),
                         "conditions": {c: sorted("%s -> %s" % (".".join(m), ".".join(q)) for q, ms in x.items() for m in ms) for c, x in cond.items() if x}, "pointer_invariants": {c: {".".join(map(str, q)): x[0] for q, x in i.items()} for c, i in inv.items()}})
