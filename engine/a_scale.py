"""C20: the metric and the imperial formula are the same formula, with constants that differ by the unit factors.

Every method that selects by unit system is evaluated twice into a symbolic expression (sums of products of powers of inputs), once per
system.  The two expressions are laid over each other: a term of the one and the same term of the other have a ratio, the
product of the ratio of their constants and of the unit factors of the inputs in them.  Terms that are added must have
the same ratio; results must have the unit factor of what they stand for."""
import math, re
import dfa, ir, penum

FT = 1 / 0.3048                  # feet per metre
W_FT = 0.3048                    # W/ft per W/m
W_FT2 = 0.3048 ** 2
# inputs: imperial number / metric number of the same quantity
LEAF = {"diameter": FT, "elevation": FT, "elevation_": FT, "velocity_wind": FT, "speed_wind": FT, "radiation_solar": W_FT2, "Resistance": W_FT, "resistance": W_FT,
        "temperature_air": 1, "angle_wind": 1, "emissivity": 1, "absorptivity": 1, "Constant": FT, "altitude_sun_": 1}
METHOD = {"HeatConvection": W_FT, "HeatRadiation": W_FT, "HeatSolar": W_FT}
MEMBER = {"velocity_wave_": FT}
VECTOR = {"coefficients_atmosphere_": (W_FT2, 1), "coefficients_elevation_": (1, FT)}       # a polynomial: unit factors of the value and of the variable
TOL = 0.003
LOOSE = {("coefficients_elevation_", 2): 0.035}     # published with two digits in one and four in the other system
MAXT = 200

class GiveUp(Exception): pass

# ---------------------------------------------------------------- expressions: (coefficient, ((base, exponent), ...))
def const(c): return (float(c), ())
def leaf(n): return (1.0, ((("L", n), 1.0),))
def isconst(a): return a is not None and not a[1]
def mul(a, b, s=1.0):
    if a is None or b is None: return None
    d = {}
    for k, e in a[1]: d[k] = d.get(k, 0.0) + e
    for k, e in b[1]: d[k] = d.get(k, 0.0) + s * e
    if s < 0 and b[0] == 0: return None
    return (a[0] * b[0] if s > 0 else a[0] / b[0], tuple(sorted(((k, e) for k, e in d.items() if abs(e) > 1e-12), key=repr)))
def power(a, c):
    if a is None or a[0] == 0 and c <= 0: return None
    if a[0] < 0 and c != int(c): return None
    return (a[0] ** c, tuple((k, e * c) for k, e in a[1]))
def terms(a):
    if len(a[1]) == 1 and a[1][0][0][0] == "S" and a[1][0][1] == 1: return [(a[0] * t[0], t[1]) for t in a[1][0][0][1]]
    return [a]
def add(a, b, s=1.0):
    if a is None or b is None: return None
    d = {}
    for t in terms(a): d[t[1]] = d.get(t[1], 0.0) + t[0]
    for t in terms(b): d[t[1]] = d.get(t[1], 0.0) + s * t[0]
    r = [(c, m) for m, c in d.items() if c != 0]
    if not r: return const(0)
    if len(r) > MAXT: raise GiveUp()
    if len(r) == 1: return r[0]
    return (1.0, ((("S", tuple(sorted(r, key=lambda t: repr(t[1])))), 1.0),))
def func(n, args):
    if any(a is None for a in args): return None
    return (1.0, ((("F", n, tuple(args)), 1.0),))
def alt(vs):
    vs = [v for v in vs if v is None or v != const(-999999)]
    out = []
    for v in vs:
        if v not in out: out.append(v)
    if not out: return const(-999999)
    if len(out) == 1: return out[0]
    if None in out: return None
    return (1.0, ((("A", tuple(out)), 1.0),))
def shape(m): return tuple(sorted(((bshape(b), round(e, 6)) for b, e in m), key=repr))
def bshape(b):
    if b[0] == "L": return b
    if b[0] == "S": return ("S", tuple(sorted((shape(t[1]) for t in b[1]), key=repr)))
    return b[:-1] + (tuple(shape(t[1]) for t in b[-1]),)

class Pair:
    def __init__(self): self.bad = []; self.open = []; self.terms = 0
    def prod(self, a, b):
        if a is None or b is None: self.open.append("value not followed"); return None
        r = self.mono(a[1], b[1])
        if b[0] == 0 or a[0] == 0: return None
        return None if r is None else a[0] / b[0] * r
    def mono(self, x, y):
        if shape(x) != shape(y): self.open.append("the two systems use formulas of another form"); return None
        r = 1.0
        key = lambda t: repr((bshape(t[0]), round(t[1], 6)))
        xs, ys = sorted(x, key=key), sorted(y, key=key)
        if self.unclear([key(t) for t in xs], xs, ys): return None
        for (p, e), (q, _) in zip(xs, ys):
            v = self.base(p, q)
            if v is None: r = None
            elif r is not None:
                if v <= 0: return None
                r *= v ** e
        return r
    def unclear(self, ks, xs, ys):
        """two parts of the same form: which belongs to which is open unless both systems have the very same ones"""
        for i in range(len(ks) - 1):
            if ks[i] == ks[i + 1] and (xs[i], xs[i + 1]) != (ys[i], ys[i + 1]): self.open.append("two parts of the same form"); return True
        return False
    def base(self, p, q):
        if p[0] == "L":
            v = LEAF.get(p[1])
            if v is None: self.open.append("no unit factor known for " + str(p[1]))
            return v
        if p[0] == "S":
            k = lambda t: repr(shape(t[1]))
            rs = []
            xs, ys = sorted(p[1], key=k), sorted(q[1], key=k)
            if self.unclear([k(t) for t in xs], xs, ys): return None
            for a, b in zip(xs, ys):
                r = self.prod(a, b)
                if r is not None: rs.append(r)
            return self.same(rs, "added")
        rs = [self.prod(a, b) for a, b in zip(p[-1], q[-1])]
        if p[0] == "A": return self.same([r for r in rs if r is not None], "chosen between")
        for r in rs:
            if r is None: return None
            if abs(r - 1) > TOL: self.bad.append("the argument of %s is a number that depends on the unit system (factor %.4g)" % (p[1], r)); return None
        return 1.0
    def same(self, rs, how):
        self.terms += len(rs)
        if not rs: return None
        if min(rs) <= 0 <= max(rs) or max(abs(r) for r in rs) / min(abs(r) for r in rs) - 1 > TOL:
            self.bad.append("values %s have different unit factors: imperial/metric %s" % (how, ", ".join("%.5g" % r for r in rs)))
            return None
        return sum(rs) / len(rs)

# ---------------------------------------------------------------- evaluation of a method for one unit system
class Eval:
    def __init__(self, p, choice): self.p = p; self.choice = choice; self.writes = {}; self.where = {}
    def reach(self, f):
        es = None
        for key, (enum, xs) in penum.sources(self.p, f).items():
            for name, v in self.choice.items():
                if enum.split("::")[-1] == name.split("::")[-1]:
                    e = penum.reach(self.p, f, key, v)[1]
                    es = e if es is None else es & e
        if es is None: es = {(b, s) for b in range(len(f.blocks)) for s in f.succ[b]}
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in f.succ[b]:
                if (b, s) in es and s not in seen: seen.add(s); st.append(s)
        return seen, {(a, b) for a, b in es if a in seen}
    def run(self, f, args, mem, depth=0):
        """(value returned, memory)"""
        if depth > 8 or f.loops: raise GiveUp()
        seen, edges = self.reach(f)
        env = {}
        for i, a in enumerate(f.args): env[a["id"]] = args[i] if i < len(args) else None
        order = []; done = set()
        def visit(b):
            if b in done: return
            done.add(b)
            for s in reversed(f.succ[b]):
                if (b, s) in edges: visit(s)
            order.append(b)
        visit(0); order.reverse()
        out = {}; rets = []
        pre = {b: [a for a in order if (a, b) in edges] for b in order}
        uid = (f.name, depth)
        def val(o):
            if o[0] == "v": return env.get(o[1])
            if o[0] == "f":
                try: return const(float(o[1]))
                except ValueError: return None
            if o[0] == "i": return o[1]
            return None
        for b in order:
            if b == 0: m = dict(mem)
            else:
                ms = [out[a] for a in pre[b] if a in out]
                if not ms: continue
                m = dict(ms[0])
                if len(ms) > 1:
                    m = {}
                    for k in {k for z in ms for k in z}:
                        vs = [z[k] for z in ms if k in z]
                        if all(v == vs[0] for v in vs): m[k] = vs[0]
                        else: m[k] = alt(vs) if all(v is None or isinstance(v, tuple) and v and isinstance(v[0], float) for v in vs) else None
            for x in f.blocks[b]:
                op = x["op"]; o = x.get("o", [])
                if op == "phi":
                    vs = [val(v) for v, a in sorted(zip(x["o"], x["in"]), key=lambda t: order.index(t[1]) if t[1] in out else -1) if (a, b) in edges and a in out]
                    if x["ty"] == "double": env[x["id"]] = alt(vs)
                    elif vs and all(v == vs[0] for v in vs): env[x["id"]] = vs[0]
                elif op == "icmp":
                    s = [next((w for z, w in self.choice.items() if e and e[0].split("::")[-1] == z.split("::")[-1]), val(q)) for q in o for e in [penum.source(self.p, f, q)]]
                    if all(isinstance(z, int) for z in s) and x["p"] in ("eq", "ne"): env[x["id"]] = int((s[0] == s[1]) == (x["p"] == "eq"))
                elif op == "select":
                    c = val(o[0])
                    if isinstance(c, int): env[x["id"]] = val(o[1] if c else o[2])
                    elif x["ty"] == "double": env[x["id"]] = alt([val(o[1]), val(o[2])])
                    elif x["ty"] == "ptr" and all(isinstance(q, tuple) and q[0] == "P" and q[1:] in m for q in (val(o[1]), val(o[2]))):
                        k = ("sel", (uid, x["id"])); env[x["id"]] = ("P", k, ()); m[(k, ())] = alt([m[val(q)[1:]] for q in o[1:]])
                elif op == "alloca": env[x["id"]] = ("P", (uid, x["id"]), ())
                elif op == "getelementptr":
                    q = val(o[0])
                    if isinstance(q, tuple) and q[0] == "P": env[x["id"]] = ("P", q[1], q[2] + dfa.steps(f, x["s"]))
                elif op == "load":
                    q = val(o[0])
                    if isinstance(q, tuple) and q[0] == "P":
                        k = q[1:]
                        if x["ty"] == "double":
                            n = next((z for z in reversed(q[2]) if isinstance(z, str) and not z.startswith("[")), None) or (q[1][-1] if isinstance(q[1], tuple) and q[1][0] in ("call", "arg") else None)
                            env[x["id"]] = m[k] if k in m else leaf(n) if n else None
                        elif x["ty"] == "ptr": env[x["id"]] = m[k] if k in m else ("P", ("at",) + k, ())
                        elif k in m: env[x["id"]] = m[k]
                elif op == "store":
                    q = val(o[1]); v = val(o[0])
                    if isinstance(q, tuple) and q[0] == "P":
                        m[q[1:]] = v
                        if q[1] == "this" and x.get("vty") == "double": self.where[q[2]] = f.where(x)
                elif op in ("fmul", "fdiv", "fadd", "fsub", "fneg"):
                    a = val(o[0]); c = val(o[1]) if len(o) > 1 else None
                    env[x["id"]] = mul(a, c) if op == "fmul" else mul(a, c, -1.0) if op == "fdiv" else add(a, c) if op == "fadd" else add(a, c, -1.0) if op == "fsub" else mul(a, const(-1)) if a else None
                elif op in ("sitofp", "uitofp"):
                    v = val(o[0]); env[x["id"]] = const(v) if isinstance(v, int) else None
                elif op in ("sext", "zext", "trunc", "fpext", "fptrunc", "freeze"): env[x["id"]] = val(o[0])
                elif op == "call": self.call(f, x, [val(z) for z in o], env, m, depth)
                elif op == "ret": rets.append((val(o[0]) if o else None, m))
            out[b] = m
        if not rets: raise GiveUp()
        if len(rets) > 1: raise GiveUp()
        return rets[0]
    def call(self, f, x, args, env, m, depth):
        p = self.p; n = x["f"]
        if not isinstance(n, str): return
        if n.startswith("llvm.fmuladd"): env[x["id"]] = add(mul(args[0], args[1]), args[2]); return
        if n.startswith("llvm."):
            if x["ty"] == "double": env[x["id"]] = func(n.split(".")[1], [a for a in args if isinstance(a, tuple)])
            return
        g = p.funcs.get(n); d = dfa.base(p, x).split("::")[-1]
        d = re.sub(r"<.*", "", d).strip() or n
        if g is None:
            if x["ty"] == "double":
                a = [const(z) if isinstance(z, int) else z for z in args]
                if any(z is None or z[0] == "P" for z in a): return
                if d == "pow" or d.endswith("pow"):
                    if isconst(a[1]): env[x["id"]] = power(a[0], a[1][0])
                elif d == "sqrt": env[x["id"]] = power(a[0], 0.5)
                elif d in ("fabs", "abs"): env[x["id"]] = a[0]
                else: env[x["id"]] = func(d, a)
            elif x["ty"] == "ptr" and args and isinstance(args[0], tuple) and args[0][0] == "P":
                i = args[1] if len(args) > 1 else None
                if d in ("max", "min") and all(isinstance(z, tuple) and z[0] == "P" and isinstance(m.get(z[1:]), tuple) for z in args):
                    k = ("max", x["id"], depth); m[(k, ())] = alt([m[z[1:]] for z in args]); env[x["id"]] = ("P", k, ()); return
                if (d.startswith("operator[]") or d == "at") and isinstance(i, int): env[x["id"]] = ("P", args[0][1], args[0][2] + (i,))
                else: env[x["id"]] = ("P", ("call", args[0][1:], d), ())
            return
        own = args and isinstance(args[0], tuple) and args[0][:3] == ("P", "this", ()) and g.method
        helper = not g.method and not g.dem.startswith("units::")
        if (own or helper) and not g.loops:
            r, m2 = self.run(g, args, m, depth + 1)
            m.clear(); m.update(m2); env[x["id"]] = r; return
        if x["ty"] == "double":
            if g.method: env[x["id"]] = leaf(d)
            else:
                a = [z if z[0] != "P" else m[z[1:]] if z[1:] in m else leaf(z[2][-1]) if z[2] else None for z in args if isinstance(z, tuple)]
                env[x["id"]] = func(d, [z for z in a if not isinstance(z, (int, bool))])
        elif x["ty"] == "ptr": env[x["id"]] = ("P", ("call", args[0][1:] if args and isinstance(args[0], tuple) else None, d), ())

def enumerators(p, name):
    for n, e in p.enums.items():
        if n.split("::")[-1] == name: return n, e
    return None, None

def analyse(p, res, thorough=False):
    seen = set(); cov = {"methods": [], "not_followed": [], "open": [], "terms_compared": 0}
    uses = {}
    def touches(f, stack=()):
        if f.name in uses: return uses[f.name]
        if f.name in stack: return False
        r = any(e.split("::")[-1] == "UnitSystem" for e, xs in penum.sources(p, f).values())
        if not r:
            for bi, x in f.insts():
                if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in p.funcs:
                    g = p.funcs[x["f"]]
                    if (g.cls == f.cls and f.cls or not g.method) and touches(g, stack + (f.name,)): r = True; break
        uses[f.name] = r; return r
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.method or not f.cls or not touches(f): continue
        if f.loops: cov["not_followed"].append(f.short); continue
        others = {e for e, xs in penum.sources(p, f).values() if e.split("::")[-1] != "UnitSystem"}
        for g in {x["f"] for b, x in f.insts() if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in p.funcs}:
            if p.funcs[g].cls == f.cls: others |= {e for e, xs in penum.sources(p, p.funcs[g]).values() if e.split("::")[-1] != "UnitSystem"}
        combos = [{}]
        for e in sorted(others)[:2]:
            vals = values(p, e)
            combos = [dict(c, **{e: v}) for c in combos for n, v in vals if n != "kNull"] or combos
        us = dict(values(p, next(e for g in p.funcs.values() for e, xs in penum.sources(p, g).values() if e.split("::")[-1] == "UnitSystem")))
        if "kImperial" not in us or "kMetric" not in us: continue
        cov["methods"].append(f.short)
        for c in combos:
            ev = []
            try:
                for s in ("kImperial", "kMetric"):
                    e = Eval(p, dict(c, UnitSystem=us[s]))
                    args = [("P", "this", ())] + [("P", ("arg", "argument"), ()) if a["ty"] == "ptr" else leaf("argument") if a["ty"] == "double" else None for a in f.args[1:]]
                    v, m = e.run(f, args, {})
                    ev.append((v, {k[1]: w for k, w in m.items() if k[0] == "this" and isinstance(w, tuple) and w and isinstance(w[0], float)}, e.where))
            except (GiveUp, KeyError, IndexError, TypeError, ValueError, OverflowError, ZeroDivisionError, RecursionError):
                cov["not_followed"].append(f.short); continue
            (vi, mi, wi), (vm, mm, wm) = ev
            base = f.short.split("::")[-1]
            if isinstance(vi, tuple) and isinstance(vi[0], float): judge(f, res, cov, seen, base, f.where(), vi, vm, METHOD.get(base), TOL, arg=base in METHOD)
            for k in sorted(set(mi) | set(mm), key=repr):
                a, b = mi.get(k), mm.get(k)
                name = next((z for z in reversed(k) if isinstance(z, str)), "?"); w = wi.get(k) or wm.get(k) or f.where()
                want = MEMBER.get(name); tol = TOL
                if name in VECTOR and isinstance(k[-1], int):
                    want = VECTOR[name][0] / VECTOR[name][1] ** k[-1]; tol = LOOSE.get((name, k[-1]), 0.001)
                if a is None or b is None: cov["open"].append("%s: %s is set in one system only" % (f.short, name)); continue
                if a == b and want is None: continue
                judge(f, res, cov, seen, ".".join(map(str, k)) + "".join(":%s" % v for v in c.values()), w, a, b, want, tol)
    cov["open"] = sorted(set(cov["open"])); cov["not_followed"] = sorted(set(cov["not_followed"])); cov["methods"] = sorted(set(cov["methods"]))
    res.coverage.update(cov)

def values(p, enum):
    e = p.enums.get(enum) or next((v for n, v in p.enums.items() if n.split("::")[-1] == enum.split("::")[-1]), [])
    return list(e.items()) if isinstance(e, dict) else [tuple(z) if not isinstance(z, dict) else (z["name"], z["value"]) for z in e]

def judge(f, res, cov, seen, name, where, a, b, want, tol, arg=False):
    P = Pair()
    LEAF["argument"] = 1 if arg else None
    r = P.prod(a, b); cov["terms_compared"] += P.terms
    key = "%s:%s" % (f.cls, name)
    if (key, repr(a), repr(b)) in seen: return
    seen.add((key, repr(a), repr(b)))
    bad = list(dict.fromkeys(P.bad))
    if not bad and r is not None and want is not None and abs(r / want - 1) > tol:
        bad.append("the imperial result is %.5g times the metric one, the units say %.5g" % (r, want))
    for o in P.open: cov["open"].append("%s: %s" % (f.short, o))
    if bad: res.violate(key, where, "%s: %s" % (name, bad[0]), path=["in %s" % f.short] + bad[1:])
    if want is not None or P.terms: res.oblige(1, not bad)
