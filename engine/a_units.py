"""C10: every named unit conversion scales (and shifts) by the physically defined ratio; angles keep their unit.

Each conversion function is propagated once per enumerator with value and exponent symbolic, numerator and denominator
separately; the affine result is compared with the ratio of the two unit definitions named by the enumerator. All
angles in the library are unit-typed (degrees/radians) by inference over the program."""
import re, sccp, dfa, ir

SI = {"centimeters": 0.01, "feet": 0.3048, "inches": 0.0254, "kilometers": 1000.0, "meters": 1.0, "miles": 1609.344, "millimeters": 0.001, "yards": 0.9144, "mils": 0.0000254, "micrometers": 1e-6,
      "newtons": 1.0, "pounds": 4.4482216152605, "kilonewtons": 1000.0, "kips": 4448.2216152605, "kilograms": 9.80665, "decanewtons": 10.0, "kilopounds": 4448.2216152605, "tons": 8896.443230521,
      "pascal": 1.0, "pascals": 1.0, "megapascal": 1e6, "megapascals": 1e6, "kilopascal": 1e3, "gigapascal": 1e9, "psf": 4.4482216152605 / 0.3048 ** 2, "psi": 4.4482216152605 / 0.0254 ** 2, "ksi": 4448.2216152605 / 0.0254 ** 2,
      "degrees": 3.14159265358979323846 / 180, "radians": 1.0, "gradians": 3.14159265358979323846 / 200, "turns": 2 * 3.14159265358979323846,
      "seconds": 1.0, "minutes": 60.0, "hours": 3600.0}
TEMP = {"kelvin": (1.0, 0.0), "celsius": (1.0, 273.15), "rankine": (1 / 1.8, 0.0), "fahrenheit": (1 / 1.8, 459.67 / 1.8)}   # K = s*x + o
TOL = 2e-7

def expected(name):
    m = re.match(r"k([A-Z]\w*?)To([A-Z]\w*)$", name)
    if not m: return None
    a, b = m.group(1).lower(), m.group(2).lower()
    if a in TEMP and b in TEMP:
        (s1, o1), (s2, o2) = TEMP[a], TEMP[b]
        return s1 / s2, (o1 - o2) / s2
    if a in SI and b in SI: return SI[a] / SI[b], 0.0
    return None

def close(x, y, scale=1.0): return abs(x - y) <= TOL * max(abs(x), abs(y), 1e-300) or abs(x - y) <= 1e-9 * scale

def analyse(p, res, thorough):
    conv = {}
    for f in p.funcs.values():
        m = re.match(r"^units::Convert(\w+)$", f.base)
        if not m: continue
        en = [t.replace("const ", "").rstrip("&").replace("enum ", "") for t in f.types[1:] if "enum " in t]
        if len(en) == 1 and en[0] in p.enums: conv[f.name] = (f, en[0])
    nenum = und = 0
    for n, (f, en) in sorted(conv.items()):
        names = [a["name"] for a in f.args]; types = f.types[1:]
        iv = next((i for i, t in enumerate(types) if "double" in t), None)
        it = next(i for i, t in enumerate(types) if "enum " in t)
        ie = next((i for i, t in enumerate(types) if re.search(r"\bint\b", t)), None)
        ib = next((i for i, t in enumerate(types) if "bool" in t), None)
        def run(val, e, num_):
            E = sccp.Eval(p); mem = {}; args = []
            for i, a in enumerate(f.args):
                v = ("aff", 0.0, 1.0, 0, 0.0) if i == iv else ("c", val) if i == it else e if i == ie else ("c", 1 if num_ else 0) if i == ib else None
                if a["ty"] == "ptr":
                    mem[(("arg", i), ())] = v; v = ("p", ("arg", i), ())
                args.append(v)
            E.steps = 0
            try: return [r for r, m in E.call(f, args, mem, 0)]
            except sccp.Budget: return [None]
        for name, val in p.enums[en]:
            for num_ in ((True, False) if ib is not None else (True,)):
                nenum += 1
                side = "numerator" if num_ else "denominator"
                if name == "kNull":
                    rs = run(val, ("e", 1), num_)
                    bad = [r for r in rs if r is None or r != ("c", -999999.0)]
                    und += any(r is None for r in bad)
                    bad = [r for r in bad if r is not None]
                    res.oblige(1, not bad)
                    if bad: res.violate("null:%s:%s" % (f.base, side), f.where(), "%s(kNull) does not return the error value on every path (%s)" % (f.base, show(bad[0])))
                    continue
                ex = expected(name)
                if ex is None: und += 1; continue
                k, c = ex
                pure = c == 0
                rs = run(val, ("e", 1), num_)
                exps = (-3, -2, -1, 0, 1, 2, 3, 4) if pure else (1,)
                if not pure and not num_: continue
                if any(r is None for r in rs):
                    per = [(e, run(val, ("c", e), num_)) for e in exps]
                    if any(r is None for e, q in per for r in q): und += 1; res.oblige(1, True); continue
                else: per = [(e, rs) for e in exps]
                ok = True
                for e, q in per:
                    want = k ** (e if num_ else -e)
                    for r in q:
                        a = sccp.affine(r, e)
                        if a is None: continue
                        if not (close(a[0], want) and close(a[1], c if not pure else 0.0, 1000.0)):
                            if ok:
                                res.violate("factor:%s:%s:%s" % (f.base, name, side), f.where(),
                                            "%s(%s, exponent %d, %s) computes %.10g*x%+.10g, the units define %.10g*x%+.10g" % (f.base, name, e, side, a[0], a[1], want, c))
                            ok = False
                res.oblige(1, ok)
                if len(res.samples) < 8 and ok: res.samples.append("%s::%s (%s): %s == ratio %.9g" % (en, name, side, show(rs[0]), k))
    # defaults: one unit, in the numerator -- the header's default arguments
    res.coverage.update({"conversion_functions": len(conv), "enumerator_cases": nenum, "undecided": und})
    angles(p, res)

def show(v):
    if v is None: return "?"
    if v[0] == "aff": return "(x%+g)*%.10g^(%+de)%+g" % (v[1], v[2], v[3], v[4])
    return str(v)

# ---------------------------------------------------------------- angle units
class UF:
    def __init__(self): self.p = {}; self.tag = {}
    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]; a = self.p[a]
        return a
    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b
            for u, w in self.tag.pop(a, {}).items(): self.tag.setdefault(b, {}).setdefault(u, w)
    def mark(self, a, unit, why): self.tag.setdefault(self.find(a), {}).setdefault(unit, why)

RAD = 3.14159265358979323846 / 180
TRIG = {"sin", "cos", "tan"}

ATRIG = {"asin", "acos", "atan", "atan2"}

def cell(p, f, o):
    """storage a pointer operand names, for angle unit purposes"""
    r, q = dfa.addr(f, o)
    if q and q[-1] != "[]":
        # a member: identified by its class through the getelementptr's struct
        c = last_struct(f, o)
        if c: return ("m",) + c
    if r[0] == "arg" and not q: return ("arg", f.name, r[1])
    if r[0] == "alloca": return ("loc", f.name, r[1]) + q
    if r[0] == "call" and not q: return ("v", f.name, r[1])
    return None

def last_struct(f, o):
    while isinstance(o, list):
        if o[0] == "ge": st, nxt = o[2], o[1]
        else:
            x = dfa.defn(f, o)
            if x is None or x["op"] != "getelementptr": return None
            st, nxt = x["s"], x["o"][0]
        for s in reversed(st):
            if s[0] == "S":
                c = f.p.struct_field(s[1], s[2])
                if c is not None: return (f.p.structs.get(s[1], {}).get("name", s[1]), c)
        o = nxt
    return None

class Reach:
    """reaching definitions of double storage cells: at[(inst, operand)] = value nodes a read there may see;
    escapes = (value, cell) for definitions still visible when the function returns or calls on"""
    def __init__(self, p, f):
        self.at = {}; self.escapes = set()
        def v(o): return ("v", f.name, o[1]) if o[0] == "v" and dfa.defn(f, o) is not None else ("val", f.name, o[1]) if o[0] == "v" else ("const",)
        IN = {0: {}}; work = [0]; done = {}
        def reads(x, env, k, o):
            c = cell(p, f, o)
            if c is None or generic(c): return
            self.at.setdefault((x["id"], k), set()).update(q for q in env.get(c, {c}) if q != ("const",))
        def flush(env):
            for c, ds in env.items():
                for d in ds:
                    if d != c and d != ("const",): self.escapes.add((d, c))
        while work:
            b = work.pop()
            env = dict(IN[b])
            for x in f.blocks[b]:
                op = x["op"]
                if op == "load" and x["ty"] == "double": reads(x, env, 0, x["o"][0])
                elif op == "store" and x.get("vty") == "double":
                    c = cell(p, f, x["o"][1])
                    if c and not generic(c): env[c] = frozenset([v(x["o"][0])])
                elif op == "call":
                    pure = isinstance(x["f"], str) and (x["f"] not in p.funcs or p.funcs[x["f"]].base.startswith("units::"))
                    for k, o in enumerate(x["o"]):
                        if dfa.is_ptr(f, o): reads(x, env, k, o)
                    if not pure:
                        m = {c: d for c, d in env.items() if c[0] == "m"}
                        flush(m)
                        for c in m: del env[c]
                elif op == "ret": flush({c: d for c, d in env.items() if c[0] != "loc"})
            for s in f.succ[b]:
                if s not in IN: IN[s] = env; work.append(s)
                else:
                    n = dict(IN[s]); ch = False
                    for c in set(n) | set(env):
                        u = frozenset(n.get(c, frozenset([c]))) | frozenset(env.get(c, frozenset([c])))
                        if u != n.get(c): n[c] = u; ch = True
                    if ch: IN[s] = n; work.append(s)

def generic(c):
    return c[0] == "m" and c[1].split("<")[0] in ("Vector2d", "Vector3d", "Point2d", "Point3d")

def angles(p, res):
    uf = UF(); nconv = ntrig = 0
    enum = dict(p.enums.get("units::AngleConversionType", []))
    d2r, r2d = enum.get("kDegreesToRadians"), enum.get("kRadiansToDegrees")
    def val(f, o):
        if o[0] != "v": return None
        x = dfa.defn(f, o)
        if x is None: return ("val", f.name, o[1])
        return ("v", f.name, o[1])
    def enumarg(f, o):
        r, q = dfa.addr(f, o)
        if r[0] == "alloca":
            st = [u for b, u in f.uses.get(r[1], ()) if u["op"] == "store" and dfa.addr(f, u["o"][1]) == (r, q)]
            if len(st) == 1 and st[0]["o"][0][0] == "i": return st[0]["o"][0][1]
        if r[0] == "glob":
            g = p.globals.get(r[1], {}); return g.get("ival")
        return None
    for f in p.funcs.values():
        if not f.file.startswith(p.root) or f.base.startswith("units::"): continue
        rd = Reach(p, f)
        for bi, x in f.insts():
            op = x["op"]
            if op == "load" and x["ty"] == "double":
                for q in rd.at.get((x["id"], 0), ()): uf.union(("v", f.name, x["id"]), q)
            elif op in ("fadd", "fsub") or (op == "fcmp"):
                a, b = val(f, x["o"][0]), val(f, x["o"][1])
                if a and b: uf.union(a, b)
                for o in x["o"]:
                    if o[0] == "f" and abs(float(o[1])) in (90.0, 180.0, 270.0, 360.0):
                        for q in (a, b):
                            if q: uf.mark(q, "degrees", (f.where(x), "%s combines it with %g" % (f.short, float(o[1]))))
                if op != "fcmp":
                    for q in (a, b):
                        if q: uf.union(("v", f.name, x["id"]), q)
            elif op in ("fmul", "fdiv"):
                for i in (0, 1):
                    o, c = x["o"][1 - i], x["o"][i]
                    if c[0] != "f" or o[0] != "v" or (op == "fdiv" and i == 0): continue
                    k = abs(float(c[1])); q = val(f, o)
                    if k in (1.0, 2.0, 0.5): uf.union(("v", f.name, x["id"]), q)
                    r = k / RAD if op == "fmul" else 1 / k / RAD if k else 0
                    if abs(r - 1) < 1e-6:
                        uf.mark(q, "degrees", (f.where(x), "%s converts it from degrees" % f.short)); uf.mark(("v", f.name, x["id"]), "radians", (f.where(x), "%s converts it to radians" % f.short))
                    r = k * RAD if op == "fmul" else RAD / k if k else 0
                    if abs(r - 1) < 1e-6:
                        uf.mark(q, "radians", (f.where(x), "%s converts it from radians" % f.short)); uf.mark(("v", f.name, x["id"]), "degrees", (f.where(x), "%s converts it to degrees" % f.short))
            elif op in ("phi", "select", "fneg") and x["ty"] == "double":
                for o in (x["o"] if op != "select" else x["o"][1:]):
                    q = val(f, o)
                    if q: uf.union(("v", f.name, x["id"]), q)
            elif op == "ret" and f.ret == "double" and x["o"]:
                q = val(f, x["o"][0])
                if q: uf.union(q, ("ret", f.name))
            elif op == "call" and isinstance(x["f"], str):
                b = dfa.base(p, x).replace("std::", "")
                if b in TRIG and len(x["o"]) == 1:
                    ntrig += 1
                    q = val(f, x["o"][0])
                    if q: uf.mark(q, "radians", (f.where(x), "%s passes it to %s()" % (f.short, b)))
                elif b in ATRIG:
                    ntrig += 1
                    uf.mark(("v", f.name, x["id"]), "radians", (f.where(x), "%s obtains it from %s()" % (f.short, b)))
                elif b in ("abs", "fabs", "fmod", "min", "max") and x["ty"] == "double":
                    q = val(f, x["o"][0])
                    if q: uf.union(("v", f.name, x["id"]), q)
                elif x["f"] in p.funcs and p.funcs[x["f"]].base == "units::ConvertAngle":
                    nconv += 1
                    kinds = [enumarg(f, o) for o in x["o"]]
                    t = kinds[1] if len(kinds) > 1 else None
                    if t is None and len(x["o"]) > 1 and x["o"][1][0] == "i": t = x["o"][1][1]
                    i, o_ = (("degrees", "radians") if t == d2r else ("radians", "degrees") if t == r2d else (None, None))
                    if i is None: continue
                    for q in rd.at.get((x["id"], 0), ()): uf.mark(q, i, (f.where(x), "%s converts it from %s" % (f.short, i)))
                    uf.mark(("v", f.name, x["id"]), o_, (f.where(x), "%s converts it to %s" % (f.short, o_)))
                elif x["f"] in p.funcs:
                    g = p.funcs[x["f"]]
                    if g.file.startswith(p.root):
                        if g.ret == "double" and x["ty"] == "double": uf.union(("v", f.name, x["id"]), ("ret", g.name))
                        for k, (a, o) in enumerate(zip(g.args, x["o"])):
                            if a["ty"] == "ptr" and a["name"] != "this":
                                if (dfa.argtype(g, a["name"]) or "").rstrip("&*").endswith("double"):
                                    for q in rd.at.get((x["id"], k), ()): uf.union(q, ("arg", g.name, a["name"]))
                            elif a["ty"] == "double":
                                q = val(f, o)
                                if q: uf.union(q, ("val", g.name, a["id"]))
        for v, c in rd.escapes: uf.union(v, c)
    # constants that only make sense in one unit
    nclass = 0
    for k, t in uf.tag.items():
        if uf.find(k) != k: continue
        nclass += 1
        ok = not ("degrees" in t and "radians" in t)
        res.oblige(1, ok)
        if not ok:
            a, b = t["degrees"], t["radians"]
            fn = b[1].split(" ")[0]
            res.violate("angle:%s" % fn, b[0], "an angle is used both in degrees and in radians: %s; %s" % (b[1], a[1]), ["%s: %s" % a, "%s: %s" % b])
    res.coverage.update({"angle_classes": nclass, "angle_conversions": nconv, "trigonometric_calls": ntrig})
