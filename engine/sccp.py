"""Path-enumerating constant/affine propagation over small pure functions.

Values: ('c', number) constants; ('aff', a, F, s, b) meaning (v + a) * F**(s*e) + b with v, e the symbolic inputs;
('pow', F, s) meaning F**(s*e); ('e',) the symbolic exponent; ('p', root, path) addresses; None = unknown.
Branches on unknown conditions are followed both ways; loops are cut by a step budget (value unknown)."""
import math, struct, dfa

class Budget(Exception): pass

def num(v): return v is not None and v[0] == "c"
def lin(v):
    if v is None: return None
    if v[0] == "aff": return v
    return None

def mul(x, y):
    if x is None or y is None: return None
    if num(x) and num(y): return ("c", x[1] * y[1])
    if x[0] == "pow" and y[0] == "pow" and x[1] == y[1]: return ("pow", x[1], x[2] + y[2])
    for a, b in ((x, y), (y, x)):
        if a[0] == "aff":
            _, sh, F, s, add = a
            if b[0] == "pow" and add == 0 and s == 0: return ("aff", sh, b[1], b[2], 0.0)
            if b[0] == "pow" and add == 0 and F == b[1]: return ("aff", sh, F, s + b[2], 0.0)
            if num(b) and b[1] != 0 and add == 0:
                k = b[1]
                if s == 0: return ("k", k, sh, 0.0)
        if a[0] == "k" and num(b): return ("k", a[1] * b[1], a[2], a[3] * b[1])
    if x[0] == "c" and x[1] == 1: return y
    if y[0] == "c" and y[1] == 1: return x
    return None
def inv(y):
    if y is None: return None
    if num(y): return ("c", 1.0 / y[1]) if y[1] else None
    if y[0] == "pow": return ("pow", y[1], -y[2])
    return None
def add(x, y, sg=1):
    if x is None or y is None: return None
    if num(x) and num(y): return ("c", x[1] + sg * y[1])
    if num(y) and y[1] == 0: return x
    if num(y):
        c = sg * y[1]
        if x[0] == "aff": return ("aff", x[1] + c, x[2], 0, 0.0) if (x[3] == 0 and x[4] == 0) else ("aff", x[1], x[2], x[3], x[4] + c)
        if x[0] == "k": return ("k", x[1], x[2], x[3] + c)
    if num(x) and sg == 1: return add(y, x)
    return None
# ('k', k, a, b): k*(v + a) + b

def affine(v, e):
    """(slope, intercept) of a value for exponent e"""
    if v is None: return None
    try:
        if v[0] == "aff": m = v[2] ** (v[3] * e) if v[3] else 1.0; return m, v[1] * m + v[4]
        if v[0] == "k": return v[1], v[1] * v[2] + v[3]
        if v[0] == "c": return 0.0, v[1]
    except (OverflowError, ZeroDivisionError): return None
    return None

class Eval:
    def __init__(self, p, maxpaths=64, maxsteps=4000):
        self.p = p; self.maxpaths = maxpaths; self.maxsteps = maxsteps
    def run(self, f, args):
        """args: list of values; returns list of returned values, one per path (None: unknown)"""
        self.steps = 0; self.paths = 0
        try: return self.call(f, args, {}, 0)
        except Budget: return [(None, {})]
    def call(self, f, args, mem, depth):
        if depth > 12: raise Budget()
        env = {a["id"]: v for a, v in zip(f.args, args)}
        out = []
        work = [(0, None, env, dict(mem), 0)]
        while work:
            it = work.pop(); b, prev, env, mem = it[:4]; start = it[4] if len(it) > 4 else 0
            if len(out) + len(work) > self.maxpaths: raise Budget()
            phis = {}
            blk = f.blocks[b]; i = 0
            for x in blk:
                if x["op"] == "phi" and not start:
                    for o, pb in zip(x["o"], x["in"]):
                        if pb == prev: phis[x["id"]] = self.val(f, o, env)
            env.update(phis)
            done = False
            for i, x in enumerate(blk):
                if i < start: continue
                self.steps += 1
                if self.steps > self.maxsteps: raise Budget()
                op = x["op"]; o = x.get("o", [])
                if op == "phi": continue
                if op == "alloca": env[x["id"]] = ("p", ("a", f.name, depth, x["id"]), ())
                elif op == "getelementptr":
                    base = self.val(f, x["o"][0], env); path = ()
                    for s in x["s"]:
                        if s[0] == "S": path += ((s[1], s[2]),)
                        else:
                            k = self.val(f, s[1], env)
                            if not num(k): base = None; break
                            path += (int(k[1]),)
                    env[x["id"]] = ("p", base[1], base[2] + path) if base and base[0] == "p" else None
                elif op == "load":
                    a = self.val(f, o[0], env); env[x["id"]] = self.load(a, mem)
                elif op == "store":
                    a = self.val(f, o[1], env)
                    if a and a[0] == "p": mem[(a[1], a[2])] = self.val(f, o[0], env)
                elif op == "fmul": env[x["id"]] = mul(self.val(f, o[0], env), self.val(f, o[1], env))
                elif op == "fdiv": env[x["id"]] = mul(self.val(f, o[0], env), inv(self.val(f, o[1], env)))
                elif op == "fadd": env[x["id"]] = add(self.val(f, o[0], env), self.val(f, o[1], env))
                elif op == "fsub": env[x["id"]] = add(self.val(f, o[0], env), self.val(f, o[1], env), -1)
                elif op == "fneg": env[x["id"]] = mul(("c", -1.0), self.val(f, o[0], env))
                elif op in ("add", "sub", "mul", "sdiv", "srem", "and", "or", "xor", "shl"):
                    a, c = self.val(f, o[0], env), self.val(f, o[1], env)
                    r = None
                    if num(a) and num(c):
                        p_, q_ = int(a[1]), int(c[1])
                        try: r = ("c", {"add": p_ + q_, "sub": p_ - q_, "mul": p_ * q_, "and": p_ & q_, "or": p_ | q_, "xor": p_ ^ q_}.get(op))
                        except Exception: r = None
                        if op == "sdiv": r = ("c", int(p_ / q_)) if q_ else None
                        if op == "srem": r = ("c", p_ - q_ * int(p_ / q_)) if q_ else None
                        if op == "shl": r = ("c", p_ << q_)
                        if op == "xor" and x["ty"] == "i1": r = ("c", (p_ ^ q_) & 1)
                    elif op in ("mul", "sub") and "e" in ((a or "?")[0], (c or "?")[0]):
                        if op == "sub" and num(a) and a[1] == 0 and c and c[0] == "e": r = ("e", -c[1])
                        if op == "mul":
                            for u, w in ((a, c), (c, a)):
                                if u and u[0] == "e" and num(w): r = ("e", u[1] * w[1])
                    env[x["id"]] = r
                elif op in ("sitofp", "uitofp", "fptosi", "sext", "zext", "trunc", "fpext", "fptrunc", "bitcast", "freeze"):
                    a = self.val(f, o[0], env)
                    if num(a):
                        if op == "trunc" and x["ty"] == "i1": a = ("c", int(a[1]) & 1)
                        elif op == "zext": a = ("c", int(a[1]) & 1) if a[1] in (-1, 1) else a
                        elif op in ("sitofp", "uitofp"): a = ("c", float(a[1]))
                        elif op == "fptosi": a = ("c", int(a[1]))
                    env[x["id"]] = a
                elif op in ("icmp", "fcmp"):
                    a, c = self.val(f, o[0], env), self.val(f, o[1], env)
                    r = None
                    if num(a) and num(c):
                        q = x["p"]; u, w = a[1], c[1]
                        q = q[1:] if op == "fcmp" else q
                        r = {"eq": u == w, "ne": u != w, "sgt": u > w, "sge": u >= w, "slt": u < w, "sle": u <= w, "ugt": u > w, "uge": u >= w, "ult": u < w, "ule": u <= w,
                             "gt": u > w, "ge": u >= w, "lt": u < w, "le": u <= w}.get(q)
                        r = ("c", int(r)) if r is not None else None
                    env[x["id"]] = r
                elif op == "select":
                    c = self.val(f, o[0], env)
                    if num(c): env[x["id"]] = self.val(f, o[1] if c[1] else o[2], env)
                    else:
                        a, d = self.val(f, o[1], env), self.val(f, o[2], env)
                        env[x["id"]] = a if a == d else None
                elif op == "call":
                    r = self.docall(f, x, env, mem, depth)
                    if len(r) == 1: env[x["id"]], mem = r[0]
                    else:
                        # several outcomes: finish this path once per outcome
                        for v, m2 in r[1:]:
                            e2 = dict(env); e2[x["id"]] = v
                            work.append((b, prev, e2, dict(m2), i + 1))
                        env[x["id"]], mem = r[0]
                    if "next" in x: work.append((x["next"], b, env, mem)); done = True; break
                elif op == "br":
                    if not o: work.append((x["t"][0], b, env, mem))
                    else:
                        c = self.val(f, o[0], env)
                        if num(c): work.append((x["t"][0] if c[1] else x["t"][1], b, env, mem))
                        else:
                            for t in x["t"]: work.append((t, b, dict(env), dict(mem)))
                    done = True; break
                elif op == "switch":
                    c = self.val(f, o[0], env)
                    if num(c):
                        t = x["def"]
                        for k, d in x["cases"]:
                            if k == int(c[1]): t = d
                        work.append((t, b, env, mem))
                    else:
                        for t in {d for k, d in x["cases"]} | {x["def"]}: work.append((t, b, dict(env), dict(mem)))
                    done = True; break
                elif op == "ret":
                    out.append((self.val(f, o[0], env) if o else None, mem)); done = True; break
                elif op == "unreachable": done = True; break
                else: env[x["id"]] = None
        return out
    def docall(self, f, x, env, mem, depth):
        n = x["f"]
        vals = [self.val(f, o, env) for o in x["o"]]
        if isinstance(n, str):
            g = self.p.funcs.get(n)
            if g is not None: 
                r = self.call(g, vals, mem, depth + 1)
                u = []
                for v, m in r:
                    if (v, m) not in u: u.append((v, m))
                if len(u) > 1 and all(v == u[0][0] for v, m in u): u = u[:1]
                return u or [(None, mem)]
            b = dfa.base(self.p, x); b = b.replace("std::", "")
            if b == "pow" and len(vals) == 2:
                a, c = vals
                if num(a) and num(c):
                    try: return [(("c", float(a[1]) ** c[1]), mem)]
                    except Exception: return [(None, mem)]
                if num(a) and c and c[0] == "e": return [(("pow", a[1], c[1]), mem)]
            if b in ("abs", "fabs") and len(vals) == 1 and num(vals[0]): return [(("c", abs(vals[0][1])), mem)]
            if b in ("sqrt", "sin", "cos", "tan", "exp", "log") and len(vals) == 1 and num(vals[0]):
                try: return [(("c", getattr(math, b)(vals[0][1])), mem)]
                except Exception: pass
        return [(None, mem)]
    def load(self, a, mem):
        if a is None: return None
        if a[0] == "g": a = ("p", ("g", a[1]), ())
        if a[0] != "p": return None
        k = (a[1], a[2])
        if k in mem: return mem[k]
        if a[1][0] == "g":
            g = self.p.globals.get(a[1][1])
            if g and g["const"]:
                if not a[2]:
                    if "fval" in g: return ("c", float(g["fval"]))
                    if "ival" in g: return ("c", g["ival"])
                if "arr" in g and len(a[2]) == 1 and isinstance(a[2][0], int) and 0 <= a[2][0] < len(g["arr"]): return ("c", g["arr"][a[2][0]])
        return None
    def val(self, f, o, env):
        t = o[0]
        if t == "v": return env.get(o[1])
        if t == "i": return ("c", o[1])
        if t == "f":
            try: return ("c", float(o[1]))
            except ValueError: return None
        if t == "g": return ("p", ("g", o[1]), ())
        if t == "n": return ("c", 0)
        if t == "ge":
            base = self.val(f, o[1], env); path = ()
            for s in o[2]:
                if s[0] == "S": path += ((s[1], s[2]),)
                else:
                    k = self.val(f, s[1], env)
                    if not num(k): return None
                    path += (int(k[1]),)
            return ("p", base[1], base[2] + path) if base and base[0] == "p" else None
        return None
