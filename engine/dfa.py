"""Intra-function helpers shared by the analyses: addresses, slices, callees."""
import ir

def defn(f, o):
    if isinstance(o, list) and o and o[0] == "v":
        d = f.inst.get(o[1])
        return d[1] if d else None
    return None

def argname(f, o):
    if isinstance(o, list) and o and o[0] == "v" and o[1] not in f.inst:
        for a in f.args:
            if a["id"] == o[1]: return a["name"]
    return None

def argtype(f, name):
    """source type of a parameter"""
    ns = [a["name"] for a in f.args if not a["sret"]]
    if name in ns:
        i = ns.index(name)
        if i + 1 < len(f.types): return f.types[i + 1]
    return None

def steps(f, st):
    out = []
    for s in st:
        if s[0] == "S":
            c = f.p.struct_field(s[1], s[2])
            if c is not None: out.append(c)
        else: out.append("[]")
    return tuple(out)

def addr(f, o, depth=0):
    """(root, path): root = ('arg',name) ('alloca',id) ('glob',name) ('call',id) ('phi',id) ('load',root,path) ('null',) ('?',)"""
    path = ()
    while True:
        depth += 1
        if depth > 60: return ("?",), path
        if not isinstance(o, list) or not o: return ("?",), path
        if o[0] == "ge":
            path = steps(f, o[2]) + path; o = o[1]; continue
        if o[0] == "g": return ("glob", o[1]), path
        if o[0] == "n": return ("null",), path
        if o[0] == "ce": o = o[2]; continue
        if o[0] != "v": return ("?",), path
        x = defn(f, o)
        if x is None: return ("arg", argname(f, o)), path
        op = x["op"]
        if op == "getelementptr":
            path = steps(f, x["s"]) + path; o = x["o"][0]; continue
        if op in ("bitcast", "addrspacecast", "freeze"): o = x["o"][0]; continue
        if op == "alloca": return ("alloca", x["id"]), path
        if op == "load":
            r, q = addr(f, x["o"][0], depth)
            return ("load", r, q), path
        if op == "call":
            return ("call", x["id"]), path
        if op == "phi": return ("phi", x["id"]), path
        if op == "select": return ("phi", x["id"]), path
        return ("?",), path

def this_member(f, o):
    """first member component when the address lies in *this, else None"""
    r, q = addr(f, o)
    if r == ("arg", "this") and q: return q[0]
    return None

def callees(p, f, x):
    """repo function names a call may reach (virtual calls: every matching vtable slot entry)"""
    n = x["f"]
    if isinstance(n, str): return [n] if n in p.funcs else []
    return virtual_targets(p, f, x)

def virtual_targets(p, f, x):
    d = defn(f, x["f"])
    out = set()
    if d is not None and d["op"] == "load":
        a = defn(f, d["o"][0])
        slot = 0
        if a is not None and a["op"] == "getelementptr":
            for s in a["s"]:
                if s[0] == "P" and s[1][0] == "i": slot = s[1][1]
        r, q = addr(f, x["o"][0])
        for cls, vt in p.vtables.items():
            if slot < len(vt) and vt[slot] in p.funcs: out.add((cls, vt[slot]))
    # keep the targets whose parameter count matches
    na = len(x["o"])
    return sorted({n for c, n in out if len(p.funcs[n].args) == na})

def base(p, x):
    """base name of a direct call target"""
    n = x["f"]
    if not isinstance(n, str): return "?"
    d = p.decl.get(n)
    return ir.basename(d["dem"]) if d else n

def slice_back(f, o, stop=None):
    """instructions an operand is computed from within the function (through memory of scalar allocas)"""
    seen = set(); st = [o]; out = []
    while st:
        a = st.pop()
        if not isinstance(a, list) or not a: continue
        if a[0] == "ge":
            st.append(a[1]); st += [s[1] for s in a[2] if s[0] in ("A", "P")]; continue
        if a[0] == "ce": st.append(a[2]); continue
        if a[0] != "v" or a[1] in seen: continue
        seen.add(a[1])
        x = defn(f, a)
        if x is None: out.append(("arg", argname(f, a))); continue
        out.append(("inst", x))
        if stop and stop(x): continue
        st += x.get("o", [])
        if x["op"] == "getelementptr": st += [s[1] for s in x["s"] if s[0] in ("A", "P")]
        if x["op"] == "alloca":
            for bi, u in f.uses.get(x["id"], ()):
                if u["op"] == "store" and u["o"][1] == a: st.append(u["o"][0])
                elif u["op"] == "call": st += u["o"]
    return out

def callgraph(p):
    g = getattr(p, "_cg", None)
    if g is None:
        g = {}
        for f in p.funcs.values():
            s = set()
            for bi, x in f.insts():
                if x["op"] == "call": s |= set(callees(p, f, x))
            g[f.name] = s
        p._cg = g
    return g

def is_ptr(f, o):
    if not isinstance(o, list) or not o: return False
    if o[0] in ("n", "g", "ge"): return True
    x = defn(f, o)
    if x is not None: return x["ty"] == "ptr"
    n = argname(f, o)
    for a in f.args:
        if a["name"] == n: return a["ty"] == "ptr"
    return False
