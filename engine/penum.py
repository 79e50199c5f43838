"""Partial evaluation of a function's control flow for one value of an enumerated source."""
import dfa, ir

def enum_of(t):
    t = (t or "").replace("const ", "").rstrip("&*").strip()
    return t[5:] if t.startswith("enum ") else None

def member_type(p, st, name):
    s = p.structs.get(st); c = p._class_of_struct(s["name"]) if s else None
    if c is None: return None
    mm = p.member(c, name)
    return mm[1]["type"] if mm else None

def source(p, f, o):
    """the enumerated source an integer operand carries: (enum, key) or None. key: ('mem', root, path) / ('arg', name) / ('call', callee, args)"""
    x = dfa.defn(f, o)
    if x is None:
        n = dfa.argname(f, o)
        if n is None: return None
        e = enum_of(dfa.argtype(f, n))
        return (e, ("arg", n)) if e else None
    if x["op"] == "load":
        r, q = dfa.addr(f, x["o"][0])
        if r[0] == "arg" and not q:
            e = enum_of(dfa.argtype(f, r[1]))
            return (e, ("arg", r[1])) if e else None
        if r[0] == "alloca" and not q:
            e = enum_of(f.vars.get(r[1], ("", ""))[1])
            return (e, ("local", r[1])) if e else None
        if r[0] == "call" and not q:
            # reference returned by an accessor
            c = f.inst[r[1]][1]
            e = enum_of(p.funcs[c["f"]].ret) if isinstance(c["f"], str) and c["f"] in p.funcs else None
            return (e, ("call", callkey(p, f, c))) if e else None
        t = mtype(p, f, x["o"][0])
        e = enum_of(t)
        return (e, ("mem", r, q)) if e else None
    if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in p.funcs:
        e = enum_of(p.funcs[x["f"]].ret)
        return (e, ("call", callkey(p, f, x))) if e else None
    if x["op"] in ("phi", "select"):
        e = enum_of(f.vars.get(x["id"], ("", ""))[1])
        return (e, ("phi", x["id"])) if e else None
    return None

def callkey(p, f, c):
    return (c["f"],) + tuple(repr(dfa.addr(f, o)) if dfa.is_ptr(f, o) else repr(o) for o in c["o"])

def mtype(p, f, o):
    """declared type of the member an address operand names"""
    while isinstance(o, list):
        if o[0] == "ge": st, nxt = o[2], o[1]
        else:
            x = dfa.defn(f, o)
            if x is None or x["op"] != "getelementptr": return None
            st, nxt = x["s"], x["o"][0]
        for s in reversed(st):
            if s[0] == "S":
                c = p.struct_field(s[1], s[2])
                if c is not None: return member_type(p, s[1], c)
            else: return None
        o = nxt
    return None

def sources(p, f):
    """enumerated sources compared or switched on in f: {key: (enum, [instructions])}"""
    out = {}
    for bi, x in f.insts():
        if x["op"] == "icmp" and x["p"] in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                if x["o"][b][0] == "i":
                    s = source(p, f, x["o"][a])
                    if s: out.setdefault(s[1], (s[0], []))[1].append(x)
        elif x["op"] == "switch":
            s = source(p, f, x["o"][0])
            if s: out.setdefault(s[1], (s[0], []))[1].append(x)
    return out

def reach(p, f, key, value):
    """blocks and edges reachable when the source has the given value (other conditions unknown)"""
    val = {}
    def ev(o, depth=0):
        if o[0] == "i": return o[1]
        if depth > 30: return None
        s = source(p, f, o)
        if s and s[1] == key: return value
        x = dfa.defn(f, o)
        if x is None: return None
        if x["op"] == "icmp":
            a, b = ev(x["o"][0], depth + 1), ev(x["o"][1], depth + 1)
            if a is None or b is None: return None
            return {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(x["p"])
        if x["op"] in ("zext", "trunc", "freeze", "sext"): return ev(x["o"][0], depth + 1)
        if x["op"] == "xor":
            a, b = ev(x["o"][0], depth + 1), ev(x["o"][1], depth + 1)
            return None if a is None or b is None else (int(a) ^ int(b)) & 1
        if x["op"] == "phi":
            vs = set()
            for o2, pb in zip(x["o"], x["in"]):
                if (pb, f.inst[x["id"]][0]) in edges: vs.add(ev(o2, depth + 1))
            return vs.pop() if len(vs) == 1 else None
        return None
    edges = set(); seen = {0}
    # iterate: phi values depend on executable edges; start pessimistically and grow
    ch = True; n = 0
    while ch and n < 50:
        ch = False; n += 1
        for b in list(seen):
            if not f.blocks[b]: continue
            t = f.blocks[b][-1]
            tg = f.succ[b]
            if t["op"] == "br" and t.get("o"):
                c = ev(t["o"][0])
                if c is not None: tg = [t["t"][0] if c else t["t"][1]]
            elif t["op"] == "switch":
                c = ev(t["o"][0])
                if c is not None:
                    tg = [t["def"]]
                    for k, d in t["cases"]:
                        if k == c: tg = [d]
            for s in tg:
                if (b, s) not in edges: edges.add((b, s)); ch = True
                if s not in seen: seen.add(s); ch = True
    return seen, edges
