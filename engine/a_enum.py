"""C11: every enumerated option is handled; an unset option answers with the error result.

For each function and each enumerated source it tests, control flow is evaluated once per enumerator (executable edges
under 'source == e'). The partition of the enumerators by executable edges shows which options share a behaviour."""
import re, dfa, ir, penum
ERR = {"double": (-999999.0,), "int": (-9999, -1, -999999), "bool": (0,)}

def canonical(p, f, key):
    def root(r):
        if r[0] == "call":
            c = f.inst[r[1]][1]
            return ("call", c["f"] if isinstance(c["f"], str) else "?", tuple(repr(dfa.addr(f, o)) for o in c["o"] if dfa.is_ptr(f, o)))
        if r[0] == "load": return ("load", root(r[1]), r[2])
        if r[0] == "alloca":
            # a local copy stands for what it was copied from
            src = copied_from(p, f, r[1])
            if src is not None: return root(src)
        return r
    if key[0] == "mem": return ("mem", root(key[1]), key[2])
    return key

def copied_from(p, f, aid):
    """root of the call result a local object was initialised with (copy construction or sret call), if unique"""
    srcs = []
    for bi, u in f.uses.get(aid, ()):
        if u["op"] != "call" or not isinstance(u["f"], str): continue
        if u["o"] and u["o"][0] == ["v", aid]:
            g = p.funcs.get(u["f"])
            if u.get("sret"): return ("call", u["id"])
            if (g is not None and p.is_copy(g)) or u["f"].startswith("llvm.memcpy"):
                r, q = dfa.addr(f, u["o"][1])
                if not q: srcs.append(r)
    return srcs[0] if len(srcs) == 1 else None

def is_validator(f):
    return any("ErrorMessage" in t for t in f.types)

def ret_values(p, f, edges, blocks, o, depth=0):
    """possible constant kinds of a returned operand on the executable edges: list of ('c', value) or ('x', inst)"""
    if o[0] == "i": return [("c", o[1])]
    if o[0] == "f":
        try: return [("c", float(o[1]))]
        except ValueError: return [("x", None)]
    if o[0] in ("n", "z"): return [("c", 0)]
    x = dfa.defn(f, o)
    if x is None or depth > 12: return [("x", None)]
    if x["op"] == "phi":
        b = f.inst[x["id"]][0]; out = []
        for o2, pb in zip(x["o"], x["in"]):
            if (pb, b) in edges: out += ret_values(p, f, edges, blocks, o2, depth + 1)
        return out
    if x["op"] in ("trunc", "zext", "freeze", "sitofp"): return ret_values(p, f, edges, blocks, x["o"][0], depth + 1)
    if x["op"] == "icmp" and x["p"] in ("eq", "ne") and x["o"][1][0] == "i":
        vs = ret_values(p, f, edges, blocks, x["o"][0], depth + 1)
        if vs and all(v[0] == "c" for v in vs): return [("c", int((v[1] == x["o"][1][1]) == (x["p"] == "eq"))) for v in vs]
    return [("x", x)]

def analyse(p, res, thorough):
    # gather the sites
    sites = []
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.file.startswith(p.root) or is_validator(f): continue
        merged = {}
        for k, (e, ins) in penum.sources(p, f).items():
            if e not in p.enums or k[0] in ("phi", "local"): continue
            merged.setdefault((canonical(p, f, k), e), []).append((k, ins))
        for (ck, e), ks in merged.items(): sites.append((f, ck, e, [k for k, _ in ks], [x for _, i in ks for x in i]))
    info = []
    for f, ck, e, keys, ins in sites:
        names = p.enums[e]
        if not any(n == "kNull" for n, _ in names): continue
        groups = {}; per = {}
        for n, v in names:
            eds = None; 
            for k in keys:
                s, ed = reach_multi(p, f, keys, v)
                break
            per[n] = (s, ed); groups.setdefault((frozenset(s), frozenset(ed)), []).append(n)
        g0 = next(g for g in groups.values() if "kNull" in g)
        info.append((f, ck, e, keys, ins, list(groups.values()), per, g0, error_result(p, f, keys, per["kNull"])))
    guards = {}
    for f, ck, e, keys, ins, gs, per, g0, err in info:
        if err is None and f.ret == "bool" and f.cls: guards.setdefault((terminal(ck), e), []).append(f)
    nopt = 0
    for f, ck, e, keys, ins, gs, per, g0, err in info:
        t = terminal(ck)
        nopt += len(per)
        guard = guarded(p, f, guards.get((t, e), []))
        # an unset option answers with the error result
        ok = err is None or guard
        res.oblige(1, ok)
        if not ok:
            others = [n for n in g0 if n != "kNull"]
            res.violate("null:%s:%s" % (f.short, t), f.where(err[1] or ins[0]), "%s: an unset %s (%s) %s" % (f.short, t, e, ("behaves like " + "/".join(others)) if others and len(gs) > 1 else err[0]))
        # every set option has a behaviour of its own, not the error of the unset one
        if err is None and len(gs) > 1:
            rest = [n for n in g0 if n != "kNull"]
            for n in [n for n, _ in p.enums[e] if n != "kNull"]:
                res.oblige(1, n not in rest)
            if rest:
                res.violate("unhandled:%s:%s:%s" % (f.short, t, "+".join(rest)), f.where(ins[0]), "%s does not handle %s of %s: it answers as for an unset option" % (f.short, ", ".join(rest), e))
        # an option uses the data named after it, not the data named after another option
        for n, ident, m, wanted in misnamed(p, f, e, per):
            res.oblige(1, ident is None)
            if ident: res.violate("mixed:%s:%s:%s" % (f.short, t, n), f.where(ins[0]), "%s: for %s the data of %s (%s) is used although %s exists" % (f.short, n, m, ident, wanted))
        if len(res.samples) < 10 and ok: res.samples.append("%s on %s: %s" % (f.short, t, " | ".join(",".join(g) for g in gs)))
    res.coverage.update({"dispatch_sites": len(info), "option_cases": nopt, "enums": len(p.enums)})

def norm(s): return re.sub(r"[^a-z0-9]", "", str(s).lower())

def all_names(p):
    c = getattr(p, "_names", None)
    if c is None:
        c = {norm(x["name"]) for c in p.classes.values() for x in c.members} | {norm(f.base) for f in p.funcs.values()}
        p._names = c
    return c

def idents(p, f, blocks, edges):
    out = set()
    def put(o):
        if dfa.is_ptr(f, o):
            r, q = dfa.addr(f, o)
            out.update(norm(c) for c in q)
            while r[0] == "load":
                out.update(norm(c) for c in r[2]); r = r[1]
            if r[0] == "call": out.add(norm(dfa.base(p, f.inst[r[1]][1])))
    for bi, x in f.insts():
        if x["op"] == "phi":
            for o, b in zip(x["o"], x["in"]):
                if (b, bi) in edges: put(o)
        elif bi in blocks:
            for o in x.get("o", ()): put(o)
            if x["op"] == "call": out.add(norm(dfa.base(p, x)))
    return out - {""}

def misnamed(p, f, e, per):
    names = all_names(p)
    opts = [n for n in per if n != "kNull"]
    for n in opts:
        own = norm(n[1:]); bl = set(per[n][0]); ed = set(per[n][1])
        for m in per:
            if m != n: bl -= set(per[m][0]); ed -= set(per[m][1])
        if not bl and not ed: continue
        ids = idents(p, f, bl, ed)
        bad = None
        for m in opts:
            if m == n: continue
            for i in ids:
                o = norm(m[1:])
                if o in i and own not in i and o not in own and own not in o:
                    w = i.replace(o, own)
                    if w in names and w not in ids: bad = (n, i, m, w)
        yield bad or (n, None, None, None)

def terminal(ck):
    if ck[0] == "mem": return ck[2][-1] if ck[2] else "?"
    if ck[0] == "call":
        return ck[1][0] if isinstance(ck[1], tuple) else str(ck[1])
    return str(ck[1])

def reach_multi(p, f, keys, v):
    """executable blocks/edges when every key (same source) has value v"""
    if len(keys) == 1: return penum.reach(p, f, keys[0], v)
    real = penum.source
    ks = set(keys)
    def src(p_, f_, o):
        s = real(p_, f_, o)
        if s and s[1] in ks: return (s[0], keys[0])
        return s
    penum.source = src
    try: return penum.reach(p, f, keys[0], v)
    finally: penum.source = real

def error_result(p, f, keys, reach):
    """None when an unset source answers with the error result; else (why, instruction)"""
    blocks, edges = reach
    ks = set(keys)
    # region after a test of the source
    start = set()
    tests = set()
    for bi, x in f.insts():
        if x["op"] in ("icmp", "switch"):
            for o in x["o"]:
                s = penum.source(p, f, o) if isinstance(o, list) and o and o[0] == "v" else None
                if s and s[1] in ks: tests.add(x["id"])
    for b in blocks:
        if not f.blocks[b]: continue
        t = f.blocks[b][-1]
        dep = t["op"] == "switch" and t["id"] in tests
        if t["op"] == "br" and t.get("o"):
            dep = any(k == "inst" and y["id"] in tests for k, y in dfa.slice_back(f, t["o"][0], stop=lambda y: y["op"] in ("call", "load")))
        if dep: start |= {s for s in f.succ[b] if (b, s) in edges}
    region = set(); st = list(start)
    while st:
        b = st.pop()
        if b in region: continue
        region.add(b); st += [s for s in f.succ[b] if (b, s) in edges]
    rets = [f.blocks[b][-1] for b in region if f.blocks[b] and f.blocks[b][-1]["op"] == "ret"]
    sret = next((a for a in f.args if a.get("sret")), None)
    if f.ret == "void" or sret is not None:
        for b in region:
            for x in f.blocks[b]:
                if x["op"] == "store":
                    r, q = dfa.addr(f, x["o"][1])
                    if r == ("arg", "this") or (sret and r == ("arg", sret["name"])): return ("modifies the result", x)
                if x["op"] == "call" and isinstance(x["f"], str) and x["f"] in p.funcs:
                    g = p.funcs[x["f"]]
                    for a, o in zip(g.args, x["o"]):
                        if not dfa.is_ptr(f, o): continue
                        r, q = dfa.addr(f, o)
                        hit = (r == ("arg", "this") and not f.const) or (sret and r == ("arg", sret["name"]))
                        if hit and not (a["name"] == "this" and (g.const or p.is_dtor(g))) and (a.get("sret") or a["name"] == "this"):
                            if p.is_ctor(g) and len(g.args) == 1: continue
                            if sret and forwarded(p, f, x, blocks): continue
                            return ("modifies the result", x)
        return None
    want = ERR.get(f.ret.replace("const ", ""), (0,) if f.ret.endswith("*") else ERR["int"] if "int" in f.ret else None)
    if f.ret.startswith("enum "): want = (0,)
    if want is None: 
        # small records returned in registers: built from a local; accept when the local is only default constructed in the region
        for b in region:
            for x in f.blocks[b]:
                if x["op"] == "store": return ("modifies the result", x)
        return None
    for r in rets:
        for v in ret_values(p, f, edges & {(a, b) for a, b in edges if a in region or b in region}, blocks, r["o"][0]):
            if v[0] != "c": 
                x = v[1]
                return ("continues with an ordinary computation", x or r)
            if v[1] not in want:
                return ("returns %s instead of the error value" % v[1], r)
    return None

def forwarded(p, f, x, blocks):
    """the value stored was asked of a local object whose own option is set on the other options' paths only, so that
    this object answers as for an unset option (its class is an obligation of its own)"""
    for o in x["o"][1:]:
        roots = set()
        if dfa.is_ptr(f, o):
            r = dfa.addr(f, o)[0]
            if r and r[0] == "alloca":
                for y in (y for bl in f.blocks for y in bl if y["op"] == "store"):
                    if dfa.addr(f, y["o"][1])[0] == r:
                        roots |= {k[1]["id"] for k in dfa.slice_back(f, y["o"][0], stop=lambda z: z["op"] == "call") if k[0] == "inst" and k[1]["op"] == "call"}
        else:
            roots |= {k[1]["id"] for k in dfa.slice_back(f, o, stop=lambda z: z["op"] == "call") if k[0] == "inst" and k[1]["op"] == "call"}
        for c in roots:
            call = f.inst[c][1]
            if not call["o"]: continue
            r = dfa.addr(f, call["o"][0])[0]
            if not r or r[0] != "alloca": continue
            setters = set(); here = set()
            for bi, y in f.insts():
                if y["op"] == "call" and isinstance(y["f"], str) and y["f"] in p.funcs and y["o"] and dfa.addr(f, y["o"][0])[0] == r:
                    if any(re.sub(r"\bconst\b|enum |&|\s", "", t) in p.enums for t in p.funcs[y["f"]].types[1:]):
                        (here if bi in blocks else setters).add(y["f"])
            setters -= here
            if setters: return True
    return False

def guarded(p, f, guards):
    """f is an internal step whose every caller (transitively inside the class) also runs a step that rejects the unset option"""
    if not guards or not f.cls: return False
    m = p.access_of(f)
    if m and m["access"] == "public": return False
    gs = {g.name for g in guards}
    if f.name in gs: return False
    cg = dfa.callgraph(p); rev = {}
    for a in cg:
        for b in cg[a]: rev.setdefault(b, set()).add(a)
    seen = set(); st = [f.name]
    while st:
        n = st.pop()
        for c in rev.get(n, ()):
            if c in seen: continue
            seen.add(c)
            if cg[c] & gs: continue
            g = p.funcs[c]
            mm = p.access_of(g)
            if not g.cls or (mm and mm["access"] == "public"): return False
            st.append(c)
    return bool(seen)
