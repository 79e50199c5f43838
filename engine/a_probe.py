"""C05: queries and validation leave the object as it was (see cache.py)."""
import a_fresh, dfa

def analyse(p, res, thorough):
    r = a_fresh.results(p)
    a_fresh.summary(res, r)
    for c in sorted(r):
        x = r[c]
        bad = [(k, where, path) for k, where, flags, path, cells in x["reports"] if k[0] == "probe"]
        res.oblige(x["quiet"] - len({k[1] for k, *_ in bad}), True)
        if bad: res.oblige(len({k[1] for k, *_ in bad}), False)
        for k, where, path in bad:
            res.violate("probe:%s::%s:%s" % (c, k[1], k[2]), where, "%s::%s leaves %s changed although the object was up to date" % (c, k[1], k[2]), path=["reached by " + " -> ".join(path)])
        if len(res.samples) < 12: res.samples.append("%s: %d outcomes of const methods on an up-to-date object" % (c, x["quiet"]))
    # objects referred to through pointers to const are not modified by const methods
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.const or not f.cls or not f.file.startswith(p.root): continue
        n += 1; ok = True
        for bi, x in f.insts():
            tgt = None
            if x["op"] == "store": tgt = dfa.addr(f, x["o"][1])
            elif x["op"] == "call" and x["o"] and dfa.is_ptr(f, x["o"][0]):
                cs = [p.funcs[k] for k in dfa.callees(p, f, x)]
                if cs and any(g.cls and not g.const and any(a["name"] == "this" for a in g.args) and not p.is_ctor(g) for g in cs): tgt = dfa.addr(f, x["o"][0])
            if tgt is None: continue
            r0, q = tgt
            ty = None
            if r0[0] == "load" and r0[1] == ("arg", "this") and len(r0[2]) == 1:
                m = p.member(f.cls, r0[2][0]); ty = m[1]["type"] if m else None
            elif r0[0] == "arg" and r0[1] not in ("this", None) and not any(a["name"] == r0[1] and a.get("sret") for a in f.args): ty = dfa.argtype(f, r0[1])
            if ty and ty.startswith("const ") and ty[-1] in "*&":
                ok = False
                res.violate("pointee:%s:%s" % (f.short, r0[2][0] if r0[0] == "load" else r0[1]), f.where(x), "%s modifies an object it only has read access to" % f.short)
        res.oblige(1, ok)
    res.coverage["const_methods"] = n
