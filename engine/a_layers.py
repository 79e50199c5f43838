"""C21: the parts of the library depend on each other in one direction only.

Edges between parts are taken from the compiled program (functions called or whose address is taken, vtables, base
classes, member/parameter/return/local types, where a part's declared members are defined) and from the include
directives the preprocessor sees."""
import glob, os, re, ir, dfa

ORDER = {"base": {"base"},
         "transmissionline": {"base", "transmissionline"},
         "sagtension": {"base", "transmissionline", "sagtension"},
         "sagging": {"base", "transmissionline", "sagging"},
         "thermalrating": {"base", "transmissionline", "thermalrating"}}

def part(p, file):
    if not file or not file.startswith(p.root + "/"): return None
    r = file[len(p.root) + 1:].split("/")
    if r[0] == "src" and len(r) > 2: return r[1]
    if r[:2] == ["include", "models"] and len(r) > 3: return r[2]
    return None

def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', lambda m: m.group(0) if m.group(0)[0] == '"' else " ", s, flags=re.S)

def analyse(p, res, thorough):
    edges = {}
    def edge(a, b, where, what):
        if a is None or b is None: return
        edges.setdefault((a, b), []).append((where, what))
    ftype = {}
    for n, c in p.classes.items(): ftype[n] = part(p, c.file)
    def types_in(t):
        return [x for x in re.findall(r"[A-Za-z_]\w*(?:::[A-Za-z_]\w*)*", t or "") if x in ftype]
    for f in p.funcs.values():
        a = part(p, f.file)
        if a is None: continue
        for t in f.types:
            for k in types_in(t): edge(a, ftype[k], f.where(), "%s has a parameter or result of type %s" % (f.short, k))
        for i, (n, t) in f.vars.items():
            for k in types_in(t): edge(a, ftype[k], f.where(), "%s has a variable of type %s" % (f.short, k))
        for bi, x in f.insts():
            tg = []
            if x["op"] == "call":
                if isinstance(x["f"], str): tg.append(x["f"])
            for o in x.get("o", ()):
                if isinstance(o, list) and o and o[0] == "g": tg.append(o[1])
            for n in tg:
                g = p.funcs.get(n)
                if g is not None:
                    # template or inline code instantiated from this unit counts as this unit's own use of its header
                    edge(a, part(p, g.file), f.where(x), "%s uses %s" % (f.short, g.short)); continue
                if n.startswith(("_ZTV", "_ZTI")):
                    k = p.globals.get(n, {}).get("dem", "").replace("vtable for ", "").replace("typeinfo for ", "")
                    if k in ftype: edge(a, ftype[k], f.where(x), "%s uses the vtable of %s" % (f.short, k))
                elif n in p.globals:
                    edge(a, part(p, p.globals[n].get("file") or ""), f.where(x), "%s uses the variable %s" % (f.short, p.globals[n]["dem"]))
        # a member declared in one part and defined in another: the declaring part is incomplete without the other
        if f.cls and ftype.get(f.cls) and ftype[f.cls] != a:
            edge(ftype[f.cls], a, f.where(), "%s is declared in %s but defined in %s" % (f.short, ftype[f.cls], a))
    for n, c in p.classes.items():
        a = ftype[n]
        w = "%s:%d" % (c.file[len(p.root) + 1:] if c.file.startswith(p.root) else c.file, c.line)
        for b in c.bases:
            for k in types_in(b): edge(a, ftype[k], w, "%s derives from %s" % (n, k))
        for m in c.members:
            for k in types_in(m["type"]): edge(a, ftype[k], w, "%s has the member %s of type %s" % (n, m["name"], k))
        for m in c.methods:
            for t in m["types"]:
                for k in types_in(t): edge(a, ftype[k], w, "%s::%s mentions the type %s" % (n, m["name"], k))
    # header declarations of free functions defined elsewhere
    nfiles = 0
    hdrs = {}
    for h in glob.glob(p.root + "/include/models/*/*.h*"):
        hdrs[os.path.relpath(h, p.root + "/include")] = part(p, h)
    for fn in sorted(glob.glob(p.root + "/src/**/*.*", recursive=True) + glob.glob(p.root + "/include/models/**/*.h*", recursive=True)):
        a = part(p, fn)
        if a is None or not os.path.isfile(fn): continue
        nfiles += 1
        txt = strip_comments(open(fn, errors="replace").read())
        for i, l in enumerate(txt.split("\n"), 1):
            m = re.match(r'\s*#\s*include(?:_next)?\s*[<"]([^>"]+)[>"]', l)
            if not m: continue
            inc = m.group(1)
            rel = os.path.relpath(fn, p.root)
            tgt = None
            for cand in (os.path.join(os.path.dirname(fn), inc), os.path.join(p.root, "include", inc)):
                if os.path.exists(cand): tgt = os.path.realpath(cand); break
            if tgt: edge(a, part(p, tgt), "%s:%d" % (rel, i), "%s includes %s" % (rel, inc))
    n = 0
    for (a, b), us in sorted(edges.items()):
        if a not in ORDER:
            # a part the layering does not know: it may sit on top of everything, but nothing below may use it
            continue
        ok = b in ORDER[a]
        n += len(us); res.oblige(len(us), ok)
        if not ok:
            seen = set()
            for w, what in us:
                k = "%s->%s:%s" % (a, b, what)
                if k in seen: continue
                seen.add(k)
                res.violate(k, w, "%s depends on %s: %s" % (a, b, what))
    res.coverage.update({"edges": {"%s->%s" % k: len(v) for k, v in sorted(edges.items())}, "files": nfiles, "classes": len(ftype)})
    res.samples += ["%s -> %s: %s (%s)" % (a, b, us[0][1], us[0][0]) for (a, b), us in sorted(edges.items()) if a != b]
