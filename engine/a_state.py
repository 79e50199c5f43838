"""C16: the library's results depend on nothing but the objects' inputs.

 1. every global/static variable is immutable: constant storage, or written only by its own initializer, which may
    not depend on run-time arguments (a function-local static initialised from the first call's arguments is state);
 2. no function calls an external that reads clock, randomness, environment, files, threads, floating-point
    environment or errno; locale-dependent text conversion stays out of every computation (class methods);
 3. no decision uses the numerical value of an address (pointer ordering, pointer to integer, pointer-keyed containers)."""
import re, ir, dfa

AMBIENT = re.compile(r"^(?:std::)?(?:(?:chrono::.*)|time|clock|gettimeofday|clock_gettime|localtime\w*|gmtime\w*|mktime|ctime|difftime|"
    r"s?rand|rand_r|random|srandom|[demnljs]*rand48|arc4random\w*|getrandom|getentropy|random_device(?:::.*)?|mersenne_twister_engine(?:::.*)?|linear_congruential_engine(?:::.*)?|subtract_with_carry_engine(?:::.*)?|uniform_\w+_distribution(?:::.*)?|normal_distribution(?:::.*)?|"
    r"getenv|secure_getenv|setenv|putenv|unsetenv|system|popen|fork|exec\w+|getpid|gettid|getuid|geteuid|getcwd|gethostname|uname|sysconf|"
    r"fopen|freopen|fdopen|open|openat|creat|read|write|close|fread|fwrite|fgets|fputs|fgetc|getchar|gets|puts|putchar|printf|fprintf|vprintf|scanf|fscanf|remove|rename|unlink|mkdir|stat|tmpfile|tmpnam|mkstemp|"
    r"basic_[io]?fstream(?:::.*)?|basic_filebuf(?:::.*)?|filesystem::.*|thread(?:::.*)?|this_thread::.*|async|pthread_\w+|mutex(?:::.*)?|condition_variable(?:::.*)?|atomic\w*(?:::.*)?|"
    r"fesetround|fegetround|fesetenv|fegetenv|feholdexcept|fetestexcept|feclearexcept|__errno_location|setlocale|localeconv|locale::global|signal|raise|setjmp|longjmp|_setjmp|"
    r"rdtsc|llvm\.readcyclecounter|llvm\.get\.rounding|llvm\.set\.rounding|llvm\.readsteadycounter|rand_distr)$")
# conversions from text (and text classification) depend on the process locale; formatting into message text is not a computation
LOCALE = re.compile(r"(basic_i?stringstream|basic_istream|std::istream|\bgetline|operator@shr|\bsto(?:d|f|ld|i|l|ul|ll|ull)\b|\bstrto(?:d|f|ld|l|ul)\b|\bato(?:f|i|l)\b|\bsscanf\b|\btolower\b|\btoupper\b|\bis(?:alpha|digit|space|upper|lower|alnum|punct)\b|strcoll|strxfrm|std::locale)")
STREAMG = re.compile(r"^std::(?:__cxx11::)?(cout|cin|cerr|clog|wcout|wcin|wcerr)$")
PTRKEY = re.compile(r"std::(?:set|multiset|map|multimap|unordered_set|unordered_map|unordered_multiset|unordered_multimap|less|greater|hash)<(?:[^<>,]|<[^<>]*>)*\*")
PTRSORT = re.compile(r"std::(?:sort|stable_sort|min_element|max_element|nth_element|partial_sort)<[^,]*normal_iterator<[^,]*\*\s?\*")
INITFN = re.compile(r"^(__cxx_global_var_init|_GLOBAL__|__cxx_global_array_dtor)")

def owner(p, f):
    return f

def static_writes(p, res):
    refs = {}
    for f in p.funcs.values():
        for bi, x in f.insts():
            ops = list(x.get("o", ()))
            for i, o in enumerate(ops):
                r, q = dfa.addr(f, o) if isinstance(o, list) and o and o[0] in ("g", "ge", "ce", "v") and (o[0] != "v" or x["op"] in ("store", "call")) and dfa.is_ptr(f, o) else (None, None)
                if r and r[0] == "glob": refs.setdefault(r[1], []).append((f, bi, x, i))
    for n, g in p.globals.items():
        if n.startswith(("_ZTV", "_ZTI", "_ZTS", ".str", "_ZTT", "llvm.", "__dso_handle", "switch.table")) or "GCC_except" in n: continue
        dem = g["dem"]
        if STREAMG.match(ir.basename(dem)) or dem.startswith("std::cout"):
            for f, bi, x, i in refs.get(n, []):
                res.oblige(1, False)
                res.violate("stream:%s:%s" % (dem, f.short), f.where(x), "%s uses the process-wide stream %s" % (f.short, dem))
            continue
        if g["decl"] and not g.get("file"): continue
        if n.startswith("_ZGV") or dem.startswith("guard variable"): continue
        if g.get("tls"):
            res.oblige(1, False); res.violate("tls:" + dem, where(p, g), "thread-local variable %s keeps state between calls" % dem); continue
        if g["const"]:
            res.oblige(); continue
        ok = True
        isconst = (g.get("type") or "").startswith("const ")
        for f, bi, x, i in refs.get(n, []):
            if INITFN.match(f.name): continue
            guard = None
            # function-local static initialisation: control dependent on the guard
            for b in f.cdep.get(bi, set()) | set():
                for y in f.blocks[b]:
                    if y["op"] == "call" and y["f"] == "__cxa_guard_acquire": guard = b
                    if y["op"] == "load" and dfa.addr(f, y["o"][0])[0][0] == "glob" and dfa.addr(f, y["o"][0])[0][1].startswith("_ZGV"): guard = b
            write = (x["op"] == "store" and i == 1) or (x["op"] == "call" and not reader(p, x, i)) or (x["op"] == "store" and i == 0)
            if not write: continue
            if guard is not None:
                dep = value_deps(f, x["o"])
                bad = [e for e in dep if e[0] == "arg" or (e[0] == "inst" and e[1]["op"] == "load" and dfa.addr(f, e[1]["o"][0])[0][0] not in ("glob", "alloca"))]
                if bad:
                    ok = False
                    a = bad[0][1] if bad[0][0] == "arg" else "object memory"
                    res.violate("static-init:%s" % dem, f.where(x), "function-local static %s is initialised once, from the first call's %s: later calls with other inputs reuse it" % (dem, a))
                continue
            if isconst: continue
            ok = False
            res.violate("global-write:%s:%s" % (dem, f.short), f.where(x), "%s modifies the static variable %s: results can depend on earlier calls and on other threads" % (f.short, dem))
        res.oblige(1, ok)

def value_deps(f, ops):
    """what the operands' value is computed from, including the branches that choose between values"""
    out = []; seen = set(); work = list(ops); done = set()
    while work:
        o = work.pop()
        for e in dfa.slice_back(f, o):
            key = e[1] if e[0] == "arg" else e[1]["id"]
            if key in seen: continue
            seen.add(key); out.append(e)
            if e[0] == "inst" and e[1]["op"] == "phi":
                st = [b for b in e[1]["in"]]
                while st:
                    b = st.pop()
                    if b in done: continue
                    done.add(b)
                    for c in f.cdep.get(b, ()):
                        t = f.blocks[c][-1]
                        if t["op"] in ("br", "switch") and t.get("o"): work.append(t["o"][0])
                        st.append(c)
                # the branch ending an incoming block itself may choose the value
                for b in e[1]["in"]:
                    t = f.blocks[b][-1]
                    if t["op"] in ("br", "switch") and t.get("o"): work.append(t["o"][0])
    return out

def where(p, g):
    r = (g.get("file") or "?"); r = r[len(p.root) + 1:] if r.startswith(p.root) else r
    return "%s:%s" % (r, g.get("line", 0))

def reader(p, x, i):
    n = x["f"]
    if not isinstance(n, str): return False
    d = p.decl.get(n)
    if n.startswith("llvm.memcpy"): return i == 1
    if n.startswith("__cxa_guard"): return True
    if d is None: return False
    if d["dem"].endswith(" const"): return True
    f = p.funcs.get(n)
    if f is not None:
        nm = f.args[i]["name"] if i < len(f.args) else None
        t = dfa.argtype(f, nm) if nm else None
        if nm == "this": return f.const
        return bool(t) and t.startswith("const ")
    m = d["dem"]
    a = m[m.find("("):]
    if i > 0 or "::" not in ir.basename(m):
        ps = a.strip("()").split(",")
        k = i if len(ps) == len(x["o"]) else i - 1
        if 0 <= k < len(ps) and (" const&" in ps[k] or ps[k].strip().endswith("const*")): return True
    if ir.basename(m).split("::")[-1] in ("begin", "end", "cbegin", "cend", "size", "at", "front", "back", "operator[]", "empty"): return True
    return False

def analyse(p, res, thorough):
    static_writes(p, res)
    nfun = ncall = 0
    loc = {}
    for f in p.funcs.values():
        if not f.file.startswith(p.root) and f.file: continue
        nfun += 1
        bad = None
        for bi, x in f.insts():
            if x["op"] == "call" and isinstance(x["f"], str) and x["f"] not in p.funcs:
                ncall += 1
                d = p.decl.get(x["f"]); b = ir.basename(d["dem"]) if d else x["f"]
                b2 = re.sub(r"^std::(?:_V2::)?", "", b)
                if AMBIENT.match(b) or AMBIENT.match(b2) or b2.startswith("chrono::"):
                    bad = 1; res.violate("ambient:%s:%s" % (b, f.short), f.where(x), "%s calls %s: its result no longer depends on the object's inputs alone" % (f.short, b))
                elif LOCALE.search(b): loc.setdefault(f.name, (f, x, b))
                dem = d["dem"] if d else ""
                if PTRKEY.search(dem) or PTRSORT.search(dem):
                    bad = 1; res.violate("address-order:%s" % f.short, f.where(x), "%s orders or hashes objects by address (%s)" % (f.short, b))
            elif x["op"] == "call" and isinstance(x["f"], list) and x["f"][0] == "x":
                bad = 1; res.violate("asm:%s" % f.short, f.where(x), "%s contains inline assembly" % f.short)
            elif x["op"] == "ptrtoint":
                if not ptrdiff(f, x):
                    bad = 1; res.violate("ptrtoint:%s" % f.short, f.where(x), "%s computes with the numerical value of an address" % f.short)
            elif x["op"] == "icmp" and x["p"] not in ("eq", "ne") and dfa.is_ptr(f, x["o"][0]):
                a, b = dfa.addr(f, x["o"][0])[0], dfa.addr(f, x["o"][1])[0]
                if a != b:
                    bad = 1; res.violate("ptrcmp:%s" % f.short, f.where(x), "%s compares two addresses by order" % f.short)
        res.oblige(1, not bad)
    # locale dependent conversions must not be reachable from a computation
    cg = dfa.callgraph(p); rev = {}
    for a in cg:
        for b in cg[a]: rev.setdefault(b, set()).add(a)
    for n, (f, x, b) in loc.items():
        seen = {n: None}; st = [n]; hit = None
        while st and hit is None:
            a = st.pop()
            if p.funcs[a].cls: hit = a; break
            for c in rev.get(a, ()):
                if c not in seen: seen[c] = a; st.append(c)
        res.oblige(1, hit is None)
        if hit:
            path = []; a = hit
            while a: path.append(p.funcs[a].short); a = seen[a]
            res.violate("locale:%s" % p.funcs[hit].short, f.where(x), "%s reaches the locale-dependent %s" % (p.funcs[hit].short, b), path)
    res.coverage.update({"functions_scanned": nfun, "external_calls_classified": ncall, "globals": len(p.globals), "text_helpers": sorted(p.funcs[n].short for n in loc)})
    res.samples += ["global %s (%s): immutable" % (g["dem"], g.get("type")) for g in list(p.globals.values()) if g.get("type")][:6]

def ptrdiff(f, x):
    """ptrtoint used only to subtract two addresses of the same array"""
    us = f.uses.get(x["id"], [])
    return bool(us) and all(u["op"] == "sub" for _, u in us)
