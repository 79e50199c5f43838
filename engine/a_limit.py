"""C09: a search that stops at its iteration limit reports failure.

A search loop ends either when a floating-point test is met or when an integer counter reaches a fixed limit. For each,
the code after the loop is evaluated (conditional constant propagation, Forward) under 'left by the limit test, counter
at the limit': every return reachable must give the failure answer of the function."""
import dfa, ir, loops
from a_status import Forward, failing

def fp_exit(p, f, h, body, test):
    """does leaving the loop also depend on a floating-point comparison, other than through the limit test"""
    for b in body:
        if not any(s not in body for s in f.succ[b]): continue
        t = f.blocks[b][-1]
        if t["op"] != "br" or not t.get("o"): continue
        st = [t["o"][0]]; seen = set()
        while st:
            o = st.pop()
            x = dfa.defn(f, o)
            if x is None or x["id"] in seen: continue
            seen.add(x["id"])
            if x["op"] == "fcmp": return x
            if x["op"] in ("phi", "select", "and", "or", "xor", "zext", "trunc", "freeze", "icmp"):
                st += x["o"]
                if x["op"] == "phi":
                    for pb in x["in"]:
                        if pb in body:
                            tt = f.blocks[pb][-1]
                            if tt["op"] == "br" and tt.get("o"): st.append(tt["o"][0])
        # the exit block itself may be chosen by a comparison (break)
        for c in f.cdep.get(b, ()):
            if c in body and c != h:
                tt = f.blocks[c][-1]
                if tt["op"] == "br" and tt.get("o"):
                    x = dfa.defn(f, tt["o"][0])
                    if x is not None and x["op"] == "fcmp": return x
    # the tolerance may be tested by a helper
    for b in body:
        for x in f.blocks[b]:
            if x["op"] != "call" or x.get("ty") not in ("i1", "i8"): continue
            gs = [p.funcs[n] for n in dfa.callees(p, f, x)]
            if any(g.ret == "bool" and any(y["op"] == "fcmp" for _, y in g.insts()) for g in gs):
                for v in (0, 1):
                    if loops.forced(p, f, h, body, x, v)[0]: return dict(x, stay=1 - v)
    return None

ABS = ("fabs", "abs")
NEG = loops.NEG; SWAP = loops.SWAP

def key(p, f, o, depth=0):
    """structural identity of a floating-point operand, through loads of plain cells and calls of abs"""
    if o[0] != "v": return tuple(map(str, o[:2]))
    x = dfa.defn(f, o)
    if x is None: return ("arg", str(o[1]))
    if depth > 12: return ("v", o[1])
    op = x["op"]
    if op == "load": return ("m",) + tuple(map(str, dfa.addr(f, x["o"][0])))
    if op == "call":
        n = loops.last(p, x)
        if n in ABS or (isinstance(x["f"], str) and "fabs" in x["f"]): return ("abs", key(p, f, x["o"][0], depth + 1))
        return ("v", x["id"])
    if op in ("fadd", "fmul"): return (op,) + tuple(sorted((key(p, f, a, depth + 1) for a in x["o"][:2]), key=str))
    if op in ("fsub", "fdiv", "fneg", "sitofp", "fpext", "fptrunc"): return (op,) + tuple(key(p, f, a, depth + 1) for a in x["o"][:2])
    if op == "phi" and len(x["o"]) == 1: return key(p, f, x["o"][0], depth + 1)
    return ("v", x["id"])

def relation(p, f, x):
    """(predicate, left, right) of a comparison, oriented one way, ordered and unordered predicates merged"""
    a, b, q = key(p, f, x["o"][0]), key(p, f, x["o"][1]), x["p"]
    q = {"u": "o"}.get(q[0], q[0]) + q[1:]
    if str(b) < str(a): a, b, q = b, a, SWAP.get(q, q)
    return q, a, b

FN = {"olt": "oge", "ole": "ogt", "ogt": "ole", "oge": "olt", "oeq": "one", "one": "oeq"}

def tolerance_tests(p, f, h, body):
    """[(comparison, value that keeps the loop running)] for the floating-point comparisons whose other value ends it"""
    out = []
    for b in sorted(body):
        for x in f.blocks[b]:
            if x["op"] != "fcmp": continue
            for v in (0, 1):
                ok, fw = loops.forced(p, f, h, body, x, v)
                if ok: out.append((x, 1 - v)); break
    return out

def subdivision(p, f, h, body, x):
    """the comparison measures the width of a bracket: the tested quantity is computed in the loop from the difference of
    two values the loop carries and constants only, so that it does not depend on how well the answer fits"""
    def cells(o):
        """(set of carried cells, saw a difference) or None when something else takes part"""
        out = set(); st = [(o, 0)]; seen = set(); sub = False
        while st:
            a, d = st.pop()
            y = dfa.defn(f, a) if a[0] == "v" else None
            if y is None:
                continue
            if y["id"] in seen: continue
            seen.add(y["id"])
            blk = f.inst[y["id"]][0]
            if blk not in body: continue
            if y["op"] == "load":
                r, q = dfa.addr(f, y["o"][0])
                if r[0] != "alloca": return None
                ws = [z for b in body for z in f.blocks[b] if z["op"] == "store" and dfa.addr(f, z["o"][1]) == (r, q)]
                if not ws: continue
                if d: out.add((r, q))
                else: st += [(z["o"][0], 0) for z in ws]
            elif y["op"] == "phi" and blk == h and d: out.add(y["id"])
            elif y["op"] == "phi" and not d: st += [(z, 0) for z in y["o"]]
            elif y["op"] == "fsub": sub = True; st += [(z, 1) for z in y["o"]]
            elif y["op"] in ("fdiv", "fmul", "sitofp", "sub", "add"): st += [(z, d) for z in y["o"]]
            else: return None
        return out if sub else None
    return any(len(cells(o) or ()) == 2 for o in x["o"])

def analyse(p, res, thorough):
    n = 0; skipped = []
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.file.startswith(p.root): continue
        k = 0
        for h in sorted(f.loops, key=lambda h: f.rpo[h]):
            body, latches = f.loops[h]
            tol = tolerance_tests(p, f, h, body)
            fp = None if tol else fp_exit(p, f, h, body, None)
            if not tol and fp is None: continue
            good, why = loops.ranking(p, f, h)
            good = [g for g in good if g["kind"] == "counter" and g["test"]["op"] == "icmp"]
            good = [g for g in good if not sized(p, f, g["bound"])]
            if not good: continue
            if tol and all(subdivision(p, f, h, body, x) for x, v in tol): skipped.append(f.short); continue
            n += 1; k += 1
            pins = {}
            rel = {}
            for x, v in tol:
                q, a, b = relation(p, f, x)
                rel[q, a, b] = v
                if q in FN: rel[FN[q], a, b] = 1 - v
            for bi, x in f.insts():
                if x["op"] == "fcmp":
                    v = rel.get(relation(p, f, x))
                    if v is not None: pins[x["id"]] = v
            if fp is not None and fp["op"] == "call":
                for bi, x in f.insts():
                    if x["op"] == "call" and x["f"] == fp["f"]: pins[x["id"]] = fp["stay"]
            bad = None
            for g in good:
                b = g["bound"]
                lim = b[1] if b[0] == "i" else 1000003
                val = dict(pins); mem = {}
                if b[0] == "v": val[b[1]] = lim
                # the value of the counter that first fails the test, less what the round had added by then
                lim += {"sle": 1, "ule": 1, "sge": -1, "uge": -1}.get(g["stay"], 0)
                if g["cur"][0] == g["cur"][1] and abs(g["cur"][0]) < 1e6: lim -= int(g["cur"][0])
                if g["key"][0] == "phi": val[g["key"][1]] = lim
                else: mem[g["key"]] = lim
                val[g["test"]["id"]] = g["v"]
                # leave the loop by the limit: evaluate from the test to the exit, then onwards
                fw = Limit(p, f, g["test"], g["v"], val, mem, body)
                bad = failing(p, f, fw)
                if bad: break
            res.oblige(1, bad is None)
            if bad: res.violate("limit:%s:%d" % (f.short, k), f.where(good[0]["test"]), "%s: when the search ends at its iteration limit (test at line %s), it %s (line %s)" % (f.short, good[0]["test"].get("l"), bad[0], bad[1].get("l")))
            elif len(res.samples) < 15: res.samples.append("%s: limit test at %s" % (f.short, f.where(good[0]["test"])))
    res.coverage.update({"search_loops": n, "bracket_subdivisions_not_judged": skipped})

def sized(p, f, o):
    for e in dfa.slice_back(f, o, stop=lambda x: x["op"] == "call"):
        if e[0] == "inst" and e[1]["op"] == "call" and loops.last(p, e[1]) in ("size", "length"): return True
    return False

class Limit(Forward):
    """forward from the limit test, with the counter pinned at the limit while it is not recomputed"""
    def __init__(self, p, f, test, v, val, mem, body):
        self.body = body; self.pin = dict(val)
        self.call = test
        super().__init__(p, f, test, v, val=val, mem=mem)
    def setv(self, i, v):
        if i in self.pin: self.val[i] = self.pin[i]; return
        super().setv(i, v)
