"""C08: every computation terminates: each loop has a ranking argument and the call graph has no cycle."""
import dfa, ir, loops

def analyse(p, res, thorough):
    n = {"counter": 0, "iterator": 0, "stream": 0}
    nf = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.file.startswith(p.root): continue
        nf += 1
        for i, h in enumerate(sorted(f.loops, key=lambda h: f.rpo[h])):
            good, why = loops.ranking(p, f, h)
            res.oblige(1, bool(good))
            at = next((x for x in f.blocks[h] if x.get("l")), f.blocks[h][0] if f.blocks[h] else None)
            if good:
                n[good[0]["kind"]] += 1
                if len(res.samples) < 12: res.samples.append("%s loop at %s: %s, test at line %s" % (f.short, f.where(good[0]["test"]), good[0]["kind"], good[0]["test"].get("l")))
            else:
                x, w = why[0] if why else (at, "no test compares a steadily moving counter or iterator with a fixed bound")
                res.violate("loop:%s:%d" % (f.short, i), f.where(x), "%s: a loop has no termination argument: %s" % (f.short, w))
    # recursion
    cg = dfa.callgraph(p)
    idx = {}; low = {}; st = []; on = set(); sccs = []
    def visit(v):
        work = [(v, iter(sorted(cg.get(v, ()))))]; idx[v] = low[v] = len(idx); st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w); work.append((w, iter(sorted(cg.get(w, ()))))); break
                if w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == u: break
                    sccs.append(c)
    for v in sorted(cg):
        if v not in idx: visit(v)
    for c in sccs:
        rec = (len(c) > 1 or c[0] in cg.get(c[0], ())) and not all(p.is_dtor(p.funcs[n]) for n in c)  # destroying a finite chain of owned objects ends
        res.oblige(1, not rec)
        if rec:
            f = p.funcs[sorted(c)[0]]
            res.violate("recursion:" + "+".join(sorted({p.funcs[n].short for n in c})), f.where(), "recursive calls without a bound: " + ", ".join(sorted({p.funcs[n].short for n in c})))
    res.coverage.update({"functions": nf, "loops_by_argument": n, "call_graph_components": len(sccs)})
