"""C01: computed results never lag behind the inputs (see cache.py)."""
import os, multiprocessing, ir, cache

_p = None
def classes(p):
    return sorted({k for c, m in ir.cache_flags(p) for k in p.subclasses(c)})

def one(c):
    i = cache.info(_p, c)
    e = cache.Engine(_p, i); e.explore()
    return c, dict(flags=i.flags, derived=len(i.derived), inputs=len(i.inputs), public=len(e.public), states=len(e.states), out=e.nout, failed=e.nfailed, quiet=e.nquiet, steps=e.steps,
                   reports=[(k, v[0].where(), list(v[1]), list(v[2]), v[3]) for k, v in sorted(e.reports.items(), key=str)])

def results(p):
    """exploration of every class that remembers results, in parallel"""
    global _p
    _p = p
    cs = classes(p)
    # the larger classes first
    cs.sort(key=lambda c: -sum(len(p.classes[k].members) for k in p.base_chain(c) if k in p.classes) - 100 * c.startswith("LineCable"))
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return dict(pool.map(one, cs, chunksize=1))

def summary(res, r):
    res.coverage.update({"classes": len(r), "derived_cells": sum(x["derived"] for x in r.values()), "input_cells": sum(x["inputs"] for x in r.values()),
                         "public_methods": sum(x["public"] for x in r.values()), "object_states": sum(x["states"] for x in r.values()), "block_evaluations": sum(x["steps"] for x in r.values())})

def analyse(p, res, thorough):
    r = results(p)
    summary(res, r)
    for c in sorted(r):
        x = r[c]
        bad = {}
        for k, where, flags, path, cells in x["reports"]:
            if k[0] != "stale": continue
            bad.setdefault(k[2], []).append((k[1], where, flags, path, cells))
        res.oblige(x["out"] - len(bad), True); res.oblige(len(bad), False) if bad else None
        for inp, l in sorted(bad.items()):
            ms = sorted({m for m, *_ in l})
            m, where, flags, path, cells = l[0]
            res.violate("stale:%s:%s" % (c, inp), where, "%s: after %s is replaced, %s can answer from a result computed with the previous one (cells %s; flags %s=%s)" % (c, inp, ", ".join(ms), ", ".join(sorted(set(cells))[:4]), ",".join(x["flags"]), flags), path=["reached by " + " -> ".join(path)])
        if len(res.samples) < 20: res.samples.append("%s: flags %s, %d derived cells, %d inputs, %d public methods, %d states" % (c, ",".join(x["flags"]), x["derived"], x["inputs"], x["public"], x["states"]))
