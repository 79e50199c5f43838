"""C12: element accesses stay inside their container (index.py).

Alarmed are: an index that is the caller's argument or one of the object's own numbers and is not bounded from both
sides on some path; and any access that a path with nothing forgotten reaches with a container that may be too small,
when that container is a local, a list the class's users fill, or one the class is pointed at.  Accesses whose index
is a loop's own counter or computed from data, and containers the class fills for itself, are proven where the bounds
suffice and otherwise counted as not decided."""
import multiprocessing, os, index, lists

_p = None
def jobs(p):
    out = []
    for cls in sorted(p.classes):
        if not any(f.cls == cls for f in p.funcs.values()): continue
        for f, meth, c in sorted(p.methods_of(cls), key=lambda t: (t[0].line, t[0].name)):
            if c != cls or p.is_copy(f) or p.is_dtor(f) or not f.file.startswith(p.root): continue
            if meth is not None and meth.get("access") not in (None, "public"): continue
            out.append((cls, f.name))
    return out

def one(job):
    cls, fn = job
    f = _p.funcs[fn]
    m = index.IndexMachine(_p, cls)
    r = dict(job=job, name=f.short, undecided=None, acc={})
    try: m.explore(f)
    except lists.Undecided as e: r["undecided"] = str(e)
    except (TypeError, KeyError, IndexError, RecursionError) as e: r["undecided"] = "engine: %r" % e
    except lists.Dead: pass
    r["acc"] = m.acc; r["steps"] = m.steps
    return r

def results(p):
    global _p
    _p = p
    index.filled(p)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(one, jobs(p), chunksize=1)

def alarming(v):
    verdict, og, text = v
    src, holder = og.split("/")
    if verdict in ("ok", "other", "?"): return False
    if src in ("argument", "member") and not (src == "member" and holder == "data"): return True
    return verdict.endswith("!") and src in ("constant", "size", "counter") and holder in ("local", "filled", "pointed")

def analyse(p, res, thorough=False):
    rs = results(p)
    sites = {}; und = []; steps = 0
    for r in rs:
        steps += r["steps"]
        if r["undecided"]: und.append("%s: %s" % (r["name"], r["undecided"]))
        for key, vs in r["acc"].items():
            d = sites.setdefault(key, {})
            for v in vs: d.setdefault(v, []).append(r["name"])
    proven = relative = 0; open_ = []
    for (fn, where, what, cont), d in sorted(sites.items(), key=lambda t: (t[0][1] or "", t[0][2], t[0][3])):
        f = p.funcs[fn]
        bad = sorted(v for v in d if alarming(v))
        if bad:
            v = bad[0]; via = sorted(set(d[v]))
            res.oblige(1, False)
            res.violate("%s:%s:%s" % (f.short, cont, v[1]), where, "%s of %s read or written without the index being inside it: %s" % (what, cont, v[2]),
                        path=["reached from %s" % n for n in via[:4]] + ["index: %s" % v[1].split("/")[0]])
            continue
        if all(v[0] in ("ok", "other") for v in d):
            res.oblige(1, True)
            if all(v[0] == "ok" for v in d): proven += 1
            else: relative += 1
            if len(res.samples) < 12: res.samples.append("%s %s of %s: %s" % (where, what, cont, "inside on every path" if all(v[0] == "ok" for v in d) else "bounded by the size of another collection on some path"))
        else: open_.append("%s %s of %s" % (where, what, cont))
    res.coverage.update(operations=len(rs), access_sites=len(sites), inside=proven, bounded_by_another_size=relative, not_decided=len(open_), not_decided_sites=open_[:60], operations_given_up=und[:10], block_evaluations=steps)
