"""C13 (sorted, unique stations) and C14 (a refused modification changes nothing), decided by the shape analysis of lists.py."""
import multiprocessing, os, ir, dfa, lists
from lists import LT, GT, EQ

CLASSES = ("Alignment", "TransmissionLine", "LineCable", "LineStructure")
_p = None

def jobs(p, want=None):
    out = []
    for cls in CLASSES:
        m = lists.Machine(p, cls)
        own = [f for f, meth, c in p.methods_of(cls) if c == cls]
        if not own: continue
        for f, meth, c in sorted(p.methods_of(cls), key=lambda t: (t[0].line, t[0].name)):
            if c != cls or p.is_copy(f) or p.is_ctor(f) or p.is_dtor(f) or not f.file.startswith(p.root): continue
            if meth is not None and meth.get("access") not in (None, "public"): continue
            if want is not None and not want(cls, f, m): continue
            for tr in (sorted(m.conts) or [None]): out.append((cls, f.name, tr))
    return out

def keyterm(s, m, c, pid):
    """value of the sort key of a current element"""
    return m.fld(s.ident(pid), m.conts[c])

def order(m, s, c):
    """(True / False / None, text): are the current elements strictly increasing"""
    l = s.conts[c]
    if l.opaque: return None, l.opaque
    pos = {x: i for i, x in enumerate(l.orig)}
    last = -1
    for x in l.cur:
        if x in pos and s.pc[x][1] is None and not s.pc[x][3]:
            if pos[x] < last: return False, "entries are put in another order"
            last = max(last, pos[x])
    bad = None
    for i, x in enumerate(l.cur):
        k = s.pc[x]
        if k[3]: bad = "an entry is changed in place in an unmodelled way"; continue
        if k[1] is None and x in pos: continue
        t = keyterm(s, m, c, x)
        if t is None: bad = "the key of a new entry is not followed"; continue
        for j, y in enumerate(l.cur):
            if j == i: continue
            if s.pc[y][3]: continue
            u = ("fld", ("o", y), m.conts[c]) if s.pc[y][1] is None else keyterm(s, m, c, y)
            if u is None: continue
            r = m.getrel(s, u, t) if u != t else EQ
            need = LT if j < i else GT
            if r & ~need and (y, lists.BLUR) in s.rel: bad = "the relation of a new entry to its neighbours is not followed"
            elif r & ~need:
                return False, "an entry is placed %s one whose station may be %s" % ("after" if j < i else "before", " or ".join(n for b, n in ((LT, "smaller"), (EQ, "equal"), (GT, "larger")) if r & ~need & b))
    if bad: return None, bad
    return True, ""

def changed(m, s, c):
    """text when the container differs from what it was, else None"""
    l = s.conts[c]
    if l.opaque: return "?" + l.opaque
    if l.cur != l.orig:
        gone = [x for x in l.orig if x not in l.cur]; new = [x for x in l.cur if x not in l.orig]
        if gone: return "an entry of %s is missing" % ".".join(c)
        if new: return "%s has a new entry" % ".".join(c)
        return "the entries of %s are in another order" % ".".join(c)
    for x in l.cur:
        if s.pc[x][2]: return "entries of %s may be missing" % ".".join(c)
        if s.pc[x][3] or s.pc[x][1] is not None: return "an entry of %s is changed" % ".".join(c)
    return None

def one(job):
    cls, fn, tr = job
    f = _p.funcs[fn]
    m = lists.Machine(_p, cls, tr)
    r = dict(job=job, where=f.where(), name=f.short, undecided=None, exits=0, steps=0, events=0, order=[], refused=[], nref=0, undec=set(), issues={}, nonnull=[])
    try: outs = m.explore(f)
    except lists.Undecided as e:
        r["undecided"] = str(e); return r
    except lists.Dead: outs = []
    r["exits"] = len(outs); r["steps"] = m.steps; r["events"] = m.events; r["issues"] = {k: v for k, v in m.issues.items()}
    other = {c for c in m.all if c != tr}
    for v, s in outs:
        for c in m.conts:
            if m.conts[c] is not None:
                ok, why = order(m, s, c)
                if ok is False: r["order"].append((c, why))
                elif ok is None: r["undec"].add(why)
        ty = f.ret
        if f.const: continue
        fail = None
        if ty == "bool" and v is not None: fail = True if v == ("i", 0) else False if v[0] == "i" else None
        elif ty == "int" and v is not None: fail = True if v == ("i", -1) else False if m.lin(v) and (m.le(s, (lists.ZERO, 0), m.lin(v)) is True or ("ne", m.lin(v), (lists.ZERO, -1)) in s.cmpf) else None
        elif ty in ("bool", "int"): fail = None
        else: continue
        diff = []
        for c in m.conts:
            d = changed(m, s, c)
            if d: diff.append(d)
        for q in s.mod:
            if q in other or (q and q[0] in m.cache_members) or any(q[:len(c)] == c for c in m.all): continue
            if any(c[:len(q)] == q for c in m.all): continue
            diff.append("%s is changed" % ".".join(q))
        if fail is True:
            r["nref"] += 1
            for d in diff:
                if d.startswith("?"): r["undec"].add(d[1:])
                else: r["refused"].append(d)
        elif fail is None and diff: r["undec"].add("the answer is not known at an exit with changes")
    return r

def results(p):
    global _p
    _p = p
    js = jobs(p, lambda cls, f, m: bool(m.conts) or not f.const)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(one, js, chunksize=1)

def refuses(p, r):
    f = p.funcs[r["job"][1]]
    return not f.const and f.ret in ("bool", "int")
