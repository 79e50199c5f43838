"""Shape analysis of the ordered containers of an object (std::list members): an abstract interpreter over the IR.

A container is a sequence of pieces: single elements (E) and segments of any number of elements (S). Iterators that are
dereferenced, advanced or compared split segments (case analysis), at loop headers unreferenced neighbours are
folded back, so that every run reaches a fixpoint. The original sequence is kept next to the current one; elements
remember what they are copies of; comparisons of the sort key refine, per piece, the relation to the compared value, and
are propagated along the (sorted) original order."""
import dfa, ir

LT, EQ, GT = 1, 2, 4
FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}
REL = {"olt": LT, "ult": LT, "ogt": GT, "ugt": GT, "oeq": EQ, "ueq": EQ, "ole": LT | EQ, "ule": LT | EQ, "oge": GT | EQ, "uge": GT | EQ, "one": LT | GT, "une": LT | GT}
ZERO = ("0",)
BLUR = ("blur",)
PURE = {"begin", "end", "cbegin", "cend", "size", "front", "back", "empty", "at", "operator@[]", "operator[]", "rbegin", "rend", "data", "max_size", "get_allocator", "capacity"}
MAXSTATES = 20000

class Undecided(Exception): pass
class Dead(Exception): pass

class LS:
    __slots__ = ("orig", "cur", "delta", "opaque")
    def __init__(self): self.orig = (); self.cur = (); self.delta = 0; self.opaque = None
    def copy(self):
        o = LS(); o.orig = self.orig; o.cur = self.cur; o.delta = self.delta; o.opaque = self.opaque; return o

class St:
    __slots__ = ("mem", "conts", "pc", "rel", "edges", "facts", "cmpf", "mod", "n", "joined")
    def __init__(self):
        self.mem = {}; self.conts = {}; self.pc = {}; self.rel = {}; self.edges = {}; self.facts = {}; self.cmpf = {}; self.mod = {}; self.n = 0; self.joined = False
    def copy(self):
        s = St(); s.mem = dict(self.mem); s.conts = {k: v.copy() for k, v in self.conts.items()}; s.pc = dict(self.pc); s.rel = dict(self.rel)
        s.edges = dict(self.edges); s.facts = dict(self.facts); s.cmpf = dict(self.cmpf); s.mod = dict(self.mod); s.n = self.n; s.joined = self.joined; return s
    def fresh(self): self.n += 1; return self.n
    # pieces: (kind 'E'|'S', ident or None for an original element, sub, mut)
    def ident(self, pid):
        k = self.pc[pid]
        return k[1] if k[1] is not None else ("o", pid)

def walk(v, fn):
    """apply fn to every tagged tuple inside a value, outermost first"""
    if isinstance(v, tuple):
        fn(v)
        for x in v: walk(x, fn)

class Machine:
    small = 2
    def __init__(self, p, cls, track=None):
        """track: the container followed (the others answer with unknown values); a property of several containers is
        the conjunction of one run each"""
        self.p = p; self.cls = cls
        self.conts = {}         # path -> sort key path or None
        self.keyof = {}
        self.find_conts(cls, (), 0)
        self.all = dict(self.conts)
        if track is not None: self.conts = {track: self.conts[track]}
        self.issues = {}        # (func, line, what) -> text
        self.events = 0; self.steps = 0
        self.cache_members = written_by_const(p, cls)
        self.why = set()

    def find_conts(self, cls, pre, depth):
        if depth > 3: return
        for c in self.p.base_chain(cls):
            if c not in self.p.classes: continue
            for m in self.p.classes[c].members:
                t = m["type"]
                if t.endswith("*") or t.endswith("&"): continue
                if "list<" in t.split("*")[0] and t.replace("std::__cxx11::", "std::").startswith("std::list<"):
                    self.conts[pre + (m["name"],)] = KEYS.get((c, m["name"]))
                elif t in self.p.classes: self.find_conts(t, pre + (m["name"],), depth + 1)

    # ---------------------------------------------------------------- pieces
    def initial(self):
        s = St()
        for c in sorted(self.conts):
            l = s.conts[c] = LS(); pid = s.fresh()
            s.pc[pid] = ("S", None, False, False); l.orig = (pid,); l.cur = (pid,)
            s.facts[(ZERO, ("n0", c))] = 0            # 0 <= n0
        return s

    def split(self, s, c, pid, before, after):
        """replace segment pid by [before] new E [after]; returns the new element id"""
        l = s.conts[c]; k, idn, sub, mut = s.pc[pid]
        a = s.fresh() if before else None; e = s.fresh(); b = s.fresh() if after else None
        seq = tuple(x for x in (a, e, b) if x is not None)
        for x in seq: s.pc[x] = ("S", idn, sub, mut)
        s.pc[e] = ("E", ("mut", e) if mut else None, False, mut)
        def rep(t): return tuple(y for x in t for y in (seq if x == pid else (x,)))
        l.orig = rep(l.orig); l.cur = rep(l.cur)
        for (q, t), m in list(s.rel.items()):
            if q == pid:
                for x in seq: s.rel[(x, t)] = m
                del s.rel[(q, t)]
        if (c, pid) in s.edges: s.edges[(c, seq[0])] = s.edges.pop((c, pid))
        del s.pc[pid]
        for t in {t for (q, t) in s.rel if q == e}: self.propagate(s, c, e, t)
        return e

    def drop_empty(self, s, c, pid):
        """segment pid is empty"""
        l = s.conts[c]
        if pid in l.cur:
            i = l.cur.index(pid); nxt = l.cur[i + 1] if i + 1 < len(l.cur) else "END"
            if (c, pid) in s.edges: s.edges[(c, nxt)] = s.edges.get((c, nxt), frozenset()) | s.edges.pop((c, pid))
        k, idn, sub, mut = s.pc[pid]
        l.cur = tuple(x for x in l.cur if x != pid)
        if sub: return                   # its original elements may still have existed
        l.orig = tuple(x for x in l.orig if x != pid)
        for q in [q for q in s.rel if q[0] == pid]: del s.rel[q]
        del s.pc[pid]
        if not any(s.pc[x][0] == "S" for x in l.orig): self.fact_eq(s, ("n0", c), ZERO, len(l.orig))

    def fact_eq(self, s, a, b, c):
        self.add_le(s, a, b, c); self.add_le(s, b, a, -c)

    def cases_first(self, s, c, i):
        """states with the first element of cur[i:], as (state, pid or 'END')"""
        l = s.conts[c]
        if l.opaque: raise Undecided(l.opaque)
        while True:
            if i >= len(l.cur): yield s, "END"; return
            pid = l.cur[i]
            if s.pc[pid][0] == "E": yield s, pid; return
            t = s.copy(); e = self.split(t, c, pid, s.pc[pid][2], True)
            if s.pc[pid][2]:          # partially erased: the part before the element holds no current one
                a = t.conts[c].cur[i]
                t.conts[c].cur = tuple(x for x in t.conts[c].cur if x != a)
                if (c, a) in t.edges: t.edges[(c, e)] = t.edges.pop((c, a))
            yield t, e
            s = s.copy(); l = s.conts[c]
            try: self.drop_empty(s, c, pid)
            except Dead: return

    def cases_last(self, s, c, i):
        """states with the last element of cur[:i], as (state, pid or 'NONE')"""
        l = s.conts[c]
        if l.opaque: raise Undecided(l.opaque)
        while True:
            if i <= 0: yield s, "NONE"; return
            pid = l.cur[i - 1]
            if s.pc[pid][0] == "E": yield s, pid; return
            t = s.copy(); e = self.split(t, c, pid, True, s.pc[pid][2])
            if s.pc[pid][2]:
                j = t.conts[c].cur.index(e); b = t.conts[c].cur[j + 1]
                t.conts[c].cur = tuple(x for x in t.conts[c].cur if x != b)
            yield t, e
            s = s.copy(); l = s.conts[c]; n0 = len(l.cur)
            try: self.drop_empty(s, c, pid)
            except Dead: return
            i -= 1

    def index(self, s, c, pid):
        l = s.conts[c]
        return len(l.cur) if pid == "END" else l.cur.index(pid)

    def erase(self, s, c, pid):
        l = s.conts[c]; i = l.cur.index(pid); nxt = l.cur[i + 1] if i + 1 < len(l.cur) else "END"
        self.shift(s, c, i + 1, -1)
        if (c, pid) in s.edges: s.edges[(c, nxt)] = s.edges.get((c, nxt), frozenset()) | s.edges.pop((c, pid))
        l.cur = l.cur[:i] + l.cur[i + 1:]
        if l.delta is not None: l.delta -= 1
        return nxt

    def shift(self, s, c, i, d):
        l = s.conts[c]
        for x in l.cur[i:] + ("END",):
            e = s.edges.get((c, x))
            if e: s.edges[(c, x)] = frozenset((sy, o + d) for sy, o in e)

    def insert(self, s, c, at, ident):
        l = s.conts[c]; i = self.index(s, c, at)
        if l.opaque: raise Undecided(l.opaque)
        pid = None
        if ident is not None and ident[0] == "o" and ident[1] in l.orig and ident[1] not in l.cur: pid = ident[1]
        if pid is None:
            pid = s.fresh(); s.pc[pid] = ("E", ident if ident is not None else ("new", pid), False, False)
        old = s.edges.get((c, at))
        self.shift(s, c, i, 1)
        if old: s.edges[(c, pid)] = old
        l.cur = l.cur[:i] + (pid,) + l.cur[i:]
        if l.delta is not None: l.delta += 1
        return pid

    def replace(self, s, c, pid, ident):
        """the element changed in place: it keeps its place, ("o", pid) still stands for its original content"""
        k = s.pc[pid]
        if ident == ("o", pid): s.pc[pid] = ("E", None, k[2], False)
        else: s.pc[pid] = ("E", ident if ident is not None else ("mut", s.fresh()), k[2], ident is None)

    # ---------------------------------------------------------------- integers
    def lin(self, v):
        if v is None: return None
        if v[0] == "i": return (ZERO, v[1])
        if v[0] == "lin": return (v[1], v[2])
        if v[0] == "fld": return (v, 0)
        return None
    def mk(self, s, o): return ("i", o) if s == ZERO else ("lin", s, o) if not (s[0] == "fld" and o == 0) else s
    def bound(self, s, a, b):
        """least c known with a <= b + c"""
        if a == b: return 0
        best = s.facts.get((a, b))
        for (x, y), c in s.facts.items():
            if x == a and y != b:
                d = s.facts.get((y, b))
                if d is not None and (best is None or c + d < best): best = c + d
                if d is None:
                    for (x2, y2), c2 in s.facts.items():
                        if x2 == y and (y2, b) in s.facts and (best is None or c + c2 + s.facts[(y2, b)] < best): best = c + c2 + s.facts[(y2, b)]
        return best
    def add_le(self, s, a, b, c):
        """a <= b + c"""
        if a == b:
            if c < 0: raise Dead()
            return
        r = self.bound(s, b, a)
        if r is not None and r + c < 0: raise Dead()
        o = self.bound(s, a, b)
        if o is None or c < o: s.facts[(a, b)] = c
    def le(self, s, x, y):
        """truth of x <= y for lins: True / False / None"""
        b = self.bound(s, x[0], y[0])
        if b is not None and x[1] + b <= y[1]: return True
        b = self.bound(s, y[0], x[0])
        if b is not None and y[1] + b < x[1]: return False
        return None
    def assume_le(self, s, x, y): self.add_le(s, x[0], y[0], y[1] - x[1])

    # ---------------------------------------------------------------- sort keys
    def locate(self, s, v):
        """(container, pid) when v is the sort key of an original element"""
        if v is None or v[0] != "fld" or v[1][0] != "o": return None
        for c, key in self.conts.items():
            if key == v[2] and v[1][1] in s.conts[c].orig: return c, v[1][1]
        return None
    def getrel(self, s, a, b):
        if a == b: return EQ
        la, lb = self.locate(s, a), self.locate(s, b)
        if la and lb and la[0] == lb[0]:
            o = s.conts[la[0]].orig
            return LT if o.index(la[1]) < o.index(lb[1]) else GT
        if la: return s.rel.get((la[1], b), 7)
        if lb: return FLIP[s.rel.get((lb[1], a), 7)]
        return s.cmpf.get(("rel", a, b), FLIP[s.cmpf.get(("rel", b, a), 7)])
    def setrel(self, s, a, b, m):
        m &= self.getrel(s, a, b)
        if not m: raise Dead()
        la, lb = self.locate(s, a), self.locate(s, b)
        if la and lb: return
        if la: self.refine(s, la[0], la[1], b, m)
        if lb: self.refine(s, lb[0], lb[1], a, FLIP[m])
        if not la and not lb: s.cmpf[("rel", a, b)] = m
    def refine(self, s, c, pid, t, m):
        s.rel[(pid, t)] = m
        self.propagate(s, c, pid, t)
    def propagate(self, s, c, pid, t):
        m = s.rel.get((pid, t), 7); l = s.conts[c]
        if s.pc[pid][0] != "E" or pid not in l.orig: return
        i = l.orig.index(pid)
        def cut(x, mask):
            n = s.rel.get((x, t), 7) & mask
            if n == s.rel.get((x, t), 7): return
            if not n:
                if s.pc[x][0] == "E": raise Dead()
                self.drop_empty(s, c, x); return
            s.rel[(x, t)] = n
        if not m & GT:
            for x in l.orig[:i]: cut(x, LT)
        if not m & LT:
            for x in [y for y in l.orig if y not in l.orig[:i + 1]]: cut(x, GT)
        # what neighbours already know
        for j, x in enumerate(l.orig):
            if s.pc[x][0] != "E" or x == pid: continue
            n = s.rel.get((x, t), 7)

    # ---------------------------------------------------------------- memory
    def load(self, s, a):
        if a is None: return None
        if a[0] == "fld": a = ("addr", ("via", a), ())
        if a[0] != "addr": return None
        root, path = a[1], a[2]
        if root[0] == "l":
            for n in range(len(path), -1, -1):
                v = s.mem.get((root, path[:n]))
                if (root, path[:n]) in s.mem:
                    if n == len(path) and not (v and v[0] == "copy"): return v
                    if v and v[0] == "copy": return self.fld(v[1], path[n:])
                    if v and v[0] == "it" : return v
                    return None
            return None
        if root == ("this",):
            if path in s.mod: return s.mod[path]
            if any(path[:n] in s.mod for n in range(len(path))): return None
            return ("fld", root, path)
        if root[0] == "el": return self.fld(s.ident(root[2]), path)
        if root[0] in ("arg", "via"): return self.fld(root, path)
        return None
    def fld(self, ident, path):
        if ident is None: return None
        if ident[0] == "via" and ident[1][0] == "fld": return ("fld", ident[1][1], ident[1][2] + ("*",) + path)
        if ident[0] == "rec":
            best = None
            for q, v in ident[1]:
                if path[:len(q)] == q and (best is None or len(q) > len(best[0])): best = (q, v)
            if best is None: return None
            if best[1] and best[1][0] == "copy": return self.fld(best[1][1], path[len(best[0]):])
            return best[1] if best[0] == path else None
        return ("fld", ident, path)
    def ident_of(self, s, a):
        """what the object at address a is a copy of"""
        if a is None: return None
        if a[0] == "fld": a = ("addr", ("via", a), ())
        if a[0] != "addr": return None
        root, path = a[1], a[2]
        if root[0] == "l":
            es = sorted((k[1][len(path):], v) for k, v in s.mem.items() if k[0] == root and k[1][:len(path)] == path)
            if not es: return None
            if len(es) == 1 and es[0][0] == () and es[0][1] and es[0][1][0] == "copy": return es[0][1][1]
            return ("rec", tuple(es))
        if root[0] == "el" and path == (): return s.ident(root[2])
        if root[0] == "arg" and path == (): return root
        if root[0] == "via" and path == (): return root
        return None
    def store(self, s, a, v, env):
        if a is None: return env
        if a[0] == "fld": a = ("addr", ("via", a), ())
        if a[0] != "addr": return env
        root, path = a[1], a[2]
        if root[0] == "l":
            if path and path[-1] in ("#0", "_M_node"): path = path[:-1]
            for k in [k for k in s.mem if k[0] == root and k[1][:len(path)] == path]: del s.mem[k]
            s.mem[(root, path)] = v
        elif root == ("this",): self.modify(s, path, v)
        elif root[0] == "el":
            base = s.ident(root[2])
            return self.assign_el(s, root, ("rec", (((), ("copy", base)), (path, v))) if path != () else None, env)
        return env
    def modify(self, s, path, v=None):
        for c in self.conts:
            if c == path or c[:len(path)] == path or path[:len(c)] == c: s.conts[c].opaque = "%s is changed in an unmodelled way" % ".".join(path)
        if path in self.conts: return
        for k in [k for k in s.mod if k[:len(path)] == path]: del s.mod[k]
        if v == ("fld", ("this",), path): s.mod.pop(path, None)
        else: s.mod[path] = v
    def assign_el(self, s, root, ident, env):
        self.replace(s, root[1], root[2], ident)
        return env

    # ---------------------------------------------------------------- values
    def val(self, f, env, depth, o):
        if not isinstance(o, list) or not o: return None
        t = o[0]
        if t == "i": return ("i", o[1])
        if t == "n": return ("null",)
        if t == "v":
            if o[1] in env: return env[o[1]]
            return None
        if t == "ge":
            return self.gep(self.val(f, env, depth, o[1]), dfa.steps(f, o[2]))
        return None
    def gep(self, b, path):
        if b is None: return None
        if b[0] == "fld": b = ("addr", ("via", b), ())
        if b[0] != "addr": return None
        return ("addr", b[1], b[2] + path)

    # ---------------------------------------------------------------- conditions
    def assume(self, s, v, truth):
        """states in which condition v has the given truth"""
        s = s.copy()
        try:
            if v is None: return [s]
            if v[0] == "i": return [s] if bool(v[1]) == truth else []
            if v[0] == "not": return self.assume(s, v[1], not truth)
            if v[0] == "cmp":
                p, a, b = v[1:]
                if p == "le":
                    x, y = self.lin(a), self.lin(b)
                    k = self.le(s, x, y)
                    if k is not None: return [s] if k == truth else []
                    if truth: self.assume_le(s, x, y)
                    else: self.assume_le(s, y, (x[0], x[1] - 1))
                    self.tidy(s); return [s]
                if p == "ieq":
                    x, y = self.lin(a), self.lin(b)
                    if truth:
                        self.assume_le(s, x, y); self.assume_le(s, y, x); self.tidy(s); return [s]
                    l, g = self.le(s, x, y), self.le(s, y, x)
                    if l is True and g is True: return []
                    if l is True: self.assume_le(s, (x[0], x[1] + 1), y)
                    elif g is True: self.assume_le(s, (y[0], y[1] + 1), x)
                    else:
                        k = ("ne", x, y)
                        s.cmpf[k] = True
                    self.tidy(s); return [s]
                if p == "f":
                    m = v[4] if len(v) > 4 else 7
                if p == "peq":
                    k = self.peq(s, a, b)
                    if k is not None: return [s] if k == truth else []
                    if a is not None and b is not None: s.cmpf[("peq", a, b)] = truth
                    return [s]
            if v[0] == "fcmp":
                m = v[1] if truth else 7 & ~v[1]
                self.setrel(s, v[2], v[3], m); return [s]
            if v[0] == "fld":
                k = s.cmpf.get(("b", v))
                if k is not None: return [s] if k == truth else []
                s.cmpf[("b", v)] = truth
            return [s]
        except Dead: return []
    def peq(self, s, a, b):
        if a == b and a is not None: return True
        if a is None or b is None: return None
        for x, y in ((a, b), (b, a)):
            if y == ("null",):
                if x[0] == "addr": return False
                if x[0] == "fld" and x[1][0] == "o" and (self.container_of(s, x[1][1]), x[2]) in NONNULL: return False
        if a[0] == "addr" and b[0] == "addr" and a[1][0] == "el" and b[1][0] == "el" and a[2] == b[2] == () : return a[1] == b[1]
        return s.cmpf.get(("peq", a, b), s.cmpf.get(("peq", b, a)))
    def container_of(self, s, pid):
        for c, l in s.conts.items():
            if pid in l.orig: return c[-1]
        return None

    # ---------------------------------------------------------------- canonical form
    def referenced(self, s, env):
        out = set(); syms = set()
        def fn(v):
            if v[:1] == ("o",) and len(v) == 2: out.add(v[1])
            elif v[:1] == ("it",) and len(v) == 3: out.add(v[2])
            elif v[:1] == ("el",) and len(v) == 3: out.add(v[2])
            elif v[:1] == ("d",) and len(v) == 2: syms.add(v)
        for v in env.values(): walk(v, fn)
        for k, v in s.mem.items(): walk(k[1], fn); walk(v, fn)
        for k, v in s.mod.items(): walk(k, fn); walk(v, fn)
        for pid, k in s.pc.items():
            if any(pid in l.cur for l in s.conts.values()): walk(k[1], fn)
        return out, syms
    def gc(self, s, env):
        ref, syms = self.referenced(s, env)
        alive = set(ref)
        for l in s.conts.values(): alive |= set(l.orig) | set(l.cur)
        for pid in [x for x in s.pc if x not in alive]: del s.pc[pid]
        def dead(v):
            bad = []
            def fn(x):
                if x[:1] == ("o",) and len(x) == 2 and x[1] not in alive: bad.append(1)
                if x[:1] == ("el",) and len(x) == 3 and x[2] not in alive: bad.append(1)
                if x[:1] == ("d",) and len(x) == 2 and x not in syms: bad.append(1)
            walk(v, fn); return bool(bad)
        for k in [k for k in s.rel if k[0] not in alive or dead(k[1])]: del s.rel[k]
        for k in [k for k in s.cmpf if dead(k)]: del s.cmpf[k]
        # symbols: keep through one more step of facts, then drop
        for k in [k for k in s.facts if dead(k)]:
            a, b = k
            for (x, y), c in list(s.facts.items()):
                if y == a and not dead((x,)) and not dead((b,)) and x != b:
                    o = s.facts.get((x, b))
                    if o is None or c + s.facts[k] < o: s.facts[(x, b)] = c + s.facts[k]
        for k in [k for k in s.facts if dead(k)]: del s.facts[k]
        for k, e in list(s.edges.items()):
            e = frozenset(x for x in e if not dead(x[0]))
            if e and (k[1] == "END" or k[1] in s.conts[k[0]].cur): s.edges[k] = e
            else: del s.edges[k]
    def fold(self, s, env):
        ref, syms = self.referenced(s, env)
        for c, l in s.conts.items():
            if l.opaque: continue
            ch = True
            while ch:
                ch = False
                hard = len(l.orig) > 6 or self.conts[c] is None
                for i in range(len(l.orig) - 1):
                    a, b = l.orig[i], l.orig[i + 1]
                    if a in ref or b in ref or s.edges.get((c, b)): continue
                    if any(s.pc[y][1] is not None and not s.pc[y][3] for y in (a, b)): continue
                    pa, pb = a in l.cur, b in l.cur
                    if pa and pb and l.cur.index(b) != l.cur.index(a) + 1: continue
                    if not hard and {(t, m) for (q, t), m in s.rel.items() if q == a} != {(t, m) for (q, t), m in s.rel.items() if q == b}: continue
                    n = s.fresh(); A, B = s.pc[a], s.pc[b]
                    s.pc[n] = ("S", None, A[2] or B[2] or pa != pb, A[3] or B[3])
                    # the relations of a partly erased segment speak of the elements that are left
                    ra = {t: m for (q, t), m in s.rel.items() if q == a}; rb = {t: m for (q, t), m in s.rel.items() if q == b}
                    if pa and not pb: rb = ra
                    elif pb and not pa: ra = rb
                    if any(ra.get(t, 7) != rb.get(t, 7) or t == BLUR for t in set(ra) | set(rb)): s.rel[(n, BLUR)] = 7     # knowledge was given up
                    for t in set(ra) & set(rb):
                        m = ra[t] | rb[t]
                        if m != 7: s.rel[(n, t)] = m
                    l.orig = l.orig[:i] + (n,) + l.orig[i + 2:]
                    if pa and pb: j = l.cur.index(a); l.cur = l.cur[:j] + (n,) + l.cur[j + 2:]
                    else: l.cur = tuple(n if x in (a, b) else x for x in l.cur)
                    if (c, a) in s.edges: s.edges[(c, n)] = s.edges.pop((c, a))
                    for x in (a, b):
                        for q in [q for q in s.rel if q[0] == x]: del s.rel[q]
                        if x in s.pc: del s.pc[x]
                    ch = True; break
            if len(l.orig) == 0 and len(l.cur) == 0 and self.conts[c] is None:
                n = s.fresh(); s.pc[n] = ("S", None, False, False); l.orig = l.cur = (n,)
                e = s.edges.pop((c, "END"), None)
            if (self.conts[c] is None or l.cur) and len(l.orig) == 1 and l.cur in (l.orig, ()) and l.orig[0] not in ref and (s.pc[l.orig[0]][1] is None or s.pc[l.orig[0]][3]):
                x = l.orig[0]; k = s.pc[x]
                s.pc[x] = ("S", None, k[2] or not l.cur, k[3])
                if not l.cur: l.cur = l.orig
                s.facts[(ZERO, ("n0", c))] = 0; s.facts.pop((("n0", c), ZERO), None)
            if l.delta is not None and abs(l.delta) > 2: l.delta = None
            if l.delta is not None and any(s.pc[x][2] for x in l.orig): l.delta = None
    def counters(self, s, env, phis, depth):
        """a number that moved since the loop was entered becomes a symbol that keeps what is known about it"""
        def new(v):
            if v[0] == "lit": return ("lit", v[1], new(v[2]) if v[2] is not None else None)
            n = self.lin(v)
            if n is None or n[1] == 0 and n[0] != ZERO or n[0] == ZERO and -self.small < n[1] < self.small: return v
            sy = ("d", s.fresh())
            for y in {y for k in s.facts for y in k} | {ZERO, n[0]}:
                b = self.bound(s, n[0], y)
                if b is not None: s.facts[(sy, y)] = b + n[1]
                b = self.bound(s, y, n[0])
                if b is not None: s.facts[(y, sy)] = b - n[1]
            return self.mk(sy, 0)
        for k in sorted(phis):
            if env.get(k) is not None:
                v = new(env[k])
                if v != env[k]: env = dict(env); env[k] = v
        for k, v in sorted(s.mem.items(), key=lambda z: repr(z[0])):
            if v is not None and k[0][0] == "l" and (k[0][1] == depth or "#n" in k[1]): s.mem[k] = new(v)
        for k, v in sorted(s.mod.items(), key=repr):
            if k[-1:] == ("#n",) and v is not None: s.mod[k] = new(v)
        return env
    def widen(self, s):
        for k, c in list(s.facts.items()):
            if c < -2: s.facts[k] = -2
            elif c > 2: del s.facts[k]
    def canon(self, s, env):
        ren = {}; syms = {}
        for c in sorted(s.conts):
            for x in s.conts[c].orig + s.conts[c].cur:
                if x not in ren: ren[x] = len(ren)
        def r(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] in ("o", "mut", "new") : return (v[0], ren.setdefault(v[1], 100 + len(ren)))
                if len(v) == 3 and v[0] in ("it", "el"): return (v[0], v[1], v[2] if isinstance(v[2], str) or v[2] is None else ren.setdefault(v[2], 100 + len(ren)))
                if len(v) == 2 and v[0] == "d": return ("d", syms.setdefault(v[1], len(syms)))
                return tuple(r(x) for x in v)
            return v
        e = tuple((k, r(env[k])) for k in sorted(env))
        m = tuple((r(k), r(s.mem[k])) for k in sorted(s.mem, key=repr))
        cs = tuple((c, tuple(ren[x] for x in l.orig), tuple(ren[x] for x in l.cur), l.delta, l.opaque) for c, l in sorted(s.conts.items()))
        pcs = tuple((ren[x], s.pc[x][0], r(s.pc[x][1]), s.pc[x][2:]) for x in sorted((x for x in s.pc if x in ren), key=lambda x: ren[x]))
        ed = tuple(sorted((c, str(x if x == "END" else ren[x]), tuple(sorted((r(sy), o) for sy, o in e2))) for (c, x), e2 in s.edges.items()))
        rl = tuple(sorted(((ren.get(q, -1), r(t)), mm) for (q, t), mm in s.rel.items()))
        md = tuple((r(k), r(s.mod[k])) for k in sorted(s.mod, key=repr))
        fc = tuple(sorted((((r(a), r(b)), c2) for (a, b), c2 in s.facts.items()), key=repr))
        cf = tuple(sorted(((r(k), v) for k, v in s.cmpf.items()), key=repr))
        self.syms = syms
        return hash((e, m, cs, pcs, ed, rl, fc, cf, md)), (e, m, cs, pcs, ed, rl, fc, cf, md)

    # ---------------------------------------------------------------- execution
    def known(self, seen, bi, s, env):
        key = (bi, self.canon(s, env)[1])
        if key in seen: return True
        seen[key] = True; return False
    def result(self, out, v, s):
        out.append((v, s)); return out
    def run(self, f, args, s, depth):
        """[(return value, state)] of f from state s; args: parameter id -> value"""
        if depth > 9: raise Undecided("calls nested too deeply")
        out = []; outseen = {}; seen = {}
        heads = set(f.loops)
        wl = [(0, None, dict(args), s)]
        n = 0
        while wl:
            bi, prev, env, s = wl.pop()
            n += 1; self.steps += 1
            if n > MAXSTATES: raise Undecided("more than %d states in %s" % (MAXSTATES, f.short))
            # phis first, simultaneously
            new = {}
            for x in f.blocks[bi]:
                if x["op"] != "phi": break
                new[x["id"]] = self.val(f, env, depth, x["o"][x["in"].index(prev)]) if prev in x["in"] else None
            env = dict(env); env.update(new)
            keep = f.live[bi]
            if len(f.pred[bi]) > 1 or bi in heads:
                ids = set(keep) | {x["id"] for x in f.blocks[bi] if x["op"] == "phi"}
                env = {k: v for k, v in env.items() if k in ids or k in args}
                la = alloca_live(f)[bi]
                for k in [k for k in s.mem if k[0][0] == "l" and k[0][1] == depth and k[0][2] not in la]: del s.mem[k]
                if bi in heads: env = self.counters(s, env, ids if prev is None else {x["id"] for x in f.blocks[bi] if x["op"] == "phi"}, depth)
                self.gc(s, self.outer(env)); self.fold(s, self.outer(env))
                if bi in heads: self.widen(s)
                if self.known(seen, bi, s, env): continue
            for r in self.block(f, bi, 0, env, s, depth):
                if r[0] == "ret":
                    s2 = r[2]
                    for k in [k for k in s2.mem if k[0][0] == "l" and k[0][1] == depth]: del s2.mem[k]
                    e2 = self.outer({"ret": r[1]})
                    self.gc(s2, e2)
                    if depth > 0: self.fold(s2, e2); self.widen(s2)
                    if self.known(outseen, -1, s2, {"ret": r[1]}): continue
                    out = self.result(out, r[1], s2)
                else: wl.append((r[1], bi, r[2], r[3]))
        return out

    def outer(self, env):
        """values of the calling frames, kept alive with the current ones"""
        d = dict(env)
        for i, e in enumerate(self.stack):
            for k, v in e.items(): d[("f", i, k)] = v
        return d

    def block(self, f, bi, i, env, s, depth):
        """yield ('go', block, env, state) / ('ret', value, state)"""
        todo = [(i, env, s)]
        while todo:
            i, env, s = todo.pop()
            b = f.blocks[bi]
            while i < len(b):
                x = b[i]; op = x["op"]
                if op == "phi": i += 1; continue
                if op == "br":
                    if not x.get("o"): yield ("go", x["t"][0], env, s); break
                    c = self.val(f, env, depth, x["o"][0])
                    for k, tr in ((0, True), (1, False)):
                        for t in self.assume(s, c, tr): yield ("go", x["t"][k], env, t)
                    break
                if op == "switch":
                    for t in dict.fromkeys([c[1] for c in x["cases"]] + [x["def"]]): yield ("go", t, env, s.copy())
                    break
                if op == "ret":
                    yield ("ret", self.val(f, env, depth, x["o"][0]) if x.get("o") else None, s); break
                if op in ("unreachable", "resume"): break
                if op == "call":
                    rs = list(self.call(f, x, env, s, depth))
                    rs = [(v, e, t) for v, e, t in rs]
                    if "next" in x:
                        for v, e, t in rs:
                            e = dict(e); e[x["id"]] = v; yield ("go", x["next"], e, t)
                        break
                    if not rs: break
                    for v, e, t in rs[1:]:
                        e = dict(e); e[x["id"]] = v; todo.append((i + 1, e, t))
                    v, env, s = rs[0]; env = dict(env); env[x["id"]] = v
                    i += 1; continue
                env = self.inst(f, x, env, s, depth)
                i += 1

    def inst(self, f, x, env, s, depth):
        op = x["op"]; V = lambda k: self.val(f, env, depth, x["o"][k])
        r = None
        if op == "alloca": r = ("addr", ("l", depth, x["id"]), ())
        elif op == "getelementptr": r = self.gep(V(0), dfa.steps(f, x["s"]))
        elif op == "load":
            r = self.load(s, V(0))
        elif op == "store":
            env = self.store(s, V(1), V(0), env)
            return env
        elif op in ("sext", "zext", "trunc", "freeze", "bitcast"): r = V(0)
        elif op in ("add", "sub"):
            a, b = self.lin(V(0)), self.lin(V(1))
            if a and b:
                if b[0] == ZERO: r = self.mk(a[0], a[1] + (b[1] if op == "add" else -b[1]))
                elif op == "add" and a[0] == ZERO: r = self.mk(b[0], a[1] + b[1])
                elif op == "sub" and a[0] == b[0]: r = ("i", a[1] - b[1])
                elif op == "sub": r = ("dif", a, b)
        elif op == "icmp": r = self.icmp(s, x["p"], V(0), V(1))
        elif op == "fcmp":
            a, b = V(0), V(1)
            if a is not None and b is not None and a[0] == "fld" and b[0] == "fld" and x["p"] in REL:
                m = REL[x["p"]]; g = self.getrel(s, a, b)
                r = ("i", 1) if not g & ~m else ("i", 0) if not g & m else ("fcmp", m, a, b)
        elif op == "xor":
            a, b = V(0), V(1)
            if b == ("i", 1) or b == ("i", -1): r = self.neg(a)
        elif op in ("and", "or"):
            a, b = V(0), V(1)
            for u, w in ((a, b), (b, a)):
                if u is not None and u[0] == "i" and x.get("ty") == "i1":
                    if op == "and": r = w if u[1] else ("i", 0)
                    else: r = ("i", 1) if u[1] else w
        elif op == "select":
            c = V(0)
            if c is not None and c[0] == "i": r = V(1) if c[1] else V(2)
            elif V(1) == V(2): r = V(1)
            elif x.get("ty") == "i1":
                if V(2) == ("i", 0) and V(1) == ("i", 1): r = c
        env = dict(env); env[x["id"]] = r
        return env
    def neg(self, v):
        if v is None: return None
        if v[0] == "i": return ("i", 0 if v[1] else 1)
        return v[1] if v[0] == "not" else ("not", v)
    def icmp(self, s, p, a, b):
        if a is None or b is None: return None
        # tests of booleans
        if b[0] == "i" and a[0] in ("cmp", "not", "fcmp") or (b[0] == "i" and a[0] == "fld" and False):
            if p in ("eq", "ne") and b[1] in (0, 1):
                return a if (p == "eq") == bool(b[1]) else self.neg(a)
            return None
        la, lb = self.lin(a), self.lin(b)
        if "null" in (a[0], b[0]) or a[0] == "addr" or b[0] == "addr":
            if p not in ("eq", "ne"): return None
            k = self.peq(s, a, b)
            if k is not None: return ("i", int(k == (p == "eq")))
            v = ("cmp", "peq", a, b)
            return v if p == "eq" else ("not", v)
        if a[0] == "it" or b[0] == "it":
            if a[0] == b[0] == "it" and p in ("eq", "ne"): return ("i", int((a == b) == (p == "eq")))
            return None
        if la is None or lb is None: return None
        if p in ("eq", "ne"):
            l, g = self.le(s, la, lb), self.le(s, lb, la)
            if l is False or g is False: k = False
            elif l and g: k = True
            elif ("ne", la, lb) in s.cmpf or ("ne", lb, la) in s.cmpf: k = False
            else: k = None
            if k is not None: return ("i", int(k == (p == "eq")))
            # two unknown pointers are compared this way, too
            v = ("cmp", "ieq", a, b)
            return v if p == "eq" else ("not", v)
        sw = {"slt": (b, a, True), "sge": (b, a, False), "sgt": (a, b, True), "sle": (a, b, False)}
        if p in ("slt", "sge"): v = ("cmp", "le", b, a)      # a<b  <=> not(b<=a)
        elif p in ("sgt", "sle"): v = ("cmp", "le", a, b)
        elif p in ("ult", "uge", "ugt", "ule"):
            # unsigned: only between values known not to be negative
            if self.le(s, (ZERO, 0), la) is not True or self.le(s, (ZERO, 0), lb) is not True: return None
            v = ("cmp", "le", b, a) if p in ("ult", "uge") else ("cmp", "le", a, b)
        else: return None
        k = self.le(s, self.lin(v[2]), self.lin(v[3]))
        if p[1:] in ("lt", "gt"): return ("i", int(not k)) if k is not None else ("not", v)
        return ("i", int(k)) if k is not None else v

    # ---------------------------------------------------------------- calls
    def cont(self, v):
        """container path when v is the address of one"""
        if v is not None and v[0] == "addr" and v[1] == ("this",) and v[2] in self.conts: return v[2]
        return None
    def itval(self, s, v):
        """iterator from a value or the address of an iterator object"""
        if v is None: return None
        if v[0] == "it": return v
        if v[0] == "addr":
            root, path = v[1], v[2]
            for k in ((root, path), (root, path + ("#0",)), (root, path + ("_M_node",))):
                r = s.mem.get(k)
                if r is not None: return r if r[0] == "it" else None
            for k, r in s.mem.items():
                if k[0] == root and k[1][:len(path)] == path: return r if r is not None and r[0] == "it" else None
        return None
    def setit(self, s, a, v):
        if a is None or a[0] != "addr" or a[1][0] != "l": return
        root, path = a[1], a[2]
        ks = [k for k in s.mem if k[0] == root and k[1][:len(path)] == path]
        for k in ks: del s.mem[k]
        s.mem[(root, path)] = v

    def issue(self, f, x, kind, what):
        self.issues.setdefault((f.short, kind, what), f.where(x))

    def size(self, s, c):
        l = s.conts[c]
        if l.opaque or l.delta is None: return None
        return ("lin", ("n0", c), l.delta)

    def position(self, s, c, pid):
        """value of the number of elements before pid"""
        l = s.conts[c]; i = self.index(s, c, pid)
        if i <= 1 and all(s.pc[x][0] == "E" for x in l.cur[:i]): return ("i", i)
        e = s.edges.get((c, pid))
        if e:
            sy, o = sorted(e, key=lambda z: (z[0][0] == "d", repr(z)))[0]
            return self.mk(sy, o)
        if pid == "END" and l.delta is not None: return self.size(s, c)
        sy = ("d", s.fresh())
        s.edges[(c, pid)] = frozenset({(sy, 0)})
        try: self.bounds(s, c, pid, (sy, 0))
        except Dead: pass
        return self.mk(sy, 0)
    def bounds(self, s, c, pid, pos):
        """record what is known about the position of pid"""
        l = s.conts[c]; i = self.index(s, c, pid)
        lo = sum(1 for x in l.cur[:i] if s.pc[x][0] == "E"); hi = sum(1 for x in l.cur[i:] if s.pc[x][0] == "E")
        self.assume_le(s, (ZERO, lo), pos)
        if lo == i: self.assume_le(s, pos, (ZERO, lo))
        if l.delta is not None:
            self.assume_le(s, pos, (("n0", c), l.delta - hi))
            if hi == len(l.cur) - i: self.assume_le(s, (("n0", c), l.delta - hi), pos)

    def step(self, s, c, pid, n):
        """iterator moved by a constant: [(state, pid)]"""
        res = [(s, pid)]
        while n > 0:
            nx = []
            for t, q in res:
                if q == "END": self.pastend = True; continue
                nx += list(self.cases_first(t, c, self.index(t, c, q) + 1))
            res = nx; n -= 1
        while n < 0:
            nx = []
            for t, q in res:
                for u, r in self.cases_last(t, c, self.index(t, c, q)):
                    if r == "NONE": self.pastend = True; continue
                    nx.append((u, r))
            res = nx; n += 1
        return res

    def advance(self, f, x, s, it, v):
        """std::advance(it, v): [(state, iterator)]"""
        c, pid = it[1], it[2]; l = s.conts[c]
        n = self.lin(v)
        if l.opaque: raise Undecided(l.opaque)
        if n is None or pid is None: raise Undecided("iterator moved by an unknown distance")
        self.pastend = False
        if n[0] == ZERO:
            r = self.step(s, c, pid, n[1])
            self.events += 1
            if self.pastend: self.issue(f, x, "range", "moves an iterator of %s outside the list" % ".".join(c))
            return r
        i = self.index(s, c, pid)
        if i != 0 and not (pid != "END" and self.position(s, c, pid) == ("i", 0)): raise Undecided("iterator moved by an unknown distance from the middle")
        self.events += 1
        # must stay within [0, size]
        sz = self.size(s, c)
        ok = self.le(s, (ZERO, 0), n) is True and sz is not None and self.le(s, n, (sz[1], sz[2])) is True
        if not ok: self.issue(f, x, "range", "index of %s is not checked" % ".".join(c) if sz is not None else "")
        # anchor with a known position relative to the same symbol
        best = None
        for (c2, q), e in s.edges.items():
            if c2 != c: continue
            for sy, o in e:
                if sy == n[0] and (q == "END" or q in l.cur):
                    d = n[1] - o
                    if s.pc.get(q, ("E",))[0] == "S" and d < 0: continue
                    if abs(d) <= 3 and (best is None or abs(d) < abs(best[1])): best = (q, d)
        if best is not None:
            q, d = best
            if q != "END" and s.pc[q][0] == "S":
                rs = list(self.cases_first(s, c, self.index(s, c, q)))
            else: rs = [(s, q)]
            out = []
            for t, r in rs: out += self.step(t, c, r, d)
            return self.mark(out, c, n)
        out = []
        cur = l.cur
        for j, q in enumerate(cur):
            t = s.copy()
            try:
                if s.pc[q][0] == "E": e = q
                else: e = self.split(t, c, q, True, True)
                self.bounds(t, c, e, n)
            except Dead: continue
            out.append((t, e))
        t = s.copy()
        try: self.bounds(t, c, "END", n); out.append((t, "END"))
        except Dead: pass
        return self.mark(out, c, n)
    def tidy(self, s):
        """segments the known numbers leave no room for are empty"""
        for c, l in s.conts.items():
            if l.opaque or l.delta is None: continue
            ch = True
            while ch:
                ch = False
                for (c2, x), e in list(s.edges.items()):
                    if c2 != c or x == "END" or x not in l.cur: continue
                    i = l.cur.index(x)
                    hi = sum(1 for y in l.cur[i:] if s.pc[y][0] == "E"); lo = sum(1 for y in l.cur[:i] if s.pc[y][0] == "E")
                    drop = []
                    if s.pc[x][0] == "E":
                        for n in e:
                            if hi and self.le(s, (("n0", c), l.delta - hi), n) is True: drop += [y for y in l.cur[i:] if s.pc[y][0] == "S"]
                            if self.le(s, n, (ZERO, lo)) is True: drop += [y for y in l.cur[:i] if s.pc[y][0] == "S"]
                    for y in dict.fromkeys(drop):
                        if not s.pc[y][2]: self.drop_empty(s, c, y); ch = True
                    if ch: break
    def mark(self, out, c, n):
        r = []
        for t, e in out:
            try: self.bounds(t, c, e, n)
            except Dead: continue
            t.edges[(c, e)] = t.edges.get((c, e), frozenset()) | {n}
            try: self.tidy(t)
            except Dead: continue
            r.append((t, e))
        return r

    def call(self, f, x, env, s, depth):
        """[(value, env, state)]"""
        p = self.p; name = x["f"]
        A = [self.val(f, env, depth, o) for o in x["o"]]
        if isinstance(name, str) and name in p.funcs:
            g = p.funcs[name]
            yield from self.repo_call(f, x, g, A, env, s, depth); return
        if not isinstance(name, str):
            ts = dfa.virtual_targets(p, f, x)
            if len(ts) == 1 and A and A[0] is not None:
                yield from self.repo_call(f, x, p.funcs[ts[0]], A, env, s, depth); return
            for v in A[:1]:
                if v is not None and v[0] == "addr" and v[1][0] == "el" and any(not p.funcs[t].const for t in ts): raise Undecided("virtual call on an element")
            yield None, env, s; return
        b = dfa.base(p, x); short = b.split("::")[-1]
        if b.startswith("llvm.mem"):
            if "memset" not in b and len(A) >= 2:
                yield from self.copy_to(A[0], self.ident_of(s, A[1]), A[1], env, s); return
            yield None, self.store(s, A[0], None, env), s; return
        if b.startswith("llvm."): yield None, env, s; return
        if b.startswith("std::list::"):
            yield from self.listop(f, x, short, A, env, s, depth); return
        if b in ("std::_List_iterator::operator*", "std::_List_const_iterator::operator*", "std::_List_iterator::operator@arrow", "std::_List_const_iterator::operator@arrow"):
            it = self.itval(s, A[0])
            yield self.deref(f, x, s, it), env, s; return
        if b in ("std::_List_iterator::operator++", "std::_List_const_iterator::operator++", "std::_List_iterator::operator--", "std::_List_const_iterator::operator--"):
            it = self.itval(s, A[0]); d = 1 if b.endswith("++") else -1
            if it is None or it[2] is None:
                self.setit(s, A[0], None); yield None, env, s; return
            post = len(A) > 1
            self.pastend = False
            self.events += 1
            for t, q in self.step(s, it[1], it[2], d):
                t = t.copy(); v = ("it", it[1], q); self.setit(t, A[0], v)
                yield (it if post else A[0]), env, t
            if self.pastend: self.issue(f, x, "range", "moves an iterator of %s outside the list" % ".".join(it[1]))
            return
        if b in ("std::_List_iterator::_List_iterator", "std::_List_const_iterator::_List_const_iterator"):
            it = self.itval(s, A[1]) if len(A) > 1 else None
            self.setit(s, A[0], it); yield None, env, s; return
        if b in ("std::_List_iterator::operator=", "std::_List_const_iterator::operator="):
            self.setit(s, A[0], self.itval(s, A[1])); yield A[0], env, s; return
        if b == "std::_List_const_iterator::_M_const_cast": yield self.itval(s, A[0]), env, s; return
        if short in ("operator!=", "operator==") and len(A) == 2:
            i, j = self.itval(s, A[0]), self.itval(s, A[1])
            if i and j and i[2] is not None and j[2] is not None and i[1] == j[1]:
                yield ("i", int((i[2] == j[2]) == (short == "operator=="))), env, s; return
            yield None, env, s; return
        if b in ("std::__advance", "std::advance"):
            it = self.itval(s, A[0])
            if it is None: self.setit(s, A[0], None); yield None, env, s; return
            for t, q in self.advance(f, x, s, it, A[1]):
                t = t.copy(); self.setit(t, A[0], ("it", it[1], q)); yield None, env, t
            return
        if b in ("std::__distance", "std::distance"):
            i, j = self.itval(s, A[0]), self.itval(s, A[1])
            if i and j and i[1] == j[1] and None not in (i[2], j[2]) and not s.conts[i[1]].opaque:
                if i[2] == j[2]: yield ("i", 0), env, s; return
                s = s.copy()
                if self.index(s, i[1], i[2]) == 0: yield self.position(s, j[1], j[2]), env, s; return
                sy = ("d", s.fresh()); yield self.mk(sy, 0), env, s; return
            sy = ("d", s.fresh())
            yield self.mk(sy, 0), env, s; return
        if b in ("std::vector::size", "std::list::size") :
            sy = ("d", s.fresh()); s = s.copy(); s.facts[(ZERO, sy)] = 0
            yield self.mk(sy, 0), env, s; return
        # other library calls: effects on the object
        env2 = env
        if short not in PURE and A and A[0] is not None and A[0][0] == "addr" and not short.startswith("~"):
            r, q = A[0][1], A[0][2]
            if r == ("this",): self.modify(s := s.copy(), q)
            elif r[0] == "el": env2 = self.assign_el(s := s.copy(), r, None, env)
            elif r[0] == "l": s = s.copy(); self.store(s, A[0], None, env)
        for o, v in list(zip(x["o"], A))[1:]:
            if v is not None and v[0] == "it" and not s.conts[v[1]].opaque and (b.startswith("std::") and any(k in b for k in ("sort", "remove", "reverse", "rotate", "swap", "unique", "move", "copy", "merge", "splice", "fill", "transform"))):
                s = s.copy(); s.conts[v[1]].opaque = "%s is changed by %s" % (".".join(v[1]), b)
        if short in ("at", "operator[]", "operator@[]", "front", "back") and A and A[0] is not None and A[0][0] == "addr":
            yield ("addr", A[0][1], A[0][2] + ("[]",)), env2, s; return
        yield None, env2, s

    def deref(self, f, x, s, it):
        if it is None or it[2] is None: return None
        self.events += 1
        if it[2] == "END":
            self.issue(f, x, "end", "dereferences the end of %s" % ".".join(it[1])); return None
        return ("addr", ("el", it[1], it[2]), ())

    def copy_to(self, dst, ident, src, env, s):
        s = s.copy()
        if dst is None: yield None, env, s; return
        if dst[0] == "fld": dst = ("addr", ("via", dst), ())
        if dst[0] != "addr": yield None, env, s; return
        root, path = dst[1], dst[2]
        if root[0] == "l":
            it = self.itval(s, src) if src is not None and src[0] in ("addr", "it") else None
            self.store(s, dst, it if it is not None else ("copy", ident) if ident is not None else None, env)
            yield dst, env, s; return
        if root[0] == "el" and path == ():
            env = self.assign_el(s, root, ident, env); yield None, env, s; return
        if root[0] == "el": env = self.assign_el(s, root, None, env)
        elif root == ("this",):
            v = self.load(s, src) if src is not None and src[0] == "addr" else None
            self.modify(s, path, v)
        yield None, env, s

    def untouched(self, s, c):
        l = s.conts[c]
        return not l.opaque and l.cur == l.orig and all(s.pc[x][1:] == (None, False, False) for x in l.orig)

    def listop(self, f, x, short, A, env, s, depth):
        # the receiver of an sret result is the second operand
        if x.get("sret"): A = A[1:] + A[:1]
        c = self.cont(A[0]) if A else None
        if c is None:
            r = A[0] if A else None
            k = self.cont(A[1]) if len(A) > 1 else None
            if short in ("list", "operator=") and k is not None and r is not None and r[0] == "addr" and r[1][0] == "l" and self.untouched(s, k):
                s = s.copy(); self.store(s, r, ("snap", k), env); yield None, env, s; return
            if short in PURE or short.startswith("~"):
                if short == "size":
                    sy = ("d", s.fresh()); s = s.copy(); s.facts[(ZERO, sy)] = 0; yield self.mk(sy, 0), env, s; return
                if short in ("front", "back") and r is not None and r[0] == "addr" : yield ("addr", r[1], r[2] + ("[]",)), env, s; return
                yield None, env, s; return
            s = s.copy()
            if r is not None and r[0] == "addr":
                if r[1] == ("this",): self.modify(s, r[2])
                elif r[1][0] == "el": env = self.assign_el(s, r[1], None, env)
                elif r[1][0] == "l": self.store(s, r, None, env)
            yield None, env, s; return
        l = s.conts[c]
        if short == "list" or short.startswith("~"): yield None, env, s; return
        if short in ("operator=", "swap") and len(A) > 1 and self.load(s, A[1]) == ("snap", c):
            s = s.copy(); l = s.conts[c]; l.opaque = None; l.cur = l.orig; l.delta = 0
            for x in l.orig: s.pc[x] = (s.pc[x][0], None, False, False)
            for k in [k for k in s.edges if k[0] == c]: del s.edges[k]
            if short == "swap": self.store(s, A[1], None, env)
            yield None, env, s; return
        if l.opaque: raise Undecided(l.opaque)
        if short in ("begin", "cbegin"):
            for t, q in self.cases_first(s.copy(), c, 0): yield ("it", c, q), env, t
            return
        if short in ("end", "cend"): yield ("it", c, "END"), env, s; return
        if short == "size": yield self.size(s, c), env, s; return
        if short == "empty":
            for t, q in self.cases_first(s.copy(), c, 0): yield ("i", int(q == "END")), env, t
            return
        if short in ("front", "back"):
            g = self.cases_first(s.copy(), c, 0) if short == "front" else self.cases_last(s.copy(), c, len(l.cur))
            self.events += 1
            for t, q in g:
                if q in ("END", "NONE"):
                    self.issue(f, x, "empty", "%s of %s, which may be empty" % (short, ".".join(c))); continue
                yield ("addr", ("el", c, q), ()), env, t
            return
        if short in ("erase", "pop_front", "pop_back"):
            if short == "erase":
                if len(A) > 2: raise Undecided("range erase")
                its = [(s.copy(), self.itval(s, A[1]))]
            elif short == "pop_front": its = [(t, ("it", c, q)) for t, q in self.cases_first(s.copy(), c, 0)]
            else: its = [(t, ("it", c, q)) for t, q in self.cases_last(s.copy(), c, len(l.cur))]
            for t, it in its:
                if it is None or it[2] is None: raise Undecided("erase at an unknown place")
                self.events += 1
                if it[2] in ("END", "NONE"):
                    self.issue(f, x, "end", "erases the end of %s" % ".".join(c)); continue
                t = t.copy(); nxt = self.erase(t, c, it[2])
                if nxt == "END" or t.pc[nxt][0] == "E": yield ("it", c, nxt), env, t; continue
                for u, q in self.cases_first(t, c, self.index(t, c, nxt)): yield ("it", c, q), env, u
            return
        if short in ("insert", "push_back", "push_front", "emplace"):
            if short == "insert" and len(A) > 3: raise Undecided("range insert")
            at = self.itval(s, A[1]) if short in ("insert", "emplace") else ("it", c, "END") if short == "push_back" else None
            src = A[2] if short in ("insert", "emplace") else A[1]
            s = s.copy()
            if short == "push_front": its = list(self.cases_first(s, c, 0))
            else:
                if at is None or at[2] is None: raise Undecided("insert at an unknown place")
                its = [(s, at[2])]
            for t, q in its:
                t = t.copy(); idn = self.ident_of(t, src) if short != "emplace" else None
                pid = self.insert(t, c, q, idn)
                yield ("it", c, pid), env, t
            return
        if short == "clear":
            s = s.copy(); l = s.conts[c]
            l.cur = (); l.delta = None
            for k in [k for k in s.edges if k[0] == c]: del s.edges[k]
            yield None, env, s; return
        s = s.copy(); s.conts[c].opaque = "%s is changed by %s" % (".".join(c), short)
        yield None, env, s

    def repo_call(self, f, x, g, A, env, s, depth):
        p = self.p
        if x.get("sret") or (g.args and g.args[0].get("sret")):
            if A and A[0] is not None: s = s.copy(); env = self.store(s, A[0], None, env)
        if p.is_copy(g) and len(A) == 2:
            yield from self.copy_to(A[0], self.ident_of(s, A[1]), A[1], env, s); return
        if p.is_dtor(g): yield None, env, s; return
        isthis = g.method and A and A[0] is not None and A[0][0] == "addr" and A[0][1] == ("this",)
        small = len(g.blocks) <= 2 and sum(len(b) for b in g.blocks) <= 8
        if p.is_ctor(g):
            if A and A[0] is not None and A[0][0] == "addr":
                s = s.copy(); env = self.store(s, A[0], None, env)
            yield None, env, s; return
        if isthis and (not g.const or self.relevant(g)) or (small and not x.get("sret")):
            args = {a["id"]: v for a, v in zip(g.args, A)}
            self.stack.append(env)
            try: rs = self.run(g, args, s.copy(), depth + 1)
            finally: self.stack.pop()
            # results that replaced elements renamed nothing in our env: values are looked up through the state
            for v, t in rs: yield v, self.fix(env, t), t
            return
        if g.method and not g.const and A and A[0] is not None and A[0][0] == "addr":
            s = s.copy(); r = A[0][1]
            if r[0] == "el": env = self.assign_el(s, r, None, env)
            elif r == ("this",): self.modify(s, A[0][2])
            elif r[0] == "l": self.store(s, A[0], None, env)
        for a, v in list(zip(g.args, A))[1 if g.method else 0:]:
            if v is not None and v[0] == "addr" and v[1][0] == "l":
                t = dfa.argtype(g, a["name"]) or ""
                if not t.startswith("const") and ("&" in t or "*" in t): s = s.copy(); self.store(s, v, None, env)
            if v is not None and v[0] == "addr" and v[1] == ("this",):
                t = dfa.argtype(g, a["name"]) or ""
                if not t.startswith("const") and ("&" in t or "*" in t): s = s.copy(); self.modify(s, v[2])
        yield self.opaque_result(g, x, s), env, s

    def opaque_result(self, g, x, s):
        return None
    def fix(self, env, t):
        """drop values that speak of elements the callee replaced or erased"""
        ids = set(t.pc)
        def bad(v):
            out = []
            def fn(y):
                if y[:1] == ("el",) and len(y) == 3 and y[2] not in ids: out.append(1)
                if y[:1] == ("it",) and len(y) == 3 and not isinstance(y[2], str) and y[2] is not None and y[2] not in ids: out.append(1)
                if y[:1] == ("o",) and len(y) == 2 and y[1] not in ids: out.append(1)
            walk(v, fn); return bool(out)
        return {k: (None if v is not None and bad(v) else v) for k, v in env.items()}

    def relevant(self, g):
        """does a const method look at the containers (others are answered with an unknown value)"""
        r = self.rel_memo.get(g.name)
        if r is None:
            self.rel_memo[g.name] = False
            r = False
            for bi, x in g.insts():
                if x["op"] == "call" and isinstance(x["f"], str):
                    h = self.p.funcs.get(x["f"])
                    if h is None:
                        if dfa.base(self.p, x).startswith("std::list::"): r = True; break
                    elif h.method and h.const and self.relevant(h): r = True; break
                elif x["op"] == "ret": pass
            if len(g.blocks) <= 3: r = True
            self.rel_memo[g.name] = r
        return r

    def explore(self, f):
        """[(return value, final state)] of a public function"""
        self.stack = []; self.rel_memo = getattr(self, "rel_memo", {})
        args = {}
        for a in f.args:
            args[a["id"]] = ("addr", ("this",), ()) if a["name"] == "this" else None if a.get("sret") else ("addr", ("arg", a["name"]), ()) if a["ty"] == "ptr" else ("fld", ("arg", a["name"]), ())
        return self.run(f, args, self.initial(), 0)

_al = {}
def alloca_live(f):
    """block -> allocas whose content may still be read (whole overwrites end a life)"""
    r = _al.get(id(f))
    if r is not None: return r
    al = {x["id"] for bi, x in f.insts() if x["op"] == "alloca"}
    n = len(f.blocks); gen = [set() for _ in range(n)]; kill = [set() for _ in range(n)]
    der = {}                                     # value -> (alloca, whole?)
    aty = {x["id"]: x.get("aty", "") for bi, x in f.insts() if x["op"] == "alloca"}
    esc = set()
    for b in range(n):
        for x in f.blocks[b]:
            if x["op"] == "getelementptr" and x["o"][0][0] == "v" and (x["o"][0][1] in al or x["o"][0][1] in der):
                a, w = der.get(x["o"][0][1], (x["o"][0][1], True))
                der[x["id"]] = (a, w and "iterator" in aty[a])
    def ref(o):
        if isinstance(o, list) and o and o[0] == "v":
            if o[1] in al: return (o[1], True)
            return der.get(o[1])
        return None
    for b in range(n):
        for x in f.blocks[b]:
            if x["op"] == "getelementptr": continue
            os = x.get("o", [])
            for k, o in enumerate(os):
                t = ref(o)
                if t is None: continue
                a, w = t
                if x["op"] == "store" and k == 1:
                    if w and ("iterator" in aty[a] or aty[a] in ("i1", "i8", "i32", "i64", "double", "ptr")):
                        if a not in gen[b]: kill[b].add(a)
                        continue
                    if a not in kill[b]: gen[b].add(a)
                elif x["op"] == "call" and k == 0 and w and isinstance(x["f"], str) and (x.get("sret") or x["f"].startswith("llvm.memcpy") or is_ctor_name(f.p, x)):
                    if o[1] in al or "iterator" in aty[a]:
                        if a not in gen[b]: kill[b].add(a)
                else:
                    if x["op"] in ("store", "phi", "select", "ret", "icmp"): esc.add(a)
                    if a not in kill[b]: gen[b].add(a)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in f.succ[b]: o |= live[s]
            new = gen[b] | (o - kill[b]) | esc
            if new != live[b]: live[b] = new; ch = True
    _al[id(f)] = live
    return live
def is_ctor_name(p, x):
    g = p.funcs.get(x["f"])
    if g is not None: return p.is_ctor(g)
    b = dfa.base(p, x).split("::")
    return len(b) > 1 and b[-1] == b[-2]

KEYS = {("Alignment", "points_"): ("station",), ("TransmissionLine", "line_structures_"): ("station_",), ("LineCable", "connections_"): ("line_structure", "*", "station_")}
NONNULL = {("connections_", ("line_structure",))}

def written_by_const(p, cls):
    out = set()
    for f, m, c in p.methods_of(cls):
        if not f.const: continue
        for bi, x in f.insts():
            if x["op"] == "store":
                r, q = dfa.addr(f, x["o"][1])
                if r == ("arg", "this") and q: out.add(q[0])
            elif x["op"] == "call" and x["o"] and isinstance(x["f"], str):
                r, q = dfa.addr(f, x["o"][0])
                if r == ("arg", "this") and q and dfa.base(p, x).split("::")[-1] not in PURE: 
                    g = p.funcs.get(x["f"])
                    if g is None or not g.const: out.add(q[0])
    return out
