"""C04: every path of every Validate keeps verdict and messages in agreement."""
from absint import Engine, State, Ctx, EMPTY
MSG = (("MSG",),)
def has_messages(f):
    return any("list<ErrorMessage" in t and t.endswith("*") for t in f.types[1:])
def msg_index(f):
    sh = 1 if any(a["sret"] for a in f.args) else 0
    for i, t in enumerate(f.types[1:]):
        if "list<ErrorMessage" in t and t.endswith("*"): return i + sh
    return None
def validators(prog):
    return sorted((f for f in prog.funcs.values() if f.ret == "bool" and has_messages(f)), key=lambda f: f.name)
def is_public(prog, f):
    m = prog.access_of(f)
    return (m is None and not f.cls) or (m is not None and m["access"] == "public")

class ValEngine(Engine):
    """aux = (pushed?, where the deciding event happened)"""
    def __init__(self, prog, root, **kw):
        super().__init__(prog, **kw); self.root = root; self.nested = set(); self.pushes = set()
    def aux_key(self, aux): return aux[0]
    def aux_join(self, a, b): return a if a[1] <= b[1] else b
    def on_call(self, st, cal, args, x, ctx): return self.handle(st, cal, args, x, ctx)
    def on_call_t(self, st, cal, args, targs, x, ctx): return self.handle(st, cal, args, x, ctx)
    def handle(self, st, cal, args, x, ctx):
        if cal.ret == "bool" and has_messages(cal) and (is_public(self.p, cal)):
            self.nested.add((ctx.fn.name, x["id"]))
            i = msg_index(cal); a = args[i] if i < len(args) else None
            s2 = st.copy(); loc = "%s %s" % (ctx.fn.where(x), cal.short)
            if a == ("p", MSG): s2.aux = (1, loc)
            elif a is not None and a[0] in ("k", "p"): s2.aux = (st.aux[0], loc) if not st.aux[0] else st.aux
            else:
                s3 = st.copy(); s3.aux = (1, loc)
                return [(("t", 1), EMPTY, st), (("t", 0), EMPTY, s2), (("t", 0), EMPTY, s3)]
            return [(("t", 1), EMPTY, st), (("t", 0), EMPTY, s2)]
        inl = any(a == ("p", MSG) for a in args)
        if not inl:
            for a in args:
                if a is not None and a[0] == "p" and a[1][0][0] == "a":
                    v = st.mem.get(a[1])
                    if v is not None and v[0] == "t": inl = True
        if inl: return None
        # anything else cannot touch verdict or messages: its result is unknown
        return [(None, EMPTY, st)]
    def resolve_virtual(self, st, fn, x, ctx): return None
    def on_mutate(self, st, cont, leaf, args, x, ctx):
        if cont == MSG and leaf not in ("clear", "erase", "pop_back"):
            st.aux = (1, ctx.fn.where(x)); self.pushes.add((ctx.fn.name, x["id"]))

def analyse(prog, res, thorough):
    vs = validators(prog); npush = set(); nnest = set(); nexits = 0
    for f in vs:
        if not is_public(prog, f): continue
        for mode in ("list", "nolist"):
            e = ValEngine(prog, f, taint=(mode == "nolist"))
            st = State(); st.aux = (0, "")
            args = []; targs = []
            mi = msg_index(f)
            for i, a in enumerate(f.args):
                if i == mi: args.append(("p", MSG) if mode == "list" else ("s", ("arg", a["name"]))); targs.append(frozenset(["messages"]))
                elif a["ty"] == "ptr": args.append(("p", (("arg", a["name"]),))); targs.append(EMPTY)
                else: args.append(("s", ("arg", a["name"]))); targs.append(EMPTY)
            outs = e.run(f, args, st, Ctx(f), targs if mode == "nolist" else None)
            npush |= e.pushes; nnest |= e.nested
            if mode == "list":
                for v, t, s in outs:
                    for truth in (True, False):
                        s2 = s.copy()
                        if not e.assume(s2, v, truth): continue
                        nexits += 1
                        ok = truth != bool(s2.aux[0])
                        res.oblige(1, ok)
                        if not ok and truth:
                            res.violate("C04:%s:message-but-true" % f.short, s2.aux[1].split(" ")[0], "%s can return true although a problem was reported (at %s)" % (f.short, s2.aux[1]))
                        elif not ok:
                            res.violate("C04:%s:false-without-message" % f.short, (s2.aux[1] or f.where()).split(" ")[0], "%s can return false without reporting any message%s" % (f.short, " (failing: %s)" % s2.aux[1] if s2.aux[1] else ""))
            else:
                bad = [1 for v, t, s in outs if "messages" in t]
                res.oblige(1, not bad)
                if bad: res.violate("C04:%s:depends-on-list" % f.short, f.where(), "the verdict of %s depends on whether a message list is supplied" % f.short)
        if len(res.samples) < 12: res.samples.append({"validator": f.dem, "exits": len(outs)})
    res.coverage.update({"validators": len(vs), "public_validators": sum(1 for f in vs if is_public(prog, f)), "message_sites": len(npush), "nested_validation_calls": len(nnest), "exit_states": nexits})
