"""C14: a refused modification changes nothing (lists.py)."""
import a_list

def analyse(p, res, thorough):
    rs = [r for r in a_list.results(p) if a_list.refuses(p, r)]
    res.coverage.update({"operations": len({r["name"] for r in rs}), "refusing_exits": sum(r["nref"] for r in rs), "block_evaluations": sum(r["steps"] for r in rs), "undecided": 0})
    for r in rs:
        c = ".".join(r["job"][2] or ("members",))
        if r["undecided"] or (r["undec"] and not r["refused"]):
            res.coverage["undecided"] += 1
            res.samples.append("undecided %s on %s: %s" % (r["name"], c, r["undecided"] or sorted(r["undec"])[0])); continue
        bad = sorted(set(r["refused"]))
        res.oblige(r["nref"] - min(r["nref"], len(r["refused"])), True)
        if bad: res.oblige(min(r["nref"], len(r["refused"])), False)
        for w in bad[:2]: res.violate("refused:%s:%s" % (r["name"], w), r["where"], "%s can report failure although %s" % (r["name"], w))
        if len(res.samples) < 20: res.samples.append("%s on %s: %d refusing exits leave it unchanged" % (r["name"], c, r["nref"]))
