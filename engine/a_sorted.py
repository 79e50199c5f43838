"""C13: stationed collections stay sorted with unique stations (lists.py)."""
import a_list, lists

def analyse(p, res, thorough):
    rs = [r for r in a_list.results(p) if r["job"][2] is not None and not p.funcs[r["job"][1]].const]
    keyed = [r for r in rs if lists.Machine(p, r["job"][0]).conts.get(r["job"][2]) is not None]
    res.coverage.update({"operations": len(keyed), "exits": sum(r["exits"] for r in keyed), "block_evaluations": sum(r["steps"] for r in keyed), "undecided": 0})
    for r in keyed:
        c = ".".join(r["job"][2])
        if r["undecided"] or (r["undec"] and not r["order"]):
            res.coverage["undecided"] += 1
            res.samples.append("undecided %s on %s: %s" % (r["name"], c, r["undecided"] or sorted(r["undec"])[0])); continue
        bad = sorted({w for _, w in r["order"]})
        res.oblige(r["exits"] - len(r["order"]), True)
        if bad: res.oblige(len(r["order"]), False)
        for w in bad[:1]: res.violate("order:%s:%s" % (r["name"], c), r["where"], "%s can leave %s unsorted: %s" % (r["name"], c, w))
        if len(res.samples) < 20: res.samples.append("%s on %s: %d exits ordered" % (r["name"], c, r["exits"]))
