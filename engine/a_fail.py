"""C02: a failed computation is never presented as a result (see cache.py)."""
import a_fresh

def analyse(p, res, thorough):
    r = a_fresh.results(p)
    a_fresh.summary(res, r)
    for c in sorted(r):
        x = r[c]
        bad = [(k, where, flags, path) for k, where, flags, path, cells in x["reports"] if k[0] == "failed"]
        res.oblige(x["failed"] - len(bad), True)
        if bad: res.oblige(len(bad), False)
        for k, where, flags, path in bad:
            res.violate("failed:%s::%s" % (c, k[1]), where, "%s::%s can answer from remembered cells although the last update failed and no input changed (flags %s=%s)" % (c, k[1], ",".join(x["flags"]), flags), path=["reached by " + " -> ".join(path)])
        if len(res.samples) < 20: res.samples.append("%s: %d outcomes of queries after a failed update" % (c, x["failed"]))
