"""P07: one model, several solvers (Solvers.tla)."""
import random

import gensim
import simcheck
from sim import lit
from vplib import Check, run_driver, seed, tier, tlc_cases

ALL = ["AggregatedNode", "AggregatedNodeFactors", "AggregatedNodeDynamicFactors", "MutualExclusivity", "VirtualStorage"]
CAN = {"highs": ALL, "microlp": ALL, "ipm": []}
EXACT = {"highs", "microlp"}
TOL = {"highs": 2, "microlp": 2, "ipm": 20}
FEATS = ["vary store scen", "vary store scen min", "vary store scen big", "vary store scen state", "vary store scen min state infeasible", "vary scen store",
         "vary store scen agg min", "vary store scen rel", "vary scen excl", "vary store scen vs", "vary store scen agg rel vs big", "vary min scen agg infeasible"]


def set_cost(c, i, v):
    n = c.nodes[i - 1]
    n["cost"] = lit(v)
    next(j for j in c.jn if j["meta"]["name"] == n["name"])["cost"] = c.mj(n["cost"])


def unique(c, rng):
    """costs that leave one least-cost allocation"""
    N = len(c.nodes)
    sign = lambda i: -1 if c.nodes[i]["k"] == "out" and rng.random() < 0.85 else rng.choice([-1, 1, 1])
    if c.pure and N <= 12:
        # sums of distinct powers of two: no way round costs nothing, and none costs less than an eighth
        p = [125 << k for k in range(N)]
        rng.shuffle(p)
        for i in range(N):
            set_cost(c, i + 1, sign(i) * p[i])
        return True
    for i in range(N):
        set_cost(c, i + 1, sign(i) * rng.randint(1, 14999))
    return False


def build(rng, cid, k):
    feat = FEATS[k % len(FEATS)].split()
    c = gensim.Gen(rng, cid, set(feat)).build()
    c.unique, c.gap = False, False
    if rng.random() < 0.6 and c.expect != "refused":
        c.unique = True
        c.gap = unique(c, rng)
    return c


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = 180 if tier() == "quick" else 2400
    cs = [build(random.Random(rng.random()), "%s-%d" % (pid, k), k) for k in range(n)]
    runs = [{"tag": s, "solver": s, "mode": "run"} for s in ("highs", "microlp", "ipm")]
    tr = run_driver([c.driver(runs) for c in cs], chk.work)
    sp = []
    for c in cs:
        t = tr.get(c.id)
        chk.cases[c.id] = c.driver(runs)
        if t is None or t["status"] != "ok":
            chk.reject({"case": c.id, "what": "the case did not build", "got": t and (t["status"], t.get("error"))})
            continue
        ex = []
        for r in t["runs"]:
            s = r["tag"]
            e = {"tag": s, "tol": TOL[s], "exact": s in EXACT, "nomin": s == "ipm", "can": CAN[s], "end": "ok", "ft": 0, "obs": [], "wit": []}
            if r["status"] == "ok":
                e["obs"] = c.observed(r)
                if e["obs"] is None:
                    chk.reject({"case": c.id, "what": "the run did not record every step of every scenario", "got": s})
                    continue
                chk.count("completed by " + s)
            elif r["status"] in ("error", "setup_error"):
                if "features" in str(r.get("error")) or r["status"] == "setup_error":
                    e["end"] = "refused"
                    chk.count("refused by " + s)
                else:
                    e["obs"], fail = simcheck.partial(c, r)
                    if fail is None and s == "ipm":
                        chk.count("not converged " + str(r.get("error"))[:120])
                        continue
                    if fail is None:
                        chk.reject({"case": c.id, "what": "the run failed", "got": [s, r["status"], str(r.get("error"))[:300]]})
                        continue
                    e["end"], e["ft"] = "stopped", fail["t"]
                    chk.count("stopped by " + s)
                    if s == "ipm":
                        chk.count(str(r.get("error"))[-120:])
            else:
                d = {"case": c.id, "what": "the run failed", "got": [s, r["status"], str(r.get("error"))[:300]]}
                if s == "ipm" and str(r.get("error")).startswith(("NaN encountered during IPM solve", "Interior point method failed to converge")):
                    d["known"] = "ipm-panics-when-not-converging"
                    chk.count("ipm did not converge")
                chk.reject(d)
                continue
            ex.append(e)
        o = c.spec([])
        o.update(execs=ex, unique=c.unique, gap=c.gap, ns=len(c.scens()))
        sp.append(o)
    res = tlc_cases("TraceSolv", sp, chk.work, 6, weight=lambda s: sum(len(y) for e in s["execs"] for y in e["obs"]) * (len(s["nodes"]) + len(s["edges"])))
    chk.add(res)
    want = sum(s["ns"] * 2 + sum(len(y) for y in e["obs"]) for s in sp for e in s["execs"])
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.traces += sum(len(e["obs"]) for s in sp for e in s["execs"])
    chk.samples = [{"case": c.id, "nodes": len(c.nodes), "edges": len(c.edges), "steps": c.nt, "scenarios": len(c.scens()), "unique optimum": c.unique} for c in cs[:3]]
    return chk.finish()
