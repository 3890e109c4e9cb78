"""Checks on simulation traces (properties decided by Simulation.tla)."""
import random

import fullyear
import composite
import genpar
import gensim
import histories
import rival
from sim import localise, relay, rename, rescale
from vplib import Check, run_driver, seed, tier, tlc_cases


def witnesses(case, obs, only_nonpure=True):
    """Rival flows for every step of every scenario."""
    if hasattr(case, "flows"):
        return case.flows
    if case.pure and only_nonpure:
        return []
    T = case.times()
    out = []
    for so in obs:
        row = []
        for t, o in enumerate(so):
            w = rival.solve(case, o["b"], T[t], margin=0.0)
            row.append(w or [])
        out.append(row)
    return out


def validate(chk, cases, runs=None, wit=True, chunks=6, module="TraceSim", drivers=None, traces=None):
    """drivers, traces: the cases in another form, and what the program did with them"""
    drivers = drivers or {c.id: rename(localise(relay(rescale(c.driver(runs))))) for c in cases}
    traces = traces or run_driver([drivers[c.id] for c in cases], chk.work)
    sp = []
    for c in cases:
        tr = traces.get(c.id)
        if "unit" in drivers[c.id]:
            chk.count("in other units")
        chk.cases[c.id] = drivers[c.id]
        if tr is None or tr["status"] != "ok":
            chk.reject({"case": c.id, "what": "the case did not build", "got": tr and (tr["status"], tr.get("error"))})
            continue
        for run in tr["runs"]:
            take_run(chk, c, run, sp, wit, len(tr["runs"]) > 1)
    if sp:
        res = tlc_cases(module, sp, chk.work, chunks, weight=lambda s: len(s["obs"]) * (len(s["obs"][0]) if s["obs"] else 1) * (len(s["nodes"]) + len(s["edges"])))
        chk.add(res)
        want = sum(sum(len(so) + (2 if s["fail"]["t"] else 1) for so in s["obs"]) for s in sp)
        if not chk.rejects and not res.rejects and res.distinct != want:
            raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
        chk.traces += sum(len(s["obs"]) for s in sp)
        return res


def take_run(chk, c, run, sp, wit, multi):
    if run["status"] == "ok":
        obs = c.observed(run)
        if obs is None:
            chk.reject({"case": c.id, "what": "the run did not record every step of every scenario", "got": run["tag"]})
            return
        s = c.spec(obs, witnesses(c, obs) if wit else None)
        chk.count("runs completed")
    else:
        obs, fail = partial(c, run)
        if c.expect == "refused" and run["status"] in ("error", "setup_error") and fail is None:
            chk.count("refused when set up")
            return
        if fail is None or run["status"] == "panic":
            chk.reject({"case": c.id, "what": "the run failed", "got": [run["status"], str(run.get("error"))[:300]]})
            return
        s = c.spec(obs, [[[] for _ in so] for so in obs])
        s["fail"] = fail
        chk.count("runs stopped as infeasible")
    if multi:
        s["id"] = c.id + "/" + run["tag"]
        chk.cases[s["id"]] = chk.cases[c.id]
    sp.append(s)


def partial(c, run):
    """A run that stopped: the completed steps, and the state in which each scenario was when it stopped."""
    o = run.get("obs", {}).get("", {})
    A = {(x["t"], x["s"]): x["v"] for x in o.get("after", [])}
    B = {(x["t"], x["s"]): x["v"] for x in o.get("before", [])}
    ns = len(c.scens())
    tf = 0
    while all((tf, s) in A and (tf, s) in B for s in range(ns)):
        tf += 1
    und = any(p["un"] for p in c.pars)
    if (max([t for t, _ in B], default=-1) < tf and not und) or tf >= c.nt:
        return [], None
    # the step tf failed: after values exist for steps before it
    obs = []
    for s in range(ns):
        row = []
        for t in range(tf):
            if (t, s) not in A or (t, s) not in B:
                return [], None
            row.append({"b": c.decode(B[(t, s)], "b"), "a": c.decode(A[(t, s)], "a")})
        obs.append(row)
    T = c.times()
    w = []
    for s in range(ns):
        if (tf, s) in B:
            b = c.decode(B[(tf, s)], "b")
            w.append({"b": b, "w": rival.solve(c, b, T[tf], margin=20.0) or []})
    return obs, {"t": tf + 1, "st": w, "u": und}


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = (500 if pid in genpar.PIDS else 200) if tier() == "quick" else 4000
    cs = (genpar if pid in genpar.PIDS else gensim).cases(pid, rng, n)
    if pid in ("P09", "P18"):
        cs += fullyear.cases(pid)
    validate(chk, cs)
    if pid in histories.PIDS:
        histories.validate(chk, pid)
    if pid in composite.HOLDS:
        composite.parts(chk, pid)
    chk.samples = [{"case": c.id, "nodes": len(c.nodes), "edges": len(c.edges), "steps": c.nt, "scenarios": len(c.scens())} for c in cs[:3]]
    return chk.finish()


if __name__ == "__main__":
    import sys
    sys.exit(main(sys.argv[1]))
