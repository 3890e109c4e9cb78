"""Executions of a model: P11 (scenarios are independent of how they are run) and P25 (stepping and re-running),
decided by Lifecycle.tla."""
import copy
import itertools
import os
import random

import genpar
import gensim
import multi
import outputs
import plans as every
from vplib import Check, run_driver, seed, tier, tlc_cases


def sub_scenarios(groups, rng):
    """Variants of the scenarios of a model: subsets and listed combinations. Returns (scenarios JSON)."""
    g = copy.deepcopy(groups)
    for x in g:
        x.pop("subset", None)
    everything = list(itertools.product(*[range(x["size"]) for x in g]))
    if rng.random() < 0.5:
        for x in g:
            if rng.random() < 0.7:
                ks = sorted(rng.sample(range(x["size"]), rng.randint(1, x["size"])))
                if ks == list(range(ks[0], ks[-1] + 1)) and rng.random() < 0.5:
                    x["subset"] = {"type": "Slice", "start": ks[0], "end": ks[-1] + 1}
                else:
                    x["subset"] = {"type": "Indices", "indices": ks}
        return {"groups": g}
    pick = rng.sample(everything, rng.randint(1, len(everything)))
    return {"groups": g, "combinations": [list(x) for x in pick]}


def plans(rng, nt):
    out = []
    a = rng.randint(0, nt)
    out.append([{"steps": a}, {"run": True}])
    out.append([{"steps": nt + rng.randint(1, 3)}])
    out.append([{"run": True}, {"steps": 1}, {"run": True}])
    if nt > 2:
        b = rng.randint(1, nt - 1)
        out.append([{"steps": b}, {"steps": rng.randint(1, nt)}])
        out.append([{"steps": 1}] * nt + [{"run": True}])
    return out


def spec_ops(run):
    if run.get("mode") != "plan":
        return [{"op": "whole", "n": 0}]
    return [{"op": "steps", "n": o["steps"]} if "steps" in o else {"op": "run", "n": 0} for o in run["plan"]]


def base_case(k, rng, pid, work):
    """A random model: (driver case without runs, number of steps, scenario groups, kind, can the multi-scenario solver take it)"""
    x = rng.random()
    cid = "%s-%d" % (pid, k)
    if x < 0.45:
        q = rng.choice(sorted(gensim.FEATS))
        feat = set(rng.choice(gensim.FEATS[q]).split()) - {"infeasible"} | {"scen"}
        c = gensim.Gen(random.Random(rng.random()), cid, feat).build()
        d = c.driver([])
        return d, c.nt, [dict(g) for g in c.groups], "sim", c.pure and not feat & {"excl", "agg", "rel", "vs"}
    if x < 0.75:
        c = genpar.cases(rng.choice(["P15", "P16", "P18", "P19", "P17"]), rng, 1)[0]
        c.id = cid
        d = c.driver([])
        return d, c.nt, [dict(g) for g in c.groups], "par", False
    if x < 0.85 and pid == "P25" or x < 0.8:
        s, d = multi.make(cid, rng)
        return d, s["nt"], s["groups"], "multi", not any(i["k"] == "vol" for n in s["nets"] for i in n["items"])
    s, d = outputs.make(cid, rng, work)
    return d, s["nt"], (d["model"].get("scenarios") or {}).get("groups", []), "out", True


def runs_of(pid, rng, d, nt, kind, ipm):
    files = (d.get("runs") or [{}])[0].get("files", [])
    mk = lambda tag, **k: dict({"tag": tag, "solver": "highs", "files": files}, **k)
    rs = [mk("first")]
    if pid == "P25":
        rs.append(mk("again"))
        for i, p in enumerate(rng.sample(plans(rng, nt), 2 if nt <= 2 else 3)):
            # in a multi-network model the plan needs the timings of a preliminary run
            rs.append(mk("plan%d" % i, mode="plan", plan=p, threads=rng.choice([0, 0, 0, 2])))
        rs.append(mk("once more"))
    else:
        rs.append(mk("threads2", threads=2))
        rs.append(mk("threads5", threads=rng.choice([3, 5, 8])))
        if kind != "multi":
            rs.append(mk("threads plan", threads=rng.choice([2, 4]), mode="plan", plan=[{"steps": rng.randint(1, nt)}, {"run": True}]))
        if ipm:
            rs.append(mk("ipm", solver="ipm"))
            rs.append(mk("ipm threads", solver="ipm", threads=3))
    return rs


def table(run, nt, ns):
    """obs[s][t]: the values of all networks; [] where nothing happened"""
    nets = sorted(run["obs"])
    A = {n: {(x["t"], x["s"]): x["v"] for x in run["obs"][n]["after"]} for n in nets}
    extra = {k for n in nets for k in A[n] if k[0] >= nt or k[1] >= ns}
    out = []
    for s in range(ns):
        row = []
        for t in range(nt):
            v = []
            for n in nets:
                v += A[n].get((t, s), [])
            row.append(v)
        out.append(row)
    return out, extra


def results(run):
    out = []
    for net in sorted(run.get("results") or {}):
        for rec in sorted(run["results"][net]):
            r = run["results"][net][rec]
            out.append("%s %s %s" % (net, rec, sorted(r["agg"].items(), key=lambda x: x[0])))
            for y in r["rows"]:
                out.append("|".join(str(y[k]) for k in ("ts", "te", "sim", "label", "set", "name", "attr", "v")))
    for f in sorted(run.get("files") or {}):
        out += ["%s: %s" % (f, line) for line in run["files"][f].splitlines()]
    return out


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = 150 if tier() == "quick" else 1500
    cs, drv = [], []
    for k in range(n):
        d, nt, groups, kind, ipm = base_case(k, rng, pid, chk.work)
        runs = runs_of(pid, rng, d, nt, kind, ipm)
        d = dict(d, id="%s-%d" % (pid, k), runs=runs)
        subs = []
        if pid == "P11" and groups:
            for i in range(2):
                e = copy.deepcopy(d)
                e["id"] = "%s.%d" % (d["id"], i)
                e["multi" if "multi" in e else "model"]["scenarios"] = sub_scenarios(groups, rng)
                e["runs"] = [dict(runs[0], tag="subset%d" % i)] + ([dict(runs[-1], tag="subset%d ipm" % i)] if ipm else [])
                if e.get("dir"):
                    e["dir"] += ".%d" % i
                    os.makedirs(e["dir"])
                subs.append(e)
            for g in (d.get("multi") or d["model"])["scenarios"]["groups"]:
                g.pop("subset", None)
        cs.append((d, nt, kind, subs, None))
        drv += [d] + subs
    if pid == "P25":
        more = [(d, nt, "plans", [], proj) for d, nt, proj in every.executions(chk, pid)]
    else:
        more = []
        for d, nt, scens, thr in every.selections(pid):
            subs = []
            for i, sc in enumerate(scens):
                e = copy.deepcopy(d)
                e["id"] = "%s.%d" % (d["id"], i)
                e["model"]["scenarios"] = sc
                t = thr[i % len(thr)]
                e["runs"] = [{"tag": "selection%d threads %d" % (i, t), "solver": "highs", "threads": t}]
                subs.append(e)
            more.append((d, nt, "plans", subs, None))
            chk.count("selections of scenarios", len(subs))
    cs += more
    for d, nt, kind, subs, proj in more:
        drv += [d] + subs
    tr = run_driver(drv, chk.work)
    sp = []
    for d, nt, kind, subs, proj in cs:
        chk.cases[d["id"]] = [d] + subs
        t = tr[d["id"]]
        if t["status"] != "ok":
            chk.reject({"case": d["id"], "what": "the case did not build", "got": (t["status"], str(t.get("error"))[:300])})
            continue
        first = t["runs"][0]
        if first["status"] != "ok":
            # an infeasible model stops in every execution
            if first["status"] == "panic":
                chk.reject({"case": d["id"], "what": "the run failed", "got": str(first.get("error"))[:300]})
            chk.count("models that stop")
            for r in t["runs"][1:]:
                if r["status"] == "ok" and r["tag"][:3] != "ipm":
                    plan = next(x for x in d["runs"] if x["tag"] == r["tag"])
                    if plan.get("mode") != "plan" or any("run" in o for o in plan["plan"]) or sum(o.get("steps", 0) for o in plan["plan"]) >= nt:
                        chk.reject({"case": d["id"], "what": "a model that stops with an error stops in every execution", "got": r["tag"]})
            continue
        keys = {tuple(s["schema"]): i + 1 for i, s in enumerate(t["scens"])}
        o = {"id": d["id"], "nt": nt, "execs": []}
        todo = [(d, t)] + [(e, tr[e["id"]]) for e in subs]
        for e, te in todo:
            if te["status"] != "ok":
                chk.reject({"case": e["id"], "what": "the subset did not build", "got": (te["status"], str(te.get("error"))[:300])})
                continue
            for spec, r in zip(e["runs"], te["runs"]):
                if r["status"] != "ok":
                    if spec["solver"] == "ipm" and kind == "sim":
                        chk.count("not solved by the interior point method")
                        continue
                    chk.reject({"case": e["id"], "what": "the execution failed", "got": [r["tag"], r["status"], str(r.get("error"))[:300]]})
                    continue
                tracks = proj[e["runs"].index(spec)] if proj else [(0, spec_ops(spec))]
                for on, ops in tracks:
                    x = r["states"][on] if "states" in r else r
                    tag = r["tag"] if len(tracks) == 1 else "%s, set-up %d" % (r["tag"], on)
                    ob, extra = table(x, nt, len(te["scens"]))
                    if extra:
                        chk.reject({"case": e["id"], "what": "only the steps and scenarios of the model take place", "got": [tag, sorted(extra)[:3]]})
                    o["execs"].append({"tag": tag, "prop": pid, "key": [keys.get(tuple(s["schema"]), 0) for s in te["scens"]], "ops": ops, "log": x.get("log", []),
                                       "obs": ob, "res": results(dict(x, files=r.get("files"))), "nores": e is not d or spec["solver"] == "ipm", "tol": 0, "ipm": spec["solver"] == "ipm"})
                    if 0 in o["execs"][-1]["key"]:
                        raise SystemExit("unknown scenario in %s" % e["id"])
                    chk.count("executions")
                    chk.traces += len(te["scens"])
        # the interior point method has its own trajectories: one case for each kind of solver
        ip = [x for x in o["execs"] if x.pop("ipm")]
        if ip and len(ip[0]["key"]) < len(t["scens"]):
            # only a subset was solved: there is nothing to compare it with
            chk.count("not compared with the whole model")
            o["execs"] = [x for x in o["execs"] if x not in ip]
        elif ip:
            # scenarios are solved side by side until all of them have converged: equal up to the method's tolerance
            for x in ip:
                x["tol"] = 10
            sp.append({"id": d["id"] + "/ipm", "nt": nt, "execs": ip})
            chk.cases[d["id"] + "/ipm"] = chk.cases[d["id"]]
            o["execs"] = [x for x in o["execs"] if x not in ip]
        sp.append(o)
    w = lambda o: sum(len(e["ops"]) + nt_(o) + 2 for e in o["execs"])
    res = tlc_cases("TraceLife", sp, chk.work, weight=lambda o: sum(len(e["key"]) for e in o["execs"]) * o["nt"] * (1 + len(o["execs"][0]["obs"][0][0])))
    chk.add(res)
    if not chk.rejects and not res.rejects and res.distinct != sum(w(o) for o in sp):
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, sum(w(o) for o in sp)))
    chk.samples = [{"case": o["id"], "executions": [e["tag"] for e in o["execs"]], "steps": o["nt"]} for o in sp[:3]]
    return chk.finish()


def nt_(o):
    return o["nt"]
