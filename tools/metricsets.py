"""What metric sets record (P36), decided by MetricSets.tla."""
import csv
import os
import random
import shutil

import genpar
import gensim
from sim import f
from vplib import Check, run_driver, seed, tier, tlc_cases

ATTRS = {"in": [("Outflow", "nout")], "link": [("Outflow", "nout"), ("Inflow", "nin")], "out": [("Inflow", "nin")],
         "sto": [("Volume", "vol"), ("ProportionalVolume", "pvol"), ("MaxVolume", "mxv")]}
FLT = [("nodes", "all_nodes"), ("vnodes", "all_virtual_nodes"), ("pars", "all_parameters"), ("edges", "all_edges")]


def offers(c, rng, d, model):
    """quantities with the field of the observation they are read from, and how a model file refers to them"""
    out = []

    def add(k, n, a, d, src, j, tol=1):     # halves of a thousandth round either way
        out.append({"k": k, "n": n, "a": a, "d": d, "src": src, "j": j, "tol": tol})
    for j in c.jn:
        n = j["meta"]["name"]
        i = [x["name"] for x in c.nodes].index(n)
        for k, (a, fld) in enumerate(ATTRS[c.nodes[i]["k"]]):
            add("node", n, a, k == 0, ("a", fld, i), {"type": "Node", "name": n, "attribute": a})
        x = c.nodes[i]
        if x["k"] == "out" and x["mx"]["k"] == "lit" and "max_flow" in j:
            add("node", n, "Deficit", False, ("def", x["mx"]["v"], i), {"type": "Node", "name": n, "attribute": "Deficit"}, 2)
    for j in c.jv:
        n = j["meta"]["name"]
        for l, at in ((c.aggs, [("Outflow", "aggout"), ("Inflow", "aggin")]), (c.ast, [("Volume", "asv"), ("ProportionalVolume", "asp")]),
                      (c.vss, [("Volume", "vsv"), ("ProportionalVolume", "vsp")])):
            ns = [x["name"] for x in l]
            if n in ns:
                for k, (a, fld) in enumerate(at):
                    add("vnode", n, a, k == 0, ("a", fld, ns.index(n)), {"type": "VirtualNode", "name": n, "attribute": a})
    ps = {}
    for i, p in enumerate(c.pars):
        if isinstance(p["name"], str):
            ps.setdefault(p["name"], []).append((i, p["ph"]))
    for j in c.jp:
        n = j["meta"]["name"]
        if n not in ps:
            return None
        i, ph = ps[n][0]
        b, a = {"type": "Parameter", "name": n, "return_value": "Before"}, {"type": "Parameter", "name": n, "return_value": "After"}
        if len(ps[n]) == 2:      # declared once, with a definition for each phase
            add("par", n, "before", True, ("b", "par", i), b)
            add("par", n, "after", True, ("a", "par", ps[n][1][0]), a)
        elif ph == "b":
            add("par", n, "before", True, ("a", "par", i), b)
        elif ph == "ab":
            add("par", n, "before", True, ("b", "par", i), b)
            add("par", n, "after", True, ("a", "par", i), a)
        elif ph == "a":
            add("par", n, "after", True, ("a", "par", i), a)
        else:
            return None
    for e, j in enumerate(c.je):
        add("edge", "%s->%s" % (j["from_node"], j["to_node"]), "Flow", True, ("a", "edge", e), {"type": "Edge", "edge": dict(j)})
    if rng.random() < .5:       # a table and a time series that nothing else uses
        os.makedirs(d, exist_ok=True)
        t = [("k%d" % i, "c%d" % k, rng.randint(-9000, 9000)) for i in range(3) for k in range(2)]
        with open(os.path.join(d, "t.csv"), "w") as fh:
            w = csv.writer(fh)
            w.writerow(["key", "c0", "c1"])
            for i in range(3):
                w.writerow(["k%d" % i] + [f(v) for r, _, v in t if r == "k%d" % i])
        model["network"]["tables"] = [{"meta": {"name": "tab"}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Both", "rows": 1, "cols": 1}, "url": "t.csv"}]
        for r, k, v in t:
            add("tab", "tab", "%s;%s" % (r, k), False, ("const", v, 0), {"type": "Table", "table": "tab", "row": r, "column": k})
        cols = [[rng.randint(-9000, 9000) for _ in range(c.nt)] for _ in range(2)]
        with open(os.path.join(d, "s.csv"), "w") as fh:
            w = csv.writer(fh)
            w.writerow(["date", "x", "y"])
            for t in range(c.nt):
                w.writerow([c.at(t).strftime("%Y-%m-%d %H:%M:%S")] + [f(x[t]) for x in cols])
        if c.months:        # rows of a time series have to be evenly spaced
            return out
        model["network"]["timeseries"] = [{"meta": {"name": "ser"}, "type": "Polars", "url": "s.csv", "time_col": "date"}]
        for k, x in zip("xy", cols):
            add("ser", "ser", k, False, ("col", x, 0), {"type": "Timeseries", "name": "ser", "columns": {"type": "Column", "name": k}})
    return out


def sets(rng, off):
    """[spec], [json] of the metric sets of one model"""
    sp, js = [], []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        n = "set%d" % i
        flt = {k: rng.random() < .45 for k, _ in FLT}
        l = [q for q in off if rng.random() < rng.choice([.05, .3, .6])]
        rng.shuffle(l)
        l = l[:8]
        if rng.random() < .05:      # nothing at all, unless a filter finds something
            one = rng.choice([k for k, _ in FLT] + ["-", "-"])
            l, flt = [], {k: k == one for k, _ in FLT}
        if not l and not any(flt.values()) and rng.random() < .5:
            l = [rng.choice(off)]
        ls, lj = [], []
        for q in l:
            j, a = dict(q["j"]), q["a"]
            if q["d"] and q["a"] != "after" and rng.random() < .5:
                j.pop("attribute", None)
                j.pop("return_value", None)
                a = ""
            ls.append({"k": q["k"], "n": q["n"], "a": a})
            lj.append(j)
        if rng.random() < .06:      # something that is not there, or that a set cannot record
            x = rng.choice(["lit", "local", "node", "attr", "par", "vnode", "cross", "phase", "edge", "ser", "tab"])
            kinds = {q["n"]: q["k"] for q in off}
            node = rng.choice([q for q in off if q["k"] == "node"])
            j, r = {"lit": ({"type": "Literal", "value": 1.5}, {"k": "lit", "n": "1.5", "a": ""}),
                    "local": ({"type": "LocalParameter", "name": "nobody"}, {"k": "local", "n": "nobody", "a": ""}),
                    "node": ({"type": "Node", "name": "nobody"}, {"k": "node", "n": "nobody", "a": ""}),
                    "attr": ({"type": "Node", "name": node["n"], "attribute": "Power"}, {"k": "node", "n": node["n"], "a": "Power"}),
                    "par": ({"type": "Parameter", "name": "nobody"}, {"k": "par", "n": "nobody", "a": ""}),
                    "vnode": ({"type": "VirtualNode", "name": "nobody"}, {"k": "vnode", "n": "nobody", "a": ""}),
                    "cross": ({"type": "VirtualNode", "name": node["n"]}, {"k": "vnode", "n": node["n"], "a": ""}),
                    "edge": ({"type": "Edge", "edge": {"from_node": node["n"], "to_node": "nobody"}}, {"k": "edge", "n": node["n"] + "->nobody", "a": ""}),
                    "ser": ({"type": "Timeseries", "name": "nobody", "columns": {"type": "Column", "name": "x"}}, {"k": "ser", "n": "nobody", "a": "x"}),
                    "tab": ({"type": "Table", "table": "nobody", "row": "k0"}, {"k": "tab", "n": "nobody", "a": "k0"}),
                    }.get(x, (None, None))
            if x == "phase":
                ps = [n for n, k in kinds.items() if k == "par"]
                one = [n for n in ps if len([q for q in off if q["k"] == "par" and q["n"] == n]) == 1]
                if one:
                    n1 = rng.choice(one)
                    has = next(q["a"] for q in off if q["k"] == "par" and q["n"] == n1)
                    o = "after" if has == "before" else "before"
                    j, r = {"type": "Parameter", "name": n1, "return_value": o.capitalize()}, {"k": "par", "n": n1, "a": o}
            if j:
                p = rng.randint(0, len(ls))
                ls.insert(p, r)
                lj.insert(p, j)
        m = {"name": n}
        if ls or rng.random() < .5:
            m["metrics"] = lj
        fj = {b: flt[a] for a, b in FLT if flt[a] or rng.random() < .3}
        if fj or rng.random() < .3:
            m["filters"] = fj
        sp.append({"n": n, "list": ls, "flt": flt})
        js.append(m)
    return sp, js


def value(src, obs, s, t):
    k, fld, i = src
    o = obs[s][t]
    if k == "const":
        return fld
    if k == "col":
        return fld[t]
    if k == "def":
        return fld - o["a"]["nin"][i]
    return o[k][fld][i]


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    root = os.path.join(chk.work, "data")
    os.makedirs(root)
    n = 260 if tier() == "quick" else 3000
    drv, plan = [], {}
    k = 0
    while len(drv) < n:
        k += 1
        r = random.Random(rng.random())
        if r.random() < .6:
            feat = set(r.choice(gensim.FEATS[r.choice(sorted(gensim.FEATS))]).split()) - {"infeasible", "state"}
            c = gensim.Gen(r, "ms%d" % k, feat).build()
        else:
            c = genpar.cases(r.choice(genpar.PIDS), r, 1)[0]
            c.id = "ms%d" % k
        dr = c.driver([{"tag": "r", "solver": "highs", "mode": "run"}])
        d = os.path.join(root, c.id)
        os.makedirs(d, exist_ok=True)
        off = offers(c, r, d, dr["model"])
        if off is None or any(x["ph"] not in ("b", "a", "ab", "n") for x in c.pars):
            continue
        sp, js = sets(r, off)
        net = dr["model"]["network"]
        net["metric_sets"] = js
        net["outputs"] = [{"name": "out-" + m["n"], "type": "Memory", "metric_set": m["n"]} for m in sp]
        r.shuffle(net["outputs"])
        dr["dir"] = d
        dr["extras"][""]["outputs"] = ["out-" + m["n"] for m in sp]
        drv.append(dr)
        plan[c.id] = (c, off, sp)
    tr = run_driver(drv, chk.work, "sets")
    specs = []
    for d in drv:
        c, off, sp = plan[d["id"]]
        t = tr[d["id"]]
        chk.cases[c.id] = d
        if t["status"] in ("panic", "crash"):
            chk.reject({"case": c.id, "what": "declaring a metric set never makes the program crash", "got": str(t.get("error"))[:300]})
            continue
        built = t["status"] == "ok"
        s = {"id": c.id, "built": built, "ran": False, "error": str(t.get("error"))[:300], "nt": c.nt, "offer": [], "sets": sp}
        ns = len(c.scens())
        obs = None
        if built:
            run = t["runs"][0]
            obs = c.observed(run) if run["status"] == "ok" else None
            if obs is None:
                chk.count("runs that stopped")
            res = run.get("results", {}).get("", {})
            for m in sp if obs else []:
                rows = [[[] for _ in range(c.nt)] for _ in range(ns)]
                steps = {}
                for x in res["out-" + m["n"]]["rows"]:
                    i = steps.setdefault(x["ts"], len(steps))
                    if i < c.nt and x["sim"] < ns:
                        rows[x["sim"]][i].append({"n": x["name"], "a": x["attr"], "v": x["v"]})
                m["rows"] = rows
                chk.count("columns", len(rows[0][0]))
                chk.count("sets recorded")
        s["ran"] = obs is not None
        for q in off:
            v = [[value(q["src"], obs, i, j) for j in range(c.nt)] for i in range(ns)] if obs else []
            s["offer"].append({"k": q["k"], "n": q["n"], "a": q["a"], "d": q["d"], "tol": q["tol"], "v": v})
        for m in sp:
            m.setdefault("rows", [])
        chk.count("built" if built else "refused")
        chk.count("empty sets", sum(not m["list"] and not any(q["d"] and m["flt"].get({"node": "nodes", "vnode": "vnodes", "par": "pars", "edge": "edges"}.get(q["k"])) for q in off) for m in sp))
        specs.append(s)
        chk.traces += 1
    shutil.rmtree(root)
    res = tlc_cases("TraceSets", specs, chk.work, weight=lambda o: 3 + len(o["sets"]) * o["nt"] * len(o["offer"]))
    chk.add(res)
    want = sum(2 + (len(s["sets"]) * s["nt"] if s["ran"] else 0) for s in specs)
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.samples = [{"case": s["id"], "sets": [{"list": m["list"], "flt": m["flt"]} for m in s["sets"]]} for s in specs[:3]]
    return chk.finish()
