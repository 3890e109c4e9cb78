"""Multi-network models (P24), decided by Multi.tla."""
import random

from vplib import NAN, Check, run_driver, seed, tier, tlc_cases


def L(v):
    return {"type": "Literal", "value": v / 1000}


def make(cid, rng):
    nn = rng.choice([1, 2, 2, 3, 3, 4])
    nt = rng.choice([1, 2, 3, 5, 8])
    dt = rng.choice([1, 1, 7])
    groups = [{"name": "g%d" % i, "size": rng.choice([1, 2, 3])} for i in range(rng.choice([0, 1, 1, 2]))]
    if groups and groups[0]["size"] == 3 and rng.random() < 0.4:
        groups[0]["subset"] = {"type": "Indices", "indices": rng.choice([[0, 2], [1, 2], [2]])}
    names = ["net%d" % i for i in range(nn)]
    if rng.random() < 0.5:
        rng.shuffle(names)
    nets = [{"name": nm, "items": [], "j": {"nodes": [], "edges": [], "parameters": []}, "transfers": [], "arrays": [], "probes": []} for nm in names]
    # first the plan of every network: how many transfers and channels; sources are picked once all are known
    for k, n in enumerate(nets):
        it, j = n["items"], n["j"]
        nx = rng.choice([0, 1, 1, 2, 3]) if nn > 1 else 0
        for x in range(nx):
            it.append({"k": "xfer"})
        for a in range(rng.choice([1, 1, 2])):
            name = "a%d" % a
            v = lambda: 100 * rng.randint(0, 90)
            if groups:
                g = rng.choice(groups)
                vals = [[v() for _ in range(g["size"])] for _ in range(nt)]
                n["arrays"].append({"name": name, "group": g["name"], "values": vals, "index": False})
                it.append({"k": "arr", "g": g["name"], "vals": vals, "name": name})
            else:
                vals = [v() for _ in range(nt)]
                n["arrays"].append({"name": name, "values": vals, "index": False})
                it.append({"k": "arr", "g": None, "vals": vals, "name": name})
        it.append({"k": "const", "x": 250 * rng.randint(0, 20), "name": "k"})
        j["parameters"].append({"meta": {"name": "k"}, "type": "Constant", "value": L(it[-1]["x"])})
        nch = rng.choice([1, 2, 2, 3])
        flowpos = len(it) + 1       # a prev item refers forward to the first channel's flow
        if rng.random() < 0.5:
            it.append({"k": "prev", "of": None, "name": "pv"})
            prev = it[-1]
        else:
            prev = None
        for c in range(nch):
            base = [i for i, x in enumerate(it) if x["k"] in ("xfer", "arr", "const", "sum", "max", "prev")]
            if rng.random() < 0.5:
                of = [rng.choice(base) for _ in range(rng.choice([1, 2, 2, 3]))]
                # a transfer is read by something in every network
                for i, x in enumerate(it):
                    if x["k"] == "xfer" and not x.get("used"):
                        x["used"] = True
                        of[0] = i
                        break
                # sums of several transfers would grow without bound around a circle of networks
                it.append({"k": "sum" if sum(it[i]["k"] in ("xfer", "sum", "max") for i in of) < 2 else "max", "of": of, "name": "s%d" % c})
                src = len(it) - 1
            else:
                free = [i for i in base if it[i]["k"] == "xfer"] or base
                src = rng.choice(free)
            it.append({"k": "flow", "of": src, "name": "i%d" % c, "to": "o%d" % c, "cap": 1000 * rng.choice([3, 8, 20, 60])})
            if prev is not None and prev["of"] is None:
                prev["of"] = len(it) - 1
            if rng.random() < 0.4:
                it[-1]["to"] = "st%d" % c
                it.append({"k": "vol", "of": len(it) - 1, "v0": 1000 * rng.randint(0, 50), "name": "st%d" % c})

    def metric(n, i):
        x = n["items"][i]
        k = x["k"]
        if k == "xfer":
            return {"type": "InterNetworkTransfer", "name": x["name"]}
        if k == "flow":
            w = rng.random()
            if w < 0.4:
                return {"type": "Node", "name": x["name"], "attribute": "Outflow"}
            if w < 0.6 and x["to"][0] == "o":
                return {"type": "Node", "name": x["to"]}
            return {"type": "Edge", "edge": {"from_node": x["name"], "to_node": "l" + x["name"]}}
        if k == "vol":
            return {"type": "Node", "name": x["name"], "attribute": "Volume"}
        return {"type": "Parameter", "name": x["name"]}

    for k, n in enumerate(nets):
        xs = [i for i, x in enumerate(n["items"]) if x["k"] == "xfer"]
        tn = ["x%d" % i for i in range(len(xs))]
        rng.shuffle(tn)
        for i, nm in zip(xs, tn):
            n["items"][i]["name"] = nm
    for k, n in enumerate(nets):
        j = n["j"]
        for i, x in enumerate(n["items"]):
            if x["k"] == "xfer":
                m = rng.choice([q for q in range(nn) if q != k])
                o = rng.randrange(len(nets[m]["items"]))
                if nets[m]["items"][o]["k"] == "xfer" and rng.random() < 0.6:
                    o = rng.randrange(len(nets[m]["items"]))
                x.update(net=m, item=o, init=NAN)
                t = {"from_network": names[m], "metric": metric(nets[m], o), "name": x["name"]}
                if rng.random() < 0.4:
                    x["init"] = 125 * rng.randint(0, 60)
                    t["initial_value"] = x["init"] / 1000
                n["transfers"].append(t)
                n["probes"].append({"m": "transfer", "name": x["name"]})
            elif x["k"] in ("sum", "max"):
                j["parameters"].append({"meta": {"name": x["name"]}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": x["k"].title()}, "metrics": [metric(n, q) for q in x["of"]]})
                n["probes"].append({"m": "param", "name": x["name"]})
            elif x["k"] == "prev":
                j["parameters"].append({"meta": {"name": x["name"]}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [metric(n, x["of"])]})
                n["probes"].append({"m": "param", "name": x["name"]})
            elif x["k"] in ("arr", "const"):
                n["probes"].append({"m": "param", "name": x["name"]})
            elif x["k"] == "flow":
                j["nodes"].append({"meta": {"name": x["name"]}, "type": "Input", "max_flow": metric(n, x["of"])})
                if x["to"][0] == "o":
                    j["nodes"].append({"meta": {"name": x["to"]}, "type": "Output", "cost": L(-1000)})
                j["nodes"].append({"meta": {"name": "l" + x["name"]}, "type": "Link", "max_flow": L(x["cap"])})
                j["edges"] += [{"from_node": x["name"], "to_node": "l" + x["name"]}, {"from_node": "l" + x["name"], "to_node": x["to"]}]
                n["probes"].append({"m": "out", "node": x["name"]})
            elif x["k"] == "vol":
                j["nodes"].append({"meta": {"name": x["name"]}, "type": "Storage", "max_volume": L(10 ** 8), "cost": L(-1000), "initial_volume": {"type": "Absolute", "volume": x["v0"] / 1000}})
                n["probes"].append({"m": "vol", "node": x["name"]})
        rng.shuffle(j["parameters"])
    m = {"metadata": {"title": cid}, "time": {"start": "2020-02-26", "end": "2020-%02d-%02d" % ((4, 30) if 0 else (2, 26)), "timestep": {"type": "Days", "days": dt}},
         "networks": [{"name": n["name"], "network": n["j"], "transfers": n["transfers"]} for n in nets]}
    import datetime
    m["time"]["end"] = (datetime.date(2020, 2, 26) + datetime.timedelta(days=dt * (nt - 1))).isoformat()
    if groups:
        m["scenarios"] = {"groups": groups}
    runs = [{"tag": "serial", "solver": "highs"}]
    if rng.random() < 0.5:
        runs.append({"tag": "threads", "solver": "highs", "threads": rng.choice([2, 4])})
    if rng.random() < 0.3:
        runs.append({"tag": "microlp", "solver": "microlp"})
    if rng.random() < 0.3:
        runs.append({"tag": "plan", "solver": "highs", "mode": "plan", "plan": [{"steps": rng.randint(1, nt)}, {"run": True}]})
    if rng.random() < 0.5 and not any(x["k"] == "vol" for n in nets for x in n["items"]):
        runs.append({"tag": "ipm", "solver": "ipm", "threads": rng.choice([0, 3])})
    case = {"id": cid, "multi": m, "extras": {n["name"]: {"arrays": n["arrays"], "probes": n["probes"]} for n in nets}, "runs": runs}
    return {"id": cid, "nets": nets, "nt": nt, "dt": dt, "groups": groups}, case


def observe(sp, case, tr, chk):
    scens = tr["scens"]
    gi = {g["name"]: i for i, g in enumerate(sp["groups"])}
    gname = [g["name"] for g in sp["groups"]]
    out = {"id": sp["id"], "nt": sp["nt"], "dt": sp["dt"], "ns": len(scens), "nets": [], "runs": []}
    for n in sp["nets"]:
        items = []
        for x in n["items"]:
            k = x["k"]
            y = {"k": k}
            if k == "xfer":
                y.update({"from": x["net"] + 1, "item": x["item"] + 1, "init": x["init"]})
            elif k == "arr":
                # scens[s]["schema"]: the group's own member index of the simulated scenario
                y["v"] = [[x["vals"][t] if x["g"] is None else x["vals"][t][s["schema"][gi[x["g"]]]] for t in range(sp["nt"])] for s in scens]
            elif k == "const":
                y["x"] = x["x"]
            elif k in ("sum", "max"):
                y["of"] = [q + 1 for q in x["of"]]
            else:
                y["of"] = x["of"] + 1
                if k == "flow":
                    y["cap"] = x["cap"]
                if k == "vol":
                    y["v0"] = x["v0"]
            items.append(y)
        out["nets"].append({"name": n["name"], "items": items})
    for spec, r in zip(case["runs"], tr["runs"]):
        if r["status"] != "ok":
            chk.reject({"case": sp["id"], "what": "the run failed", "got": [r["tag"], r["status"], str(r.get("error"))[:300]]})
            continue
        ob = []
        for n in sp["nets"]:
            A = {(x["t"], x["s"]): x["v"] for x in r["obs"][n["name"]]["after"]}
            if len(A) != sp["nt"] * len(scens):
                chk.reject({"case": sp["id"], "what": "every step of every network is observed", "got": [r["tag"], n["name"], len(A)]})
                break
            ob.append([[A[(t, s)] for t in range(sp["nt"])] for s in range(len(scens))])
        else:
            tol = 12 if r["tag"] == "ipm" else 1
            out["runs"].append({"tag": r["tag"], "obs": ob, "tol": [[tol + len(n["items"]) * (1 if tol > 1 else 0) for _ in n["items"]] for n in sp["nets"]]})
    return out


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = 300 if tier() == "quick" else 2500
    cs = [make("%s-%d" % (pid, i), rng) for i in range(n)]
    tr = run_driver([d for _, d in cs], chk.work)
    obs = []
    for s, d in cs:
        t = tr[s["id"]]
        chk.cases[s["id"]] = d
        if t["status"] != "ok":
            chk.reject({"case": s["id"], "what": "the case did not build", "got": (t["status"], str(t.get("error"))[:300])})
            continue
        o = observe(s, d, t, chk)
        if o["runs"]:
            obs.append(o)
            chk.count("runs", len(o["runs"]))
            chk.count("transfers", sum(1 for n in o["nets"] for x in n["items"] if x["k"] == "xfer"))
            chk.traces += len(o["runs"]) * o["ns"]
    if obs:
        w = lambda o: len(o["runs"]) * o["ns"] * (o["nt"] * len(o["nets"]) + 1)
        res = tlc_cases("TraceMulti", obs, chk.work, weight=w)
        chk.add(res)
        if not chk.rejects and not res.rejects and res.distinct != sum(w(o) for o in obs):
            raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, sum(w(o) for o in obs)))
    chk.samples = [{"case": s["id"], "networks": [[x["k"] for x in n["items"]] for n in s["nets"]], "steps": s["nt"]} for s, _ in cs[:3]]
    return chk.finish()
