"""Recording (P20, P21), files (P22) and summaries (P23), decided by Outputs.tla."""
import csv
import datetime as dt
import io
import os
import random

from sim import WORDS
from vplib import Check, run_driver, seed, tier, tlc_cases

NOAGG = {"f": "", "tol": 0}


def hours(s):
    d = dt.datetime.fromisoformat(s)
    return (d.toordinal() + 305) * 24 + d.hour if d.minute == d.second == 0 else -1


def fn(rng, names):
    f = rng.choice(names)
    return {"f": f, "tol": rng.choice([0, 0, 1500, 4000]) if f == "AnyNonZero" else 0}


def jfn(f):
    if f["f"] == "AnyNonZero":
        return {"type": "AnyNonZero", "tolerance": f["tol"] / 1000 if f["tol"] else 1e-6} if f["tol"] else {"type": "AnyNonZero"}
    return {"type": f["f"]}


def jfreq(q):
    return {"M": {"type": "Monthly"}, "A": {"type": "Annual"}, "D": {"type": "Days", "days": q["n"]}}.get(q["k"])


def levels(rng, step_h, month):
    """innermost first; never a value over two boundaries of the level it reaches"""
    n = rng.choice([0, 1, 1, 1, 2, 2, 2, 3])
    if n == 0:
        return []
    lv = []
    longest = step_h            # the longest value that arrives at the next level
    for i in range(n):
        opts = []
        if longest <= 28 * 24 or month and i == 0:
            opts += ["M", "M"]
        if longest <= 365 * 24:
            opts.append("A")
        ds = [d for d in (1, 2, 3, 5, 7, 10, 14, 30, 90, 400) if d * 24 >= longest]
        if ds:
            opts += ["D", "D"]
        if i == n - 1:
            opts.append("N")
        if not opts:
            break
        k = rng.choice(opts)
        q = {"k": k, "n": rng.choice(ds[:4]) if k == "D" else 0}
        if k == "D":
            longest = q["n"] * 24 + longest - 1
        elif k == "M":
            longest = 31 * 24
        elif k == "A":
            longest = 366 * 24
        f = fn(rng, ["Sum", "Mean", "Mean", "Min", "Max", "CountNonZero", "AnyNonZero"] if i == 0 else ["Sum", "Mean", "Min", "Max", "Mean"])
        lv.append({"fq": q, "f": f})
        if k == "N":
            break
    return lv


def jlevels(lv):
    j = None
    for x in lv:
        a = {"func": jfn(x["f"])}
        q = jfreq(x["fq"])
        if q:
            a["freq"] = q
        if j:
            a["child"] = j
        j = a
    return j


def seterr(lv, nt):
    e = 0
    for x in lv:
        e = e * nt if x["f"]["f"] == "Sum" else e + 0.5 if x["f"]["f"] == "Mean" else e
    return int(e) + 2


def make(cid, rng, work):
    # --- time
    r = rng.random()
    if r < 0.55:
        step_h = 24 * rng.choice([1, 1, 1, 2, 3, 5, 7, 10, 28])
        ts = {"type": "Days", "days": step_h // 24}
    elif r < 0.75:
        step_h = rng.choice([1, 6, 12, 8])
        ts = {"type": "Hours", "hours": step_h}
    else:
        step_h = 31 * 24
        ts = {"type": "Frequency", "freq": "1mo"}
    nt = rng.choice([1, 2, 3, 8, 15, 26, 40])
    start = rng.choice([dt.datetime(2015, 12, 20), dt.datetime(2016, 2, 25), dt.datetime(2019, 12, 31), dt.datetime(2020, 1, 1), dt.datetime(2021, 1, 29), dt.datetime(2022, 6, 15)])
    if step_h < 24:
        start += dt.timedelta(hours=rng.choice([0, 0, 6, 23]))
    if ts["type"] == "Frequency":
        start = start.replace(day=1)
        e = start
        for _ in range(nt - 1):
            e = (e.replace(day=28) + dt.timedelta(days=5)).replace(day=1)
        end = e
    else:
        end = start + dt.timedelta(hours=step_h * (nt - 1))
    # --- scenarios
    groups = [{"name": "g%d" % i, "size": rng.choice([1, 2, 3])} for i in range(rng.choice([0, 1, 1, 2]))]
    for g in groups:
        if rng.random() < 0.5:
            g["labels"] = ["%s%c" % (g["name"], 97 + k) for k in range(g["size"])] if rng.random() < 0.7 else rng.sample(WORDS, g["size"])
        if g["size"] == 3 and rng.random() < 0.4:
            g["subset"] = {"type": "Indices", "indices": rng.choice([[0, 2], [2], [1, 2]])}
    # --- network
    K = rng.randint(1, 3)
    I, O, A, kn = ["in%d" % i for i in range(K)], ["out%d" % i for i in range(K)], ["a%d" % i for i in range(K)], "k"
    if rng.random() < 0.35:
        w = rng.sample(WORDS, 2 * K)
        I, O = w[:K], w[K:]
        w = rng.sample(WORDS, K + 1)
        A, kn = w[:K], w[K]
    fine = rng.random() < 0.4        # values that are no whole numbers
    nodes, edges, arrays, metrics, probes = [], [], [], [], []
    for i in range(K):
        nodes += [{"meta": {"name": I[i]}, "type": "Input", "max_flow": {"type": "Parameter", "name": A[i]}},
                  {"meta": {"name": O[i]}, "type": "Output", "cost": {"type": "Literal", "value": -1}}]
        edges.append({"from_node": I[i], "to_node": O[i]})
        zero = rng.random() < 0.5
        v = lambda: 0 if zero and rng.random() < 0.6 else 1000 * rng.randint(0, 10) if not fine else rng.choice([x for x in range(0, 10000, 125) if x not in (1500, 4000)] + [1, 5, 335, 2605, 7995])
        if groups:
            g = rng.choice(groups)
            arrays.append({"name": A[i], "group": g["name"], "values": [[v() for _ in range(g["size"])] for _ in range(nt)], "index": False})
        else:
            arrays.append({"name": A[i], "values": [v() for _ in range(nt)], "index": False})
    av = []
    for i in range(K):
        av += [({"type": "Node", "name": I[i], "attribute": "Outflow"}, {"m": "out", "node": I[i]}, (I[i], "Outflow")),
               ({"type": "Node", "name": O[i]}, {"m": "in", "node": O[i]}, (O[i], "Inflow")),
               ({"type": "Edge", "edge": {"from_node": I[i], "to_node": O[i]}}, {"m": "edge", "from": I[i], "to": O[i]}, (I[i] + "->" + O[i], "Flow"))]
    kv = rng.choice([-2505, 125, -7335, -1000]) if fine else rng.choice([3000, 3000, -2000])
    big = rng.choice([12345670, 99999995, 10000000, 250000125, -54321455])
    bn = "huge"
    while bn in A + I + O + [kn]:
        bn += "r"
    params = [{"meta": {"name": n}, "type": "Constant", "value": {"type": "Literal", "value": x / 1000}} for n, x in ((kn, kv), (bn, big))]
    av.append(({"type": "Parameter", "name": kn}, {"m": "lit", "v": kv}, (kn, "before")))
    sets, jsets, probes, names = [], [], [], []
    SN = rng.sample(WORDS, 3) if rng.random() < 0.3 else ["set%d" % i for i in range(3)]
    for i in range(rng.choice([1, 1, 2, 3])):
        ms = rng.sample(av, min(len(av), rng.choice([1, 2, 3])))
        lv = levels(rng, step_h, ts["type"] == "Frequency")
        huge = not lv and rng.random() < 0.5
        if huge:
            ms.insert(rng.randrange(len(ms) + 1), ({"type": "Parameter", "name": bn}, {"m": "lit", "v": big}, (bn, "before")))
        js = {"name": SN[i], "metrics": [m[0] for m in ms]}
        if lv:
            js["aggregator"] = jlevels(lv)
        jsets.append(js)
        sets.append({"n": len(ms), "lvs": lv, "raw": [], "tol": seterr(lv, nt), "off": len(probes), "names": [m[2] for m in ms], "huge": huge})
        probes += [m[1] for m in ms]
    recs, jouts = [], []
    for i, st in enumerate(sets):
        for _ in range(rng.choice([1, 1, 2])):
            A = ["Sum", "Mean", "Min", "Max", "CountNonZero", "AnyNonZero"]
            F = {x: (fn(rng, A) if rng.random() < 0.85 else NOAGG) for x in ("metric", "time", "scenario")}
            if any(x["f"]["f"] == "Mean" for x in st["lvs"]) or len(st["lvs"]) > 1:
                for x in F:
                    if F[x]["f"] in ("CountNonZero", "AnyNonZero"):
                        F[x] = {"f": "Max", "tol": 0}
            else:
                # counting what is left of a rounded mean is not decidable in thousandths
                order0 = rng.random()
                seen = False
                for x in ("metric", "time", "scenario"):
                    if F[x]["f"] == "Mean":
                        seen = True
                if seen:
                    for x in F:
                        if F[x]["f"] == "AnyNonZero" or F[x]["f"] == "CountNonZero":
                            F[x] = {"f": "Min", "tol": 0}
            if rng.random() < 0.1 and not st["lvs"]:
                F["metric"] = {"f": "Product", "tol": 0}
                F["time"] = {"f": rng.choice(["Min", "Max", "CountNonZero"]), "tol": 0}
            if st["huge"] or fine:
                for x in F:
                    if F[x]["f"] in ("CountNonZero", "AnyNonZero", "Product") or st["huge"] and F[x]["f"] in ("Sum", "Mean"):
                        F[x] = {"f": rng.choice(["Min", "Max"]), "tol": 0}
            order = rng.choice(["MetricTimeScenario", "TimeMetricScenario", None])
            o = order or "MetricTimeScenario"
            if F["metric"]["f"] == "Product" and o == "TimeMetricScenario":
                o = order = "MetricTimeScenario"
            name = "mem%d" % len(recs)
            j = {"type": "Memory", "name": name, "metric_set": SN[i]}
            agg = {x: jfn(F[x]) for x in F if F[x]["f"]}
            if agg:
                j["aggregation"] = agg
            if order:
                j["order"] = order
            jouts.append(j)
            recs.append({"name": name, "set": i + 1, "agg": dict(F, order=o), "first": None})
    files = []
    if rng.random() < 0.8:
        for _ in range(rng.choice([1, 2])):
            w = rng.random() < 0.5
            name = "f%d.csv" % len(files)
            pick = [rng.randrange(len(sets))] if w or rng.random() < 0.5 else rng.sample(range(len(sets)), rng.randint(1, len(sets)))
            j = {"type": "CSV", "name": name, "filename": name, "format": "Wide" if w else "Long"}
            dec = 0
            if w or len(pick) == 1 and rng.random() < 0.5:
                j["metric_set"] = SN[pick[0]]
            else:
                j["metric_set"] = [SN[p] for p in pick]
            if not w and rng.random() < 0.6:
                dec = j["decimal_places"] = rng.choice([1, 2, 3])
            jouts.insert(rng.randint(0, len(jouts)), j)
            files.append({"name": name, "wide": w, "sets": pick, "tol": 6 if w else {0: 1, 1: 51, 2: 6, 3: 1}[dec]})
    m = {"metadata": {"title": cid}, "time": {"start": start.isoformat(), "end": end.isoformat(), "timestep": ts},
         "network": {"nodes": nodes, "edges": edges, "parameters": params, "metric_sets": jsets, "outputs": jouts}}
    if groups:
        m["scenarios"] = {"groups": groups}
    d = os.path.join(work, cid)
    os.makedirs(d)
    run = {"tag": "a", "solver": "highs", "threads": rng.choice([1, 1, 3]), "files": [f["name"] for f in files]}
    if rng.random() < 0.3:
        run.update(mode="plan", plan=[{"steps": rng.randint(1, nt)}, {"run": True}])
    case = {"id": cid, "dir": d, "model": m, "extras": {"": {"arrays": arrays, "probes": probes, "outputs": [r["name"] for r in recs]}}, "runs": [run]}
    return {"id": cid, "sets": sets, "recs": recs, "files": files, "nt": nt, "setnames": SN}, case


def observe(sp, tr, chk):
    """What was recorded, in the terms of the specification; None if the run gave nothing to judge."""
    run = tr["runs"][0]
    if run["status"] != "ok":
        chk.reject({"case": sp["id"], "what": "the run failed", "got": [run["status"], str(run.get("error"))[:300]]})
        return None
    scens = tr["scens"]
    A = {(x["t"], x["s"]): x["v"] for x in run["obs"][""]["after"]}
    if len(A) != sp["nt"] * len(scens):
        chk.reject({"case": sp["id"], "what": "every step is recorded", "got": len(A)})
        return None
    out = {"id": sp["id"], "scens": [s["label"] for s in scens], "steps": [], "sets": [], "recs": [], "files": []}
    for t in tr["times"]:
        h = (dt.date(t["y"], t["mo"], t["d"]).toordinal() + 305) * 24 + t["h"]
        out["steps"].append([h, t["sec"] // 3600])
    for st in sp["sets"]:
        o, n = st["off"], st["n"]
        out["sets"].append({"n": n, "lvs": st["lvs"], "tol": st["tol"], "raw": [[A[(t, s)][o:o + n] for t in range(sp["nt"])] for s in range(len(scens))]})
    res = run["results"].get("", {})
    kept = {}
    for rec in sp["recs"]:
        st = sp["sets"][rec["set"] - 1]
        r = res.get(rec["name"])
        form, why = True, ""
        rows = [[] for _ in scens]
        if r is None:
            chk.reject({"case": sp["id"], "what": "the recorder has no result", "got": rec["name"]})
            return None
        flat = r["rows"]
        if len(flat) % st["n"]:
            form, why = False, "%d entries for %d metrics" % (len(flat), st["n"])
        last = -1
        for i in range(0, len(flat) - st["n"] + 1, st["n"]):
            chunk = flat[i:i + st["n"]]
            x = chunk[0]
            if x["sim"] < last:
                form, why = False, "scenario %s after %s" % (x["sim"], last)
            last = x["sim"]
            for m, y in enumerate(chunk):
                if (y["ts"], y["te"], y["sim"]) != (x["ts"], x["te"], x["sim"]) or y["label"] != scens[y["sim"]]["label"] or (y["name"], y["attr"]) != st["names"][m]:
                    form, why = False, "entry %d: %s, expected %s" % (i + m, y, st["names"][m])
            rows[x["sim"]].append({"ts": hours(x["ts"]), "te": hours(x["te"]), "v": [y["v"] for y in chunk]})
        g = r["agg"]
        if not form and not all(rows):
            rows = [[{"ts": 0, "te": 0, "v": [0] * st["n"]}] for _ in scens]
        if not all(rows):
            # nothing was recorded for a scenario: the step behaviours report it, a summary has no meaning
            form, why = False, "no rows for a scenario"
            rec = dict(rec, agg=dict(rec["agg"]))
            rows0 = [x or [{"ts": 0, "te": 0, "v": [0] * st["n"]}] for x in rows]
            rows = rows0
        err = 0.5 if any(x["f"]["f"] == "Mean" for x in st["lvs"]) else 0
        cnt = {"metric": st["n"], "time": max(len(x) for x in rows), "scenario": len(scens)}
        for x in (["metric", "time"] if rec["agg"]["order"] == "MetricTimeScenario" else ["time", "metric"]) + ["scenario"]:
            err = err * cnt[x] if rec["agg"][x]["f"] == "Sum" else err + 0.5 if rec["agg"][x]["f"] == "Mean" else err
        out["recs"].append({"name": rec["name"], "set": rec["set"], "agg": rec["agg"], "rows": rows, "form": form, "why": why, "ok": g["ok"], "value": g.get("v", 0),
                            "err": str(g.get("err", g.get("panic", "")))[:200], "tol": int(err) + 2})
        if g.get("panic"):
            chk.reject({"case": sp["id"], "what": "asking for the summary panicked", "got": g["panic"]})
        kept.setdefault(rec["set"], flat)
    for f in sp["files"]:
        text = run["files"].get(f["name"], "<missing>")
        want, got = [], []
        form, why = True, ""
        for s in f["sets"]:
            for y in kept.get(s + 1, []):
                key = [y["ts"], "" if f["wide"] else y["te"], str(y["sim"]), y["label"], "" if f["wide"] else sp["setnames"][s], y["name"], y["attr"]]
                want.append(["|".join(key), y["v"]])
        try:
            tab = list(csv.reader(io.StringIO(text)))
            if f["wide"]:
                heads, body = tab[:4], tab[4:]
                if [h[0] for h in heads] != ["node", "attribute", "simulation_id", "label"]:
                    form, why = False, "headings %s" % [h[:2] for h in heads]
                for r in body:
                    if len(r) != len(heads[0]):
                        form, why = False, "a row of %d cells under %d headings" % (len(r), len(heads[0]))
                    for c in range(1, min(len(r), len(heads[0]))):
                        got.append(["|".join([r[0], "", heads[2][c], heads[3][c], "", heads[0][c], heads[1][c]]), int(round(float(r[c]) * 1000))])
            else:
                h = tab[0]
                for r in tab[1:]:
                    d = dict(zip(h, r))
                    got.append(["|".join([d["time_start"], d["time_end"], d["simulation_id"], d["label"], d["metric_set"], d["name"], d["attribute"]]), int(round(float(d["value"]) * 1000))])
        except (IndexError, KeyError, ValueError) as e:
            form, why = False, repr(e)
        want.sort(key=lambda x: x[0])
        got.sort(key=lambda x: x[0])
        out["files"].append({"name": f["name"], "got": got, "want": want, "tol": f["tol"], "form": form, "why": why})
    return out


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = 400 if tier() == "quick" else 3000
    cs = [make("%s-%d" % (pid, i), rng, chk.work) for i in range(n)]
    tr = run_driver([d for _, d in cs], chk.work)
    sp = []
    for s, d in cs:
        t = tr[s["id"]]
        chk.cases[s["id"]] = d
        if t["status"] != "ok":
            chk.reject({"case": s["id"], "what": "the case did not build", "got": (t["status"], str(t.get("error"))[:300])})
            continue
        o = observe(s, t, chk)
        if o:
            sp.append(o)
            chk.count("metric sets", len(o["sets"]))
            chk.count("recorded rows", sum(len(x) for r in o["recs"] for x in r["rows"]))
            chk.count("file entries", sum(len(f["got"]) for f in o["files"]))
    if sp:
        res = tlc_cases("TraceOutputs", sp, chk.work, weight=lambda o: len(o["steps"]) * len(o["sets"]) * len(o["scens"]) + sum(len(f["got"]) for f in o["files"]) + 5)
        chk.add(res)
        want = sum(len(o["sets"]) * len(o["scens"]) * (len(o["steps"]) + 2) + 2 * len(o["recs"]) + sum(max(len(f["got"]), len(f["want"])) + 2 for f in o["files"]) for o in sp)
        if not chk.rejects and not res.rejects and res.distinct != want:
            raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
        chk.traces += sum(len(o["scens"]) for o in sp)
    chk.samples = [{"case": s["id"], "sets": [[x["fq"]["k"] + ":" + x["f"]["f"] for x in st["lvs"]] for st in s["sets"]], "steps": s["nt"]} for s, _ in cs[:3]]
    return chk.finish()
