"""Time series inputs: P31, decided by Timeseries.tla."""
import csv
import datetime as dt
import hashlib
import os
import random
import shutil

from sim import f
from vplib import Check, NAN, run_driver, seed, tier, tlc_cases

H, D = 60, 1440


def months(start, n):
    """starts of n+1 monthly steps in minutes from the start"""
    out = []
    for k in range(n + 1):
        m = start.month - 1 + k
        out.append(int((dt.datetime(start.year + m // 12, m % 12 + 1, start.day) - start).total_seconds() // 60))
    return out


def clock(rng):
    """(start, [(t, d)] in minutes, JSON)"""
    start = dt.datetime(rng.choice([2019, 2020, 2021, 2023]), rng.randint(1, 12), rng.randint(1, 28))
    x = rng.random()
    n = rng.choice([2, 3, 5, 8, 12])
    if x < 0.5:
        days = rng.choice([1, 1, 1, 2, 3, 7])
        ts, d = {"type": "Days", "days": days}, days * D
    elif x < 0.8:
        hours = rng.choice([1, 2, 3, 6, 12, 24, 36])
        ts, d = {"type": "Hours", "hours": hours}, hours * H
        if rng.random() < 0.3:
            start += dt.timedelta(hours=rng.randint(1, 23))
    elif x < 0.9:
        fr, d = rng.choice([("1d", D), ("1w", 7 * D), ("12h", 12 * H), ("30m", 30)])
        ts = {"type": "Frequency", "freq": fr}
    else:
        n = rng.choice([2, 2, 3, 4])
        b = months(start, n)
        ts = {"type": "Frequency", "freq": "1mo"}
        # the last step of a calendar frequency ends where the next would begin
        return start, [(b[k], b[k + 1] - b[k]) for k in range(n)], ts
    return start, [(k * d, d) for k in range(n)], ts


def make_series(rng, name, start, steps, faulty, groups, d, alike=False):
    n = len(steps)
    mo = len({x[1] for x in steps}) > 1
    step = steps[0][1]
    end = steps[-1][0] + steps[-1][1]
    cand = [g for g in (15, 30, H, 2 * H, 3 * H, 5 * H, 6 * H, 12 * H, D, 36 * H, 2 * D, 3 * D, 5 * D, 7 * D, 14 * D) if end // g <= 500 and g <= end]
    if mo:
        cand = [D, D, 12 * H, 6 * H]
    cand = cand or [max(1, end // 4)]
    gap = step if rng.random() < 0.25 and not mo else rng.choice(cand)
    if rng.random() < 0.5 and not mo:
        even = [g for g in cand if g % step == 0 or step % g == 0]
        gap = rng.choice(even or [gap])
    first = 0
    if rng.random() < 0.6:
        first = -gap * rng.choice([1, 2, 3, 10])
    last = end - gap
    if rng.random() < 0.6:
        last = end + gap * rng.choice([0, 1, 2, 9])
    if last < gap:
        last = gap
    what = ""
    if faulty:
        what = rng.choice(["late", "short", "shift", "uneven", "file", "sum", "timecol", "hole", "one", "fmt", "empty"])
        if what == "late":
            first = gap * rng.choice([1, 2])
        elif what == "short":
            last = max(first, end - gap - step * rng.choice([1, 2]))
        elif what == "shift":
            s = rng.choice([1, -1]) * rng.randrange(1, gap)
            first, last = first + s, last + s
    ts = list(range(first, last + 1, gap))
    if len(ts) < 2:
        ts = [first, first + gap]
    if what == "uneven":
        i = rng.randrange(len(ts))
        if rng.random() < 0.5 and len(ts) > 3:
            ts.pop(i)
        else:
            ts[i] += rng.choice([1, gap // 3 or 1, gap // 2 or 1])
            ts.sort()
    elif what == "one":
        ts = ts[:1]
    elif what == "empty":
        ts = []
    g = rng.choice(groups) if groups and rng.random() < 0.6 else None
    nc = g["size"] if g else rng.choice([1, 1, 2, 3, 4])
    if faulty and not what == "hole" and rng.random() < 0.1:
        nc = max(1, nc + rng.choice([-1, 1]))
    pool = ["flow", "a", "b", "c", "1", "2", "g1", "g2", "level x", "d", "e", "flow_b"]
    if alike:
        pool = pool[:5]
    cols = rng.sample(pool, nc)
    if groups and rng.random() < 0.3:
        cols[rng.randrange(nc)] = rng.choice(groups)["name"]
        if len(set(cols)) < nc:
            cols = rng.sample(pool, nc)
    whole = [rng.random() < 0.5 for _ in cols]
    small = rng.random() < 0.4
    rows = []
    for t in ts:
        v = []
        for w in whole:
            x = rng.randrange(0, 40) * 1000 if small else rng.randrange(-400, 400) * 1000 if w else rng.randrange(-400000, 400000)
            v.append(x)
        rows.append({"t": t, "v": v})
    if small:
        whole = [True] * nc
    if what == "hole" and rows:
        r = rng.choice(rows)
        r["v"][rng.randrange(nc)] = NAN
    # the file
    tc = rng.choice(["date", "date", "time", "Timestamp"])
    pos = 0 if rng.random() < 0.7 else rng.randrange(nc + 1)
    midnight = start.hour == 0 and all(t % D == 0 for t in ts)
    fmt = rng.choice(["%Y-%m-%d", "%d/%m/%Y"]) if midnight and rng.random() < 0.8 else rng.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S"])
    out = []
    for r in rows:
        c = ["" if v == NAN else repr(v // 1000) if w else "%.3f" % (v / 1000) for v, w in zip(r["v"], whole)]
        c.insert(pos, (start + dt.timedelta(minutes=r["t"])).strftime(fmt))
        out.append(c)
    if rng.random() < 0.25 and what not in ("uneven",):
        rng.shuffle(out)
    head = list(cols)
    head.insert(pos, tc)
    fn = "%s-%d.%s" % (name.replace(" ", "_").replace(":", "_"), ord(name[-1]), rng.choice(["csv", "csv", "CSV"]))
    with open(os.path.join(d, fn), "w") as fh:
        w = csv.writer(fh, lineterminator="\n")
        w.writerow(head)
        w.writerows(out)
    j = {"meta": {"name": name}, "type": "Polars", "url": fn}
    bad = False
    if pos or rng.random() < 0.6:
        j["time_col"] = tc
    if what == "timecol":
        j["time_col"], bad = "no-such-col", True
    elif what == "file":
        j["url"], bad = "no-such-file.csv", True
    elif what == "fmt":
        j["url"], bad = rng.choice(["data.xls", "data"]), True
        with open(os.path.join(d, j["url"]), "w") as fh:
            fh.write("date,a\n")
    elif what == "sum" or rng.random() < 0.15:
        h = hashlib.sha256(open(os.path.join(d, fn), "rb").read()).hexdigest()
        if what == "sum":
            h, bad = h[:-1] + ("0" if h[-1] != "0" else "1"), True
        j["checksum"] = {"type": "SHA256", "hash": h}
    return j, {"name": name, "bad": bad, "cols": cols, "rows": rows, "small": small, "whole": whole, "group": g["name"] if g else None, "gap": gap, "step": step, "mo": mo}


def make(cid, rng, d):
    os.makedirs(d, exist_ok=True)
    start, steps, ts = clock(rng)
    groups = [{"name": "g%d" % k, "size": rng.choice([2, 2, 3, 4])} for k in range(1, rng.choice([1, 1, 2, 3]))]
    jg = []
    for g in groups:
        j = dict(g)
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                a = rng.randrange(g["size"] - 1)
                j["subset"] = {"type": "Slice", "start": a, "end": rng.randint(a + 2, g["size"])}
            else:
                j["subset"] = {"type": "Indices", "indices": sorted(rng.sample(range(g["size"]), rng.randint(1, g["size"])))}
        jg.append(j)
    faulty = rng.random() < 0.35
    ns = rng.choice([1, 2])
    which = rng.randrange(ns) if faulty and rng.random() < 0.75 else -1
    js, ser = [], []
    alike = rng.choice([["obs-a", "obs-b"], ["obs-a", "b-obs"], ["obs", "obs-a"], ["a-obs", "b-obs"], ["x.y", "x.z"], ["x:y", "x:z"], ["S", "s"], ["a b c", "a b d"]]) if rng.random() < 0.4 else None
    for k in range(ns):
        a, b = make_series(rng, alike[k] if alike else rng.choice(["ser%d", "ser %d", "n%d"]) % k, start, steps, k == which, groups, d, bool(alike))
        js.append(a)
        ser.append(b)
    refs, pars, probes = [], [], []
    nodes = [{"meta": {"name": "n0"}, "type": "Input"}, {"meta": {"name": "n1"}, "type": "Output"}]
    edges = [{"from_node": "n0", "to_node": "n1"}]
    n = rng.randint(1, 6)
    wrong = rng.randrange(n) if faulty and which < 0 else -1
    gi = {g["name"]: k + 1 for k, g in enumerate(groups)}
    for i in range(n):
        si = rng.randrange(ns) + 1
        se = ser[si - 1]
        by = "scen" if se["group"] and rng.random() < 0.6 else "one" if len(se["cols"]) == 1 and rng.random() < 0.5 else "col"
        nm = se["group"] if by == "scen" else rng.choice(se["cols"]) if by == "col" else ""
        if i == wrong:
            x = rng.choice(["series", "col", "group", "single", "time"])
            if x == "series":
                si = 0
            elif x == "col":
                by, nm = "col", "no-such-column"
            elif x == "group":
                by, nm = "scen", "no-such-group"
            elif x == "single":
                by, nm = "one", ""
            else:
                by, nm = "col", js[si - 1].get("time_col", "date")
        sname = se["name"] if si else "no-such-series"
        j = {"type": "Timeseries", "name": sname}
        if by == "col":
            j["columns"] = {"type": "Column", "name": nm}
        elif by == "scen":
            j["columns"] = {"type": "Scenario", "name": nm}
        pn = "p%d" % i
        if se["small"] and (se["gap"] >= se["step"] and not se["mo"]) and rng.random() < 0.5 and (nm != "no-such-column"):
            pars.append({"meta": {"name": pn}, "type": "IndexedArray", "index_parameter": j,
                         "metrics": [{"type": "Literal", "value": x} for x in range(41)]})
            probes.append({"m": "param", "name": pn})
        elif se["small"] and rng.random() < 0.3:
            nodes.append({"meta": {"name": "m%d" % i}, "type": "Link", "max_flow": j})
            edges += [{"from_node": "n0", "to_node": "m%d" % i}, {"from_node": "m%d" % i, "to_node": "n1"}]
            probes.append({"m": "maxflow", "node": "m%d" % i})
        else:
            pars.append({"meta": {"name": pn}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [j]})
            probes.append({"m": "param", "name": pn})
        refs.append({"s": si, "name": sname, "n": nm, "by": by,
                     "col": se["cols"].index(nm) + 1 if by == "col" and nm in se["cols"] else 0, "g": gi.get(nm, 0) if by == "scen" else 0})
    # a node's own parameter with the same name as a column
    if rng.random() < 0.2:
        k = rng.randrange(len(nodes))
        nodes[k]["parameters"] = [{"meta": {"name": rng.choice(ser[0]["cols"])}, "type": "Constant", "value": {"type": "Literal", "value": 777}}]
    rng.shuffle(pars)
    rng.shuffle(js)
    end = start + dt.timedelta(minutes=steps[-1][0])
    fm = "%Y-%m-%dT%H:%M:%S" if start.hour or any(t % D for t, _ in steps) else "%Y-%m-%d"
    if ts.get("freq") == "1mo" or rng.random() < 0.3:
        end += dt.timedelta(minutes=rng.randrange(0, steps[-1][1]) if fm != "%Y-%m-%d" else 0)
    model = {"metadata": {"title": cid}, "time": {"start": start.strftime(fm), "end": end.strftime(fm), "timestep": ts},
             "network": {"nodes": nodes, "edges": edges, "parameters": pars, "timeseries": js}}
    if jg:
        model["scenarios"] = {"groups": jg}
    case = {"id": cid, "dir": d, "model": model, "extras": {"": {"probes": probes}}, "runs": [{"tag": "r", "solver": "highs", "mode": "run"}]}
    spec = {"id": cid, "steps": [{"t": t, "d": x} for t, x in steps], "series": [{k: s[k] for k in ("name", "bad", "cols", "rows")} for s in ser],
            "refs": refs, "sizes": [g["size"] for g in groups]}
    return case, spec


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    root = os.path.join(chk.work, "data")
    cs = [make("%s-%d" % (pid, k), rng, os.path.join(root, str(k))) for k in range(700 if tier() == "quick" else 7000)]
    tr = run_driver([c for c, _ in cs], chk.work)
    sp = []
    for c, s in cs:
        t = tr[c["id"]]
        chk.cases[c["id"]] = c
        if t["status"] in ("panic", "crash"):
            chk.reject({"case": c["id"], "what": "a series never makes the program crash", "got": str(t.get("error"))[:300]})
            continue
        r = t["runs"][0] if t["status"] == "ok" else {"status": t["status"], "error": t.get("error")}
        ok = r["status"] == "ok"
        err = str(r.get("error"))
        obs, scens = [], [[1] * len(s["sizes"])]
        if t["status"] == "ok":
            scens = [[i + 1 for i in x["schema"]] for x in t["scens"]]
            n = [[x["y"], x["mo"], x["d"], x["h"], x["mi"]] for x in t["times"]]
        if ok:
            got = {(x["s"], x["t"]): x["v"] for x in r["obs"][""]["after"]}
            obs = [[got[(a, k)] for k in range(len(s["steps"]))] for a in range(len(scens))]
            if len(t["times"]) != len(s["steps"]):
                chk.reject({"case": c["id"], "what": "number of steps", "got": len(t["times"])})
                continue
        s.update(built=ok, error=err[:300] if not ok else "", obs=obs, scens=scens,
                 named=[n for n in {x["name"] for x in s["series"]} | {x["n"] for x in s["refs"] if x["n"]} | {"no-such-series"} if n in err])
        chk.count("used" if ok else "refused")
        for x in s["refs"]:
            chk.count("reference by " + x["by"])
        chk.traces += max(1, len(obs))
        sp.append(s)
    shutil.rmtree(root)
    res = tlc_cases("TraceSeries", sp, chk.work, weight=lambda o: 3 + sum(len(x["rows"]) for x in o["series"]) * len(o["steps"]))
    chk.add(res)
    want = sum(len(s["series"]) * (len(s["steps"]) + 2) + 2 for s in sp)
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.samples = [{"case": s["id"], "series": [[x["name"], x["cols"], len(x["rows"])] for x in s["series"]], "steps": len(s["steps"]), "refs": s["refs"]} for s in sp[:3]]
    return chk.finish()
