"""Domains: time-steps (P12) and scenarios (P10), decided by Domain.tla."""
import datetime as dt
import random

from sim import WORDS
from vplib import Check, run_driver, seed, tier, tlc_cases

FREQ = {"mo": ("mo", 1), "q": ("mo", 3), "y": ("mo", 12), "w": ("d", 7), "d": ("d", 1), "h": ("s", 3600), "m": ("s", 60), "s": ("s", 1)}


def rec(t):
    return {"y": t.year, "mo": t.month, "d": t.day, "h": t.hour, "mi": t.minute, "s": t.second}


def length(rng):
    """(timestep JSON, [mo, d, s] or None if not a length)"""
    z = {"mo": 0, "d": 0, "s": 0}
    k = rng.random()
    if k < 0.2:
        n = rng.choice([1, 1, 2, 3, 5, 7, 10, 30, 31, 100, 365, 366])
        return {"type": "Days", "days": n}, dict(z, d=n)
    if k < 0.4:
        n = rng.choice([1, 2, 5, 6, 7, 12, 23, 24, 25, 36, 49])
        return {"type": "Hours", "hours": n}, dict(z, s=3600 * n)
    parts = []
    for u in rng.sample(list(FREQ), rng.choice([1, 1, 1, 1, 2])):
        parts.append((rng.choice([1, 1, 1, 2, 3, 5, 6, 12, 30]) if u not in ("y", "q") else rng.choice([1, 1, 2]), u))
    parts.sort(key=lambda p: list(FREQ).index(p[1]))
    if k > 0.96:
        parts = [(0, rng.choice(list(FREQ)))]
    ln = dict(z)
    for n, u in parts:
        w, f = FREQ[u]
        ln[w] += n * f
    s = "".join("%d%s" % p for p in parts)
    if k > 0.98:
        s, ln = "-" + "1" + rng.choice(list(FREQ)), dict(z, d=-1)
    elif 0.94 < k <= 0.96:
        s, ln = rng.choice(["abc", "", "1x", "d", "1", "two days", "1d!", "7 d"]), dict(z)
    return {"type": "Frequency", "freq": s}, ln


def a_start(rng):
    y = rng.choice([2015, 2016, 2019, 2020, 2023, 2024, 1999, 2000, 1900, 1904, 2099, 2100, 1583])
    mo, d = rng.choice([(1, 1), (1, 31), (2, 28), (12, 31), (10, 30), (8, 31), (2, 27), (2, 25), (12, 1), (3, 1), (rng.randint(1, 12), rng.randint(1, 28))])
    if rng.random() < 0.1 and (y % 4 == 0 and y % 100 or y % 400 == 0):
        mo, d = 2, 29
    t = dt.datetime(y, mo, d)
    if rng.random() < 0.3:
        t += dt.timedelta(hours=rng.randint(0, 23), minutes=rng.choice([0, 30, 59, 1]), seconds=rng.choice([0, 0, 30, 59]))
    return t


def base(cid, start, end, step, groups=None, combos=None):
    m = {"metadata": {"title": cid}, "time": {"start": start.isoformat(), "end": end.isoformat(), "timestep": step},
         "network": {"nodes": [{"meta": {"name": "in"}, "type": "Input", "max_flow": {"type": "Literal", "value": 1}},
                               {"meta": {"name": "out"}, "type": "Output", "cost": {"type": "Literal", "value": -1}, "max_flow": {"type": "Literal", "value": 5}}],
                     "edges": [{"from_node": "in", "to_node": "out"}], "parameters": []}}
    if groups is not None:
        m["scenarios"] = {"groups": groups}
        if combos is not None:
            m["scenarios"]["combinations"] = combos
    return m


def time_case(cid, rng):
    step, ln = length(rng)
    start = a_start(rng)
    days = ln["mo"] * 30.4 + ln["d"] + ln["s"] / 86400
    n = rng.choice([0, 1, 2, 3, 5, 12, 13, 25, 40])
    if days <= 0 or days * n > 9000:
        n = 2
    span = dt.timedelta(seconds=int(max(days, 0.01) * 86400 * n))
    r = rng.random()
    if r < 0.35 and not ln["mo"]:       # ends exactly on the beginning of a step, or just about
        end = start + dt.timedelta(seconds=(ln["d"] * 86400 + ln["s"]) * n + rng.choice([0, 0, -1, 1]))
    elif r < 0.5:                       # the first of a month
        e = start + span
        end = dt.datetime(e.year, e.month, 1, start.hour, start.minute, start.second)
    else:
        end = start + span + dt.timedelta(hours=rng.choice([0, 0, 1, 23]))
    if rng.random() < 0.05:
        end = start - dt.timedelta(seconds=rng.choice([1, 3600, 86400 * 10]))
    tot = (end - start).total_seconds()
    if days > 0 and tot / (days * 86400) > 60:
        end = start + dt.timedelta(seconds=int(days * 86400 * 20))
    sp = {"id": cid, "tag": "P12", "start": rec(start), "end": rec(end), "len": ln, "groups": [{"name": "Default", "size": 1, "lab": [], "sub": "none", "a": 0, "b": 0, "ix": [], "lb": []}],
          "hascombo": False, "combos": [], "con": [], "arr": []}
    m = base(cid, start, end, step)
    return sp, {"id": cid, "model": m, "extras": {"": {"bprobes": [{"m": "out", "node": "in"}], "probes": [{"m": "in", "node": "out"}]}},
                "runs": [{"tag": "a", "solver": "highs"}]}, None


def scen_case(cid, rng):
    nt = 3
    start = dt.datetime(2020, 2, 27)
    end = start + dt.timedelta(days=nt - 1)
    ng = rng.choice([1, 1, 2, 2, 3])
    G, J = [], []
    combo = rng.random() < 0.3
    bad = rng.random() < 0.25
    for i in range(ng):
        size = rng.choice([1, 2, 3, 4, 5, 7] if ng < 3 else [1, 2, 3])
        g = {"name": "g%d" % i, "size": size, "lab": [], "sub": "none", "a": 0, "b": 0, "ix": [], "lb": []}
        if rng.random() < 0.5:
            pool = ["w%d" % k for k in range(size)] if rng.random() < 0.4 else rng.sample(WORDS if rng.random() < 0.5 else WORDS[:10], size) if rng.random() < 0.6 else ["%d" % (size - k) for k in range(size)]
            g["lab"] = pool
        if not combo and rng.random() < 0.7:
            g["sub"] = rng.choice(["slice", "indices", "labels"] if g["lab"] else ["slice", "indices"])
            if g["sub"] == "slice":
                g["a"] = rng.randint(0, size - 1)
                g["b"] = rng.randint(g["a"] + 1, size)
            else:
                pick = rng.sample(range(size), rng.randint(1, size))
                if rng.random() < 0.5:
                    pick.sort()
                if g["sub"] == "indices":
                    g["ix"] = pick
                else:
                    g["lb"] = [g["lab"][k] for k in pick]
        G.append(g)
    combos = []
    if combo:
        seen = set()
        for _ in range(rng.randint(1, 6)):
            x = tuple(rng.randrange(g["size"]) for g in G)
            if x in seen:
                continue
            seen.add(x)
            combos.append([{"k": "l", "i": 0, "l": g["lab"][v]} if g["lab"] and rng.random() < 0.5 else {"k": "i", "i": v, "l": ""} for g, v in zip(G, x)])
    if bad:
        r = rng.choice([0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8])
        g = rng.choice(G)
        if r == 0 and ng > 1:
            G[-1]["name"] = G[0]["name"]
        elif r == 1:
            g["lab"] = ["x%d" % k for k in range(g["size"] + rng.choice([-1, 1]))] or ["x", "y"]
        elif r == 2 and not combo:
            g["sub"], g["a"], g["b"] = "slice", rng.choice([(0, g["size"] + 1), (g["size"], g["size"]), (0, 0), (1, 1), (2, 1), (g["size"] - 1, g["size"] - 1)]), 0
            g["a"], g["b"] = g["a"]
        elif r == 3 and not combo:
            g["sub"], g["ix"] = "indices", [0, g["size"] + rng.randint(0, 2)]
        elif r == 4 and not combo:
            g["sub"], g["lb"] = "labels", ["nowhere"]
        elif r == 5 and combos:
            combos[rng.randrange(len(combos))].pop()
        elif r == 6 and combos:
            combos[rng.randrange(len(combos))].append({"k": "i", "i": 0, "l": ""})
        elif r == 7 and combos:
            j = rng.randrange(ng)
            combos[rng.randrange(len(combos))][j] = rng.choice([{"k": "i", "i": G[j]["size"], "l": ""}, {"k": "l", "i": 0, "l": "nowhere"}])
        elif r == 8 and combos:
            g["sub"], g["a"], g["b"] = "slice", 0, 1
    for g in G:
        j = {"name": g["name"], "size": g["size"]}
        if g["lab"]:
            j["labels"] = g["lab"]
        if g["sub"] == "slice":
            j["subset"] = {"type": "Slice", "start": g["a"], "end": g["b"]}
        elif g["sub"] == "indices":
            j["subset"] = {"type": "Indices", "indices": g["ix"]}
        elif g["sub"] == "labels":
            j["subset"] = {"type": "Labels", "labels": g["lb"]}
        J.append(j)
    con = [[1000 * (100 * (i + 1) + k) for k in range(g["size"])] for i, g in enumerate(G)]
    arr = [[[1000 * (1000 * (i + 1) + 10 * t + k) for k in range(g["size"])] for t in range(nt)] for i, g in enumerate(G)]
    jc = [[e["i"] if e["k"] == "i" else e["l"] for e in x] for x in combos] if combo else None
    m = base(cid, start, end, {"type": "Days", "days": 1}, J, jc)
    names = [g["name"] for g in G]
    m["network"]["parameters"] = [{"meta": {"name": "c%d" % i}, "type": "ConstantScenario", "scenario_group": names[i], "values": {"type": "Literal", "values": [v // 1000 for v in con[i]]}} for i in range(ng)]
    arrays = [{"name": "a%d" % i, "values": arr[i], "group": names[i], "index": False} for i in range(ng)]
    probes = [{"m": "param", "name": "c%d" % i, "ret": "before"} for i in range(ng)] + [{"m": "param", "name": "a%d" % i, "ret": "before"} for i in range(ng)]
    sp = {"id": cid, "tag": "P10", "start": rec(start), "end": rec(end), "len": {"mo": 0, "d": 1, "s": 0}, "groups": G, "hascombo": combo, "combos": combos, "con": con, "arr": arr}
    return sp, {"id": cid, "model": m, "extras": {"": {"arrays": arrays, "probes": probes}}, "runs": [{"tag": "a", "solver": "highs", "threads": rng.choice([1, 1, 3])}]}, ng


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = 500 if tier() == "quick" else 5000
    if n > 1000:
        n = 5000
    mk = time_case if pid == "P12" else scen_case
    cs = [mk("%s-%d" % (pid, i), rng) for i in range(n)]
    tr = run_driver([d for _, d, _ in cs], chk.work)
    sp = []
    for s, d, ng in cs:
        t = tr[s["id"]]
        chk.cases[s["id"]] = d
        st = t["status"]
        s["built"] = st == "ok"
        s["crashed"] = st in ("panic", "crash")
        s["err"] = str(t.get("error"))[:200]
        s["times"], s["scens"], s["vals"] = [], [], []
        if st == "ok":
            s["times"], s["scens"] = t["times"], t["scens"]
            r = t["runs"][0]
            A = {(x["t"], x["s"]): x["v"] for x in r.get("obs", {}).get("", {}).get("after", [])} if r["status"] == "ok" else {}
            if r["status"] != "ok" or set(A) != {(a, b) for a in range(len(t["times"])) for b in range(len(t["scens"]))}:
                chk.reject({"case": s["id"], "what": "every step is run once for every scenario", "got": [r["status"], str(r.get("error"))[:200], len(A)]})
            elif ng:
                s["vals"] = [[{"con": A[(k, i)][:ng], "arr": A[(k, i)][ng:]} for k in range(len(t["times"]))] for i in range(len(t["scens"]))]
            chk.count("accepted")
        else:
            chk.count("refused")
        sp.append(s)
    res = tlc_cases("TraceDomain", sp, chk.work, weight=lambda s: 1 + len(s["times"]) + len(s["scens"]))
    chk.add(res)
    chk.traces += len(sp)
    want = sum(2 + (len(s["times"]) + 1 + len(s["scens"]) if s["built"] else 0) for s in sp)
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.samples = [{"case": s["id"], "steps": len(s["times"]), "scenarios": len(s["scens"]), "step": d["model"]["time"]} for s, d, _ in cs[:3]]
    return chk.finish()
