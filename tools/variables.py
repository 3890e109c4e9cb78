"""Variable parameters: P27, decided by Variables.tla."""
import random

import genpar
import plans
from sim import Case, f, lit
from vplib import Check, INF, run_driver, seed, tier, tlc_cases

NOACT = {"k": "none", "min": 0, "max": 0, "on": 0, "off": 0, "rate": 0, "range": 0, "lo": 0, "hi": 0}


def act(rng, c=None):
    """(model file form, specification form)"""
    x = rng.choice(["Unit", "Unit", "Rectifier", "BinaryStep", "Logistic"])
    g = lambda: rng.randrange(-8, 30) * 500
    if x == "Unit":
        a, b = sorted((g(), g()))
        return {"type": x, "min": f(a), "max": f(b)}, dict(NOACT, k=x, min=a, max=b)
    off = rng.choice([None, g()])
    o = {} if off is None else {"off_value": f(off)}
    if x == "Rectifier":
        a, b = sorted((g(), g()))
        return dict({"type": x, "min": f(a), "max": f(b)}, **o), dict(NOACT, k=x, min=a, max=b, off=off or 0)
    if x == "BinaryStep":
        a = g()
        return dict({"type": x, "on_value": f(a)}, **o), dict(NOACT, k=x, on=a, off=off or 0)
    r, m = rng.choice([0, 1000]), rng.randrange(1, 40) * 500
    return {"type": x, "growth_rate": f(r), "max": f(m)}, dict(NOACT, k=x, rate=r, max=m)


def rbf_act(rng):
    r = rng.choice([None, 0, 5, 40, 400])
    lo, hi = rng.choice([None, 500, -2000]), rng.choice([None, 9000])
    j = {"type": "Rbf", "is_active": True, "days_of_year_range": r, "value_lower_bounds": None if lo is None else f(lo), "value_upper_bounds": None if hi is None else f(hi)}
    return {k: v for k, v in j.items() if v is not None}, dict(NOACT, k="Rbf", range=-1 if r is None else r, lo=lo or 0, hi=INF if hi is None else hi)


def value_for(rng, a):
    if a["k"] == "Unit":
        return rng.randrange(-20, 50) * 500
    if a["k"] == "Logistic":
        return rng.randrange(-8, 9) * 1000
    return rng.choice([-3000, -1000, -250, 0, 125, 250, 500, 1000, 2500])


def make(cid, rng):
    g = genpar.PGen(random.Random(rng.random()), cid, nt=rng.choice([4, 6, 8]), scen=0.6)
    c = g.c
    vs = []
    profile = rng.random() < 0.3          # one profile, of which everything is assigned
    for k in range(1 if profile else rng.choice([1, 2, 3])):
        x = 1 if profile else rng.random()
        if x < 0.2:
            v = rng.randrange(-4, 12) * 500
            m = c.par({"k": "const", "v": v, "ex": True}, {"type": "Constant", "value": {"type": "Literal", "value": f(v)}})
        elif x < 0.6:
            m = g.unary("off")
        else:
            xs = sorted(rng.sample(range(0, 365), rng.choice([2, 2, 3, 4])))
            # some points near the days of the run, where a moved point shows
            d0 = c.start.timetuple().tm_yday - 1
            if rng.random() < 0.7:
                xs = sorted({min(364, max(0, d0 + rng.choice([-6, -2, -1, 0, 1, 2, 5]))) for _ in range(3 if profile else 2)} | set(xs[:2]))
            win = sorted({(d0 + q) % 365 for q in range(8)})
            if profile and rng.random() < 0.7:
                xs = sorted(rng.sample(win, rng.choice([2, 3, 3, 4])))
            ys = [rng.randrange(0, 30) * 500 for _ in xs]
            m = c.par({"k": "rbf", "xs": xs, "v": ys, "fn": "Linear", "ex": True},
                      {"type": "RbfProfile", "points": [[a, f(b)] for a, b in zip(xs, ys)], "function": {"type": "Linear"}})
        vs.append(m["i"])
    # what depends on them
    for _ in range(rng.choice([1, 2])):
        i = rng.choice(vs)
        x = {"k": "par", "i": i}
        k = rng.choice(["Sum", "Mean", "Min", "Max", "neg", "off"])
        if k == "neg":
            c.par({"k": "neg", "x": x, "ex": False, "v": 0}, {"type": "Negative", "parameter": c.mj(x)})
        elif k == "off":
            o = rng.randrange(-4, 8) * 500
            vs.append(c.par({"k": "off", "x": x, "ex": False, "v": o}, {"type": "Offset", "metric": c.mj(x), "offset": {"type": "Literal", "value": f(o)}})["i"])
        else:
            ms = [x, g.leaf(), {"k": "par", "i": rng.choice(vs)}]
            c.par({"k": "agg", "f": k, "ms": ms, "tz": 0, "ex": False}, {"type": "Aggregated", "phase": "Before", "agg_func": {"type": k}, "metrics": [c.mj(m) for m in ms]})
    # a node limited by one of them
    i = rng.choice(vs)
    lim = c.par({"k": "max", "x": {"k": "par", "i": i}, "v": 0, "ex": False}, {"type": "Max", "parameter": c.mj({"k": "par", "i": i}), "threshold": 0})
    a = c.node("in", mx=lim)
    b = c.node("out", cost=lit(-1000))
    c.edge(a, b)
    # executions
    ns = len(c.scens())
    execs, runs = [], []
    for e in range(rng.choice([1, 2, 2])):
        ops, plan, left = [], [], c.nt
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < 0.35:
                n = rng.choice([1, 1, 2, c.nt])
                ops.append({"op": "steps", "n": n})
                plan.append({"steps": n})
                continue
            if x < 0.4:
                ops.append({"op": "run", "n": 0})
                plan.append({"run": True})
                continue
            op = "set" if x < (0.9 if profile else 0.75) else "get" if x < 0.9 else "bounds"
            i = vs[0] if profile else rng.choice(vs) if rng.random() < 0.92 else rng.randrange(len(c.pars)) + 1
            p = c.pars[i - 1]
            if p["k"] in ("arr", "arr2") and any(a["name"] == p["name"] and a.get("index") for a in c.arrays):
                i = vs[0]
                p = c.pars[i - 1]
            days = p["k"] == "rbf" and rng.random() < 0.45 or rng.random() < 0.04
            ja, sa = rbf_act(rng) if p["k"] == "rbf" else act(rng)
            scen = rng.randint(1, ns) if rng.random() < 0.5 else 0
            n = len(p["xs"]) if p["k"] == "rbf" else 1
            if rng.random() < 0.06:
                n += rng.choice([-1, 1, 2])
            if days:
                xs = sorted(rng.sample(range(0, 365), max(n, 1)))[:n]
                if p["k"] == "rbf" and n == len(p["xs"]) and rng.random() < 0.7:
                    y = sorted({min(364, max(0, q + rng.choice([-3, -1, 0, 1, 2, 4]))) for q in p["xs"]})
                    xs = y if len(y) == n else xs
                if profile and n <= len(win) and rng.random() < 0.7:
                    xs = sorted(rng.sample(win, n))
                values = xs
                if rng.random() < 0.5:
                    values = rng.sample(xs, len(xs))
                if len(values) > 1 and rng.random() < 0.12:      # two points on one day
                    a, b = rng.sample(range(len(values)), 2)
                    values = list(values)
                    values[b] = values[a] + rng.choice([0, 0, 365])
            elif p["k"] == "rbf":
                values = [rng.randrange(0, 30) * 500 for _ in range(n)]
            else:
                values = [value_for(rng, sa) for _ in range(n)]
            ops.append({"op": op, "n": 0, "p": i, "values": values, "act": sa, "scen": scen, "days": days})
            v = {"op": op, "param": p["name"], "values": values, "act": ja, "days": days}
            if scen:
                v["scen"] = scen - 1
            plan.append({"var": v})
        ops.append({"op": "run", "n": 0})
        plan.append({"run": True})
        execs.append({"tag": "e%d" % e, "ops": ops})
        runs.append({"tag": "e%d" % e, "solver": "highs", "mode": "plan", "plan": plan, "threads": rng.choice([0, 0, 2])})
    # an execution without assignments afterwards: nothing has stuck
    ops = [{"op": "get", "n": 0, "p": vs[0], "values": [], "act": NOACT, "scen": 0, "days": False}, {"op": "run", "n": 0}]
    execs.append({"tag": "fresh", "ops": ops})
    runs.append({"tag": "fresh", "solver": "highs", "mode": "plan",
                 "plan": [{"var": {"op": "get", "param": c.pars[vs[0] - 1]["name"]}}, {"run": True}]})
    for e in execs:
        e["ops"] = [dict({"p": 1, "values": [], "act": NOACT, "scen": 0, "days": False}, **o) for o in e["ops"]]
    return c, execs, runs


def answer(x):
    if not isinstance(x, dict):
        return x
    return dict({"all": [], "one": [], "lo": [], "hi": [], "n": 0}, **{k: v for k, v in x.items() if k != "err"})


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    cs = [make("%s-%d" % (pid, k), rng) for k in range(400 if tier() == "quick" else 3000)]
    cs = [(c, c.driver(runs), execs) for c, execs, runs in cs] + plans.variables(chk)
    tr = run_driver([d for _, d, _ in cs], chk.work)
    sp = []
    for c, d, execs in cs:
        c.id = d["id"]
        t = tr[c.id]
        chk.cases[c.id] = d
        if t["status"] != "ok":
            chk.reject({"case": c.id, "what": "the case did not build", "got": (t["status"], str(t.get("error"))[:300])})
            continue
        s = c.spec([])
        s["nt"] = c.nt
        s["execs"] = []
        byrun = {r["tag"]: r for r in t["runs"]}
        for e in execs:
            r = byrun[e["tag"]]
            if "states" in r:
                r = dict(r, **r["states"][e.get("set-up", 0)])
            obs = c.observed(r)
            if r["status"] != "ok" or obs is None:
                chk.reject({"case": c.id, "what": "the execution failed", "got": [r["tag"], r["status"], str(r.get("error"))[:300]]})
                continue
            s["execs"].append(dict(e, obs=obs, log=[answer(x) for x in r["log"]]))
            chk.count("executions")
            for o in e["ops"]:
                chk.count("op " + o["op"])
            chk.traces += len(obs)
        if s["execs"]:
            sp.append(s)
    res = tlc_cases("TraceVar", sp, chk.work, weight=lambda o: sum(len(e["obs"]) for e in o["execs"]) * o["nt"])
    chk.add(res)
    want = sum(len(e["ops"]) + 1 for s in sp for e in s["execs"])
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.samples = [{"case": s["id"], "executions": [[o["op"] for o in e["ops"]] for e in s["execs"]], "steps": s["nt"]} for s in sp[:3]]
    return chk.finish()
