"""Every way of executing a small model: enumerated by Plans.tla, then put through the program (P25, P11, P27)."""
import itertools
import json
import os

import histories
from sim import Case, f, lit
from vplib import ToolError, tier, tlc

NONE = {"k": "none", "min": 0, "max": 0, "on": 0, "off": 0, "rate": 0, "range": 0, "lo": 0, "hi": 0}
STEP = lambda n: {"op": "steps", "n": n}
RUN = {"op": "run", "n": 0}


def words(chk, world, nt, length, setups, ops):
    """[[(set-up, letter)]] of every length up to the given one"""
    full = [dict({"p": 1, "values": [], "act": NONE, "scen": 0, "days": False}, **o) for o in ops]
    p = os.path.join(chk.work, "plans.json")
    json.dump({"world": world, "nt": nt, "len": length, "setups": setups, "ops": full}, open(p, "w"))
    r = tlc("Plans", env={"CASES": p}, work=chk.work, workers=6)
    out = sorted({line[6:-1] for line in r.prints if line.startswith('"PLAN ')})
    out = [[tuple(x) for x in json.loads(w)] for w in out]
    k = setups * len(ops)
    want = sum(k ** i for i in range(1, length + 1))
    if len(out) != want or r.distinct != want + 1:
        raise ToolError("Plans: %d plans, %d states, expected %d" % (len(out), r.distinct, want))
    chk.states += r.distinct
    chk.transitions += r.states
    return out


def recorded(d):
    net = d["model"]["network"]
    net["metric_sets"] = [{"name": "all", "metrics": [], "filters": {"all_nodes": True, "all_virtual_nodes": True, "all_parameters": True, "all_edges": True}}]
    net["outputs"] = [{"type": "Memory", "name": "mem", "metric_set": "all"}]
    d["extras"][""]["outputs"] = ["mem"]
    return d


def letters(nt, k):
    """k scenarios that live through different things"""
    ws = list(itertools.product(range(1, 5), repeat=nt))
    return [list(ws[(i * 37 + 11) % len(ws)]) for i in range(k)]


def executions(chk, pid):
    """P25: [(driver case, number of steps, runs: [(run, [(set-up, ops)])])]"""
    quick = tier() == "quick"
    out = []
    for kind, nt, length, setups, ops in (("single", 3, 4 if quick else 5, 1, [STEP(1), STEP(2), RUN]),
                                          ("double", 3, 4 if quick else 5, 2, [STEP(1), RUN]),
                                          ("triple", 2, 3 if quick else 4, 3, [STEP(1), RUN])):
        c = histories.world("%s-%s" % (pid, kind), nt, letters(nt, 3))
        ws = words(chk, c.spec([]), nt, length, setups, ops)
        chk.count("plans enumerated by the specification and replayed", len(ws))
        if setups > 1:      # those that concern one set-up only are in the first family
            ws = [w for w in ws if len({on for on, _ in w}) > 1]
        js = [{"steps": o["n"]} if o["op"] == "steps" else {"run": True} for o in ops]
        size = 24
        for k in range(0, len(ws), size):
            d = recorded(c.driver([]))
            d["id"] = "%s-%s%d" % (pid, kind, k // size)
            rs = [{"tag": "first", "solver": "highs"}]
            proj = [[(0, [{"op": "whole", "n": 0}])]]
            for i, w in enumerate(ws[k:k + size]):
                rs.append({"tag": "w%d" % i, "solver": "highs", "mode": "plan", "setups": setups, "threads": (0, 0, 2)[i % 3],
                           "plan": [dict(js[l - 1], on=on - 1) for on, l in w]})
                proj.append([(s, [dict(ops[l - 1]) for on, l in w if on == s + 1]) for s in range(setups)])
            d["runs"] = rs
            out.append((d, nt, proj))
    return out


def selections(pid):
    """P11: every ordered choice of scenarios of a small domain, every subset of its groups, every number of threads."""
    nt = 3
    out = []
    full = histories.world("%s-sel" % pid, nt, letters(nt, 4))
    # four scenarios, one group of four
    base = recorded(full.driver([]))
    group = base["model"]["scenarios"]["groups"][0]
    thr = [0, 1, 2, 3, 4, 8]
    base["runs"] = [{"tag": "first", "solver": "highs"}] + [{"tag": "threads %d" % t, "solver": "highs", "threads": t} for t in thr[1:]]
    subs = []
    for r in (1, 2, 3, 4):
        for x in itertools.permutations(range(4), r):
            subs.append({"groups": [dict(group)], "combinations": [[i] for i in x]})
    for r in (1, 2, 3):
        for x in itertools.combinations(range(4), r):
            subs.append({"groups": [dict(group, subset={"type": "Indices", "indices": list(x)})]})
    for a in range(4):
        for b in range(a + 1, 5):
            subs.append({"groups": [dict(group, subset={"type": "Slice", "start": a, "end": b})]})
    out.append((base, nt, subs, thr))
    return out


def variables(chk):
    """P27: (case, executions, runs) as variables.make gives them"""
    quick = tier() == "quick"
    out = []
    unit = {"type": "Unit", "min": -100.0, "max": 100.0}
    sunit = dict(NONE, k="Unit", min=-100000, max=100000)
    rect = {"type": "Rectifier", "min": 2.0, "max": 10.0, "off_value": 1.0}
    srect = dict(NONE, k="Rectifier", min=2000, max=10000, off=1000)
    rbf = {"type": "Rbf", "is_active": True, "days_of_year_range": 5}
    srbf = dict(NONE, k="Rbf", range=5, hi=2000000001)
    for kind, setups, length in (("single", 1, 4 if quick else 5), ("double", 2, 3 if quick else 4)):
        c = Case("plan-%s" % kind, (2019, 1, 10), 3, days=1)
        c.group(2)
        o = c.par({"k": "off", "x": lit(1000), "ex": True, "v": 500}, {"type": "Offset", "metric": c.mj(lit(1000)), "offset": {"type": "Literal", "value": 0.5}})
        r = c.par({"k": "rbf", "xs": [8, 12, 200], "v": [1000, 5000, 2000], "fn": "Linear", "ex": True},
                  {"type": "RbfProfile", "points": [[8, 1.0], [12, 5.0], [200, 2.0]], "function": {"type": "Linear"}})
        a = c.par({"k": "agg", "f": "Sum", "ms": [o, r], "tz": 0, "ex": False},
                  {"type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [c.mj(o), c.mj(r)]})
        lim = c.par({"k": "max", "x": a, "v": 0, "ex": False}, {"type": "Max", "parameter": c.mj(a), "threshold": 0})
        c.edge(c.node("in", mx=lim), c.node("out", cost=lit(-1000)))
        S = lambda m, vs, sc, ja, sa, days=False: ({"op": "set", "n": 0, "p": m["i"], "values": vs, "act": sa, "scen": sc, "days": days},
                                                 {"var": dict({"op": "set", "param": c.pars[m["i"] - 1]["name"], "values": vs, "act": ja, "days": days}, **({"scen": sc - 1} if sc else {}))})
        ops = [(STEP(1), {"steps": 1}), S(o, [3000], 0, unit, sunit), S(o, [500], 1, rect, srect), S(r, [0, 8000, 4000], 2, rbf, srbf)]
        if setups == 1:
            ops += [S(o, [-7000], 2, unit, sunit), S(r, [9, 10, 300], 0, rbf, srbf, True), S(r, [1000, 2000], 1, rbf, srbf)]
        ws = words(chk, c.spec([]), 3, length, setups, [x for x, _ in ops])
        chk.count("plans enumerated by the specification and replayed", len(ws))
        if setups > 1:
            ws = [w for w in ws if len({on for on, _ in w}) > 1]
        else:
            ws = [w for w in ws if len(w) == length]      # the shorter ones are their beginnings
        get = [({"op": "get", "n": 0, "p": m["i"], "values": [], "act": NONE, "scen": 0, "days": dy}, {"var": {"op": "get", "param": c.pars[m["i"] - 1]["name"], "days": dy}})
               for m, dy in ((o, False), (r, False), (r, True))]
        tail = get + [(RUN, {"run": True})]
        size = 100
        for k in range(0, len(ws), size):
            execs, runs = [], []
            for i, w in enumerate(ws[k:k + size]):
                plan = [dict(ops[l - 1][1], on=on - 1) for on, l in w] + [dict(x, on=s) for s in range(setups) for _, x in tail]
                runs.append({"tag": "w%d" % i, "solver": "highs", "mode": "plan", "setups": setups, "plan": plan, "finalise": False})
                for s in range(setups):
                    own = [ops[l - 1][0] for on, l in w if on == s + 1] + [x for x, _ in tail]
                    execs.append({"tag": "w%d" % i, "set-up": s, "ops": [dict({"p": 1, "values": [], "act": NONE, "scen": 0, "days": False}, **q) for q in own]})
            d = c.driver(runs)
            d["id"] = "plan-%s%d" % (kind, k // size)
            out.append((c, d, execs))
    return out
