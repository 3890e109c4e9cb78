"""Finds rival flow patterns (certificates) for one time-step. The specification, not this file, decides what a
rival is worth: TLC checks that it is permitted and cheaper before it counts."""
import numpy as np
from scipy.optimize import LinearConstraint, milp, Bounds

INF = 2000000001
M = 1e6


def val(m, r):
    k = m["k"]
    if k == "lit":
        return m["v"]
    if k == "par":
        return r["par"][m["i"] - 1]
    f = {"nin": "nin", "nout": "nout", "vol": "vol", "pvol": "pvol", "mxv": "mxv", "mxf": "mxf", "edge": "edge", "aggin": "aggin",
         "aggout": "aggout", "asv": "asv", "asp": "asp", "vsv": "vsv", "vsp": "vsp"}[k]
    return r[f][m["i"] - 1]


def active(v, d):
    p = v["act"]
    if p["k"] == "always":
        return True
    lo, hi, x = p["sm"] * 100 + p["sd"], p["em"] * 100 + p["ed"], d["mo"] * 100 + d["d"]
    return lo <= x <= hi if lo <= hi else (x >= lo or x <= hi)


def node_cost(case, b, n):
    x = val(n["cost"], b)
    vs = [val(case.vss[g - 1]["cost"], b) for g in n["vs"]]
    if n["ca"] == "none" or (not vs and n["ca"] != "sum"):
        return x
    return {"sum": x + sum(vs), "max": max([x] + vs), "min": min([x] + vs)}[n["ca"]]


def solve(case, b, d, margin=0.0):
    """Cheapest permitted flows (milli) for the state b on date d, or None if there is none.
    margin (milli): shrink every range that has room by this much."""
    ne = len(case.edges)
    dt = d["dt"] / 1000.0
    cost = np.zeros(ne)
    rows, lo, hi = [], [], []
    nb = 0
    exg = [g for g in case.aggs if g["rel"]["k"] == "excl"]
    bcol = {}
    for gi, g in enumerate(exg):
        for j in range(len(g["mem"])):
            bcol[(gi, j)] = ne + nb
            nb += 1
    n = ne + nb

    def row(coefs, l, h, shrink=True):
        r = np.zeros(n)
        for c, v in coefs:
            r[c] += v
        l = -np.inf if l <= -INF else l
        h = np.inf if h >= INF else h
        if shrink and margin and np.isfinite(l) and np.isfinite(h):
            if h - l > 2 * margin:
                l, h = l + margin, h - margin
            elif h > l:
                l = h = (l + h) / 2
        elif shrink and margin:
            if np.isfinite(l):
                l += margin
            if np.isfinite(h):
                h -= margin
        rows.append(r)
        lo.append(l)
        hi.append(h)

    def thru(i):
        nd = case.nodes[i - 1]
        if nd["k"] in ("in", "link"):
            return [(e - 1, 1.0) for e in nd["oe"]]
        if nd["k"] == "out":
            return [(e - 1, 1.0) for e in nd["ie"]]
        return [(e - 1, 1.0) for e in nd["ie"]] + [(e - 1, -1.0) for e in nd["oe"]]

    exof = {}
    for (gi, j), c in bcol.items():
        for i in exg[gi]["mem"][j]:
            exof.setdefault(i, []).append(c)
    for i, nd in enumerate(case.nodes, 1):
        w = node_cost(case, b, nd)
        for c, v in thru(i):
            cost[c] += v * w / 1000.0
        if nd["k"] == "link":
            row([(e - 1, 1.0) for e in nd["ie"]] + [(e - 1, -1.0) for e in nd["oe"]], 0, 0)
        if nd["k"] == "sto":
            mn, mx, v0 = val(nd["mnv"], b), val(nd["mxv"], b), b["vol"][i - 1]
            row(thru(i), -INF if mn <= -INF else (mn - v0) / dt, INF if mx >= INF else (mx - v0) / dt)
        elif i in exof:
            mn, mx = val(nd["mn"], b), val(nd["mx"], b)
            for c in exof[i]:
                row(thru(i) + [(c, -min(mx, M))], -INF, 0, False)
                row(thru(i) + [(c, -max(mn, 0))], 0, INF, False)
        else:
            row(thru(i), val(nd["mn"], b), val(nd["mx"], b))
    for g in case.aggs:
        q = [sum((thru(x) for x in m), []) for m in g["mem"]]
        mn, mx = val(g["mn"], b), val(g["mx"], b)
        if mn > -INF or mx < INF:
            row(sum(q, []), mn, mx)
        k = g["rel"]["k"]
        fv = [val(x, b) / 1000.0 for x in g["rel"].get("f", [])]
        if k == "prop":
            fv = [1.0 - sum(fv)] + fv
        if k in ("prop", "ratio"):
            for j in range(1, len(q)):
                row([(c, v * fv[j]) for c, v in q[0]] + [(c, -v * fv[0]) for c, v in q[j]], 0, 0)
        if k == "coef":
            rhs = val(g["rel"]["rhs"], b)
            row([(c, v * fv[0]) for c, v in q[0]] + [(c, v * fv[1]) for c, v in q[1]], rhs, rhs)
    for gi, g in enumerate(exg):
        row([(bcol[(gi, j)], 1.0) for j in range(len(g["mem"]))], g["rel"]["mina"], g["rel"]["maxa"], False)
    for gi, v in enumerate(case.vss):
        if not active(v, d):
            continue
        mx, mn, v0 = val(v["mxv"], b), val(v["mnv"], b), b["vsv"][gi]
        co = []
        for m, fc in zip(v["mem"], v["fac"]):
            nd = case.nodes[m - 1]
            co += [(e - 1, fc / 1000.0) for e in (nd["ie"] if nd["k"] == "out" else nd["oe"])]
        row(co, -INF if mx >= INF else (v0 - mx) / dt, INF if mn <= -INF else (v0 - mn) / dt)
    c = np.concatenate([cost, np.zeros(nb)])
    integ = np.concatenate([np.zeros(ne), np.ones(nb)])
    ub = np.concatenate([np.full(ne, 4e6), np.ones(nb)])
    r = milp(c, constraints=[LinearConstraint(np.array(rows), lo, hi)] if rows else [], integrality=integ, bounds=Bounds(np.zeros(n), ub))
    if r.x is None:
        return None
    return [int(round(x)) for x in r.x[:ne]]
