"""Every history of a small world: enumerated and judged by Histories.tla, then put through the program."""
import json
import os

from sim import Case, lit
from vplib import ToolError, tier, tlc

PARS = ("P15", "P16")
PIDS = PARS + ("P01", "P02", "P03", "P06", "P08", "P09", "P14")


def world(cid, nt, members, memories=True):
    """letters: inflow none/3 x demand 1/3; members: the words, one for each scenario (empty: to be enumerated)."""
    c = Case(cid, (2019, 1, 10), nt, days=12)
    c.group(max(1, len(members)))

    def letter(vals, index=False):
        rows = [[vals[w[t] - 1] for w in members] or [vals[0]] for t in range(nt)]
        m = c.arr2(rows, 0, index=index)
        c.pars[-1]["map"] = vals
        return m
    inflow = letter([0, 3000, 0, 3000])
    want = letter([1000, 1000, 3000, 3000])
    x = letter([0, 1000, 2000, 3000])
    xi = letter([0, 1000, 2000, 3000], True)
    on, off = letter([0, 0, 1000, 1000], True), letter([0, 1000, 0, 1000], True)
    fac = c.par({"k": "cc", "x": {"k": "pvol", "i": 2}, "ccs": [lit(450)], "vs": [lit(1000), lit(500)], "ex": False},
                {"type": "ControlCurve", "control_curves": [c.mj(lit(450))], "values": [c.mj(lit(1000)), c.mj(lit(500))],
                 "storage_metric": {"type": "Node", "name": "n2", "attribute": "ProportionalVolume"}})
    dem = c.par({"k": "agg", "f": "Product", "ms": [want, fac], "tz": 0, "ex": False},
                {"type": "Aggregated", "phase": "Before", "agg_func": {"type": "Product"}, "metrics": [c.mj(want), c.mj(fac)]})
    c.node("in", mn=inflow, mx=inflow)
    c.node("sto", maxv=lit(60000), iv=("abs", 24000), cost=lit(-1000))
    c.node("out", mx=dem, cost=lit(-10000))
    c.node("out", cost=lit(5000))
    for a, b in ((1, 2), (2, 3), (1, 4)):
        c.edge(a, b)
    c.vs([3], maxv=lit(60000), reset={"k": "months", "n": 1})
    c.vs([3], fac=[500], maxv=lit(36000), win=("steps", 3))
    c.vs([3], maxv=lit(60000), iv=("abs", 48000), reset={"k": "doy", "d": 1, "m": 1}, act=(20, 1, 16, 2))
    c.vs([3], fac=[2000], maxv=lit(900000), iv=("prop", 500), rv="max", reset={"k": "doy", "d": 30, "m": 1})
    if not memories:
        return c
    flow, vol, pvol = {"k": "nin", "i": 3}, {"k": "vol", "i": 2}, {"k": "pvol", "i": 2}
    for pred in ("LT", "GT", "EQ", "LE", "GE"):
        for ra in (False, True):
            c.par({"k": "thr", "x": x, "y": lit(1000), "pred": pred, "ratchet": ra, "ex": True},
                  {"type": "Threshold", "metric": c.mj(x), "threshold": c.mj(lit(1000)), "predicate": pred, "ratchet": ra})
            c.par({"k": "mthr", "x": x, "ms": [lit(2000), lit(1000)], "pred": pred, "ratchet": ra, "ex": True},
                  {"type": "MultiThreshold", "metric": c.mj(x), "thresholds": [c.mj(lit(2000)), c.mj(lit(1000))], "predicate": pred, "ratchet": ra})
    for m, y in ((flow, 1250), (vol, 33000), (pvol, 450)):
        for pred in ("LT", "GT"):
            c.par({"k": "thr", "x": m, "y": lit(y), "pred": pred, "ratchet": pred == "LT", "ex": False},
                  {"type": "Threshold", "metric": c.mj(m), "threshold": c.mj(lit(y)), "predicate": pred, "ratchet": pred == "LT"})
            ms = [lit(y * 3 // 2), lit(y // 2)] if pred == "GT" else [lit(y // 2), lit(y * 3 // 2)]
            c.par({"k": "mthr", "x": m, "ms": ms, "pred": pred, "ratchet": True, "ex": False},
                  {"type": "MultiThreshold", "metric": c.mj(m), "thresholds": [c.mj(v) for v in ms], "predicate": pred, "ratchet": True})
    c.par({"k": "switch", "x": on, "y": off, "ex": True}, {"type": "AsymmetricSwitchIndex", "on_index_parameter": c.ij(on), "off_index_parameter": c.ij(off)})
    c.par({"k": "switch", "x": off, "y": on, "ex": True}, {"type": "AsymmetricSwitchIndex", "on_index_parameter": c.ij(off), "off_index_parameter": c.ij(on)})
    ci = c.par({"k": "cci", "x": pvol, "ccs": [lit(650), lit(250)], "ex": False},
               {"type": "ControlCurveIndex", "control_curves": [c.mj(lit(650)), c.mj(lit(250))], "storage_metric": c.mj(pvol)})
    c.par({"k": "switch", "x": ci, "y": off, "ex": True}, {"type": "AsymmetricSwitchIndex", "on_index_parameter": c.ij(ci), "off_index_parameter": c.ij(off)})
    for n in (1, 2, 3):
        for m, ex in ((x, True), (flow, False), (vol, False)):
            c.par({"k": "delay", "x": m, "n": n, "v": -1000, "ex": ex}, {"type": "Delay", "metric": c.mj(m), "delay": n, "initial_value": -1.0})
            for mn, fn in ((n, "Sum"), (1, "Max"), (max(1, n - 1), "Mean")):
                c.par({"k": "roll", "x": m, "n": n, "mn": mn, "v": 7000, "f": fn, "tz": 0, "ex": ex},
                      {"type": "Rolling", "metric": c.mj(m), "window_size": n, "min_values": mn, "initial_value": 7.0, "agg_func": {"type": fn}})
        for m in (xi, ci):
            c.par({"k": "delay", "x": m, "n": n, "v": 5000, "ex": True}, {"type": "DelayIndex", "metric": c.ij(m), "delay": n, "initial_value": 5})
            for mn, fn in ((n, "Sum"), (1, "Max")):
                c.par({"k": "roll", "x": m, "n": n, "mn": mn, "v": 9000, "f": fn, "tz": 0, "ex": True},
                      {"type": "RollingIndex", "metric": c.ij(m), "window_size": n, "min_values": mn, "initial_value": 9, "agg_func": {"type": fn}})
    return c


def words(chk, nt, memories):
    """All histories of nt steps, from the specification: [(word, flows on the edges per step)]."""
    c = world("hist", nt, [], memories)
    p = os.path.join(chk.work, "world.json")
    json.dump({"world": c.spec([]), "steps": nt, "letters": 4}, open(p, "w"))
    r = tlc("Histories", env={"CASES": p}, work=chk.work, workers=6)
    out = []
    for line in r.prints:
        if line.startswith('"HIST '):
            d = json.loads(line[6:-1].replace('\\"', '"'))
            out.append((d["w"], d["q"]))
    if len(out) != 4 ** nt or r.distinct != sum(4 ** k for k in range(nt + 1)):
        raise ToolError("Histories: %d histories, %d states" % (len(out), r.distinct))
    chk.states += r.distinct
    chk.transitions += r.states
    return sorted(out)


def validate(chk, pid):
    """Every history is put through the program; the flows of the specification are the rivals of the program's."""
    import simcheck
    memories = pid in PARS
    nt = (4 if memories else 5) if tier() == "quick" else 6 - memories
    ws = words(chk, nt, memories)
    cs = []
    for k in range(0, len(ws), 64):
        part = ws[k:k + 64]
        c = world("hist%d" % (k // 64), nt, [w for w, _ in part], memories)
        c.flows = [q for _, q in part]
        cs.append(c)
    chk.count("histories enumerated by the specification and replayed", len(ws))
    simcheck.validate(chk, cs)
