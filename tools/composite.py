"""Higher-level nodes of a model file (P30) and routing reaches (P28): a case is the documented network of basic
nodes behind the nodes of the model file; only what a user reads is taken from the program. This file looks for
the hidden flows (a linear programme); TLC decides whether they are permitted and give the reported values."""
import random

import numpy as np
from scipy.optimize import linprog

import rival
from gensim import rnd
from sim import Case, f, lit, localise, relay, rename
from vplib import INF, NAN, S, Check, run_driver, seed, tier, tlc_cases

NONE = {"k": "none"}


class User:
    """A node of the model file: where edges attach, what it reports, which of its parts a group may take."""

    def __init__(self, name, js):
        self.name, self.js = name, js
        self.ins, self.outs = [], {}
        self.reps, self.comps = {}, {}
        self.forced = False


DEFAULTS = {"Output": "Inflow", "Storage": "Volume", "PiecewiseStorage": "Volume", "Reservoir": "Volume", "Abstraction": "Abstraction"}


class Comp(Case):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pure = False
        self.tol = 4
        self.tag = "P30"
        self.reps, self.jm, self.routes, self.heads = [], [], [], []
        self.pairs = set()
        self.users = []

    # ---- hidden network
    def hid(self, kind, **k):
        i = self.node(kind, name="h%d" % (len(self.nodes) + 1), **k)
        self.jn.pop()
        return i

    def hedge(self, a, b):
        e = self.edge(a, b)
        self.je.pop()
        return e

    def hagg(self, mem, mn=None, mx=None, rel=None):
        r = rel or {"k": "none"}
        if r["k"] == "coef":
            r.setdefault("rhs", lit(0))
        self.aggs.append({"name": "-", "mem": [m if isinstance(m, list) else [m] for m in mem], "mn": mn or lit(-INF), "mx": mx or lit(INF), "rel": r})
        return len(self.aggs)

    def hpar(self, spec):
        spec.setdefault("hidden", True)
        return self.par(spec)

    # ---- what is read
    def rep(self, t, js, k="sum", n=""):
        at = js.get("attribute")
        if at is None and js["type"] == "Node":      # it is recorded under the attribute that is meant
            at = DEFAULTS.get(next(u.js["type"] for u in self.users if u.name == js["name"]), "Outflow")
        self.reps.append({"k": k, "t": t, "n": n})
        self.heads.append({"n": js["name"], "a": at} if js["type"] in ("Node", "VirtualNode") else {"n": "", "a": ""})
        self.jm.append(js)

    def read(self, u, attrs=None):
        a = DEFAULTS.get(u.js["type"], "Outflow")
        if attrs is None and a in u.reps:       # what is meant when no attribute is named
            k, t = u.reps[a]
            self.rep(t, {"type": "Node", "name": u.name}, k, "%s default of %s" % (u.js["type"], u.name))
        for a, (k, t) in u.reps.items():
            if attrs is None or a in attrs:
                self.rep(t, {"type": "Node", "name": u.name, "attribute": a}, k, "%s %s of %s" % (u.js["type"], a, u.name))

    # ---- edges of the model file
    def conn(self, a, b, slot=None):
        xs = a.outs[slot["type"] + str(slot.get("position", slot.get("name", ""))) if slot else ""]
        new = [(x, y) for x in xs for y in b.ins]
        if any(p in self.pairs for p in new) or not new:
            return False
        self.pairs |= set(new)
        js = {"from_node": a.name, "to_node": b.name}
        if slot:
            js["from_slot"] = slot
        self.je.append(js)
        es = [self.hedge(x, y) for x, y in new]
        self.rep([{"k": "edge", "i": e} for e in es], {"type": "Edge", "edge": dict(js)}, n="flow %s -> %s" % (a.name, b.name))
        return True

    def add(self, ty, name, **js):
        j = {"meta": {"name": name}, "type": ty}
        j.update({k: v for k, v in js.items() if v is not None})
        u = User(name, j)
        self.jn.append(j)
        self.users.append(u)
        return u

    def driver(self, runs=None):
        m = self.model()
        net = m["network"]
        net["metric_sets"] = [{"name": "all", "metrics": self.jm}]
        net["outputs"] = [{"type": "Memory", "name": "mem", "metric_set": "all"}]
        ex = {"arrays": self.arrays, "outputs": ["mem"]}
        return {"id": self.id, "model": m, "extras": {"": ex}, "runs": runs or [{"tag": "r", "solver": self.solver, "mode": "run"}]}

    def reports(self, run):
        """rep[s][t] = the reported values"""
        r = run.get("results", {}).get("", {}).get("mem")
        ns, n = len(self.scens()), len(self.jm)
        if r is None or len(r["rows"]) != ns * n * self.nt:
            return None
        out = [[] for _ in range(ns)]
        for i in range(0, len(r["rows"]), n):
            ch = r["rows"][i:i + n]
            out[ch[0]["sim"]].append([x["v"] for x in ch])
        return out if all(len(x) == self.nt for x in out) else None


def vals(xs):
    return lambda **k: xs


# ------------------------------------------------------------------ the nodes, as documented
def nin(*xs):
    return [{"k": "nin", "i": x} for x in xs]


def nout(*xs):
    return [{"k": "nout", "i": x} for x in xs]


def put(u, ins, outs, reps, comps=None):
    u.ins, u.outs, u.reps = ins, outs if isinstance(outs, dict) else {"": outs}, reps
    u.comps = comps or {}
    return u


class Kit:
    """Draws settings and builds nodes."""

    def __init__(self, rng, c):
        self.rng, self.c = rng, c
        self.n = 0

    def name(self, ty):
        self.n += 1
        return "%s %d" % (ty, self.n)

    def has(self, p):
        return self.rng.random() < p

    def amount(self, lo, hi, step=500, vary=0.4):
        """a metric of the model file: a number, or a series read by name"""
        rng, c = self.rng, self.c
        if not self.has(vary):
            return lit(rnd(rng, lo, hi, step))
        if c.groups and self.has(0.3):
            g = rng.randrange(len(c.groups))
            return c.arr2([[rnd(rng, lo, hi, step) for _ in range(c.groups[g]["size"])] for _ in range(c.nt)], g)
        return c.arr([rnd(rng, lo, hi, step) for _ in range(c.nt)])

    def opt(self, p, *a, **k):
        return self.amount(*a, **k) if self.has(p) else None

    def j(self, m):
        return None if m is None else self.c.mj(m)

    def cost(self, lo=-6000, hi=9000):
        return self.amount(lo, hi, 1000, 0.25)

    # -- plain
    def input(self, mx=None, mn=None, cost=None):
        c, rng = self.c, self.rng
        i = c.hid("in", mn=mn, mx=mx, cost=cost)
        u = c.add("Input", self.name("input"), max_flow=self.j(mx), min_flow=self.j(mn), cost=self.j(cost))
        return put(u, [], [i], {"Outflow": ("sum", nout(i))}, {"Outflow": [i]})

    def output(self, mx=None, mn=None, cost=None):
        c = self.c
        i = c.hid("out", mn=mn, mx=mx, cost=cost)
        u = c.add("Output", self.name("output"), max_flow=self.j(mx), min_flow=self.j(mn), cost=self.j(cost))
        return put(u, [i], {}, {"Inflow": ("sum", nin(i))}, {"Inflow": [i]})

    def storage(self):
        c, rng = self.c, self.rng
        mx = rnd(rng, 5000, 200000, 1000)
        iv, ji = self.initial(0, mx)
        cost = self.cost(-6000, 3000)
        i = c.hid("sto", maxv=lit(mx), cost=cost, iv=iv)
        u = c.add("Storage", self.name("storage"), max_volume=self.j(lit(mx)), cost=self.j(cost), initial_volume=ji)
        return put(u, [i], [i], {"Volume": ("sum", [{"k": "vol", "i": i}]), "ProportionalVolume": ("prop", [{"k": "vol", "i": i}])})

    def initial(self, mn, mx):
        if self.has(0.5):
            lo = -(-mn * 1000 // mx // 125) * 125 if mx else 0
            p = self.rng.choice([x for x in range(0, 1001, 125) if x * mx >= (mn + 1) * 1000 or mn == 0] or [1000])
            return ("prop", p), {"type": "Proportional", "proportion": f(p)}
        v = rnd(self.rng, mn, mx, 500)
        return ("abs", v), {"type": "Absolute", "volume": f(v)}

    # -- inflow
    def catchment(self):
        c = self.c
        q = self.opt(0.9, 0, 40000)
        cost = self.opt(0.3, 0, 3000, 1000)
        i = c.hid("in", mn=q, mx=q, cost=cost)
        u = c.add("Catchment", self.name("catchment"), flow=self.j(q), cost=self.j(cost))
        return put(u, [], [i], {"Outflow": ("sum", nout(i))}, {"Outflow": [i]})

    # -- links
    def link(self, soft=None):
        c = self.c
        soft = self.rng.choice(["none", "min", "max", "both", "both"]) if soft is None else soft
        mx = self.opt(0.5, 8000, 40000)
        mn = self.opt(0.25, 0, 6000)
        cost = self.opt(0.7, -3000, 5000, 1000, vary=0.2)
        u = c.add("Link", self.name("link"), max_flow=self.j(mx), min_flow=self.j(mn), cost=self.j(cost))
        u.forced = mn is not None

        def part(lo, hi):
            q, w = self.opt(0.85, 0, 12000), self.opt(0.85, lo, hi, 1000, vary=0.2)
            return q, w, {k: v for k, v in (("flow", self.j(q)), ("cost", self.j(w))) if v is not None}

        if soft == "none":
            xs = [c.hid("link", mn=mn, mx=mx, cost=cost)]
        elif soft == "min":
            q, w, js = part(-9000, 1000)
            u.js["soft_min"] = js
            xs = [c.hid("link", cost=cost), c.hid("link", mx=q, cost=w)]
            c.hagg([xs], mn, mx)
        elif soft == "max":
            q, w, js = part(2000, 12000)
            u.js["soft_max"] = js
            xs = [c.hid("link", cost=w), c.hid("link", mx=q, cost=cost)]
            c.hagg([xs], mn, mx)
        else:
            q, w, js = part(-9000, 1000)
            q2, w2, js2 = part(2000, 12000)
            u.js["soft_min"], u.js["soft_max"] = js, js2
            xs = [c.hid("link", cost=cost), c.hid("link", mx=q, cost=w), c.hid("link", cost=w2)]
            if q2 is not None:
                c.hagg([xs[:2]], mx=q2)
            c.hagg([xs], mn, mx)
        return put(u, xs, xs, {"Inflow": ("sum", nin(*xs)), "Outflow": ("sum", nout(*xs))}, {"Inflow": xs, "Outflow": xs})

    def piecewise_link(self):
        c = self.c
        u = c.add("PiecewiseLink", self.name("piecewise link"), steps=[])
        xs = []
        for k in range(self.rng.choice([1, 2, 3, 4])):
            mx, mn, cost = self.opt(0.75, 3000, 12000), self.opt(0.12, 0, 3000), self.opt(0.9, -6000, 8000, 1000, vary=0.2)
            u.forced |= mn is not None
            u.js["steps"].append({a: v for a, v in (("max_flow", self.j(mx)), ("min_flow", self.j(mn)), ("cost", self.j(cost))) if v is not None})
            xs.append(c.hid("link", mn=mn, mx=mx, cost=cost))
        return put(u, xs, xs, {"Inflow": ("sum", nin(*xs)), "Outflow": ("sum", nout(*xs))}, {"Inflow": xs, "Outflow": xs})

    def loss(self, net, u, feed=None):
        """loss of a node after `net`; returns the loss node or None"""
        c, rng = self.c, self.rng
        x = rng.random()
        if x < 0.15:
            return None
        i = c.hid("out")
        if x < 0.3:
            fac, zero = lit(0), True
        else:
            fac, zero = self.amount(50, 600, 25, 0.35), False
        ty = rng.choice(["Gross", "Net"])
        u.js["loss_factor"] = {"type": ty, "factor": self.j(fac)}
        if zero:
            c.nodes[i - 1]["mx"] = lit(0)
        elif ty == "Gross":
            c.hagg([net, i], rel={"k": "prop", "f": [fac]})
        else:
            c.hagg([net, i], rel={"k": "ratio", "f": [lit(1000), fac]})
        return i

    def loss_link(self):
        c = self.c
        mx, mn, cost = self.opt(0.6, 4000, 40000), self.opt(0.2, 0, 4000), self.opt(0.6, -3000, 6000, 1000)
        i = c.hid("link", mn=mn, mx=mx, cost=cost)
        u = c.add("LossLink", self.name("loss link"), max_net_flow=self.j(mx), min_net_flow=self.j(mn), net_cost=self.j(cost))
        u.forced = mn is not None
        ls = self.loss(i, u)
        g = [i] + ([ls] if ls else [])
        return put(u, g, [i], {"Inflow": ("sum", nin(*g)), "Outflow": ("sum", nout(i)), "Loss": ("sum", nin(*g[1:]))},
                   dict({"Inflow": g, "Outflow": [i]}, **({"Loss": [ls]} if ls else {})))

    def works(self):
        c = self.c
        mx, mn, cost = self.opt(0.7, 6000, 40000), self.opt(0.2, 0, 4000), self.opt(0.6, -3000, 6000, 1000)
        q, w = self.opt(0.6, 0, 6000), self.opt(0.6, -9000, 0, 1000)
        i = c.hid("link", mn=mn, mx=mx, cost=cost)
        a, b = c.hid("link", mx=q, cost=w), c.hid("link")
        c.hedge(i, a)
        c.hedge(i, b)
        u = c.add("WaterTreatmentWorks", self.name("works"), max_flow=self.j(mx), min_flow=self.j(mn), cost=self.j(cost),
                  soft_min_flow=self.j(q), soft_min_flow_cost=self.j(w))
        u.forced = mn is not None
        ls = self.loss(i, u)
        g = [i] + ([ls] if ls else [])
        return put(u, g, [a, b], {"Inflow": ("sum", nin(*g)), "Outflow": ("sum", nout(i)), "Loss": ("sum", nin(*g[1:]))},
                   dict({"Inflow": g, "Outflow": [i]}, **({"Loss": [ls]} if ls else {})))

    # -- rivers
    def delay(self):
        c, rng = self.c, self.rng
        n, v = rng.choice([1, 1, 2, 3, 5]), rnd(rng, 0, 12000, 500)
        u = c.add("Delay", self.name("delay"), delay={"type": "Literal", "value": n}, initial_value={"type": "Literal", "value": f(v)})
        o, i = self.delayed(n, v)
        return put(u, [o], [i], {"Inflow": ("sum", nin(o)), "Outflow": ("sum", nout(i))}, {"Inflow": [o], "Outflow": [i]})

    def delayed(self, n, v):
        c = self.c
        o = c.hid("out")
        p = c.hpar({"k": "delay", "x": nin(o)[0], "n": n, "v": v})
        i = c.hid("in", mn=p, mx=p)
        c.routes.append({"inp": nin(o), "out": nout(i), "w": n * v, "steady": 0})
        return o, i

    def muskingum(self):
        """outflow node, inflow node and the settings in the model file"""
        c, rng = self.c, self.rng
        # 2KX <= 1 <= 2K(1-X): no coefficient is negative
        K, X = rng.choice([(1000, 0), (1000, 250), (1000, 500), (2000, 125), (2000, 250), (2000, 0), (3000, 125), (4000, 125), (1250, 400), (800, 125), (800, 250)])
        km, xm, const = lit(K), lit(X), True
        if self.has(0.25):
            km, const = c.arr([rng.choice([k for k in (K, K + 400, K + 1000, K + 2000) if 2 * k * X <= 1000000]) for _ in range(c.nt)]), False
        if self.has(0.2):
            xm, const = c.arr([rng.choice([X, X // 2]) // 10 * 10 for _ in range(c.nt)]), False
        steady = self.has(0.4)
        i0, o0 = (0, 0) if steady else (rnd(rng, 0, 20000, 500), rnd(rng, 0, 20000, 500))
        ini = {"type": "SteadyState"} if steady else {"type": "Specified", "inflow": f(i0), "outflow": f(o0)}
        o, i = c.hid("out"), c.hid("in")
        a = {"x": km, "y": xm, "steady": steady, "i0": i0, "o0": o0, "inp": nin(o)[0], "out": nout(i)[0]}
        d, q, r = (c.hpar(dict(a, k=k)) for k in ("mkD", "mkC", "mkR"))
        c.hagg([i, o], rel={"k": "coef", "f": [d, q], "rhs": r})
        if const:
            w = 0 if steady else K * (X * i0 + (1000 - X) * o0) // 1000000 + (i0 - o0) // 2 + 1
            c.routes.append({"inp": nin(o), "out": nout(i), "w": w, "steady": K if steady else 0})
        return o, i, {"type": "Muskingum", "travel_time": self.j(km), "weight": self.j(xm), "initial_condition": ini}

    def river(self, routed=None):
        c, rng = self.c, self.rng
        u = c.add("River", self.name("river"))
        how = rng.choice(["none", "delay", "mk"]) if routed is None else routed
        if how == "none":
            i = c.hid("link")
            ls = self.loss(i, u)
            g = [i] + ([ls] if ls else [])
            return put(u, g, [i], {"Inflow": ("sum", nin(*g)), "Outflow": ("sum", nout(i)), "Loss": ("sum", nin(*g[1:]))},
                       dict({"Inflow": g, "Outflow": [i]}, **({"Loss": [ls]} if ls else {})))
        if how == "delay":
            n, v = rng.choice([1, 2, 3]), rnd(rng, 0, 12000, 500)
            o, i = self.delayed(n, v)
            u.js["routing_method"] = {"type": "Delay", "delay": n, "initial_value": {"type": "Literal", "value": f(v)}}
        else:
            o, i, u.js["routing_method"] = self.muskingum()
        last, ls = i, None
        if self.has(0.4):
            net = c.hid("link")
            ls = self.loss(net, u)
            if "loss_factor" in u.js:
                c.hedge(i, net)
                c.hedge(i, ls)
                last = net
            else:       # no loss drawn: the plain link is not there
                c.nodes.pop()
        return put(u, [o], [last], {"Inflow": ("sum", nin(o)), "Outflow": ("sum", nout(last)), "Loss": ("sum", nin(ls) if ls else [])},
                   dict({"Inflow": [o], "Outflow": [last]}, **({"Loss": [ls]} if ls else {})))

    def gauge(self):
        c = self.c
        q, w, v = self.opt(0.85, 0, 10000), self.opt(0.85, -12000, 0, 1000), self.opt(0.5, 0, 4000, 1000)
        u = c.add("RiverGauge", self.name("gauge"), mrf=self.j(q), mrf_cost=self.j(w), bypass_cost=self.j(v))
        xs = [c.hid("link", mx=q, cost=w), c.hid("link", cost=v)]
        return put(u, xs, xs, {"Inflow": ("sum", nin(*xs)), "Outflow": ("sum", nout(*xs))}, {"Inflow": xs, "Outflow": xs})

    def split(self):
        c, rng = self.c, self.rng
        q, w = self.opt(0.8, 0, 10000), self.opt(0.8, -12000, 0, 1000)
        u = c.add("RiverSplitWithGauge", self.name("split"), mrf=self.j(q), mrf_cost=self.j(w), splits=[])
        xs = [c.hid("link", mx=q, cost=w), c.hid("link")]
        outs = {}
        for k in range(rng.choice([1, 1, 2, 3])):
            fac = self.amount(100, 450, 50)
            x = c.hid("link")
            c.hagg([xs[1], x], rel={"k": "prop", "f": [fac]})
            js = {"factor": self.j(fac)}
            outs["Split%d" % k] = [x]
            if self.has(0.7):
                js["slot_name"] = "arm %d" % k
                outs["Userarm %d" % k] = [x]
            u.js["splits"].append(js)
            xs.append(x)
        outs[""] = outs["River"] = xs
        return put(u, xs, outs, {"Inflow": ("sum", nin(*xs)), "Outflow": ("sum", nout(*xs))}, {"Inflow": xs, "Outflow": xs})

    def abstraction(self):
        c = self.c
        q = self.opt(0.6, 0, 10000)
        w = self.opt(0.8, -12000, 0, 1000) if q is not None else None
        mx, mn, v = self.opt(0.7, 2000, 20000), self.opt(0.2, 0, 2000), self.opt(0.6, -4000, 4000, 1000)
        u = c.add("Abstraction", self.name("abstraction"), mrf=self.j(q), mrf_cost=self.j(w), abs_max_flow=self.j(mx), abs_min_flow=self.j(mn), abs_cost=self.j(v))
        u.forced = mn is not None
        riv = [c.hid("link")] + ([c.hid("link", mx=q, cost=w)] if q is not None else [])
        ab = c.hid("link", mn=mn, mx=mx, cost=v)
        g = riv + [ab]
        return put(u, g, {"": riv, "River": riv, "Abstraction": [ab]},
                   {"Inflow": ("sum", nin(*g)), "Outflow": ("sum", nout(*riv)), "Abstraction": ("sum", nout(ab))},
                   {"Inflow": g, "Outflow": riv, "Abstraction": [ab]})

    def turbine(self, stores):
        c, rng = self.c, self.rng
        i = c.hid("link")
        h = c.nodes[i - 1]
        eff, den, fl, en = rng.choice([(1000, 1000, 1, 1), (500, 1000, 2, 1), (500, 2000, 1, 1), (1000, 1000, 2, 1), (250, 2000, 2, 2), (500, 1000, 1, 2), (1000, 500, 2, 2)])
        kc = 981 * eff * den * fl * en // 1000000
        el, mh = rnd(rng, 0, 12000, 500), rnd(rng, 0, rng.choice([6000, 12000]), 500) if self.has(0.6) else 0
        we = NONE
        if self.has(0.65):
            if stores and self.has(0.5):
                # the level follows the stored volume
                s = rng.choice(stores)
                p = {"type": "Polynomial1D", "coefficients": [rnd(rng, 0, 15) , 0.25], "metric": {"type": "Node", "name": s.name, "attribute": "Volume"}}
                p["coefficients"][0] = p["coefficients"][0] * 1.0
                we = c.par({"k": "poly", "x": s.reps["Volume"][1][0], "cs": [int(p["coefficients"][0] * 1000), 250], "sc": 1000, "of": 0, "ev": True}, p)
            else:
                we = self.amount(0, 30000)
        tg = self.opt(0.75, 1000, 60000, 1000)
        ty = rng.choice([None, "MaxFlow", "MinFlow", "Both"])
        cost = self.opt(0.6, -4000, 4000, 1000)
        u = c.add("Turbine", self.name("turbine"), cost=self.j(cost), target=self.j(tg), target_type=ty or "MaxFlow", water_elevation=None if we is NONE else self.j(we),
                  turbine_elevation=f(el), min_head=f(mh), efficiency=f(eff), water_density=den * 1.0, flow_unit_conversion=fl * 1.0, energy_unit_conversion=en * 1e-4)
        if cost:
            h["cost"] = cost
        head = {"we": we, "el": el, "mh": mh, "kc": kc}
        if tg is not None:
            q = c.hpar(dict(head, k="hydq", x=tg))
            if ty in (None, "MaxFlow", "Both"):
                h["mx"] = q
            if ty in ("MinFlow", "Both"):
                h["mn"] = q
                u.forced = True
        pw = c.hpar(dict(head, k="hydk", ph="a"))
        return put(u, [i], [i], {"Inflow": ("sum", nin(i)), "Outflow": ("sum", nout(i)), "Power": ("power", [nin(i)[0], pw])}, {"Inflow": [i], "Outflow": [i]})

    # -- stores
    def piecewise_storage(self):
        c, rng = self.c, self.rng
        mx = rnd(rng, 20000, 200000, 1000)
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        cc = sorted(rng.sample(range(100, 951, 50), n))
        mn = rnd(rng, 0, mx * rng.choice([1, 1, 2, 3]) // 3, 500) if self.has(0.4) else None
        w = sorted(rng.sample(range(-9000, 1001, 1000), n + 1))
        if self.has(0.2):
            w = w[::-1]
        curves, prior, vols, mxs = [], [], [], []
        for k, x in enumerate(cc):
            if self.has(0.3):
                lo, hi = (cc[k - 1] if k else 0) + 10, (cc[k + 1] if k + 1 < n else 1000) - 10
                ys = [x] + [max(lo // 2 + x // 2, min((hi + x) // 2, x + rng.choice([-20, 0, 20]))) for _ in range(c.nt - 1)]
                curves.append(c.arr(ys))
            else:
                curves.append(lit(x))
        if self.has(0.5):
            v = rng.choice([1000] * 4 + [x for x in range(0, 1001, 125) if mn is None or x * mx > mn * 1000 + 1000])
            iv, ji = {"k": "dist", "abs": False, "v": v, "tot": lit(mx)}, {"type": "Proportional", "proportion": f(v)}
        else:
            v = rnd(rng, mn or 0, mx, 500)
            iv, ji = {"k": "dist", "abs": True, "v": v}, {"type": "Absolute", "volume": f(v)}
        u = c.add("PiecewiseStorage", self.name("piecewise storage"), max_volume=self.j(lit(mx)), min_volume=None if mn is None else self.j(lit(mn)), cost=f_lit(w[-1]),
                  initial_volume=ji, steps=[{"control_curve": self.j(m), "cost": f_lit(x)} for m, x in zip(curves, w)])
        for k in range(n + 1):
            m = c.hpar({"k": "between", "x": lit(mx), "hi": curves[k] if k < n else NONE, "lo": curves[k - 1] if k else NONE})
            p = c.hpar({"k": "agg", "f": "Sum", "ms": list(prior), "tz": 0, "ex": False})
            lo = c.hpar({"k": "diff", "x": lit(mn), "y": p, "lo": lit(0), "hi": m}) if mn is not None else lit(0)
            i = c.hid("sto", maxv=m, minv=lo, cost=lit(w[k]))
            c.nodes[i - 1]["iv"] = dict(iv, pr=p)
            if vols:
                c.hedge(i, vols[-1])
                c.hedge(vols[-1], i)
            prior.append(m)
            vols.append(i)
        t = [{"k": "vol", "i": i} for i in vols]
        return put(u, vols[:n], vols[:n], {"Volume": ("sum", t), "ProportionalVolume": ("prop", t)})

    def reservoir(self):
        c, rng = self.c, self.rng
        mx = rnd(rng, 10000, 200000, 1000)
        mn = rnd(rng, 0, mx // 3, 500) if self.has(0.3) else 0
        iv, ji = self.initial(mn, mx)
        cost = self.cost(-6000, 1000)
        s = c.hid("sto", maxv=lit(mx), minv=lit(mn), cost=cost, iv=iv)
        u = c.add("Reservoir", self.name("reservoir"), max_volume=self.j(lit(mx)), min_volume=self.j(lit(mn)) if mn else None, cost=self.j(cost), initial_volume=ji)
        vol = [{"k": "vol", "i": s}]
        outs = {"": [s], "Storage": [s]}
        reps = {"Volume": ("sum", vol), "ProportionalVolume": ("prop", vol), "MaxVolume": ("sum", [{"k": "mxv", "i": s}])}
        comps = {}
        comp = spill = None
        q = self.opt(0.6, 0, 6000)
        if q is not None:
            comp = c.hid("link", mn=q)
            c.hedge(s, comp)
            u.js["compensation"] = self.j(q)
            u.forced = True
            outs["Compensation"] = [comp]
            comps["Compensation"] = [comp]
        sp = rng.choice([None, "OutputNode", "LinkNode", "LinkNode"])
        if sp:
            spill = c.hid("out" if sp == "OutputNode" else "link")
            c.hedge(s, spill)
            u.js["spill"] = sp
            if sp == "LinkNode":
                outs["Spill"] = [spill]
        ct = rng.choice([None, True, False])
        if ct is not None:
            u.js["connect_compensation_to_spill"] = ct
        if ct is not False and comp and spill:
            c.hedge(comp, spill)
        rain = evap = None
        if self.has(0.85):
            prop = self.has(0.4)
            if self.has(0.5):
                xs = [0, 500, 1000] if prop else [0, mx // 2, mx]
                ys = sorted(rng.sample(range(0, 30001, 500), 3))
                u.js["surface_area"] = {"data": {"Interpolated": {"storage": {"type": "Literal", "values": [f(x) for x in xs]},
                                                                  "area": {"type": "Literal", "values": [f(y) for y in ys]}}}, "is_storage_proportional": prop}
                area = lambda x: {"k": "table", "x": x, "xp": [lit(v) for v in xs], "fp": [lit(v) for v in ys], "err": True, "ex": False}
            else:
                cs = [rnd(rng, 0, 5000, 500), rnd(rng, 0, 20000, 1000) if prop else rng.choice([0, 50, 100, 125])]
                u.js["surface_area"] = {"data": {"Polynomial": [f(x) for x in cs]}, "is_storage_proportional": prop}
                area = lambda x: {"k": "poly", "x": x, "cs": cs, "sc": 1000, "of": 0}

            def flow(d):
                full = rng.choice([None, True, False])
                x = (lit(1000) if full else {"k": "pvol", "i": s}) if prop else {"k": "mxv" if full else "vol", "i": s}
                h = self.amount(0, 800, 50)
                js = {"data": self.j(h)}
                if full is not None:
                    js["use_max_area"] = full
                return c.hpar({"k": "agg", "f": "Product", "ms": [h, c.hpar(area(x))], "tz": 0, "ex": False}), js

            if self.has(0.8):
                p, u.js["rainfall"] = flow("rain")
                rain = c.hid("in", mn=p, mx=p)
                c.hedge(rain, s)
                comps["Rainfall"] = [rain]
            if self.has(0.8):
                p, u.js["evaporation"] = flow("evap")
                w = self.opt(0.8, -20000, -7000, 1000)
                evap = c.hid("out", mx=p, cost=w)
                if w is not None:
                    u.js["evaporation"]["cost"] = self.j(w)
                c.hedge(s, evap)
                comps["Evaporation"] = [evap]
        leak = self.opt(0.5, 0, 3000)
        if leak is not None:
            w = self.opt(0.8, -20000, -7000, 1000)
            i = c.hid("out", mx=leak, cost=w)
            u.js["leakage"] = {"loss": self.j(leak)}
            if w is not None:
                u.js["leakage"]["cost"] = self.j(w)
            c.hedge(s, i)
            comps["Loss"] = [i]
        reps["Compensation"] = ("sum", nin(comp) if comp else [])
        reps["Rainfall"] = ("sum", nout(rain) if rain else [])
        reps["Evaporation"] = ("sum", nin(evap) if evap else [])
        return put(u, [s], outs, reps, comps)


def f_lit(v):
    return {"type": "Literal", "value": f(v)}


ROUTES = ["delay", "river"]
MIDS = ["link", "piecewise_link", "loss_link", "works", "delay", "river", "gauge", "split", "abstraction", "turbine", "piecewise_storage", "reservoir", "storage"]


def build(rng, cid, pid, k):
    c = Comp(cid, nt=rng.choice([4, 6, 8]))
    c.tag = pid
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        c.group(rng.choice([2, 3]))
    kit = Kit(rng, c)
    routing = pid == "P28"
    ups = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ups.append(kit.catchment() if kit.has(0.4 if not routing else 0.7) else kit.input(mx=kit.amount(2000, 40000), cost=kit.opt(0.6, 0, 4000, 1000)))
    sink = None
    mids, stores = [], []
    if routing:
        kinds = [rng.choice(ROUTES) for _ in range(rng.choice([1, 1, 2, 3]))]
    else:
        kinds = [MIDS[k % len(MIDS)]] + [rng.choice(MIDS) for _ in range(rng.choice([0, 1, 1, 2]))]
        rng.shuffle(kinds)
    for kd in kinds:
        if kd == "turbine":
            u = kit.turbine(stores)
        elif kd == "river" and routing:
            u = kit.river(rng.choice(["delay", "mk", "mk"]))
        else:
            u = getattr(kit, kd)()
        if kd in ("reservoir", "storage"):
            stores.append(u)
        mids.append(u)
    outs = [kit.output(mx=kit.amount(1000, 40000), cost=kit.cost(-15000, -4000)) for _ in range(rng.choice([1, 2]))]
    sink = kit.output(cost=lit(30000))
    dear = None
    for n, u in enumerate(mids):
        src = ups + mids[:n]
        for x in rng.sample(src, min(len(src), rng.choice([1, 1, 2]))):
            c.conn(x, u, slot(rng, x))
        if not any(e["to_node"] == u.name for e in c.je):
            c.conn(rng.choice(ups), u)
        if u.forced:
            if dear is None:
                dear = kit.input(cost=lit(90000))
            c.conn(dear, u)
    for o in outs:
        src = ups + mids
        for x in rng.sample(src, min(len(src), rng.choice([1, 2, 2, 3]))):
            c.conn(x, o, slot(rng, x))
        if not any(e["to_node"] == o.name for e in c.je):
            c.conn(ups[0], o)
    # everything can leave the model
    for u in ups + mids:
        for s in sorted(set(map(tuple, u.outs.values()))):
            if not all((x, sink.ins[0]) in c.pairs for x in s):
                c.conn(u, sink, slot(rng, u, s))
    for u in c.users:
        c.read(u)
    groups(rng, kit, c, [u for u in mids + ups if not u.forced and u.comps and u.js["type"] != "Catchment"])
    return c


def slot(rng, u, want=None):
    """a slot of the node (one that attaches to `want`)"""
    out = []
    for s, xs in sorted(u.outs.items()):
        if want is not None and tuple(xs) != tuple(want):
            continue
        if s == "":
            out.append(None)
        elif s.startswith("Split"):
            out.append({"type": "Split", "position": int(s[5:])})
        elif s.startswith("User"):
            out.append({"type": "User", "name": s[4:]})
        else:
            out.append({"type": s})
    return rng.choice(out)


def groups(rng, kit, c, us):
    """groups and licences over parts of higher-level nodes"""
    free = [u for u in us if u.js["type"] not in ("Delay",) and "routing_method" not in u.js]

    def members():
        out, js = [], []
        for u in rng.sample(free, min(len(free), rng.choice([1, 2]))):
            k = rng.choice(sorted(u.comps))
            if u.js["type"] == "Reservoir" and k == "Rainfall":
                continue
            out.append(u.comps[k])
            js.append({"name": u.name, "component": k})
        return out, js

    if free and kit.has(0.4):
        mem, js = members()
        if mem:
            mx = kit.amount(4000, 30000)
            g = c.hagg([sum(mem, [])], mx=mx)
            n = kit.name("group")
            c.jv.append({"meta": {"name": n}, "type": "Aggregated", "nodes": js, "max_flow": kit.j(mx)})
            xs = sum(mem, [])
            c.rep(nin(*xs), {"type": "VirtualNode", "name": n, "attribute": "Inflow"}, n="inflow of a group")
            c.rep(nout(*xs), {"type": "VirtualNode", "name": n, "attribute": "Outflow"}, n="outflow of a group")
    if free and kit.has(0.4):
        mem, js = members()
        if mem:
            mx = rnd(rng, 20000, 200000, 1000)
            fac = [rng.choice([500, 1000, 2000]) for _ in mem] if kit.has(0.5) else None
            xs = sum(mem, [])
            fs = [x for x, m in zip(fac or [1000] * len(mem), mem) for _ in m]
            v = c.vs(xs, fac=fs, maxv=lit(mx), iv=("prop", 1000), cost=None)
            j = c.jv[-1]
            j["nodes"] = js
            del j["factors"]
            if fac:
                j["factors"] = [f(x) for x in fac]
            c.rep([{"k": "vsv", "i": v}], {"type": "VirtualNode", "name": j["meta"]["name"], "attribute": "Volume"}, n="volume of a licence")
            c.rep([{"k": "vsp", "i": v}], {"type": "VirtualNode", "name": j["meta"]["name"], "attribute": "ProportionalVolume"}, n="proportional volume of a licence")


# ------------------------------------------------------------------ certificates
class Par:
    """values of the parameters of a case, in floating point"""

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.h = [[] for _ in c.pars]
        self.sc = c.scens()[s]["idx"]

    def val(self, m, r):
        return r["parf"][m["i"] - 1] if m["k"] == "par" else rival.val(m, r)

    def one(self, p, r, t, k):
        V = lambda m: self.val(m, r)
        kd = p["k"]
        if kd == "arr":
            return p["v"][min(max(t + p["off"], 0), len(p["v"]) - 1)]
        if kd == "arr2":
            return p["v"][min(max(t + p["off"], 0), len(p["v"]) - 1)][self.sc[p["g"] - 1] - 1]
        if kd == "delay":
            return p["v"] if len(self.h[k]) < p["n"] else self.h[k][-p["n"]]
        if kd == "agg":
            x = [V(m) for m in p["ms"]]
            return sum(x) if p["f"] == "Sum" else float(np.prod([y / 1000 for y in x])) * 1000
        if kd == "between":
            return V(p["x"]) * ((V(p["hi"]) if p["hi"]["k"] != "none" else 1000) - (V(p["lo"]) if p["lo"]["k"] != "none" else 0)) / 1000
        if kd == "diff":
            return min(max(V(p["x"]) - V(p["y"]), V(p["lo"])), V(p["hi"]))
        if kd == "table":
            return float(np.interp(V(p["x"]), [V(m) for m in p["xp"]], [V(m) for m in p["fp"]]))
        if kd == "poly":
            x = V(p["x"]) / 1000
            return sum(q * x ** n for n, q in enumerate(p["cs"]))
        if kd in ("mkD", "mkC", "mkR"):
            K, X = V(p["x"]) / 1000, V(p["y"]) / 1000
            first = p["steady"] and t == 0
            if kd == "mkD":
                return 1000 if first else 1000 * (2 * K * (1 - X) + 1)
            if kd == "mkC":
                return -1000 if first else -1000 * (1 - 2 * K * X)
            i, o = (p["i0"], p["o0"]) if t == 0 else (V(p["inp"]), V(p["out"]))
            return 0 if first else (1 + 2 * K * X) * i + (2 * K * (1 - X) - 1) * o
        if kd in ("hydk", "hydq"):
            h = max(0, p["el"] if p["we"]["k"] == "none" else V(p["we"]) - p["el"])
            if h <= p["mh"]:
                return 0
            return p["kc"] * h / 1000 if kd == "hydk" else V(p["x"]) * 1e6 / (h * p["kc"])
        raise KeyError(kd)

    def fill(self, r, t, early=None):
        """r.par for the state r; after the allocation the early values stay as they were"""
        r["parf"] = []
        for k, p in enumerate(self.c.pars):
            if p["ph"] == "a":
                r["parf"].append(0.0 if early is None else self.one(p, r, t, k))
            else:
                r["parf"].append(self.one(p, r, t, k) if early is None else early[k])
        r["par"] = [int(round(x)) for x in r["parf"]]
        return r

    def shaky(self, b):
        """a head so small that its rounding decides the flow"""
        for p, q in zip(self.c.pars, b["parf"]):
            if p["k"] == "hydq" and p["we"]["k"] == "par" and self.c.pars[p["we"]["i"] - 1]["k"] == "poly":
                h = rival.val(p["we"], b) - p["el"]
                if abs(h - p["mh"]) < 3 or h > 0 and q > 8 * h:
                    return True
        return False

    def push(self, a):
        for k, p in enumerate(self.c.pars):
            if p["k"] == "delay":
                self.h[k].append(rival.val(p["x"], a))


def expr(c, b, m, dt):
    """a reported term as coefficients of edge flows and a constant"""
    k, i = m["k"], m["i"]
    if k == "nin":
        return [(e - 1, 1.0) for e in c.nodes[i - 1]["ie"]], 0
    if k == "nout":
        return [(e - 1, 1.0) for e in c.nodes[i - 1]["oe"]], 0
    if k == "edge":
        return [(i - 1, 1.0)], 0
    if k == "vol":
        n = c.nodes[i - 1]
        return [(e - 1, dt) for e in n["ie"]] + [(e - 1, -dt) for e in n["oe"]], b["vol"][i - 1]
    return None


def hidden(c, b, d, rep):
    """edge flows, permitted if possible, with the reported values if possible, cheapest among those"""
    ne, dt = len(c.edges), d["dt"] / 1000.0
    eq, lo, hi, soft = [], [], [], []

    def thru(i):
        n = c.nodes[i - 1]
        if n["k"] in ("in", "link"):
            return [(e - 1, 1.0) for e in n["oe"]]
        if n["k"] == "out":
            return [(e - 1, 1.0) for e in n["ie"]]
        return [(e - 1, 1.0) for e in n["ie"]] + [(e - 1, -1.0) for e in n["oe"]]

    def row(co, l, h, w):
        v = np.zeros(ne)
        for e, x in co:
            v[e] += x
        eq.append(v)
        lo.append(l)
        hi.append(h)
        soft.append(w)

    V = lambda m: b["parf"][m["i"] - 1] if m["k"] == "par" else rival.val(m, b)
    cost = np.zeros(ne)
    for i, n in enumerate(c.nodes, 1):
        w = V(n["cost"])
        for e, x in thru(i):
            cost[e] += x * w / 1000.0
        if n["k"] == "link":
            row([(e - 1, 1.0) for e in n["ie"]] + [(e - 1, -1.0) for e in n["oe"]], 0, 0, 1000)
        if n["k"] == "sto":
            row(thru(i), (V(n["mnv"]) - b["vol"][i - 1]) / dt, (V(n["mxv"]) - b["vol"][i - 1]) / dt, 100)
        else:
            row(thru(i), V(n["mn"]), V(n["mx"]), 100)
    for g in c.aggs:
        q = [sum((thru(x) for x in m), []) for m in g["mem"]]
        if V(g["mn"]) > -INF or V(g["mx"]) < INF:
            row(sum(q, []), V(g["mn"]), V(g["mx"]), 100)
        k = g["rel"]["k"]
        fv = [V(x) / 1000.0 for x in g["rel"].get("f", [])]
        if k == "prop":
            fv = [1.0 - sum(fv)] + fv
        if k in ("prop", "ratio"):
            for j in range(1, len(q)):
                row([(e, x * fv[j]) for e, x in q[0]] + [(e, -x * fv[0]) for e, x in q[j]], 0, 0, 100)
        if k == "coef":
            rhs = V(g["rel"]["rhs"])
            row([(e, x * fv[0]) for e, x in q[0]] + [(e, x * fv[1]) for e, x in q[1]], rhs, rhs, 100)
    for gi, v in enumerate(c.vss):
        co = []
        for m, fc in zip(v["mem"], v["fac"]):
            n = c.nodes[m - 1]
            co += [(e - 1, fc / 1000.0) for e in (n["ie"] if n["k"] == "out" else n["oe"])]
        row(co, (b["vsv"][gi] - V(v["mxv"])) / dt, (b["vsv"][gi] - V(v["mnv"])) / dt, 100)
        for r, x in zip(c.reps, rep):
            if r["k"] == "sum" and r["t"] == [{"k": "vsv", "i": gi + 1}]:
                row(co, (b["vsv"][gi] - x) / dt, (b["vsv"][gi] - x) / dt, 1)
    for r, x in zip(c.reps, rep):
        if r["k"] != "sum" or any(expr(c, b, m, dt) is None for m in r["t"]):
            continue
        co, k0 = [], 0
        for m in r["t"]:
            e, k = expr(c, b, m, dt)
            co += e
            k0 += k
        row(co, x - k0, x - k0, 1)
    A, lo, hi, soft = np.array(eq), np.array(lo, float), np.array(hi, float), np.array(soft, float)
    lo[lo <= -INF] = -np.inf
    hi[hi >= INF] = np.inf
    m = len(A)
    # x, s+ (above), s- (below)
    up, dn = np.isfinite(hi), np.isfinite(lo)
    I = np.eye(m)
    M = np.vstack([np.hstack([A, -I, 0 * I])[up], np.hstack([-A, 0 * I, -I])[dn]])
    R = np.concatenate([hi[up], -lo[dn]])
    c1 = np.concatenate([np.zeros(ne), soft, soft])
    bnd = [(0, 4e6)] * ne + [(0, None)] * (2 * m)
    r1 = linprog(c1, M, R, bounds=bnd, method="highs")
    if r1.status != 0:
        return None
    # slack reports stay as close as they got
    cap = np.concatenate([np.full(ne, 4e6), np.maximum(r1.x[ne:ne + m], 0) + 1e-6, np.maximum(r1.x[ne + m:], 0) + 1e-6])
    r2 = linprog(np.concatenate([cost, np.zeros(2 * m)]), M, R, bounds=list(zip(np.zeros(ne + 2 * m), cap)), method="highs")
    x = r2.x if r2.status == 0 else r1.x
    return [int(round(v)) for v in x[:ne]]


def walk(c, s, rep):
    """obs, wit for one scenario"""
    T = c.times()
    P = Par(c, s)
    prev = None
    obs, wit = [], []
    fine = [NAN] * len(c.nodes)
    N, E = len(c.nodes), len(c.edges)
    direct = {r["t"][0]["i"]: k for k, r in enumerate(c.reps) if r["k"] == "sum" and len(r["t"]) == 1 and r["t"][0]["k"] == "vol"}
    dprop = {r["t"][0]["i"]: k for k, r in enumerate(c.reps) if r["k"] == "prop" and len(r["t"]) == 1}
    vsr = {(r["t"][0]["k"], r["t"][0]["i"]): k for k, r in enumerate(c.reps) if r["k"] == "sum" and len(r["t"]) == 1 and r["t"][0]["k"] in ("vsv", "vsp")}
    # proportional volumes stay unrounded for the parameters that read them
    prop = lambda v, mx: 1000 if mx == 0 else v * 1000 / mx
    blank = {"mxf": [NAN] * N, "aggin": [0] * len(c.aggs), "aggout": [0] * len(c.aggs), "asv": [], "asp": []}
    for t in range(c.nt):
        d = T[t]
        dt = d["dt"] / 1000.0
        b = dict(blank)
        b["mxv"] = [NAN] * N
        if prev is None:
            b.update(nin=[0] * N, nout=[0] * N, edge=[0] * E, vol=[NAN] * N, pvol=[NAN] * N, vsv=[v["mxv"]["v"] for v in c.vss], vsp=[1000] * len(c.vss))
            # volumes first: areas and levels follow them, the stores' own bounds do not
            for i, n in enumerate(c.nodes):
                if n["k"] == "sto":
                    b["vol"][i] = b["pvol"][i] = 0
                    b["mxv"][i] = n["mxv"]["v"] if n["mxv"]["k"] == "lit" else 0
            P.fill(b, t)
            for i, n in enumerate(c.nodes):
                if n["k"] != "sto":
                    continue
                mx = P.val(n["mxv"], b)
                iv = n["iv"]
                if iv["k"] == "abs":
                    v = iv["v"]
                elif iv["k"] == "prop":
                    v = iv["v"] * mx / 1000
                else:
                    tot = iv["v"] if iv["abs"] else iv["v"] * P.val(iv["tot"], b) / 1000
                    v = max(0, min(tot - P.val(iv["pr"], b), mx))
                b["vol"][i], b["mxv"][i] = int(round(v)), int(round(mx))
                b["pvol"][i] = prop(v, mx)
        else:
            b.update({k: prev[k] for k in ("nin", "nout", "edge", "vol", "vsv", "vsp")})
            b["pvol"] = list(fine)
            b["mxv"] = list(prev["mxv"])
        P.fill(b, t)
        for i, n in enumerate(c.nodes):
            if n["k"] == "sto":
                b["mxv"][i] = rival.val(n["mxv"], b)
        P.fill(b, t)
        if P.shaky(b):
            return ()
        x = hidden(c, b, d, rep[t])
        if x is None:
            return None
        b["pvol"] = [int(round(v)) for v in b["pvol"]] if prev is None else list(prev["pvol"])
        a = dict(blank)
        a["edge"] = x
        a["nin"] = [sum(x[e - 1] for e in n["ie"]) for n in c.nodes]
        a["nout"] = [sum(x[e - 1] for e in n["oe"]) for n in c.nodes]
        a["mxv"] = list(b["mxv"])
        a["vol"], a["pvol"] = [NAN] * N, [NAN] * N
        for i, n in enumerate(c.nodes):
            if n["k"] == "sto":
                a["vol"][i] = rep[t][direct[i + 1]] if i + 1 in direct else b["vol"][i] + int(round((a["nin"][i] - a["nout"][i]) * dt))
                fine[i] = prop(a["vol"][i], a["mxv"][i])
                a["pvol"][i] = rep[t][dprop[i + 1]] if i + 1 in dprop else int(round(fine[i]))
        a["vsv"] = [rep[t][vsr["vsv", g + 1]] for g in range(len(c.vss))]
        a["vsp"] = [rep[t][vsr["vsp", g + 1]] for g in range(len(c.vss))]
        P.fill(a, t, b["parf"])
        w = rival.solve(c, b, d) or []
        P.push(a)
        for r in (a, b):
            r.pop("parf", None)
        obs.append({"b": b, "a": a, "r": rep[t]})
        wit.append(w)
        prev = a
    return obs, wit


def judge(chk, cases, drivers=None, traces=None):
    """validated by TLC; a case that does not build or run is a rejection"""
    drivers = drivers or {c.id: rename(localise(relay(c.driver()))) for c in cases}
    traces = traces or run_driver([drivers[c.id] for c in cases], chk.work)
    sp = []
    for c in cases:
        tr = traces.get(c.id)
        chk.cases[c.id] = drivers[c.id]
        if tr is None or tr["status"] != "ok":
            chk.reject({"case": c.id, "what": "the model does not build", "got": tr and (tr["status"], str(tr.get("error"))[:300])})
            continue
        run = tr["runs"][0]
        rep = c.reports(run) if run["status"] == "ok" else None
        if rep is None:
            chk.reject({"case": c.id, "what": "the run failed although every step has a permitted flow pattern", "got": [run["status"], str(run.get("error"))[:300]]})
            continue
        ws = [walk(c, s, rep[s]) for s in range(len(rep))]
        if any(w is None for w in ws):
            raise SystemExit("no certificate for " + c.id)
        if () in ws:
            chk.count("left out: a head too small to tell the flow")
            continue
        s = c.spec([w[0] for w in ws], [w[1] for w in ws])
        s.update(tag=c.tag, reps=c.reps, routes=c.routes, heads=[dict(h, n=drivers[c.id].get("names", {}).get(h["n"], h["n"])) for h in c.heads], cols=[{"n": x["name"], "a": x["attr"]} for x in run["results"][""]["mem"]["rows"][:len(c.jm)]])
        chk.count("runs completed")
        for u in c.users:
            chk.count(u.js["type"])
        sp.append(s)
    if sp:
        res = tlc_cases("TraceComp", sp, chk.work, 6, weight=lambda s: len(s["obs"]) * len(s["obs"][0]) * (len(s["nodes"]) + len(s["edges"])))
        chk.add(res)
        want = sum(len(so) + 1 for s in sp for so in s["obs"])
        if not chk.rejects and not res.rejects and res.distinct != want:
            raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
        chk.traces += sum(len(s["obs"]) for s in sp)


HOLDS = {
    "P01": lambda c: True,
    "P02": lambda c: any(u.js["type"] in ("Reservoir", "PiecewiseStorage") for u in c.users),
    "P04": lambda c: any(j["type"] == "Aggregated" for j in c.jv),
    "P08": lambda c: any(j["type"] == "VirtualStorage" for j in c.jv),
    "P29": lambda c: any(j["type"] == "Aggregated" for j in c.jv),
}


def parts(chk, pid):
    """the same property where the members are parts of higher-level nodes"""
    rng = random.Random("%s/parts/%d" % (pid, seed()))
    n = 70 if tier() == "quick" else 600
    cs, k = [], 0
    while len(cs) < n:
        c = build(random.Random(rng.random()), "%s-parts-%d" % (pid, k), pid, k)
        k += 1
        if HOLDS[pid](c):
            cs.append(c)
    judge(chk, cs)


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    n = (400 if pid == "P30" else 260) if tier() == "quick" else 3000
    cs = [build(random.Random(rng.random()), "%s-%d" % (pid, k), pid, k) for k in range(n)]
    judge(chk, cs)
    chk.samples = [{"case": c.id, "nodes": [u.js["type"] for u in c.users], "hidden nodes": len(c.nodes), "edges": len(c.edges), "reports": len(c.reps)} for c in cs[:3]]
    return chk.finish()
