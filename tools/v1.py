"""Conversion of Pywr v1 models (P35): cases of the specification written as v1 models, converted by the program and run;
and v1 models with components that have no counterpart, which the conversion must report (Conversion.tla)."""
import copy
import json
import random

import composite
import docs
import genpar
import gensim
import simcheck
from gensim import rnd
from sim import Case, f, lit
from vplib import Check, run_driver, seed, tier, tlc_cases

DEFAULT = {"Input": "Outflow", "Output": "Inflow", "Link": "Outflow", "Storage": "Volume", "Aggregated": "Outflow",
           "AggregatedStorage": "Volume", "VirtualStorage": "Volume"}


class No(Exception):
    """The model has no v1 counterpart."""


def must(x):
    if not x:
        raise No()


class Down:
    """A model of the new format written as a v1 model, and what its conversion consists of."""

    def __init__(self, rng, model, arrays):
        self.rng, self.m = rng, model
        net = model["network"]
        self.arrays = set(arrays)
        self.pj = {p["meta"]["name"]: p for p in net.get("parameters", [])}
        self.ty = {n["meta"]["name"]: n["type"] for n in net["nodes"]}
        self.vt = {n["meta"]["name"]: n["type"] for n in net.get("virtual_nodes", [])}
        self.moved, self.done = set(), set()
        self.comps = []

    def has(self, p):
        return self.rng.random() < p

    # ---------------------------------------------------------------- values
    def value(self, m, own, depth=0):
        """a number, the name of a parameter, or a parameter written in place"""
        if m["type"] == "Literal":
            if self.has(0.12) and depth < 3:
                own["inl"] += 1
                return self.label({"type": self.rng.choice(["constant", "Constant", "constantparameter"]), "value": m["value"]}, None, own)
            return m["value"]
        if m["type"] == "Constant":
            return m["value"]
        must(m["type"] == "Parameter" and "key" not in m and "return_value" not in m)
        n = m["name"]
        if n in self.pj and depth < 3:
            if self.has(0.25):
                own["inl"] += 1
                return self.label(self.par(self.pj[n], own, depth + 1), None, own)
            if n not in self.done and n not in self.moved and self.has(0.15):
                self.moved.add(n)
                own["named"].append(n)
                return self.label(dict(self.par(self.pj[n], own, depth + 1), name=n), None, own)
        return n

    def label(self, j, facts, own):
        """a comment and tags"""
        if self.has(0.15):
            j["comment"] = "on %d" % self.rng.randrange(1000)
            if facts is not None:
                facts.append(["comment", j["comment"]])
        if self.has(0.15):
            j["tags"] = {"k%d" % k: "v%d" % self.rng.randrange(100) for k in range(self.rng.choice([1, 2]))}
            if facts is not None:
                facts += [["tags/" + k, v] for k, v in j["tags"].items()]
        if facts is not None and own == "node" and self.has(0.2):
            j["position"] = {self.rng.choice(["schematic", "geographic"]): [self.rng.randrange(64) / 4, self.rng.randrange(-64, 64) / 8]}
            for k, v in j["position"].items():
                facts += [["position/%s/%d" % (k, i), x] for i, x in enumerate(v)]
        return j

    def attr(self, j, out, own, **names):
        """attributes that keep their meaning under another name"""
        for a, b in names.items():
            if j.get(a) is not None:
                out[b] = self.value(j[a], own)

    def spell(self, t):
        return self.rng.choice([t, t, t.lower()])

    def initial(self, j, out):
        i = j["initial_volume"]
        if i["type"] == "Absolute":
            out["initial_volume"] = i["volume"]
        else:
            out["initial_volume_pc"] = i["proportion"]

    # ---------------------------------------------------------------- nodes
    def node(self, j, own):
        t = j["type"]
        must(not j.get("parameters"))
        o = {}
        if t in ("Input", "Output", "Link"):
            must("soft_min" not in j and "soft_max" not in j)
            self.attr(j, o, own, min_flow="min_flow", max_flow="max_flow", cost="cost")
            o["type"] = self.spell("BreakLink") if t == "Link" and self.has(0.2) else self.spell(t)
        elif t == "Storage":
            self.attr(j, o, own, min_volume="min_volume", max_volume="max_volume", cost="cost")
            self.initial(j, o)
            o["type"] = self.spell(self.rng.choice(["Storage", "Reservoir"]))
        elif t == "Catchment":
            self.attr(j, o, own, flow="flow", cost="cost")
            o["type"] = self.spell(t)
        elif t == "RiverGauge":
            self.attr(j, o, own, mrf="mrf", mrf_cost="mrf_cost", bypass_cost="cost")
            o["type"] = self.spell(t)
        elif t == "LossLink":
            lf = j.get("loss_factor")
            must(lf is None or lf["type"] == "Net")
            self.attr(j, o, own, max_net_flow="max_flow", min_net_flow="min_flow", net_cost="cost")
            if lf:
                o["loss_factor"] = self.value(lf["factor"], own)
            o["type"] = self.spell(t)
        elif t == "River":
            must("loss_factor" not in j and "routing_method" not in j)
            o["type"] = self.spell(t)
        elif t == "PiecewiseLink":
            ss = j["steps"]
            must(all("min_flow" not in s for s in ss))
            o.update(type=self.spell(t), nsteps=len(ss))
            if any("cost" in s for s in ss):
                must(all("cost" in s for s in ss))
                o["costs"] = [self.value(s["cost"], own) for s in ss]
            if any("max_flow" in s for s in ss):
                o["max_flows"] = [self.value(s["max_flow"], own) if "max_flow" in s else None for s in ss]
        elif t == "Delay":
            o["type"] = self.rng.choice(["Delay", "delaynode", "DelayNode"])
            d, st = j["delay"], self.m["time"]["timestep"]
            must(d["type"] == "Literal" and j["initial_value"]["type"] == "Literal")
            o["days" if st.get("days") == 1 and self.has(0.5) else "timesteps"] = d["value"]
            v = j["initial_value"]["value"]
            if v or self.has(0.5):
                o["initial_flow"] = v
        else:
            raise No()
        return o

    def vnode(self, j, own):
        t = j["type"]
        o = {}
        if t == "Aggregated":
            must(all("component" not in x for x in j["nodes"]))
            o["nodes"] = [x["name"] for x in j["nodes"]]
            r = j.get("relationship")
            if r:
                must(r["type"] == "Ratio")
                o["factors"] = [self.value(x, own) for x in r["factors"]]
            self.attr(j, o, own, min_flow="min_flow", max_flow="max_flow")
            o["type"] = self.rng.choice(["Aggregated", "aggregatednode", "AggregatedNode"])
        elif t == "AggregatedStorage":
            o["storage_nodes"] = [x["name"] for x in j["storage_nodes"]]
            o["type"] = self.spell(t)
        elif t == "VirtualStorage":
            must(all("component" not in x for x in j["nodes"]))
            o["nodes"] = [x["name"] for x in j["nodes"]]
            if "factors" in j:
                o["factors"] = j["factors"]
            self.attr(j, o, own, min_volume="min_volume", max_volume="max_volume", cost="cost")
            self.initial(j, o)
            r, w, rv = j.get("reset", {"type": "Never"}), j.get("window"), j.get("reset_volume", "Initial")
            if r["type"] != "Never":
                must(w is None)
                if rv == "Initial" or self.has(0.5):
                    o["reset_to_initial_volume"] = rv == "Initial"
            k = r["type"]
            if w:
                o["type"] = self.spell("RollingVirtualStorage")
                o["days" if w["type"] == "Days" else "timesteps"] = w["days" if w["type"] == "Days" else "timesteps"]
            elif k == "Never":
                o["type"] = self.spell("VirtualStorage")
            elif k == "Annual":
                o["type"] = self.spell("AnnualVirtualStorage")
                self.opt(o, r, 1, day="reset_day", month="reset_month")
            elif k == "Monthly":
                o["type"] = self.spell("MonthlyVirtualStorage")
                self.opt(o, r, 1, months="months")
            elif k == "Seasonal":
                o["type"] = self.spell("SeasonalVirtualStorage")
                self.opt(o, r, 1, start_day="reset_day", start_month="reset_month")
                self.opt(o, r, 31, end_day="end_day")
                self.opt(o, r, 12, end_month="end_month")
            else:
                raise No()
        else:
            raise No()
        return o

    def opt(self, o, r, dflt, **names):
        for a, b in names.items():
            if r[a] != dflt or self.has(0.5):
                o[b] = r[a]

    # ---------------------------------------------------------------- parameters
    def at(self, m, attr=None):
        """the node a metric reads; None: the attribute a node gives by itself"""
        must(m["type"] in ("Node", "VirtualNode"))
        n = m["name"]
        t = self.ty[n] if m["type"] == "Node" else self.vt[n]
        must(m.get("attribute") == (attr or DEFAULT.get(t)))
        return n

    def literals(self, ms):
        must(all(m["type"] == "Literal" for m in ms))
        return [m["value"] for m in ms]

    def curves(self, j, own, o, d, always=False):
        cs = [self.value(m, own, d) for m in j["control_curves"]]
        o["storage_node"] = self.at(j["storage_metric"], "ProportionalVolume")
        if len(cs) == 1 and not always and self.has(0.6):
            o["control_curve"] = cs[0]
        else:
            o["control_curves"] = cs

    def par(self, j, own, d=0):
        t = j["type"]
        o, ty = {}, t
        V = lambda m: self.value(m, own, d)
        if t == "Constant":
            v = j["value"]
            must(v["type"] == "Literal" and "variable" not in j)
            o[self.rng.choice(["value", "values"])] = v["value"]
        elif t == "ConstantScenario":
            must(j["values"]["type"] == "Literal")
            o.update(scenario=j["scenario_group"], values=j["values"]["values"])
        elif t in ("Aggregated", "AggregatedIndex"):
            must(j.get("phase", "Before") == "Before")
            fn = j["agg_func"]["type"]
            must(fn in ("Sum", "Product", "Max", "Min") or t == "AggregatedIndex" and fn in ("Any", "All"))
            o.update(agg_func=fn.lower(), parameters=[V(m) for m in j["metrics"]])
        elif t == "AsymmetricSwitchIndex":
            o.update({k: V(j[k]) for k in ("on_index_parameter", "off_index_parameter")})
        elif t == "IndexedArray":
            o.update(index_parameter=V(j["index_parameter"]))
            o[self.rng.choice(["parameters", "params"])] = [V(m) for m in j["metrics"]]
        elif t == "Division":
            must(j.get("phase", "Before") == "Before")
            o.update(numerator=V(j["numerator"]), denominator=V(j["denominator"]))
        elif t in ("Negative", "Max", "Min", "NegativeMax", "NegativeMin"):
            o["parameter"] = V(j["metric" if "metric" in j else "parameter"])
            if "threshold" in j:
                o["threshold"] = j["threshold"]
        elif t == "Polynomial1D":
            m = j["metric"]
            must(m["type"] in ("Node", "VirtualNode") and m["attribute"] in ("Volume", "ProportionalVolume"))
            o.update(storage_node=m["name"], coefficients=j["coefficients"])
            if m["attribute"] == "Volume" or self.has(0.5):
                o["use_proportional_volume"] = m["attribute"] == "ProportionalVolume"
            o.update({k: j[k] for k in ("scale", "offset") if k in j})
        elif t == "Interpolated":
            x = self.at(j["x"])
            vol = (self.ty.get(x) or self.vt[x]) in ("Storage", "AggregatedStorage", "VirtualStorage")
            ty = "InterpolatedVolume" if vol else "InterpolatedFlow"
            o.update({"node": x, "volumes" if vol else "flows": [V(m) for m in j["xp"]], "values": [V(m) for m in j["fp"]]})
            kw = {}
            if j.get("error_on_bounds") is not None:
                kw["bounds_error"] = j["error_on_bounds"]
            if self.has(0.3):
                kw["kind"] = "linear"
            if kw or self.has(0.3):
                o["interp_kwargs"] = kw
        elif t in ("ControlCurve", "ControlCurveInterpolated"):
            self.curves(j, own, o, d)
            if all(m["type"] == "Literal" for m in j["values"]) and self.has(0.6):
                o["values"] = self.literals(j["values"])
            else:
                o["parameters"] = [V(m) for m in j["values"]]
        elif t == "ControlCurveIndex":
            if self.has(0.5):
                ty = "ControlCurve"
                self.curves(j, own, o, d)
            else:
                self.curves(j, own, o, d, True)
        elif t == "ControlCurvePiecewiseInterpolated":
            must("maximum" not in j)
            self.curves(j, own, o, d)
            o["values"] = j["values"]
            if "minimum" in j:
                o["minimum"] = j["minimum"]
        elif t == "Threshold":
            must(not j.get("ratchet"))
            m = j["metric"]
            if m["type"] in ("Node", "VirtualNode"):
                x = self.at(m)
                vol = (self.ty.get(x) or self.vt[x]) in ("Storage", "AggregatedStorage", "VirtualStorage")
                ty = "StorageThreshold" if vol else "NodeThreshold"
                o["storage_node" if vol else "node"] = x
            else:
                ty = "ParameterThreshold"
                o["parameter"] = V(m)
            o["threshold"] = V(j["threshold"])
            p = {"<": "LT", ">": "GT", "==": "EQ", "<=": "LE", ">=": "GE"}.get(j["predicate"], j["predicate"])
            if p != "LT" or self.has(0.5):
                o["predicate"] = self.rng.choice([p, p.lower(), {"LT": "<", "GT": ">", "EQ": "==", "LE": "<=", "GE": ">="}[p]])
            if "returned_metrics" in j:
                o["values"] = self.literals(j["returned_metrics"])
        elif t == "MultiThreshold":
            must(not j.get("ratchet") and "returned_metrics" not in j and j["predicate"] in ("GE", ">="))
            m = j["metric"]
            if m["type"] in ("Node", "VirtualNode"):
                ty = "MultipleThresholdIndex"
                o["node"] = self.at(m)
            else:
                ty = "MultipleThresholdParameterIndex"
                o["parameter"] = V(m)
            o["thresholds"] = [V(m) for m in j["thresholds"]]
        elif t in ("DailyProfile", "MonthlyProfile", "WeeklyProfile"):
            must(j["values"]["type"] == "Literal" and (t == "MonthlyProfile" or "interp_day" not in j))
            o["values"] = j["values"]["values"]
            if "interp_day" in j:
                o["interp_day"] = j["interp_day"].lower()
        elif t == "UniformDrawdownProfile":
            for k in ("reset_day", "reset_month", "residual_days"):
                if k in j:
                    o[k] = j[k]["value"]
        elif t == "DiscountFactor":
            must(j["discount_rate"]["type"] == "Literal")
            o.update(rate=j["discount_rate"]["value"], base_year=j["base_year"])
        elif t == "Rolling":
            must(j["window_size"] == 1 and j["agg_func"]["type"] == "Mean" and j.get("min_values") is None)
            ty = "RollingMeanFlowNode"
            o.update(node=self.at(j["metric"]), timesteps=1, initial_flow=j["initial_value"])
        else:
            raise No()
        o["type"] = self.rng.choice([ty, ty.lower(), ty.lower() + "parameter", ty + "Parameter" if ty != "MultipleThresholdParameterIndex" else ty])
        return o

    # ---------------------------------------------------------------- the model
    def model(self):
        rng, m = self.rng, self.m
        t = m["time"]
        st = t["timestep"]
        out = {"metadata": {"title": m["metadata"]["title"]}}
        facts = [["metadata/title", m["metadata"]["title"]], ["time/start", rt_day(t["start"])], ["time/end", rt_day(t["end"])]]
        for k in ("description", "minimum_version"):
            if self.has(0.3):
                out["metadata"][k] = "%s %d" % (k, rng.randrange(100))
                facts.append(["metadata/" + k, out["metadata"][k]])
        if st["type"] == "Days":
            step = st["days"] if self.has(0.7) else rng.choice(["%dD", "%dd"]) % st["days"]
        else:
            step = rng.choice(["%dh", "%dH"]) % st["hours"]
        out["timestepper"] = {"start": t["start"], "end": t["end"], "timestep": step}
        if "scenarios" in m:
            out["scenarios"] = [{k: g[k] for k in ("name", "size")} for g in m["scenarios"]["groups"]]
            for g in out["scenarios"]:
                if self.has(0.4):
                    g["ensemble_names"] = ["%s-%d" % (g["name"], k) for k in range(g["size"])]
                self.comp("group", g["name"], [["size", g["size"]]] + [["labels/%d" % k, x] for k, x in enumerate(g.get("ensemble_names", []))])
        net = m["network"]
        nodes = []
        mixed = [(n, self.node, "node") for n in net["nodes"]] + [(n, self.vnode, "vnode") for n in net.get("virtual_nodes", [])]
        if self.has(0.5):
            rng.shuffle(mixed)
        for j, fn, kind in mixed:
            c = self.comp(kind, j["meta"]["name"], [["type", j["type"]]])
            o = dict(fn(j, c), name=j["meta"]["name"])
            nodes.append(self.label(o, c["facts"], kind))
        out["nodes"] = nodes
        out["edges"] = []
        for e in net["edges"]:
            must("from_slot" not in e and "to_slot" not in e)
            out["edges"].append([e["from_node"], e["to_node"]] + ([None, None] if self.has(0.2) else []))
            self.comp("edge", e["from_node"] + "->" + e["to_node"], [])
        pars = {}
        for n, j in self.pj.items():
            if n in self.moved:
                continue
            self.done.add(n)
            c = self.comp("par", n, [["type", j["type"]]])
            pars[n] = self.label(self.par(j, c), None, "par")   # the v1 reader loses these comments
        if pars:
            out["parameters"] = pars
        if self.has(0.2):
            out["recorders"] = {"r": {"type": "NumpyArrayNodeRecorder", "node": net["nodes"][0]["meta"]["name"]}}
        self.facts = facts
        return out

    def comp(self, kind, name, facts, ok=True):
        c = {"c": kind, "n": name, "ok": ok, "inl": 0, "named": [], "facts": facts, "known": "", "alt": []}
        self.comps.append(c)
        return c


def rt_day(x):
    return x + "T00:00:00" if len(x) == 10 else x


# -------------------------------------------------------------------- cases that are run
def renamed(base):
    """nodes may carry names that parameters have, too"""
    class Named(base):
        def node(self, kind, **k):
            if not k.get("name") and self.names.random() < 0.25:
                k["name"] = "p%d" % self.names.randrange(1, 14)
                if any(n["name"] == k["name"] for n in self.nodes):
                    del k["name"]
            return super().node(kind, **k)
    return Named


class VCase(renamed(Case)):
    def __init__(self, *a, **k):
        self.names = random.Random(a[0])
        super().__init__(*a, **k)


class VGen(gensim.Gen):
    MONTHS = False
    def vstorage(self):
        """resets or a window, and nothing else a v1 model can not say"""
        super().vstorage()
        c = self.c
        v, j = c.vss[-1], c.jv[-1]
        if v["win"] and "reset" in j and j["reset"]["type"] != "Never":
            c.vss.pop(), c.jv.pop()
            for n in c.nodes:
                n["vs"] = [x for x in n["vs"] if x != len(c.vss) + 1]
        elif v["reset"]["k"] == "doy" and j["reset"]["type"] == "Seasonal" and "reset_volume" not in j:
            j["reset_volume"] = "Initial"

    def relation(self):
        rng = self.rng
        n = rng.choice([2, 2, 3])
        self.c.agg(self.branch(n), rel={"k": "ratio", "f": [self.fac() for _ in range(n)]})

    def amount(self, lo, hi, unit=500, vary=0.4):
        """also parameters of the model file"""
        c, rng = self.c, self.rng
        x = rng.random()
        if x < 0.15:
            v = rnd(rng, lo, hi, unit)
            return c.par({"k": "const", "v": v, "ex": True}, {"type": "Constant", "value": {"type": "Literal", "value": f(v)}})
        if x < 0.3:
            vs = [rnd(rng, lo, hi, unit) for _ in range(12)]
            return c.par({"k": "monthly", "v": vs, "ip": "none", "ex": True}, {"type": "MonthlyProfile", "values": {"type": "Literal", "values": [f(q) for q in vs]}})
        if x < 0.4 and c.groups:
            g = rng.randrange(len(c.groups))
            vs = [rnd(rng, lo, hi, unit) for _ in range(c.groups[g]["size"])]
            return c.par({"k": "cscen", "v": vs, "g": g + 1, "ex": True},
                         {"type": "ConstantScenario", "values": {"type": "Literal", "values": [f(q) for q in vs]}, "scenario_group": c.groups[g]["name"]})
        if x < 0.5:
            ms = [super(VGen, self).amount(lo, hi, unit, vary) for _ in range(2)]
            return c.par({"k": "agg", "f": "Max", "ms": ms, "tz": 0, "ex": True}, {"type": "Aggregated", "phase": "Before", "agg_func": {"type": "Max"}, "metrics": [c.mj(m) for m in ms]})
        return super().amount(lo, hi, unit, vary)


class VPar(genpar.PGen):
    """Parameters a v1 model can express."""

    def net(self):
        super().net()
        c, rng = self.c, self.rng
        t = c.node("sto", maxv=lit(80000), iv=("prop", 500), cost=lit(-500))
        c.edge(self.inn, t)
        c.edge(t, self.link)
        if self.rng.random() < 0.5:
            c.aggstore([self.sto, t])
        else:
            c.aggstore([t])
        c.vs([self.link], maxv=lit(400000), iv=("abs", 400000), binding=True)
        c.agg([self.link, self.outn], mx=lit(60000))
        self.sto2 = t
        # what a node gives by itself
        self.vols = [{"k": "vol", "i": self.sto}, {"k": "vol", "i": t}, {"k": "asv", "i": 1}, {"k": "vsv", "i": 1}]
        self.flows = [{"k": "nout", "i": self.link}, {"k": "nin", "i": self.outn}, {"k": "nout", "i": self.inn}, {"k": "aggout", "i": 1}]
        self.props = [{"k": "pvol", "i": self.sto}, {"k": "pvol", "i": t}, {"k": "asp", "i": 1}, {"k": "vsp", "i": 1}]

    def inp(self, lo=-8000, hi=20000, state=0.3, chain=0.3):
        return super().inp(lo, hi, 0.0, 0.45)

    def read(self):
        return self.rng.choice(self.vols + self.flows)

    def table(self, un=False):
        c, rng = self.c, self.rng
        x = self.read()
        top = 120 if x in self.vols else 30
        n = rng.randint(2, 5)
        xs = sorted(rng.sample(range(0, top), n))
        xp = [lit(1000 * v) for v in xs]
        fp = [self.leaf(-5000, 20000) if rng.random() < .3 else lit(rng.randrange(-10, 40) * 500) for _ in range(n)]
        return c.par({"k": "table", "x": x, "xp": xp, "fp": fp, "err": False, "ex": False, "un": False},
                     {"type": "Interpolated", "x": c.mj(x), "xp": [c.mj(m) for m in xp], "fp": [c.mj(m) for m in fp], "error_on_bounds": False})

    def poly(self):
        c, rng = self.c, self.rng
        x = rng.choice(self.props + self.vols)
        big = x in self.vols
        cs = [rng.randrange(-8, 9) * 125 for _ in range(2 if big else rng.randint(1, 3))]
        sc, of = rng.choice([1000, 500, -250]), rng.choice([0, 1000, -500])
        j = {"type": "Polynomial1D", "metric": c.mj(x), "coefficients": [f(q) for q in cs]}
        if sc != 1000 or rng.random() < .5:
            j["scale"] = f(sc)
        if of or rng.random() < .5:
            j["offset"] = f(of)
        return c.par({"k": "poly", "x": x, "cs": cs, "sc": sc, "of": of, "ex": False}, j)

    def threshold(self, **k):
        rng = self.rng
        pred = rng.choice(["LT", "LT", "GT", "EQ", "LE", "GE"])
        if rng.random() < 0.6:
            x = self.read()
            return super().threshold(x=x, y=lit(rng.randrange(0, 160 if x in self.vols else 40) * 500 + 250), pred=pred, ratchet=False)
        return super().threshold(pred=pred, ratchet=False)

    def returned(self, s, j, n):
        c, rng = self.c, self.rng
        ms = [lit(rng.randrange(-10, 40) * 500) for _ in range(n)]
        j["returned_metrics"] = [c.mj(m) for m in ms]
        name = "p%d" % (len(c.pars) + 2)
        c.pars.append(dict({"ph": "b", "un": False}, **s, name=[None, None, name, None, "threshold"]))
        return c.par({"k": "pick", "x": {"k": "par", "i": len(c.pars)}, "ms": ms, "ex": True, "name": name}, j)

    def multi_threshold(self):
        c, rng = self.c, self.rng
        x, ex = (self.read(), False) if rng.random() < .6 else self.inp()
        n = rng.randint(1, 3)
        ms = [self.leaf(-3000, 12000) if rng.random() < .4 and ex else lit(rng.randrange(-4, 120) * 500 + 250) for _ in range(n)]
        return c.par({"k": "mthr", "x": x, "ms": ms, "pred": "GE", "ratchet": False, "ex": ex},
                     {"type": "MultiThreshold", "metric": c.mj(x), "thresholds": [c.mj(m) for m in ms], "predicate": "GE"})

    def ileaf(self, hi=3, state=True):
        m = super().ileaf(hi, state)
        return m

    def curves(self, kind=None, un=False):
        c, rng = self.c, self.rng
        n = rng.choice([1, 1, 2, 3])
        x = rng.choice(self.props)
        top = sorted((rng.randrange(0, 9) * 125 for _ in range(n)), reverse=True)
        ccs = [lit(v) for v in top]
        kind = kind or rng.choice(["cc", "cci", "ccint", "ccpw"])
        base = {"control_curves": [c.mj(m) for m in ccs], "storage_metric": c.mj(x)}
        s = {"k": kind, "x": x, "ccs": ccs, "ex": False, "un": False}
        if kind == "cci":
            return c.par(s, dict(base, type="ControlCurveIndex"))
        if kind in ("cc", "ccint"):
            vs = [self.leaf() if rng.random() < .4 else lit(rng.randrange(-10, 40) * 500) for _ in range(n + (1 if kind == "cc" else 2))]
            return c.par(dict(s, vs=vs), dict(base, type="ControlCurve" if kind == "cc" else "ControlCurveInterpolated", values=[c.mj(m) for m in vs]))
        pairs = [[rng.randrange(-10, 40) * 500, rng.randrange(-10, 40) * 500] for _ in range(n + 1)]
        j = dict(base, type="ControlCurvePiecewiseInterpolated", values=[[f(a), f(b)] for a, b in pairs])
        lo = 0
        if rng.random() < .4:
            lo = rng.choice([-250, 0, 125])
            j["minimum"] = f(lo)
        return c.par(dict(s, pairs=pairs, lo=lo, hi=1000), j)

    def rolling(self, idx=False):
        c, rng = self.c, self.rng
        x = rng.choice(self.flows)
        v = rng.randrange(0, 20) * 500
        return c.par({"k": "roll", "x": x, "n": 1, "mn": 1, "v": v, "f": "Mean", "tz": 0, "ex": False},
                     {"type": "Rolling", "metric": c.mj(x), "window_size": 1, "initial_value": f(v), "agg_func": {"type": "Mean"}})

    def profile(self, kind=None):
        rng = self.rng
        return super().profile(rng.choice(["daily", "monthly", "weekly", "drawdown"]))

    def some(self):
        return self.rng.choice([lambda: self.agg(fn=self.rng.choice(["Sum", "Max", "Min", "Product"]), ph="b"), lambda: self.agg(idx=True), lambda: self.division("b"),
                                lambda: self.unary(self.rng.choice(["neg", "max", "min", "nmax", "nmin"])), self.poly, self.table, self.pick, self.consts,
                                self.threshold, self.threshold, self.multi_threshold, self.multi_threshold, self.switch, self.curves, self.curves, self.rolling, self.profile])()


class VKit(composite.Kit):
    def link(self, soft=None):
        return super().link("none")

    def river(self, routed=None):
        c = self.c
        u = c.add("River", self.name("river"))
        i = c.hid("link")
        return composite.put(u, [i], [i], {"Inflow": ("sum", composite.nin(i)), "Outflow": ("sum", composite.nout(i))}, {"Inflow": [i], "Outflow": [i]})

    def loss(self, net, u, feed=None):
        r = super().loss(net, u, feed)
        return r


def sim_case(rng, cid):
    """a network (None: it says what a v1 model can not)"""
    feat = rng.choice(["vary store scen min", "vary store scen agg", "vary scen rel store", "vary store scen vs", "vary scen vs", "vary store scen vs ast big", "vary scen vs long"])
    old = gensim.Case
    gensim.Case = VCase
    try:
        return VGen(rng, cid, set(feat.split())).build()
    finally:
        gensim.Case = old


def par_case(rng, cid):
    old = genpar.Case
    genpar.Case = VCase
    try:
        while True:
            g = VPar(rng, cid, cal=rng.random() < 0.25)
            if not g.c.months:      # version 1 knows no such time-steps here
                break
        for _ in range(rng.choice([4, 6, 8])):
            g.some()
        return g.c
    finally:
        genpar.Case = old


def comp_case(rng, cid):
    old, mids = composite.Kit, composite.MIDS
    composite.Kit, composite.MIDS = VKit, ["link", "piecewise_link", "loss_link", "river", "gauge", "delay", "storage"]
    try:
        return composite.build(rng, cid, "P30", rng.randrange(100))
    finally:
        composite.Kit, composite.MIDS = old, mids


def as_v1(rng, c):
    """the case with its model written as a v1 model, and the declaration of what the conversion consists of"""
    d = c.driver()
    dn = Down(rng, d["model"], [a["name"] for a in c.arrays])
    v1 = dn.model()
    net = d.pop("model")["network"]
    d["v1"] = v1
    d["v1_add"] = {k: net[k] for k in ("metric_sets", "outputs") if k in net}
    given = [p["name"] if isinstance(p["name"], str) else "-" for p in c.pars if isinstance(p["name"], str) and p["name"] not in dn.pj]
    return d, decl(c.id, dn, given)


def decl(cid, dn, given):
    return {"id": cid, "comps": dn.comps, "facts": dn.facts, "given": given, "run": True}


# -------------------------------------------------------------------- models with gaps
def val(path, x):
    """facts of a metric"""
    if isinstance(x, (int, float)):
        return [[path + "/type", "Literal"], [path + "/value", x]]
    if isinstance(x, str):
        return [[path + "/type", "Parameter"], [path + "/name", x]]
    return [[path + "/type", "Table"], [path + "/table", x["table"]]] + ([[path + "/column/type", "Scalar"]] if 0 else [])


class Gaps:
    """A v1 model put together from components that can be converted and ones that can not."""

    def __init__(self, rng, cid):
        self.rng, self.id = rng, cid
        self.comps, self.facts, self.given = [], [["time/start", "2021-01-01T00:00:00"], ["time/end", "2021-01-31T00:00:00"]], []
        self.m = {"metadata": {"title": cid}, "timestepper": {"start": "2021-01-01", "end": "2021-01-31", "timestep": 1},
                  "nodes": [], "edges": [], "parameters": {}}
        self.seq = 0

    def has(self, p=0.5):
        return self.rng.random() < p

    def name(self, stem):
        self.seq += 1
        return "%s %d" % (stem, self.seq) if self.has(0.3) else "%s%d" % (stem, self.seq)

    def comp(self, kind, name, facts, bad=False):
        c = {"c": kind, "n": name, "ok": not bad, "inl": 0, "named": [], "facts": [] if bad else facts, "known": "", "alt": []}
        self.comps.append(c)
        return c

    def node(self, j, facts=(), bad=False, kind="node", name=None):
        n = name or self.name(j["type"][:3].lower())
        c = self.comp(kind, n, list(facts), bad)
        self.m["nodes"].append(dict(j, name=n))
        return n, c

    def par(self, j, facts=(), bad=False, kind="par", name=None):
        n = name or self.name("q")
        c = self.comp(kind, n, list(facts), bad)
        self.m["parameters"][n] = j
        return n, c

    def num(self):
        return self.rng.randrange(-40, 200) / 8

    def v(self, c=None):
        """a value, and what it becomes"""
        r = self.rng.random()
        if r < 0.5 or not self.consts:
            return self.num()
        return self.rng.choice(self.consts)

    def vs(self, n):
        return [self.v() for _ in range(n)]

    def build(self):
        rng = self.rng
        self.consts = []
        self.sto = self.node({"type": "Storage", "max_volume": 10, "initial_volume": 5}, [["type", "Storage"], ["max_volume/value", 10], ["initial_volume/type", "Absolute"], ["initial_volume/volume", 5]])[0]
        self.inp = self.node({"type": "Input", "max_flow": 3}, [["type", "Input"], ["max_flow/value", 3]])[0]
        self.out = self.node({"type": "Output"}, [["type", "Output"]])[0]
        for _ in range(2):
            v = self.num()
            self.consts.append(self.par({"type": "constant", "value": v}, [["type", "Constant"], ["value/value", v]])[0])
        self.m["edges"].append([self.inp, self.out])
        self.comp("edge", self.inp + "->" + self.out, [])
        self.step = 1
        if self.has(0.15):
            self.m["timestepper"]["timestep"] = 0
            self.comp("time", "", [], bad=True)
        else:
            t = rng.choice([[1, "Days", 1, 1], ["3D", None, "3d", 3], ["7d", None, "7d", 7], [5, "Days", 5, 5]])
            self.m["timestepper"]["timestep"] = t[0]
            self.step = t[3]
            self.facts += [["time/timestep/type", "Days"], ["time/timestep/days", t[2]]] if t[1] else [["time/timestep/type", "Frequency"], ["time/timestep/freq", t[2]]]
        kinds = [m for m in dir(self) if m.startswith("g_")]
        for k in rng.sample(kinds, rng.randint(4, 9)):
            getattr(self, k)(bad=self.has(0.55))
        if self.has(0.6):
            self.scenarios(self.has(0.5))
        rng.shuffle(self.m["nodes"])
        ps = list(self.m["parameters"].items())
        rng.shuffle(ps)
        self.m["parameters"] = dict(ps)
        return self

    # nodes
    def g_custom_node(self, bad):
        if bad:
            self.node({"type": self.rng.choice(["Wetland", "mynode", "LinkX"]), "max_flow": 3, "extra": {"a": 1}}, bad=True)
        else:
            self.node({"type": "Link", "extra": 1}, [["type", "Link"]])

    def g_no_counterpart(self, bad):
        if not bad:
            return self.g_gauge(False)
        if self.has():
            self.node({"type": "MultiSplitLink", "max_flows": [1, None], "costs": [0, 1], "extra_slots": 1, "slot_names": ["a", "b"], "factors": [1, 2]}, bad=True)
        else:
            self.node({"type": "RiverSplit", "factors": [1, 1], "slot_names": ["a", "b"]}, bad=True)

    def g_gauge(self, bad):
        j = {"type": "RiverGauge", "mrf": self.v(), "mrf_cost": self.v(), "cost": self.v()}
        self.node(j, [["type", "RiverGauge"]] + val("mrf", j["mrf"]) + val("mrf_cost", j["mrf_cost"]) + val("bypass_cost", j["cost"]))

    def g_storage(self, bad):
        j = {"type": self.rng.choice(["Storage", "reservoir", "Reservoir"]), "max_volume": self.v()}
        fs = [["type", "Storage"]] + val("max_volume", j["max_volume"])
        if not bad:
            p = self.rng.random() < 0.5
            j["initial_volume_pc" if p else "initial_volume"] = 0.5
            fs += [["initial_volume/type", "Proportional" if p else "Absolute"], ["initial_volume/" + ("proportion" if p else "volume"), 0.5]]
        elif self.has(0.3):
            j.update(initial_volume_pc=0.5, initial_volume=2)
            bad = None
        self.node(j, fs, bad is True)

    def g_river(self, bad):
        j = {"type": "River"}
        if bad:
            j[self.rng.choice(["max_flow", "min_flow", "cost"])] = self.v()
        self.node(j, [["type", "River"]], bad)

    def members(self, k=2):
        return [self.inp, self.out][:k]

    def g_aggregated(self, bad):
        j = {"type": "Aggregated", "nodes": self.members()}
        fs = [["type", "Aggregated"], ["nodes/0/name", self.inp], ["nodes/1/name", self.out]]
        if bad:
            if self.has():
                j["flow_weights"] = [1.0, 2.0]
            else:
                j["factors"] = [1.0, {"type": "weird", "x": 1}]
        else:
            if self.has():
                j["factors"] = self.vs(2)
                fs += [["relationship/type", "Ratio"]] + val("relationship/factors/0", j["factors"][0]) + val("relationship/factors/1", j["factors"][1])
            for k in ("max_flow", "min_flow"):
                if self.has():
                    j[k] = self.v()
                    fs += val(k, j[k])
        self.node(j, fs, bad, "vnode")

    def g_aggstorage(self, bad):
        self.node({"type": "AggregatedStorage", "storage_nodes": [self.sto]}, [["type", "AggregatedStorage"], ["storage_nodes/0/name", self.sto]], kind="vnode")

    def g_delay(self, bad):
        j = {"type": "DelayNode"}
        fs = [["type", "Delay"]]
        if bad:
            k = self.rng.randrange(3)
            if k == 1:
                j[self.rng.choice(["days", "timesteps"])] = self.rng.choice([-1, -7])
            elif k == 2:
                j.update(days=2, timesteps=2)
                return self.node(j, fs + val("delay", 2)) if 0 else None
        else:
            n = self.rng.randrange(1, 9)
            u = self.rng.choice(["days", "timesteps"])
            j[u] = n * (self.step if u == "days" else 1)
            alt = fs + val("delay", j[u])
            fs += val("delay", n)
            if self.has():
                j["initial_flow"] = self.num()
                fs += val("initial_value", j["initial_flow"])
        c = self.node(j, fs, bad)[1]
        if not bad and u == "days" and self.step > 1:
            c.update(known="v1-delay-days-per-step", alt=alt)

    def g_piecewise(self, bad):
        n = self.rng.randint(1, 4)
        j = {"type": "PiecewiseLink", "nsteps": n, "costs": self.vs(n), "max_flows": [None if self.has(0.3) else self.v() for _ in range(n)]}
        fs = [["type", "PiecewiseLink"]]
        if bad:
            k = self.rng.choice(["costs", "max_flows"])
            j[k] = j[k] + [1.0] if self.has() else j[k][1:]
        else:
            for i in range(n):
                fs += val("steps/%d/cost" % i, j["costs"][i])
                if j["max_flows"][i] is not None:
                    fs += val("steps/%d/max_flow" % i, j["max_flows"][i])
        self.node(j, fs, bad)

    def g_losslink(self, bad):
        j = {"type": "LossLink", "max_flow": self.v(), "cost": self.v()}
        fs = [["type", "LossLink"]] + val("max_net_flow", j["max_flow"]) + val("net_cost", j["cost"])
        if self.has():
            j["loss_factor"] = self.v()
            fs += [["loss_factor/type", "Net"]] + val("loss_factor/factor", j["loss_factor"])
        self.node(j, fs)

    def g_vs(self, bad):
        fac = [self.rng.choice([1, 2.5, 0, -1, 0.5]) for _ in range(2)]
        j = {"nodes": self.members(), "factors": fac, "max_volume": self.v()}
        fs = [["type", "VirtualStorage"], ["nodes/0/name", self.inp], ["nodes/1/name", self.out], ["factors/0", fac[0]], ["factors/1", fac[1]]] + val("max_volume", j["max_volume"])
        iv = "initial_volume_pc" if self.has(0.4) else "initial_volume"
        j[iv] = self.rng.choice([0, 0.25, 1]) if iv == "initial_volume_pc" else self.rng.choice([0, 7, 0.5])
        fs += [["initial_volume/type", "Proportional"], ["initial_volume/proportion", j[iv]]] if iv == "initial_volume_pc" else [["initial_volume/type", "Absolute"], ["initial_volume/volume", j[iv]]]
        for a in ("min_volume", "cost"):
            if self.has(0.4):
                j[a] = self.v()
                fs += val(a, j[a])
        k = self.rng.randrange(5)
        if k == 0:
            j["type"] = "VirtualStorage"
            if bad:
                del j[iv]
        elif k == 1:
            j["type"] = "RollingVirtualStorage"
            w = self.rng.choice(["days", "timesteps"])
            if bad:
                if self.has(0.7):
                    j[w] = self.rng.choice([0, -1, -30]) if w == "days" else self.rng.choice([0, -1, -30])
            else:
                j[w] = self.rng.randrange(1, 40)
                fs += [["window/type", "Days" if w == "days" else "Timesteps"], ["window/" + w, j[w]]]
        elif k == 2:
            j["type"] = "MonthlyVirtualStorage"
            if bad:
                j["initial_months"] = self.rng.choice([2, 5])
            else:
                j["months"] = self.rng.randint(1, 6)
                j["reset_to_initial_volume"] = self.has()
                fs += [["reset/type", "Monthly"], ["reset/months", j["months"]], ["reset_volume", "Initial" if j["reset_to_initial_volume"] else "Max"]]
        elif k == 3:
            j.update(type="AnnualVirtualStorage", reset_day=self.rng.randint(1, 28), reset_month=self.rng.randint(1, 12), reset_to_initial_volume=self.has())
            fs += [["reset_volume", "Initial" if j["reset_to_initial_volume"] else "Max"], ["reset/type", "Annual"], ["reset/day", j["reset_day"]], ["reset/month", j["reset_month"]]]
            if bad:
                del j[iv]
        else:
            j.update(type="SeasonalVirtualStorage", reset_day=3, reset_month=4, end_day=5, end_month=9, reset_to_initial_volume=self.has())
            fs += [["reset/type", "Seasonal"], ["reset/start_day", 3], ["reset/start_month", 4], ["reset/end_day", 5], ["reset/end_month", 9]]
            fs += [["reset_volume", "Initial" if j["reset_to_initial_volume"] else "Max"]]
            if bad:
                del j[iv]
        self.node(j, fs, bad, "vnode")

    def g_reads(self, bad):
        """parameters that read a node that is a virtual one in v2"""
        k = self.rng.randrange(7)
        T = ["Aggregated", "AggregatedStorage", "VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage", "RollingVirtualStorage"][k]
        j = {"type": T, "nodes": self.members()}
        if k == 1:
            j = {"type": T, "storage_nodes": [self.sto]}
        elif k > 1:
            j.update(factors=[1, 2], max_volume=9, initial_volume=7)
            j.update([{}, {"reset_day": 3, "reset_month": 4}, {"months": 2}, {"reset_day": 3, "reset_month": 4, "end_day": 5, "end_month": 9}, {"timesteps": 4}][k - 2])
        n = self.node(j, [["type", ["Aggregated", "AggregatedStorage"][k] if k < 2 else "VirtualStorage"]], kind="vnode")[0]
        for _ in range(self.rng.choice([1, 1, 2])):
            q = self.rng.randrange(3) if k == 0 else 3 + self.rng.randrange(4)
            at = lambda p: [[p + "/type", "VirtualNode"], [p + "/name", n]]
            if q == 0:
                self.par({"type": "rollingmeanflownode", "node": n, "timesteps": 3, "initial_flow": 1.5}, [["type", "Rolling"], ["window_size", 3]] + at("metric"))
            elif q == 1:
                self.par({"type": "nodethreshold", "node": n, "threshold": 2.5, "predicate": "<"}, [["type", "Threshold"]] + at("metric"))
            elif q == 2:
                self.par({"type": "interpolatedflow", "node": n, "flows": [0.0, 1.5], "values": [2.0, 3.0]}, [["type", "Interpolated"]] + at("x"))
            elif q == 3:
                self.par({"type": "storagethreshold", "storage_node": n, "threshold": 2.5, "predicate": ">"}, [["type", "Threshold"]] + at("metric"))
            elif q == 4:
                self.par({"type": "interpolatedvolume", "node": n, "volumes": [0.0, 1.5], "values": [2.0, 3.0]}, [["type", "Interpolated"]] + at("x"))
            elif q == 5:
                self.par({"type": "controlcurve", "storage_node": n, "control_curve": 0.5, "values": [1.0, 2.0]}, [["type", "ControlCurve"], ["storage_metric/attribute", "ProportionalVolume"]] + at("storage_metric"))
            else:
                self.par({"type": "polynomial1d", "storage_node": n, "coefficients": [1.0, 2.0]}, [["type", "Polynomial1D"]] + at("metric"))

    def g_tags(self, bad):
        j = {"type": "Link", "tags": {"a": "b"}}
        if bad:
            j["tags"][self.rng.choice(["c", "A"])] = self.rng.choice([1, True, ["x"], None, {"y": "z"}, 0.5, False])
        self.node(j, [["tags/a", "b"]], bad)

    def g_inline(self, bad):
        """parameters written in place"""
        a = self.rng.choice(["max_flow", "min_flow", "cost"])
        k = self.rng.randrange(5)
        if k == 4:
            # names that unnamed parameters would be given are taken
            if self.has():
                n = self.name("lin")
                for q in range(self.rng.choice([1, 1, 2])):
                    self.par({"type": "constant", "value": 1.25}, [["type", "Constant"], ["value/value", 1.25]], name="%s-p%d" % (n, q))
                c = self.node({"type": "Link", a: {"type": "max", "parameter": {"type": "constant", "value": 2.25}, "threshold": 1.0}}, [[a + "/type", "Parameter"]], name=n)[1]
                c["inl"] = 2
            else:
                self.par({"type": "constant", "value": 1.25}, [["type", "Constant"], ["value/value", 1.25]], name="unnamed-%d" % self.rng.randrange(2))
                for _ in range(2):
                    c = self.par({"type": "max", "parameter": {"type": "min", "parameter": self.consts[0], "threshold": 2.25}, "threshold": 1.0}, [["type", "Max"], ["parameter/type", "Parameter"]])[1]
                    c["inl"] = 1
        elif bad:
            self.node({"type": "Link", a: {"type": self.rng.choice(["mine", "currentyearthreshold", "deficit"]), "node": self.inp, "threshold": 3}}, bad=True)
        elif k == 0:
            n, c = self.node({"type": "Link", a: {"type": "constant", "value": 3.5}}, [[a + "/type", "Parameter"]])
            c["inl"] = 1
        elif k == 1:
            v, p = self.num(), self.name("given")
            n, c = self.node({"type": "Link", a: {"type": "max", "parameter": {"type": "constant", "value": 1.0}, "name": p}}, [[a + "/type", "Parameter"], [a + "/name", p]])
            c["inl"], c["named"] = 1, [p]
        elif k == 2:
            df = {"type": "dataframe", "url": "x.csv", "column": "c"}
            fs = lambda a: [[a + "/type", "Timeseries"], [a + "/columns/type", "Column"], [a + "/columns/name", "c"]]
            if self.has():
                df["name"] = p = self.name("frame")
                at = [[a + "/name", p]]
                for _ in range(self.rng.randrange(3)):
                    if self.has():
                        self.node({"type": "Output", "max_flow": p}, fs("max_flow") + [["max_flow/name", p]])
                    else:
                        self.par({"type": "min", "parameter": p, "threshold": 1.0}, [["type", "Min"], ["parameter/name", p]] + fs("parameter"))
                n, c = self.node({"type": "Link", a: df}, fs(a) + at)
                c["named"] = [p]
            else:
                n, c = self.node({"type": "Link", a: df}, fs(a))
                c["inl"] = 1
        else:
            self.node({"type": "Link", a: {"table": "t", "column": "x", "index": "y"}}, [[a + "/type", "Table"], [a + "/table", "t"]])

    def g_gauge_split(self, bad):
        j = {"type": "RiverSplitWithGauge", "mrf": self.v(), "mrf_cost": self.v(), "factors": [3, 1], "slot_names": ["river", "abstraction"]}
        if bad:
            if self.has():
                j["cost"] = self.v()
            else:
                j["slot_names"] = ["river", "a", "b"]
        n = self.node(j, [["type", "RiverSplitWithGauge"]] + val("mrf", j["mrf"]) + val("mrf_cost", j["mrf_cost"]) + [["splits/0/slot_name", "abstraction"]], bad)[0]
        if not bad:
            for slot, fs in (("river", [["from_slot/type", "River"]]), ("abstraction", [["from_slot/type", "User"], ["from_slot/name", "abstraction"]])):
                o = self.node({"type": "Output"}, [["type", "Output"]])[0]
                self.m["edges"].append([n, o, slot, None])
                c = self.comp("edge", n + "->" + o, fs)
                if slot == "abstraction":
                    c.update(known="v1-gauge-split-slot", alt=[["from_slot/type", "Abstraction"]])

    def g_table_index(self, bad):
        j = {"type": "Output", "max_flow": {"table": "t", "column": 2 if bad else "a", "index": 1 if bad and self.has() else "b"}}
        self.node(j, [["max_flow/type", "Table"], ["max_flow/table", "t"]], bad)

    # parameters
    def g_custom_par(self, bad):
        if bad:
            self.par({"type": self.rng.choice(["mine", "PywrParam", "constantX"]), "value": 1}, bad=True)
        else:
            self.par({"type": "constantparameter", "value": 2.5}, [["type", "Constant"], ["value/value", 2.5]])

    def g_none_par(self, bad):
        if not bad:
            return self.g_threshold(False)
        self.par(self.rng.choice([{"type": "currentyearthreshold", "threshold": 2021}, {"type": "currentordinaldaythreshold", "threshold": 200},
                                  {"type": "scenariowrapper", "scenario": "s", "parameters": self.vs(2)}, {"type": "deficit", "node": self.out},
                                  {"type": "flow", "node": self.out}, {"type": "storage", "storage_node": self.sto}]), bad=True)

    def g_constant(self, bad):
        if bad:
            self.par({"type": "constant", "url": "x.csv", "column": "a"}, bad=True)
        else:
            self.par({"type": "constant", "table": "t", "column": "a", "index": "b"}, [["type", "Constant"], ["value/type", "Table"], ["value/table", "t"]])

    def g_profile(self, bad):
        n, t, T = self.rng.choice([(12, "monthlyprofile", "MonthlyProfile"), (366, "dailyprofile", "DailyProfile"), (53, "weeklyprofile", "WeeklyProfile")])
        j = {"type": t}
        fs = [["type", T]]
        if bad:
            if self.has():
                j.update(url="x.csv", column="a")
        else:
            j["values"] = [self.num() for _ in range(n)]
            fs += [["values/values/%d" % k, x] for k, x in enumerate(j["values"])]
        self.par(j, fs, bad)

    def curve(self, j, fs):
        if self.has():
            j["control_curve"] = self.v()
            return 1, fs + val("control_curves/0", j["control_curve"])
        n = self.rng.randint(1, 3)
        j["control_curves"] = self.vs(n)
        return n, fs + [q for k in range(n) for q in val("control_curves/%d" % k, j["control_curves"][k])]

    def g_curves(self, bad):
        t, T = self.rng.choice([("controlcurve", "ControlCurve"), ("controlcurveinterpolated", "ControlCurveInterpolated"), ("controlcurvepiecewiseinterpolated", "ControlCurvePiecewiseInterpolated")])
        j = {"type": t, "storage_node": self.sto}
        n, fs = self.curve(j, [["type", T], ["storage_metric/type", "Node"], ["storage_metric/name", self.sto], ["storage_metric/attribute", "ProportionalVolume"]])
        if T == "ControlCurvePiecewiseInterpolated":
            j["values"] = [[self.num(), self.num()] for _ in range(n + 1)]
            fs += [["values/%d/%d" % (k, i), x] for k, p in enumerate(j["values"]) for i, x in enumerate(p)]
            if bad:
                j["parameters"] = self.vs(n + 1)
        else:
            m = n + (1 if T == "ControlCurve" else 2)
            k = self.rng.randrange(2)
            if k:
                j["values"] = [self.num() for _ in range(m)]
                vs = j["values"]
            else:
                vs = j["parameters"] = self.vs(m)
            fs += [q for k, x in enumerate(vs) for q in val("values/%d" % k, x)]
            if bad:
                j.pop("values", 0), j.pop("parameters", 0)
                if self.has() or T == "ControlCurve":
                    bad = bad if T != "ControlCurve" else None
        if bad is None:     # neither: a v1 control curve then gives the index
            return self.g_curve_none()
        if bad and self.has(0.3):
            j["values"] = j.get("values") or [self.num() for _ in range(3)] if T != "ControlCurvePiecewiseInterpolated" else j.get("values", [[1, 2]])
            j.pop("control_curve", 0), j.pop("control_curves", 0)
        self.par(j, fs, bad)

    def g_curve_none(self, bad=True):
        self.par({"type": "controlcurve", "storage_node": self.sto, "values": [1, 2]}, bad=True)

    def g_index_constant(self, bad):
        x = 1.5 if bad else self.rng.randrange(4)
        y = self.rng.randrange(4)
        self.par({"type": "asymmetricswitchindex", "on_index_parameter": x, "off_index_parameter": y},
                 [["type", "AsymmetricSwitchIndex"], ["on_index_parameter/type", "Constant"], ["on_index_parameter/value", x], ["off_index_parameter/value", y]], bad)

    def g_threshold(self, bad):
        t, T = self.rng.choice([("parameterthreshold", 0), ("storagethreshold", 1), ("nodethreshold", 2)])
        p, P = self.rng.choice([("<", "LT"), ("lt", "LT"), (">", "GT"), ("GE", "GE"), ("<=", "LE"), ("==", "EQ")])
        j = {"type": t, "threshold": self.v(), "predicate": p}
        fs = [["type", "Threshold"], ["predicate", P]] + val("threshold", j["threshold"])
        if T == 0:
            j["parameter"] = self.rng.choice(self.consts)
            fs += val("metric", j["parameter"])
        elif T == 1:
            j["storage_node"] = self.sto
            fs += [["metric/type", "Node"], ["metric/name", self.sto]]
        else:
            j["node"] = self.out
            fs += [["metric/type", "Node"], ["metric/name", self.out]]
        if bad:
            j["values"] = [1.0, 2.0, 3.0][:self.rng.choice([1, 3])]
        elif self.has():
            j["values"] = [self.num(), self.num()]
            fs += [q for k, x in enumerate(j["values"]) for q in val("returned_metrics/%d" % k, x)]
        self.par(j, fs, bad)

    def g_rolling(self, bad):
        j = {"type": "rollingmeanflownode", "node": self.out}
        fs = [["type", "Rolling"], ["agg_func/type", "Mean"], ["metric/name", self.out]]
        if bad:
            k = self.rng.randrange(4)
            j.update([{"days": 3}, {"days": 3, "timesteps": 3}, {}, {"timesteps": self.rng.choice([0, -2])}][k])
        else:
            j["timesteps"] = self.rng.randint(1, 9)
            fs += [["window_size", j["timesteps"]]]
        j["initial_flow"] = self.num()
        fs += [["initial_value", j["initial_flow"]]]
        self.par(j, fs, bad)

    def g_interpolated(self, bad):
        t, k, at = self.rng.choice([("interpolatedvolume", "volumes", "Volume"), ("interpolatedflow", "flows", "Outflow")])
        n = self.rng.randint(2, 4)
        node = self.sto if at == "Volume" else self.inp
        j = {"type": t, "node": node, k: sorted(self.num() for _ in range(n)), "values": self.vs(n)}
        fs = [["type", "Interpolated"], ["x/type", "Node"], ["x/name", node]]
        fs += [q for i, x in enumerate(j[k]) for q in val("xp/%d" % i, x)] + [q for i, x in enumerate(j["values"]) for q in val("fp/%d" % i, x)]
        if bad:
            j["interp_kwargs"] = self.rng.choice([{"kind": "cubic"}, {"fill_value": 3}, {"kind": "linear", "fill_value": "extrapolate"}, {"kind": 2}])
        elif self.has():
            j["interp_kwargs"] = {"kind": "linear", "bounds_error": True}
            fs += [["error_on_bounds", True]]
        self.par(j, fs, bad)

    def g_rbf(self, bad):
        n = self.rng.randint(2, 5)
        ds = sorted(self.rng.sample(range(1, 365), n))
        j = {"type": "rbfprofile", "days_of_year": ds, "values": [self.num() for _ in ds]}
        fs = [["type", "RbfProfile"]] + [q for i in range(n) for q in ([["points/%d/1" % i, j["values"][i]]])]
        if bad:
            k = self.rng.randrange(5)
            if k == 0:
                j["rbf_kwargs"] = {"smooth": 0.1}
            elif k == 4:
                j["rbf_kwargs"] = {"epsilon": self.rng.choice([0, 0.0, "50", None])}
            elif k == 1:
                j["rbf_kwargs"] = {"norm": "euclidean"}
            elif k == 2:
                j["rbf_kwargs"] = {"function": self.rng.choice(["quintic", "unknown"])}
            else:
                j["values"] = j["values"][1:]
        else:
            a, b = self.rng.choice([("multiquadric", "MultiQuadric"), ("inverse", "InverseMultiQuadric"), ("gaussian", "Gaussian"), ("linear", "Linear"), ("cubic", "Cubic"), ("thin_plate", "ThinPlateSpline")])
            j["rbf_kwargs"] = {"function": a}
            fs += [["function/type", b]]
            if a in ("multiquadric", "inverse", "gaussian") and self.has():
                e = self.rng.choice([50, 0.5, 0.25, 8, 20, -4])      # v1 divides distances by it, v2 multiplies them by it
                j["rbf_kwargs"]["epsilon"] = e
                fs += [["function/epsilon", 1 / e]]
        self.par(j, fs, bad)

    def g_series(self, bad):
        """a data frame becomes a series, and what names it refers to the series"""
        j = {"type": "dataframe"}
        if bad:
            k = self.rng.randrange(6)
            if k == 0:
                j["column"] = "c"
            elif k == 1:
                j.update(url="x.csv", column="c", scenario="s")
            elif k == 2:
                j.update(url="x.csv", timestep_offset=1)
            elif k == 3:
                j.update(url="x.csv", index="a")
            elif k == 4:
                j.update(url="x.csv", indexes="a")
            else:
                j.update(url="x.csv", checksum={"md9": "00"})
            self.par(j, bad=True, kind="ts")
            return
        fs = [["type", "Pandas"], ["url", "d.csv"]]
        j.update(url="d.csv", dayfirst=True)
        fs.append(["kwargs/dayfirst", True])
        cfs = []
        k = self.rng.randrange(3)
        if k == 0:
            j["column"] = "col a"
            cfs = [["columns/type", "Column"], ["columns/name", "col a"]]
        elif k == 1:
            j["scenario"] = "sc"
            cfs = [["columns/type", "Scenario"], ["columns/name", "sc"]]
        if self.has():
            j["index_col"] = "when"
            fs.append(["time_col", "when"])
        if self.has():
            a = self.rng.choice(["md5", "sha256"])
            j["checksum"] = {a: "ab12"}
            fs += [["checksum/type", {"md5": "MD5", "sha256": "SHA256"}[a]], ["checksum/hash", "ab12"]]
        n = self.par(j, fs, kind="ts")[0]
        for _ in range(self.rng.choice([1, 2, 3])):
            k = self.rng.randrange(3)
            at = lambda p: [[p + "/type", "Timeseries"], [p + "/name", n]] + [[p + "/" + a, b] for a, b in cfs]
            if k == 0:
                a = self.rng.choice(["max_flow", "min_flow", "cost"])
                self.node({"type": "Link", a: n}, at(a))
            elif k == 1:
                self.par({"type": "max", "parameter": n, "threshold": 1.0}, [["type", "Max"], ["threshold", 1]] + at("parameter"))
            else:
                self.node({"type": "VirtualStorage", "nodes": self.members(), "max_volume": n, "initial_volume": 1}, at("max_volume"), kind="vnode")
        if self.has(0.4):   # a second reference by the name of the table
            pass

    def g_hydropower(self, bad):
        j = {"type": "hydropowertarget", "target": self.v(), "density": 998.5, "water_elevation_parameter": self.v(), "max_flow": self.v(), "min_flow": self.v(),
             "turbine_elevation": 3.5, "efficiency": 0.85, "min_head": 0.5, "flow_unit_conversion": 1000, "energy_unit_conversion": 0.25}
        fs = [["type", "HydropowerTarget"], ["water_density", 998.5], ["turbine_elevation", 3.5], ["efficiency", 0.85], ["min_head", 0.5], ["flow_unit_conversion", 1000], ["energy_unit_conversion", 0.25]]
        for a, b in (("target", "target"), ("water_elevation_parameter", "water_elevation"), ("max_flow", "max_flow"), ("min_flow", "min_flow")):
            fs += val(b, j[a])
        self.par(j, fs)

    def g_tablesarray(self, bad):
        j = {"type": "tablesarray", "node": "/data/a", "where": "b", "url": "x.h5"}
        fs = [["type", "TablesArray"], ["node", "/data/a"], ["where", "b"], ["url", "x.h5"]]
        if self.has():
            j["scenario"] = "s"
            fs.append(["scenario", "s"])
        if bad:
            j["checksum"] = {"nosuch": "1"}
        self.par(j, fs, bad)

    def g_agg_bad(self, bad):
        a = self.v()
        j = {"type": "aggregated", "agg_func": "max", "parameters": [a, {"type": "mine"} if bad else 2.5]}
        self.par(j, [["type", "Aggregated"], ["agg_func/type", "Max"]] + val("metrics/0", a) + (val("metrics/1", 2.5) if not bad else []), bad)

    def g_named_reads(self, bad):
        """references to parameters that could not be converted keep their name"""
        p = self.par({"type": "flow", "node": self.out} if bad else {"type": "constant", "value": 4}, [["type", "Constant"]], bad)[0]
        self.node({"type": "Link", "cost": p}, val("cost", p))
        self.par({"type": "negative", "parameter": p}, [["type", "Negative"]] + val("metric" if 0 else "parameter", p))

    def g_table(self, bad):
        if bad:
            self.m.setdefault("tables", {})["t"] = {"url": "t.csv", "index_col": 0}
            self.comp("table", "t", [], bad=True)

    def g_edge(self, bad):
        a, b = self.inp, self.sto
        if bad:
            self.m["edges"].append([a, b, self.rng.choice(["slot", "7", "x y"]), None])
            self.comp("edge", a + "->" + b, [], bad=True)
        else:
            self.m["edges"].append([a, b])
            self.comp("edge", a + "->" + b, [])

    def scenarios(self, bad):
        gs = []
        for k in range(self.rng.randint(1, 3)):
            n = self.rng.randint(2, 6)
            g = {"name": "g%d" % k, "size": n}
            fs = [["size", n]]
            if self.has():
                g["ensemble_names"] = ["m%d" % q for q in range(n)]
                fs += [["labels/%d" % q, x] for q, x in enumerate(g["ensemble_names"])]
            if self.has(0.6):
                a, b, st = self.rng.randrange(n), self.rng.randint(1, n), self.rng.choice([1, 1, 2, 3])
                k = self.rng.randrange(4)
                s = [[b], [a, max(a, b)], [a, max(a, b), st], [None, b, None]][k]
                g["slice"] = s
                want = list(range(n))[slice(*s)]
                fs += self.subset(want, n)
            gs.append((g, fs))
        self.m["scenarios"] = [g for g, _ in gs]
        if bad:
            g = self.rng.choice(gs)[0]
            g["slice"] = [0, g["size"], 0]
        for g, fs in gs:
            self.comp("group", g["name"], fs, bad)
        if self.has(0.4):
            cs = [[self.rng.randrange(g["size"]) for g, _ in gs] for _ in range(self.rng.randint(1, 4))]
            self.m["scenario_combinations"] = cs
            for i, c in enumerate(cs):
                self.comp("combo", str(i), [["%d" % k, x] for k, x in enumerate(c)], bad)

    def subset(self, want, n):
        return [["chosen/%d" % q, True] for q in want] + [["chosen count", len(want)]]

    def driver(self):
        return {"id": self.id, "v1": self.m, "convert_only": True}

    def decl(self):
        return {"id": self.id, "comps": self.comps, "facts": self.facts, "given": self.given + ["t"], "run": False}


# -------------------------------------------------------------------- what the program made of it
def facts(x):
    return [[p.lstrip("/"), v] for p, k, v in docs.flat(x)]


def canon(fs):
    """the values as they appear in a document"""
    return [[p, docs.flat(v)[0][2]] for p, v in fs]


def entry(kind, name, j):
    j = dict(j)
    meta = j.pop("meta", {})
    fs = facts(j) + [q for q in facts({k: v for k, v in meta.items() if k != "name"})]
    return {"c": kind, "n": name, "facts": fs}


def chosen(g):
    s = g.get("subset")
    if s is None:
        return []
    n = g["size"]
    if s["type"] == "Slice":
        x = list(range(n))[s["start"]:s["end"]]
    elif s["type"] == "Indices":
        x = s["indices"]
    else:
        x = [g["labels"].index(q) for q in s["labels"]]
    return [["chosen/%d" % q, True] for q in x] + [["chosen count", len(x)]]


def refs(x, out):
    if isinstance(x, dict):
        if x.get("type") in ("Parameter", "Timeseries") and isinstance(x.get("name"), str):
            out.append({"c": "par" if x["type"] == "Parameter" else "ts", "n": x["name"]})
        for v in x.values():
            refs(v, out)
    elif isinstance(x, list):
        for v in x:
            refs(v, out)
    return out


def trace(de, v1):
    doc = v1["doc"]
    net = doc["network"]
    ds = [entry("node", n["meta"]["name"], n) for n in net["nodes"]]
    ds += [entry("vnode", n["meta"]["name"], n) for n in net.get("virtual_nodes") or []]
    ds += [entry("par", n["meta"]["name"], n) for n in net.get("parameters") or []]
    ds += [entry("ts", n["meta"]["name"], n) for n in net.get("timeseries") or []]
    ds += [{"c": "table", "n": str(t.get("meta", t).get("name")), "facts": []} for t in net.get("tables") or []]
    for e in net["edges"]:
        ds.append({"c": "edge", "n": e["from_node"] + "->" + e["to_node"], "facts": facts({k: v for k, v in e.items() if k not in ("from_node", "to_node")})})
    sc = doc.get("scenarios") or {}
    for g in sc.get("groups") or []:
        ds.append({"c": "group", "n": g["name"], "facts": facts({k: v for k, v in g.items() if k in ("size", "labels")}) + canon(chosen(g))})
    for i, c in enumerate(sc.get("combinations") or []):
        ds.append({"c": "combo", "n": str(i), "facts": facts(c if isinstance(c, list) else list(c.values())[0])})
    comps = [dict(c, facts=canon(c["facts"]), alt=canon(c["alt"])) for c in de["comps"]]
    return {"id": de["id"], "comps": comps, "given": de["given"], "doc": ds, "facts": canon(de["facts"]),
            "err": [{"k": e["k"], "n": e.get("n") or "", "e": e["e"]} for e in v1["errors"]],
            "refs": refs(net, []), "top": facts({"metadata": doc["metadata"], "time": doc["time"]})}


def conversions(chk, made, traces):
    """made: declarations; the conversions as cases of TraceConv"""
    sp = []
    for de in made:
        tr = traces.get(de["id"])
        if tr is None or "v1" not in tr or not tr["v1"]:
            chk.reject({"case": de["id"], "what": "the conversion failed", "got": tr and (tr["status"], str(tr.get("error"))[:300])})
            continue
        chk.count("conversions with errors" if tr["v1"]["errors"] else "conversions without errors")
        for c in de["comps"]:
            chk.count("%s %s" % (c["c"], "converted" if c["ok"] else "reported"))
        sp.append(trace(de, tr["v1"]))
    if sp:
        res = tlc_cases("TraceConv", sp, chk.work, 6, weight=lambda s: len(s["comps"]) + len(s["doc"]))
        chk.add(res)
        want = sum(len(s["comps"]) + 2 for s in sp)
        if not chk.rejects and not res.rejects and res.distinct != want:
            raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
        chk.traces += len(sp)


def main(pid="P35"):
    chk = Check(pid)
    rng = random.Random(seed() * 7919 + 35)
    n = 150 if tier() == "quick" else 1500
    m = 500 if tier() == "quick" else 4000
    run, made, cs = {}, [], {}
    k = 0
    while len(run) < n:
        k += 1
        r = random.Random(rng.random())
        fn = [sim_case, par_case, comp_case][k % 3]
        try:
            c = fn(r, "v%d" % k)
            if c is None or getattr(c, "hours", None) == 1:     # the length of an hour in thousandths of a day is not exact
                continue
            d, de = as_v1(r, c)
        except No:
            continue
        run[c.id], cs[c.id] = d, c
        made.append(de)
    gaps = [Gaps(random.Random(rng.random()), "g%d" % k).build() for k in range(m)]
    for g in gaps:
        made.append(g.decl())
    drv = list(run.values()) + [g.driver() for g in gaps]
    for d in drv:
        chk.cases[d["id"]] = d
    traces = run_driver(drv, chk.work)
    conversions(chk, made, traces)
    behave(chk, cs, run, traces)
    return chk.finish()


def behave(chk, cs, run, traces):
    """the converted models, run, behave as the v1 models describe"""
    sims = [c for c in cs.values() if not hasattr(c, "users")]
    comps = [c for c in cs.values() if hasattr(c, "users")]
    chk.any = True
    simcheck.validate(chk, sims, drivers=run, traces=traces)
    for c in comps:
        c.tag = chk.pid
    composite.judge(chk, comps, drivers=run, traces=traces)


if __name__ == "__main__":
    main()
