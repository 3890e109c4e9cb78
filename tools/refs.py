"""References of model files (P34): extraction of names and references from any document by the schema of the format,
single corruptions, and matrices of what node kinds offer; decided by Wellformed.tla."""
import copy
import os
import random
import re
import shutil

import composite
import genpar
import multi
import roundtrip
from docs import DEFS, SCHEMA
from vplib import REPO, Check, run_driver, seed, tier, tlc_cases

NODES = ("Input", "Link", "Output", "Storage", "Catchment", "RiverGauge", "LossLink", "River", "RiverSplitWithGauge", "WaterTreatmentWorks",
         "PiecewiseLink", "PiecewiseStorage", "Delay", "Turbine", "Reservoir", "Abstraction")
VIRTUAL = ("Aggregated", "AggregatedStorage", "VirtualStorage")
ATTRS = ("Inflow", "Outflow", "Volume", "MaxVolume", "ProportionalVolume", "Loss", "Deficit", "Power", "Compensation", "Rainfall", "Evaporation", "Abstraction")
COMPS = ("Inflow", "Outflow", "Volume", "MaxVolume", "ProportionalVolume", "Loss", "Compensation", "Rainfall", "Evaporation", "Abstraction")
SLOTS = ("Storage", "River", "Spill", "Compensation", "Abstraction", "Split 0", "Split 1", "Split 2", "User u", "User v")


def lit(v):
    return {"type": "Literal", "value": v}


def slot_json(w):
    k, _, x = w.partition(" ")
    return {"type": k, **({"position": int(x)} if k == "Split" else {"name": x} if k == "User" else {})}


def slot_name(s):
    if s is None:
        return ""
    return s["type"] + (" %d" % s["position"] if s["type"] == "Split" else " " + s["name"] if s["type"] == "User" else "")


# ---------------------------------------------------------------- walking a document along the schema of the format
def branch(s, v):
    """the alternatives of s that v can be"""
    for k in ("oneOf", "anyOf"):
        if k in s:
            for a in s[k]:
                b = a
                while "$ref" in b:
                    b = DEFS[b["$ref"].rsplit("/", 1)[1]]
                if v is None:
                    continue
                pr = b.get("properties", {})
                if isinstance(v, dict):
                    if "type" in pr and "const" in pr["type"]:
                        if v.get("type") == pr["type"]["const"]:
                            return a
                    elif pr or "oneOf" in b or "anyOf" in b:
                        return a
                elif isinstance(v, list) and b.get("type") == "array":
                    return a
                elif isinstance(v, str) and (b.get("type") == "string"):
                    return a
            return {}
    return {}


def walk(v, s, path, out):
    """out gets (path, definition name, value) of everything of a named definition"""
    if v is None or s is True:
        return
    if "$ref" in s:
        name = s["$ref"].rsplit("/", 1)[1]
        out.append((path, name, v))
        walk(v, DEFS[name], path, out)
        if "properties" not in s:
            return
    b = branch(s, v)
    if b:
        walk(v, b, path, out)
    if isinstance(v, dict):
        for k, x in v.items():
            if k in s.get("properties", {}):
                walk(x, s["properties"][k], path + [k], out)
            elif isinstance(s.get("additionalProperties"), dict):
                walk(x, s["additionalProperties"], path + [k], out)
    elif isinstance(v, list) and isinstance(s.get("items"), dict):
        for i, x in enumerate(v):
            walk(x, s["items"], path + [i], out)


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def has_of(n):
    k = n.get("type")
    out = []
    if k == "Reservoir":
        if n.get("compensation") is not None:
            out.append("Compensation")
        if n.get("spill") == "LinkNode":
            out.append("Spill")
        if n.get("spill") and n.get("connect_compensation_to_spill") is not False:
            out.append("joined")
        if n.get("surface_area") is not None:
            out += [x for x, y in (("Rainfall", "rainfall"), ("Evaporation", "evaporation")) if n.get(y) is not None]
        if n.get("leakage") is not None:
            out.append("Loss")
    elif k == "RiverSplitWithGauge":
        for i, s in enumerate(n.get("splits", [])):
            out.append("Split %d" % i)
            if s.get("slot_name"):
                out.append("User " + s["slot_name"])
    elif k in ("LossLink", "River", "WaterTreatmentWorks") and n.get("loss_factor") is not None:
        out.append("Loss")
    elif k in ("Threshold", "MultiThreshold") and n.get("returned_metrics") is not None:
        out.append("returned")
    return out


class Doc:
    """Declared names and references of one network of a document. pre: what the names are prefixed with."""

    def __init__(self, net, scens, extras=None, pre="", conn=True):
        self.net = net
        self.decl, self.refs, self.deps, self.odd, self.edges = [], [], [], [], []
        self.sites = []          # (path to the object, key, class) of every reference, for corruption
        self.pre = pre
        self.scan(scens, extras or {})

    def nm(self, n):
        return self.pre + n

    def declare(self, ns, n, k="", has=()):
        self.decl.append({"ns": ns, "n": self.nm(n), "k": k, "has": list(has)})

    def ref(self, ns, n, by, q="", w="", as_=""):
        self.refs.append({"ns": ns, "n": self.nm(n), "ks": [], "by": self.nm(by), "as": as_, "q": q, "w": w})

    def scan(self, scens, extras):
        net = self.net
        for n in net.get("nodes") or []:
            self.declare("node", n["meta"]["name"], n["type"], has_of(n))
            for p in n.get("parameters") or []:
                self.declare("lpar", n["meta"]["name"] + "/" + p["meta"]["name"], p["type"], has_of(p))
        for n in net.get("virtual_nodes") or []:
            self.declare("node", n["meta"]["name"], n["type"])
            for p in n.get("parameters") or []:
                self.declare("lpar", n["meta"]["name"] + "/" + p["meta"]["name"], p["type"], has_of(p))
        for p in net.get("parameters") or []:
            self.declare("par", p["meta"]["name"], p["type"], has_of(p))
        for a in extras.get("arrays", []):
            self.declare("par", a["name"], "array", ["index"] if a.get("index") else [])
            self.deps.append({"n": self.nm(a["name"]), "on": []})
        for p in extras.get("core_params", []):
            self.declare("par", p["name"], "array", ["index"] if p.get("index") else [])
            self.deps.append({"n": self.nm(p["name"]), "on": []})
        for t in net.get("tables") or []:
            self.declare("table", t["meta"]["name"], "")
        for t in net.get("timeseries") or []:
            self.declare("ts", t["meta"]["name"], "")
        for t in net.get("metric_sets") or []:
            self.declare("mset", t["name"], "")
            self.metrics_listed(t)
        for t in net.get("outputs") or []:
            pass     # the names of outputs: see P26
        for g in scens or []:
            self.declare("scen", g["name"], "")
        seen = []
        for e in net.get("edges") or []:
            self.edges.append({"f": self.nm(e["from_node"]), "t": self.nm(e["to_node"]), "fs": slot_name(e.get("from_slot")), "ts": slot_name(e.get("to_slot"))})
            seen.append(e)
        # references
        for sec in ("nodes", "virtual_nodes", "parameters", "tables", "timeseries", "metric_sets", "outputs", "edges"):
            for i, x in enumerate(net.get(sec) or []):
                s = SCHEMA["properties"]["network"]
                while "$ref" in s:
                    s = DEFS[s["$ref"].rsplit("/", 1)[1]]
                s = s["properties"][sec]
                items = s.get("items") or next(a for a in s.get("anyOf", [s]) if a.get("type") == "array" or "array" in str(a.get("type")))["items"]
                out = []
                walk(x, items, [sec, i], out)
                if sec == "edges":
                    by = x["from_node"]
                    self.edge(x, x["to_node"], [sec, i], by)
                    continue
                by = x["meta"]["name"] if "meta" in x else x["name"]
                needs = {}
                for path, d, v in out:
                    who, parent, space = by, by if sec in ("nodes", "virtual_nodes") else None, "par" if sec == "parameters" else None
                    if sec in ("nodes", "virtual_nodes") and len(path) > 3 and path[2] == "parameters":
                        who = by + "/" + x["parameters"][path[3]]["meta"]["name"]
                        space = "lpar"
                    self.one(path, d, v, who, parent, needs, space)
                for who, on in needs.items():
                    self.deps.append({"n": self.nm(who), "on": sorted(self.nm(y) for y in on)})

    def metrics_listed(self, t):
        if not (t.get("metrics") or []) and not any((t.get("filters") or {}).values()):
            self.odd.append({"n": self.nm(t["name"])})

    def edge(self, e, other, path, by):
        self.ref("node", e["from_node"], e["to_node"], "out", slot_name(e.get("from_slot")))
        self.ref("node", e["to_node"], e["from_node"], "in", slot_name(e.get("to_slot")))
        self.sites += [(path, "from_node", "end"), (path, "to_node", "end"), (path, "from_slot", "slot"), (path, "to_slot", "slot")]

    def one(self, path, d, v, by, parent, needs, space):
        if space and by not in needs:
            needs[by] = set()
        if d in ("Metric", "IndexMetric"):
            whole = d == "IndexMetric"
            t = v["type"]
            if t in ("Node", "VirtualNode"):
                q = "none" if whole else "attribute" if t == "Node" else "vattribute"
                self.ref("node", v["name"], by, q, v.get("attribute") or "")
                self.sites += [(path, "name", "node"), (path, "attribute", "attr")]
            elif t == "Parameter" or t == "LocalParameter":
                ns, n = ("par", v["name"]) if t == "Parameter" else ("lpar", "%s/%s" % (parent or "", v["name"]))
                self.ref(ns, n, by, "whole" if whole else "number", v.get("key") or "")
                self.sites += [(path, "name", "par" if ns == "par" else "lpar"), (path, "key", "key")]
                if space and (v.get("return_value") or "Before") == "Before":
                    needs[by].add(n)
            elif t == "Table":
                self.ref("table", v["table"], by)
                self.sites.append((path, "table", "table"))
            elif t == "Timeseries":
                self.ref("ts", v["name"], by)
                self.sites.append((path, "name", "ts"))
                if (v.get("columns") or {}).get("type") == "Scenario":
                    self.ref("scen", v["columns"]["name"], by)
                    self.sites.append((path + ["columns"], "name", "scen"))
            elif t == "InterNetworkTransfer":
                self.ref("xfer", v["name"], by, "none" if whole else "")
                self.sites.append((path, "name", "xfer"))
            elif t == "Edge":
                e = v["edge"]
                self.ref("node", e["from_node"], by, "out", slot_name(e.get("from_slot")))
                self.ref("node", e["to_node"], by, "in", slot_name(e.get("to_slot")))
                self.refs.append({"ns": "edge", "n": self.nm(e["from_node"]), "ks": [], "by": self.nm(by), "as": "", "q": "edge", "w": self.nm(e["to_node"]),
                                  "fs": slot_name(e.get("from_slot")), "ts": slot_name(e.get("to_slot"))})
                self.sites += [(path + ["edge"], "from_node", "end"), (path + ["edge"], "to_node", "end"), (path + ["edge"], "from_slot", "slot"), (path + ["edge"], "to_slot", "slot")]
        elif d in ("ConstantValue", "ConstantValue2", "ConstantFloatVec") and isinstance(v, dict) and v.get("type") == "Table":
            self.ref("table", v["table"], by)
            self.sites.append((path, "table", "table"))
        elif d == "NodeComponentReference":
            self.ref("node", v["name"], by, "store" if path[2] == "storage_nodes" else "component", v.get("component") or "")
            self.sites += [(path, "name", "node"), (path, "component", "comp")]
        elif d in ("MemoryOutput", "Hdf5Output"):
            self.ref("mset", v["metric_set"], by)
            self.sites.append((path, "metric_set", "mset"))
        elif d == "CsvOutput":
            ms = v["metric_set"]
            for i, m in enumerate(ms if isinstance(ms, list) else [ms]):
                self.ref("mset", m, by)
                self.sites.append((path + ["metric_set"], i, "mset") if isinstance(ms, list) else (path, "metric_set", "mset"))
        elif d == "Parameter" and isinstance(v, dict):
            if v.get("type") == "ConstantScenario":
                self.ref("scen", v["scenario_group"], by)
                self.sites.append((path, "scenario_group", "scen"))
            if v.get("type") == "Placeholder":
                self.odd.append({"n": self.nm(by)})
        elif d in ("Node", "VirtualNode") and v.get("type") == "Placeholder":
            self.odd.append({"n": self.nm(by)})


# ---------------------------------------------------------------- cases
class RefCase:
    def __init__(self, cid, key, doc, folder=None, extras=None, runs=None):
        self.id, self.key, self.doc, self.dir, self.extras = cid, key, doc, folder, extras or {}
        self.run = bool(runs)
        self.odd = []
        self.note = ""

    def nets(self):
        if self.key == "model":
            return [("", self.doc["network"])]
        return [(x["name"], x["network"]) for x in self.doc["networks"]]

    def scans(self):
        sc = ((self.doc.get("scenarios") or {}).get("groups")) or []
        multi_ = self.key == "multi"
        out = []
        for i, (n, net) in enumerate(self.nets()):
            d = Doc(net, sc if i == 0 else [], self.extras.get(n), n + ":" if multi_ else "")
            if multi_ and i:
                d.decl += [{"ns": "scen", "n": d.nm(g["name"]), "k": "", "has": []} for g in sc]
            out.append(d)
        return out

    def spec(self):
        ds = self.scans()
        cat = lambda k: [x for d in ds for x in getattr(d, k)]
        decl, refs = cat("decl"), cat("refs")
        if self.key == "multi":
            for x in self.doc["networks"]:
                decl.append({"ns": "net", "n": x["name"], "k": "", "has": []})
            by = {x["name"]: d for x, d in zip(self.doc["networks"], ds)}
            for x in self.doc["networks"]:
                for t in x.get("transfers") or []:
                    n = x["name"] + ":" + t["name"]
                    decl.append({"ns": "xfer", "n": n, "k": "", "has": []})
                    refs.append({"ns": "net", "n": t["from_network"], "ks": [], "by": n, "as": "", "q": "", "w": ""})
                    if t["from_network"] == x["name"]:
                        self.odd.append({"n": n})
                    if t["from_network"] in by:
                        s = Doc({}, [], {}, t["from_network"] + ":")
                        s.one(["transfers"], "Metric", t["metric"], t["name"], None, {}, None)
                        for r in s.refs:
                            r["by"] = n
                        refs += s.refs
        full = lambda r: dict({"fs": "", "ts": ""}, **r)
        return {"id": self.id, "tag": "P34", "decl": decl, "refs": [full(r) for r in refs], "deps": cat("deps"), "odd": cat("odd") + self.odd, "conn": False, "file": True,
                "edges": cat("edges"), "defs": [], "leaf": [], "vals": [], "built": False, "crashed": False, "err": "", "named": [], "dumped": False, "dump": {}}

    def driver(self):
        d = {"id": self.id, self.key: self.doc, "extras": self.extras, "runs": [{"tag": "r", "solver": "highs"}] if self.run else []}
        if self.dir:
            d["dir"] = self.dir
        return d


def words_in(err, n, pre):
    n = n.split(":", 1)[1] if pre and ":" in n and n.split(":", 1)[0] in pre else n
    return all(re.search(r"(?<![A-Za-z0-9_])" + re.escape(x) + r"(?![A-Za-z0-9_])", err) for x in n.split("/"))


def attach(s, t, c):
    st = t["status"]
    err = str(t.get("error"))
    built, crashed = st == "ok", st in ("panic", "crash")
    if built and c.run:
        r = t["runs"][0]
        built = r["status"] == "ok"
        crashed = r["status"] == "panic"
        err = str(r.get("error"))
    s["built"], s["crashed"], s["err"] = built, crashed, err[:400]
    if not built:
        pre = {x["name"] for x in c.doc["networks"]} if c.key == "multi" else set()
        vocab = {x["n"] for x in s["decl"]} | {x["n"] for x in s["refs"]} | {x["by"] for x in s["refs"]} | {x["n"] for x in s["odd"]} | {e[k] for e in s["edges"] for k in "ft"}
        s["named"] = sorted(n for n in vocab if words_in(err, n, pre))
        if "JSON error" in err[:40]:     # the position in the text stands for the name of the key
            s["named"].append("zzkey")


# ---------------------------------------------------------------- what the node kinds offer
def node_json(kind, opt):
    m = {"meta": {"name": "X"}, "type": kind}
    if kind in ("Storage", "Reservoir", "PiecewiseStorage"):
        m.update(initial_volume={"type": "Absolute", "volume": 1.0}, max_volume=lit(10))
    if kind == "PiecewiseStorage":
        m["steps"] = [{"control_curve": lit(0.5)}]
    if kind == "PiecewiseLink":
        m["steps"] = [{"cost": lit(1), "max_flow": lit(5)}, {"cost": lit(3)}]
    if kind == "Delay":
        m.update(delay=lit(1), initial_value=lit(0.0))
    if kind == "Turbine":
        m.update(turbine_elevation=0.0, min_head=0.0, efficiency=0.9, water_density=1000.0, flow_unit_conversion=1.0, energy_unit_conversion=0.000001, water_elevation=lit(5))
    if kind == "RiverSplitWithGauge":
        m["splits"] = [{"factor": lit(0.25)}] if opt == 0 else [{"factor": lit(0.25), "slot_name": "v"}, {"factor": lit(0.1), "slot_name": "u"}]
        if opt:
            m.update(mrf=lit(1), mrf_cost=lit(-10))
    if kind in ("LossLink", "River", "WaterTreatmentWorks") and opt:
        m["loss_factor"] = {"type": ("Net", "Gross")[opt % 2], "factor": lit(0.1)}
    if kind == "River" and opt == 2:
        m["routing_method"] = {"type": "Delay", "delay": 1, "initial_value": lit(0.0)}
    if kind in ("RiverGauge", "Abstraction") and opt:
        m.update(mrf=lit(1), mrf_cost=lit(-10))
    if kind == "Reservoir":
        if opt in (1, 3):
            m["compensation"] = lit(0)
            m["spill"] = "LinkNode" if opt == 1 else "OutputNode"
            m["connect_compensation_to_spill"] = True
        if opt in (2, 3):
            m.update(surface_area={"data": {"Polynomial": [1.0]}, "is_storage_proportional": False}, rainfall={"data": lit(0.1)})
        if opt == 3:
            m.update(evaporation={"data": lit(0.1)}, leakage={"loss": lit(0.1)})
    return m


def small(kind, opt):
    """S -> X -> T, as far as X takes and gives"""
    net = {"nodes": [{"meta": {"name": "S"}, "type": "Input"}, {"meta": {"name": "T"}, "type": "Output"}, node_json(kind, opt)],
           "edges": [{"from_node": "S", "to_node": "T"}]}
    if kind not in ("Input", "Catchment"):
        net["edges"].append({"from_node": "S", "to_node": "X"})
    if kind != "Output":
        net["edges"].append({"from_node": "X", "to_node": "T"})
    if kind == "RiverSplitWithGauge":
        for i in range(1 + (opt > 0)):
            net["nodes"].append({"meta": {"name": "T%d" % i}, "type": "Output"})
            net["edges"].append({"from_node": "X", "to_node": "T%d" % i, "from_slot": slot_json("Split %d" % i)})
    if kind == "Abstraction":
        net["edges"].append({"from_node": "X", "to_node": "T", "from_slot": slot_json("Abstraction")})
    if kind == "Reservoir" and opt == 1:
        net["edges"].append({"from_node": "X", "to_node": "T", "from_slot": slot_json("Spill")})
    return {"metadata": {"title": "m"}, "time": {"start": "2021-01-01", "end": "2021-01-02", "timestep": {"type": "Days", "days": 1}}, "network": net}


OPTS = {"Reservoir": 4, "River": 3, "RiverSplitWithGauge": 2, "LossLink": 2, "WaterTreatmentWorks": 3, "RiverGauge": 2, "Abstraction": 2}


def matrix():
    """every attribute, component and slot, of every kind of node"""
    for kind in NODES:
        for o in range(OPTS.get(kind, 1)):
            for a in ("",) + ATTRS:
                for t in ("Node", "VirtualNode"):
                    for where in (("set", "max", "index") if t == "Node" and a in ("", "Outflow", "Volume") else ("set",)):
                        m = small(kind, o)
                        ref = {"type": t, "name": "X", **({"attribute": a} if a else {})}
                        if where == "set":
                            m["network"]["metric_sets"] = [{"name": "ms", "metrics": [ref], "filters": {}}]
                        elif where == "max":
                            m["network"]["nodes"][0]["max_flow"] = ref
                        else:
                            m["network"]["parameters"] = [{"meta": {"name": "ip"}, "type": "IndexedArray", "index_parameter": ref, "metrics": [lit(1)]}]
                        yield "%s-%d-%s-%s-%s" % (kind, o, a, t, where), m
            for cm in ("",) + COMPS:
                ref = {"name": "X", **({"component": cm} if cm else {})}
                for v in ("agg", "vs", "store"):
                    m = small(kind, o)
                    m["network"]["virtual_nodes"] = [
                        {"meta": {"name": "V"}, "type": "Aggregated", "nodes": [ref, {"name": "S"}], "max_flow": lit(100)} if v == "agg" else
                        {"meta": {"name": "V"}, "type": "VirtualStorage", "nodes": [{"name": "S"}, ref], "initial_volume": {"type": "Absolute", "volume": 50.0}, "max_volume": lit(100)} if v == "vs" else
                        {"meta": {"name": "V"}, "type": "AggregatedStorage", "storage_nodes": [ref]}]
                    yield "%s-%d-%s-%s" % (kind, o, cm, v), m
            for sl in ("",) + SLOTS:
                for side in ("out", "in"):
                    m = small(kind, o)
                    m["network"]["nodes"] += [{"meta": {"name": "Y"}, "type": "Storage", "initial_volume": {"type": "Absolute", "volume": 1.0}, "max_volume": lit(10)}]
                    e = {"from_node": "X", "to_node": "Y"} if side == "out" else {"from_node": "Y", "to_node": "X"}
                    if sl:
                        e["from_slot" if side == "out" else "to_slot"] = slot_json(sl)
                    m["network"]["edges"].append(e)
                    yield "%s-%d-%s-%s" % (kind, o, sl, side), m
    for v in range(3):
        for a in ("",) + ATTRS:
            for t in ("Node", "VirtualNode"):
                m = small("Storage", 0)
                m["network"]["virtual_nodes"] = [[
                    {"meta": {"name": "V"}, "type": "Aggregated", "nodes": [{"name": "S"}], "max_flow": lit(100)},
                    {"meta": {"name": "V"}, "type": "VirtualStorage", "nodes": [{"name": "S"}], "initial_volume": {"type": "Absolute", "volume": 50.0}, "max_volume": lit(100)},
                    {"meta": {"name": "V"}, "type": "AggregatedStorage", "storage_nodes": [{"name": "X"}]}][v]]
                m["network"]["metric_sets"] = [{"name": "ms", "metrics": [{"type": t, "name": "V", **({"attribute": a} if a else {})}], "filters": {}}]
                yield "V%d-%s-%s" % (v, a, t), m
    # parameters of their own, of every kind of node: for the node itself, for others, or with the name of a global one
    con = {"meta": {"name": "own"}, "type": "Constant", "value": lit(1)}
    agg = {"meta": {"name": "twice"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [{"type": "LocalParameter", "name": "own"}, lit(1)]}
    for v in range(3):
        for who in ("V", "S"):
            for n in ("own", "twice", "other"):
                for where in ("node", "set", "par"):
                    m = small("Storage", 0)
                    net = m["network"]
                    net["virtual_nodes"] = [[
                        {"meta": {"name": "V"}, "type": "Aggregated", "nodes": [{"name": "S"}], "max_flow": lit(100)},
                        {"meta": {"name": "V"}, "type": "VirtualStorage", "nodes": [{"name": "S"}], "initial_volume": {"type": "Absolute", "volume": 50.0}, "max_volume": lit(100)},
                        {"meta": {"name": "V"}, "type": "AggregatedStorage", "storage_nodes": [{"name": "X"}]}][v]]
                    x = net["virtual_nodes"][0] if who == "V" else net["nodes"][0]
                    x["parameters"] = [copy.deepcopy(con), copy.deepcopy(agg)]
                    ref = {"type": "LocalParameter", "name": n}
                    if where == "node":
                        key = {"Input": "max_flow", "Aggregated": "max_flow", "VirtualStorage": "cost"}.get(x["type"])
                        if key is None:
                            continue
                        x[key] = ref
                    elif where == "par":
                        x["parameters"].append({"meta": {"name": "last"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [ref, lit(1)]})
                    else:
                        net["parameters"] = [{"meta": {"name": "own"}, "type": "Constant", "value": lit(2)}]
                        net["metric_sets"] = [{"name": "ms", "metrics": [{"type": "Parameter", "name": n}], "filters": {}}]
                    yield "L%d-%s-%s-%s" % (v, who, n, where), m


    # ... and in every kind of node, with the same names in another one, of every kind of parameter that chooses or compares
    thr = {"meta": {"name": "thr"}, "type": "Threshold", "metric": {"type": "LocalParameter", "name": "own"}, "threshold": lit(1), "predicate": "GT"}
    mthr = {"meta": {"name": "mthr"}, "type": "MultiThreshold", "metric": lit(1), "thresholds": [{"type": "LocalParameter", "name": "own"}], "predicate": "GT"}
    ind = lambda n: {"meta": {"name": "ind"}, "type": "IndexedArray", "index_parameter": {"type": "LocalParameter", "name": n}, "metrics": [lit(1), {"type": "LocalParameter", "name": "own"}]}
    two = [lit(1), {"type": "LocalParameter", "name": "own"}]
    for kind in NODES:
        for v, ps in enumerate(([con, agg], [con, thr, ind("thr")], [con, mthr, ind("mthr")], [con, dict(thr, returned_metrics=two)],
                                [con, dict(mthr, returned_metrics=two)], [con, thr, ind("other")], [thr], [con, con])):
            for who in (("X",), ("X", "S")):
                m = small(kind, 0)
                for x in m["network"]["nodes"]:
                    if x["meta"]["name"] in who:
                        x["parameters"] = copy.deepcopy(ps)
                if v % 2:
                    m["network"]["parameters"] = [copy.deepcopy(con), dict(copy.deepcopy(thr), metric=lit(2), returned_metrics=[lit(3), lit(4)])]
                yield "L-%s-%d-%s" % (kind, v, "".join(who)), m


def ranges():
    """values at and beyond the ends of their ranges"""
    for day, month, res, ok in ((1, 1, 0, True), (31, 12, 366, True), (29, 2, 365, True), (30, 4, 300, True), (30, 2, 0, False), (31, 4, 0, False), (0, 1, 0, False), (32, 1, 0, False),
                                (1, 0, 0, False), (1, 13, 0, False), (257, 1, 0, False), (1, 257, 0, False), (256, 1, 0, False), (2 ** 32 + 1, 1, 0, False), (1, 1, 2 ** 32, False)):
        m = small("Link", 0)
        m["network"]["parameters"] = [{"meta": {"name": "p"}, "type": "UniformDrawdownProfile", "reset_day": lit(day), "reset_month": lit(month), "residual_days": lit(res)}]
        yield "drawdown-%d-%d-%d" % (day, month, res), m, ok


# ---------------------------------------------------------------- corruptions
def names(c, ns):
    return [(n, x) for n, net in c.nets() for x in
            [y["meta"]["name"] if "meta" in y else y["name"] for k in {"node": ("nodes", "virtual_nodes"), "par": ("parameters",), "table": ("tables",), "ts": ("timeseries",),
                                                                        "mset": ("metric_sets",), "rec": ("outputs",)}[ns] for y in net.get(k) or []]]


def corrupt(c, rng, f):
    nets = c.nets()
    n, net = rng.choice(nets)
    if f == "ref":
        scans = dict(zip([x for x, _ in nets], c.scans()))
        sites = [s for s in scans[n].sites if s[2] in ("node", "par", "lpar", "table", "ts", "scen", "xfer", "mset", "end")]
        if not sites:
            return False
        cls = rng.choice(sorted({s[2] for s in sites}))
        path, key, cls = rng.choice([s for s in sites if s[2] == cls])
        o = at(net, path)
        other = {"node": "par", "par": "node", "lpar": "par", "table": "ts", "ts": "table", "scen": "node", "xfer": "par", "mset": "rec", "end": "par"}[cls]
        pool = ["zz%d" % rng.randrange(99), o[key] + "x", o[key].upper() + "_"] + [x for y, x in names(c, other) if y == n][:3]
        if cls == "node":      # another node: the specification decides whether it will do
            pool += [x for y, x in names(c, "node") if y == n]
        if cls == "end":
            pool += [x["meta"]["name"] for x in net.get("virtual_nodes") or []]
        o[key] = rng.choice(pool)
        c.note = cls
        return True
    if f in ("attr", "comp", "slot", "key"):
        scans = dict(zip([x for x, _ in nets], c.scans()))
        sites = [s for s in scans[n].sites if s[2] == f]
        if not sites:
            return False
        path, key, _ = rng.choice(sites)
        o = at(net, path)
        if f == "slot":
            v = rng.choice(("",) + SLOTS)
            o[key] = slot_json(v) if v else None
        else:
            o[key] = rng.choice({"attr": ATTRS, "comp": COMPS, "key": ("zz", "upper")}[f])
        return True
    if f == "swap":          # a reference of another type
        scans = dict(zip([x for x, _ in nets], c.scans()))
        sites = [(p, k) for p, k, cl in scans[n].sites if cl in ("node", "par", "lpar") and k == "name" and "type" in at(net, p)]
        if not sites:
            return False
        path, key = rng.choice(sites)
        o = at(net, path)
        sw = {"Node": ["VirtualNode", "Parameter"], "VirtualNode": ["Node", "Parameter"], "Parameter": ["LocalParameter", "Node"], "LocalParameter": ["Parameter"]}
        t = rng.choice(sw[o["type"]])
        nm = o["name"]
        o.clear()
        o.update(type=t, name=nm)
        return True
    if f == "dup":
        k = rng.choice(["nodes", "virtual_nodes", "parameters", "tables", "timeseries", "metric_sets", "local"])
        if k == "local":
            xs = [x["parameters"] for x in (net.get("nodes") or []) + (net.get("virtual_nodes") or []) if x.get("parameters")]
            xs = rng.choice(xs) if xs else []
        else:
            xs = net.get(k) or []
        if not xs:
            return False
        y = copy.deepcopy(rng.choice(xs))
        xs.insert(rng.randrange(len(xs) + 1), y)
        if k in ("nodes", "virtual_nodes") and rng.random() < 0.4 and k == "nodes" and net.get("virtual_nodes"):
            xs.remove(y)
            rng.choice(net["virtual_nodes"])["meta"]["name"] = y["meta"]["name"]
        c.note = k
        return True
    if f == "dupgroup":
        g = (c.doc.get("scenarios") or {}).get("groups")
        if not g:
            return False
        g.append(copy.deepcopy(rng.choice(g)))
        return True
    if f == "dupedge":
        if not net.get("edges"):
            return False
        net["edges"].insert(rng.randrange(len(net["edges"]) + 1), copy.deepcopy(rng.choice(net["edges"])))
        return True
    if f in ("drop", "move"):
        es = net.get("edges")
        if not es or any(x.get("core_params") for x in c.extras.values()):    # (whose references are not in the document)
            return False
        e = rng.choice(es)
        if f == "drop":
            es.remove(e)
        else:
            end, far = rng.choice([("from_node", "to_node"), ("to_node", "from_node")])
            # (whether a node that stands for several may be connected to itself is left open)
            xs = [x["meta"]["name"] for x in net["nodes"] if x["meta"]["name"] != e[far] or x["type"] in ("Link", "Storage", "Output", "Input")]
            if not xs:
                return False
            e[end] = rng.choice(xs)
        return True
    if f == "self":
        xs = [x["meta"]["name"] for x in net["nodes"] if x["type"] in ("Link", "Storage", "Output", "Input")]
        if not xs:
            return False
        x = rng.choice(xs)
        net["edges"].append({"from_node": x, "to_node": x})
        return True
    if f == "into":
        xs = [x["meta"]["name"] for x in net["nodes"] if x["type"] in ("Input", "Catchment")]
        ys = [x["meta"]["name"] for x in net["nodes"] if x["type"] in ("Storage", "Link")]
        if not xs or not ys:
            return False
        net["edges"].append({"from_node": rng.choice(ys), "to_node": rng.choice(xs)})
        return True
    if f == "outof":
        xs = [x["meta"]["name"] for x in net["nodes"] if x["type"] == "Output"]
        ys = [x["meta"]["name"] for x in net["nodes"] if x["type"] in ("Storage", "Link", "Output")]
        if not xs or not ys:
            return False
        net["edges"].append({"from_node": rng.choice(xs), "to_node": rng.choice(ys)})
        return True
    if f == "circle":
        scans = dict(zip([x for x, _ in nets], c.scans()))
        sites = [(p, k) for p, k, cl in scans[n].sites if cl == "par" and p[0] == "parameters"]
        if not sites:
            return False
        path, key = rng.choice(sites)
        at(net, path)[key] = net["parameters"][path[1]]["meta"]["name"]
        return True
    if f == "placeholder":
        k = rng.choice(["nodes", "virtual_nodes", "parameters"])
        xs = net.get(k) or []
        if not xs:
            return False
        i = rng.randrange(len(xs))
        xs[i] = {"meta": {"name": xs[i]["meta"]["name"]}, "type": "Placeholder"}
        return True
    if f == "unknown":        # a key the format does not have
        out = []
        s = SCHEMA["properties"]["network"]
        walk(net, s if "$ref" not in s else DEFS[s["$ref"].rsplit("/", 1)[1]], [], out)
        closed = []
        for path, d, v in out:
            if isinstance(v, dict):
                sd = DEFS[d]
                b = branch(sd, v) or sd
                while "$ref" in b:
                    b = DEFS[b["$ref"].rsplit("/", 1)[1]]
                if b.get("additionalProperties") is False and sd.get("additionalProperties", False) is False and set(b.get("properties", {})) != {"type"}:
                    # (not a unit variant of a tagged enumeration: keys beside the tag are not looked at)
                    closed.append(path)
        if not closed:
            return False
        at(net, rng.choice(closed))["zzkey"] = 1
        c.odd.append({"n": "zzkey"})
        return True
    if f == "length":
        return wrong_length(c, rng, net, n)
    if f == "emptyset":
        xs = net.get("metric_sets") or []
        if not xs:
            return False
        x = rng.choice(xs)
        x["metrics"] = []
        x.pop("filters", None)
        return True
    if f == "transfer":
        if c.key != "multi":
            return False
        ts = [(x, t) for x in c.doc["networks"] for t in x.get("transfers") or []]
        if not ts:
            return False
        x, t = rng.choice(ts)
        r = rng.random()
        if r < 0.3:
            t["from_network"] = rng.choice(["zznet", x["name"]])
        elif r < 0.5:
            x["transfers"].append(copy.deepcopy(t))
        elif r < 0.7:
            y = copy.deepcopy(rng.choice(c.doc["networks"]))
            c.doc["networks"].append(y)
        elif r < 0.85 and "name" in t["metric"]:
            t["metric"]["name"] = "zzmetric"
        else:                # a transfer is a number, not a whole one
            x["network"].setdefault("parameters", []).append({"meta": {"name": "ix"}, "type": "IndexedArray", "metrics": [lit(1), lit(2)],
                                                              "index_parameter": {"type": "InterNetworkTransfer", "name": rng.choice([t["name"], t["name"], "zz1"])}})
            c.run = True
        return True
    raise ValueError(f)


def wrong_length(c, rng, net, n):
    """the wrong number of values somewhere, or a value outside its range"""
    opts = []
    pre = n + ":" if c.key == "multi" else ""
    for x in net.get("virtual_nodes") or []:
        if x["type"] == "VirtualStorage":
            opts.append((x, "factors", [1.0] * (len(x["nodes"]) + rng.choice([1, 2]))))
            if len(x["nodes"]) > 1:
                opts.append((x, "factors", [1.0] * (len(x["nodes"]) - 1)))
        if x["type"] == "Aggregated":
            k = len(x["nodes"])
            opts.append((x, "relationship", {"type": "Ratio", "factors": [lit(1)] * (k + 1)}))
            opts.append((x, "relationship", {"type": "Proportion", "factors": [lit(0.1)] * k}))
            opts.append((x, "relationship", {"type": "Coefficients", "factors": [lit(1)] * (k + 1), "rhs": lit(1)}))
    for x in net.get("parameters") or []:
        t = x["type"]
        if t == "DailyProfile":
            opts.append((x, "values", {"type": "Literal", "values": [1.0] * rng.choice([0, 1, 364, 367])}))
        if t == "WeeklyProfile":
            opts.append((x, "values", {"type": "Literal", "values": [1.0] * rng.choice([0, 51, 54])}))
        if t == "MonthlyProfile":
            opts.append((x, "values", {"type": "Literal", "values": [1.0] * rng.choice([0, 11, 13])}))
        if t == "DiurnalProfile":
            opts.append((x, "values", {"type": "Literal", "values": [1.0] * rng.choice([0, 23, 25])}))
        if t == "UniformDrawdownProfile":
            for k, v in (("reset_day", 0), ("reset_day", 257), ("reset_day", 256 * 256 + 1), ("reset_month", 13), ("reset_month", 257), ("residual_days", 10 ** 6)):
                opts.append((x, k, lit(v)))
        if t == "RbfProfile":
            opts.append((x, "points", []))
        if t == "Interpolated":
            opts.append((x, "fp", x["fp"] + [lit(1)]))
    if not opts:
        return False
    x, k, v = rng.choice(opts)
    x[k] = v
    c.odd.append({"n": pre + x["meta"]["name"]})
    c.note = x["type"] + " " + k
    c.run = True
    return True


FAULTS = ("ref", "ref", "ref", "ref", "attr", "comp", "slot", "key", "swap", "dup", "dup", "dupgroup", "dupedge", "drop", "move", "self", "into", "outof", "circle", "placeholder", "unknown", "length", "length",
          "emptyset", "transfer")


def bases(rng, work, quick):
    """(name, key, document, folder, extras)"""
    out = []
    top = os.path.join(REPO, "pywr-schema", "tests")
    here = os.path.join(work, "repo")
    if not os.path.exists(here):
        shutil.copytree(top, here)
    for n, j, d in roundtrip.repo_files():
        if "invalid" in n or "network" not in j and "networks" not in j:
            continue
        k = "multi" if "networks" in j else "model"
        if k == "model" and not isinstance(j["network"].get("nodes"), list) or k == "multi" and not all(isinstance(x.get("network"), dict) and "nodes" in x["network"] for x in j["networks"]):
            continue
        if '"Python"' in str(j) or "'Python'" in str(j) or "HDF5" in str(j) or "Pandas" in str(j):
            continue
        out.append(("repo " + n, k, j, os.path.join(here, os.path.relpath(d, top)), {}))
    for i in range(25 if quick else 200):
        c = composite.build(rng, "comp%d" % i, "P30", i)
        d = c.driver()
        out.append(("comp%d" % i, "model", d["model"], None, d.get("extras", {})))
    for i in range(25 if quick else 200):
        c = genpar.cases(rng.choice(genpar.PIDS), rng, 1)[0]
        d = c.driver()
        e = {k: {x: y[x] for x in ("arrays", "core_params") if x in y} for k, y in d.get("extras", {}).items()}
        out.append(("par%d" % i, "model", d["model"], None, e))
    for i in range(10 if quick else 60):
        _, d = multi.make("multi%d" % i, rng)
        out.append(("multi%d" % i, "multi", d["multi"], None, {k: {x: y[x] for x in ("arrays", "core_params") if x in y} for k, y in d.get("extras", {}).items()}))
    return out


def main(pid):
    chk = Check(pid)
    quick = tier() == "quick"
    rng = random.Random("%s/%d" % (pid, seed()))
    work = os.path.join(chk.work, "data")
    os.makedirs(work, exist_ok=True)
    cases = [RefCase("%s-m-%s" % (pid, n), "model", m) for n, m in matrix()]
    for n, m, ok in ranges():
        cases.append(RefCase("%s-r-%s" % (pid, n), "model", m))
        if not ok:
            cases[-1].odd.append({"n": "p"})
    chk.count("matrix", len(cases))
    bs = bases(rng, work, quick)
    per = 40 if quick else 200
    for b, (name, k, doc, folder, ex) in enumerate(bs):
        cases.append(RefCase("%s-b%d-%s" % (pid, b, name), k, copy.deepcopy(doc), folder, ex))
        for i in range(per):
            c = RefCase("%s-b%d-%d-%s" % (pid, b, i, name), k, copy.deepcopy(doc), folder, ex)
            for _ in range(8):
                f = rng.choice(FAULTS)
                if corrupt(c, rng, f):
                    c.fault = f
                    chk.count("fault " + f)
                    cases.append(c)
                    break
    tr = run_driver([c.driver() for c in cases], chk.work)
    sp = []
    for c in cases:
        s = c.spec()
        attach(s, tr[c.id], c)
        chk.cases[c.id] = c.driver()
        chk.count("built" if s["built"] else "refused")
        sp.append(s)
    res = tlc_cases("TraceWell", sp, chk.work, chunks=7, weight=lambda s: 3 + len(s["decl"]) + len(s["edges"]) ** 2 // 4)
    chk.add(res)
    chk.traces += len(sp)
    if not chk.rejects and not res.rejects and res.distinct < sum(3 + len(s["decl"]) for s in sp):
        raise SystemExit("TLC visited only %d states" % res.distinct)
    chk.samples = [{"case": s["id"], "declared": len(s["decl"]), "references": len(s["refs"]), "built": s["built"]} for s in sp[-3:]]
    return chk.finish()
