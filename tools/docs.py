"""Model documents: flattening to (path, value) pairs, and random documents of the model file format."""
import json
import os
import random

from vplib import ROOT

SCHEMA = json.load(open(os.path.join(ROOT, "data", "schema.json")))
DEFS = SCHEMA["$defs"]


def flat(x, path="", key=""):
    """[(path, key, value)]; numbers by value, nothing for null"""
    if x is None:
        return []
    if isinstance(x, bool):
        return [(path, key, "true" if x else "false")]
    if isinstance(x, (int, float)):
        return [(path, key, str(int(x)) if float(x).is_integer() and abs(x) < 1e15 else "%.12g" % x)]
    if isinstance(x, str):
        return [(path, key, '"' + x + '"')]
    if isinstance(x, list):
        if not x:
            return [(path, key, "[]")]
        return [r for i, v in enumerate(x) for r in flat(v, "%s/%d" % (path, i), key)]
    if not x:
        return [(path, key, "{}")]
    return [r for k in x for r in flat(x[k], "%s/%s" % (path, k), k)]


WORDS = ["a", "b c", "node-1", "é", "x/y", "Ünï", "0", "long name with spaces", "q\"q", "UPPER", "_", "1.5"]
DATES = ["2021-01-01", "2020-02-29", "1999-12-31T23:00:00", "2015-06-01T06:30:00", "2000-01-01T00:00:00"]


class Docs:
    """Random documents that fit the schema of the model file format."""

    def __init__(self, rng, size=3.0):
        self.rng = rng
        self.size = size

    def number(self, lo=None, hi=None):
        r = self.rng
        v = r.choice([0, 1, -1, 0.5, 2.25, 1000000, 1e-6, 3.125, r.randint(-50, 50), round(r.uniform(-100, 100), 3), 123456789.125, 1e15])
        if lo is not None:
            v = max(lo, v)
        if hi is not None:
            v = min(hi, v)
        return v

    def integer(self, s):
        f = s.get("format", "int32")
        lo, hi = {"int8": (1, 28), "uint8": (0, 255), "int16": (1, 365), "uint32": (0, 400), "int32": (-9, 400), "uint": (0, 50), "uint64": (0, 50), "int64": (1, 400)}.get(f, (0, 9))
        lo = max(lo, s.get("minimum", lo))
        hi = min(hi, s.get("maximum", hi))
        if f == "uint64" and s.get("minimum", 0) >= 1:
            lo = 1
        return self.rng.randint(lo, hi)

    def word(self):
        r = self.rng
        return r.choice(WORDS) if r.random() < 0.5 else "w%d" % r.randint(0, 30)

    def gen(self, s, depth=0, key=""):
        r = self.rng
        if s is True or s == {}:
            return r.choice([1, 2.5, "t", True, [1, "u"], {"k": [None, 1]}, {}])
        if "$ref" in s and "properties" not in s:
            return self.gen(DEFS[s["$ref"].rsplit("/", 1)[1]], depth, key)
        if "const" in s:
            return s["const"]
        if "enum" in s:
            return r.choice(s["enum"])
        for k in ("oneOf", "anyOf"):
            if k in s:
                alts = s[k]
                if depth > 8:
                    simple = [a for a in alts if not self.deep(a)]
                    alts = simple or alts
                if len(alts) == 2 and alts[1] == {"type": "null"}:
                    alts = [alts[0]] if r.random() < 0.75 else alts
                v = self.gen(r.choice(alts), depth, key)
                if "properties" in s and isinstance(v, dict):
                    v.update(self.gen({x: y for x, y in s.items() if x != k}, depth, key))
                return v
        t = s.get("type")
        if isinstance(t, list):
            t = t[0] if r.random() < 0.7 else r.choice(t)
        if t == "null":
            return None
        if t == "boolean":
            return r.random() < 0.5
        if t == "number":
            return r.choice([0.5, 1, -2.25, 12]) if s.get("format") == "float" else self.number(s.get("minimum"), s.get("maximum"))
        if t == "integer":
            return self.integer(s)
        if t == "string":
            if s.get("format") == "partial-date-time":
                return r.choice(DATES)
            return self.word()
        if t == "array":
            if "prefixItems" in s:
                return [self.gen(x, depth + 1, key) for x in s["prefixItems"]]
            lo, hi = s.get("minItems", 0), s.get("maxItems")
            n = lo if hi == lo and hi else r.choice([0, 1, 1, 2, 3]) if depth < 8 else r.choice([0, 1])
            return [self.gen(s["items"], depth + 1, key) for _ in range(max(lo, n))]
        if t == "object" or "properties" in s:
            o = {}
            req = s.get("required", [])
            for k, v in s.get("properties", {}).items():
                if k in req or r.random() < (0.6 if depth < 6 else 0.2):
                    o[k] = self.gen(v, depth + 1, k)
            if "$ref" in s:
                o.update(self.gen(DEFS[s["$ref"].rsplit("/", 1)[1]], depth, key))
            ap = s.get("additionalProperties")
            if isinstance(ap, dict) or ap is True:
                for _ in range(r.choice([0, 1, 2, 3])):
                    o[self.word()] = self.gen(ap, depth + 1)
            return o
        raise KeyError(json.dumps(s)[:200])

    def deep(self, a):
        t = json.dumps(a)
        return "Metric" in t and '"Metric"' not in t

    def model(self):
        r = self.rng
        m = {"metadata": self.gen(DEFS["Metadata"]), "time": self.gen(DEFS["TimeDomain"]), "network": {"nodes": [], "edges": []}}
        if r.random() < 0.5:
            m["scenarios"] = self.gen(DEFS["ScenarioDomain"])
        net = m["network"]
        kinds = {"nodes": "Node", "edges": "Edge", "parameters": "Parameter", "tables": "DataTable", "timeseries": "Timeseries",
                 "virtual_nodes": "VirtualNode", "metric_sets": "MetricSet", "outputs": "Output"}
        for k, d in kinds.items():
            if k in ("nodes", "parameters") or r.random() < 0.4:
                net[k] = [self.gen(DEFS[d], 1) for _ in range(r.choice([0, 1, 2, 3]))]
        return m

    def each(self):
        """one document for every alternative of every kind of component, and more for the large ones"""
        out = []
        for k, d in (("nodes", "Node"), ("parameters", "Parameter"), ("virtual_nodes", "VirtualNode"), ("outputs", "Output"), ("timeseries", "Timeseries")):
            for alt in DEFS[d].get("oneOf", [DEFS[d]]):
                m = {"metadata": {"title": d}, "time": {"start": "2021-01-01", "end": "2021-01-05", "timestep": {"type": "Days", "days": 1}}, "network": {"nodes": [], "edges": []}}
                m["network"][k] = [self.gen(alt, 1) for _ in range(3)]
                out.append(m)
        return out
