"""Simulation cases: a neutral description for the specification and the same model for the program."""
import copy
import datetime as dt
import random

from vplib import INF, NAN, S


def lit(v):
    return {"k": "lit", "v": v}


def f(v):
    """thousandths -> number for JSON models"""
    return v / 1000 if v % 1000 else v // 1000


def pname(n):
    """A parameter's name, [sub-name, parent], or [None, None, name, key] for one value of several."""
    if isinstance(n, str):
        return {"name": n}
    if len(n) == 5:
        return {"name": n[2], "parent": n[1], "sub": n[4]}
    return {"name": n[0], "parent": n[1]} if len(n) == 2 else {"name": n[2], "key": n[3]}


def refs_in(js):
    """The references to parameters in a part of a model file."""
    if isinstance(js, dict):
        if js.get("type") == "Parameter" and isinstance(js.get("name"), str):
            yield js
        for v in js.values():
            yield from refs_in(v)
    elif isinstance(js, list):
        for v in js:
            yield from refs_in(v)


def relay(d, share=0.5):
    """The same model with parameters that pass on a value between others and the series they refer to."""
    rng = random.Random("relay/" + d["id"])
    net, ex = d["model"]["network"], d.get("extras", {}).get("", {})
    if rng.random() >= share or not net.get("parameters"):
        return d
    floats = {a["name"] for a in ex.get("arrays", []) if not a.get("index")}
    taken = {p["meta"]["name"] for p in net["parameters"]} | {a["name"] for a in ex.get("arrays", [])} | {p.get("name") for p in ex.get("core_params", [])}
    d = copy.deepcopy(d)
    net = d["model"]["network"]
    for p in list(net["parameters"]):
        for r in list(refs_in({k: v for k, v in p.items() if k != "meta"})):
            if r["name"] in floats and "key" not in r and rng.random() < 0.4:
                n = "relay-%d" % len(net["parameters"])
                if n in taken:
                    continue
                q = {"meta": {"name": n}, "type": "Aggregated", "agg_func": {"type": rng.choice(["Sum", "Max", "Mean", "Product"])}, "metrics": [dict(r)], "phase": "Before"}
                r["name"] = n
                net["parameters"].insert(rng.randrange(len(net["parameters"]) + 1), q)
    return d


def localise(d, share=0.6):
    """The same model with some of its parameters declared in nodes, under names that other nodes and the whole
    network use as well. What the model means stays as it was. A parameter moves into a node if only that node, and
    parameters that move there too, refer to it."""
    rng = random.Random("local/" + d["id"])
    net, ex = d["model"]["network"], d.get("extras", {}).get("", {})
    if rng.random() >= share or not net.get("parameters"):
        return d
    d = copy.deepcopy(d)
    net, ex = d["model"]["network"], d.get("extras", {}).get("", {})
    homes = net["nodes"] + (net.get("virtual_nodes") or [])
    pinned = {r["name"] for k, v in net.items() if k not in ("nodes", "virtual_nodes", "parameters") for r in refs_in(v)}

    def dm_refs(x):
        if isinstance(x, dict):
            if x.get("m") == "param":
                yield x["name"]
            for v in x.values():
                yield from dm_refs(v)
        elif isinstance(x, list):
            for v in x:
                yield from dm_refs(v)
    pinned |= set(dm_refs(ex.get("core_params", [])))
    at = {}       # a parameter's home
    for n in homes:
        for r in refs_in(n):
            at.setdefault(r["name"], set()).add(n["meta"]["name"])
    users = {}
    for p in net["parameters"]:
        for r in refs_in({k: v for k, v in p.items() if k != "meta"}):
            users.setdefault(r["name"], set()).add(p["meta"]["name"])
    home, todo = {}, [p["meta"]["name"] for p in net["parameters"]]
    while todo:       # users first
        ready = [n for n in todo if not users.get(n, set()) & set(todo)]
        if not ready:
            break
        for n in ready:
            todo.remove(n)
            hs = set(at.get(n, set())) | {home.get(u) for u in users.get(n, set())}
            if n in pinned or None in hs or len(hs) > 1:
                continue
            if hs:
                home[n] = hs.pop()
            elif rng.random() < 0.8:
                home[n] = rng.choice(homes)["meta"]["name"]
    new, count = {}, {}
    names = [p["meta"]["name"] for p in net["parameters"]] + [a["name"] for a in ex.get("arrays", [])]
    for n, h in home.items():
        count[h] = count.get(h, 0) + 1
        new[n] = rng.choice(["q%d" % count[h], n] + [x for x in names if x not in home][:3])
        if any(new[x] == new[n] for x in new if x != n and home[x] == h):
            new[n] = "q%d" % count[h]
    by = {n["meta"]["name"]: n for n in homes}
    for part in homes + net["parameters"]:
        h = part["meta"]["name"] if part in homes else home.get(part["meta"]["name"])
        for r in list(refs_in({k: v for k, v in part.items() if k != "meta"})):
            if home.get(r["name"], h) != h:
                raise SystemExit("localise: " + d["id"])
            if r["name"] in home:
                r["type"], r["name"] = "LocalParameter", new[r["name"]]
    for p in list(net["parameters"]):
        n = p["meta"]["name"]
        if n in home:
            net["parameters"].remove(p)
            p["meta"]["name"] = new[n]
            by[home[n]].setdefault("parameters", []).append(p)
    for k in ("probes", "bprobes"):
        for m in ex.get(k, []):
            if m["m"] == "param" and m["name"] in home and not m.get("parent"):
                m["parent"], m["name"] = home[m["name"]], new[m["name"]]
    return d


WORDS = ["A", "a", "a ", " a", "a b", "a  b", "ab", "é", "É", "e\u0301", "a,b", "a;b", "a\"b", "a'b", "a.b", "a:b", "a/b", "a\\b", "a-b", "a_b", "a[b]", "{a}", "a->b",
         "1", "01", "1.0", "-1", "名前", "None", "null", "true", "Input", "max_flow", "Storage", "volume", "inflow", "before", "after", "unnamed-0", "p", "P", "\t"]


def rename(d, share=0.3):
    """The same model with other names of its nodes and parameters: some differ in little, and a parameter can be called like a node."""
    rng = random.Random("names/" + d["id"])
    net, ex = d["model"]["network"], d.get("extras", {}).get("", {})
    if rng.random() >= share:
        return d
    homes = net["nodes"] + (net.get("virtual_nodes") or [])
    ns = [n["meta"]["name"] for n in homes]
    ps = [p["meta"]["name"] for p in net.get("parameters") or []] + [a["name"] for a in ex.get("arrays", [])] + [p["name"] for p in ex.get("core_params", [])]
    ps = list(dict.fromkeys(p for p in ps if isinstance(p, str)))
    if set(ns) & set(ps) or len(set(ns)) < len(ns):
        return d
    new = {}
    for old in (ns, ps):
        few = rng.sample(WORDS, len(WORDS))
        pool = few + [a + b for a in few for b in few if a + b not in WORDS]
        pool = list(dict.fromkeys(pool))
        new.update(zip(old, pool))
    keys = {"name", "from_node", "to_node", "node", "from", "to", "param", "parent", "nodes"}

    def go(x, named):
        if isinstance(x, str):
            return new.get(x, x) if named else x
        if isinstance(x, list):
            return [go(y, named) for y in x]
        if isinstance(x, dict):
            # the sub-name of a part of a node is no name
            return {k: go(v, k in keys) for k, v in x.items()}
        return x
    return dict(go(d, False), id=d["id"], names=new)


FLOW, VOL = {"max_flow", "min_flow", "max_net_flow", "min_net_flow"}, {"max_volume", "min_volume"}
UNITS = [1e-3, 1e-2, 1e2, 1e4, 1e6, 1e8, 1e8, 1e9, 1e9]


def rescale(d, share=0.3, units=UNITS):
    """The same model in other units of volume: the specification sees the quantities in the old ones."""
    rng = random.Random("units/" + d["id"])
    net, ex = d["model"]["network"], d.get("extras", {}).get("", {})
    if rng.random() >= share or net.get("parameters") or ex.get("core_params"):
        return d
    # an exclusive member carries 1e6 at most, and solvers find switched flows within 1e-6 of the largest one only
    kinds = {v["relationship"]["type"] for v in net.get("virtual_nodes") or [] if v.get("relationship")}
    u = rng.choice([x for x in units if x < (1e4 if "Exclusive" in kinds else 1e7 if kinds else 1e12)])
    dim = {}        # arrays -> do they have this unit

    class No(Exception):
        pass

    def metric(m, scaled):
        if m is None:
            return m
        if isinstance(m, (int, float)):
            return m * u if scaled else m
        t = m.get("type")
        if t == "Literal":
            return dict(m, value=m["value"] * u) if scaled else m
        if t == "Parameter":
            if dim.setdefault(m["name"], scaled) != scaled:
                raise No
            return m
        if t in ("Node", "VirtualNode") and scaled and m.get("attribute") in ("Inflow", "Outflow", "Volume", "MaxFlow", "MaxVolume"):
            return m
        raise No

    def node(n):
        r = {}
        for k, v in n.items():
            if k in FLOW | VOL:
                v = metric(v, True)
            elif k in ("cost", "net_cost"):
                v = metric(v, False)
            elif k == "loss_factor":
                v = dict(v, factor=metric(v["factor"], False))
            elif k == "initial_volume":
                if v.get("type") == "Absolute":
                    v = dict(v, volume=v["volume"] * u)
                elif v.get("type") != "Proportional":
                    raise No
            elif k == "relationship":
                v = dict(v)
                if "factors" in v:
                    v["factors"] = [metric(x, False) for x in v["factors"]]
                if "rhs" in v:
                    v["rhs"] = metric(v["rhs"], True)
            elif k not in ("meta", "type", "nodes", "factors", "reset", "reset_volume", "window", "period", "active_period") and not isinstance(v, (str, bool)):
                raise No
            r[k] = v
        return r
    try:
        net = dict(net, nodes=[node(n) for n in net["nodes"]])
        if net.get("virtual_nodes"):
            net["virtual_nodes"] = [node(n) for n in net["virtual_nodes"]]
        arrays = []
        for a in ex.get("arrays", []):
            if dim.get(a["name"]):
                a = dict(a, values=[[x * u for x in r] if isinstance(r, list) else r * u for r in a["values"]])
            arrays.append(a)
        known = {a["name"] for a in arrays}
        if set(dim) - known:
            raise No

        def probe(m):
            if m["m"] == "param":
                return dict(m, u=u) if dim.get(m["name"]) else m
            return m if m["m"] in ("pvol", "agg_pvol", "vs_pvol") else dict(m, u=u)
        ex = dict(ex, arrays=arrays, **{k: [probe(m) for m in ex[k]] for k in ("probes", "bprobes") if k in ex})
    except No:
        return d
    return dict(d, model=dict(d["model"], network=net), extras={"": ex}, unit=u)


class Case:
    def __init__(self, cid, start=(2015, 1, 1), nt=10, days=1, hours=None, months=None):
        self.id, self.nt = cid, nt
        self.months = months        # steps of whole months, which differ in length
        self.start = dt.datetime(*start)
        self.hours = hours
        self.days = days
        self.step = dt.timedelta(hours=hours) if hours else dt.timedelta(days=days)
        self.dt = hours * 1000 // 24 if hours else days * 1000
        self.nodes, self.edges, self.aggs, self.vss, self.ast, self.pars = [], [], [], [], [], []
        self.jn, self.jv, self.je, self.jp = [], [], [], []
        self.groups = []
        self.arrays = []
        self.core_params = []
        self.cost_agg = []
        self.pure = True
        self.tol = 2
        self.expect = "ok"
        self.ext_obs = []
        self.solver = "highs"
        self.tags = set()

    # ------------------------------------------------ metrics
    def mj(self, m):
        k = m["k"]
        if k == "lit":
            return {"type": "Literal", "value": f(m["v"])}
        if k == "par":
            return {"type": "Parameter", "name": self.pars[m["i"] - 1]["name"]}
        at = {"nin": "Inflow", "nout": "Outflow", "vol": "Volume", "pvol": "ProportionalVolume", "mxv": "MaxVolume"}
        if k in at:
            return {"type": "Node", "name": self.nodes[m["i"] - 1]["name"], "attribute": at[k]}
        if k == "edge":
            a, b = self.edges[m["i"] - 1]
            return {"type": "Edge", "edge": {"from_node": self.nodes[a - 1]["name"], "to_node": self.nodes[b - 1]["name"]}}
        if k in ("aggin", "aggout"):
            return {"type": "VirtualNode", "name": self.aggs[m["i"] - 1]["name"], "attribute": "Inflow" if k == "aggin" else "Outflow"}
        if k in ("asv", "asp"):
            return {"type": "VirtualNode", "name": self.ast[m["i"] - 1]["name"], "attribute": "Volume" if k == "asv" else "ProportionalVolume"}
        if k in ("vsv", "vsp"):
            return {"type": "VirtualNode", "name": self.vss[m["i"] - 1]["name"], "attribute": "Volume" if k == "vsv" else "ProportionalVolume"}
        raise KeyError(k)

    def dm(self, m):
        """A metric as the driver's core parameters take it."""
        k = m["k"]
        if k == "lit":
            return {"m": "lit", "v": m["v"]}
        if k == "par":
            return {"m": "param", "name": self.pars[m["i"] - 1]["name"]}
        if k == "edge":
            a, b = self.edges[m["i"] - 1]
            return {"m": "edge", "from": self.nodes[a - 1]["name"], "to": self.nodes[b - 1]["name"]}
        n = {"nin": "in", "nout": "out", "vol": "vol", "pvol": "pvol"}[k]
        return {"m": n, "node": self.nodes[m["i"] - 1]["name"]}

    def ij(self, m):
        """An index metric in a model file."""
        return {"type": "Constant", "value": m["v"] // 1000} if m["k"] == "lit" else {"type": "Parameter", "name": self.pars[m["i"] - 1]["name"]}

    # ------------------------------------------------ nodes
    def node(self, kind, mn=None, mx=None, cost=None, vol=None, name=None, minv=None, maxv=None, iv=None, ca=None):
        i = len(self.nodes) + 1
        name = name or "n%d" % i
        n = {"k": kind, "name": name, "mn": mn or lit(0), "mx": mx or lit(INF), "cost": cost or lit(0), "ie": [], "oe": [],
             "ex": False, "ca": "none", "vs": [], "mnv": minv or lit(0), "mxv": maxv or lit(INF), "iv": {"k": "abs", "v": 0}}
        j = {"meta": {"name": name}, "type": {"in": "Input", "out": "Output", "link": "Link", "sto": "Storage"}[kind]}
        if kind == "sto":
            if maxv is not None:
                j["max_volume"] = self.mj(maxv)
            if minv is not None:
                j["min_volume"] = self.mj(minv)
            iv = iv or ("abs", 0)
            n["iv"] = {"k": iv[0], "v": iv[1]}
            j["initial_volume"] = {"type": "Absolute", "volume": f(iv[1])} if iv[0] == "abs" else {"type": "Proportional", "proportion": f(iv[1])}
        else:
            if mn is not None:
                j["min_flow"] = self.mj(mn)
            if mx is not None:
                j["max_flow"] = self.mj(mx)
        if cost is not None:
            j["cost"] = self.mj(cost)
        self.nodes.append(n)
        if ca:
            n["ca"] = ca
            self.cost_agg.append({"node": name, "func": ca})
        self.jn.append(j)
        return i

    def edge(self, a, b):
        self.edges.append([a, b])
        e = len(self.edges)
        self.nodes[a - 1]["oe"].append(e)
        self.nodes[b - 1]["ie"].append(e)
        an, bn = self.nodes[a - 1]["name"], self.nodes[b - 1]["name"]
        self.je.append({"from_node": an, "to_node": bn})
        return e

    # ------------------------------------------------ parameters
    def par(self, spec, js=None):
        i = len(self.pars) + 1
        spec.setdefault("name", "p%d" % i)
        spec.setdefault("ph", "b")
        spec.setdefault("un", False)
        self.pars.append(spec)
        if js is not None:
            js["meta"] = {"name": spec["name"]}
            self.jp.append(js)
        return {"k": "par", "i": i}

    def arr(self, vals, off=0, index=False):
        m = self.par({"k": "arr", "v": list(vals), "off": off})
        a = {"name": self.pars[-1]["name"], "values": list(vals)}
        if off:
            a["offset"] = off
        if index:
            a["index"] = True
        self.arrays.append(a)
        return m

    def arr2(self, rows, group=0, off=0, index=False):
        """rows[time][member of the group]"""
        m = self.par({"k": "arr2", "v": [list(r) for r in rows], "off": off, "g": group + 1})
        a = {"name": self.pars[-1]["name"], "values": [list(r) for r in rows], "group": self.groups[group]["name"]}
        if off:
            a["offset"] = off
        if index:
            a["index"] = True
        self.arrays.append(a)
        return m

    # ------------------------------------------------ virtual nodes
    def loss_link(self, kind, factor, mx=None, mn=None, cost=None):
        """A loss link: its delivering part, and its losing part if it has a factor (kind Net or Gross)."""
        name = "n%d" % (len(self.nodes) + 1)
        j = {"meta": {"name": name}, "type": "LossLink"}
        for k, v in (("max_net_flow", mx), ("min_net_flow", mn), ("net_cost", cost)):
            if v is not None:
                j[k] = self.mj(v)
        net = self.node("link", mn=mn, mx=mx, cost=cost, name=name)
        self.nodes[net - 1]["sub"] = "net"
        self.jn.pop()
        loss = None
        if kind:
            j["loss_factor"] = {"type": kind, "factor": self.mj(factor)}
            zero = factor["k"] == "lit" and factor["v"] == 0
            loss = self.node("out", name=name, mx=lit(0) if zero else None)
            self.nodes[loss - 1]["sub"] = "loss"
            self.jn.pop()
            self.aggs.append({"name": name, "sub": "agg", "mem": [[net], [loss]], "mn": lit(-INF), "mx": lit(INF),
                              "rel": {"k": "none"} if zero else {"k": "prop", "f": [factor]} if kind == "Gross" else {"k": "ratio", "f": [lit(1000), factor]}})
            self.pure = False
        self.jn.append(j)
        return net, loss

    def excl(self, mem, mina, maxa, jmem):
        """An exclusive group of sets of nodes; jmem: how the model file refers to them."""
        name = "agg%d" % (len(self.aggs) + 1)
        self.aggs.append({"name": name, "mem": [list(m) for m in mem], "mn": lit(-INF), "mx": lit(INF), "rel": {"k": "excl", "mina": mina, "maxa": maxa}})
        for m in mem:
            for x in m:
                self.nodes[x - 1]["ex"] = True
        self.pure = False
        self.jv.append({"meta": {"name": name}, "type": "Aggregated", "nodes": jmem, "relationship": {"type": "Exclusive", "min_active": mina, "max_active": maxa}})

    def agg(self, mem, mn=None, mx=None, rel=None):
        i = len(self.aggs) + 1
        name = "agg%d" % i
        mem = [[m] for m in mem]
        r = rel or {"k": "none"}
        self.aggs.append({"name": name, "mem": mem, "mn": mn or lit(-INF), "mx": mx or lit(INF), "rel": r})
        j = {"meta": {"name": name}, "type": "Aggregated", "nodes": [{"name": self.nodes[m[0] - 1]["name"]} for m in mem]}
        if mn is not None:
            j["min_flow"] = self.mj(mn)
        if mx is not None:
            j["max_flow"] = self.mj(mx)
        k = r["k"]
        if k == "ratio":
            j["relationship"] = {"type": "Ratio", "factors": [self.mj(x) for x in r["f"]]}
        elif k == "prop":
            j["relationship"] = {"type": "Proportion", "factors": [self.mj(x) for x in r["f"]]}
        elif k == "coef":
            j["relationship"] = {"type": "Coefficients", "factors": [self.mj(x) for x in r["f"]]}
            if "rhs" in r:
                j["relationship"]["rhs"] = self.mj(r["rhs"])
            else:
                r["rhs"] = lit(0)
        elif k == "excl":
            j["relationship"] = {"type": "Exclusive"}
            if r.get("jmin", True):
                j["relationship"]["min_active"] = r["mina"]
            if r.get("jmax", True):
                j["relationship"]["max_active"] = r["maxa"]
            for m in mem:
                self.nodes[m[0] - 1]["ex"] = True
        if mn or mx or rel:
            self.pure = False
        self.jv.append(j)
        return i

    def aggstore(self, mem):
        i = len(self.ast) + 1
        name = "ast%d" % i
        self.ast.append({"name": name, "mem": list(mem)})
        self.jv.append({"meta": {"name": name}, "type": "AggregatedStorage", "storage_nodes": [{"name": self.nodes[m - 1]["name"]} for m in mem]})
        return i

    def vs(self, mem, fac=None, minv=None, maxv=None, iv=("prop", 1000), reset=None, rv=None, win=None, cost=None, act=None, binding=True):
        i = len(self.vss) + 1
        name = "vs%d" % i
        reset = reset or {"k": "never"}
        v = {"name": name, "mem": list(mem), "fac": fac or [1000] * len(mem), "mnv": minv or lit(0), "mxv": maxv or lit(INF),
             "iv": {"k": iv[0], "v": iv[1]}, "reset": reset, "rv": rv or "initial", "win": 0, "act": {"k": "always"}, "cost": cost or lit(0)}
        j = {"meta": {"name": name}, "type": "VirtualStorage", "nodes": [{"name": self.nodes[m - 1]["name"]} for m in mem]}
        j["initial_volume"] = {"type": "Absolute", "volume": f(iv[1])} if iv[0] == "abs" else {"type": "Proportional", "proportion": f(iv[1])}
        if fac:
            j["factors"] = [f(x) for x in fac]
        if maxv is not None:
            j["max_volume"] = self.mj(maxv)
        if minv is not None:
            j["min_volume"] = self.mj(minv)
        if cost is not None:
            j["cost"] = self.mj(cost)
        if rv:
            j["reset_volume"] = {"initial": "Initial", "max": "Max"}[rv]
        if reset["k"] == "never":
            if reset.get("explicit"):
                j["reset"] = {"type": "Never"}
        elif reset["k"] == "doy":
            if act:
                j["reset"] = {"type": "Seasonal", "start_day": act[0], "start_month": act[1], "end_day": act[2], "end_month": act[3]}
            else:
                j["reset"] = {"type": "Annual", "day": reset["d"], "month": reset["m"]}
        elif reset["k"] == "months":
            j["reset"] = {"type": "Monthly", "months": reset["n"]}
        if act:
            v["act"] = {"k": "period", "sd": act[0], "sm": act[1], "ed": act[2], "em": act[3]}
        if win:
            kind, n = win
            j["window"] = {"type": "Days", "days": n} if kind == "days" else {"type": "Timesteps", "timesteps": n}
            v["win"] = n if kind == "steps" else n * 1000 // self.dt
        self.vss.append(v)
        for m in mem:
            self.nodes[m - 1]["vs"].append(i)
        if binding:
            self.pure = False
        self.jv.append(j)
        return i

    def group(self, size, name=None):
        self.groups.append({"name": name or "g%d" % (len(self.groups) + 1), "size": size})
        return len(self.groups) - 1

    # ------------------------------------------------ outputs
    def scens(self):
        out = [[]]
        for g in self.groups:
            out = [x + [k + 1] for x in out for k in range(g["size"])]
        return [{"idx": x} for x in out]

    def at(self, k):
        """the beginning of the k-th step"""
        if self.months:
            m = self.start.month - 1 + k * self.months
            return self.start.replace(year=self.start.year + m // 12, month=m % 12 + 1)
        return self.start + k * self.step

    def times(self):
        return [{"y": t.year, "mo": t.month, "d": t.day, "h": t.hour, "mi": t.minute, "dt": (self.at(k + 1) - t).days * 1000 if self.months else self.dt}
                for k, t in ((k, self.at(k)) for k in range(self.nt))]

    def layout(self):
        """Fields read at each snapshot: list of (field, length, probe metrics before, after)."""
        N, E = self.nodes, self.edges
        # parts of higher-level nodes have a sub-name
        n = [[x["name"], x["sub"]] if "sub" in x else x["name"] for x in N]
        at = lambda m, x: dict({"m": m, "node": x["name"]}, **({"sub": x["sub"]} if "sub" in x else {}))
        L = []
        L.append(("nin", [at("in", x) for x in N]))
        L.append(("nout", [at("out", x) for x in N]))
        L.append(("vol", [{"m": "vol", "node": x["name"]} if x["k"] == "sto" else None for x in N]))
        L.append(("pvol", [{"m": "pvol", "node": x["name"]} if x["k"] == "sto" else None for x in N]))
        L.append(("mxv", [{"m": "maxvol", "node": x["name"]} if x["k"] == "sto" else None for x in N]))
        L.append(("mxf", [at("maxflow", x) if x["k"] != "sto" else None for x in N]))
        L.append(("edge", [{"m": "edge", "from": n[a - 1], "to": n[b - 1]} for a, b in E]))
        L.append(("aggin", [at("agg_in", x) for x in self.aggs]))
        L.append(("aggout", [at("agg_out", x) for x in self.aggs]))
        L.append(("asv", [{"m": "agg_vol", "node": x["name"]} for x in self.ast]))
        L.append(("asp", [{"m": "agg_pvol", "node": x["name"]} for x in self.ast]))
        L.append(("vsv", [{"m": "vs_vol", "node": x["name"]} for x in self.vss]))
        L.append(("vsp", [{"m": "vs_pvol", "node": x["name"]} for x in self.vss]))
        L.append(("par", [dict(pname(p["name"]), m="param", ph=p["ph"]) for p in self.pars]))
        return L

    def probes(self, when):
        out = []
        for fld, ms in self.layout():
            for m in ms:
                if m is None:
                    continue
                if fld == "par":
                    m = dict(m)
                    ph = m.pop("ph")
                    if ph == "n":
                        continue
                    if ph == "a":
                        if when == "b":
                            continue
                        m["ret"] = "after"
                    if ph == "ab" and when == "a":
                        m["ret"] = "after"
                    if ph == "ai":      # after value with an initial value
                        m["ret"] = "after" if when == "a" else "after_init"
                out.append(m)
        return out

    def decode(self, vals, when):
        it = iter(vals)
        r = {}
        for fld, ms in self.layout():
            xs = []
            for m in ms:
                if m is None or (fld == "par" and (m["ph"] == "n" or (m["ph"] == "a" and when == "b"))):
                    xs.append(NAN)
                else:
                    xs.append(next(it))
            r[fld] = xs
        return r

    def model(self):
        end = self.at(self.nt - 1)
        fmt = "%Y-%m-%d" if not self.hours else "%Y-%m-%dT%H:%M:%S"
        ts = {"type": "Hours", "hours": self.hours} if self.hours else {"type": "Frequency", "freq": "%dmo" % self.months} if self.months else {"type": "Days", "days": self.days}
        m = {"metadata": {"title": self.id}, "time": {"start": self.start.strftime(fmt), "end": end.strftime(fmt), "timestep": ts},
             "network": {"nodes": self.jn, "edges": self.je}}
        if self.jv:
            m["network"]["virtual_nodes"] = self.jv
        if self.jp:
            m["network"]["parameters"] = self.jp
        if self.groups:
            m["scenarios"] = {"groups": [dict(g) for g in self.groups]}
        return m

    def driver(self, runs=None):
        ex = {"arrays": self.arrays, "probes": self.probes("a"), "bprobes": self.probes("b")}
        if self.core_params:
            ex["core_params"] = self.core_params
        if self.cost_agg:
            ex["cost_agg"] = self.cost_agg
        return {"id": self.id, "model": self.model(), "extras": {"": ex},
                "runs": runs or [{"tag": "r", "solver": self.solver, "mode": "run"}]}

    def observed(self, run):
        """obs[s][t] = {b, a} from a run of the driver; None if incomplete."""
        ns = len(self.scens())
        o = run.get("obs", {}).get("", {})
        A = {(x["t"], x["s"]): x["v"] for x in o.get("after", [])}
        B = {(x["t"], x["s"]): x["v"] for x in o.get("before", [])}
        want = {(t, s) for t in range(self.nt) for s in range(ns)}
        if set(A) != want or set(B) != want:
            return None
        return [[{"b": self.decode(B[(t, s)], "b"), "a": self.decode(A[(t, s)], "a")} for t in range(self.nt)] for s in range(ns)]

    def spec(self, obs, wit=None):
        strip = lambda d: {k: v for k, v in d.items() if k != "name"}
        return {"id": self.id, "tol": self.tol, "pure": self.pure, "nodes": [strip(x) for x in self.nodes], "edges": self.edges,
                "aggs": [strip(x) for x in self.aggs], "vss": [strip(x) for x in self.vss], "ast": [strip(x) for x in self.ast],
                "pars": [strip(x) for x in self.pars], "times": self.times(), "scens": self.scens(), "obs": obs, "wit": wit or [], "fail": {"t": 0, "st": [], "u": False}}
