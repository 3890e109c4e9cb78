"""Ill-formed networks are refused (P26), parameter graphs (P13): decided by Wellformed.tla."""
import itertools
import random
import re

import genpar
import simcheck
from vplib import Check, run_driver, seed, tier, tlc_cases

KINDS = ("in", "out", "link", "sto")


def full(n):
    return n if isinstance(n, str) else "%s/%s" % (n[0], n[1])


def j_empty(cid, nt=2):
    return {"metadata": {"title": cid}, "time": {"start": "2021-01-01", "end": "2021-01-%02d" % nt, "timestep": {"type": "Days", "days": 1}},
            "network": {"nodes": [], "edges": []}}


class Decl:
    """One declaration, for the driver (core) and for the specification."""

    def __init__(self, cid, tag):
        self.id, self.tag = cid, tag
        self.core = {k: [] for k in ("nodes", "edges", "aggs", "asts", "vss", "pars", "msets", "recs")}
        self.odd = []
        self.defs, self.leaf = [], []
        self.runs = []
        self.conn = True

    def node(self, n, k, iv=True, **metrics):
        x = {"n": n, "k": k}
        if k == "sto" and iv:
            x["iv"] = 0
        x.update(metrics)
        self.core["nodes"].append(x)

    # ---- what the specification is told
    def spec(self):
        c = self.core
        decl, refs, deps, odd = [], [], [], []

        def names(ns, items):
            for x in items:
                decl.append({"ns": ns, "n": full(x["n"]), "k": x.get("k") or x.get("t") or ""})

        def ref(m, by, want="f", as_=""):
            k = m["m"]
            if k == "lit":
                return
            if k == "param":
                ks = (["m"] if m.get("key") else ["f", "u"]) if want == "f" else (["m"] if m.get("key") else ["u"])
                refs.append({"ns": "par", "n": m["name"], "ks": ks, "by": by, "as": as_})
            elif k == "edge":
                refs.append({"ns": "edge", "n": "%s->%s" % (full(m["from"]), full(m["to"])), "ks": [], "by": by, "as": as_})
            else:
                ns = {"in": "node", "out": "node", "vol": "node", "pvol": "node", "agg_in": "agg", "agg_out": "agg", "agg_vol": "ast", "agg_pvol": "ast", "vs_vol": "vs", "vs_pvol": "vs"}[k]
                refs.append({"ns": ns, "n": full([m["node"], m["sub"]] if m.get("sub") else m["node"]), "ks": [], "by": by, "as": as_})

        names("node", c["nodes"])
        names("agg", c["aggs"])
        names("ast", c["asts"])
        names("vs", c["vss"])
        names("par", c["pars"])
        names("mset", c["msets"])
        names("rec", c["recs"])
        # an edge can be referred to by name
        seen = set()
        for a, b in c["edges"]:
            n = "%s->%s" % (full(a), full(b))
            if n not in seen:
                decl.append({"ns": "edge", "n": n, "k": ""})
            seen.add(n)
        for x in c["nodes"]:
            if x["k"] == "sto" and "iv" not in x:
                odd.append({"n": full(x["n"])})
            for v in x.values():
                if isinstance(v, dict) and "m" in v:
                    ref(v, full(x["n"]))
        for ns, key in (("agg", "aggs"), ("ast", "asts"), ("vs", "vss")):
            for x in c[key]:
                for m in x["mem"]:
                    refs.append({"ns": "node", "n": full(m), "ks": [], "by": full(x["n"]), "as": ns})
        for x in c["pars"]:
            for m in x["refs"]:
                ref(m, x["n"], "u" if x["t"] == "u" else "f")
            deps.append({"n": x["n"], "on": sorted({m["name"] for m in x["refs"] if m["m"] == "param"})})
        for x in c["msets"]:
            for m in x["refs"]:
                ref(m, x["n"])
        for x in c["recs"]:
            refs.append({"ns": "mset", "n": x["ms"], "ks": [], "by": x["n"], "as": ""})
        decl = [dict(x, has=[]) for x in decl]
        refs = [dict(x, q="", w="") for x in refs]
        return {"id": self.id, "tag": self.tag, "decl": decl, "refs": refs, "deps": deps, "odd": odd, "conn": self.conn, "file": False,
                "edges": [{"f": full(a), "t": full(b)} for a, b in c["edges"]], "defs": self.defs, "leaf": [], "vals": [],
                "built": False, "crashed": False, "err": "", "named": [], "dumped": False, "dump": {}}

    def driver(self):
        e = {"core": self.core}
        d = {"id": self.id, "model": j_empty(self.id), "extras": {"": e}, "runs": self.runs, "dump": True}
        if self.runs:
            e["bprobes"] = self.probes()
        return d

    def probes(self):
        out = list(self.leaf)
        for p in self.core["pars"]:
            keys = ["upper", "lower"] if p["t"] == "m" else [None]
            out += [dict({"m": "param", "name": p["n"], "ret": "before"}, **({"key": k} if k else {})) for k in keys]
        return out


def named_in(err, names):
    """The names that occur in an error's text."""
    out = []
    for n in names:
        a, _, b = n.partition("/")
        pat = re.escape(a) + (re.escape("[%s]" % b) if b else r"(?!\[)(?![A-Za-z0-9_])")
        if "->" in n:
            f, t = n.split("->")
            one = lambda x: re.escape(x.split("/")[0]) + (re.escape("[%s]" % x.split("/")[1]) if "/" in x else "")
            pat = one(f) + r" ?-> ?" + one(t)
        if re.search(r"(?<![A-Za-z0-9_])" + pat, err):
            out.append(n)
    return out


def attach(s, t):
    st = t["status"]
    s["built"] = st == "ok"
    s["crashed"] = st in ("panic", "crash")
    s["err"] = str(t.get("error"))[:400]
    vocab = {x["n"] for x in s["decl"]} | {x["n"] for x in s["refs"]} | {x["by"] for x in s["refs"]} | {x["n"] for x in s["odd"]} | {e[k] for e in s["edges"] for k in "ft"}
    s["named"] = named_in(str(t.get("error")), sorted(vocab)) if st != "ok" else []
    if st == "ok" and "dump" in t:
        s["dumped"], s["dump"] = True, t["dump"]


# ---------------------------------------------------------------- families
def all_graphs(pid):
    """Every directed graph (self-loops included) on three nodes of every kinds."""
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for kinds in itertools.combinations_with_replacement(KINDS, 3):
        for mask in range(512):
            d = Decl("%s-g-%s-%03d" % (pid, "".join(k[0] for k in kinds), mask), pid)
            for i, k in enumerate(kinds):
                d.node("N%02d" % i, k)
            d.core["edges"] = [["N%02d" % a, "N%02d" % b] for j, (a, b) in enumerate(pairs) if mask >> j & 1]
            yield d


def nm(rng, used, pre):
    while True:
        n = "%s%02d" % (pre, rng.randrange(100))
        if n not in used:
            used.add(n)
            return n


def network(cid, rng, tag):
    """A well-formed network with everything in it."""
    d = Decl(cid, tag)
    used = set()
    new = lambda pre: nm(rng, used, pre)

    def nn():
        a = new("N")
        return [a, rng.choice(["x1", "y2"])] if rng.random() < 0.25 else a
    ins = [nn() for _ in range(rng.randint(1, 3))]
    mids = [(nn(), rng.choice(["link", "link", "sto"])) for _ in range(rng.randint(0, 4))]
    outs = [nn() for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3:      # the same name with another sub-name is another node
        a = rng.choice(ins)
        ins.append([a if isinstance(a, str) else a[0], "z9"])
    ns = [(n, "in") for n in ins] + mids + [(n, "out") for n in outs]
    E = set()
    for i, (n, k) in enumerate(ns):
        later = [j for j in range(i + 1, len(ns)) if ns[j][1] != "in"]
        if k != "out" and later:
            for j in rng.sample(later, min(len(later), rng.choice([1, 1, 2]))):
                E.add((i, j))
    for j, (n, k) in enumerate(ns):
        if k in ("link", "out") and not any(b == j for _, b in E):
            E.add((rng.randrange(len(ins)), j))
    edges = [[ns[a][0], ns[b][0]] for a, b in sorted(E)]
    if rng.random() < 0.15 and len(mids) > 1:      # water may also flow in a circle
        edges.append([mids[1][0], mids[0][0]])
        edges = [e for i, e in enumerate(edges) if e not in edges[:i]]
    order = list(ns)
    rng.shuffle(order)
    rng.shuffle(edges)
    d.core["edges"] = edges
    flows = [n for n, k in ns if k != "sto"]
    stos = [n for n, k in ns if k == "sto"]
    spread = lambda n: {"node": n} if isinstance(n, str) else {"node": n[0], "sub": n[1]}
    aggs = [{"n": new("A"), "mem": rng.sample(flows, rng.randint(1, min(3, len(flows))))} for _ in range(rng.choice([0, 1, 1, 2]))]
    asts = [{"n": new("B"), "mem": rng.sample(stos, rng.randint(1, len(stos)))} for _ in range(rng.choice([0, 1])) if stos]
    vss = [{"n": new("V"), "mem": rng.sample(flows, rng.randint(1, min(3, len(flows))))} for _ in range(rng.choice([0, 1, 1]))]
    d.core.update(aggs=aggs, asts=asts, vss=vss)

    def leaf(par=None, after=False):
        opts = [dict({"m": "in"}, **spread(rng.choice(flows))), dict({"m": "out"}, **spread(rng.choice(flows)))]
        e = rng.choice(edges)
        opts.append({"m": "edge", "from": e[0], "to": e[1]})
        if stos:
            opts.append(dict({"m": rng.choice(["vol", "pvol"])}, **spread(rng.choice(stos))))
        if aggs:
            opts.append({"m": rng.choice(["agg_in", "agg_out"]), "node": rng.choice(aggs)["n"]})
        if asts:
            opts.append({"m": rng.choice(["agg_vol", "agg_pvol"]), "node": rng.choice(asts)["n"]})
        if vss:
            opts.append({"m": rng.choice(["vs_vol", "vs_pvol"]), "node": rng.choice(vss)["n"]})
        opts.append({"m": "lit", "v": 1000 * rng.randrange(5)})
        if par and rng.random() < 0.5:
            p = rng.choice(par)
            return {"m": "param", "name": p["n"], **({"key": rng.choice(["upper", "lower"])} if p["t"] == "m" else {})}
        return rng.choice(opts)
    pars = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        t = rng.choice("ffum")
        if t == "u":
            us = [p for p in pars if p["t"] == "u"]
            refs = [{"m": "param", "name": rng.choice(us)["n"]} if us and rng.random() < 0.6 else {"m": "lit", "v": 1000} for _ in range(rng.randint(1, 2))]
        else:
            refs = [leaf(pars) for _ in range(2 if t == "m" else rng.randint(1, 3))]
        pars.append({"n": new("P"), "t": t, "refs": refs})
    d.core["msets"] = [{"n": new("M"), "refs": [leaf(pars) for _ in range(rng.randint(1, 3))]} for _ in range(rng.choice([0, 1, 2]))]
    if d.core["msets"]:
        d.core["recs"] = [{"n": new("R"), "ms": rng.choice(d.core["msets"])["n"]} for _ in range(rng.choice([0, 1, 2]))]
    fp = [p for p in pars if p["t"] != "m"]
    for n, k in order:
        x = {}
        if k != "sto" and rng.random() < 0.4:
            x["max_flow"] = leaf(pars)
        if rng.random() < 0.3:
            x["cost"] = leaf(pars)
        d.node(n, k, **x)
    rng.shuffle(pars)
    d.core["pars"] = pars
    d.new, d.leafs = new, leaf
    return d


def metrics_of(d):
    """Every reference of a declaration, as (container, key) pairs."""
    out = []
    for x in d.core["nodes"]:
        out += [(x, k) for k, v in x.items() if isinstance(v, dict) and v.get("m") not in (None, "lit")]
    for g in ("pars", "msets"):
        for x in d.core[g]:
            out += [(x["refs"], i) for i, v in enumerate(x["refs"]) if v["m"] != "lit"]
    return out


FAULTS = ("dupnode", "dupagg", "dupast", "dupvs", "duppar", "dupmset", "duprec", "refpar", "refnode", "refedge", "member", "recset", "self", "dupedge", "into", "outof",
          "alone", "unknownend", "novolume", "cycle", "badkind")


def break_it(d, rng, f):
    """Inject one fault; False if it does not apply. The specification decides whether it is one."""
    c = d.core
    dup = {"dupnode": "nodes", "dupagg": "aggs", "dupast": "asts", "dupvs": "vss", "duppar": "pars", "dupmset": "msets", "duprec": "recs"}
    import copy
    if f in dup:
        xs = c[dup[f]]
        if not xs:
            return False
        x = rng.choice(xs)
        y = copy.deepcopy(x)
        if f == "duppar" and rng.random() < 0.5:      # another type of parameter with the same name
            y = {"n": x["n"], "t": rng.choice("fu"), "refs": [{"m": "lit", "v": 1000}]}
        if f == "dupnode" and rng.random() < 0.5:
            y = {"n": x["n"], "k": rng.choice(KINDS)}
            if y["k"] == "sto":
                y["iv"] = 0
        xs.insert(rng.randrange(len(xs) + 1), y)
        return True
    ms = metrics_of(d)
    if f == "refpar":
        o, k = rng.choice(ms) if ms else (None, None)
        if o is None:
            return False
        o[k] = {"m": "param", "name": "Z%02d" % rng.randrange(100), **({"key": "upper"} if rng.random() < 0.3 else {})}
        if isinstance(o, list) and any(p["refs"] is o and p["t"] == "u" for p in c["pars"]):
            o[k].pop("key", None)
        return True
    if f == "refnode":
        xs = [(o, k) for o, k in ms if "node" in o[k]]
        if not xs:
            return False
        o, k = rng.choice(xs)
        v = dict(o[k])
        r = rng.random()
        if r < 0.4:
            v["node"] = "Z%02d" % rng.randrange(100)
        elif r < 0.7 and v["m"] in ("in", "out", "vol", "pvol"):      # the right name, another sub-name
            v["sub"] = "q7"
        else:      # something of that name exists, but it is something else
            others = [x["n"] for g in ("nodes", "aggs", "asts", "vss", "pars") for x in c[g] if isinstance(x["n"], str)]
            v["node"] = rng.choice(others or ["Z01"])
            v.pop("sub", None)
        o[k] = v
        return True
    if f == "refedge":
        xs = [(o, k) for o, k in ms if o[k]["m"] == "edge"]
        if not xs:
            return False
        o, k = rng.choice(xs)
        o[k] = {"m": "edge", "from": o[k]["to"], "to": o[k]["from"]} if rng.random() < 0.5 else {"m": "edge", "from": o[k]["from"], "to": "Z09"}
        return True
    if f == "member":
        g = [x for k in ("aggs", "asts", "vss") for x in c[k]]
        if not g:
            return False
        x = rng.choice(g)
        i = rng.randrange(len(x["mem"]))
        x["mem"][i] = rng.choice(["Z%02d" % rng.randrange(100), x["mem"][i][0] if isinstance(x["mem"][i], list) else [x["mem"][i], "q7"], x["n"]])
        return True
    if f == "recset":
        if not c["recs"]:
            return False
        rng.choice(c["recs"])["ms"] = rng.choice(["Z55", c["recs"][0]["n"], c["nodes"][0]["n"] if isinstance(c["nodes"][0]["n"], str) else "Z56"])
        return True
    ends = lambda ks: [x["n"] for x in c["nodes"] if x["k"] in ks]
    if f == "self":
        xs = ends(("link", "sto"))
        if not xs:
            return False
        n = rng.choice(xs)
        c["edges"].insert(rng.randrange(len(c["edges"]) + 1), [n, n])
        return True
    if f == "dupedge":
        c["edges"].insert(rng.randrange(len(c["edges"]) + 1), list(rng.choice(c["edges"])))
        return True
    if f == "into":
        c["edges"].append([rng.choice(ends(("in", "link", "sto"))), rng.choice(ends(("in",)))])
        return True
    if f == "outof":
        c["edges"].append([rng.choice(ends(("out",))), rng.choice(ends(("out", "link", "sto")))])
        return True
    if f == "alone":
        n = rng.choice(c["nodes"])["n"]
        side = rng.choice([0, 1])
        c["edges"] = [e for e in c["edges"] if e[side] != n]
        return True
    if f == "unknownend":
        e = rng.choice(c["edges"])
        i = rng.randrange(2)
        e[i] = rng.choice(["Z77", e[i][0] if isinstance(e[i], list) else [e[i], "q7"]])
        return True
    if f == "novolume":
        xs = [x for x in c["nodes"] if x["k"] == "sto"]
        if not xs:
            return False
        rng.choice(xs).pop("iv", None)
        return True
    if f in ("cycle", "badkind"):
        ps = c["pars"]
        if not ps:
            return False
        p, q = rng.choice(ps), rng.choice(ps)
        i = rng.randrange(len(p["refs"]))
        key = {"key": "upper"} if (q["t"] == "m") != (f == "badkind") and p["t"] != "u" else {}
        p["refs"][i] = {"m": "param", "name": q["n"], **key}
        return True
    raise ValueError(f)


def param_graph(cid, rng, tag, n, edges, types, miss=None):
    """Parameters 0..n-1 declared in that order; edges (i, j): i needs j."""
    d = Decl(cid, tag)
    d.node("N01", "in")
    d.node("N02", "sto")
    d.node("N03", "out", cost={"m": "lit", "v": -1000}, max_flow={"m": "lit", "v": 2500})
    d.core["nodes"][0]["max_flow"] = {"m": "lit", "v": 3500}
    d.core["nodes"][1]["max_volume"] = {"m": "lit", "v": 100000}
    d.core["nodes"][1]["cost"] = {"m": "lit", "v": -500}
    d.core["edges"] = [["N01", "N02"], ["N02", "N03"], ["N01", "N03"]]
    d.leaf = [{"m": "vol", "node": "N02"}, {"m": "in", "node": "N03"}]
    nmz = ["P%02d" % i for i in range(n)]
    for i in range(n):
        needs = [j for a, j in edges if a == i]
        refs, args = [], []

        def arg():
            x = rng.random()
            if types[i] == "u" or x < 0.5:
                v = 1000 * rng.randint(1, 4)
                return {"m": "lit", "v": v}, {"k": "lit", "v": v, "part": 1}
            li = rng.randrange(2)
            return d.leaf[li], {"k": "leaf", "v": li + 1, "part": 1}
        for j in needs:
            r = {"m": "param", "name": nmz[j]}
            part = 1
            if types[j] == "m":
                part = rng.choice([1, 2])
                r["key"] = ("upper", "lower")[part - 1]
            refs.append(r)
            args.append({"k": "par", "v": j + 1, "part": part})
        if types[i] == "m":
            while len(refs) < 2:
                r, a = arg()
                refs.append(r)
                args.append(a)
            x = list(zip(refs[:2], args[:2]))
            rng.shuffle(x)
            refs, args = [y[0] for y in x], [y[1] for y in x]
        else:
            for _ in range(rng.randint(0 if refs else 1, 2)):
                r, a = arg()
                refs.append(r)
                args.append(a)
        if miss == i:
            refs.append({"m": "param", "name": "Z99"})
            args.append({"k": "lit", "v": 0, "part": 1})
            if types[i] == "m":
                refs, args = [refs[0], refs[-1]], [args[0], args[-1]]
        d.core["pars"].append({"n": nmz[i], "t": types[i], "refs": refs})
        d.defs.append({"t": types[i], "a": args})
    d.runs = [{"tag": "r", "solver": "highs"}]
    return d


def param_cases(pid, rng, quick):
    pairs = [(a, b) for a in range(3) for b in range(3)]
    out = []
    for mask in range(512):
        es = [p for j, p in enumerate(pairs) if mask >> j & 1]
        for v in range(2 if quick else 8):
            types = ["f"] * 3 if v == 0 else [rng.choice("ffm") for _ in range(3)]
            # an apportioning parameter takes two inputs, an index parameter only index parameters
            es2 = [(a, b) for k, (a, b) in enumerate(es) if types[a] != "m" or sum(1 for x, _ in es[:k] if x == a) < 2]
            if v and all(b != 0 or a == 0 for a, b in es2) and rng.random() < 0.5:
                types[0] = rng.choice("fu")
                if types[0] == "u":
                    es2 = [(a, b) for a, b in es2 if a != 0 or b == 0]
            out.append(param_graph("%s-p-%03d-%d" % (pid, mask, v), rng, pid, 3, es2, types, rng.choice([None, None, None, 0, 1, 2]) if v else None))
    # larger graphs without a cycle, in several declaration orders; some with one edge turned around
    for i in range(200 if quick else 3000):
        n = rng.randint(4, 8)
        types = [rng.choice("fffum") for _ in range(n)]
        es = []
        for a in range(n):
            for b in range(a):
                if rng.random() < 0.35 and (types[a] != "u" or types[b] == "u") and (types[a] != "m" or sum(1 for x, _ in es if x == a) < 2):
                    es.append((a, b))
        if i % 5 == 0 and es:
            a, b = rng.choice(es)
            if types[a] == "f" and types[b] == "f":
                es.append((b, a))
        perms = [list(range(n)), list(reversed(range(n)))] + [rng.sample(range(n), n)]
        for k, p in enumerate(perms):
            at = {old: new for new, old in enumerate(p)}
            out.append(param_graph("%s-d-%d-%d" % (pid, i, k), random.Random("%s%s" % (pid, i)), pid, n, [(at[a], at[b]) for a, b in es], [types[o] for o in p]))
    return out


def judge(chk, ds):
    tr = run_driver([d.driver() for d in ds], chk.work)
    sp = []
    for d in ds:
        t = tr[d.id]
        s = d.spec()
        attach(s, t)
        chk.cases[d.id] = d.driver()
        chk.count("built" if s["built"] else "refused")
        if s["built"] and d.runs:
            r = t["runs"][0]
            B = {(x["t"], x["s"]): x["v"] for x in r.get("obs", {}).get("", {}).get("before", [])}
            if r["status"] != "ok" or (0, 0) not in B or (1, 0) not in B:
                chk.reject({"case": d.id, "what": "the run failed", "got": [r["status"], str(r.get("error"))[:300]]})
            else:
                nl = len(d.leaf)
                for k in range(2):
                    v = B[(k, 0)]
                    s["leaf"].append(v[:nl])
                    row, at = [], nl
                    for p in d.core["pars"]:
                        w = 2 if p["t"] == "m" else 1
                        row.append(v[at:at + w])
                        at += w
                    s["vals"].append(row)
        sp.append(s)
    res = tlc_cases("TraceWell", sp, chk.work, chunks=7, weight=lambda s: 3 + len(s["decl"]) + len(s["edges"]) ** 2 // 4)
    chk.add(res)
    chk.traces += len(sp)
    if not chk.rejects and not res.rejects and res.distinct < sum(3 + len(s["decl"]) + len(s["vals"]) for s in sp):
        raise SystemExit("TLC visited only %d states" % res.distinct)
    return sp


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    quick = tier() == "quick"
    if pid == "P26":
        gs = list(all_graphs(pid))
        if quick:
            gs = rng.sample(gs, 2500)
        ds = gs
        for i in range(1200 if quick else 20000):
            d = network("%s-n-%d" % (pid, i), rng, pid)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                f = rng.choice(FAULTS)
                if break_it(d, rng, f):
                    chk.count("fault " + f)
            ds.append(d)
        sp = judge(chk, ds)
    else:
        sp = judge(chk, param_cases(pid, rng, quick))
        shuffled(chk, pid, rng, quick)
    chk.samples = [{"case": s["id"], "declared": len(s["decl"]), "references": len(s["refs"]), "built": s["built"]} for s in sp[-3:]]
    return chk.finish()


def shuffled(chk, pid, rng, quick):
    """Parameters of every type in other orders of declaration: the same values."""
    cs = []
    for i in range(60 if quick else 800):
        q = rng.choice(genpar.PIDS)
        s = rng.random()
        for k in range(3):
            c = genpar.cases(q, random.Random("%s/%s" % (pid, s)), 1)[0]
            c.id = "%s-s-%d-%d" % (pid, i, k)
            if k == 1:
                c.jp.reverse()
            elif k == 2:
                rng.shuffle(c.jp)
            cs.append(c)
    simcheck.validate(chk, cs)
