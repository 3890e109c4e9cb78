"""Model files loaded and saved again (ModelFile.tla), and executions of the reloaded and reordered model (Lifecycle.tla): P33."""
import copy
import glob
import json
import os
import random
import shutil

import docs
import genpar
import gensim
import life
import multi
import outputs
import series
import tables
from vplib import REPO, Check, run_driver, seed, tier, tlc_cases


def day(x):
    """a date without a time is its midnight"""
    return x + "T00:00:00" if isinstance(x, str) and len(x) == 10 else x


def entries(doc):
    # what is not part of the format at all (a comment among the metadata) has no meaning to keep
    d = {k: copy.deepcopy(v) for k, v in doc.items() if k in ("metadata", "time", "scenarios", "network", "networks")}
    if isinstance(d.get("metadata"), dict):
        d["metadata"] = {k: v for k, v in d["metadata"].items() if k in ("title", "description", "minimum_version")}
    for o in (d.get("network") or {}).get("outputs") or [] if isinstance(d.get("network"), dict) else []:
        if o.get("type") == "Memory" and isinstance(o.get("aggregation"), dict):
            o["aggregation"].pop("metrics", None)       # memory1.json: no such key in the format
    if isinstance(d.get("time"), dict):
        for k in ("start", "end"):
            d["time"][k] = day(d["time"].get(k))
    return sorted({r for r in docs.flat(d) if r[2] != "{}"})


def repo_files():
    """(name, document, folder) of the models in the repository"""
    out = []
    top = os.path.join(REPO, "pywr-schema", "tests")
    for p in sorted(glob.glob(top + "/*.json") + glob.glob(top + "/*/*.json")):
        try:
            out.append((os.path.relpath(p, top), json.load(open(p)), os.path.dirname(p)))
        except ValueError:
            pass
    return out


def wrap(kind, item):
    return {"metadata": {"title": "x"}, "time": {"start": "2021-01-01", "end": "2021-01-03", "timestep": {"type": "Days", "days": 1}},
            "network": dict({"nodes": [], "edges": []}, **{kind: item if isinstance(item, list) else [item]})}


def examples():
    src = os.path.join(REPO, "pywr-schema", "src")
    out = []
    for sub, kind in (("nodes", "nodes"), ("parameters", "parameters"), ("data_tables", "tables")):
        for p in sorted(glob.glob(os.path.join(src, sub, "doc_examples", "*.json"))):
            out.append((os.path.relpath(p, src), wrap(kind, json.load(open(p)))))
    for p in sorted(glob.glob(os.path.join(src, "doc_examples", "*.json"))):
        j = json.load(open(p))
        m = wrap("nodes", [])
        if "groups" in j:
            m["scenarios"] = j
        elif "network" in j:
            m = j
        else:
            continue
        out.append((os.path.relpath(p, src), m))
    return out


def generic(rng, net):
    """costs that leave one least-cost allocation"""
    for n in net["nodes"]:
        c = n.get("cost", {})
        b = c.get("value", 0) if c.get("type") == "Literal" else 0
        n["cost"] = {"type": "Literal", "value": round(b + rng.choice([-1, 1]) * rng.randint(1, 499999) / 1000000, 6)}


def reorder(rng, net):
    for k in ("nodes", "edges", "parameters"):
        if k in net:
            rng.shuffle(net[k])


def recording(doc):
    d = copy.deepcopy(doc)
    net = d["network"]
    net.setdefault("metric_sets", [])
    net["metric_sets"] = (net["metric_sets"] or []) + [{"name": "vp-all", "metrics": [], "filters": {"all_nodes": True, "all_virtual_nodes": True, "all_parameters": True, "all_edges": True}}]
    net["outputs"] = (net.get("outputs") or []) + [{"type": "Memory", "name": "vp-mem", "metric_set": "vp-all"}]
    return d


def unique(c, d):
    """the readings that the flows of the nodes determine: not edges, nor what enters and leaves a store"""
    names = {n["name"] for n in c.nodes if n["k"] != "sto"}
    ok = lambda m: m["m"] in ("in", "out") and m["node"] in names or m["m"] in ("vol", "pvol", "maxvol", "agg_vol", "agg_pvol", "vs_vol", "vs_pvol") or m["m"] == "param"
    e = d["extras"][""]
    e["probes"] = [m for m in e["probes"] if ok(m)]
    e["bprobes"] = []
    return d


def main(pid):
    chk = Check(pid)
    quick = tier() == "quick"
    rng = random.Random("%s/%d" % (pid, seed()))
    root = os.path.join(chk.work, "data")
    os.makedirs(root)
    content, execs = [], []     # driver cases; execs: (id, [cases], nt known later)

    # --- documents
    files = repo_files()
    for n, j, d in files:
        content.append((n, "multi" if "networks" in j else "model", j))
    content += [(n, "model", j) for n, j in examples()]
    D = docs.Docs(random.Random("docs/%d" % seed()))
    for i in range(3 if quick else 30):
        content += [("each-%d-%d" % (i, k), "model", m) for k, m in enumerate(D.each())]
    content += [("doc-%d" % i, "model", D.model()) for i in range(250 if quick else 4000)]

    # --- executions
    here = os.path.join(root, "repo")
    shutil.copytree(os.path.join(REPO, "pywr-schema", "tests"), here)
    top = os.path.join(REPO, "pywr-schema", "tests")
    run = [{"tag": "r", "solver": "highs", "mode": "run"}]
    for n, j, d in files:
        if "invalid" in n or "network" not in j and "networks" not in j:
            continue
        if "network" in j and not isinstance(j["network"].get("nodes"), list):
            continue
        k = "multi" if "networks" in j else "model"
        ex = {}
        if k == "model":
            j = recording(j)
            ex = {"": {"outputs": ["vp-mem"]}}
        else:
            ex = {}
            j = copy.deepcopy(j)
            for x in j["networks"]:
                if isinstance(x.get("network"), dict) and "nodes" in x["network"]:
                    y = recording({"network": x["network"]})
                    x["network"] = y["network"]
                    ex[x["name"]] = {"outputs": ["vp-mem"]}
        base = {k: j, "dir": os.path.join(here, os.path.relpath(d, top)), "extras": ex, "runs": run}
        execs.append(("repo " + n, [base, dict(base, roundtrip=1), dict(base, roundtrip=2)], False))
    n = 60 if quick else 900
    for i in range(n):
        q = rng.choice(sorted(gensim.FEATS))
        feat = set(rng.choice(gensim.FEATS[q]).split()) - {"infeasible", "state"}
        c = gensim.Gen(random.Random(rng.random()), "sim%d" % i, feat).build()
        d = unique(c, c.driver(run))
        generic(rng, d["model"]["network"])
        content.append((d["id"], "model", d["model"]))
        a, b = copy.deepcopy(d), copy.deepcopy(d)
        reorder(rng, a["model"]["network"])
        reorder(rng, b["model"]["network"])
        for k in ("nodes", "edges", "parameters"):
            if k in d["model"]["network"]:
                b["model"]["network"][k] = d["model"]["network"][k][::-1]
        execs.append((d["id"], [d, dict(d, roundtrip=1), a, dict(b, roundtrip=1)], True))
    for i in range(n):
        c = genpar.cases(rng.choice(genpar.PIDS), rng, 1)[0]
        d = unique(c, c.driver(run))
        generic(rng, d["model"]["network"])
        content.append(("par%d" % i, "model", d["model"]))
        cs = [d, dict(d, roundtrip=1)]
        if '"Edge"' not in json.dumps(d["model"]):      # which of two edges carries the water is not determined
            cs.append(copy.deepcopy(d))
            reorder(rng, cs[2]["model"]["network"])
        execs.append(("par%d" % i, cs, True))
    for i in range(n // 2):
        s, d = outputs.make("out%d" % i, rng, root)
        d["runs"] = [dict(r, mode="run") for r in d["runs"]]
        content.append((d["id"], "model", d["model"]))
        execs.append((d["id"], [d, dict(d, roundtrip=1)], False))
        s, d = multi.make("multi%d" % i, rng)
        content.append((d["id"], "multi", d["multi"]))
        d["runs"] = run
        execs.append((d["id"], [d, dict(d, roundtrip=1)], False))
        d, s = series.make("ser%d" % i, rng, os.path.join(root, "s%d" % i))
        content.append((d["id"], "model", d["model"]))
        execs.append((d["id"], [d, dict(d, roundtrip=1)], False))
        d, s = tables.make("tab%d" % i, rng, os.path.join(root, "t%d" % i))
        content.append((d["id"], "model", d["model"]))
        execs.append((d["id"], [d, dict(d, roundtrip=1)], False))

    # --- documents: every saved document against the one it was loaded from
    tr = run_driver([{"id": "doc " + n, k: j, "content": 3} for n, k, j in content], chk.work, "docs")
    sp = []
    for n, k, j in content:
        t = tr["doc " + n]
        chk.cases["doc " + n] = {"id": n, k: j, "content": 3}
        if t["status"] == "load_error" and (n.startswith("invalid") or "invalid/" in n):
            chk.count("documents refused")
            continue
        if t["status"] != "ok":
            if t["status"] == "load_error" and not ("network" in j or "networks" in j):
                chk.count("files that are not models")
                continue
            chk.reject({"case": "doc " + n, "what": "the document loads and loads again", "got": [t["status"], str(t.get("error"))[:300]]})
            continue
        sp.append({"id": "doc " + n, "docs": [[{"p": p, "k": q, "v": v} for p, q, v in entries(x)] for x in [j] + t["reser"]]})
        chk.count("documents")
        chk.count("entries", len(sp[-1]["docs"][0]))
    res = tlc_cases("TraceFile", sp, chk.work, weight=lambda s: 3 + len(s["docs"][0]))
    chk.add(res)
    want = sum(len(s["docs"]) for s in sp)
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.traces += len(sp)

    # --- executions
    drv = [dict(c, id="%s/%d" % (n, k)) for n, cs, _ in execs for k, c in enumerate(cs)]
    tr = {}
    for k in range(4):          # cases that share a folder run one after the other
        part = [c for c in drv if c["id"].endswith("/%d" % k)]
        if part:
            tr.update(run_driver(part, chk.work, "execs"))
    sp = []
    for n, cs, _ in execs:
        ts = [tr["%s/%d" % (n, k)] for k in range(len(cs))]
        chk.cases[n] = cs
        a = ts[0]
        outcome = [(t["status"], t["runs"][0]["status"] if t["status"] == "ok" else "") for t in ts]
        if len(set(outcome)) > 1:
            chk.reject({"case": n, "what": "the reloaded and reordered models build and run like the original", "got": outcome, "error": [str(t.get("error") or (t["runs"] and t["runs"][0].get("error")))[:200] for t in ts]})
            continue
        if outcome[0] != ("ok", "ok"):
            chk.count("models refused or stopped, every time")
            continue
        nt, ns = len(a["times"]), len(a["scens"])
        o = {"id": n, "nt": nt, "execs": []}
        for k, t in enumerate(ts):
            r = t["runs"][0]
            ob, extra = life.table(r, nt, ns) if r["obs"] and any(x["after"] for x in r["obs"].values()) else ([[[0] for _ in range(nt)] for _ in range(ns)], set())
            if extra or t["times"] != a["times"] or t["scens"] != a["scens"]:
                chk.reject({"case": n, "what": "the same steps and scenarios", "got": k})
                continue
            o["execs"].append({"tag": ["declared", "reloaded", "third", "fourth"][k], "prop": pid, "key": list(range(1, ns + 1)), "ops": [{"op": "whole", "n": 0}],
                               "log": [], "obs": ob, "res": life.results(r), "nores": False, "tol": 0 if not k or "roundtrip" in cs[k] and n[:3] != "sim" else 1})
            chk.count("executions")
        sp.append(o)
    shutil.rmtree(root)
    res = tlc_cases("TraceLife", sp, chk.work, weight=lambda o: sum(len(e["key"]) for e in o["execs"]) * o["nt"] * (1 + len(o["execs"][0]["obs"][0][0])))
    chk.add(res)
    want = sum(len(e["ops"]) + o["nt"] + 2 for o in sp for e in o["execs"])
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.traces += sum(len(o["execs"]) for o in sp)
    chk.samples = [{"case": o["id"], "executions": [e["tag"] for e in o["execs"]], "steps": o["nt"]} for o in sp[:3]]
    return chk.finish()
