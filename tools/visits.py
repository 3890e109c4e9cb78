"""Visitors of a model document (P37), decided by Visitors.tla. Where metrics, file names and references to nodes
are in a document follows from the schema of the model file format (data/schema.json)."""
import json
import random

import docs
import genpar
import gensim
import roundtrip
from docs import DEFS, flat
from vplib import Check, run_driver, seed, tier, tlc_cases

NODEREF = {"Node", "VirtualNode"}


class Mismatch(Exception):
    pass


def walk(s, x, path, mark):
    """follow a value along its schema; mark(kind, path) for every place of a kind"""
    if s is True or s == {}:
        return
    if "$ref" in s:
        d = s["$ref"].rsplit("/", 1)[1]
        if d in ("Metric", "IndexMetric"):
            if not isinstance(x, dict):
                raise Mismatch
            if d == "Metric":
                mark("metric", path)
            if x.get("type") in NODEREF:
                mark("node", path + "/name")
        if d == "Edge":
            mark("node", path + "/from_node")
            mark("node", path + "/to_node")
        if d == "NodeComponentReference":
            mark("node", path + "/name")
        walk(DEFS[d], x, path, mark)
        if "properties" not in s:
            return
    if "const" in s:
        if x != s["const"]:
            raise Mismatch
        return
    if "enum" in s:
        if x not in s["enum"]:
            raise Mismatch
        return
    for k in ("oneOf", "anyOf"):
        if k in s:
            for a in s[k]:
                got = []
                try:
                    walk(a, x, path, lambda *m: got.append(m))
                except Mismatch:
                    continue
                for m in got:
                    mark(*m)
                break
            else:
                raise Mismatch
    t = s.get("type")
    ts = t if isinstance(t, list) else [t] if t else []
    ok = {"null": x is None, "boolean": isinstance(x, bool), "number": isinstance(x, (int, float)) and not isinstance(x, bool),
          "integer": isinstance(x, int) and not isinstance(x, bool), "string": isinstance(x, str), "array": isinstance(x, list),
          "object": isinstance(x, dict)}
    if ts and not any(ok[y] for y in ts):
        raise Mismatch
    if isinstance(x, list):
        for i, y in enumerate(x):
            if "prefixItems" in s:
                walk(s["prefixItems"][i], y, "%s/%d" % (path, i), mark)
            elif "items" in s:
                walk(s["items"], y, "%s/%d" % (path, i), mark)
    if isinstance(x, dict):
        pr = s.get("properties", {})
        for k in s.get("required", []):
            if k not in x:
                raise Mismatch
        ap = s.get("additionalProperties", True)
        for k, y in x.items():
            p = "%s/%s" % (path, k)
            if k in pr:
                if k in ("url", "filename") or k == "path" and "module" not in pr and pr[k] == {"type": "string"}:
                    mark("file", p)
                if y is not None or k in s.get("required", []):
                    walk(pr[k], y, p, mark)
            elif ap is False:
                raise Mismatch
            elif isinstance(ap, dict):
                walk(ap, y, p, mark)


def text(x):
    return json.dumps(sorted((p, v) for p, k, v in flat(x)))


def main(pid):
    chk = Check(pid)
    quick = tier() == "quick"
    rng = random.Random("%s/%d" % (pid, seed()))
    D = docs.Docs(rng)
    cs = []
    for n, j, d in roundtrip.repo_files():
        if "network" in j and isinstance(j["network"].get("nodes"), list):
            cs.append(("repo " + n, j))
    cs += [("example " + n, j) for n, j in roundtrip.examples()]
    for i in range(3 if quick else 30):
        cs += [("each-%d-%d" % (i, k), m) for k, m in enumerate(D.each())]
    cs += [("doc-%d" % i, D.model()) for i in range(300 if quick else 5000)]
    for i in range(40 if quick else 600):
        r = random.Random(rng.random())
        c = gensim.Gen(r, "sim%d" % i, set(r.choice(gensim.FEATS[r.choice(sorted(gensim.FEATS))]).split())).build()
        cs.append(("sim%d" % i, c.model()))
        c = genpar.cases(r.choice(genpar.PIDS), r, 1)[0]
        cs.append(("par%d" % i, c.model()))
    tr = run_driver([{"id": n, "model": j, "visit": True} for n, j in cs], chk.work, "visits")
    sp = []
    for n, j in cs:
        t = tr[n]
        chk.cases[n] = {"id": n, "model": j, "visit": True}
        if t["status"] == "load_error":
            chk.count("documents refused")
            continue
        if t["status"] != "ok":
            chk.reject({"case": n, "what": "visiting a document", "got": [t["status"], str(t.get("error"))[:300]]})
            continue
        v = t["visit"]
        marks = {"metric": set(), "file": set(), "node": set()}
        try:
            walk(DEFS["NetworkSchema"], v["saved"]["network"], "/network", lambda k, p: marks[k].add(p))
        except Mismatch:
            chk.count("saved documents outside the schema")
            continue
        doc, at = [], {}
        for p, k, x in flat(v["saved"]):
            m = p
            while m and m not in marks["metric"]:
                m = m.rpartition("/")[0]
            doc.append({"p": p, "v": x, "m": m, "f": p in marks["file"], "n": p in marks["node"]})

        def get(p):
            x = v["saved"]
            q = p[1:]
            while q:        # keys may contain a slash
                if isinstance(x, list):
                    k, _, q = q.partition("/")
                    x = x[int(k)]
                    continue
                k = max((k for k in x if q == k or q.startswith(k + "/")), key=len)
                x, q = x[k], q[len(k) + 1:]
            return x
        whole = [{"p": p, "t": text(get(p))} for p in sorted(marks["metric"])]
        quote = lambda l: ['"%s"' % x for x in l]
        bare = lambda d: [{"p": p, "v": x} for p, k, x in flat(d)]
        sp.append({"id": n, "doc": doc, "whole": whole, "seen": [[text(m) for m in v["metrics"]], quote(v["paths"]), quote(v["nodes"])],
                   "after": [bare(v["m"]), bare(v["p"]), bare(v["n"])]})
        chk.count("documents")
        for k in marks:
            chk.count("places: " + k, len(marks[k]))
        chk.traces += 1
    res = tlc_cases("TraceVisit", sp, chk.work, weight=lambda s: 3 + len(s["doc"]) + len(s["whole"]) ** 2 // 20)
    chk.add(res)
    if not chk.rejects and not res.rejects and res.distinct != 4 * len(sp):
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, 4 * len(sp)))
    chk.samples = [{"case": s["id"], "places": s["whole"][:3]} for s in sp[:3]]
    return chk.finish()
