"""Data tables: P32, decided by Tables.tla."""
import csv
import hashlib
import io
import os
import random
import shutil

from sim import f
from vplib import Check, NAN, run_driver, seed, tier, tlc_cases

ALPHA = ["a", "b", "A", "a ", "1", "01", "1.0", "x,y", 'q"t', "\U0001F40D", "res one", "", "b2", "-1"]


def num(rng, v):
    """a number of thousandths as text"""
    x = rng.random()
    if x < 0.6:
        return repr(f(v))
    if x < 0.75:
        return "%.3f" % (v / 1000)
    if x < 0.85:
        return "%.6e" % (v / 1000)
    if x < 0.92 and v >= 0:
        return "+" + repr(f(v))
    return repr(v / 1000)


def cell(s, v=None):
    return {"s": s, "n": v is not None, "v": v or 0}


def value(rng, whole):
    if whole:
        return rng.randrange(0, 40) * 1000
    return rng.choice([rng.randrange(-9000, 9000) * 500, rng.randrange(-90000, 90000), rng.randrange(0, 40) * 1000])


class Table:
    def __init__(self, rng, k, root):
        self.rng, self.name = rng, "t%d" % k
        self.file = rng.choice(["data-%d.csv" % k, "sub/data %d.csv" % k])
        self.kind = rng.choice(["row", "col", "both"])
        self.arr = self.kind != "both" and rng.random() < 0.45
        self.whole = rng.random() < 0.4
        self.len = rng.choice([12, 12, 24])
        self.rows = self.cols = 0
        pick = lambda: rng.sample(ALPHA, rng.randint(2, 5))
        if self.kind == "row":
            self.cols = rng.choice([1, 1, 2, 2, 3, 4])
        elif self.kind == "col":
            self.rows = rng.choice([1, 1, 2, 2, 3, 4])
        else:
            self.rows, self.cols = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
        n = self.cols if self.kind == "row" else self.rows
        keys = self.keyset(n, pick) if self.kind != "both" else None
        if self.kind == "both":
            self.rk, self.ck = self.keyset(self.cols, pick), self.keyset(self.rows, pick)
            g = []
            for h in range(self.rows):
                g.append([cell("corner%d" % c) for c in range(self.cols)] + [cell(k[h]) for k in self.ck])
            for k in self.rk:
                g.append([cell(x) for x in k] + [self.cell() for _ in self.ck])
            self.keys = [list(a) + list(b) for a in self.rk for b in self.ck]
        elif self.kind == "row":
            w = self.len if self.arr else 1
            g = [[cell("key%d" % c) for c in range(self.cols)] + [cell("v%d" % c) for c in range(w)]]
            for k in keys:
                g.append([cell(x) for x in k] + [self.cell(self.arr) for _ in range(w)])
            self.keys = [list(k) for k in keys]
        else:
            w = self.len if self.arr else 1
            g = [[cell(k[h]) for k in keys] for h in range(self.rows)]
            g += [[self.cell(self.arr) for _ in keys] for _ in range(w)]
            self.keys = [list(k) for k in keys]
        self.grid = g
        self.sum = "none"

    def keyset(self, n, pick):
        a = [pick() for _ in range(n)]
        out = set()
        for _ in range(self.rng.randint(2, 6)):
            k = tuple(self.rng.choice(x) for x in a)
            out.add(k)
            if n > 1 and self.rng.random() < 0.5:      # the same keys the other way round, or with one key changed
                out.add(tuple(reversed(k)))
        # an entirely empty key of a one-column table would be a blank line
        out = sorted(k for k in out if any(x.strip() for x in k))
        if not out:
            out = [tuple("a" for _ in range(n))]
        self.rng.shuffle(out)
        return out

    def cell(self, number=False):
        if not number and self.rng.random() < 0.06:
            return cell(self.rng.choice(["", "n/a", "abc", "1 2", " 5"]))
        v = value(self.rng, self.whole)
        return cell(num(self.rng, v), v)

    def damage(self):
        """Something about the file or its declaration that may make it unusable."""
        rng, g = self.rng, self.grid
        x = rng.choice(["ragged", "text", "extra", "short", "sum", "keys", "type", "bothmany"])
        if x == "ragged":
            r = rng.randrange(len(g))
            if rng.random() < 0.5:
                g[r].append(cell("7", 7000))
            elif len(g[r]) > 1:
                g[r].pop()
        elif x == "text":
            r = rng.randrange(len(g))
            g[r][rng.randrange(len(g[r]))] = cell("oops")
        elif x == "extra":
            if self.kind == "row":
                for r in g:
                    r.append(cell("3", 3000))
            else:
                g.append([cell("2", 2000) for _ in g[0]])
        elif x == "short":
            if self.kind == "row" and not self.arr and rng.random() < 0.6:
                for r in g:
                    r.pop()
            else:
                del g[rng.choice([1, max(1, self.rows), max(1, len(g) - 1)]):]
        elif x == "sum":
            self.sum = "bad"
        elif x == "keys":
            if self.kind == "row":
                self.cols = rng.choice([0, 5, self.cols + 1, max(1, self.cols - 1)])
            else:
                self.rows = rng.choice([0, 5, self.rows + 1, max(1, self.rows - 1)])
        elif x == "type":
            self.arr = not self.arr
        elif x == "bothmany" and self.kind == "both":
            self.cols = rng.choice([0, 3])

    def text(self):
        b = io.StringIO()
        w = csv.writer(b, lineterminator="\n")
        for r in self.grid:
            w.writerow([c["s"] for c in r])
        return b.getvalue()

    def json(self, d, rng):
        look = {"row": {"type": "Row", "cols": self.cols}, "col": {"type": "Col", "rows": self.rows},
                "both": {"type": "Both", "rows": self.rows, "cols": self.cols}}[self.kind]
        j = {"meta": {"name": self.name}, "type": "Array" if self.arr else "Scalar", "format": "CSV", "lookup": look,
             "url": self.file if rng.random() < 0.8 else os.path.join(d, self.file)}
        if self.sum != "none":
            t = rng.choice(["MD5", "SHA256"])
            h = (hashlib.md5 if t == "MD5" else hashlib.sha256)(self.text().encode()).hexdigest()
            if self.sum == "bad":
                i = rng.randrange(len(h))
                h = h[:i] + ("0" if h[i] != "0" else "1") + h[i + 1:]
            j["checksum"] = {"type": t, "hash": h}
        return j

    def spec(self):
        return {"name": self.name, "kind": self.kind, "arr": self.arr, "rows": self.rows, "cols": self.cols, "grid": self.grid, "sum": self.sum}


def ref(rng, t, key):
    """A reference with this key: its first part as rows, the rest as columns."""
    one = lambda q: q[0] if len(q) == 1 and rng.random() < 0.7 else list(q)
    n = t.cols if t is not None and rng.random() < 0.8 else rng.randint(0, len(key))
    n = min(n, len(key))
    j = {"type": "Table", "table": t.name if t is not None else "no-such-table"}
    if n:
        j["row"] = one(key[:n])
    if n < len(key):
        j["column"] = one(key[n:])
    return j


def make(cid, rng, d):
    faulty = rng.random() < 0.45
    ts = [Table(rng, k, d) for k in range(rng.choice([1, 1, 2, 3]))]
    for t in ts:
        if rng.random() < 0.2:
            t.sum = "good"
    if faulty and rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            rng.choice(ts).damage()
    looks, pars, probes = [], [], []
    nodes = [{"meta": {"name": "a"}, "type": "Input"}, {"meta": {"name": "b"}, "type": "Output"}]
    edges = [{"from_node": "a", "to_node": "b"}]
    n = rng.randint(2, 7)
    wrong = rng.randrange(n) if faulty and rng.random() < 0.7 else -1
    for i in range(n):
        ti = rng.randrange(len(ts)) + 1
        t = ts[ti - 1]
        key = list(rng.choice(t.keys))
        want = "vec" if t.arr else rng.choice(["f64", "f64", "u64"])
        if want == "u64" and not t.whole and i != wrong:
            want = "f64"
        ln = t.len
        j = None
        if i == wrong:
            x = rng.choice(["absent", "short", "long", "swap", "table", "type", "len", "other"])
            if x == "absent":
                key[rng.randrange(len(key))] = rng.choice(ALPHA + ["missing"])
            elif x == "short":
                key.pop(rng.randrange(len(key)))
            elif x == "long":
                key.insert(rng.randrange(len(key) + 1), rng.choice(ALPHA))
            elif x == "swap":
                key.reverse()
            elif x == "table":
                ti = 0
            elif x == "type":
                want = "f64" if want == "vec" else "vec"
            elif x == "len":
                ln = 36 - ln
            else:
                key = list(rng.choice(rng.choice(ts).keys))
        j = ref(rng, ts[ti - 1] if ti else None, key)
        name = "p%d" % i
        looks.append({"t": ti, "name": j["table"], "by": name, "key": key, "want": want, "len": ln, "pos": "mo" if ln == 12 else "hr"})
        pr = {"m": "param", "name": name}
        if want == "vec":
            pars.append({"meta": {"name": name}, "type": "MonthlyProfile" if ln == 12 else "DiurnalProfile", "values": j})
        elif want == "u64":
            pars.append({"meta": {"name": name}, "type": "IndexedArray", "index_parameter": j,
                         "metrics": [{"type": "Literal", "value": x} for x in range(41)]})
        else:
            x = rng.random()
            if x < 0.4:
                pars.append({"meta": {"name": name}, "type": "Constant", "value": j})
            elif x < 0.7:
                pars.append({"meta": {"name": name}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [j]})
            else:
                nodes.append({"meta": {"name": name}, "type": "Link", "max_flow": j})
                edges += [{"from_node": "a", "to_node": name}, {"from_node": name, "to_node": "b"}]
                pr = {"m": "maxflow", "node": name}
        probes.append(pr)
    # a negative limit of a flow makes no sense to the allocation
    for nd in nodes[2:]:
        i = int(nd["meta"]["name"][1:])
        l = looks[i]
        if any(c["n"] and c["v"] < 0 for t in ts for r in t.grid for c in r):
            pars.append({"meta": {"name": "p%d" % i}, "type": "Constant", "value": nd.pop("max_flow")})
            probes[i] = {"m": "param", "name": "p%d" % i}
    hourly = any(l["want"] == "vec" and l["len"] == 24 for l in looks) and rng.random() < 0.7
    if hourly:
        tm = {"start": "2021-03-01T00:00:00", "end": "2021-03-02T20:00:00", "timestep": {"type": "Hours", "hours": 4}}
    else:
        tm = {"start": "2021-01-01", "end": "2021-12-20", "timestep": {"type": "Days", "days": 31}}
    rng.shuffle(pars)
    js = [t.json(d, rng) for t in ts]
    rng.shuffle(js)
    model = {"metadata": {"title": cid}, "time": tm, "network": {"nodes": nodes, "edges": edges, "parameters": pars, "tables": js}}
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for t in ts:
        with open(os.path.join(d, t.file), "w") as fh:
            fh.write(t.text())
    case = {"id": cid, "dir": d, "model": model, "extras": {"": {"probes": probes}}, "runs": [{"tag": "r", "solver": "highs", "mode": "run"}]}
    spec = {"id": cid, "tables": [t.spec() for t in ts], "looks": looks}
    return case, spec


def main(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, seed()))
    root = os.path.join(chk.work, "data")
    cs = [make("%s-%d" % (pid, k), rng, os.path.join(root, str(k))) for k in range(900 if tier() == "quick" else 9000)]
    tr = run_driver([c for c, _ in cs], chk.work)
    sp = []
    for c, s in cs:
        t = tr[c["id"]]
        chk.cases[c["id"]] = c
        if t["status"] in ("panic", "crash"):
            chk.reject({"case": c["id"], "what": "a table or a reference to it never makes the program crash", "got": str(t.get("error"))[:300]})
            continue
        ok = t["status"] == "ok"
        err = str(t.get("error"))
        r = t["runs"][0] if ok else {}
        if ok and r["status"] != "ok":
            chk.reject({"case": c["id"], "what": "the model did not run", "got": str(r)[:300]})
            continue
        after = sorted(r["obs"][""]["after"], key=lambda x: x["t"]) if ok else []
        steps = [{"mo": x["mo"], "hr": x["h"] + 1} for x in t.get("times", [])] if ok else []
        s.update(built=ok, error=err[:300] if not ok else "", obs=[x["v"] for x in after], steps=steps,
                 named=[n for n in [x["name"] for x in s["tables"]] + [x["by"] for x in s["looks"]] + ["no-such-table"] if n in err])
        chk.count("built" if ok else "refused")
        for l in s["looks"]:
            chk.count("lookup " + l["want"])
        for x in s["tables"]:
            chk.count("%s %s table" % (x["kind"], "array" if x["arr"] else "scalar"))
        chk.traces += 1
        sp.append(s)
    shutil.rmtree(root)
    res = tlc_cases("TraceTab", sp, chk.work, weight=lambda o: 3 + len(o["looks"]))
    chk.add(res)
    want = sum(sum(len(t["grid"]) + 1 for t in s["tables"]) + len(s["looks"]) + 2 for s in sp)
    if not chk.rejects and not res.rejects and res.distinct != want:
        raise SystemExit("TLC visited %d states, expected %d" % (res.distinct, want))
    chk.samples = [{"case": s["id"], "tables": [[t["kind"], t["arr"], t["grid"][0][0]["s"]] for t in s["tables"]], "lookups": [[l["key"], l["want"]] for l in s["looks"]]} for s in sp[:3]]
    return chk.finish()
