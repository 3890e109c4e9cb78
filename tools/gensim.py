"""Random simulation cases. `feat` selects what a case may contain."""
import datetime as dt
import random

from sim import Case, lit
from vplib import INF


def rnd(rng, lo, hi, unit=500):
    return rng.randint(lo // unit, hi // unit) * unit


class Gen:
    MONTHS = True       # time-steps of whole months

    def __init__(self, rng, cid, feat):
        self.rng, self.feat = rng, feat
        nt = rng.choice([6, 8, 10])
        start = rng.choice([(2015, 1, 1), (2016, 2, 25), (2019, 12, 27), (2021, 6, 28), (2020, 2, 27)])
        x = rng.random()
        if "long" in feat:
            self.c = Case(cid, start, rng.choice([14, 20, 26]), days=rng.choice([28, 31, 45, 61, 92]))
        elif x < 0.12:
            self.c = Case(cid, start, nt, hours=rng.choice([3, 6, 12]))
        else:
            days = rng.choice([1, 1, 1, 1, 2, 7, 30] + [0] * self.MONTHS)
            self.c = Case(cid, start, nt, days=days) if days else Case(cid, start[:2] + (min(start[2], 28),), nt, months=rng.choice([1, 1, 1, 2, 3]))
        c = self.c
        if "scen" in feat and rng.random() < 0.6:
            for k in range(rng.choice([1, 1, 2])):
                c.group(rng.choice([1, 2, 3]))
        self.links, self.stores = [], []

    def has(self, f, p):
        return f in self.feat and self.rng.random() < p

    def series(self, lo, hi, unit=500):
        """A parameter varying in time (and maybe scenario) within [lo, hi]."""
        c, rng = self.c, self.rng
        off = rng.choice([0, 0, 0, 1, -2])
        n = c.nt + (rng.choice([0, 2, -2]) if off else rng.choice([0, 0, 1]))
        if c.groups and rng.random() < 0.5:
            g = rng.randrange(len(c.groups))
            return c.arr2([[rnd(rng, lo, hi, unit) for _ in range(c.groups[g]["size"])] for _ in range(n)], g, off)
        return c.arr([rnd(rng, lo, hi, unit) for _ in range(n)], off)

    def amount(self, lo, hi, unit=500, vary=0.4):
        if self.has("vary", vary):
            return self.series(lo, hi, unit)
        return lit(rnd(self.rng, lo, hi, unit))

    def stateful(self, lo, hi):
        """A limit that reads the state: volumes now, flows of the previous step."""
        c, rng = self.c, self.rng
        opts = []
        for i, n in enumerate(c.nodes, 1):
            if n["k"] == "sto":
                opts += [{"k": "vol", "i": i}]
            else:
                opts += [{"k": "nin" if n["k"] == "out" else "nout", "i": i}]
        for e in range(1, len(c.edges) + 1):
            opts.append({"k": "edge", "i": e})
        return rng.choice(opts) if opts else self.amount(lo, hi)

    def build(self):
        c, rng = self.c, self.rng
        nin, nout = rng.randint(1, 3), rng.randint(1, 3)
        nmid = rng.randint(0, 4) if "big" not in self.feat else rng.randint(3, 7)
        ins = [c.node("in", mx=self.amount(0, 60000), cost=(self.cost(-3000, 8000) if "tiny" in self.feat else lit(rnd(rng, -3000, 8000, 1000))) if rng.random() < .8 else None) for _ in range(nin)]
        mids = []
        for _ in range(nmid):
            if rng.random() < 0.4 and "store" in self.feat:
                mids.append(self.store())
            else:
                k = {}
                if rng.random() < 0.6:
                    k["mx"] = self.stateful(0, 40000) if self.has("state", 0.25) and c.nodes else self.amount(0, 40000)
                if rng.random() < 0.6:
                    k["cost"] = self.cost()
                mids.append(c.node("link", **k))
        outs = []
        for _ in range(nout):
            k = {"mx": self.amount(0, 60000)}
            if self.has("state", 0.1):
                k["mx"] = self.stateful(0, 30000)
            outs.append(c.node("out", cost=self.cost(-12000, 1000), **k))
        # edges: forward along the order
        order = ins + mids + outs
        for a in mids:
            up = [x for x in ins + mids if x < a]
            for x in rng.sample(up, min(len(up), rng.choice([1, 1, 2]))):
                self.edge(x, a)
        for a in outs:
            up = ins + mids
            for x in rng.sample(up, min(len(up), rng.choice([1, 2, 2, 3]))):
                self.edge(x, a)
        for a in ins + mids:
            if not c.nodes[a - 1]["oe"]:
                down = [x for x in mids + outs if x > a and c.nodes[x - 1]["k"] != "in"]
                self.edge(a, rng.choice(down))
        self.links = [m for m in mids if c.nodes[m - 1]["k"] == "link"]
        self.stores = [m for m in mids if c.nodes[m - 1]["k"] == "sto"]
        self.ins, self.outs = ins, outs
        if "min" in self.feat:
            for x in rng.sample(order, min(len(order), rng.choice([0, 1, 2]))):
                if c.nodes[x - 1]["k"] != "sto":
                    self.minflow(x)
        if "agg" in self.feat:
            for _ in range(rng.choice([0, 1, 1, 2])):
                self.group()
        if "rel" in self.feat:
            for _ in range(rng.choice([1, 1, 2])):
                self.relation()
        if "excl" in self.feat:
            self.exclusive()
        if "vs" in self.feat:
            for _ in range(rng.choice([1, 1, 2])):
                self.vstorage()
        if "ast" in self.feat and self.stores:
            c.aggstore(rng.sample(self.stores, rng.randint(1, len(self.stores))))
        return c

    def edge(self, a, b):
        if [a, b] not in self.c.edges:
            self.c.edge(a, b)

    def cost(self, lo=-5000, hi=9000):
        if "tiny" in self.feat and self.rng.random() < 0.6:    # small beside the other costs
            lo, hi = lo // 1000, hi // 1000
            return self.series(lo, hi, 1) if self.rng.random() < 0.3 else lit(rnd(self.rng, lo, hi, 1))
        rng = self.rng
        if self.has("vary", 0.35):
            return self.series(lo, hi, 1000)
        return lit(rnd(rng, lo, hi, 1000))

    def store(self):
        c, rng = self.c, self.rng
        mx = rnd(rng, 0, 300000, 1000) if rng.random() > 0.05 else 0
        mn = rnd(rng, 0, mx // 2, 1000) if rng.random() < 0.4 else 0
        if rng.random() < 0.5:
            lo = mn * 1000 // mx if mx else 0
            iv = ("prop", min(1000, -(-(lo + 1) // 125) * 125) if mx else rng.choice([0, 500, 1000]))
            iv = ("prop", max(iv[1], rng.choice([0, 250, 500, 750, 1000]))) if mx else iv
        else:
            iv = ("abs", rnd(rng, mn, mx, 500))
        mxm, mnm = lit(mx), lit(mn)
        if self.has("vary", 0.3) and mx:
            mxm = self.series(max(mx // 2, mn), mx, 500)
            if rng.random() < 0.5:
                mxm = c.arr([mx] * (c.nt // 2) + [max(mx // 2, mn)] * c.nt)
                iv = ("abs", max(mn, min(mx // 2, iv[1] if iv[0] == "abs" else mx // 2)))
        i = c.node("sto", cost=self.cost(-6000, 3000) if rng.random() < 0.8 else None, maxv=mxm, minv=mnm if mn or rng.random() < .5 else None, iv=iv)
        if mxm["k"] == "par":
            # room to release what no longer fits
            o = c.node("out", mx=lit(2000000000 // 1000), cost=lit(60000))
            self.edge(i, o)
        return i

    def minflow(self, x):
        c, rng = self.c, self.rng
        n = c.nodes[x - 1]
        mx = n["mx"]
        hi = mx["v"] if mx["k"] == "lit" and mx["v"] < INF else 5000
        if mx["k"] != "lit":
            return
        mn = self.amount(0, min(hi, 20000)) if rng.random() < .7 else lit(min(hi, rnd(rng, 0, 20000)))
        n["mn"] = mn
        for j in c.jn:
            if j["meta"]["name"] == n["name"]:
                j["min_flow"] = c.mj(mn)
        if n["k"] in ("link", "out") and not self.has("infeasible", 0.3):
            s = c.node("in", mx=lit(500000), cost=lit(90000))
            self.edge(s, x)
        if n["k"] in ("link", "in") and not self.has("infeasible", 0.3):
            s = c.node("out", mx=lit(500000), cost=lit(90000))
            self.edge(x, s)

    def pick(self, n):
        c, rng = self.c, self.rng
        pool = [i for i, x in enumerate(c.nodes, 1) if x["k"] != "sto"]
        return rng.sample(pool, min(n, len(pool)))

    def group(self):
        c, rng = self.c, self.rng
        mem = self.pick(rng.choice([1, 2, 2, 3]))
        k = {}
        if rng.random() < 0.8:
            k["mx"] = self.amount(0, 50000)
        if self.has("min", 0.5):
            k["mn"] = self.amount(0, 8000)
            if "mx" in k and k["mx"]["k"] == "lit" and k["mn"]["k"] == "lit":
                k["mn"] = lit(min(k["mn"]["v"], k["mx"]["v"]))
        c.agg(mem, **k)
        if rng.random() < 0.4:      # the same members again
            mem = mem[:]
            rng.shuffle(mem)
            c.agg(mem, mx=self.amount(0, 50000))

    def branch(self, k):
        """k parallel branches input -> link -> output with limits of their own; returns the links."""
        c, rng = self.c, self.rng
        out = []
        for _ in range(k):
            a = c.node("in", mx=self.amount(0, 60000), cost=lit(rnd(rng, 0, 4000, 1000)))
            x = c.node("link", mx=self.amount(0, 60000) if rng.random() < .5 else None)
            o = c.node("out", mx=self.amount(0, 60000), cost=lit(rnd(rng, -12000, -3000, 1000)))
            self.edge(a, x)
            self.edge(x, o)
            if self.stores and rng.random() < 0.4:
                self.edge(rng.choice(self.stores), x)
            out.append(rng.choice([x, x, a, o]))
        return out

    def fac(self, lo=125, hi=4000):
        return self.amount(lo, hi, 125, vary=0.5)

    def limits(self, p=0.35):
        """Limits of the total, beside a relationship."""
        rng = self.rng
        k = {}
        if rng.random() < p:
            k["mx"] = self.amount(0, 40000)
            if rng.random() < 0.3:
                k["mn"] = self.amount(0, 1500)
        return k

    def relation(self):
        c, rng = self.c, self.rng
        k = rng.choice(["ratio", "prop", "coef"])
        n = 2 if k == "coef" else rng.choice([2, 2, 3])
        mem = self.branch(n)
        if rng.random() < 0.25:
            # one member carries the water of another, or is the same node
            m = mem[0]
            up = [self.c.edges[e][0] for e in range(len(self.c.edges)) if self.c.edges[e][1] == m]
            down = [self.c.edges[e][1] for e in range(len(self.c.edges)) if self.c.edges[e][0] == m]
            near = [x for x in up + down if self.c.nodes[x - 1]["k"] != "sto"]
            mem[1] = rng.choice(near + [m])
        if k == "ratio":
            c.agg(mem, rel={"k": "ratio", "f": [self.fac() for _ in range(n)]}, **self.limits())
        elif k == "prop":
            c.agg(mem, rel={"k": "prop", "f": [self.fac(125, 400) for _ in range(n - 1)]}, **self.limits())
        else:
            f0 = self.fac()
            f1 = self.fac() if f0["k"] == "par" or rng.random() < .5 else lit(-self.fac(125, 4000).get("v", 1000))
            r = {"k": "coef", "f": [f0, f1]}
            if rng.random() < 0.6:
                r["rhs"] = self.amount(0, 6000) if self.has("dynrhs", 0.5) or f0["k"] == "par" or f1["k"] == "par" else lit(rnd(rng, 0, 6000))
            c.agg(mem, rel=r, **self.limits())

    def exclusive(self):
        c, rng = self.c, self.rng
        n = rng.choice([2, 2, 3, 4])
        mem = self.branch(n)
        for m in mem:
            nd = c.nodes[m - 1]
            # limits of an exclusive member must be finite
            mx = lit(rnd(rng, 4000, 60000)) if "dynexcl" not in self.feat or rng.random() < .5 else self.series(4000, 60000)
            nd["mx"] = mx
            js = next(j for j in c.jn if j["meta"]["name"] == nd["name"])
            js["max_flow"] = c.mj(mx)
            if rng.random() < 0.4:
                mn = lit(rnd(rng, 0, 4000))
                nd["mn"] = mn
                js["min_flow"] = c.mj(mn)
        x = rng.random()
        rel = {"k": "excl", "mina": 0, "maxa": 1, "jmin": True, "jmax": True}
        if x < 0.25:
            rel.update(jmin=False, jmax=False)
        elif x < 0.6:
            rel["maxa"] = rng.randint(1, n)
        else:
            rel["maxa"] = rng.randint(1, n)
            rel["mina"] = rng.randint(0, rel["maxa"])
        c.agg(mem, rel=rel, **self.limits())

    def vstorage(self):
        c, rng = self.c, self.rng
        mem = self.pick(rng.choice([1, 1, 2, 3]))
        fac = [rng.choice([125, 500, 1000, 1000, 2000, 3000]) for _ in mem] if rng.random() < 0.5 else None
        mx = rnd(rng, 10000, 400000, 1000)
        k = {"maxv": lit(mx)}
        x = rng.random()
        if x < 0.35:
            k["iv"] = ("prop", rng.choice([250, 500, 750, 1000]))
        else:
            k["iv"] = ("abs", rnd(rng, mx // 4, mx, 1000))
        if rng.random() < 0.25:
            k["minv"] = lit(rnd(rng, 0, mx // 8, 1000))
        y = rng.random()
        # a date on which a step starts, or any other
        if y < 0.25:
            j = rng.randrange(c.nt)
            d = c.times()[j]
            k["reset"] = {"k": "doy", "d": d["d"], "m": d["mo"]}
            if rng.random() < 0.5:
                d = c.at(j) + rng.random() * (c.at(j + 1) - c.at(j))
                k["reset"] = {"k": "doy", "d": d.day, "m": d.month}
        elif y < 0.5:
            k["reset"] = {"k": "months", "n": rng.choice([6, 12, 12, 18, 24, 36] if "long" in self.feat else [1, 1, 2, 3, 12])}
        elif y < 0.7:
            d, e = sorted(rng.sample(range(c.nt), 2))
            if rng.random() < 0.3:
                d, e = e, d
            d, e = c.times()[d], c.times()[e]
            k["act"] = (d["d"], d["mo"], e["d"], e["mo"])
            k["reset"] = {"k": "doy", "d": d["d"], "m": d["mo"]}
        elif y < 0.85:
            k["reset"] = {"k": "never", "explicit": True}
        if k.get("reset", {}).get("k") in ("doy", "months"):
            k["rv"] = rng.choice([None, "initial", "max"])
        if rng.random() < 0.4:
            w = rng.choice([1, 2, 3, 4])
            if rng.random() < .5 and not c.hours and not c.months:
                k["win"] = ("days", w * c.days + (rng.randrange(c.days) if c.days > 1 else 0))
            else:
                k["win"] = ("steps", w)
        elif fac and rng.random() < 0.4:        # a member that gives back
            fac[rng.randrange(len(fac))] *= -1
        if "cagg" in self.feat:
            k["cost"] = self.cost(-9000, 12000)
            for m in mem + ([rng.randrange(len(c.nodes)) + 1] if rng.random() < .2 else []):
                n = c.nodes[m - 1]
                if n["ca"] == "none" and n["k"] != "sto" and rng.random() < 0.8:
                    n["ca"] = rng.choice(["sum", "sum", "max", "min"])
                    c.cost_agg.append({"node": n["name"], "func": n["ca"]})
        c.vs(mem, fac=fac, **k)


FEATS = {
    "P01": ["vary store scen min", "vary store scen agg rel vs big state"],
    "P02": ["vary store scen ast state", "vary store scen big vs"],
    "P03": ["vary store scen min state", "vary store scen min state infeasible", "vary min scen agg big"],
    "P04": ["vary store scen agg min rel", "vary scen rel store dynrhs", "vary agg min scen store", "vary scen excl"],
    "P05": ["vary scen excl", "vary store scen excl agg", "vary scen excl dynexcl"],
    "P06": ["vary store scen", "vary store scen tiny", "vary store scen big", "vary store scen agg min state", "vary store scen rel", "vary scen excl", "vary store scen vs", "vary scen vs cagg", "vary store scen vs cagg big"],
    "P08": ["vary store scen vs", "vary scen vs big", "vary store scen vs cagg"],
    "P09": ["vary scen vs", "vary store scen vs", "vary scen vs long"],
    "P14": ["vary store scen state", "vary store scen state agg ast vs big"],
    "P29": ["vary store scen agg ast big", "vary store scen ast agg rel vs"],
}


def cases(pid, rng, n):
    out = []
    sets = FEATS[pid]
    for k in range(n):
        feat = set(sets[k % len(sets)].split())
        out.append(Gen(random.Random(rng.random()), "%s-%d" % (pid, k), feat).build())
    if pid in ("P05", "P06"):
        out += [sets_case(random.Random(rng.random()), "%s-x%d" % (pid, k)) for k in range(n // (8 if pid == "P05" else 16))]
    return out + special(pid)


def sets_case(rng, cid):
    """Exclusive groups of sets of nodes that overlap: the parts of loss links."""
    c = Case(cid, nt=rng.choice([3, 5]))
    val = lambda lo, hi: c.arr([rnd(rng, lo, hi) for _ in range(c.nt)]) if rng.random() < .35 else lit(rnd(rng, lo, hi))
    use = []        # (nodes, how the model file says so)
    mins = rng.random() < .3
    out = c.node("out", mx=lit(rnd(rng, 10000, 60000)), cost=lit(-8000)) if rng.random() < .5 else None
    for _ in range(rng.choice([2, 2, 3, 4])):
        a = c.node("in", mx=lit(90000))
        o = out or c.node("out", mx=lit(rnd(rng, 30000, 60000)), cost=lit(-rnd(rng, 3000, 9000)))
        mn = val(500, 2000) if mins and not out and rng.random() < .6 else None
        if rng.random() < .75:
            kind = rng.choice(["Gross", "Gross", "Net", "Net", None])
            # a loss that changes is never nothing: the members' factors have to be positive
            x, l = c.loss_link(kind, lit(0) if rng.random() < .15 else val(125, 750), val(2000, 15000), mn, lit(-rnd(rng, 0, 2000)))
            name = c.nodes[x - 1]["name"]
            c.edge(a, x)
            if l:
                c.edge(a, l)
                c.je.pop()
            use.append([([x] + [l] * bool(l), {"name": name, "component": "Inflow"}), ([x], rng.choice([{"name": name}, {"name": name, "component": "Outflow"}]))])
        else:
            x = c.node("link", mx=val(2000, 15000), mn=mn)
            c.edge(a, x)
            use.append([([x], {"name": c.nodes[x - 1]["name"]})])
        c.edge(x, o)
    for _ in range(rng.choice([1, 2, 2, 3])):
        ms = [rng.choice(u) for u in rng.sample(use, rng.randint(2, len(use)))]
        if rng.random() < .2:       # the same node twice, in different sets
            u = rng.choice([u for u in use if len(u) > 1] or use)
            ms = [m for m in ms if m not in u] + u
        maxa = rng.randint(1, len(ms))
        c.excl([m for m, _ in ms], 0 if mins else rng.choice([0, 0, 1]), maxa, [j for _, j in ms])
    return c


def branches(c, k, demand=10000, mx=50000):
    out = []
    for _ in range(k):
        a = c.node("in", mx=lit(mx))
        x = c.node("link")
        o = c.node("out", mx=lit(demand), cost=lit(-5000))
        c.edge(a, x)
        c.edge(x, o)
        out.append(x)
    return out


def set_max(c, m, mx):
    c.nodes[m - 1]["mx"] = mx
    next(j for j in c.jn if j["meta"]["name"] == c.nodes[m - 1]["name"])["max_flow"] = c.mj(mx)


def set_min(c, m, mn):
    c.nodes[m - 1]["mn"] = mn
    next(j for j in c.jn if j["meta"]["name"] == c.nodes[m - 1]["name"])["min_flow"] = c.mj(mn)


def set_cost(c, m, v):
    c.nodes[m - 1]["cost"] = v
    next(j for j in c.jn if j["meta"]["name"] == c.nodes[m - 1]["name"])["cost"] = c.mj(v)


def special(pid):
    """Hand-picked corners of a property, on every run."""
    cs = []

    def new(name, nt=3):
        c = Case("%s-s-%s" % (pid, name), nt=nt)
        cs.append(c)
        return c

    if pid == "P04":
        A = [1000, 2000, 3000]
        for name, rel in (
            ("rhs-varies", lambda c: {"k": "coef", "f": [lit(1000), lit(1000)], "rhs": c.arr([5000, 6000, 7000])}),
            ("coef-varies", lambda c: {"k": "coef", "f": [c.arr(A), lit(-1000)], "rhs": lit(2000)}),
            ("prop>1", lambda c: {"k": "prop", "f": [lit(1500)]}),
            ("prop-neg", lambda c: {"k": "prop", "f": [lit(-500)]}),
            ("prop-zero", lambda c: {"k": "prop", "f": [lit(0)]}),
            ("prop-zero-dyn", lambda c: {"k": "prop", "f": [c.arr([250, 0, 500])]}),
            ("prop-bad-dyn", lambda c: {"k": "prop", "f": [c.arr([250, 1000, 500])]}),
            ("ratio-zero-first", lambda c: {"k": "ratio", "f": [lit(0), lit(1000)]}),
            ("ratio-zero-second", lambda c: {"k": "ratio", "f": [lit(1000), lit(0)]}),
            ("ratio-zero-dyn", lambda c: {"k": "ratio", "f": [lit(1000), c.arr([1000, 0, 2000])]}),
            ("ratio-zero-dyn-first", lambda c: {"k": "ratio", "f": [c.arr([1000, 0, 2000]), lit(1000)]}),
            ("ratio-neg-dyn", lambda c: {"k": "ratio", "f": [lit(1000), c.arr([1000, -1000, 2000])]}),
            ("ratio-neg-dyn-first", lambda c: {"k": "ratio", "f": [c.arr([1000, -1000, 2000]), lit(1000)]}),
            ("prop-neg-dyn", lambda c: {"k": "prop", "f": [c.arr([250, -500, 500])]}),
            ("ratio-neg", lambda c: {"k": "ratio", "f": [lit(1000), lit(-1000)]}),
            ("ratio-neg-first", lambda c: {"k": "ratio", "f": [lit(-1000), lit(1000)]}),
        ):
            c = new(name)
            ms = branches(c, 2)
            c.agg(ms, rel=rel(c))
            if name in ("prop>1", "prop-neg", "ratio-neg", "ratio-neg-first"):
                c.expect = "refused"
        c = new("two-relations")
        ms = branches(c, 2)
        c.agg(ms, rel={"k": "ratio", "f": [lit(1000), c.arr(A)]})
        c.agg(ms, rel={"k": "ratio", "f": [lit(1000), c.arr([4000, 2000, 3000])]})
        c = new("three-mixed")
        ms = branches(c, 3)
        c.agg(ms, rel={"k": "ratio", "f": [lit(1000), c.arr(A), lit(2000)]})
        c.agg(ms[:2], mx=c.arr([9000, 8000, 7000]))
        for name, f, rhs in (
            ("coef", [lit(1000), A], lit(12000)),
            ("coef-const", [lit(1000), lit(2000)], lit(12000)),
            ("coef-cancel", [lit(1000), [-1000, -1000, -2000]], None),
            ("coef-rhs", [lit(1000), lit(1000)], [4000, 6000, 8000]),
            ("ratio", [lit(1000), [1000, 2000, 1000]], None),
            ("prop", [[250, 500, 500]], None),
        ):
            for twice in (False, True):
                c = new("series-%s-%d" % (name, twice))
                m = branches(c, 1)[0]
                up = next(a for a, b in c.edges if b == m)
                rel = {"k": name.split("-")[0], "f": [c.arr(x) if isinstance(x, list) else x for x in f]}
                if rhs:
                    rel["rhs"] = c.arr(rhs) if isinstance(rhs, list) else rhs
                c.agg([m, m] if twice else [up, m], rel=rel)
        for j in (1, 2):
            c = new("ratio-neg-dyn-three-%d" % j)
            ms = branches(c, 3)
            f = [lit(1000), c.arr([1000, 2000, 500]), c.arr([2000, 1000, 500])]
            f[j] = c.arr([1000, -500, 2000])
            c.agg(ms, rel={"k": "ratio", "f": f})
            c = new("prop-neg-dyn-three-%d" % j)
            ms = branches(c, 3)
            f = [c.arr([250, 125, 250]), c.arr([500, 250, 125])]
            f[j - 1] = c.arr([500, -250, 500])
            c.agg(ms, rel={"k": "prop", "f": f})
        c = new("prop-three")
        ms = branches(c, 3)
        c.agg(ms, mn=lit(3000), mx=lit(12000), rel={"k": "prop", "f": [lit(250), c.arr([500, 250, 125])]})
        for k, (a, b) in enumerate(((12000, 30000), (30000, 12000))):
            c = new("same-members-%d" % k)
            ms = branches(c, 2)
            c.agg(ms, mx=lit(a))
            c.agg(ms[::-1], mx=lit(b))
            c.agg(ms, mx=c.arr([40000, 11000, 40000]))
    if pid == "P09":
        for months in (1, 2, 3, 6, 12, 18, 24):
            for days in (17, 31, 61):
                c = new("months-%d-%d" % (months, days), nt=26)
                c.days, c.step, c.dt = days, dt.timedelta(days=days), days * 1000
                ms = branches(c, 1, demand=1000)
                c.vs(ms, maxv=lit(1900000), reset={"k": "months", "n": months})
    if pid == "P05":
        for name, lims in (("one-varies", (1, 0)), ("all-vary", (1, 1)), ("none-varies", (0, 0))):
            for mina, maxa in ((0, 1), (1, 1), (1, 2), (2, 2)):
                c = new("%s-%d-%d" % (name, mina, maxa))
                ms = branches(c, 2)
                for m, v in zip(ms, lims):
                    set_max(c, m, c.arr([5000, 6000, 7000]) if v else lit(8000))
                c.agg(ms, rel={"k": "excl", "mina": mina, "maxa": maxa})
        for varies in ("max", "min", "both", ""):       # on means nearly all of it, although nothing is gained by it
            for mina, maxa in ((1, 1), (1, 2), (2, 2)):
                c = new("must-%s-%d-%d" % (varies, mina, maxa))
                ms = branches(c, 3)
                for i, m in enumerate(ms):
                    set_cost(c, m, lit(9000 + 1000 * i))
                    set_max(c, m, c.arr([8000, 8500 + 500 * i, 9000]) if varies in ("max", "both") else lit(8500))
                    set_min(c, m, c.arr([7500, 8000, 6500 - 500 * i]) if varies in ("min", "both") else lit(7500))
                c.agg(ms, rel={"k": "excl", "mina": mina, "maxa": maxa})
        c = new("shared-member")
        ms = branches(c, 3)
        for m in ms:
            set_max(c, m, lit(8000))
        c.agg(ms[:2], rel={"k": "excl", "mina": 0, "maxa": 1})
        c.agg(ms[1:], rel={"k": "excl", "mina": 0, "maxa": 1})
        for k in (3, 4):        # one node that excludes several others, pair by pair
            for best in (True, False):
                for varies in (False, True):
                    c = new("hub-%d-%d-%d" % (k, best, varies))
                    ms = branches(c, k + 1)
                    for i, m in enumerate(ms):
                        v = 9000 * (k + 1 if best else 1) if i == 0 else 4000 + 500 * i
                        set_max(c, m, c.arr([v, v + 500, v]) if varies and i in (0, 2) else lit(v))
                    if best:
                        o = c.node("out", mx=lit(90000), cost=lit(-5000))
                        c.edge(ms[0], o)
                    for m in ms[1:]:
                        c.agg([m, ms[0]], rel={"k": "excl", "mina": 0, "maxa": 1})
    return cs
