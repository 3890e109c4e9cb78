"""Cases for parameters: the same declaration for the model file and for the specification."""
import random

from sim import Case, f, lit
from vplib import INF

PIDS = ("P15", "P16", "P17", "P18", "P19")
NONE = {"k": "none"}
STARTS = [(2015, 1, 1), (2016, 2, 25), (2019, 12, 27), (2015, 2, 26), (2020, 2, 27), (2023, 12, 28), (2000, 2, 27), (1900, 2, 26), (2100, 2, 27), (2021, 6, 28)]


class PGen:
    def __init__(self, rng, cid, nt=None, cal=False, scen=0.5):
        self.rng = rng
        nt = nt or rng.choice([6, 8, 10])
        if cal:
            x = rng.random()
            start = rng.choice(STARTS)
            if x < 0.35:
                c = Case(cid, start, rng.choice([12, 16, 24]), hours=rng.choice([1, 3, 6, 12]))
            elif x < 0.45:
                c = Case(cid, start[:2] + (min(start[2], 28),), rng.choice([14, 26]), months=rng.choice([1, 1, 2, 5]))
            else:
                c = Case(cid, start, rng.choice([10, 14, 26]), days=rng.choice([1, 1, 1, 2, 7, 15, 29]))
        elif rng.random() < 0.15:
            c = Case(cid, rng.choice(STARTS), nt, hours=rng.choice([3, 6, 12]))
        else:
            c = Case(cid, rng.choice(STARTS), nt, days=rng.choice([1, 1, 1, 2, 7]))
        self.c = c
        if rng.random() < scen:
            for _ in range(rng.choice([1, 1, 2])):
                c.group(rng.choice([2, 2, 3]))
        self.pool = []      # (metric, exact)
        self.ipool = []     # (index metric, largest)
        self.net()

    def net(self):
        """A small network whose flows and volumes the parameters can read."""
        c, rng = self.c, self.rng
        i = c.node("in", mx=c.arr([rng.randrange(0, 40) * 500 for _ in range(c.nt)]))
        s = c.node("sto", maxv=lit(100000), iv=("prop", rng.choice([0, 500, 1000])), cost=lit(-1000))
        l = c.node("link")
        o = c.node("out", mx=c.arr([rng.randrange(0, 40) * 500 for _ in range(c.nt)]), cost=lit(-5000))
        z = c.node("out", cost=lit(500))
        for a, b in ((i, s), (i, l), (s, l), (l, o), (i, z)):
            c.edge(a, b)
        self.sto, self.outn, self.link, self.inn = s, o, l, i
        self.state = [{"k": "vol", "i": s}, {"k": "nout", "i": l}, {"k": "nin", "i": o}, {"k": "edge", "i": 2}, {"k": "pvol", "i": s}]

    # ---------------------------------------------------- leaves
    def series(self, vals):
        c, rng = self.c, self.rng
        if c.groups and rng.random() < 0.6:
            g = rng.randrange(len(c.groups))
            return c.arr2([[rng.choice(vals) for _ in range(c.groups[g]["size"])] for _ in range(c.nt)], g)
        return c.arr([rng.choice(vals) for _ in range(c.nt)])

    def leaf(self, lo=-8000, hi=20000, unit=500):
        rng = self.rng
        if rng.random() < 0.3:
            return lit(rng.randrange(lo // unit, hi // unit + 1) * unit)
        n = rng.choice([3, 5, 12])
        vals = [rng.randrange(lo // unit, hi // unit + 1) * unit for _ in range(n)]
        return self.series(vals)

    def ileaf(self, hi=3, state=True):
        c, rng = self.c, self.rng
        x = rng.random()
        if x < 0.2:
            return lit(1000 * rng.randint(0, hi))
        if state and x < 0.4:     # an index that depends on the state of the network
            ccs = sorted((rng.randrange(1, 9) * 125 for _ in range(rng.randint(min(1, hi), max(0, min(hi, 3))))), reverse=True)
            return c.par({"k": "cci", "x": {"k": "pvol", "i": self.sto}, "ccs": [lit(v) for v in ccs], "ex": False},
                         {"type": "ControlCurveIndex", "control_curves": [c.mj(lit(v)) for v in ccs], "storage_metric": c.mj({"k": "pvol", "i": self.sto})})
        if c.groups and rng.random() < 0.6:
            g = rng.randrange(len(c.groups))
            return c.arr2([[1000 * rng.randint(0, hi) for _ in range(c.groups[g]["size"])] for _ in range(c.nt)], g, index=True)
        return c.arr([1000 * rng.randint(0, hi) for _ in range(c.nt)], index=True)

    def inp(self, lo=-8000, hi=20000, state=0.3, chain=0.3):
        """An input: (metric, exact)."""
        rng = self.rng
        if rng.random() < state:
            return rng.choice(self.state), False
        ok = [(m, e) for m, e, a, b in self.pool if lo <= a and b <= hi]
        if ok and rng.random() < chain:
            return rng.choice(ok)
        return self.leaf(lo, hi), True

    def p(self, spec, js, rng_=None):
        m = self.c.par(spec, js)
        if rng_:
            self.pool.append((m, spec["ex"], rng_[0], rng_[1]))
        return m

    # ---------------------------------------------------- P19
    def agg(self, fn=None, ph=None, idx=False):
        c, rng = self.c, self.rng
        if idx:
            fn = fn or rng.choice(["Sum", "Product", "Min", "Max", "Any", "All"])
            ms = [self.ileaf() for _ in range(rng.randint(1, 3))]
            return c.par({"k": "agg", "f": fn, "ms": ms, "tz": 0, "ex": True},
                         {"type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": fn}, "metrics": [c.ij(m) for m in ms]})
        fn = fn or rng.choice(["Sum", "Mean", "Min", "Max", "Product", "CountNonZero", "AnyNonZero"])
        ph = ph or rng.choice(["b", "b", "b", "ab", "a"])
        n = rng.randint(1, 4) if fn != "Product" else rng.randint(1, 3)
        xs = [self.inp(-4000, 9000, state=0.15 if fn != "Product" else 0.0) for _ in range(n)]
        ex = all(e for _, e in xs)
        a = {"type": fn}
        tz = 0
        if fn == "AnyNonZero":
            if rng.random() < 0.6:
                tz = rng.choice([500, 2000])
                a["tolerance"] = f(tz)
            if not ex:
                xs = [(self.leaf(-2000, 2000, 500), True) for _ in range(n)]
                ex = True
        ms = [m for m, _ in xs]
        mj = [c.mj(m) for m in ms]
        if fn == "AnyNonZero" and "tolerance" not in a and rng.random() < 0.5:      # not zero, but within the default tolerance
            i = rng.randrange(n)
            ms[i] = lit(0)
            mj[i] = {"type": "Literal", "value": rng.choice([5e-7, -5e-7, 1e-7])}
        r = {"Sum": (-16000, 36000), "Mean": (-4000, 9000), "Min": (-4000, 9000), "Max": (-4000, 9000)}.get(fn, (-10 ** 9, 10 ** 9))
        return self.p({"k": "agg", "f": fn, "ms": ms, "tz": tz, "ex": ex and fn not in ("Mean", "Product"), "ph": ph},
                      {"type": "Aggregated", "phase": {"b": "Before", "a": "After", "ab": "Both"}[ph], "agg_func": a, "metrics": mj},
                      r if ph == "b" else None)

    def division(self, ph=None, un=False):
        c, rng = self.c, self.rng
        x, _ = self.inp(-8000, 20000, state=0.0 if un else 0.3)
        y = self.leaf(0 if un else 500, 4000, 500)
        ph = ph or rng.choice(["b", "b", "ab", "a"])
        return c.par({"k": "div", "x": x, "y": y, "ex": False, "ph": ph, "un": un},
                     {"type": "Division", "phase": {"b": "Before", "a": "After", "ab": "Both"}[ph], "numerator": c.mj(x), "denominator": c.mj(y)})

    def unary(self, k=None):
        c, rng = self.c, self.rng
        k = k or rng.choice(["neg", "max", "min", "nmax", "nmin", "off", "poly"])
        x, ex = self.inp(-8000, 12000)
        v = rng.randrange(-10, 20) * 500
        s = {"k": k, "x": x, "ex": ex and k != "poly", "v": v}
        if k == "neg":
            j = {"type": "Negative", "parameter": c.mj(x)}
        elif k in ("max", "min"):
            if rng.random() < 0.25:
                s["v"] = 0
                j = {"type": k.capitalize(), "parameter": c.mj(x)}
            else:
                j = {"type": k.capitalize(), "parameter": c.mj(x), "threshold": f(v)}
        elif k in ("nmax", "nmin"):
            t = {"nmax": "NegativeMax", "nmin": "NegativeMin"}[k]
            if rng.random() < 0.25:
                s["v"] = 0
                j = {"type": t, "metric": c.mj(x)}
            else:
                j = {"type": t, "metric": c.mj(x), "threshold": f(v)}
        elif k == "off":
            j = {"type": "Offset", "metric": c.mj(x), "offset": {"type": "Literal", "value": f(v)}}
        else:
            cs = [rng.randrange(-8, 9) * 125 for _ in range(rng.randint(1, 4 if x["k"] in ("lit", "arr", "arr2", "par") else 3))]
            sc, of = rng.choice([1000, 500, -250]), rng.choice([0, 1000, -500])
            j = {"type": "Polynomial1D", "metric": c.mj(x), "coefficients": [f(q) for q in cs]}
            if sc != 1000 or rng.random() < .5:
                j["scale"] = f(sc)
            if of or rng.random() < .5:
                j["offset"] = f(of)
            s.update(cs=cs, sc=sc, of=of)
        return self.p(s, j, None if k == "poly" else (-20000, 22000))

    def hydro(self, un=False):
        """A hydropower target: flow for a target before the allocation, power of a flow after it."""
        c, rng = self.c, self.rng
        # efficiency, density, flow unit, energy unit (None: default), kc in 1/1000, divisor
        ef, de, fl, en, kc, ks = rng.choice([(None, None, 1000.0, None, 9810, 1), (0.5, None, 1000.0, None, 4905, 1), (None, 500.0, None, 1e-3, 4905, 1),
                                             (None, None, 100.0, None, 981, 1), (0.75, 2000.0, 200.0, 1e-6, 2943, 1), (0.25, 1000.0, 2.0, 1e-3, 4905, 1),
                                             (None, None, None, None, 9810, 1000), (0.5, None, None, None, 4905, 1000)])
        el = rng.randrange(-4, 25) * 500
        we, ex = NONE, True
        if rng.random() < 0.75:
            if rng.random() < 0.35 and not un:
                we, ex = {"k": "vol", "i": self.sto}, False
            else:
                we = self.leaf(-4000, 30000)
        mh = rng.choice([None, 0, 2000, 5000])
        h = {"we": we, "el": el, "mh": mh or 0, "kc": kc, "ks": ks, "ex": ex}
        j = {"type": "HydropowerTarget"}
        for k, v in (("turbine_elevation", None if el == 0 else f(el)), ("water_elevation", None if we is NONE else c.mj(we)), ("min_head", None if mh is None else f(mh)),
                     ("efficiency", ef), ("water_density", de), ("flow_unit_conversion", fl), ("energy_unit_conversion", en)):
            if v is not None:
                j[k] = v
        ph = rng.choice(["b", "b", "ab", "ab", "a"]) if not un else "b"
        if ph != "a":
            tg = self.leaf(-2000 if un else 0, 40000 if ks == 1 else 1500, 500 if ks == 1 else 50)
            hi = self.leaf(0, 9000) if rng.random() < .5 else NONE
            lo = self.leaf(-1000 if un else 0, 3000) if rng.random() < .4 else NONE
            j["target"] = c.mj(tg)
            if hi is not NONE:
                j["max_flow"] = c.mj(hi)
            if lo is not NONE:
                j["min_flow"] = c.mj(lo)
            c.par(dict(h, k="hydt", x=tg, hi=hi, lo=lo, un=un), j)
        if ph != "b":
            x = rng.choice(self.state[1:4]) if rng.random() < 0.7 else self.leaf(0, 20000)
            j["actual_flow"] = c.mj(x)
            s = dict(h, k="hydp", x=x, ph="a")
            if ph == "a":
                c.par(s, j)
            else:
                c.par(dict(s, name=j["meta"]["name"]))

    def diff(self):
        c, rng = self.c, self.rng
        (x, e1), (y, e2) = self.inp(), self.inp()
        lo = self.leaf(-3000, 0) if rng.random() < .5 else NONE
        hi = self.leaf(0, 3000) if rng.random() < .5 else NONE
        m = c.par({"k": "diff", "x": x, "y": y, "lo": lo, "hi": hi, "ex": e1 and e2})
        d = {"kind": "difference", "name": c.pars[-1]["name"], "a": c.dm(x), "b": c.dm(y)}
        if lo is not NONE:
            d["min"] = c.dm(lo)
        if hi is not NONE:
            d["max"] = c.dm(hi)
        c.core_params.append(d)
        return m

    def table(self, un=False):
        c, rng = self.c, self.rng
        x, ex = self.inp(-2000, 14000, state=0.0 if un else 0.3)
        n = rng.randint(2, 5)
        xs = sorted(rng.sample(range(-2, 13), n))
        xp = [lit(1000 * v) for v in xs]
        if rng.random() < .3:
            k = rng.randrange(n)
            xp[k] = c.arr([1000 * xs[k]] * c.nt)
        fp = [self.leaf(-5000, 20000) if rng.random() < .3 else lit(rng.randrange(-10, 40) * 500) for _ in range(n)]
        if un and rng.random() < .3:
            xp[rng.randrange(n)] = self.leaf(-2000, 14000, 1000)
        j = {"type": "Interpolated", "x": c.mj(x), "xp": [c.mj(m) for m in xp], "fp": [c.mj(m) for m in fp]}
        if un:
            err = True
            if rng.random() < .5:
                j["error_on_bounds"] = True
        else:
            err = False
            j["error_on_bounds"] = False
        return c.par({"k": "table", "x": x, "xp": xp, "fp": fp, "err": err, "ex": ex, "un": un}, j)

    def pick(self, un=False):
        c, rng = self.c, self.rng
        n = rng.randint(1, 4)
        ms = [self.inp(state=0.0 if un else 0.2)[0] for _ in range(n)]
        x = self.ileaf(n if un else n - 1, not un)
        return c.par({"k": "pick", "x": x, "ms": ms, "ex": True, "un": un},
                     {"type": "IndexedArray", "index_parameter": c.ij(x), "metrics": [c.mj(m) for m in ms]})

    def consts(self):
        c, rng = self.c, self.rng
        v = rng.randrange(-20, 40) * 125
        k = rng.random()
        if k < 0.3 and c.groups:
            g = rng.randrange(len(c.groups))
            vs = [rng.randrange(-20, 40) * 125 for _ in range(c.groups[g]["size"])]
            return self.p({"k": "cscen", "v": vs, "g": g + 1, "ex": True},
                          {"type": "ConstantScenario", "values": {"type": "Literal", "values": [f(q) for q in vs]}, "scenario_group": c.groups[g]["name"]}, (-2500, 5000))
        if k < 0.5:
            y = c.start.year - rng.choice([-4, 0, 1, 5, 8])
            r = self.leaf(0, 500, 125)
            return c.par({"k": "disc", "x": r, "base": y, "ex": False}, {"type": "DiscountFactor", "discount_rate": c.mj(r), "base_year": y})
        if k < 0.65:
            vs = [rng.randrange(-20, 40) * 125 for _ in range(c.nt + rng.choice([0, 1]))]
            m = c.par({"k": "strict", "v": vs, "ex": True})
            c.core_params.append({"kind": "vector", "name": c.pars[-1]["name"], "values": vs})
            return m
        return self.p({"k": "const", "v": v, "ex": True}, {"type": "Constant", "value": {"type": "Literal", "value": f(v)}}, (-2500, 5000))

    # ---------------------------------------------------- P15
    def delay(self, idx=False):
        c, rng = self.c, self.rng
        n = rng.choice([1, 1, 2, 3, c.nt - 1, c.nt + 2])
        if idx:
            x, v = self.ileaf(), 1000 * rng.randint(0, 5)
            return c.par({"k": "delay", "x": x, "n": n, "v": v, "ex": True},
                         {"type": "DelayIndex", "metric": c.ij(x), "delay": n, "initial_value": v // 1000})
        x, ex = self.inp(state=0.4)
        v = rng.randrange(-10, 20) * 500
        return self.p({"k": "delay", "x": x, "n": n, "v": v, "ex": ex},
                      {"type": "Delay", "metric": c.mj(x), "delay": n, "initial_value": f(v)}, (-20000, 20000) if x["k"] in ("arr", "arr2", "lit") else None)

    def rolling(self, idx=False):
        c, rng = self.c, self.rng
        n = rng.choice([1, 2, 3, 4, c.nt - 1])
        mn = rng.choice([None, None, 1, max(1, n - 1), n])
        if idx:
            fn = rng.choice(["Sum", "Min", "Max", "Any", "All", "Product"])
            x, v = self.ileaf(), 1000 * rng.randint(0, 5)
            j = {"type": "RollingIndex", "metric": c.ij(x), "window_size": n, "initial_value": v // 1000, "agg_func": {"type": fn}}
            ex = True
        else:
            fn = rng.choice(["Sum", "Mean", "Min", "Max", "CountNonZero"])
            x, ex = self.inp(state=0.4)
            v = rng.randrange(-10, 20) * 500
            j = {"type": "Rolling", "metric": c.mj(x), "window_size": n, "initial_value": f(v), "agg_func": {"type": fn}}
        if mn is not None:
            j["min_values"] = mn
        return c.par({"k": "roll", "x": x, "n": n, "mn": n if mn is None else mn, "v": v, "f": fn, "tz": 0, "ex": ex}, j)

    # ---------------------------------------------------- P16
    def threshold(self, x=None, y=None, pred=None, ratchet=None):
        c, rng = self.c, self.rng
        ex = True
        if x is None and y is None and rng.random() < .25:     # values near the threshold
            b = rng.randrange(-3, 12) * 500
            x, y = self.series([b + rng.choice([0, 0, 1, -1, 2, 8, -50, 100]) for _ in range(rng.choice([3, 5]))]), lit(b)
            pred = pred or rng.choice(["EQ", "EQ", "LT", "GT", "LE", "GE"])
        if x is None:
            x, ex = self.inp(state=0.3)
        y = y or (self.leaf(-3000, 12000) if ex else lit(rng.randrange(0, 30) * 500))
        pred = pred or rng.choice(["LT", "GT", "EQ", "LE", "GE"])
        ratchet = rng.random() < .5 if ratchet is None else ratchet
        j = {"type": "Threshold", "metric": c.mj(x), "threshold": c.mj(y), "predicate": self.spell(pred)}
        if ratchet or rng.random() < .5:
            j["ratchet"] = ratchet
        s = {"k": "thr", "x": x, "y": y, "pred": pred, "ratchet": ratchet, "ex": ex}
        if rng.random() < .35:
            return self.returned(s, j, 2)
        return c.par(s, j)

    def spell(self, p):
        return self.rng.choice([p, {"LT": "<", "GT": ">", "EQ": "==", "LE": "<=", "GE": ">="}[p]])

    def returned(self, s, j, n):
        """A threshold that returns one of several metrics: a hidden index and a choice."""
        c = self.c
        ms = [self.leaf() for _ in range(n)]
        j["returned_metrics"] = [c.mj(m) for m in ms]
        name = "p%d" % (len(c.pars) + 2)
        hid = {"name": [None, None, name, None, "threshold"]}
        c.pars.append(dict({"ph": "b", "un": False}, **s, **hid))
        h = {"k": "par", "i": len(c.pars)}
        return c.par({"k": "pick", "x": h, "ms": ms, "ex": True, "name": name}, j)

    def multi_threshold(self):
        c, rng = self.c, self.rng
        near = rng.random() < .2
        if near:
            b = rng.randrange(-3, 12) * 500
            x, ex = self.series([b + rng.choice([0, 0, 1, -1, 2, 8, -50, 100]) for _ in range(rng.choice([3, 5]))]), True
        else:
            x, ex = self.inp(state=0.3)
        n = rng.randint(1, 3)
        ms = [lit(b + rng.choice([0, 0, 1, -2, 50])) if near else self.leaf(-3000, 12000) if rng.random() < .4 and ex else lit(rng.randrange(-4, 30) * 500) for _ in range(n)]
        pred = rng.choice(["LT", "GT", "EQ", "LE", "GE"])
        ratchet = rng.random() < .5
        j = {"type": "MultiThreshold", "metric": c.mj(x), "thresholds": [c.mj(m) for m in ms], "predicate": self.spell(pred)}
        if ratchet or rng.random() < .5:
            j["ratchet"] = ratchet
        s = {"k": "mthr", "x": x, "ms": ms, "pred": pred, "ratchet": ratchet, "ex": ex}
        if rng.random() < .35:
            return self.returned(s, j, n + 1)
        return c.par(s, j)

    def switch(self, x=None, y=None):
        c = self.c
        x = x or self.ileaf(2)
        y = y or self.ileaf(2)
        return c.par({"k": "switch", "x": x, "y": y, "ex": True},
                     {"type": "AsymmetricSwitchIndex", "on_index_parameter": c.ij(x), "off_index_parameter": c.ij(y)})

    # ---------------------------------------------------- P17
    def curves(self, kind=None, un=False):
        c, rng = self.c, self.rng
        n = rng.choice([0, 1, 1, 2, 3])
        if un or rng.random() < .6:
            x, ex = self.leaf(-250, 1250, 125), True
        else:
            x, ex = {"k": "pvol", "i": self.sto}, False
        ccs = []
        for _ in range(n):
            ccs.append(self.leaf(0, 1000, 125) if rng.random() < .4 and ex else lit(rng.randrange(0, 9) * 125))
        if rng.random() < .7:      # ordered, as is usual
            top = sorted((rng.randrange(0, 9) * 125 for _ in range(n)), reverse=True)
            ccs = [lit(v) for v in top]
        kind = kind or rng.choice(["cc", "cci", "ccint", "ccpw"])
        xj = c.mj(x)
        base = {"control_curves": [c.mj(m) for m in ccs], "storage_metric": xj}
        s = {"k": kind, "x": x, "ccs": ccs, "ex": ex, "un": un}
        short = rng.choice([1, 2]) if un else 0
        if kind == "cci":
            return c.par(s, dict(base, type="ControlCurveIndex"))
        if kind == "cc":
            vs = [self.leaf() if rng.random() < .4 else lit(rng.randrange(-10, 40) * 500) for _ in range(max(0, n + 1 - short))]
            if not vs and not un:
                vs = [lit(500)]
            return c.par(dict(s, vs=vs), dict(base, type="ControlCurve", values=[c.mj(m) for m in vs]))
        if kind == "ccint":
            vs = [self.leaf() if rng.random() < .4 else lit(rng.randrange(-10, 40) * 500) for _ in range(max(0, n + 2 - short))]
            return c.par(dict(s, vs=vs), dict(base, type="ControlCurveInterpolated", values=[c.mj(m) for m in vs]))
        pairs = [[rng.randrange(-10, 40) * 500, rng.randrange(-10, 40) * 500] for _ in range(max(0, n + 1 - short))]
        lo, hi = 0, 1000
        j = dict(base, type="ControlCurvePiecewiseInterpolated", values=[[f(a), f(b)] for a, b in pairs])
        if rng.random() < .4:
            lo, hi = rng.choice([-250, 0, 125]), rng.choice([1000, 1250, 2000])
            j["minimum"], j["maximum"] = f(lo), f(hi)
        return c.par(dict(s, pairs=pairs, lo=lo, hi=hi), j)

    def apportion(self):
        c, rng = self.c, self.rng
        x, ex = self.inp(0, 20000)
        while x["k"] == "edge":
            x, ex = self.inp(0, 20000)
        y = self.leaf(-250, 1250, 125)
        name = "app%d" % len(c.pars)
        c.core_params.append({"kind": "apportion", "name": name, "metric": c.dm(x), "curve": c.dm(y)})
        for part in ("upper", "lower"):
            c.par({"k": "app", "x": x, "y": y, "part": part, "ex": ex, "name": [None, None, name, part]})

    def between(self):
        c, rng = self.c, self.rng
        t = self.leaf(0, 200000, 500)
        lo = self.leaf(0, 1000, 125) if rng.random() < .7 else NONE
        hi = self.leaf(0, 1000, 125) if rng.random() < .7 else NONE
        m = c.par({"k": "between", "x": t, "lo": lo, "hi": hi, "ex": True})
        d = {"kind": "volume_between", "name": c.pars[-1]["name"], "total": c.dm(t)}
        if lo is not NONE:
            d["lower"] = c.dm(lo)
        if hi is not NONE:
            d["upper"] = c.dm(hi)
        c.core_params.append(d)
        return m

    # ---------------------------------------------------- P18
    def profile(self, kind=None):
        c, rng = self.c, self.rng
        v = lambda n: [rng.randrange(-40, 80) * 125 for _ in range(n)]
        L = lambda vs: {"type": "Literal", "values": [f(q) for q in vs]}
        kind = kind or rng.choice(["daily", "monthly", "weekly", "diurnal", "drawdown", "rbf"])
        if kind == "daily":
            vs = v(rng.choice([366, 366, 365]))
            return c.par({"k": "daily", "v": vs, "ex": True}, {"type": "DailyProfile", "values": L(vs)})
        if kind == "diurnal":
            vs = v(24)
            return c.par({"k": "diurnal", "v": vs, "ex": True}, {"type": "DiurnalProfile", "values": L(vs)})
        if kind in ("monthly", "weekly"):
            vs = v(12 if kind == "monthly" else rng.choice([52, 53]))
            ip = rng.choice(["none", "First", "Last"])
            j = {"type": kind.capitalize() + "Profile", "values": L(vs)}
            if ip != "none":
                j["interp_day"] = ip
            return c.par({"k": kind, "v": vs, "ip": ip, "ex": True}, j)
        if kind == "drawdown":
            mo = rng.choice([1, 2, 3, 4, 7, 10, 12])
            d = rng.choice([1, 1, 15, 28, 29])
            res = rng.choice([0, 0, 30, 200, 300, 365, 366])
            j = {"type": "UniformDrawdownProfile"}
            if res or rng.random() < .5:
                j["residual_days"] = {"type": "Literal", "value": res}
            if mo != 1 or rng.random() < .5:
                j["reset_month"] = {"type": "Literal", "value": mo}
            else:
                mo = 1
            if d != 1 or rng.random() < .5:
                j["reset_day"] = {"type": "Literal", "value": d}
            return c.par({"k": "drawdown", "d": d, "mo": mo, "res": res, "ex": True}, j)
        xs = sorted(rng.sample(range(0, 365), rng.choice([1, 2, 3, 5])))
        if rng.random() < .6:      # on days of the run
            import datetime as dt
            days = [(lambda q: q.timetuple().tm_yday - 1 - (1 if q.month > 2 and q.year % 4 == 0 and (q.year % 100 or q.year % 400 == 0) else 0))(c.at(k)) for k in range(c.nt)]
            xs = sorted(set(min(364, x) for x in xs[:2] + rng.sample(days, min(2, len(days)))))
        vs = v(len(xs))
        fn = rng.choice(["Linear", "Linear", "Cubic", "ThinPlateSpline", "MultiQuadric"])
        fj = {"type": fn}
        if fn == "MultiQuadric":
            fj["epsilon"] = 0.125
        return c.par({"k": "rbf", "xs": xs, "v": vs, "fn": fn, "ex": True}, {"type": "RbfProfile", "points": [[x, f(q)] for x, q in zip(xs, vs)], "function": fj})


def cases(pid, rng, n):
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        cid = "%s-%d" % (pid, k)
        g = PGen(r, cid, cal=pid == "P18")
        if pid == "P15":
            for _ in range(4):
                r.choice([g.delay, g.delay, g.rolling, g.rolling, lambda: g.delay(True), lambda: g.rolling(True)])()
            if r.random() < .5:
                g.unary()
                g.delay()
        elif pid == "P16":
            for _ in range(5):
                r.choice([g.threshold, g.threshold, g.multi_threshold, g.switch])()
        elif pid == "P17":
            for _ in range(5):
                r.choice([g.curves, g.curves, g.curves, g.apportion, g.between])()
        elif pid == "P18":
            for _ in range(4):
                g.profile()
        elif pid == "P19":
            for _ in range(8):
                r.choice([g.agg, g.agg, g.division, g.unary, g.unary, g.diff, g.table, g.pick, g.consts, g.hydro, lambda: g.agg(idx=True)])()
        out.append(g.c)
    # undefined operations: one parameter that may stop the run
    if pid in ("P17", "P19"):
        for k in range(n // 4):
            r = random.Random(rng.random())
            g = PGen(r, "%s-u%d" % (pid, k), scen=0.3)
            if pid == "P17":
                g.curves(r.choice(["cc", "ccint", "ccpw"]), un=True)
            else:
                r.choice([lambda: g.division("b", un=True), lambda: g.table(un=True), lambda: g.pick(un=True), lambda: g.hydro(un=True)])()
            out.append(g.c)
    return out
