"""Runs over whole years in single days: every position of the calendar (P18 profiles, P09 resets)."""
import calendar
import random

from sim import Case, f, lit
from vplib import seed, tier

L = lambda vs: {"type": "Literal", "values": [f(q) for q in vs]}
DATES = [(m, d) for m in range(1, 13) for d in ((1, 28, 29) if m == 2 else (1, 15, calendar.monthrange(2015, m)[1]))]


def net(c, use=None):
    a = c.node("in")
    b = c.node("out", mx=use or lit(1000), cost=lit(-1000))
    c.edge(a, b)
    return b


def profiles(cid, start, nt, dates, days=1, hours=None):
    rng = random.Random("%s/%d" % (cid, seed()))
    c = Case(cid, start, nt, days=days, hours=hours)
    net(c)
    v = lambda n: [rng.randrange(-40, 80) * 125 for _ in range(n)]
    for n in (365, 366):
        vs = v(n)
        c.par({"k": "daily", "v": vs, "ex": True}, {"type": "DailyProfile", "values": L(vs)})
    for kind, n in (("monthly", 12), ("weekly", 52), ("weekly", 53)):
        for ip in ("none", "First", "Last"):
            vs = v(n)
            j = {"type": kind.capitalize() + "Profile", "values": L(vs)}
            if ip != "none":
                j["interp_day"] = ip
            c.par({"k": kind, "v": vs, "ip": ip, "ex": True}, j)
    vs = v(24)
    c.par({"k": "diurnal", "v": vs, "ex": True}, {"type": "DiurnalProfile", "values": L(vs)})
    for xs in ([0, 364], [58, 59], [30, 180, 300], [10]):
        vs = v(len(xs))
        c.par({"k": "rbf", "xs": xs, "v": vs, "fn": "Linear", "ex": True}, {"type": "RbfProfile", "points": [[x, f(q)] for x, q in zip(xs, vs)], "function": {"type": "Linear"}})
    for m, d in dates:
        res = rng.choice([0, 30, 200, 300, 365])
        c.par({"k": "drawdown", "d": d, "mo": m, "res": res, "ex": True},
              {"type": "UniformDrawdownProfile", "residual_days": {"type": "Literal", "value": res}, "reset_month": {"type": "Literal", "value": m}, "reset_day": {"type": "Literal", "value": d}})
    return c


def licences(cid, start, nt, dates, acts, days=1):
    rng = random.Random("%s/%d" % (cid, seed()))
    c = Case(cid, start, nt, days=days)
    o = net(c, c.arr([rng.choice([0, 1000, 2000, 2500]) for _ in range(nt)]))
    k = dict(maxv=lit(9000000), iv=("prop", 500), binding=False)
    for m, d in dates:
        c.vs([o], reset={"k": "doy", "d": d, "m": m}, rv=rng.choice([None, "initial", "max"]), **k)
    for n in list(range(1, 14)) + [18, 24]:
        c.vs([o], reset={"k": "months", "n": n}, rv=rng.choice([None, "initial", "max"]), **k)
    for (m1, d1), (m2, d2) in acts:
        c.vs([o], reset={"k": "doy", "d": d1, "m": m1}, act=(d1, m1, d2, m2), **k)
    for w in (1, 2, 7, 30):
        for r in ({"k": "never"}, {"k": "months", "n": 1}, {"k": "doy", "d": 1, "m": 3}):
            c.vs([o], win=("steps", w), reset=r, **k)
    return c


def cases(pid):
    rng = random.Random("full %s/%d" % (pid, seed()))
    quick = tier() == "quick"
    if pid == "P18":
        if quick:
            ds = rng.sample(DATES, 12)
            return [profiles("year-a", (2015, 12, 1), 480, ds), profiles("year-b", (2018, 12, 20), 380, ds, hours=None),
                    profiles("year-c", (2015, 12, 27), 56, ds, hours=6), profiles("year-d", (2016, 2, 25), 40, ds, hours=6), profiles("year-e", (2019, 2, 26), 30, ds, hours=6)]
        out = [profiles("year-%d" % y, (y, 1, 1), 366 + 365 + 60, DATES) for y in (1899, 1900, 1999, 2000, 2015, 2016, 2017, 2018, 2099, 2100)]
        return out + [profiles("hours-%d" % y, (y, 1, 1), 366 * 8, rng.sample(DATES, 6), hours=3) for y in (2015, 2016)]
    if quick:
        return [licences("year-w", (2015, 12, 3), 70, rng.sample(DATES, 14), [rng.sample(DATES, 2) for _ in range(6)], days=7),
                licences("year-a", (2015, 12, 1), 480, rng.sample(DATES, 14), [rng.sample(DATES, 2) for _ in range(14)]),
                licences("year-b", (2018, 11, 20), 420, rng.sample(DATES, 14), [rng.sample(DATES, 2) for _ in range(14)])]
    return [licences("year-%d" % y, (y, 1, 1), 366 + 365 + 60, DATES, [rng.sample(DATES, 2) for _ in range(60)]) for y in (1899, 1999, 2015, 2016, 2018, 2099)] + \
        [licences("year-%d-%d" % (y, d), (y, 1, 1), 1500 // d, DATES, [rng.sample(DATES, 2) for _ in range(40)], days=d) for y in (2015, 2016) for d in (2, 7)]
