"""Shared machinery of the checks: building the driver, running it, running TLC, reporting."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TARGET = os.path.join(ROOT, "target")
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(ROOT, "replay")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
INF, NAN, S = 2000000001, 2000000002, 1000


class ToolError(Exception):
    pass


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# ---------------------------------------------------------------- build
def source_hash():
    h = hashlib.sha256()
    for base in ("pywr-core", "pywr-schema", "pywr-schema-macros", "ipm-common", "ipm-simd", "ipm-ocl"):
        top = os.path.join(REPO, base)
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".cl", ".json")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """Build the driver from /repo's current tree; returns the path of the binary."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".vp.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = os.path.join(TARGET, ".vp.srchash")
        now = source_hash()
        old = open(mark).read() if os.path.exists(mark) else ""
        exe = os.path.join(TARGET, "debug", "driver")
        if old != now:
            # cargo trusts modification times: forget what was built from other sources
            fp = os.path.join(TARGET, "debug", ".fingerprint")
            if old and os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("pywr-", "ipm-")):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            if os.path.exists(mark):
                os.remove(mark)
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
        cmd = ". /opt/vp/env.sh 2>/dev/null; export CARGO_TARGET_DIR=%s CARGO_PROFILE_DEV_DEBUG=0; cd %s/driver && cargo build --offline" % (TARGET, ROOT)
        for attempt in range(2):
            r = subprocess.run(["bash", "-c", cmd], env=dict(env), capture_output=True, text=True)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            raise ToolError("driver build failed:\n" + r.stderr[-3000:])
        with open(mark, "w") as f:
            f.write(now)
        return exe


# ---------------------------------------------------------------- driver
def run_driver(cases, work, name="cases", timeout=600):
    """Run cases through the real code; returns {id: trace}."""
    exe = build()
    cin, cout = os.path.join(work, name + ".ndjson"), os.path.join(work, name + ".traces.ndjson")
    with open(cin, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    env = dict(os.environ)
    env.setdefault("DRIVER_THREADS", "7")
    env.setdefault("DRIVER_LIMIT", "60" if tier() == "quick" else "300")

    def run(cs, t):
        with open(cin, "w") as f:
            for c in cs:
                f.write(json.dumps(c) + "\n")
        if os.path.exists(cout):
            os.remove(cout)
        try:
            rc = subprocess.run([exe, cin, cout], capture_output=True, text=True, timeout=t, env=env, cwd=work).returncode
        except subprocess.TimeoutExpired:
            rc = -9
        res = {}
        if os.path.exists(cout):
            with open(cout) as f:
                for line in f:
                    if line.endswith("\n"):
                        d = json.loads(line)
                        res[d["id"]] = d
            os.remove(cout)
        return rc, res

    out, left, rounds = {}, list(cases), 0
    dead = lambda c, why: {"id": c["id"], "status": "crash", "error": why, "runs": []}
    while left:
        rc, res = run(left, timeout)
        out.update(res)
        left = [c for c in left if c["id"] not in out]
        if rc == 0 or not left:
            break
        rounds += 1
        if rc != 3:
            # the process died (stack overflow, abort): it was at work on one of the first cases that are left
            for c in left[:int(env["DRIVER_THREADS"])]:
                rc, res = run([c], 120)
                out[c["id"]] = res[c["id"]] if c["id"] in res else dead(c, "the process died")
            left = [c for c in left if c["id"] not in out]
        if rounds >= (4 if rc == 3 else 30):
            out.update((c["id"], dead(c, "not run: too many cases before it did not come to an end")) for c in left)
            break
    for c in cases:
        if c["id"] not in out:
            raise ToolError("no result of case %s" % c["id"])
    return out


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.rejects = []  # (property, dict)
        self.states = 0
        self.distinct = 0
        self.prints = []
        self.error = None
        self.wall = 0.0


REJ = re.compile(r'^"?REJECT (\S+) (.*?)"?$')


def _tlc(module, cfg, env, work, workers, timeout, extra):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx3g", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + extra + [module + ".tla"]
    e = dict(os.environ)
    e.update(env)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.wall = time.time() - t0
    res.out = r.stdout
    for line in r.stdout.splitlines():
        m = REJ.match(line)
        if m:
            try:
                d = json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))
            except ValueError:
                d = {"text": m.group(2)}
            res.rejects.append((m.group(1), d))
        elif line.startswith('"') or line.startswith("<<"):
            res.prints.append(line)
        m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
        if m:
            res.states, res.distinct = int(m.group(1)), int(m.group(2))
    if r.returncode != 0:
        res.error = (r.returncode, r.stdout[r.stdout.find('Error:'):][:6000] + r.stderr[-500:])
    return res


def tlc(module, cfg=None, env=None, work=None, workers=1, timeout=800, extra=()):
    """One TLC run; an error of the run (not a rejection) raises ToolError."""
    r = _tlc(module, cfg or module + ".cfg", env or {}, work or WORK, workers, timeout, list(extra))
    if r.error:
        raise ToolError("TLC on %s exited %s:\n%s" % (module, r.error[0], r.error[1]))
    return r


def tlc_cases(module, cases, work, chunks=6, cfg=None, weight=None, timeout=800):
    """Validate cases in parallel TLC processes. Returns merged result."""
    if not cases:
        raise ToolError("no cases for " + module)
    weight = weight or (lambda c: 1)
    chunks = max(1, min(chunks, len(cases)))
    bins = [[0, []] for _ in range(chunks)]
    for c in sorted(cases, key=lambda c: -weight(c)):
        b = min(bins, key=lambda b: b[0])
        b[0] += weight(c)
        b[1].append(c)
    merged = TlcResult()

    def one(i):
        p = os.path.join(work, "%s.%d.json" % (module, i))
        with open(p, "w") as f:
            json.dump(bins[i][1], f)
        try:
            return tlc(module, cfg, {"CASES": p}, work, 1, timeout)
        finally:
            os.remove(p)

    with cf.ThreadPoolExecutor(chunks) as ex:
        for r in ex.map(one, range(chunks)):
            merged.rejects += r.rejects
            merged.states += r.states
            merged.distinct += r.distinct
            merged.prints += r.prints
            merged.wall = max(merged.wall, r.wall)
    return merged


# ---------------------------------------------------------------- known findings
def known_findings():
    """Lines `KNOWN property=<id> key=<text>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^KNOWN property=(\S+) key=(\S+)\s*(.*)$", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------- a check
class Check:
    """Collects what a check explored and decides its verdict."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rejects = []
        self.others = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = []
        self.cases = {}
        self.counts = {}
        os.makedirs(WORK, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + ".", dir=WORK)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    any = False     # rejections of every property count

    def add(self, res):
        """Take the rejections of a TLC run that concern this property."""
        self.states += res.distinct
        self.transitions += res.states
        for p, d in res.rejects:
            if str(d.get("what", "")).startswith("known:"):
                d["known"] = d["what"][6:]
            if self.any or p in (self.pid, "RUN"):
                self.rejects.append(d)
            else:
                self.others += 1

    def reject(self, d):
        self.rejects.append(d)

    def finish(self, level="model_checking"):
        known = known_findings().get(self.pid, {})
        fresh = []
        seen = {}
        for d in self.rejects:
            k = d.get("known")
            if k and k in known:
                seen[k] = d
            else:
                fresh.append(d)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, known[k]))
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": tier(), "seed": seed(), "level": level, "wall_s": round(wall, 2),
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "samples": self.samples[:3],
                "counts": self.counts, "rejections_of_this_property": len(self.rejects),
                "rejections_tagged_with_other_properties": self.others, "notes": self.notes,
            },
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if fresh:
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, self.pid + ".json")
            d = fresh[0]
            cid = d.get("case")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "rejections": fresh[:50], "case": self.cases.get(cid)}, f, indent=1, default=str)
            for x in fresh[:int(os.environ.get("SHOW", "10"))]:
                print("rejected: " + json.dumps(x, default=str)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        else:
            print("OK property=%s states=%d traces=%d wall=%.1fs %s" % (self.pid, self.states, self.traces, wall, json.dumps(self.counts)))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc
