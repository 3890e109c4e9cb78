"""A development tool (no check uses it): small random changes of the code, and which checks see them.
mutate.py WORKER SEED COUNT [FILE-REGEX]: copies under /tmp/mut/wWORKER, results appended to /tmp/mut/results.jsonl."""
import fcntl
import json
import os
import random
import re
import subprocess
import sys

CHECKS = [
    (r"pywr-core/src/solvers", "P07 P04 P03 P01 P06 P05 P02 P08"),
    (r"core/src/aggregated_node", "P04 P05 P26 P08 P06 P30"),
    (r"core/src/aggregated_storage", "P29 P26 P13"),
    (r"core/src/virtual_storage", "P08 P09 P06 P30 P26"),
    (r"core/src/(node|edge)\.rs", "P02 P03 P01 P29 P26 P06 P30 P34"),
    (r"core/src/network", "P26 P13 P25 P11 P24 P29 P19 P07"),
    (r"core/src/state", "P02 P29 P11 P08 P24 P01 P09 P27"),
    (r"core/src/timestep", "P12 P20 P31 P10"),
    (r"core/src/scenario", "P10 P11 P23"),
    (r"core/src/recorders", "P20 P21 P22 P23 P36 P33"),
    (r"core/src/agg_funcs", "P19 P23 P20 P06"),
    (r"core/src/metric|derived_metric", "P29 P13 P24 P34 P19 P27 P26"),
    (r"core/src/models/multi", "P24 P11 P25 P34"),
    (r"core/src/models/simple", "P11 P25 P07 P27"),
    (r"core/src/parameters/(delay|muskingum)", "P14 P28 P13"),
    (r"core/src/parameters/rolling", "P15 P13"),
    (r"core/src/parameters/(threshold|multi_thr|asymm)", "P16 P13"),
    (r"core/src/parameters/(control|interp|indexed)", "P17 P13 P19"),
    (r"core/src/parameters/profiles", "P18 P27 P34"),
    (r"core/src/parameters", "P19 P27 P13 P17 P16 P14 P31 P30"),
    (r"schema/src/nodes/virtual", "P08 P09 P04 P05 P34 P30 P33"),
    (r"schema/src/nodes", "P30 P28 P34 P35 P37 P36 P33 P03 P02"),
    (r"schema/src/parameters/profiles", "P18 P27 P34 P33"),
    (r"schema/src/parameters/(control|interp|indexed)", "P17 P34 P33 P19"),
    (r"schema/src/parameters/(thresh|asym)", "P16 P34 P33"),
    (r"schema/src/parameters/(delay|rolling)", "P14 P15 P34 P33"),
    (r"schema/src/parameters", "P19 P34 P35 P32 P33 P13 P27 P17 P16"),
    (r"schema/src/data_tables|schema/src/digest", "P32 P34 P33"),
    (r"schema/src/timeseries", "P31 P34 P33"),
    (r"schema/src/(outputs|metric_sets|agg_funcs)", "P21 P23 P36 P22 P20 P34 P33"),
    (r"schema/src/model", "P10 P12 P24 P35 P33 P34 P11"),
    (r"core/src/models", "P25 P11 P24 P07"),
    (r".", "P34 P37 P33 P35 P26 P29 P24 P31 P13 P30"),
]
SKIP = re.compile(r"(/py\.rs|py_utils|python|pandas|hdf|cbc|clp|ipm_ocl|test_utils|/error\.rs|errors\.rs|mermaid|/v1\.rs|visit\.rs|settings\.rs|placeholder|lib\.rs|/tests/|ipm-)")

OPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" \+= ", [" = ", " -= "]), (r" -= ", [" += "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b0\b(?!\.)", ["1"]),
    (r"\bif (?!let)([^{]*) \{$", ["if false && (\\1) {", "if true || (\\1) {", "if !(\\1) {"]),
    (r"unwrap_or\(([^()]+)\)", ["unwrap_or_default()"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".len() == 1"]),
    (r"\bSome\(([^()]+)\)$", ["None"]), (r"f64::MAX|f64::INFINITY", ["0.0"]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().rev()", ".iter().take(1)"]),
    (r"\.abs\(\)", [""]), (r"lower", ["upper"]), (r"upper", ["lower"]), (r"inflow", ["outflow"]), (r"outflow", ["inflow"]), (r"\bmin_", ["max_"]), (r"\bmax_", ["min_"]),
    (r"Inflow", ["Outflow"]), (r"Outflow", ["Inflow"]), (r"from_node", ["to_node"]), (r"before", ["after"]), (r"\bstart\b", ["end"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"^(\s+)([a-z_\.\[\]]+(\.[a-z_]+\(.*\)|\s[-+]?=\s.*)\??;)$", ["\\1"]),
    (r"\.enumerate\(\)", [".enumerate().skip(1)"]), (r"row_size|columns?", []), (r"saturating_sub\((\w+)\)", ["saturating_sub(0)"]), (r"return Err\(", []),
]


def candidates(rx):
    out = []
    for top in ("pywr-core/src", "pywr-schema/src"):
        for d, _, fs in os.walk("/repo/" + top):
            for f in fs:
                p = os.path.join(d, f)[len("/repo/"):]
                if not f.endswith(".rs") or SKIP.search(p) or rx and not re.search(rx, p):
                    continue
                v1 = 0
                for i, l in enumerate(open("/repo/" + p)):
                    if "#[cfg(test)]" in l and l.startswith("#"):
                        break
                    if re.match(r"(impl )?.*(TryFromV1|TryIntoV2|FromV1)", l) and l.startswith("impl"):
                        v1 = 1
                    elif v1 and l.startswith("}"):
                        v1 = 0
                    s = l.strip()
                    if v1 or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "#![", "#[error", "assert", "debug", "info", "tracing", "format!", "panic!", "\"")) or "#[error" in s or "Error" in s:
                        continue
                    for j, (a, bs) in enumerate(OPS):
                        for m in re.finditer(a, l.rstrip("\n")):
                            for b in bs:
                                out.append((p, i, j, m.start(), m.end(), m.expand(b)))
    return out


def sh(cmd, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def record(d):
    with open("/tmp/mut/results.jsonl", "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(d) + "\n")


def one(c, base):
    p, i, j, a, b, t = c
    lines = open("/repo/" + p).read().split("\n")
    old = lines[i]
    lines[i] = old[:a] + t + old[b:]
    d = {"file": p, "line": i + 1, "old": old.strip(), "new": lines[i].strip()}
    if lines[i].strip() == old.strip():
        return
    with open("/repo/" + p, "w") as f:
        f.write("\n".join(lines))
    try:
        rc, o = sh("bash /verif/setup.sh")
        if rc:
            d["r"] = "build"
            return d
        by = next(k for r, k in CHECKS if re.search(r, p)).split()
        for k in by:
            rc, o = sh("bash /verif/check.sh %s quick" % k)
            if rc:
                d["r"], d["by"] = "caught", k
                if "VIOLATION property=" not in o:
                    d["r"] = "broken"
                    d["o"] = o[-500:]
                return d
        rc, o = sh("bash /opt/vp/build.sh")
        if rc:
            d["r"] = "build2"
            return d
        sh("bash /opt/vp/test.sh /tmp/mut/t%s.json" % sys.argv[1])
        try:
            r = json.load(open("/tmp/mut/t%s.json" % sys.argv[1]))
            ps = set(r.get("passed") or r.get("pass"))
            broken = sorted(base - ps)
        except Exception as e:
            broken = [str(e)]
        d["r"] = "tests" if broken else "MISSED"
        d["by"] = broken[:3] if broken else by
        return d
    finally:
        with open("/repo/" + p, "w") as f:
            lines[i] = old
            f.write("\n".join(lines))


def main():
    w, sd, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else None
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("stable") or b.get("stable_pass") or b.get("passed") or b.get("pass"))
    rng = random.Random(sd)
    cs = candidates(rx)
    print(len(cs), "candidates")
    files = sorted({c[0] for c in cs})
    for _ in range(n):
        # by file first (by size), so that small files are reached
        f = rng.choice(files) if rng.random() < 0.5 else rng.choice(cs)[0]
        ls = sorted({c[1] for c in cs if c[0] == f})
        l = rng.choice(ls)
        c = rng.choice([c for c in cs if c[0] == f and c[1] == l])
        d = one(c, base)
        if d:
            d["w"] = w
            record(d)
            print(d.get("r"), d["file"], d["line"], d.get("by"), flush=True)


main()
