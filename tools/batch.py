"""A development tool (no check uses it): try hand-written changes. batch.py BUGS.py WORKER OF [NAME...]
BUGS.py defines B = [(name, "Pxx Pyy", file, old, new)]; run inside a private mount namespace with copies bound over /repo and /verif
(tools/batch.sh). Results are appended to /tmp/mut/batch.jsonl."""
import fcntl
import json
import runpy
import subprocess
import sys


def sh(cmd, timeout=1200):
    try:
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    w, of, names = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("stable") or b.get("stable_pass") or b.get("passed") or b.get("pass"))
    bugs = [x for x in runpy.run_path(sys.argv[1])["B"] if not names or x[0] in names]
    for name, pids, f, old, new in bugs[w::of]:
        src = open("/repo/" + f).read()
        d = {"name": name, "p": pids, "file": f}
        n = src.count(old)
        if n == 0:
            d["r"] = "NOT FOUND"
        else:
            open("/repo/" + f, "w").write(src.replace(old, new, 1))
            try:
                rc, o = sh("bash /verif/setup.sh")
                if rc:
                    d["r"], d["o"] = "build", o[-1500:]
                else:
                    d["r"] = "MISSED"
                    for p in pids.split():
                        rc, o = sh("bash /verif/check.sh %s quick" % p)
                        if rc and "VIOLATION property=" not in o:
                            d["r"], d["by"], d["o"] = "broken", p, o[-800:]
                        elif rc and d["r"] == "MISSED":
                            d["r"], d["by"] = "caught", p
                        if d["r"] == "caught":
                            break
                    if d["r"] == "MISSED":
                        rc, o = sh("bash /opt/vp/build.sh")
                        sh("bash /opt/vp/test.sh /tmp/mut/t%d.json" % w)
                        r = json.load(open("/tmp/mut/t%d.json" % w))
                        broken = sorted(base - set(r.get("passed") or r.get("pass")))
                        if broken:
                            d["r"], d["o"] = "missed/tests", broken[:3]
            finally:
                open("/repo/" + f, "w").write(src)
        with open("/tmp/mut/batch.jsonl", "a") as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            fh.write(json.dumps(d) + "\n")
        print(d["r"], name, d.get("by", ""), d.get("o", "") if d["r"] not in ("caught",) else "", flush=True)


main()
