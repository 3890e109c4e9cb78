"""check.py <property>: decide one property on /repo's current tree."""
import sys
import traceback

import composite
import domain
import life
import metricsets
import multi
import outputs
import refs
import roundtrip
import series
import solvers
import simcheck
import tables
import v1
import variables
import wellformed
import visits
import vplib

TABLE = {}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P08", "P09", "P14", "P15", "P16", "P17", "P18", "P19", "P29"):
    TABLE[_p] = simcheck.main
TABLE["P35"] = v1.main
TABLE["P36"] = metricsets.main
TABLE["P37"] = visits.main

for _p in ("P10", "P12"):
    TABLE[_p] = domain.main

for _p in ("P20", "P21", "P22", "P23"):
    TABLE[_p] = outputs.main


TABLE["P24"] = multi.main
for _p in ("P11", "P25"):
    TABLE[_p] = life.main
TABLE["P27"] = variables.main
TABLE["P26"] = wellformed.main
TABLE["P13"] = wellformed.main
TABLE["P31"] = series.main
TABLE["P32"] = tables.main
TABLE["P33"] = roundtrip.main
TABLE["P34"] = refs.main
TABLE["P07"] = solvers.main
for _p in ("P28", "P30"):
    TABLE[_p] = composite.main


def main():
    pid = sys.argv[1]
    try:
        rc = TABLE[pid](pid)
        if rc not in (0, 1):
            raise vplib.ToolError("the check gave no verdict: %r" % (rc,))
        return rc
    except vplib.ToolError as e:
        print("TOOL-ERROR: %s" % e)
        return 2
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
