#!/usr/bin/env python3
"""check.py Pxx [quick|thorough]: decide one property on /repo's current tree"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import aob  # noqa: E402
import models  # noqa: E402

# the histories that exercise a property
PLAN = {
    "P01": {"match": 3, "book": 3, "extreme": 3, "full": 1},
    "P02": {"match": 5, "book": 3, "self": 1, "extreme": 1},
    "P03": {"match": 4, "book": 3, "extreme": 3},
    "P04": {"match": 2, "book": 4, "full": 2, "self": 2, "extreme": 1},
    "P05": {"store": 3, "book": 2, "full": 2, "queue": 1, "world": 1, "readers": 1},
    "P06": {"match": 3, "book": 3, "full": 2, "self": 2, "queue": 1},
    "P07": {"queue": 8, "world": 1, "book": 1},
    "P08": {"store": 5, "cancel": 2, "full": 2, "book": 1, "readers": 1},
    "P09": {"self": 8, "match": 1, "queue": 1},
    "P10": {"book": 4, "full": 2, "extreme": 2, "match": 2},
    "P11": {"match": 5, "book": 2, "self": 3},
    "P12": {"full": 7, "store": 2, "book": 1},
    "P13": {"cancel": 7, "store": 2, "extreme": 1},
    "P14": {"cancel": 7, "extreme": 2, "store": 1},
    "P15": {"world": 8, "life": 2},
    "P16": {"life": 6, "world": 3, "full": 1},
    "P17": {"entry": 6, "world": 2, "extreme": 2},
    "P18": {"extreme": 4, "book": 2, "cancel": 1, "store": 1, "queue": 1, "full": 1, "world": 1},
    "P19": {"queue": 7, "self": 1, "full": 2},
    "P21": {"readers": 5, "round": 3, "store": 1, "queue": 2},
}
CLIENT = {"ts-book": 3, "ts-store": 3, "ts-queue": 5, "ts-self": 1, "ts-extreme": 2, "ts-full": 1, "ts-cancel": 1}
# long histories: more than 256 resting orders, more than 256 queued events
LONG = {
    "large": {"P02", "P04", "P05", "P08", "P12", "P13", "P14", "P16", "P18", "P21"},
    "longqueue": {"P01", "P06", "P07", "P16", "P18", "P19", "P21"},
}
TOTAL = {"quick": 5000, "thorough": 60000}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    aob.build_override()
    c = aob.Check(pid, tier, seed)
    quick = tier == "quick"
    if pid == "P20":
        aob.build_wasm()
        c.wasm(3000 if quick else 100000, 10 if quick else 300)
        return c.finish()
    aob.build_harness()
    if pid == "P22":
        aob.build_ts()
        c.client(CLIENT, 400 if quick else 8000, {"ts-large": 4 if quick else 40, "ts-longqueue": 4 if quick else 40},
                 ["deep", "queue", "events"] if quick else ["deep", "queue", "events", "self", "deep6", "queue7"],
                 [seed] if quick else [seed, seed + 1, seed + 2])
        return c.finish()
    if quick:
        c.tables(models.USES[pid], [seed], 60)
    else:
        c.tables(models.USES[pid] + models.MORE[pid], [seed, seed + 1, seed + 2], 1500)
    if pid in ("P15", "P16"):
        c.world("market" if pid == "P15" else "life", 16 if quick else 1, (2 if pid == "P15" else 4) if quick else 8)
    c.traces(PLAN[pid], TOTAL[tier], {k: 4 if quick else 40 for k in LONG if pid in LONG[k]})
    return c.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except aob.ToolError as e:
        print("no answer:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
