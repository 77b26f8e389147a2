"""The model configurations: what TLC explores exhaustively, and the transition tables it prints."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import time

import aob

BASE = {"FP": 2, "Prices": {1, 2, 3}, "Bases": {1, 2, 4}, "Quotes": {1, 2, 3, 99}, "Limits": {0, 1, 2, 9}, "Owners": {1},
        "Flags": "FlagsAll", "Stbs": {"D"}, "CapB": 2, "CapA": 2, "QCap": 16, "MinB": 1, "Tick": 1, "Lists": 0,
        "Consume": set(), "Forget": False}

# the tables made by setup.sh and replayed by every check they concern
MODELS = {
    # both caps, the match limit, partial fills: matching as such
    "match": {},
    # a finer price unit: every way of rounding
    "round": {"FP": 4, "Prices": {1, 2, 3, 5, 6}, "Bases": {1, 3, 5}, "Quotes": {1, 2, 99}, "Limits": {9}, "CapB": 2, "CapA": 1},
    # two owners and the three options
    "self": {"Owners": {1, 2}, "Stbs": {"D", "C", "A"}, "Prices": {1, 2}, "Bases": {1, 3}, "Quotes": {2, 99}, "Limits": {1, 2, 9}},
    # full sides, a minimum size above one
    "evict": {"FP": 1, "Bases": {1, 2, 3}, "MinB": 2, "Quotes": {5, 99}, "Limits": {9}, "Owners": {1, 2}, "CapB": 2, "CapA": 2},
    # ticks, zeros
    "tick": {"Prices": {0, 1, 2, 3, 4}, "Tick": 2, "Bases": {0, 1, 3}, "Quotes": {0, 2, 99}, "Limits": {0, 1, 9}, "MinB": 2},
    # lists to cancel
    "mass": {"FP": 4, "Prices": {1, 3}, "Bases": {1, 2, 3}, "Quotes": {99}, "Limits": {9}, "Lists": 3},
    # the fill level of the queue
    "queue": {"Prices": {1, 2}, "Bases": {1, 2}, "Quotes": {99}, "Limits": {1, 9}, "Owners": {1, 2}, "Stbs": {"D", "C", "A"},
              "QCap": 5, "Consume": {0, 1, 2, 3, 5, 99}, "Forget": True, "MinB": 1},
    # the queue's contents
    "events": {"FP": 1, "Prices": {1}, "Bases": {2, 3}, "Quotes": {99}, "Limits": {9}, "QCap": 5, "Consume": {1, 2, 99}, "CapB": 1, "CapA": 1,
               "MinB": 2},
    # more orders per side
    "deep": {"FP": 1, "Prices": {1, 2, 3}, "Bases": {1, 2}, "Quotes": {99}, "Limits": {1, 3, 9}, "CapB": 4, "CapA": 2},
}
# larger ones, for the thorough tier
LARGE = {
    "match3": {"Limits": {1, 2, 3, 9}, "CapB": 3, "CapA": 2, "Quotes": {1, 3, 99}},
    "round3": {"FP": 8, "Prices": {1, 3, 5, 8, 11}, "Bases": {1, 3, 7}, "Quotes": {1, 2, 5, 99}, "Limits": {1, 9}},
    "self3": {"Owners": {1, 2}, "Stbs": {"D", "C", "A"}, "Prices": {1, 2}, "Bases": {1, 2}, "Quotes": {2, 99}, "Limits": {0, 1, 2, 9},
              "CapB": 3, "CapA": 3},
    "evict3": {"FP": 1, "Prices": {1, 2, 3}, "Bases": {1, 2, 3}, "MinB": 2, "Quotes": {5, 99}, "Limits": {1, 9}, "Owners": {1, 2}, "CapB": 3, "CapA": 1},
    "tick3": {"FP": 3, "Prices": {0, 1, 2, 3, 4, 6}, "Tick": 3, "Bases": {0, 1, 3, 5}, "Quotes": {0, 1, 2, 99}, "Limits": {0, 1, 9}, "MinB": 2},
    "mass4": {"FP": 4, "Prices": {1, 3}, "Bases": {1, 2}, "Quotes": {99}, "Limits": {9}, "Lists": 4, "CapB": 2, "CapA": 2},
    "queue7": {"Prices": {1, 2}, "Bases": {1, 2, 3}, "Quotes": {3, 99}, "Limits": {1, 2, 9}, "Owners": {1, 2}, "Stbs": {"D", "C", "A"},
               "QCap": 7, "Consume": {0, 1, 2, 4, 7, 99}, "Forget": True, "MinB": 2},
    "events2": {"FP": 2, "Prices": {1, 2}, "Bases": {1, 2}, "Quotes": {99}, "Limits": {9}, "QCap": 5, "Consume": {1, 99}, "CapB": 1, "CapA": 1},
    "events3": {"FP": 1, "Prices": {1}, "Bases": {1, 2}, "Quotes": {99}, "Limits": {9}, "QCap": 5, "Consume": {1, 2, 99}, "CapB": 1, "CapA": 1,
                "Stbs": {"D", "C"}},
    "deep6": {"FP": 1, "Prices": {1, 2, 3}, "Bases": {1}, "Quotes": {99}, "Limits": {1, 3, 9}, "CapB": 6, "CapA": 6},
}
ALL = dict(MODELS, **LARGE)


def lit(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(lit(x) for x in sorted(v)) + "}"
    return json.dumps(v) if isinstance(v, str) else str(v)


def config(name, dump):
    c = dict(BASE, **ALL[name], Dump=dump)
    rows = ["  %s %s %s" % (k, "<-" if k == "Flags" else "=", v if k == "Flags" else lit(v)) for k, v in c.items()]
    return "SPECIFICATION Spec\nCONSTANTS\n" + "\n".join(rows) + "\nINVARIANTS StepsOk StateOk Drainable\nCHECK_DEADLOCK FALSE\n"


def stamp(text, files):
    h = hashlib.sha256(text.encode())
    for f in files:
        with open(os.path.join(aob.SPEC, f), "rb") as g:
            h.update(g.read())
    return h.hexdigest()[:20]


def dump(name, module, cfg, files, rows, info, workers=None, timeout=2400):
    """model check the configuration (unless it was, with the same specification) and return the table it prints
    and the statistics; raises ToolError when the specification violates one of its own properties"""
    d = os.path.join(aob.BUILD, "mc")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s.%s" % (name, stamp(cfg, files)))
    tab, js = base + ".tab", base + ".json"
    if os.path.exists(tab) and os.path.exists(js):
        with open(js) as f:
            return tab, json.load(f)
    for x in os.listdir(d):
        if x.startswith(name + "."):
            os.remove(os.path.join(d, x))
    own = base + ".%d" % os.getpid()
    with open(own + ".cfg", "w") as f:
        f.write(cfg)
    t0 = time.time()
    rc, text, st = aob.tlc(module, own + ".cfg", "int", workers=workers or aob.CORES, heap="6g", timeout=timeout, out=own + ".out")
    if st is None or "No error has been found" not in text:
        with open(own + ".out") as f:
            bad = [x for x in f if not x.startswith('"')]
        raise aob.ToolError("the specification violates its own properties in configuration %s:\n%s" % (name, "".join(bad)[-4000:]))
    with open(own + ".out") as f, open(own + ".tab", "w") as g:
        for line in rows(json.loads(line) for line in f if line.startswith('"{')):
            g.write(line + "\n")
    os.remove(own + ".out")
    os.remove(own + ".cfg")
    depth = re.search(r"depth of the complete state graph search is (\d+)", text)
    st.update(name=name, depth=int(depth[1]) if depth else 0, wall_s=round(time.time() - t0, 1), **info)
    os.replace(own + ".tab", tab)
    with open(js, "w") as f:
        json.dump(st, f)
    return tab, st


MC_FILES = ("MC.tla", "Props.tla", "AOB.tla", "int/Num.tla")


def table(name, workers=None):
    """the transition table of a configuration of spec/MC.tla"""
    info = {"constants": {k: (sorted(v) if isinstance(v, set) else v) for k, v in dict(BASE, **ALL[name]).items()}}

    def rows(lines):
        for x in lines:
            if x.startswith('{"head"'):
                info["requests"] = len(json.loads(x)["head"]["ops"])
            else:
                info["table_states"] = info.get("table_states", 0) + 1
            yield x
    return dump(name, "MC", config(name, True), MC_FILES, rows, info, workers)


def all_tables(names, parallel=2):
    with cf.ThreadPoolExecutor(parallel) as ex:
        return dict(zip(names, ex.map(lambda n: table(n, workers=max(1, aob.CORES // parallel)), names)))


DEPTH = {"quick": {"Ps": {0, 1, 2}, "Ls": {0, 1, 3}, "Bits": 2, "MaxD": 4}, "thorough": {"Ps": {0, 1, 2, 3}, "Ls": {0, 2, 3}, "Bits": 2, "MaxD": 5}}


def depth_table(tier):
    """spec/Depth.tla: model check it, and return its table"""
    c = dict(DEPTH[tier], Dump=True)
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n" + "\n".join("  %s = %s" % (k, lit(v)) for k, v in c.items()) +
           "\nINVARIANTS Right Frontier Bounded Extremes Table\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n")
    return dump("depth-" + tier, "Depth", cfg, ("Depth.tla",), lambda rows: sorted(set(rows)), {"constants": {k: sorted(v) if isinstance(v, set) else v for k, v in c.items()}})


WORLD = {"quick": {"Contents": 1, "Creations": 2}, "thorough": {"Contents": 2, "Creations": 2}}


def world_table(tier):
    """spec/World.tla: model check it, and return its table"""
    c = dict(WORLD[tier], FP=1, Dump=True)
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n" + "\n".join("  %s = %s" % (k, lit(v)) for k, v in c.items()) +
           "\nVIEW View\nINVARIANTS Exclusive Misfits Closed StepsOk\nCHECK_DEADLOCK FALSE\n")
    return dump("world-" + tier, "World", cfg, ("World.tla", "Props.tla", "AOB.tla", "int/Num.tla"),
                lambda rows: sorted(set(rows)), {"constants": c})


# which tables concern a property
USES = {
    "P01": ["match", "round"], "P02": ["match", "self"], "P03": ["round", "match"], "P04": ["match", "tick", "self"],
    "P05": ["deep", "evict", "mass"], "P06": ["evict", "self", "events"], "P07": ["events", "queue"], "P08": ["deep", "mass", "evict"],
    "P09": ["self", "queue"], "P10": ["tick", "match", "evict"], "P11": ["match", "self"], "P12": ["evict", "deep"],
    "P13": ["mass", "deep"], "P14": ["mass"], "P15": ["tick"], "P16": ["mass", "queue"], "P17": ["match", "mass"],
    "P18": ["tick", "deep", "queue"], "P19": ["queue", "events"], "P21": ["deep"],
}
MORE = {
    "P01": ["match3", "round3"], "P02": ["match3", "self3"], "P03": ["round3"], "P04": ["match3", "tick3"], "P05": ["deep6", "evict3"],
    "P06": ["evict3", "events2", "events3"], "P07": ["events2", "events3", "queue7"], "P08": ["deep6", "mass4"], "P09": ["self3", "queue7"],
    "P10": ["tick3", "evict3"], "P11": ["match3", "self3"], "P12": ["evict3", "deep6"], "P13": ["mass4", "deep6"], "P14": ["mass4"],
    "P15": [], "P16": ["queue7"], "P17": ["self3"], "P18": ["tick3", "queue7"], "P19": ["queue7", "events3"], "P21": ["deep6"],
}

if __name__ == "__main__":
    import sys
    for n in sys.argv[1:] or MODELS:
        try:
            p, s = table(n)
            print(n, {k: s[k] for k in ("distinct", "generated", "requests", "depth", "wall_s")}, os.path.getsize(p), flush=True)
        except aob.ToolError as e:
            print(n, str(e)[-1500:], flush=True)
