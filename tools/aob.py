"""Common parts of the checks: building the drivers, running TLC, recording and judging executions."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(VERIF, "harness")
DRV = os.path.join(HARNESS, "target/debug/aobdrv")
WASM = os.path.join(VERIF, "harness-wasm")
WDRV = os.path.join(WASM, "target/debug/wasmdrv")
TS = os.path.join(VERIF, "harness-ts")
TDRV = os.path.join(BUILD, "ts", "driver.js")
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
CORES = os.cpu_count() or 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def rust_env():
    """the toolchain settings /repo is built with"""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    env = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def cargo_build(d, stale, timeout=1500, args=()):
    """build the crate in d; `stale` are crates to rebuild from /repo whatever their time stamps say"""
    fp = os.path.join(d, "target/debug/.fingerprint")
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if any(x.startswith(s) for s in stale):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", *args], cwd=d, env=rust_env(), capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise ToolError("build of %s failed:\n%s" % (d, p.stderr[-4000:]))


def build_harness():
    cargo_build(HARNESS, ["asset-agnostic-orderbook-", "aobdrv-"])


def build_wasm():
    cargo_build(WASM, ["dex-wasm-", "wasmdrv-"])


def build_ts():
    """bundle /repo's TypeScript client with the driver"""
    os.makedirs(os.path.dirname(TDRV), exist_ok=True)
    st = os.path.join(TS, "stubs")
    cmd = [ESBUILD, os.path.join(TS, "driver.ts"), "--bundle", "--platform=node", "--format=cjs", "--log-level=error", "--outfile=" + TDRV,
           '--tsconfig-raw={"compilerOptions":{"target":"ES2020","useDefineForClassFields":false}}', "--alias:aob-client=/repo/js/src/index.ts"]
    cmd += ["--alias:%s=%s/%s" % (a, st, b) for a, b in (("bn.js", "bn.js"), ("borsh", "borsh.js"), ("bs58", "bs58.js"), ("@solana/web3.js", "web3.js"))]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("bundling the TypeScript client failed:\n" + p.stderr[-3000:])


def build_override():
    """compile the TLC module override of big/Num"""
    src = os.path.join(SPEC, "big/Num.java")
    dst = os.path.join(BUILD, "jc")
    os.makedirs(dst, exist_ok=True)
    cls = os.path.join(dst, "Num.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        subprocess.run(["javac", "-cp", JARS, "-d", dst, src], check=True, capture_output=True)


def tlc(module, config, lib, env=None, workers=2, heap="2g", timeout=900, extra=(), out=None, override=False, cwd=None):
    """run TLC; returns its output (or writes it to the file `out`) and the statistics"""
    meta = os.path.join(BUILD, "meta", "%s.%d.%d" % (module, os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cp = JARS
    if override:
        cp = os.path.join(BUILD, "jc") + ":" + cp
    gc = "-XX:+UseSerialGC" if workers <= 2 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=%s:%s" % (os.path.join(SPEC, lib), SPEC), "-cp", cp,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", config, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    sink = open(out, "w") if out else subprocess.PIPE
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=sink, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s timed out" % module)
    finally:
        if out:
            sink.close()
        shutil.rmtree(meta, ignore_errors=True)
    if out:
        with open(out) as f:
            text = "".join(x for x in f if not x.startswith('"'))
    else:
        text = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    stats = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else None
    return p.returncode, text, stats


# ------------------------------------------------------- recorded executions

def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def crashed(out, kind):
    """complete the recording `out`: the instruction that was running crashed or did not return"""
    with open(out + ".pend") as f:
        pend = json.loads(f.read())
    with open(out, "rb") as f:
        data = f.read()
    data = data[:data.rfind(b"\n") + 1]
    if pend["op"] not in ("round", "readfail", "wasm"):     # those are refusals already
        z = []
        pend.update(r={"k": kind, "code": "", "posted": False, "p": z, "l": z, "tb": z, "tq": z, "tp": z},
                    chg=[], eq=True, diff="")
    with open(out, "wb") as f:
        f.write(data + json.dumps(pend).encode() + b"\n")
    return data


def record(cmd, out, profile, seed, first, count, timeout=600, drv=None):
    """let the driver record `count` histories into the file out; a crash or hang of the code under
    test becomes the outcome of the instruction that was running"""
    if os.path.exists(out):
        os.remove(out)
    at = first
    crashes = 0
    end = time.time() + timeout
    while at < first + count:
        p = subprocess.run([drv or DRV, cmd, "--out", out, "--profile", profile, "--seed", str(seed), "--from", str(at),
                            "--traces", str(first + count - at)], capture_output=True, text=True,
                           preexec_fn=_limits, timeout=max(10, end - time.time()))
        if p.returncode == 0:
            return crashes
        kind = "hang" if p.returncode == 97 else "abort" if p.returncode < 0 else None
        if kind is None or not os.path.exists(out + ".pend"):
            raise ToolError("driver failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        data = crashed(out, kind)
        ids = re.findall(rb'"id":(\d+)', b"\n".join(x for x in data.split(b"\n") if b'"op":"init"' in x))
        at = (int(ids[-1]) if ids else at) + 1
        crashes += 1
        if crashes >= 3:
            return crashes
    return crashes


def replay(out, table, mode, kind, seed, args, timeout=800):
    """replay a transition table on the real program; (statistics, mismatch or None); on a mismatch, out holds
    the execution leading to it"""
    for x in (out, out + ".pos", out + ".pend"):
        if os.path.exists(x):
            os.remove(x)
    cmd = [DRV, "replay", "--out", out, "--table", table, "--mode", mode, "--kind", kind, "--seed", str(seed)]
    for k, v in args.items():
        cmd += ["--" + k, str(v)]
    p = subprocess.run(cmd, capture_output=True, text=True, preexec_fn=_limits, timeout=timeout)
    m = re.search(r"ops (\d+) ok (\d+) states (\d+)", p.stdout)
    st = [int(x) for x in m.groups()] if m else [0, 0, 0]
    bad = re.search(r"MISMATCH (.*)", p.stdout)
    if p.returncode == 0:
        return st, bad[1] if bad else None
    kind = "hang" if p.returncode == 97 else "abort" if p.returncode < 0 else None
    if kind is None:
        raise ToolError("driver failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
    if bad:         # it crashed while recording the mismatch
        crashed(out, kind)
        return st, bad[1]
    with open(out + ".pos", "rb") as f:
        a, b = struct.unpack("<QQ", f.read(16))
    p = subprocess.run(cmd + ["--only", "%d,%d" % (a, b)], capture_output=True, text=True, preexec_fn=_limits, timeout=timeout)
    if p.returncode == 0:
        raise ToolError("a crash of the driver does not repeat: %s" % " ".join(cmd))
    crashed(out, kind)
    return st, "the program does not return (%s)" % kind


VIOL = re.compile(r'^"VIOL\|(\d+)\|(\w+)\|(.*)"$')


def judge(path, pid, workers=2, timeout=800):
    """let TLC judge the recorded executions; [(line, property, text)], statistics"""
    lines = sum(1 for _ in open(path))
    if lines == 0:
        return [], 0, 0
    rc, text, st = tlc("Trace", "Trace.cfg", "big", env={"TRACE": path, "CHECK": pid}, workers=workers,
                       override=True, timeout=timeout)
    if st is None or "No error has been found" not in text:
        raise ToolError("TLC could not judge %s:\n%s" % (path, text[-3000:]))
    if st["distinct"] != lines:
        raise ToolError("TLC judged %d of %d records of %s" % (st["distinct"], lines, path))
    viol = [(int(m[1]), m[2], m[3]) for m in map(VIOL.match, text.splitlines()) if m]
    return sorted(viol), lines, st["generated"]


def cut(path, line):
    """the records of one execution up to the given line (1-based)"""
    with open(path) as f:
        rows = f.read().split("\n")[:line]
    k = max(i for i, r in enumerate(rows) if '"op":"init"' in r)
    return rows[k:]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        self.viol = []          # (text, replay path)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []

    def violation(self, text, rows, how):
        n = len(self.viol)
        path = os.path.join(VERIF, "evidence", "replays", "%s-%d.ndjson" % (self.pid, n))
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")
        with open(path + ".txt", "w") as f:
            f.write("%s\n%s\n" % (text, how))
        self.viol.append((text, path))

    # direction B: what the program did is judged by the specification
    def traces(self, profiles, total, extra):
        """profiles: name -> share; total: number of histories; extra: name -> number of (long) histories"""
        wsum = sum(profiles.values())
        jobs = []
        for name, share in profiles.items():
            n = max(8, round(total * share / wsum))
            per = 40 if self.tier == "quick" else 150
            k = max(1, -(-n // per))
            for c in range(k):
                lo, hi = n * c // k, n * (c + 1) // k
                jobs.append((name, lo, hi - lo, os.path.join(self.dir, "%s.%d.nd" % (name, c))))
        for name, n in extra.items():
            for c in range(n):
                jobs.append((name, c, 1, os.path.join(self.dir, "%s.%d.nd" % (name, c))))
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda j: record("gen", j[3], j[0], self.seed, j[1], j[2]), jobs))
        # bundles of similar size, one TLC each
        k = min(len(jobs), 4 if self.tier == "quick" else max(4, len(jobs) // 8))
        jobs.sort(key=lambda j: -os.path.getsize(j[3]))
        bundles = [[] for _ in range(k)]
        size = [0] * k
        for j in jobs:
            i = size.index(min(size))
            bundles[i].append(j)
            size[i] += os.path.getsize(j[3])
        files = []
        for i, b in enumerate(bundles):
            path = os.path.join(self.dir, "bundle%d.nd" % i)
            with open(path, "wb") as f:
                for j in b:
                    with open(j[3], "rb") as g:
                        shutil.copyfileobj(g, f)
                    os.remove(j[3])
            files.append(path)
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda p: judge(p, self.pid), files))
        ops = {}
        for path, (viol, lines, gen) in zip(files, res):
            self.cov["states"] += lines
            self.cov["transitions"] += gen - sum(1 for r in open(path) if '"op":"init"' in r)
            with open(path) as f:
                for row in f:
                    m = re.search(r'"op":"(\w+)"', row)
                    o = m[1] if m else "?"
                    m = re.search(r'"k":"(ok|err|panic|hang|abort|runtime)"', row)
                    key = o + (":" + m[1] if m else "")
                    ops[key] = ops.get(key, 0) + 1
            for line, pid, text in viol[:3]:
                rows = cut(path, line)
                init = json.loads(rows[0])
                self.violation(text, rows, "record %d of history %s; judge again: TRACE=<this file> CHECK=%s TLC on spec/Trace.tla"
                               % (line, init.get("id"), self.pid))
        self.cov["traces_validated_against_impl"] += ops.get("init", 0)
        self.cov.setdefault("records", {})
        for k2, v in ops.items():
            self.cov["records"][k2] = self.cov["records"].get(k2, 0) + v
        if files and not self.cov["samples"]:
            with open(files[0]) as f:
                self.cov["samples"] = [json.loads(x) for x in f.read().split("\n", 4)[:4]]
        self.notes.append("trace validation: histories of profiles %s and long ones %s, seed %d" % (profiles, extra, self.seed))

    # the TypeScript client: dumps of markets on random histories and in every state of some tables
    def client(self, profiles, total, extra, names, seeds):
        import models
        jobs, files = [], []
        wsum = sum(profiles.values())
        for name, share in profiles.items():
            n = max(8, round(total * share / wsum))
            k = max(1, n // 40)
            for c in range(k):
                lo, hi = n * c // k, n * (c + 1) // k
                jobs.append((name, lo, hi - lo, os.path.join(self.dir, "%s.%d.nd" % (name, c))))
        for name, n in extra.items():
            jobs += [(name, c, 1, os.path.join(self.dir, "%s.%d.nd" % (name, c))) for c in range(n)]
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda j: record("gen", j[3], j[0], self.seed, j[1], j[2]), jobs))
        tabs = models.all_tables(names)
        dumps = []
        for name in names:
            path, st = tabs[name]
            self.cov.setdefault("models", []).append({k: st[k] for k in ("name", "distinct", "generated", "requests", "depth", "constants", "wall_s")})
            for s in seeds:
                for k in range(4):
                    dumps.append((os.path.join(self.dir, "%s.d%d.%d.nd" % (name, s, k)), path, "dump", "AP8"[(k + s) % 3], s, {"part": k, "parts": 4}))
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: replay(*j), dumps))
        for j, (_, bad) in zip(dumps, res):
            if bad:
                self.notes.append("a mismatch with %s which is another property's: %s" % (os.path.basename(j[0]), bad[:300]))
        raw = [x for x in [j[3] for j in jobs] + [j[0] for j in dumps] if os.path.exists(x) and os.path.getsize(x)]
        raw.sort(key=os.path.getsize)
        k = min(len(raw), 8 if self.tier == "quick" else 48)
        for i in range(k):
            path = os.path.join(self.dir, "b%d.nd" % i)
            with open(path, "wb") as f:
                for x in raw[i::k]:
                    with open(x, "rb") as g:
                        shutil.copyfileobj(g, f)
                    os.remove(x)
            files.append(path)

        def say(path):
            out = path + ".ts"
            try:
                p = subprocess.run(["node", "--max-old-space-size=2048", TDRV, path, out], capture_output=True, text=True, timeout=240)
                if p.returncode == 0:
                    os.remove(path)
                    return out
                why = "crashes"
                if not os.path.exists(out):
                    raise ToolError("the client's driver failed: " + p.stderr[-2000:])
            except subprocess.TimeoutExpired:
                why = "does not return"
            data = open(out).read()
            rows = data[:data.rfind("\n") + 1].split("\n")[:-1]
            raw = open(path).read().split("\n")[len(rows)]
            if '"op":"tsraw"' not in raw:
                raise ToolError("the client's driver failed on " + raw[:300])
            rows.append(json.dumps({"op": "ts", "ac": json.loads(raw)["ac"], "ok": False, "err": why}))
            with open(out, "w") as f:
                f.write("\n".join(rows) + "\n")
            return out
        with cf.ThreadPoolExecutor(CORES) as ex:
            files = list(ex.map(say, files))
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda x: judge(x, self.pid), files))
        reads = 0
        for path, (viol, lines, gen) in zip(files, res):
            self.cov["states"] += lines
            self.cov["transitions"] += gen
            with open(path) as f:
                for row in f:
                    reads += '"op":"ts"' in row
                    self.cov["traces_validated_against_impl"] += '"op":"init"' in row
            for line, pid, text in viol[:2]:
                self.violation(text, cut(path, line), "judge again: TRACE=<this file> CHECK=P22 TLC on spec/Trace.tla")
        self.cov["markets_read_by_the_client"] = reads
        with open(files[0]) as f:
            self.cov["samples"] = [json.loads(x) for x in f.read().split("\n", 4)[:4]]
        self.notes.append("the TypeScript client read the markets of histories %s %s, and of every state of the tables %s"
                          % (profiles, extra, names))

    # direction A: the specification's transition tables, replayed on the program
    def tables(self, names, seeds, walks):
        import models
        tabs = models.all_tables(names)
        self.cov.setdefault("models", [])
        jobs = []
        for name in names:
            path, st = tabs[name]
            self.cov["models"].append({k: st[k] for k in ("name", "distinct", "generated", "requests", "depth", "constants", "wall_s")})
            self.cov["states"] += st["distinct"]
            self.cov["transitions"] += st["table_states"] * st["requests"]
            parts = max(1, min(CORES, st["table_states"] * st["requests"] // 50000))
            for s in seeds:
                for k in range(parts):
                    out = os.path.join(self.dir, "%s.c%d.%d.nd" % (name, s, k))
                    jobs.append((name, out, path, "cover", "AP8"[(k + s) % 3], s, {"part": k, "parts": parts}))
            for k in range(3):
                out = os.path.join(self.dir, "%s.w%d.nd" % (name, k))
                jobs.append((name, out, path, "walk", "AP8"[k], self.seed, {"from": k * walks, "count": walks, "len": 300}))
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: replay(*j[1:]), jobs))
        rep = self.cov.setdefault("replayed", {})
        files = []
        for j, (st, bad) in zip(jobs, res):
            r = rep.setdefault(j[0], {"cover_instructions": 0, "walk_instructions": 0})
            r[j[3] + "_instructions"] += st[0]
            if bad:
                files.append((j, bad))
        self.cov["traces_validated_against_impl"] += sum(3 * walks for _ in names)
        self.notes.append("tables %s: every request in every state, from %d spanning tree(s) of the state graph, replayed on the real code; "
                          "%d random runs each" % (names, len(seeds), 3 * walks))
        seen = set()
        for j, bad in files[:24]:
            for line, pid, text in judge(j[1], self.pid)[0][:3]:
                if (pid, text) in seen:
                    continue
                seen.add((pid, text))
                self.violation(text, cut(j[1], line), "replaying the transition table %s: %s" % (j[0], bad))
            if not seen:
                self.notes.append("a mismatch with table %s which is another property's: %s" % (j[0], bad[:300]))

    # all combinations of accounts, in every state of spec/World.tla
    def world(self, ops, rate, keep):
        """ops: "market" or "life"; rate: one in so many of the combinations far from any accepted one is tried"""
        import models
        path, st = models.world_table(self.tier)
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov.setdefault("models", []).append(st)
        parts = CORES * 2

        def go(k):
            out = os.path.join(self.dir, "world.%d.nd" % k)
            cmd = [DRV, "world", "--out", out, "--table", path, "--kind", "AP8"[k % 3], "--ops", ops, "--rate", str(rate), "--keep", str(keep),
                   "--part", str(k), "--parts", str(parts), "--seed", str(self.seed + k)]
            p = subprocess.run(cmd, capture_output=True, text=True, preexec_fn=_limits, timeout=3000)
            m = re.search(r"tried (\d+) ok (\d+) states (\d+)", p.stdout)
            n = [int(x) for x in m.groups()] if m else [0, 0, 0]
            if p.returncode == 0:
                return out, n
            kind = "hang" if p.returncode == 97 else "abort" if p.returncode < 0 else None
            if kind is None:
                raise ToolError("driver failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
            with open(out + ".pos", "rb") as f:
                at = f.read(8)
            if len(at) < 8:
                self.notes.append("the program does not return on the way to a state of spec/World.tla (%s)" % kind)
                return out, n
            os.remove(out)
            p = subprocess.run(cmd + ["--only", str(struct.unpack("<Q", at)[0])], capture_output=True, text=True, preexec_fn=_limits, timeout=3000)
            if p.returncode == 0:
                raise ToolError("a crash of the driver does not repeat: %s" % " ".join(cmd))
            crashed(out, kind)
            return out, n
        with cf.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(go, range(parts)))
        tried, oks = sum(n[0] for _, n in res), sum(n[1] for _, n in res)
        self.cov["account_combinations"] = {"tried": tried, "accepted": oks, "states": max(n[2] for _, n in res)}
        path = os.path.join(self.dir, "world.nd")
        with open(path, "wb") as f:
            for out, _ in res:
                with open(out, "rb") as g:
                    shutil.copyfileobj(g, f)
        for line, pid, text in judge(path, self.pid, workers=CORES)[0][:5]:
            self.violation(text, cut(path, line), "one step in a state of spec/World.tla; judge again: TRACE=<this file> CHECK=%s TLC on spec/Trace.tla" % self.pid)
        self.cov["traces_validated_against_impl"] += oks
        self.notes.append("spec/World.tla: every state reached on the real program, the instructions (%s) tried there on all combinations of accounts that "
                          "differ in up to two places from one which is accepted, and on one in %d of the others" % (ops, rate))

    # the wasm readers: the specification's table of all small books, and random larger ones
    def wasm(self, total, times):
        import models
        path, st = models.depth_table(self.tier)
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov["models"] = [st]
        files, calls, books = [], 0, 0

        def tab(k):
            out = os.path.join(self.dir, "table.%d.nd" % k)
            p = subprocess.run([WDRV, "table", "--out", out, "--table", path, "--part", str(k), "--parts", str(CORES), "--times", str(times),
                                "--seed", str(self.seed)], capture_output=True, text=True, preexec_fn=_limits, timeout=600)
            if p.returncode != 0:
                if p.returncode > 0 and p.returncode != 97:
                    raise ToolError("driver failed: " + p.stderr[-2000:])
                with open(out, "rb") as f:
                    data = f.read()
                with open(out + ".pend") as f:
                    pend = f.read()
                with open(out, "w") as f:
                    f.write((data.decode() or '{"op":"init","full":true,"w":[],"id":0}\n') + pend)
                return out, 0, 0
            m = re.search(r"books (\d+) calls (\d+)", p.stdout)
            return out, int(m[1]), int(m[2])

        def gen(k):
            out = os.path.join(self.dir, "gen.%d.nd" % k)
            lo, hi = total * k // CORES, total * (k + 1) // CORES
            record("gen", out, "-", self.seed, lo, hi - lo, drv=WDRV)
            return out, hi - lo, 0
        with cf.ThreadPoolExecutor(CORES) as ex:
            a, b = list(ex.map(tab, range(CORES))), list(ex.map(gen, range(CORES)))
        files = [x for x in a + b if os.path.getsize(x[0]) > 0]
        with cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda x: judge(x[0], self.pid), files))
        for (out, _, _), (viol, lines, gen_) in zip(files, res):
            for line, pid, text in viol[:2]:
                rows = open(out).read().split("\n")
                self.violation(text, ['{"op":"init","full":true,"w":[],"id":0}', rows[line - 1]],
                               "the serialized book of this record; judge again: TRACE=<this file> CHECK=P20 TLC on spec/Trace.tla")
        self.cov["traces_validated_against_impl"] += sum(x[1] for x in a + b)
        self.cov["table_books"], self.cov["table_calls"] = sum(x[1] for x in a), sum(x[2] for x in a)
        with open(files[-1][0]) as f:
            self.cov["samples"] = [json.loads(x) for x in f.read().split("\n", 3)[1:3]]
        self.notes.append("spec/Depth.tla model checked; its table of all books replayed %d times in random layouts; %d random books judged by spec/Wasm.tla"
                          % (times, total))

    def finish(self, level="model_checking", assumptions=()):
        self.cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for text, path in self.viol[:5]:
            print("%s: %s" % (self.pid, text))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.viol:
            print("%s: held on everything explored (%d states, %d executions, %.0f s)"
                  % (self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 1 if self.viol else 0
