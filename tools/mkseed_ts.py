#!/usr/bin/env python3
"""mkseed_ts.py FILE: seeds for the TypeScript client: the demo is a few recorded markets the changed client reads differently"""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
W = "/tmp/seeds/ts"
L = "/verif/tools/seedlib-ts"
B = ["/opt/veriftools/node/node_modules/.bin/esbuild", "/verif/harness-ts/driver.ts", "--bundle", "--platform=node", "--format=cjs", "--log-level=error",
     '--tsconfig-raw={"compilerOptions":{"target":"ES2020","useDefineForClassFields":false}}'] + \
    ["--alias:%s=/verif/harness-ts/stubs/%s" % x for x in (("bn.js", "bn.js"), ("borsh", "borsh.js"), ("bs58", "bs58.js"), ("@solana/web3.js", "web3.js"))]


def bundle(repo, out):
    subprocess.run(B + ["--alias:aob-client=%s/js/src/index.ts" % repo, "--outfile=" + out], check=True)


def pool():
    os.makedirs(W, exist_ok=True)
    p = W + "/pool.nd"
    if not os.path.exists(p):
        with open(p, "w") as f:
            for prof, n in (("ts-book", 60), ("ts-store", 30), ("ts-queue", 60), ("ts-extreme", 40), ("ts-large", 3), ("ts-longqueue", 3)):
                subprocess.run(["/verif/harness/target/debug/aobdrv", "gen", "--out", W + "/x.nd", "--profile", prof, "--seed", "77", "--from", "0",
                                "--traces", str(n)], check=True, capture_output=True)
                f.writelines(x for x in open(W + "/x.nd") if '"op":"tsraw"' in x)
                os.remove(W + "/x.nd")
        bundle("/repo", W + "/clean.js")
        subprocess.run(["node", W + "/clean.js", p, W + "/clean.nd"], check=True)
    return p


def seed(id, needs, breaks, edits):
    w = "/tmp/seeds/wt"
    if not os.path.exists(w):
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", w, "pull", "-q"], check=True)
    for f, o, n in edits:
        p = w + "/js/src/" + f
        s = open(p).read()
        if s.count(o) != 1:
            sys.exit("%s: old text occurs %d times: %s" % (id, s.count(o), o))
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    p = pool()
    bundle(w, W + "/bad.js")
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["timeout", "60", "node", W + "/bad.js", p, W + "/bad.nd"])
    rows = list(zip(open(p), open(W + "/clean.nd"), open(W + "/bad.nd")))
    diffs = sorted((x for x in rows if x[1] != x[2]), key=lambda x: len(x[0]))
    if not diffs:
        sys.exit(id + ": no market shows it")
    pick = diffs[:3] + [x for x in rows if x[1] == x[2]][:3]
    d = V + "/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/demo")
    shutil.copytree("/verif/harness-ts/stubs", d + "/demo/stubs")
    shutil.copy("/verif/harness-ts/driver.ts", d + "/demo/driver.ts")
    shutil.copy(L + "/demo.sh", d + "/demo.sh")
    open(d + "/demo/markets.nd", "w").writelines(x[0] for x in pick)
    open(d + "/demo/expected.nd", "w").writelines(x[1] for x in pick)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": "P22", "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "%d of %d markets" % (len(diffs), len(rows)), flush=True)


exec(open(sys.argv[1]).read())
