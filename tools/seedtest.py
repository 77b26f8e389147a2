#!/usr/bin/env python3
"""seedtest.py [-j N] [id...]: apply each seeded change in a private copy of the sandbox's /repo, build,
run the stable tests, its demo and the check of its property; print one line per change.
Copies live under /tmp/slots and are shown over /repo, /verif and /opt/vp in a mount namespace of their own."""
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys

V = "/verif"
SLOTS = "/tmp/slots"


def sh(slot, script, timeout=1200):
    pre = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/vp /opt/vp && " % (slot, slot, slot)
    try:
        p = subprocess.run(["unshare", "-rm", "bash", "-c", pre + script], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 999, "timeout"
    return p.returncode, p.stdout + p.stderr


def make_slot(i):
    s = "%s/%d" % (SLOTS, i)
    for d in ("repo", "verif", "vp"):
        os.makedirs("%s/%s" % (s, d), exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/", s + "/repo/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/build/run", "--exclude", "/build/meta", V + "/", s + "/verif/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "/opt/vp/", s + "/vp/"], check=True)
    return s


def run(slot, sid, what):
    d = "/verif/seeded/" + sid
    meta = json.load(open(V + "/seeded/" + sid + "/meta.json"))
    pid = meta["property"]
    r = {"id": sid, "property": pid}
    rc, o = sh(slot, "cd /repo && git checkout -q -- . && git apply %s/patch.diff" % d)
    if rc:
        r["error"] = "patch: " + o[-300:]
        return r
    if "demo" in what:
        rc, o = sh(slot, "cd /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/slot-out.$$ ; cp /tmp/slot-out.$$ %s/out.json; rm -f /tmp/slot-out.$$" % slot)
        try:
            res = json.load(open(slot + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ok = set(res.get("passed", []))
            r["tests"] = "ok" if all(t in ok for t in stable) else "FAIL " + str([t.split("::")[-1] for t in stable if t not in ok])
        except Exception as e:
            r["tests"] = "none %r %s" % (e, o[-500:])
        rc, o = sh(slot, "cd /repo && bash %s/demo.sh" % d, 300)
        r["demo_patched"] = rc
        if rc in (3, 4):
            r["log"] = o[-1500:]
    if "check" in what:
        tier = os.environ.get("TIER", "quick")
        rc, o = sh(slot, "cd /verif && VERIF_SEED=1 python3 tools/check.py %s %s" % (pid, tier))
        r["check"] = rc
        r["caught"] = rc == 1 and ("VIOLATION property=" + pid) in o
        v = [x for x in o.splitlines() if x.startswith(pid + ":")]
        r["text"] = (v[0] if v else o[-300:])[:200]
    sh(slot, "cd /repo && git checkout -q -- .")
    if "demo" in what:
        rc, o = sh(slot, "cd /repo && bash %s/demo.sh" % d, 300)
        r["demo_clean"] = rc
        if rc:
            r["log"] = o[-1500:]
    return r


def main():
    a = sys.argv[1:]
    n = 4
    what = {"demo", "check"}
    if "-j" in a:
        k = a.index("-j")
        n = int(a[k + 1])
        del a[k:k + 2]
    for w in ("demo", "check"):
        if "--" + w in a:
            a.remove("--" + w)
            what = {w}
    ids = a or sorted(os.listdir(V + "/seeded"))
    q = queue.Queue()
    for i in range(min(n, len(ids))):
        q.put(make_slot(i))
    bad = []

    def one(sid):
        slot = q.get()
        try:
            r = run(slot, sid, what)
        finally:
            q.put(slot)
        good = (r.get("tests", "ok") == "ok" and r.get("demo_patched", 1) not in (0, 3, 4) and r.get("demo_clean", 0) == 0
                and r.get("caught", True) and "error" not in r)
        print("%-4s %s" % ("ok" if good else "BAD", json.dumps(r)), flush=True)
        if not good:
            bad.append(sid)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, ids))
    print("bad:", bad)
    shutil.rmtree(SLOTS, ignore_errors=True)


main()
