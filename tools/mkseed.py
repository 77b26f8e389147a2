#!/usr/bin/env python3
"""write /verif/seeded/<id> from (id, property, needs, breaks, [(file, old, new)...], demo body)"""
import json, os, shutil, subprocess, sys
V="/verif/seeded"
def seed(id, prop, needs, breaks, edits, demo, lib="/verif/tools/seedlib"):
    d=f"{V}/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d+"/demo/src")
    w="/tmp/seeds/wt"
    if not os.path.exists(w):
        subprocess.run(["git","-C","/repo","worktree","prune"]); subprocess.run(["git","clone","-q","/repo",w],check=True)
    subprocess.run(["git","-C",w,"checkout","-q","--","."],check=True)
    subprocess.run(["git","-C",w,"pull","-q"],check=True)
    for f,o,n in edits:
        p=f"{w}/{f if '/' in f and f.startswith('js') else 'program/src/'+f}"
        s=open(p).read()
        if s.count(o)!=1: sys.exit(f"{id}: {f}: old text occurs {s.count(o)} times:\n{o}")
        open(p,"w").write(s.replace(o,n))
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    subprocess.run(["git","-C",w,"checkout","-q","--","."],check=True)
    L=lib
    shutil.copy(L+"/demo.sh",d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    shutil.copy(L+"/Cargo.toml",d+"/demo/Cargo.toml")
    [shutil.copy(f"{L}/src/{f}",f"{d}/demo/src/{f}") for f in os.listdir(L+"/src")]
    open(d+"/demo/src/main.rs","w").write(("mod aob;\nuse aob::*;\n" if os.path.exists(L+"/src/aob.rs") else "mod book;\nuse book::*;\n")+"\nfn main() {\n"+"\n".join(("    "+l if l else l) for l in demo.strip("\n").split("\n"))+"\n    println!(\"ok\");\n}\n")
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    print(id)
OB="state/orderbook.rs"; CB="state/critbit.rs"; EQ="state/event_queue.rs"
exec(open(sys.argv[1]).read())
