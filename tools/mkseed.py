#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEPS(comma list of repo-relative crate dirs) NEEDS BREAKS < main.rs : makes seeded/ID from the diff in /tmp/w and tries the demo on both trees"""
import sys, os, subprocess, shutil, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W="/tmp/w"
i=sys.argv[1]
body=sys.stdin.read()
if len(sys.argv)>2: prop,deps,needs,breaks=sys.argv[2:6]
else: prop,deps,needs,breaks=[next(l[4:].strip() for l in body.split("\n") if l.startswith("//%s "%k)) for k in "PDNB"]
body="\n".join(l for l in body.split("\n") if l[:4] not in ("//P ","//D ","//N ","//B "))
d=os.path.join(V,"seeded",i); os.makedirs(d,exist_ok=True)
diff=subprocess.run(["git","-C",W,"diff"],stdout=subprocess.PIPE,text=True).stdout
assert diff.strip(),"no change in /tmp/w"
open(d+"/patch.diff","w").write(diff)
for mark,f in (("//TOYLANG","mini"),("//BLK","blk")):
    if mark in body:
        shutil.copy(V+"/tools/seedkit/%s.rs"%f,d); body=body.replace(mark,"mod %s;use %s::*;"%(f,f))
if "//TOY" in body:
    open(d+"/toy.rs","w").write(open(V+"/h/toy/src/lib.rs").read().replace("#![feature(new_range_api)]\n",""))
    body="mod toy;use toy::*;\n"+body
open(d+"/main.rs","w").write("#![feature(new_range_api)]\n#![allow(unused)]\n"+body)
ds="\n".join(x[1:]+' = "1"' if x[0]=="@" else '%s = { path = "@REPO@/%s" %s }'%(os.path.basename(x.split("+")[0]),x.split("+")[0], (', features=[%s]'%",".join('"%s"'%f for f in x.split("+")[1:])) if "+" in x else "") for x in deps.split(","))
open(d+"/Cargo.toml.in","w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\n%s\n[workspace]\n'%ds)
shutil.copy(V+"/h/vfs/Cargo.lock",d+"/Cargo.lock")
open(d+"/demo.sh","w").write(open(V+"/tools/seedkit/demo.sh").read().replace("cargo build",("RUSTFLAGS='--cfg oak_verif' " if "//CFG" in body else "")+"cargo build")); os.chmod(d+"/demo.sh",0o755)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
a=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
b=subprocess.run(["bash",d+"/demo.sh"],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
print("clean exit",a.returncode,a.stdout[-600:] if a.returncode else "")
print("patched exit",b.returncode,b.stdout[-200:])
if a.returncode==0 and b.returncode not in (0,3): subprocess.run(["git","-C",W,"checkout","-q","--","."]); print("OK; worktree reset")
