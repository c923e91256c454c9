#!/usr/bin/env python3
"""development aid: mkseed.py spec.py  -> /verif/seeded/<id>/
spec: SEED = dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=C source, cc=[extra gcc args])"""
import sys, os, subprocess, json, shutil
ns={}
exec(open(sys.argv[1]).read(), ns)
for S in ns["SEEDS"]:
    if len(sys.argv) > 2 and S["id"] not in sys.argv[2:]: continue
    d="/verif/seeded/"+S["id"]; os.makedirs(d,exist_ok=True)
    w="/tmp/mkseed-wt"; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(["git","-C","/repo","worktree","prune"])
    subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w,"HEAD"])
    for f,old,new in S["edits"]:
        p=w+"/"+f; s=open(p).read()
        assert s.count(old)==1,(S["id"],f,old,s.count(old))
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.check_output(["git","-C",w,"diff"]).decode()
    open(d+"/patch.diff","w").write(diff)
    subprocess.check_call(["git","-C","/repo","worktree","remove","--force",w])
    open(d+"/demo.c","w").write(S["demo"])
    cc=" ".join(S.get("cc",["_build/libdstr/libdstr_noasan.a"]))
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# cwd /repo, after the build; exit 0 if the property holds on the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -DBUILD_DEBUG -I. -I_build {S.get("cflags","-fsanitize=address -fno-sanitize-recover=all")} "$d/demo.c" {cc} -lpthread -o "$t/demo" || exit 98
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''')
    json.dump({"property":S["prop"],"needs":S["needs"],"what_it_breaks":S["breaks"]},open(d+"/meta.json","w"),indent=1)
    print("seeded",S["id"])
