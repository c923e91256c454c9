#!/usr/bin/env python3
"""time every proof unit under each SAT back end: dev/solvers.py PROP..."""
import sys; sys.path.insert(0,'/verif/bin')
import check, shutil
from concurrent.futures import ThreadPoolExecutor
jobs=[]; ctxs=[]
for p in sys.argv[1:]:
    ctx=check.Ctx(p,"quick"); ctxs.append(ctx); ctx.overlay(); ctx.gen()
    for u in ctx.spec["proofs"]:
        u=check.as_unit(ctx.spec,u)
        for s in ("cadical","minisat2"):
            v=dict(u); v["cbmc"]=[c for c in u["cbmc"] if c not in("--sat-solver","cadical","minisat2")]+["--sat-solver",s]; jobs.append((ctx,p,s,v))
def one(j):
    ctx,p,s,u=j
    c2=check.Ctx(p,"quick"); c2.overlay=ctx.overlay; c2.gen=ctx.gen
    r=check.prove(c2,u); shutil.rmtree(c2.work,ignore_errors=True)
    print(p,u["entry"],s,r["status"],"%.1f"%r["time"],flush=True)
with ThreadPoolExecutor(5) as ex: list(ex.map(one,jobs))
for c in ctxs: shutil.rmtree(c.work,ignore_errors=True)
