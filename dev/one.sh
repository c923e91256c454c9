#!/bin/bash
# one proof unit, by hand: dev/one.sh <prop> <entry>
cd "$(dirname "$0")/.."
python3 - "$@" <<'P'
import sys; sys.argv=[sys.argv[0]]+sys.argv[1:]
sys.path.insert(0,'bin')
import check, json
ctx=check.Ctx(sys.argv[1],"quick")
try:
    units=[check.as_unit(ctx.spec,u) for u in ctx.spec["proofs"]+ctx.spec.get("thorough_proofs",[])]
    import fnmatch
    us=[u for u in units if any(fnmatch.fnmatch(u["entry"],p) for p in sys.argv[2:])]
    ctx.overlay(); ctx.gen()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda u: check.prove(ctx,u), us):
            print(r["status"],r["entry"],r["n"],"%.1f"%r["time"],r.get("why","")[:1500] if r["status"]!="proved" else "", flush=True)
            for b in r["failed"][:10]: print("   ",b["property"],b["description"],b["where"].get("line"))
finally:
    import shutil; shutil.rmtree(ctx.work)
P
