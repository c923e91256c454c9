#!/bin/bash
# dev/gb.sh <prop> <entry> <out.gb>: just the goto program of one unit
cd "$(dirname "$0")/.."
python3 - "$@" <<'P'
import sys
sys.path.insert(0,'bin')
import check, shutil
ctx=check.Ctx(sys.argv[1],"quick")
u=[check.as_unit(ctx.spec,u) for u in ctx.spec["proofs"] if (u if isinstance(u,str) else u["entry"])==sys.argv[2]][0]
gb,out=check.goto_compile(ctx,u,"SM_PROOF","p")
print(out[-500:] if gb is None else gb)
shutil.copyfile(gb,sys.argv[3]); print("cbmc",sys.argv[3]," ".join(check.BASE_CHECKS+["--unwind",str(u["unwind"]),"--unwinding-assertions"]+u["cbmc"]))
shutil.rmtree(ctx.work)
P
