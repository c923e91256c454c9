#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Runs the deductive verifier over every proof unit of a property on /repo's
current source.  See DESIGN.md section 2 for the decision procedure.
exit 0: held on everything explored; exit 1: a VIOLATION line was printed.
"""
import sys, os, json, re, subprocess, time, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SM_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.path.insert(0, os.path.join(VERIF, "props"))
sys.dont_write_bytecode = True
import framecheck
from units import PROPS
NCPU = 8
T0 = time.time()
HARD_LIMIT = 840          # the caller allows 900 s

BASE_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
               "--div-by-zero-check", "--drop-unused-functions"]

def log(*a):
    print(*a, flush=True)

def run(cmd, timeout, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=max(1, timeout), **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), time.time() - t

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = PROPS[prop]
        self.work = tempfile.mkdtemp(prefix="smv-%s-" % prop)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", prop)
        self._gen = None
        self.dropped = []

    # ---- scratch overlay of /repo: a copy of the sources, with the few
    # ---- mechanical edits that goto-cc's C front end needs
    def overlay(self):
        o = os.path.join(self.work, "src")
        if os.path.isdir(o):
            return o
        os.makedirs(o)
        for root, dirs, files in os.walk(REPO):
            rel = os.path.relpath(root, REPO)
            if rel == ".":
                dirs[:] = [d for d in dirs if d not in ("_build", ".git", "test", "tools", "support_files")]
            d = os.path.join(o, rel)
            os.makedirs(d, exist_ok=True)
            for f in files:
                if f.endswith((".c", ".h")):
                    shutil.copyfile(os.path.join(root, f), os.path.join(d, f))
        # mechanical edits, all of them: a header without an include guard gets
        # one; write.c's non-constant initializer of a static is made automatic
        for rel, pat, sub in [
            ("server/libkvpsync/libkvpsync.h", r"\A", "#pragma once\n"),
            ("server/dns/write.c", r"static const size_t (needed|rdlen)", r"const size_t \1"),
        ] + self.spec.get("edits", []):
            p = os.path.join(o, rel)
            try:
                s = open(p, errors="surrogateescape").read()
            except OSError:
                continue
            s2 = re.sub(pat, sub, s)
            open(p, "w", errors="surrogateescape").write(s2)
        return o

    def gen(self):
        """generated headers (parsers, config.h), regenerated from /repo"""
        if not self.spec.get("needs_gen"):
            return []
        if self._gen is None:
            g = os.path.join(self.work, "gen")
            rc, out, _ = run(["cmake", "-S", REPO, "-B", g, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=debug", "-DBUILD_TESTS=no", "-DBUILD_SERVER_CODE=no",
                "-DPYTHON_3_CMD=/usr/bin/python3"], 120)
            if rc == 0:
                rc, out, _ = run(["ninja", "-C", g, "gen-imap-parse", "gen-imap-scan",
                    "gen-imf-parse", "gen-imf-scan", "gen-web-parse", "gen-web-scan",
                    "config_h"], 300)
            self._gen = g if rc == 0 else os.path.join(REPO, "_build")
        return ["-I", self._gen]

    def incs(self):
        return ["-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness"),
                "-I", self.overlay()] + self.gen()

    def left(self):
        return HARD_LIMIT - (time.time() - T0)

def opt(u, k, d=None):
    return u.get(k, d)

def as_unit(spec, u):
    if isinstance(u, str):
        u = {"entry": u}
    u = dict(u)
    u.setdefault("harness", spec.get("harness"))
    for k in ("cbmc", "defs"):
        u[k] = list(spec.get(k, [])) + list(u.get(k, []))
    u.setdefault("unwind", spec.get("unwind", 10))
    u.setdefault("timeout", spec.get("timeout", 400))
    return u

# --------------------------------------------------------------- cbmc runs
def goto_compile(ctx, u, mode, tag):
    gb = os.path.join(ctx.work, "%s-%s.gb" % (tag, u["entry"]))
    cmd = ["goto-cc", "-D" + mode, "-D_GNU_SOURCE"] + ["-D" + d for d in u["defs"]] + ctx.incs() + [
        os.path.join(VERIF, "harness", u["harness"]), "--function", u["entry"], "-o", gb]
    rc, out, dt = run(cmd, 120)
    # a function without a body is an arbitrary value to cbmc; refuse calls to
    # undeclared functions (renamed/removed) so that they count as structural
    if rc == 0 and not re.search(r"error:", out):
        m = re.search(r"function '(\w+)' is not declared", out)
        if m and not m.group(1).startswith("nondet_"):
            return None, "undeclared function " + m.group(1)
        if mode == "SM_PROOF" and u.get("replace"):
            # callers are checked against contracts: calls f -> c_f
            g2 = gb + ".r"
            a = ["goto-instrument"]
            for f in u["replace"]:
                a += ["--replace-calls", f if ":" in f else "%s:c_%s" % (f, f)]
            rc, o2, _ = run(a + [gb, g2], 120)
            if rc != 0:
                return None, "replace-calls: " + o2[-800:]
            # the one call that the harness makes to a recursive function
            # (whose own calls now go to its contract)
            for f in u.get("enter", []):
                rc, o2, _ = run(["goto-instrument", "--replace-calls", "x_%s:%s" % (f, f), g2, g2 + ".e"], 120)
                if rc != 0:
                    return None, "replace-calls: " + o2[-800:]
                g2 += ".e"
            return g2, out
        return gb, out
    return None, out

def cbmc_json(ctx, u, gb, extra, timeout):
    cmd = ["cbmc", gb] + BASE_CHECKS + ["--unwind", str(u["unwind"]), "--unwinding-assertions",
           "--json-ui"] + u["cbmc"] + extra
    if not any(x in cmd for x in ("--sat-solver", "--z3", "--cvc5")):
        cmd += ["--sat-solver", "cadical"]
    e = dict(os.environ)
    rc, out, dt = run(cmd, timeout, env=e)
    if rc is None:
        return None, "timeout after %ds" % timeout, dt, cmd
    try:
        data = json.loads(out)
    except Exception:
        return None, "cbmc gave no JSON: " + out[-2000:], dt, cmd
    res = None
    msgs = []
    for d in data:
        if "result" in d:
            res = d["result"]
        if d.get("messageType") == "ERROR":
            msgs.append(d.get("messageText", ""))
    if res is None:
        return None, "cbmc error: " + "\n".join(msgs), dt, cmd
    return res, "", dt, cmd

def trace_bytes(trace):
    b = bytearray()
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        l = s.get("lhs", "")
        if l in ("sm_in8", "sm_in16", "sm_in32", "sm_in64") and not s.get("hidden"):
            v = s.get("value", {})
            n = int(l[5:]) // 8
            fn = s.get("sourceLocation", {}).get("function", "")
            if not fn.startswith("sm_u"):
                continue
            x = int(v.get("binary", "0"), 2) if "binary" in v else int(v.get("data", "0"))
            b += (x & ((1 << (8*n)) - 1)).to_bytes(n, "little")
    return bytes(b)

def prove(ctx, u):
    """one proof unit -> dict(status = proved|failed|structural|unknown)"""
    r = {"entry": u["entry"], "harness": u["harness"], "failed": [], "covers": 0, "n": 0, "time": 0.0}
    if u.get("lean"):
        return prove_lean(ctx, u, r)
    gb, out = goto_compile(ctx, u, "SM_PROOF", "p")
    if gb is None:
        r.update(status="structural", why="the harness does not compile against this source: " + out[-1500:])
        return r
    ok, why, ncuts = framecheck.check(gb, u["entry"])
    r["cuts"] = ncuts
    if not ok:
        r.update(status="structural", why="loop frame: " + why)
        return r
    res, err, dt, cmd = cbmc_json(ctx, u, gb, [], min(u["timeout"], ctx.left() - 150))
    r["time"] = dt
    r["cmd"] = " ".join(cmd).replace(ctx.work, "$WORK")
    if res is None:
        r.update(status="unknown", why=err)
        return r
    bad, cov_ok, cov_bad, unw = [], 0, [], []
    for p in res:
        d = p.get("description", "")
        if d.startswith("cover: "):
            if p["status"] == "FAILURE":
                cov_ok += 1
            else:
                cov_bad.append(d)
        elif p["status"] == "SUCCESS":
            r["n"] += 1
        else:
            (unw if "unwind" in p.get("property", "") else bad).append(
                {"property": p.get("property"), "description": d,
                 "where": p.get("sourceLocation", {})})
    r["covers"] = cov_ok
    r["failed"] = bad
    if unw:
        r.update(status="structural", why="loop without contract: " + json.dumps(unw)[:800])
    elif bad:
        r.update(status="failed", why="; ".join(b["description"] for b in bad)[:1500])
    elif cov_bad or r["n"] == 0:
        r.update(status="structural", why="vacuous: unreachable " + "; ".join(cov_bad))
    else:
        r["status"] = "proved"
    return r

# ------------------------------------------------------------------ search
LINKSETS = {
    "dstr": (["libdstr"], []),
    "web": (["libweb"], ["libweb/generated/web_scan.c", "libweb/generated/web_parse.c"]),
    "crypto": (["libcrypto"], []),
    "imap": (["libimap"], ["libimap/generated/imap_scan.c", "libimap/generated/imap_parse.c",
                           "libimap/generated/imf_scan.c", "libimap/generated/imf_parse.c"]),
}
CFLAGS = ["-g", "-O1", "-w", "-D_GNU_SOURCE", "-DSM_NATIVE", "-fno-omit-frame-pointer",
          "-fsanitize=address,fuzzer-no-link", "-pthread"]

def build_lib(ctx, names):
    key = "lib-" + "-".join(names).replace("/", "_")
    arc = os.path.join(ctx.work, key + ".a")
    if os.path.exists(arc):
        return arc
    jobs = []
    for n in names:
        if n in LINKSETS:
            dirs, gens = LINKSETS[n]
            files = []
            for d in dirs:
                for f in sorted(glob.glob(os.path.join(ctx.overlay(), d, "*.c"))):
                    b = os.path.basename(f)
                    if b.startswith("test_") or b in ("win_compat.c",):
                        continue
                    if d == "libimap" and b == "scan.c":
                        continue
                    files.append(f)
            for g in gens:
                ctx.gen()
                files.append(os.path.join(ctx._gen, g))
        else:
            files = [os.path.join(ctx.overlay(), n)]
        jobs += files
    objs = []
    def one(f):
        o = os.path.join(ctx.work, "o-" + hashlib.md5(f.encode()).hexdigest()[:8] + "-" + os.path.basename(f)[:-2] + ".o")
        rc, out, _ = run(["clang"] + CFLAGS + ['-DFILE_BASENAME="%s"' % os.path.basename(f), "-DBUILD_DEBUG"] + ctx.incs() + ["-c", f, "-o", o], 120)
        return o if rc == 0 else None
    with ThreadPoolExecutor(NCPU) as ex:
        objs = [o for o in ex.map(one, jobs) if o]
    run(["ar", "rcs", arc] + objs, 60)
    return arc

def build_native(ctx, u, fuzz):
    exe = os.path.join(ctx.work, "%s-%s" % ("fz" if fuzz else "rp", u["entry"]))
    if os.path.exists(exe):
        return exe, ""
    libs = [build_lib(ctx, u.get("link", ["dstr"]))]
    base = ["clang", "-g", "-O1", "-w", "-D_GNU_SOURCE", "-DSM_NATIVE", "-DSM_ENTRY=" + u["entry"],
            "-fno-omit-frame-pointer", "-pthread"] + ["-D" + d for d in u["defs"]] + \
           (["-fsanitize=address,fuzzer"] if fuzz else ["-fsanitize=address", "-DSM_REPLAY_MAIN"]) + ctx.incs() + \
           [os.path.join(VERIF, "harness", u["harness"]), os.path.join(VERIF, "lib", "native.c"),
            "-Wl,--allow-multiple-definition"] + libs + u.get("ldflags", []) + ["-o", exe]
    if not fuzz:
        # the archive's objects carry coverage callbacks
        base += ["-fsanitize=fuzzer-no-link"]
    rc, out, _ = run(base, 180)
    if rc != 0:
        return None, out
    return exe, ""

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=77:hard_rss_limit_mb=4000:handle_abort=1",
            UBSAN_OPTIONS="halt_on_error=1")

def replay(ctx, u, data, timeout=20):
    """does the real code fail on this input?  -> (failed?, output)"""
    exe, err = build_native(ctx, u, False)
    if exe is None:
        return False, "no replay build: " + err[-800:]
    f = os.path.join(ctx.work, "in-%s-%s" % (u["entry"], hashlib.md5(data).hexdigest()[:10]))
    open(f, "wb").write(data)
    rc, out, _ = run([exe, f], timeout, env=NENV, cwd=ctx.work)
    if rc is None:
        return bool(u.get("hang", True)), "TIMEOUT: the call does not return within %ds\n%s" % (timeout, out[-2000:])
    return rc != 0, out

def save_replay(ctx, u, data, out, how):
    os.makedirs(ctx.replay_dir, exist_ok=True)
    base = os.path.join(ctx.replay_dir, u["entry"])
    open(base + ".input", "wb").write(data)
    p = base + ".txt"
    with open(p, "w") as f:
        f.write("property %s\nharness %s entry %s\nfound by: %s\ninput bytes (hex): %s\n\n"
                "the real code, compiled with clang -fsanitize=address, on this input:\n%s\n" % (
                ctx.prop, u["harness"], u["entry"], how, data.hex(), out[-6000:]))
    return p

def search_bmc(ctx, u, timeout):
    if not u.get("bmc", True):
        return None
    gb, out = goto_compile(ctx, u, "SM_BOUNDED", "s")
    if gb is None:
        return {"kind": "bmc", "status": "nobuild", "why": out[-800:]}
    u2 = dict(u)
    u2["unwind"] = u.get("bunwind", u["unwind"])
    res, err, dt, cmd = cbmc_json(ctx, u2, gb, ["--trace", "--object-bits", "11"], min(timeout, ctx.left() - 60))
    if res is None:
        return {"kind": "bmc", "status": "unknown", "why": err, "time": dt}
    n = 0
    fails = []
    for p in res:
        d = p.get("description", "")
        if d.startswith("cover: "):
            continue
        if p["status"] == "SUCCESS":
            n += 1
        elif p["status"] == "FAILURE":
            fails.append(p)
    fails.sort(key=lambda p: "unwind" in p.get("property", ""))
    for p in fails[:12]:
        data = trace_bytes(p.get("trace", []))
        bad, out = replay(ctx, u, data)
        if bad:
            return {"kind": "bmc", "status": "cex", "time": dt, "data": data, "out": out,
                    "desc": p.get("description"), "unit": u}
    return {"kind": "bmc", "status": "clean" if not fails else "unconfirmed", "n": n, "time": dt,
            "fails": [p.get("description") for p in fails]}

def search_fuzz(ctx, u, secs):
    if not u.get("fuzz", True):
        return None
    exe, err = build_native(ctx, u, True)
    if exe is None:
        return {"kind": "fuzz", "status": "nobuild", "why": err[-800:]}
    build_native(ctx, u, False)
    d = os.path.join(ctx.work, "fzd-" + u["entry"])
    os.makedirs(os.path.join(d, "corpus"), exist_ok=True)
    for i, s in enumerate(u.get("seeds", [])):
        open(os.path.join(d, "corpus", "s%d" % i), "wb").write(s)
    t = time.time()
    secs = int(min(secs, ctx.left() - 40))
    if secs < 3:
        return {"kind": "fuzz", "status": "unknown", "why": "no time"}
    nw = u.get("fuzz_workers", 2)
    procs = []
    for w in range(nw):
        art = os.path.join(d, "art%d-" % w)
        lg = open(os.path.join(d, "log%d" % w), "wb")
        procs.append((subprocess.Popen([exe, "-seed=%d" % (ctx.seed * 101 + w), "-max_total_time=%d" % secs,
            "-max_len=%d" % u.get("max_len", 256), "-timeout=%d" % u.get("fuzz_timeout", 5), "-rss_limit_mb=3000",
            "-use_value_profile=1", "-len_control=0" if w % 2 else "-len_control=100",
            "-artifact_prefix=" + art, "-print_final_stats=1", os.path.join(d, "corpus")],
            stdout=lg, stderr=lg, env=NENV, cwd=ctx.work), art))
    end = time.time() + secs + 30
    found = None
    while True:
        time.sleep(0.3)
        alive = [p for p, _ in procs if p.poll() is None]
        arts = []
        for _, art in procs:
            arts += [a for a in glob.glob(art + "*") if "oom-" not in a and "slow-unit" not in a]
        for a in arts:
            data = open(a, "rb").read()
            bad, out = replay(ctx, u, data)
            if bad:
                found = {"kind": "fuzz", "status": "cex", "data": data, "out": out, "unit": u,
                         "desc": "native search", "time": time.time() - t}
                break
            os.unlink(a)
        if found or not alive or time.time() > end:
            break
    for p, _ in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    if found:
        return found
    n = 0
    for w in range(nw):
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", open(os.path.join(d, "log%d" % w), errors="replace").read())
        n += int(m.group(1)) if m else 0
    return {"kind": "fuzz", "status": "clean" if n else "unknown", "n": n, "time": time.time() - t}

def do_search(ctx, budget_bmc, budget_fuzz):
    units = []
    for u in ctx.spec.get("searches", []):
        units.append(as_unit(ctx.spec, u))
    # build shared libs first, not concurrently
    ctx.overlay(); ctx.gen()
    for u in units:
        build_lib(ctx, u.get("link", ["dstr"]))
    jobs = []
    res = []
    per = max(1, len(units))
    fz = max(6, min(budget_fuzz, int(budget_fuzz * 4 / per))) if per > 4 else budget_fuzz
    with ThreadPoolExecutor(NCPU) as ex:
        for u in units:
            jobs.append((u, ex.submit(search_fuzz, ctx, u, fz)))
        if budget_bmc:
            for u in units:
                jobs.append((u, ex.submit(search_bmc, ctx, u, u.get("btimeout", budget_bmc))))
        for u, j in jobs:
            try:
                r = j.result()
            except Exception as e:
                r = {"kind": "?", "status": "unknown", "why": repr(e)}
            if r:
                r["entry"] = u["entry"]
                r["harness"] = u["harness"]
                res.append(r)
    return res

# ------------------------------------------------------------------- main
def load_known(prop):
    """known findings: lines  'finding: property=<id> key=<hex of the failing input or obligation name> <text>'"""
    out = []
    p = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in PROPS:
        log("unknown property", prop)
        return 1
    ctx = Ctx(prop, tier)
    try:
        return decide(ctx)
    finally:
        if os.environ.get("SM_KEEP"):
            log("work dir", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)

def decide(ctx):
    spec, prop, tier = ctx.spec, ctx.prop, ctx.tier
    shutil.rmtree(ctx.replay_dir, ignore_errors=True)
    units = [as_unit(spec, u) for u in spec["proofs"]]
    if tier == "thorough":
        units += [as_unit(spec, u) for u in spec.get("thorough_proofs", [])]
    ctx.overlay(); ctx.gen()
    units.sort(key=lambda u: -u.get("cost", 1))
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(lambda u: prove(ctx, u), units))
    for r in results:
        log("  %-11s %-34s %5d obligations %3d covers %6.1fs %s" % (
            r["status"], r["entry"], r["n"], r["covers"], r["time"],
            "" if r["status"] == "proved" else r.get("why", "")[:300]))
    allproved = all(r["status"] == "proved" for r in results)
    failed = [r for r in results if r["status"] == "failed"]
    searches = []
    if allproved:
        if tier == "thorough":
            searches = do_search(ctx, 240, 180)
        else:
            searches = do_search(ctx, 0, spec.get("conform", 10))
    else:
        # first: replay the verifier's own counterexample, for units that run
        # the real code with no contract standing in for a callee
        cex = None
        for r in results:
            if r["status"] != "failed":
                continue
            u = next(x for x in units if x["entry"] == r["entry"] and x["harness"] == r["harness"])
            if not u.get("replayable"):
                continue
            gb, _ = goto_compile(ctx, u, "SM_PROOF", "t")
            if gb is None:
                continue
            res, err, dt, cmd = cbmc_json(ctx, u, gb, ["--trace"], min(u["timeout"], ctx.left() - 200))
            for p in res or []:
                if p["status"] == "FAILURE" and not p.get("description", "").startswith("cover: "):
                    data = trace_bytes(p.get("trace", []))
                    bad, out = replay(ctx, u, data)
                    if bad:
                        cex = {"kind": "proof", "status": "cex", "data": data, "out": out, "unit": u,
                               "desc": p.get("description"), "entry": u["entry"], "harness": u["harness"]}
                        break
            if cex:
                break
        searches = [cex] if cex else do_search(ctx, min(240, ctx.left() - 120), min(100, ctx.left() - 120))
    for s in searches:
        log("  search %-5s %-30s %s %s" % (s["kind"], s["entry"], s["status"], str(s.get("desc") or s.get("why") or s.get("fails") or s.get("n") or "")[:300]))
    viol = None
    known = load_known(prop)
    printed = []
    for s in searches:
        if s["status"] == "cex":
            p = save_replay(ctx, s["unit"], s["data"], s["out"], "%s search, %s" % (s["kind"], s.get("desc")))
            viol = ("VIOLATION property=%s replay=%s" % (prop, p))
            log("  failing input: %s  %s" % (s["data"].hex()[:400], "\n".join(
                l for l in s["out"].splitlines() if "SM_ASSERT" in l or "ERROR: AddressSanitizer" in l or "TIMEOUT" in l)[:400]))
            break
    if viol is None and failed:
        os.makedirs(ctx.replay_dir, exist_ok=True)
        p = os.path.join(ctx.replay_dir, "failed-obligations.txt")
        with open(p, "w") as f:
            for r in failed:
                f.write("unit %s (%s)\ncommand: %s\n" % (r["entry"], r["harness"], r.get("cmd")))
                for b in r["failed"]:
                    f.write("  FAILED %s: %s at %s\n" % (b["property"], b["description"], json.dumps(b["where"])))
        viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p)
        log("  failed obligations: " + "; ".join(r["why"] for r in failed)[:600])
    for k, text in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, text))
    write_evidence(ctx, units, results, searches, viol, allproved)
    if viol:
        log(viol)
        return 1
    if not allproved:
        log("  note: not every contract could be applied to this source; bounded stand-in only (see evidence)")
    return 0

def write_evidence(ctx, units, results, searches, viol, allproved):
    spec = ctx.spec
    n = sum(r["n"] for r in results)
    proved = [r for r in results if r["status"] == "proved"]
    nd = sum(r["n"] for r in proved)
    bad = sum(len(r["failed"]) for r in results)
    level = spec.get("level", "proof") if allproved else "other"
    cov = {
        "obligations": n + bad, "discharged": n,
        "checker_cmd": "bash /verif/run.sh %s %s" % (ctx.prop, ctx.tier),
        "trusted_base": ["cbmc 6.11.0 (goto-cc front end, symbolic execution, cadical)", "bin/framecheck.py",
            "lib/sm.h", "the specification text in harness/"] + spec.get("trusted", []),
        "functions_under_contract": spec.get("functions", []),
        "bounded_functions": spec.get("bounded", []),
        "units": [{"entry": r["entry"], "status": r["status"], "obligations": r["n"],
                   "loops_with_contract": r.get("cuts", 0),
                   "vacuity_covers_reached": r["covers"], "solver_s": round(r["time"], 1),
                   "back_end": "cbmc/cadical (SAT)" if not u.get("lean") else "lean kernel",
                   "why": r.get("why", "")[:300]} for u, r in zip(units, results)],
        "searches": [{"entry": s["entry"], "kind": s["kind"], "status": s["status"], "n": s.get("n"),
                      "s": round(s.get("time", 0), 1)} for s in searches],
        "explanation": ("every obligation generated from the current source was discharged; the native runs are a "
            "bounded conformance run of assumed contracts and are not counted as proof" if allproved else
            "at least one unit was not proved on this source; what remains is the bounded search listed"),
    }
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - T0, 1), "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)

COMMON_ASSUMPTIONS = [
    "goto-cc's reading of the C source agrees with the compiler's (x86-64, LP64)",
    "the text of error and log messages is dropped (and with it the evaluation of format arguments); error types and control flow are kept",
    "objects are at most 2^48 bytes",
]

if __name__ == "__main__":
    sys.exit(main())
