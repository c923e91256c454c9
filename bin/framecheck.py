"""Frame conditions of the in-place loop contracts (SM_CUT).

SM_CUT forgets exactly the state its `mods` argument lists.  That is sound
only if `mods` covers everything one iteration can write.  This checker works
on the goto program (so after the C front end, on the code that is verified)
and refuses a loop unless

  - every object outside the loop that an instruction of the loop assigns,
    and every global that a function reachable from the loop assigns, is in
    `mods`;
  - every outer local whose address the loop takes is in `mods`, or is named
    in SM_KEEP(x), which also asserts at the cut that x is unchanged;
  - if the loop, or a function it reaches, stores through a pointer, the loop
    has an SM_MODMEM/SM_KEEPMEM clause, which states what happens to memory.
"""
import re, subprocess

ID = r"[A-Za-z_$][\w$]*(?:::[\w$#]+)*"

class Instr:
    __slots__ = ("label", "op", "text", "targets")

def parse(gb):
    tmp = gb + ".fp"
    p = subprocess.run(["goto-instrument", "--remove-function-pointers", gb, tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    src = tmp if p.returncode == 0 else gb
    out = subprocess.run(["goto-instrument", "--show-goto-functions", src],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("utf8", "replace")
    funcs, cur = {}, None
    for line in out.splitlines():
        m = re.match(r"^(\S+) /\* (\S+) \*/$", line)
        if m:
            cur = funcs.setdefault(m.group(2), [])
            continue
        if cur is None or not line.strip() or re.match(r"^\s*// \d+", line):
            continue
        m = re.match(r"^\s*(?:(\d+):)?\s*([A-Z_]+)\b(.*)$", line)
        if not m or line.startswith("^"):
            if cur and line.startswith(" "):
                cur[-1].text += " " + line.strip()
            continue
        i = Instr()
        i.label = int(m.group(1)) if m.group(1) else None
        i.op, i.text = m.group(2), m.group(3).strip()
        cur.append(i)
    return funcs

def strip_casts(s):
    return s

def lhs_of(i):
    """text of the assigned lvalue, or None"""
    if i.op == "ASSIGN":
        return i.text.split(" := ", 1)[0]
    if i.op == "CALL" and " := " in i.text.split("(", 1)[0] + ("" if " := " not in i.text else " := "):
        m = re.match(r"^(.*?) := ", i.text)
        return m.group(1) if m else None
    if i.op in ("OTHER",):
        return None
    return None

def base_of(lhs):
    """('obj', name) for a named object, ('mem', text) for a store through a pointer"""
    t = lhs.strip()
    while t.startswith("("):
        t = t[1:]
    if t.startswith("*") or "->" in t or "byte_extract" in t:
        return ("mem", lhs)
    m = re.match(ID, t)
    if not m:
        return ("mem", lhs)
    name = m.group(0)
    rest = t[m.end():]
    if re.search(r"\(\*", lhs):
        return ("mem", lhs)
    if rest.startswith("[") or rest.startswith(".") or rest == "":
        return ("obj", name)
    return ("mem", lhs)

def callee(i):
    if i.op != "CALL":
        return None
    t = i.text
    if " := " in t.split("(", 1)[0] or re.match(r"^[^(]*\S+ := ", t):
        t = t.split(" := ", 1)[1]
    m = re.match(r"(%s)\(" % ID, t)
    return m.group(1) if m else "?"

IGNORE_GLOBAL = re.compile(r"^(__CPROVER|sm_in(8|16|32|64)$|nondet_|.*#return_value|return')")

# functions that CBMC itself models; any other function without a body would
# silently be an arbitrary value without effects
MODELLED = {"malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strncmp",
            "strchr", "abort", "exit", "fprintf", "printf", "puts", "__assert_fail"}

def check(gb, entry):
    """-> (ok, reason, number of cut loops reachable)"""
    funcs = parse(gb)
    if entry not in funcs:
        return False, "entry %s has no body" % entry, 0
    # reachable functions
    reach, todo = set(), [entry]
    while todo:
        f = todo.pop()
        if f in reach or f is None or f == "?":
            continue
        if not funcs.get(f):
            if not (f in MODELLED or f.startswith(("nondet_", "__CPROVER"))):
                return False, "%s is called but has neither a body nor a contract" % f, 0
            continue
        reach.add(f)
        todo += [callee(i) for i in funcs[f] if i.op == "CALL"]
    memo = {}
    def effects(f, stack=()):
        """(globals written, stores through pointers?) transitively"""
        if f in memo:
            return memo[f]
        if f in stack or f not in funcs:
            return (frozenset(), False)
        g, mem = set(), False
        for i in funcs[f]:
            l = lhs_of(i)
            if l is not None:
                k, n = base_of(l)
                if k == "mem":
                    mem = True
                elif "::" not in n or is_static_local(f, n, decls(f)):
                    g.add(n)
            if i.op == "CALL":
                c = callee(i)
                if c and c.startswith("sm_hv_"):
                    continue
                cg, cm = effects(c, stack + (f,))
                g |= cg
                mem = mem or cm
        memo[f] = (frozenset(g), mem)
        return memo[f]
    dmemo = {}
    def decls(f):
        if f not in dmemo:
            dmemo[f] = {i.text.split(" : ")[0].strip() for i in funcs[f] if i.op == "DECL"}
        return dmemo[f]
    ncuts = 0
    for f in sorted(reach):
        ins = funcs[f]
        lab = {i.label: n for n, i in enumerate(ins) if i.label is not None}
        back = []
        for n, i in enumerate(ins):
            if i.op in ("GOTO", "IF"):
                for t in re.findall(r"\bGOTO (\d+)", i.op + " " + i.text):
                    t = lab.get(int(t))
                    if t is not None and t <= n:
                        back.append((t, n))
        for n, i in enumerate(ins):
            m = re.match(r"^(\S*::sm_seen_(\w+)) := cast\(1", i.text) if i.op == "ASSIGN" else None
            if not m:
                continue
            ncuts += 1
            cid = m.group(2)
            loops = sorted([(b - a, a, b) for a, b in back if a <= n <= b])
            if not loops:
                return False, "%s: cut %s is not in a loop" % (f, cid), ncuts
            # several back edges (continue) to one head are one loop
            head = loops[0][1]
            a, b = head, max(bb for _, aa, bb in loops if aa == head)
            body = ins[a:b+1]
            inner = {x.text.split(" : ")[0].strip() for x in body if x.op == "DECL"}
            # the marked havoc instructions
            mods, keeps, modmem = set(), set(), False
            write = {}
            for x in body:
                if x.op == "DECL" or x.op == "DEAD":
                    continue
                l = lhs_of(x)
                if x.op == "ASSIGN" and re.search(r"::sm_t_$", x.text.strip()):
                    k, nm = base_of(l)
                    mods.add(nm)
                    continue
                if "sm_keepmem_" in x.text or "sm_hv_" in x.text:
                    modmem = True
                if x.op == "CALL" and (callee(x) or "").startswith("sm_hv_"):
                    # the globals that the harness's havoc function havocs
                    for y in funcs.get(callee(x), []):
                        if y.op == "ASSIGN" and re.search(r"::sm_t_$", y.text.strip()):
                            k, nm = base_of(lhs_of(y))
                            if k == "obj" and "::" not in nm:
                                mods.add(nm)
                km = re.search(r"sm_keep_\(\s*(?:cast\()?(?:address_of\(|&)\s*(%s)" % ID, x.text)
                if km:
                    keeps.add(km.group(1))
                    continue
                if l is not None:
                    k, nm = base_of(l)
                    if k == "mem":
                        write.setdefault("mem", x.text)
                    elif nm not in inner:
                        write.setdefault(nm, x.text)
                if x.op in ("OTHER",) and re.search(r"array_(set|copy|replace)|havoc", x.text):
                    write.setdefault("mem", x.text)
                if x.op in ("ASSIGN", "CALL", "RETURN", "SET_RETURN_VALUE", "OTHER"):
                    for am in re.finditer(r"(?:address_of\(|&)\s*\(*(%s)" % ID, x.text):
                        nm = am.group(1)
                        if nm in funcs or nm.startswith('"'):
                            continue
                        if "::" in nm and nm not in inner and not is_static_local(f, nm, decls(f)):
                            write.setdefault(nm, "address taken: " + x.text)
                        elif "::" not in nm:
                            pass  # globals: decided by the effects of the callees
                    # an outer local array decays to a pointer without '&'
                if x.op == "CALL":
                    c = callee(x)
                    if c and (c.startswith("sm_hv_") or c.startswith("sm_keep")):
                        continue
                    if c == "?":
                        write.setdefault("mem", x.text)
                        continue
                    g, mem = effects(c)
                    for nm in g:
                        write.setdefault(nm, "written by " + c)
                    if mem:
                        # the callee stores through a pointer
                        write.setdefault("mem", "stores in " + c)
            for nm, why in write.items():
                if nm.startswith("%s::" % f) and re.search(r"::(sm_seen_|sm_dec_|sm_k_)", nm):
                    continue
                if re.search(r"\$tmp|tmp_if_expr|return_value", nm):
                    continue
                if IGNORE_GLOBAL.match(nm):
                    continue
                if nm == "mem":
                    if not modmem:
                        return False, "%s: loop %s stores through a pointer without a memory clause (%s)" % (f, cid, why[:120]), ncuts
                    continue
                if nm not in mods and nm not in keeps:
                    return False, "%s: loop %s writes %s, which its contract does not list (%s)" % (f, cid, nm, why[:120]), ncuts
    return True, "", ncuts

def is_static_local(f, name, declared):
    # f::1::x with no DECL is a static local (parameters are f::x, two parts)
    if not name.startswith(f + "::"):
        return "::" in name
    parts = name.split("::")
    if len(parts) == 2:
        return False
    return name not in declared and "$tmp" not in name

if __name__ == "__main__":
    import sys
    print(check(sys.argv[1], sys.argv[2]))
